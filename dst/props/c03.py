"""C03: draws transmit only changed cells, and write counts are truthful."""

from ..display import Session, build_world
from ..loader import load_slate

RULE = ("random histories of plain, forced and bulk writes, clears, resizes and draws, with much "
        "rewriting of the same content; non-trivial: at least two incremental draws were compared "
        "with the reference sets and at least three counts were checked")
REAL = ["slate.terminal", "slate.screen", "slate.span", "slate.color", "slate.event"]
STUBS = ["terminal (emulator)", "window size", "output stream"]


def build(c):
    w, origin = build_world(c)
    w.cfg_origin = origin
    return w


def check_draw(w, s, printed, redraw) -> None:
    model, sim = s.model, w.sim
    cells = set(printed)
    if len(cells) != len(printed):
        twice = sorted(pos for pos in cells if printed.count(pos) > 1)
        sim.fail("printed_twice", f"a draw printed {twice} more than once")
    if not redraw:
        extra = cells - model.maybe
        if extra:
            sim.fail("needless", f"a draw printed {sorted(extra)[:6]}, untouched since the last draw")
    missing = model.forced - cells
    if missing:
        sim.fail("forced_not_printed", f"forced overwrite of {sorted(missing)[:6]} was not printed")
    s.drawn()


def check_count(w, s, result) -> None:
    got, (least, most), (force, covered) = result
    sim = w.sim
    if isinstance(got, bool) or not isinstance(got, int):
        sim.fail("count", f"a write returned {got!r}")
    if force and got != covered:
        sim.fail("count", f"a forced write of {covered} cells returned {got}")
    if not least <= got <= most:
        sim.fail("count", f"a write returned {got}; {least} to {most} of {covered} cells changed")
    if most == 0:
        sim.probe("rewrite_of_same")


def execute(w):
    c = w.c
    slate = load_slate(w)
    s = Session(w, slate, origin=w.cfg_origin)
    s.repeat = c.pick([2, 5, 8])
    table = [(8, "write"), (4, "draw"), (c.pick([1, 4]), "bulk"), (c.pick([0, 1]), "clear"),
             (c.pick([0, 1]), "redraw"), (c.pick([0, 0, 1]), "resize"), (c.pick([0, 1]), "again"),
             (c.pick([0, 0, 1]), "export"), (c.pick([0, 0, 0, 2]), "around")]
    table = [pair for pair in table if pair[0]]
    draws = counts = 0
    for _ in range(c.rounds(4, 28, w.size[0] * w.size[1] < 100)):
        c.begin()
        op = c.weighted(table)
        if op == "write":
            check_count(w, s, s.op_write(wild=True))
            counts += 1
        elif op == "bulk":
            check_count(w, s, s.op_bulk(wild=True))
            counts += 1
        elif op == "export":
            s.op_export()
        elif op == "around":
            s.op_around()
        elif op == "clear":
            s.op_clear()
        elif op == "resize":
            s.env_resize()
            s.op_size()
        elif op == "again":
            result = s.op_again()
            if result is not None:
                check_count(w, s, result)
        else:
            printed = s.op_draw(redraw=op == "redraw")
            check_draw(w, s, printed, op == "redraw")
            s.check_display(op)
            draws += 1
        c.end()
    printed = s.op_draw()
    check_draw(w, s, printed, False)
    s.check_display("final draw")
    return draws >= 2 and counts >= 3
