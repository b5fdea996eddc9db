"""C04: the cursor follows every write; writing wraps and clips."""

from ..display import Session, build_world
from ..loader import load_slate

RULE = ("random histories of positioned (also off-screen) and unpositioned writes, bulk writes, cursor "
        "assignments, clears and resizes; the cursor is compared after each operation and the "
        "display after each draw. Non-trivial: an unpositioned write continued another one and a "
        "draw was compared")
REAL = ["slate.terminal", "slate.screen", "slate.span", "slate.color", "slate.event"]
STUBS = ["terminal (emulator)", "window size", "output stream"]


def build(c):
    w, origin = build_world(c)
    w.cfg_origin = origin
    return w


def check_cursor(w, s, what) -> None:
    got = w.api("cursor", lambda: s.term.cursor)
    if tuple(got) != tuple(s.model.cursor):
        w.sim.fail("cursor", f"after {what} the cursor is {got}, expected {s.model.cursor}")


def execute(w):
    c = w.c
    slate = load_slate(w)
    s = Session(w, slate, origin=w.cfg_origin)
    s.unplaced = c.pick([2, 4, 6])
    check_cursor(w, s, "start")
    table = [(8, "write"), (3, "draw"), (c.pick([1, 3]), "bulk"), (c.pick([0, 1]), "clear"),
             (c.pick([0, 1]), "redraw"), (c.pick([0, 0, 2]), "resize"), (c.pick([1, 3]), "cursor"),
             (c.pick([0, 0, 0, 2]), "around")]
    table = [pair for pair in table if pair[0]]
    continued = draws = 0
    wrote = False
    for _ in range(c.rounds(3, 26, w.size[0] * w.size[1] < 100)):
        c.begin()
        op = c.weighted(table)
        if op == "write":
            s.op_write(wild=True)
            if s.last_pos is None:
                continued += wrote
            wrote = True
        elif op == "bulk":
            s.op_bulk(wild=True)
            wrote = True
        elif op == "clear":
            s.op_clear()
        elif op == "resize":
            s.env_resize()
            s.op_size()
        elif op == "around":
            s.op_around()
        elif op == "cursor":
            s.op_cursor(wild=True)
        else:
            s.op_draw(redraw=op == "redraw")
            if w.emu.scrolled:
                w.sim.fail("scrolled", "drawing scrolled the terminal")
            s.check_display(op)
            draws += 1
        check_cursor(w, s, op)
        c.end()
    s.op_draw()
    s.check_display("final draw")
    check_cursor(w, s, "the final draw")
    return continued > 0 and draws > 0
