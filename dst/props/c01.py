"""C01: a completed draw shows exactly what was last written."""

from ..display import Session, build_world
from ..loader import load_slate

RULE = ("random histories of write/write_bulk/clear/draw/size with resizes; non-trivial: at least two "
        "completed draws compared cell by cell, with writes between them")
REAL = ["slate.terminal", "slate.screen", "slate.span", "slate.color", "slate.event"]
STUBS = ["terminal (emulator)", "window size", "output stream"]


def build(c):
    w, w_origin = build_world(c)
    w.cfg_origin = w_origin
    return w


def execute(w):
    c = w.c
    slate = load_slate(w)
    s = Session(w, slate, origin=w.cfg_origin)
    s.translucent = c.pick([0, 0, 1, 4])
    weights = [c.weighted([(2, 1), (2, 0), (1, 3)]) for _ in range(5)]
    table = [(6, "write"), (4, "draw"), (1 + 2 * weights[0], "bulk"), (weights[1], "clear"),
             (weights[2], "redraw"), (weights[3], "resize"), (1 + weights[3], "size"),
             (weights[4], "cursor"), (c.pick([0, 0, 1]), "export"),
             (c.pick([0, 0, 1]), "scribble"), (c.pick([0, 0, 1]), "move"), (c.pick([0, 0, 0, 2]), "around")]
    table = [(wt, op) for wt, op in table if wt]
    scribbled = False  # the display was overwritten behind the library's back
    for _ in range(c.rounds(3, 28, w.size[0] * w.size[1] < 100)):
        c.begin()
        op = c.weighted(table)
        if op == "write":
            s.op_write()
        elif op == "bulk":
            s.op_bulk()
        elif op == "export":
            s.op_export()
        elif op == "clear":
            s.op_clear()
        elif op == "resize":
            s.env_resize()
        elif op == "size":
            s.op_size()
        elif op == "cursor":
            s.op_cursor()
        elif op == "around":
            scribbled = s.op_around(alt=True) or scribbled
        elif op == "scribble":
            s.scribble()
            scribbled = True
        elif op == "move":
            s.op_move()
            scribbled = True
        else:
            if scribbled and c.chance(1, 2):
                op = "redraw"
            s.op_draw(redraw=op == "redraw")
            if op == "redraw":
                scribbled = False
            if s.in_step() and not scribbled:
                s.check_display(op)
                w.sim.probe(op)
        c.end()
    c.begin()
    s.op_size()
    s.op_draw(redraw=scribbled or c.chance(1, 4))
    s.check_display("final draw")
    c.end()
    return s.clean_draws >= 2
