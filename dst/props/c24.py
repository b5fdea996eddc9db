"""C24: terminals do not interfere with each other."""

from ..display import Session, build_world
from ..loader import load_slate
from ..vt import Emulator
from .c02 import Faults
from .c03 import check_count, check_draw

RULE = ("two or three terminals on their own streams, used alternately: writes, bulk writes, clears, "
        "draws (some failing), cursor moves, resizes noticed by one and not yet by the other, titles, "
        "mode contexts, listeners; after every operation on one, the state, display, listeners and "
        "output of the others are compared with what they were. Non-trivial: both were drawn to and "
        "compared after operations on the other")
REAL = ["slate.terminal", "slate.screen", "slate.span", "slate.color", "slate.event"]
STUBS = ["terminals (emulators)", "window size", "output streams"]


def build(c):
    w, origin = build_world(c)
    w.cfg_origin = origin
    return w


class Party:
    """One terminal, its window and what is known of it."""

    def __init__(self, w, slate, number, emu) -> None:
        self.w, self.number = w, number
        origin = w.cfg_origin
        self.emu = emu
        self.s = Session(w, slate, origin=origin, emu=emu)
        self.hook = w.on_size_query
        self.faults = Faults(w, self.s.out)
        self.resizes: list = []
        self.spaces: list = []
        self.title = self.known_title = emu.title
        self.due_title = None
        self.observed = w.size
        self.mine = False  # an operation on this terminal is in progress
        self.draws = 0
        self.visited = 0
        term = self.s.term

        def resized(size):
            self.resizes.append(tuple(size))
            if not self.mine:
                w.sim.fail("listener", f"terminal {number}'s resize listener was called by another's query")

        def spaced(space):
            self.spaces.append(space)
            if not self.mine:
                w.sim.fail("listener", f"terminal {number}'s colour space listener was called for another")

        term.on_resize += resized
        term.on_color_space_set += spaced
        emu.history.clear()
        self.freeze()

    def state(self):
        emu, term = self.emu, self.s.term
        return (tuple(term.cursor), emu.title, tuple(emu.title_stack), emu.in_alt, emu.cursor_shown,
                frozenset(emu.modes), emu.sync, len(emu.history), len(emu.printed), emu.x, emu.y,
                self.s.out.buffer_text, len(self.resizes), len(self.spaces))

    def freeze(self) -> None:
        self.before = self.state()

    def check_untouched(self, what) -> None:
        now = self.state()
        if now != self.before:
            names = ("cursor", "title", "title stack", "buffer", "cursor shown", "modes", "sync",
                     "controls", "printed", "x", "y", "unflushed", "resizes", "colour spaces")
            diff = [f"{name}: {a!r} -> {b!r}" for name, a, b in zip(names, self.before, now) if a != b]
            self.w.sim.fail("touched", f"{what} on another terminal changed terminal {self.number}: {diff}")


def execute(w):
    c, sim = w.c, w.sim
    slate = load_slate(w)
    count = c.weighted([(12, 2), (3, 3), (1, 6)])
    emus = [w.emu]
    for _ in range(count - 1):
        emu = Emulator(w.size)
        emu.resize(w.emu.size, garble=True)
        w.more_emus.append(emu)
        emus.append(emu)
    parties = [Party(w, slate, number, emu) for number, emu in enumerate(emus)]
    shared = c.chance(1, 2)  # the same spans and colours are given to all of them
    if shared:
        for party in parties[1:]:
            party.s.maker = parties[0].s.maker
            party.s.palette = parties[0].s.palette
    for party in parties:
        party.s.repeat = c.pick([1, 4])
    last = None

    def operate(party, op) -> None:
        nonlocal last
        s, term = party.s, party.s.term
        w.on_size_query = party.hook
        if last not in (None, party):
            party.visited += 1
        last = party
        if op == "write":
            if shared and c.chance(1, 3):
                s.last_items = c.pick(parties).s.last_items
            check_count(w, s, s.op_write())
        elif op == "bulk":
            check_count(w, s, s.op_bulk())
        elif op == "clear":
            s.op_clear()
        elif op == "cursor":
            s.op_cursor()
        elif op == "size":
            before = len(party.resizes)
            changed = s.model.size != w.size
            s.op_size()
            got = party.resizes[before:]
            if got != [w.size] * changed:
                sim.fail("announced", f"terminal {party.number} went from {s.model.size} to {w.size}, "
                                      f"announced {got}")
        elif op == "title":
            new = c.pick(["one", "two", None])
            sim.log(f"set_title {new!r}")
            w.api("set_title", term.set_title, new)
            if new is None:
                party.known_title, party.due_title = party.due_title or party.known_title, None
            else:
                party.due_title = party.due_title or party.known_title
                party.known_title = new
            if party.emu.title != party.known_title:
                sim.fail("title", f"terminal {party.number} shows the title {party.emu.title!r}, due is "
                                  f"{party.known_title!r}")
        elif op == "mode":
            kind = c.pick(["report_mouse", "batch", "show_cursor"])
            sim.log(kind)
            if kind == "show_cursor":
                w.api(kind, term.show_cursor, c.chance(1, 2))
            else:
                with getattr(term, kind)():
                    for other in parties:
                        if other is not party:
                            other.check_untouched(kind)
        elif op == "space":
            before = len(party.spaces)
            space = c.pick([slate.ColorSpace.TRUE_COLOR, None])
            sim.log(f"color_space = {space}")

            def assign():
                term.color_space = space

            w.api("color_space", assign)
            if len(party.spaces) != before + 1:
                sim.fail("listener", f"setting the colour space called {len(party.spaces) - before} listeners")
        else:
            if c.chance(1, 6):
                party.faults.arm(c)
                try:
                    s.op_draw(redraw=op == "redraw", allow=(BaseException,))
                except BaseException as exc:  # pylint: disable=broad-except
                    if exc is not party.faults.raised:
                        raise
                    party.failed = True
                    s.model.all_dirty()
                    party.faults.disarm()
                    party.faults.raised = None
                    return
                finally:
                    party.faults.disarm()
                    party.faults.raised = None
            else:
                printed = s.op_draw(redraw=op == "redraw")
                if s.in_step() and not getattr(party, "failed", False):
                    check_draw(w, s, printed, op == "redraw")
            if s.in_step():
                s.check_display(f"terminal {party.number}, {op}")
                party.failed = False
                party.draws += 1
            s.drawn()

    table = [(8, "write"), (5, "draw"), (c.pick([1, 3]), "bulk"), (1, "clear"), (1, "redraw"),
             (1, "cursor"), (c.pick([0, 2]), "resize"), (2, "size"), (1, "title"), (1, "mode"),
             (c.pick([0, 1]), "space")]
    table = [pair for pair in table if pair[0]]
    for _ in range(c.rounds(5, 36)):
        c.begin()
        party = c.pick(parties)
        op = c.weighted(table)
        if op == "resize":
            size = (c.between(1, 14), c.between(1, 7))
            while any(other.s.model.size == size for other in parties) or size == w.size:
                size = (size[0] + 1, size[1])
            w.resize(size, garble=c.chance(1, 2))
            for other in parties:
                other.freeze()
        else:
            sim.log(f"terminal {party.number}: {op}")
            party.mine = True
            try:
                operate(party, op)
            finally:
                party.mine = False
            for other in parties:
                if other is not party:
                    other.check_untouched(op)
            party.freeze()
        c.end()
    for party in parties:
        c.begin()
        party.mine = True
        operate(party, "size")
        w.on_size_query = party.hook
        party.s.op_draw()
        party.s.check_display(f"terminal {party.number}, final draw")
        party.mine = False
        for other in parties:
            if other is not party:
                other.check_untouched("final draw")
        party.freeze()
        c.end()
    return sum(party.draws > 0 and party.visited > 1 for party in parties) >= 2
