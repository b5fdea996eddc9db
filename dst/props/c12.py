"""C12: each noticed resize is announced once, with everything consistent."""

import signal

from ..display import Session, build_world
from ..loader import load_slate

RULE = ("random histories of resizes and size queries with one to four listeners which themselves "
        "query the size, write, draw, register listeners, raise, and during which the terminal is "
        "resized again, also from a window-change signal handler in the middle of a draw. "
        "Non-trivial: a resize was announced while another announcement was in progress, or a "
        "listener raised, or a handler ran during a draw")
REAL = ["slate.terminal", "slate.screen", "slate.event", "slate.span", "slate.color"]
STUBS = ["terminal (emulator)", "window size", "output stream", "signals"]


class Boom(Exception):
    pass


def build(c):
    w, origin = build_world(c)
    w.cfg_origin = origin
    return w


class Watch:
    """Follows what was observed and what was announced."""

    def __init__(self, w, s) -> None:
        self.w, self.s, self.c, self.sim = w, s, w.c, w.sim
        self.known = tuple(w.observed_size)
        self.listeners: list[int] = []
        self.stack: list[dict] = []  # emissions in progress
        self.depth = 0
        self.budget = w.c.between(2, 14)  # actions listeners may take
        self.boom = None
        self.announced = self.nested = self.raised = 0
        self.held: list[set] = []  # sizes held during each call in progress
        self.quiet_raise = False
        original = s.w.on_size_query

        def queried():
            if self.c.chance(1, 12) and self.budget > 0 and self.depth < 3:
                # the terminal is resized as the question is being asked
                self.budget -= 1
                self.resize()
            original()

        w.on_size_query = queried

    def resize(self) -> None:
        if self.c.chance(1, 30) and (80, 24) not in (self.w.size, self.s.model.size):
            self.sim.fire("size_unknown")
            self.w.resize((80, 24), unknown=self.c.pick(["error", "zero"]))
        else:
            self.s.env_resize()
        for sizes in self.held:
            sizes.add(self.w.size)

    # -- listeners -------------------------------------------------------------------------------

    def register(self) -> None:
        number = len(self.listeners)
        term = self.s.term

        def listener(data):
            return self.called(number, data)

        if self.c.chance(1, 2):
            term.on_resize += listener
        else:
            term.on_resize.append(listener)
        self.listeners.append(number)
        for emission in self.stack:
            emission["late"].add(number)
        self.sim.log(f"listener {number} registered")

    def called(self, number: int, data):
        sim, c = self.sim, self.c
        data = tuple(data)
        sim.log(f"listener {number} called with {data}")
        if number == 0:
            if data == self.known:
                sim.fail("again", f"{data} is announced although it was announced last")
            if data != tuple(self.w.observed_size):
                sim.fail("stale", f"{data} is announced, but {tuple(self.w.observed_size)} was observed")
            if self.stack:
                self.nested += 1
                sim.probe("nested_announcement")
            self.known = data
            self.announced += 1
            self.stack.append({"size": data, "got": set(), "late": set()})
        if not self.stack:
            sim.fail("order", f"listener {number} called with {data} although none before it was")
        emission = self.stack[-1]
        if emission["size"] != data:
            sim.fail("size", f"listener {number} is told {data}, others {emission['size']}")
        if number in emission["got"]:
            sim.fail("twice", f"listener {number} is told {data} twice")
        emission["got"].add(number)
        if self.depth < 3 and self.budget > 0:
            for _ in range(c.weighted([(2, 0), (4, 1), (2, 2)])):
                self.budget -= 1
                self.act(inside=True)
        if self.stack[-1] is not emission:
            sim.fail("mixed", "announcements are mixed up")
        want = [n for n in self.listeners if n not in emission["late"]]
        last = emission["got"] >= set(want)
        if self.boom is None and not self.quiet_raise and self.budget > 0 and c.chance(1, 10):
            self.budget -= 1
            self.raised += 1
            self.boom = Boom(f"listener {number}")
            sim.fire("listener_raises")
            sim.log(f"listener {number} raises")
            self.stack.pop()
            raise self.boom
        if last and number == max(want):
            self.finish(emission, want)
        return c.pick([None, True, False])

    def finish(self, emission, want) -> None:
        """The last listener that has to be called was: the emission is complete, except for
        listeners registered meanwhile, which may be called or not."""

        self.stack.pop()

    # -- operations ------------------------------------------------------------------------------

    drawing = False

    def act(self, inside: bool) -> None:
        c, s = self.c, self.s
        op = c.weighted([(5, "query"), (3, "resize"), (2, "write"), (0 if self.drawing else 2, "draw"),
                         (0 if inside else 1, "listen"), (1, "clear")])
        if op == "resize":
            self.resize()
        elif op == "query":
            self.query()
        elif op == "listen":
            self.register()
        elif op == "write":
            self.call("write", s.op_write)
        elif op == "clear":
            self.call("clear", s.op_clear)
        else:
            self.draw()

    def call(self, what, fn):
        """An operation of the program on the terminal, at any nesting."""

        depth, stacked = self.depth, len(self.stack)
        self.depth += 1
        held = {self.w.size}
        self.held.append(held)
        boom = None
        try:
            got = fn()
        except Boom as exc:
            boom = exc
        finally:
            self.depth = depth
            self.held.pop()
        if boom is not None:
            if boom is not self.boom:
                self.sim.fail("exception", f"the listener raised {self.boom!r}, {what} raised {boom!r}")
            if self.stack[stacked:]:
                self.sim.fail("mixed", "an announcement was left open by the exception")
            if stacked:  # inside a listener: passes on to the emission around it
                self.stack.pop()
                raise boom
            self.boom = None
            self.sim.log(f"{what} raised, as its listener did")
        else:
            if self.boom is not None:
                self.sim.fail("exception", f"{what} swallowed the listener's exception")
            if len(self.stack) > stacked:
                emission = self.stack[-1]
                self.sim.fail("missed", f"{emission['size']} was announced to {sorted(emission['got'])} "
                                        f"of the listeners {self.listeners}")
        if self.listeners and self.known != tuple(self.w.observed_size):
            self.sim.fail("unannounced", f"{what} observed {tuple(self.w.observed_size)}, the last size "
                                         f"announced is {self.known}")
        self.known = tuple(self.w.observed_size)
        return (None if boom is not None else got), held

    def query(self) -> None:
        c, term, w = self.c, self.s.term, self.w
        kind = c.draw(3)
        name = ("size", "width", "height")[kind]
        self.sim.log(f"query {name}")
        got, held = self.call(name, lambda: w.api(name, lambda: getattr(term, name), allow=(Boom,)))
        self.sim.log(f"{name} -> {got}")
        if got is None:
            return
        values = held if kind == 0 else {size[kind - 1] for size in held}
        if (tuple(got) if kind == 0 else got) not in values:
            self.sim.fail("value", f"{name} returned {got}, the terminal has {sorted(held)}")

    def draw(self) -> None:
        s, w = self.s, self.w
        before = w.size
        observed = w.size_queries
        redraw = self.c.chance(1, 4)
        self.drawing = True
        try:
            done, _ = self.call("draw", lambda: (s.op_draw(redraw=redraw, allow=(Boom,)), True)[1])
        finally:
            self.drawing = False
        if not done or w.size != before or w.size_queries != observed:
            return  # resized meanwhile: this draw need not be right
        if s.in_step():
            s.check_display("draw")
            self.sim.probe("display_checked")


def execute(w):
    c, sim = w.c, w.sim
    slate = load_slate(w)
    s = Session(w, slate, origin=w.cfg_origin)
    watch = Watch(w, s)
    for _ in range(c.rounds(1, 4)):
        watch.register()
    handled = {"count": 0}
    if c.chance(1, 4):
        watch.quiet_raise = True

        def handler(signum, frame):
            handled["count"] += 1
            sim.fire("window_change_signal")
            watch.query()

        sim.handlers[signal.SIGWINCH] = handler
        names = {"stream.write", "stream.flush"}

        def on_seam(name):
            if name in names and not watch.stack and watch.budget > 0 and c.chance(1, 6):
                watch.budget -= 1
                watch.resize()
                sim.raise_signal(signal.SIGWINCH)
                sim.deliver()

        sim.on_seam = on_seam
    for _ in range(c.rounds(3, 18)):
        c.begin()
        watch.act(inside=False)
        c.end()
    sim.on_seam = None
    watch.budget = 0
    watch.query()
    watch.draw()
    if watch.announced:
        sim.probe("announced")
    return bool(watch.nested or watch.raised or handled["count"])
