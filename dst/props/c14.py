"""C14: the window title found at start is always given back."""

import contextlib

from ..kernel import HarnessError, SimKilled, Violation
from ..loader import load_slate
from ..world import OutStream, World
from .c02 import Faults

RULE = ("random sequences of title changes, repeats, resets and alternate buffer blocks left normally, "
        "by exceptions, by failed draws or by closing a generator, on terminals whose title stack "
        "already has entries, also changed by others meanwhile. Non-trivial: a title was set and "
        "restored at least twice, at least once by leaving the alternate buffer")
REAL = ["slate.terminal", "slate.screen", "contextlib"]
STUBS = ["terminal (emulator)", "output stream", "window size"]

TITLES = ["app", "two", "", "app", "0", "a;b;c", "{title}", "título ✓", " ", "?", "None", "x" * 300,
          "shell", "%s", "\\", "[23;0t", "vim - a\\b.txt", "~/src: make", " led", "trail ", "é" * 90, "中文", "😀", "a  b",
          "\u202eabc", "$(x)", "'q' \"w\"", "&amp;", "y" * 5000]


class Planned(Exception):
    pass


def build(c):
    w = World(c, (8, 3))
    w.emu.title = c.pick(["shell", "", "old ✓"])
    w.emu.title_stack = [f"outer{i}" for i in range(c.weighted([(2, 0), (2, 1), (1, 3)]))]
    return w


class App:
    def __init__(self, w) -> None:
        self.w, self.c, self.sim = w, w.c, w.sim
        slate = load_slate(w)
        self.out = OutStream(w, w.emu)
        self.term = w.api("Terminal()", slate.Terminal, stream=self.out)
        self.faults = Faults(w, self.out)
        self.stack = list(w.emu.title_stack)
        self.title = w.emu.title
        self.found = None  # (title,) found at the first change since the last restoration
        self.in_alt = False
        self.restored = self.by_alt = 0
        self.due = None
        self.budget = self.c.rounds(4, 24)

    def check(self, when: str) -> None:
        emu, sim = self.w.emu, self.sim
        if emu.pending:
            sim.fail("title", f"{when}: unfinished sequence {emu.pending!r}")
        if emu.title != self.title:
            sim.fail("title", f"{when}: the window shows {emu.title!r}, due is {self.title!r}")
        if emu.underflow:
            sim.fail("stack", f"{when}: popped from the empty title stack")
        if emu.icon_depth < 0 or emu.icon_depth > 1 or (emu.icon_depth and self.found is None):
            sim.fail("stack", f"{when}: the icon title stack has {emu.icon_depth:+d} entries")
        depth = len(self.stack)
        if emu.title_stack[:depth] != self.stack:
            sim.fail("stack", f"{when}: the title stack is {emu.title_stack}, found was {self.stack}")
        if self.found is None and len(emu.title_stack) != depth:
            sim.fail("stack", f"{when}: the title stack is {emu.title_stack}, found was {self.stack}")
        if len(emu.title_stack) > depth + 1:
            sim.fail("stack", f"{when}: the title stack grows: {emu.title_stack}")

    def restore(self, by_alt: bool) -> None:
        if self.found is None:
            return
        self.title = self.found[0]
        self.found = None
        self.restored += 1
        self.by_alt += by_alt

    def set(self, new) -> None:
        self.sim.log(f"set_title {new!r}")
        self.w.api("set_title", self.term.set_title, new)
        if new is None:
            self.restore(False)
        else:
            if self.found is None:
                self.found = (self.title,)
            self.title = new
        self.check(f"set_title({new!r})")

    def alt(self) -> None:
        c, term = self.c, self.term
        way = c.weighted([(4, "with"), (1, "stack"), (2, "generator")])
        self.sim.log(f"alt_buffer ({way})")
        self.in_alt = True
        try:
            if way == "with":
                with term.alt_buffer(hide_cursor=c.chance(1, 2)):
                    self.check("alt_buffer entered")
                    self.run()
            elif way == "stack":
                with contextlib.ExitStack() as stack:
                    stack.enter_context(term.alt_buffer())
                    self.check("alt_buffer entered")
                    self.run()
            else:
                def body():
                    with term.alt_buffer():
                        yield
                        self.run()
                        yield

                steps = body()
                next(steps)
                if c.chance(3, 4):
                    next(steps)
                steps.close()
                self.sim.fire("generator_closed")
        except (Violation, SimKilled, HarnessError):
            raise
        except BaseException as exc:  # pylint: disable=broad-except
            if exc is not self.due:
                self.sim.fail("raised", f"alt_buffer raised {type(exc).__name__}: {exc}")
            self.sim.fire(f"left_by_{type(exc).__name__}")
            self.due = None
        self.in_alt = False
        self.restore(True)
        self.sim.log("alt_buffer left")
        self.check("alt_buffer left")

    def run(self) -> None:
        c = self.c
        for _ in range(c.between(1, 5)):
            if self.budget <= 0:
                return
            self.budget -= 1
            c.begin()
            try:
                self.step(c.weighted([(6, "set"), (2, "reset"), (3, "alt"), (1, "draw"), (1, "raise"),
                                      (1, "other")]))
            finally:
                c.end()

    def step(self, op: str) -> None:
        c = self.c
        if op == "set":
            self.set(c.pick(TITLES))
        elif op == "reset":
            self.set(None)
        elif op == "alt":
            if not self.in_alt:
                self.alt()
        elif op == "raise":
            if self.in_alt:
                self.due = c.pick([Planned, KeyboardInterrupt, SystemExit, ValueError])()
                self.sim.log(f"raise {self.due!r}")
                raise self.due
        elif op == "other":
            # another program of the window's owner changes the title
            if self.found is None:
                self.title = self.w.emu.title = c.pick(["other", "vim"])
                self.sim.log(f"someone else sets {self.title!r}")
        else:
            self.w.api("write", self.term.write, "text", cursor=(0, c.draw(3)))
            if self.in_alt and c.chance(1, 2):
                self.faults.arm(c)
            try:
                self.w.api("draw", self.term.draw,
                           allow=() if self.faults.armed is None else (BaseException,))
            except (Violation, SimKilled, HarnessError):
                raise
            except BaseException:
                self.due = self.faults.raised
                raise
            finally:
                self.faults.disarm()
                self.faults.raised = None


def execute(w):
    app = App(w)
    app.check("at the start")
    while app.budget > 0:
        app.run()
    app.set(None)
    if w.emu.title_stack != app.stack:
        w.sim.fail("stack", f"at the end: the title stack is {w.emu.title_stack}, found {app.stack}")
    return app.restored >= 2 and app.by_alt >= 1
