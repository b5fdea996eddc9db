"""C11: mode contexts take effect inside and are undone on every exit path."""

import contextlib
import signal
import termios

from ..kernel import HarnessError, SimKilled, Violation
from ..keys import build_world
from ..loader import load_slate
from ..world import OutStream
from .c02 import Faults

RULE = ("random trees of mode contexts of different kinds, entered by with blocks, exit stacks and "
        "generators, whose bodies write, draw, read keys and sleep, and end normally, by an exception, "
        "by an interrupt at a chosen instant, by a failed draw or by closing the generator; the "
        "emulator's modes and the tty's echo are compared after every step. Non-trivial: two kinds "
        "were nested and one context was left through an exception")
REAL = ["slate.terminal", "slate.core", "slate.screen", "slate.span", "contextlib"]
STUBS = ["terminal (emulator)", "output stream", "tty line discipline", "stty", "termios", "clock",
         "signals"]

KINDS = ("alt", "mouse", "batch", "echo")


class Planned(Exception):
    pass


class PlannedExit(SystemExit):
    pass


def build(c):
    w = build_world(c)
    w.emu.modes_apart = c.draw(3)
    w.starts_tty = not c.chance(1, 8)
    return w


class Body:
    def __init__(self, w) -> None:
        self.w, self.c, self.sim = w, w.c, w.sim
        self.slate = load_slate(w)
        w.stdin_tty = w.starts_tty
        self.out = OutStream(w, w.emu)
        self.echo_before = w.tty.flag(termios.ECHO)
        self.term = w.api("Terminal()", self.slate.Terminal, stream=self.out)
        self.faults = Faults(w, self.out)
        self.active: list[str] = []
        self.hidden = False
        self.budget = self.c.rounds(4, 30)
        self.nested = self.raised = 0
        w.sim.handlers[signal.SIGINT] = signal.default_int_handler

    # -- oracle ----------------------------------------------------------------------------------

    def check(self, when: str) -> None:
        emu, sim, active = self.w.emu, self.sim, self.active
        tell = f"{when} (inside {active})"
        if emu.in_alt != ("alt" in active):
            sim.fail("buffer", f"{tell}: the {'alternate' if emu.in_alt else 'main'} buffer is shown")
        if emu.cursor_shown == self.hidden:
            sim.fail("cursor", f"{tell}: the cursor is {'shown' if emu.cursor_shown else 'hidden'}")
        tracking = emu.modes & {1000, 1002, 1003}
        if "mouse" in active:
            if 1003 not in emu.modes or 1006 not in emu.modes:
                sim.fail("mouse", f"{tell}: modes {sorted(emu.modes)} do not report the mouse in SGR form")
        elif tracking or 1006 in emu.modes:
            sim.fail("mouse", f"{tell}: mouse modes {sorted(emu.modes)} are left on")
        if emu.sync != ("batch" in active):
            sim.fail("sync", f"{tell}: synchronized update is {'on' if emu.sync else 'off'}")
        echo = self.w.tty.flag(termios.ECHO)
        want = self.echo_before and not ("echo" in active and self.w.stdin_tty)
        if echo != want:
            sim.fail("echo", f"{tell}: the terminal is {'' if echo else 'not '}echoing")

    # -- the program -----------------------------------------------------------------------------

    def context(self, kind: str):
        term, c = self.term, self.c
        if kind == "alt":
            form = c.draw(4)
            self.hide = form != 3
            return term.alt_buffer() if form < 2 else term.alt_buffer(hide_cursor=self.hide)
        return {"mouse": term.report_mouse, "batch": term.batch, "echo": term.no_echo}[kind]()

    def entered(self, kind: str) -> None:
        self.active.append(kind)
        if kind == "alt":
            self.hide_of_alt = self.hide
            self.hidden = self.hidden or self.hide
        if len(self.active) > 1:
            self.nested += 1
            self.sim.probe(f"nested_{len(self.active)}")
        self.sim.log(f"entered {kind}")
        self.check(f"after entering {kind}")

    def left(self, kind: str) -> None:
        self.active.remove(kind)
        if kind == "alt" and self.hide_of_alt:
            self.hidden = False
        self.sim.log(f"left {kind}")
        self.check(f"after leaving {kind}")

    def enter(self, depth: int) -> None:
        c = self.c
        kind = c.pick([k for k in KINDS if k not in self.active])
        catch = depth == 0 or c.chance(1, 3)
        way = c.weighted([(4, "with"), (2, "stack"), (2, "generator")])
        self.sim.log(f"{way} {kind}")
        try:
            if way == "with":
                with self.context(kind):
                    self.entered(kind)
                    self.run(depth + 1)
            elif way == "stack":
                with contextlib.ExitStack() as stack:
                    stack.enter_context(self.context(kind))
                    self.entered(kind)
                    self.run(depth + 1)
            else:
                def body():
                    with self.context(kind):
                        self.entered(kind)
                        yield
                        self.run(depth + 1)
                        yield

                steps = body()
                next(steps)
                if c.chance(1, 2):
                    next(steps)
                steps.close()
                self.sim.fire("generator_closed")
        except (Violation, SimKilled, HarnessError):
            raise
        except BaseException as exc:  # pylint: disable=broad-except
            if exc is not self.due:
                if self.due is None:
                    self.sim.fail("raised", f"{kind} raised {type(exc).__name__}: {exc}")
                self.sim.fail("exception", f"{self.due!r} in the body became {exc!r}")
            self.raised += 1
            self.sim.fire(f"left_by_{type(exc).__name__}")
            self.left(kind)
            if not catch:
                raise
            self.due = None
        else:
            if self.due is not None:
                self.sim.fail("exception", f"{kind} swallowed {self.due!r}")
            self.left(kind)

    due: BaseException | None = None

    def fail_with(self, exc: BaseException):
        self.due = exc
        self.sim.log(f"raise {type(exc).__name__}")
        raise exc

    def run(self, depth: int) -> None:
        c, w, term = self.c, self.w, self.term
        for _ in range(c.between(0, 5) if depth else 4):
            if self.budget <= 0:
                return
            self.budget -= 1
            c.begin()
            op = c.weighted([(7, "enter"), (2, "write"), (2, "draw"), (3, "raise"), (1, "sleep"),
                             (1, "key"), (1, "size"), (1, "cursor"), (1, "title")])
            try:
                self.step(op, depth)
            finally:
                c.end()

    def step(self, op: str, depth: int) -> None:
        c, w, term = self.c, self.w, self.term
        if op == "enter":
            if len(self.active) < len(KINDS):
                self.enter(depth)
            return
        if op == "raise":
            if depth:
                self.fail_with(c.pick([Planned, ValueError, KeyboardInterrupt, PlannedExit, OSError,
                                       RuntimeError, EOFError])())
            return
        self.sim.log(op)
        if op == "write":
            w.api("write", term.write, c.pick(["hello", "x", "  "]), cursor=(c.draw(3), c.draw(3)))
        elif op == "draw":
            if depth and c.chance(1, 2):
                self.faults.arm(c)
            try:
                w.api("draw", term.draw, redraw=c.chance(1, 3),
                      allow=() if self.faults.armed is None else (BaseException,))
            except (Violation, SimKilled, HarnessError):
                raise
            except BaseException:
                self.due = self.faults.raised
                self.faults.raised = None
                self.sim.log("draw failed")
                raise
            finally:
                self.faults.disarm()
            self.faults.raised = None
        elif op == "sleep":
            if depth and c.chance(1, 2) and w.tty.flag(termios.ISIG) and w.stdin_tty:
                self.sim.at(c.between(0, 1000), lambda: w.tty.arrive(b"\x03"))
                try:
                    self.sim.sleep(2000)
                except KeyboardInterrupt as exc:
                    self.sim.fire("ctrl_c")
                    self.due = exc
                    raise
            else:
                self.sim.sleep(1000)
        elif op == "key":
            if c.chance(1, 2) and w.stdin_tty:
                self.sim.at(c.pick([0, 500]), lambda: w.tty.arrive(b"k"))
            w.api("getch_timeout", self.slate.getch_timeout, c.pick([0.0, 0.01]))
        elif op == "size":
            if c.chance(1, 2):
                w.resize((c.between(3, 12), c.between(3, 6)), garble=False)
            w.api("size", lambda: term.size)
        elif op == "cursor":
            self.hidden = c.chance(1, 2)
            w.api("show_cursor", term.show_cursor, not self.hidden)
        elif op == "title":
            w.api("set_title", term.set_title, c.pick(["one", "two", None]))
        self.check(f"after {op}")


def execute(w):
    body = Body(w)
    body.check("at the start")
    for _ in range(w.c.between(1, 3)):
        body.run(0)
    body.check("at the end")
    if body.active:
        raise HarnessError("contexts left open")
    return body.nested > 0 and body.raised > 0
