"""C26: controls reach the terminal at once, whole and in order with everything drawn."""

from ..display import Session, build_world
from ..kernel import HarnessError, SimKilled, Violation
from ..loader import load_slate
from ..world import OutStream
from .c02 import Faults

RULE = ("random histories of bells, cursor and mouse switches, titles, mode contexts and raw control "
        "sequences, flushed or not, between writes, clears and draws, on streams with buffers of several "
        "sizes that fail now and then; after every call the bytes that reached the terminal and its modes "
        "are compared with what was asked for. Non-trivial: controls and draws alternated and something "
        "was sent unflushed or the stream failed")
REAL = ["slate.terminal", "slate.core", "slate.screen", "slate.span"]
STUBS = ["terminal (emulator)", "window size", "output stream"]

# sequences an application may want to send: all change nothing the display shows
RAW = ["\a", "\x1b[?25h", "\x1b[?25l", "\x1b[?2004h", "\x1b[?2004l", "\x1b]8;;http://x.org\x1b\\",
       "\x1b]8;;\x07", "\x1b[?1000h", "\x1b[?1000l", "\x1b[0m", "\x1b[H", "", "\x1b[?1000h\x1b[?1000l",
       "\x1b[22t\x1b[23t", "\x1b[3;2H", "\x1b]8;;a{b}%s\x1b\\",
       "\r", "\r\r", "\x1b[s", "\x1b7\x1b8", "\b", "\x1b]8;;http://é.λ/ \x1b\\", "\x1b[2G", "\x1b_Gi=1;AAAA\x1b\\",
       "\x1b]8;;  a  b\t\x1b\\", "\x1b[?25h\x1b[?25h", "\0", "\t"]
LINES = ["\x1b[H\n", "\x1b[H\r\n", "\x1b[H\n\r"]  # where there is a second row


def build(c):
    w, origin = build_world(c)
    w.cfg_origin = origin
    w.emu.modes_apart = c.draw(3)
    return w


class Controls:
    def __init__(self, w) -> None:
        self.w, self.c, self.sim = w, w.c, w.sim
        slate = load_slate(w)
        self.s = Session(w, slate, origin=w.cfg_origin)
        self.term, self.emu, self.out = self.s.term, w.emu, self.s.out
        self.faults = Faults(w, self.out)
        self.out.limit = self.c.pick([8192, 8192, 8192, 16, 0])
        self.out.delivered = []
        self.owed = ""  # sent without flushing, and still in the stream's buffer
        self.failed = False  # the stream failed: how much got through is not known
        self.unflushed = self.failures = self.alternations = 0
        self.last = None
        self.raised = None
        self.more = [(1, "stream")] if self.c.chance(1, 3) else []
        if self.c.chance(1, 3):
            self.more.append((4, "around"))

    # -- helpers ---------------------------------------------------------------------------------

    def state(self):
        emu = self.emu
        return {"cursor": emu.cursor_shown, "mouse": frozenset(emu.modes), "sync": emu.sync,
                "alt": emu.in_alt, "title": emu.title, "stack": tuple(emu.title_stack),
                "bells": emu.bells, "printed": len(emu.printed), "screen cursor": tuple(self.term.cursor)}

    def call(self, name, fn, *args, **kwargs) -> bool:
        """Calls the library under the armed fault, if any. True: it completed."""

        self.sim.log(f"{name} {args!r} {kwargs!r}")
        done = True
        try:
            self.w.api(name, fn, *args, allow=() if self.faults.armed is None else (BaseException,), **kwargs)
        except (Violation, SimKilled, HarnessError):
            raise
        except BaseException as exc:  # pylint: disable=broad-except
            if exc is not self.faults.raised:
                self.sim.fail("error_changed", f"{name} raised {exc!r}, its stream {self.faults.raised!r}")
            done = False
        else:
            if self.faults.raised is not None:
                self.sim.fail("error_swallowed", f"{name} returned although its stream raised "
                                                 f"{self.faults.raised!r}")
        if not done:
            self.failures += 1
            self.failed = True
        self.faults.disarm()
        self.faults.raised = None
        return done

    def text(self) -> str:
        return "".join(self.out.delivered)

    def quiet(self, name, before, buffered) -> None:
        """Nothing may have been sent."""

        if self.text() != before or self.out.buffer_text != buffered:
            sent = (self.text() + self.out.buffer_text)[len(before + buffered):]
            self.sim.fail("sent", f"{name} sent {sent!r} to the terminal")

    def expect(self, name, before, changed) -> None:
        """The terminal's state is as before but for `changed`."""

        now = self.state()
        for key, value in {**before, **changed}.items():
            if now[key] != value:
                self.sim.fail("effect", f"after {name}: {key} is {now[key]!r}, due is {value!r}")
        if self.emu.pending:
            self.sim.fail("whole", f"after {name}: the terminal is left with {self.emu.pending!r}")
        if self.out.buffer_text:
            self.sim.fail("late", f"after {name}: {self.out.buffer_text!r} has not reached the terminal")

    # -- operations ------------------------------------------------------------------------------

    def raw(self) -> None:
        c = self.c
        sequence = "".join(c.pick(RAW) for _ in range(c.weighted([(5, 1), (2, 2), (1, 6)])))
        if c.chance(1, 30):
            sequence += c.pick(LINES) if self.emu.size[1] > 1 else ""
        elif c.chance(1, 200):
            sequence += "\x1b]8;;" + "x" * c.pick([300, 5000, 70_000]) + "\x1b\\"
        flush = not c.chance(1, 2)
        before, owed = self.text(), self.out.buffer_text
        if flush:
            kwargs = {"flush": True} if c.chance(1, 4) else {}
        else:
            kwargs = {"flush": False}
        if not self.call("write_control", self.term.write_control, sequence, **kwargs):
            return
        sent = self.text()[len(before):]
        if sent + self.out.buffer_text != owed + sequence:
            self.sim.fail("verbatim", f"write_control({sequence!r}) after {owed!r} in the buffer: the "
                                      f"terminal got {sent!r}, {self.out.buffer_text!r} is left")
        if flush:
            if self.out.buffer_text:
                self.sim.fail("late", f"write_control({sequence!r}) left {self.out.buffer_text!r} unsent")
        else:
            self.unflushed += 1
            if sent and self.out.limit > len(owed + sequence):
                self.sim.fail("flushed", f"write_control({sequence!r}, flush=False) was flushed")

    def settle(self) -> None:
        """What is in the stream's buffer reaches the terminal, so that effects can be told apart."""

        self.out.flush()

    def switch(self, op) -> None:
        c, term = self.c, self.term
        armed = self.faults.armed
        self.faults.armed = None
        self.settle()
        self.faults.armed = armed
        before = self.state()
        changed: dict = {}
        torn = bool(self.emu.pending)  # a failed call left half a sequence: it swallows a bell
        if op == "bell":
            done = self.call("bell", term.bell)
            changed = {"bells": before["bells"] + 1}
        elif op == "cursor":
            show = c.chance(1, 2)
            if show and c.chance(1, 2):
                done = self.call("show_cursor", term.show_cursor)
            else:
                done = self.call("show_cursor", term.show_cursor, show)
            changed = {"cursor": show}
        elif op == "mouse":
            on = c.chance(1, 2)
            if on and c.chance(1, 2):
                done = self.call("set_report_mouse", term.set_report_mouse)
            else:
                done = self.call("set_report_mouse", term.set_report_mouse, on)
            changed = {"mouse": self.emu.modes}
            if done:
                tracking = self.emu.modes & {1002, 1003}  # 1000 is the program's own
                if on and (1003 not in tracking or 1006 not in self.emu.modes):
                    self.sim.fail("effect", f"set_report_mouse(True) left the modes {sorted(self.emu.modes)}")
                if not on and (tracking or 1006 in self.emu.modes):
                    self.sim.fail("effect", f"set_report_mouse(False) left the modes {sorted(self.emu.modes)}")
        if not done or (torn and op == "bell"):
            return
        self.expect(op, before, changed)

    def draw(self, redraw) -> None:
        s, emu = self.s, self.emu
        emu.printed = []
        before = self.state()
        failed = self.failed
        self.s.draws += 1
        if not self.call("draw", self.term.draw, **({"redraw": True} if redraw else {})):
            return
        if self.out.buffer_text:
            self.sim.fail("late", f"after draw: {self.out.buffer_text[:60]!r} has not reached the terminal")
        if s.in_step():
            s.check_display("draw")
            self.failed = False
        s.drawn()
        now = self.state()
        if not failed and not self.owed_before:
            for key in ("cursor", "mouse", "sync", "alt", "title", "stack", "bells", "screen cursor"):
                if now[key] != before[key]:
                    self.sim.fail("effect", f"drawing changed {key} from {before[key]!r} to {now[key]!r}")

    def replace(self) -> None:
        """The program gives the terminal another stream, as after reopening the device."""

        self.settle()
        old = self.out
        self.out = self.s.out = self.term.stream = OutStream(self.w, self.emu)
        self.sim.log("the terminal is given another stream")
        self.sim.fire("stream_replaced")
        self.out.limit, self.out.delivered = old.limit, []
        self.faults = Faults(self.w, self.out)

        def stale(op, stream, text):
            self.sim.fail("stale", f"{op} {text[:40]!r} on the stream the terminal had before")

        old.fault = stale

    def around(self) -> None:
        """Enters or leaves a mode context, or sends a control among its own kind: only modes change."""

        self.settle()
        before = self.state()
        self.s.op_around()
        now = self.state()
        for key in ("printed", "screen cursor", "alt"):
            if now[key] != before[key]:
                self.sim.fail("effect", f"a context or control changed {key}: {before[key]!r} to {now[key]!r}")
        if self.out.buffer_text:
            self.sim.fail("late", f"a context or control left {self.out.buffer_text!r} unsent")

    def screen_only(self, op) -> None:
        """Only the screen in memory changes."""

        s = self.s
        before, buffered = self.text(), self.out.buffer_text
        if op == "write":
            s.op_write()
        elif op == "bulk":
            s.op_bulk()
        elif op == "clear":
            s.op_clear()
        elif op == "move":
            s.op_cursor()
        elif op == "size":
            if self.c.chance(1, 2):
                s.env_resize()
            s.op_size()
        self.quiet(op, before, buffered)

    def step(self) -> None:
        c = self.c
        op = c.weighted([(5, "raw"), (2, "bell"), (3, "cursor"), (3, "mouse"), (4, "draw"), (1, "redraw"),
                         (5, "write"), (1, "bulk"), (1, "clear"), (1, "move"), (1, "size"),
                         *self.more])
        if op == "stream":
            self.replace()
            return
        if op == "around":
            self.around()
            return
        kind = {"draw": "draw", "redraw": "draw", "raw": "control", "bell": "control", "cursor": "control",
                "mouse": "control"}.get(op)
        if kind is not None and kind != self.last:
            self.alternations += self.last is not None
            self.last = kind
        if op in ("write", "bulk", "clear", "move", "size"):
            self.screen_only(op)
            return
        if c.chance(1, 8):
            self.faults.arm(c)
        self.owed_before = bool(self.out.buffer_text)
        if op == "raw":
            self.raw()
        elif op in ("draw", "redraw"):
            self.draw(op == "redraw")
        else:
            self.switch(op)


def execute(w):
    c = w.c
    t = Controls(w)
    for _ in range(c.rounds(4, 30, w.size[0] * w.size[1] < 100)):
        c.begin()
        t.step()
        c.end()
    c.begin()
    t.screen_only("size")
    t.owed_before = bool(t.out.buffer_text)
    t.draw(False)
    t.switch("cursor")
    c.end()
    return t.alternations >= 2 and bool(t.unflushed or t.failures)
