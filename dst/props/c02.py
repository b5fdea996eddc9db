"""C02: a failed or interrupted draw loses no change, and drawing touches nothing but its stream."""

import errno
import os

from ..display import Session, build_world
from ..kernel import HarnessError, SimKilled, Violation
from .. import loader
from ..loader import load_slate, load_with_points

RULE = ("random histories of writes, clears, resizes and draws in which draws fail: before, in the "
        "middle of or after delivery, on write or flush, by I/O error or interrupt, once or "
        "repeatedly; file system calls fail too. Non-trivial: a draw failed and a later draw "
        "completed and was compared cell by cell")
REAL = ["slate.terminal", "slate.screen", "slate.span", "slate.color", "slate.event"]
STUBS = ["terminal (emulator)", "window size", "output stream", "file system"]

KINDS = [(3, "before"), (4, "part"), (2, "after"), (2, "lost"), (2, "kept"), (2, "part_kept")]


# what a stream of the program's own may raise
OTHER = {kind.__name__: kind for kind in (RuntimeError, TimeoutError, EOFError, AttributeError, TypeError, IndexError,
                                          KeyError, AssertionError, NotImplementedError)}


class Faults:
    """Arms one fault for one draw: which stream call, how much gets through, which error."""

    def __init__(self, w, out) -> None:
        self.w, self.out = w, out
        self.armed = None
        self.raised = None
        self.sending = None  # to be called when the first data is sent
        out.fault = self

    def arm(self, c) -> None:
        self.armed = {
            "nth": c.weighted([(5, 0), (4, 1), (1, 2)]),
            "kind": c.weighted(KINDS),
            "error": c.pick([errno.EIO, errno.EPIPE, errno.ENOSPC, errno.EAGAIN, "interrupt",
                             "closed", "exit", "encode", *OTHER]),
            "share": c.draw(1000),
        }
        self.raised = None
        self.count = 0

    def disarm(self) -> None:
        self.armed = None
        self.sending = None

    def __call__(self, op, stream, text) -> None:
        plan = self.armed
        if plan is None:
            return
        nth, self.count = self.count, self.count + 1
        if self.sending is not None:
            self.sending()
            self.sending = None
        if nth != plan["nth"]:
            return
        data = stream.buffer_text + text
        cut = plan["share"] * (len(data) + 1) // 1000
        kind = plan["kind"]
        stream.buffer_text = ""
        if kind == "part":
            stream._deliver(data[:cut])
        elif kind == "after":
            stream._deliver(data)
        elif kind == "kept":
            stream.buffer_text = data
        elif kind == "part_kept":
            stream._deliver(data[:cut])
            stream.buffer_text = data[cut:]
        elif kind == "before":
            stream.buffer_text = data[: len(data) - len(text)]
        error = plan["error"]
        if error == "interrupt":
            exc = KeyboardInterrupt()
        elif error == "exit":
            exc = SystemExit(1)
        elif error == "closed":
            exc = ValueError("I/O operation on closed file.")
        elif error == "encode":
            exc = UnicodeEncodeError("ascii", data or " ", 0, 1, "ordinal not in range(128)")
        elif error in OTHER:
            exc = OTHER[error]("from the stream")
        else:
            exc = OSError(error, os.strerror(error))
        self.w.sim.fire(f"{op}_{kind}")
        self.w.sim.fire(f"error_{error if isinstance(error, str) else errno.errorcode[error]}")
        self.w.sim.log(f"{op} fails ({kind}, {type(exc).__name__}, {cut} of {len(data)})")
        self.raised = exc
        self.armed = None
        raise exc


def build(c):
    w, origin = build_world(c)
    w.cfg_origin = origin
    return w


def draw(w, s, faults, redraw) -> bool:
    """One draw under the armed fault, if any. True: it completed."""

    before = len(w.fs_calls)
    try:
        s.op_draw(redraw=redraw, allow=() if faults.armed is None else (BaseException,))
    except BaseException as exc:  # pylint: disable=broad-except
        if isinstance(exc, Violation) or isinstance(exc, (SimKilled, HarnessError)):
            raise
        if faults.raised is None:
            w.sim.fail("raised", f"draw raised {type(exc).__name__}: {exc}")
        if exc is not faults.raised:
            w.sim.fail("error_changed", f"the stream raised {faults.raised!r}, draw raised {exc!r}")
        done = False
    else:
        if faults.raised is not None:
            w.sim.fail("error_swallowed", f"draw returned although its stream raised {faults.raised!r}")
        done = True
    faults.disarm()
    if loader.POINTS is not None:
        loader.POINTS.at = None
    faults.raised = None
    if len(w.fs_calls) > before:
        w.sim.fail("file", f"drawing touched the file system: {w.fs_calls[before:]}")
    return done


def interrupt(c, faults, points) -> None:
    """Ctrl-C before some statement of the next draw: any, or one it runs once it has begun to send."""

    def strike() -> None:
        faults.raised = KeyboardInterrupt()
        faults.w.sim.fire("interrupt_between_statements")
        faults.w.sim.log(f"interrupted between two statements of the draw")
        raise faults.raised

    faults.armed = {"nth": -1}
    faults.raised = None
    faults.count = 0
    points.what = strike
    if c.chance(1, 3):
        points.at = c.draw(c.pick([4, 20, 100, 500]))
        return
    faults.sending = lambda: setattr(points, "at", later)
    later = c.draw(c.pick([2, 4, 12, 100]))


def execute(w):
    c = w.c
    points = None
    if c.chance(1, 3):
        slate, points = load_with_points(w)
    else:
        slate = load_slate(w)
    s = Session(w, slate, origin=w.cfg_origin)
    faults = Faults(w, s.out)
    s.out.limit = c.pick([8192, 8192, 16, 0])
    if c.chance(1, 3):
        def full(what):
            w.sim.fire("fs_error")
            raise OSError(errno.EROFS, "Read-only file system")

        w.fs_fault = full
    if c.chance(1, 3):
        def gone(what):
            w.sim.fire("directory_gone")
            raise FileNotFoundError(errno.ENOENT, "No such file or directory")

        w.look_fault = gone
    table = [(6, "write"), (5, "draw"), (c.pick([1, 3]), "bulk"), (c.pick([0, 1]), "clear"),
             (c.pick([1, 2]), "redraw"), (c.pick([0, 0, 2]), "resize"), (1, "cursor"),
             (c.pick([0, 0, 0, 2]), "around")]
    table = [pair for pair in table if pair[0]]
    failures, recovered = 0, 0
    failed = False
    for _ in range(c.rounds(3, 24, w.size[0] * w.size[1] < 100)):
        c.begin()
        op = c.weighted(table)
        if op == "write":
            s.op_write()
        elif op == "bulk":
            s.op_bulk()
        elif op == "clear":
            s.op_clear()
        elif op == "resize":
            s.env_resize()
            s.op_size()
        elif op == "cursor":
            s.op_cursor()
        elif op == "around":
            s.op_around()
        else:
            if c.chance(1, 2):
                if points is not None and c.chance(1, 2):
                    interrupt(c, faults, points)
                else:
                    faults.arm(c)
            if draw(w, s, faults, op == "redraw"):
                if s.in_step():
                    s.check_display("draw after a failed one" if failed else op)
                    recovered += failed
                    failed = False
            else:
                failures += 1
                if failed:
                    w.sim.probe("failed_again")
                failed = True
        c.end()
    c.begin()
    s.op_size()
    if draw(w, s, faults, c.chance(1, 4)):
        s.check_display("draw after a failed one" if failed else "final draw")
        recovered += failed
    c.end()
    if recovered:
        w.sim.probe("recovered", )
    return failures > 0 and recovered > 0
