"""Workload and reference model shared by the input properties (C05-C09).

A typist delivers bytes to the simulated tty at chosen instants. The reference is the sequence of
complete characters, each with the instant at which its last byte arrived.
"""

from __future__ import annotations

import codecs
import errno
import signal
import termios

from .kernel import SimKilled, Violation
from .loader import load_slate
from .world import World

DEFAULT = "\u2603none\u2603"  # never typed

PLAIN = "abcxyzGHJKQ019 ;,<>[]M\\'\"\n\t\ré\u03bb€\u00ff😀\u200b中\u0301\ufeff\ufb01\u212b\x00\ufffd"
SAFE = "GHJKQé\u03bb€😀中"  # cannot be part of a rendering of an undecodable byte
CONTROL = "\x00\x01\x05\x07\x08\x0e\x10\x14\x18\x19\x1b"
# bytes the line discipline interprets, and the condition under which it does not
GUARDED = {
    0x03: termios.ISIG, 0x1C: termios.ISIG, 0x1A: termios.ISIG,
    0x04: termios.ICANON, 0x7F: termios.ICANON, 0x15: termios.ICANON, 0x0B: 0,
    0x17: termios.IEXTEN, 0x16: termios.IEXTEN, 0x12: termios.IEXTEN, 0x0F: termios.IEXTEN,
}


def build_world(c, preempt=False) -> World:
    w = World(c, (20, 5), preempt, tty=True)
    w.stdin_tty = False  # the queries at import are the subject of C10
    attrs = w.tty.attrs
    kind = c.weighted([(6, "default"), (1, "noecho"), (1, "raw"), (1, "odd"), (1, "noflow"), (1, "half")])
    if kind == "noecho":
        attrs[3] &= ~termios.ECHO
    elif kind == "raw":
        attrs[3] &= ~(termios.ECHO | termios.ICANON | termios.IEXTEN)
        attrs[0] &= ~(termios.ICRNL | termios.IXON)
        attrs[6][termios.VMIN] = c.pick([1, 0, 4])
        attrs[6][termios.VTIME] = c.pick([0, 5])
    elif kind == "half":  # no lines, but echo
        attrs[3] &= ~termios.ICANON
        attrs[6][termios.VMIN] = c.pick([1, 0, 4])
        attrs[6][termios.VTIME] = c.pick([0, 5])
    elif kind == "odd":
        attrs[3] |= termios.TOSTOP
        attrs[6][termios.VINTR] = 3
        attrs[6][termios.VKILL] = 24
        attrs[2] |= termios.PARENB
    elif kind == "noflow":
        attrs[0] &= ~(termios.IXON | termios.ICRNL)
        attrs[0] |= termios.IXANY
    w.start_kind = kind
    return w


class Keyboard:
    def __init__(self, w: World, checks=(), elsewhere=False) -> None:
        self.checks = checks  # of "settings", "alarm", "mode"
        self.w, self.c = w, w.c
        self.slate = load_slate(w)
        w.stdin_tty = True
        self.side_bytes = b""
        self.side_read = 0
        if elsewhere and w.c.chance(1, 5):  # the keys are read from a terminal that is not standard input
            w.read_elsewhere()
            w.stdin_tty = w.c.chance(2, 3)
            w.stdin_encoding = w.c.pick([None, "latin-1", "ascii", "utf-16"])
            w.sim.fire("other_terminal")
            if w.c.chance(1, 2):
                w.side.arrive(b"side")
                self.side_bytes = b"side"
            if w.c.chance(1, 2):
                self._earlier()
        self.slow_total = 0
        self.in_call = 0
        self.intr_seen = False
        self.intr_at = None  # bytes accepted when Ctrl-C was last typed
        self.script_end = 0
        self.before = None
        w.sim.handlers[signal.SIGINT] = self._sigint

    # -- environment -----------------------------------------------------------------------------

    def _earlier(self) -> None:
        """Before, the keys came from yet another terminal, which is closed; its descriptor is used again."""

        w, c, sim = self.w, self.c, self.w.sim
        for _ in range(c.between(1, 3)):
            earlier = w.open_earlier()
            for _ in range(c.between(1, 2)):
                data = c.pick(["x", "é", "€u", "😀", "a€", "é😀"]).encode(w.encoding, "ignore") or b"y"
                data = data[: c.between(1, len(data))]
                sim.log(f"typed {data!r} on a terminal that is closed later")
                earlier.arrive(data)
                w.api("getch_timeout", self.slate.getch_timeout, 0.0, DEFAULT, stream=w.key_stream, raw=True)
            w.reopen_keys()
        sim.fire("descriptor_used_again")

    def _sigint(self, signum, frame):
        self.intr_seen = True
        self.w.sim.fire("interrupt_in_call" if self.in_call else "interrupt_outside")
        raise KeyboardInterrupt

    def make_slow(self) -> None:
        """Some calls into the system take time, during which the world goes on."""

        c = self.c

        def slow(name):
            if not self.in_call or not c.chance(1, 4):
                return 0
            duration = c.pick([1, 50, 1000, 20_000, 300_000])
            self.slow_total += duration
            return duration

        self.w.slow = slow

    def tame(self, data: bytes) -> bytes:
        """Leaves out bytes that the line discipline would interpret in its present mode."""

        tty = self.w.tty
        out = bytearray()
        for byte in data:
            if byte in GUARDED and tty.flag(GUARDED[byte]):
                continue
            if byte == 0x16 and tty.flag(termios.ICANON):
                continue
            if byte in (0x11, 0x13) and tty.attrs[0] & termios.IXON:
                continue
            if byte == tty.attrs[6][termios.VKILL] and tty.flag(termios.ICANON):
                continue
            out.append(byte)
        return bytes(out)

    def type_at(self, delay: int, data: bytes, tame=True) -> None:
        def arrive():
            text = self.tame(data) if tame else data
            if not text:
                return
            self.w.sim.log(f"typed {text!r}")
            self._check_waiting_mode()
            self.w.tty.arrive(text)

        self.w.sim.at(delay, arrive)
        self.script_end = max(self.script_end, self.w.sim.now + delay)

    def feed_at(self, delay: int, text: str) -> None:
        """Another thread feeds text."""

        from .seams import SimThread

        def body():
            if delay:
                self.w.sim.sleep(delay)
            self.w.sim.log(f"feed {text!r}")
            self.slate.feed(text)

        SimThread(target=body, name="feeder").start()

    def ctrl_c_at(self, delay: int) -> None:
        def arrive():
            # only while a read is in progress, and not in the middle of a character
            if not self.in_call or not self.boundary() or self.w.sim.pending:
                return
            self._check_waiting_mode()
            if not self.w.tty.flag(termios.ISIG):
                return
            self.w.sim.fire("ctrl_c")
            self.intr_at = len(self.w.tty.accepted)
            self.w.tty.arrive(b"\x03")

        self.w.sim.at(delay, arrive)

    def _check_waiting_mode(self) -> None:
        """While a read waits, keys come without Enter and are not echoed."""

        w = self.w
        if not self.in_call or w.waiting_for_input <= 0:
            return
        w.sim.probe("typed_while_waiting")
        if "mode" not in self.checks:
            return
        if w.tty.flag(termios.ECHO):
            w.sim.fail("echo", "keys are echoed while a key read waits")
        if w.tty.flag(termios.ICANON):
            w.sim.fail("canonical", "a key read waits in line mode")

    # -- reference -------------------------------------------------------------------------------

    def decoded(self):
        """[(character, completion time, end offset)], and whether a partial character follows."""

        out = []
        tty = self.w.tty
        decoder = codecs.getincrementaldecoder(self.w.encoding)("replace")
        arrivals = iter(tty.arrivals)
        when, upto = -1, 0
        for pos, byte in enumerate(bytes(tty.accepted)):
            while pos >= upto:
                when, upto = next(arrivals)
            for char in decoder.decode(bytes([byte])):
                out.append((char, when, pos + 1))
        return out, bool(decoder.getstate()[0])

    def boundary(self) -> bool:
        return not self.decoded()[1]

    # -- calls -----------------------------------------------------------------------------------

    def call(self, *, duration=None, raw=True, default=DEFAULT, allow=(), explicit=False):
        """One key read. Returns a dict describing how it ended."""

        w, sim, slate = self.w, self.w.sim, self.slate
        sim.progress()
        out = {"start": sim.now, "duration": duration, "text": None, "key": None, "intr": False,
               "error": None, "timeout": False}
        before = w.tty.snapshot()
        handler = sim.handlers.get(signal.SIGALRM)
        timer = sim.timer_at
        slow_before = self.slow_total
        self.intr_seen = False
        kwargs = {"raw": True} if raw else {}
        if w.key_stream is not None:
            kwargs["stream"] = w.key_stream
            side = w.side.snapshot(), w.side.consumed, bytes(w.side.flushed)
        elif explicit:
            import sys

            kwargs["stream"] = sys.stdin
        self.in_call += 1
        try:
            if duration is None:
                sim.log("getch")
                key = slate.getch(**kwargs)
            else:
                sim.log(f"getch_timeout {duration}")
                key = slate.getch_timeout(duration, default, **kwargs)
        except (Violation, SimKilled):
            raise
        except allow as exc:
            out["error"] = exc
        except BaseException as exc:  # pylint: disable=broad-except
            sim.fail("raised", f"a key read raised {type(exc).__name__}: {exc}")
        else:
            out["key"] = key
            if duration is not None and (key is default or (key == default and default is not None)):
                out["timeout"] = True
                if key is not default and not isinstance(key, type(default)) and "alarm" in self.checks:
                    sim.fail("default", f"a timed read gave {key!r} for the default {default!r}")
            else:
                out["text"] = self._text(key)
        finally:
            self.in_call -= 1
        if w.key_stream is not None and side != (w.side.snapshot(), w.side.consumed, bytes(w.side.flushed)):
            sim.fail("side", "reading one terminal changed the settings or took the input of another")
        out["end"] = sim.now
        out["intr"] = self.intr_seen
        out["slow"] = self.slow_total - slow_before
        sim.log(f"-> {'timeout' if out['timeout'] else out['error'] or out['text']!r}")
        if "settings" in self.checks and w.tty.snapshot() != before:
            sim.fail("settings", f"line settings differ after a key read: {before} -> "
                                 f"{w.tty.snapshot()}")
        if sim.cur is sim.main and "alarm" in self.checks:
            if sim.handlers.get(signal.SIGALRM) != handler:
                sim.fail("alarm_handler", "a key read replaced the alarm handler")
            if timer is None and sim.timer_at is not None:
                sim.fail("alarm_left", "a key read left an alarm armed")
        try:  # a signal that was not handled inside the call is the program's
            sim.deliver()
        except KeyboardInterrupt:
            sim.probe("interrupt_after_call")
            out["intr_after"] = True
        return out

    def aside(self) -> None:
        """Reads standard input's terminal, where that is another one."""

        w, c, sim = self.w, self.c, self.w.sim
        if w.side is None or not w.stdin_tty or w.stdin_encoding == "utf-16":
            return
        encoding = w.stdin_encoding or w.encoding
        if c.chance(2, 3):
            data = c.pick(["x", "é", "€u", "😀", "ab"]).encode(encoding, "ignore") or b"y"
            data = data[: c.between(1, len(data))]
            sim.log(f"typed {data!r} on standard input")
            w.side.arrive(data)
            self.side_bytes += data
        due = codecs.getincrementaldecoder(encoding)("replace").decode(self.side_bytes)[self.side_read :]
        before = w.side.snapshot(), w.tty.snapshot(), w.tty.consumed, bytes(w.tty.flushed)
        sim.log("reads standard input")
        key = w.api("getch_timeout", self.slate.getch_timeout, 0.0, DEFAULT, raw=True)
        got = "" if key == DEFAULT else str(key)
        sim.log(f"-> {got!r}")
        sim.probe("aside")
        if got != due:
            sim.fail("side", f"a read of standard input returned {got!r}, due was {due!r}")
        if before != (w.side.snapshot(), w.tty.snapshot(), w.tty.consumed, bytes(w.tty.flushed)):
            sim.fail("side", "reading one terminal changed the settings or took the input of another")
        self.side_read += len(got)

    def _text(self, key) -> str:
        try:
            values = list(key)
            text = str(key)
        except Exception as exc:  # pylint: disable=broad-except
            self.w.sim.fail("result", f"a key read returned {key!r} ({exc})")
        if not isinstance(key, str) and text not in values:
            self.w.sim.fail("result", f"a key read returned {key!r}")
        return text

    def think(self) -> None:
        """Time passes between calls."""

        c = self.c
        duration = c.weighted([(4, 0), (2, 1000), (2, 30_000), (1, 400_000), (1, 2_000_000)])
        if duration:
            try:
                self.w.sim.sleep(duration)
            except KeyboardInterrupt:
                pass


class Ledger:
    """Accounts for every typed character: exactly once, in order, on time, nothing left behind."""

    def __init__(self, kb: Keyboard) -> None:
        self.kb, self.w = kb, kb.w
        self.delivered = 0  # characters accounted for
        self.calls = 0
        self.got = ""

    def resync(self) -> None:
        """Ctrl-C discards what was typed before it."""

        at = self.kb.intr_at
        chars, _ = self.kb.decoded()
        done = sum(1 for _, _, end in chars if end <= at)
        self.delivered = max(self.delivered, done)

    def waiting(self) -> int:
        return len(self.kb.decoded()[0]) - self.delivered

    def check(self, out, timing=True) -> None:
        sim = self.w.sim
        self.calls += 1
        if out["error"] is not None:
            return
        chars, partial = self.kb.decoded()
        text = out["text"]
        if out["intr"]:
            if text != "\x03" and text != "ctrl-c":
                sim.fail("interrupt", f"Ctrl-C during a key read gave {text!r} instead of the key")
            self.resync()
            return
        if text is None:
            text = ""
        want = "".join(char for char, _, _ in chars[self.delivered : self.delivered + len(text)])
        if text != want:
            sim.fail("input", f"a key read returned {text!r}; due was "
                              f"{''.join(ch for ch, _, _ in chars[self.delivered:][:40])!r}")
        first = chars[self.delivered][1] if self.delivered < len(chars) else None
        self.delivered += len(text)
        self.got += text
        if out.get("intr_after"):
            self.resync()
            return
        left = chars[self.delivered :]
        slack = out["slow"]
        if out["timeout"]:
            deadline = out["start"] + int(out["duration"] * 1_000_000)
            if first is not None and first < deadline:
                sim.fail("timeout_despite_input", f"input arrived at {first} us, before the deadline "
                                                  f"at {deadline} us, but the read timed out")
            return
        if not text:
            return
        if not timing:
            return
        # nothing that was there before the read began may be left
        behind = [ch for ch, when, _ in left if when < out["start"] or (not slack and when < out["end"])]
        if behind:
            sim.fail("left_behind", f"a key read returned {text!r} and left {''.join(behind)!r} waiting")
        due = max(out["start"], first)
        # a character that has begun may be waited for
        if out["end"] > due + slack and not self._partial_between(due, out["end"]):
            sim.fail("late", f"input was complete at {due} us, the read returned at {out['end']} us")

    def _partial_between(self, low: int, high: int) -> bool:
        """Whether some character was incomplete at `low` and completed at up to `high`."""

        tty = self.w.tty
        decoder = codecs.getincrementaldecoder(self.w.encoding)("replace")
        pos = 0
        for when, upto in tty.arrivals:
            decoder.decode(bytes(tty.accepted[pos:upto]))
            pos = upto
            if low <= when <= high and decoder.getstate()[0]:
                return True
        return False


def draw_piece(c, alphabet: str) -> str:
    kind = c.weighted([(6, "char"), (2, "word"), (2, "seq"), (1, "control"), (1, "paste")])
    if kind == "char":
        return c.pick(alphabet)
    if kind == "word":
        return "".join(c.pick(alphabet) for _ in range(c.between(2, 6)))
    if kind == "seq":
        return c.pick(["\x1b[A", "\x1b[1;5C", "\x1b[3~", "\x1bOP", "\x1b", "\x1b[<0;3;4M",
                       "\x1b[<35;10;2M", "\x1b[200~", "\x1ba"])
    if kind == "control":
        return c.pick(CONTROL)
    return "".join(c.pick(alphabet) for _ in range(c.between(10, 40)))


HANGUP_ERRORS = (errno.EIO, errno.EBADF, errno.ENXIO)
