"""The simulated world around Slate: tty, streams, pipes, files, window size, environment."""

from __future__ import annotations

import errno
import os
import signal
import sys
import termios

from . import kernel
from .kernel import US, Choices, HarnessError, Sim, Violation
from .vt import Emulator

STDIN_FD, STDOUT_FD, KEYS_FD, PIPE_BASE = 900_000, 900_001, 900_010, 900_100
OPENED_TTY_FD, OPENED_FILE_FD = 900_020, 900_021  # streams the program opened itself

ENV_NAMES = ("NO_COLOR", "COLORTERM", "TERM", "SLATE_COLORSYS", "COLUMNS", "LINES")

LFLAG_DEFAULT = (
    termios.ISIG | termios.ICANON | termios.ECHO | termios.ECHOE | termios.ECHOK | termios.IEXTEN
)


def default_attrs() -> list:
    cc = [0] * 32
    cc[termios.VINTR] = 3
    cc[termios.VQUIT] = 28
    cc[termios.VERASE] = 127
    cc[termios.VKILL] = 21
    cc[termios.VEOF] = 4
    cc[termios.VMIN] = 1
    cc[termios.VSUSP] = 26
    return [termios.ICRNL | termios.IXON, termios.OPOST | termios.ONLCR,
            termios.CS8 | termios.CREAD, LFLAG_DEFAULT, 15, 15, cc]


class Tty:
    """The kernel side of a terminal: line discipline and settings."""

    def __init__(self, world: "World") -> None:
        self.w = world
        self.attrs = default_attrs()
        self.queue = bytearray()
        self.canon_ready = 0
        self.pushed = 0  # waiting bytes that a switch to canonical mode made one line
        self.eof = False
        self.error: int | None = None  # raised by every read once the queue is empty
        self.read_faults: list[int] = []  # errnos, raised once each
        self.accepted = bytearray()
        self.consumed = 0
        self.flushed = bytearray()  # lost through settings changes
        self.intr_flushed = bytearray()  # lost through Ctrl-C, as the kernel does
        self.echoed = bytearray()
        self.arrivals: list[tuple[int, int]] = []  # (time, accepted so far)
        self.on_mode_change = []

    def flag(self, flag: int) -> bool:
        return bool(self.attrs[3] & flag)

    def snapshot(self):
        a = self.attrs
        return (*a[:6], tuple(a[6]))

    def arrive(self, data: bytes) -> None:
        for byte in data:
            if self.flag(termios.ISIG) and byte == self.attrs[6][termios.VINTR]:
                if not self.flag(termios.NOFLSH):
                    self.intr_flushed += self.queue
                    self.queue.clear()
                    self.canon_ready = self.pushed = 0
                self.w.sim.log("Ctrl-C typed")
                self.w.sim.raise_signal(signal.SIGINT)
                continue
            if byte == 13 and self.attrs[0] & termios.ICRNL:
                byte = 10
            if self.flag(termios.ECHO):
                self.echoed.append(byte)
            self.queue.append(byte)
            self.accepted.append(byte)
            if byte == 10 and self.flag(termios.ICANON):
                self.canon_ready = len(self.queue)
        self.arrivals.append((self.w.sim.now, len(self.accepted)))

    def available(self) -> int:
        return self.canon_ready if self.flag(termios.ICANON) else len(self.queue)

    def readable(self) -> bool:
        return bool(self.available() or self.eof or self.error or self.read_faults)

    def pollable(self) -> bool:
        """Whether select() says so: without lines or a read timer, that takes VMIN bytes."""

        if self.eof or self.error or self.read_faults:
            return True
        least = 1
        if not self.flag(termios.ICANON) and not self.attrs[6][termios.VTIME]:
            least = max(1, self.attrs[6][termios.VMIN])
        return self.available() >= least

    def take(self, count: int) -> bytes:
        count = min(count, self.available())
        if self.flag(termios.ICANON):
            if self.pushed:
                count = min(count, self.pushed)
                self.pushed -= count
            else:
                end = self.queue.find(b"\n", 0, count)
                if end != -1:
                    count = end + 1
            self.canon_ready -= count
        data = bytes(self.queue[:count])
        del self.queue[:count]
        self.consumed += count
        return data

    def get_attrs(self) -> list:
        cc: list = [bytes([v]) for v in self.attrs[6]]
        if not self.flag(termios.ICANON):
            cc[termios.VMIN] = self.attrs[6][termios.VMIN]
            cc[termios.VTIME] = self.attrs[6][termios.VTIME]
        return [*self.attrs[:6], cc]

    def set_attrs(self, when: int, attrs: list) -> None:
        if len(attrs) != 7:
            raise TypeError("tcsetattr, arg 3: must be 7 element list")
        was_canon = self.flag(termios.ICANON)
        if when == termios.TCSAFLUSH:
            self.flush_input()
        cc = [v if isinstance(v, int) else v[0] for v in attrs[6]]
        self.attrs = [*attrs[:6], cc]
        if self.flag(termios.ICANON) and not was_canon:
            self.canon_ready = self.pushed = len(self.queue)
        elif not self.flag(termios.ICANON):
            self.pushed = 0
        for callback in list(self.on_mode_change):
            callback()

    def drop(self) -> None:
        """Forgets what is waiting: between two parts of a run that have nothing to do with each other."""

        self.queue.clear()
        self.canon_ready = self.pushed = 0

    def flush_input(self) -> None:
        if self.queue:
            self.w.sim.log(f"{len(self.queue)} waiting bytes discarded")
        self.flushed += self.queue
        self.queue.clear()
        self.canon_ready = self.pushed = 0


class SimStdin:
    """What sys.stdin is while Slate is loaded and run."""

    def __init__(self) -> None:
        self.name = "<stdin>"
        self.mode = "r"
        self.closed = False
        self.errors = "strict"

    @property
    def encoding(self):
        world = World.current
        return world.stdin_encoding or world.encoding if world is not None else "utf-8"

    def isatty(self) -> bool:
        world = World.current
        if world is None:
            return False
        return world.stdin_tty

    def fileno(self) -> int:
        return STDIN_FD

    def readable(self) -> bool:
        return True

    def __repr__(self) -> str:
        return "<simulated stdin>"


class KeyStream(SimStdin):
    """Another terminal that keys are read from."""

    def __init__(self, world) -> None:
        super().__init__()
        self.name = "/dev/other"
        self._world = world

    @property
    def encoding(self):
        return self._world.encoding

    def isatty(self) -> bool:
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return True

    def fileno(self) -> int:
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return KEYS_FD


class OutStream:
    """A text stream ending at the emulator, with injectable failures.

    `plan` maps an operation ordinal (nth write or flush call on this stream since it was armed)
    to a fault; see World.arm_output_fault.
    """

    def __init__(self, world=None, emulator=None, tty: bool = True, opened=False) -> None:
        self._world = world
        self._opened = opened
        self._emu = emulator
        self._tty = tty
        self.buffer_text = ""
        self.limit = 8192
        self.fault = None
        self.encoding = "utf-8"
        self.errors = "strict"
        self.name = "<stdout>"
        self.closed = False
        self.delivered: list[str] | None = None

    def _get(self):
        world = self._world or World.current
        if world is None:
            return None, None
        return world, self._emu or world.emu

    def isatty(self) -> bool:
        world, _ = self._get()
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return bool(world) and self._tty and (self._opened or world.stdout_tty)

    def fileno(self) -> int:
        if self._opened:
            return OPENED_TTY_FD if self._tty else OPENED_FILE_FD
        return STDOUT_FD

    def writable(self) -> bool:
        return True

    def _deliver(self, text: str) -> None:
        _, emu = self._get()
        if text:
            if self.delivered is not None:
                self.delivered.append(text)
            emu.feed(text)

    def write(self, text) -> int:
        if not isinstance(text, str):
            raise TypeError(f"write() argument must be str, not {type(text).__name__}")
        world, _ = self._get()
        if world is None:
            return len(text)
        world.sim.seam("stream.write")
        if self.fault is not None:
            self.fault("write", self, text)
        self.buffer_text += text
        if len(self.buffer_text) > self.limit:
            data, self.buffer_text = self.buffer_text, ""
            self._deliver(data)
        return len(text)

    def writelines(self, lines) -> None:
        for line in lines:
            self.write(line)

    def flush(self) -> None:
        world, _ = self._get()
        if world is None:
            return
        world.sim.seam("stream.flush")
        if self.fault is not None:
            self.fault("flush", self, "")
        data, self.buffer_text = self.buffer_text, ""
        self._deliver(data)

    def __repr__(self) -> str:
        return "<simulated stdout>"


class World:
    current: "World | None" = None

    def __init__(self, choices: Choices, size=(80, 24), preempt=False, tty=False) -> None:
        self.c = choices
        self.sim = Sim(choices, preempt)
        self.size = size
        self.tty = Tty(self)
        self.ttys = {STDIN_FD: self.tty}
        self.side = None  # standard input's terminal, where the keys come from another one
        self.key_stream = None
        self.emu = Emulator(size)
        self.more_emus: list[Emulator] = []  # further windows, of the same size
        self.stdin_tty = tty
        self.stdout_tty = tty
        self.encoding = "utf-8"
        self.stdin_encoding = None
        self.pipes: dict[int, bytearray] = {}
        self.pipe_room = 65536  # less: stands for a pipe that many single bytes have filled before
        self.pipe_of: dict[int, tuple[int, str]] = {}
        self.counters: dict[int, int] = {}  # eventfds
        self._next_fd = PIPE_BASE
        self.fs_calls: list[str] = []
        self.fs_fault = None
        self.look_fault = None
        self.size_queries = 0
        self.on_size_query = None
        self.observed_size = None
        self.env: dict[str, str] = {"TERM": "xterm", "COLORTERM": "truecolor"}
        self.slow = None  # callable(name) -> microseconds a seam call takes
        self.system_calls: list[str] = []
        self.replies = None
        self.emu.on_query = self._on_query
        self.threads_started = 0
        self.at_end: list = []
        self.waiting_for_input = 0  # reads and selects that are blocked on the tty right now
        self.nonblocking: set[int] = set()

    # -- running ---------------------------------------------------------------------------------

    def __enter__(self) -> "World":
        if World.current is not None:
            raise HarnessError("nested worlds")
        World.current = self
        kernel.CURRENT = self.sim
        self._saved_env = {name: os.environ.pop(name, None) for name in ENV_NAMES}
        os.environ.update(self.env)

        if isinstance(sys.stdout, OutStream):  # nothing is left of the run before
            sys.stdout.buffer_text = ""
        return self

    def __exit__(self, *_) -> None:
        try:
            self.sim.shutdown()
        finally:
            World.current = None
            kernel.CURRENT = None
            for callback in self.at_end:
                callback()
            for name, value in self._saved_env.items():
                os.environ.pop(name, None)
                if value is not None:
                    os.environ[name] = value

    def api(self, name, fn, *args, allow=(), **kwargs):
        """Calls Slate. An exception that is not allowed is a violation."""

        self.sim.progress()
        try:
            return fn(*args, **kwargs)
        except allow:
            raise
        except Violation:
            raise
        except (kernel.SimKilled, HarnessError):
            raise
        except BaseException as exc:  # pylint: disable=broad-except
            self.sim.fail("raised", f"{name} raised {type(exc).__name__}: {exc}")

    def read_elsewhere(self) -> None:
        """From now on `tty` is not standard input's terminal; `key_stream` reads from it."""

        self.side = Tty(self)
        self.ttys = {STDIN_FD: self.side, KEYS_FD: self.tty}
        self.key_stream = KeyStream(self)

    def open_earlier(self):
        """Another terminal takes the descriptor that keys will be read from, until reopen_keys."""

        earlier = self.ttys[KEYS_FD] = Tty(self)
        self.key_stream.closed = True
        self.key_stream = KeyStream(self)
        return earlier

    def reopen_keys(self) -> None:
        self.key_stream.closed = True
        self.key_stream = KeyStream(self)
        self.ttys[KEYS_FD] = self.tty

    def tty_of(self, fd):
        if fd in (STDOUT_FD, OPENED_TTY_FD):
            fd = STDIN_FD
        return self.ttys.get(fd)

    # -- window size -----------------------------------------------------------------------------

    size_unknown = None  # "error", "zero": the size cannot be asked for, and 80 x 24 counts

    def query_size(self):
        self.sim.seam("winsize")
        self.size_queries += 1
        if self.on_size_query is not None:
            self.on_size_query()
        self.observed_size = self.size
        return self.size

    def resize(self, size, garble=True, unknown=None) -> None:
        self.size = size
        self.size_unknown = unknown
        self.sim.fire("resize")
        self.sim.log(f"terminal resized to {size}" + (f", which nobody tells ({unknown})" if unknown else ""))
        extra = getattr(self, "extra", (0, 0))
        self.emu.resize((size[0] + extra[0], size[1] + extra[1]), garble)
        for emu in self.more_emus:
            emu.resize((size[0] + extra[0], size[1] + extra[1]), garble)

    # -- descriptors -----------------------------------------------------------------------------

    def owns(self, fd) -> bool:
        return isinstance(fd, int) and fd >= STDIN_FD

    def fd_of(self, item) -> int:
        return item if isinstance(item, int) else item.fileno()

    def fd_readable(self, fd: int) -> bool:
        if fd in self.ttys:
            return self.ttys[fd].pollable()
        if fd in self.pipe_of:
            key, end = self.pipe_of[fd]
            return end == "r" and bool(self.pipes[key])
        if fd in self.counters:
            return bool(self.counters[fd])
        return False

    def pipe(self):
        read_end, write_end = self._next_fd, self._next_fd + 1
        self._next_fd += 2
        self.pipes[read_end] = bytearray()
        self.pipe_of[read_end] = (read_end, "r")
        self.pipe_of[write_end] = (read_end, "w")
        return read_end, write_end

    def eventfd(self, value: int) -> int:
        fd = self._next_fd
        self._next_fd += 1
        self.counters[fd] = value
        return fd

    def read(self, fd: int, count: int) -> bytes:
        self.sim.seam("read")
        if fd in self.counters:
            if not self.counters[fd] and fd in self.nonblocking:
                raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
            self.sim.wait(lambda: bool(self.counters[fd]))
            value, self.counters[fd] = self.counters[fd], 0
            return value.to_bytes(8, sys.byteorder)
        if fd in self.pipe_of:
            data = self.pipes[self.pipe_of[fd][0]]
            if fd in self.nonblocking and not data:
                raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
            self.sim.wait(lambda: bool(data))
            out = bytes(data[:count])
            del data[:count]
            return out
        if fd not in self.ttys:
            raise OSError(errno.EBADF, "Bad file descriptor")
        tty = self.ttys[fd]
        blocking = tty.flag(termios.ICANON) or tty.attrs[6][termios.VMIN] > 0
        if blocking:
            self.waiting_for_input += tty is self.tty
            try:
                self.sim.wait(tty.readable)
            finally:
                self.waiting_for_input -= tty is self.tty
        elif not tty.readable():
            vtime = tty.attrs[6][termios.VTIME]
            if vtime:
                self.sim.wait(tty.readable, self.sim.now + vtime * 100_000)
            if not tty.readable():
                return b""
        if tty.read_faults:
            code = tty.read_faults.pop(0)
            self.sim.fire("read_error")
            self.sim.log(f"read fails: {errno.errorcode[code]}")
            raise OSError(code, os.strerror(code))
        if tty.available():
            data = tty.take(count)
            self.sim.log(f"read -> {data!r}")
            self.cost("read")
            return data
        if tty.error:
            self.sim.log(f"read fails: {errno.errorcode[tty.error]}")
            self.sim.fire("hangup_error")
            raise OSError(tty.error, os.strerror(tty.error))
        self.sim.fire("eof_seen")
        self.sim.log("read -> EOF")
        return b""

    def write(self, fd: int, data: bytes) -> int:
        self.sim.seam("write")
        if fd in self.counters:
            self.counters[fd] += int.from_bytes(data[:8], sys.byteorder)
            return 8
        if fd in self.pipe_of:
            pipe = self.pipes[self.pipe_of[fd][0]]
            room = self.pipe_room if len(data) == 1 else 65536
            if len(pipe) + len(data) > room:
                self.sim.fire("pipe_full")
                if fd in self.nonblocking:
                    raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
                self.sim.wait(lambda: len(pipe) + len(data) <= room)
            pipe += bytes(data)
            return len(data)
        if fd == STDOUT_FD:
            self.emu.feed(bytes(data).decode("utf-8", "replace"))
            return len(data)
        raise OSError(errno.EBADF, "Bad file descriptor")

    def select(self, rlist, wlist, xlist, timeout=None):
        self.sim.seam("select")
        if timeout is not None and timeout < 0:
            raise ValueError("timeout must be non-negative")
        items = [(item, self.fd_of(item)) for item in rlist]
        if self.slow is not None:
            self.cost("select")

        def ready():
            return [item for item, fd in items if self.fd_readable(fd)]

        if wlist:
            return ready(), list(wlist), []
        if timeout == 0:
            return ready(), [], []
        until = None if timeout is None else self.sim.now + int(round(timeout * US))
        on_tty = any(self.ttys.get(fd) is self.tty for _, fd in items)
        self.waiting_for_input += on_tty
        try:
            self.sim.wait(lambda: bool(ready()), until)
        finally:
            self.waiting_for_input -= on_tty
        return ready(), [], []

    def cost(self, name: str) -> None:
        """A seam call may take (virtual) time: others run, keys arrive, timers expire."""

        if self.slow is not None:
            duration = self.slow(name)
            if duration:
                self.sim.fire("slow_call")
                self.sim.sleep(duration)

    # -- termios ---------------------------------------------------------------------------------

    def tcgetattr(self, fd) -> list:
        self.sim.seam("tcgetattr")
        return self._check_tty(fd).get_attrs()

    def tcsetattr(self, fd, when, attrs) -> None:
        self.sim.seam("tcsetattr", deliver=False)
        tty = self._check_tty(fd)
        if when != termios.TCSANOW:  # waits until the output has drained
            self.cost("tcsetattr")
        tty.set_attrs(when, attrs)
        mode = "canonical" if tty.flag(termios.ICANON) else "cbreak"
        echo = "echo" if tty.flag(termios.ECHO) else "-echo"
        self.sim.log(f"tcsetattr {mode} {echo}")
        # a signal that came while the call was waiting is handled as it returns
        self.sim.deliver()

    def tcflush(self, fd, queue) -> None:
        self.sim.seam("tcflush")
        tty = self._check_tty(fd)
        if queue in (termios.TCIFLUSH, termios.TCIOFLUSH):
            tty.flush_input()

    def _check_tty(self, fd) -> Tty:
        fd = self.fd_of(fd)
        tty = self.tty_of(fd)
        if tty is None or (fd != KEYS_FD and not (self.stdin_tty or self.stdout_tty)):
            raise termios.error(errno.ENOTTY, "Inappropriate ioctl for device")
        return tty

    def system(self, argv) -> int:
        """The only program there is: stty. Signals wait until it is done."""

        self.sim.seam("system", deliver=False)
        self.system_calls.append(" ".join(argv))
        if not argv or os.path.basename(argv[0]) != "stty":
            return 127 << 8
        for word in argv[1:]:
            on = not word.startswith("-")
            flag = {"echo": termios.ECHO, "icanon": termios.ICANON, "isig": termios.ISIG}.get(
                word.lstrip("-")
            )
            tty = self.ttys[STDIN_FD]
            if flag is None:
                if word == "sane":
                    tty.attrs[3] = LFLAG_DEFAULT
                continue
            attrs = tty.get_attrs()
            attrs[3] = attrs[3] | flag if on else attrs[3] & ~flag
            tty.set_attrs(termios.TCSADRAIN, attrs)
        self.sim.log("stty " + " ".join(argv[1:]))
        self.sim.deliver()
        return 0

    # -- files -----------------------------------------------------------------------------------

    def file_call(self, what: str) -> None:
        self.fs_calls.append(what)
        self.sim.log(f"file system: {what}")
        if self.fs_fault is not None:
            self.fs_fault(what)

    def file_look(self, what: str) -> None:
        if self.look_fault is not None:
            self.look_fault(what)

    # -- the terminal's answers ------------------------------------------------------------------

    def _on_query(self, kind: str) -> None:
        self.sim.log(f"terminal is asked {kind}")
        if self.replies is not None:
            self.replies(kind)
