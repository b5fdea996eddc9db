"""Routes the nondeterministic parts of the standard library to the simulated world.

Installed once per worker process, before Slate is loaded, so it does not matter how Slate imports
these functions. Outside a world every function behaves as usual.
"""

from __future__ import annotations

import _thread
import builtins
import errno
import io
import os
import select
import selectors
import shlex
import shutil
import signal
import socket
import subprocess
import sys
import termios
import threading
import time
import tty

from . import kernel
from .kernel import US
from .world import STDIN_FD, STDOUT_FD, OutStream, SimStdin, World

REAL: dict[str, object] = {}
STDIN = SimStdin()
STDOUT = OutStream()


def _sim():
    return kernel.CURRENT


class SimLock:
    """threading.Lock for simulated threads."""

    def __init__(self) -> None:
        self._held = False

    def acquire(self, blocking=True, timeout=-1) -> bool:
        sim = _sim()
        if sim is None or sim.killing:
            if self._held and blocking and sim is None:
                raise RuntimeError("deadlock outside the simulation")
            got = not self._held
            self._held = True
            return got
        sim.seam("lock")
        if self._held:
            if not blocking:
                return False
            sim.probe("lock_contended")
            until = None if timeout is None or timeout < 0 else sim.now + int(timeout * US)
            if not sim.wait(lambda: not self._held, until):
                return False
        self._held = True
        return True

    def release(self) -> None:
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False

    def locked(self) -> bool:
        return self._held

    __enter__ = acquire

    def __exit__(self, *_) -> None:
        self.release()

    def _at_fork_reinit(self) -> None:
        self._held = False


class SimRLock:
    def __init__(self) -> None:
        self._owner = None
        self._count = 0

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1) -> bool:
        me = self._me()
        if self._owner == me:
            self._count += 1
            return True
        sim = _sim()
        if sim is not None and not sim.killing:
            sim.seam("lock")
            if self._owner is not None:
                if not blocking:
                    return False
                sim.probe("lock_contended")
                until = None if timeout is None or timeout < 0 else sim.now + int(timeout * US)
                if not sim.wait(lambda: self._owner is None, until):
                    return False
        self._owner, self._count = me, 1
        return True

    def release(self) -> None:
        if self._owner != self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None

    __enter__ = acquire

    def __exit__(self, *_) -> None:
        self.release()

    # used by threading.Condition
    def _release_save(self):
        state = (self._owner, self._count)
        self._owner, self._count = None, 0
        return state

    def _acquire_restore(self, state) -> None:
        self.acquire()
        self._owner, self._count = state

    def _is_owned(self) -> bool:
        return self._owner == self._me()


class SimThread:
    """threading.Thread whose scheduling the simulator decides."""

    _counter = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        SimThread._counter += 1
        self.name = name or "thread"
        self.daemon = bool(daemon)
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self._task = None

    def run(self) -> None:
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self) -> None:
        sim = _sim()
        if sim is None:
            raise RuntimeError("simulated thread outside a simulation")
        if self._task is not None:
            raise RuntimeError("threads can only be started once")
        World.current.threads_started += 1
        name = f"{self.name}-{len(sim.tasks)}"
        self._task = sim.spawn(self.run, name)
        sim.log(f"starts {name}")
        sim.yield_()

    def join(self, timeout=None) -> None:
        sim = _sim()
        if self._task is None:
            raise RuntimeError("cannot join thread before it is started")
        until = None if timeout is None else sim.now + max(0, int(timeout * US))
        sim.seam("join")
        sim.wait(lambda: self._task.done, until)

    def is_alive(self) -> bool:
        return self._task is not None and not self._task.done

    @property
    def ident(self):
        return None if self._task is None else self._task.ident + 1000

    native_id = ident

    def setDaemon(self, value) -> None:
        self.daemon = value


class SimTimer(SimThread):
    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__(name="timer")
        self.interval, self.function = interval, function
        self.args, self.kwargs = args or [], kwargs or {}
        self._cancelled = False

    def cancel(self) -> None:
        self._cancelled = True

    def run(self) -> None:
        sim = _sim()
        sim.wait(lambda: self._cancelled, sim.now + int(self.interval * US))
        if not self._cancelled:
            self.function(*self.args, **self.kwargs)


class SimSocket:
    """One end of a socketpair."""

    def __init__(self, reads: int, writes: int) -> None:
        self._reads, self._writes = reads, writes

    def fileno(self) -> int:
        return self._reads

    def setblocking(self, flag: bool) -> None:
        for fd in (self._reads, self._writes):
            os.set_blocking(fd, flag)

    def send(self, data, flags=0) -> int:
        return os.write(self._writes, data)

    def sendall(self, data, flags=0) -> None:
        os.write(self._writes, data)

    def recv(self, count, flags=0) -> bytes:
        return os.read(self._reads, count)

    def close(self) -> None:
        pass

    def detach(self) -> int:
        return self._reads


def _socketpair(world):
    one, two = world.pipe(), world.pipe()
    return SimSocket(one[0], two[1]), SimSocket(two[0], one[1])


def _patch(module, name, value) -> None:
    REAL.setdefault(f"{module.__name__}.{name}", getattr(module, name, None))
    setattr(module, name, value)


def real(name):
    return REAL[name]


def install() -> None:
    if REAL:
        return

    w = lambda: World.current  # noqa: E731

    # -- os ---------------------------------------------------------------------------------------
    real_read, real_write, real_pipe, real_close = os.read, os.write, os.pipe, os.close
    real_size, real_isatty, real_fstat = os.get_terminal_size, os.isatty, os.fstat

    def os_read(fd, count):
        return w().read(fd, count) if w() and w().owns(fd) else real_read(fd, count)

    def os_write(fd, data):
        return w().write(fd, data) if w() and w().owns(fd) else real_write(fd, data)

    def os_pipe():
        return w().pipe() if w() else real_pipe()

    def os_pipe2(flags):
        if not w():
            return REAL["os.pipe2"](flags)
        ends = w().pipe()
        if flags & os.O_NONBLOCK:
            w().nonblocking.update(ends)
        return ends


    def os_eventfd(initval, flags=0):
        if not w():
            return REAL["os.eventfd"](initval, flags)
        fd = w().eventfd(initval)
        if flags & os.EFD_NONBLOCK:
            w().nonblocking.add(fd)
        return fd

    def os_eventfd_read(fd):
        if w() and w().owns(fd):
            return int.from_bytes(w().read(fd, 8), sys.byteorder)
        return REAL["os.eventfd_read"](fd)

    def os_eventfd_write(fd, value):
        if w() and w().owns(fd):
            w().write(fd, value.to_bytes(8, sys.byteorder))
            return None
        return REAL["os.eventfd_write"](fd, value)

    def os_close(fd):
        if isinstance(fd, int) and fd >= STDIN_FD:
            return None
        return real_close(fd)

    def os_get_terminal_size(fd=None):
        if w():
            size = w().query_size()
            if w().size_unknown == "error":
                raise OSError(errno.ENOTTY, os.strerror(errno.ENOTTY))
            return os.terminal_size((0, 0) if w().size_unknown else size)
        return real_size() if fd is None else real_size(fd)

    def os_isatty(fd):
        if w() and w().owns(fd):
            if fd == STDIN_FD:
                return w().stdin_tty
            return w().stdout_tty if fd == STDOUT_FD else w().tty_of(fd) is not None
        return real_isatty(fd)

    def set_blocking(fd, flag):
        if isinstance(fd, int) and fd >= STDIN_FD:
            if w():
                (w().nonblocking.discard if flag else w().nonblocking.add)(fd)
            return None
        return REAL["os.set_blocking"](fd, flag)

    def os_system(command):
        return w().system(shlex.split(command)) if w() else REAL["os.system"](command)

    for name, value in (("read", os_read), ("write", os_write), ("pipe", os_pipe), ("pipe2", os_pipe2),
                        ("close", os_close), ("get_terminal_size", os_get_terminal_size),
                        ("isatty", os_isatty), ("system", os_system),
                        ("set_blocking", set_blocking), ("eventfd", os_eventfd),
                        ("eventfd_read", os_eventfd_read), ("eventfd_write", os_eventfd_write)):
        _patch(os, name, value)

    real_shutil_size = shutil.get_terminal_size

    def shutil_size(fallback=(80, 24)):
        if w():
            size = w().query_size()
            return os.terminal_size(fallback if w().size_unknown else size)
        return real_shutil_size(fallback)

    _patch(shutil, "get_terminal_size", shutil_size)
    if hasattr(termios, "tcgetwinsize"):
        def tcgetwinsize(fd):
            if not w():
                return REAL["termios.tcgetwinsize"](fd)
            size = w().query_size()
            if w().size_unknown == "error":
                raise termios.error(errno.ENOTTY, os.strerror(errno.ENOTTY))
            return (0, 0) if w().size_unknown else (size[1], size[0])

        _patch(termios, "tcgetwinsize", tcgetwinsize)

    # -- subprocess: only stty exists --------------------------------------------------------------
    def sub_run(args, *rest, **kwargs):
        if not w():
            return REAL["subprocess.run"](args, *rest, **kwargs)
        argv = shlex.split(args) if isinstance(args, str) else list(args)
        return subprocess.CompletedProcess(args, w().system(argv), "", "")

    def sub_call(args, *rest, **kwargs):
        return sub_run(args).returncode if w() else REAL["subprocess.call"](args, *rest, **kwargs)

    def sub_check(args, *rest, **kwargs):
        return sub_run(args).returncode if w() else REAL["subprocess.check_call"](args, *rest, **kwargs)

    # -- fcntl: the forms that ask and set what the functions above do ------------------------------
    import fcntl
    import struct

    def sim_fcntl(fd, cmd, arg=0):
        fd = fd if isinstance(fd, int) else fd.fileno()
        if not (w() and w().owns(fd)):
            return REAL["fcntl.fcntl"](fd, cmd, arg)
        if cmd == fcntl.F_GETFL:
            return os.O_RDWR | (os.O_NONBLOCK if fd in w().nonblocking else 0)
        if cmd == fcntl.F_SETFL:
            set_blocking(fd, not arg & os.O_NONBLOCK)
        return 0

    def sim_ioctl(fd, request, arg=0, mutate=True):
        fd = fd if isinstance(fd, int) else fd.fileno()
        if not (w() and w().owns(fd)):
            return REAL["fcntl.ioctl"](fd, request, arg, mutate)
        if request == termios.TIOCGWINSZ:
            size = w().query_size()
            if w().size_unknown == "error":
                raise OSError(errno.ENOTTY, os.strerror(errno.ENOTTY))
            if w().size_unknown:
                size = (0, 0)
            packed = struct.pack("HHHH", size[1], size[0], 0, 0)
        elif request == termios.FIONREAD:
            tty_ = w().tty_of(fd)
            if fd in w().pipe_of:
                count = len(w().pipes[w().pipe_of[fd][0]])
            else:
                count = tty_.available() if tty_ else 0
            packed = struct.pack("i", count)
        else:
            raise OSError(25, "Inappropriate ioctl for device")
        if isinstance(arg, (bytes, str)):
            return packed
        if isinstance(arg, int):
            return 0
        view = memoryview(arg).cast("B")
        view[: len(packed)] = packed
        return 0

    _patch(fcntl, "fcntl", sim_fcntl)
    _patch(fcntl, "ioctl", sim_ioctl)

    _patch(subprocess, "run", sub_run)
    _patch(subprocess, "call", sub_call)
    _patch(subprocess, "check_call", sub_check)

    # -- select ------------------------------------------------------------------------------------
    real_select = select.select

    def sim_select(rlist, wlist, xlist, timeout=None):
        if w():
            return w().select(list(rlist), list(wlist), list(xlist), timeout)
        return real_select(rlist, wlist, xlist, timeout)

    class SimPoll:
        def __init__(self):
            self._fds = {}

        def register(self, fd, mask=select.POLLIN):
            self._fds[w().fd_of(fd)] = mask

        modify = register

        def unregister(self, fd):
            del self._fds[w().fd_of(fd)]

        def poll(self, timeout=None):
            seconds = None if timeout is None or timeout < 0 else timeout / 1000
            ready, _, _ = w().select(list(self._fds), [], [], seconds)
            return [(fd, select.POLLIN) for fd in ready]

        def close(self):
            self._fds.clear()

    class SimEpoll(SimPoll):
        def poll(self, timeout=None, maxevents=-1):
            return super().poll(None if timeout is None or timeout < 0 else timeout * 1000)

        def __enter__(self):
            return self

        def __exit__(self, *_):
            self.close()

    real_poll, real_epoll = select.poll, select.epoll
    _patch(select, "select", sim_select)
    _patch(select, "poll", lambda: SimPoll() if w() else real_poll())
    _patch(select, "epoll", lambda *args, **kwargs: SimEpoll() if w() else real_epoll(*args, **kwargs))
    _patch(socket, "socketpair",
           lambda *args: _socketpair(w()) if w() else REAL["socket.socketpair"](*args))
    _patch(selectors, "DefaultSelector", selectors.SelectSelector)

    def selector_select(self, r, wr, x, timeout=None):
        return sim_select(r, wr, x, timeout)

    selectors.SelectSelector._select = selector_select

    # -- termios, tty ------------------------------------------------------------------------------
    for module in (termios, tty):
        for name in ("tcgetattr", "tcsetattr", "tcflush"):
            original = getattr(module, name)

            def make(name=name, original=original):
                def wrapper(fd, *args):
                    if w():
                        return getattr(w(), name)(fd, *args)
                    return original(fd, *args)

                return wrapper

            _patch(module, name, make())

    # -- signals -----------------------------------------------------------------------------------
    def sim_signal(signum, handler):
        sim = _sim()
        if sim is None:
            return REAL["signal.signal"](signum, handler)
        if sim.cur is not sim.main:
            raise ValueError("signal only works in main thread of the main interpreter")
        sim.seam("signal")
        if not callable(handler) and handler not in (signal.SIG_DFL, signal.SIG_IGN):
            raise TypeError("signal handler must be signal.SIG_IGN, signal.SIG_DFL, or a callable")
        old = sim.handlers.get(signum, signal.SIG_DFL)
        sim.handlers[signum] = handler
        return old

    def sim_getsignal(signum):
        sim = _sim()
        if sim is None:
            return REAL["signal.getsignal"](signum)
        return sim.handlers.get(signum, signal.SIG_DFL)

    def sim_setitimer(which, seconds, interval=0.0):
        sim = _sim()
        if sim is None:
            return REAL["signal.setitimer"](which, seconds, interval)
        sim.seam("setitimer")
        if seconds < 0:
            raise signal.ItimerError(22, "Invalid argument")
        delay = int(seconds * US)
        if seconds > 0 and delay == 0:
            delay = 1
        if which != signal.ITIMER_REAL:  # counts processor time, of which waiting takes none
            old = sim.cpu_timers.get(which, (0.0, 0.0))
            sim.cpu_timers[which] = (float(seconds), float(interval) if seconds else 0.0)
            return old
        left, old_interval = sim.set_timer(delay, int(interval * US))
        return (left / US, old_interval / US)

    def sim_getitimer(which):
        sim = _sim()
        if sim is None:
            return REAL["signal.getitimer"](which)
        if which != signal.ITIMER_REAL:
            return sim.cpu_timers.get(which, (0.0, 0.0))
        left = 0 if sim.timer_at is None else max(1, sim.timer_at - sim.now)
        return (left / US, sim.timer_interval / US)

    def sim_alarm(seconds):
        sim = _sim()
        if sim is None:
            return REAL["signal.alarm"](seconds)
        sim.seam("alarm")
        left, _ = sim.set_timer(int(seconds) * US)
        return -(-left // US)

    _patch(signal, "signal", sim_signal)
    _patch(signal, "getsignal", sim_getsignal)
    _patch(signal, "setitimer", sim_setitimer)
    _patch(signal, "getitimer", sim_getitimer)
    _patch(signal, "alarm", sim_alarm)

    # -- time --------------------------------------------------------------------------------------
    def clock(name, scale):
        original = getattr(time, name)

        def read_clock():
            sim = _sim()
            if sim is None:
                return original()
            wall = 1_700_000_000 + sim.wall_offset if name.startswith("time") else 0
            return wall * 10**9 + sim.now * 1000 if scale else wall + sim.now / US

        return read_clock

    for name in ("time", "monotonic", "perf_counter"):
        _patch(time, name + "_ns", clock(name + "_ns", True))
        _patch(time, name, clock(name, False))

    def sim_sleep(seconds):
        sim = _sim()
        if sim is None:
            return REAL["time.sleep"](seconds)
        sim.seam("sleep")
        sim.sleep(int(seconds * US))

    _patch(time, "sleep", sim_sleep)

    # -- threads -----------------------------------------------------------------------------------
    import queue

    _patch(threading, "Lock", SimLock)
    _patch(threading, "_allocate_lock", SimLock)
    _patch(threading, "RLock", SimRLock)
    _patch(threading, "Thread", SimThread)
    _patch(threading, "Timer", SimTimer)
    _patch(queue, "SimpleQueue", queue._PySimpleQueue)

    # -- files -------------------------------------------------------------------------------------
    real_open = builtins.open

    def sim_open(file, mode="r", *args, **kwargs):
        if not w():
            return real_open(file, mode, *args, **kwargs)
        if isinstance(file, int) and not w().owns(file):
            return real_open(file, mode, *args, **kwargs)
        w().file_call(f"open {os.fspath(file) if not isinstance(file, int) else file!r} {mode}")
        return io.BytesIO() if "b" in mode else io.StringIO()

    _patch(builtins, "open", sim_open)
    _patch(io, "open", sim_open)
    for name in ("open", "mkdir", "makedirs", "remove", "unlink", "rename", "replace", "truncate",
                 "chmod", "symlink", "link"):
        original = getattr(os, name)

        def make_fs(name=name, original=original):
            def wrapper(*args, **kwargs):
                if w():
                    w().file_call(f"{name} {args[:1]!r}")
                    return None
                return original(*args, **kwargs)

            return wrapper

        _patch(os, name, make_fs())

    # calls that only look: they show in nothing but their failure
    for name in ("getcwd", "getcwdb", "stat", "lstat", "listdir", "scandir", "access", "readlink"):
        original = getattr(os, name)

        def make_look(name=name, original=original):
            def wrapper(*args, **kwargs):
                if w():
                    w().file_look(f"{name} {args[:1]!r}")
                return original(*args, **kwargs)

            return wrapper

        _patch(os, name, make_look())

    sys.stdin = STDIN
    sys.stdout = STDOUT
