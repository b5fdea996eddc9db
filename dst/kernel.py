"""The simulator core: choices, virtual time, tasks, scheduling, signals.

Everything that is decided in a run is decided by `Choices`; everything that waits, waits in
`Sim.wait`.  Real threads are used to carry simulated threads, but exactly one of them runs at a
time and the simulator decides which (baton passing through raw locks).
"""

from __future__ import annotations

import _thread
import dis
import hashlib
import heapq
import random
import signal as _signal
import sys

US = 1_000_000  # virtual time is kept in integer microseconds


class Violation(BaseException):
    """A property is broken. `cls` is the class used to compare failures while shrinking."""

    def __init__(self, cls: str, msg: str = "") -> None:
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg


class SimKilled(BaseException):
    """Ends a simulated thread when its run is over."""


class HarnessError(Exception):
    """The harness itself is at fault."""


class Choices:
    """The only source of nondeterminism. Replaying a recorded list repeats the run."""

    def __init__(self, seed=None, replay=None) -> None:
        self.replay = replay
        self.rng = random.Random(seed) if replay is None else None
        self.rec: list[int] = []
        self.blocks: list[tuple[int, int]] = []
        self._open: list[int] = []

    def draw(self, n: int) -> int:
        """An integer in [0, n); 0 is by convention the simplest choice."""

        if n <= 1:
            return 0
        if self.replay is not None:
            pos = len(self.rec)
            value = self.replay[pos] % n if pos < len(self.replay) else 0
        else:
            value = self.rng.randrange(n)
        self.rec.append(value)
        return value

    def chance(self, num: int, den: int) -> bool:
        return self.draw(den) >= den - num

    def between(self, low: int, high: int) -> int:
        return low + self.draw(high - low + 1)

    def rounds(self, low: int, high: int, long: bool = True) -> int:
        """The length of a history, which now and then is a long one."""

        if long and self.chance(1, 80):
            return self.between(3 * high, 20 * high)
        return self.between(low, high)

    def pick(self, items):
        return items[self.draw(len(items))]

    def weighted(self, pairs):
        """pairs: (weight, value); the first one is the simplest."""

        total = sum(weight for weight, _ in pairs)
        value = self.draw(total)
        for weight, item in pairs:
            if value < weight:
                return item
            value -= weight
        raise HarnessError("weights")

    # Blocks let the shrinker delete whole operations at once.
    def begin(self) -> None:
        self._open.append(len(self.rec))

    def end(self) -> None:
        self.blocks.append((self._open.pop(), len(self.rec)))


class Task:
    def __init__(self, sim, ident, name) -> None:
        self.sim = sim
        self.ident = ident
        self.name = name
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.done = False
        self.started = False
        self.pred = None  # None: runnable
        self.inject = None
        self.deferred = None  # to be raised at the next call into the world
        self.overrun = 0
        self.error = None
        self.in_api = 0

    def runnable(self) -> bool:
        return not self.done and (self.pred is None or self.pred())


CURRENT: "Sim | None" = None

_AFTER_CALLS: dict = {}


def _after_calls(code) -> frozenset:
    """Offsets of the instructions that follow a call: the interpreter switches threads there."""

    found = _AFTER_CALLS.get(code)
    if found is None:
        offsets, previous = set(), ""
        for instruction in dis.get_instructions(code):
            if previous.startswith("CALL"):
                offsets.add(instruction.offset)
            previous = instruction.opname
        found = _AFTER_CALLS[code] = frozenset(offsets)
    return found



class Sim:
    MAX_STEPS = 60_000

    def __init__(self, choices: Choices, preempt: bool = False) -> None:
        self.c = choices
        self.now = 0
        self.wall_offset = 0  # seconds the wall clock has been set by
        self._heap: list = []
        self._seq = 0
        self.tasks: list[Task] = []
        self.main = Task(self, 0, "main")
        self.main.started = True
        self.tasks.append(self.main)
        self.cur = self.main
        self.steps = 0
        self.step_limit = self.MAX_STEPS  # moved on by every call of the program
        self.killing = False
        self.violation: Violation | None = None
        self.events: list[str] = []
        self.fired: dict[str, int] = {}
        self.probes: dict[str, int] = {}
        self.switches = 0
        self.schedule = bytearray()

        # signals
        self.handlers: dict[int, object] = {
            _signal.SIGALRM: _signal.SIG_DFL,
            _signal.SIGINT: _signal.default_int_handler,
        }
        self.pending: list[int] = []
        self.timer_gen = 0
        self.cpu_timers: dict = {}
        self.timer_at: int | None = None
        self.timer_interval = 0

        # preemption inside traced code
        self.preempt = preempt
        self.trace_prefix = ""
        self._countdown = 0
        self.lines = 0

        # called with the name of each seam call, before it runs (may raise an injected fault)
        self.on_seam = None

    # -- bookkeeping -----------------------------------------------------------------------------

    def log(self, text: str) -> None:
        self.events.append(f"{self.now}us {self.cur.name}: {text}")

    def digest(self) -> str:
        return hashlib.sha1("\n".join(self.events).encode("utf-8", "replace")).hexdigest()

    def fire(self, fault: str) -> None:
        self.fired[fault] = self.fired.get(fault, 0) + 1

    def probe(self, name: str) -> None:
        self.probes[name] = self.probes.get(name, 0) + 1

    def fail(self, cls: str, msg: str = ""):
        violation = Violation(cls, msg)
        if self.violation is None:
            self.violation = violation
            self.log(f"VIOLATION {cls}: {msg}")
        raise violation

    # -- events ----------------------------------------------------------------------------------

    def at(self, delay: int, fn, what: str = "") -> None:
        self._seq += 1
        heapq.heappush(self._heap, (self.now + max(0, int(delay)), self._seq, fn, what))

    def _run_next_event(self) -> bool:
        if not self._heap:
            return False
        when, _, fn, what = heapq.heappop(self._heap)
        if when > self.now:
            self.now = when
        if what:
            self.log(f"event {what}")
        fn()
        return True

    def _run_due(self) -> None:
        while self._heap and self._heap[0][0] <= self.now:
            self._run_next_event()

    # -- scheduling ------------------------------------------------------------------------------

    def _choose(self) -> Task | None:
        """Runs events until some task can run, and picks one. None: nothing ever will."""

        while True:
            self._run_due()
            ready = [task for task in self.tasks if task.runnable()]
            if ready:
                if len(ready) == 1:
                    return ready[0]
                self.switches += 1
                picked = ready[self.c.draw(len(ready))]
                self.schedule.append(picked.ident & 255)
                return picked
            if not self._run_next_event():
                return None

    def progress(self) -> None:
        """The program starts another call, which may take its own steps."""

        self.step_limit = max(self.step_limit, self.steps + self.MAX_STEPS)

    def _count(self) -> None:
        me = self.cur
        if me.deferred is not None:
            error = me.deferred
            if not isinstance(error, SimKilled):
                me.deferred = None
            raise error
        self.steps += 1
        if self.steps > self.step_limit and not self.killing:
            if self.violation is None:
                self.violation = Violation("hang", "no end after the step budget (livelock)")
            self._abort()

    def _abort(self) -> None:
        """Ends the run: raises in main, wherever we are."""

        if self.cur is self.main:
            raise self.violation
        self.main.inject = self.violation
        self.main.pred = None
        self._transfer(self.main)

    def _transfer(self, task: Task) -> None:
        me = self.cur
        if task is not me:
            self.cur = task
            if not task.started:
                task.started = True
                _thread.start_new_thread(self._thread_body, (task,))
            else:
                task.baton.release()
            me.baton.acquire()
        if me.inject is not None:
            error, me.inject = me.inject, None
            raise error
        if self.killing and me is not self.main:
            raise SimKilled()

    def _reschedule(self) -> None:
        self._count()
        task = self._choose()
        if task is None:
            if self.violation is None:
                blocked = ", ".join(t.name for t in self.tasks if not t.done)
                self.violation = Violation("hang", f"blocked forever: {blocked}")
                self.log("VIOLATION hang: blocked forever")
            self._abort()
            return
        self._transfer(task)

    def wait(self, pred, until: int | None = None) -> bool:
        """Blocks the current task. True: `pred` holds; False: the deadline passed."""

        me = self.cur
        if until is not None and until > self.now:
            self.at(until - self.now, lambda: None)
        while True:
            self.deliver()
            if pred():
                me.pred = None
                return True
            if until is not None and self.now >= until:
                me.pred = None
                return False
            me.pred = lambda: (
                pred()
                or (until is not None and self.now >= until)
                or (me is self.main and bool(self.pending))
            )
            try:
                self._reschedule()
            finally:
                me.pred = None

    def sleep(self, duration: int) -> None:
        end = self.now + max(0, int(duration))
        self.wait(lambda: False, end)

    def yield_(self) -> None:
        """Lets the scheduler switch to another runnable task."""

        self._reschedule()

    # -- threads ---------------------------------------------------------------------------------

    def spawn(self, fn, name: str) -> Task:
        task = Task(self, len(self.tasks), name)
        task.fn = fn
        self.tasks.append(task)
        return task

    def _thread_body(self, task: Task) -> None:
        try:
            if self.preempt:
                sys.settrace(self._trace)
            try:
                if task.inject is not None:
                    raise task.inject
                if not self.killing:
                    task.fn()
            finally:
                sys.settrace(None)
        except SimKilled:
            pass
        except Violation:
            pass
        except BaseException as exc:  # what a real thread prints and forgets
            task.error = exc
        task.done = True
        if self.killing:
            self.cur = self.main
            self.main.baton.release()
            return
        if self.violation is not None:
            self.main.inject = self.violation
            self.main.pred = None
            self.cur = self.main
            self.main.baton.release()
            return
        try:
            self._count()
            nxt = self._choose()
        except Violation:
            nxt = None
        except BaseException as exc:  # a harness event callback failed
            self.main.inject = exc
            self.cur = self.main
            self.main.baton.release()
            return
        if nxt is None:
            if self.violation is None:
                self.violation = Violation("hang", "blocked forever")
                self.log("VIOLATION hang: blocked forever")
            self.main.inject = self.violation
            nxt = self.main
        self.cur = nxt
        if not nxt.started:
            nxt.started = True
            _thread.start_new_thread(self._thread_body, (nxt,))
        else:
            nxt.baton.release()

    def shutdown(self) -> None:
        """Ends every other task. Called by main when a run is over."""

        self.killing = True
        sys.settrace(None)
        self.cur = self.main
        for task in self.tasks:
            if task is self.main or task.done:
                continue
            if not task.started:
                task.done = True
                continue
            for _ in range(50):
                if task.done:
                    break
                task.inject = SimKilled()
                task.pred = None
                self.cur = task
                task.baton.release()
                self.main.baton.acquire()
                self.cur = self.main

    # -- preemption ------------------------------------------------------------------------------

    def start_tracing(self) -> None:
        if self.preempt:
            self._next_preemption()
            sys.settrace(self._trace)

    def _next_preemption(self) -> None:
        # mostly far apart, sometimes at every line
        self._countdown = self.c.weighted(
            [(3, 400), (2, 60), (3, 25), (4, 12), (4, 6), (5, 3), (5, 2), (5, 1)]
        )
        if self._countdown > 2:
            self._countdown = 1 + self.c.draw(self._countdown)

    def _trace(self, frame, event, arg):
        if self.trace_prefix and frame.f_code.co_filename.startswith(self.trace_prefix):
            if self.preempt == "call":
                frame.f_trace_opcodes = True
            return self._local
        return None

    def _local(self, frame, event, arg):
        me = self.cur
        if self.killing or me.deferred is not None:
            me.overrun += 1
            if me.overrun > 20_000:  # computes without end
                raise me.deferred or SimKilled()
            return self._local
        if event == "line" or (event == "opcode" and frame.f_lasti in _after_calls(frame.f_code)):
            self.lines += event == "line"
            self._countdown -= 1
            if self._countdown <= 0:
                self._next_preemption()
                if sum(1 for t in self.tasks if not t.done) > 1 or self._heap:
                    self.probe("preempted")
                    try:
                        self._reschedule()
                    except (Violation, SimKilled) as exc:
                        # the interpreter does not survive every exception raised out of here
                        me.deferred = exc
        return self._local

    # -- signals ---------------------------------------------------------------------------------

    def raise_signal(self, signum: int) -> None:
        if signum not in self.pending:
            self.pending.append(signum)

    def deliver(self) -> None:
        """Runs pending signal handlers, in the main task only, as CPython does."""

        if self.cur is not self.main or self.killing:
            return
        while self.pending:
            signum = self.pending.pop(0)
            handler = self.handlers.get(signum, _signal.SIG_DFL)
            self.log(f"signal {int(signum)} delivered")
            if handler == _signal.SIG_IGN:
                continue
            if handler == _signal.SIG_DFL or handler is None:
                self.fail("killed", f"the process is ended by signal {int(signum)}")
            handler(signum, None)

    def set_timer(self, delay: int, interval: int = 0):
        left = 0 if self.timer_at is None else max(1, self.timer_at - self.now)
        old = (left, self.timer_interval)
        self.timer_gen += 1
        gen = self.timer_gen
        self.timer_interval = interval
        if delay <= 0:
            self.timer_at = None
            return old
        self.timer_at = self.now + delay

        def _fire() -> None:
            if gen != self.timer_gen:
                return
            self.timer_at = None
            if interval:
                self.set_timer(interval, interval)
            self.log("alarm timer expires")
            self.raise_signal(_signal.SIGALRM)

        self.at(delay, _fire)
        return old

    # -- seam entry ------------------------------------------------------------------------------

    def seam(self, name: str, deliver: bool = True) -> None:
        """Every call into the simulated world passes here: a step, a fault point."""

        self._count()
        self._run_due()
        if deliver:
            self.deliver()
        if self.on_seam is not None:
            self.on_seam(name)
