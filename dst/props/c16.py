"""C16: a timed block is cut at its deadline and leaves no alarm behind."""

import signal
import time

from ..kernel import US, HarnessError, SimKilled, Violation
from ..keys import build_world
from ..loader import load_slate

RULE = ("sequences of timed blocks with bodies that sleep, read keys, run clean-up code and end "
        "normally, by an exception or by closing a generator, before, at and after the deadline, with "
        "each kind of alarm handler in place before and time passing afterwards. Non-trivial: one "
        "block was cut and one was not")
REAL = ["slate.core (timeout, getch)", "contextlib"]
STUBS = ["signals", "interval timer", "clock", "tty line discipline", "select", "os.read", "termios"]

TOLERANCE = 2000


class Planned(Exception):
    pass


class TimeoutException(Exception):
    """The program's own, whatever the library calls what it raises."""


ERRORS = [Planned, TimeoutException, ValueError, KeyboardInterrupt, SystemExit, TimeoutError, StopIteration, RuntimeError,
          OSError, GeneratorExit, InterruptedError]


def build(c):
    return build_world(c)


def execute(w):
    c, sim = w.c, w.sim
    slate = load_slate(w)
    w.stdin_tty = True
    strays: list[int] = []

    def own_handler(signum, frame):
        strays.append(sim.now)

    prior = c.pick([signal.SIG_DFL, own_handler, signal.SIG_IGN])
    sim.handlers[signal.SIGALRM] = prior
    cut = whole = 0
    timeout = getattr(slate, "timeout", None) or __import__("slate.core").core.timeout

    for _ in range(c.rounds(2, 8)):
        c.begin()
        duration = c.pick([0.001, 0.05, 0.3, 1.0, 2.5, 1, 61.5, 3600, 0.9995])
        limit = int(duration * US)
        way = c.weighted([(5, "with"), (1, "generator")])
        steps = []
        total = 0
        for _ in range(c.between(0, 4)):
            kind = c.weighted([(4, "sleep"), (1, "read"), (1, "timed"), (1, "none")])
            amount = c.pick([0, 1, limit // 3, limit // 2, limit, 2 * limit, limit - 1, limit + 1,
                             max(0, limit - total), max(0, limit - total - 1), max(0, limit - total + 1)])
            if kind == "none":
                amount = 0
            total += amount
            steps.append((kind, amount))
        error = c.pick(ERRORS)() if c.chance(1, 3) else None
        handling = c.chance(1, 4)
        start = sim.now
        done: list[int] = []
        finished: list[int] = []
        over: list[int] = []
        cleanup = c.pick([0, limit // 2, limit, 3 * limit]) if c.chance(1, 3) else 0
        cleaned: list[int] = []  # (started, ended)
        sim.log(f"timeout({duration}) {steps} then {error!r}")

        def body():
            try:
                run_steps()
            finally:
                if cleanup and not finished:
                    sim.fire("clean_up_after_cut")
                    cleaned.append(sim.now)
                    time.sleep(cleanup / US)
                    cleaned.append(sim.now)
            if error is not None:
                raise error

        def run_steps():
            for number, (kind, amount) in enumerate(steps):
                if kind == "sleep" and handling:  # the block is dealing with an error of its own
                    try:
                        raise Planned
                    except Planned:
                        sim.probe("handling")
                        time.sleep(amount / US)
                elif kind == "sleep":
                    time.sleep(amount / US)
                elif kind == "read":
                    sim.at(amount, lambda over=over: over or w.tty.arrive(b"k"))
                    slate.getch(raw=True)
                elif kind == "timed":
                    slate.getch_timeout(amount / US, "")
                done.append(number)
            finished.append(sim.now)

        caught = None
        try:
            if way == "with":
                with timeout(duration):
                    body()
                sim.log("block over")
            else:
                def steps_of():
                    with timeout(duration):
                        body()
                        yield 1

                running = steps_of()
                got = next(running, None)
                if got is not None:
                    running.close()
                sim.fire("generator_closed")
        except (Violation, SimKilled, HarnessError):
            raise
        except BaseException as exc:  # pylint: disable=broad-except
            caught = exc
        took = sim.now - start
        over.append(1)
        if len(cleaned) == 1:
            sim.fail("clean_up", f"the clean-up of a block that had been cut was cut at {sim.now} us")
        if cleaned:
            took -= cleaned[1] - cleaned[0]
        completed = len(done) == len(steps)
        sim.log(f"ended after {took} us, {'completed' if completed else 'cut'}, {caught!r}")
        if caught is not None and caught is not error:
            # a generator cannot let StopIteration out
            if not (way == "generator" and isinstance(error, StopIteration)
                    and caught.__cause__ is error):
                sim.fail("raised", f"the block raised {error!r}, {caught!r} came out")
        if total < limit - TOLERANCE:
            if not completed:
                sim.fail("cut_early", f"a block of {total} us under {limit} us was cut after {took} us")
            if error is not None and caught is None:
                sim.fail("swallowed", f"the block raised {error!r}, nothing came out")
            whole += 1
        elif total > limit + TOLERANCE:
            if completed or finished:
                sim.fail("not_cut", f"a block of {total} us ran to its end under {limit} us")
            if caught is not None:
                sim.fail("raised", f"a block that was cut raised {caught!r}")
            if took > limit + TOLERANCE:
                sim.fail("cut_late", f"the block was cut after {took} us instead of {limit} us")
            cut += 1
            sim.fire("cut_by_alarm")
        else:
            sim.probe("at_the_deadline")
        # nothing is left behind
        if sim.handlers.get(signal.SIGALRM) != prior:
            sim.fail("handler", f"the alarm handler is {sim.handlers.get(signal.SIGALRM)!r}, "
                                f"it was {prior!r}")
        if sim.timer_at is not None:
            sim.fail("alarm_left", f"an alarm is armed for {sim.timer_at} us")
        pause = c.pick([0, 1, limit, 4 * US])
        if pause:
            sim.sleep(pause)
        sim.deliver()
        if strays:
            sim.fail("stray", f"an alarm of a timed block went off at {strays[0]} us")
        w.tty.drop()
        c.end()
    sim.sleep(10 * US)
    if strays:
        sim.fail("stray", f"an alarm of a timed block went off at {strays[0]} us")
    return cut > 0 and whole > 0
