"""C07: a timed key read is on time and gives the right answer."""

import signal

from ..keys import DEFAULT, Keyboard, Ledger, build_world
from ..kernel import US
from ..seams import SimThread

RULE = ("sequences of timed reads with durations from 0 to seconds, with input and fed text arriving "
        "before, at (to the microsecond) and after the deadline, whole or split inside a character, "
        "slow system calls, program alarms, from the main and other threads. Non-trivial: both a "
        "time-out and an answer occurred, or something arrived within 2 us of a deadline")
REAL = ["slate.core (getch_timeout)", "standard tty module"]
STUBS = ["tty line discipline", "select", "os.read", "termios", "signals", "alarm timer", "clock",
         "threads"]

FED = "\ue000\ue001\ue002\ue003\ue004\ue005"
TEXTS = ["k", "é", "€", "\x1b[A", "ab", "😀", "x;y", "\x1b[<0;1;2M", "\x01"]


def build(c):
    return build_world(c)


def set_clock(sim, c, delay) -> None:
    """Somebody sets the wall clock."""

    step = c.pick([3600, -3600, 1, -1, 10**8, -(10**8)])

    def happen():
        sim.wall_offset += step
        sim.fire("clock_set")
        sim.log(f"the clock is set by {step} s")

    sim.at(delay, happen)


def execute(w):
    c, sim = w.c, w.sim
    kb = Keyboard(w, checks=("alarm",), elsewhere=True)
    if c.chance(1, 4):
        kb.make_slow()
    ledger = Ledger(kb)
    fed: list = []  # (time, text), in order; completed feeds only
    state = {"fed_taken": 0, "alarms": 0}

    def on_alarm(signum, frame):
        state["alarms"] += 1

    handler = c.pick([signal.SIG_DFL, signal.SIG_IGN, on_alarm])
    sim.handlers[signal.SIGALRM] = handler
    answers = timeouts = near = 0

    def feed_at(delay, text):
        def body():
            if delay:
                sim.sleep(delay)
            sim.log(f"feed {text!r}")
            kb.slate.feed(text)
            fed.append((sim.now, text))

        SimThread(target=body, name="feeder").start()

    def one(duration, default):
        nonlocal answers, timeouts
        out = kb.call(duration=duration, default=default, explicit=c.chance(1, 6))
        deadline = out["start"] + int(duration * US)
        if out["end"] > max(deadline, out["start"]) + out["slow"] + 2:
            sim.fail("overdue", f"a read timed to end at {deadline} us ended at {out['end']} us")
        text = out["text"]
        if text is not None and text and text[0] in FED:
            due = "".join(item for _, item in fed)[state["fed_taken"]:]
            if not due.startswith(text):
                sim.fail("fed", f"a read returned fed text {text!r}, due was {due!r}")
            state["fed_taken"] += len(text)
            answers += 1
            return
        if out["timeout"]:
            timeouts += 1
            taken = 0
            for when, item in fed:
                taken += len(item)
                if taken > state["fed_taken"] and when < deadline - 2:
                    sim.fail("timeout_despite_fed", f"text fed at {when} us was not returned by a read "
                                                    f"timed to end at {deadline} us")
            if out["end"] < deadline - 2:
                sim.fail("early", f"a read timed to end at {deadline} us gave up at {out['end']} us")
        else:
            answers += 1
            if not text:
                sim.fail("empty", "a timed read returned neither input nor the default")
        ledger.check(out, timing=not fed)

    if c.chance(1, 3):
        for _ in range(c.between(1, 4)):
            set_clock(sim, c, c.draw(2_000_000))
    for _ in range(c.rounds(1, 6)):
        c.begin()
        duration = c.pick([0.05, 0.0, 0.0005, 0.01, 0.1, 0.35, 1, 1.7]) if not c.chance(1, 12) else c.pick(
            [4, 12.25, 31, 61.5, 100, 700, 4000.5, 100_000])
        default = c.pick([DEFAULT, None, ""])
        length = int(duration * US)
        kind = c.weighted([(4, "input"), (2, "none"), (2, "split"), (2, "fed"), (1, "both")])
        spot = c.weighted([(3, "before"), (4, "edge"), (2, "after"), (1, "now")])
        if spot == "before":
            delay = c.draw(length + 1)
        elif spot == "edge":
            delay = max(0, length + c.between(-2, 2))
            near += 1
        elif spot == "after":
            delay = length + c.pick([1000, 100_000])
        else:
            delay = 0
        if kind in ("input", "both"):
            kb.type_at(delay, c.pick(TEXTS).encode())
        if kind == "split":
            data = c.pick(["é", "€", "😀", "a€"]).encode()
            cut = c.between(1, len(data) - 1)
            kb.type_at(delay, data[:cut])
            kb.type_at(delay + c.pick([0, 1, 3, 1000, 200_000]), data[cut:])
        if kind in ("fed", "both"):
            text = "".join(c.pick(FED) for _ in range(c.between(1, 3)))
            feed_at(c.pick([delay, 0]), text)
        armed = None
        if handler is on_alarm and c.chance(1, 3):
            armed = sim.now + c.pick([length // 2 + 1, length + 3, 2_000_000])
            sim.set_timer(armed - sim.now)
            alarms = state["alarms"]
            sim.fire("program_alarm")
        if c.chance(1, 4):
            error = []

            def body():
                one(duration, default)

            sim.probe("from_thread")
            thread = SimThread(target=body, name="reader")
            thread.start()
            thread.join()
            if thread._task.error is not None:
                raise thread._task.error
        else:
            one(duration, default)
        kb.think()
        if armed is not None:
            sim.sleep(max(1, armed - sim.now + 1))
            if state["alarms"] != alarms + 1:
                sim.fail("program_alarm", "the program's own alarm went off "
                         f"{state['alarms'] - alarms} times instead of once")
        c.end()
    # what came late is not lost
    sim.sleep(5_000_000)
    w.slow = None
    for _ in range(40):
        out_fed = sum(len(item) for _, item in fed) - state["fed_taken"]
        if not out_fed and not ledger.waiting():
            break
        one(0.05, DEFAULT)
    if ledger.waiting() or sum(len(item) for _, item in fed) != state["fed_taken"]:
        sim.fail("lost", "input that arrived around a deadline was never returned")
    return bool(near) or (answers > 0 and timeouts > 0)
