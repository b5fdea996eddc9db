"""C08: fed text is delivered exactly once, in order, and wakes a waiting read."""

import re
import signal
import termios

from ..keys import Keyboard, build_world
from ..seams import SimThread

RULE = ("one to three threads (and signal handlers) feed unique tokens while one thread reads, timed "
        "and not, and keys are typed; the scheduler may switch threads at every source line of the "
        "library. Non-trivial: a token was fed while a read was in progress and a thread switch "
        "happened inside the library")
REAL = ["slate.core (feed, getch, getch_timeout)", "standard tty module"]
STUBS = ["tty line discipline", "select", "os.read", "os.pipe", "termios", "clock", "threads", "locks",
         "signals"]

OPEN, CLOSE = "\ue000", "\ue001"
TOKEN = re.compile(f"{OPEN}([^:{CLOSE}]*):[^{CLOSE}]*{CLOSE}")
AROUND = ["\x1b[A", " ", "\n", "q", "\x03", "\x1b", "\x00", "\x1b[<0;1;2M", "0", "\ufeff"]
PAYLOADS = ["", "x", "hello", "\x1b[A", "a;b;c", "é😀", "\n", "\x1b[<0;1;2M", "\x03", " "]
LONG = ["L" * 300, "M" * 3000, "é" * 5000, "N" * 70_000]
TOLERANCE = 50_000


def build(c):
    w = build_world(c, preempt=c.pick(["line", "call"]))
    if c.chance(1, 4):
        w.pipe_room = c.pick([8, 3])
    return w


class Feeds:
    def __init__(self, w, kb) -> None:
        self.w, self.kb = w, kb
        self.tick = 0
        self.tokens: dict[str, dict] = {}
        self.names: dict[str, str] = {}
        self.running = 0
        self.planned = 0

    def now(self) -> int:
        self.tick += 1
        return self.tick

    def feed(self, name: str, payload: str) -> None:
        c = self.w.c
        around = [c.pick(AROUND) if c.chance(1, 6) else "" for _ in range(2)]
        token = f"{around[0]}{OPEN}{name}:{payload}{CLOSE}{around[1]}"
        self.names[name] = token
        info = {"start": self.now(), "end": None, "at": None, "taken": None}
        self.tokens[token] = info
        if self.kb.in_call:
            self.w.sim.probe("fed_during_read")
        self.w.sim.log(f"feed {token!r}")
        self.w.api("feed", self.kb.slate.feed, token)
        info["end"], info["at"] = self.now(), self.w.sim.now
        self.w.sim.log(f"fed {name}")

    def take(self, text: str) -> None:
        """Accounts for fed text returned by a read."""

        sim = self.w.sim
        pos = 0
        while match := TOKEN.search(text, pos):
            token = self.names.get(match.group(1))
            if token is None or not text.startswith(token, pos):
                sim.fail("altered", f"a read returned {text[pos:match.end() + 9]!r}, fed was {token!r}")
            pos += len(token)
            info = self.tokens[token]
            if info["taken"] is not None:
                sim.fail("twice", f"{token!r} was returned twice")
            info["taken"] = self.now()
            for other, data in self.tokens.items():
                if data["taken"] is None and data["end"] is not None and data["end"] < info["start"]:
                    sim.fail("order", f"{token!r} was returned before {other!r}, which was fed earlier")
        if pos != len(text):
            sim.fail("mixed", f"a read returned {text!r}: not whole pieces of fed text")

    def pending(self):
        return [t for t, info in self.tokens.items() if info["taken"] is None and info["end"] is not None]


def interrupt(kb, delay) -> None:
    """Ctrl-C is typed at that instant, if a read is waiting then."""

    w = kb.w

    def arrive():
        if kb.in_call and w.waiting_for_input > 0 and not w.sim.pending and w.tty.flag(termios.ISIG):
            w.sim.fire("ctrl_c")
            w.tty.arrive(b"\x03")

    w.sim.at(delay, arrive)


def execute(w):
    c, sim = w.c, w.sim
    kb = Keyboard(w, elsewhere=True)
    feeds = Feeds(w, kb)
    when = 0
    keys = c.weighted([(3, 0), (2, 2), (1, 5)])
    for _ in range(keys):
        when += c.pick([0, 1, 1000, 200_000])
        kb.type_at(when, c.pick([b"k", b"w", b"ab", "é".encode(), b"\x1b[B"]))
    in_thread = c.chance(1, 4)
    if not keys and not in_thread and c.chance(1, 3):
        for _ in range(c.between(1, 3)):
            interrupt(kb, c.pick([0, 1, 1000, 50_000, 200_000, 350_000]))
    gaps = [(4, 0), (3, 1), (3, 1000), (2, 300_000)]

    def feeder(number, plan):
        def body():
            for j, (delay, payload) in enumerate(plan):
                if delay:
                    sim.sleep(delay)
                feeds.feed(f"{number}.{j}", payload)
                if payload == "" and c.chance(1, 4):
                    w.api("feed", kb.slate.feed, "")
            feeds.running -= 1

        return body

    plans = []
    for number in range(c.between(1, 3)):
        c.begin()
        if c.chance(1, 12):
            plans.append([(0, c.pick(PAYLOADS)) for _ in range(c.between(6, 14))])
        else:
            plans.append([(c.weighted(gaps), c.pick(LONG if c.chance(1, 30) else PAYLOADS))
                          for _ in range(c.between(1, 5))])
        c.end()
    if c.chance(1, 5):
        delay = 1 + c.pick([0, 1000, 250_000])
        feeds.running += 1
        feeds.planned += 1
        used = []

        def handler(signum, frame):
            if not used:
                used.append(1)
                sim.fire("fed_from_signal_handler")
                feeds.feed("signal", "s")
                feeds.running -= 1

        sim.handlers[signal.SIGALRM] = handler
        sim.set_timer(delay)
    if c.chance(1, 3):
        feeds.planned += 1
        feeds.feed("main", c.pick(PAYLOADS))
    if c.chance(1, 60):
        sim.fire("flood")
        flood = c.pick([40, 150, 300, 1200])
        feeds.planned += flood
        for j in range(flood):
            feeds.feed(f"flood.{j}", "")
    feeds.planned += sum(map(len, plans))

    def reader():
        got = ""
        for number, plan in enumerate(plans):
            feeds.running += 1
            SimThread(target=feeder(number, plan), name=f"feeder{number}").start()
        last_typed = sim.now + when
        idle = 0
        for _ in range(200):
            c.begin()
            due = feeds.pending()
            taken = sum(1 for info in feeds.tokens.values() if info["taken"] is not None)
            more = taken < feeds.planned
            untimed = more and c.chance(3, 5)
            start_tick = feeds.now()
            out = kb.call(duration=None if untimed else c.pick([0.0, 0.001, 0.4]))
            text = out["text"] or ""
            if out["intr"]:
                sim.probe("interrupted")
                if text not in ("\x03", "ctrl-c"):
                    sim.fail("interrupt", f"Ctrl-C while a read waited gave {text!r}")
                text = ""
            elif text == "" and not out["timeout"]:
                sim.fail("empty", "a key read returned nothing although the terminal is open")
            fed = OPEN in text or CLOSE in text
            if fed:
                feeds.take(text)
            else:
                got += text
            left = [t for t in due if feeds.tokens[t]["taken"] is None]
            if left:
                sim.fail("not_first", f"{left} had been fed before the read began, which returned "
                                      f"{text!r}")
            if due and out["end"] != out["start"]:
                sim.fail("waited", "a read waited although fed text was pending")
            for token, info in feeds.tokens.items():
                if info["end"] is None or info["at"] < out["start"]:
                    continue
                overdue = out["end"] - info["at"]
                if (info["taken"] is None or info["taken"] > start_tick) and overdue > TOLERANCE:
                    sim.fail("not_woken", f"{token!r} was fed {overdue} us before the read returned")
            if c.chance(1, 4):
                sim.sleep(c.pick([1, 500, 100_000]))
            c.end()
            done = feeds.running == 0 and not feeds.pending() and sim.now > last_typed
            if done and out["timeout"]:
                idle += 1
                if idle >= 2:
                    break
        else:
            sim.fail("stuck", "200 reads did not finish")
        chars, _ = kb.decoded()
        want = "".join(ch for ch, _, _ in chars)
        if got != want:
            sim.fail("typed_lost", f"typed {want!r}, read {got!r}")

    if in_thread:
        thread = SimThread(target=reader, name="reader")
        sim.probe("reader_thread")
        thread.start()
        thread.join()
        if thread._task.error is not None:
            raise thread._task.error
    else:
        reader()
    lost = [t for t, info in feeds.tokens.items() if info["taken"] is None]
    if lost:
        sim.fail("lost", f"{lost} were never returned")
    return bool(sim.probes.get("fed_during_read")) and bool(sim.probes.get("preempted"))
