"""C10: terminal queries give the terminal's answer or the fallback, in time."""

import termios

from ..keys import build_world
from ..loader import load_slate
from ..vt import Emulator
from ..world import OutStream

RULE = ("random sequences of queries (import, default colours, pixel resolution, synchronized update) "
        "against a terminal that answers each in a chosen way: at once, after a latency, late, cut, in "
        "pieces, malformed, with another query's reply, in an unusual form or not at all, with keys "
        "typed meanwhile, and with streams that are no terminals. Non-trivial: at least two queries "
        "were made, of which one was answered in time and one was not")
REAL = ["slate.core", "slate.terminal", "slate.color", "standard tty module"]
STUBS = ["tty line discipline", "terminal (emulator, replies)", "select", "os.read", "termios", "stty",
         "clock", "threads", "signals"]

BOUND = 1_000_000  # us a single query may take
PROMPT = 40_000  # replies within this have to be taken
DEFAULTS = {"color:10": (0xDE, 0xDE, 0xDE), "color:11": (0x14, 0x14, 0x14), "mode:2026": False}


def build(c):
    w = build_world(c)
    w.stdin_tty = not c.chance(1, 10)
    w.stdout_tty = not c.chance(1, 10)
    return w


class Peer:
    """The terminal's side: answers, and remembers what it did."""

    def __init__(self, w) -> None:
        self.w, self.c = w, w.c
        c = self.c
        self.truth = {
            "color:10": self._rgb(), "color:11": self._rgb(),
            "pixels": tuple(c.weighted([(9, c.between(1, 4000)), (1, 0)]) for _ in range(2)),
            "mode:2026": c.pick([2, 1, 0, 4]),
        }
        self.outstanding = 0
        self.asked: dict[str, dict] = {}
        self.exact_seen = self.fallback_seen = 0
        self.calm = c.chance(1, 3)
        w.replies = self.reply

    def _rgb(self):
        # a terminal says rgb:rrrr/gggg/bbbb; most repeat an 8-bit value
        if self.c.chance(1, 4):
            return tuple(self.c.between(0, 65535) for _ in range(3))
        return tuple(self.c.between(0, 255) * 257 for _ in range(3))

    def text(self, kind: str) -> str:
        value = self.truth[kind]
        if kind == "pixels":
            return "\x1b[4;%d;%dt" % (value[1], value[0])
        if kind == "mode:2026":
            return f"\x1b[?2026;{value}$y"
        return "\x1b]%s;rgb:%s\x1b\\" % (kind[-2:], "/".join("%04x" % v for v in value))

    def unusual(self, kind: str) -> str:
        c, value = self.c, self.truth[kind]
        if kind[:5] == "color":
            form = c.draw(4)
            if form == 0:
                return self.text(kind)[:-2] + "\x07"
            if form == 1:
                return "\x1b]%s;rgb:%s\x1b\\" % (kind[-2:], "/".join("%04X" % v for v in value))
            if form == 2:
                return "\x1b]%s;rgb:%s\x1b\\" % (kind[-2:], "/".join("%02x" % (v >> 8) for v in value))
            return "\x1b]%s;rgba:%s/ffff\x1b\\" % (kind[-2:], "/".join("%04x" % v for v in value))
        return self.text(kind) + c.pick(["", "x", "\x1b[A"])

    def malformed(self, kind: str) -> str:
        c, good = self.c, self.text(kind)
        form = c.draw(5)
        if form == 0:  # a separator or digit is missing or replaced
            pos = c.between(3, 6) if kind == "pixels" else c.between(1, 8)
            if kind == "pixels" and good[pos].isdigit():
                pos = 3
            return good[:pos] + c.pick(["", "z", ":", "-", "\x00", "\x1b"]) + good[pos + 1 :]
        if form == 1:
            return good.replace("rgb:", "cmyk:").replace("[4;", "[9;").replace("?2026", "?2027")
        if form == 2:
            return good.replace("/", "").replace(";", "") if kind != "mode:2026" else "\x1b[?2026$y"
        if form == 3:
            return c.pick([";", ";;;", "\x1b", "\x1b[", "\x1b]", "\x1b\\", "\x1b[4;t", "\x1b[4;;t",
                           "\x1b]10;rgb:/x/\x1b\\", "\x1b[?1;2c", "\ufffd", "None"])
        return c.pick(["rgb:", "4;", "\x1b[4;12t", "\x1b[4;12;t", "\x1b]11;rgb:zzzz/zzzz/zzzz\x1b\\",
                       "\x1b[<0;1;2M", "\x1b[4;1x;2t"])

    def arrive(self, delay: int, data: str | bytes, stray: bool, entry=None) -> None:
        raw = data.encode() if isinstance(data, str) else data
        self.outstanding += 1

        def happen():
            self.outstanding -= 1
            text = bytes(b for b in raw if b not in (3, 4, 0x11, 0x13, 0x1C, 0x1A))
            self.w.sim.log(f"{'stray' if stray else 'reply'} {text!r}")
            for other in self.asked.values():
                if not other["done"] and other is not entry:
                    other["clean"] = False
            if entry is not None and entry["arrived"]:
                entry["pieces"] = True
            if entry is not None:
                entry["arrived"] = True
                if entry["done"]:
                    self.w.sim.fire("reply_too_late")
            self.w.tty.arrive(text)

        self.w.sim.at(delay, happen)

    def reply(self, kind: str, opened=False) -> None:
        c, w = self.c, self.w
        if not (w.stdin_tty and (w.stdout_tty or opened)):
            self.in_vain(kind, w.stdout_tty or opened)
            return  # what is read or written is no terminal
        entry = {"clean": self.outstanding == 0 and not w.tty.queue and not w.tty.eof, "how": None, "done": False,
                 "arrived": False, "pieces": False, "at": w.sim.now, "latency": 0}
        for other in self.asked.values():
            other["done"] = True
        self.asked[kind] = entry
        if kind not in self.truth:
            entry["how"] = "none"
            return
        how = c.weighted([(12 if self.calm else 5, "good"), (2, "none"), (1, "late"), (2, "cut"),
                          (1, "pieces"), (2, "malformed"), (1, "unusual"), (1, "other"), (1, "eof")])
        entry["how"] = how
        latency = c.weighted([(4, 0), (3, 1), (3, 1000), (2, 20_000), (2, PROMPT - 1)])
        if latency:
            latency = 1 + c.draw(latency)
        entry["latency"] = latency
        if c.chance(1, 12):
            w.sim.fire("typed_meanwhile")
            self.arrive(c.between(0, 1 + 2 * latency), c.pick(["q", "\x1b[A", ";", "\xff", "a;b"]), True)
        if how != "good":
            w.sim.fire(f"reply_{how}")
        if how == "none":
            return
        if how == "eof":
            def hangup():
                w.tty.eof = True
                w.sim.log("end of file")
                for other in self.asked.values():
                    if not other["done"] and other is not entry:
                        other["clean"] = False
                w.sim.at(10_000_000, lambda: setattr(w.tty, "eof", False))

            w.sim.at(latency, hangup)
            return
        good = self.text(kind)
        if how in ("good", "late"):
            if how == "late":
                latency = c.pick([60_000, 100_000, 300_000, 499_999, 500_000, 500_001, 700_000])
                entry["latency"] = latency
            self.arrive(latency, good, False, entry)
        elif how == "cut":
            self.arrive(latency, good[: c.between(1, len(good) - 1)], False, entry)
        elif how == "pieces":
            cut = c.between(1, len(good) - 1)
            self.arrive(latency, good[:cut], False, entry)
            self.arrive(latency + c.pick([1, 1000, 30_000, 600_000]), good[cut:], False, entry)
        elif how == "malformed":
            text = self.malformed(kind)
            self.arrive(latency, "\x1b[?" if text == good else text, False, entry)
        elif how == "unusual":
            self.arrive(latency, self.unusual(kind), False, entry)
        else:
            kinds = sorted(k for k in self.truth if k != kind)
            self.arrive(latency, self.text(c.pick(kinds)), False, entry)

    def in_vain(self, kind: str, stream_tty: bool) -> None:
        """A question where there is no terminal, or no way to read its answer."""

        if kind[:5] == "color" or (kind == "pixels" and not stream_tty):
            self.w.sim.fail("asked", f"{kind} is asked for where there is no terminal to tell it")

    # -- oracle ----------------------------------------------------------------------------------

    def answer(self, kind: str):
        value = self.truth[kind]
        if kind == "pixels":
            return value
        if kind == "mode:2026":
            return value in (1, 2)
        return tuple(v >> 8 for v in value)

    def check(self, kind: str, got, fallback, terminal: bool, slow: int, what: str) -> None:
        sim = self.w.sim
        truth = self.answer(kind)
        entry = self.asked.pop(kind, None)
        if entry is not None:
            entry["done"] = True
        if not terminal:
            allowed = {"fallback": fallback}
        elif entry is None:  # the question never got to the terminal
            allowed = {"answer": truth}
        elif entry["how"] == "good" and entry["clean"] and not slow:
            allowed = {"answer": truth}
        elif entry["clean"] and entry["how"] in ("none", "cut", "malformed", "other", "eof"):
            allowed = {"fallback": fallback}
        elif entry["how"] == "late" and entry["clean"] and not entry["arrived"]:
            allowed = {"fallback": fallback}
        else:
            allowed = {"answer": truth, "fallback": fallback}
        sim.log(f"{what} -> {got}")
        if entry is not None and not entry["clean"] and entry["how"] in ("cut", "pieces"):
            return  # pieces of several replies may well add up to one that was never given
        if "answer" in allowed and kind[:5] == "color" and all(
                g in (v >> 8, (v + 128) // 257) for g, v in zip(got, self.truth[kind])):
            pass  # 16 bits become 8 by cutting or by rounding
        elif got not in allowed.values():
            sim.fail("answer", f"{what} returned {got}; the terminal's answer is {truth}, the fallback "
                               f"{fallback}, due: {' or '.join(allowed)}"
                               f" ({entry['how'] if entry else 'not asked'})")
        if terminal and entry is not None and entry["clean"]:
            if entry["how"] == "good":
                self.exact_seen += 1
            elif entry["how"] != "late":
                self.fallback_seen += 1


def execute(w):
    c, sim = w.c, w.sim
    peer = Peer(w)
    before = w.tty.snapshot()
    total = {"slow": 0}
    if c.chance(1, 5):
        def slow(name):
            if not c.chance(1, 4):
                return 0
            duration = c.pick([1, 1000, 20_000, 200_000])
            total["slow"] += duration
            return duration

        w.slow = slow
    if c.chance(1, 10):
        peer.arrive(0, c.pick(["hi", "\x1b[A", ";", "rgb"]), True)
        sim.sleep(1)

    def timed(what, fn, bound):
        start, total["slow"] = sim.now, 0
        sim.log(what)
        got = w.api(what, fn)
        took = sim.now - start
        if took > bound + total["slow"]:
            sim.fail("late", f"{what} took {took} us")
        if w.tty.snapshot() != before:
            sim.fail("settings", f"line settings differ after {what}: {before} -> {w.tty.snapshot()}")
        if sim.timer_at is not None:
            sim.fail("alarm_left", f"{what} left an alarm armed")
        return got

    def rgb(value):
        return tuple(value.rgb)

    def colors(term, what, terminal):
        for name, kind in (("background", "color:11"), ("foreground", "color:10")):
            got = timed(f"{what}.{name}_color", lambda: getattr(term, f"{name}_color"), BOUND)
            peer.check(kind, rgb(got), DEFAULTS[kind], terminal, total["slow"] + made_slow,
                       f"{what} {name}")
        for name, kind in (("background", "color:11"), ("foreground", "color:10")):
            if rgb(getattr(term, f"{name}_color")) == ():
                sim.fail("answer", "no colour")

    made_slow = 0
    both = w.stdin_tty and w.stdout_tty
    slate = timed("import slate", lambda: load_slate(w), 2 * BOUND)
    made_slow = total["slow"]
    colors(slate.terminal, "terminal", both)
    queries = 1
    for _ in range(c.rounds(1, 7)):
        c.begin()
        if peer.outstanding or w.tty.queue:
            if c.chance(2, 3):  # the program waits and empties the line
                sim.sleep(11_000_000)
                w.tty.drop()
        elif c.chance(1, 10):
            peer.arrive(c.pick([0, 1, 1000, 30_000]),
                        c.pick(["q", "\x1b[A", peer.text("pixels"), peer.text("color:10"), b"\xff\xfe"]),
                        True)
        if w.tty.eof:
            sim.sleep(11_000_000)
        kind = c.weighted([(3, "layer"), (3, "pixels"), (3, "sync"), (2, "new")])
        made_slow = 0
        stream, terminal = None, both
        if c.chance(1, 2):
            tty = not c.chance(1, 6)
            emu = Emulator(w.size)
            if tty:
                emu.on_query = lambda asked: peer.reply(asked, True)
            else:
                emu.on_query = lambda asked: peer.in_vain(asked, False)
            stream = OutStream(w, emu, tty=tty, opened=True)
            terminal = w.stdin_tty and tty
            if terminal and not both:
                sim.fire("output_redirected")
        if kind == "layer":
            layer = c.pick(["10", "11"])
            args = (layer,) if stream is None else (layer, stream)
            got = timed(f"get_default_color {layer}", lambda: slate.get_default_color(*args), BOUND)
            peer.check("color:" + layer, rgb(got), DEFAULTS["color:" + layer], terminal, total["slow"],
                       f"layer {layer}")
            queries += 1
        else:
            kwargs = {} if stream is None else {"stream": stream}
            fallback = (1280, 720)
            if c.chance(1, 3):
                fallback = (c.between(1, 5000), c.between(1, 3000))
                kwargs["resolution_fallback"] = fallback
            term = slate.terminal
            if kind == "new" or kwargs or kind == "sync":
                term = timed("Terminal()", lambda: slate.Terminal(**kwargs), 2 * BOUND)
                made_slow = total["slow"]
                colors(term, "Terminal()", terminal)
                queries += 1
                if peer.outstanding:
                    sim.sleep(11_000_000)
                w.tty.drop()
                if w.tty.eof:
                    sim.sleep(11_000_000)
            if kind == "pixels" and stream is not None and c.chance(1, 8):
                stream.closed = True
                sim.fire("closed_stream")
                got = timed("resolution", lambda: tuple(term.resolution), BOUND)
                peer.check("pixels", got, fallback, False, total["slow"], "resolution of a closed stream")
                queries += 1
            elif kind == "pixels":
                got = timed("resolution", lambda: tuple(term.resolution), BOUND)
                peer.check("pixels", got, fallback, terminal, total["slow"], "resolution")
                queries += 1
            elif kind == "sync":
                got = timed("sync", lambda: term.supports_synchronized_update, BOUND)
                peer.check("mode:2026", got, False, terminal, total["slow"], "synchronized update")
                queries += 1
                again = timed("sync again", lambda: term.supports_synchronized_update, BOUND)
                if not peer.asked and again != got:
                    sim.fail("answer", "the cached answer changed")
                peer.asked.clear()
        c.end()
    if w.tty.flag(termios.ECHO):
        sim.probe("echo_on")
    return queries > 1 and peer.exact_seen > 0 and peer.fallback_seen > 0
