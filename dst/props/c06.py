"""C06: the terminal's line settings survive every way a key read can end."""

import errno
import termios

from ..keys import PLAIN, Keyboard, build_world, draw_piece

RULE = ("single and repeated reads, timed and not, from terminals with differing initial settings, "
        "each ended in a chosen way (input, fed text, time-out, Ctrl-C at a chosen instant or at a "
        "chosen system call, end of file, read error), and terminal queries likewise; settings are "
        "compared byte for byte after each. Non-trivial: at least two different ways of ending "
        "occurred, or an interrupt did")
REAL = ["slate.core", "slate.terminal (queries)", "standard tty module"]
STUBS = ["tty line discipline", "select", "os.read", "termios", "stty", "signals", "clock", "emulator"]


def build(c):
    return build_world(c)


def seam_interrupts(w, kb, c):
    """Ctrl-C at the n-th system call of the read, wherever that is."""

    state = {"left": None}
    names = {"select", "read", "tcsetattr", "tcgetattr"}

    def on_seam(name):
        if state["left"] is None or not kb.in_call or name not in names:
            return
        state["left"] -= 1
        if state["left"] < 0:
            state["left"] = None
            # a signal can only come in while the process is inside the kernel or between calls;
            # it is handled at the next opportunity, which is after this call has begun
            if name in ("tcsetattr", "tcgetattr") and not w.tty.flag(termios.ICANON):
                return  # the restoring call: the read is over
            w.sim.fire(f"ctrl_c_at_{name}")
            kb.intr_at = len(w.tty.accepted)
            w.sim.at(0, lambda: w.tty.arrive(b"\x03"))

    w.sim.on_seam = on_seam
    return state


def execute(w):
    c = w.c
    kb = Keyboard(w, checks=("settings", "mode"), elsewhere=True)
    sim = w.sim
    initial = w.tty.snapshot()
    if c.chance(1, 3):
        kb.make_slow()
    ends = set()
    state = seam_interrupts(w, kb, c)
    if c.chance(1, 4):
        replies = c.weighted([(3, "good"), (1, "none"), (1, "junk"), (1, "late")])

        def reply(kind):
            if replies == "none":
                return
            text = {"pixels": "\x1b[4;600;800t", "mode:2026": "\x1b[?2026;2$y"}.get(
                kind, "\x1b]%s;rgb:1212/3434/5656\x1b\\" % kind[-2:])
            if replies == "junk":
                text = text[: c.between(1, len(text) - 1)] + c.pick(["", "x", "\x1b"])
            kb.type_at(c.between(0, 4000) if replies != "late" else 700_000, text.encode())

        w.replies = reply
    for _ in range(c.rounds(1, 8)):
        c.begin()
        kind = c.weighted([(5, "input"), (4, "timeout"), (3, "ctrl_c"), (3, "ctrl_c_seam"), (2, "fed"),
                           (1, "query"), (1, "eof"), (1, "error")])
        if kind == "query" and w.side is not None:
            kind = "input"
        state["left"] = None
        timed = c.chance(1, 2)
        duration = c.pick([0.0, 0.002, 0.05, 0.5, 3.0]) if timed else None
        when = c.weighted([(3, 0), (3, 1), (3, 1000), (2, 60_000), (1, 499_999), (1, 2_000_000)])
        backup = 8_000_000
        if kind == "input":
            kb.type_at(when, draw_piece(c, PLAIN).encode())
        elif kind == "timeout":
            duration = duration if timed else 0.05
            if c.chance(1, 3):  # around the deadline
                kb.type_at(int(duration * 1e6) + c.between(-2, 2) if duration else 1, b"k")
        elif kind == "ctrl_c":
            if c.chance(1, 2):
                kb.type_at(c.draw(when + 1), draw_piece(c, PLAIN).encode())
            kb.ctrl_c_at(when)
        elif kind == "ctrl_c_seam":
            if c.chance(1, 2):
                kb.type_at(0, draw_piece(c, PLAIN).encode())
            if w.tty.flag(termios.ISIG):
                state["left"] = c.draw(5)
        elif kind == "fed":
            text = draw_piece(c, PLAIN)
            if c.chance(1, 2):
                kb.slate.feed(text)
            else:
                kb.feed_at(when, text)
        elif kind == "error":
            sim.at(when, lambda: w.tty.read_faults.append(c.pick([errno.EIO, errno.ENXIO])))
        elif kind == "eof":
            def eof():
                w.tty.eof = True
                sim.log("end of file")

            sim.at(when, eof)
        if kind == "query":
            query(w, kb, c)
            ends.add("query")
        else:
            kb.type_at(backup, b"!")  # an untimed read has to end some time
            out = kb.call(duration=duration, raw=c.chance(1, 2), allow=(OSError,))
            if out["error"] is not None:
                ends.add("error")
            elif out["timeout"]:
                ends.add("timeout")
            elif out["intr"]:
                ends.add("ctrl_c")
                if out["text"] not in ("ctrl-c", "\x03"):
                    sim.fail("interrupt", f"Ctrl-C during a key read gave {out['text']!r}")
            else:
                ends.add(kind)
        state["left"] = None
        if w.tty.snapshot() != initial:
            sim.fail("settings", "line settings were not restored")
        # let everything that was scheduled happen, then empty the line
        try:
            sim.sleep(9_000_000)
        except KeyboardInterrupt:
            pass
        w.tty.eof = False
        w.tty.read_faults.clear()
        w.tty.drop()
        c.end()
    for end in ends:
        sim.probe(f"ended_by_{end}")
    return len(ends) >= 2 or "ctrl_c" in ends


def query(w, kb, c) -> None:
    sim = w.sim
    before = w.tty.snapshot()
    terminal = kb.slate.terminal
    which = c.pick(["resolution", "sync", "color", "colors"])
    if c.chance(1, 3):
        kb.ctrl_c_at(c.pick([0, 1, 1000, 30_000]))
    sim.log(f"query {which}")
    kb.in_call += 1
    layer = c.pick(["10", "11"])
    call = {
        "resolution": lambda: terminal.resolution,
        "sync": lambda: terminal.supports_synchronized_update,
        "color": lambda: kb.slate.get_default_color(layer),
        "colors": kb.slate.Terminal,
    }[which]
    try:  # a Ctrl-C before the query begins to read is the program's own
        w.api(which, call, allow=(KeyboardInterrupt,))
        sim.deliver()
    except KeyboardInterrupt:
        pass
    finally:
        kb.in_call -= 1
    if w.tty.snapshot() != before:
        sim.fail("settings", f"line settings differ after the {which} query: {before} -> "
                             f"{w.tty.snapshot()}")
