"""C25: the command line tools report what the terminal does, whatever it does."""

import errno
import importlib
import re
import runpy
import sys

from .. import seams
from ..keys import Keyboard, build_world
from ..loader import load_slate
from .c09 import burst, expected
from .c10 import DEFAULTS, Peer

RULE = ("the command line program run whole, on terminals that answer its queries at once, late, "
        "wrongly or never, or are no terminals: `getch` with a burst typed or Ctrl-C at a random "
        "instant after the prompt, `size` on windows resized meanwhile, `debug` with every kind of "
        "answer; the report is compared with what the terminal did. Non-trivial: the report of a "
        "typed burst or of a terminal that did not answer as usual was compared")
REAL = ["slate.__main__", "slate.core", "slate.terminal", "slate.span", "slate.color", "argparse"]
STUBS = ["tty line discipline", "terminal (emulator, replies)", "select", "os.read", "termios", "stty",
         "window size", "clock"]

ANSI = re.compile(r"\x1b\[[0-9;]*m")


def build(c):
    w = build_world(c)
    w.size = (c.between(1, 300), c.between(1, 90))
    w.emu.resize(w.size, garble=False)
    return w


def run_main(w, slate, args, allow=()):
    """Runs `slate <args>`; returns what it printed, without styles."""

    argv = sys.argv
    out = seams.STDOUT
    start = len(out.delivered)
    sys.argv = ["slate", *args]
    try:
        if w.c.chance(1, 8):  # as `python -m slate` does
            sys.modules.pop("slate.__main__", None)
            w.api("main()", lambda: runpy.run_module("slate", run_name="__main__", alter_sys=False), allow=allow)
        else:
            module = importlib.import_module("slate.__main__")
            w.api("main()", module.main, allow=allow)
    finally:
        sys.argv = argv
    out.flush()
    return ANSI.sub("", "".join(out.delivered[start:]))


def run_getch(w, c, sim) -> bool:
    kb = Keyboard(w, checks=("mode",))
    before = w.tty.snapshot()
    raw = c.chance(1, 2)
    text = burst(c)
    how = c.weighted([(6, "typed"), (1, "ctrl_c"), (1, "fed"), (1, "notty")])
    delay = c.pick([1, 500, 100_000, 30_000_000])
    out = seams.STDOUT
    mark = len(out.delivered)

    def prompted():
        if "Waiting" not in ANSI.sub("", "".join(out.delivered[mark:])):
            sim.fail("prompt", "the key is read before the prompt is shown")

    started = len(w.tty.accepted)
    if how == "typed":
        def arrive():
            data = kb.tame(text.encode()) or b"k"
            prompted()
            sim.log(f"typed {data!r}")
            w.tty.arrive(data)

        sim.at(delay, arrive)
    elif how == "ctrl_c":
        kb.ctrl_c_at(delay)
        sim.at(delay + 1000, lambda: w.tty.arrive(b"k"))  # where it is no interrupt
    elif how == "fed":
        kb.feed_at(0, text)
        sim.sleep(1)
    else:
        w.stdin_tty = False
    kb.in_call += 1
    try:
        got = run_main(w, kb.slate, ["getch", "--raw"] if raw else ["getch"])
    finally:
        kb.in_call -= 1
    sim.log(f"printed {got!r}")
    if w.tty.snapshot() != before:
        sim.fail("settings", f"line settings differ afterwards: {before} -> {w.tty.snapshot()}")
    if how == "notty":
        return False
    if how == "typed":
        text = bytes(w.tty.accepted[started:]).decode()
    elif how == "ctrl_c":
        text = "\x03" if kb.intr_seen else "k"
    names = (text,) if raw else expected(text)
    if names is None:
        return False
    want = " | ".join(repr(name) if raw or len(name) == 1 else name for name in names)
    if not ANSI.sub("", want) in got:
        sim.fail("report", f"{text!r} was reported as {got!r}, due was {want!r}")
    if not got.endswith("\n"):
        sim.fail("report", f"the report {got!r} does not end its line")
    return True


def run_size(w, c, sim) -> bool:
    slate = load_slate(w)
    if c.chance(1, 2):
        w.resize((c.between(1, 300), c.between(1, 90)))
    got = run_main(w, slate, ["size"])
    sim.log(f"printed {got!r}")
    if f"{w.size[0]} x {w.size[1]}" not in [line.strip() for line in got.splitlines()]:
        sim.fail("report", f"the size {w.size} was reported as {got!r}")
    return False


def row(got: str, name: str):
    match = re.search(rf"^{re.escape(name)}\s+(\S+)\s*$", got, re.M)
    return match and match.group(1)


def run_debug(w, c, sim) -> bool:
    w.stdin_tty = not c.chance(1, 12)
    w.stdout_tty = not c.chance(1, 12)
    peer = Peer(w)
    before = w.tty.snapshot()
    start = sim.now
    slate = load_slate(w)
    w.api("colours", lambda: (slate.terminal.background_color, slate.terminal.foreground_color))
    asked = dict(peer.asked)
    if peer.outstanding or w.tty.queue or w.tty.eof:
        # strays are the subject of C10
        sim.sleep(11_000_000)
        w.tty.drop()
        start = sim.now
    peer.asked.clear()
    got = run_main(w, slate, ["debug"])
    sync = peer.asked.get("mode:2026")
    sim.log(f"printed {got!r}")
    if sim.now - start > 6_000_000:
        sim.fail("late", f"debug took {sim.now - start} us")
    if w.tty.snapshot() != before:
        sim.fail("settings", f"line settings differ afterwards: {before} -> {w.tty.snapshot()}")
    if row(got, "size") != "x".join(map(str, w.size)):
        sim.fail("report", f"the size {w.size} was reported as {row(got, 'size')!r}")
    terminal = w.stdin_tty and w.stdout_tty
    # what the library holds was compared with the answers above all in C10
    for name, kind in (("background color", "color:11"), ("foreground color", "color:10")):
        shown = row(got, name)
        held = getattr(slate.terminal, name.replace(" ", "_"))
        if shown is None or shown.lstrip("#").lower() != "%02x%02x%02x" % tuple(held.rgb):
            sim.fail("report", f"the {name} {tuple(held.rgb)} was reported as {shown!r}")
        if kind in asked or not terminal:
            peer.asked = {kind: asked[kind]} if kind in asked else {}
            peer.check(kind, tuple(held.rgb), DEFAULTS[kind], terminal, 0, name)
    shown = row(got, "synchronized update support")
    if shown not in ("True", "False"):
        sim.fail("report", f"synchronized update support was reported as {shown!r}")
    peer.asked = {} if sync is None else {"mode:2026": sync}
    if w.stdin_tty and w.stdout_tty:
        peer.check("mode:2026", shown == "True", False, terminal, 0, "synchronized update")
    for name in ("TERM", "COLORTERM", "NO_COLOR", "SLATE_COLORSYS"):
        want = w.env.get(name) or "-"
        if row(got, "$" + name) != want:
            sim.fail("report", f"${name}={want} was reported as {row(got, '$' + name)!r}")
    term, kind = w.env.get("TERM", ""), w.env.get("COLORTERM", "")
    own = w.env.get("SLATE_COLORSYS")
    want = (own.lower() if own else "no_color" if "NO_COLOR" in w.env else "true_color" if kind in ("24bit", "truecolor") else
            "eight_bit" if not kind and term.endswith("256color") else "standard")
    if want not in (row(got, "colorspace") or "").lower():
        sim.fail("report", f"the colour space {want} was reported as {row(got, 'colorspace')!r}")
    return bool(sim.fired) or not terminal


def execute(w):
    c, sim = w.c, w.sim
    seams.STDOUT.delivered = []
    try:
        kind = c.weighted([(5, "getch"), (1, "size"), (4, "debug")])
        sim.probe(kind)
        if kind == "getch":
            return run_getch(w, c, sim)
        if kind == "size":
            return run_size(w, c, sim)
        if c.chance(1, 3):
            w.env = {name: value for name, value in (("TERM", "xterm-256color"), ("NO_COLOR", "1"),
                                                     ("COLORTERM", "24bit")) if c.chance(1, 2)}
            if c.chance(1, 4):
                w.env["SLATE_COLORSYS"] = c.pick(["no_color", "standard", "eight_bit", "true_color",
                                                  "EIGHT_BIT", "True_Color"])
            import os

            for name in ("TERM", "NO_COLOR", "COLORTERM", "SLATE_COLORSYS"):
                os.environ.pop(name, None)
            os.environ.update(w.env)
        return run_debug(w, c, sim)
    finally:
        seams.STDOUT.delivered = None
