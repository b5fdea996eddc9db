"""C09: key and mouse bursts get their names, and no input crashes a read."""

import re

from ..keys import DEFAULT, Keyboard, build_world

RULE = ("histories of bursts (every named key, mouse reports with all buttons, modifiers and "
        "coordinates, terminal replies, malformed and random sequences, plain text), typed or fed, "
        "read by name or raw, timed or not, in random order. Non-trivial: at least three bursts were "
        "compared with their expected names")
REAL = ["slate.core (getch, parse_mouse_event, Key)", "slate.key_names"]
STUBS = ["tty line discipline", "select", "os.read", "termios", "clock"]

# what terminals send (xterm), and the names users of the library compare with
NAMES = {
    '\x1b': ('esc', 'escape'),
    '\x1b[A': ('up', 'arrow-up'),
    '\x1b[B': ('down', 'arrow-down'),
    '\x1b[C': ('right', 'arrow-right'),
    '\x1b[D': ('left', 'arrow-left'),
    '\x1b[1;2A': ('shift-up', 'shift-arrow-up'),
    '\x1b[1;2B': ('shift-down', 'shift-arrow-down'),
    '\x1b[1;2C': ('shift-right', 'shift-arrow-right'),
    '\x1b[1;2D': ('shift-left', 'shift-arrow-left'),
    '\x1b[1;3A': ('alt-up', 'alt-arrow-up'),
    '\x1b[1;3B': ('alt-down', 'alt-arrow-down'),
    '\x1b[1;3C': ('alt-right', 'alt-arrow-right'),
    '\x1b[1;3D': ('alt-left', 'alt-arrow-left'),
    '\x1b[1;4A': ('alt-shift-up', 'alt-shift-arrow-up'),
    '\x1b[1;4B': ('alt-shift-down', 'alt-shift-arrow-down'),
    '\x1b[1;4C': ('alt-shift-right', 'alt-shift-arrow-right'),
    '\x1b[1;4D': ('alt-shift-left', 'alt-shift-arrow-left'),
    '\x1b[1;6A': ('ctrl-shift-up', 'ctrl-shift-arrow-up'),
    '\x1b[1;6B': ('ctrl-shift-down', 'ctrl-shift-arrow-down'),
    '\x7f': ('backspace',),
    '\x1b\x7f': ('alt-backspace',),
    '\x01': ('ctrl-a',),
    '\x02': ('ctrl-b',),
    '\x03': ('ctrl-c',),
    '\x04': ('ctrl-d',),
    '\x05': ('ctrl-e',),
    '\x06': ('ctrl-f',),
    '\x07': ('ctrl-g',),
    '\x08': ('ctrl-backspace', 'ctrl-h'),
    '\t': ('tab', 'ctrl-i'),
    '\n': ('return', 'ctrl-j'),
    '\x0b': ('ctrl-k',),
    '\x0c': ('ctrl-l',),
    '\r': ('ctrl-m',),
    '\x0e': ('ctrl-n',),
    '\x0f': ('ctrl-o',),
    '\x10': ('ctrl-p',),
    '\x11': ('ctrl-q',),
    '\x12': ('ctrl-r',),
    '\x13': ('ctrl-s',),
    '\x14': ('ctrl-t',),
    '\x15': ('ctrl-u',),
    '\x16': ('ctrl-v',),
    '\x17': ('ctrl-w',),
    '\x18': ('ctrl-x',),
    '\x19': ('ctrl-y',),
    '\x1a': ('ctrl-z',),
    '\x1b[1;5A': ('ctrl-up',),
    '\x1b[1;5B': ('ctrl-down',),
    '\x1b[1;5C': ('ctrl-right',),
    '\x1b[1;5D': ('ctrl-left',),
    '\x1b[H': ('home',),
    '\x1b[F': ('end',),
    '\x1b[2~': ('insert',),
    '\x1b[3~': ('delete',),
    '\x1b[Z': ('shift-tab',),
    '\x1b[11~': ('F1',),
    '\x1bOP': ('F1',),
    '\x1b[12~': ('F2',),
    '\x1bOQ': ('F2',),
    '\x1b[13~': ('F3',),
    '\x1bOR': ('F3',),
    '\x1b[14~': ('F4',),
    '\x1bOS': ('F4',),
    '\x1b[15~': ('F5',),
    '\x1b[17~': ('F6',),
    '\x1b[18~': ('F7',),
    '\x1b[19~': ('F8',),
    '\x1b[20~': ('F9',),
    '\x1b[21~': ('F10',),
    '\x1b[23~': ('F11',),
    '\x1b[24~': ('F12',),
}
MOUSE = re.compile(r"\x1b\[<([0-9]+);([0-9]+);([0-9]+)([Mm])")
BUTTONS = {0: "left_click", 2: "right_click", 32: "left_drag", 34: "right_drag", 35: "hover",
           64: "scroll_up", 65: "scroll_down", 66: "scroll_left", 67: "scroll_right"}


def mouse_name(code: int, x: str, y: str, final: str):
    """The name of an SGR mouse report; None for buttons without one."""

    base = code & ~28
    if base not in BUTTONS or code > 95 or code < 0:
        return None
    name = BUTTONS[base]
    if final == "m" and name.endswith("click"):
        name = name.replace("click", "release")
    mods = "shift_" * bool(code & 4) + "ctrl_" * bool(code & 16) + "option_" * bool(code & 8)
    return f"mouse:{mods}{name}@{x};{y}"


def expected(text: str):
    """The names of one burst, or None if more than one answer is possible."""

    match = MOUSE.fullmatch(text)
    if match:
        code = match.group(1)
        if len(code) > 9:
            return (text,) if code.isascii() and code[0] != "0" else None
        name = mouse_name(int(code), match.group(2), match.group(3), match.group(4))
        if name is None:
            return (text,)
        if code != str(int(code)):
            return None
        return (name,)
    if text in NAMES:
        return NAMES[text]
    tail = text[text.rfind("\x1b"):] if "\x1b" in text else ""
    if tail and MOUSE.fullmatch(tail):
        return None  # a mouse report after something else in the same burst
    return (text,)


def build(c):
    w = build_world(c)
    return w


def coordinate(c) -> str:
    kind = c.weighted([(12, "near"), (12, "far"), (3, "huge"), (1, "absurd")])
    if kind == "absurd":
        return str(c.between(1, 9)) * c.pick([20, 4301, 9000])
    return str({"near": c.draw(10), "far": 10 + c.draw(300), "huge": 1000 + c.draw(9000)}[kind])


def burst(c) -> str:
    kind = c.weighted([(6, "key"), (6, "mouse"), (2, "text"), (3, "odd"), (3, "random"), (2, "reply")])
    if kind == "key":
        return c.pick(KEYS)
    if kind == "mouse":
        base = c.pick([0, 2, 32, 34, 35, 64, 65, 66, 67])
        final = c.pick("Mm") if base in (0, 2) else "m" if c.chance(1, 6) else "M"
        return f"\x1b[<{base + 4 * c.draw(8)};{coordinate(c)};{coordinate(c)}{final}"
    if kind == "text" and c.chance(1, 20):
        return "".join(f"{n};" for n in range(c.pick([30, 90, 400, 1500])))
    if kind == "text":
        return "".join(c.pick("abXYZ019 ;,.[]<>Mm~é😀中") for _ in range(c.between(1, 12)))
    if kind == "odd":
        code = c.pick(["1", "3", "33", "36", "68", "96", "128", "129", "999999", "-1", "", "x", "0x1", "²",
                       "9" * 25, "1" * 5000, "٣"])
        return c.pick([
            f"\x1b[<{code};3;4M", f"\x1b[<{code};3;4m", "\x1b[<0;3M", "\x1b[<0;3;4", "\x1b[<0;3;4X",
            "\x1b[<0;;M", "\x1b[<;;M", "\x1b[<;;", ";;", ";;M", "0;1;2M", "[<0;1;2M", "\x1b;;", "\x1b;1;",
            "\x1b[<0;1;2;3M", "\x1b[<0;1;2M\x1b", "\x1b[<0;1;2Mx", "\x1b[M !!", "\x1b[1;2;3m", "a;b;c",
            "\x1b[0;1;2M", "<0;1;2M", "\x1b\x1b[A", "\x1b[200~a;b;cM\x1b[201~", "\x1b[<0;3.5;4M",
            "\x1b[<0; 3;4M", "\x1b[<0;٣;4M", "\x1b[<2;3;９M", "\x1b[<-0;3;4M", "\x1b[<0;+3;4M", "\x1b[<0;1_0;4M", "\x1b[<0;3;4M\n",
        ])
    if kind == "reply":
        return c.pick(["\x1b[4;600;800t", "\x1b[?2026;2$y", "\x1b[12;40R", "\x1b[?1;2;4c",
                       "\x1b]10;rgb:ffff/ffff/ffff\x1b\\", "\x1b]11;rgb:1212/3434/5656\x1b\\",
                       "\x1bP1$r0;1;2m\x1b\\", "\x1b[>1;2;0c", "\x1b_Gi=1;OK;x\x1b\\"])
    return "".join(c.pick(["\x1b", "[", "<", ";", "0", "2", "35", "M", "m", "t", "A", "~", "O", "P", " ",
                           "é"]) for _ in range(c.between(1, 9)))


KEYS = list(NAMES)
KEYS.sort(key=lambda k: k != "\x1b[A")


def execute(w):
    c, sim = w.c, w.sim
    kb = Keyboard(w, elsewhere=True)
    compared = 0
    for _ in range(c.rounds(1, 14)):
        c.begin()
        text = burst(c)
        raw = c.chance(1, 5)
        via_feed = c.chance(1, 3)
        start = len(w.tty.accepted)
        if via_feed:
            w.api("feed", kb.slate.feed, text)
        else:
            kb.type_at(c.pick([0, 0, 5, 20_000]), text.encode())
            kb.type_at(30_000_000, b"")  # nothing: tame() may have removed all of it
        untimed = (via_feed or any(" " <= char != "\x7f" for char in text)) and c.chance(1, 3)
        out = kb.call(duration=None if untimed else 0.5, raw=raw, default=c.pick([DEFAULT, None]))
        if not via_feed:
            text = bytes(w.tty.accepted[start:]).decode()
            sim.probe("typed")
            if not text:
                c.end()
                continue
        if out["timeout"]:
            sim.fail("name", f"a read of {text!r} timed out")
        names = (text,) if raw else expected(text)
        key = out["key"]
        if names is not None:
            compared += 1
            sim.probe("raw" if raw else "mouse" if names[0].startswith("mouse:") else
                      "named" if names != (text,) else "verbatim")
            wrong = [name for name in names if not key == name]
            if wrong or str(key) != names[0]:
                sim.fail("name", f"{text!r} was reported as {list(key)!r}, expected {list(names)!r}")
            if key == names[0] + "x" or key == DEFAULT:
                sim.fail("name", f"{key!r} equals names it does not have")
            if sorted(key) != sorted(names):
                sim.fail("name", f"{text!r} was reported as {list(key)!r}, expected {list(names)!r}")
        c.end()
    return compared >= 3
