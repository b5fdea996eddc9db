"""A terminal emulator: interprets what Slate writes, and answers its queries.

Independent of Slate: written from ECMA-48 / xterm behaviour.
"""

from __future__ import annotations

import re

BLANK = (" ", None, None, frozenset())
GARBAGE = ("\u2592", ("idx", 1), ("idx", 2), frozenset(["blink"]))

_CSI = re.compile(r"\x1b\[([0-?]*)([ -/]*)([@-~])")
_CSI_PART = re.compile(r"\x1b\[[0-?]*[ -/]*\Z")
_OSC = re.compile(r"\x1b\]([^\x07\x1b]*)(?:\x07|\x1b\\)")
_OSC_PART = re.compile(r"\x1b\][^\x07\x1b]*\x1b?\Z")

_STYLES = {
    1: "bold", 2: "dim", 3: "italic", 4: "underline", 5: "blink", 6: "fast_blink",
    7: "invert", 8: "conceal", 9: "strike",
}
_UNSTYLES = {
    22: ("bold", "dim"), 23: ("italic",), 24: ("underline",), 25: ("blink", "fast_blink"),
    27: ("invert",), 28: ("conceal",), 29: ("strike",),
}


class Emulator:
    def __init__(self, size, title="shell", depth=()) -> None:
        self.size = size
        self.main = self._grid(size)
        self.alt = self._grid(size)
        self.in_alt = False
        self.cursor_shown = True
        self.modes: set[int] = set()
        self.modes_apart = 0
        self.sync = False
        self.title = title
        self.title_stack: list[str] = list(depth)
        self.icon_depth = 0  # entries pushed on the stack of icon titles
        self.underflow = 0
        self.bells = 0
        self.unknown: list[str] = []
        self.x = self.y = 0
        self.saved = (0, 0)
        self.wrap_pending = False
        self.pending = ""
        self.reset_sgr()
        self.printed: list[tuple[int, int]] = []
        self.out_of_screen = 0
        self.scrolled = 0
        self.color_codes: list[tuple[str, str]] = []
        self.on_query = lambda kind: None
        self.history: list[str] = []  # controls, in order
        self.record_history = True
        self.tag_codes = False  # keep apart which kind of code chose a palette colour

    @staticmethod
    def _grid(size):
        return [[BLANK] * size[0] for _ in range(size[1])]

    @property
    def grid(self):
        return self.alt if self.in_alt else self.main

    def reset_sgr(self) -> None:
        self.fg = self.bg = None
        self.style: frozenset = frozenset()

    def resize(self, size, garble: bool) -> None:
        self.size = size
        width, height = size
        for name in ("main", "alt"):
            old = getattr(self, name)
            new = [[GARBAGE if garble else BLANK] * width for _ in range(height)]
            if not garble:
                for y, row in enumerate(old[:height]):
                    for x, cell in enumerate(row[:width]):
                        new[y][x] = cell
            setattr(self, name, new)
        self.x = min(self.x, width - 1)
        self.y = min(self.y, height - 1)
        self.wrap_pending = False

    # -- input -----------------------------------------------------------------------------------

    def feed(self, text: str) -> None:
        data = self.pending + text
        self.pending = ""
        pos, end = 0, len(data)
        while pos < end:
            char = data[pos]
            if char != "\x1b":
                if char == "\n":
                    self._linefeed()
                elif char == "\r":
                    self.x = 0
                    self.wrap_pending = False
                elif char == "\b":
                    self.x = max(self.x - 1, 0)
                    self.wrap_pending = False
                elif char == "\x07":
                    self.bells += 1
                elif char < " " or char == "\x7f":
                    self.unknown.append(repr(char))
                else:
                    self._print(char)
                pos += 1
                continue
            if pos + 1 >= end:
                self.pending = data[pos:]
                return
            kind = data[pos + 1]
            if kind == "[":
                match = _CSI.match(data, pos)
                if match:
                    self._csi(*match.groups())
                    pos = match.end()
                    continue
                if _CSI_PART.match(data, pos):
                    self.pending = data[pos:]
                    return
                nxt = data.find("\x1b", pos + 1)  # cancelled by a new sequence
                self.unknown.append(repr(data[pos : pos + 6]))
                pos = nxt if nxt != -1 else end
                continue
            if kind == "]":
                match = _OSC.match(data, pos)
                if match:
                    self._osc(match.group(1))
                    pos = match.end()
                    continue
                if _OSC_PART.match(data, pos):
                    self.pending = data[pos:]
                    return
                nxt = data.find("\x1b", pos + 1)
                self.unknown.append(repr(data[pos : pos + 6]))
                pos = nxt if nxt != -1 else end
                continue
            if kind == "\x1b":
                pos += 1
                continue
            if kind == "\\":
                pos += 2
                continue
            if kind in "P_^X":  # strings for devices we do not have
                stop = data.find("\x1b", pos + 2)
                if stop == -1 or stop + 1 >= end:
                    self.pending = data[pos:]
                    return
                if self.record_history:
                    self.history.append(repr(data[pos : pos + 40]))
                pos = stop + 2 if data[stop + 1] == "\\" else stop  # else cancelled
                continue
            if kind in "78":
                self._move("", "s" if kind == "7" else "u")
                pos += 2
                continue
            self.unknown.append(repr(data[pos : pos + 2]))
            pos += 2

    def _linefeed(self) -> None:
        self.wrap_pending = False
        if self.y >= self.size[1] - 1:
            self.grid.pop(0)
            self.grid.append([BLANK] * self.size[0])
            self.scrolled += 1
        else:
            self.y += 1

    def _print(self, char: str) -> None:
        if self.wrap_pending:
            self.x = 0
            self._linefeed()
        self.grid[self.y][self.x] = (char, self.fg, self.bg, self.style)
        self.printed.append((self.x, self.y))
        if self.x >= self.size[0] - 1:
            self.wrap_pending = True
        else:
            self.x += 1

    # -- sequences -------------------------------------------------------------------------------

    def _csi(self, params: str, inter: str, final: str) -> None:
        if final == "m" and not inter and not params.startswith("?"):
            self._sgr(params)
            return
        if final in "Hf" and not inter:
            parts = (params.split(";") + ["", ""])[:2]
            try:
                row, col = (int(p) if p else 1 for p in parts)
            except ValueError:
                self.unknown.append(f"CSI {params}{final}")
                return
            row, col = max(row, 1), max(col, 1)
            if row > self.size[1] or col > self.size[0]:
                self.out_of_screen += 1
            self.y = min(row, self.size[1]) - 1
            self.x = min(col, self.size[0]) - 1
            self.wrap_pending = False
            return
        if not inter and self._move(params, final):
            return
        if self.record_history:
            self.history.append(f"CSI {params}{inter}{final}")
        if params.startswith("?") and final in "hl" and not inter:
            on = final == "h"
            for part in params[1:].split(";"):
                self._mode(part, on)
            return
        if params.startswith("?") and inter == "$" and final == "p":
            self.on_query("mode:" + params[1:])
            return
        if final == "t":
            parts = params.split(";")
            if parts[0] in ("22", "23"):
                which = parts[1] if len(parts) > 1 and parts[1] else "0"
                if which in ("0", "1"):
                    self.icon_depth += 1 if parts[0] == "22" else -1
                if which not in ("0", "2"):
                    if which != "1":
                        self.unknown.append(f"CSI {params}t")
                elif parts[0] == "22":
                    self.title_stack.append(self.title)
                elif self.title_stack:
                    self.title = self.title_stack.pop()
                else:
                    self.underflow += 1
                return
            if parts[0] == "14":
                self.on_query("pixels")
                return
        if final in "JK" and not inter:
            self._erase(params, final)
            return
        self.unknown.append(f"CSI {params}{inter}{final}")

    def _erase(self, params: str, final: str) -> None:
        blank = (" ", None, self.bg, frozenset())
        width, height = self.size
        here = (self.y, self.x)
        if params in ("", "0"):
            erased = lambda pos: pos >= here  # noqa: E731
        elif params == "1":
            erased = lambda pos: pos <= here  # noqa: E731
        elif params == "2" or (params == "3" and final == "J"):
            erased = lambda pos: True  # noqa: E731
        else:
            self.unknown.append(f"CSI {params}{final}")
            return
        for y in range(height) if final == "J" else (self.y,):
            for x in range(width):
                if erased((y, x)):
                    self.grid[y][x] = blank

    def _move(self, params: str, final: str) -> bool:
        """Cursor movements other than CUP; False if it is none."""

        if final in "su" and not params:
            if final == "s":
                self.saved = (self.x, self.y)
            else:
                self.x, self.y = (min(a, b - 1) for a, b in zip(self.saved, self.size))
            self.wrap_pending = False
            return True
        if final not in "ABCDEFGd`aeX" or not (params == "" or params.isdigit()):
            return False
        count = max(int(params or 1), 1)
        width, height = self.size
        if final == "X":
            for x in range(self.x, min(self.x + count, width)):
                self.grid[self.y][x] = (" ", None, self.bg, frozenset())
            return True
        x, y = self.x, self.y
        if final in "AF":
            y -= count
        elif final in "BEe":
            y += count
        elif final in "Ca":
            x += count
        elif final == "D":
            x -= count
        elif final in "G`":
            x = count - 1
        else:
            y = count - 1
        if final in "EF":
            x = 0
        if not (x < width and y < height):
            self.out_of_screen += 1
        self.x, self.y = min(max(x, 0), width - 1), min(max(y, 0), height - 1)
        self.wrap_pending = False
        return True

    def _mode(self, part: str, on: bool) -> None:
        if part in ("1049", "47", "1047"):
            if on and not self.in_alt:
                self.alt = self._grid(self.size)
            self.in_alt = on
        elif part == "25":
            self.cursor_shown = on
        elif part == "2026":
            self.sync = on
        elif part in ("1000", "1002", "1003"):
            # xterm has one tracking mode, which each of them sets or ends; others keep them apart, some wholly
            if on and self.modes_apart < 2 or not on and not self.modes_apart:
                self.modes -= {1000, 1002, 1003}
            (self.modes.add if on else self.modes.discard)(int(part))
        elif part.isdigit() and int(part) in (1005, 1006, 1015, 2004):
            (self.modes.add if on else self.modes.discard)(int(part))
        else:
            self.unknown.append(f"mode {part}")

    def _osc(self, body: str) -> None:
        if self.record_history:
            self.history.append(f"OSC {body}")
        code, _, rest = body.partition(";")
        if code in ("0", "2"):
            self.title = rest
        elif code == "1":
            pass
        elif code in ("10", "11") and rest == "?":
            self.on_query("color:" + code)
        elif code == "8":
            pass
        else:
            self.unknown.append(f"OSC {body}")

    def _sgr(self, params: str) -> None:
        parts = params.split(";")
        i = 0
        while i < len(parts):
            part = parts[i]
            i += 1
            if part == "":
                part = "0"
            if not part.isdigit():
                self.unknown.append(f"SGR {params}")
                continue
            code = int(part)
            if code == 0:
                self.reset_sgr()
            elif code in _STYLES:
                self.style = self.style | {_STYLES[code]}
            elif code in _UNSTYLES:
                self.style = self.style - set(_UNSTYLES[code])
            elif 30 <= code <= 37 or 90 <= code <= 97:
                index = code - 30 if code < 90 else code - 82
                self.fg = ("16" if self.tag_codes else "idx", index)
                self.color_codes.append(("fg", f"16:{index}"))
            elif 40 <= code <= 47 or 100 <= code <= 107:
                index = code - 40 if code < 100 else code - 92
                self.bg = ("16" if self.tag_codes else "idx", index)
                self.color_codes.append(("bg", f"16:{index}"))
            elif code == 39:
                self.fg = None
            elif code == 49:
                self.bg = None
            elif code in (38, 48):
                layer = "fg" if code == 38 else "bg"
                value = None
                try:
                    if parts[i] == "5":
                        index = int(parts[i + 1])
                        if not 0 <= index <= 255:
                            raise ValueError
                        value = ("256" if self.tag_codes else "idx", index)
                        self.color_codes.append((layer, f"256:{index}"))
                        i += 2
                    elif parts[i] == "2":
                        rgb = tuple(int(p) for p in parts[i + 1 : i + 4])
                        if len(rgb) != 3 or any(not 0 <= v <= 255 for v in rgb):
                            raise ValueError
                        value = ("rgb",) + rgb
                        self.color_codes.append((layer, "rgb:%d,%d,%d" % rgb))
                        i += 4
                    else:
                        raise ValueError
                except (ValueError, IndexError):
                    self.unknown.append(f"SGR {params}")
                    return
                if layer == "fg":
                    self.fg = value
                else:
                    self.bg = value
            elif code == 99:
                pass  # Slate's private "opaque" marker: ignored by terminals
            else:
                self.unknown.append(f"SGR {params}")
