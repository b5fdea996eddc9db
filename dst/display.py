"""Workload and reference model shared by the display properties (C01-C04, C12, C13).

The model is a plain grid: what was last written to each cell.  It knows nothing of change
buffers, diffs or escape sequences.
"""

from __future__ import annotations

from .world import OutStream, World
from .vt import GARBAGE

WHITE = ("rgb", 255, 255, 255)
ANYFG = ("any",)  # no foreground was asked for: terminal default or white
WHITES = {ANYFG, WHITE, ("idx", 15)}  # equal in value: one need not be sent over another
ANYBG = ("blend",)  # a translucent background: some blend

STYLE_NAMES = ("bold", "dim", "italic", "underline", "blink", "fast_blink", "invert", "conceal",
               "strike")
LETTERS = "abcXYZ019#.;[m-_~/\\\"'&<é█▄─λH{}%]|$ßİﬁ¬"


def draw_text(c, limit: int) -> str:
    kind = c.weighted([(5, "short"), (3, "mid"), (1, "blank"), (1, "long")])
    if kind == "short":
        length = c.between(1, 3)
    elif kind == "long":
        length = c.between(1, max(1, min(limit, 60)))
    else:
        length = c.between(1, 9)
    if kind == "blank":
        return " " * length
    if c.chance(1, 4):
        return c.pick(LETTERS) * length
    return "".join(" " if c.chance(1, 6) else c.pick(LETTERS) for _ in range(length))


class Items(list):
    """Spans that were written as one styled string."""

    tag = ("string",)


SET = {name: str(code) for code, name in enumerate(STYLE_NAMES, 1)}
UNSET = {name: str(code + 20) for code, name in enumerate(STYLE_NAMES, 1)} | {"bold": "22"}


def color_code(spec, background: bool) -> str:
    lead = "48" if background else "38"
    if spec[0] == "rgb":
        return ";".join([lead, "2", *map(str, spec[1:])])
    if spec[0] == "idx":
        return f"{lead};5;{spec[1]}"
    return str(Maker.std_code(spec[1], background))


def styled_string(c, items) -> str:
    """One string that shows the items, the way people and programs write such strings."""

    out = []
    state = (None, None, frozenset())

    def emit(codes) -> None:
        if not codes:
            return
        if c.chance(1, 3):
            out.extend(f"\x1b[{code}m" for code in codes)
        else:
            out.append(f"\x1b[{';'.join(codes)}m")

    for text, fg, bg, styles, _ in items:
        wanted = (fg, bg, frozenset(styles))
        codes = []
        if state != wanted:
            if c.chance(1, 2):
                if state != (None, None, frozenset()) or c.chance(1, 6):
                    if c.chance(1, 2):
                        out.append(c.pick(["\x1b[0m", "\x1b[m"]) if not c.chance(1, 8) else
                                   f"\x1b[{SET[c.pick(STYLE_NAMES)]};0m")
                    else:
                        codes.append("0")
                state = (None, None, frozenset())
            have = set(state[2])
            gone = [name for name in STYLE_NAMES if name in have - wanted[2]]
            for code in dict.fromkeys(UNSET[name] for name in gone):
                codes.append(code)
                have -= {name for name in STYLE_NAMES if UNSET[name] == code}
            codes += [SET[name] for name in styles if name not in have]
            for now, then, background in ((fg, state[0], False), (bg, state[1], True)):
                if now is None and then is not None:
                    codes.insert(c.draw(len(codes) + 1) if "0" not in codes else len(codes),
                                 "49" if background else "39")
                elif now is not None and (now != then or c.chance(1, 4)):
                    codes.append(color_code(now, background))
            emit(codes)
            state = wanted
        out.append(text)
        if c.chance(1, 3) and state != (None, None, frozenset()):
            out.append("\x1b[0m")
            state = (None, None, frozenset())
    return "".join(out)


STANDARD = [(0, 0, 0), (170, 0, 0), (0, 170, 0), (170, 85, 0), (0, 0, 170), (170, 0, 170), (0, 170, 170),
            (170, 170, 170), (85, 85, 85), (255, 85, 85), (85, 255, 85), (255, 255, 85), (85, 85, 255),
            (255, 85, 255), (85, 255, 255), (255, 255, 255)]


def palette_value(index: int):
    """The value of an entry of the 256-colour palette, from 16 on."""

    if index >= 232:
        return (8 + 10 * (index - 232),) * 3
    levels = (0, 95, 135, 175, 215, 255)
    index -= 16
    return levels[index // 36], levels[index // 6 % 6], levels[index % 6]


class Palette:
    """Colours of one run. Nearby values, so that a sloppy comparison shows."""

    def __init__(self, c) -> None:
        base = (c.between(20, 230), c.between(20, 230), c.between(20, 230))
        r, g, b = base
        self.rgbs = [base, (r + 1, g, b), (r, g + 1, b), (r, g, b + 1), (g, b, r) if len({r, g, b}) == 3
                     else (r + 2, g, b), (0, 0, 0)]
        self.idx = c.pick([141, 17, 196, 244, 100, 220, 52]) if c.chance(1, 2) else c.between(17, 255)
        if self.idx == 231:  # white, as 15 is
            self.idx = 230
        self.std = c.draw(16)  # 16-colour indices
        # colours of the same value count as the same
        values = {palette_value(self.idx), STANDARD[self.std]}
        self.rgbs = [rgb for rgb in self.rgbs if rgb not in values]

    def translucent(self, c):
        return ("tr", c.pick([0.25, 0.5, 0.9])) + c.pick(self.rgbs)

    def spec(self, c):
        """None or a colour spec: ('rgb', r, g, b) or ('idx', n) / ('std', n)."""

        kind = c.weighted([(4, None), (7, "rgb"), (2, "idx"), (2, "std")])
        if kind is None:
            return None
        if kind == "rgb":
            return ("rgb",) + c.pick(self.rgbs)
        if kind == "idx":
            return ("idx", self.idx)
        return ("std", self.std)


class Maker:
    """Builds Slate objects from specs. Colour objects are shared or recreated, as drawn."""

    def __init__(self, slate, c) -> None:
        self.slate = slate
        self.c = c
        self.cache: dict = {}

    def color(self, spec, background: bool):
        if spec is None:
            return None
        key = (spec, background)
        if key in self.cache and self.c.chance(1, 2):
            return self.cache[key]
        make = self.slate.color
        if spec[0] == "tr":
            value = self.slate.Color(spec[2:], is_background=background, alpha=spec[1])
        elif spec[0] == "rgb":
            style = self.c.draw(3)
            if style == 0:
                value = self.slate.Color(spec[1:], is_background=background)
            else:
                value = make(spec[1:]) if style == 1 else make("#%02x%02x%02x" % spec[1:])
                value = value.as_background(background)
        elif spec[0] == "idx":
            value = make(f"{48 if background else 38};5;{spec[1]}")
        else:
            value = make(str(self.std_code(spec[1], background)))
        self.cache[key] = value
        return value

    @staticmethod
    def std_code(index: int, background: bool) -> int:
        code = 30 + index if index < 8 else 82 + index
        return code + 10 * background

    def span(self, item):
        text, fg, bg, styles, reset_after = item
        c = self.c
        key = ("span", item)
        if key in self.cache and c.chance(1, 3):
            return self.cache[key]
        extra = {"hyperlink": "https://example.org/"} if c.chance(1, 24) else {}
        lead = c.pick(["", "", "q", "zz w"]) if reset_after and text and c.chance(1, 8) else ""
        span = self.slate.Span(
            lead + text, foreground=self.color(fg, False), background=self.color(bg, True),
            reset_after=reset_after, **{name: True for name in styles}, **extra,
        )
        if c.chance(1, 8):
            self.look(span)
        if lead:
            span = span[len(lead):]
        elif reset_after and c.chance(1, 16):
            span = span.mutate(text="?" + text).mutate(text=text)
        self.cache[key] = span
        return span

    def look(self, span) -> None:
        """What programs do with a span besides writing it; none of it changes it."""

        for _ in range(self.c.between(1, 3)):
            kind = self.c.draw(6)
            if kind == 0:
                str(span), repr(span), len(span)
            elif kind == 1:
                span.get_characters(always_include_sequence=True)
            elif kind == 2:
                span.get_characters(exclude_color=bool(self.c.draw(2)))
            elif kind == 3:
                span.split(" "), span.attrs.clear()
            elif kind == 4:
                span.mutate(bold=True), span[:1], span == span[1:], hash(span)
            else:
                self.slate.width(span), "a" in span, span.as_svg()


def shown(spec):
    """How the emulator sees a colour spec in true colour."""

    if spec is None:
        return None
    if spec[0] == "tr":
        return ANYBG
    return ("idx", spec[1]) if spec[0] in ("idx", "std") else spec


class Cell:
    __slots__ = ("ch", "fg", "bg", "styles", "rep")

    def __init__(self, ch, fg, bg, styles, rep) -> None:
        self.ch, self.fg, self.bg, self.styles, self.rep = ch, fg, bg, styles, rep

    def visible(self):
        return (self.ch, self.fg, self.bg, self.styles)

    def accepts(self, cell) -> bool:
        ch, fg, bg, styles = cell
        if self.ch is None:
            return True
        if ch != self.ch or (bg != self.bg and self.bg is not ANYBG) or styles != self.styles:
            return False
        if self.fg in WHITES:
            return fg is None or fg in WHITES
        return fg == self.fg

    def __repr__(self) -> str:
        return f"{self.ch!r} fg={self.fg} bg={self.bg} {'+'.join(sorted(self.styles))}"


def fill_cell(char: str) -> Cell:
    return Cell(char, ANYFG, None, frozenset(), ("fill", char))


class Model:
    def __init__(self, size) -> None:
        self.size = size
        self.cells = [[fill_cell(" ") for _ in range(size[0])] for _ in range(size[1])]
        self.cursor = (0, 0)
        self.maybe: set = set()  # cells the next incremental draw may print
        self.forced: set = set()  # cells it has to print
        self.all_dirty()

    def all_dirty(self) -> None:
        self.maybe = {(x, y) for y in range(self.size[1]) for x in range(self.size[0])}

    def resize(self, size) -> None:
        width, height = size
        new = [[fill_cell(" ") for _ in range(width)] for _ in range(height)]
        for y, row in enumerate(self.cells[:height]):
            for x, cell in enumerate(row[:width]):
                new[y][x] = cell
        self.size, self.cells = size, new
        self.forced = {pos for pos in self.forced if pos[0] < width and pos[1] < height}
        self.all_dirty()

    def clear(self, fill: str) -> None:
        self.cells = [[fill_cell(fill) for _ in range(self.size[0])] for _ in range(self.size[1])]
        self.cursor = (0, 0)
        self.all_dirty()

    def lay(self, pos, items, layer: dict) -> None:
        """Puts one line of spans on `layer`, moving the cursor."""

        x, y = pos
        tag = getattr(items, "tag", ())
        width, height = self.size
        for text, fg, bg, styles, reset_after in items:
            styled = bool(styles)
            for i, ch in enumerate(text):
                if not (0 <= x < width and 0 <= y < height):
                    break
                rep = (ch, fg, bg, tuple(styles)) + tag
                if styled:
                    rep += (i == len(text) - 1 and reset_after,)
                seen = frozenset(styles)
                if ch == " " and bg is not None and bg[0] == "tr" and (x, y) in layer:
                    ch = None  # what lies beneath shows through
                layer[x, y] = Cell(ch, ANYFG if fg is None else shown(fg), shown(bg), seen, rep)
                x += 1
                if x >= width:
                    x, y = 0, y + 1
        self.cursor = (x, y)

    def apply(self, layer: dict, force: bool):
        """Returns (least, most) number of updated cells."""

        least = most = 0
        for (x, y), cell in layer.items():
            old = self.cells[y][x]
            if force:
                least += 1
                most += 1
                self.maybe.add((x, y))
                self.forced.add((x, y))
            elif old.rep != cell.rep:
                most += 1
                self.maybe.add((x, y))
                if self._must(old, cell):
                    least += 1
            self.cells[y][x] = cell
        return least, most

    @staticmethod
    def _must(old: Cell, new: Cell) -> bool:
        if old.ch != new.ch or old.bg != new.bg or old.styles != new.styles:
            return True
        if old.ch == " " or old.fg == new.fg:
            return False
        return not {old.fg, new.fg} <= WHITES


class Session:
    """One Terminal on an emulator, driven by random operations, mirrored in the model."""

    def __init__(self, w: World, slate, *, origin=(1, 1), emu=None) -> None:
        self.w, self.c, self.slate = w, w.c, slate
        self.palette = Palette(w.c)
        self.maker = Maker(slate, w.c)
        self.emu = emu or w.emu
        self.out = OutStream(w, self.emu)
        self.origin = origin
        self.last_items = None
        self.last_write = None
        self.last_pos = None
        self.unplaced = 3  # ninths of the writes that give no position
        self.translucent = 0  # twelfths of the spans with a translucent background
        self.repeat = 2  # tenths of the writes that repeat the last content
        w.on_size_query = self._size_queried
        self.model = None
        self.sizes: list = []
        self.term = w.api("Terminal()", slate.Terminal, stream=self.out, origin=origin)
        self.model = Model(w.size)
        self.pending_resize = None
        w.stdout_tty = w.c.chance(1, 2)
        self.draws = 0
        self.clean_draws = 0
        self.contexts: list = []

    def _size_queried(self) -> None:
        if self.model is not None and self.w.size != self.model.size:
            self.model.resize(self.w.size)
            self.w.sim.probe("resize_observed")

    # -- environment -----------------------------------------------------------------------------

    def env_resize(self) -> None:
        c, w = self.c, self.w
        width, height = self.model.size
        if c.chance(1, 3):
            size = (max(1, width + c.between(-2, 2)), max(1, height + c.between(-2, 2)))
        elif c.chance(1, 40):
            size = (c.between(15, 300), c.between(8, 70))
            size = size if size[0] * size[1] < 4000 else (size[0], 9)
        else:
            size = (c.between(1, 14), c.between(1, 7))
        if size == self.model.size:
            size = (size[0] + 1, size[1])
        w.resize(size, garble=c.chance(1, 2))

    def scribble(self) -> None:
        """Another program (or a log line) writes on the terminal."""

        emu, c = self.emu, self.c
        self.w.sim.fire("scribbled")
        self.w.sim.log("something else writes on the terminal")
        if c.chance(1, 2):
            for row in emu.grid:
                row[:] = [GARBAGE] * len(row)
        else:
            for _ in range(c.between(1, 4)):
                y = c.draw(len(emu.grid))
                emu.grid[y][c.draw(len(emu.grid[y]))] = GARBAGE

    # -- generated arguments ---------------------------------------------------------------------

    def styles(self):
        c = self.c
        if c.chance(1, 3):
            count = c.weighted([(4, 1), (2, 2), (1, 4)])
            names = sorted({c.pick(STYLE_NAMES) for _ in range(count)}, key=STYLE_NAMES.index)
            return tuple(names)
        return ()

    def items(self):
        c = self.c
        if self.last_items is not None and c.chance(self.repeat, 10):
            return self.last_items
        if self.last_items and c.chance(1, 8):
            self.last_items = self.varied(self.last_items)
            return self.last_items
        area = self.model.size[0] * self.model.size[1]
        count = c.weighted([(60, 1), (20, 2), (10, 3), (2, 0), (1, 12)])
        items = []
        for _ in range(count):
            styles = self.styles()
            fg, bg = self.palette.spec(c), self.palette.spec(c)
            if self.translucent and c.chance(self.translucent, 12):
                bg = self.palette.translucent(c)
            text = "" if c.chance(1, 40) else draw_text(c, area + 3)
            items.append((text, fg, bg, styles, not c.chance(1, 8)))
        self.last_items = items
        return items

    def varied(self, items):
        """The same with one attribute of one span changed."""

        c = self.c
        items = list(items)
        which = c.draw(len(items))
        text, fg, bg, styles, reset_after = items[which]
        what = c.weighted([(4, "style"), (1, "fg"), (1, "bg"), (1, "swap"), (1, "reset")])
        if what == "style":
            names = set(styles) ^ {c.pick(STYLE_NAMES)}
            styles = tuple(sorted(names, key=STYLE_NAMES.index))
        elif what == "fg":
            fg = self.palette.spec(c)
        elif what == "bg":
            bg = self.palette.spec(c)
        elif what == "swap" and not (bg and bg[0] == "tr"):
            fg, bg = bg, fg
        else:
            reset_after = not reset_after
        items[which] = (text, fg, bg, styles, reset_after)
        return items

    def position(self, wild: bool):
        c = self.c
        width, height = self.model.size
        if wild and c.chance(1, 6):
            return c.pick([(width, c.draw(height)), (width + c.between(1, 3), c.draw(height)),
                           (-1 - c.draw(3), c.draw(height)), (c.draw(width), -1 - c.draw(3))])
        if c.chance(1, 4):
            return c.pick([(width - 1, c.draw(height)), (width - 1, height - 1), (0, height - 1),
                           (0, 0)])
        return (c.draw(width), c.draw(height))

    def cursor_ok(self) -> bool:
        return self.model.cursor[1] < self.model.size[1]

    def as_data(self, items):
        """The items in one of the forms write() takes."""

        c = self.c
        plain = len(items) == 1 and items[0][1:] == (None, None, (), True)
        if plain and c.chance(1, 2):
            return items[0][0], items
        if c.chance(1, 6) and not any(spec and spec[0] == "tr" for item in items for spec in item[1:3]):
            items = Items((*item[:4], True) for item in items)
            self.w.sim.probe("styled_string")
            return styled_string(c, items), items
        single = len(items) == 1 and not items[0][3]
        form = c.weighted([(5, "list"), (2, "tuple"), (2, "generator"), (1, "span")])
        spans = [self.maker.span(item) for item in items]
        if form == "span" and single:
            return spans[0], items
        if form == "tuple":
            return tuple(spans), items
        if form == "generator":
            return (span for span in spans), items
        return spans, items

    # -- operations ------------------------------------------------------------------------------

    def op_write(self, wild=False, force_ok=True):
        c = self.c
        items = self.items()
        pos = None if c.chance(self.unplaced, 9) else self.position(wild)
        if pos is None and not self.cursor_ok():
            pos = self.position(wild)
        self.last_pos = pos
        force = force_ok and c.chance(1, 6)
        return self._write(items, pos, force)

    def op_again(self):
        """Repeats the last positioned write where it was."""

        if self.last_write is None or not self.in_step():
            return None
        items, pos, size = self.last_write
        if size != self.model.size:
            return None
        return self._write(items, pos, self.c.chance(1, 5))

    def _write(self, items, pos, force):
        model = self.model
        if pos is not None:
            self.last_write = (items, pos, model.size)
        data, items = self.as_data(items)
        kwargs = {"force_overwrite": True} if force else {}
        if pos is not None:
            kwargs["cursor"] = pos
        self.w.sim.log(f"write {items!r} at {pos} force={force}")
        got = self.w.api("write", self.term.write, data, **kwargs)
        layer: dict = {}
        model.lay(model.cursor if pos is None else pos, items, layer)
        bounds = model.apply(layer, force)
        self.w.sim.log(f"-> {got}")
        return got, bounds, (force, len(layer))

    def op_bulk(self, wild=False, force_ok=True):
        c, model = self.c, self.model
        count = c.weighted([(30, 1), (40, 2), (30, 3), (10, 5), (2, 0), (1, 20)])
        data, layer = [], {}
        described = []
        for _ in range(count):
            items = self.items()
            pos = self.position(wild)
            form, items = self.as_data(items)
            data.append((pos, form))
            described.append((pos, items))
            model.lay(pos, items, layer)
        force = force_ok and c.chance(1, 6)
        kwargs = {"force_overwrite": True} if force else {}
        self.w.sim.log(f"write_bulk {described!r} force={force}")
        got = self.w.api("write_bulk", self.term.write_bulk, data, **kwargs)
        bounds = model.apply(layer, force)
        self.w.sim.log(f"-> {got}")
        return got, bounds, (force, len(layer))

    def op_clear(self) -> None:
        fill = self.c.weighted([(3, None), (1, "X"), (1, "·")])
        self.w.sim.log(f"clear {fill!r}")
        if fill is None:
            self.w.api("clear", self.term.clear)
        else:
            self.w.api("clear", self.term.clear, fill)
        self.model.clear(fill or " ")

    def op_size(self) -> None:
        kind = self.c.draw(3)
        self.w.sim.log("query size")
        if kind == 0:
            got = self.w.api("size", lambda: self.term.size)
        elif kind == 1:
            got = self.w.api("width", lambda: self.term.width)
        else:
            got = self.w.api("height", lambda: self.term.height)
        want = [self.w.size, self.w.size[0], self.w.size[1]][kind]
        if (tuple(got) if kind == 0 else got) != want:
            self.w.sim.fail("size", f"size query returned {got}, the terminal has {want}")

    def op_move(self) -> None:
        """The program moves the screen elsewhere on the terminal: a full draw shows it there."""

        extra = self.w.extra
        self.origin = (1 + self.c.draw(extra[0] + 1), 1 + self.c.draw(extra[1] + 1))
        self.w.sim.log(f"origin = {self.origin}")
        self.term.origin = self.origin

    def op_export(self) -> None:
        """An SVG export only looks at the screen (and asks for the size)."""

        emu = self.emu
        before = len(emu.history), len(emu.printed), self.out.buffer_text
        self.w.sim.log("export_svg")
        got = self.w.api("export_svg", self.term.export_svg)
        if not isinstance(got, str):
            self.w.sim.fail("export", f"export_svg returned {got!r}")
        if before != (len(emu.history), len(emu.printed), self.out.buffer_text):
            self.w.sim.fail("export", "an SVG export wrote to the terminal")

    def op_around(self, alt=False) -> bool:
        """Enters or leaves a mode context, or sends a control. True: the display is another one now."""

        c, term, api = self.c, self.term, self.w.api
        kind = c.pick(["batch", "report_mouse", "no_echo", "leave", "leave", "leave", "bell", "cursor", "title"]
                      + ["alt_buffer"] * 2 * (alt and "alt_buffer" not in [name for name, _ in self.contexts]))
        if kind == "leave":
            return bool(self.contexts) and self.leave()
        self.w.sim.log(kind)
        if kind == "bell":
            api(kind, term.bell)
        elif kind == "cursor":
            api(kind, term.show_cursor, bool(c.draw(2)))
        elif kind == "title":
            api(kind, term.set_title, c.pick(["one", "two", None]))
        elif len(self.contexts) < 3:
            context = getattr(term, kind)()
            api(kind, context.__enter__)
            self.contexts.append((kind, context))
            self.w.sim.probe("in_context")
            return kind == "alt_buffer"
        return False

    def leave(self) -> bool:
        """Leaves the innermost context. True: the display is another one now."""

        kind, context = self.contexts.pop()
        self.w.sim.log(f"leave {kind}")
        self.w.api(kind, context.__exit__, None, None, None)
        return kind == "alt_buffer"

    def op_cursor(self, wild=False) -> None:
        pos = self.position(wild)
        self.w.sim.log(f"cursor = {pos}")
        self.term.cursor = pos
        self.model.cursor = pos

    def op_draw(self, redraw=False, allow=()):
        """Draws; returns the positions printed, in screen coordinates."""

        emu = self.emu
        emu.printed = []
        emu.out_of_screen = 0
        self.w.sim.log(f"draw redraw={redraw}")
        self.draws += 1
        if redraw:
            self.w.api("draw", self.term.draw, redraw=True, allow=allow)
        else:
            self.w.api("draw", self.term.draw, allow=allow)
        ox, oy = self.origin[0] - 1, self.origin[1] - 1
        return [(x - ox, y - oy) for x, y in emu.printed]

    def in_step(self) -> bool:
        return self.w.size == self.model.size

    def drawn(self) -> None:
        self.model.maybe = set()
        self.model.forced = set()

    def check_display(self, when: str) -> None:
        """The oracle of C01: the emulator shows the model."""

        emu, model = self.emu, self.model
        ox, oy = self.origin[0] - 1, self.origin[1] - 1
        grid = emu.grid
        self.clean_draws += 1
        for y, row in enumerate(model.cells):
            real = grid[y + oy]
            for x, cell in enumerate(row):
                if not cell.accepts(real[x + ox]):
                    self.w.sim.fail(
                        "display",
                        f"{when}: cell {(x, y)} of {model.size} shows {real[x + ox]!r}, last written {cell!r}",
                    )
        if emu.pending:
            self.w.sim.fail("display", f"{when}: unfinished sequence {emu.pending!r}")
        if emu.style or emu.fg is not None or emu.bg is not None:
            self.w.sim.fail("leak", f"{when}: styles are left on: {emu.fg} {emu.bg} {set(emu.style)}")


def build_world(c, preempt=False) -> tuple[World, tuple[int, int]]:
    size = c.weighted([
        (23, "small"), (8, "tiny"), (4, "wide"), (1, "large")])
    if size == "small":
        dims = (c.between(2, 10), c.between(2, 5))
    elif size == "tiny":
        dims = (c.between(1, 3), c.between(1, 3))
    elif size == "large":
        dims = (c.between(60, 260), c.between(10, 60))
    else:
        dims = (c.between(20, 40), c.between(3, 8))
    w = World(c, dims, preempt)
    origin = (1, 1)
    if c.chance(1, 5):
        origin = (c.between(1, 4), c.between(1, 3))
    w.extra = (origin[0] - 1, origin[1] - 1)
    if c.chance(1, 6):  # room to move to
        w.extra = (w.extra[0] + c.draw(3), w.extra[1] + c.draw(3))
    w.emu.resize((dims[0] + w.extra[0], dims[1] + w.extra[1]), garble=True)
    return w, origin
