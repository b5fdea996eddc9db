"""C19: an SVG export shows the screen as it was at one moment."""

import copy
import re
import xml.etree.ElementTree as ET

from ..display import ANYBG, STANDARD, Session, WHITES, build_world, palette_value
from ..loader import load_slate
from .c02 import Faults

RULE = ("random histories of writes, bulk writes, clears, draws (failing ones too) and size queries, with the window "
        "resized between and during the calls, and exports in between, with different font sizes and default colours; "
        "every export is parsed and compared cell by cell with the reference canvas. Non-trivial: an export of a "
        "screen that had been written to was compared")
REAL = ["slate.terminal", "slate.screen", "slate.span", "slate.color", "slate.event"]
STUBS = ["terminal (emulator)", "window size", "output stream"]

NS = "{http://www.w3.org/2000/svg}"
CELL_WIDTH, CELL_HEIGHT = 0.60167, 1.265  # of a character, in units of the font size
MARGIN = 16
DECORATIONS = {"underline": "underline", "strike": "line-through"}
RULE_RE = re.compile(r"\.([\w-]+)\s*\{([^}]*)\}")


def build(c):
    w, origin = build_world(c)
    w.cfg_origin = origin
    return w


def rgb(hexa: str):
    """The value of #rrggbb, None for anything else."""

    match = re.fullmatch(r"#([0-9a-fA-F]{6})", (hexa or "").strip())
    return tuple(bytes.fromhex(match[1])) if match else None


def value(spec):
    """The value of a colour as the model has it."""

    if spec[0] == "rgb":
        return spec[1:]
    return STANDARD[spec[1]] if spec[1] < 16 else palette_value(spec[1])


class Image:
    """What an SVG export shows, cell by cell."""

    def __init__(self, sim, text, font, size) -> None:
        self.sim, self.font, self.size = sim, font, size
        try:
            root = ET.fromstring(text.strip())
        except ET.ParseError as exc:
            sim.fail("malformed", f"an SVG export is not well formed: {exc}")
        self.dims = (float(root.get("width")), float(root.get("height")))
        self.rules: dict[str, dict] = {}
        for sheet in root.iter(NS + "style"):
            for name, body in RULE_RE.findall(sheet.text or ""):
                rules = self.rules.setdefault(name, {})
                for rule in body.split(";"):
                    if ":" in rule:
                        key, val = rule.split(":", 1)
                        rules[key.strip()] = val.strip()
        self.texts: dict = {}
        self.backs: dict = {}
        self.extra = []
        self.walk(root, (0.0, 0.0))

    def walk(self, node, offset) -> None:
        for child in node:
            at = offset
            match = re.fullmatch(r"translate\(\s*([-\d.]+)[\s,]+([-\d.]+)\s*\)", child.get("transform") or "")
            if match:
                at = (offset[0] + float(match[1]), offset[1] + float(match[2]))
            if child.tag == NS + "rect":
                self.rect(child, at)
            elif child.tag == NS + "text":
                self.text(child, at)
            self.walk(child, at)

    def column(self, x: float) -> int:
        return round((x - MARGIN) / (self.font * CELL_WIDTH))

    def row(self, y: float) -> int:
        return round((y - MARGIN) / (self.font * CELL_HEIGHT))

    def rect(self, node, at) -> None:
        x, y = at[0] + float(node.get("x") or 0), at[1] + float(node.get("y") or 0)
        fill = rgb(node.get("fill"))
        if fill is None:
            self.sim.fail("color", f"an SVG export fills a rectangle with {node.get('fill')!r}")
        if (x, y) == (0.0, 0.0):  # the window itself
            self.backs = {(col, row): fill for col in range(self.size[0]) for row in range(self.size[1])}
            return
        first, row = self.column(x), self.row(y)
        count = int((float(node.get("width")) - 0.4) / (self.font * CELL_WIDTH) + 0.5)
        for col in range(first, first + count):
            self.backs[col, row] = fill

    def text(self, node, at) -> None:
        x, y = at[0] + float(node.get("x") or 0), at[1] + float(node.get("y") or 0) - self.font
        look = {"fill": node.get("fill")}
        for name in (node.get("class") or "").split():
            look.update(self.rules.get(name, {}))
        for rule in (node.get("style") or "").split(";"):
            if ":" in rule:
                key, val = rule.split(":", 1)
                look[key.strip()] = val.strip()
        col, row = self.column(x), self.row(y)
        for char in "".join(node.itertext()):
            if char == "\xa0":
                char = " "
            if not (0 <= col < self.size[0] and 0 <= row < self.size[1]):
                self.extra.append((char, col, row))
            elif char != " " or (col, row) not in self.texts:
                self.texts[col, row] = (char, look)
            col += 1


def differences(image, model, fore, back):
    """The first thing the image and the canvas disagree about, or None."""

    width, height = model.size
    want = (width * CELL_WIDTH * image.font + 2 * MARGIN, height * CELL_HEIGHT * image.font + 2 * MARGIN)
    if any(abs(a - b) > 1.0 for a, b in zip(want, image.dims)):
        return f"the image measures {image.dims}, {model.size} cells take {want}"
    if image.extra:
        return f"{image.extra[0]} lies outside the {model.size} screen"
    white = {fore, (255, 255, 255)}
    for y, row in enumerate(model.cells):
        for x, cell in enumerate(row):
            char, look = image.texts.get((x, y), (" ", {}))
            if char != cell.ch:
                return f"cell {(x, y)} shows {char!r}, written was {cell!r}"
            fg = white if cell.fg in WHITES else {value(cell.fg)}
            bg = {back} if cell.bg is None else {value(cell.bg)}
            if "invert" in cell.styles:
                fg, bg = bg, fg
            if cell.bg is not ANYBG and image.backs.get((x, y)) not in bg:
                return f"cell {(x, y)} has the background {image.backs.get((x, y))}, not {bg}: written was {cell!r}"
            decorated = set((look.get("text-decoration") or "").split()) - {"none"}
            due = {DECORATIONS[name] for name in cell.styles & set(DECORATIONS)}
            if decorated != due:
                return f"cell {(x, y)} is decorated with {decorated}: written was {cell!r}"
            if cell.ch == " " and not due or "conceal" in cell.styles:
                continue
            if rgb(look.get("fill")) not in fg:
                return f"cell {(x, y)} is drawn in {look.get('fill')}, not {fg}: written was {cell!r}"
            if (look.get("font-weight", "normal") == "bold") != ("bold" in cell.styles):
                return f"cell {(x, y)} has the weight {look.get('font-weight')}: written was {cell!r}"
            if (look.get("font-style", "normal") == "italic") != ("italic" in cell.styles):
                return f"cell {(x, y)} has the style {look.get('font-style')}: written was {cell!r}"
            if (float(look.get("opacity", 1)) < 1) != ("dim" in cell.styles):
                return f"cell {(x, y)} has the opacity {look.get('opacity')}: written was {cell!r}"
    return None


def export(w, s, slate) -> None:
    """Exports, perhaps while the window changes size, and compares."""

    c, sim = w.c, w.sim
    kwargs = {}
    font = 15
    if c.chance(1, 4):
        font = kwargs["font_size"] = c.pick([10, 20, 7, 13, 40])
    fore, back = s.term.foreground_color, s.term.background_color
    if c.chance(1, 6):
        fore = kwargs["default_foreground"] = slate.color("#%02x%02x%02x" % (c.draw(256), c.draw(256), 77))
    if c.chance(1, 6):
        back = kwargs["default_background"] = slate.color("#%02x%02x%02x" % (c.draw(256), 77, c.draw(256)))
    moments = [copy.deepcopy(s.model)]
    queried = w.on_size_query
    changes = c.draw(3) if c.chance(1, 8) else -1

    def watch():
        nonlocal changes
        if changes == 0:
            sim.fire("resized_during_export")
            s.env_resize()
        changes -= 1
        queried()
        moments.append(copy.deepcopy(s.model))

    w.on_size_query = watch
    before = len(s.emu.history), len(s.emu.printed), s.out.buffer_text, s.term.cursor
    sim.log(f"export_svg {kwargs}")
    got = w.api("export_svg", s.term.export_svg, **kwargs)
    w.on_size_query = queried
    if before != (len(s.emu.history), len(s.emu.printed), s.out.buffer_text, s.term.cursor):
        sim.fail("export", "an SVG export wrote to the terminal or moved the cursor")
    found = []
    for model in moments:
        image = Image(sim, got, font, model.size)
        wrong = differences(image, model, tuple(fore.rgb), tuple(back.rgb))
        if wrong is None:
            return
        found.append(wrong)
    sim.fail("shows", f"an SVG export does not show the screen: {found[-1]}")


def execute(w):
    c = w.c
    slate = load_slate(w)
    s = Session(w, slate, origin=w.cfg_origin)
    faults = Faults(w, s.out)
    table = [(6, "write"), (4, "export"), (1 + c.draw(3), "bulk"), (c.draw(2), "clear"), (1, "draw"),
             (c.pick([0, 0, 1, 3]), "resize"), (1, "size"), (c.draw(2), "cursor")]
    table = [pair for pair in table if pair[0]]
    wrote = compared = 0
    for _ in range(c.rounds(3, 16, w.size[0] * w.size[1] < 100)):
        c.begin()
        op = c.weighted(table)
        if op == "write":
            s.op_write()
            wrote += 1
        elif op == "bulk":
            s.op_bulk()
            wrote += 1
        elif op == "clear":
            s.op_clear()
        elif op == "resize":
            s.env_resize()
        elif op == "size":
            s.op_size()
        elif op == "cursor":
            s.op_cursor()
        elif op == "draw":
            if c.chance(1, 4):
                faults.arm(c)
            try:
                s.op_draw(redraw=c.chance(1, 4), allow=(BaseException,))
            except BaseException as exc:  # pylint: disable=broad-except
                if exc is not faults.raised:
                    raise
            faults.disarm()
        else:
            export(w, s, slate)
            compared += wrote > 0
        c.end()
    c.begin()
    export(w, s, slate)
    s.op_size()
    s.op_draw()
    s.check_display("draw after the exports")
    c.end()
    return wrote > 0
