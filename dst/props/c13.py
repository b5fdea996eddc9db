"""C13: a colour space change governs everything written after it."""

import os

from ..display import WHITE, Maker, Palette, styled_string
from ..loader import load_slate
from ..world import ENV_NAMES, World

RULE = ("random histories of colour space overrides and removals, environment changes, writes of spans "
        "and colours that are shared across changes or new, opaque and translucent, bulk writes, "
        "resizes, draws and redraws; every printed cell is checked for the kind of colour codes that "
        "were in force when it was written. Non-trivial: a colour object used before a change was "
        "used after it and its cell was printed")
REAL = ["slate.terminal", "slate.screen", "slate.span", "slate.color", "slate.event", "slate.core"]
STUBS = ["terminal (emulator)", "window size", "output stream", "environment variables"]

SPACES = ("true_color", "eight_bit", "standard", "no_color")


class Oops(Exception):
    """A listener's own failure."""


def build(c):
    w = World(c, (c.between(2, 10), c.between(1, 4)))
    w.emu.tag_codes = True
    return w


class Env:
    """The environment variables that decide the colour space when nothing overrides it."""

    CASES = [
        ({"TERM": "xterm", "COLORTERM": "truecolor"}, "true_color"),
        ({"TERM": "xterm-256color", "COLORTERM": "24bit"}, "true_color"),
        ({"TERM": "xterm-256color"}, "eight_bit"),
        ({"TERM": "xterm"}, "standard"),
        ({"TERM": "xterm", "COLORTERM": "truecolor", "NO_COLOR": "1"}, "no_color"),
        ({"TERM": "xterm", "COLORTERM": "truecolor", "SLATE_COLORSYS": "eight_bit"}, "eight_bit"),
        ({"TERM": "xterm-256color", "SLATE_COLORSYS": "standard"}, "standard"),
        ({"TERM": "xterm", "NO_COLOR": "1", "SLATE_COLORSYS": "true_color"}, "true_color"),
        ({}, "standard"),
        ({"TERM": "dumb"}, "standard"),
        ({"TERM": "xterm", "COLORTERM": "TrueColor"}, "true_color"),
        ({"TERM": "xterm-256color", "SLATE_COLORSYS": "NO_COLOR"}, "no_color"),
        ({"TERM": "xterm-256color", "COLORTERM": ""}, "eight_bit"),
    ]

    def __init__(self, w) -> None:
        self.w = w
        self.use(0)

    def use(self, number: int) -> None:
        values, self.space = self.CASES[number]
        for name in ENV_NAMES:
            os.environ.pop(name, None)
        os.environ.update(values)
        self.w.sim.log(f"environment {values}")


def fits(value, spec, space: str) -> str | None:
    """None, or what is wrong with showing a colour written as `spec` as `value` in `space`."""

    if value is None:
        return None if spec is None else "no colour was sent"
    kind = value[0]
    if space == "standard" and kind != "16":
        return "not one of the 16 standard codes"
    if space == "no_color" and not (kind == "256" and 232 <= value[1] <= 255):
        return "not a greyscale palette entry"
    if space == "eight_bit" and kind == "rgb":
        return "a 24-bit code"
    if spec in (None, "any"):
        return None
    if spec[0] == "std" and space in ("standard", "eight_bit", "true_color") and value != ("16", spec[1]):
        return "not the standard colour that was given"
    if spec[0] == "idx" and space in ("eight_bit", "true_color") and value != ("256", spec[1]):
        return "not the palette colour that was given"
    if spec[0] == "rgb":
        if space == "true_color" and value != spec:
            return "not the colour that was given"
        if space == "eight_bit" and kind != "256":
            return "not a code of the 256 colour palette"
    return None


def execute(w):
    c, sim = w.c, w.sim
    env = Env(w)
    slate = load_slate(w)
    term = slate.terminal
    emu = w.emu
    palette, maker = Palette(c), Maker(slate, c)
    if palette.std == 15:  # as white as no foreground is: equal colours need not be sent again
        palette.std = 14
    pool: list = []  # spans that live on
    cells: dict = {}  # position -> [fg, bg, text, epoch, space]
    state = {"epoch": 0, "forced": None}
    heard: list = []
    expected: list = []
    listeners = 0
    reused = shown = 0
    size = w.size

    def space() -> str:
        return state["forced"] or env.space

    def change() -> None:
        state["epoch"] += 1
        got = w.api("color_space", lambda: term.color_space)
        if getattr(got, "value", got) != space():
            sim.fail("space", f"color_space is {got}, due is {space()}")

    def listen() -> None:
        nonlocal listeners
        number = listeners
        listeners += 1

        faulty = c.chance(1, 8)

        def listener(value):
            heard.append((number, value))
            got = term.color_space
            if getattr(got, "value", got) != space():
                sim.fail("space", f"color_space is {got} when {value} is announced")
            if faulty:
                sim.fire("listener_raises")
                raise Oops
            return True

        if c.chance(1, 2):
            term.on_color_space_set += listener
        else:
            term.on_color_space_set.append(listener)

    def new_span():
        fg, bg = palette.spec(c), palette.spec(c)
        text = c.pick(["x", "ab", "#", "..", "hello"])
        fore, back = maker.color(fg, False), maker.color(bg, True)
        if back is not None and c.chance(1, 8):
            back, bg = back.as_alpha(c.pick([0.25, 0.5, 0.75])), "any"
        styles = {"bold": True} if c.chance(1, 4) else {}
        span = slate.Span(text, foreground=fore, background=back, **styles)
        if c.chance(1, 4):  # uses the colours right away
            str(span)
        return [span, text, fg, bg, state["epoch"]]

    def get_span():
        nonlocal reused
        if pool and c.chance(2, 3):
            item = c.pick(pool)
            if item[4] != state["epoch"]:
                reused += 1
                sim.probe("span_from_before")
            form = c.draw(4)
            span, text = item[0], item[1]
            if form == 1:
                text = c.pick(["zz", "q"])
                span = span.mutate(text=text)
            elif form == 2 and len(text) > 1:
                span, text = span[1:], text[1:]
            return [span, text, item[2], item[3], state["epoch"]]
        item = new_span()
        pool.append(item)
        return item

    def lay(pos, items, layer) -> None:
        x, y = pos
        for _, text, fg, bg, _ in items:
            for ch in text:
                if x >= size[0] or y >= size[1]:
                    break
                layer[x, y] = [fg, bg, ch, state["epoch"], space()]
                x += 1
                if x >= size[0]:
                    x, y = 0, y + 1

    def write(bulk: bool) -> None:
        layer: dict = {}
        data = []
        for _ in range(c.between(1, 3) if bulk else 1):
            items = [get_span() for _ in range(c.between(1, 2))]
            pos = (c.draw(size[0]), c.draw(size[1]))
            form = [item[0] for item in items]
            if c.chance(1, 6) and all(item[3] != "any" for item in items):
                form = styled_string(c, [(text, fg, bg, (), True) for _, text, fg, bg, _ in items])
                sim.probe("styled_string")
            data.append((pos, form))
            before = dict(layer)
            lay(pos, items, layer)
            for at, cell in layer.items():
                if before.get(at) is not cell and (at in before) and cell[1] == "any":
                    cell[0] = "any"  # what shows through may tint it
        force = c.chance(1, 4)
        sim.log(f"write{'_bulk' if bulk else ''} {[(p, s if isinstance(s, str) else [(i.text, i.foreground, i.background) for i in s]) for p, s in data]} force={force}")
        if bulk:
            w.api("write_bulk", term.write_bulk, data, force_overwrite=force)
        else:
            w.api("write", term.write, data[0][1], cursor=data[0][0], force_overwrite=force)
        for at, cell in layer.items():
            old = cells.get(at)
            if old is not None and not force and old[3] != cell[3]:
                # content that is already there need not be sent again
                same = [old[0], old[1], old[2]] == [cell[0], cell[1], cell[2]]
                if same or "any" in (old[0], old[1], cell[0], cell[1]) or close(old, cell):
                    cell[3] = -1
            cells[at] = cell

    def close(one, other) -> bool:
        """Colours may be equal in value though given differently."""

        return one[2] == other[2] and all(
            None in pair or pair[0] == pair[1]
            for pair in ((value(one[i]), value(other[i])) for i in (0, 1)))

    def value(spec):
        """None: could be anything."""

        if spec is None or spec == "any":
            return WHITE
        if spec[0] == "rgb":
            return spec
        index = spec[1]
        if index < 16:
            return None
        if index >= 232:
            return ("rgb",) + (8 + 10 * (index - 232),) * 3
        steps = (0, 95, 135, 175, 215, 255)
        index -= 16
        return ("rgb", steps[index // 36], steps[index // 6 % 6], steps[index % 6])

    def draw() -> None:
        nonlocal shown
        emu.printed = []
        redraw = c.chance(1, 4)
        sim.log(f"draw redraw={redraw}")
        w.api("draw", term.draw, redraw=redraw)
        for x, y in emu.printed:
            cell = cells.get((x, y))
            if cell is None or cell[3] != state["epoch"]:
                continue
            _, fg, bg, _ = emu.grid[y][x]
            for layer, got, spec in (("foreground", fg, cell[0]), ("background", bg, cell[1])):
                wrong = fits(got, spec, cell[4])
                if wrong:
                    sim.fail("codes", f"{layer} {spec} of cell {(x, y)} was written in {cell[4]} and "
                                      f"sent as {got}: {wrong}")
            shown += 1
        if emu.unknown:
            sim.fail("codes", f"sent what no terminal knows: {emu.unknown[:3]}")

    if c.chance(1, 2):
        listen()
    for _ in range(c.rounds(4, 24)):
        c.begin()
        op = c.weighted([(6, "write"), (4, "draw"), (3, "space"), (1, "env"), (2, "bulk"), (1, "listen"),
                         (1, "clear"), (1, "resize")])
        if op == "write":
            write(False)
        elif op == "bulk":
            write(True)
        elif op == "draw":
            draw()
        elif op == "listen":
            listen()
        elif op == "space":
            new = c.pick(SPACES + (None,))
            sim.log(f"color_space = {new}")
            given = None if new is None else slate.ColorSpace(new)
            heard.clear()
            state["forced"] = new

            def assign():
                term.color_space = given

            raised = False
            try:
                w.api("color_space", assign, allow=(Oops,))
            except Oops:
                raised = True
            due = [(number, given) for number in range(listeners)]
            called = [n for n, _ in heard]
            if called != list(range(len(heard) if raised else listeners)) or any(
                    got is not given for _, got in heard):
                sim.fail("announced", f"{new} was announced as {heard}, due {due}")
            change()
        elif op == "env":
            env.use(c.draw(len(Env.CASES)))
            change()
        elif op == "clear":
            w.api("clear", term.clear)
            cells.clear()
        else:
            size = (c.between(2, 10), c.between(1, 4))
            w.resize(size, garble=False)
            w.api("size", lambda: term.size)
            for at in [at for at in cells if at[0] >= size[0] or at[1] >= size[1]]:
                del cells[at]
        c.end()
    c.begin()
    write(False)
    draw()
    c.end()
    expected.clear()
    return reused > 0 and shown > 0
