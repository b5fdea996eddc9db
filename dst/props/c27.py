"""C27: a write or clear that is cut short leaves the screen consistent."""

from ..display import Session, build_world
from ..kernel import HarnessError, SimKilled, Violation
from ..loader import load_with_points

RULE = ("random histories of writes, bulk writes, clears, resizes and draws in which writes and clears are "
        "cut short: by an interrupt or a time limit before a random statement of the library, or by the "
        "data they are given (an iterable that raises); often the same call is made again. Non-trivial: a "
        "call was cut short and two later draws were compared cell by cell")
REAL = ["slate.terminal", "slate.screen", "slate.span", "slate.color", "slate.event"]
STUBS = ["terminal (emulator)", "window size", "output stream", "signals (raised between statements)"]


class Either:
    """A cell that was covered by a call which did not complete."""

    def __init__(self, cells) -> None:
        self.cells = cells
        self.rep = object()

    def accepts(self, real) -> bool:
        return any(cell.accepts(real) for cell in self.cells)

    def __repr__(self) -> str:
        return " or ".join(map(repr, self.cells))


def either(old, new):
    cells = [*(old.cells if isinstance(old, Either) else [old]), *(new.cells if isinstance(new, Either) else [new])]
    return Either(cells)


class Cut(Exception):
    """What a time limit or the program's own handler raises."""


ERRORS = [KeyboardInterrupt, Cut, ValueError, RuntimeError, IndexError, KeyError, TypeError, AttributeError, OSError,
          UnicodeError, ZeroDivisionError, EOFError, TimeoutError, NotImplementedError, AssertionError, SystemExit]


class Session27(Session):
    def begin(self) -> None:
        self.before = [list(row) for row in self.model.cells]

    def mix(self) -> None:
        """The last call did not complete: each cell it changed is as before or as it was to be."""

        for y, row in enumerate(self.model.cells):
            for x, cell in enumerate(row):
                old = self.before[y][x]
                if old is not cell:
                    row[x] = either(old, cell)

    def settle(self) -> None:
        """After a draw: what the display shows is what the cell holds."""

        ox, oy = self.origin[0] - 1, self.origin[1] - 1
        for y, row in enumerate(self.model.cells):
            for x, cell in enumerate(row):
                if isinstance(cell, Either):
                    real = self.emu.grid[y + oy][x + ox]
                    row[x] = [one for one in cell.cells if one.accepts(real)][-1]

    def lay_out(self, data) -> None:
        model = self.model
        layer: dict = {}
        for pos, items in data:
            model.lay(pos, items, layer)
        for (x, y), cell in layer.items():
            model.cells[y][x] = cell


def build(c):
    w, origin = build_world(c)
    w.cfg_origin = origin
    return w


def raising(data, after, error):
    """The data as an iterable that raises instead of ending."""

    for number, span in enumerate(data):
        if number >= after:
            break
        yield span
    raise error


def execute(w):
    c, sim = w.c, w.sim
    slate, points = load_with_points(w)
    s = Session27(w, slate, origin=w.cfg_origin)
    model = s.model
    last = None  # the call that was cut short
    lost = False  # where the cursor is, is not known
    cuts = compared = 0
    usual = {"write": 200, "bulk": 300, "clear": 60, "size": 60}

    def perform(op, plan):
        """Makes one call, perhaps cut short; returns whether it completed."""

        nonlocal cuts
        error = None
        data, kwargs = plan
        at = None
        kind = c.weighted([(5, None), (4, "between"), (1, "data")])
        if kind == "between":
            error = c.pick([KeyboardInterrupt, Cut, SystemExit, TimeoutError])()
            at = c.draw(usual[op] + 4)
        elif kind == "data" and op != "clear":
            error = c.pick(ERRORS)("from the data")
        s.begin()
        if op == "clear":
            call = (s.term.clear, kwargs["fill"])
            options = {}
        else:
            forms = [s.as_data(items) for _, items in data]
            described = [(pos, items) for (pos, _), (_, items) in zip(data, forms)]
            values = [form for form, _ in forms]
            if error is not None and at is None:
                which = c.draw(len(values))
                if isinstance(values[which], (str, slate.Span)):
                    values[which] = [s.maker.span(item) for item in data[which][1]]
                    described[which] = data[which]
                values[which] = raising(list(values[which]), c.draw(4), error)
            data = described
            if op == "write":
                call = (s.term.write, values[0])
                options = {"cursor": data[0][0], **kwargs}
            else:
                call = (s.term.write_bulk, [(pos, value) for (pos, _), value in zip(data, values)])
                options = kwargs
        sim.log(f"{op} {data!r} {kwargs} " + (f"interrupted at {at}" if at is not None else
                                              f"data raises {error!r}" if error else ""))

        def strike():
            sim.fire("interrupt_between_statements")
            sim.fire(type(error).__name__)
            raise error

        points.what, points.at = strike, at
        start = points.count
        done = True
        try:
            w.api(op, *call, allow=(BaseException,), **options)
        except (Violation, SimKilled, HarnessError):
            raise
        except BaseException as exc:  # pylint: disable=broad-except
            if error is None:
                sim.fail("raised", f"{op} raised {exc!r}")
            if exc is not error:
                sim.fail("error_changed", f"{op} raised {exc!r} where {error!r} was raised in it")
            done = False
        finally:
            fired, points.at = points.at is None, None
        if done:
            usual[op] = points.count - start
            if error is not None and (at is None or fired):
                sim.fail("error_swallowed", f"{op} returned although {error!r} was raised in it")
        if op == "clear":
            model.clear(kwargs["fill"])
        else:
            s.lay_out(data)
        if not done:
            cuts += 1
            s.mix()
            if at is None:
                sim.fire("data_raises")
        return done

    def query():
        """A size query that is cut short."""

        nonlocal cuts
        error = c.pick([KeyboardInterrupt, Cut, SystemExit, TimeoutError])()

        def strike():
            sim.fire("interrupted_size_query")
            raise error

        which, at = c.pick(["size", "width", "height"]), c.draw(usual["size"] + 2)
        sim.log(f"query {which}, interrupted at {at}")
        points.what, points.at = strike, at
        start = points.count
        try:
            w.api(which, lambda: getattr(s.term, which), allow=(BaseException,))
        except (Violation, SimKilled, HarnessError):
            raise
        except BaseException as exc:  # pylint: disable=broad-except
            if exc is not error:
                sim.fail("raised", f"{which} raised {exc!r}")
            cuts += 1
        else:
            usual["size"] = points.count - start
            if points.at is None:
                sim.fail("error_swallowed", f"{which} returned although {error!r} was raised in it")
        finally:
            points.at = None

    for _ in range(c.rounds(3, 22, w.size[0] * w.size[1] < 100)):
        c.begin()
        op = c.weighted([(6, "write"), (3, "bulk"), (2, "clear"), (5, "draw"), (1, "redraw"), (1, "resize"),
                         (1, "cursor"), *([(4, "again")] if last else [])])
        if op in ("write", "bulk", "clear", "again"):
            if op == "again":
                op, plan, size = last
                sim.probe("again")
                if size != model.size:
                    op, plan = "clear", ([], {"fill": "X"})
            elif op == "clear":
                plan = ([], {"fill": c.pick([" ", "X"])})
            else:
                force = {"force_overwrite": True} if c.chance(1, 8) else {}
                count = 1 if op == "write" else c.between(1, 4)
                plan = ([(s.position(False), s.items()) for _ in range(count)], force)
                if op == "write" and not lost and s.cursor_ok() and c.chance(1, 4):
                    plan = ([(model.cursor, plan[0][0][1])], force)
            if perform(op, plan):
                last, lost = None, False
            else:
                last, lost = (op, plan, model.size), True
        elif op == "resize":
            s.env_resize()
            if c.chance(1, 2):
                query()
                if c.chance(1, 3):
                    s.op_draw(redraw=c.chance(1, 2))
            s.op_size()
        elif op == "cursor":
            s.op_cursor()
            lost = False
        else:
            s.op_draw(redraw=op == "redraw")
            s.check_display(op)
            s.settle()
            compared += cuts > 0
        if not lost:
            got = tuple(s.term.cursor)
            if got != tuple(model.cursor):
                sim.fail("cursor", f"after {op} the cursor is {got}, expected {model.cursor}")
        c.end()
    c.begin()
    for what in ("draw", "redraw"):
        s.op_draw(redraw=what == "redraw")
        s.check_display("final " + what)
        s.settle()
        compared += cuts > 0
    c.end()
    return cuts > 0 and compared >= 2
