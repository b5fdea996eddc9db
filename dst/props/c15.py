"""C15: emitting an event reaches every listener once, in order."""

import functools

from ..kernel import HarnessError, SimKilled, Violation
from ..loader import load_slate
from ..seams import SimThread
from ..world import World

RULE = ("one to four threads register listeners, emit and clear one event, whose listeners themselves "
        "register, emit, clear, raise and wait; the scheduler may switch threads at every source line "
        "of the library and at every step of a listener. The recorded history is checked against the "
        "real-time order of registrations, clears and emissions. Non-trivial: a registration, clear "
        "or emission overlapped an emission")
REAL = ["slate.event"]
STUBS = ["threads", "locks", "clock"]

MAX_CALLS = 40  # more than what was registered by others than the emission's own listeners


class Boom(Exception):
    pass


ERRORS = [Boom, ValueError, RuntimeError, KeyError, IndexError, TypeError, AttributeError, StopIteration, OSError,
          AssertionError, KeyboardInterrupt, SystemExit, GeneratorExit, TimeoutError, NotImplementedError]


def build(c):
    return World(c, (4, 2), preempt=c.pick(["line", "call"]))


class Falsy:
    def __bool__(self) -> bool:
        return False


class Alike(Falsy):
    """A callable that is false and equal to any other of its kind."""

    def __init__(self, fn) -> None:
        self.fn = fn

    def __call__(self, data):
        return self.fn(data)

    def __eq__(self, other) -> bool:
        return isinstance(other, Alike)

    def __hash__(self) -> int:
        return 7


FORMS = (lambda fn: fn, lambda fn: fn, functools.partial, Alike, lambda fn: Alike(fn).__call__)


class History:
    def __init__(self, w, event) -> None:
        self.w, self.c, self.sim, self.event = w, w.c, w.sim, event
        self.tick = 0
        self.regs: list[dict] = []
        self.clears: list[dict] = []
        self.emissions: list[dict] = []
        self.budget = self.c.between(0, 14)
        self.running: list[dict] = []
        self.overlaps = 0

    def now(self) -> int:
        self.tick += 1
        return self.tick

    # -- operations ------------------------------------------------------------------------------

    def register(self, again=None) -> None:
        c = self.c
        reg = {"id": len(self.regs), "start": None, "end": None, "calls": {},
               "inside": [e["id"] for e in self.running if e["task"] is self.sim.cur]}
        self.regs.append(reg)
        if again is not None:
            reg["fn"], reg["ids"] = again["fn"], again["ids"]
            reg["ids"].append(reg["id"])
        else:
            ids = reg["ids"] = [reg["id"]]
            plan = [c.weighted([(6, None), (2, "register"), (2, "emit"), (1, "clear"), (1, "raise"),
                                (2, "wait"), (1, "self")]) for _ in range(c.between(1, 3))]
            answer = c.pick([None, True, False])

            def listener(data):
                return self.called(ids, plan, answer, data)

            reg["fn"] = FORMS[c.draw(len(FORMS))](listener)
        event = self.event
        how = c.draw(2)
        self.note_overlap()
        reg["start"] = self.now()
        self.sim.log(f"register {reg['id']}{' (again ' + str(reg['ids'][0]) + ')' if again else ''}")
        if how:
            back = self.w.api("append", event.append, reg["fn"])
            if back is not reg["fn"]:
                self.sim.fail("decorator", f"append returned {back!r} instead of the listener")
        else:
            def add():
                nonlocal event
                event += reg["fn"]

            self.w.api("+=", add)
            if event is not self.event:
                self.sim.fail("replaced", "+= gave a different event")
        reg["end"] = self.now()
        self.sim.log(f"registered {reg['id']}")

    def wrong(self) -> None:
        event = self.event
        try:
            event += self.c.pick([None, "listener", 3])
        except (ValueError, TypeError):
            self.sim.fire("not_callable")
        else:
            self.sim.fail("wrong", "+= took something that cannot be called")

    def clear(self) -> None:
        clear = {"start": self.now(), "end": None,
                 "inside": [e["id"] for e in self.running if e["task"] is self.sim.cur]}
        self.note_overlap()
        self.clears.append(clear)
        self.sim.log("clear")
        self.w.api("clear", self.event.clear)
        clear["end"] = self.now()
        self.sim.log("cleared")

    def note_overlap(self) -> None:
        if self.running:
            self.overlaps += 1

    def emit(self) -> None:
        sim = self.sim
        c = self.c
        token = (Falsy() if c.chance(1, 2) else c.pick([None, False, 0, "", (), [], True, "x", ValueError])) \
            if c.chance(1, 3) else object()
        emission = {"id": len(self.emissions), "start": None, "end": None, "calls": [], "raised": None,
                    "token": token, "task": sim.cur, "true": False, "got": None}
        self.emissions.append(emission)
        self.note_overlap()
        self.running.append(emission)
        sim.log(f"emit {emission['id']}")
        emission["start"] = self.now()
        error = None
        try:
            emission["got"] = self.event(token)
        except (Violation, SimKilled, HarnessError):
            raise
        except BaseException as exc:  # pylint: disable=broad-except
            error = exc
        emission["end"] = self.now()
        self.running.remove(emission)
        sim.log(f"emitted {emission['id']} -> {emission['got']!r} {type(error).__name__ if error else ''}")
        if error is not emission["raised"]:
            if emission["raised"] is None:
                sim.fail("raised", f"emitting raised {type(error).__name__}: {error}")
            sim.fail("exception", f"a listener raised {emission['raised']!r}, the emitter got {error!r}")
        if error is None and bool(emission["got"]) != emission["true"]:
            sim.fail("result", f"emission {emission['id']} returned {emission['got']!r}, "
                               f"{'a' if emission['true'] else 'no'} listener returned True")
        self.check_one(emission)

    # -- listeners -------------------------------------------------------------------------------

    def called(self, ids, plan, answer, data):
        sim, c = self.sim, self.c
        emission = next((e for e in reversed(self.running) if e["token"] is data and e["task"] is sim.cur), None)
        emission = emission or next((e for e in self.emissions if e["token"] is data), None)
        if emission is None:
            sim.fail("data", f"listener {ids[0]} was given {data!r}, which nobody emitted")
        if emission["task"] is not sim.cur or emission not in self.running:
            sim.fail("data", f"listener {ids[0]} was called for emission {emission['id']}, which is not "
                             f"in progress here")
        calls = emission["calls"]
        calls.append((ids[0], self.now()))
        sim.log(f"listener {ids[0]} called by {emission['id']}")
        others = sum(emission["id"] not in reg["inside"] for reg in self.regs)
        if len(calls) > others + MAX_CALLS:
            sim.fail("endless", f"emission {emission['id']} made {len(calls)} calls and goes on")
        mine = [e for e in self.running if e["task"] is sim.cur]
        act = plan[min(len(calls) - 1, len(plan) - 1)] if self.budget > 0 else None
        if act is not None:
            self.budget -= 1
            if act == "register":
                self.register()
            elif act == "self":
                own = self.regs[ids[0]]
                self.register(again=own)
                self.budget += 1 if len(calls) > 3 and len(self.regs) < 120 else 0
            elif act == "emit":
                if len(mine) < 3:
                    inner = len(self.emissions)
                    self.emit()
                    if self.emissions[inner]["raised"] is not None:
                        sim.probe("inner_raised")
            elif act == "clear":
                self.clear()
            elif act == "wait":
                sim.sleep(c.pick([0, 10]))
                sim.yield_()
            elif act == "raise":
                sim.fire("listener_raises")
                emission["raised"] = c.pick(ERRORS)(f"listener {ids[0]}")
                sim.log("raises")
                raise emission["raised"]
        if answer is True:
            emission["true"] = True
        return answer

    # -- oracle ----------------------------------------------------------------------------------

    def check_one(self, emission) -> None:
        sim = self.sim
        start, end = emission["start"], emission["end"]
        counts: dict[int, int] = {}
        for ident, _ in emission["calls"]:
            counts[ident] = counts.get(ident, 0) + 1
        groups: dict[int, list[dict]] = {}
        for reg in self.regs:
            groups.setdefault(reg["ids"][0], []).append(reg)
        raised = emission["raised"] is not None
        for ident, regs in groups.items():
            must = may = 0
            for reg in regs:
                state = self.state(reg, emission, start, end)
                must += state == "must"
                may += state in ("must", "may")
            got = counts.get(ident, 0)
            if got > may:
                sim.fail("too_often", f"emission {emission['id']} called listener {ident} {got} times, "
                                      f"at most {may} registrations were there")
            if got < must and not raised:
                sim.fail("missed", f"emission {emission['id']} called listener {ident} {got} times, "
                                   f"{must} registrations were there before it started")
        # order among listeners that are registered once
        single = {ident: regs[0] for ident, regs in groups.items() if len(regs) == 1}
        last = None
        for ident, _ in emission["calls"]:
            reg = single.get(ident)
            if reg is None:
                continue
            if last is not None and reg["end"] is not None and reg["end"] < last["start"]:
                sim.fail("order", f"emission {emission['id']} called listener {last['id']} before "
                                  f"{reg['id']}, which was registered earlier")
            last = reg
        if raised:
            # whoever was registered before the one that raised has been called
            culprit = emission["calls"][-1][0]
            for ident, reg in single.items():
                bound = single.get(culprit)
                if bound is None or reg["end"] is None or not reg["end"] < bound["start"]:
                    continue
                if self.state(reg, emission, start, end) == "must" and not counts.get(ident):
                    sim.fail("missed", f"emission {emission['id']} skipped listener {ident}")

    def state(self, reg, emission, start, end) -> str:
        """Whether the emission must, may or must not call this registration."""

        if reg["start"] is None or reg["start"] > end:
            return "not"
        answer = "must" if reg["end"] is not None and reg["end"] < start else "may"
        for clear in self.clears:
            if clear["end"] is not None and clear["end"] < reg["start"]:
                continue  # cleared before it was registered
            if clear["start"] > end:
                continue
            if emission["id"] in clear["inside"]:
                continue  # cleared by a listener of this emission: too late to matter
            if clear["end"] is not None and clear["end"] < start and reg["end"] is not None \
                    and reg["end"] < clear["start"]:
                return "not"
            answer = "may"
        return answer


def execute(w):
    c, sim = w.c, w.sim
    slate = load_slate(w)
    event = w.api("Event()", slate.Event, "test")
    history = History(w, event)
    # another event of the same name: the two know nothing of each other
    other = w.api("Event()", slate.Event, c.pick(["test", "other"]))
    told: list[object] = []
    has_listener = c.chance(1, 2)
    if has_listener:
        w.api("append", other.append, told.append)
    for _ in range(c.rounds(0, 3)):
        c.begin()
        history.register()
        c.end()
    table = [(4, "register"), (4, "emit"), (1, "again"), (c.pick([0, 0, 1]), "clear"), (1, "wait"),
             (c.pick([0, 1]), "wrong")]
    table = [item for item in table if item[0]]

    def step() -> None:
        op = c.weighted(table)
        if op == "register":
            history.register()
        elif op == "again":
            done = [reg for reg in history.regs if reg["end"] is not None]
            if done:
                history.register(again=c.pick(done))
        elif op == "emit":
            history.emit()
        elif op == "clear":
            history.clear()
        elif op == "wrong":
            history.wrong()
        else:
            sim.sleep(c.pick([0, 10]))

    def body():
        for _ in range(c.rounds(1, 5)):
            c.begin()
            step()
            c.end()

    threads = [SimThread(target=body, name="worker") for _ in range(c.between(0, 3))]
    for thread in threads:
        thread.start()
    body()
    for thread in threads:
        thread.join()
        if thread._task.error is not None:
            raise thread._task.error
    if told or bool(other) != has_listener:
        sim.fail("bystander", f"another event's listener was told {told}" if told else
                 f"another event {'lost its' if has_listener else 'was given a'} listener")
    # nothing runs any more: every registration that was not cleared is there
    history.budget = 0
    history.emit()
    final = history.emissions[-1]
    present = bool(final["calls"])
    if bool(event) != present:
        sim.fail("bool", f"the event says it has {'' if bool(event) else 'no '}listeners, the emission "
                         f"called {len(final['calls'])}")
    if c.chance(1, 3):
        history.clear()
        history.emit()
        if bool(event):
            sim.fail("bool", "a cleared event says it has listeners")
    return history.overlaps > 0
