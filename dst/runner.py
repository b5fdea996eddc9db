"""Runs simulations: single runs, batches in worker processes, shrinking, replay, evidence."""

from __future__ import annotations

import gc
import hashlib
import importlib
import os
import re
import sys
import time as _time
import traceback

from . import seams

REAL_CLOCK = _time.perf_counter
REAL_STDOUT = sys.stdout
REAL_OPEN = open

from .kernel import Choices, HarnessError, Violation  # noqa: E402

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 20  # seconds of CPU for one run: a run takes milliseconds


class Result:
    def __init__(self) -> None:
        self.violation: Violation | None = None
        self.nontrivial = False
        self.digest = ""
        self.sim = None
        self.rec: list[int] = []
        self.blocks: list[tuple[int, int]] = []
        self.events: list[str] = []


class CpuHang(BaseException):
    pass


def _arm_cpu_guard(seconds: float) -> None:
    setitimer = seams.REAL.get("signal.setitimer")
    import signal

    setitimer(signal.ITIMER_VIRTUAL, seconds)


def _install_cpu_guard() -> None:
    import signal

    def handler(signum, frame):
        raise CpuHang()

    seams.REAL["signal.signal"](signal.SIGVTALRM, handler)


def load(prop: str):
    return importlib.import_module(f"dst.props.{prop.lower()}")


def _from_library(exc: BaseException, root: str) -> bool:
    """Whether the exception came out of a call of the library."""

    trace = exc.__traceback__
    while trace is not None:
        if trace.tb_frame.f_code.co_filename.startswith(root):
            return True
        trace = trace.tb_next
    return False


def run_one(mod, choices: Choices) -> Result:
    """One simulated execution. Everything in it is decided by `choices`."""

    result = Result()
    world = mod.build(choices)
    sim = world.sim
    from .loader import ROOT

    sim.trace_prefix = ROOT
    _arm_cpu_guard(CPU_LIMIT)
    try:
        try:
            with world:
                try:
                    sim.start_tracing()
                    result.nontrivial = bool(mod.execute(world))
                finally:
                    sys.settrace(None)
                    _arm_cpu_guard(0)
        except Violation as violation:
            result.violation = sim.violation or violation
        except CpuHang:
            result.violation = Violation("hang", "the library computes without end")
        except HarnessError:
            raise
        except Exception as exc:  # pylint: disable=broad-except
            if not _from_library(exc, ROOT):
                raise
            result.violation = Violation("raised", f"the library raised {type(exc).__name__}: {exc}")
        if result.violation is None and sim.violation is not None:
            result.violation = sim.violation
    finally:
        _arm_cpu_guard(0)
    result.digest = sim.digest()
    result.sim = sim
    result.rec = choices.rec
    result.blocks = choices.blocks
    result.events = sim.events
    return result


def run_seed(mod, prop: str, seed: int, index: int) -> Result:
    return run_one(mod, Choices(seed=f"{prop}/{seed}/{index}"))


# -- worker ----------------------------------------------------------------------------------------


def _warm_tracing() -> None:
    """CPython sends no opcode events before the settrace() that follows the first request for them.

    Without this the first run of a process would see fewer points to switch at than later ones.
    """

    def trace(frame, event, arg):
        frame.f_trace_opcodes = True
        return trace

    def body() -> None:
        pass

    for _ in range(2):
        sys.settrace(trace)
        body()
        sys.settrace(None)


def prepare() -> None:
    _warm_tracing()
    seams.install()
    _install_cpu_guard()
    sys.setrecursionlimit(600)
    gc.disable()


def worker(prop, seed, first, step, count, budget, stop, known) -> dict:
    """Runs indices first, first+step, ... until `count` of the whole batch or the time is up."""

    prepare()
    mod = load(prop)
    start = REAL_CLOCK()
    report = {
        "runs": 0, "nontrivial": 0, "digests": [], "schedules": [], "fired": {}, "probes": {},
        "sim_us": 0, "steps": 0, "switches": 0, "lines": 0, "violation": None, "error": None,
        "samples": [], "redo_mismatch": 0, "redone": 0, "states_total": 0,
    }
    digests, schedules = set(), set()
    exists = os.path.exists
    try:
        index = first
        while index < count:
            if REAL_CLOCK() - start > budget or exists(stop):
                break
            result = run_seed(mod, prop, seed, index)
            sim = result.sim
            report["runs"] += 1
            report["steps"] += sim.steps
            report["switches"] += sim.switches
            report["lines"] += sim.lines
            report["sim_us"] += sim.now
            for name, table in (("fired", sim.fired), ("probes", sim.probes)):
                for key, value in table.items():
                    report[name][key] = report[name].get(key, 0) + value
            if result.violation is not None:
                cls, msg = result.violation.cls, result.violation.msg
                if any(k["cls"] == cls and re.search(k["match"], msg) for k in known):
                    sim.probe("known_finding_seen")
                    index += step
                    continue
                report["violation"] = {
                    "index": index, "cls": cls, "msg": msg,
                    "choices": result.rec, "blocks": result.blocks, "digest": result.digest,
                    "events": result.events, "fired": sim.fired,
                }
                REAL_OPEN(stop, "w").close()
                break
            if result.nontrivial:
                report["nontrivial"] += 1
                digests.add(result.digest[:16])
            if sim.switches:
                schedules.add(hashlib.sha1(bytes(sim.schedule)).hexdigest()[:16])
            if report["runs"] % 199 == 7:  # determinism spot check
                again = run_seed(mod, prop, seed, index)
                report["redone"] += 1
                if again.digest != result.digest:
                    report["redo_mismatch"] += 1
            if len(report["samples"]) < 1 and result.nontrivial:
                report["samples"].append({"index": index, "events": result.events[:60]})
            if report["runs"] % 50 == 0:
                gc.collect()
            index += step
    except BaseException:  # pylint: disable=broad-except
        report["error"] = traceback.format_exc()
    report["digests"], report["schedules"] = sorted(digests), sorted(schedules)
    return report


def describe(result: Result) -> dict:
    violation = result.violation
    return {
        "cls": violation.cls if violation else None, "msg": violation.msg if violation else None,
        "choices": result.rec, "digest": result.digest, "events": result.events,
        "fired": result.sim.fired,
    }


def rerun(prop, choices) -> dict:
    prepare()
    return describe(run_one(load(prop), Choices(replay=choices)))


def shrink_report(prop, violation, budget) -> dict:
    prepare()
    best = shrink(load(prop), violation["choices"], violation["blocks"], violation["cls"], budget)
    if best is None:
        return {"reproduced": False}
    return {"reproduced": True, **describe(best)}


# -- shrinking -------------------------------------------------------------------------------------


def shrink(mod, choices: list[int], blocks, cls: str, budget: float):
    """Minimises the choice list while the same class of violation persists."""

    start = REAL_CLOCK()
    tried: set[str] = set()

    def attempt(candidate):
        key = hashlib.sha1(repr(candidate).encode()).hexdigest()
        if key in tried:
            return None
        tried.add(key)
        try:
            result = run_one(mod, Choices(replay=candidate))
        except Exception:  # pylint: disable=broad-except
            return None  # an accident of this candidate: not the violation looked for
        if result.violation is not None and result.violation.cls == cls:
            return result
        return None

    best = attempt(list(choices))
    if best is None:
        return None

    def out_of_time() -> bool:
        return REAL_CLOCK() - start > budget

    improved = True
    while improved and not out_of_time():
        improved = False
        # whole operations
        for low, high in sorted(best.blocks, key=lambda b: b[0] - b[1]):
            if out_of_time():
                break
            rec = best.rec
            if high > len(rec) or low >= high:
                continue
            result = attempt(rec[:low] + rec[high:])
            if result is not None and len(result.rec) < len(rec):
                best, improved = result, True
                break
        if improved:
            continue
        # chunks
        size = max(1, len(best.rec) // 2)
        while size >= 1 and not out_of_time():
            pos = 0
            while pos < len(best.rec) and not out_of_time():
                rec = best.rec
                result = attempt(rec[:pos] + rec[pos + size :])
                if result is not None and len(result.rec) < len(rec):
                    best, improved = result, True
                else:
                    pos += size
            size //= 2
        # values
        for pos in range(len(best.rec)):
            if out_of_time() or pos >= len(best.rec):
                break
            value = best.rec[pos]
            for smaller in {0, value // 2, value - 1}:
                if 0 <= smaller < value:
                    rec = list(best.rec)
                    rec[pos] = smaller
                    result = attempt(rec)
                    if result is not None and (len(result.rec), result.rec) < (len(best.rec), best.rec):
                        best, improved = result, True
                        break
    return best
