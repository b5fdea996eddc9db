#!/usr/bin/env python3
"""check.py <property>: searches for a violation by simulation; see DESIGN.md.

    check.py C05                    quick or thorough by VERIF_TIER, seeded by VERIF_SEED
    check.py C05 --runs N --wall S  other bounds
    check.py --replay FILE          repeats one recorded execution exactly
"""

from __future__ import annotations

import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

WORKERS = max(2, min(8, os.cpu_count() or 2))

# runs of the quick tier; the thorough tier multiplies them
QUICK_RUNS = {"C08": 8_000, "C19": 8_000, "C25": 10_000}
DEFAULT_QUICK_RUNS = 16_000
QUICK_WALL, THOROUGH_WALL = 120, 1500
THOROUGH_FACTOR = 40


def env() -> dict:
    new = dict(os.environ)
    new.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE)
    return new


def spawn(mode: str, payload: dict, path: str):
    with open(path + ".in", "w", encoding="utf-8") as file:
        json.dump(payload, file)
    return subprocess.Popen(
        [sys.executable, os.path.abspath(__file__), mode, path], cwd=HERE, env=env(),
        stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(path + ".err", "wb"))


def collect(process, path: str, limit: float):
    try:
        process.wait(timeout=max(1, limit))
    except subprocess.TimeoutExpired:
        process.kill()
        process.wait()
    try:
        with open(path, encoding="utf-8") as file:
            return json.load(file)
    except (OSError, ValueError):
        with open(path + ".err", "rb") as file:
            return {"error": f"worker ended with {process.returncode}: "
                             + file.read().decode("utf-8", "replace")[-3000:]}


def known_findings(prop: str) -> list[dict]:
    found = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as file:
            for line in file:
                if line.startswith("finding: ") and f"property={prop} " in line:
                    found.append(json.loads(line.split(" :: ", 1)[1]))
    return found


def main_check(prop: str, argv: list[str]) -> int:
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    runs = QUICK_RUNS.get(prop, DEFAULT_QUICK_RUNS)
    wall = QUICK_WALL
    if tier == "thorough":
        runs, wall = runs * THOROUGH_FACTOR, THOROUGH_WALL
    if "--runs" in argv:
        runs = int(argv[argv.index("--runs") + 1])
    if "--wall" in argv:
        wall = float(argv[argv.index("--wall") + 1])

    start = time.monotonic()
    with tempfile.TemporaryDirectory(prefix="dst-") as scratch:
        stop = os.path.join(scratch, "stop")
        jobs = []
        for number in range(WORKERS):
            path = os.path.join(scratch, f"w{number}")
            jobs.append((spawn("--worker", {
                "prop": prop, "seed": seed, "first": number, "step": WORKERS, "count": runs,
                "budget": wall, "stop": stop, "known": known_findings(prop)}, path), path))
        reports = [collect(process, path, wall + 90 - (time.monotonic() - start))
                   for process, path in jobs]
        search_s = time.monotonic() - start

        errors = [r["error"] for r in reports if r.get("error")]
        violations = sorted((r["violation"] for r in reports if r.get("violation")),
                            key=lambda v: v["index"])
        mismatch = sum(r.get("redo_mismatch", 0) for r in reports)
        replay = None
        if violations:
            replay = minimise(prop, seed, violations, scratch)
        coverage = summarise(prop, reports, search_s, seed)
        write_evidence(prop, tier, seed, coverage, time.monotonic() - start, int(bool(violations)))

    for finding in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {finding['what']}")
    print(f"{prop}: {coverage['evaluations']} runs, {coverage['distinct_nontrivial']} distinct and "
          f"non-trivial, {coverage['simulated_seconds']} simulated s, {search_s:.1f} s")
    if violations and replay:
        first = replay["violation"]
        print(f"  {first['cls']}: {first['msg']}")
        print(f"VIOLATION property={prop} replay={replay['path']}")
        return 1
    if errors:
        print("harness error:\n" + errors[0])
        return 2
    if violations:
        print("a violation was seen but did not repeat: the simulation is not deterministic")
        print(violations[0])
        return 2
    if mismatch:
        print(f"{mismatch} runs were not repeatable (see the evidence); the property held in all")
    return 0


def minimise(prop: str, seed: int, violations: list[dict], scratch: str):
    """Shrinks the earliest violation that repeats in a fresh process and writes its replay file."""

    for number, violation in enumerate(violations[:3]):
        path = os.path.join(scratch, f"shrink{number}")
        result = collect(spawn("--shrink", {"prop": prop, "violation": violation, "budget": 40}, path),
                         path, 120)
        if result.get("error") or not result.get("reproduced"):
            continue
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        target = os.path.join(HERE, "replays", f"{prop}-{seed}-{violation['index']}.json")
        record = {
            "property": prop, "seed": seed, "index": violation["index"],
            "violation": {"cls": result["cls"], "msg": result["msg"]},
            "choices": result["choices"], "digest": result["digest"], "trace": result["events"],
            "faults": result["fired"], "original_choices": len(violation["choices"]),
        }
        with open(target, "w", encoding="utf-8") as file:
            json.dump(record, file, indent=1)
        confirm = os.path.join(scratch, f"confirm{number}")
        again = collect(spawn("--rerun", {"prop": prop, "choices": result["choices"]}, confirm),
                        confirm, 60)
        if again.get("digest") == result["digest"] and again.get("cls") == result["cls"]:
            record["path"] = target
            return record
        os.unlink(target)
    return after_others(prop, seed, violations, scratch)


def in_sequence(prop: str, seed: int, index: int, step: int, scratch: str):
    """Starts a process that repeats the runs up to `index` just as a worker made them."""

    path = os.path.join(scratch, f"sequence{index}")
    return spawn("--worker", {
        "prop": prop, "seed": seed, "first": index % step, "step": step, "count": index + 1,
        "budget": 300, "stop": path + ".stop", "known": known_findings(prop)}, path), path


def seen_again(prop: str, seed: int, scratch: str) -> bool:
    """Whether fresh runs break the property, too."""

    stop = os.path.join(scratch, "stop2")
    jobs = []
    for number in range(WORKERS):
        path = os.path.join(scratch, f"v{number}")
        jobs.append((spawn("--worker", {
            "prop": prop, "seed": seed, "first": 1_000_000 + number, "step": WORKERS, "count": 2_000_000,
            "budget": QUICK_WALL, "stop": stop, "known": known_findings(prop)}, path), path))
    reports = [collect(process, path, QUICK_WALL + 60) for process, path in jobs]
    return any(report.get("violation") for report in reports)


def after_others(prop: str, seed: int, violations: list[dict], scratch: str):
    """The execution may depend on what ran before it in its process: repeats those runs too."""

    jobs = [(violation, *in_sequence(prop, seed, violation["index"], WORKERS, scratch)) for violation in violations]
    results = [(violation, collect(process, path, 300).get("violation")) for violation, process, path in jobs]
    repeated = [(found, True) for violation, found in results
                if found and (found["index"], found["cls"]) == (violation["index"], violation["cls"])]
    if not repeated and (len(violations) > 1 or seen_again(prop, seed, scratch)):
        # Several runs broke the property, none twice in the same way: the code depends on what no
        # simulation controls, such as the addresses of objects.
        repeated = [(violations[0], False)]
    if not repeated:
        return None
    found, repeats = repeated[0]
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    target = os.path.join(HERE, "replays", f"{prop}-{seed}-{found['index']}.json")
    record = {"property": prop, "seed": seed, "index": found["index"], "step": WORKERS, "repeats": repeats,
              "violation": {"cls": found["cls"], "msg": found["msg"]}, "digest": found["digest"],
              "trace": found["events"], "faults": found["fired"]}
    with open(target, "w", encoding="utf-8") as file:
        json.dump(record, file, indent=1)
    record["path"] = target
    return record


def summarise(prop: str, reports: list[dict], search_s: float, seed: int) -> dict:
    from dst import runner

    mod = runner.load(prop)
    good = [r for r in reports if "runs" in r]
    total = {key: sum(r[key] for r in good)
             for key in ("runs", "nontrivial", "sim_us", "steps", "switches", "lines", "redone",
                         "redo_mismatch", "states_total")}
    tables: dict[str, dict[str, int]] = {"fired": {}, "probes": {}}
    distinct, schedules = set(), set()
    for report in good:
        distinct.update(report["digests"])
        schedules.update(report["schedules"])
        for name, table in tables.items():
            for key, value in report[name].items():
                table[key] = table.get(key, 0) + value
    samples = [sample for report in good for sample in report["samples"]][:3]
    return {
        "evaluations": total["runs"],
        "distinct_nontrivial": len(distinct),
        "rule": mod.RULE + "; distinct: different event traces (SHA-1 of every logged event)",
        "samples": samples,
        "seeds": f"{prop}/{seed}/0 .. (one seed string per run)",
        "runs_per_hour": int(total["runs"] / max(search_s, 0.001) * 3600),
        "simulated_seconds": round(total["sim_us"] / 1e6, 3),
        "simulated_calls": total["steps"],
        "distinct_schedules": len(schedules),
        "distinct_schedules_measure": "different sequences of scheduling decisions (task picked at "
                                      "each point where more than one could run)",
        "task_switch_decisions": total["switches"],
        "traced_source_lines": total["lines"],
        "faults_injected": dict(sorted(tables["fired"].items())),
        "situations_reached": dict(sorted(tables["probes"].items())),
        "repeatability": {"runs_repeated": total["redone"], "differing": total["redo_mismatch"]},
        "real_code": mod.REAL,
        "stubs": mod.STUBS,
    }


def write_evidence(prop, tier, seed, coverage, wall_s, violations) -> None:
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w", encoding="utf-8") as file:
        json.dump({
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": coverage,
            "assumptions": [
                "the simulated tty, emulator and standard library seams behave like the real ones "
                "where the property looks (see DESIGN.md)",
                "seeded search: what no run reached is not covered",
            ],
            "wall_s": round(wall_s, 2), "violations": violations,
        }, file, indent=1)


# -- modes that run in their own process -------------------------------------------------------------


def inner(mode: str, path: str) -> int:
    with open(path + ".in", encoding="utf-8") as file:
        payload = json.load(file)
    real_open = open
    from dst import runner

    if mode == "--worker":
        out = runner.worker(**payload)
    elif mode == "--shrink":
        out = runner.shrink_report(**payload)
    else:
        out = runner.rerun(**payload)
    with real_open(path, "w", encoding="utf-8") as file:
        json.dump(out, file)
    return 0


def main_replay(path: str) -> int:
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.execve(sys.executable, [sys.executable, os.path.abspath(__file__), "--replay", path], env())
    with open(path, encoding="utf-8") as file:
        record = json.load(file)
    real_print, real_out = print, sys.stdout
    from dst import runner

    if "step" in record:
        with tempfile.TemporaryDirectory(prefix="dst-") as scratch:
            job = in_sequence(record["property"], record["seed"], record["index"], record["step"], scratch)
            out = collect(*job, 400).get("violation") or {"cls": None, "events": []}
    else:
        out = runner.rerun(record["property"], record["choices"])
    for line in out["events"]:
        real_print("  " + line, file=real_out)
    if out["cls"] is None:
        real_print("held: this execution no longer violates the property", file=real_out)
        return 0
    same = out["digest"] == record["digest"]
    real_print(f"{out['cls']}: {out['msg']}  ({'identical' if same else 'different'} trace)",
               file=real_out)
    real_print(f"VIOLATION property={record['property']} replay={path}", file=real_out)
    return 1


if __name__ == "__main__":
    if sys.argv[1] in ("--worker", "--shrink", "--rerun"):
        sys.exit(inner(sys.argv[1], sys.argv[2]))
    if sys.argv[1] == "--replay":
        sys.exit(main_replay(os.path.abspath(sys.argv[2])))
    sys.exit(main_check(sys.argv[1].upper(), sys.argv[2:]))
