"""determinism.py [props] [n]: the same seeds in different processes, orders and hash seeds.

Every run has to have the same trace however it came to be run.
"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CODE = r'''
import sys, json
sys.path.insert(0, %r)
real, out = print, sys.stdout
from dst import runner
prop, order, replay = sys.argv[1], json.loads(sys.argv[2]), sys.argv[3] == "replay"
runner.prepare()
mod = runner.load(prop)
from dst.kernel import Choices
for i in order:
    r = runner.run_seed(mod, prop, 1, i)
    if replay:
        r = runner.run_one(mod, Choices(replay=r.rec))
    real(i, r.digest, r.violation, file=out)
''' % HERE


def run(prop, order, seed="0", replay=""):
    env = dict(os.environ, PYTHONHASHSEED=seed)
    out = subprocess.run([sys.executable, "-c", CODE, prop, json.dumps(order), replay], env=env, text=True,
                         capture_output=True, cwd=HERE)
    if out.returncode:
        print(prop, out.stderr[-600:])
    return dict(line.split(" ", 1) for line in out.stdout.splitlines())


props = [a for a in sys.argv[1:] if not a.isdigit()] or [
    f"C{i:02}" for i in (*range(1, 17), *range(24, 40)) if os.path.exists(f"{HERE}/dst/props/c{i:02}.py")]
n = next((int(a) for a in sys.argv[1:] if a.isdigit()), 200)
bad = 0
for prop in props:
    order = list(range(n))
    base = run(prop, order)
    others = {"reversed": run(prop, order[::-1]), "hash seed": run(prop, order, "7"),
              "replayed": run(prop, order, "0", "replay"), "strided": run(prop, order[::3]),
              "again": run(prop, order)}
    for i in range(6):
        others[f"alone {i}"] = run(prop, [i])
    for name, got in others.items():
        diff = [i for i, d in got.items() if base[i] != d]
        if diff:
            bad += 1
            print(f"{prop} {name}: {len(diff)} of {len(got)} differ, e.g. {diff[:5]}")
    print(prop, "done", flush=True)
sys.exit(bool(bad))
