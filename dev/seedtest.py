#!/usr/bin/env python3
"""Development aid (no check uses it): runs the check of each planted bug on a patched copy of /repo.

    seedtest.py [ID ...]     prints caught / MISSED per planted bug
"""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get("SEEDED", os.path.join(HERE, "seeded"))
names = sys.argv[1:] or sorted(os.listdir(SEEDED))
for name in names:
    folder = os.path.join(SEEDED, name)
    prop = json.load(open(os.path.join(folder, "meta.json")))["property"]
    with tempfile.TemporaryDirectory(prefix="seed-") as scratch:
        copy = os.path.join(scratch, "repo")
        shutil.copytree("/repo", copy, ignore=shutil.ignore_patterns(".git"))
        subprocess.run(["git", "apply", "--unsafe-paths", "--directory", copy, os.path.join(folder, "patch.diff")],
                       check=True, cwd="/")
        run = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), prop], text=True, capture_output=True,
                             env={**os.environ, "DST_REPO": copy})
    lines = run.stdout.strip().splitlines()
    what = lines[-2].strip() if run.returncode == 1 else " | ".join(lines[-2:])
    print({1: "caught"}.get(run.returncode, f"MISSED ({run.returncode})"), name, prop, what[:150], flush=True)
