"""Writes MANIFEST.json."""
import json

props = [json.loads(line) for line in open("/verif/properties.jsonl")]
TECH = "deterministic simulation with fault injection: seeded search over schedules and fault sequences of the real code, judged by {}"
ORACLE = {
 "C01": "a reference canvas compared with a terminal emulator after every draw",
 "C02": "a reference canvas after failed, short and interrupted draws, and a recording file system",
 "C03": "cells printed per draw and counts against a reference canvas",
 "C04": "a reference cursor and canvas",
 "C05": "the byte history a simulated tty accepted",
 "C06": "simulated termios attributes before, during and after each call",
 "C07": "the simulated clock, timers and signals",
 "C08": "a FIFO history check over statement-level thread interleavings",
 "C09": "a table of key and mouse names restated independently",
 "C10": "what the simulated terminal answered, and when",
 "C11": "the modes of an emulated terminal and tty",
 "C12": "a history check of observed sizes and announcements",
 "C13": "the colour codes seen by an emulator",
 "C14": "the title and title stack of an emulated terminal",
 "C15": "a real-time history check over thread interleavings",
 "C16": "the simulated clock, alarms and signal dispositions",
 "C19": "a reference canvas compared with the parsed export, at each instant the window size was observed",
 "C24": "one reference canvas and emulator per terminal, compared after operations on the others",
 "C26": "the characters and modes that reached an emulated terminal after each call",
 "C27": "a reference canvas with two permitted contents per cell of a call cut short, compared with an emulator",
 "C25": "what the whole program printed against what the simulated terminal did",
}
NOTE = ("Seeded random search, no proof: shows the absence of violations on the runs made (counts, fault kinds and "
        "distinct traces are in the evidence file). Slate's own code runs unmodified from /repo's working tree; trusted are the "
        "simulated tty, terminal emulator, clock, signals, threads and streams described in DESIGN.md.")
NA = {
 "C17": "a pure function of strings and spans: no concurrency, time, I/O or faults for a simulation to decide anything about",
 "C18": "pure colour arithmetic: no schedule, clock, I/O or fault can influence it",
 "C20": "a pure function of one string",
 "C21": "depends on the arguments of one call only; what reaches the display over a history is C01, whose scope is opaque colours",
 "C22": "a pure function of the environment at one instant; what follows from changing it over time is C13",
 "C23": "immutable values and pure functions of them",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                   "evidence_file": f"evidence/{i}.json", "technique": TECH.format(ORACLE[i]), "level": "exploration", "level_note": NOTE})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
           "notes": "No hooks in /repo: every seam is a standard library entry point replaced inside the simulator's process. "
                    "check.py --replay FILE repeats a reported execution."},
          open("/verif/MANIFEST.json", "w"), indent=1)
