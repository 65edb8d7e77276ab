#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = "deterministic simulation with fault injection"
PURE = ("pure function of its inputs: no schedule, clock, I/O, randomness or other party for a simulator to control, so "
        "only input generation would be left")
NOTE = {
    "C01": "seeded search over worker counts, pool schedules and pool faults; parallel result compared with the reference tracer",
    "C02": "seeded search over interpreter-step interleavings of 2-4 threads sharing one path",
    "C03": "seeded search over edit histories with refused and failing edits; list and composition model",
    "C04": "seeded search over histories of traces, queries, edits and interruptions; reference tracer and freshly built path",
    "C05": "seeded search over histories of ray collections with failing sources, failing reads and interruptions; list model",
    "C06": "seeded search over random streams, clocks, access orders and interruptions of random ray sources",
    "C07": "seeded search over disk faults, crash points and interference in save/load histories of ray collections",
    "C08": "seeded search over disk faults, crash points and interference in save/load histories of element groups",
    "C09": "seeded search over interleaved sessions, crash points and disk faults; per-key history model",
    "C10": "seeded search over sequences of package starts with file, clock and network faults",
    "C11": "seeded search over start times, network outcomes and version lists; rationing model",
    "C12": "seeded search over sessions and mode choices with damaged or unwritable preferences; mode model",
    "C13": "seeded search over byte deliveries, read faults, encodings and query orders; independent prescription model",
    "C14": "seeded search over display, save, design and event histories with faults; comparison with a fresh path",
    "C15": "seeded search over histories of making, modifying and using elements with refusals, interruptions, disk faults and two tasks; comparison with a fresh session that makes only the object compared",
    "C16": "seeded search over streams of random numbers, edits, failed and interrupted reports; every ray of the figure classified by the reference tracer and counted against the text",
    "C17": "seeded search over command lines and example sessions with read, output and window faults and interruptions; comparison with the example alone in a fresh process",
}
PURES = {"C28": "it needs tkinter, which is not installed here, and the class it calls (GraphicOf.createFigure) no longer exists: there "
                "is nothing to run"}
import sys
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                       "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "exploration",
                       "level_note": NOTE[i] + "; samples, does not enumerate"})
    elif i in NOTE:
        na.append({"property": i, "reason": "check not built yet"})
    else:
        na.append({"property": i, "reason": PURES.get(i, PURE)})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks were needed in /repo: every source of nondeterminism is reached through "
               "the interpreter and library seams listed in DESIGN.md", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "The checks run the working tree of /repo (fresh in-memory copies of the package), nothing is built beforehand."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
