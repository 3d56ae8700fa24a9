#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules that exist."""
import json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = {
 "C01": "Sampled streams, configurations and crash points against an uninterrupted model of the same code; nothing is assumed about the scores themselves. Assumes states are stored whole (torn state bytes are the caller's storage).",
 "C02": "Sampled windows and abort points; exact comparison of responses and of the caller's objects. Seeds of numpy's global generator are fixed before each attempt.",
 "C03": "Sampled interleavings; the reference is a fresh instance per window. Streams sharing an instance have the same time unit (a learned time unit is remembered by design).",
 "C04": "Sampled delivery schedules. Windows the model refuses with an error are allowed only where the model documents the refusal.",
 "C05": "Sampled partitions; scores equal up to rounding (1e-6 relative).",
 "C06": "Sampled batches; scores equal up to rounding.",
 "C07": "Sampled schedules of a simulated pool that really forks (process pools) or really runs threads one at a time (thread pools); the reference is the serial mode of the same code and fold errors recomputed from recorded forecasts.",
 "C08": "Models record what they are given; layouts are recomputed by an independent reference of the documented rules.",
 "C09": "Sampled sets of failing folds and error kinds; a worker that dies without an exception hangs multiprocessing.Pool itself and is not injected.",
 "C10": "Sampled faults and schedules over every parallel entry point; pools, tasks and workers are inspected when the call has ended.",
 "C11": "Sampled ensembles of real and toy members; the reference fits and backtests every member serially through the public model API. Member names are distinct.",
 "C12": "Sampled schedules; the same seed is run under several schedules and in serial mode; chain independence is checked on the draws themselves.",
 "C13": "Sampled collections and schedules; the reference splits each series on its own.",
 "C14": "Sampled positions and amounts of foreign random draws, including draws at arbitrary source lines inside the component.",
 "C15": "Saves and loads go through a simulated disk with injected errors; assumes joblib's own file format code is right.",
 "C16": "Sampled histories of save/store/load with a simulated store.",
 "C17": "Real descriptors inside a throw-away process; sampled overlaps of threads and failing system calls.",
 "C18": "Sampled delivery orders and operation sequences against a small reference series.",
 "C19": "Sampled interleavings of calls of several models sharing data and parameters; the reference is a fresh process-like deep copy used alone.",
}
NA = {
 "N01": "a pure function of its input: no schedule, clock, fault or shared state for a simulator to decide",
 "N02": "a pure function of its input: no schedule, clock, fault or shared state for a simulator to decide",
 "N03": "the parameter search imports ax, which is not installed here and cannot be fetched, so the code cannot be run under a simulator",
 "N04": "the global models import torch, which is not installed here and cannot be fetched, so the code cannot be run under a simulator",
 "N05": "a statistical statement about pure functions of the input: no schedule, clock, fault or shared state for a simulator to decide",
}
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "dst", "checks", i.lower() + ".py")
    if os.path.exists(f):
        lvl = re.search(r'^LEVEL = "(\w+)"', open(f).read(), re.M).group(1)
        checks.append({"property": i, "quick_cmd": "./check.sh check " + i,
                       "thorough_cmd": "VERIF_TIER=thorough ./check.sh check " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "deterministic simulation with fault injection: seeded search over schedules and fault sequences",
                       "level": lvl, "level_note": "A clean batch is evidence, not proof. " + NOTES[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "./check.sh smoke", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the simulator replaces multiprocessing, cpu_count, os and random seams from outside when kats is imported."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
