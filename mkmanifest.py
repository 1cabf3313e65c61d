#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent
sys.path[:0] = [str(V / "sim"), str(V)]
sys.dont_write_bytecode = True
import core

TECH = {
    "C01": "deterministic simulation: seeded search over kill, signal and fault points, output paths watched at every step",
    "C02": "deterministic simulation: seeded search over output-side fault sequences against a fault-free reference run",
    "C03": "deterministic simulation: seeded histories of rejected header versions, outputs watched at every step",
    "C04": "deterministic simulation: seeded search over signal and fault points, directory trees compared",
    "C05": "deterministic simulation: seeded search over heap layouts and environments against a reference run",
    "C06": "deterministic simulation: seeded search over heap layouts and environments against a reference run",
    "C07": "deterministic simulation: seeded interleavings of several runs at call granularity",
    "C08": "deterministic simulation: seeded histories of edits, runs, crashes and damage against a pristine run",
    "C09": "deterministic simulation: seeded search over read-side fault sequences against a fault-free run",
    "C10": "deterministic simulation: seeded histories over numbers of outputs against the single-file reference",
    "C11": "deterministic simulation: seeded class graphs and heap layouts, registration order checked, imports executed",
    "C12": "deterministic simulation: seeded launches with injected tool outcomes and installation faults",
    "C13": "deterministic simulation: seeded histories of calls, drops and collections against a liveness model",
    "C14": "deterministic simulation: seeded import schedules and warning filters against a registry model",
}
NOTE = ("Every violation found is real (replayed twice and in a fresh process before it is reported); "
        "a pass covers the seeds explored only. Trusted: the preload shim, the scratch file system, and %s.")
TRUST = {
    "C01": "that kills act at call boundaries", "C02": "the fault-free run of the same binary as reference text",
    "C03": "that each listed mistake is one the documentation rejects", "C04": "that signals act at call boundaries",
    "C05": "the plain-environment run of the same binary as reference", "C06": "the plain-environment run of the same binary as reference",
    "C07": "that file system calls are atomic", "C08": "the pristine-directory run of the same binary as reference",
    "C09": "the fault-free run of the same binary as reference", "C10": "the single-file output of the same binary as reference",
    "C11": "the parser of the generated text, the C++ compiler and the Python interpreter",
    "C12": "a stub tool that records what it is given", "C13": "pybind11, the C++ compiler and the liveness model",
    "C14": "pybind11, the C++ compiler and the registry model",
}
NA = {
    "C20": "A pure function of the header: nothing about it depends on schedules, time, I/O or faults, so seeded simulation would only be input sampling (the environment-dependent part is C05).",
    "C21": "A pure function of the header (see C20).",
    "C22": "A pure function of header and call; no schedule, fault or history enters it beyond what C11, C13 and C14 cover.",
    "C23": "A pure function of the annotation text; belongs to fuzzing or proof. That ill-formed annotations never yield output is part of C03.",
}
checks = []
for pid in sorted(TECH):
    if not (V / "checks" / (pid.lower() + ".py")).exists():
        continue
    m = core.load(pid)
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s" % pid,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                   "technique": TECH[pid], "level": m.LEVEL, "level_note": NOTE % TRUST[pid]})
have = {c["property"] for c in checks}
na = [{"property": k, "reason": v} for k, v in NA.items()]
na += [{"property": k, "reason": "check under construction"} for k in TECH if k not in have]
(V / "MANIFEST.json").write_text(json.dumps({
    "version": 1, "setup_cmd": "python3 sim/build.py", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: every seam (file system, memory, clock, pid, random numbers, signals) is the libc "
             "boundary, interposed by sim/shim.c. See DESIGN.md."}, indent=1) + "\n")
