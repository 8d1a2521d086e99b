#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and dst/plan.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dst.plan import PLAN  # noqa

PY = "/opt/venv/bin/python"
TECH = {
    "gen_t": "crash/error faults at arbitrary system calls of simulated training runs against a reference model",
    "gen_r": "interrupted versus uninterrupted simulated runs of the same program",
    "gen_o": "seeded interleaving of several simulated processes at every system call",
    "gen_i": "independent simulated managers interleaved, compared with running alone",
    "gen_l": "seeded line-level interleaving of threads accessing restored fields",
    "gen_b": "injected storage damage and read errors on restored checkpoints",
    "gen_u": "simulated deployments of successive class versions with crashes in between",
    "gen_e": "simulated restarts from hand-edited files with kills in between",
    "gen_s": "simulated edits and deployments of a config class with faults in the schema tool and in training runs",
    "gen_f": "crash/error faults during in-place file upgrades",
}
NA = {
    "N02": "Pure function of a class and a query string that returns text; no I/O, time, concurrency or faults for a simulator to control.",
    "N03": "Parsing is a pure function of the text; no schedule or fault influences it. The parts that matter across restarts and failures (override precedence, rejection without side effects, values read back after a crash) are decided under C12, C03 and C14.",
}
NOTE = (
    "Seeded search over simulated executions of the real, unmodified package (deterministic replay from one file); a clean run is evidence, not proof. "
    "Trusted: the in-memory file system model (a completed system call survives a process crash; power loss is out of scope), interpreter, numpy, msgpack, pyron's parser."
)


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in PLAN:
            fams = [TECH[n] for n, *_ in PLAN[i]]
            checks.append({
                "property": i,
                "quick_cmd": f"{PY} check.py {i} --tier quick",
                "thorough_cmd": f"{PY} check.py {i} --tier thorough",
                "technique": "deterministic simulation with fault injection: " + "; ".join(fams),
                "level": "exploration",
                "level_note": NOTE,
            })
        else:
            na.append({"property": i, "reason": NA.get(i, "Check under construction.")})
    m = {
        "version": 1,
        "setup_cmd": f"{PY} check.py --setup",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: every seam (os, io, time, uuid, random names, locks, pyron's file reading) is installed from /verif before the package is imported. "
        "Known findings and repaired defects: known_findings.json. Replays: check.py --replay FILE. Harness self-test: check.py --selftest.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
