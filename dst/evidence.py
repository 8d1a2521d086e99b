"""evidence/<property>.json: what one run of a check covered."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

REAL = "hyperstate (all of it, unmodified), dataclasses, shutil, tempfile, pathlib, msgpack, numpy, pyron parser, click, argparse"
STUB = "operating system calls (in-memory file system with crash, error, short/torn write, full disk), clocks, randomness of temporary names, process id, locks and thread switching, pyron's own file reading (reads through the simulated file system)"


def write(prop, tier, seed, sums, wall, good, found, jobs):
    agg = {"per_family": {}, "fired": {}, "counts": {}, "other": {}}
    for s in sums:
        for k, v in s["agg"].items():
            if isinstance(v, dict):
                d = agg.setdefault(k, {})
                for x, n in v.items():
                    d[x] = d.get(x, 0) + n
            else:
                agg[k] = agg.get(k, 0) + v
    nontriv, states, inter, samples = set(), set(), set(), []
    for s in sums:
        nontriv.update(s["nontriv"])
        states.update(s["states"])
        inter.update(s["inter"])
        samples += s["samples"]
    from .plan import PLAN, family

    rules = {name: " ".join(family(name).__doc__.split()) for name, *_ in PLAN[prop]}
    runs = agg.get("runs", 0)
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(nontriv),
        "rule": "One evaluation is one simulated execution (a scenario drawn from the seed, then the same scenario with seeded faults). "
        "Distinct: different hash over every system call, fault and scheduling decision of the run. Non-trivial: a fault or crash was injected, "
        "a checkpoint or file was restored/rewritten, or tasks were interleaved. Families: " + json.dumps(rules),
        "samples": samples[:4] or ["no sample recorded"],
        "seeds": agg.get("seeds", 0),
        "runs_per_hour": round(runs / wall * 3600) if wall else 0,
        "seeds_per_hour": round(agg.get("seeds", 0) / wall * 3600) if wall else 0,
        "workers": jobs,
        "runs_per_family": agg["per_family"],
        "simulated_process_lifetimes": agg.get("boots", 0),
        "simulated_seconds": round(agg.get("sim_ns", 0) / 1e9, 3),
        "simulated_system_calls": agg.get("events", 0),
        "steps_checkpointed": agg.get("steps", 0),
        "crash_points_restarted": agg.get("probes", 0),
        "faults_injected": dict(sorted(agg["fired"].items())),
        "situations_reached": dict(sorted(agg["counts"].items())),
        "distinct_crash_states": len(states),
        "distinct_interleavings": len(inter),
        "violations_of_other_properties_seen": agg["other"],
        "known_findings": [t for k, t in found],
        "ran_real_code": REAL,
        "ran_a_stub": STUB,
    }
    data = {
        "property": prop, "tier": tier, "seed": int(seed), "level": "exploration", "coverage": cov,
        "assumptions": [
            "the simulated file system keeps every completed system call across a process crash (kill), not across power loss",
            "interpreter, numpy, msgpack and the pyron parser behave as in this sandbox",
        ],
        "wall_s": round(wall, 2), "violations": 1 if good else 0,
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(data, f, indent=1)
    os.replace(tmp, os.path.join(d, f"{prop}.json"))
