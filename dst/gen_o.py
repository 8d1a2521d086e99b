"""Several simulated processes on one checkpoint directory under a seeded scheduler that may switch at every system call:
a trainer with concurrent readers, or two trainers at once (with crashes), each with contents that tell every step call apart."""
import random

from . import sched


def gen(prop, seed):
    r = random.Random(f"O/{prop}/{seed}")
    prog = {"seed": r.randint(1, 10**9), "size": r.randint(1, 3), "wild": False, "ser": r.randint(0, 2), "versioned": r.random() < 0.3}
    layout = {"ck": r.choice(["/simfs/data/run", "/simfs/home/ck/run"]), "ckdev": r.choice([0, 1]), "order": r.randint(0, 9), "style": r.choice(["path", "str", "rel"])}
    if r.random() < 0.3:
        layout["tmp"], layout["tmpdev"] = "/simfs/scratch/tmp", 1
    scn = {
        "family": "O", "tag": prop, "prog": prog, "layout": layout, "world_seed": r.randint(1, 10**6), "probe_seed": r.randint(1, 10**6), "faults": [],
        "sched": r.choice(sched.KINDS), "sched_seed": r.randint(0, 10**9), "warm": r.choice([0, 1, 1, 2]), "probe_rate": 0.15, "max_probes": 8,
        "horizon": r.choice([100, 300, 600]), "cfgmut": r.random() < 0.8,
    }
    if prop == "C06":
        scn["tasks"] = [{"kind": "trainer", "n": r.randint(1, 4), "again": r.random() < 0.2, "inc": r.choice([[1], [1], [10, 1], [999]])}]
        for _ in range(r.choice([1, 1, 2, 3])):
            scn["tasks"].append({"kind": "reader", "n": r.randint(1, 4), "cfg_first": r.random() < 0.7, "retry": r.random() < 0.3, "pause": r.choice([0, 0, 3, 40])})
    else:
        incs = r.choice([[[1], [1]], [[1], [1]], [[2], [1]], [[1], [3, 1]], [[5], [1]]])
        scn["tasks"] = [{"kind": "trainer", "n": r.randint(1, 4), "inc": incs[i], "again": r.random() < 0.2, "lives": r.choice([1, 1, 2])} for i in range(2)]
        if r.random() < 0.2:
            scn["tasks"].append({"kind": "trainer", "n": r.randint(1, 3), "inc": [1]})
        if r.random() < 0.25:
            scn["faults"] = [{"at": [0, r.randint(1, 2), r.randint(1, 80)], "kind": "crash", "task": r.randint(0, 1)}]
    return scn


def run(hs, scn, prop):
    from .multi import MRun

    scn2 = dict(scn, faults=[])
    m = MRun(hs, scn2, prop)
    for f in scn.get("faults", []):
        b, o, k = f["at"]
        m.world.faults[(f"T{f['task']}", b, o, k)] = f
    res = m.execute()
    res.traces = {}
    res.nontrivial = len(res.switches) > 1
    return res


def variants(prop, scn, res, seed):
    for v in range(3):
        r = random.Random(f"OV/{seed}/{v}")
        yield dict(scn, sched=r.choice(sched.KINDS), sched_seed=r.randint(0, 10**9))


def shrink(scn, res):
    if scn.get("switches") is None:
        yield dict(scn, switches=res.switches)
    else:
        sw = scn["switches"]
        n = len(sw)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                yield dict(scn, switches=sw[:i] + sw[i + size :])
            size //= 2
    if scn.get("faults"):
        yield dict(scn, faults=[])
    if scn.get("probe_rate"):
        yield dict(scn, probe_rate=0.0)
    if scn.get("warm"):
        yield dict(scn, warm=scn["warm"] - 1)
    for i, t in enumerate(scn["tasks"]):
        if len(scn["tasks"]) > 2 and i:
            yield dict(scn, tasks=scn["tasks"][:i] + scn["tasks"][i + 1 :])
        if t["n"] > 1:
            yield dict(scn, tasks=scn["tasks"][:i] + [dict(t, n=t["n"] - 1)] + scn["tasks"][i + 1 :])
        for k in ("again", "retry", "pause"):
            if t.get(k):
                yield dict(scn, tasks=scn["tasks"][:i] + [dict(t, **{k: 0})] + scn["tasks"][i + 1 :])
    pr = scn["prog"]
    for ch in ({"ser": 0}, {"ser": 1}, {"size": 1}):
        for k, v in ch.items():
            if pr[k] > v:
                yield dict(scn, prog=dict(pr, **ch))
    if scn.get("cfgmut"):
        yield dict(scn, cfgmut=False)
    lay = scn["layout"]
    for k, v in (("style", "path"), ("order", 0), ("ckdev", 0), ("tmpdev", 0), ("tmp", "/simfs/tmp")):
        if k in lay and lay[k] != v:
            yield dict(scn, layout=dict(lay, **{k: v}))
    if res.probe_idx is not None and scn.get("probe_only") != res.probe_idx:
        yield dict(scn, probe_only=res.probe_idx)


def describe(scn):
    return {k: scn[k] for k in ("prog", "tasks", "sched", "sched_seed", "faults", "warm")}
