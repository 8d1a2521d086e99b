"""Several managers with checkpoint directories of their own (same or different classes of the same names, same or different
processes, shared temporary directory, nested and neighbouring directories), interleaved by a seeded scheduler at every system
call and, for threads of one process, at every source line of the package; some are killed or hit by I/O errors.  Each must go
through the same states, end with the same outcome and leave the same files as when it runs alone."""
import random

from . import gen_r, lanes, sched, simfs
from .core import Result, Viol

PLACES = [
    ["/simfs/data/a", "/simfs/data/b", "/simfs/data/c", "/simfs/data/d"],
    ["/simfs/data/run", "/simfs/data/run/000000000077", "/simfs/data/run/sub", "/simfs/data/run-000000000500"],
    ["/simfs/data/latest-x", "/simfs/data/latest-step000000000009", "/simfs/data/x", "/simfs/data/latest-"],
    ["/simfs/data/x/ck", "/simfs/data/y/ck", "/simfs/home/ck", "/simfs/tmp/ck"],
]


def gen(prop, seed):
    r = random.Random(f"I/{prop}/{seed}")
    shared = r.random() < 0.5
    n = r.choice([2, 2, 3, 4])
    same = r.random() < 0.5
    places = list(r.choice(PLACES))
    if r.random() < 0.5:
        r.shuffle(places)
    ls = []
    for i in range(n):
        l = gen_r.gen_lane(r, i, places[i], prop, crash=False)
        l["n"] = min(l["n"], 9 if l["args"]["init"] and l["args"]["init"][0] == "ckpt" else 6)
        l["shared"] = shared
        if same and i:
            l["prog"] = ls[0]["prog"]
            l["sameclass"] = True
            if r.random() < 0.5:
                # also the same config file or checkpoint to start from
                l["args"] = dict(ls[0]["args"])
                l["n"] = min(l["n"], 9) if l["args"]["init"] and l["args"]["init"][0] == "ckpt" else min(l["n"], 6)
        rc = random.Random(f"I/ctx/{prop}/{seed}/{i}")
        if rc.random() < 0.5:
            l["ctx"] = [[k, i] for k in rc.sample(["who", "dev", "k"], rc.randint(1, 2))]
        l["faults"] = []
        if r.random() < 0.4:
            for _ in range(r.randint(1, 2)):
                at = r.randint(1, r.choice([8, 40, 120]))
                if not shared and r.random() < 0.6:
                    l["faults"].append({"n": at, "kind": r.choice(["crash", "torn"]), "frac": r.random()})
                else:
                    l["faults"].append({"n": at, "kind": "err", "errno": r.choice(["EIO", "ENOSPC", "EACCES"])})
        l["max_boots"] = 4
        ls.append(l)
    return {
        "family": "I", "order": r.randint(0, 9), "world_seed": r.randint(1, 10**6), "mounts": r.choice([[], [], [["/simfs/data", 1]], [["/simfs/tmp", 2]]]),
        "lanes": ls, "shared": shared, "trace": shared and r.random() < 0.6, "sched": r.choice(sched.KINDS + ("seq",)), "sched_seed": r.randint(0, 10**9),
        "horizon": r.choice([200, 1000, 5000]),
    }


def simulate(hs, scn, which, base_fs, together, keep_log=False, progs=None):
    w = simfs.World(seed=scn["world_seed"] + (1 if together else 2), fs=base_fs.clone(), keep_log=keep_log)
    ls = []
    simfs.boot_reset("/simfs/tmp", seed=1)
    shared = simfs.Proc(w, "shared", "/simfs/home") if scn["shared"] else None
    for i in which:
        spec = scn["lanes"][i]
        share = None
        if spec.get("sameclass"):
            share = progs.get("same")
        l = lanes.Lane(hs, spec, f"L{i}", w, share=share)
        if i == 0 or (scn["lanes"][i]["prog"] == scn["lanes"][0]["prog"] and "same" not in progs):
            progs.setdefault("same", l.prog)
        ls.append(l)
        proc = shared or simfs.Proc(w, f"L{i}", "/simfs/home")

        def body(t, l=l):
            t.lines = bool(scn.get("trace") and len(which) > 1)
            l.run(t)

        w.spawn(f"L{i}", proc, body)

    def watch(t, name, path, mut):
        ls[t.tid].saw(t, name, path, mut)

    w.on_op = watch
    if scn["sched"] == "seq":
        w.strategy = lambda g, t, rs: t if t is not None and t in rs else rs[0]
    else:
        w.strategy = sched.make(scn["sched"], scn["sched_seed"], len(which), scn.get("horizon", 500))
    if scn.get("switches") is not None and together:
        w.switches = {g: t for g, t in scn["switches"]}
    prev = simfs.W
    simfs.set_world(w)
    try:
        w.run_tasks()
    finally:
        simfs.set_world(prev)
    for t in w.tasks:
        if isinstance(t.result, tuple) and t.result[:1] == ("harness-error",):
            raise t.result[1]
    if shared is not None:
        with simfs.running(w, simfs.Task(50, "X", shared, None)):
            shared.exit()
    return w, ls


def view(fs, lane, others):
    """The files of a lane: its checkpoint directory without those of others inside it."""
    ck = lane.spec["layout"]["ck"]
    t = fs.h_tree(ck)
    base = ck[len("/simfs/"):] + "/"
    inner = [o[len("/simfs/"):] for o in others if o.startswith(ck + "/")]
    out = {}
    for p, v in t.items():
        full = p if p.startswith(base[:-1]) else base + p
        if any((full.rstrip("/") + "/").startswith(i + "/") for i in inner):
            continue
        if full.rstrip("/") == base.rstrip("/"):
            continue
        name = full[len(base):]
        if ".tmp" in name:
            continue  # leftovers of killed copies carry random names
        out[name] = v if v is None else v[0] if isinstance(v, tuple) else v
    return out


def run(hs, scn, prop):
    res = Result()
    base = lanes.make_world(scn, scn["world_seed"])
    for l in scn["lanes"]:
        simfs.boot_reset("/simfs/tmp", seed=1)
        base.fs.h_mkdirs(l["layout"]["ck"])
        lanes.Lane(hs, l, "S", base).prepare()
    n = len(scn["lanes"])
    w = None
    cks = [l["layout"]["ck"] for l in scn["lanes"]]
    try:
        progs = {}
        w, ls = simulate(hs, scn, range(n), base.fs, True, keep_log=scn.get("keep_log", False), progs=progs)
        if w.hang:
            raise Viol({"C15"}, f"the managers do not finish together: {w.hang}")
        for i in range(n):
            w1, (alone,) = simulate(hs, scn, [i], base.fs, False, progs=dict(progs))
            l = ls[i]
            res.boots += l.boots
            res.steps += len(l.history)
            if l.killed:
                res.hit("killed", l.killed)
            if l.outcomes:
                res.hit("disturbed-lane")
            who = f"manager {i} ({cks[i]})"
            if alone.bad or alone.history != l.history or l.bad:
                if l.bad and not alone.bad:
                    raise Viol({"C15"}, f"{who}: {l.bad[0]} (not so alone)", l.bad[1])
                if alone.history != l.history:
                    raise Viol({"C15"}, f"{who}: goes through {l.history} (alone: {alone.history})", f"{l.outcomes} / {alone.outcomes}")
            for key in alone.at:
                for j, what in ((0, "state"), (1, "config")):
                    a, b = alone.at[key][j], l.at[key][j]
                    if a is not None and b is not None and a != b:
                        raise Viol({"C15"}, f"{who}: at {l.prog.key}={key} the {what} differs from running alone", lanes.diffs(a, b))
            if norm(alone.outcomes) != norm(l.outcomes):
                raise Viol({"C15"}, f"{who}: lifetimes end with {l.outcomes} (alone: {alone.outcomes})")
            if alone.done != l.done or (alone.done and alone.final != l.final):
                raise Viol({"C15"}, f"{who}: ends differently from running alone")
            if alone.trace_n != l.trace_n:
                res.hit("different-operation-count")
            va, vb = view(w1.fs, alone, cks), view(w.fs, l, cks)
            if va != vb:
                ks = sorted(k for k in set(va) | set(vb) if va.get(k, 0) != vb.get(k, 0))
                raise Viol({"C15"}, f"{who}: leaves other files than when running alone: {ks[:4]}")
            ra, rb = lanes.restored(alone, w1.fs.clone()), lanes.restored(l, w.fs.clone())
            if ra != rb:
                raise Viol({"C15"}, f"{who}: a restart finds something else than when it ran alone")
            res.probes += 1
        left = sorted(p for p in w.fs.h_tree("/simfs/tmp") if p not in base.fs.h_tree("/simfs/tmp"))
        res.states.add(w.fs.digest()[:16])
    except Viol as v:
        res.viol = (v.what, v.detail)
    if w is not None:
        res.absorb(w)
        res.hash = w.log.hexdigest()
        res.interleaving = w.interleave.hexdigest()[:16]
        res.log_lines = w.log_lines
        res.switches = w.made_switches
    res.traces = {}
    res.nontrivial = len(res.switches or []) > n
    return res


def norm(outcomes):
    """Outcomes without random temporary names."""
    return [o.split(":")[0] for o in outcomes]


def variants(prop, scn, res, seed):
    for v in range(1):
        r = random.Random(f"IV/{seed}/{v}")
        yield dict(scn, sched=r.choice(sched.KINDS), sched_seed=r.randint(0, 10**9))


def shrink(scn, res):
    if scn.get("switches") is None:
        yield dict(scn, switches=res.switches)
    n = len(scn["lanes"])
    if n > 2:
        for i in range(n - 1, -1, -1):
            ls = scn["lanes"][:i] + scn["lanes"][i + 1 :]
            yield {k: v for k, v in dict(scn, lanes=ls).items() if k != "switches"}
    if scn["trace"]:
        yield {k: v for k, v in dict(scn, trace=False).items() if k != "switches"}
    if scn["sched"] != "seq":
        yield {k: v for k, v in dict(scn, sched="seq").items() if k != "switches"}
    for i, l in enumerate(scn["lanes"]):
        for x in gen_r.shrink_lane(l):
            if l.get("sameclass") and x["prog"] != l["prog"]:
                continue
            ls = scn["lanes"][:i] + [x] + scn["lanes"][i + 1 :]
            if i == 0 and x["prog"] != l["prog"]:
                ls = [dict(y, prog=x["prog"]) if y.get("sameclass") else y for y in ls]
            yield {k: v for k, v in dict(scn, lanes=ls).items() if k != "switches"}
    sw = scn.get("switches")
    if sw:
        size = len(sw) // 2
        while size >= 1 and size >= len(sw) // 64:
            for i in range(0, len(sw), size):
                yield dict(scn, switches=sw[:i] + sw[i + size :])
            size //= 2
    if scn["mounts"]:
        yield {k: v for k, v in dict(scn, mounts=[]).items() if k != "switches"}


def describe(scn):
    return {"shared": scn["shared"], "trace": scn["trace"], "sched": scn["sched"], "lanes": [{k: l[k] for k in ("layout", "args", "n", "faults")} for l in scn["lanes"]]}
