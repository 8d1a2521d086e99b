"""The same deterministic training program (its updates depend on nothing but its managed config and state) run twice in the
simulator: once uninterrupted, once killed at seeded system calls and restarted with the same arguments until it is done;
state and config at every counter value must agree."""
import random

from . import lanes, simfs
from .core import Result, Viol


def gen(prop, seed):
    r = random.Random(f"R/{prop}/{seed}")
    return {
        "family": "R", "order": r.randint(0, 9), "world_seed": r.randint(1, 10**6),
        "mounts": r.choice([[], [], [["/simfs/data", 1]], [["/simfs/tmp", 2]]]),
        "lane": gen_lane(r, 0, "/simfs/data/run", prop),
    }


def gen_lane(r, i, ck, prop, crash=True):
    src = None
    x = r.random()
    if x < 0.35:
        src = ["file", f"/simfs/home/cfg{i}.ron", r.randint(1, 10**6)]
    elif x < 0.5:
        src = ["ckpt", f"/simfs/home/start{i}"]
    n = r.randint(4, 14)
    if src and src[0] == "ckpt":
        n += 3
    return {
        "prog": {"seed": r.randint(1, 10**9), "size": r.randint(1, 5), "wild": r.random() < 0.3},
        "layout": {"ck": ck, "style": r.choice(["path", "str", "rel"])},
        "args": {"init": src, "overrides": [r.randint(1, 10**6) for _ in range(r.choice([0, 0, 1, 2]))]},
        "nsched": r.choice([0.3, 0.8]), "n": n, "useed": r.randint(1, 10**9), "light": r.random() < 0.5, "cfgmut": r.random() < 0.6,
        "again": r.random() < 0.5, "cfg_first": r.random() < 0.4, "ctx": [["dev", 1]] if r.random() < 0.3 else [],
        "faults": [{"n": r.randint(1, r.choice([10, 40, 120])), "kind": r.choice(["crash", "crash", "torn"]), "frac": r.random()} for _ in range(r.randint(1, 5))] if crash else [],
        "max_boots": 9,
    }


def one(hs, scn, spec, world, prop):
    lane = lanes.Lane(hs, spec, "T", world)
    world.on_op = lane.saw
    proc = simfs.Proc(world, "T", "/simfs/home")
    task = simfs.Task(0, "T", proc, None)
    simfs.boot_reset("/simfs/tmp", seed=1)
    prev = simfs.W
    with simfs.running(world, task):
        world.cur_proc = None
        world.enter(proc)
        lane.run(task)
    return lane


def run(hs, scn, prop):
    res = Result()
    base = lanes.make_world(scn, scn["world_seed"])
    setup = lanes.Lane(hs, scn["lane"], "S", base)
    simfs.boot_reset("/simfs/tmp", seed=1)
    setup.prepare()
    w0 = simfs.World(seed=scn["world_seed"], fs=base.fs.clone())
    w1 = simfs.World(seed=scn["world_seed"] + 1, fs=base.fs.clone(), keep_log=scn.get("keep_log", False))
    spec = dict(scn["lane"])
    try:
        ref = one(hs, scn, dict(spec, faults=[], full=True), w0, prop)
        if ref.bad:
            raise Viol({"C02"}, f"uninterrupted: {ref.bad[0]}", ref.bad[1])
        if not ref.done:
            raise Viol({"C02"}, f"the uninterrupted program does not finish: {ref.outcomes}")
        got = one(hs, scn, spec, w1, prop)
        res.steps, res.boots = len(got.history), got.boots
        if got.killed:
            res.hit("killed", got.killed)
        res.hit("finished")
        if got.bad:
            raise Viol({"C02"}, f"after {got.killed} kills: {got.bad[0]}", got.bad[1])
        if not got.done or [o for o in got.outcomes if o != "killed"]:
            raise Viol({"C02"}, f"the interrupted program does not get through: {got.outcomes}")
        for key, how in got.history:
            if key not in ref.at:
                raise Viol({"C02"}, f"{how}: {got.prog.key}={key}, a value the uninterrupted run never has")
            for i, what in ((0, "state"), (1, "config")):
                a, b = ref.at[key][i], got.at[key][i]
                if a is not None and b is not None and a != b:
                    raise Viol({"C02"}, f"at {got.prog.key}={key} the interrupted run has a different {what}", lanes.diffs(a, b))
        if ref.final != got.final:
            raise Viol({"C02"}, "the interrupted run ends differently", lanes.diffs(ref.final[0], got.final[0]) + lanes.diffs(ref.final[1], got.final[1]))
        res.states.add(w1.fs.digest()[:16])
    except Viol as v:
        res.viol = (v.what, v.detail)
    except simfs.SimHang as e:
        res.viol = (f"the run does not end: {e}", "")
    res.absorb(w1)
    res.hash = w1.log.hexdigest()
    res.log_lines = w1.log_lines
    res.traces = {}
    res.nontrivial = bool(res.fired)
    return res


def variants(prop, scn, res, seed):
    for v in range(2):
        r = random.Random(f"RV/{seed}/{v}")
        lane = scn["lane"]
        yield dict(scn, lane=dict(lane, faults=[{"n": r.randint(1, r.choice([10, 40, 120])), "kind": r.choice(["crash", "crash", "torn"]), "frac": r.random()} for _ in range(r.randint(1, 6))]))


def shrink(scn, res):
    yield from ({**scn, "lane": x} for x in shrink_lane(scn["lane"]))
    if scn["mounts"]:
        yield dict(scn, mounts=[])


def shrink_lane(l):
    fs = l.get("faults", [])
    for i in range(len(fs)):
        yield dict(l, faults=fs[:i] + fs[i + 1 :])
    for k in ("again", "cfgmut", "cfg_first", "light", "ctx"):
        if l.get(k):
            yield dict(l, **{k: [] if k == "ctx" else False})
    a = l["args"]
    for i in range(len(a["overrides"])):
        yield dict(l, args=dict(a, overrides=a["overrides"][:i] + a["overrides"][i + 1 :]))
    if a["init"]:
        yield dict(l, args=dict(a, init=None))
    if l["n"] > 1:
        yield dict(l, n=l["n"] // 2)
        yield dict(l, n=l["n"] - 1)
    if l["prog"]["size"] > 1:
        yield dict(l, prog=dict(l["prog"], size=l["prog"]["size"] - 1))
    if l["layout"]["style"] != "path":
        yield dict(l, layout=dict(l["layout"], style="path"))


def describe(scn):
    return {k: scn["lane"][k] for k in ("prog", "args", "n", "faults", "light", "again")}
