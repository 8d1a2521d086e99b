"""Threads of one simulated process access the lazily restored fields of a restored state (or of two states) for the first time,
while one of them may also take a checkpoint; a seeded scheduler preempts them at every system call, lock operation and source line
of the package; reads may fail for one thread; deserialize hooks may yield and access other fields."""
import random

from . import lanes, prog as P, sched, simfs
from .core import Result, Viol
from .trainer import HOME, TRun, flat


def gen(prop, seed):
    r = random.Random(f"L/{prop}/{seed}")
    nser = r.choice([1, 2, 2, 3, 4])
    n = r.choice([2, 2, 3, 4])
    ths = []
    for i in range(n):
        ops = []
        for _ in range(r.randint(1, 4)):
            x = r.random()
            if x < 0.8:
                ops.append(["get", r.randint(0, 1), r.randint(0, nser - 1)])
            elif x < 0.9:
                ops.append(["plain", r.randint(0, 1)])
            else:
                ops.append(["all", r.randint(0, 1)])
        ths.append(ops)
    if r.random() < 0.3:
        ths[r.randint(0, n - 1)] = [[r.choice(["step", "ckpt"]), 0]]
    return {
        "family": "L", "prog": {"seed": r.randint(1, 10**9), "size": r.randint(1, 2), "wild": r.random() < 0.2, "ser": nser}, "world_seed": r.randint(1, 10**6),
        "states": r.choice([1, 1, 1, 2]), "threads": ths, "nested": r.random() < 0.35, "slow": r.randint(0, 2), "trace": r.random() < 0.85,
        "sched": r.choice(sched.KINDS), "sched_seed": r.randint(0, 10**9), "horizon": r.choice([30, 100, 300]),
        "fault": {"thread": r.randint(0, n - 1), "n": r.randint(1, 6), "errno": "EIO"} if r.random() < 0.25 else None,
    }


class LRun:
    def __init__(self, hs, scn):
        self.hs, self.scn, self.res = hs, scn, Result()
        self.found = []

    def fail(self, what, detail=""):
        self.found.append(Viol({"C20"}, what, detail))
        raise self.found[-1]

    def go(self):
        hs, scn, res = self.hs, self.scn, self.res
        w0 = lanes.make_world(scn, scn["world_seed"])
        self.runs = []
        for i in range(scn["states"]):
            t = TRun(hs, {"prog": dict(scn["prog"], seed=scn["prog"]["seed"] + (0 if i == 0 else scn["world_seed"] % 2)), "layout": {"ck": f"/simfs/data/run{i}"}, "boots": []}, "none")
            t.world = w0
            t.now_sched = {}
            t.initial_calls = []
            self.runs.append(t)
        # earlier processes write the checkpoints
        self.want = []
        simfs.boot_reset("/simfs/tmp", seed=1)
        for i, t in enumerate(self.runs):
            proc = simfs.Proc(w0, f"earlier{i}", HOME)
            with simfs.running(w0, simfs.Task(0, "W", proc, None)):
                def warm(sm):
                    t.prog.update(sm.state, i, 1)
                    sm.step()
                    self.want.append(flat(sm.state))

                t.start({}, warm)
            proc.exit()
        w = simfs.World(seed=scn["world_seed"], fs=w0.fs, keep_log=scn.get("keep_log", False))
        self.world = w
        simfs.boot_reset("/simfs/tmp", seed=2)
        proc = simfs.Proc(w, "main", HOME)
        sms = []
        with simfs.running(w, simfs.Task(90, "M", proc, None)):
            for i, t in enumerate(self.runs):
                t.world = w
                t.start({}, sms.append)
                st = sms[i].state
                if any(o[0] == "step" for th in scn["threads"] for o in th) and i == 0:
                    setattr(st, t.prog.key, getattr(st, t.prog.key) + 1)
                    self.want[0][t.prog.key] = P.canon(getattr(st, t.prog.key))
        self.sms = sms
        self.seen = {}
        self.depth = {}
        for i, t in enumerate(self.runs):
            t.prog.on_deserialize = lambda *a, i=i: self.hook(i, *a)
        w.strategy = sched.make(scn["sched"], scn["sched_seed"], len(scn["threads"]), scn["horizon"])
        if scn.get("switches") is not None:
            w.switches = {g: t for g, t in scn["switches"]}
        f = scn.get("fault")
        for n, ops in enumerate(scn["threads"]):
            def body(t, n=n, ops=ops):
                t.label = (f"H{n}", 0, 0)
                t.lines = scn["trace"]
                try:
                    self.thread(t, n, ops)
                except Viol:
                    pass

            w.spawn(f"H{n}", proc, body)
        reads = {}

        def watch(t, name, path, mut):
            if f and t.tid == f["thread"] and name in ("open-r", "read") and ".msgpack" in str(path):
                reads[t.tid] = reads.get(t.tid, 0) + 1
                if reads[t.tid] == f["n"]:
                    w.faults[t.label + (t.k,)] = {"kind": "err", "errno": f["errno"]}

        w.on_op = watch
        prev = simfs.W
        simfs.set_world(w)
        try:
            w.run_tasks()
        finally:
            simfs.set_world(prev)
            for t in self.runs:
                t.prog.on_deserialize = None
        if self.found:
            raise self.found[0]
        if w.hang:
            raise Viol({"C20"}, f"the threads do not finish: {w.hang}")
        for t in w.tasks:
            if isinstance(t.result, tuple) and t.result[:1] == ("harness-error",):
                raise t.result[1]
        # afterwards
        with simfs.running(w, simfs.Task(91, "M", proc, None)):
            for i, sm in enumerate(sms):
                for k in self.runs[i].prog.ser_fields:
                    self.check(i, k, getattr(sm.state, k), "the main thread afterwards")
                got = flat(sm.state)
                if got != self.want[i]:
                    raise Viol({"C20"}, "the state is not the restored one afterwards", lanes.diffs(self.want[i], got))
        if any(o[0] == "step" for th in scn["threads"] for o in th) and not w.fired:
            proc.kill()
            got = lanes.restored(_L(self.runs[0]), w.fs.clone())
            if not isinstance(got, tuple) or got[0] != self.want[0]:
                raise Viol({"C20"}, "a checkpoint taken while threads access lazy fields does not hold the restored values", str(got)[:300] if not isinstance(got, tuple) else lanes.diffs(self.want[0], got[0]))

    def hook(self, i, cls, state_dict, config, state, ctx):
        for _ in range(self.scn["slow"]):
            self.world.op("sleep", "")
        if self.scn["nested"]:
            t = self.runs[i]
            # a hook may use another restored field (never in a cycle)
            order = [f for f in t.prog.ser_fields]
            classes = {n: T[1] for n, T, _ in t.prog.st.fields if n in order}
            last = order[-1]
            if classes[last] is not cls and [n for n in order if classes[n] is cls] != []:
                self.check(i, last, getattr(state, last), "a deserialize hook")
                self.res.hit("nested-access")

    def check(self, i, k, v, who):
        want = self.want[i][k]
        got = P.canon(v)
        if got != want:
            self.fail(f"{who}: field {k} is not the restored value", f"got {P.show(got, 200)}, want {P.show(want, 200)}")
        old = self.seen.setdefault((i, k), v)
        if old is not v:
            self.fail(f"{who}: field {k} is another object than an earlier access got")

    def thread(self, t, n, ops):
        for o in ops:
            i = o[1] % len(self.sms)
            sm = self.sms[i]
            pr = self.runs[i].prog
            tries = 0
            while True:
                nf = len(self.world.fired)
                try:
                    if o[0] == "get":
                        if pr.ser_fields:
                            k = pr.ser_fields[o[2] % len(pr.ser_fields)]
                            self.check(i, k, getattr(sm.state, k), f"thread {n}")
                    elif o[0] == "all":
                        for k in pr.ser_fields:
                            self.check(i, k, getattr(sm.state, k), f"thread {n}")
                    elif o[0] == "plain":
                        if P.canon(getattr(sm.state, pr.key)) != self.want[i][pr.key]:
                            self.fail(f"thread {n}: a plain field has changed")
                    elif o[0] == "step":
                        sm.step()
                    else:
                        sm.checkpoint("/simfs/data/explicit")
                    self.res.steps += 1
                    break
                except Exception as e:
                    mine = [x for x in self.world.fired[nf:] if x[0] == t.label]
                    tries += 1
                    if mine and tries < 3:
                        self.res.hit("retried-after-fault")
                        continue
                    if tries and isinstance(e, OSError) and o[0] == "ckpt" and tries > 1:
                        break
                    import traceback

                    self.fail(f"thread {n}: {o[0]} raised {type(e).__name__}: {str(e)[:200]} because of another thread", traceback.format_exc()[-1500:])


class _L:
    def __init__(self, t):
        self.t, self.args = t, {}


def run(hs, scn, prop):
    l = LRun(hs, scn)
    res = l.res
    try:
        l.go()
        res.hit("finished")
    except Viol as v:
        res.viol = (v.what, v.detail)
    w = l.world
    res.absorb(w)
    res.boots = 1
    res.hash = w.log.hexdigest() + w.interleave.hexdigest()[:8]
    res.interleaving = w.interleave.hexdigest()[:16]
    res.log_lines = w.log_lines
    res.switches = w.made_switches
    res.traces = {}
    res.nontrivial = len(res.switches) > len(scn["threads"])
    return res


def variants(prop, scn, res, seed):
    for v in range(5):
        r = random.Random(f"LV/{seed}/{v}")
        yield dict(scn, sched=r.choice(sched.KINDS), sched_seed=r.randint(0, 10**9), horizon=r.choice([30, 100, 300]))


def shrink(scn, res):
    if scn.get("switches") is None:
        yield dict(scn, switches=res.switches)
    else:
        sw = scn["switches"]
        size = len(sw) // 2
        while size >= 1:
            for i in range(0, len(sw), size):
                yield dict(scn, switches=sw[:i] + sw[i + size :])
            size //= 2
    for key, v in (("fault", None), ("nested", False), ("slow", 0), ("states", 1), ("trace", False)):
        if scn[key] != v:
            yield dict(scn, **{key: v})
            yield {k: x for k, x in dict(scn, **{key: v}).items() if k != "switches"}
    for i, ops in enumerate(scn["threads"]):
        for j in range(len(ops)):
            yield dict(scn, threads=scn["threads"][:i] + [ops[:j] + ops[j + 1 :]] + scn["threads"][i + 1 :])


def describe(scn):
    return {k: scn[k] for k in ("prog", "threads", "sched", "sched_seed", "nested", "slow", "fault", "trace")}
