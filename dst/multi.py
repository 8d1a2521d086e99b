"""Several simulated processes or threads at once: concurrent readers (C06),
duplicate trainers (C16), independent managers (C15)."""
import copy
import os
import random
import sys

from . import prog as P
from . import sched, simfs
from .core import Stop, Viol, h8
from .trainer import HOME, Rec, TRun, flat, flat_masked, restart_and_compare


def is_file_error(e, missing=False):
    """Is it (or was it caused by) a file error; missing: by a file or directory that is gone."""
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x is None or id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, FileNotFoundError if missing else OSError):
            return True
        todo += [x.__cause__, x.__context__]
    return False


class Call:
    """One step call of one trainer."""

    def __init__(self, actor, rec):
        self.actor, self.rec, self.status = actor, rec, "inflight"


class MRun(TRun):
    """One program; several trainers and readers on one checkpoint directory."""

    def execute(self):
        try:
            self.setup()
            self.go()
            self.after()
            self.run_probes()
        except Viol as v:
            self.res.viol = (v.what, v.detail)
        except Stop:
            self.res.hit("stopped-early")
        self.res.absorb(self.world)
        self.res.hash = self.world.log.hexdigest()
        self.res.interleaving = self.world.interleave.hexdigest()[:16]
        self.res.log_lines = self.world.log_lines
        self.res.switches = self.world.made_switches
        return self.res

    def setup(self):
        w, scn = self.world, self.scn
        self.calls = []
        self.found = []  # violations found inside tasks
        self.boot_args = {}
        self.caps0 = dict(w.fs.caps)
        self.initial_calls = []
        self.now_sched = {}
        self.tag = scn["tag"]
        self.pending = []
        self.leaves = [(p, T) for p, T in P_leaves(self.prog.cfg) if T in ("int", "float")]
        simfs.boot_reset(self.tmp, seed=scn.get("world_seed", 1))
        if scn.get("warm"):
            # earlier, undisturbed steps
            proc = simfs.Proc(w, "warm", HOME)
            t = simfs.Task(0, "W", proc, None)
            with simfs.running(w, t):
                self.start({}, lambda sm: self.warm(sm, scn["warm"]))
            proc.exit()
        w.mutations = 0
        w.strategy = sched.make(scn.get("sched", "mid"), scn.get("sched_seed", 0), len(scn["tasks"]), scn.get("horizon", 500))
        if scn.get("switches") is not None:
            w.switches = {g: t for g, t in scn["switches"]}
        w.on_op = self.watch
        self.by_task = {}
        for i, spec in enumerate(scn["tasks"]):
            proc = simfs.Proc(w, f"p{i}", HOME)
            body = self.reader if spec["kind"] == "reader" else self.trainer
            t = w.spawn(f"{spec['kind'][0].upper()}{i}", proc, lambda t, spec=spec, body=body: self.body(t, spec, body))
            self.by_task[t.tid] = spec
        self.active_writes = 0

    def warm(self, sm, n):
        for i in range(n):
            self.change(sm, "warm", i)
            rec = self.record(sm)
            c = Call("warm", rec)
            self.calls.append(c)
            sm.step()
            c.status = "ok"

    def body(self, t, spec, body):
        try:
            body(t, spec)
        except Viol as v:
            self.found.append(v)
        except Stop:
            pass

    def go(self):
        w = self.world
        prev = simfs.W
        simfs.set_world(w)
        try:
            w.run_tasks()
        finally:
            simfs.set_world(prev)
        if self.found:
            raise self.found[0]
        if w.hang:
            self.fail({self.tag}, f"the run does not end: {w.hang}", fatal=True)

    # -- trainer -----------------------------------------------------------

    def change(self, sm, actor, i, inc=1):
        st = sm.state
        self.prog.update(st, f"{actor}/{i}", inc)
        if self.leaves and self.scn.get("cfgmut", True):
            r = random.Random(f"cm/{actor}/{i}")
            p, T = r.choice(self.leaves)
            P.setpath(sm.config, p, r.randint(0, 10**6) if T == "int" else r.randint(0, 10**6) / 8)

    def record(self, sm):
        st = sm.state
        r = Rec("auto", getattr(sm.state, self.prog.key), None, {}, None)
        # contents as canonical forms: loads every field
        r._flat = (flat(sm.config), {}, flat(st))
        return r

    def trainer(self, t, spec):
        w = self.world
        for life in range(spec.get("lives", 1)):
            if t.proc.ended:
                t.proc = simfs.Proc(w, f"{t.name}/{life}", HOME)
                w.enter(t.proc)
            t.label, t.k = (t.name, life, 0), 0
            try:
                self.start({}, lambda sm: self.train(t, spec, life, sm))
                break
            except simfs.SimKilled:
                self.res.hit("crash")
                for c in self.calls:
                    if c.actor == t.name and c.status == "inflight":
                        c.status = "dead"
                if w.hang:
                    raise
            except (Exception, SystemExit) as e:
                # starting failed: the checkpoint was retired meanwhile
                self.res.hit("start-raised")
                if self.tag == "C06" or not is_file_error(e, missing=True):
                    self.fail({self.tag}, f"{t.name}: starting raised {type(e).__name__}: {str(e)[:200]}", fatal=True)

    def train(self, t, spec, life, sm):
        res = self.res
        if spec.get("kind") == "trainer" and self.tag == "C16":
            a0 = self.max_acked()
            m0 = self.world.mutations
            try:
                rec = self.record(sm)
            except Exception as e:
                if not is_file_error(e):
                    self.fail({"C16"}, f"{t.name}: restoring raised {type(e).__name__}: {str(e)[:200]}", fatal=True)
                res.hit("restore-raised")
                return
        n = spec["n"]
        for i in range(n):
            t.label, t.k = (t.name, life, i + 1), 0
            try:
                self.change(sm, f"{t.name}/{life}", i, spec.get("inc", [1])[i % len(spec.get("inc", [1]))])
                rec = self.record(sm)
            except Exception as e:
                if self.tag == "C06" or not is_file_error(e):
                    self.fail({self.tag}, f"{t.name}: update raised {type(e).__name__}: {str(e)[:200]}", fatal=True)
                return
            c = Call(t.name, rec)
            self.calls.append(c)
            try:
                sm.step()
                c.status = "ok"
                res.steps += 1
            except simfs.SimKilled:
                c.status = "dead"
                raise
            except Exception as e:
                c.status = "raised"
                res.hit("step-raised")
                if self.tag == "C06":
                    self.fail({"C06"}, f"{t.name}: step raised {type(e).__name__}: {str(e)[:200]} while others only read", fatal=True)
            if spec.get("again") and i % 2:
                try:
                    sm.step()
                except Exception as e:
                    if self.tag == "C06":
                        self.fail({"C06"}, f"{t.name}: a repeated step raised {type(e).__name__}: {str(e)[:200]}", fatal=True)
            self.snap_now(t, 1.0 if self.tag == "C16" else 0.0)

    def max_acked(self):
        ks = [c.rec.key for c in self.calls if c.status == "ok"]
        return max(ks) if ks else None

    # -- watching -----------------------------------------------------------

    def watch(self, t, name, path, mut):
        spec = self.by_task.get(t.tid)
        if spec is None:
            return
        if spec["kind"] == "reader":
            if mut and not (name == "mkdir" and (self.ck + "/").startswith(os.path.normpath(os.path.join(HOME, path)).rstrip("/") + "/")):
                self.found.append(Viol({"C06"}, f"{t.name}: reading the checkpoint directory performs {name} on {path}"))
        elif mut:
            self.active_writes += 1
            if self.tag == "C16":
                self.snap_now(t, self.scn.get("probe_rate", 0.1))

    def snap_now(self, t, rate):
        if self.probe_rng.random() < rate:
            self.pending.append((self.fs_clone(), t.label, t.k, self.max_acked(), len(self.calls)))

    def run_probes(self):
        pr = self.pending
        only = self.scn.get("probe_only")
        idx = list(range(len(pr)))
        if only is not None:
            idx = [only] if only < len(pr) else []
        elif len(idx) > self.scn.get("max_probes", 12):
            idx = sorted(random.Random(f"pp/{self.scn.get('probe_seed')}").sample(idx, self.scn.get("max_probes", 12)))
        for i in idx:
            fs, label, k, acked, n = pr[i]
            self.res.probe_idx = i
            self.res.probes += 1
            self.res.states.add(fs.digest()[:16])
            self.probe_at(fs, acked, n, f"{label[0]} operation {label[2]} system call {k}")
        self.res.probe_idx = None

    def probe_at(self, fs, acked, n, where):
        exp = [c.rec for c in self.calls[:n] if acked is None or c.rec.key >= acked]
        if acked is None:
            exp.append(self.fresh())
        restart_and_compare(self, fs, {}, exp, where, {self.tag})

    def fresh(self):
        r = self.source({})
        return r

    # -- reader -----------------------------------------------------------

    def reader(self, t, spec):
        for i in range(spec["n"]):
            t.label, t.k = (t.name, 0, i), 0
            if t.proc.ended:
                return
            acked = self.max_acked()
            w0 = self.active_writes
            got = {}

            def use(sm):
                if spec.get("cfg_first", True):
                    got["cfg"] = flat(sm.config)
                st = sm.state
                got["cfg"] = flat(sm.config)
                for f in self.prog.ser_fields:
                    try:
                        getattr(st, f)
                    except Exception:
                        if not spec.get("retry"):
                            raise
                got["st"] = flat(st)

            for _ in range(spec.get("pause", 0)):
                self.world.op("sleep", "")
            acked = self.max_acked()
            w0 = self.active_writes
            try:
                self.start({"dir": True}, use)
            except simfs.SimKilled:
                raise
            except Exception as e:
                if not is_file_error(e, missing=True):
                    self.fail({"C06"}, f"{t.name}: opening the checkpoint directory raised {type(e).__name__}: {str(e)[:300]}, not a file error", fatal=True)
                if self.active_writes == w0:
                    self.fail({"C06"}, f"{t.name}: opening raised {type(e).__name__}: {str(e)[:200]} although nothing was written meanwhile", fatal=True)
                self.res.hit("reader-file-error")
                continue
            exp = [c.rec for c in self.calls if acked is None or c.rec.key >= acked]
            if acked is None:
                exp.append(self.fresh())
            hit = [r for r in exp if r.content()[2] == got["st"]]
            if not hit:
                key = got["st"].get(self.prog.key)
                self.fail({"C06"}, f"{t.name}: read a state with {self.prog.key}={key} that is no complete checkpoint at or after {acked} (allowed: {sorted(r.key for r in exp)})", fatal=True)
            hit2 = [r for r in hit if r.content()[0] == got["cfg"] or (r.kind == "fresh" and flat_masked(self.prog.default_config(), {}) == got["cfg"])]
            if not hit2:
                self.fail({"C06"}, f"{t.name}: read the state of step {hit[0].key} with the config of another", fatal=True)
            self.res.hit("reader-ok" if hit2[0].kind == "auto" else "reader-fresh")

    # -- end -----------------------------------------------------------

    def after(self):
        w = self.world
        acked = self.max_acked()
        self.probe_at(self.fs_clone(), acked, len(self.calls), "the end")
        if self.tag == "C06":
            ok = [c for c in self.calls if c.status == "ok"]
            if ok and not any(c.status == "dead" for c in self.calls):
                restart_and_compare(self, self.fs_clone(), {}, [ok[-1].rec], "the end", {"C06"})


def P_leaves(dc, path=""):
    out = []
    for n, T, d in dc.fields:
        p = f"{path}.{n}" if path else n
        if isinstance(T, str):
            out.append((p, T))
        elif T[0] == "dc":
            out += P_leaves(T[1], p)
    return out
