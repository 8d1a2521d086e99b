"""Training programs whose behaviour depends only on their managed config and
state ("lanes"), compared run against run: interrupted against uninterrupted
(C02), among others against alone (C15).  Nothing here models hyperstate; the
reference is hyperstate itself in an undisturbed simulated world."""
import random

from . import prog as P
from . import sched, simfs
from .core import Result, Stop, Viol, h8, tree_diff
from .trainer import HOME, TRun, flat


class Lane:
    """One training program, restarted until it has reached its target."""

    def __init__(self, hs, spec, name, world, share=None):
        self.spec, self.name, self.world = spec, name, world
        t = TRun(hs, {"prog": spec["prog"], "layout": spec["layout"], "boots": [], "nsched": spec.get("nsched")}, "none")
        self.t = t
        if share is not None:
            t.prog = share
        t.world = world
        self.prog = t.prog
        self.args = spec["args"]
        self.at = {}  # counter -> (state, config)
        self.history = []  # (counter, how)
        self.outcomes = []
        self.bad = None
        self.killed = 0
        self.boots = 0
        self.done = False
        self.nth = 0
        self.fault = None
        self.trace_n = []
        # what the program itself may change: nothing scheduled or overridden
        taken = {o["path"] for o in t.overrides(self.args)}
        self.ov_paths = taken
        self.leaves = [(p, T) for p, T in leaves(self.prog.cfg) if not any(p == q or p.startswith(q + ".") for q in taken)]
        self.init_calls = []

    def prepare(self):
        self.t.prepare_files(self.args)
        init = self.args.get("init")
        if init and init[0] == "ckpt" and not self.world.fs.h_exists(init[1]):
            # an earlier run wrote it
            proc = simfs.Proc(self.world, self.name + "-earlier", HOME)
            task = simfs.Task(99, self.name + "'", proc, None)
            with simfs.running(self.world, task):
                hs, prog = self.t.hs, self.prog
                self.t.now_sched = {}
                sm = hs.StateManager(prog.cfg.cls, prog.st.cls, lambda c, x: prog.initial_state(c, x), checkpoint_key=prog.key)
                prog.update(sm.state, "earlier", 3)
                sm.checkpoint(init[1])
            proc.exit()

    # -- faults, counted in mutating operations of one process lifetime ----------

    def saw(self, t, name, path, mut):
        if mut:
            self.nth += 1
            f = self.fault
            if f is not None and self.nth == f["n"]:
                self.world.faults[t.label + (t.k,)] = f
                self.fault = None

    # -- body ---------------------------------------------------------------------

    def run(self, t):
        """Runs in task `t`; a new process per lifetime unless it is shared."""
        for b in range(self.spec.get("max_boots", 8)):
            if t.proc.ended:
                if self.spec.get("shared"):
                    return
                t.proc = simfs.Proc(self.world, f"{self.name}/{b}", HOME)
                self.world.enter(t.proc)
            t.label, t.k = (self.name, b, 0), 0
            self.boots += 1
            self.nth = 0
            fs = self.spec.get("faults", [])
            self.fault = fs[b] if b < len(fs) else None
            try:
                self.t.start(self.args, lambda sm: self.train(t, b, sm))
                self.trace_n.append(self.nth)
                if self.done:
                    return
            except simfs.SimKilled:
                self.trace_n.append(self.nth)
                self.outcomes.append("killed")
                self.killed += 1
                if self.world.hang:
                    raise
                if not t.proc.ended:
                    raise
            except (Exception, SystemExit) as e:
                self.trace_n.append(self.nth)
                self.outcomes.append(f"{type(e).__name__}: {str(e)[:160]}")
                if not t.proc.ended and not self.spec.get("shared"):
                    t.proc.kill()

    def snap(self, sm, how, light=False):
        st = sm.state
        key = getattr(st, self.prog.key)
        cur = (flat(st) if not light else None, flat(sm.config))
        self.history.append((key, how))
        old = self.at.get(key)
        if old is not None and self.bad is None:
            for i, what in ((0, "state"), (1, "config")):
                if cur[i] is not None and old[i] is not None and cur[i] != old[i]:
                    self.bad = (f"at {self.prog.key}={key} the {what} {how} is not what it was before", diffs(old[i], cur[i]))
        if not light and self.bad is None:
            # what the program told this manager about deserialization (and nobody else's) reached the values
            want = dict(map(tuple, self.spec.get("ctx", [])))
            for f in self.prog.ser_fields:
                extra = getattr(getattr(st, f), "extra", None)
                if extra is not None and dict(extra) != want:
                    self.bad = (f"at {self.prog.key}={key} the value of {f} {how} was made with the context {dict(extra)!r}, want {want!r}", "")
        if old is None or old[0] is None:
            self.at[key] = cur

    def initial(self, config, ctx):
        return self.prog.initial_state(config, ctx)

    def train(self, t, b, sm):
        spec, prog = self.spec, self.prog
        self.t.initial_calls = []
        self.t.now_sched = {}
        for k, v in spec.get("ctx", []):
            sm.set_deserialize_ctx(k, v)
        if spec.get("cfg_first"):
            sm.config
        st = sm.state
        self.snap(sm, f"after start {b}", spec.get("light") and not spec.get("full"))
        i = 0
        while getattr(st, prog.key) < spec["n"]:
            i += 1
            t.label, t.k = (self.name, b, i), 0
            key = getattr(st, prog.key)
            r = random.Random(f"{spec['useed']}/{key}")
            cfg = flat(sm.config)
            touch = None
            if spec.get("light"):
                touch = [f for f in prog.ser_fields if r.random() < 0.5]
            prog.update(st, h8(spec["useed"], sorted((k, repr(v)) for k, v in cfg.items())), min(r.choice([1, 1, 2, 5]), spec["n"] - key), touch)
            if spec.get("cfgmut") and self.leaves and r.random() < 0.6:
                p, T = r.choice(self.leaves)
                if p not in self.sched_paths(sm):
                    try:
                        P.setpath(sm.config, p, r.randint(0, 10**6) if T == "int" else r.randint(0, 10**6) / 8)
                    except AttributeError:
                        pass
            for again in range(r.choice([1, 1, 1, 2, 3]) if spec.get("again") else 1):
                sm.step()
            self.snap(sm, f"after a step of start {b}")
        self.done = True
        t.label, t.k = (self.name, b, 9999), 0
        self.final = (flat(sm.state), flat(sm.config))
        if not spec.get("shared"):
            t.proc.exit()

    def sched_paths(self, sm):
        """Fields the user set to a schedule (files and overrides of this lane)."""
        if not hasattr(self, "_sp"):
            sp = set()
            for r in self.t.expected({**self.args, "init": None if (self.args.get("init") or [""])[0] == "ckpt" else self.args.get("init")}, [], False):
                sp |= set(r.sched)
            self._sp = sp
        return self._sp


def leaves(dc, path=""):
    out = []
    for n, T, d in dc.fields:
        p = f"{path}.{n}" if path else n
        if isinstance(T, str):
            if T in ("int", "float"):
                out.append((p, T))
        elif T[0] == "dc":
            out += leaves(T[1], p)
    return out


def diffs(a, b):
    from .trainer import diff_flat

    return diff_flat(a, b)


def make_world(scn, seed=1, keep_log=False):
    fs = simfs.FS()
    fs.order = scn.get("order", 0)
    for d in (HOME, "/simfs/tmp", "/simfs/data", "/simfs/scratch/tmp"):
        fs.h_mkdirs(d)
    for d, dev in scn.get("mounts", []):
        fs.h_mkdirs(d)
        fs.h_mount(d, dev)
    return simfs.World(seed=seed, fs=fs, keep_log=keep_log)


def restored(lane, fs):
    """What one more start of the lane finds on `fs`."""
    w = simfs.World(seed=3, fs=fs)
    proc = simfs.Proc(w, "probe", HOME)
    task = simfs.Task(0, "P", proc, None)
    simfs.boot_reset("/simfs/tmp", seed=9)
    got = {}

    def use(sm):
        st = sm.state
        got["v"] = (flat(st), flat(sm.config))

    keep = lane.t.world
    lane.t.world = w
    lane.t.initial_calls, lane.t.now_sched = [], {}
    try:
        with simfs.running(w, task):
            lane.t.start(lane.args, use)
        return got.get("v")
    except (Exception, SystemExit) as e:
        return f"{type(e).__name__}: {str(e)[:200]}"
    finally:
        lane.t.world = keep
        proc.kill()
