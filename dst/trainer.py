"""Family T: a training program and its environment under the simulator.

A scenario is a list of process lifetimes ("boots") of one training program on
one simulated file system, each a list of operations, plus faults pinned to
(boot, operation, n-th system call).  The reference model keeps, in plain
Python objects, what every acknowledged / failed / crashed checkpoint holds and
decides after every operation and every restart what may be observed.
"""
import contextlib
import copy
import dataclasses
import io
import os
import random
import sys
from pathlib import Path

from . import prog as P
from . import simfs
from .core import Result, Stop, Viol, h8, tree_diff

HOME = "/simfs/home"
CHECKPOINT_FILES = ("config.ron", "state.ron")


class Rec:
    """What one checkpoint (or a fresh start) holds, as model objects."""

    def __init__(self, kind, key, cfg, sched, st):
        self.kind, self.key, self.cfg, self.sched, self.st = kind, key, cfg, dict(sched), st
        self.entry = None
        self.base = self  # record on disk this one was derived from
        self._flat = None

    def content(self):
        if self._flat is None:
            c = {k: v for k, v in flat(self.cfg).items() if k not in self.sched}
            self._flat = (c, dict(self.sched), flat(self.st))
        return self._flat

    def over(self, overrides):
        r = Rec(self.kind, self.key, copy.deepcopy(self.cfg), self.sched, self.st)
        r.base, r.entry = self.base, self.entry
        for ov in overrides:
            overlay(r.cfg, r.sched, ov)
        return r


def overlay(cfg, sched, ov):
    path = ov["path"]
    for p in [p for p in sched if p == path or p.startswith(path + ".")]:
        del sched[p]
    if "sched" in ov:
        sched[path] = ov["sched"]
    else:
        P.setpath(cfg, path, copy.deepcopy(ov["value"]))


def flat(v, path="", out=None, skip=()):
    """{path: canonical value}; only descends through dataclass fields."""
    if out is None:
        out = {}
    if dataclasses.is_dataclass(v) and not hasattr(type(v), "_ser_payload"):
        out[path + "<type>"] = type(v).__name__
        for f in type(v).__dataclass_fields__:
            p = f"{path}.{f}" if path else f
            if p not in skip:
                flat(getattr(v, f), p, out)
    else:
        out[path] = P.canon(v)
    return out


def diff_flat(want, got, limit=3):
    out = []
    for k in want:
        if k not in got:
            out.append(f"{k}: missing, want {P.show(want[k], 120)}")
        elif want[k] != got[k]:
            out.append(f"{k}: got {P.show(got[k], 120)}, want {P.show(want[k], 120)}")
    for k in got:
        if k not in want:
            out.append(f"{k}: unexpected {P.show(got[k], 120)}")
    return "; ".join(out[:limit]) + (f" (+{len(out) - limit} more)" if len(out) > limit else "")


def todict(v, versions=None):
    """What config_dict() is documented to return."""
    if dataclasses.is_dataclass(v):
        d = {}
        ver = versions.get(type(v).__name__) if versions else None
        if ver is not None:
            d["version"] = ver
        for f in type(v).__dataclass_fields__:
            d[f] = todict(getattr(v, f), versions)
        return d
    if isinstance(v, P.enum.Enum):
        return v.value
    if isinstance(v, dict):
        return {todict(k): todict(x, versions) for k, x in v.items()}
    if isinstance(v, list):
        return [todict(x, versions) for x in v]
    if isinstance(v, tuple):
        return tuple(todict(x, versions) for x in v)
    return v


# --------------------------------------------------------------------------
# config files (the user's, written independently of the code under test)


def gen_config_file(prog, seed, partial=True, nsched=None):
    """(text, cfg object it means, schedules)."""
    r = random.Random(f"file/{seed}")
    scheds = {}

    def section(dc, path, full):
        raw, obj = {}, P.default_of(dc)
        for n, T, d in dc.fields:
            p = f"{path}.{n}" if path else n
            isdc = not isinstance(T, str) and T[0] == "dc"
            must = d is None and (P.has_missing(T[1]) if isdc else True)
            if not full and r.random() < 0.4 and not must:
                continue
            base = T[1] if not isinstance(T, str) and T[0] == "opt" else T
            if isdc:
                rf, o = section(T[1], p, full or r.random() < 0.5)
                raw[n] = rf
                setattr(obj, n, o)
            elif base in ("int", "float") and (p, base) in prog.sched_paths and r.random() < (0.3 if nsched is None else nsched):
                s = P.gen_schedule(r, r.choice(prog.xnames), base == "int")
                scheds[p] = s
                raw[n] = s
                setattr(obj, n, 0)
            else:
                v = P.gen_value(T, r, prog.wild)
                raw[n] = v
                setattr(obj, n, v)
        return P.RawFields(dc.name, raw, dc.version), obj

    rf, obj = section(prog.cfg, "", not partial or r.random() < 0.3)
    return rf, obj, scheds


def elided(v):
    """What a file that leaves out defaults means: values equal to the default are the default (-0.0 becomes 0.0)."""
    if dataclasses.is_dataclass(v):
        v = copy.copy(v)
        for n, f in type(v).__dataclass_fields__.items():
            x = getattr(v, n)
            d = f.default if f.default is not dataclasses.MISSING else f.default_factory() if f.default_factory is not dataclasses.MISSING else f
            setattr(v, n, d if d is not f and d == x else elided(x))
    elif isinstance(v, list):
        return [elided(x) for x in v]
    elif isinstance(v, tuple):
        return tuple(elided(x) for x in v)
    elif isinstance(v, dict):
        return {k: elided(x) for k, x in v.items()}
    return v


def file_text(rf, extra=False):
    fields = dict(rf.fields)
    if extra:
        fields["zz_unknown"] = 1
    return P.ron_struct(rf.name, fields, version=rf.version)


class TRun:
    ACTOR = "T"

    def __init__(self, hs, scn, prop):
        self.hs, self.scn, self.prop = hs, scn, prop
        self.res = Result()
        pr = scn["prog"]
        self.prog = P.Program(
            pr["seed"], hs, size=pr.get("size", 3), wild=pr.get("wild", True), ser=pr.get("ser"),
            lazy=pr.get("lazy"), versioned=pr.get("versioned"), big=pr.get("big", False), key=pr.get("key"), req=pr.get("req", 0),
        )
        lay = scn["layout"]
        self.ck = lay["ck"]
        self.tmp = lay.get("tmp", "/simfs/tmp")
        fs = simfs.FS()
        fs.order = lay.get("order", 0)
        fs.h_mkdirs(HOME)
        fs.h_mkdirs("/simfs/tmp")
        fs.h_mkdirs(self.tmp)
        if lay.get("data", True):
            fs.h_mkdirs("/simfs/data")
        if lay.get("tmpdev"):
            fs.h_mount(self.tmp, 2)
        if lay.get("ckdev"):
            fs.h_mount(os.path.dirname(self.ck), 1)
        self.world = simfs.World(seed=scn.get("world_seed", 1), fs=fs, keep_log=scn.get("keep_log", False))
        self.base_caps = None
        w = self.world
        w.faults = {(self.ACTOR, f["at"][0], f["at"][1], f["at"][2]): f for f in scn.get("faults", [])}
        w.on_op = self.saw
        self.by_created = {}
        for path, seed in scn.get("bystanders", []):
            self.add_bystander(path, seed)
        # model
        self.acked = None
        self.maybes = []
        self.own = set()
        self.explicit = {}
        self.files = {}
        self.saved_trees = []
        self.excuse = False
        self.errno_fired = False
        self.crashed_once = False
        self.rmprev_done = False
        self.pending_probes = []
        self.opened = []
        self.strange = None
        self.probe_rng = random.Random(f"probe/{scn.get('probe_seed', 0)}")
        self.probe_rate = scn.get("probe_rate", 0.0)
        self.traces = {}
        self.in_write = None
        self.checks = set(scn.get("checks", ()))

    # -- small helpers -------------------------------------------------

    def fail(self, tags, what, detail="", fatal=False):
        tags = set(tags)
        if self.prop in tags:
            raise Viol(tags, what, detail)
        self.res.other.append((sorted(tags), what))
        if fatal:
            raise Stop()

    by_dirs = ()

    def add_bystander(self, path, seed):
        """A file or directory of the user's (or of another program)."""
        r = random.Random(f"by/{seed}")
        fs = self.world.fs if hasattr(self, "world") else None
        if fs.h_exists(path.rstrip("/")):
            return
        if path.endswith("/"):
            self.by_dirs = self.by_dirs + (path,)
            fs.h_mkdirs(path.rstrip("/"))
            for i in range(r.randint(0, 2)):
                fs.h_write(path + r.choice(["config.ron", "state.ron", "x.bin", "notes"]), bytes(r.getrandbits(8) for _ in range(5)))
        else:
            fs.h_write(path, bytes(r.getrandbits(8) for _ in range(r.randint(0, 9))))
        for p, n in self.nodes(path.rstrip("/")):
            n.mtime = simfs.EPOCH + r.randint(-(10**17), 10**17)

    def nodes(self, path):
        out = []

        def walk(n, p):
            out.append((p, n))
            if n.kind == "d":
                for k, c in n.data.items():
                    walk(c, p + "/" + k)

        n = self.world.fs._get(path)
        if n is not None:
            walk(n, path)
        return out

    def saw(self, t, name, path, mut):
        if name == "open-r":
            self.opened.append(path)
            self.look_at(path)
        if mut and self.in_write is not None and self.probe_rate and self.probe_rng.random() < self.probe_rate:
            self.snap(t)

    def look_at(self, path):
        p = os.path.normpath(os.path.join(HOME, path))
        if any(p.startswith(d) for d in self.by_dirs):
            self.strange = p

    def snap(self, t, when=None):
        if not self.boot_args.get("dir", True):
            return
        self.pending_probes.append(
            (self.fs_clone(), t.label, t.k if when is None else when, self.cands(self.in_write), self.acked is not None, self.boot_args, self.errno_fired)
        )

    def fs_clone(self):
        fs = self.world.fs.clone()
        fs.caps.clear()
        fs.caps.update(self.caps0)
        return fs

    def cands(self, inflight=None):
        """Records an automatic restart may restore right now (None: fresh start)."""
        out = []
        lo = self.acked.key if self.acked is not None else None
        if self.acked is not None:
            out.append(self.acked)
        for m in self.maybes + ([inflight] if inflight is not None else []):
            if lo is None or m.key >= lo:
                out.append(m)
        return out

    # -- expectations --------------------------------------------------------

    def overrides(self, args):
        out = []
        for s in args.get("overrides", []):
            ov = P.gen_override(self.prog, random.Random(f"ov/{s}"), allow_sched=args.get("ovsched", True))
            if ov is not None:
                out.append(ov)
        return out

    def source(self, args):
        """What the run starts from when there is no automatic checkpoint."""
        init = args.get("init")
        if init and init[0] == "ckpt":
            return self.explicit[init[1]]
        if init and init[0] == "file":
            rf, cfg, sched = gen_config_file(self.prog, init[2], nsched=0 if init[3:] else self.scn.get("nsched"))
            if "elide" in "".join(init[3:]):
                cfg = elided(cfg)
            return Rec("file", 0, cfg, sched, self.prog.initial_state(model=True))
        return Rec("fresh", 0, self.prog.default_config(), {}, self.prog.initial_state(model=True))

    def expected(self, args, cands, must):
        """Everything a start with these arguments may yield."""
        out = list(cands) if args.get("dir", True) else []
        if not args.get("dir", True) or not must:
            out.append(self.source(args))
        ovs = self.overrides(args)
        return [r.over(ovs) for r in out]

    # -- starting a manager ----------------------------------------------------

    def style(self, path, args):
        st = self.scn["layout"].get("style", "path")
        if "rel" in st:
            path = os.path.relpath(path, HOME)
        if "slash" in st:
            path = path + "/"
        return path if "str" in st or args.get("cli") else Path(path)

    def start(self, args, use):
        """Build the manager through the API or the command line and call use(sm)."""
        hs, prog = self.hs, self.prog
        init = args.get("init")
        ip = self.style(init[1], args) if init else None
        ckd = self.style(self.ck, args) if args.get("dir", True) else None
        ovs = [o["text"] for o in self.overrides(args)]
        if args.get("cli"):
            argv = ["prog"] + ovs
            if init:
                argv += ["--resume-from" if init[0] == "ckpt" else "--config", str(ip)]
            if ckd is not None:
                argv += ["--checkpoint-dir", str(ckd)]
            f = hs.stateful_command(prog.cfg.cls, prog.st.cls, self.initial, checkpoint_key=prog.key)(use)
            old = sys.argv
            sys.argv = argv
            try:
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    f()
            finally:
                sys.argv = old
        else:
            kw = {}
            if prog.key != "step" or args.get("explicit_key"):
                kw["checkpoint_key"] = prog.key
            if ovs or args.get("emptyov"):
                kw["overrides"] = ovs
            if args.get("ignore_extra"):
                kw["ignore_extra_fields"] = True
            if args.get("late") and ckd is not None:
                # a program that learns where to save only later
                sm = hs.StateManager(prog.cfg.cls, prog.st.cls, self.initial, ip, None, **kw)
                sm.checkpoint_dir = Path(ckd)
            else:
                sm = hs.StateManager(prog.cfg.cls, prog.st.cls, self.initial, ip, ckd, **kw)
            use(sm)

    def initial(self, config, ctx):
        self.initial_calls.append((flat_masked(config, self.now_sched), P.canon(dict(ctx))))
        return self.prog.initial_state(config, ctx)

    # -- main loop ---------------------------------------------------------------

    def execute(self):
        try:
            for b, boot in enumerate(self.scn["boots"]):
                self.boot(b, boot)
            self.finish()
            self.run_probes()
        except Viol as v:
            self.res.viol = (v.what, v.detail)
        except Stop:
            self.res.hit("stopped-early")
        self.res.absorb(self.world)
        self.res.hash = self.world.log.hexdigest()
        self.res.log_lines = self.world.log_lines
        return self.res

    def finish(self):
        pass

    def prepare_files(self, args):
        init = args.get("init")
        if init and init[0] == "file" and init[1] not in self.files:
            rf, cfg, sched = gen_config_file(self.prog, init[2], nsched=0 if init[3:] else self.scn.get("nsched"))
            text = file_text(rf, bool(args.get("ignore_extra")))
            self.world.fs.h_write(init[1], text)
            self.files[init[1]] = True
            if init[3:]:
                self.author(init[1], text, init[3], args)

    def author(self, path, text, how, args):
        """The file is written by a program that uses load() and dump()."""
        hs, cls = self.hs, self.prog.cfg.cls
        proc = simfs.Proc(self.world, "author", HOME)
        task = simfs.Task(0, self.ACTOR, proc, None)
        task.label = (self.ACTOR, -1, 0)
        simfs.boot_reset(self.tmp, seed=5)
        with simfs.running(self.world, task):
            try:
                if args.get("ignore_extra"):
                    cfg = hs.loads(cls, text, ignore_extra_fields=True)
                else:
                    cfg = hs.load(cls, path)
                if "dumps" in how:
                    with open(path, "w", encoding="utf-8") as f:
                        f.write(hs.dumps(cfg, elide_defaults="elide" in how))
                elif "elide" in how:
                    hs.dump(cfg, path if "str" in how else Path(path), elide_defaults=True)
                else:
                    hs.dump(cfg, path if "str" in how else Path(path))
            except Exception as e:
                self.fail({"C03", "C17", "C12"}, f"writing the config file raised {type(e).__name__}: {str(e)[:300]}", fatal=True)
        self.res.hit("dumped-file")

    def config_only(self, args):
        """A program without state: only the config is read."""
        hs, cls, init = self.hs, self.prog.cfg.cls, args.get("init")
        ip = self.style(init[1], args) if init else None
        ovs = [o["text"] for o in self.overrides(args)]
        got = []
        if args["cfgonly"] == "command":
            old, sys.argv = sys.argv, ["prog"] + ovs + (["--config", str(ip)] if init else [])
            try:
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    hs.command(cls)(got.append)()
            finally:
                sys.argv = old
        else:
            got.append(hs.load(cls, ip, overrides=ovs) if ovs else hs.load(cls, ip))
        cfg = got[0]
        self.op_end()
        self.check_tree("config")
        self.match_config(cfg)
        for p, text in self.now_sched.items():
            T = dict(self.prog.sched_paths).get(p)
            val = P.getpath(cfg, p)
            if not P.sched_matches(text, 0, T == "int", val):
                self.fail({"C11"}, f"boot {self.b}: scheduled field {p} = {val!r} in a program without state, schedule {text!r} starts with {P.sched_eval(text, 0)!r}")
        self.res.hit("config-only")

    def boot(self, b, boot):
        w = self.world
        args = boot.get("args", {})
        self.prepare_files(args)
        init = args.get("init")
        if init and init[0] == "ckpt" and self.explicit.get(init[1]) is None:
            self.res.hit("boot-without-source")
            return
        if boot.get("env"):
            for e in boot["env"]:
                self.environment(e)
        self.res.boots += 1
        self.b, self.boot_args = b, args
        self.expect = self.expected(args, self.cands(), self.acked is not None)
        self.cur = None  # (cfg, sched, st) model of the live objects
        self.now_sched = self.expect[0].sched if self.expect else {}
        self.cfg_seen = False
        self.loaded = set()
        self.loaded_all = False
        self.deser = []
        self.initial_calls = []
        self.ctx = {}
        self.prev_entry = None
        self.unsure = False
        self.prog.on_deserialize = self.on_deserialize
        self.prog.on_serialize = None
        proc = simfs.Proc(w, f"boot{b}", HOME)
        task = simfs.Task(0, self.ACTOR, proc, None)
        task.label = (self.ACTOR, b, 0)
        self.task = task
        simfs.boot_reset(self.tmp, seed=self.scn.get("world_seed", 1) * 1000 + b)
        dead = False
        caps = dict(w.fs.caps)
        try:
            with simfs.running(w, task):
                try:
                    self.op_begin(0)
                    if args.get("cfgonly"):
                        self.config_only(args)
                    else:
                        self.start(args, lambda sm: self.use(sm, boot))
                except simfs.SimKilled:
                    dead = True
                    if self.phase == "init":
                        self.after_failed("init")
                except simfs.SimHang:
                    self.fail(self.hang_tags(), f"boot {b}: {self.phase}: {w.hang}", fatal=True)
                except (Exception, SystemExit, KeyboardInterrupt) as e:
                    if self.phase != "init":
                        raise  # cannot be: use() handles its own
                    self.raised(e, "init")
                if not dead and boot.get("end") == "exit":
                    task.label = (self.ACTOR, b, 9999)
                    task.k = 0
                    try:
                        proc.exit()
                    except simfs.SimKilled:
                        dead = True
        finally:
            self.prog.on_deserialize = None
            w.full.clear()
            w.fs.caps.clear()
            w.fs.caps.update(caps)
        if not proc.ended:
            proc.kill()
        if dead:
            self.crashed_once = True
            self.excuse = True
            self.res.hit("crash")
        elif boot.get("end") != "exit":
            self.crashed_once = True

    def hang_tags(self):
        return {"C05", "C02", "C01", "C04", "C08", "C18"}

    def op_begin(self, i):
        w, t = self.world, self.task
        t.label = (self.ACTOR, self.b, i)
        t.k = 0
        t.trace = []
        self.traces[(self.b, i)] = t.trace
        self.phase = "init" if i == 0 else "op"
        self.fired0 = len(w.fired)
        self.opened = []
        self.strange = None
        self.tree0 = w.fs.h_tree("/simfs")
        self.mut0 = w.mutations
        self.caps0 = dict(w.fs.caps)

    def op_end(self):
        w = self.world
        w.full.clear()
        w.fs.caps.update(self.caps0)

    def fault_fired(self):
        return len(self.world.fired) > self.fired0

    def use(self, sm, boot):
        """The training program."""
        self.sm = sm
        self.op_end()
        self.check_tree("init")
        if self.boot_args.get("dir", True):
            self.res.hit("boots-with-dir")
        ops = boot["ops"]
        for i, op in enumerate(ops, 1):
            if op[0] in ("junk", "rmprev", "clock", "resurrect", "touch", "order"):
                self.environment(op)
                continue
            if op[0] == "pause":
                self.pause(sm, op[1], op[2])
                continue
            need = op[0] in ("get", "upd", "ckpt", "cfgdict") or (op[0] == "step" and len(self.expect) > 1) or (op[0] == "step" and self.cur is None and self.boot_args.get("nodirect"))
            if need and self.cur is None:
                if not self.do(["state"], 1000 + i, sm):
                    if boot.get("on_error") == "exit":
                        return
                    continue
            ok = self.do(op, i, sm)
            if not ok and (boot.get("on_error") == "exit" or op[0] == "upd"):
                return

    def do(self, op, i, sm):
        """One operation of the program.  True: it returned."""
        self.op_begin(i)
        self.phase = op[0]
        fn = getattr(self, "op_" + op[0])
        try:
            out = fn(sm, *op[1:])
        except simfs.SimKilled:
            self.op_end()
            self.after_failed(op[0], crashed=True)
            raise
        except (Exception, KeyboardInterrupt, SystemExit) as e:
            self.op_end()
            self.raised(e, op[0])
            return False
        finally:
            self.in_write_done()
        return out is not False

    def in_write_done(self):
        self.in_write = None

    # -- exceptions ----------------------------------------------------------

    def raised(self, e, what):
        w = self.world
        if isinstance(e, simfs.SimKilled):
            raise e
        fault = self.fault_fired()
        self.res.hit("raised-with-fault" if fault else "raised-without-fault")
        if fault:
            self.errno_fired = True
        tb = f"{type(e).__name__}: {str(e)[:300]}"
        if not fault and not self.allow_raise(what, e):
            tags = {
                "init": {"C01", "C02", "C05", "C17", "C12", "C07", "C18"},
                "config": {"C01", "C02", "C03", "C05", "C11", "C12", "C17", "C18"},
                "state": {"C01", "C02", "C03", "C05", "C10", "C11", "C17", "C18"},
                "get": {"C01", "C02", "C03", "C10"},
                "upd": {"C02", "C03", "C10"},
                "step": {"C02", "C03", "C05", "C08", "C11"},
                "ckpt": {"C03", "C18"},
                "cfgdict": {"C03", "C12"},
                "ctx": {"C10"},
            }[what]
            if self.rmprev_done and what == "step":
                tags |= {"C05"}
            if self.strange is not None:
                tags |= {"C07"}  # it took some other directory for a checkpoint
            self.after_failed(what)
            self.fail(tags, f"boot {self.b}: {what} raised {tb} although nothing failed", fatal=True)
        self.after_failed(what)

    def allow_raise(self, what, e):
        if what == "step" and self.excuse:
            self.excuse = False
            self.res.hit("excused-step-raise")
            return True
        if what == "ckpt" and self.ckpt_conflict:
            return True
        return False

    def after_failed(self, what, crashed=False):
        """Footprint and bookkeeping after a call that raised or died."""
        if what == "step":
            self.unsure = True  # which entry the program takes to be its latest
        if what == "step" and self.step_rec is not None:
            self.maybes.append(self.step_rec)
        if what == "ckpt":
            self.explicit_after(crashed)
        fault = self.fault_fired()
        if fault or crashed:
            self.excuse = True
        self.check_tree(what, ok=False, crashed=crashed)
        if what in ("step", "ckpt") and self.probe_rate:
            self.in_write = None
            self.snap(self.task, when="after")
        if what in ("step", "ckpt"):
            self.step_rec = None

    # -- file tree footprint ------------------------------------------------------

    STRICT = {"open-w", "write", "sendfile", "mkdir", "rename", "truncate", "fsync", "read"}

    def check_tree(self, what, ok=True, crashed=False):
        w = self.world
        if w.mutations == self.mut0:
            return
        t1 = w.fs.h_tree("/simfs")
        added, removed, changed = tree_diff(self.tree0, t1)
        ckrel = self.ck[len("/simfs/"):]
        tmprel = self.tmp[len("/simfs/"):]
        target = self.target[len("/simfs/"):] if what == "ckpt" else None
        use_dir = self.boot_args.get("dir", True)
        fired = w.fired[self.fired0:]
        strict = ok or (
            not crashed and len(fired) == 1 and not fired[0][2].endswith("*")
            and (fired[0][3] in self.STRICT or (fired[0][3] in ("close", "open-r") and not fired[0][5]))
            and fired[0][2] not in ("disk-full",)
        )
        # 1. what may change at all
        before_entries = {p.split("/")[0] for p in (q[len(ckrel) + 1:] for q in self.tree0 if q.startswith(ckrel + "/")) if p}
        after_entries = {p.split("/")[0] for p in (q[len(ckrel) + 1:] for q in t1 if q.startswith(ckrel + "/")) if p}
        new_entries = after_entries - before_entries
        gone_entries = before_entries - after_entries

        def where(p):
            if p.startswith(tmprel + "/") and p != tmprel + "/":
                return "tmp"
            if target and (p == target or p.startswith(target + "/") or p.startswith(target + ".")):
                return "target"
            if use_dir and p.startswith(ckrel + "/"):
                e = p[len(ckrel) + 1:].split("/")[0]
                if e == "":
                    return "ckdir"
                if what == "step" and (e in new_entries or e in self.own):
                    return "own"
                return "alien"
            if what == "init" and use_dir and (ckrel + "/").startswith(p):
                return "ckdir"
            return "alien"

        bad = [(k, p) for k, ps in (("added", added), ("removed", removed), ("changed", changed)) for p in ps if where(p) == "alien"]
        if bad:
            self.fail({"C08"} | ({"C17"} if any(p[len("simfs/"):] in self.files or self.is_source(p) for _, p in bad) else set())
                      | ({"C18"} if any(self.in_explicit(p) for _, p in bad) else set())
                      | ({"C07", "C16"} if False else set()),
                      f"boot {self.b}: {what} {bad[0][0]} a file that is not its own: /simfs/{bad[0][1]}", repr(bad[:6]))
        if what not in ("step", "ckpt", "init") and (added or removed or changed):
            self.fail({"C08"}, f"boot {self.b}: {what} wrote files: {(added + removed + changed)[:3]}")
        # 2. leftovers
        self.own |= new_entries if what == "step" else set()
        self.own -= gone_entries
        tmp_left = [p for p in t1 if p.startswith(tmprel + "/") and p != tmprel + "/" and p not in self.tree0]
        if strict and tmp_left:
            self.fail({"C08"} if ok else {"C05"}, f"boot {self.b}: {what} left temporary files behind: {tmp_left[:3]}"
                      + ("" if ok else f" (after a failing {fired[0][3]}: {fired[0][2]})"))
        if what == "step":
            rec = self.step_rec
            if ok:
                if not use_dir:
                    if added or removed or changed:
                        self.fail({"C08"}, f"boot {self.b}: step without checkpoint directory wrote {(added + removed + changed)[:3]}")
                    return
                if self.same_key:
                    if new_entries or gone_entries & {self.prev_entry}:
                        self.fail({"C08", "C02"}, f"boot {self.b}: a repeated step changed the checkpoint directory: +{sorted(new_entries)} -{sorted(gone_entries)}")
                else:
                    if len(new_entries) != 1 and not self.entry_exists(rec):
                        self.fail({"C08", "C01"}, f"boot {self.b}: step created {len(new_entries)} entries in the checkpoint directory: {sorted(new_entries)}")
                    if not fired and not self.unsure and self.prev_entry is not None and self.prev_entry in after_entries and self.prev_entry not in new_entries:
                        self.fail({"C08"}, f"boot {self.b}: after step the previous checkpoint {self.prev_entry} is still there")
                for e in new_entries:
                    rec.entry = e
            else:
                cand = [e for e in new_entries if not e.endswith(".tmp")]
                if len(cand) == 1:
                    rec.entry = cand[0]
                if strict:
                    if any(e.endswith(".tmp") for e in new_entries) or len(new_entries) > 1:
                        self.fail({"C05"}, f"boot {self.b}: a step failing in {fired[0][3]} ({fired[0][2]}) left a partial copy: {sorted(new_entries)}")
                    if not cand and self.prev_entry in before_entries & after_entries:
                        pre = ckrel + "/" + self.prev_entry + "/"
                        if any(p.startswith(pre) for p in added + removed + changed):
                            self.fail({"C04", "C05"}, f"boot {self.b}: a failing step damaged the existing checkpoint {self.prev_entry}")
        if what == "ckpt" and strict:
            stray = [p for p in added if where(p) == "target" and not (p == target or p.startswith(target + "/"))]
            if stray:
                self.fail({"C18", "C05"}, f"boot {self.b}: explicit checkpoint left {stray[:3]}")
            if ok and use_dir and self.prev_entry in gone_entries:
                self.fail({"C18"}, f"boot {self.b}: explicit checkpoint removed the automatic one")

    def entry_exists(self, rec):
        return any(m.entry is not None and m.key == rec.key and m.entry in self.own for m in self.maybes)

    def is_source(self, p):
        init = self.boot_args.get("init")
        return bool(init) and ("/simfs/" + p).startswith(init[1])

    def in_explicit(self, p):
        return any(("/simfs/" + p).startswith(x + "/") for x in self.explicit)

    # -- operations -------------------------------------------------------------

    step_rec = None
    same_key = False
    target = None
    ckpt_conflict = False
    phase = "init"
    boot_args = {}

    def op_config(self, sm):
        cfg = sm.config
        self.op_end()
        self.check_tree("config")
        self.match_config(cfg)

    def match_config(self, cfg):
        if self.cur is not None:
            self.check_config(cfg)
            return
        keep = [r for r in self.expect if flat_masked(cfg, r.sched) == r.content()[0]]
        if not keep:
            self.config_mismatch(cfg, self.expect)
        self.expect = keep
        self.now_sched = keep[0].sched
        self.cfg_seen = True

    def config_mismatch(self, cfg, recs):
        ovs = self.overrides(self.boot_args)
        best = None
        for r in recs:
            d = {k for k, v in r.content()[0].items() if flat_masked(cfg, r.sched).get(k, ...) != v}
            if best is None or len(d) < len(best[0]):
                best = (d, r)
        if best is None:
            raise Stop()
        d, r = best
        tags = {"C12", "C17", "C11"} if r.kind in ("fresh", "file") else {"C01", "C02", "C03", "C04", "C12", "C17", "C11", "C18"}
        if any(p == o["path"] or p.startswith(o["path"] + ".") for p in d for o in ovs):
            tags |= {"C12"}
        self.fail(tags, f"boot {self.b}: config is not that of any checkpoint it may be restored from ({r.kind} {r.key}): "
                  + diff_flat(r.content()[0], flat_masked(cfg, r.sched)), fatal=True)

    def check_config(self, cfg):
        c, sched, st = self.cur.cfg, self.cur.sched, self.cur.st
        got = flat_masked(cfg, sched)
        want = {k: v for k, v in flat(c).items() if k not in sched}
        if got != want:
            self.fail({"C11", "C02", "C03", "C12"}, f"boot {self.b}: config changed by itself: {diff_flat(want, got)}", fatal=True)
        if self.state_loaded:
            for p, text in sched.items():
                T = dict(self.prog.sched_paths).get(p)
                xname = text.split(":")[0]
                val = P.getpath(cfg, p)
                xs = {self.applied.get(xname), getattr(st, xname)}
                if not any(P.sched_matches(text, x, T == "int", val) for x in xs if x is not None):
                    self.fail({"C11", "C02"}, f"boot {self.b}: scheduled field {p} = {val!r} at {xname}={getattr(st, xname)}, schedule {text!r} gives {P.sched_eval(text, getattr(st, xname))!r}")

    state_loaded = False

    def op_state(self, sm):
        first = self.cur is None
        st = sm.state
        self.op_end()
        self.check_tree("state")
        if not first:
            if not self.state_loaded:
                self.state_loaded = True
            return
        ser = set(self.prog.ser_fields)
        part = flat(st, skip=ser)
        cfg = sm.config
        keep = [r for r in self.expect if {k: v for k, v in r.content()[2].items() if k not in ser} == part]
        if not keep:
            self.state_mismatch(part, self.expect, ser, getattr(st, self.prog.key, None))
        self.expect = keep
        self.match_config(cfg)
        keep = self.expect
        kinds = {r.kind for r in keep}
        if self.opened and (self.acked is not None or keep[0].kind in ("auto", "explicit")):
            extra = [p for p in self.opened if not p.endswith(CHECKPOINT_FILES) and not self.dirnode(p) and p not in self.files]
            if extra and keep[0].kind in ("auto", "explicit"):
                self.fail({"C10"}, f"boot {self.b}: restoring the state read data of fields that were not accessed: {extra[:3]}")
        contents = []
        for r in keep:
            if r.content() not in contents:
                contents.append(r.content())
        if len(contents) > 1:
            full = flat(st)
            keep = [r for r in keep if r.content()[2] == full]
            if not keep:
                self.state_mismatch(full, self.expect, set(), getattr(st, self.prog.key))
            self.loaded |= ser
        # records with equal contents: initial_state tells which one it is
        keep.sort(key=lambda r: (r.kind in ("fresh", "file")) != bool(self.initial_calls))
        rec = keep[0]
        self.choose(rec)
        if rec.kind in ("fresh", "file"):
            self.loaded |= ser
            want = (flat_masked(rec.cfg, rec.sched), P.canon(dict(self.ctx)))
            if len(self.initial_calls) != 1:
                self.fail({"C17"}, f"boot {self.b}: initial_state called {len(self.initial_calls)} times")
            elif self.initial_calls[0] != want:
                self.fail({"C17", "C10", "C12"}, f"boot {self.b}: initial_state called with another config or context")
        elif self.initial_calls:
            self.fail({"C17"}, f"boot {self.b}: initial_state called although a checkpoint is restored")
        self.state_loaded = True
        self.applied = {x: getattr(self.cur.st, x) for x in self.prog.xnames}
        self.check_config(cfg)

    def choose(self, rec):
        """The restart restored `rec`: the model follows."""
        base = rec.base
        if base.kind == "auto" and self.boot_args.get("dir", True):
            self.acked = base
            self.maybes = []
            self.prev_entry = base.entry
            self.res.hit("restored-auto")
        elif self.boot_args.get("dir", True):
            self.maybes = []
            self.prev_entry = None
            self.res.hit("started-" + base.kind)
        self.cur = Rec("live", rec.key, copy.deepcopy(rec.cfg), rec.sched, copy.deepcopy(rec.st))
        self.now_sched = self.cur.sched
        self.state_loaded = False
        self.applied = {}

    def dirnode(self, p):
        n = self.world.fs._get(p)
        return n is not None and n.kind == "d"

    def state_mismatch(self, part, recs, ser, key):
        tags = {"C01", "C02"}
        if self.errno_fired:
            tags |= {"C04", "C05"}
        elif self.crashed_once:
            tags |= {"C05"}
        keys = sorted({(r.kind, r.key) for r in recs})
        r = min(recs, key=lambda r: len([k for k, v in r.content()[2].items() if k not in ser and part.get(k) != v]))
        if key not in [k for _, k in keys]:
            tags |= {"C07", "C17", "C04" if self.errno_fired else "C01", "C08"}
            what = f"restarted at {self.prog.key}={key}, may only be one of {keys}"
        else:
            tags |= {"C03"}
            what = "restored state is not that of any one checkpoint"
        if any(x.kind == "explicit" for x in recs):
            tags |= {"C18"}
        if recs and all(x.kind in ("fresh", "file") for x in recs):
            tags = {"C17", "C02"}
        self.fail(tags, f"boot {self.b}: {what}: " + diff_flat({k: v for k, v in r.content()[2].items() if k not in ser}, part), fatal=True)

    def op_get(self, sm, idx, cd=None):
        if not self.prog.ser_fields:
            return
        f = self.prog.ser_fields[idx % len(self.prog.ser_fields)]
        n0 = len(self.deser)
        # the program may be working in another directory by now
        if cd:
            self.task.proc.cwd = cd
        try:
            v = getattr(sm.state, f)
        finally:
            self.task.proc.cwd = HOME
        self.op_end()
        self.check_tree("get")
        got, want = P.canon(v), P.canon(getattr(self.cur.st, f))
        if got != want:
            self.fail({"C01", "C02", "C03", "C04", "C10"}, f"boot {self.b}: field {f}: got {P.show(got, 200)}, want {P.show(want, 200)}", fatal=True)
        reads = [p for p in self.opened if not self.dirnode(p)]
        if f in self.loaded and reads:
            self.fail({"C10"}, f"boot {self.b}: accessing the loaded field {f} again read {reads[:2]}")
        if len(self.deser) - n0 > 1:
            self.fail({"C10"}, f"boot {self.b}: one access to {f} deserialized {len(self.deser) - n0} times")
        if f in self.loaded and len(self.deser) > n0:
            self.fail({"C10"}, f"boot {self.b}: field {f} was deserialized again")
        if getattr(sm.state, f) is not v:
            self.fail({"C10"}, f"boot {self.b}: two accesses to {f} give different objects")
        self.loaded.add(f)
        if n0 != len(self.deser):
            self.res.hit("lazy-load")

    def on_deserialize(self, cls, state_dict, config, state, ctx):
        """Called inside the program's own deserialize()."""
        self.deser.append(cls.__name__)
        if self.phase not in ("get", "upd", "step", "ckpt", "state"):
            self.fail({"C10"}, f"boot {self.b}: deserialize called during {self.phase}")
        if self.phase == "state" and len(self.expect) <= 1:
            self.fail({"C10"}, f"boot {self.b}: restoring the state deserialized a field that was not accessed")
        if P.canon(dict(ctx)) != P.canon(dict(self.ctx)):
            self.fail({"C10", "C02"}, f"boot {self.b}: deserialize called with context {ctx!r}, want {self.ctx!r}")
        if self.cur is not None:
            if flat_masked(config, self.cur.sched) != {k: v for k, v in flat(self.cur.cfg).items() if k not in self.cur.sched}:
                self.fail({"C10"}, f"boot {self.b}: deserialize called with another config")
            if flat(config) != flat(self.sm.config):
                self.fail({"C10"}, f"boot {self.b}: deserialize called with a config that is not the current one")
            k = getattr(state, self.prog.key, None)
            if k != getattr(self.cur.st, self.prog.key):
                self.fail({"C10"}, f"boot {self.b}: deserialize called with another state ({self.prog.key}={k})")
        self.res.hit("deserialize")

    def op_upd(self, sm, useed, inc, touch=None):
        m = copy.deepcopy(self.cur.st)
        tl = None if touch is None else [self.prog.ser_fields[i % len(self.prog.ser_fields)] for i in touch] if self.prog.ser_fields else []
        st = sm.state
        self.state_loaded or self.note_loaded()
        # the update reads and writes field by field: the model goes first so
        # that deserialize() may be compared with the state before the update
        self.prog.update(st, useed, inc, tl)
        self.prog.update(m, useed, inc, tl)
        self.op_end()
        self.check_tree("upd")
        self.cur.st = m
        ser = set(self.prog.ser_fields)
        got, want = flat(st, skip=ser), {k: v for k, v in flat(m).items() if k not in ser}
        if got != want:
            self.fail({"C02", "C10", "C03"}, f"boot {self.b}: after an update: {diff_flat(want, got)}", fatal=True)

    def note_loaded(self):
        self.state_loaded = True
        self.applied = {x: getattr(self.cur.st, x) for x in self.prog.xnames}

    def op_step(self, sm):
        use_dir = self.boot_args.get("dir", True)
        if self.cur is None:
            self.choose(self.expect[0])
        st = self.cur.st
        key = getattr(st, self.prog.key)
        if self.acked is not None and use_dir and key < self.acked.key:
            return  # a counter that goes back is outside the domain
        rec = Rec("auto", key, copy.deepcopy(self.cur.cfg), self.cur.sched, copy.deepcopy(st))
        self.step_rec = rec if use_dir else None
        self.same_key = self.acked is not None and self.acked.key == key
        self.in_write = rec if use_dir else None
        self.ndes = len(self.deser)
        sm.step()
        self.in_write = None
        self.op_end()
        self.res.steps += 1
        self.state_loaded = True
        self.applied = {x: getattr(st, x) for x in self.prog.xnames}
        self.check_tree("step")
        if use_dir and not self.same_key:
            self.loaded |= set(self.prog.ser_fields)
            self.loaded_all = True
        if use_dir:
            if self.same_key:
                if rec.content() != self.acked.content():
                    self.maybes.append(rec)
            else:
                # a failed call may already have saved this step
                old = [m for m in self.maybes if m.key == key and m.entry in self.own and m.entry is not None and m.entry != rec.entry]
                self.acked = old[0] if old else rec
                self.maybes = [rec] if old and old[0].content() != rec.content() else []
                self.prev_entry = self.acked.entry
                if len(self.saved_trees) < 3 and rec.entry:
                    self.saved_trees.append((rec.entry, key, self.world.fs.h_tree(self.ck + "/" + rec.entry)))
        had_excuse = self.excuse
        if not self.fault_fired():
            self.excuse = False
        if self.fault_fired():
            self.excuse = True
            self.res.hit("step-ok-despite-fault")
        self.unsure = self.fault_fired()
        self.step_rec = None
        self.check_config(sm.config)
        self.check_live(sm, "step")
        if use_dir and (self.probe_rate or had_excuse or self.fault_fired()):
            self.snap(self.task, when="after")

    def check_live(self, sm, what):
        """Checkpointing must not alter the live objects."""
        if not self.loaded_all:
            return
        got, want = flat(sm.state), flat(self.cur.st)
        if got != want:
            self.fail({"C03", "C02"}, f"boot {self.b}: {what} changed the live state: {diff_flat(want, got)}", fatal=True)

    def op_ckpt(self, sm, path):
        self.target = path
        fs = self.world.fs
        self.tdir = fs.h_tree(path) if fs.h_exists(path) else None
        self.ckpt_conflict = fs.h_exists(path) or not fs.h_isdir(os.path.dirname(path))
        self.tent = fs.h_listdir(path)
        rec = Rec("explicit", getattr(self.cur.st, self.prog.key), copy.deepcopy(self.cur.cfg), self.cur.sched, copy.deepcopy(self.cur.st))
        self.ckpt_rec = rec
        self.in_write = None
        self.ck_probe(path)
        sm.checkpoint(self.style_target(path))
        self.op_end()
        if self.tdir is not None and (not fs.h_isdir(path) or self.tent):
            if fs.h_tree(path) != self.tdir:
                self.fail({"C18", "C08"}, f"boot {self.b}: explicit checkpoint overwrote {path}", fatal=True)
            self.fail({"C18"}, f"boot {self.b}: explicit checkpoint onto the existing {path} did not raise", fatal=True)
        self.check_tree("ckpt")
        if not fs.h_isdir(path):
            self.fail({"C18"}, f"boot {self.b}: explicit checkpoint returned without creating {path}", fatal=True)
        self.explicit[path] = rec
        self.loaded |= set(self.prog.ser_fields)
        self.loaded_all = True
        self.res.hit("explicit-checkpoint")
        self.check_live(sm, "checkpoint")
        self.pending_probes.append((self.fs_clone(), self.task.label, "explicit", [rec], True, {"dir": False, "init": ["ckpt", path]}, self.errno_fired))

    def ck_probe(self, path):
        """Crash probes during an explicit checkpoint."""
        if not self.probe_rate:
            return
        run = self

        def on_op(t, name, p, mut):
            TRun.saw(run, t, name, p, mut)
            if mut and run.phase == "ckpt" and run.probe_rng.random() < run.probe_rate:
                run.snap_explicit(t)

        self.world.on_op = on_op

    def snap_explicit(self, t):
        fs = self.world.fs
        if self.tdir is None:
            if fs.h_exists(self.target):
                self.pending_probes.append((self.fs_clone(), t.label, t.k, [self.ckpt_rec], True, {"dir": False, "init": ["ckpt", self.target]}, self.errno_fired))
        elif self.tent or not fs.h_isdir(self.target):
            if fs.h_tree(self.target) != self.tdir:
                self.fail({"C18"}, f"boot {self.b}: explicit checkpoint touched the existing {self.target}")

    def style_target(self, path):
        st = self.scn["layout"].get("style", "")
        path = os.path.relpath(path, HOME) if "rel" in st else path
        return path + "/" if "slash" in st else Path(path) if st == "path" else path

    def explicit_after(self, crashed):
        fs, path = self.world.fs, self.target
        if self.tdir is not None and (self.tent or not fs.h_isdir(path)):
            if fs.h_tree(path) != self.tdir:
                self.fail({"C18"}, f"boot {self.b}: a failed explicit checkpoint changed the existing {path}", fatal=True)
        elif fs.h_exists(path) and (self.tdir is None or fs.h_listdir(path)):
            # published although the call did not return: must be complete
            self.pending_probes.append((self.fs_clone(), self.task.label, "after-explicit", [self.ckpt_rec], True, {"dir": False, "init": ["ckpt", path]}, self.errno_fired))
            self.explicit[path] = self.ckpt_rec
            self.res.hit("explicit-published-by-failed-call")

    def op_cfgdict(self, sm):
        d = sm.config_dict()
        self.op_end()
        self.check_tree("cfgdict")
        versions = {"Config": self.prog.cfg.version} if self.prog.cfg.version is not None else {}
        want = P.canon(todict(sm.config, versions))
        if P.canon(d) != want:
            self.fail({"C03", "C12"}, f"boot {self.b}: config_dict() is not the config: {P.show(P.canon(d), 200)} want {P.show(want, 200)}")
        self.check_config(sm.config)

    def op_ctx(self, sm, key, val):
        if self.cur is not None or self.state_loaded_any(sm):
            return
        sm.set_deserialize_ctx(key, val)
        self.ctx[key] = val
        self.op_end()

    def state_loaded_any(self, sm):
        return self.cur is not None

    # -- the environment -------------------------------------------------------

    def environment(self, op):
        w = self.world
        if op[0] == "junk":
            self.add_bystander(op[1], op[2])
        elif op[0] == "clock":
            w.now = max(1, w.now + op[1])
            w.start += op[1]
        elif op[0] == "order":
            w.fs.order = op[1]
        elif op[0] == "touch":
            r = random.Random(f"touch/{op[1]}")
            for p, n in self.nodes(self.ck):
                n.mtime = n.atime = simfs.EPOCH + r.randint(-(10**17), 10**17)
        elif op[0] == "resurrect":
            # an older complete checkpoint comes back (say, from a backup)
            if self.saved_trees and w.fs.h_isdir(self.ck):
                name, key, tree = self.saved_trees[op[1] % len(self.saved_trees)]
                if self.acked is not None and key < self.acked.key and not w.fs.h_exists(self.ck + "/" + name):
                    for p, data in tree.items():
                        if data is not None:
                            w.fs.h_write(self.ck + "/" + name + "/" + p, data)
                    self.own.add(name)
                    self.res.hit("resurrected")
        elif op[0] == "rmprev":
            if self.acked is not None and self.loaded_all and self.cur is not None and self.boot_args.get("dir", True):
                for e in list(self.own):
                    w.fs.h_remove(self.ck + "/" + e)
                self.own.clear()
                self.acked = None
                self.maybes = []
                self.excuse = True
                self.rmprev_done = True
                self.res.hit("previous-checkpoint-removed")

    def pause(self, sm, useed, inc):
        """Saving is switched off for a while (no faults are placed in here)."""
        if not (self.cur is not None and self.state_loaded and self.loaded_all and self.acked is not None and self.boot_args.get("dir", True)):
            return
        if self.excuse or self.unsure or self.maybes or self.fault_fired():
            return
        self.op_begin(-1)
        self.traces.pop((self.b, -1))
        self.phase = "step"
        try:
            sm.checkpoint_dir = None
            self.op_upd(sm, useed, inc)
            before = self.world.fs.h_tree("/simfs")
            sm.step()
            if self.world.fs.h_tree("/simfs") != before:
                self.fail({"C08"}, f"boot {self.b}: a step call of a manager without checkpoint directory changed files", tree_diff(before, self.world.fs.h_tree("/simfs")))
            self.applied = {x: getattr(self.cur.st, x) for x in self.prog.xnames}
            self.check_config(sm.config)
            self.check_live(sm, "step")
            sm.checkpoint_dir = Path(self.style(self.ck, {}))
        except (Viol, Stop, simfs.SimKilled, simfs.SimHang):
            raise
        except Exception as e:
            self.fail({"C08", "C05", "C11"}, f"boot {self.b}: a step call without checkpoint directory raised {type(e).__name__}: {str(e)[:200]}", fatal=True)
        self.res.hit("saving-paused")

    # -- probes: crash at that instant, restart, compare ------------------------------

    def run_probes(self):
        n = self.scn.get("max_probes", 14)
        pr = self.pending_probes
        only = self.scn.get("probe_only")
        if only is not None:
            pr = pr[only : only + 1]
        elif len(pr) > n:
            r = random.Random(f"pp/{self.scn.get('probe_seed', 0)}")
            keep = sorted(r.sample(range(len(pr)), n))
            pr = [pr[i] for i in keep]
        for i, p in enumerate(pr):
            self.res.probe_idx = only if only is not None else keep[i] if len(self.pending_probes) > n else i
            self.probe(*p)
        self.res.probe_idx = None

    def probe(self, fs, label, k, cands, must, args, errno_fired):
        self.res.probes += 1
        self.res.states.add(fs.digest()[:16])
        if args.get("dir", True):
            exp = self.expected(args, cands, must)
        else:
            exp = [r.over(self.overrides(args)) for r in cands]
        tags = {"C01", "C02", "C05"} | ({"C04"} if errno_fired else set()) | ({"C18"} if not args.get("dir", True) else set())
        where = f"boot {label[1]} operation {label[2]} system call {k}"
        rec = restart_and_compare(self, fs, args, exp, where, tags)
        if self.probe_rng.random() < self.scn.get("cont_rate", 0.3) and args.get("dir", True):
            self.go_on(fs, args, rec, where, tags)

    def go_on(self, fs, args, rec, where, tags):
        """After the crash the restarted program makes progress again."""
        prog = self.prog
        new = Rec("auto", 0, copy.deepcopy(rec.cfg), rec.sched, copy.deepcopy(rec.st))
        for n in (1, 2):
            prog.update(new.st, 7, n)
        new.key = getattr(new.st, prog.key)

        def use(sm):
            raised = 0
            for n in (1, 2):
                prog.update(sm.state, 7, n)
                try:
                    sm.step()
                except Exception as e:
                    raised += 1
                    if raised > 1:
                        self.fail(tags, f"after a crash in {where} and a restart, step keeps failing: {type(e).__name__}: {e}", fatal=True)
            check_sched(self, sm.config, new, "after a restart", {"C11", "C02"})

        plain_boot(self, fs, args, use, where, tags)
        restart_and_compare(self, fs, args, [new], where + ", restart, two steps, restart", tags)


def plain_boot(run, fs, args, use, where, tags):
    """One fault-free process lifetime on `fs`."""
    w = simfs.World(seed=5, fs=fs)
    proc = simfs.Proc(w, "probe", HOME)
    task = simfs.Task(0, "P", proc, None)
    simfs.boot_reset(run.tmp, seed=9)
    run.initial_calls = []
    run.now_sched = {}
    run.prog.on_deserialize = run.prog.on_serialize = None
    run.strange = None
    w.on_op = lambda t, name, path, mut: run.look_at(path) if name == "open-r" else None
    try:
        with simfs.running(w, task):
            run.start(args, use)
    except (Exception, SystemExit) as e:
        if run.strange is not None:
            tags = set(tags) | {"C07"}
        run.fail(tags, f"restart after {where} raised {type(e).__name__}: {str(e)[:300]}", fatal=True)
    except simfs.SimHang as e:
        run.fail(tags, f"restart after {where} hangs: {e}", fatal=True)
    finally:
        proc.kill()
        run.res.events += w.events
        run.res.sim_ns += w.now - w.start


def restart_and_compare(run, fs, args, exp, where, tags):
    """Restart on `fs`; everything restored must be one of the records `exp`."""
    got = {}

    def use(sm):
        st = sm.state
        got["s"] = flat(st)
        got["cfg"] = copy.deepcopy(sm.config)
        got["key"] = getattr(st, run.prog.key)

    plain_boot(run, fs, args, use, where, tags)
    if not got:
        run.fail(tags, f"restart after {where}: the program was not run", fatal=True)
    hit = [r for r in exp if r.content()[2] == got["s"]]
    if not hit:
        r = min(exp, key=lambda r: (r.key != got["key"], len([k for k, v in r.content()[2].items() if got["s"].get(k) != v])))
        t = set(tags)
        if got["key"] not in [x.key for x in exp]:
            t |= {"C07", "C17"}
        else:
            t |= {"C03", "C10"}
        run.fail(t, f"restart after {where}: got {run.prog.key}={got['key']}, allowed {sorted((x.kind, x.key) for x in exp)}: "
                 + diff_flat(r.content()[2], got["s"]), fatal=True)
    hit2 = [r for r in hit if flat_masked(got["cfg"], r.sched) == r.content()[0]]
    if not hit2:
        r = hit[0]
        run.fail(tags | {"C03", "C12", "C11"}, f"restart after {where}: config is not the one saved with {run.prog.key}={got['key']}: "
                 + diff_flat(r.content()[0], flat_masked(got["cfg"], r.sched)), fatal=True)
    check_sched(run, got["cfg"], hit2[0], f"restart after {where}", {"C11", "C02", "C01"})
    return hit2[0]


def check_sched(run, cfg, rec, where, tags):
    for p, text in rec.sched.items():
        T = dict(run.prog.sched_paths).get(p)
        x = getattr(rec.st, text.split(":")[0])
        val = P.getpath(cfg, p)
        if not P.sched_matches(text, x, T == "int", val):
            run.fail(tags, f"{where}: scheduled field {p} = {val!r} at {text.split(':')[0]}={x}, schedule {text!r} gives {P.sched_eval(text, x)!r}")


def flat_masked(cfg, sched):
    return {k: v for k, v in flat(cfg).items() if k not in sched}
