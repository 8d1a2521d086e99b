"""The command line tools that rewrite files in place: `upgrade-config` on several config files of older versions (with schedules,
unreadable and rejected files among them), `dump-schema`, `upgrade-schema` and `check-schema` on schema files, over successive class
versions, killed and hit by I/O errors at seeded system calls.  At every system call every file must be complete (old or new)."""
import contextlib
import copy
import io
import random
import sys
from dataclasses import make_dataclass
from pathlib import Path

from . import chain as C, prog as P, simfs
from .core import Result, Stop, Viol
from .trainer import HOME

DIRS = ["/simfs/home", "/simfs/home/confs", "/simfs/data", "/simfs/data/läuf e"]


def gen(prop, seed):
    r = random.Random(f"F/{prop}/{seed}")
    c14 = prop == "C14"
    scn = {
        "family": "F", "tag": prop, "seed": r.randint(1, 10**9), "world_seed": r.randint(1, 10**6), "sub": r.random() < 0.4 and c14, "focus": r.random() < 0.25,
        "n": r.choice([0, 1, 1, 2, 2, 3]), "order": r.randint(0, 9), "mounts": r.choice([[], [["/simfs/data", 1]]]), "small": r.choice([0, 0, 1]), "nsched": r.choice([0, 0.4]), "faults": [], "runs": [],
    }
    if c14:
        files = []
        for i in range(r.choice([1, 1, 2, 3, 4])):
            files.append({"lvl": r.random(), "full": r.random() < 0.5, "seed": r.randint(1, 10**6), "dir": r.randint(0, 3), "big": r.random() < 0.1,
                          "kind": r.choice(["good"] * 16 + ["cut", "empty", "noversion", "extra", "missing"])})
        scn["files"] = files
        for i in range(r.randint(1, 4)):
            pick = [j for j in range(len(files)) if r.random() < 0.75] or [0]
            r.shuffle(pick)
            scn["runs"].append({"up": r.choice([0, 1, 1, 2, 9]), "files": pick, "dry": r.random() < 0.25, "defaults": r.random() < 0.4, "argv": r.random() < 0.3, "rel": r.random() < 0.4})
    else:
        scn["files"] = [{"dir": r.randint(0, 3), "name": r.choice(["config-schema.ron", "schema v1.ron", "s.ron"])}]
        scn["runs"].append({"cmd": "dump", "up": 0, "fork": None, "argv": r.random() < 0.3, "rel": r.random() < 0.4})
        for i in range(r.randint(1, 5)):
            scn["runs"].append({"cmd": r.choice(["dump", "check", "upgrade", "upgrade", "upgrade", "upgrade"]), "up": r.choice([0, 0, 1, 1, 2]),
                                "fork": r.randint(1, 10**6) if r.random() < 0.4 else None, "argv": r.random() < 0.3, "rel": r.random() < 0.4})
    return scn


class FRun:
    def __init__(self, hs, scn, prop):
        self.hs, self.scn, self.prop = hs, scn, prop
        self.res = Result()
        fs = simfs.FS()
        fs.order = scn["order"]
        for d in [HOME, "/simfs/tmp"] + DIRS:
            fs.h_mkdirs(d)
        for path, dev in scn["mounts"]:
            fs.h_mount(path, dev)
        self.w = simfs.World(seed=scn["world_seed"], fs=fs, keep_log=scn.get("keep_log", False))
        self.w.faults = {("F", f["at"][0], 0, f["at"][1]): f for f in scn["faults"]}
        self.cfg = C.Chain(hs, f"{scn['seed']}/f", "Config", focus=scn["focus"], n=scn["n"], sub=scn["sub"], tame=prop == "C19")
        self.cv = 0
        self.traces = {}
        self.St = make_dataclass("FState", [("step", int)])
        self.paths = []

    def bug(self, what, detail=""):
        raise Viol({self.prop}, what, detail)

    def execute(self):
        try:
            if self.prop == "C14":
                self.make_files()
                for i, run in enumerate(self.scn["runs"]):
                    self.upgrade_run(i, run)
                self.at_last()
            else:
                d = self.scn["files"][0]
                self.paths = [DIRS[d["dir"]] + "/" + d["name"]]
                for i, run in enumerate(self.scn["runs"]):
                    self.schema_run(i, run)
        except Viol as v:
            self.res.viol = (v.what, v.detail)
        except Stop:
            self.res.hit("stopped-early")
        self.res.absorb(self.w)
        self.res.hash = self.w.log.hexdigest()
        self.res.log_lines = self.w.log_lines
        return self.res

    # -- one invocation of the command line tool -------------------------------------

    def call(self, w, label, cls, args, argv, trace=None):
        """(how it ended: "ok", "failed" or "killed", what it printed)"""
        sc = sys.modules["hyperstate.schema.schema_checker"]
        proc = simfs.Proc(w, f"cli{label}", HOME)
        task = simfs.Task(0, "F", proc, None)
        task.label = ("F", label, 0)
        task.trace = trace
        self.task = task
        simfs.boot_reset("/simfs/tmp", seed=int(label) + 3 if isinstance(label, int) else 1)
        out = io.StringIO()
        how = "ok"
        old = sys.argv
        with simfs.running(w, task):
            try:
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                    if argv:
                        sys.argv = ["prog"] + args
                        self.hs.schema_evolution_cli(cls)
                    else:
                        sc.CONFIG_CLZ = cls
                        sc.cli.main(args, prog_name="prog", standalone_mode=False)
            except simfs.SimKilled:
                how = "killed"
            except (Viol, Stop, simfs.SimHang, simfs.SimUnsupported):
                raise
            except SystemExit as e:
                how = "ok" if e.code in (0, None) else "failed"
            except BaseException as e:  # a parser panic is no Exception
                how = "failed"
                self.error = e
            finally:
                sys.argv = old
            if how != "killed":
                task.on_exit = True
                try:
                    proc.exit()
                except simfs.SimKilled:
                    how = "killed"
        if not proc.ended:
            proc.kill()
        w.full.clear()
        w.fs.caps.clear()
        return how, out.getvalue()

    def arg(self, path, rel):
        if rel and path.startswith(HOME + "/"):
            return path[len(HOME) + 1 :]
        return "../data" + path[len("/simfs/data"):] if rel and path.startswith("/simfs/data") else path

    # -- C14 ------------------------------------------------------------------------------

    def make_files(self):
        self.files = []
        for i, f in enumerate(self.scn["files"]):
            r = random.Random(f"file/{f['seed']}")
            lvl = min(int(f["lvl"] * 1.4 * len(self.cfg.levels)), len(self.cfg.levels) - 1) if f["lvl"] > 0.4 else 0
            self.cv = max(self.cv, lvl)
            sched = {}
            for p, fd in C.walk(self.cfg.levels[lvl]):
                if fd.T in ("int", "float") and r.random() < self.scn["nsched"] and unmapped(self.cfg, lvl, p):
                    sched[tuple(p)] = C.Sched(P.gen_schedule(r, "step", fd.T == "int", first=fd.default if fd.default is not C.NODEF and abs(fd.default) < 1e6 and r.random() < 0.4 else None))
            tree = self.cfg.gen_tree(r, lvl, f["full"], sched)
            text = self.cfg.text(tree, lvl)
            k = f["kind"]
            if k == "cut":
                text = text.rstrip()[:-1]
            elif k == "empty":
                text = ""
            elif k == "noversion":
                text = text.replace(f"version: {self.cfg.numbers[lvl]}, ", "", 1).replace(f"version: {self.cfg.numbers[lvl]}", "", 1)
            elif k == "extra":
                text = text.rstrip()[:-1].rstrip().rstrip(",") + ", zz_extra: 1)"
            if f["big"] and k == "good":
                # comments are no part of the meaning
                text = "// " + "x" * 9000 + "\n" + text
            path = f"{DIRS[f['dir']]}/c{i}.ron"
            self.paths.append(path)
            if k != "missing":
                self.w.fs.h_write(path, text.encode(), r.choice([0o644, 0o600, 0o664]))
            self.files.append({"path": path, "lvl": lvl, "tree": tree, "bad": k != "good", "bytes": self.w.fs.h_read(path)})
        self.listing = self.tree()

    def tree(self):
        return {d: [x for x in self.w.fs.h_listdir(d)] for d in DIRS}

    def meaning(self, f, cv):
        """What the file means to a class: a tree, or None when it must be refused."""
        if f["bad"]:
            return None
        try:
            return self.cfg.upgrade(f["tree"], f["lvl"], cv)
        except C.Reject:
            return None

    def loads(self, fs, path, tree, cv, what):
        """The file is accepted by the program of this version and means `tree`, at every counter value."""
        from .gen_u import URun

        w = simfs.World(seed=7, fs=fs.clone())
        task = simfs.Task(0, "L", simfs.Proc(w, "load", HOME), None)
        spec = self.cfg.levels[cv]
        want = C.expect(spec, tree, "Config")
        simfs.boot_reset("/simfs/tmp", seed=2)
        with simfs.running(w, task):
            try:
                sm = self.hs.StateManager(self.cfg.cls[cv], self.St, lambda c, ctx: self.St(0), Path(path))
                seen = [(None, C.observe(spec, sm.config))]
                for kv in (0, 1, 7, 13, 40, 20000):
                    sm.state.step = kv
                    sm.step()
                    seen.append((kv, C.observe(spec, sm.config)))
            except Exception as e:
                self.bug(f"{what}: loading {path} raised {type(e).__name__}: {str(e)[:200]}", f"{fs.h_read(path)[-700:]!r} rules {self.cfg.ops}")
        for kv, got in seen:
            d = URun.conf_diff(self, got, want, kv)
            if d:
                self.bug(f"{what}: {path} does not mean the same as the original (counter {kv})", f"got/want {P.show(d, 500)}; file {fs.h_read(path)[-700:]!r}; rules {self.cfg.ops}")

    def args(self, run, fl):
        a = ["upgrade-config"] + [self.arg(f["path"], run["rel"]) for f in fl]
        if run["dry"]:
            a.insert(1, "--dry-run")
        if run["defaults"]:
            a.append("--include-defaults")
        return a

    def reference(self, f, run, what):
        """What an undisturbed upgrade of this file alone makes of it (None: it fails)."""
        fs = self.w.fs.clone()
        w = simfs.World(seed=3, fs=fs)
        how, out = self.call(w, "ref", self.cfg.cls[self.cv], self.args(dict(run, dry=False), [f]), False)
        new = fs.h_read(f["path"])
        m = self.meaning(f, self.cv)
        if m is None:
            if how == "ok":
                self.bug(f"{what}: upgrading {f['path']}, which cannot be upgraded, was reported as a success", repr(f["bytes"])[-600:])
            if new != f["bytes"]:
                self.bug(f"{what}: the failed upgrade of {f['path']} changed it", f"{new!r}")
            return None
        if how != "ok":
            self.bug(f"{what}: upgrading {f['path']} failed: {type(self.error).__name__}: {str(self.error)[:200]}", f"{f['bytes'][-600:]!r}; rules {self.cfg.ops}")
        self.loads(self.w.fs, f["path"], m, self.cv, what + " (before the upgrade)")
        self.loads(fs, f["path"], m, self.cv, what)
        how, out = self.call(simfs.World(seed=4, fs=fs), "ref2", self.cfg.cls[self.cv], self.args(dict(run, dry=False), [f]), False)
        if how != "ok" or fs.h_read(f["path"]) != new:
            self.bug(f"{what}: upgrading {f['path']} a second time " + ("failed" if how != "ok" else "changed it again"), f"first {new[-500:]!r} second {fs.h_read(f['path'])[-500:]!r}")
        if {d: fs.h_listdir(d) for d in DIRS} != self.tree():
            self.bug(f"{what}: upgrading left other files behind", f"{ {d: fs.h_listdir(d) for d in DIRS} }")
        self.res.hit("meaning-checked")
        return new

    def upgrade_run(self, i, run):
        w = self.w
        self.cv = min(self.cv + run["up"], len(self.cfg.levels) - 1)
        fl = [self.files[j] for j in run["files"] if j < len(self.files)]
        if not fl:
            return
        what = f"run {i}"
        self.allowed = {}
        for f in self.files:
            self.allowed[f["path"]] = {f["bytes"]}
        news = {}
        for f in fl:
            news[f["path"]] = self.reference(f, run, what)
            if not run["dry"] and news[f["path"]] is not None:
                self.allowed[f["path"]].add(news[f["path"]])
        before = self.tree()
        fired0 = len(w.fired)
        w.on_op = self.watch
        self.dry, self.what = run["dry"], what
        trace = []
        self.traces[i] = trace
        m0 = w.mutations
        how, out = self.call(w, i, self.cfg.cls[self.cv], self.args(run, fl), run["argv"], trace)
        w.on_op = None
        self.look(what + f" ({how})")
        fired = w.fired[fired0:]
        bad = [f for f in fl if news[f["path"]] is None]
        self.res.hit("run-" + how)
        if how == "ok":
            if bad and not run["dry"]:
                self.bug(f"{what}: success was reported although {bad[0]['path']} cannot be upgraded")
            if not run["dry"]:
                for f in fl:
                    if w.fs.h_read(f["path"]) != news[f["path"]]:
                        self.bug(f"{what}: success was reported but {f['path']} is not upgraded", f"injected {[(x[2], x[3], x[4]) for x in fired]}")
        elif how == "failed" and not fired and not bad:
            self.bug(f"{what}: upgrade-config failed: {type(self.error).__name__}: {str(self.error)[:200]}")
        if how != "killed" and not any("*" in x[2] for x in fired) and len(fired) < 2 and not self.left:
            # persistent errors may keep it from removing what it wrote
            if self.tree() != before:
                self.bug(f"{what}: files are left behind after it " + ("succeeded" if how == "ok" else "reported a failure"), f"{[(x[2], x[3], x[4]) for x in fired]}: { {d: v for d, v in self.tree().items() if v != before[d]} }")
        if run["dry"] and w.mutations != m0:
            self.bug(f"{what}: a dry run wrote")
        for f in fl:
            b = w.fs.h_read(f["path"])
            if b != f["bytes"]:
                f["tree"], f["lvl"], f["bytes"] = self.meaning(f, self.cv), self.cv, b
                if not run["defaults"]:
                    # what is left out keeps to the defaults of later versions
                    f["tree"] = C.elide(self.cfg.levels[self.cv], f["tree"])
        self.res.steps += 1

    left = False

    def watch(self, t, name, path, mut):
        if mut and self.dry:
            self.bug(f"{self.what}: a dry run performs {name} on {path}")
        self.look(f"{self.what}, at system call {t.k} ({name})")

    def look(self, where):
        for p, ok in self.allowed.items():
            b = self.w.fs.h_read(p)
            if b not in ok:
                self.bug(f"{where}: {p} is neither its old nor its new content", f"{b!r}"[:600] + f" old/new {ok}"[:1200])
        self.res.probes += 1

    def at_last(self):
        """Once faults stop, one run upgrades everything."""
        for j, f in enumerate(self.files):
            if self.meaning(f, len(self.cfg.levels) - 1) is None:
                continue
            self.cv = len(self.cfg.levels) - 1
            run = {"dry": False, "defaults": False, "rel": False}
            self.reference(f, run, "after everything")

    # -- C19 --------------------------------------------------------------------------------

    def fork(self, seed, cv):
        """A class of the version before or of this one with one incompatible difference and no rule for it."""
        r = random.Random(f"fork/{seed}")
        spec = C.clone_spec(self.cfg.levels[cv])
        k = r.choice(["new", "type", "default", "gone", "option"])
        L = C.walk(spec)
        nodef = [x for x in L if x[1].default is C.NODEF]
        withdef = [x for x in L if x[1].default is not C.NODEF and x[1].T in ("int", "str", "bool")]
        if k == "type":
            c = [x for x in L if x[1].T in ("int", "str")]
            if c:
                p, f = r.choice(c)
                T = "str" if f.T == "int" else "int"
                C.fields_at(spec, p[:-1])[p[-1]] = C.Leaf(T, C.NODEF if f.default is C.NODEF else C.gen_raw(T, r))
            else:
                k = "new"
        if k == "default":
            if withdef:
                p, f = r.choice(withdef)
                d = f.default
                new = {"int": lambda: d + 1, "str": lambda: d + "x", "bool": lambda: not d}[f.T]()
                C.fields_at(spec, p[:-1])[p[-1]] = C.Leaf(f.T, new)
            else:
                k = "new"
        if k == "gone":
            if len(L) > 1:
                p, f = r.choice(L)
                C.fields_at(spec, p[:-1]).pop(p[-1])
            else:
                k = "new"
        if k == "option":
            k = "new"
        if k == "new":
            T = r.choice(["int", "float", "str", "bool"])
            spec["brand_new_zz"] = C.Leaf(T)
        ver = self.cfg.numbers[cv]
        rules = self.cfg.cls[cv].upgrade_rules()
        ns = {"version": classmethod(lambda c: ver), "upgrade_rules": classmethod(lambda c: rules)}
        return C.make_class(spec, self.cfg.name, (self.hs.Versioned,), ns), k

    def severity(self, fs, path, cls):
        """(compatible, number of differences) by a check of its own."""
        from hyperstate.schema.schema_checker import SchemaChecker, Severity
        from hyperstate.schema.types import load_schema

        w = simfs.World(seed=9, fs=fs.clone())
        task = simfs.Task(0, "S", simfs.Proc(w, "sev", HOME), None)
        simfs.boot_reset("/simfs/tmp", seed=2)
        with simfs.running(w, task):
            try:
                old = load_schema(path)
                c = SchemaChecker(old, cls)
                return c.severity() == Severity.INFO, len(c.changes)
            except Exception as e:
                self.error = e
                return None, None

    def schema_run(self, i, run):
        w = self.w
        path = self.paths[0]
        self.cv = min(self.cv + run["up"], len(self.cfg.levels) - 1)
        cls, what = self.cfg.cls[self.cv], f"run {i} ({run['cmd']}-schema)"
        forked = None
        if run["fork"] is not None and run["cmd"] != "dump":
            cls, forked = self.fork(run["fork"], self.cv)
        old = w.fs.h_read(path)
        # undisturbed, on a copy
        fs = w.fs.clone()
        how, out = self.call(simfs.World(seed=3, fs=fs), "ref", cls, [f"{run['cmd']}-schema", path], False)
        new = fs.h_read(path)
        if old is None and run["cmd"] != "dump":
            if how == "ok" or new is not None:
                self.bug(f"{what}: a schema file that is not there was accepted")
            compatible = False
        elif run["cmd"] == "dump":
            if how != "ok":
                self.bug(f"{what} failed: {type(self.error).__name__}: {str(self.error)[:300]}")
            self.after_success(fs, path, cls, what)
            compatible = True
        else:
            compatible, n = self.severity(w.fs, path, cls)
            if compatible is None and self.stored == self.cv:
                self.bug(f"{what}: comparing raised {type(self.error).__name__}: {str(self.error)[:300]}", f"{old!r}; rules {self.cfg.ops}"[:1500])
            if compatible and forked and self.stored == self.cv:
                self.bug(f"{what}: a class with an incompatible difference ({forked}) counts as compatible", f"{old!r}"[:1500])
            if not compatible and not forked and self.stored == self.cv:
                self.bug(f"{what}: the class the schema was made from counts as incompatible", f"{old!r}"[:1500])
            if compatible is None:
                # rules that do not fit the stored schema
                self.res.hit("rules-refused")
                if how == "ok" and run["cmd"] == "upgrade":
                    self.bug(f"{what}: success was reported although the upgrade rules do not fit the schema")
            elif how != "ok":
                self.bug(f"{what} failed: {type(self.error).__name__}: {str(self.error)[:300]}")
            if run["cmd"] == "check":
                if new != old:
                    self.bug(f"{what}: checking changed the schema file")
            elif compatible:
                self.after_success(fs, path, cls, what)
            elif new != old:
                self.bug(f"{what}: the schema file was replaced although the class is incompatible with it ({forked or 'rules ' + str(self.cfg.ops)})", f"old {old!r} new {new!r}"[:1500])
        if {d: fs.h_listdir(d) for d in DIRS} != self.tree() and run["cmd"] != "dump":
            self.bug(f"{what}: other files are left behind")
        # the real run
        self.allowed = {path: {old, new}}
        self.dry, self.what = run["cmd"] == "check", what
        before = self.tree()
        fired0 = len(w.fired)
        trace = []
        self.traces[i] = trace
        w.on_op = self.watch
        how2, out = self.call(w, i, cls, [f"{run['cmd']}-schema", self.arg(path, run["rel"])], run["argv"], trace)
        w.on_op = None
        self.look(f"{what} ({how2})")
        fired = w.fired[fired0:]
        got = w.fs.h_read(path)
        self.res.hit(f"{run['cmd']}-{how2}")
        self.res.hit("compatible" if compatible else "incompatible")
        if how2 == "ok" and run["cmd"] != "check" and compatible and got != new:
            self.bug(f"{what}: success was reported but the file is not updated", f"injected {[(x[2], x[3], x[4]) for x in fired]}")
        if how2 == "failed" and not fired and how == "ok":
            self.bug(f"{what} failed: {type(self.error).__name__}: {str(self.error)[:200]}")
        if how2 != "killed" and not any("*" in x[2] for x in fired) and len(fired) < 2:
            now = self.tree()
            d, n = path.rsplit("/", 1)
            if got is not None and old is None:
                now[d] = [x for x in now[d] if x != n]
            if now != before:
                self.bug(f"{what}: files are left behind after it " + ("succeeded" if how2 == "ok" else "reported a failure"), f"{[(x[2], x[3], x[4]) for x in fired]}: { {d: v for d, v in now.items() if v != before[d]} }")
        if got != old or (how2 == "ok" and run["cmd"] != "check" and compatible):
            self.stored = self.cv if not forked else None
        self.res.steps += 1

    stored = None

    def after_success(self, fs, path, cls, what):
        ok, n = self.severity(fs, path, cls)
        if ok is None:
            self.bug(f"{what}: the new schema file cannot be checked: {type(self.error).__name__}: {str(self.error)[:300]}", f"{fs.h_read(path)!r}"[:1500])
        if not ok or n:
            self.bug(f"{what}: after a successful update the class checks as different ({n} changes)", f"{fs.h_read(path)!r}"[:1500])
        self.res.hit("update-checked")


def unmapped(cfg, lvl, p):
    """No later rule looks at the value of this field."""
    p = list(p)
    for k in range(lvl, len(cfg.ops)):
        for op in cfg.ops[k]:
            if op[0] == "rename" and p[: len(op[1])] == op[1]:
                p = op[2] + p[len(op[1]) :]
            elif op[0] in ("map", "check", "reject") and op[1] == p:
                return False
    return True


def run(hs, scn, prop):
    u = FRun(hs, scn, prop)
    res = u.execute()
    res.traces = u.traces
    res.nontrivial = bool(res.fired) or bool(res.steps)
    return res


def variants(prop, scn, res, seed):
    from .gen_t import pick

    for v in range(4):
        r = random.Random(f"FV/{seed}/{v}")
        faults = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            c = [(k, tr) for k, tr in sorted(res.traces.items()) if tr]
            if not c:
                return
            i, tr = r.choice(c)
            f = pick(r, tr, r.choice(["crash", "mix", "mix", "err"]))
            if f:
                k = f.pop("k")
                faults.append(dict(f, at=[i, k]))
        if faults:
            yield dict(scn, faults=faults)


def shrink(scn, res):
    F, R, L = scn["faults"], scn["runs"], scn["files"]
    for i in range(len(F)):
        yield dict(scn, faults=F[:i] + F[i + 1 :])
    for i in range(len(R)):
        if len(R) > 1:
            yield dict(scn, runs=R[:i] + R[i + 1 :], faults=[dict(f, at=[f["at"][0] - (f["at"][0] > i), f["at"][1]]) for f in F if f["at"][0] != i])
    if scn["tag"] == "C14":
        for j in range(len(L)):
            if len(L) > 1:
                runs = [dict(x, files=[k - (k > j) for k in x["files"] if k != j]) for x in R]
                if all(x["files"] for x in runs):
                    yield dict(scn, files=L[:j] + L[j + 1 :], runs=runs)
            if L[j]["kind"] != "good":
                yield dict(scn, files=L[:j] + [dict(L[j], kind="good")] + L[j + 1 :])
        for i in range(len(R)):
            for j in range(len(R[i]["files"])):
                if len(R[i]["files"]) > 1:
                    yield dict(scn, runs=R[:i] + [dict(R[i], files=R[i]["files"][:j] + R[i]["files"][j + 1 :])] + R[i + 1 :])
    for i in range(len(R)):
        for k in ("dry", "defaults", "argv", "rel", "fork"):
            if R[i].get(k):
                yield dict(scn, runs=R[:i] + [dict(R[i], **{k: None if k == "fork" else False})] + R[i + 1 :])
    if scn["n"]:
        yield dict(scn, n=scn["n"] - 1)
    for k, v in (("mounts", []), ("order", 0), ("sub", False), ("focus", False), ("nsched", 0)):
        if scn[k] != v:
            yield dict(scn, **{k: v})


def describe(scn):
    return {k: scn[k] for k in ("seed", "n", "files", "runs", "faults")}
