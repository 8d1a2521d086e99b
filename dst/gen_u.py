"""A program that is upgraded while it is deployed: seeded chains of config and state class versions with every kind of upgrade rule
(renames, moves and swaps of fields and sections, deletions, value maps, changed and added defaults, checks), started from complete
or partial config files and explicit checkpoints of older versions, killed and hit by I/O errors at seeded system calls, and
restarted with the same or newer versions; every start must yield exactly what an independent model of the rules yields."""
import copy
import random
from pathlib import Path

from . import chain as C, prog as P, simfs
from .core import Result, Stop, Viol
from .trainer import HOME, diff_flat

CK = "/simfs/data/run"
BEST = "/simfs/data/best"
FILE = "/simfs/home/conf.ron"


def gen(prop, seed):
    r = random.Random(f"U/{prop}/{seed}")
    lives = []
    for i in range(r.randint(2, 6)):
        ops = []
        for _ in range(r.choice([0, 1, 2, 2, 3, 4])):
            x = r.random()
            if x < 0.2:
                ops.append(["state"])
            elif x < 0.35:
                ops.append(["step0"])
            elif x < 0.45:
                ops.append(["save"])
            else:
                ops.append(["step", r.randint(1, 10**6), r.choice([1, 1, 5])])
        life = {"up": [r.random() < 0.55, r.random() < 0.55], "ops": ops, "end": r.choice(["exit", "kill"])}
        if r.random() < (0.45 if prop == "C12" else 0.12):
            life["ov"] = [r.randint(1, 10**6) for _ in range(r.choice([1, 1, 2, 3]))]
        if prop == "C12" and r.random() < 0.5:
            life["badov"] = r.randint(1, 10**6)
        if i and r.random() < 0.12:
            life["from"] = "best"
        if r.random() < 0.1:
            life["cli"] = True
        lives.append(life)
    return {
        "family": "U", "seed": r.randint(1, 10**9), "world_seed": r.randint(1, 10**6), "ser": r.choice([0, 0, 1, 1, 2]), "keyrename": r.random() < 0.2,
        "nsched": r.choice([0, 0, 0.5]), "file": r.choice(["none", "part", "part", "full"]), "filelvl": r.random(), "fileseed": r.randint(1, 10**6),
        "sub": r.random() < 0.5, "n": [r.choice([1, 2, 2, 3, 4]), r.choice([0, 1, 1, 2, 3])], "order": r.randint(0, 9),
        "mounts": r.choice([[], [], [["/simfs/data", 1]], [["/simfs/tmp", 2]]]), "style": r.choice(["path", "str"]), "lives": lives,
        "focus": r.random() < 0.3, "probe_rate": r.choice([0.0, 0.15, 0.5]), "probe_seed": r.randint(1, 10**6), "faults": [],
    }


class Rec:
    def __init__(self, cv, cfg, sv, st, key):
        self.cv, self.cfg, self.sv, self.st, self.key = cv, cfg, sv, st, key


class URun:
    def __init__(self, hs, scn, prop):
        self.hs, self.scn, self.prop = hs, scn, prop
        self.res = Result()
        fs = simfs.FS()
        fs.order = scn["order"]
        for d in (HOME, "/simfs/tmp", "/simfs/data"):
            fs.h_mkdirs(d)
        for path, dev in scn["mounts"]:
            fs.h_mount(path, dev)
        self.w = simfs.World(seed=scn["world_seed"], fs=fs, keep_log=scn.get("keep_log", False))
        self.w.on_op = self.saw
        self.w.faults = {("U", f["at"][0], f["at"][1], f["at"][2]): f for f in scn["faults"]}
        helper = P.Program(0, hs, size=1, wild=False, ser=0)
        rs = random.Random(f"ser/{scn['seed']}")
        mk = lambda i: helper.gen_ser(rs, "Ser%d" % i, False)
        cseed = scn["seed"]
        # with schedules the counter keeps its name
        self.cfg = C.Chain(hs, f"{cseed}/c", "Config", focus=scn.get("focus", False), n=scn["n"][0], sub=scn["sub"])
        self.st = C.Chain(hs, f"{cseed}/s", "State", focus=scn.get("focus", False), n=scn["n"][1], state=True, sub=scn["sub"], keyrename=scn["keyrename"] and not scn["nsched"],
                          ser=scn["ser"], mk_ser=mk, base=(hs.Lazy,))
        self.cv = self.sv = 0
        self.cands = []  # records a restart may find
        self.acked = None
        self.best = None
        self.traces = {}
        self.writing = None
        self.probes = []
        self.pr = random.Random(f"probe/{scn['probe_seed']}")
        self.file = None
        self.make_file()

    # -- the config file ---------------------------------------------------------

    def make_file(self):
        scn = self.scn
        if scn["file"] == "none" and not any(C.needed(f) if isinstance(f, C.Sec) and not f.opt else isinstance(f, C.Leaf) and f.default is C.NODEF for spec in self.cfg.levels for f in spec.values()):
            return
        r = random.Random(f"file/{scn['fileseed']}")
        lvl = 0 if scn["filelvl"] < 0.6 else int(scn["filelvl"] * len(self.cfg.levels)) % len(self.cfg.levels)
        self.cv = max(self.cv, lvl)
        sched = {}
        if scn["nsched"]:
            for p, f in C.walk(self.cfg.levels[lvl]):
                if f.T in ("int", "float") and r.random() < scn["nsched"] and self.unmapped(lvl, p):
                    sched[tuple(p)] = C.Sched(P.gen_schedule(r, "step", f.T == "int", first=f.default if f.default is not C.NODEF and abs(f.default) < 1e6 and r.random() < 0.4 else None))
        tree = self.cfg.gen_tree(r, lvl, scn["file"] == "full", sched)
        self.w.fs.h_write(FILE, self.cfg.text(tree, lvl).encode())
        self.file = (lvl, tree)
        self.filebytes = self.w.fs.h_read(FILE)

    def unmapped(self, lvl, p):
        """No later rule looks at the value of this field."""
        p = list(p)
        for k in range(lvl, len(self.cfg.ops)):
            for op in self.cfg.ops[k]:
                if op[0] == "rename" and p[: len(op[1])] == op[1]:
                    p = op[2] + p[len(op[1]):]
                elif op[0] in ("map", "check", "reject") and op[1] == p:
                    return False
        return True

    # -- what a start means ----------------------------------------------------------

    def source(self, frm):
        if frm == "best" and self.best is not None:
            return [self.best]
        if self.cands:
            return self.cands + ([] if self.acked else [None])
        return [None]

    def meaning(self, rec, ovs, cv, sv):
        """(config tree, state tree, key) or the rejection."""
        try:
            if rec is None:
                cfg = self.cfg.upgrade(self.file[1], self.file[0], cv) if self.file else C.complete(self.cfg.levels[cv], {})
            else:
                cfg = self.cfg.upgrade(rec.cfg, rec.cv, cv)
        except C.Reject as e:
            return ("reject", "config", str(e))
        for p, v in ovs:
            self.override(self.cfg.levels[cv], cfg, p, v)
        if rec is None:
            st = self.init_tree(sv)
        else:
            try:
                st = self.st.upgrade(rec.st, rec.sv, sv)
            except C.Reject as e:
                return ("reject", "state", str(e), cfg)
        return ("ok", cfg, st)

    def override(self, spec, tree, p, v):
        fs = spec
        for s in p[:-1]:
            f = fs[s]
            if tree.get(s) is None:
                tree[s] = C.complete(f.fields, {}) if not any(isinstance(g, C.Leaf) and g.default is C.NODEF for g in f.fields.values()) else None
            if tree[s] is None:
                raise Stop()
            tree, fs = tree[s], f.fields
        tree[p[-1]] = copy.deepcopy(v)

    def init_tree(self, sv):
        r = random.Random(f"init/{self.scn['seed']}")
        t = C.gen_tree(self.st.levels[sv], r, True)
        t[self.st.keynames[sv]] = 0
        return t

    def pick_overrides(self, seeds, cv):
        """[(path, value)], texts: fields outside optional and separately versioned sections."""
        out = []
        c = [(p, f) for p, f in C.walk(self.cfg.levels[cv]) if not self.cfg.opt_on(self.cfg.levels[cv], p)]
        for s in seeds:
            r = random.Random(f"ov/{s}")
            if not c:
                continue
            p, f = r.choice(c)
            if f.T in ("int", "float") and r.random() < 0.2 and not self.scn["keyrename"] and self.unmapped(cv, p):
                t = P.gen_schedule(r, "step", f.T == "int")
                out.append((p, C.Sched(t), ".".join(p) + "=" + P.ron_str(t)))
                continue
            v = C.gen_raw(f.T, r)
            text = v if f.T == "str" else P.ron(v)
            out.append((p, v, ".".join(p) + "=" + text))
        return out

    def bad_overrides(self, seed, cv):
        """One or two that are wrong, often next to some that are right."""
        r = random.Random(f"bads/{seed}")
        out = [self.bad_override(seed + i, cv) for i in range(r.choice([1, 1, 1, 2, 2, 3]))]
        names = [t.split("=")[0] + "." for t in out]
        for _, _, t in self.pick_overrides([seed + 10 + i for i in range(r.choice([0, 0, 1, 2]))], cv):
            n = t.split("=")[0] + "."
            if not any(m.startswith(n) or n.startswith(m) for m in names):
                # (the last one for a field counts)
                out.insert(r.randint(0, len(out)), t)
        return out

    def bad_override(self, seed, cv):
        """An override that names no field or no value of its type."""
        r = random.Random(f"bad/{seed}")
        spec = self.cfg.levels[cv]
        L = [(p, f) for p, f in C.walk(spec)]
        k = r.choice(["unknown", "unknown", "below", "value", "value", "value", "noeq"])
        if k == "unknown" or not L:
            secs = [[]] + [p for p, f in C.walk(spec, secs=True) if isinstance(f, C.Sec)]
            p = r.choice(secs) + [r.choice(["zz", "nope", "lr"])]
            return ".".join(p) + "=" + r.choice(["1", "0.5", "x", "None", "[]"])
        p, f = r.choice(L)
        if k == "below":
            return ".".join(p) + ".sub=1"
        if k == "noeq":
            return ".".join(p)
        T = f.T
        bad = {"int": ['"abc"', "1.5", "[1]", "true1", '"1.5"', "{}", "None"], "float": ['"abc"', "[0.5]", "{}", "None", "x y"], "bool": ["maybe", "2", "", "TRUE"], "str": None}.get(T if isinstance(T, str) else None)
        if bad is None and not isinstance(T, str):
            k2, a = T
            bad = {"list": ["5", "None", "[[1]]", "{}"], "opt": ['"abc"', "[1]"], "dict": ["[1]", "3", "None"], "enum": ['"nope"', "12345", "[]"], "lit": ['"nope"', "12345"]}[k2]
        if bad is None:
            return "zz=1"
        return ".".join(p) + "=" + r.choice(bad)

    # -- the simulation ---------------------------------------------------------------

    def execute(self):
        try:
            for i, life in enumerate(self.scn["lives"]):
                self.life(i, life)
            self.run_probes()
        except Viol as v:
            self.res.viol = (v.what, v.detail)
        except Stop:
            self.res.hit("stopped-early")
        self.res.absorb(self.w)
        self.res.hash = self.w.log.hexdigest()
        self.res.log_lines = self.w.log_lines
        return self.res

    def bug(self, what, detail="", tags=("C13",)):
        if self.prop in tags:
            raise Viol(set(tags), what, detail)
        self.res.other.append((sorted(tags), what))
        raise Stop()

    def saw(self, t, name, path, mut):
        if mut and self.writing and self.pr.random() < self.scn["probe_rate"] and len(self.probes) < 8:
            fs = self.w.fs.clone()
            fs.caps.clear()
            self.probes.append((fs, t.label, t.k, list(self.cands) + [self.writing], self.acked is not None, self.cv, self.sv))

    def sm(self, init, ck, ovs, cv, sv, cli, use, key, init_state):
        hs = self.hs
        cfgc, stc = self.cfg.cls[cv], self.st.cls[sv]
        conv = (lambda p: p and str(p)) if self.scn["style"] == "str" or cli else (lambda p: p and Path(p))
        if cli:
            import contextlib, io, sys

            argv = ["prog"] + ovs
            if init:
                argv += ["--config" if init == FILE else "--resume-from", init]
            if ck:
                argv += ["--checkpoint-dir", ck]
            f = hs.stateful_command(cfgc, stc, init_state, checkpoint_key=key)(use)
            old, sys.argv = sys.argv, argv
            try:
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    f()
            finally:
                sys.argv = old
        else:
            use(hs.StateManager(cfgc, stc, init_state, conv(init), conv(ck), overrides=list(ovs) if ovs else None, checkpoint_key=key))

    def life(self, i, life):
        w, scn = self.w, self.scn
        if life["up"][0] and self.cv + 1 < len(self.cfg.levels) and i:
            self.cv += 1
        if life["up"][1] and self.sv + 1 < len(self.st.levels) and i:
            self.sv += 1
        cv, sv = self.cv, self.sv
        frm = life.get("from")
        if frm == "best" and self.best is None:
            frm = None
        ck = None if frm else CK
        init = BEST if frm else (FILE if self.file else None)
        if self.prop == "C12" and life.get("badov") is not None:
            self.try_bad(i, life, init, ck, cv, sv)
        ovs = self.pick_overrides(life.get("ov", []), cv)
        self.res.boots += 1
        means = [self.meaning(rec, [(p, v) for p, v, _ in ovs], cv, sv) for rec in self.source(frm)]
        proc = simfs.Proc(w, f"life{i}", HOME)
        task = simfs.Task(0, "U", proc, None)
        task.label = ("U", i, 0)
        self.task, self.i = task, i
        simfs.boot_reset("/simfs/tmp", seed=i + 3)
        self.opened = False
        key = self.st.keynames[sv]
        self.fired0 = len(w.fired)
        dead = False
        with simfs.running(w, task):
            try:
                task.trace = []
                self.traces[(i, 0)] = task.trace
                self.sm(init, ck, [t for _, _, t in ovs], cv, sv, life.get("cli"), lambda sm: self.use(sm, life, means, frm, cv, sv, key), key, lambda c, x: C.build(self.st.levels[sv], self.st.cls[sv], self.init_tree(sv)))
            except simfs.SimKilled:
                dead = True
            except (Exception, SystemExit, KeyboardInterrupt) as e:
                self.start_raised(e, means)
            if not dead and life["end"] == "exit":
                task.label = ("U", i, 9999)
                task.k = 0
                try:
                    proc.exit()
                except simfs.SimKilled:
                    dead = True
        self.healed()
        if not proc.ended:
            proc.kill()
        self.writing = None
        self.res.hit("crash" if dead else "ended")
        if self.file and w.fs.h_read(FILE) != self.filebytes:
            self.bug(f"life {i}: the config file was changed", tags=("C08", "C17", "C13"))

    def start_raised(self, e, means):
        if self.opened or len(self.w.fired) > self.fired0:
            self.res.hit("raised-with-fault")
            return
        if any(m[0] == "reject" for m in means):
            self.res.hit("rejected")
            return
        self.bug(f"life {self.i}: start raised {type(e).__name__}: {str(e)[:200]} (config version {self.cfg.numbers[self.cv]}, state version {self.st.numbers[self.sv]})", self.rules(), tags=("C13", "C12"))

    def rules(self):
        return f"config rules {self.cfg.ops} state rules {self.st.ops}"

    def use(self, sm, life, means, frm, cv, sv, key):
        w, task = self.w, self.task
        for j, op in enumerate([["config"], ["state"]] + life["ops"], 1):
            self.healed()
            task.label, task.k = ("U", self.i, j), 0
            task.trace = []
            self.traces[(self.i, j)] = task.trace
            self.fired0 = len(w.fired)
            try:
                if op[0] == "config":
                    self.cfg_tree = None
                    self.see_config(sm.config, means, cv)
                elif op[0] == "state":
                    self.see_state(sm, means, cv, sv, key)
                    self.opened = True
                elif op[0] == "save":
                    self.do_save(sm, cv, sv)
                else:
                    self.do_step(sm, op, cv, sv, key, frm)
            except simfs.SimKilled:
                raise
            except (Exception, SystemExit, KeyboardInterrupt) as e:
                self.healed()
                if isinstance(e, SystemExit) and op[0] not in ("config", "state"):
                    raise
                if len(w.fired) > self.fired0:
                    self.res.hit("raised-with-fault")
                    if op[0] in ("config", "state"):
                        raise
                    continue
                if op[0] in ("config", "state") and any(m[0] == "reject" and m[1] in (op[0], "config") for m in means):
                    self.res.hit("rejected")
                    return
                if op[0] == "step" and self.excuse:
                    self.excuse = False
                    continue
                self.bug(f"life {self.i}: {op[0]} raised {type(e).__name__}: {str(e)[:200]} (config version {self.cfg.numbers[cv]}, state version {self.st.numbers[sv]})", self.rules(), tags=("C13", "C12"))

    excuse = True

    def healed(self):
        """Disk trouble ends with the operation it hit."""
        self.w.full.clear()
        self.w.fs.caps.clear()

    def fits_config(self, got, tree, cv, key_values=None):
        want = C.expect(self.cfg.levels[cv], tree, "Config")
        return not self.conf_diff(got, want, key_values)

    def conf_diff(self, got, want, kv):
        out = {}
        for k in set(got) | set(want):
            a, b = got.get(k, ...), want.get(k, ...)
            if isinstance(b, tuple) and b and isinstance(b[0], C.Sched):
                if kv is None or a is ...:
                    continue
                val = a if not isinstance(a, tuple) else __import__("struct").unpack(">d", bytes.fromhex(a[1]))[0]
                if not P.sched_matches(b[0].text, kv, b[1] == "int", val):
                    out[k] = (a, b)
            elif a != b:
                out[k] = (a, b)
        return out

    def see_config(self, cfg, means, cv):
        got = C.observe(self.cfg.levels[cv], cfg)
        ok = [m for m in means if m[0] == "ok" and self.fits_config(got, m[1], cv) or m[0] == "reject" and m[1] == "state" and self.fits_config(got, m[3], cv)]
        if not ok:
            m = means[0]
            if m[0] == "reject" and m[1] == "config":
                self.bug(f"life {self.i}: a config that {m[2]} refuses was loaded", self.rules(), tags=("C13",))
            want = C.expect(self.cfg.levels[cv], m[1] if m[0] == "ok" else m[3], "Config")
            d = self.conf_diff(got, want, None)
            self.bug(f"life {self.i}: config loaded by version {self.cfg.numbers[cv]} is not what the rules yield", f"got/want {P.show(d, 600)}; " + self.rules(), tags=("C13", "C12"))
        self.res.hit("config-checked")

    def see_state(self, sm, means, cv, sv, key):
        st = sm.state
        got = C.observe(self.st.levels[sv], st)
        cfg = C.observe(self.cfg.levels[cv], sm.config)
        kv = getattr(st, key)
        if self.opened:
            want = C.expect(self.st.levels[sv], self.st_tree, "State")
            if got != want:
                self.bug(f"life {self.i}: the live state changed by itself", diff_flat(want, got))
            return
        ok = [m for m in means if m[0] == "ok" and got == C.expect(self.st.levels[sv], m[2], "State") and self.fits_config(cfg, m[1], cv, kv)]
        if not ok:
            m = min(means, key=lambda m: m[0] != "ok" or m[2][key] != kv)
            if m[0] == "reject":
                self.bug(f"life {self.i}: a {m[1]} that {m[2]} refuses was loaded", self.rules())
            want = C.expect(self.st.levels[sv], m[2], "State")
            d = diff_flat(want, got) if want != got else P.show(self.conf_diff(cfg, C.expect(self.cfg.levels[cv], m[1], "Config"), kv), 600)
            self.bug(f"life {self.i}: state loaded by version {self.st.numbers[sv]} is not what the rules yield", d + "; " + self.rules(), tags=("C13", "C12"))
        self.cfg_tree, self.st_tree = copy.deepcopy(ok[0][1]), copy.deepcopy(ok[0][2])
        self.res.hit("state-checked")

    def do_step(self, sm, op, cv, sv, key, frm):
        st = sm.state
        if op[0] == "step":
            C.poke(self.st.levels[sv], st, self.st_tree, random.Random(f"poke/{op[1]}"), skip=(key,))
            self.st_tree[key] += op[2]
            setattr(st, key, self.st_tree[key])
        rec = Rec(cv, copy.deepcopy(self.cfg_tree), sv, copy.deepcopy(self.st_tree), self.st_tree[key])
        renamed = self.acked is not None and self.st.keynames[self.acked.sv] != key
        if not frm:
            same = self.acked is not None and self.acked.key == rec.key
            if same:
                # the counter is already saved; whether its checkpoint is written anew is open
                self.cands = self.cands + [rec] if renamed or self.writing_unsure else self.cands
            else:
                self.writing = rec
                self.cands = self.cands + [rec]
        sm.step()
        self.healed()
        self.res.steps += 1
        self.excuse = False
        if len(self.w.fired) > self.fired0:
            self.excuse = True
        self.writing = None
        if not frm and not (self.acked is not None and self.acked.key == rec.key):
            dup = [c for c in self.cands if c is not rec and c.key == rec.key]
            self.cands = dup + [rec]
            self.acked = rec
        self.see_after(sm, cv, sv, key)

    writing_unsure = False

    def see_after(self, sm, cv, sv, key):
        got = C.observe(self.st.levels[sv], sm.state)
        want = C.expect(self.st.levels[sv], self.st_tree, "State")
        if got != want:
            self.bug(f"life {self.i}: step changed the live state", diff_flat(want, got))
        d = self.conf_diff(C.observe(self.cfg.levels[cv], sm.config), C.expect(self.cfg.levels[cv], self.cfg_tree, "Config"), self.st_tree[key])
        if d:
            self.bug(f"life {self.i}: after step the config is wrong", P.show(d, 600), tags=("C13", "C11"))

    def do_save(self, sm, cv, sv):
        if self.w.fs.h_exists(BEST):
            return
        rec = Rec(cv, copy.deepcopy(self.cfg_tree), sv, copy.deepcopy(self.st_tree), 0)
        try:
            sm.checkpoint(BEST)
        finally:
            self.healed()
            if self.w.fs.h_isdir(BEST):
                self.best = rec

    # -- C12: overrides that must be rejected ----------------------------------------------

    def try_bad(self, i, life, init, ck, cv, sv):
        bad = self.bad_overrides(life["badov"], cv)
        means = [self.meaning(rec, [], cv, sv) for rec in self.source(life.get("from"))]
        if any(m[0] != "ok" for m in means):
            return
        w = simfs.World(seed=3, fs=self.w.fs.clone())
        before = w.fs.h_tree("/simfs/data")
        seen = []

        def use(sm):
            v = sm.config
            seen.append("config")

        task = simfs.Task(0, "B", simfs.Proc(w, "bad", HOME), None)
        cli = bool(life.get("cli"))
        with simfs.running(w, task):
            try:
                self.sm(init, ck, bad, cv, sv, cli, use, self.st.keynames[sv], lambda c, x: C.build(self.st.levels[sv], self.st.cls[sv], self.init_tree(sv)))
            except (Exception, SystemExit) as e:
                self.res.hit("bad-override-rejected")
            else:
                self.bug(f"life {i}: the overrides {bad!r} were accepted", f"{[(p, str(f.T)) for p, f in C.walk(self.cfg.levels[cv])]}", tags=("C12",))
        if seen:
            self.bug(f"life {i}: the overrides {bad!r} were accepted", tags=("C12",))
        if {k: v for k, v in w.fs.h_tree("/simfs/data").items() if k not in before and not k.endswith("run/")} :
            self.bug(f"life {i}: a rejected override wrote files", tags=("C12",))

    # -- crash points ---------------------------------------------------------------------

    def run_probes(self):
        r = random.Random(f"pp/{self.scn['probe_seed']}")
        for fs, label, k, cands, must, cv, sv in self.probes:
            cv2, sv2 = r.randint(cv, len(self.cfg.levels) - 1), r.randint(sv, len(self.st.levels) - 1)
            self.res.probes += 1
            self.res.states.add(fs.digest()[:16])
            w = simfs.World(seed=5, fs=fs)
            means = [self.meaning(rec, [], cv2, sv2) for rec in cands + ([] if must else [None])]
            task = simfs.Task(0, "P", simfs.Proc(w, "probe", HOME), None)
            key = self.st.keynames[sv2]
            self.i = f"{label[1]} (killed in operation {label[2]} at system call {k}, restarted)"
            self.opened = False
            self.fired0 = len(self.w.fired)

            def use(sm):
                self.see_config(sm.config, means, cv2)
                self.see_state(sm, means, cv2, sv2, key)

            simfs.boot_reset("/simfs/tmp", seed=2)
            with simfs.running(w, task):
                try:
                    self.sm(FILE if self.file else None, CK, [], cv2, sv2, False, use, key, lambda c, x: C.build(self.st.levels[sv2], self.st.cls[sv2], self.init_tree(sv2)))
                except (Exception, SystemExit) as e:
                    if any(m[0] == "reject" for m in means):
                        continue
                    self.bug(f"life {self.i}: raised {type(e).__name__}: {str(e)[:200]}", self.rules())


def run(hs, scn, prop):
    u = URun(hs, scn, prop)
    res = u.execute()
    res.traces = u.traces
    res.nontrivial = bool(res.fired) or bool(res.counts.get("state-checked"))
    return res


def variants(prop, scn, res, seed):
    from .gen_t import pick

    for v in range(1):
        r = random.Random(f"UV/{seed}/{v}")
        faults = []
        for _ in range(r.choice([1, 1, 2, 3])):
            c = [(k, tr) for k, tr in res.traces.items() if tr]
            if not c:
                return
            (i, j), tr = r.choice(c)
            f = pick(r, tr, r.choice(["crash", "crash", "mix"]))
            if f:
                k = f.pop("k")
                faults.append(dict(f, at=[i, j, k]))
        if faults:
            yield dict(scn, faults=faults, probe_rate=0.0)


def shrink(scn, res):
    L, F = scn["lives"], scn["faults"]
    if scn["probe_rate"]:
        yield dict(scn, probe_rate=0.0)
    for i in range(len(F)):
        yield dict(scn, faults=F[:i] + F[i + 1 :])
    for i in range(len(L)):
        if len(L) > 1:
            yield dict(scn, lives=L[:i] + L[i + 1 :], faults=[dict(f, at=[f["at"][0] - (f["at"][0] > i)] + f["at"][1:]) for f in F if f["at"][0] != i])
    for i in range(len(L)):
        for j in range(len(L[i]["ops"])):
            yield dict(scn, lives=L[:i] + [dict(L[i], ops=L[i]["ops"][:j] + L[i]["ops"][j + 1 :])] + L[i + 1 :])
        for k in ("ov", "badov", "cli", "from"):
            if k in L[i]:
                yield dict(scn, lives=L[:i] + [{a: b for a, b in L[i].items() if a != k}] + L[i + 1 :])
        for u in (0, 1):
            if L[i]["up"][u]:
                up = list(L[i]["up"])
                up[u] = False
                yield dict(scn, lives=L[:i] + [dict(L[i], up=up)] + L[i + 1 :])
    for k, v in (("mounts", []), ("order", 0), ("style", "path"), ("ser", 0), ("nsched", 0), ("file", "full")):
        if scn[k] != v:
            yield dict(scn, **{k: v})
    for i in (0, 1):
        if scn["n"][i] > 1 - 0:
            n = list(scn["n"])
            n[i] -= 1
            yield dict(scn, n=n)


def describe(scn):
    return {k: scn[k] for k in ("seed", "file", "ser", "n", "lives", "faults")}
