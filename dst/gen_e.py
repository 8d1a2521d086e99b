"""A run whose checkpoint or config file is edited by hand between process lifetimes: values changed, schedules added or removed,
fields with default left out, in any layout, order and notation; fields the class does not know added (with and without
ignore_extra_fields), values of a wrong type put in, required values removed, and put right again; with steps, kills at seeded
system calls and restarts in between.  Every start must have exactly the edited and otherwise the saved values, or report an error
and leave the files as they are."""
import copy
import dataclasses
import os
import random
from pathlib import Path

from . import gen_t, lanes, prog as P, simfs
from .core import Stop, Viol
from .gen_b import BRun
from .trainer import HOME, Rec, flat, gen_config_file, restart_and_compare


def gen(prop, seed):
    r = random.Random(f"E/{prop}/{seed}")
    ign = {"C21": 0.15, "C22": 0.5}[prop]
    src = r.choice(["auto", "auto", "explicit", "explicit-nodir", "file", "file-nodir"])
    ovs = [r.randint(1, 10**6)] if r.random() < 0.15 else []
    lives = []
    for i in range(r.randint(1, 4)):
        eds = []
        for _ in range(r.choice([0, 1, 1, 2])):
            x = r.random()
            if x < (0.55 if prop == "C21" else 0.2):
                eds.append(["edit", r.randint(1, 10**6), r.randint(0, 3)])
            elif x < (0.7 if prop == "C21" else 0.3):
                eds.append(["sched", r.randint(1, 10**6)])
            elif x < (0.75 if prop == "C21" else 0.85):
                eds.append(["extra", r.choice(["config.ron", "state.ron"]), r.randint(1, 10**6), r.choice(["top", "top", "deep"])])
            elif x < (0.92 if prop == "C21" else 0.9):
                eds.append(["misfit", r.choice(["config.ron", "state.ron"]), r.randint(1, 10**6)])
            else:
                eds.append(["restore", r.randint(1, 10**6)])
        ops = []
        for _ in range(r.randint(1, 5)):
            x = r.random()
            if x < 0.15:
                ops.append(["config"])
            elif x < 0.3:
                ops.append(["state"])
            elif x < 0.5:
                ops.append(["get", r.randint(0, 3)])
            elif x < 0.65:
                ops.append(["load"])
            else:
                ops.append(["step", r.choice([1, 1, 5, 1000])])
        lives.append({"edits": eds, "ops": ops, "ignore": r.random() < ign})
    cf = src.startswith("file") or r.random() < 0.6
    return {
        "cfg_file": cf and r.randint(1, 10**6), "family": "E", "prog": {"seed": r.randint(1, 10**9), "size": r.randint(1, 6), "wild": r.random() < 0.5, "ser": r.choice([0, 0, 1, 2]), "req": cf and r.choice([0, 0.4])},
        "layout": {"ck": "/simfs/data/run", "ckdev": r.choice([0, 0, 1]), "order": r.randint(0, 9), "style": r.choice(["path", "str", "rel"])},
        "world_seed": r.randint(1, 10**6), "src": src, "older": r.random() < 0.3, "cli": r.random() < 0.2, "warm": r.randint(1, 2),
        "lives": lives, "overrides": ovs, "faults": [], "file_seed": r.randint(1, 10**6), "ignore_extra": False, "unsafe": False,
    }


def eq(a, b):
    return P.canon(a) == P.canon(b)


class Text:
    """Writes values as a person would: any layout and notation with the same meaning."""

    def __init__(self, r):
        self.r = r
        self.style = r.choice(["tight", "lines", "wild"])
        self.plant = None  # a field nobody declared, for one of the dataclasses inside values

    def ws(self):
        r = self.r
        if self.style == "tight":
            return ""
        if self.style == "lines":
            return r.choice([" ", "\n", "\n    "])
        return r.choice(["", "", " ", "\n\t", "\r\n", " /* a comment, with (parens) and \"quotes */ ", " // to be tuned: \"lr\"\n", "  "])

    def seq(self, parts, a, b, one=False):
        w = self.ws
        out = a + w() + ("," + w()).join(p + w() for p in parts)
        if parts and (one and len(parts) == 1 or self.r.random() < 0.4):
            out += "," + w()
        return out + b

    def value(self, v, T=None):
        r = self.r
        if isinstance(v, bool) or v is None or isinstance(v, P.enum.Enum) or isinstance(v, str):
            return P.ron(v)
        if isinstance(v, int):
            if abs(v) < 2**50 and T == "int" and r.random() < 0.2:
                return f"{v}.0"
            return P.ron(v)
        if isinstance(v, float):
            if T == "float" and v == v and abs(v) < 1e15 and v == int(v) and v != 0 and r.random() < 0.4:
                return str(int(v))
            return P.ron(v)
        if isinstance(v, list):
            return self.seq([self.value(x) for x in v], "[", "]")
        if isinstance(v, tuple):
            return self.seq([self.value(x) for x in v], "(", ")", one=True) if v else "[]"
        if isinstance(v, dict):
            ks = list(v)
            return self.seq([self.value(k) + self.ws() + ":" + self.ws() + self.value(v[k]) for k in ks], "{", "}")
        plant, self.plant = self.plant, None
        pairs = [(f, self.value(getattr(v, f))) for f in v.__dataclass_fields__]
        if plant:
            pairs.append(plant)
        return self.struct(type(v).__name__, pairs, name=True)

    def struct(self, cname, pairs, name):
        if self.r.random() < 0.5:
            self.r.shuffle(pairs)
        w = self.ws
        if not pairs and not name:
            return "()"
        return (cname + self.r.choice(["", "", w()]) if name else "") + self.seq([f"{f}{w()}:{w()}{t}" for f, t in pairs], "(", ")")


def has_struct(v):
    """A dataclass value somewhere in a list, a mapping, an optional or a union field."""
    if isinstance(v, (list, tuple)):
        return any(has_struct(x) for x in v)
    if isinstance(v, dict):
        return any(has_struct(x) for x in v.values())
    return hasattr(v, "__dataclass_fields__")


MISFITS = {"int": ['"abc"', "[1]", "1.5", '"1.5"'], "float": ['"x1"', "[1]"], "str": ["5", "[1]", "2.5"], "bool": ["3", '"maybe"', "[]"]}


def misfit(T, r):
    if isinstance(T, str):
        return r.choice(MISFITS[T])
    k, a = T[0], T[1]
    if k == "opt":
        return misfit(a, r)
    if k == "tuple" and all(isinstance(x, str) for x in a) and r.random() < 0.5:
        # a tuple of another length
        n = r.choice([m for m in range(1, 5) if m != len(a)])
        one = {"int": "1", "float": "0.5", "bool": "true", "str": '"x"'}
        return "(" + "".join(one[a[i % len(a)]] + ", " for i in range(n)) + ")"
    if k == "dict" and isinstance(a, str) and r.random() < 0.5:
        kt = T[2] if len(T) > 2 else "str"
        val = {"int": "1", "float": "0.5", "bool": "true", "str": '"x"'}[a]
        return "{" + {"str": "5", "int": '"k"', "float": '"k"'}.get(kt, "77") + ": " + val + "}"
    return r.choice({"enum": ['"no such value"'], "lit": ['"no such value"', "77"], "list": ["5", '"x"'], "dict": ["5", "[1]"], "tuple": ["5", '"x"'], "vtuple": ["5", '"x"', "[1]"],
                     "dc": ["5", "[1]", '"x"'], "union": ["5", "[1]"]}[k])


class ERun(BRun):
    def execute(self):
        w = self.world
        self.bad, self.backup = {}, {}
        self.extra = {}  # file -> (top, deep)
        self.misfits = {}  # file -> (path, text or None)
        self.now_sched, self.initial_calls = {}, []
        self.tag = self.prop
        w.on_op = None
        try:
            self.prepare()
            for i, life in enumerate(self.scn["lives"]):
                self.life(i, life)
            self.finish()
        except Viol as v:
            self.res.viol = (v.what, v.detail)
        except Stop:
            pass
        self.res.absorb(w)
        self.res.hash = w.log.hexdigest()
        self.res.log_lines = w.log_lines
        return self.res

    def prepare(self):
        scn = self.scn
        if not scn["src"].startswith("file"):
            return super().prepare()
        self.args = {"dir": scn["src"] == "file", "overrides": scn["overrides"], "cli": scn["cli"], "init": ["given", "/simfs/home/conf.ron"]}
        rf, cfg, sched = gen_config_file(self.prog, scn["file_seed"])
        self.rec = Rec("file", 0, cfg, sched, self.prog.initial_state(model=True))
        self.where = "/simfs/home/conf.ron"
        self.write("config.ron", random.Random(1))

    # -- the person with the editor ------------------------------------------

    def path(self, f):
        if self.where.endswith(".ron"):
            return self.where if f == "config.ron" else None
        return self.where + "/" + f

    def write(self, f, r):
        p = self.path(f)
        if p is None:
            return
        t = Text(r)
        extra, mis = self.extra.get(f), self.misfits.get(f)
        top = f == "config.ron"
        dc = self.prog.cfg if top else self.prog.st
        obj = self.rec.cfg if top else self.rec.st
        sched = self.rec.sched if top else {}
        if extra and extra[1] == "inner" and (extra[2] in sched or not has_struct(P.getpath(obj, extra[2]))):
            del self.extra[f]  # the value it was in is gone
            extra = None
        unknown = lambda: (f"zz_unknown{r.randint(1, 9)}", r.choice(["1", '"x"', "(a: 1)", "[]", "None", "Foo(b: [1])"]))

        def body(dc, obj, path, root):
            pairs = []
            dflt = P.default_of(dc) if top else None
            for n, T, d in dc.fields:
                p = f"{path}.{n}" if path else n
                v = getattr(obj, n)
                if mis and mis[0] == p:
                    if mis[1] is not None:
                        pairs.append((n, mis[1]))
                    continue
                if n in self.prog.ser_fields and root and not top:
                    pairs.append((n, '"<blob:msgpack>"'))
                elif p in sched:
                    pairs.append((n, P.ron_str(sched[p])))
                elif not isinstance(T, str) and T[0] == "dc":
                    inside = list(sched) + [x[i] for x, i in ((mis, 0), (extra, 2)) if x and len(x) > i]
                    if top and eq(v, getattr(dflt, n)) and not (d is None and P.has_missing(T[1])) and not any((x + ".").startswith(p + ".") for x in inside) and r.random() < 0.5:
                        self.res.hit("section-left-out")
                        continue
                    inner = body(T[1], v, p, False)
                    s = t.struct(T[1].name, inner, name=r.random() < 0.5 if inner else True)
                    pairs.append((n, s))
                elif extra and extra[1] == "inner" and extra[2] == p:
                    t.plant = unknown()
                    pairs.append((n, t.value(v, T)))
                elif top and d is not None and eq(v, getattr(dflt, n)) and v != 0 and r.random() < 0.5:
                    pass
                else:
                    pairs.append((n, t.value(v, T)))
            if extra and (root and extra[1] == "top" or not root and extra[1] == "deep" and path == extra[2]):
                pairs.insert(r.randint(0, len(pairs)), unknown())
            return pairs

        pairs = body(dc, obj, "", True)
        if dc.version is not None:
            pairs.insert(0, ("version", str(dc.version)))
        text = t.ws().lstrip() + t.struct(dc.name, pairs, name=True if top or r.random() < 0.5 or not pairs else False) + t.ws()
        self.world.fs.h_write(p, text.encode())
        self.res.hit("rewrote-" + f)

    def deep_paths(self, top):
        out = []

        def walk(dc, path):
            for n, T, d in dc.fields:
                if not isinstance(T, str) and T[0] == "dc":
                    p = f"{path}.{n}" if path else n
                    out.append(p)
                    walk(T[1], p)

        walk(self.prog.cfg if top else self.prog.st, "")
        return out

    def leaves(self, top):
        out = []

        def walk(dc, path):
            for n, T, d in dc.fields:
                p = f"{path}.{n}" if path else n
                if not isinstance(T, str) and T[0] == "dc":
                    walk(T[1], p)
                elif not (isinstance(T, tuple) and T[0] == "ser") and p != (None if top else self.prog.key):
                    out.append((p, T, d))

        walk(self.prog.cfg if top else self.prog.st, "")
        return out

    def edit(self, op):
        kind = op[0]
        if kind in ("edit", "sched", "restore"):
            r = random.Random(f"edit/{op[1]}")
        else:
            r = random.Random(f"edit/{op[2]}")
        rec = self.rec
        new = Rec(rec.kind, rec.key, copy.deepcopy(rec.cfg), rec.sched, copy.deepcopy(rec.st))
        self.rec = new
        if kind == "edit":
            for top in (True, False):
                ls = self.leaves(top)
                for _ in range(min(op[2], len(ls))):
                    p, T, d = r.choice(ls)
                    if p == "samples" and not top:
                        v = r.randint(0, 50)
                    else:
                        v = P.gen_value(T, r, self.prog.wild)
                    if top:
                        new.sched.pop(p, None)
                    P.setpath(new.cfg if top else new.st, p, v)
                    self.res.hit("value-edited")
            secs = self.deep_paths(True)
            if secs and r.random() < 0.3:
                p = r.choice(secs)
                for q in [q for q in new.sched if q.startswith(p + ".")]:
                    del new.sched[q]
                P.setpath(new.cfg, p, P.getpath(self.prog.default_config(), p))
        elif kind == "sched":
            if r.random() < 0.3 and new.sched:
                p = r.choice(sorted(new.sched))
                T = dict(self.prog.sched_paths)[p]
                del new.sched[p]
                P.setpath(new.cfg, p, r.randint(1, 9) if T == "int" else r.choice([0.25, 3.5]))
                self.res.hit("schedule-removed")
            elif self.prog.sched_paths:
                p, T = r.choice(self.prog.sched_paths)
                new.sched[p] = P.gen_schedule(r, r.choice(self.prog.xnames), T == "int")
                self.res.hit("schedule-added")
        elif kind == "extra":
            deep = self.deep_paths(op[1] == "config.ron")
            obj = new.cfg if op[1] == "config.ron" else new.st
            inner = [p for p, _, _ in self.leaves(op[1] == "config.ron") if p not in new.sched and has_struct(P.getpath(obj, p))]
            if inner and not self.scn["overrides"] and r.random() < 0.5:
                self.extra[op[1]] = (1, "inner", r.choice(inner))
            elif op[3] == "deep" and deep and not self.scn["overrides"]:
                self.extra[op[1]] = (1, "deep", r.choice(deep))
            else:
                self.extra[op[1]] = (1, "top")
            self.res.hit("unknown-field-" + self.extra[op[1]][1])
        elif kind == "misfit":
            top = op[1] == "config.ron"
            ls = [x for x in self.leaves(top) if not (top and x[0] in new.sched)]
            if ls and not (top and self.scn["overrides"]):
                p, T, d = r.choice(ls)
                missing = d is None and r.random() < 0.5
                opts = [x for x in ls if x[2] is None and x[1][0] == "opt"]
                if missing and opts and r.random() < 0.6:
                    p, T, d = r.choice(opts)
                    self.res.hit("optional-required-removed")
                self.misfits[op[1]] = (p, None if missing else misfit(T, r))
                self.res.hit("required-removed" if missing else "value-misfit")
        elif kind == "restore":
            self.extra, self.misfits = {}, {}
        if self.where.endswith(".ron"):
            self.extra.pop("state.ron", None)
            self.misfits.pop("state.ron", None)
            new.st = rec.st
        self.write("config.ron", r)
        self.write("state.ron", r)

    # -- lives ------------------------------------------------------------------

    def affected(self, what):
        def broken(f):
            return f in self.misfits or (f in self.extra and not self.args.get("ignore_extra"))

        c = broken("config.ron")
        return c if what == "config" else c or broken("state.ron") if what == "state" else False

    def life(self, i, life):
        w = self.world
        for op in life["edits"]:
            self.edit(op)
        self.args["ignore_extra"] = life["ignore"] and not self.scn["cli"]
        self.want = self.rec.over(self.overrides(self.args))
        broken, fresh = self.affected("state"), self.where.endswith(".ron") and not self.affected("config")
        self.bad = {"x": 1} if broken else {}
        self.inflight = None
        self.cfg_loaded = self.st_loaded = False
        self.loaded, self.maybe = set(), set()
        self.live_key = self.want.key
        self.res.boots += 1
        proc = simfs.Proc(w, f"life{i}", HOME)
        task = simfs.Task(0, "T", proc, None)
        self.task, self.i, self.proc = task, i, proc
        task.label = ("T", i, 0)
        simfs.boot_reset(self.tmp, seed=i + 7)
        used, dead = [], False
        tree0 = w.fs.h_tree("/simfs")

        def use(sm):
            used.append(1)
            for j, op in enumerate(life["ops"], 1):
                task.label, task.k, task.trace = ("T", i, j), 0, []
                self.traces[(i, j)] = task.trace
                getattr(self, "do_" + op[0])(sm, *op[1:])

        with simfs.running(w, task):
            self.initial_calls = []
            try:
                self.start(self.args, use)
            except (Viol, Stop, simfs.SimHang):
                raise
            except simfs.SimKilled:
                dead = True
            except BaseException as e:
                self.bug(f"start {i} raised {type(e).__name__}: {str(e)[:200]}")
        if not used and not dead:
            self.bug(f"start {i}: the program was not run")
        if self.initial_calls and not fresh:
            self.bug(f"start {i}: a fresh initial state was created although a checkpoint is there")
        if not dead:
            proc.exit()
        if broken:
            t1 = w.fs.h_tree("/simfs")
            if {k: v for k, v in t1.items() if v is not None} != {k: v for k, v in tree0.items() if v is not None}:
                ks = [k for k in set(t1) | set(tree0) if t1.get(k, 0) != tree0.get(k, 0)]
                self.bug(f"start {i}: a run that cannot use its files changed them: {sorted(ks)[:3]}")
        if dead:
            self.settle()

    def do_config(self, sm):
        self.cfg_ok = super().do_config(sm)
        return self.cfg_ok

    def do_state(self, sm):
        # unlike damage to files, these are errors in what the files say: never readable
        ok = self.st_loaded or not self.affected("state")
        skip = set(self.prog.ser_fields)

        def want(v):
            got = {}
            for n, T, _ in self.prog.st.fields:
                if n not in skip:
                    flat(getattr(v, n), n, got)
            w = {k: x for k, x in self.want.content()[2].items() if k != "<type>" and k.split(".")[0].split("<")[0] not in skip}
            w[self.prog.key] = P.canon(self.live_key)
            return got, w

        v, good = super().attempt("state", lambda: sm.state, ok, want)
        if good:
            self.st_loaded = self.cfg_loaded = True
            if not ok:
                self.bug(f"start {self.i}: the state was restored although its files are not valid")
            self.do_config(sm)
            self.check_sched(sm.config)
        return good

    def check_sched(self, cfg):
        for p, text in self.want.sched.items():
            T = dict(self.prog.sched_paths).get(p)
            xn = text.split(":")[0]
            x = self.live_key if xn == self.prog.key else getattr(self.want.st, xn)
            val = P.getpath(cfg, p)
            if not P.sched_matches(text, x, T == "int", val):
                self.bug(f"start {self.i}: scheduled field {p} = {val!r} at {xn}={x}, schedule {text!r} gives {P.sched_eval(text, x)!r}")

    def do_load(self, sm):
        """Another program reads the config file."""
        p = self.path("config.ron")
        want = self.rec
        broken = "config.ron" in self.misfits or "config.ron" in self.extra
        try:
            cfg = self.hs.load(self.prog.cfg.cls, p if self.i % 2 else Path(p))
        except (Viol, Stop, simfs.SimKilled, simfs.SimHang):
            raise
        except BaseException as e:
            if not broken:
                self.bug(f"start {self.i}: load({os.path.basename(p)}) raised {type(e).__name__}: {str(e)[:200]}")
            return
        if broken:
            self.bug(f"start {self.i}: load({os.path.basename(p)}) succeeded although the file has " + ("an unknown field" if "config.ron" in self.extra else f"a wrong value for {self.misfits['config.ron'][0]}"))
        got = {k: x for k, x in flat(cfg).items() if k not in want.sched}
        if got != want.content()[0]:
            self.bug(f"start {self.i}: load({os.path.basename(p)}) is not what the file says", lanes.diffs(want.content()[0], got))
        self.res.hit("loaded-by-another-program")

    def do_step(self, sm, inc):
        if not self.do_state(sm):
            before = self.world.fs.h_tree("/simfs/data")
            try:
                sm.step()
            except (Viol, Stop, simfs.SimKilled, simfs.SimHang):
                raise
            except BaseException:
                self.res.hit("step-refused")
            else:
                self.bug(f"start {self.i}: step succeeded although the files of the run are not valid")
            if self.world.fs.h_tree("/simfs/data") != before:
                self.bug(f"start {self.i}: a step that cannot succeed changed files")
            return
        self.prior, self.inflight = self.want, None
        key = self.live_key + inc
        new = self.want.over([])
        new.st = copy.deepcopy(self.want.st)
        setattr(new.st, self.prog.key, key)
        new.key, new.kind, new._flat = key, "auto", None
        self.inflight = new
        super().do_step(sm, inc)
        if not self.args["dir"]:
            self.want = new
        self.check_sched(sm.config)

    def adopt(self, new):
        self.extra, self.misfits = {}, {}
        super().adopt(new)

    def settle(self):
        """Killed in a step: the old or the new checkpoint is what is there."""
        self.res.hit("crash")
        if self.affected("state"):
            return
        exp = [self.rec.over(self.overrides(self.args))]
        new = getattr(self, "inflight", None)
        if new is not None and self.args["dir"]:
            exp.append(new)
        self.res.probes += 1
        fs = self.world.fs.clone()
        entries = [e for e in (fs.h_listdir(self.ck) if fs.h_isdir(self.ck) else []) if e.startswith("latest-") and not e.endswith(".tmp")]
        rec = restart_and_compare(self, fs, {**self.args, "cli": False}, exp, f"a kill in start {self.i}", {self.tag})
        if entries and max(int(e[-12:]) for e in entries) == (new.key if new is not None else -1) and rec.key == new.key and rec is not exp[0]:
            self.adopt2(new)
        self.inflight = None

    def adopt2(self, new):
        self.rec = self.want = new
        self.extra, self.misfits, self.bad = {}, {}, {}
        self.where = self.newest()

    def newest(self):
        es = [e for e in self.world.fs.h_listdir(self.ck) if e.startswith("latest-") and e[-12:].isdigit()]
        return self.ck + "/" + max(es, key=lambda e: e[-12:])

    def probe_now(self, where):
        self.res.probes += 1
        restart_and_compare(self, self.fs_clone0(), {**self.args, "cli": False}, [self.want], where, {self.tag})
        self.res.states.add(self.world.fs.digest()[:16])

    def finish(self):
        if not self.affected("state"):
            self.want = self.rec.over(self.overrides(self.args))
            self.probe_now("everything")


def run(hs, scn, prop):
    b = ERun(hs, scn, prop)
    res = b.execute()
    res.traces = b.traces
    res.nontrivial = any(k.startswith("rewrote") for k in res.counts)
    return res


def variants(prop, scn, res, seed):
    r = random.Random(f"F/E/{seed}")
    steps = [(b, j) for (b, j) in sorted(res.traces) if scn["lives"][b]["ops"][j - 1][0] == "step" and res.traces[(b, j)]]
    if not steps:
        return
    n = r.choice([1, 1, 2])
    faults = []
    for b, j in r.sample(steps, min(n, len(steps))):
        f = gen_t.pick(r, res.traces[(b, j)], "crash")
        f["at"] = [b, j, f.pop("k")]
        faults.append(f)
    yield dict(scn, faults=faults)


def shrink(scn, res):
    L = scn["lives"]
    for i in range(len(scn["faults"])):
        yield dict(scn, faults=scn["faults"][:i] + scn["faults"][i + 1 :])
    for i in reversed(range(len(L))):
        if len(L) > 1 and not any(f["at"][0] >= i for f in scn["faults"]):
            yield dict(scn, lives=L[:i] + L[i + 1 :])
    for i in range(len(L)):
        for part in ("edits", "ops"):
            for j in range(len(L[i][part])):
                if part == "ops" and any(f["at"][0] == i for f in scn["faults"]):
                    continue
                yield dict(scn, lives=L[:i] + [dict(L[i], **{part: L[i][part][:j] + L[i][part][j + 1 :]})] + L[i + 1 :])
    for k, v in (("cli", False), ("older", False), ("overrides", []), ("cfg_file", scn["cfg_file"] if scn["src"].startswith("file") else 0), ("warm", 1), ("src", "auto")):
        if scn[k] != v:
            yield dict(scn, **{k: v})
    pr = scn["prog"]
    if pr["req"]:
        yield dict(scn, prog=dict(pr, req=0))
    for ch in ({"ser": 0}, {"ser": 1}, {"size": 1}, {"size": 2}, {"wild": False}):
        for k, v in ch.items():
            if pr[k] > v:
                yield dict(scn, prog=dict(pr, **ch))
    lay = scn["layout"]
    for k, v in (("style", "path"), ("order", 0), ("ckdev", 0)):
        if lay[k] != v:
            yield dict(scn, layout=dict(lay, **{k: v}))


def describe(scn):
    return {k: scn[k] for k in ("prog", "src", "lives", "cli", "older", "faults")}
