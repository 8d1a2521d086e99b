"""A program that is deployed, edited, checked against its stored schema and deployed again, several times over.  The edits are
known to be harmless or harmful; the schema tool (killed and hit by I/O errors at seeded system calls) must say so, and whatever it
lets pass must load the files and checkpoints that every earlier deployment left, through kills and restarts.  Upgrade rules it
proposes for a harmful edit are put into the next version, which must then understand the old files."""
import copy
import enum
import itertools
import random
import re
from dataclasses import make_dataclass
from pathlib import Path

from . import chain as C, gen_f, prog as P, simfs
from .core import Result, Stop, Viol
from .trainer import HOME

DIRS = gen_f.DIRS
CK = "/simfs/data/ck"
HARMLESS = ["add-default", "add-default", "default-for", "int-float", "to-opt", "widen", "lit-base", "enum-add", "enum-rename", "order", "clsname", "add-sec", "add-optsec"]
HARMFUL = ["add", "add-opt", "add-list", "gone", "rename", "default", "default", "default-gone", "type", "float-int", "narrow", "str-lit", "to-list", "enum-gone", "enum-value", "enum-renumber", "rename-widen", "rename-narrow", "add-sec-needed", "gone-sec", "enum-swap", "rename-default"]


def gen(prop, seed):
    r = random.Random(f"S/{prop}/{seed}")
    gens = []
    for i in range(r.choice([1, 1, 2, 2, 3, 4])):
        harm = r.random() < 0.5
        edits = [r.choice(HARMLESS) for _ in range(r.choice([0, 0, 1, 2, 3]) if harm else r.choice([0, 1, 1, 2, 3, 4]))]
        if harm:
            edits.insert(r.randint(0, len(edits)), r.choice(HARMFUL))
            if r.random() < 0.2:
                edits.append(r.choice(HARMFUL))
        gens.append({"edits": edits, "seed": r.randint(1, 10**6), "files": r.choice([0, 1, 1, 2]), "cmds": r.choice([["upgrade"], ["check", "upgrade"], ["check"]]), "bump": r.random() < 0.3,
                     "fix": r.random() < 0.8, "printed": r.random() < 0.5, "up": r.random() < 0.6, "steps": r.randint(0, 3), "argv": r.random() < 0.3, "rel": r.random() < 0.4})
    return {"family": "S", "seed": r.randint(1, 10**9), "world_seed": r.randint(1, 10**6), "focus": r.random() < 0.3, "order": r.randint(0, 9), "mounts": r.choice([[], [["/simfs/data", 1]]]),
            "dir": r.randint(0, 3), "name": r.choice(["config-schema.ron", "schema v1.ron"]), "gens": gens, "faults": []}


class Deployed(C.Chain):
    """The versions that were deployed, and what their rules do, as a chain."""

    def __init__(self, hs, seed, focus):
        super().__init__(hs, seed, "Config", n=0, sub=False, tame=True, focus=focus)
        self.name = "Config"
        self.rules = {}
        self.dead = set()

    def add(self, spec, name, number, rules, ops):
        self.levels.append(spec)
        self.ops.append(ops)
        if rules:
            self.rules[self.numbers[-1]] = rules
        self.numbers.append(number)
        self.name = name
        self.cls.append(self.make(spec, name, number))

    def new_type(self, r):
        T = super().new_type(r)
        if T[0] == "lit" and r.random() < 0.3:
            T = ("lit", r.choice([["auto", 1, 2], [3, "max"], ["it's", 5]]))
        return T

    def make(self, spec, name, number, extra=None):
        rules = dict(self.rules, **(extra or {}))
        ns = {"version": classmethod(lambda c: number), "upgrade_rules": classmethod(lambda c: rules)}
        return C.make_class(spec, name, (self.hs.Versioned,), ns)


class SRun(gen_f.FRun):
    def __init__(self, hs, scn, prop):
        self.hs, self.scn, self.prop = hs, scn, prop
        self.res = Result()
        fs = simfs.FS()
        fs.order = scn["order"]
        for d in [HOME, "/simfs/tmp"] + DIRS:
            fs.h_mkdirs(d)
        for path, dev in scn["mounts"]:
            fs.h_mount(path, dev)
        self.w = simfs.World(seed=scn["world_seed"], fs=fs, keep_log=scn.get("keep_log", False))
        self.w.faults = {("F", f["at"][0], 0, f["at"][1]): f for f in scn["faults"]}
        self.ch = Deployed(hs, f"{scn['seed']}/s", scn["focus"])
        self.St = make_dataclass("SState", [("step", int)])
        self.path = DIRS[scn["dir"]] + "/" + scn["name"]
        self.files = []
        self.acked = None
        self.traces = {}
        self.n = 0
        self.dry = False
        self.allowed = {}
        self.report = ""

    def bug(self, what, detail="", tags=("C19", "C23")):
        if self.prop in tags:
            raise Viol(set(tags), what, detail)
        self.res.other.append((sorted(tags), what))
        raise Stop()

    def execute(self):
        try:
            self.tool("dump", self.ch.cls[0], {"argv": False, "rel": False}, "the first dump")
            for i, g in enumerate(self.scn["gens"]):
                self.write_files(i, g)
                self.train(f"deployment {i}", g["steps"])
                self.next(i, g)
                self.look_at_files(f"deployment {i + 1}")
            self.train("the last deployment", 1)
            self.train("a restart of it", 1)
        except Viol as v:
            self.res.viol = (v.what, v.detail)
        except Stop:
            self.res.hit("stopped-early")
        self.res.absorb(self.w)
        self.res.hash = self.w.log.hexdigest()
        self.res.log_lines = self.w.log_lines
        return self.res

    # -- the deployed program -------------------------------------------------------

    def inside(self, fn, faulty=False):
        """Run fn in a process of its own: how it ended."""
        proc = simfs.Proc(self.w, f"p{self.n}", HOME)
        task = simfs.Task(0, "F", proc, None)
        task.label = ("F", self.n, 0)
        if faulty:
            task.trace = self.traces[self.n] = []
        else:
            task.label = ("Q", self.n, 0)
        self.n += 1
        simfs.boot_reset("/simfs/tmp", seed=self.n)
        how = "ok"
        fired0 = len(self.w.fired)
        with simfs.running(self.w, task):
            try:
                fn()
            except simfs.SimKilled:
                how = "killed"
            except (Viol, Stop, simfs.SimHang, simfs.SimUnsupported):
                raise
            except BaseException as e:  # a parser panic is no Exception
                how, self.error = "failed", e
            if how != "killed":
                try:
                    proc.exit()
                except simfs.SimKilled:
                    how = "killed"
        if not proc.ended:
            proc.kill()
        self.w.full.clear()
        self.w.fs.caps.clear()
        self.faulted = len(self.w.fired) > fired0
        return how

    def write_files(self, i, g):
        lvl = len(self.ch.levels) - 1
        for k in range(g["files"] or (not self.files)):
            r = random.Random(f"files/{g['seed']}/{k}")
            spec, cls = self.ch.levels[lvl], self.ch.cls[lvl]
            tree = C.gen_tree(spec, r, r.random() < 0.5)
            path = f"{HOME}/conf{len(self.files)}.ron"
            how = r.choice(["text", "dump", "elide"])
            if how == "text":
                self.w.fs.h_write(path, self.ch.text(tree, lvl).encode())
            else:
                tree = C.complete(spec, tree)

                def write():
                    self.hs.dump(C.build(spec, cls, tree), path, elide_defaults=how == "elide")

                if self.inside(write) != "ok":
                    self.bug(f"writing a config file failed: {type(self.error).__name__}: {str(self.error)[:300]}", tags=("C23",))
                if how == "elide":
                    tree = C.elide(spec, tree)
            self.files.append((path, lvl, tree))
            self.res.hit("file-" + how)

    def means(self, lvl, tree):
        """The config it is for the class deployed now; None if a rule rejects it."""
        now = len(self.ch.levels) - 1
        try:
            return self.ch.upgrade(tree, lvl, now)
        except C.Reject as e:
            assert e.args[0][0] in ("check", "reject"), e.args
            return None

    def look_at_files(self, what):
        spec, cls = self.ch.levels[-1], self.ch.cls[-1]
        for path, lvl, tree in self.files:
            want = self.means(lvl, tree)
            got = []
            how = self.inside(lambda: got.append(C.observe(spec, self.hs.load(cls, file=path))))
            self.judge(what, path, lvl, want, how, got)

    def judge(self, what, path, lvl, want, how, got):
        raw = self.w.fs.h_read(path)
        about = f"{raw!r} written by deployment {lvl}; schema {self.w.fs.h_read(self.path)!r}; class {C.expect(self.ch.levels[-1], want, self.ch.name) if want else None}; rules {self.ch.rules}; edits {[g['edits'] for g in self.scn['gens']]}"[:3000]
        if want is None:
            if how == "ok":
                self.bug(f"{what}: {path}, which a proposed rule rejects, was loaded", about, ("C23",))
            self.res.hit("rejected-by-rule")
            return
        if how != "ok":
            self.bug(f"{what}: {path} of an earlier deployment is refused: {type(self.error).__name__}: {str(self.error)[:300]}", about, ("C23",))
        want = C.expect(self.ch.levels[-1], want, self.ch.name)
        if got[0] != want:
            d = [(k, got[0].get(k), want.get(k)) for k in sorted(set(want) | set(got[0])) if got[0].get(k) != want.get(k)]
            self.bug(f"{what}: {path} of an earlier deployment does not mean the same any more", f"path/got/want {d}; " + about, ("C23",))
        self.res.hit("file-checked")

    def train(self, what, steps):
        """The program runs with the first config file and its checkpoints; restarted until it gets through."""
        path, lvl, tree = self.files[0]
        spec, cls = self.ch.levels[-1], self.ch.cls[-1]
        want = self.means(lvl, tree)
        for attempt in range(4):
            got = []

            def run():
                sm = self.hs.StateManager(cls, self.St, lambda c, ctx: self.St(0), Path(path), Path(CK))
                conf = sm.config
                got.append(C.observe(spec, conf))
                if self.acked is not None and sm.state.step not in (self.acked, self.acked + 1):
                    self.bug(f"{what}: counter {sm.state.step} after {self.acked} was acknowledged", tags=("C23",))
                if self.acked is not None:
                    self.acked = sm.state.step
                for _ in range(steps):
                    sm.state.step += 1
                    sm.step()
                    self.acked = sm.state.step

            how = self.inside(run, faulty=True)
            faulted = self.faulted
            if got or how == "failed" and not faulted:
                self.judge(what + (" (restored)" if self.acked else ""), path, lvl, want, "ok" if got else how, got)
                if want is None:
                    return
            if how == "ok":
                return
            if not faulted:
                self.bug(f"{what}: failed: {type(self.error).__name__}: {str(self.error)[:300]}", tags=("C23",))
            self.res.hit("trainer-" + how)

    # -- the developer ---------------------------------------------------------------

    def next(self, i, g):
        r = random.Random(f"edits/{g['seed']}")
        spec = C.clone_spec(self.ch.levels[-1])
        e = Edits(self.ch, spec, r)
        for k in g["edits"]:
            e.edit(k)
        harmful = any(h for h, ops in e.done.values())
        number = self.ch.numbers[-1] + (1 if g["bump"] else 0)
        cls = self.ch.make(e.spec, e.name, number)
        what = f"edit {i} ({', '.join(e.kinds)})"
        verdict, props = self.verdict(self.w.fs, cls)
        old = self.w.fs.h_read(self.path)
        about = f"schema {old!r}; edits {e.done}"[:3000]
        if verdict is None:
            self.bug(f"{what}: comparing with the schema raised {type(self.error).__name__}: {str(self.error)[:300]}", about)
        self.res.hit("harmful" if harmful else "harmless")
        if (verdict == "INFO") == harmful:
            self.bug(f"{what}: counts as " + ("compatible" if harmful else "incompatible"), about)
        if "error" not in verdict.lower() and harmful:
            self.res.hit("proposals")
        for cmd in g["cmds"]:
            self.tool(cmd, cls, g, what, not harmful)
        if harmful:
            bump = f"bump version to {self.ch.numbers[-1] + 1}" in self.report
            if bump == g["bump"]:
                self.bug(f"{what}: the report asks for a new version" + ("" if bump else " no more") + " than it should", self.report[:1500], ("C23",))
        if not harmful:
            self.ch.add(e.spec, e.name, number, None, [])
            if g["cmds"] == ["check"]:
                self.tool("dump", cls, g, what)
            self.res.hit("deployed")
            return
        if verdict == "WARN" and g["fix"] and all(ops is not None for h, ops in e.done.values()):
            ops = [op for h, o in e.done.values() for op in o]
            mine = {("rename", tuple(o[1]), tuple(o[2])) for o in ops if o[0] == "rename"}
            theirs = {("rename", tuple(p.old_field), tuple(p.new_field)) for p in props if type(p).__name__ == "RenameField"}
            if mine != theirs:
                # it cannot know what was renamed and what was removed
                self.res.hit("other-renames")
                return
            if g["printed"]:
                props = self.printed(what)
            self.ch.add(e.spec, e.name, self.ch.numbers[-1] + 1, props, ops)
            if g["up"] and "default-gone" not in e.kinds and not any(o[0] == "map" and o[2] == "wrap" for o in ops):
                # with its rules the new class fits the stored schema
                self.tool("check", self.ch.cls[-1], g, what + " with rules")
                self.tool("upgrade", self.ch.cls[-1], g, what + " with rules")
                self.res.hit("updated-with-rules")
            else:
                self.tool("dump", self.ch.cls[-1], g, what)
            self.res.hit("deployed-with-rules")

    def printed(self, what):
        """The rules the report says to add, as the developer types them in."""
        from hyperstate.schema import rewrite_rule as R

        lines = self.report.split("\n")
        head = f"    {self.ch.numbers[-1]}: ["
        if head not in lines:
            self.bug(f"{what}: the report has no rules for version {self.ch.numbers[-1]}", self.report[:1500], ("C23",))
        body = lines[lines.index(head) :]
        text = "[" + "\n".join(body[1 : body.index("    ],")]) + "]"
        text = re.sub(r"map_fn=<.*?>, rendered=", "map_fn=", text)

        def code(m):
            return "map_fn=" + eval(m.group(1))

        text = re.sub(r"map_fn=('(?:[^'\\]|\\.)*'|\"(?:[^\"\\]|\\.)*\")", code, text)
        try:
            return eval(text, {k: getattr(R, k) for k in ("RenameField", "DeleteField", "MapFieldValue", "ChangeDefault", "AddDefault", "CheckValue", "RejectValues")})
        except Exception as e:
            self.bug(f"{what}: the proposed rules are no code: {e!r}", text[:1500], ("C23",))

    def verdict(self, fs, cls):
        from hyperstate.schema.schema_checker import SchemaChecker
        from hyperstate.schema.types import load_schema

        w = simfs.World(seed=9, fs=fs.clone())
        task = simfs.Task(0, "S", simfs.Proc(w, "sev", HOME), None)
        simfs.boot_reset("/simfs/tmp", seed=2)
        with simfs.running(w, task):
            try:
                c = SchemaChecker(load_schema(self.path), cls)
                return c.severity().name, list(c.proposed_fixes)
            except Exception as e:
                self.error = e
                return None, None

    def tool(self, cmd, cls, g, what, compatible=True):
        """dump-, check- or upgrade-schema, again until nothing gets in its way."""
        w = self.w
        what = f"{what}: {cmd}-schema"
        old = w.fs.h_read(self.path)
        fs = w.fs.clone()
        args = [f"{cmd}-schema", self.path]
        how, out = self.call(simfs.World(seed=3, fs=fs), "ref", cls, args, False)
        if how != "ok":
            self.bug(f"{what} failed: {type(self.error).__name__}: {str(self.error)[:300]}", f"{old!r}"[:1500])
        new = fs.h_read(self.path)
        if cmd != "dump":
            self.report = out
            for words, want in (("Schema compatible", compatible and cmd == "check"), ("Schema incompatible", not compatible), ("Schema updated", compatible and cmd == "upgrade")):
                if (words in out) != want:
                    self.bug(f"{what}: the report says {words!r}" if words in out else f"{what}: the report does not say {words!r}", out[:1500])
        if (cmd == "check" or not compatible) and new != old:
            self.bug(f"{what}: the schema file was replaced" + ("" if cmd == "check" else " although the class is incompatible with it"), f"old {old!r} new {new!r}"[:3000])
        if cmd == "dump" or cmd == "upgrade" and compatible:
            x = fs.clone()
            how, out = self.call(simfs.World(seed=4, fs=x), "ref2", cls, ["dump-schema", self.path], False)
            if x.h_read(self.path) != new:
                self.bug(f"{what}: the schema file was not updated to that of the class", f"old {old!r} new {new!r} dumped {x.h_read(self.path)!r}"[:3000])
        self.allowed = {self.path: {old, new}}
        self.what = what
        for attempt in range(4):
            before = self.listing()
            fired0 = len(w.fired)
            self.traces[self.n] = trace = []
            w.on_op = self.watch
            how, out = self.call(w, self.n, cls, [args[0], self.arg(self.path, g["rel"])], g["argv"], trace)
            w.on_op = None
            self.n += 1
            self.look(f"{what} ({how})")
            fired = w.fired[fired0:]
            got = w.fs.h_read(self.path)
            if how == "ok" and got != new:
                self.bug(f"{what}: success was reported but the file is not updated", f"injected {fired}")
            if how == "failed" and not fired:
                self.bug(f"{what} failed: {type(self.error).__name__}: {str(self.error)[:200]}")
            if how != "killed" and not any("*" in x[2] for x in fired) and len(fired) < 2 and got is not None and old is not None and self.listing() != before:
                self.bug(f"{what}: files are left behind after it " + ("succeeded" if how == "ok" else "reported a failure"), f"{fired}", ("C19",))
            self.res.hit(f"{cmd}-{how}")
            self.res.steps += 1
            if how == "ok":
                return

    def listing(self):
        return {d: [x for x in self.w.fs.h_listdir(d)] for d in DIRS}


class Edits:
    """Edits of a class and what they do: done[where] = (harmful, model rules or None if there is no rule for it)."""

    def __init__(self, ch, spec, r):
        self.ch, self.spec, self.r, self.name = ch, spec, r, ch.name
        self.done, self.kinds = {}, []
        self.new = set()

    def leaves(self, ok):
        return [(p, f) for p, f in C.walk(self.spec) if tuple(p) not in self.done and not any(tuple(p[:n]) in self.new for n in range(len(p))) and ok(f)]

    def at(self, p):
        return C.fields_at(self.spec, p[:-1])

    def swap(self, p, f):
        self.at(p)[p[-1]] = f

    def fresh(self):
        while True:
            n = self.ch.fresh()
            if n not in self.ch.dead and all(n not in (p[-1],) for p, f in C.walk(self.spec)):
                return n

    def place(self):
        """Where a new field goes."""
        secs = [[]] + [p for p, f in C.walk(self.spec, secs=True) if tuple(p) not in self.new]
        return self.r.choice(secs)

    def edit(self, k):
        n0 = len(self.done)
        getattr(self, "e_" + k.replace("-", "_"))()
        if len(self.done) > n0:
            self.kinds.append(k)

    def note(self, p, harmful, ops=None):
        self.done[tuple(p)] = (harmful, ops)

    def leaf(self, default):
        r = self.r
        T = self.ch.new_type(r)
        return C.Leaf(T, C.gen_raw(T, r) if default else C.NODEF)

    def put(self, p, f):
        self.swap(p, f)

    # harmless

    def e_add_default(self):
        p = self.place() + [self.fresh()]
        self.put(p, self.leaf(True))
        self.note(p, False, [])

    def pick(self, ok):
        c = self.leaves(ok)
        return self.r.choice(c) if c else (None, None)

    def e_default_for(self):
        p, f = self.pick(lambda f: f.default is C.NODEF)
        if p:
            self.put(p, C.Leaf(f.T, C.gen_raw(f.T, self.r)))
            self.note(p, False, [])

    def e_int_float(self):
        M = {"int": "float", ("list", "int"): ("list", "float"), ("opt", "int"): ("opt", "float")}
        p, f = self.pick(lambda f: f.T in ["int", ("list", "int"), ("opt", "int")])
        if p:
            T = M[f.T]
            self.put(p, C.Leaf(T, f.default if f.default is C.NODEF else C.to_raw(T, C.typed(T, f.default))))
            self.note(p, False, [])

    def e_to_opt(self):
        p, f = self.pick(lambda f: f.T in ["int", "float", "str", "bool", ("list", "int")] or f.T[0] in ("enum", "lit"))
        if p:
            self.put(p, C.Leaf(("opt", f.T), f.default))
            self.note(p, False, [])

    def e_widen(self):
        p, f = self.pick(lambda f: f.T[0] == "lit")
        if p:
            more = ["tanh", "zz"] if isinstance(f.T[1][0], str) else [9, 11, "auto"]
            self.put(p, C.Leaf(("lit", f.T[1] + [x for x in more if x not in f.T[1]][: self.r.choice([1, 2])]), f.default))
            self.note(p, False, [])

    def e_lit_base(self):
        p, f = self.pick(lambda f: f.T[0] == "lit")
        if p:
            if len({type(v) for v in f.T[1]}) > 1:
                # not all values fit
                T = self.r.choice(["str", "int"])
                self.put(p, C.Leaf(T, C.NODEF if f.default is C.NODEF else next(v for v in f.T[1] if isinstance(v, str) == (T == "str"))))
                self.note(p, True)
                return
            self.put(p, C.Leaf("str" if isinstance(f.T[1][0], str) else "int", f.default))
            self.note(p, False, [])

    def variants(self, f):
        return [(m.name, m.value) for m in f.T[1]]

    def enum_with(self, p, f, vs, default=...):
        E = enum.Enum(f.T[1].__name__, dict(vs))
        self.put(p, C.Leaf(("enum", E), f.default if default is ... else default))

    def e_enum_add(self):
        p, f = self.pick(lambda f: f.T[0] == "enum")
        if p:
            vs = self.variants(f)
            s = isinstance(vs[0][1], str)
            new = self.r.choice([n for n in ("NEW", "EXTRA", "AB", "THREE", "ADA") if n not in dict(vs)])
            val = self.r.choice([v for v in (["n", "new", "ab", "SG"] if s else [31, 40, 5, -9]) if v not in dict(vs).values()])
            vs.insert(self.r.randint(0, len(vs)), (new, val))
            self.enum_with(p, f, vs)
            self.note(p, False, [])

    def e_enum_rename(self):
        p, f = self.pick(lambda f: f.T[0] == "enum")
        if p:
            vs = self.variants(f)
            i = self.r.randrange(len(vs))
            vs[i] = (vs[i][0] + "_X", vs[i][1])
            if len(set(n for n, v in vs)) == len(vs) and len(vs[i][0]) > 3:
                self.enum_with(p, f, vs)
                self.note(p, False, [])

    def e_order(self):
        items = list(self.spec.items())
        self.r.shuffle(items)
        self.spec.clear()
        self.spec.update(items)
        self.note(["<order>"], False, [])

    def e_clsname(self):
        secs = [f for p, f in C.walk(self.spec, secs=True)]
        enums = self.leaves(lambda f: f.T[0] == "enum")
        if enums and self.r.random() < 0.3:
            p, f = self.r.choice(enums)
            self.swap(p, C.Leaf(("enum", enum.Enum(f.T[1].__name__ + "X", dict(self.variants(f)))), f.default))
            self.note(p, False, [])
        elif secs and self.r.random() < 0.6:
            f = self.r.choice(secs)
            f.cls = f.cls + "B"
        else:
            self.name = self.name + "B"
        self.note(["<name>"], False, [])

    def section(self, default, opt=False):
        self.ch.cnt += 1
        s = C.Sec(f"New{self.ch.cnt}", {}, opt=opt)
        for _ in range(self.r.randint(1, 3)):
            s._fields[self.fresh()] = self.leaf(default or self.r.random() < 0.5)
        return s

    def e_add_sec(self):
        p = self.place() + [self.fresh()]
        self.put(p, self.section(True))
        self.new.add(tuple(p))
        self.note(p, False, [])

    def e_add_optsec(self):
        p = self.place() + [self.fresh()]
        self.put(p, self.section(False, opt=True))
        self.new.add(tuple(p))
        self.note(p, False, [])

    # harmful

    def e_add(self):
        p = self.place() + [self.fresh()]
        f = self.leaf(False)
        while isinstance(f.T, tuple) and f.T[0] in ("opt", "list"):
            f = self.leaf(False)
        self.put(p, f)
        self.note(p, True)

    def e_add_opt(self):
        p = self.place() + [self.fresh()]
        self.put(p, C.Leaf(("opt", self.r.choice(["int", "str", "float"]))))
        self.note(p, True, [["adddef", p, None]])

    def e_add_list(self):
        p = self.place() + [self.fresh()]
        self.put(p, C.Leaf(("list", "int")))
        self.note(p, True, [["adddef", p, []]])

    def spare(self):
        """Leaves of sections that do not become empty without them."""
        c = [(p, f) for p, f in self.leaves(lambda f: True) if len(self.at(p)) > 1]
        return self.r.choice(c) if c else (None, None)

    def e_gone(self):
        p, f = self.spare()
        if p:
            self.at(p).pop(p[-1])
            self.ch.dead.add(p[-1])
            self.note(p, True, [["del", p]])

    def e_rename(self):
        p, f = self.pick(lambda f: True)
        if p:
            q = p[:-1] + [self.r.choice([p[-1] + "_new", p[-1].replace("_", ""), p[-1] + "s", self.fresh()])]
            if q[-1] in self.at(p):
                return
            self.at(p)[q[-1]] = self.at(p).pop(p[-1])
            self.ch.dead.add(p[-1])
            self.note(p, True, [["rename", p, q]])
            self.note(q, False, [])

    def other(self, T, d):
        for _ in range(30):
            n = C.gen_raw(T, self.r)
            if C.typed(T, n) != C.typed(T, d):
                return n

    def e_default(self):
        p, f = self.pick(lambda f: f.default is not C.NODEF)
        if p:
            d = self.other(f.T, f.default)
            if f.T[0] == "opt" and self.r.random() < 0.3:
                # hardly a difference, or an easily overlooked one
                d = {"int": 0, "float": 0.0}[f.T[1]] if f.default is None else None
            elif isinstance(f.T, str) and self.r.random() < 0.3:
                d = {"int": lambda d: -d or 1, "float": lambda d: d + 1e-9, "bool": lambda d: not d, "str": lambda d: d + " "}[f.T](f.default)
            if d is not None or f.T[0] == "opt":
                self.put(p, C.Leaf(f.T, d))
                self.note(p, True, [["default", p, f.default, d]])

    def e_default_gone(self):
        p, f = self.pick(lambda f: f.default is not C.NODEF)
        if p:
            self.put(p, C.Leaf(f.T, C.NODEF))
            self.note(p, True, [["adddef", p, f.default]])

    def e_type(self):
        M = {"int": ["str", "bool", ("opt", "str")], "float": ["str", "bool", ("list", "int"), ("opt", "int")], "str": ["int", "float", "bool", ("opt", "float")],
             ("list", "int"): ["int", ("opt", "int")], ("opt", "int"): ["int", ("opt", "str"), ("list", "int")], ("opt", "float"): ["float", ("opt", "bool")]}
        p, f = self.pick(lambda f: f.T in list(M))
        if p:
            T = self.r.choice(M[f.T])
            self.put(p, C.Leaf(T, C.NODEF if f.default is C.NODEF else C.gen_raw(T, self.r)))
            self.note(p, True)

    def e_float_int(self):
        p, f = self.pick(lambda f: f.T == "float" and (f.default is C.NODEF or f.default == int(f.default)))
        if p:
            self.put(p, C.Leaf("int", f.default if f.default is C.NODEF else int(f.default)))
            self.note(p, True, [["map", p, "int"]])

    def e_narrow(self):
        p, f = self.pick(lambda f: f.T[0] == "lit" and len(f.T[1]) > 1)
        if p:
            gone = self.r.choice([v for v in f.T[1] if f.default is C.NODEF or v != f.default])
            self.put(p, C.Leaf(("lit", [v for v in f.T[1] if v != gone]), f.default))
            self.note(p, True, [["reject", p, [gone]]])

    def e_str_lit(self):
        p, f = self.pick(lambda f: f.T in ("str", "int"))
        if p:
            vs = (["", "a", "relu", "adam"] if f.T == "str" else [0, 1, 2, 3, 5, 8, 13, 21, 34])[: self.r.randint(1, 9)]
            if f.default is not C.NODEF and f.default not in vs:
                vs.append(f.default)
            self.put(p, C.Leaf(("lit", vs), f.default))
            self.note(p, True, [["check", p, vs]])

    def e_to_list(self):
        p, f = self.pick(lambda f: f.T == "int")
        if p:
            d = f.default
            self.put(p, C.Leaf(("list", "int"), d if d is C.NODEF else [d]))
            # a left-out value is the old default
            self.note(p, True, ([] if d is C.NODEF else [["default", p, d, [d]]]) + [["map", p, "wrap"]])

    def e_enum_gone(self):
        p, f = self.pick(lambda f: f.T[0] == "enum" and len(f.T[1]) > 1)
        if p:
            vs = [x for x in self.variants(f)]
            x = self.r.choice([x for x in vs if f.default is C.NODEF or x[1] != f.default])
            vs.remove(x)
            self.enum_with(p, f, vs)
            self.note(p, True)

    def e_enum_swap(self):
        """A variant moves from one enum to another."""
        c = self.leaves(lambda f: f.T[0] == "enum" and len(f.T[1]) > 1)
        if len(c) < 2:
            return self.e_enum_gone()
        (p, f), (q, h) = self.r.sample(c, 2)
        vs, us = self.variants(f), self.variants(h)
        ok = [x for x in vs if (f.default is C.NODEF or x[1] != f.default) and x[0] not in dict(us) and x[1] not in dict(us).values()]
        if not ok:
            return self.e_enum_gone()
        x = self.r.choice(ok)
        vs.remove(x)
        us.append(x)
        self.enum_with(p, f, vs)
        self.enum_with(q, h, us)
        self.note(p, True)
        self.note(q, False, [])

    def e_enum_value(self):
        p, f = self.pick(lambda f: f.T[0] == "enum")
        if p:
            vs = self.variants(f)
            i = self.r.randrange(len(vs))
            n, v = vs[i]
            new = v + "-v2" if isinstance(v, str) else v + 100
            vs[i] = (n, new)
            d = f.default
            self.enum_with(p, f, vs, new if d is not C.NODEF and d == v else d)
            self.note(p, True, ([["default", p, d, new]] if d is not C.NODEF and d == v else []) + [["map", p, [[a, new if a == v else a] for _, a in self.variants(f)]]])

    def e_enum_renumber(self):
        """A variant put in front takes the value of the next one, and so on; or two swap their values."""
        p, f = self.pick(lambda f: f.T[0] == "enum")
        if p:
            vs = self.variants(f)
            vals = [v for _, v in vs]
            if self.r.random() < 0.6:
                new = [n for n in ("NEW", "EXTRA") if n not in dict(vs)]
                if not new:
                    return
                names = [new[0]] + [n for n, _ in vs]
                last = next(v for v in ([71, 72, 73] if isinstance(vals[0], int) else ["u", "v", "w"]) if v not in vals)
                us = list(zip(names, vals + [last]))
            elif len(vs) > 1:
                i, j = self.r.sample(range(len(vs)), 2)
                us = list(vs)
                us[i], us[j] = (vs[i][0], vals[j]), (vs[j][0], vals[i])
            else:
                return
            to = [[v, dict(us)[n]] for n, v in vs]
            d = f.default
            n = d if d is C.NODEF else C.apply_fn(to, d)
            self.enum_with(p, f, us, n)
            self.note(p, True, ([] if d is C.NODEF else [["default", p, d, n]]) + [["map", p, to]])

    def rename_to(self, p, g, ops):
        q = p[:-1] + [p[-1] + "s"]
        if q[-1] not in self.at(p):
            self.at(p).pop(p[-1])
            self.at(p)[q[-1]] = g
            self.ch.dead.add(p[-1])
            self.note(p, True, [["rename", p, q]] + [[o, q, x] for o, x in ops])
            self.note(q, False, [])

    def e_rename_default(self):
        p, f = self.pick(lambda f: f.default is not C.NODEF)
        d = self.other(f.T, f.default) if p else None
        q = p and p[:-1] + [p[-1] + self.r.choice(["s", "_new", "2"])]
        if d is not None and q[-1] not in self.at(p):
            self.at(p).pop(p[-1])
            self.at(p)[q[-1]] = C.Leaf(f.T, d)
            self.ch.dead.add(p[-1])
            self.note(p, True, [["rename", p, q], ["default", q, f.default, d]])
            self.note(q, False, [])

    def e_rename_widen(self):
        p, f = self.pick(lambda f: f.T in ["int", ("list", "int"), ("opt", "int")] and f.default is C.NODEF)
        if p:
            self.rename_to(p, C.Leaf({"int": "float", ("list", "int"): ("list", "float"), ("opt", "int"): ("opt", "float")}[f.T]), [])

    def e_rename_narrow(self):
        p, f = self.pick(lambda f: f.T in ["float", ("opt", "float"), "str"] and f.default is C.NODEF)
        if p:
            T, fn = {"float": ("int", "int"), ("opt", "float"): (("opt", "int"), "opt-int"), "str": (("lit", ["a", "relu"]), None)}[f.T]
            self.rename_to(p, C.Leaf(T), [("map", fn)] if fn else [])

    def e_add_sec_needed(self):
        p = self.place() + [self.fresh()]
        s = self.section(True)
        s._fields[self.fresh()] = C.Leaf(self.r.choice(["int", "str"]))
        self.put(p, s)
        self.new.add(tuple(p))
        self.note(p, True)

    def e_gone_sec(self):
        c = [(p, f) for p, f in C.walk(self.spec, secs=True) if len(self.at(p)) > 1 and not any(tuple(p) == d[: len(p)] for d in self.done)]
        if c:
            p, f = self.r.choice(c)
            self.at(p).pop(p[-1])
            self.ch.dead.add(p[-1])
            self.note(p, True)


def run(hs, scn, prop):
    u = SRun(hs, scn, prop)
    res = u.execute()
    res.traces = u.traces
    res.nontrivial = bool(res.steps > 1)
    return res


def variants(prop, scn, res, seed):
    return itertools.islice(gen_f.variants(prop, scn, res, seed), 2)


def shrink(scn, res):
    F, G = scn["faults"], scn["gens"]
    for i in range(len(F)):
        yield dict(scn, faults=F[:i] + F[i + 1 :])
    for i in range(len(G) - 1, -1, -1):
        if len(G) > 1:
            yield dict(scn, gens=G[:i] + G[i + 1 :])
        for j in range(len(G[i]["edits"])):
            yield dict(scn, gens=G[:i] + [dict(G[i], edits=G[i]["edits"][:j] + G[i]["edits"][j + 1 :])] + G[i + 1 :])
        for k, v in (("cmds", ["upgrade"]), ("bump", False), ("fix", False), ("steps", 0), ("argv", False), ("rel", False), ("files", 0)):
            if G[i][k] != v:
                yield dict(scn, gens=G[:i] + [dict(G[i], **{k: v})] + G[i + 1 :])
    for k, v in (("mounts", []), ("order", 0), ("focus", False), ("dir", 0)):
        if scn[k] != v:
            yield dict(scn, **{k: v})


def describe(scn):
    return {k: scn[k] for k in ("seed", "gens", "faults")}
