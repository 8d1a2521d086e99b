"""Chains of class versions: seeded random config/state classes of version 0, 1, .. n with the upgrade rules between them, and an
independent model (nested dictionaries) of what a stored value of one version means in another."""
import copy
import enum
import random
from dataclasses import field, make_dataclass
from typing import Dict, List, Literal, Optional

from . import prog as P

NODEF = "<no default>"
BASE = ["int", "float", "bool", "str", "int", "float", ("list", "int"), ("opt", "int"), ("opt", "float"), ("dict", "int"), "enum", "lit"]


class Leaf:
    def __init__(self, T, default=NODEF, hot=False):
        self.T, self.default, self.hot = T, default, hot  # hot: rules were about it before


class Sec:
    """A dataclass section; with `sub` it is versioned on its own: (Chain, level)."""

    def __init__(self, cls, fields, opt=False, sub=None):
        self.cls, self._fields, self.opt, self.sub = cls, fields, opt, sub

    @property
    def fields(self):
        return self.sub[0].levels[self.sub[1]] if self.sub else self._fields


class Sched:
    def __init__(self, text):
        self.text = text

    def __eq__(self, o):
        return isinstance(o, Sched) and o.text == self.text

    def __repr__(self):
        return f"Sched({self.text!r})"


class Reject(Exception):
    """A rule rejects the stored value."""


def pytype(T, cls=None):
    if isinstance(T, str):
        return {"int": int, "float": float, "bool": bool, "str": str}[T]
    k, a = T
    return {"list": lambda: List[pytype(a)], "opt": lambda: Optional[pytype(a)], "dict": lambda: Dict[str, pytype(a)],
            "enum": lambda: a, "lit": lambda: Literal[tuple(a)], "ser": lambda: a}[k]()


def gen_raw(T, r):
    if T == "int":
        return r.randint(-3, 40)
    if T == "float":
        return r.choice([0.0, 0.5, 1.0, -2.25, 0.1, 3.0, 123.456, 7.0])
    if T == "bool":
        return r.random() < 0.5
    if T == "str":
        return r.choice(["", "a", "relu", "x y", "it's", "adam", "<BLOB>", "<blob:msgpack>", "None", "1"])
    k, a = T
    if k == "opt":
        return None if r.random() < 0.3 else gen_raw(a, r)
    if k == "list":
        return [gen_raw(a, r) for _ in range(r.randint(0, 3))]
    if k == "dict":
        return {c: gen_raw(a, r) for c in r.sample("kpq", r.randint(0, 2))}
    if k == "enum":
        return r.choice(list(a)).value
    if k == "lit":
        return r.choice(a)
    raise AssertionError(T)


def typed(T, raw):
    """The value a stored value means."""
    if isinstance(T, tuple) and T[0] == "enum":
        return T[1](raw)
    if isinstance(T, tuple) and T[0] == "opt":
        return None if raw is None else typed(T[1], raw)
    if isinstance(T, tuple) and T[0] == "list":
        return [typed(T[1], x) for x in raw]
    if T == "float" and type(raw) is int:
        return float(raw)
    return raw


def to_raw(T, v):
    if isinstance(v, enum.Enum):
        return v.value
    if isinstance(v, list):
        return [to_raw(T[1], x) for x in v]
    return v


# -- nested dictionaries ------------------------------------------------------


def get(tree, path):
    """(value, present)"""
    for s in path[:-1]:
        if not isinstance(tree, dict) or tree.get(s) is None:
            return None, False
        tree = tree[s]
    return (tree[path[-1]], True) if isinstance(tree, dict) and path[-1] in tree else (None, False)


def drop(tree, path):
    for s in path[:-1]:
        tree = tree[s]
    return tree.pop(path[-1])


def put(tree, path, v):
    for s in path[:-1]:
        tree = tree.setdefault(s, {})
    tree[path[-1]] = v


FNS = {
    "x*2+1": lambda x: x * 2 + 1,
    "x+0.5": lambda x: x + 0.5,
    "s+!": lambda x: x + "!",
    "not": lambda x: not x,
    "wrap": lambda x: [x],
    "append": lambda x: x + [len(x)],
    "int": lambda x: int(x),
    "float": lambda x: float(x),
    "opt-int": lambda x: None if x is None else int(x),
    "opt+1": lambda x: None if x is None else x + 1,
    "str": lambda x: "v%d" % x,
    "dict": lambda x: {**x, "n": len(x)},
}


class Chain:
    """levels[i]: {name: Leaf|Sec}; ops[i]: how values of level i become values of level i+1; numbers[i]: the version number."""

    def __init__(self, hs, seed, name, n=None, state=False, key="step", keyrename=False, ser=0, sub=True, mk_ser=None, base=None, depth=0, literals=True, tame=False, focus=False):
        r = self.r = random.Random(f"chain/{seed}")
        self.hs, self.name, self.state, self.sub_ok, self.depth, self.tame = hs, name, state, sub, depth, tame
        self.focus = focus  # more optional sections, and rules about what is in them
        self.literals = literals
        self.base = base or ()
        self.cnt = 0
        self.subs = []
        n = r.choice([1, 1, 2, 2, 3, 4]) if n is None else n
        self.keys = []
        first = {}
        if state:
            first[key] = Leaf("int")
        for i in range(r.randint(2, 5)):
            nm = self.fresh()
            if r.random() < (0.6 if focus else 0.3) and depth < 1:
                first[nm] = self.new_sec(r, 0)
            else:
                first[nm] = self.new_leaf(r)
        self.ser_cls = []
        for i in range(ser):
            first["blob%d" % i] = Leaf(("ser", mk_ser(i)))
        self.levels, self.ops = [first], []
        self.numbers = [r.choice([0, 0, 1, 3])]
        self.keynames = [key]
        self.keyrename = keyrename
        for i in range(n):
            spec, ops = self.transition(r, self.levels[-1])
            self.levels.append(spec)
            self.ops.append(ops)
            self.numbers.append(self.numbers[-1] + r.choice([1, 1, 1, 2, 3]))
        self.build()

    # -- generation ------------------------------------------------------------

    def fresh(self):
        self.cnt += 1
        return self.r.choice(["lr", "width", "opt", "alpha", "wd", "mode", "n_layer"]) + "_" + "abcdefghijklmnopqrstuvwxyz"[self.cnt % 26] + (str(self.cnt // 26) if self.cnt >= 26 else "")

    def new_type(self, r):
        T = r.choice(BASE[:-1] if not self.literals else BASE)
        while self.tame and (not isinstance(T, str)) and T[0] == "dict":
            T = r.choice(BASE)
        self.cnt += 1
        if T == "enum":
            return ("enum", r.choice([
                lambda: enum.Enum(f"E{self.cnt}", {"A": "A", "B": "B", "C": "C"}),
                lambda: enum.Enum(f"E{self.cnt}", {"ONE": 1, "TWO": 2, "NEG": -7}),
                lambda: enum.Enum(f"E{self.cnt}", {"SGD": "sgd", "ADAM": "adam w/o"})])())
        if T == "lit":
            return ("lit", r.choice([["relu", "gelu", "it's"], [1, 2, 3]]))
        return T

    def new_leaf(self, r):
        T = self.new_type(r)
        if self.state or r.random() < 0.35:
            return Leaf(T)
        return Leaf(T, gen_raw(T, r))

    def new_sec(self, r, d):
        self.cnt += 1
        cls = f"Sec{self.cnt}"
        if self.sub_ok and d == 0 and r.random() < 0.25:
            c = Chain(self.hs, r.getrandbits(40), cls, n=r.choice([1, 2]), state=self.state, key="n", sub=False, depth=2, literals=self.literals, tame=self.tame)
            self.subs.append(c)
            return Sec(cls, None, sub=(c, 0))
        fields = {}
        for i in range(r.randint(1, 3)):
            nm = self.fresh()
            fields[nm] = self.new_sec(r, d + 1) if d < 1 and r.random() < 0.25 else self.new_leaf(r)
        return Sec(cls, fields, opt=r.random() < (0.6 if self.focus else 0.3))

    def transition(self, r, spec):
        spec = clone_spec(spec)
        ops = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
            op = self.one_op(r, spec)
            if op is not None:
                ops += op
        # sections versioned on their own advance independently
        for p, f in walk(spec, secs=True):
            if isinstance(f, Sec) and f.sub and f.sub[1] + 1 < len(f.sub[0].levels) and r.random() < 0.5:
                f.sub = (f.sub[0], f.sub[1] + 1)
        if self.keyrename and r.random() < 0.4:
            old = self.keynames[-1]
            new = r.choice([k for k in ("step", "epoch", "frame", "it") if k != old])
            f = spec.pop(old)
            spec[new] = f
            ops.insert(0, ["rename", [old], [new]])
            self.keynames.append(new)
        else:
            self.keynames.append(self.keynames[-1])
        return spec, ops

    def leaves(self, spec):
        """Paths a rule of this class may name: nothing inside sections versioned on their own, not the counter."""
        return [(p, f) for p, f in walk(spec) if not (self.state and p == [self.keynames[-1]]) and not (len(p) == 1 and self.depth == 2 and p[0] == "n")]

    def one_op(self, r, spec):
        L = self.leaves(spec)
        S = [(p, f) for p, f in walk(spec, secs=True) if isinstance(f, Sec)]
        k = r.choice(["rename", "rename", "map", "map", "default", "default", "default", "add", "adddef", "del", "check", "reject", "move", "rensec", "delsec", "nodef"])
        if k == "add":
            secs = [spec] + [f.fields for p, f in S if not f.sub]
            nm = self.fresh()
            T = self.new_type(r)
            r.choice(secs)[nm] = Leaf(T, gen_raw(T, r))
            return []
        if k == "adddef":
            p = self.some_sec(r, spec, S)
            if p is None:
                return None
            nm = self.fresh()
            T = self.new_type(r)
            fields_at(spec, p)[nm] = Leaf(T, hot=True)
            return [["adddef", p + [nm], gen_raw(T, r)]]
        if k in ("rensec", "delsec"):
            S = [x for x in S if len(x[0]) == 1]
            if not S or len(L) < 2:
                return None
            p, f = r.choice(S)
            if k == "delsec":
                if r.random() < 0.5:
                    return None
                spec.pop(p[0])
                return [["del", p]]
            nm = self.fresh()
            spec[nm] = spec.pop(p[0])
            return [["rename", p, [nm]]]
        if not L:
            return None
        if self.focus and r.random() < 0.6:
            L = [x for x in L if len(x[0]) > 1] or L
            k = r.choice([k, "default", "default", "map", "rename"])
        hot = [x for x in L if x[1].hot]
        p, f = r.choice(hot if hot and r.random() < 0.4 else L)
        where = fields_at(spec, p[:-1])
        T = f.T
        isser = isinstance(T, tuple) and T[0] == "ser"
        if k == "rename":
            nm = self.fresh()
            if r.random() < 0.2:
                # swap two fields of the same section
                others = [q for q, g in L if q[:-1] == p[:-1] and q != p and (isinstance(g.T, tuple) and g.T[0] == "ser") == isser]
                if others:
                    q = r.choice(others)
                    g = where[q[-1]]
                    where[q[-1]], where[p[-1]] = f, g
                    t = p[:-1] + ["tmp_" + nm]
                    return [["rename", p, t], ["rename", q, p], ["rename", t, q]]
            where[nm] = where.pop(p[-1])
            return [["rename", p, p[:-1] + [nm]]]
        if k == "move":
            if isser or self.opt_on(spec, p):
                return None
            q = self.some_sec(r, spec, S)
            if q is None or q == p[:-1] or self.opt_on(spec, q + ["x"]):
                return None
            nm = p[-1] if p[-1] not in fields_at(spec, q) and r.random() < 0.5 else self.fresh()
            fields_at(spec, q)[nm] = where.pop(p[-1])
            return [["rename", p, q + [nm]]]
        if k == "del":
            if isser and r.random() < 0.7:
                return None
            where.pop(p[-1])
            return [["del", p]]
        if isser:
            return None
        if k == "default":
            if f.default == NODEF or self.state:
                return None
            new = gen_raw(T, r)
            where[p[-1]] = Leaf(T, new, True)
            return [["default", p, f.default, new, self.opt_on(spec, p)]]
        if k == "nodef":
            if f.default == NODEF:
                return None
            where[p[-1]] = Leaf(T, hot=True)
            return [["adddef", p, f.default]]
        if k == "map":
            fn, T2 = self.some_map(r, T)
            if fn is None:
                return None
            d = NODEF if f.default == NODEF else apply_fn(fn, f.default)
            if f.default != NODEF and r.random() < 0.5 and T2 == T:
                # the class keeps its own default: values that were never stored keep to it
                d = f.default
            where[p[-1]] = Leaf(T2, d, True)
            return [["map", p, fn]]
        if k in ("check", "reject"):
            if T not in ("int", "str") and not (isinstance(T, tuple) and T[0] == "lit"):
                return None
            if f.hot and self.opt_on(spec, p):
                return None  # recorded as known finding K4
            if k == "check":
                vals = sorted({gen_raw(T, r) for _ in range(6)}, key=repr)
                return [["check", p, vals]]
            return [["reject", p, [gen_raw(T, r)]]]
        return None

    def some_sec(self, r, spec, S):
        c = [[]] + [p for p, f in S if not f.sub]
        return list(r.choice(c))

    def opt_on(self, spec, p):
        """Is one of the sections above p optional?"""
        for i in range(1, len(p)):
            f = fields_at(spec, p[: i - 1])[p[i - 1]]
            if isinstance(f, Sec) and f.opt:
                return True
        return False

    def some_map(self, r, T):
        c = {"int": ["x*2+1", "wrap", "str", "float"], "float": ["x+0.5", "int", "x*2+1"], "bool": ["not"], "str": ["s+!", "wrap"]}.get(T if isinstance(T, str) else None)
        if c:
            fn = r.choice(c)
            T2 = {"wrap": ("list", T), "str": "str", "int": "int", "float": "float"}.get(fn, T)
            return fn, T2
        if T == ("list", "int"):
            return "append", T
        if T in (("opt", "int"), ("opt", "float")):
            return "opt+1", T
        if T == ("dict", "int"):
            return "dict", T
        if isinstance(T, tuple) and T[0] == "enum":
            self.cnt += 1
            old = list(T[1])
            vals = {m.name: (m.value + 100 if isinstance(m.value, int) else m.value + "'2") for m in old}
            return [[m.value, vals[m.name]] for m in old], ("enum", enum.Enum(f"E{self.cnt}", vals))
        return None, None

    # -- classes -----------------------------------------------------------------

    def build(self):
        self.cls = [self.build_level(i) for i in range(len(self.levels))]

    def build_level(self, i):
        hs = self.hs
        rules = {}
        for j in range(i):
            lo, hi = self.numbers[j], self.numbers[j + 1]
            rr = random.Random(f"keys/{self.name}/{j}/{lo}/{hi}")
            ks = sorted(rr.randrange(lo, hi) for _ in self.ops[j])
            for k, op in zip(ks, self.ops[j]):
                rules.setdefault(k, []).append(op)
        ver = self.numbers[i]
        make = self.make_rule

        def upgrade_rules(cls):
            return {k: [make(op) for op in ops] for k, ops in rules.items()}

        ns = {"version": classmethod(lambda c, ver=ver: ver), "upgrade_rules": classmethod(upgrade_rules)}
        return make_class(self.levels[i], self.name, (hs.Versioned,) + tuple(self.base), ns)

    def make_rule(self, op):
        from hyperstate.schema import rewrite_rule as R

        k, p = op[0], tuple(op[1])
        if k == "rename":
            return R.RenameField(p, tuple(op[2]))
        if k == "del":
            return R.DeleteField(p)
        if k == "map":
            return R.MapFieldValue(p, lambda x, fn=op[2]: apply_fn(fn, x))
        if k == "default":
            return R.ChangeDefault(p, copy.deepcopy(op[2]), copy.deepcopy(op[3]))
        if k == "adddef":
            return R.AddDefault(p, copy.deepcopy(op[2]))
        if k == "check":
            return R.CheckValue(p, set(op[2]))
        return R.RejectValues(p, set(op[2]))

    # -- the model -----------------------------------------------------------------

    def upgrade(self, tree, i, j):
        """What a stored tree of level i means in a class of level j: a complete tree.  Reject: must be refused."""
        tree = copy.deepcopy(tree)
        for k in range(i, j):
            for op in self.ops[k]:
                self.apply(op, tree, self.levels[k])
        return complete(self.levels[j], tree)

    def apply(self, op, tree, spec):
        k, p = op[0], op[1]
        v, there = get(tree, p)
        if k == "rename":
            if there:
                drop(tree, p)
                put(tree, op[2], v)
        elif k == "del":
            if there:
                drop(tree, p)
        elif k == "map":
            if there:
                put(tree, p, apply_fn(op[2], v))
        elif k in ("default", "adddef"):
            if not there:
                t = tree
                for n in range(1, len(p)):
                    t = t.get(p[n - 1], ...) if isinstance(t, dict) else None
                    if t is None:
                        return  # an optional section that is not set
                    if t is ...:
                        if self.optional_at(p[:n]):
                            return
                        t = {}
                put(tree, p, copy.deepcopy(op[2]))
        elif k == "check":
            if there and v not in op[2]:
                raise Reject(op)
        elif k == "reject":
            if there and v in op[2]:
                raise Reject(op)

    def optional_at(self, p):
        """Was a section of this name ever optional? (names are never reused)"""
        for spec in self.levels:
            fs = spec
            for s in p[:-1]:
                f = fs.get(s)
                if not isinstance(f, Sec):
                    fs = {}
                    break
                fs = f.fields
            f = fs.get(p[-1])
            if isinstance(f, Sec) and f.opt:
                return True
        return False

    # -- values ----------------------------------------------------------------------

    def gen_tree(self, r, i, full, sched=None):
        return gen_tree(self.levels[i], r, full, sched)

    def text(self, tree, i):
        return P.ron_struct(self.name, raw_fields(self.levels[i], tree), version=self.numbers[i])


def apply_fn(fn, x):
    if isinstance(fn, str):
        return FNS[fn](x)
    for a, b in fn:
        if a == x:
            return b
    raise ValueError(x)


def clone_spec(spec):
    return {n: Sec(f.cls, None if f.sub else clone_spec(f.fields), f.opt, f.sub) if isinstance(f, Sec) else Leaf(f.T, f.default, f.hot) for n, f in spec.items()}


def walk(spec, path=(), secs=False):
    out = []
    for n, f in spec.items():
        p = list(path) + [n]
        if isinstance(f, Sec):
            if secs:
                out.append((p, f))
            if not f.sub:
                out += walk(f.fields, p, secs)
        elif not secs:
            out.append((p, f))
    return out


def fields_at(spec, p):
    for s in p:
        spec = spec[s].fields
    return spec


def make_class(spec, name, bases=(), ns=None):
    fs = []
    for n, f in spec.items():
        if isinstance(f, Sec):
            c = f.sub[0].cls[f.sub[1]] if f.sub else make_class(f.fields, f.cls)
            fs.append((n, Optional[c], None) if f.opt else (n, c, NODEF))
        else:
            fs.append((n, pytype(f.T), typed(f.T, f.default) if f.default is not NODEF else NODEF))
    fs = [x for x in fs if x[2] is NODEF] + [x for x in fs if x[2] is not NODEF]
    specs = []
    for n, T, d in fs:
        if d is NODEF:
            specs.append((n, T))
        elif isinstance(d, (list, dict)):
            specs.append((n, T, field(default_factory=lambda d=d: copy.deepcopy(d))))
        else:
            specs.append((n, T, field(default=d)))
    return make_dataclass(name, specs, bases=tuple(bases), namespace=ns or {})


def gen_tree(spec, r, full, sched=None, path=()):
    """A stored tree; not full: fields with defaults may be left out."""
    out = {}
    for n, f in spec.items():
        p = tuple(path) + (n,)
        if isinstance(f, Sec):
            if f.opt and r.random() < 0.35:
                if full or r.random() < 0.4:
                    out[n] = None
                continue
            if not full and not f.opt and not needed(f) and r.random() < 0.35:
                continue
            t = gen_tree(f.fields, r, full, sched, p)
            if f.sub:
                t["version"] = ("lvl", f.sub[1])
            out[n] = t
        else:
            if not full and f.default is not NODEF and r.random() < 0.4:
                continue
            if isinstance(f.T, tuple) and f.T[0] == "ser":
                out[n] = f.T[1].gen(r, False)
            elif sched and p in sched:
                out[n] = sched[p]
            else:
                out[n] = gen_raw(f.T, r)
    return out


def needed(f):
    """Must a file mention this section?"""
    return any(needed(g) if isinstance(g, Sec) and not g.opt else isinstance(g, Leaf) and g.default is NODEF for g in f.fields.values())


def complete(spec, tree):
    """Fill in defaults; sections versioned on their own are upgraded on the way."""
    out = {}
    for n in tree:
        if n not in spec and n != "version":
            raise Reject(("unknown field", n))
    for n, f in spec.items():
        if isinstance(f, Sec):
            t = tree.get(n, ...)
            if t is None or t is ... and f.opt:
                out[n] = None
            elif f.sub:
                c, lvl = f.sub
                if t is ...:
                    out[n] = complete(f.fields, {})
                else:
                    t = dict(t)
                    out[n] = c.upgrade(t, t.pop("version")[1], lvl)
                out[n]["version"] = ("lvl", lvl)
            else:
                out[n] = complete(f.fields, {} if t is ... else t)
        elif n in tree:
            out[n] = tree[n]
        elif f.default is NODEF:
            raise Reject(("missing value", n))
        else:
            out[n] = copy.deepcopy(f.default)
    return out


def elide(spec, tree):
    """What a file that leaves out default values stores of a complete tree."""
    out = {}
    for n, v in tree.items():
        f = spec.get(n)
        if isinstance(f, Sec):
            if v is not None:
                out[n] = elide(f.fields, v)
            elif not f.opt:
                out[n] = v
        elif isinstance(f, Leaf) and f.default is not NODEF and not isinstance(v, Sched) and typed(f.T, v) == typed(f.T, f.default):
            pass
        else:
            out[n] = v
    return out


def raw_fields(spec, tree):
    out = {}
    for n, v in tree.items():
        f = spec.get(n)
        if n == "version":
            continue
        if isinstance(f, Sec) and v is not None:
            ver = f.sub[0].numbers[v["version"][1]] if f.sub else None
            sp = f.sub[0].levels[v["version"][1]] if f.sub else f.fields
            out[n] = P.RawFields(f.cls, raw_fields(sp, v), ver)
        elif isinstance(v, Sched):
            out[n] = v.text
        else:
            out[n] = v
    return out


def observe(spec, obj, path=""):
    """{path: canonical value} of a live object, by the fields its class has."""
    out = {path + "<type>": type(obj).__name__}
    for n in type(obj).__dataclass_fields__:
        p = f"{path}.{n}" if path else n
        v = getattr(obj, n)
        f = spec.get(n)
        if isinstance(f, Sec) and v is not None:
            out.update(observe(f.fields, v, p))
        else:
            out[p] = P.canon(v)
    return out


def expect(spec, tree, name, path=""):
    """The same from the model: scheduled fields are left as Sched."""
    out = {path + "<type>": name}
    for n, f in spec.items():
        p = f"{path}.{n}" if path else n
        v = tree[n]
        if isinstance(f, Sec) and v is not None:
            out.update(expect(f.fields, v, f.cls, p))
        elif isinstance(v, Sched):
            out[p] = (v, f.T)
        elif isinstance(f, Leaf):
            out[p] = P.canon(v if isinstance(f.T, tuple) and f.T[0] == "ser" else typed(f.T, v))
        else:
            out[p] = None
    return out


def build(spec, cls, tree, sched_value=lambda T: 0):
    """A live object holding the values of a complete tree."""
    kw = {}
    for n, f in spec.items():
        v = tree[n]
        if isinstance(f, Sec):
            if v is None:
                kw[n] = None
                continue
            T = cls.__dataclass_fields__[n].type
            if f.opt:
                T = T.__args__[0]
            kw[n] = build(f.fields, T, v)
        elif isinstance(f.T, tuple) and f.T[0] == "ser":
            kw[n] = v
        else:
            kw[n] = typed(f.T, copy.deepcopy(v))
    return cls(**kw)


def poke(spec, obj, tree, r, skip=()):
    """The program's update: the same new values in the live object and in the model."""
    for n, f in spec.items():
        if n in skip:
            continue
        v = tree[n]
        if isinstance(f, Sec):
            if v is None:
                continue
            poke(f.fields, getattr(obj, n), v, r)
        elif isinstance(f.T, tuple) and f.T[0] == "ser":
            x = r.random()
            if x < 0.3:
                new = f.T[1].gen(r, False)
                setattr(obj, n, new)
                tree[n] = copy.deepcopy(new)
            elif x < 0.6:
                s = r.getrandbits(30)
                getattr(obj, n).mutate(random.Random(s), False)
                tree[n] = copy.deepcopy(v)
                tree[n].mutate(random.Random(s), False)
        elif r.random() < 0.4:
            new = gen_raw(f.T, r)
            tree[n] = new
            setattr(obj, n, typed(f.T, copy.deepcopy(new)))
