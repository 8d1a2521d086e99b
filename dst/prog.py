"""Seeded random programs: config/state classes, values, updates, and the
independent reference pieces (canonical form, RON text, schedule evaluation).

Nothing in here calls the code under test, except that generated classes
derive from hyperstate.Lazy / Versioned / Serializable.
"""
import copy
import dataclasses
import enum
import math
import random
import struct
from dataclasses import field, make_dataclass
from typing import Dict, List, Literal, Optional, Tuple, Union

import numpy as np

WORDS = (
    "lr alpha beta gamma_1 n_layer width seed wd tau eps clip mode kind name batch_size"
    " decay x y z a b c d_model momentum epochs limit frac tag flag warm net opt env data"
).split()

ALPHABET = list("abcXYZ019 _-.,:;()[]{}<>@=#/\\\"'!%") + [
    "\n", "\t", "\r", "\0", "\x1b", "\x7f", "é", "ß", "漢", "\U0001f600", "\u0301",
    "\u200b", "\u2028", "\ufeff", "\u00a0", "u{41}", "//", "/*", "\\u", "r#",
]

# --------------------------------------------------------------------------
# type specs:  "int" "float" "bool" "str" ("enum", E) ("lit", vals) ("opt", T)
#              ("list", T) ("dict", T) ("tuple", [T]) ("dc", DC) ("union", [DC])


class DC:
    """A generated dataclass: list of (name, typespec, default value thunk or None)."""

    def __init__(self, name, fields, cls):
        self.name, self.fields, self.cls = name, fields, cls


def pytype(T):
    if isinstance(T, str):
        return {"int": int, "float": float, "bool": bool, "str": str}[T]
    k, a = T[0], T[1]
    if k == "enum":
        return a
    if k == "lit":
        return Literal[tuple(a)]
    if k == "opt":
        return Optional[pytype(a)]
    if k == "list":
        return list[pytype(a)] if "builtin" in T else List[pytype(a)]
    if k == "dict":
        return (dict if "builtin" in T else Dict)[pytype(T[2]) if len(T) > 2 else str, pytype(a)]
    if k == "tuple":
        return (tuple if "builtin" in T else Tuple)[tuple(pytype(x) for x in a)]
    if k == "vtuple":
        return (tuple if "builtin" in T else Tuple)[pytype(a), ...]
    if k == "dc":
        return a.cls
    if k == "union":
        return Union[tuple(x.cls for x in a)]
    if k == "ser":
        return a
    raise AssertionError(T)


def gen_str(r, wild):
    if not wild:
        return "".join(r.choice("abcdef") for _ in range(r.randint(0, 4)))
    if r.random() < 0.2:
        return r.choice(
            ["", "None", "true", "1", "1.5", "<BLOB>", "it's", 'a"b', "\\", "C:\\x", "a@b",
             "step: 1@0 0@10", "Some(1)", "[1]", "é'\"\\", "\\'", "\\u{41}", "-", "nan", "inf"]
        )
    return "".join(r.choice(ALPHABET) for _ in range(r.randint(0, 10)))


def gen_float(r, wild):
    x = r.random()
    if not wild or x < 0.45:
        return r.choice([0.0, 0.5, 1.0, -2.25, 0.1, 3.0, 1e-5, 123.456, 7.0, -0.125])
    if x < 0.75:
        return r.choice(
            [float("inf"), float("-inf"), float("nan"), -0.0, 5e-324, 1e-17, -1e-17, 2.5e-16,
             1e16, 1e22, 1.7976931348623157e308, 2.0**53, 2.0**63, 0.1 + 0.2, 1e-300, -5e-324, 1e15, 1 / 3]
        )
    while True:
        v = struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
        if v == v:
            return v


def gen_int(r, wild):
    x = r.random()
    if not wild or x < 0.5:
        return r.randint(-3, 40)
    return r.choice(
        [2**31, -(2**31), 2**53 + 1, 2**63 - 1, -(2**63), 2**63, -(2**63) - 1, 2**64, 10**30,
         r.getrandbits(40), -r.getrandbits(62), r.getrandbits(90)]
    )


def gen_value(T, r, wild):
    if T == "int":
        return gen_int(r, wild)
    if T == "float":
        return gen_float(r, wild)
    if T == "bool":
        return r.random() < 0.5
    if T == "str":
        return gen_str(r, wild)
    k, a = T[0], T[1]
    if k == "enum":
        return r.choice(list(a))
    if k == "lit":
        return r.choice(a)
    if k == "opt":
        return None if r.random() < 0.35 else gen_value(a, r, wild)
    if k == "list":
        return [gen_value(a, r, wild) for _ in range(r.choice([0, 1, 2, 2, 3]))]
    if k == "dict":
        return {
            (gen_key(T, r, wild) if wild or len(T) > 2 else r.choice("kpq") + str(i)): gen_value(a, r, wild)
            for i in range(r.choice([0, 1, 2, 3]))
        }
    if k == "tuple":
        return tuple(gen_value(x, r, wild) for x in a)
    if k == "vtuple":
        return tuple(gen_value(a, r, wild) for _ in range(r.choice([0, 0, 1, 2, 3])))
    if k == "dc":
        return gen_dc(a, r, wild)
    if k == "union":
        return gen_dc(r.choice(a), r, wild)
    if k == "ser":
        return a.gen(r, wild)
    raise AssertionError(T)


def gen_key(T, r, wild):
    kt = T[2] if len(T) > 2 else "str"
    while True:
        v = gen_value(kt, r, wild)
        if v == v and repr(v) != "-0.0":
            return v


def gen_dc(dc, r, wild):
    return dc.cls(**{n: gen_value(T, r, wild) for n, T, d in dc.fields})


def default_of(dc):
    """The instance a config file that sets nothing yields."""
    kw = {}
    for n, T, d in dc.fields:
        if d is not None:
            kw[n] = copy.deepcopy(d[0])
        elif not isinstance(T, str) and T[0] == "dc":
            kw[n] = default_of(T[1])
        else:
            kw[n] = gen_value(T, random.Random(0), False)  # required: stands for nothing
    return dc.cls(**kw)


# --------------------------------------------------------------------------
# mutation: what a training program does to its state (in place where possible)


def mutate(obj, name, T, r, wild):
    """One deterministic update of field `name` of obj."""
    v = getattr(obj, name)
    new = mutated(v, T, r, wild)
    if new is not v:
        setattr(obj, name, new)


def mutated(v, T, r, wild):
    """Either mutates v in place and returns it, or returns the replacement."""
    x = r.random()
    if isinstance(T, str):
        if T == "int":
            return v + 1 + r.randint(0, 3) if x < 0.6 else gen_int(r, wild)
        if T == "float":
            return (v * 0.5 + 1.0) if x < 0.5 and v == v and abs(v) < 1e100 else gen_float(r, wild)
        if T == "bool":
            return not v
        return gen_str(r, wild)
    k, a = T[0], T[1]
    if k == "list":
        if x < 0.6 and len(v) < 5:
            v.append(gen_value(a, r, wild))
            return v
        if x < 0.8 and v:
            v.pop()
            return v
        return gen_value(T, r, wild)
    if k == "dict":
        if x < 0.7 and len(v) < 5:
            v[gen_key(T, r, wild) if wild or len(T) > 2 else "n" + str(r.randint(0, 9))] = gen_value(a, r, wild)
            return v
        return gen_value(T, r, wild)
    if k == "opt":
        if v is not None and x < 0.7:
            return mutated(v, a, r, wild)
        return gen_value(T, r, wild)
    if k == "dc" and x < 0.8:
        if a.fields:
            n, T2, _ = r.choice(a.fields)
            mutate(v, n, T2, r, wild)
        return v
    if k == "union" and x < 0.6:
        for dc in a:
            if type(v) is dc.cls and dc.fields:
                n, T2, _ = r.choice(dc.fields)
                mutate(v, n, T2, r, wild)
        return v
    if k == "ser":
        if x < 0.85:
            v.mutate(r, wild)
            return v
        return a.gen(r, wild)
    return gen_value(T, r, wild)


# --------------------------------------------------------------------------
# payloads of Serializable fields

DTYPES = ["f8", "f4", "i8", "u1", "?", "f2", "c8", ">f4", ">i2", "U3", "S2", "u8", "M8[s]"]


def gen_array(r, wild, big=False):
    if not wild:
        return np.arange(r.randint(1, 4), dtype="f8")
    dt = r.choice(DTYPES)
    if big:
        n = r.choice([9000, 20000, 40000])
        return (np.arange(n) * r.randint(1, 5) % 251).astype("u1" if r.random() < 0.5 else "f8")
    shape = r.choice([(), (0,), (3,), (2, 3), (1, 0, 2), (2, 2, 2), (5,), (4, 1)])
    n = int(np.prod(shape))
    if dt[0] == "U":
        a = np.array([gen_word(r) for _ in range(n)], dtype=dt).reshape(shape)
    elif dt[0] == "S":
        a = np.array([gen_word(r).encode() for _ in range(n)], dtype=dt).reshape(shape)
    elif dt[0] == "M":
        a = np.array([r.randint(0, 10**9) for _ in range(n)], dtype="i8").reshape(shape).astype(dt)
    else:
        a = np.array([r.randint(0, 100) for _ in range(n)]).reshape(shape).astype(dt)
        if dt in ("f8", "f4") and n and r.random() < 0.4:
            a = a.copy()
            a.reshape(-1)[0] = r.choice([np.nan, np.inf, -np.inf, 1e-30, -0.0])
    lay = r.random()
    if lay < 0.15 and a.ndim >= 2:
        a = np.asfortranarray(a)
    elif lay < 0.3 and a.ndim >= 1:
        a = np.repeat(a, 2, axis=-1)[..., ::2]
    elif lay < 0.4 and a.ndim >= 2:
        a = a.T
    elif lay < 0.5 and a.ndim >= 1:
        a = a[::-1]
    return a


def gen_word(r):
    return "".join(r.choice("abc") for _ in range(r.randint(1, 2)))


def gen_payload(r, wild, depth=0, big=False):
    x = r.random()
    if big:
        return {"w": gen_array(r, wild, True), "n": r.randint(0, 9)}
    if depth >= 2 or x < 0.4:
        return gen_array(r, wild)
    if x < 0.55 and depth > 0:
        return r.choice(
            [gen_float(r, wild), r.randint(-5, 5), r.randint(-(2**63), 2**64 - 1) if wild else 3,
             gen_str(r, wild), None, True, b"\x00\xff" if wild else b"ab", False]
        )
    if x < 0.75:
        return [gen_payload(r, wild, depth + 1) for _ in range(r.randint(0, 3))]
    keys = ["w", "b", "m", "data", "shape", 7, 0, "é'"] if wild else ["w", "b", "m"]
    return {k: gen_payload(r, wild, depth + 1) for k in r.sample(keys, r.randint(0, 3))}


def mutate_payload(v, r, wild):
    """In place where the type allows; returns the payload."""
    if isinstance(v, np.ndarray):
        if v.dtype.kind in "fiuc" and v.size:
            v += np.ones((), v.dtype)  # needs a writable array
            return v
        if v.dtype.kind in "?US" and v.size:
            v[...] = v.reshape(-1)[0]
            return v
        return gen_array(r, wild)
    if isinstance(v, list):
        if v and r.random() < 0.6:
            i = r.randrange(len(v))
            v[i] = mutate_payload(v[i], r, wild)
        elif len(v) < 5:
            v.append(gen_payload(r, wild, 1))
        return v
    if isinstance(v, dict):
        if v and r.random() < 0.7:
            k = r.choice(sorted(v, key=repr))
            v[k] = mutate_payload(v[k], r, wild)
        elif len(v) < 5:
            v["n%d" % r.randint(0, 3)] = gen_payload(r, wild, 1)
        return v
    return gen_payload(r, wild, 1)


# --------------------------------------------------------------------------
# canonical form: equal iff same values of the same types


def canon(v):
    t = type(v)
    if t is int:
        return v
    if t is bool:
        return ("bool", v)
    if t is float:
        return ("f", "nan" if v != v else struct.pack(">d", v).hex())
    if t is str:
        return ("s", v)
    if v is None:
        return None
    if t is bytes:
        return ("b", v)
    if isinstance(v, np.ndarray):
        return ("nd", v.dtype.str, v.shape, _abytes(v))
    if t is list:
        return ("l", tuple(canon(x) for x in v))
    if t is tuple:
        return ("t", tuple(canon(x) for x in v))
    if t is dict:
        return ("d", tuple(sorted(((canon_key(k), canon(x)) for k, x in v.items()))) if _homog(v)
                else tuple(sorted(((repr(canon(k)), canon(x)) for k, x in v.items()), key=lambda p: p[0])))
    if isinstance(v, enum.Enum):
        return ("enum", t.__name__, v.name)
    if hasattr(t, "_ser_payload"):
        return ("ser", t.__name__, canon(v._payload()))
    if dataclasses.is_dataclass(v):
        return ("dc", t.__name__, tuple((f, canon(getattr(v, f))) for f in t.__dataclass_fields__))
    return ("?", t.__module__ + "." + t.__name__, repr(v))


def _homog(v):
    return False


def canon_key(k):
    return k


def _abytes(v):
    if v.dtype.kind in "fc":
        # all NaN payloads are one value
        b = np.ascontiguousarray(v)
        if b.dtype.kind == "f":
            b = b.copy()
            b[np.isnan(b)] = np.nan
        return b.tobytes()
    return np.ascontiguousarray(v).tobytes()


def show(c, limit=400):
    s = repr(c)
    return s if len(s) <= limit else s[:limit] + "…"


# --------------------------------------------------------------------------
# RON text, written independently of the code under test


def ron(v, sched=None, path=""):
    if sched and path in sched:
        return ron_str(sched[path])
    if v is None:
        return "None"
    if v is True or v is False:
        return "true" if v else "false"
    if isinstance(v, enum.Enum):
        return ron(v.value)
    if isinstance(v, int):
        return str(v) if -(2**63) <= v < 2**63 else ron_str(str(v))
    if isinstance(v, float):
        return ron_float(v)
    if isinstance(v, str):
        return ron_str(v)
    if isinstance(v, list):
        return "[" + ", ".join(ron(x) for x in v) + "]"
    if v == ():
        return "[]"  # () would stand for None
    if isinstance(v, tuple):
        return "(" + ", ".join(ron(x) for x in v) + ("," if len(v) == 1 else "") + ")"
    if isinstance(v, dict):
        return "{" + ", ".join(ron(k) + ": " + ron(x) for k, x in v.items()) + "}"
    if dataclasses.is_dataclass(v):
        return ron_struct(
            type(v).__name__,
            {f: getattr(v, f) for f in v.__dataclass_fields__},
            sched,
            path,
        )
    raise AssertionError(v)


def ron_struct(name, fields, sched=None, path="", version=None):
    parts = [] if version is None else [f"version: {version}"]
    for f, x in fields.items():
        p = f"{path}.{f}" if path else f
        if isinstance(x, RawFields):
            parts.append(f"{f}: " + ron_struct(x.name, x.fields, sched, p, x.version))
        else:
            parts.append(f"{f}: {ron(x, sched, p)}")
    return name + "(" + ", ".join(parts) + ")"


class RawFields:
    """A partially specified struct."""

    def __init__(self, name, fields, version=None):
        self.name, self.fields, self.version = name, fields, version


def ron_str(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def ron_float(v):
    if v != v or v in (float("inf"), float("-inf")):
        return ron_str(repr(v))
    s = repr(v)
    if "." not in s and "e" not in s:
        s += ".0"
    return s


# --------------------------------------------------------------------------
# schedules, evaluated independently


def gen_schedule(r, xname, is_int, horizon=12, first=None):
    n = r.randint(2, 4)
    xs = sorted(r.sample(range(0, horizon * 2), n))
    if r.random() < 0.2:
        xs = [x * 1000 for x in xs]
    if r.random() < 0.2:
        xs = [x + 0.5 for x in xs]
    x = r.random()
    if x < 0.12:
        # a jump: two points at one counter value
        i = r.choice([0, len(xs) - 2, r.randrange(len(xs) - 1)])
        xs[i + 1] = xs[i]
    elif x < 0.17:
        xs = xs[:1]
    pts = []
    for x in xs:
        y = r.choice([0, 1, 5, 10, 100, 3, -7]) if is_int or r.random() < 0.3 else r.choice(
            [0.1, 0.5, 1.0, 1e-3, -2.5, 0.0, 250.75]
        )
        pts.append((x, y))
    if first is not None:
        # starts with (and, as a whole or at some counters, equals) the default value
        pts[0] = (pts[0][0], first)
        if r.random() < 0.3:
            pts = [(x, first) if r.random() < 0.5 else (x, y) for x, y in pts]
    out = f"{xname}: {_pt(pts[0], r)}"
    for p in pts[1:]:
        j = r.choice(["", "", "lin ", "cos ", "step "])
        out += " " + j + _pt(p, r)
    return out


def _pt(p, r):
    x, y = p
    xs = repr(x)
    if isinstance(x, int) and x >= 1000 and r.random() < 0.5:
        xs = f"{x // 1000}e3"
    return f"{y!r}@{xs}"


def sched_parse(text):
    xname, rest = text.split(": ", 1)
    pts, modes, mode = [], [], "lin"
    for tok in rest.split(" "):
        if "@" in tok:
            y, x = tok.split("@")
            if pts:
                modes.append(mode)
            pts.append((float(x), float(y)))
        else:
            mode = tok
    return xname, pts, modes


def sched_eval(text, x):
    _, pts, modes = sched_parse(text)
    if x < pts[0][0]:
        return pts[0][1]
    for i, m in enumerate(modes):
        (x0, y0), (x1, y1) = pts[i], pts[i + 1]
        if x < x1:
            f = (x - x0) / (x1 - x0)
            if m == "lin":
                return y0 + (y1 - y0) * f
            if m == "cos":
                return y1 + (y0 - y1) * (1 + math.cos(math.pi * f)) / 2
            return y0
    return pts[-1][1]


def sched_matches(text, x, is_int, got):
    pts = sched_parse(text)[1]
    here = [y for p, y in pts if p == x]
    if len(here) > 1:
        # at a jump either side will do
        return type(got) is (int if is_int else float) and any(abs(got - y) <= 1e-9 * max(1.0, abs(y)) for y in here)
    want = sched_eval(text, x)
    scale = max(1.0, max(abs(y) for _, y in sched_parse(text)[1]))
    tol = 1e-9 * scale
    if is_int:
        return type(got) is int and got in (int(want - tol), int(want), int(want + tol))
    return type(got) is float and abs(got - want) <= tol


# --------------------------------------------------------------------------
# program generation


class Program:
    """Config class, state class, initial values, update function."""

    def __init__(self, seed, hs, *, size=3, wild=True, ser=None, lazy=None, versioned=None,
                 sched_depth=3, big=False, key=None, log=None, req=0):
        r = random.Random(f"prog/{seed}")
        self.hs, self.seed, self.wild, self.big = hs, seed, wild and seed != 0, big
        self.size = size
        self.n_cls = 0
        self.req, self.rq = req, random.Random(f"req/{seed}")  # share of config fields without default
        self.log = log if log is not None else []
        self.key = key or ("step" if seed == 0 else r.choice(["step", "step", "epoch", "frame", "it", "iteration_number", "n"]))
        simple = seed == 0
        self.versioned = versioned if versioned is not None else (not simple and r.random() < 0.3)
        self.nested = []
        self.cfg = self.gen_class(r, "Config", self.gen_fields(r, size, 0, config=True, simple=simple), versioned=self.versioned, root=True)
        nser = ser if ser is not None else (1 if simple else r.choice([0, 1, 1, 2, 3]))
        self.lazy = lazy if lazy is not None else (nser > 0 or r.random() < 0.5)
        fields = [(self.key, "int", None)]
        if simple:
            fields += [("loss", "float", None)]
        else:
            if r.random() < 0.4:
                fields.append(("samples", "int", None))
            fields += [(n, T, None) for n, T, d in self.gen_fields(r, max(0, size - 1), 1, config=False)]
        used = {n for n, _, _ in fields}
        self.ser_fields = []
        shared = None
        for i in range(nser if self.lazy else 0):
            n = ["params", "optimizer_state", "buf", "rng_state"][i]
            if self.ser_fields and r.random() < 0.3:
                # names that are close to one another
                o = self.ser_fields[-1]
                n = r.choice([o.upper(), o.capitalize(), o.upper(), o + "_", o[:-1], o + "2"])
            if n in used or n in self.ser_fields:
                continue
            if shared is not None and r.random() < 0.3:
                cls = shared
            else:
                cls = shared = self.gen_ser(r, "Ser%d" % i, big and i == 0)
            fields.append((n, ("ser", cls), None))
            self.ser_fields.append(n)
        if not simple:
            head, rest = fields[:1], fields[1:]
            r.shuffle(rest)
            fields = head + rest if r.random() < 0.5 else rest + head
        bases = (hs.Lazy,) if self.lazy else ()
        self.st_versioned = self.versioned and r.random() < 0.5
        self.st = self.gen_class(r, "State", fields, bases=bases, nodefault=True, versioned=self.st_versioned)
        self.sst = self.gen_class(r, "State", fields, nodefault=True)  # the model's state
        self.init_seed = r.getrandbits(30)
        self.xnames = [self.key] + (["samples"] if any(f[0] == "samples" for f in fields) else [])
        self.sched_paths = self.find_sched_paths(self.cfg, "", sched_depth)

    # -- classes --

    def gen_class(self, r, name, fields, bases=(), nodefault=False, versioned=False, root=False):
        # fields without default come first (dataclass rule)
        if nodefault:
            fields = [(n, T, None) for n, T, d in fields]
        else:
            fields = [f for f in fields if f[2] is None] + [f for f in fields if f[2] is not None]
        specs = []
        for n, T, d in fields:
            if d is None:
                specs.append((n, pytype(T)))
            else:
                v = d[0]
                if isinstance(v, (list, dict)) or dataclasses.is_dataclass(v):
                    specs.append((n, pytype(T), field(default_factory=lambda v=v: copy.deepcopy(v))))
                else:
                    specs.append((n, pytype(T), field(default=v)))
        ns = {}
        if versioned:
            ver = r.randint(0, 4)
            ns["version"] = classmethod(lambda c, ver=ver: ver)
            bases = (self.hs.Versioned,) + tuple(bases)
        cls = make_dataclass(name, specs, bases=tuple(bases), namespace=ns)
        dc = DC(name, fields, cls)
        dc.version = ver if versioned else None
        return dc

    def gen_enum(self, r):
        self.n_cls += 1
        kind = r.random()
        if kind < 0.35:
            return enum.Enum(f"E{self.n_cls}", {"A": "A", "B": "B", "C": "C"})
        if kind < 0.7:
            return enum.Enum(f"E{self.n_cls}", {"SGD": "sgd", "ADAM": "adam w/o", "OTHER": "it's"})
        return enum.Enum(f"E{self.n_cls}", {"ONE": 1, "TWO": 2, "NEG": -7})

    def gen_type(self, r, depth, config):
        x = r.random()
        if x < 0.45 or depth >= 3:
            return r.choice(["int", "float", "float", "bool", "str", "int"])
        if x < 0.52:
            return ("enum", self.gen_enum(r))
        if x < 0.57:
            return ("lit", r.choice([["a", "b"], ["relu", "it's", ""], [1, 2, 3]]))
        if x < 0.65:
            t = self.gen_type(r, depth + 1, config)
            return t if not isinstance(t, str) and t[0] == "opt" else ("opt", t)
        if x < 0.73:
            return self.spell(("list", self.gen_type(r, depth + 1, config)), r)
        if x < 0.79:
            T = self.gen_type(r, depth + 1, config)
            kt = r.choice(["str", "str", "int", "float", ("enum", self.gen_enum(r))])
            return self.spell(("dict", T, kt), r)
        if x < 0.84:
            if r.random() < 0.3:
                return self.spell(("vtuple", self.gen_type(r, depth + 1, config)), r)
            return self.spell(("tuple", [self.gen_type(r, depth + 1, config) for _ in range(r.randint(1, 3))]), r)
        if x < 0.95 or config and depth == 0:
            return ("dc", self.gen_nested(r, depth + 1, config))
        u = ("union", [self.gen_nested(r, depth + 1, config) for _ in range(2)])
        return u if r.random() < 0.7 else ("opt", u)

    def spell(self, T, r):
        return T + ("builtin",) if r.random() < 0.25 else T

    def gen_nested(self, r, depth, config):
        self.n_cls += 1
        name = r.choice(["Opt", "Net", "Data", "Inner", "Cfg"]) + str(self.n_cls)
        n = r.choice([0, 1, 2, 2, 3]) if depth > 1 else r.choice([1, 2, 3])
        return self.gen_class(r, name, self.gen_fields(r, n, depth, config))

    def gen_fields(self, r, n, depth, config, simple=False):
        if simple:
            return [("lr", "float", (0.1,)), ("n", "int", (3,))]
        names = r.sample(WORDS, n) if depth else r.sample(WORDS, max(n, 1))
        out = []
        for nm in names:
            T = self.gen_type(r, depth, config)
            if not isinstance(T, str) and T[0] == "dc" and r.random() < 0.6 and not has_missing(T[1]):
                out.append((nm, T, None))
            else:
                d = (gen_value(T, r, self.wild),)
                out.append((nm, T, None if config and self.rq.random() < self.req else d))
        return out

    def gen_ser(self, r, name, big):
        prog = self
        hs = self.hs
        useblob = r.random() < 0.25
        nested_read = r.random() < 0.25
        own = random.Random()
        own.setstate(r.getstate())
        plain = random.Random(f"plain/{own.random()}").random() < 0.35

        class Core:
            _ser_payload = True
            _plain = plain

            def __init__(self, data, extra=None):
                self.data = data
                self.extra = extra

            def _payload(self):
                return self.data

            def mutate(self, rr, wild):
                self.data = mutate_payload(self.data, rr, wild)

            @classmethod
            def gen(cls, rr, wild):
                return cls(gen_payload(rr, wild, 0, big and prog.big))

        class Mixin(hs.Serializable):
            def serialize(self):
                hook = prog.on_serialize
                if hook is not None:
                    hook(self)
                return self.data if plain else {"payload": self.data}

            @classmethod
            def deserialize(cls, state_dict, config, state, ctx):
                hook = prog.on_deserialize
                if hook is not None:
                    hook(cls, state_dict, config, state, ctx)
                return cls(state_dict if plain else state_dict["payload"], extra=dict(ctx))

        if useblob:
            cls = hs.blob(Core, Mixin)
        else:
            cls = type(name, (Core, Mixin), {})
        cls.__name__ = name
        return cls

    on_serialize = None
    on_deserialize = None

    def find_sched_paths(self, dc, path, depth):
        """Paths of int/float fields reachable through dataclass fields."""
        out = []
        for n, T, d in dc.fields:
            p = f"{path}.{n}" if path else n
            if T in ("int", "float"):
                out.append((p, T))
            elif not isinstance(T, str) and T[0] == "opt" and T[1] in ("int", "float"):
                out.append((p, T[1]))
            elif not isinstance(T, str) and T[0] == "dc" and depth > 0:
                out.extend(self.find_sched_paths(T[1], p, depth - 1))
        return out

    # -- values --

    def default_config(self):
        return default_of(self.cfg)

    def initial_state(self, config=None, ctx=None, model=False):
        r = random.Random(f"init/{self.init_seed}")
        dc = self.sst if model else self.st
        st = gen_dc(dc, r, self.wild)
        setattr(st, self.key, 0)
        if "samples" in dc.cls.__dataclass_fields__:
            st.samples = 0
        for n in self.ser_fields:
            getattr(st, n).extra = dict(ctx or {})
        return st

    def update(self, st, useed, inc=1, touch=None):
        """The training program's update from one step to the next."""
        r = random.Random(f"upd/{useed}/{getattr(st, self.key)}")
        for n, T, _ in self.st.fields:
            if n == self.key:
                continue
            if n == "samples":
                # e.g. samples of the current epoch
                st.samples = r.choice([0, r.randint(0, 40), 15000]) if r.random() < 0.2 else st.samples + r.randint(1, 7)
                continue
            mode = r.random()
            rr = random.Random(r.getrandbits(30))
            if touch is not None and n not in touch and n in self.ser_fields:
                continue
            if n in self.ser_fields and mode < 0.2:
                setattr(st, n, T[1].gen(rr, self.wild))  # replaced without reading
            elif mode < 0.75:
                mutate(st, n, T, rr, self.wild)
        setattr(st, self.key, getattr(st, self.key) + inc)


def has_missing(dc):
    """Leaf fields without default anywhere below (cannot be auto-created)?"""
    for n, T, d in dc.fields:
        if d is None:
            if not isinstance(T, str) and T[0] == "dc":
                if has_missing(T[1]):
                    return True
            else:
                return True
    return False


def getpath(obj, path):
    for seg in path.split("."):
        obj = getattr(obj, seg)
    return obj


def setpath(obj, path, v):
    segs = path.split(".")
    for seg in segs[:-1]:
        obj = getattr(obj, seg)
    setattr(obj, segs[-1], v)


# --------------------------------------------------------------------------
# overrides


def gen_override(prog, r, allow_sched=True):
    """(path, text, value or None, schedule text or None) for a random field."""
    leaves = []

    def walk(dc, path):
        for n, T, d in dc.fields:
            p = f"{path}.{n}" if path else n
            if not isinstance(T, str) and T[0] == "dc":
                walk(T[1], p)
                if r.random() < 0.15:
                    leaves.append((p, T))
            else:
                leaves.append((p, T))

    walk(prog.cfg, "")
    leaves = [x for x in leaves if not _has_union(x[1])]
    if not leaves:
        return None
    p, T = r.choice(leaves)
    base = T[1] if not isinstance(T, str) and T[0] == "opt" else T
    if allow_sched and base in ("int", "float") and r.random() < 0.25:
        s = gen_schedule(r, r.choice(prog.xnames), base == "int")
        return {"path": p, "text": f"{p}={ron_str(s)}", "sched": s}
    for _ in range(20):
        v = gen_value(T, r, prog.wild)
        if not _has_empty_dc(v):
            break
    else:
        return None
    if T == "str":
        text = v
    elif T == "bool":
        text = r.choice(["true", "True", "1", "t", "T"] if v else ["false", "False", "0", "f", "F"])
    else:
        text = ron(v)
    return {"path": p, "text": f"{p}={text}", "value": v}


def _has_union(T):
    """Override values cannot name the variant of a union."""
    if isinstance(T, str):
        return False
    k, a = T[0], T[1]
    if k == "union":
        return True
    if k in ("opt", "list", "dict", "vtuple"):
        return _has_union(a)
    if k == "tuple":
        return any(_has_union(x) for x in a)
    if k == "dc":
        return any(_has_union(x) for _, x, _ in a.fields)
    return False


def _has_empty_dc(v):
    if dataclasses.is_dataclass(v):
        return not v.__dataclass_fields__ or any(_has_empty_dc(getattr(v, f)) for f in v.__dataclass_fields__)
    if isinstance(v, (list, tuple)):
        return any(_has_empty_dc(x) for x in v)
    if isinstance(v, dict):
        return any(_has_empty_dc(x) for x in v.values())
    return False
