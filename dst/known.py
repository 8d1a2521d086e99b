"""Known findings: genuine defects that are recorded, not repaired.

Each one is re-demonstrated on the real code (inside the simulator) by every
run of its property's check; the listed input classes are not generated by the
families, so any other violation is still reported as one."""
import dataclasses
import json
import os
import random
from typing import Literal, Optional

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _world():
    from . import simfs

    fs = simfs.FS()
    fs.h_mkdirs("/simfs/home")
    fs.h_mkdirs("/simfs/tmp")
    w = simfs.World(seed=1, fs=fs)
    return w, simfs.Task(0, "K", simfs.Proc(w, "known"), None)


def nested_serializable(hs):
    from . import simfs

    class Arr(hs.Serializable):
        def __init__(self, v):
            self.v = v

        def serialize(self):
            return self.v

        @classmethod
        def deserialize(cls, state_dict, config, state, ctx):
            return cls(state_dict)

    Sub = dataclasses.make_dataclass("Sub", [("blob", Arr)])
    State = dataclasses.make_dataclass("State", [("step", int), ("sub", Sub)], bases=(hs.Lazy,))
    Config = dataclasses.make_dataclass("Config", [("x", int, 1)])
    w, t = _world()
    with simfs.running(w, t):
        sm = hs.StateManager(Config, State, lambda c, x: State(0, Sub(Arr(7))), checkpoint_dir="/simfs/home/ck")
        sm.state.step = 1
        sm.step()
        sm = hs.StateManager(Config, State, lambda c, x: State(0, Sub(Arr(7))), checkpoint_dir="/simfs/home/ck")
        return sm.state.step == 1 and sm.state.sub.blob is None


def truncated_to_name(hs):
    from . import simfs

    State = dataclasses.make_dataclass("State", [("step", int, 0), ("x", int, 3)])
    Config = dataclasses.make_dataclass("Config", [("x", int, 1)])
    w, t = _world()
    with simfs.running(w, t):
        sm = hs.StateManager(Config, State, lambda c, x: State(), checkpoint_dir="/simfs/home/ck")
        sm.state.step, sm.state.x = 1, 9
        sm.step()
    for p in w.fs.h_tree("/simfs/home/ck"):
        if p.endswith("state.ron"):
            w.fs.h_write("/simfs/home/ck/" + p.split("home/ck/")[-1], b"Sta")
    with simfs.running(w, t):
        sm = hs.StateManager(Config, State, lambda c, x: State(), checkpoint_dir="/simfs/home/ck")
        try:
            return (sm.state.step, sm.state.x) == (0, 3)
        except Exception:
            return False


def override_nested_versioned(hs):
    from . import simfs

    class A(hs.Versioned):
        @classmethod
        def version(cls):
            return 1

        @classmethod
        def upgrade_rules(cls):
            from hyperstate.schema.rewrite_rule import RenameField

            return {0: [RenameField(["x"], ["y"])]}

    A = dataclasses.make_dataclass("A", [("y", int, 0)], bases=(A,))
    Config = dataclasses.make_dataclass("Config", [("a", A, dataclasses.field(default_factory=A))])
    w, t = _world()
    w.fs.h_write("/simfs/home/c.ron", b"Config(a: A(version: 0, x: 1))")
    with simfs.running(w, t):
        return hs.load(Config, "/simfs/home/c.ron", overrides=["a.y=5"]).a.y == 1


def checked_default_of_unset_section(hs):
    from . import simfs
    from hyperstate.schema.rewrite_rule import ChangeDefault, CheckValue

    class C(hs.Versioned):
        @classmethod
        def version(cls):
            return 2

        @classmethod
        def upgrade_rules(cls):
            return {0: [ChangeDefault(["opt", "mode"], "old", "new")], 1: [CheckValue(["opt", "mode"], {"new"})]}

    Opt = dataclasses.make_dataclass("Opt", [("mode", str, "new")])
    Config = dataclasses.make_dataclass("Config", [("x", int, 1), ("opt", Optional[Opt], None)], bases=(C,))
    w, t = _world()
    w.fs.h_write("/simfs/home/c.ron", b"Config(version: 0, x: 1)")
    with simfs.running(w, t):
        try:
            hs.load(Config, "/simfs/home/c.ron")
            return False
        except ValueError:
            return True


def versions(hs, old, new):
    """(class of version 0, class of version 1 with the rules the schema check proposes, its verdict)"""
    from hyperstate.schema.schema_checker import SchemaChecker
    from hyperstate.schema.types import materialize_type

    def cls(fields, n, rules):
        ns = {"version": classmethod(lambda c: n), "upgrade_rules": classmethod(lambda c: rules)}
        return dataclasses.make_dataclass("Config", fields, bases=(hs.Versioned,), namespace=ns)

    a = cls(old, 0, {})
    c = SchemaChecker(materialize_type(a), cls(new, 1, {}))
    return a, cls(new, 1, {0: c.proposed_fixes}), c.severity().name


def refused_with_proposed_rules(hs, old, new, text):
    from . import simfs

    w, t = _world()
    with simfs.running(w, t):
        a, b, verdict = versions(hs, old, new)
        hs.loads(a, text)
        try:
            hs.loads(b, text)
            return False
        except Exception:
            return verdict == "WARN"


def removed_section(hs):
    Sec = dataclasses.make_dataclass("Sec", [("a", int)])
    return refused_with_proposed_rules(hs, [("x", int), ("s", Sec)], [("x", int)], "Config(version: 0, x: 1, s: Sec(a: 1))")


def section_made_optional(hs):
    Sec = dataclasses.make_dataclass("Sec", [("a", int)])
    return refused_with_proposed_rules(hs, [("x", int), ("s", Sec)], [("x", int), ("s", Optional[Sec])], "Config(version: 0, x: 1, s: Sec(a: 1))")


def converted_in_container(hs):
    return refused_with_proposed_rules(hs, [("x", Optional[str])], [("x", Optional[Literal["a", "b"]])], "Config(version: 0, x: None)")


def report(prop):
    """[("known", line)] for each recorded finding of `prop` that still fails."""
    with open(os.path.join(HERE, "known_findings.json")) as f:
        todo = [x for x in json.load(f)["findings"] if x["property"] == prop]
    if not todo:
        return []
    from . import runner, simfs

    keep = os.dup(2)
    null = os.open("/dev/null", os.O_WRONLY)
    os.dup2(null, 2)
    out = []
    try:
        hs = runner.load()
        for x in todo:
            simfs.boot_reset()
            try:
                still = globals()[x["demo"]](hs)
            except Exception:
                still = False
            if still:
                out.append(("known", f"KNOWN-FINDING: property={prop} {x['what']}"))
    finally:
        os.dup2(keep, 2)
        os.close(keep)
        os.close(null)
    return out
