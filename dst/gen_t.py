"""A generated training program (random config and state classes, values and updates) run as a sequence of process lifetimes
on a simulated file system, compared after every operation and every restart with a reference model; faults and crashes are
pinned to system calls the fault-free run was seen to make (swarm style: every seed draws its own sizes, mix, layout, faults)."""
import random

from . import simfs
from .simfs import ERRNOS

BY_DIRS = [
    "000000000099/", "checkpoint-000000000777/", "step000000000500/", "old-run-999999999999/",
    "my-latest-step000000000300/", "backup 20231231000000/", "x/", ".hidden/", "epoch-123456789012345/",
    "é漢-000000000100/", "Latest-step000000000900/", "tmp1234567890123/", "run.000000000064/",
    "latest_copy_999999999000/", "latest000000000500/", "latest.old-step000000000700/",
]
BY_FILES = [
    "notes.txt", "latest", "000000000123", "config.ron", "state.ron", "log-000000009999.txt",
    "latest-step999999999998", ".lock", "a b c", "latest-step000000000007.bak",
]

PROFILES = {
    # prob. of: faults kind mix, sources, overrides, explicit, bystanders ...
    "C01": dict(faults="crash", boots=(1, 3), iters=(1, 3), probe=0.6),
    "C02": dict(faults="crash", boots=(2, 4), iters=(1, 3), probe=0.15, restep=0.4, ctx=0.5, ov=0.4, sched=0.5, get=0.3),
    "C03": dict(faults="kill", boots=(2, 4), iters=(1, 2), probe=0.0, size=(3, 7), ser=(0, 3), ov=0.15, big=0.06, ckpt=0.2, get=0.3, cfgd=0.15),
    "C04": dict(faults="err", boots=(1, 3), iters=(1, 3), probe=0.1, nf=(1, 4)),
    "C05": dict(faults="mix", boots=(1, 4), iters=(2, 4), probe=0.1, nf=(1, 5), rmprev=0.12, tail=3),
    "C07": dict(faults="crash", boots=(2, 4), iters=(1, 3), probe=0.15, by=(2, 7), resurrect=0.5, ckpt=0.2, env=0.5, binc=0.5),
    "C08": dict(faults="some", boots=(1, 3), iters=(1, 4), probe=0.0, by=(1, 6), restep=0.3, ckpt=0.3, nodir=0.2, src=0.5, pause=0.2),
    "C10": dict(faults="read", boots=(2, 4), iters=(0, 2), probe=0.0, ser=(1, 3), get=0.8, ctx=0.6, touch=0.6),
    "C11": dict(faults="kill", boots=(1, 4), iters=(2, 5), probe=0.05, restep=0.35, same=0.7, nsched=0.85, sched=1.0, ov=0.3, binc=0.4, src=0.9, size=(3, 6), cfg=0.3),
    "C12": dict(faults="kill", boots=(2, 4), iters=(1, 2), probe=0.05, ov=0.9, src=0.6, sched=0.4, size=(3, 6), varyov=True, cfg=0.4, cfgd=0.2),
    "C17": dict(faults="crash", boots=(2, 4), iters=(0, 2), probe=0.1, src=1.0, cli=0.5, ckpt=0.3, cfg=0.4, nodir=0.12),
    "C18": dict(faults="mix", boots=(1, 3), iters=(1, 3), probe=0.4, ckpt=0.9, tconf=0.3, nodir=0.3, nf=(0, 3)),
}


def gen(prop, seed):
    r = random.Random(f"T/{prop}/{seed}")
    k = PROFILES[prop]
    g = lambda name, d=0.0: k.get(name, d)
    wild = r.random() < (0.95 if prop == "C03" else 0.4)
    sz = g("size", (1, 4))
    prog = {"seed": r.randint(1, 10**9), "size": r.randint(*sz), "wild": wild}
    if "ser" in k:
        prog["ser"] = r.randint(*k["ser"])
    if r.random() < g("big", 0.03):
        prog["big"], prog["ser"] = True, max(1, prog.get("ser") or 1)
    ck = r.choice(["/simfs/data/run", "/simfs/data/run", "/simfs/data/ck 1/läuf-000000000042", "/simfs/home/ck/run"])
    layout = {
        "ck": ck,
        "ckdev": r.choice([0, 1]),
        "order": r.choice([0, 1, 2, 3, r.randint(4, 99)]),
        "style": r.choice(["path", "path", "str", "rel", "strrel", "strslash", "relslash"]),
    }
    if r.random() < 0.15:
        layout["tmp"], layout["tmpdev"] = "/simfs/scratch/tmp", 1
    scn = {
        "family": "T", "prog": prog, "layout": layout, "world_seed": r.randint(1, 10**6),
        "probe_rate": g("probe", 0.1), "probe_seed": r.randint(1, 10**6), "faults": [],
        "nsched": g("nsched", 0.3), "max_probes": 10,
    }
    if g("by"):
        names = r.sample(BY_DIRS + BY_FILES, r.randint(*k["by"]))
        scn["bystanders"] = [[ck + "/" + n, r.randint(0, 999)] for n in names]
        if r.random() < 0.5:
            scn["bystanders"].append(["/simfs/tmp/other-job-file", 5])
            scn["bystanders"].append(["/simfs/home/data/set.bin", 6])
    boots = []
    nb = r.randint(*k["boots"])
    src = None
    if r.random() < g("src", 0.35):
        x = r.random()
        if x < 0.45:
            src = ["file", r.choice(["/simfs/home/cfg.ron", "/simfs/home/conf/my config.ron", ck + "/config.ron"]), r.randint(1, 10**6)] + r.choice([[]] * 5 + [["path"], ["path-elide"], ["str"], ["str-elide"], ["dumps-elide"]])
        elif x < 0.9:
            src = ["ckpt", r.choice(["/simfs/home/init-ckpt", "/simfs/data/best-000000000099"])]
            boots.append({
                "args": {"dir": False, "init": ["file", "/simfs/home/base.ron", r.randint(1, 10**6)] if r.random() < 0.5 else None,
                         "overrides": [r.randint(1, 10**6)] if r.random() < 0.3 else []},
                "ops": [["upd", r.randint(0, 99), r.choice([1, 5, 1000])]] * r.randint(0, 2) + [["ckpt", src[1]]], "end": "exit",
            })
    ovs = [r.randint(1, 10**6) for _ in range(r.choice([1, 1, 2, 3]))] if r.random() < g("ov", 0.2) else []
    cli = r.random() < g("cli", 0.12)
    extra = src is not None and src[0] == "file" and not cli and r.random() < 0.15
    bid = len(boots)
    for b in range(nb):
        args = {"init": src, "overrides": list(ovs)}
        if cli:
            args["cli"] = True
        if not cli and r.random() < 0.12:
            args["late"] = True
        if extra:
            args["ignore_extra"] = True
        if g("sched", None) is None and r.random() < 0.5:
            args["ovsched"] = False
        if g("nodir") and r.random() < g("nodir"):
            args["dir"] = False
        if g("varyov"):
            args["overrides"] = [r.randint(1, 10**6) for _ in range(r.choice([0, 0, 1, 1, 2, 4]))]
        ops = []
        if r.random() < g("ctx"):
            ops.append(["ctx", r.choice(["dev", "k"]), r.randint(0, 9)])
        if r.random() < g("cfg", 0.12):
            ops.append(["config"])
        for i in range(r.randint(*k["iters"])):
            looks(r, ops, g)
            inc = r.choice([1, 1, 1, 2, 7])
            if r.random() < g("binc", 0.1):
                inc = r.choice([10, 99, 1000, 12345, 10**6, 10**9, 10**10])
            touch = None
            if r.random() < g("touch"):
                touch = [r.randint(0, 3) for _ in range(r.randint(0, 2))]
            if i or b or r.random() < 0.7:
                ops.append(["upd", r.randint(0, 10**6), inc] + ([touch] if touch is not None else []))
            ops.append(["step"])
            if r.random() < g("restep", 0.1):
                if r.random() < g("same", 0.3):
                    ops.append(["upd", r.randint(0, 10**6), 0])
                ops.append(["step"])
            if r.random() < g("ckpt", 0.08):
                t = r.choice([f"/simfs/data/exp{bid}{i}", f"/simfs/home/e {bid}{i}", f"{ck}/best-00000009{bid:02}{i:02}", "/simfs/data/same"])
                if r.random() < g("tconf"):
                    ops.append(["junk", t + r.choice(["", "/", "/"]), r.randint(0, 999)])
                if r.random() < 0.1:
                    t = ck + "/x/y"  # parent does not exist
                    ops.append(["ckpt", f"{ck}/best-1{bid}{i}"])
                else:
                    ops.append(["ckpt", t])
                    if r.random() < 0.2:
                        ops.append(["ckpt", t])
            if r.random() < g("pause", 0.06):
                if r.random() < 0.4:
                    ops.append(["junk", ck + "/" + r.choice(BY_DIRS[-3:] + ["latest_best_900000000000/", "latest900000000000/"]), r.randint(0, 999)])
                ops.append(["pause", r.randint(0, 10**6), r.choice([0, 1, 1, 5])])
            if r.random() < g("rmprev"):
                ops.append(["rmprev"])
            if r.random() < g("env", 0.06):
                ops.append(r.choice([["clock", r.choice([-(10**16), 10**16, -(10**12), 3600 * 10**9])], ["touch", r.randint(0, 999)], ["order", r.randint(0, 99)],
                                     ["junk", ck + "/" + r.choice(BY_DIRS + BY_FILES), r.randint(0, 999)]]))
        for i in range(g("tail", 0)):
            ops.append(["upd", r.randint(0, 10**6), 1])
            ops.append(["step"])
        if not k["iters"][1] or r.random() < 0.5:
            looks(r, ops, g)
        env = []
        if b and r.random() < g("resurrect"):
            env.append(["resurrect", r.randint(0, 2)])
        if b and r.random() < g("env", 0.06):
            env.append(r.choice([["touch", r.randint(0, 999)], ["clock", r.choice([-(10**16), 10**16])]]))
        boots.append({"args": args, "ops": ops, "end": r.choice(["exit", "kill"]), "env": env,
                      "on_error": r.choice(["continue", "continue", "exit"])})
        bid += 1
    last = dict(boots[-1]["args"])
    if prop in ("C12", "C17", "C11") and (src is None or src[0] == "file") and not extra:
        for _ in range(r.choice([0, 0, 1])):
            i = r.randint(0, len(boots))
            args = {"init": src, "overrides": [r.randint(1, 10**6) for _ in range(r.choice([0, 1, 2, 4]))], "cfgonly": r.choice(["command", "load"]), "dir": False}
            boots.insert(i, {"args": args, "ops": [], "end": r.choice(["exit", "kill"])})
    # a last restart looks at what is left
    boots.append({"args": last, "ops": [["config"]] * r.randint(0, 1) + [["state"]] + [["get", i] for i in range(3)], "end": "exit"})
    scn["boots"] = boots
    return scn


def looks(r, ops, g):
    if r.random() < g("get", 0.1):
        for _ in range(r.randint(1, 3)):
            ops.append(["get", r.randint(0, 3)] + r.choice([[], [], ["/simfs/tmp"], ["/simfs/data"]]))
    if r.random() < g("cfgd", 0.05):
        ops.append(["cfgdict"])
    if r.random() < 0.08:
        ops.append(["config"])
    if r.random() < 0.15:
        ops.append(["state"])


def place_faults(prop, scn, traces, seed):
    """Pin faults to system calls the fault-free run was seen to make.
    traces: {(boot, op): [(syscall, path, mutating)]}"""
    r = random.Random(f"F/{prop}/{seed}")
    k = PROFILES[prop]
    mode = k["faults"]
    if mode == "kill" or (mode == "some" and r.random() < 0.6):
        return []
    if mode == "some":
        mode = "crash"
    if mode == "mix":
        mode = r.choice(["err", "crash", "mix", "mix"])
    names = {}
    for (b, o), tr in traces.items():
        if o < len(scn["boots"][b]["ops"]) + 1 and o > 0:
            names[(b, o)] = scn["boots"][b]["ops"][o - 1][0]
        else:
            names[(b, o)] = "init" if o == 0 else "state"
    want = {"C18": ("ckpt",), "C10": ("get", "state", "upd", "config", "step")}.get(prop, ("step", "step", "step", "ckpt"))
    n = r.randint(*k.get("nf", (1, 2)))
    out = []
    for _ in range(n):
        if r.random() < 0.9:
            ops = [key for key, nm in names.items() if nm in want and traces[key]]
        else:
            ops = [key for key in names if traces[key]]
        if not ops:
            continue
        key = r.choice(sorted(ops))
        tr = traces[key]
        f = pick(r, tr, mode)
        if f is not None:
            f["at"] = [key[0], key[1], f.pop("k")]
            out.append(f)
    return out


def pick(r, tr, mode):
    """One fault inside the system call trace `tr`."""
    if r.random() < 0.5:
        byname = {}
        for i, (nm, p, mut) in enumerate(tr, 1):
            byname.setdefault(nm, []).append(i)
        nm = r.choice(sorted(byname))
        i = r.choice(byname[nm])
    else:
        muts = [i for i, (nm, p, mut) in enumerate(tr, 1) if mut]
        i = r.choice(muts) if muts and r.random() < 0.7 else r.randint(1, len(tr))
    nm = tr[i - 1][0]
    if mode == "crash" or (mode == "mix" and r.random() < 0.4):
        if nm in ("write", "sendfile") and r.random() < 0.5:
            return {"k": i, "kind": "torn", "frac": r.choice([0, 0.3, 0.5, 0.99])}
        return {"k": i, "kind": "crash"}
    if mode == "read":
        rd = [j for j, (n2, p, mut) in enumerate(tr, 1) if n2 in ("open-r", "read", "listdir", "scandir")]
        if not rd:
            return None
        i = r.choice(rd)
        return {"k": i, "kind": "err", "errno": r.choice(ERRNOS[tr[i - 1][0]]), "sticky": r.random() < 0.1}
    x = r.random()
    if nm in ("write", "sendfile") and x < 0.2:
        return {"k": i, "kind": "short", "frac": r.choice([0.1, 0.5, 0.9])}
    if x < 0.12:
        return {"k": i, "kind": "intr"}
    if x < 0.22:
        return {"k": i, "kind": "full", "room": r.choice([0, 1, 10, 100])}
    if nm in ERRNOS:
        return {"k": i, "kind": "err", "errno": r.choice(ERRNOS[nm]), "sticky": r.random() < 0.2}
    muts = [j for j, (n2, p, mut) in enumerate(tr, 1) if n2 in ERRNOS]
    if not muts:
        return None
    i = r.choice(muts)
    return {"k": i, "kind": "err", "errno": r.choice(ERRNOS[tr[i - 1][0]]), "sticky": r.random() < 0.2}


def drop_op(scn, b, j):
    """Scenario without operation j (0-based) of boot b; faults move along."""
    boots = list(scn["boots"])
    boots[b] = dict(boots[b], ops=boots[b]["ops"][:j] + boots[b]["ops"][j + 1 :])
    faults = []
    for f in scn.get("faults", []):
        fb, o, k = f["at"]
        if fb == b:
            base, i = (1000, o - 1000) if o >= 1000 and o != 9999 else (0, o)
            if o != 9999:
                if i == j + 1:
                    continue
                if i > j + 1:
                    o = base + i - 1
        faults.append(dict(f, at=[fb, o, k]))
    return dict(scn, boots=boots, faults=faults)


def drop_boot(scn, b):
    faults = [dict(f, at=[f["at"][0] - (f["at"][0] > b)] + f["at"][1:]) for f in scn.get("faults", []) if f["at"][0] != b]
    return dict(scn, boots=scn["boots"][:b] + scn["boots"][b + 1 :], faults=faults)


def shrink(scn, res):
    """Smaller scenarios, most promising first."""
    if scn.get("probe_rate"):
        yield dict(scn, probe_rate=0.0)
    if scn.get("faults"):
        for i in range(len(scn["faults"])):
            yield dict(scn, faults=scn["faults"][:i] + scn["faults"][i + 1 :])
    if scn.get("bystanders"):
        yield dict(scn, bystanders=[])
        for i in range(len(scn["bystanders"])):
            yield dict(scn, bystanders=scn["bystanders"][:i] + scn["bystanders"][i + 1 :])
    for b in reversed(range(len(scn["boots"]))):
        if len(scn["boots"]) > 1:
            yield drop_boot(scn, b)
    for b, boot in enumerate(scn["boots"]):
        for j in reversed(range(len(boot["ops"]))):
            yield drop_op(scn, b, j)
        if boot.get("env"):
            boots = list(scn["boots"])
            boots[b] = dict(boot, env=[])
            yield dict(scn, boots=boots)
    for b, boot in enumerate(scn["boots"]):
        args = boot["args"]
        for k in ("overrides", "init", "cli", "ignore_extra", "ovsched", "cfgonly", "late"):
            if args.get(k):
                boots = list(scn["boots"])
                vals = [[]] + [args[k][:i] + args[k][i + 1 :] for i in range(len(args[k]))] if k == "overrides" else [None]
                for v in vals:
                    boots = list(scn["boots"])
                    boots[b] = dict(boot, args=dict(args, **{k: v}))
                    yield dict(scn, boots=boots)
    for k in ("overrides", "cli"):
        if any(bt["args"].get(k) for bt in scn["boots"]):
            yield dict(scn, boots=[dict(bt, args={x: y for x, y in bt["args"].items() if x != k}) for bt in scn["boots"]])
    pr = scn["prog"]
    for ch in ({"wild": False}, {"big": False}, {"ser": 0}, {"ser": 1}, {"size": 1}, {"size": 2}):
        if any(pr.get(k) != v for k, v in ch.items()) and not (ch.get("size", 0) >= pr["size"]) and not (ch.get("ser", -1) >= pr.get("ser", 9)):
            yield dict(scn, prog=dict(pr, **ch))
    lay = scn["layout"]
    for k, v in (("style", "path"), ("order", 0), ("ckdev", 0), ("tmpdev", 0), ("tmp", "/simfs/tmp")):
        if k in lay and lay[k] != v:
            yield dict(scn, layout=dict(lay, **{k: v}))
    for i, f in enumerate(scn.get("faults", [])):
        if f.get("sticky"):
            yield dict(scn, faults=scn["faults"][:i] + [dict(f, sticky=False)] + scn["faults"][i + 1 :])
    if res.probe_idx is not None and scn.get("probe_only") != res.probe_idx and scn.get("probe_rate"):
        yield dict(scn, probe_only=res.probe_idx)


def run(hs, scn, prop):
    from .trainer import TRun

    t = TRun(hs, scn, prop)
    res = t.execute()
    res.traces = t.traces
    res.nontrivial = bool(res.fired) or bool(res.counts.get("restored-auto")) or bool(res.counts.get("started-explicit"))
    return res


def variants(prop, scn, res, seed):
    for v in range(scn.get("variants", 2)):
        f = place_faults(prop, scn, res.traces, (seed, v))
        if f:
            yield dict(scn, faults=f)


def describe(scn):
    return {"program": scn["prog"], "boots": [[b["args"], b["ops"], b.get("end")] for b in scn["boots"]], "faults": scn.get("faults", [])}
