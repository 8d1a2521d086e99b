"""Runs checks: workers, minimisation, replay files, evidence."""
import gc
import hashlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import time
import traceback

from .core import Result, h8

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
OUT = os.path.join(HERE, "out")
PER_RUN_S = 90  # wall clock: a run that takes longer hangs
DEADLINE = {"quick": 420, "thorough": 3000}
SHRINK_S = 60


class Alarm(BaseException):
    pass


def _alarm(*a):
    raise Alarm()


def load():
    """Seams first, then the code under test."""
    from . import simfs

    simfs.install()
    return simfs.import_hyperstate(REPO)


def guarded_run(fam, hs, scn, prop):
    if len(hs.Versioned.__subclasses__()) > 600:
        gc.collect()  # classes of earlier runs: every issubclass() asks them all
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(PER_RUN_S)
    try:
        return fam.run(hs, scn, prop)
    except Alarm:
        r = Result()
        r.viol = (f"a simulated run does not end within {PER_RUN_S} s of wall clock time: the code under test hangs", "")
        r.hash = "hang"
        r.fired, r.traces = {}, {}
        from . import simfs

        simfs.set_world(None)
        return r
    finally:
        signal.alarm(0)


# --------------------------------------------------------------------------
# worker


def seed_of(index, vseed):
    return f"{vseed}/{index}"


def worker(prop, tier, vseed, part, parts, lo, hi):
    from . import plan

    keep = os.dup(1)
    out = os.fdopen(keep, "w")
    null = os.open("/dev/null", os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)

    def say(**kw):
        out.write(json.dumps(kw) + "\n")
        out.flush()

    agg = {"runs": 0, "seeds": 0, "boots": 0, "steps": 0, "probes": 0, "events": 0, "sim_ns": 0, "fired": {}, "counts": {}, "per_family": {}, "other": {}}
    seen, nontriv, states, inter = set(), set(), set(), set()
    samples = []
    try:
        hs = load()
        t0 = time.time()
        todo = [x for n, x in enumerate(plan.jobs(prop, tier)) if n % parts == part and (lo is None or lo <= x[1] < hi)]
        for name, i in todo:
            if time.time() - t0 > DEADLINE[tier]:
                break
            fam = plan.family(name)
            seed = seed_of(i, vseed)
            agg["seeds"] += 1
            scn = fam.gen(prop, seed)
            res = None
            for scn in with_variants(fam, hs, prop, scn, seed):
                if isinstance(scn, tuple):
                    scn, res = scn
                else:
                    res = guarded_run(fam, hs, scn, prop)
                agg["runs"] += 1
                pf = agg["per_family"].setdefault(name, 0)
                agg["per_family"][name] = pf + 1
                for k in ("boots", "steps", "probes", "events", "sim_ns"):
                    agg[k] += getattr(res, k)
                for k, v in res.fired.items():
                    agg["fired"][k] = agg["fired"].get(k, 0) + v
                for k, v in res.counts.items():
                    agg["counts"][k] = agg["counts"].get(k, 0) + v
                for o in res.other:
                    agg["other"][o[1][:160]] = agg["other"].get(o[1][:160], 0) + 1
                if len(agg["other"]) > 40:
                    agg["other"] = dict(list(agg["other"].items())[:40])
                if res.nontrivial and res.hash not in nontriv:
                    nontriv.add(res.hash)
                    if len(samples) < 1 and res.fired:
                        samples.append({"family": name, "seed": seed, "scenario": fam.describe(scn), "trace_hash": res.hash})
                states |= res.states
                if res.interleaving:
                    inter.add(res.interleaving)
                if res.viol:
                    small, sres = minimise(fam, hs, scn, prop, res)
                    path = save_replay(prop, name, small, sres, seed, vseed, fam, hs)
                    path0 = save_replay(prop, name, scn, res, seed, vseed, fam, hs, suffix="-full")
                    say(t="viol", path=path, full=path0, what=sres.viol[0], seed=seed, family=name, index=i)
                    raise StopIteration
    except StopIteration:
        pass
    except BaseException:
        say(t="err", tb=traceback.format_exc())
    say(t="sum", agg=agg, nontriv=sorted(nontriv), states=sorted(states), inter=sorted(inter), samples=samples)


def with_variants(fam, hs, prop, scn, seed):
    """The scenario and what it gets varied into; runs the base scenario."""
    res = guarded_run(fam, hs, scn, prop)
    yield scn, res
    if res.viol or res.hash == "hang":
        return
    yield from fam.variants(prop, scn, res, seed)


def minimise(fam, hs, scn, prop, res):
    t0 = time.time()
    if res.hash == "hang":
        return scn, res
    progress = True
    while progress and time.time() - t0 < SHRINK_S:
        progress = False
        for cand in fam.shrink(scn, res):
            if time.time() - t0 > SHRINK_S:
                break
            try:
                r = guarded_run(fam, hs, cand, prop)
            except Exception:
                continue
            if r.viol and r.hash != "hang":
                scn, res, progress = cand, r, True
                break
    return scn, res


def save_replay(prop, name, scn, res, seed, vseed, fam, hs, suffix=""):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{name}-{h8(json.dumps(scn, sort_keys=True))}{suffix}.json")
    trace = []
    if res.hash != "hang":
        try:
            r2 = guarded_run(fam, hs, dict(scn, keep_log=True), prop)
            trace = getattr(r2, "log_lines", None) or []
        except Exception:
            pass
    data = {
        "property": prop, "family": name, "seed": seed, "verif_seed": vseed, "violation": res.viol[0], "detail": res.viol[1],
        "trace_hash": res.hash, "scenario": scn, "fault_trace": [x for x in trace if "FAULT" in x][:50],
        "schedule_and_fault_trace": trace[:1500],
    }
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


# --------------------------------------------------------------------------
# replay


def replay(path, show_trace=False):
    from . import plan

    with open(path) as f:
        d = json.load(f)
    keep = os.dup(2)
    null = os.open("/dev/null", os.O_WRONLY)
    os.dup2(null, 2)
    hs = load()
    fam = plan.family(d["family"])
    scn = dict(d["scenario"], keep_log=True)
    res = guarded_run(fam, hs, scn, d["property"])
    os.dup2(keep, 2)
    if show_trace:
        for line in getattr(res, "log_lines", None) or []:
            print(line)
    print("recorded:", d["violation"])
    print("replayed:", res.viol[0] if res.viol else "no violation")
    if res.viol and res.viol[1]:
        print("detail:", res.viol[1][:2000])
    same = res.viol is not None and res.viol[0] == d["violation"] and res.hash == d["trace_hash"]
    print("trace hash", res.hash, "identical" if res.hash == d["trace_hash"] else f"DIFFERS from {d['trace_hash']}")
    if res.viol:
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1 if same else 3
    return 0


# --------------------------------------------------------------------------
# main


def check(prop, tier, jobs, vseed, lo=None, hi=None):
    from . import evidence, known

    t0 = time.time()
    procs = []
    env = dict(os.environ)
    for i in range(jobs):
        cmd = [sys.executable, os.path.join(HERE, "check.py"), "--worker", prop, tier, str(vseed), str(i), str(jobs), str(-1 if lo is None else lo), str(-1 if hi is None else hi)]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env, cwd=HERE))
    bufs = {p.stdout.fileno(): [p, b""] for p in procs}
    viols, errs, sums = [], [], []
    limit = t0 + DEADLINE[tier] + 240
    stop_at = None
    while bufs:
        now = time.time()
        if now > limit:
            errs.append("workers exceeded the time limit")
            break
        if stop_at is not None and now > stop_at:
            break
        r, _, _ = select.select(list(bufs), [], [], 1.0)
        for fd in r:
            data = os.read(fd, 1 << 16)
            p, b = bufs[fd]
            if not data:
                del bufs[fd]
                if p.wait() != 0:
                    errs.append(f"worker ended with status {p.returncode}")
                continue
            b += data
            *lines, b = b.split(b"\n")
            bufs[fd][1] = b
            for line in lines:
                m = json.loads(line)
                if m["t"] == "viol":
                    viols.append(m)
                    stop_at = stop_at or now + 8
                elif m["t"] == "err":
                    errs.append(m["tb"])
                else:
                    sums.append(m)
    for p in procs:
        if p.poll() is None:
            p.kill()
    good = None
    for m in sorted(viols, key=lambda m: m["index"]):
        for path in (m["path"], m["full"]):
            try:
                rc = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), "--replay", path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=PER_RUN_S + 60).returncode
            except subprocess.TimeoutExpired:
                rc = 2
            if rc == 1:
                good = (m, path)
                break
        if good:
            break
    if viols and not good:
        errs.append(f"a violation does not replay: {viols[0]['what']} ({viols[0]['full']})")
    found = [] if good else known.report(prop)
    wall = time.time() - t0
    evidence.write(prop, tier, vseed, sums, wall, good, found, jobs)
    runs = sum(s["agg"]["runs"] for s in sums)
    if good:
        m, path = good
        print(f"{prop}: {m['what']}")
        print(f"found with seed {m['seed']} in family {m['family']}; replay with: check.py --replay {path}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    for kind, text in found:
        print(text)
        if kind == "violation":
            return 1
    if errs:
        print(f"ERROR: the {prop} check could not do its work:\n" + "\n".join(errs)[:6000])
        return 2
    print(f"{prop}: held on {runs} simulated runs ({sum(s['agg']['seeds'] for s in sums)} seeds, {sum(s['agg']['probes'] for s in sums)} crash points restarted) in {wall:.0f} s")
    return 0


def main(argv):
    if argv[:1] == ["--worker"]:
        prop, tier, vseed, part, parts, lo, hi = argv[1:8]
        worker(prop, tier, int(vseed), int(part), int(parts), None if lo == "-1" else int(lo), int(hi))
        return 0
    if argv[:1] == ["--replay"]:
        return replay(argv[1], "--trace" in argv)
    if argv[:1] == ["--setup"]:
        import numpy, msgpack, pyron, click  # noqa

        print("ready:", sys.version.split("\n")[0])
        return 0
    if argv[:1] == ["--selftest"]:
        from . import selftest

        return selftest.main(argv[1:])
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    jobs = os.cpu_count() or 4
    jobs = max(2, min(jobs, 16))
    lo = hi = None
    it = iter(argv[1:])
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--jobs":
            jobs = int(next(it))
        elif a == "--seeds":
            lo, hi = [int(x) for x in next(it).split(":")]
        else:
            raise SystemExit(f"unknown argument {a}")
    try:
        vseed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        vseed = int(hashlib.sha1(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    return check(prop, tier, jobs, vseed, lo, hi)
