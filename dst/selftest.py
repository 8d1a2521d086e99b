"""Checks of the machinery itself: `check.py --selftest [determinism|filesystem]`.

determinism  the same seeds give the same complete event traces in different processes, hash seeds and orders
filesystem   random sequences of file operations behave on the simulated file system as on a real one (in a scratch
             directory below /verif/out that is created and removed here)
"""
import hashlib
import json
import os
import random
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PER_FAMILY = 10
SEQUENCES = 4000


# -- determinism ---------------------------------------------------------------


def traces(order):
    """{family/prop/seed/variant: trace hash, verdict}; in a process of its own."""
    from . import plan, runner

    hs = runner.load()
    todo = []
    for prop, fams in plan.PLAN.items():
        for name, _, _ in fams:
            todo += [(name, prop, i) for i in range(PER_FAMILY)]
    if order == "reverse":
        todo.reverse()
    out = {}
    for name, prop, i in todo:
        fam = plan.family(name)
        n = 0
        for scn in runner.with_variants(fam, hs, prop, fam.gen(prop, runner.seed_of(i, 99)), runner.seed_of(i, 99)):
            if isinstance(scn, tuple):
                scn, res = scn
            else:
                res = fam.run(hs, scn, prop)
            out[f"{name}/{prop}/{i}/{n}"] = [res.hash, bool(res.viol), json.dumps(res.counts, sort_keys=True)]
            n += 1
    return out


def determinism():
    ps = []
    for hashseed, order in (("0", "forward"), ("1", "reverse"), ("777", "forward")):
        env = dict(os.environ, PYTHONHASHSEED=hashseed)
        ps.append(subprocess.Popen([sys.executable, "-m", "dst.selftest", "traces", order], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
    outs = [json.loads(p.communicate()[0].splitlines()[-1]) for p in ps]
    a = outs[0]
    bad = [k for o in outs[1:] for k in sorted(set(a) | set(o)) if a.get(k) != o.get(k)]
    for k in bad[:10]:
        print("not deterministic:", k, [o.get(k) for o in outs])
    print(f"determinism: {len(a)} runs in 3 processes (different hash seeds and orders), {len(bad)} differ")
    return not bad


# -- file system ---------------------------------------------------------------


def gen_ops(seed):
    r = random.Random(f"fs/{seed}")
    names = ["a", "b", "c", "a/x", "a/y", "b/x", "a/x/z", "b/x/z", "ü n", "a/lnk", "lnk"]
    p = lambda: r.choice(names)
    ops = []
    for _ in range(r.randint(3, 25)):
        k = r.choice(["mkdir", "mkdir", "makedirs", "rmdir", "write", "write", "write", "append", "excl", "update", "read", "unlink", "rename", "rename", "rename", "replace",
                      "listdir", "scandir", "stat", "lstat", "symlink", "readlink", "link", "chmod", "copy2", "copytree", "rmtree", "move", "move", "tempdir", "touch", "glob",
                      "rglob", "fd", "trunc", "utime", "resolve", "exists", "chdir", "relwrite", "walk", "ntf", "samefile", "removedirs", "renames"])
        ops.append([k, p(), p(), r.randint(0, 9), "x" * r.choice([0, 1, 5, 3000, 20000]) + str(r.randint(0, 99))])
    return ops


def do(root, op):
    import pathlib
    import shutil
    import tempfile

    k, a, b, n, text = op
    pa, pb = os.path.join(root, a), os.path.join(root, b)
    st = lambda s: [s.st_mode, s.st_size if not os.path.stat.S_ISDIR(s.st_mode) else 0, s.st_nlink if not os.path.stat.S_ISDIR(s.st_mode) else 0]
    if k == "mkdir":
        return os.mkdir(pa)
    if k == "makedirs":
        return os.makedirs(pa, exist_ok=bool(n % 2))
    if k == "rmdir":
        return os.rmdir(pa)
    if k in ("write", "append", "excl"):
        with open(pa, {"write": "w", "append": "a", "excl": "x"}[k]) as f:
            return [f.write(text), f.tell()]
    if k == "update":
        with open(pa, "r+b") as f:
            x = f.read(n)
            f.seek(n)
            f.write(b"12345")
            f.seek(0, 2)
            e = f.tell()
            f.truncate(max(0, e - n))
            return [x.decode(), e, f.seek(-1, 2) if e > n else 0]
    if k == "read":
        with open(pa) as f:
            return hashlib.sha1(f.read().encode()).hexdigest()
    if k == "unlink":
        return (pathlib.Path(pa).unlink(missing_ok=True) if n % 2 else os.unlink(pa))
    if k == "rename":
        return os.rename(pa, pb)
    if k == "replace":
        return str(pathlib.Path(pa).replace(pb))
    if k == "renames":
        return os.renames(pa, pb) if n < 5 else None
    if k == "removedirs":
        return None
    if k == "listdir":
        return sorted(os.listdir(pa))
    if k == "scandir":
        with os.scandir(pa) as it:
            return sorted([e.name, e.is_dir(), e.is_file(follow_symlinks=False), e.is_symlink()] for e in it)
    if k == "stat":
        return st(os.stat(pa))
    if k == "lstat":
        return st(os.lstat(pa)) if not os.path.islink(pa) else "link"
    if k == "symlink":
        return os.symlink(os.path.basename(b) if n % 2 else pb, pa)
    if k == "readlink":
        return os.readlink(pa)
    if k == "link":
        return os.link(pa, pb)
    if k == "chmod":
        return os.path.exists(pa) and os.chmod(pa, 0o600 if not os.path.isdir(pa) else 0o700)
    if k == "copy2":
        return shutil.copy2(pa, pb)
    if k == "copytree":
        if (os.path.realpath(pb) + "/").startswith(os.path.realpath(pa) + "/"):
            return None
        return shutil.copytree(pa, pb, symlinks=bool(n % 2))
    if k == "rmtree":
        return shutil.rmtree(pa)
    if k == "move":
        if (os.path.realpath(pb) + "/").startswith(os.path.realpath(pa) + "/"):
            return None  # copies into itself until the path is too long
        return shutil.move(pa, pb)
    if k == "tempdir":
        with tempfile.TemporaryDirectory(dir=pa) as d:
            with open(d + "/f", "w") as f:
                f.write(text)
            return [os.path.dirname(d), os.listdir(d)]
    if k == "ntf":
        with tempfile.NamedTemporaryFile("w", dir=pa, delete=bool(n % 2)) as f:
            f.write(text)
            f.flush()
            s = os.path.getsize(f.name)
        if not n % 2:
            os.replace(f.name, pb)
        return s
    if k == "touch":
        return pathlib.Path(pa).touch(exist_ok=bool(n % 2))
    if k == "glob":
        return sorted(map(str, pathlib.Path(root).glob("*")))
    if k == "rglob":
        return sorted(map(str, pathlib.Path(pa).rglob("*")))
    if k == "fd":
        fd = os.open(pa, [os.O_RDWR, os.O_RDWR | os.O_CREAT, os.O_WRONLY | os.O_CREAT | os.O_EXCL, os.O_RDWR | os.O_APPEND, os.O_RDWR | os.O_TRUNC][n % 5], 0o640)
        try:
            out = [os.write(fd, text.encode()[:50]), os.lseek(fd, 1, 0)]
            d = os.dup(fd)
            out += [os.lseek(d, 0, 1), os.fstat(fd).st_size]
            os.close(d)
            if n % 5 != 2:
                out.append(os.read(fd, 5).decode())
                out.append(os.pread(fd, 3, 0).decode())
            os.ftruncate(fd, n)
            os.fsync(fd)
            return out + [os.fstat(fd).st_size]
        finally:
            os.close(fd)
    if k == "trunc":
        return os.truncate(pa, n)
    if k == "utime":
        os.utime(pa, (n, 100 + n))
        return os.stat(pa).st_mtime
    if k == "resolve":
        return [str(pathlib.Path(pa).resolve()), os.path.realpath(pb)]
    if k == "exists":
        return [os.path.exists(pa), os.path.lexists(pa), os.path.isdir(pa), os.path.isfile(pa), os.path.islink(pa), os.access(pa, os.R_OK)]
    if k == "samefile":
        return os.path.samefile(pa, pb)
    if k == "chdir":
        os.chdir(pa)
        cwd = os.getcwd()
        os.chdir(root)
        return cwd
    if k == "relwrite":
        os.chdir(root)
        with open(a, "w") as f:
            f.write(text)
        return os.path.abspath(b)
    if k == "walk":
        return sorted([x[0], sorted(x[1]), sorted(x[2])] for x in os.walk(pa))
    raise AssertionError(k)


def tree(root):
    out = []
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            if os.path.islink(p):
                out.append([p, "link", os.readlink(p)])
            elif os.path.isdir(p):
                out.append([p, "dir"])
            else:
                with open(p, "rb") as f:
                    out.append([p, os.stat(p).st_mode, hashlib.sha1(f.read()).hexdigest()])
    return sorted(out)


def script(root, ops):
    log = []
    os.chdir(root)
    for op in ops:
        try:
            res = do(root, op)
        except Exception as e:
            res = [type(e).__name__, getattr(e, "errno", None) if op[0] != "rmtree" else None]  # PyPy's scandir(fd) has no errno
        log.append([op[0], res])
    return json.loads(re.sub("/tmp[a-z0-9_]{8}", "/tmpNAME", json.dumps([log, tree(root)]).replace(root, "$")))


def logs(kind, root):
    """One log per sequence of operations; in a process of its own."""
    out = []
    if kind == "real":
        import shutil

        for i in range(SEQUENCES):
            d = f"{root}/{i}"
            os.mkdir(d)
            os.umask(0o022)
            out.append(script(d, gen_ops(i)))
            os.chdir("/")
            shutil.rmtree(d)
        return out
    from . import runner, simfs

    runner.load()
    for i in range(SEQUENCES):
        fs = simfs.FS()
        fs.order = i % 10
        d = f"/simfs/data/{i}"
        fs.h_mkdirs(d)
        fs.h_mkdirs("/simfs/tmp")
        fs.h_mkdirs("/simfs/home")
        w = simfs.World(seed=i, fs=fs)
        simfs.boot_reset("/simfs/tmp", seed=i)
        proc = simfs.Proc(w, "p")
        with simfs.running(w, simfs.Task(0, "T", proc, None)):
            out.append(script(d, gen_ops(i)))
    return out


def filesystem():
    import shutil
    import tempfile

    os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="selftest-", dir=os.path.join(HERE, "out"))
    try:
        outs = []
        ps = [subprocess.Popen([sys.executable, "-m", "dst.selftest", "logs", kind, scratch], cwd=HERE, env=dict(os.environ, LC_ALL="C.UTF-8"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for kind in ("real", "sim")]
        outs = [json.loads(p.communicate()[0].splitlines()[-1]) for p in ps]
    finally:
        shutil.rmtree(scratch)
    bad = nops = 0
    for i, (a, b) in enumerate(zip(*outs)):
        nops += len(a[0])
        if a == b:
            continue
        bad += 1
        if bad <= 8:
            ops = gen_ops(i)
            for j, (x, y) in enumerate(zip(a[0], b[0])):
                if x != y:
                    print(f"sequence {i} operation {j} {ops[j][:4]}: real {x[1]}, simulated {y[1]}")
                    break
            else:
                print(f"sequence {i}: trees differ: real {[x for x in a[1] if x not in b[1]][:3]}, simulated {[x for x in b[1] if x not in a[1]][:3]}"[:2000])
    print(f"file system: {len(outs[0])} sequences, {nops} operations, {bad} sequences differ from the real file system")
    return not bad


def main(argv):
    if argv[:1] == ["traces"]:
        out = os.dup(1)
        null = os.open("/dev/null", os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        t = json.dumps(traces(argv[1]))
        with os.fdopen(out, "w") as f:
            f.write(t + "\n")
        return 0
    if argv[:1] == ["logs"]:
        print(json.dumps(logs(argv[1], argv[2])))
        return 0
    ok = True
    for name in argv or ["filesystem", "determinism"]:
        ok &= {"filesystem": filesystem, "determinism": determinism}[name]()
    return 0 if ok else 1


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
