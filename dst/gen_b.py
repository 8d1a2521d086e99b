"""A run restored from a checkpoint (automatic or explicit, through the API or the command line) whose files are truncated, emptied,
removed, replaced by the legacy pickled format or unreadable (I/O errors), before the start or while the program runs, and repaired
later; every access must give exactly the saved value or raise, untouched parts must stay readable, nothing may fall back to older
checkpoints, defaults or a fresh start, and a step must not replace what cannot be read."""
import copy
import os
import random

from . import lanes, prog as P, simfs
from .core import Result, Stop, Viol
from .trainer import HOME, Rec, TRun, file_text, flat, gen_config_file, overlay, restart_and_compare
from .simfs import ERRNOS


def gen(prop, seed):
    r = random.Random(f"B/{prop}/{seed}")
    nser = r.choice([0, 1, 1, 2, 3]) if prop == "C09" else r.choice([1, 2, 2, 3])
    lives = []
    for i in range(r.randint(1, 3)):
        ops = []
        if r.random() < 0.6:
            ops += [dmg(r, nser, prop) for _ in range(r.choice([1, 1, 2]))]
        body = []
        for _ in range(r.randint(1, 7)):
            x = r.random()
            if x < 0.2:
                body.append(["config"])
            elif x < 0.4:
                body.append(["state"])
            elif x < 0.7:
                body.append(["get", r.randint(0, 3)])
            elif x < 0.85:
                body.append(["step", r.choice([1, 1, 5])])
            elif x < 0.93:
                body.append(dmg(r, nser, prop))
            else:
                body.append(["repair"])
        lives.append({"before": ops, "ops": body})
    cf = r.random() < 0.6
    return {
        "cfg_file": cf and r.randint(1, 10**6), "family": "B", "prog": {"seed": r.randint(1, 10**9), "size": r.randint(1, 4), "wild": r.random() < 0.3, "ser": nser, "req": cf and r.choice([0, 0.4])},
        "layout": {"ck": "/simfs/data/run", "ckdev": r.choice([0, 0, 1]), "order": r.randint(0, 9), "style": r.choice(["path", "str", "rel"])},
        "world_seed": r.randint(1, 10**6), "src": r.choice(["auto", "auto", "explicit", "explicit-nodir"]), "older": r.random() < 0.5,
        "cli": r.random() < 0.2, "warm": r.randint(1, 3), "lives": lives, "overrides": [r.randint(1, 10**6)] if r.random() < 0.15 else [],
        "ignore_extra": r.random() < 0.1, "unsafe": r.random() < 0.3,
    }


def dmg(r, nser, prop):
    f = r.choice(["config.ron", "state.ron"] + ["blob"] * (3 if nser else 0))
    kinds = ["truncate", "truncate", "empty", "remove", "eio-open", "eio-read"]
    if r.random() < 0.08:
        return ["damage", "*", "remove", 0]
    if f == "blob":
        kinds += ["legacy", "legacy-blob"] if prop == "C10" else ["legacy"]
    k = r.choice(kinds)
    return ["damage", f, k, r.random(), r.randint(0, 3)]


class BRun(TRun):
    def execute(self):
        scn, w = self.scn, self.world
        self.bad = {}  # path -> kind
        self.backup = {}
        self.now_sched, self.initial_calls = {}, []
        self.tag = self.prop
        env = os.environ.pop("UNSAFE_DESERIALIZE_PICKLE", None)
        try:
            self.prepare()
            for i, life in enumerate(scn["lives"]):
                self.life(i, life)
            self.finish()
        except Viol as v:
            self.res.viol = (v.what, v.detail)
        except Stop:
            pass
        finally:
            os.environ.pop("UNSAFE_DESERIALIZE_PICKLE", None)
            if env is not None:
                os.environ["UNSAFE_DESERIALIZE_PICKLE"] = env
        self.res.absorb(w)
        self.res.hash = w.log.hexdigest()
        self.res.log_lines = w.log_lines
        return self.res

    def bug(self, what, detail=""):
        raise Viol({self.tag}, what, detail)

    # -- preparation ---------------------------------------------------------

    def prepare(self):
        scn, w, prog = self.scn, self.world, self.prog
        self.args = {"dir": scn["src"] != "explicit-nodir", "overrides": [], "cli": False}
        simfs.boot_reset(self.tmp, seed=1)
        proc = simfs.Proc(w, "earlier", HOME)
        keep, sched, args = {}, {}, {}
        if scn.get("cfg_file"):
            rf, cfg, sched = gen_config_file(prog, scn["cfg_file"])
            w.fs.h_write("/simfs/home/conf.ron", file_text(rf).encode())
            args = {"init": ["given", "/simfs/home/conf.ron"]}

        def warm(sm):
            old = None
            for i in range(scn["warm"]):
                prog.update(sm.state, i, 1)
                if scn["src"] == "auto":
                    sm.step()
                    if i < scn["warm"] - 1:
                        old = (i + 1, self.tree_of(self.newest()))
            if scn["src"] != "auto":
                sm.checkpoint("/simfs/data/best")
            keep["rec"] = Rec("auto" if scn["src"] == "auto" else "explicit", getattr(sm.state, prog.key), copy.deepcopy(sm.config), sched, self.clone_state(sm.state))
            if old and scn["older"]:
                # an older complete checkpoint is still there as well
                name = os.path.basename(self.newest())[:-12] + "%012d" % old[0]
                for p, d in old[1].items():
                    w.fs.h_write(f"{self.ck}/{name}/{p}", d)

        with simfs.running(w, simfs.Task(0, "W", proc, None)):
            self.start({"dir": scn["src"] == "auto", **args}, warm)
        proc.exit()
        self.rec = keep["rec"]
        self.where = self.newest() if scn["src"] == "auto" else "/simfs/data/best"
        if scn["src"] != "auto":
            self.args["init"] = ["ckpt", self.where]
        self.args["overrides"] = scn["overrides"]
        self.args["cli"] = scn["cli"]
        self.args["ignore_extra"] = scn["ignore_extra"] and not scn["cli"]
        self.want = self.rec.over(self.overrides(self.args))

    def clone_state(self, st):
        m = self.prog.initial_state(model=True)
        for n, T, _ in self.prog.st.fields:
            setattr(m, n, copy.deepcopy(getattr(st, n)))
        return m

    def newest(self):
        es = [e for e in self.world.fs.h_listdir(self.ck) if e.startswith("latest-")]
        return self.ck + "/" + max(es, key=lambda e: e[-12:])

    def tree_of(self, d):
        fs = self.world.fs
        return {n: fs.h_read(d + "/" + n) for n in sorted(fs.h_listdir(d))} if fs.h_isdir(d) else {}

    # -- damage -----------------------------------------------------------------

    def apply_damage(self, op):
        _, f, kind, frac = op[:4]
        fs, d = self.world.fs, self.where
        if not self.backup:
            self.backup = self.tree_of(d)
        names = list(self.backup)
        if f == "*":
            if any(k.startswith("legacy") for k in self.bad.values()):
                return
            for n in names:
                fs.h_remove(d + "/" + n)
                self.bad[d + "/" + n] = "remove"
            self.res.hit("damage-all")
            return
        if f == "blob":
            if not self.prog.ser_fields:
                return
            field = self.prog.ser_fields[op[4] % len(self.prog.ser_fields)]
            f = f"state.{field}.msgpack"
            if not kind.startswith("legacy"):
                f = next((n for n in (f"state.{field}.pickle", field) if n in names), f)
        p = d + "/" + f
        if not fs.h_exists(p) or p in self.bad:
            return
        data = fs.h_read(p)
        if kind == "truncate":
            n = int(len(data) * frac)
            name = len(self.prog.cfg.name if f == "config.ron" else self.prog.st.name)
            if f.endswith(".ron") and 0 < n <= name + 1:
                return  # recorded as known finding K2
            if n >= len(data.rstrip()):
                return
            fs.h_write(p, data[:n])
        elif kind == "empty":
            fs.h_write(p, b"")
        elif kind == "remove":
            fs.h_remove(p)
        elif kind.startswith("legacy"):
            if self.st_loaded or (d + "/state.ron") in self.bad:
                return
            import pickle

            text = fs.h_read(d + "/state.ron").decode()
            old = f'{field}: "<blob:msgpack>"'
            if old not in text:
                old = f'{field}:"<blob:msgpack>"'
            if text.count(old) != 1:
                return
            value = getattr(self.rec.st, field)
            payload = copy.deepcopy(value.data)
            if not value._plain:
                payload = {"payload": payload}
            pickled = pickle.dumps(payload)
            if P.canon(pickle.loads(pickled)) != P.canon(payload):
                return  # numpy on this interpreter does not pickle foreign byte orders
            marker = "<blob:pickle>" if kind == "legacy" else "<BLOB>"
            fs.h_write(d + "/state.ron", text.replace(old, old.replace("<blob:msgpack>", marker)).encode())
            fs.h_remove(p)
            fs.h_write(d + "/" + (f"state.{field}.pickle" if kind == "legacy" else field), pickled)
            if self.scn["unsafe"]:
                os.environ["UNSAFE_DESERIALIZE_PICKLE"] = "1"
                self.res.hit("legacy-enabled")
                self.backup.pop(f, None)
                for n in ("state.ron", f"state.{field}.pickle" if kind == "legacy" else field):
                    self.backup[n] = fs.h_read(d + "/" + n)
                return
        self.bad[p] = kind
        self.res.hit("damage-" + kind)

    def repair(self):
        fs = self.world.fs
        if not self.bad or any(k.startswith("legacy") for k in self.bad.values()):
            return
        for p in self.bad:
            n = os.path.basename(p)
            if n in self.backup and fs.h_isdir(self.where):
                if not self.bad[p].startswith("eio"):
                    fs.h_write(p, self.backup[n])
        self.bad = {}
        self.backup = {}
        self.res.hit("repair")

    def saw(self, t, name, path, mut):
        if name in ("open-r", "read") and self.bad:
            k = self.bad.get(os.path.normpath(os.path.join(HOME, path)))
            e = {"eio-open": "open-r", "eio-read": "read"}.get(k)
            if e == name:
                self.world.faults[t.label + (t.k,)] = {"kind": "err", "errno": "EIO"}

    def affected(self, what):
        d = self.where
        c = d + "/config.ron" in self.bad
        s = d + "/state.ron" in self.bad
        if what == "config":
            return c
        if what == "state":
            return c or s
        return any(d + "/" + n in self.bad for n in (f"state.{what}.msgpack", f"state.{what}.pickle", what))

    # -- lives ----------------------------------------------------------------------

    def life(self, i, life):
        w = self.world
        self.cfg_loaded = self.st_loaded = False
        self.loaded, self.maybe = set(), set()
        for op in life["before"]:
            self.env(op)
        self.live_key = self.want.key
        self.res.boots += 1
        proc = simfs.Proc(w, f"life{i}", HOME)
        task = simfs.Task(0, "T", proc, None)
        self.task, self.i = task, i
        task.label = ("T", i, 0)
        simfs.boot_reset(self.tmp, seed=i + 7)
        used = []

        def use(sm):
            used.append(1)
            for j, op in enumerate(life["ops"], 1):
                task.label, task.k = ("T", i, j), 0
                if op[0] in ("damage", "repair"):
                    self.env(op)
                else:
                    getattr(self, "do_" + op[0])(sm, *op[1:])

        with simfs.running(w, task):
            self.initial_calls = []
            try:
                self.start(self.args, use)
            except (Viol, Stop, simfs.SimKilled, simfs.SimHang):
                raise
            except BaseException as e:
                if used or not self.bad:
                    self.bug(f"start {i} raised {type(e).__name__}: {str(e)[:200]}")
                self.res.hit("start-raised")
        if not used and not self.bad:
            self.bug(f"start {i}: the program was not run")
        if self.initial_calls:
            self.bug(f"start {i}: a fresh initial state was created although a checkpoint is there")
        proc.exit()

    def env(self, op):
        if op[0] == "damage":
            self.apply_damage(op)
        else:
            self.repair()

    def attempt(self, what, get, must_ok, want, twice=True):
        """One access: the saved value, or (when damaged) an error, again and again."""
        try:
            v = get()
        except (Viol, Stop, simfs.SimKilled, simfs.SimHang):
            raise
        except BaseException as e:
            if must_ok:
                self.bug(f"start {self.i}: {what} raised {type(e).__name__}: {str(e)[:200]} although its data is intact")
            self.res.hit("refused-" + (what if what in ("config", "state") else "field"))
            if twice:
                return self.attempt(what, get, must_ok, want, twice=False)
            return None, False
        got, want = want(v)
        if got != want:
            self.bug(f"start {self.i}: {what} is not the saved value" + ("" if must_ok else " (its data is damaged: an error was due)"), lanes.diffs(want, got) if isinstance(want, dict) else f"got {P.show(got)}, want {P.show(want)}")
        self.res.hit("read-ok" if must_ok else "read-ok-damaged")
        return v, True

    def do_config(self, sm):
        ok = self.cfg_loaded or not self.affected("config")
        v, good = self.attempt("config", lambda: sm.config, ok, lambda v: ({k: x for k, x in flat(v).items() if k not in self.want.sched}, self.want.content()[0]))
        self.cfg_loaded |= good
        return good

    def do_state(self, sm):
        ok = self.st_loaded or not (self.affected("state") and not self.cfg_loaded or self.where + "/state.ron" in self.bad)
        skip = set(self.prog.ser_fields)

        def want(v):
            got = {}
            for n, T, _ in self.prog.st.fields:
                if n not in skip:
                    flat(getattr(v, n), n, got)
            w = {k: x for k, x in self.want.content()[2].items() if k != "<type>" and k.split(".")[0].split("<")[0] not in skip}
            w[self.prog.key] = P.canon(self.live_key)
            return got, w

        v, good = self.attempt("state", lambda: sm.state, ok, want)
        if good:
            self.st_loaded = self.cfg_loaded = True
        return good

    def do_get(self, sm, idx):
        if not self.prog.ser_fields or not self.do_state(sm):
            return
        f = self.prog.ser_fields[idx % len(self.prog.ser_fields)]
        ok = f in self.loaded or not self.affected(f)
        v, good = self.attempt(f, lambda: getattr(sm.state, f), ok, lambda v: (P.canon(v), P.canon(getattr(self.want.st, f))))
        if good:
            self.loaded.add(f)

    def do_step(self, sm, inc):
        if not self.do_state(sm):
            return
        w, fs = self.world, self.world.fs
        use_dir = self.args["dir"]
        self.live_key += inc
        setattr(sm.state, self.prog.key, self.live_key)
        blocked = [f for f in self.prog.ser_fields if f not in self.loaded | self.maybe and self.affected(f)]
        before = fs.h_tree("/simfs/data")
        new = self.want.over([])
        new.st = copy.deepcopy(self.want.st)
        setattr(new.st, self.prog.key, self.live_key)
        new.key, new.kind, new._flat = self.live_key, "auto", None
        try:
            sm.step()
            ok = True
        except (Viol, Stop, simfs.SimKilled, simfs.SimHang):
            raise
        except BaseException as e:
            ok = False
            if not self.bad or not use_dir:
                self.bug(f"start {self.i}: step raised {type(e).__name__}: {str(e)[:200]} although all data is intact")
            self.res.hit("step-refused")
        if not use_dir:
            if fs.h_tree("/simfs/data") != before:
                self.bug(f"start {self.i}: step without checkpoint directory wrote files")
            return
        if self.scn["src"] != "auto" and self.where == "/simfs/data/best":
            sub = {k: v for k, v in fs.h_tree("/simfs/data").items() if k.startswith("data/best")}
            if sub != {k: v for k, v in before.items() if k.startswith("data/best")}:
                self.bug(f"start {self.i}: step changed the checkpoint the run was started from")
        if ok:
            if blocked:
                self.bug(f"start {self.i}: step succeeded although {blocked[0]} of the restored state cannot be read")
            self.loaded |= set(self.prog.ser_fields)
            self.adopt(new)
            self.res.steps += 1
        else:
            # the failing call may have read some of the other fields
            self.maybe |= {f for f in self.prog.ser_fields if not self.affected(f)}
            after = fs.h_tree("/simfs/data")
            published = [e for e in fs.h_listdir(self.ck) if e.endswith("%012d" % self.live_key) and not e.endswith(".tmp")]
            if published:
                if blocked:
                    self.bug(f"start {self.i}: a failing step published a checkpoint although {blocked[0]} cannot be read")
                self.loaded |= set(self.prog.ser_fields)
                self.adopt(new)
            elif after != before:
                ks = [k for k in set(after) | set(before) if after.get(k, 0) != before.get(k, 0)]
                self.bug(f"start {self.i}: a step that cannot succeed changed files: {sorted(ks)[:3]}")

    def adopt(self, new):
        """The step published a new checkpoint: that is what there is now."""
        self.rec = self.want = new
        self.bad, self.backup = {}, {}
        self.where = self.newest()
        os.environ.pop("UNSAFE_DESERIALIZE_PICKLE", None)
        # schedules given by overrides are part of it
        self.probe_now("a step")

    def probe_now(self, where):
        self.res.probes += 1
        restart_and_compare(self, self.fs_clone0(), {**self.args, "cli": False}, [self.want], where, {self.tag})
        self.res.states.add(self.world.fs.digest()[:16])

    def fs_clone0(self):
        return self.world.fs.clone()

    def finish(self):
        if self.bad:
            self.repair()
        if not self.bad and not os.environ.get("UNSAFE_DESERIALIZE_PICKLE"):
            self.probe_now("everything")


def run(hs, scn, prop):
    b = BRun(hs, scn, prop)
    res = b.execute()
    res.traces = {}
    res.nontrivial = any(k.startswith("damage") for k in res.counts)
    return res


def variants(prop, scn, res, seed):
    return
    yield


def shrink(scn, res):
    L = scn["lives"]
    for i in range(len(L)):
        if len(L) > 1:
            yield dict(scn, lives=L[:i] + L[i + 1 :])
        for part in ("before", "ops"):
            for j in range(len(L[i][part])):
                yield dict(scn, lives=L[:i] + [dict(L[i], **{part: L[i][part][:j] + L[i][part][j + 1 :]})] + L[i + 1 :])
    for k, v in (("cli", False), ("older", False), ("overrides", []), ("ignore_extra", False), ("cfg_file", 0), ("warm", 1), ("src", "auto")):
        if scn[k] != v:
            yield dict(scn, **{k: v})
    pr = scn["prog"]
    if pr["req"]:
        yield dict(scn, prog=dict(pr, req=0))
    for ch in ({"ser": 0}, {"ser": 1}, {"size": 1}, {"wild": False}):
        for k, v in ch.items():
            if pr[k] > v:
                yield dict(scn, prog=dict(pr, **ch))
    lay = scn["layout"]
    for k, v in (("style", "path"), ("order", 0), ("ckdev", 0)):
        if lay[k] != v:
            yield dict(scn, layout=dict(lay, **{k: v}))


def describe(scn):
    return {k: scn[k] for k in ("prog", "src", "lives", "cli", "older")}
