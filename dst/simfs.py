"""Deterministic simulation kernel: file system, clock, randomness, processes
and threads, behind the seams of the Python standard library.

Everything the code under test does to files (os.*, open, pathlib, shutil,
tempfile, pyron.load), every clock and random source it may read, and every
context switch between simulated processes or threads goes through the one
`World` that is current.  A world is a pure function of the scenario that
drives it: same scenario, same event log.
"""
import ast
import builtins
import errno
import hashlib
import importlib.machinery
import io
import os
import posixpath
import pathlib
import random
import shutil
import stat as S
import sys
import tempfile
import threading
import time
import uuid
import weakref

SIM_ROOT = "/simfs"
FD_BASE = 1 << 24
EPOCH = 1_700_000_000 * 10**9  # simulated clock origin, ns

W = None  # the current world


class SimKilled(BaseException):
    """The simulated process is dead (kill -9): nothing it does has effect."""


class SimHang(BaseException):
    """A bound on the number of steps was exceeded (or all tasks are blocked)."""


class SimUnsupported(BaseException):
    """The code under test reached outside the simulation (harness problem)."""


# --------------------------------------------------------------------------
# file system


class Node:
    __slots__ = ("kind", "data", "mode", "mtime", "atime", "ino", "dev", "nlink", "xattr")

    def __init__(self, kind, data, mode, t, ino, dev):
        self.kind = kind  # 'd' 'f' 'l'
        self.data = data  # dict / bytearray / str
        self.mode = mode
        self.mtime = self.atime = t
        self.ino = ino
        self.dev = dev
        self.nlink = 1


class FS:
    def __init__(self):
        self.next_ino = 2
        self.caps = {}  # dev -> capacity in bytes or None
        self.used = {}  # dev -> bytes
        self.order = 0  # directory listing order mode/seed
        self.root = None
        self.root = self.node("d", {}, 0o755, EPOCH, 0)
        self.caps[0] = None
        self.used[0] = 0

    def node(self, kind, data, mode, t, dev):
        n = Node(kind, data, mode, t, self.next_ino, dev)
        self.next_ino += 1
        return n

    def clone(self):
        new = FS.__new__(FS)
        new.next_ino = self.next_ino
        new.caps = dict(self.caps)
        new.used = dict(self.used)
        new.order = self.order
        memo = {}

        def cp(n):
            if id(n) in memo:
                return memo[id(n)]
            m = Node(n.kind, None, n.mode, n.mtime, n.ino, n.dev)
            m.atime = n.atime
            m.nlink = n.nlink
            memo[id(n)] = m
            if n.kind == "d":
                m.data = {k: cp(v) for k, v in n.data.items()}
            elif n.kind == "f":
                m.data = bytearray(n.data)
            else:
                m.data = n.data
            return m

        new.root = cp(self.root)
        return new

    # -- harness access (no events, no faults) --
    def _get(self, path):
        n = self.root
        for seg in _segs(path):
            if n.kind != "d" or seg not in n.data:
                return None
            n = n.data[seg]
        return n

    def h_mount(self, path, dev, cap=None):
        n = self.h_mkdirs(path)
        n.dev = dev
        self.caps[dev] = cap
        self.used.setdefault(dev, 0)

    def h_mkdirs(self, path):
        n = self.root
        for seg in _segs(path):
            if seg not in n.data:
                n.data[seg] = self.node("d", {}, 0o755, EPOCH, n.dev)
            n = n.data[seg]
        return n

    def h_write(self, path, data, mode=0o644):
        if isinstance(data, str):
            data = data.encode()
        parent = self.h_mkdirs(os.path.dirname(path))
        name = os.path.basename(path)
        old = parent.data.get(name)
        if old is not None and old.kind == "f":
            self.used[old.dev] -= len(old.data)
            old.data[:] = data
            self.used[old.dev] += len(data)
            return
        parent.data[name] = self.node("f", bytearray(data), mode, EPOCH, parent.dev)
        self.used[parent.dev] += len(data)

    def h_read(self, path):
        n = self._get(path)
        return None if n is None or n.kind != "f" else bytes(n.data)

    def h_remove(self, path):
        parent = self._get(os.path.dirname(path))
        if parent is None:
            return
        n = parent.data.pop(os.path.basename(path), None)
        if n is not None:
            self._free(n)

    def _free(self, n):
        if n.kind == "d":
            for c in n.data.values():
                self._free(c)
        elif n.kind == "f":
            n.nlink -= 1
            if n.nlink <= 0:
                self.used[n.dev] -= len(n.data)

    def h_listdir(self, path):
        n = self._get(path)
        return sorted(n.data) if n is not None and n.kind == "d" else []

    def h_isdir(self, path):
        n = self._get(path)
        return n is not None and n.kind == "d"

    def h_exists(self, path):
        return self._get(path) is not None

    def h_tree(self, path):
        """{relative path: content} of everything below `path` (dirs: None)."""
        out = {}

        def walk(n, rel):
            if n.kind == "d":
                out[rel + "/"] = None
                for k in sorted(n.data):
                    walk(n.data[k], rel + "/" + k if rel else k)
            elif n.kind == "f":
                out[rel] = bytes(n.data)
            else:
                out[rel] = ("->", n.data)

        n = self._get(path)
        if n is not None:
            walk(n, "")
        return out

    def digest(self):
        h = hashlib.sha1()
        for k, v in self.h_tree("/").items():
            h.update(repr((k, v)).encode())
        return h.hexdigest()


def _segs(path):
    return [s for s in path.split("/") if s and s != "."]


class OpenFile:
    __slots__ = ("fd", "node", "pos", "flags", "proc", "path", "closed")

    def __init__(self, fd, node, flags, proc, path):
        self.fd, self.node, self.flags, self.proc, self.path = fd, node, flags, proc, path
        self.pos = 0
        self.closed = False


class Stat:
    """Duck-typed os.stat_result."""

    n_fields = 19

    def __init__(self, n):
        t = {"d": S.S_IFDIR, "f": S.S_IFREG, "l": S.S_IFLNK}[n.kind]
        self.st_mode = t | n.mode
        self.st_ino = n.ino
        self.st_dev = 0x5100 + n.dev
        self.st_nlink = n.nlink
        self.st_uid = self.st_gid = 0
        self.st_size = 4096 if n.kind == "d" else len(n.data)
        self.st_atime_ns, self.st_mtime_ns = n.atime, n.mtime
        self.st_ctime_ns = n.mtime
        self.st_atime, self.st_mtime, self.st_ctime = (
            n.atime / 1e9,
            n.mtime / 1e9,
            n.mtime / 1e9,
        )
        self.st_blksize, self.st_blocks, self.st_rdev = 4096, (self.st_size + 511) // 512, 0

    def _tuple(self):
        return (
            self.st_mode, self.st_ino, self.st_dev, self.st_nlink, self.st_uid,
            self.st_gid, self.st_size, int(self.st_atime), int(self.st_mtime), int(self.st_ctime),
        )

    def __getitem__(self, i):
        return self._tuple()[i]

    def __iter__(self):
        return iter(self._tuple())

    def __len__(self):
        return 10


class SimDirEntry:
    def __init__(self, world, name, dirpath, node, given):
        self._w, self.name, self._node = world, name, node
        self.path = given.rstrip("/") + "/" + name if given not in (None, "") else name
        self._dir = dirpath

    def __fspath__(self):
        return self.path

    def inode(self):
        return self._node.ino

    def is_symlink(self):
        return self._node.kind == "l"

    def _target(self, follow):
        if follow and self._node.kind == "l":
            return self._w.lookup(self._dir + "/" + self.name)
        return self._node

    def is_dir(self, *, follow_symlinks=True):
        try:
            return self._target(follow_symlinks).kind == "d"
        except FileNotFoundError:
            return False

    def is_file(self, *, follow_symlinks=True):
        try:
            return self._target(follow_symlinks).kind == "f"
        except FileNotFoundError:
            return False

    def stat(self, *, follow_symlinks=True):
        self._w.op("stat", self._dir + "/" + self.name)
        return Stat(self._target(follow_symlinks))

    def __repr__(self):
        return f"<DirEntry {self.name!r}>"


class SimScandir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


class SimRaw(io.RawIOBase):
    def __init__(self, world, fd, of, name, mode, closefd=True):
        self._w, self._fd, self._of = world, fd, of
        self.name, self.mode = name, mode
        self._closefd = closefd
        acc = of.flags & 3
        self._r = acc in (os.O_RDONLY, os.O_RDWR)
        self._wr = acc in (os.O_WRONLY, os.O_RDWR)

    def _gone(self):
        return W is not self._w or self._of.proc.ended

    def readable(self):
        return self._r

    def writable(self):
        return self._wr

    def seekable(self):
        return True

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def isatty(self):
        return False

    def readinto(self, b):
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        if self._gone():
            return 0
        data = self._w.fd_read(self._of, len(b))
        b[: len(data)] = data
        return len(data)

    def write(self, b):
        if not self._wr:
            raise io.UnsupportedOperation("not writable")
        if self._gone():
            return len(b)
        return self._w.fd_write(self._of, bytes(b))

    def seek(self, off, whence=0):
        if self._gone():
            return 0
        return self._w.fd_seek(self._of, off, whence)

    def tell(self):
        return self._of.pos

    def truncate(self, size=None):
        if self._gone():
            return 0
        if size is None:
            size = self._of.pos
        self._w.fd_truncate(self._of, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            io.RawIOBase.close(self)
        finally:
            if self._closefd and not self._gone() and not self._of.closed:
                self._w.s_close(self._fd)


# --------------------------------------------------------------------------
# processes, tasks, world


class Proc:
    def __init__(self, world, name, cwd="/simfs/home"):
        world.next_pid += 1
        self.pid = world.next_pid
        self.world, self.name, self.cwd = world, name, cwd
        self.encoding = world.encodings.choice(("utf-8", "utf-8", "utf-8", "cp1252", "latin-1", "shift_jis"))  # of its locale
        self.mods = None  # its module state while another process runs
        self.dead = False  # killed
        self.ended = False  # killed or exited
        self.files = []  # strong references: no GC-timed flushes
        self.locks = {}
        self.fins = []  # (finalizer, strong reference: never run by the garbage collector)

    def _finish(self):
        mine, self.fins = self.fins, []
        return [f for f, obj in reversed(mine)]

    def kill(self):
        """Only what reached the file system survives."""
        self.dead = self.ended = True
        for f in self._finish():
            f.detach()
        self.files = []

    def exit(self):
        """Normal interpreter exit: finalizers run, open files get flushed."""
        for f in self._finish():
            try:
                f()
            except (Exception, KeyboardInterrupt):
                pass
        for f in self.files:
            try:
                f.close()
            except (Exception, KeyboardInterrupt):
                pass
        self.ended = True
        self.files = []


class Task:
    def __init__(self, tid, name, proc, fn):
        self.tid, self.name, self.proc, self.fn = tid, name, proc, fn
        self.go = threading.Semaphore(0) if fn is not None else None
        self.done = False
        self.blocked = None
        self.result = None
        self.label = (name, 0, 0)  # (actor, boot, op index)
        self.k = 0
        self.trace = None
        self.op_cap = 60_000
        self.lines = False  # is every statement of the code under test a scheduling point?


class World:
    """One simulated execution."""

    made = 0

    def __init__(self, seed=0, fs=None, keep_log=False):
        World.made += 1
        self.uid = World.made
        self.fs = fs or FS()
        self.now = self.start = EPOCH
        self.tick = 1000_000  # ns per event
        self.rng = random.Random(seed)
        self.names = random.Random(seed + 77)
        self.encodings = random.Random(seed + 99)
        self.next_pid = 4000
        self.next_fd = FD_BASE
        self.fds = {}
        self.cur = None
        self.cur_proc = None
        self.log = hashlib.sha1()
        self.log_lines = [] if keep_log else None
        self.events = 0
        self.faults = {}  # (actor, boot, op, k) -> fault
        self.fired = []  # (label, k, kind, system call, path)
        self.fault_path = None
        self.probes = {}  # (actor, boot, op, k) -> callback
        self.full = set()  # sticky faults of the current workload op
        self.tasks = []
        self.gstep = 0
        self.switches = None  # replay: {gstep: tid}
        self.strategy = None
        self.made_switches = []
        self.max_events = 400_000
        self.hang = None
        self.on_op = None
        self.mutations = 0
        self.saved_env = None
        self.interleave = hashlib.sha1()

    # -- events --------------------------------------------------------

    def note(self, *what):
        line = repr(what)
        self.log.update(line.encode("utf-8", "surrogatepass"))
        if self.log_lines is not None:
            self.log_lines.append(line)

    def op(self, name, path, mut=False, size=0):
        """Every simulated system call passes here before it takes effect."""
        t = self.cur
        if t.proc.ended:
            raise SimKilled()
        self.sched_point(t)
        if t.proc.ended:
            raise SimKilled()
        self.events += 1
        self.now += self.tick
        t.k += 1
        if t.k > t.op_cap or self.events > self.max_events:
            self.hang = f"more than {t.k} file operations in one call"
            raise SimHang(self.hang)
        if mut:
            self.mutations += 1
        self.note(t.label, t.k, name, path, size)
        if t.trace is not None:
            t.trace.append((name, path, mut))
        if self.on_op is not None:
            self.on_op(t, name, path, mut)
        key = t.label + (t.k,)
        pr = self.probes.get(key)
        if pr is not None:
            pr(t, name, path)
        f = self.faults.get(key)
        if f is not None:
            return self._fault(t, f, name, path, mut)
        for st in self.full:
            if st[0] == name:
                self.fault_path = path
                e = st[1]
                if e == "EACCES" and isinstance(path, str) and self.fs.h_isdir(posixpath.normpath(path)):
                    e = "EIO"  # TemporaryDirectory answers EACCES from a directory with endless recursion
                self._fired(t, f"{e}*", name)
                raise _oserr(getattr(errno, e), path)
        return None

    def _fired(self, t, kind, name):
        isdir = self.fs.h_isdir(posixpath.normpath(self.fault_path)) if isinstance(self.fault_path, str) and self.fault_path.startswith("/") else False
        self.fired.append((t.label, t.k, kind, name, self.fault_path, isdir))
        self.note("FAULT", kind, name)

    def _fault(self, t, f, name, path, mut):
        kind = f["kind"]
        self.fault_path = path
        if kind == "crash":
            self._fired(t, "crash", name)
            t.proc.kill()
            raise SimKilled()
        if kind == "torn":
            if name in ("write", "sendfile"):
                self._fired(t, "torn-write", name)
                return ("torn", f.get("frac", 0.5))
            self._fired(t, "crash", name)
            t.proc.kill()
            raise SimKilled()
        if kind == "intr":
            self._fired(t, "interrupt", name)
            raise KeyboardInterrupt()
        if kind == "short":
            if name in ("write", "sendfile"):
                self._fired(t, "short-write", name)
                return ("short", f.get("frac", 0.5))
            return None
        if kind == "err":
            e = f["errno"]
            if e not in ERRNOS.get(name, ()):
                return None
            self._fired(t, e, name)
            if f.get("sticky"):
                self.full.add((name, e))
            raise _oserr(getattr(errno, e), path)
        if kind == "full":
            # the disk holding the path fills up and stays full until the call ends
            dev = self._dev_of(path)
            self._fired(t, "disk-full", name)
            self.fs.caps[dev] = self.fs.used[dev] + f.get("room", 0)
            return None
        raise SimUnsupported(f"unknown fault {f}")

    def _dev_of(self, path):
        n = self.fs.root
        for seg in _segs(path):
            if n.kind == "d" and seg in n.data:
                n = n.data[seg]
            else:
                break
        return n.dev

    # -- scheduling ------------------------------------------------------

    def runnable(self):
        return [t for t in self.tasks if not t.done and t.blocked is None]

    def sched_point(self, t):
        if len(self.tasks) < 2 or t.go is None:
            return
        g = self.gstep
        self.gstep += 1
        if self.gstep > self.max_events:
            self.hang = "too many scheduling steps"
            raise SimHang(self.hang)
        if self.switches is not None:
            tid = self.switches.get(g)
            nxt = None if tid is None or tid >= len(self.tasks) else self.tasks[tid]
            if nxt is None or nxt.done or nxt.blocked is not None:
                nxt = t
        else:
            nxt = self.strategy(g, t, self.runnable())
        if nxt is not t:
            self.made_switches.append([g, nxt.tid])
            self._handoff(t, nxt)

    def _handoff(self, t, nxt):
        self.interleave.update(b"%d>%d@%d;" % (t.tid, nxt.tid, t.k))
        self.cur = nxt
        self.enter(nxt.proc)
        nxt.go.release()
        t.go.acquire()
        if self.hang:
            raise SimHang(self.hang)
        if t.proc.ended:
            raise SimKilled()

    def block(self, t, on):
        """`t` waits (for a lock): run somebody else until it is unblocked."""
        t.blocked = on
        rs = self.runnable()
        if not rs:
            self.hang = "deadlock"
            t.blocked = None
            raise SimHang(self.hang)
        g = self.gstep
        self.gstep += 1
        nxt = None
        if self.switches is not None:
            tid = self.switches.get(g)
            nxt = self.tasks[tid] if tid is not None and self.tasks[tid] in rs else rs[0]
        else:
            nxt = self.strategy(g, None, rs)
        self.made_switches.append([g, nxt.tid])
        self._handoff(t, nxt)

    def _task_main(self, t):
        t.go.acquire()
        try:
            if not self.hang:
                t.result = t.fn(t)
        except SimKilled:
            pass
        except SimHang as e:
            self.hang = self.hang or str(e)
        except BaseException as e:  # harness error
            t.result = ("harness-error", e, sys.exc_info()[2])
        t.done = True
        rs = self.runnable()
        if not rs:
            blocked = [x for x in self.tasks if not x.done]
            if blocked:
                self.hang = self.hang or "deadlock"
                for b in blocked:
                    b.blocked = None
                rs = blocked
            else:
                self.main_go.release()
                return
        g = self.gstep
        self.gstep += 1
        if self.switches is not None:
            tid = self.switches.get(g)
            nxt = self.tasks[tid] if tid is not None and self.tasks[tid] in rs else rs[0]
        elif self.hang:
            nxt = rs[0]
        else:
            nxt = self.strategy(g, None, rs)
        self.made_switches.append([g, nxt.tid])
        self.cur = nxt
        self.enter(nxt.proc)
        nxt.go.release()

    def enter(self, proc):
        """Every process has its own memory: swaps what the code under test keeps in its modules."""
        if proc is not self.cur_proc:
            if self.cur_proc is not None:
                self.cur_proc.mods = ModuleState.save()
            ModuleState.load(proc.mods)
            self.cur_proc = proc

    def spawn(self, name, proc, fn):
        t = Task(len(self.tasks), name, proc, fn)
        self.tasks.append(t)
        return t

    def run_tasks(self):
        """Run all spawned tasks to completion under the seeded scheduler."""
        global W
        self.main_go = threading.Semaphore(0)
        ths = []
        for t in self.tasks:
            th = threading.Thread(target=self._task_main, args=(t,), daemon=True)
            ths.append(th)
            th.start()
        self.cur = self.tasks[0]
        self.enter(self.cur.proc)
        self.tasks[0].go.release()
        self.main_go.acquire()
        for th in ths:
            th.join()
        self.cur = None
        for t in self.tasks:
            if isinstance(t.result, tuple) and t.result and t.result[0] == "harness-error":
                raise t.result[1].with_traceback(t.result[2])

    # -- path handling -----------------------------------------------------

    def simpath(self, path):
        """Absolute simulated path, or None for a path outside the simulation."""
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not path:
            return self.cur.proc.cwd if path is None else ""
        if path[0] != "/":
            path = self.cur.proc.cwd + "/" + path
        if path == SIM_ROOT or path.startswith(SIM_ROOT + "/"):
            return path
        if path == "/tmp" or path.startswith("/tmp/"):
            return SIM_ROOT + path
        if path == "/":
            return None
        return None

    def lookup(self, path, follow=True, parent=False, depth=0):
        """Node at absolute path; with parent=True (dir node, last name)."""
        if depth > 20:
            raise _oserr(errno.ELOOP, path)
        n = self.fs.root
        stack = []
        segs = _segs(path)
        if parent and (not segs or segs[-1] == ".."):
            raise _oserr(errno.EBUSY, path)
        for i, seg in enumerate(segs):
            if n.kind != "d":
                raise _oserr(errno.ENOTDIR, path)
            last = i == len(segs) - 1
            if last and parent:
                return n, seg
            if seg == "..":
                n = stack.pop() if stack else n
                continue
            if seg not in n.data:
                raise _oserr(errno.ENOENT, path)
            c = n.data[seg]
            if c.kind == "l" and (follow or not last):
                tgt = c.data
                if not tgt.startswith("/"):
                    tgt = "/" + "/".join(segs[:i]) + "/" + tgt
                rest = "/".join(segs[i + 1 :])
                return self.lookup(
                    tgt + ("/" + rest if rest else ""), follow, parent, depth + 1
                )
            stack.append(n)
            n = c
        if parent:
            raise _oserr(errno.EBUSY, path)
        if path.endswith("/") and n.kind != "d":
            raise _oserr(errno.ENOTDIR, path)
        return n

    def _at(self, path, dir_fd):
        """Combine path with dir_fd; returns absolute sim path or None."""
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if dir_fd is not None and dir_fd >= FD_BASE and not path.startswith("/"):
            of = self._of(dir_fd)
            return of.path + "/" + path
        return self.simpath(path)

    def _of(self, fd):
        of = self.fds.get(fd)
        if of is None or of.closed:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        return of

    # -- system calls --------------------------------------------------------

    def charge(self, dev, n):
        """How many of n more bytes fit on dev."""
        cap = self.fs.caps.get(dev)
        if cap is None:
            return n
        return max(0, min(n, cap - self.fs.used[dev]))

    def check_room(self, dev, path):
        cap = self.fs.caps.get(dev)
        if cap is not None and self.fs.used[dev] >= cap:
            raise _oserr(errno.ENOSPC, path)

    def s_open(self, p, flags, mode=0o777):
        acc = flags & 3
        writing = acc != os.O_RDONLY or bool(flags & (os.O_CREAT | os.O_TRUNC))
        self.op("open-w" if writing else "open-r", p, mut=writing)
        try:
            n = self.lookup(p, follow=not flags & getattr(os, "O_NOFOLLOW", 0))
        except FileNotFoundError:
            n = None
        if n is not None:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise _oserr(errno.EEXIST, p)
            if n.kind == "l":
                raise _oserr(errno.ELOOP, p)
            if n.kind == "d" and writing:
                raise _oserr(errno.EISDIR, p)
            if flags & getattr(os, "O_DIRECTORY", 0) and n.kind != "d":
                raise _oserr(errno.ENOTDIR, p)
            if flags & os.O_TRUNC and n.kind == "f" and acc != os.O_RDONLY:
                self.fs.used[n.dev] -= len(n.data)
                n.data[:] = b""
                n.mtime = self.now
        else:
            if not flags & os.O_CREAT:
                raise _oserr(errno.ENOENT, p)
            d, name = self.lookup(p, parent=True)
            for _ in range(20):
                # a dangling link: what it points to is created
                c = d.data.get(name) if d.kind == "d" else None
                if c is None or c.kind != "l":
                    break
                if flags & os.O_EXCL:
                    raise _oserr(errno.EEXIST, p)
                at = os.path.dirname(p)
                p = c.data if c.data.startswith("/") else at + "/" + c.data
                d, name = self.lookup(p, parent=True)
            if d.kind != "d":
                raise _oserr(errno.ENOTDIR, p)
            self.check_room(d.dev, p)
            n = self.fs.node("f", bytearray(), mode & 0o755 & ~0o022 | (mode & 0o044), self.now, d.dev)
            d.data[name] = n
            d.mtime = self.now
        self.next_fd += 1
        of = OpenFile(self.next_fd, n, flags, self.cur.proc, p)
        self.fds[of.fd] = of
        return of.fd

    def s_close(self, fd):
        of = self._of(fd)
        self.op("close", of.path) if not self.cur.proc.ended else None
        of.closed = True
        self.fds.pop(fd, None)

    def fd_read(self, of, n):
        if of.node.kind == "d":
            raise _oserr(errno.EISDIR, of.path)
        self.op("read", of.path, size=n)
        data = bytes(of.node.data[of.pos : of.pos + n])
        of.pos += len(data)
        return data

    def fd_write(self, of, data, name="write", pos=None):
        act = self.op(name, of.path, mut=True, size=len(data))
        n = of.node
        if of.closed:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        cnt = len(data)
        if act is not None and cnt:
            cnt = max(0 if act[0] == "torn" else 1, min(cnt, int(len(data) * act[1])))
        at = len(n.data) if of.flags & os.O_APPEND else (of.pos if pos is None else pos)
        grow = max(0, at + cnt - len(n.data))
        fit = self.charge(n.dev, grow)
        if fit < grow:
            cnt -= grow - fit
            if cnt <= 0 and data:
                if act is None or act[0] != "torn":
                    self.fired.append((self.cur.label, self.cur.k, "ENOSPC-full", name, of.path))
                    raise _oserr(errno.ENOSPC, of.path)
                cnt = 0
        if at > len(n.data):
            n.data.extend(bytes(at - len(n.data)))
        before = len(n.data)
        n.data[at : at + cnt] = data[:cnt]
        self.fs.used[n.dev] += len(n.data) - before
        n.mtime = self.now
        if pos is None:
            of.pos = at + cnt
        if act is not None and act[0] == "torn":
            self.cur.proc.kill()
            raise SimKilled()
        return cnt

    def fd_seek(self, of, off, whence):
        of.pos = off if whence == 0 else of.pos + off if whence == 1 else len(of.node.data) + off
        return of.pos

    def fd_truncate(self, of, size):
        self.op("truncate", of.path, mut=True)
        self._trunc(of.node, size)

    def _trunc(self, n, size):
        before = len(n.data)
        if size < before:
            del n.data[size:]
        else:
            n.data.extend(bytes(size - before))
        self.fs.used[n.dev] += len(n.data) - before
        n.mtime = self.now

    def s_mkdir(self, p, mode=0o777):
        self.op("mkdir", p, mut=True)
        d, name = self.lookup(p, parent=True)
        if d.kind != "d":
            raise _oserr(errno.ENOTDIR, p)
        if name in d.data:
            raise _oserr(errno.EEXIST, p)
        self.check_room(d.dev, p)
        d.data[name] = self.fs.node("d", {}, mode & 0o755, self.now, d.dev)
        d.mtime = self.now

    def s_rmdir(self, p):
        self.op("rmdir", p, mut=True)
        d, name = self.lookup(p, parent=True)
        n = d.data.get(name)
        if n is None:
            raise _oserr(errno.ENOENT, p)
        if n.kind != "d":
            raise _oserr(errno.ENOTDIR, p)
        if n.dev != d.dev:
            raise _oserr(errno.EBUSY, p)
        if n.data:
            raise _oserr(errno.ENOTEMPTY, p)
        del d.data[name]
        d.mtime = self.now

    def s_unlink(self, p):
        self.op("unlink", p, mut=True)
        d, name = self.lookup(p, parent=True)
        n = d.data.get(name)
        if n is None:
            raise _oserr(errno.ENOENT, p)
        if n.kind == "d":
            raise _oserr(errno.EISDIR, p)
        del d.data[name]
        d.mtime = self.now
        if n.kind == "f":
            n.nlink -= 1
            if n.nlink <= 0:
                self.fs.used[n.dev] -= len(n.data)

    def s_rename(self, a, b):
        self.op("rename", a + " -> " + b, mut=True)
        da, na = self.lookup(a, parent=True)
        if da.kind != "d":
            raise _oserr(errno.ENOTDIR, a, b)
        db, nb = self.lookup(b, parent=True)
        if db.kind != "d":
            raise _oserr(errno.ENOTDIR, a, b)
        if na not in da.data:
            raise _oserr(errno.ENOENT, a, b)
        src = da.data[na]
        if src.dev != da.dev or (nb in db.data and db.data[nb].dev != db.dev):
            raise _oserr(errno.EBUSY, a, b)
        if da.dev != db.dev:
            raise _oserr(errno.EXDEV, a, b)
        dst = db.data.get(nb)
        if dst is src:
            return
        if src.kind == "d":
            # into itself?
            if _holds(src, db):
                raise _oserr(errno.EINVAL, a, b)
            if dst is not None and dst.kind != "d":
                raise _oserr(errno.ENOTDIR, a, b)
            if dst is not None and dst.data:
                raise _oserr(errno.ENOTEMPTY, a, b)
        elif dst is not None and dst.kind == "d":
            raise _oserr(errno.ENOTEMPTY if _holds(dst, da) else errno.EISDIR, a, b)
        if a.endswith("/") and src.kind != "d":
            raise _oserr(errno.ENOTDIR, a, b)
        del da.data[na]
        if dst is not None:
            if dst.kind == "f":
                self.fs._free(dst)
            db.data[nb] = src  # keeps listing position of the replaced entry
        else:
            db.data[nb] = src
        da.mtime = db.mtime = self.now

    def s_list(self, n, p, name):
        self.op(name, p)
        if n is None:
            n = self.lookup(p)
        if n.kind != "d":
            raise _oserr(errno.ENOTDIR, p)
        names = list(n.data)
        o = self.fs.order
        if o == 0:
            pass
        elif o == 1:
            names.sort()
        elif o == 2:
            names.sort(reverse=True)
        elif o == 3:
            names.reverse()
        else:
            names.sort(key=lambda s: hashlib.md5(f"{o}/{s}".encode("utf-8", "surrogatepass")).digest())
        return n, names


def _holds(d, n):
    """Is directory n this directory d or anywhere below it?"""
    return d is n or any(_holds(c, n) for c in d.data.values() if c.kind == "d")


ERRNOS = {
    "open-r": ("EIO", "EMFILE", "EACCES", "ENFILE"),
    "open-w": ("ENOSPC", "EIO", "EMFILE", "EACCES", "EROFS", "EDQUOT"),
    "write": ("ENOSPC", "EIO", "EDQUOT"),
    "sendfile": ("ENOSPC", "EIO"),
    "read": ("EIO",),
    "mkdir": ("ENOSPC", "EACCES", "EIO", "EROFS"),
    "rename": ("EIO", "EACCES", "ENOSPC", "EBUSY"),
    "unlink": ("EIO", "EACCES", "EBUSY"),
    "rmdir": ("EIO", "EACCES", "EBUSY"),
    "listdir": ("EIO", "EMFILE", "EACCES"),
    "scandir": ("EIO", "EMFILE", "EACCES"),
    "fsync": ("EIO",),
    "close": ("EIO",),
    "truncate": ("EIO",),
    "link": ("EIO",),
    "symlink": ("EIO",),
}


def _oserr(e, path, path2=None):
    if path2 is not None:
        return OSError(e, os.strerror(e), path, None, path2)
    return OSError(e, os.strerror(e), path)


# --------------------------------------------------------------------------
# locks


class SimLock:
    """Lock/RLock whose waiting is decided by the simulator.  State is kept per
    simulated process, as each has its own address space."""

    def __init__(self, reentrant):
        self._re = reentrant
        self._st = {}

    def _key(self):
        w = W
        if w is None or w.cur is None:
            return None, ("real", threading.get_ident()), None
        return w, w.cur.tid, w.cur.proc.pid

    def acquire(self, blocking=True, timeout=-1):
        w, me, space = self._key()
        if w is not None and w.cur.go is not None:
            w.sched_point(w.cur)
        skey = (w and w.uid, space)
        while True:
            st = self._st.get(skey)
            if st is None:
                self._st[skey] = [me, 1]
                return True
            if self._re and st[0] == me:
                st[1] += 1
                return True
            if not blocking:
                return False
            if w is None or w.cur.go is None:
                raise SimHang("deadlock: lock already held")
            if timeout is not None and timeout >= 0:
                w.now += int(timeout * 1e9)
                return False
            w.block(w.cur, self)

    __enter__ = acquire

    def release(self):
        w, me, space = self._key()
        skey = (w and w.uid, space)
        st = self._st.get(skey)
        if st is None or (self._re and st[0] != me):
            raise RuntimeError("release unlocked lock")
        st[1] -= 1
        if st[1] == 0:
            del self._st[skey]
            if w is not None:
                for t in w.tasks:
                    if t.blocked is self:
                        t.blocked = None

    def __exit__(self, *a):
        self.release()

    def locked(self):
        w, me, space = self._key()
        return (w and w.uid, space) in self._st

    def _is_owned(self):
        w, me, space = self._key()
        st = self._st.get((w and w.uid, space))
        return st is not None and st[0] == me


# --------------------------------------------------------------------------
# installing the seams

_real = {}
_installed = False
_force_sim_locks = False


def _active():
    return W is not None and W.cur is not None


def _paths(name, simf, kinds, mutating=False):
    """Wrapper for os.<name>: dispatches to simf(world, simpath..., rest)."""
    real = getattr(os, name)
    _real[name] = real

    def wrapper(*a, **kw):
        w = W
        if w is None or w.cur is None:
            return real(*a, **kw)
        return simf(w, real, *a, **kw)

    wrapper.__name__ = name
    wrapper.__qualname__ = name
    return wrapper


def _deny(path):
    raise OSError(errno.EROFS, "outside the simulated file system", path)


def _isfd(x):
    return isinstance(x, int) and not isinstance(x, bool)


def _f_stat(w, real, path, *, dir_fd=None, follow_symlinks=True):
    if _isfd(path):
        if path < FD_BASE:
            return real(path)
        w.op("stat", w._of(path).path)
        return Stat(w._of(path).node)
    p = w._at(path, dir_fd)
    if p is None:
        return real(path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    w.op("stat", p)
    if p == "":
        raise _oserr(errno.ENOENT, p)
    return Stat(w.lookup(p, follow=follow_symlinks))


def _f_lstat(w, real, path, *, dir_fd=None):
    p = w._at(path, dir_fd)
    if p is None:
        return real(path, dir_fd=dir_fd)
    w.op("stat", p)
    return Stat(w.lookup(p, follow=False))


def _f_fstat(w, real, fd):
    if fd < FD_BASE:
        return real(fd)
    w.op("stat", w._of(fd).path)
    return Stat(w._of(fd).node)


def _f_open(w, real, path, flags, mode=0o777, *, dir_fd=None):
    p = w._at(path, dir_fd)
    if p is None:
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            _deny(path)
        return real(path, flags, mode, dir_fd=dir_fd)
    return w.s_open(p, flags, mode)


def _f_close(w, real, fd):
    if fd < FD_BASE:
        return real(fd)
    if w.cur.proc.ended:
        raise SimKilled()
    w.s_close(fd)


def _f_read(w, real, fd, n):
    if fd < FD_BASE:
        return real(fd, n)
    return w.fd_read(w._of(fd), n)


def _f_write(w, real, fd, data):
    if fd < FD_BASE:
        return real(fd, data)
    return w.fd_write(w._of(fd), bytes(data))


def _f_pread(w, real, fd, n, off):
    if fd < FD_BASE:
        return real(fd, n, off)
    of = w._of(fd)
    w.op("read", of.path, size=n)
    return bytes(of.node.data[off : off + n])


def _f_pwrite(w, real, fd, data, off):
    if fd < FD_BASE:
        return real(fd, data, off)
    return w.fd_write(w._of(fd), bytes(data), pos=off)


def _f_lseek(w, real, fd, off, how):
    if fd < FD_BASE:
        return real(fd, off, how)
    return w.fd_seek(w._of(fd), off, how)


def _f_dup(w, real, fd, *a):
    if fd < FD_BASE:
        return real(fd, *a)
    of = w._of(fd)
    w.next_fd += 1
    n = OpenFile(w.next_fd, of.node, of.flags, of.proc, of.path)
    n.pos = of.pos
    w.fds[n.fd] = n
    return n.fd


def _f_sync(w, real, fd):
    if not _isfd(fd):
        fd = fd.fileno()
    if fd < FD_BASE:
        return real(fd)
    w.op("fsync", w._of(fd).path)


def _f_ftruncate(w, real, fd, n):
    if fd < FD_BASE:
        return real(fd, n)
    w.fd_truncate(w._of(fd), n)


def _f_truncate(w, real, path, length):
    if _isfd(path):
        return _f_ftruncate(w, real, path, length)
    p = w._at(path, None)
    if p is None:
        _deny(path)
    w.op("truncate", p, mut=True)
    n = w.lookup(p)
    if n.kind == "d":
        raise _oserr(errno.EISDIR, path)
    w._trunc(n, length)


def _f_sendfile(w, real, out, in_, offset, count, *a, **kw):
    if out < FD_BASE or in_ < FD_BASE:
        raise OSError(errno.EINVAL, "sendfile")
    o, i = w._of(out), w._of(in_)
    at = i.pos if offset is None else offset
    data = bytes(i.node.data[at : at + count])
    if not data:
        return 0
    n = w.fd_write(o, data, name="sendfile")
    if offset is None:
        i.pos += n
    return n


def _f_mkdir(w, real, path, mode=0o777, *, dir_fd=None):
    p = w._at(path, dir_fd)
    if p is None:
        if real_exists(path):
            raise _oserr(errno.EEXIST, path)
        _deny(path)
    w.s_mkdir(p, mode)


def real_exists(path):
    try:
        _real["stat"](path)
        return True
    except OSError:
        return False


def _f_rmdir(w, real, path, *, dir_fd=None):
    p = w._at(path, dir_fd)
    if p is None:
        _deny(path)
    w.s_rmdir(p)


def _f_unlink(w, real, path, *, dir_fd=None):
    p = w._at(path, dir_fd)
    if p is None:
        _deny(path)
    w.s_unlink(p)


def _f_rename(w, real, src, dst, *, src_dir_fd=None, dst_dir_fd=None):
    a, b = w._at(src, src_dir_fd), w._at(dst, dst_dir_fd)
    if a is None or b is None:
        _deny(src)
    w.s_rename(a, b)


def _f_listdir(w, real, path="."):
    if _isfd(path):
        if path < FD_BASE:
            return real(path)
        of = w._of(path)
        return w.s_list(of.node, of.path, "listdir")[1]
    p = w._at("." if path is None else path, None)
    if p is None:
        return real(path)
    return w.s_list(None, p, "listdir")[1]


def _f_scandir(w, real, path="."):
    if _isfd(path):
        if path < FD_BASE:
            return real(path)
        of = w._of(path)
        n, names = w.s_list(of.node, of.path, "scandir")
        return SimScandir([SimDirEntry(w, x, of.path, n.data[x], None) for x in names])
    if path is None:
        path = "."
    p = w._at(path, None)
    if p is None:
        return real(path)
    n, names = w.s_list(None, p, "scandir")
    g = os.fspath(path)
    return SimScandir([SimDirEntry(w, x, p, n.data[x], g) for x in names])


def _f_access(w, real, path, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
    p = w._at(path, dir_fd)
    if p is None:
        return real(path, mode)
    w.op("stat", p)
    try:
        w.lookup(p)
        return True
    except OSError:
        return False


def _f_chmod(w, real, path, mode, *, dir_fd=None, follow_symlinks=True):
    if _isfd(path):
        of = w._of(path)
        w.op("chmod", of.path)
        of.node.mode = mode & 0o7777
        return
    p = w._at(path, dir_fd)
    if p is None:
        _deny(path)
    w.op("chmod", p)
    w.lookup(p, follow=follow_symlinks).mode = mode & 0o7777


def _f_chown(w, real, path, *a, **kw):
    p = w._at(path, kw.get("dir_fd"))
    if p is None:
        _deny(path)
    w.op("chown", p)
    w.lookup(p)


def _f_utime(w, real, path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
    if _isfd(path):
        p, n = w._of(path).path, w._of(path).node
        w.op("utime", p)
    else:
        p = w._at(path, dir_fd)
        if p is None:
            _deny(path)
        w.op("utime", p)
        n = w.lookup(p, follow=follow_symlinks)
    if ns is not None:
        n.atime, n.mtime = ns
    elif times is not None:
        n.atime, n.mtime = int(times[0] * 1e9), int(times[1] * 1e9)
    else:
        n.atime = n.mtime = w.now


def _f_link(w, real, src, dst, *, src_dir_fd=None, dst_dir_fd=None, follow_symlinks=True):
    a, b = w._at(src, src_dir_fd), w._at(dst, dst_dir_fd)
    if a is None or b is None:
        _deny(src)
    w.op("link", a + " -> " + b, mut=True)
    n = w.lookup(a, follow=False)  # as link(2) on Linux
    d, name = w.lookup(b, parent=True)
    if d.kind != "d":
        raise _oserr(errno.ENOTDIR, a, b)
    if name in d.data:
        raise _oserr(errno.EEXIST, a, b)
    if n.kind == "d":
        raise _oserr(errno.EPERM, a, b)
    if d.dev != n.dev:
        raise _oserr(errno.EXDEV, a, b)
    d.data[name] = n
    n.nlink += 1


def _f_symlink(w, real, src, dst, target_is_directory=False, *, dir_fd=None):
    b = w._at(dst, dir_fd)
    if b is None:
        _deny(dst)
    w.op("symlink", b, mut=True)
    d, name = w.lookup(b, parent=True)
    if name in d.data:
        raise _oserr(errno.EEXIST, src, b)
    d.data[name] = w.fs.node("l", os.fspath(src), 0o777, w.now, d.dev)


def _f_readlink(w, real, path, *, dir_fd=None):
    p = w._at(path, dir_fd)
    if p is None:
        return real(path, dir_fd=dir_fd)
    w.op("stat", p)
    n = w.lookup(p, follow=False)
    if n.kind != "l":
        raise _oserr(errno.EINVAL, p)
    return n.data


def _f_statvfs(w, real, path):
    class R:
        pass

    if _isfd(path):
        dev = w._of(path).node.dev
    else:
        p = w._at(path, None)
        if p is None:
            return real(path)
        dev = w.lookup(p).dev
    r = R()
    cap = w.fs.caps.get(dev)
    free = (1 << 40) if cap is None else max(0, cap - w.fs.used[dev])
    r.f_bsize = r.f_frsize = 1
    r.f_blocks = free + w.fs.used[dev]
    r.f_bfree = r.f_bavail = free
    r.f_files = r.f_ffree = r.f_favail = 1 << 20
    r.f_flag, r.f_namemax = 0, 255
    return r


def _f_xlist(w, real, path=None, **kw):
    return []


def _f_xnone(w, real, *a, **kw):
    raise OSError(errno.ENOTSUP, "xattr")


def _f_getcwd(w, real):
    return w.cur.proc.cwd


def _f_getcwdb(w, real):
    return os.fsencode(w.cur.proc.cwd)


def _f_chdir(w, real, path):
    p = w._at(path, None)
    if p is None:
        _deny(path)
    if w.lookup(p).kind != "d":
        raise _oserr(errno.ENOTDIR, p)
    w.cur.proc.cwd = "/" + "/".join(_segs(p))


def _f_getpid(w, real):
    return w.cur.proc.pid


def _f_urandom(w, real, n):
    return w.names.getrandbits(8 * n).to_bytes(n, "big") if n else b""


def _f_umask(w, real, m):
    return 0o022


def _f_kill(w, real, *a, **kw):
    raise SimUnsupported("process control from code under test")


def _f_isatty(w, real, fd):
    return False


OS_FUNCS = {
    "stat": _f_stat, "lstat": _f_lstat, "fstat": _f_fstat, "open": _f_open,
    "close": _f_close, "read": _f_read, "write": _f_write, "pread": _f_pread,
    "pwrite": _f_pwrite, "lseek": _f_lseek, "dup": _f_dup, "fsync": _f_sync,
    "fdatasync": _f_sync, "ftruncate": _f_ftruncate, "truncate": _f_truncate,
    "sendfile": _f_sendfile, "mkdir": _f_mkdir, "rmdir": _f_rmdir,
    "unlink": _f_unlink, "remove": _f_unlink, "rename": _f_rename,
    "replace": _f_rename, "listdir": _f_listdir, "scandir": _f_scandir,
    "access": _f_access, "chmod": _f_chmod, "fchmod": _f_chmod, "chown": _f_chown,
    "utime": _f_utime, "link": _f_link, "symlink": _f_symlink,
    "readlink": _f_readlink, "statvfs": _f_statvfs, "fstatvfs": _f_statvfs,
    "listxattr": _f_xlist, "getxattr": _f_xnone, "setxattr": _f_xnone,
    "removexattr": _f_xnone, "getcwd": _f_getcwd, "getcwdb": _f_getcwdb,
    "chdir": _f_chdir, "getpid": _f_getpid, "urandom": _f_urandom,
    "umask": _f_umask, "fork": _f_kill, "system": _f_kill, "kill": _f_kill,
    "execv": _f_kill, "execve": _f_kill, "_exit": _f_kill, "abort": _f_kill,
    "killpg": _f_kill, "popen": _f_kill, "isatty": _f_isatty,
    "chroot": _f_kill, "mkfifo": _f_kill, "mknod": _f_kill,
}


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = W
    real = _real["io.open"]
    if w is None or w.cur is None:
        return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not _isfd(file):
        file = os.fspath(file)
        p = w._at(file, None)
        if p is None:
            if set(mode) & set("wax+"):
                _deny(file)
            return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
    elif file < FD_BASE:
        return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if w.cur.proc.ended:
        raise SimKilled()
    modes = set(mode)
    if modes - set("axrwb+tU") or len(mode) > len(modes):
        raise ValueError(f"invalid mode: {mode!r}")
    creating, reading, writing = "x" in modes, "r" in modes or "U" in modes, "w" in modes
    appending, updating, binary = "a" in modes, "+" in modes, "b" in modes
    if creating + reading + writing + appending != 1:
        raise ValueError("must have exactly one of create/read/write/append mode")
    flags = os.O_CLOEXEC
    if updating:
        flags |= os.O_RDWR
    elif reading:
        flags |= os.O_RDONLY
    else:
        flags |= os.O_WRONLY
    if creating:
        flags |= os.O_CREAT | os.O_EXCL
    if writing:
        flags |= os.O_CREAT | os.O_TRUNC
    if appending:
        flags |= os.O_CREAT | os.O_APPEND
    if _isfd(file):
        fd = file
    elif opener is not None:
        fd = opener(file, flags)
    else:
        fd = w.s_open(p, flags, 0o666)
    of = w._of(fd)
    if of.node.kind == "d":
        w.s_close(fd)
        raise _oserr(errno.EISDIR, file)
    raw = SimRaw(w, fd, of, file, mode.replace("t", ""), closefd)
    if appending:
        of.pos = len(of.node.data)
    result = raw
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
    else:
        size = buffering if buffering > 1 else 8192
        if updating:
            buf = io.BufferedRandom(raw, size)
        elif reading:
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        result = buf
        if not binary:
            result = io.TextIOWrapper(
                buf, encoding if encoding not in (None, "locale") else w.cur.proc.encoding, errors, newline, buffering == 1
            )
            result.mode = mode
    w.cur.proc.files.append(result)
    return result


class SimNames:
    """tempfile's random name sequence, drawn from the world."""

    def __iter__(self):
        return self

    def __next__(self):
        c = "abcdefghijklmnopqrstuvwxyz0123456789_"
        if _active():
            return "".join(W.names.choice(c) for _ in range(8))
        return "".join(random.choice(c) for _ in range(8))


def install():
    """Put the seams in place (once per interpreter, before hyperstate is imported)."""
    global _installed
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True
    for name, f in OS_FUNCS.items():
        if not hasattr(os, name):
            continue
        real = getattr(os, name)
        wrapped = _paths(name, f, None)
        setattr(os, name, wrapped)
        for supp in ("supports_dir_fd", "supports_fd", "supports_follow_symlinks", "supports_effective_ids"):
            s = getattr(os, supp, None)
            if s is not None and real in s:
                s.add(wrapped)
        if hasattr(pathlib._NormalAccessor, name) and name in (
            "stat", "lstat", "open", "listdir", "scandir", "chmod", "mkdir",
            "unlink", "rmdir", "rename", "replace", "utime",
        ):
            setattr(pathlib._NormalAccessor, name, staticmethod(wrapped))
    if hasattr(pathlib._NormalAccessor, "link_to"):
        pathlib._NormalAccessor.link_to = staticmethod(os.link)
    # functions that keep the real ones as default arguments
    close = tempfile._TemporaryFileCloser.close
    close.__defaults__ = tuple(getattr(os, d.__name__) if getattr(d, "__name__", None) in OS_FUNCS else d for d in close.__defaults__ or ())
    _real["io.open"] = io.open
    builtins.open = sim_open
    io.open = sim_open
    # clocks
    def clock(name, conv):
        real = getattr(time, name)
        _real["time." + name] = real

        def f(*a):
            if not _active() or a:
                return real(*a)
            W.now += 1000
            return conv(W.now)

        f.__name__ = name
        setattr(time, name, f)

    fin_init = weakref.finalize.__init__

    def init(self, obj, *a, **kw):
        fin_init(self, obj, *a, **kw)
        if _active():
            W.cur.proc.fins.append((self, obj))

    weakref.finalize.__init__ = init

    clock("time", lambda n: n / 1e9)
    clock("time_ns", lambda n: n)
    for mono in ("monotonic", "perf_counter", "process_time"):
        clock(mono, lambda n: (n - EPOCH) / 1e9)
        clock(mono + "_ns", lambda n: n - EPOCH)
    real_gm, real_loc = time.gmtime, time.localtime
    time.gmtime = lambda s=None: real_gm(time.time() if s is None and _active() else s)
    time.localtime = lambda s=None: real_gm(time.time() if s is None else s) if _active() else real_loc(s)
    real_sleep = time.sleep
    _real["time.sleep"] = real_sleep

    def sleep(s):
        if not _active():
            return real_sleep(s)
        W.now += int(s * 1e9)
        if W.cur.go is not None:
            W.op("sleep", "")

    time.sleep = sleep
    # randomness
    real_ur = random._urandom
    random._urandom = lambda n: os.urandom(n) if _active() else real_ur(n)
    uuid._node = 0x0242AC110002
    uuid._generate_time_safe = None
    uuid._UuidCreate = None
    # temporary names
    tempfile._name_sequence = SimNames()
    tempfile.tempdir = SIM_ROOT + "/tmp"
    tempfile._sanitize_params.__globals__["_get_candidate_names"] = lambda: tempfile._name_sequence
    # locks
    for nm, re_ in (("Lock", False), ("RLock", True)):
        real = getattr(threading, nm)
        _real["threading." + nm] = real

        def factory(*a, _real_lock=real, _re=re_, **kw):
            if _force_sim_locks or _active():
                return SimLock(_re)
            return _real_lock(*a, **kw)

        setattr(threading, nm, factory)
    import pyron

    real_load, real_loads = pyron.load, pyron.loads

    def load(path, preserve_structs=False, preserve_class_names=False, print_errors=False, **kw):
        if not _active():
            return real_load(path, preserve_structs=preserve_structs, preserve_class_names=preserve_class_names, **kw)
        with sim_open(str(path), "rb") as f:
            text = f.read().decode("utf-8")
        return pyron.loads(text, preserve_structs=preserve_structs, preserve_class_names=preserve_class_names, print_errors=False)

    pyron.load = load


class _Points(ast.NodeTransformer):
    """Puts a call of __dst_line__() before every statement of every function."""

    def __init__(self):
        self.depth = 0

    def block(self, stmts, first=0):
        out = list(stmts[:first])
        for s in stmts[first:]:
            if not isinstance(s, (ast.Global, ast.Nonlocal, ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                c = ast.Expr(ast.Call(ast.Name("__dst_line__", ast.Load()), [], []))
                out.append(ast.fix_missing_locations(ast.copy_location(c, s)))
            out.append(s)
        return out

    def generic_visit(self, node):
        fn = isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef))
        cl = isinstance(node, ast.ClassDef)
        was = self.depth
        if fn:
            self.depth += 1
        elif cl:
            self.depth = 0
        super().generic_visit(node)
        if self.depth:
            for f in ("body", "orelse", "finalbody"):
                v = getattr(node, f, None)
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt) and not cl:
                    first = 1 if fn and f == "body" and isinstance(v[0], ast.Expr) and isinstance(v[0].value, ast.Constant) and isinstance(v[0].value.value, str) else 0
                    setattr(node, f, self.block(v, first))
        self.depth = was
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = ast.parse(self.get_data(path), path)
        return compile(_Points().visit(tree), path, "exec", dont_inherit=True)


class _Finder:
    """Loads hyperstate's modules from the working tree, with scheduling points between statements."""

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if name != "hyperstate" and not name.startswith("hyperstate."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


def _line():
    w = W
    if w is not None and w.cur is not None and w.cur.lines:
        w.sched_point(w.cur)


def import_hyperstate(repo):
    """Import the code under test with simulated locks."""
    global _force_sim_locks
    builtins.__dst_line__ = _line
    sys.meta_path.insert(0, _Finder)
    if repo not in sys.path:
        sys.path.insert(0, repo)
    # third-party imports first, so that they keep real locks
    import click, msgpack, numpy, docstring_parser, pyron, argparse, difflib  # noqa
    import venv, pickle  # noqa

    _force_sim_locks = True
    try:
        import hyperstate
        import hyperstate.command
        import hyperstate.schema.schema_checker
        import hyperstate.schema.rewrite_rule
    finally:
        _force_sim_locks = False
    assert os.path.dirname(os.path.dirname(os.path.abspath(hyperstate.__file__))) == os.path.abspath(repo), hyperstate.__file__
    ModuleState.capture()
    return hyperstate


class ModuleState:
    """A process restart forgets everything in memory: puts the mutable
    module-level, class-level and default-argument state of the code under test
    back to what it was right after import."""

    snap = None
    vars_snap = None

    @classmethod
    def _mods(cls):
        return [m for n, m in sorted(sys.modules.items()) if n == "hyperstate" or n.startswith("hyperstate.")]

    @classmethod
    def capture(cls):
        import copy, types, functools

        cls.snap = []
        cls.funcs = []
        cls.caches = []
        seen = set()

        def cp(v):
            try:
                return copy.deepcopy(v)
            except Exception:
                return copy.copy(v)

        def fn(f):
            if id(f) in seen:
                return
            seen.add(id(f))
            if hasattr(f, "cache_clear"):
                cls.caches.append(f)
            g = getattr(f, "__wrapped__", f)
            if isinstance(g, types.FunctionType):
                if g.__defaults__ and any(isinstance(d, (list, dict, set)) for d in g.__defaults__):
                    cls.funcs.append((g, tuple(g.__defaults__), tuple(cp(d) if isinstance(d, (list, dict, set)) else d for d in g.__defaults__)))
                if g.__kwdefaults__ and any(isinstance(d, (list, dict, set)) for d in g.__kwdefaults__.values()):
                    cls.funcs.append((g, None, {k: cp(d) if isinstance(d, (list, dict, set)) else d for k, d in g.__kwdefaults__.items()}))

        def space(owner, d, klass):
            entry = (owner, dict(d), {})
            for k, v in list(d.items()):
                if k.startswith("__") and k != "__dict__":
                    continue
                if isinstance(v, (dict, list, set, bytearray)) and k not in ("__dataclass_fields__",):
                    entry[2][k] = cp(v)
                elif isinstance(v, (staticmethod, classmethod)):
                    fn(v.__func__)
                elif callable(v):
                    fn(v)
            cls.snap.append(entry)

        for m in cls._mods():
            space(m, vars(m), False)
            for k, v in list(vars(m).items()):
                if isinstance(v, type) and getattr(v, "__module__", "").startswith("hyperstate"):
                    if id(v) not in seen:
                        seen.add(id(v))
                        space(v, vars(v), True)

    @classmethod
    def reset(cls):
        import copy

        for f in cls.caches:
            f.cache_clear()
        for g, dflt, saved in cls.funcs:
            if dflt is not None:
                for cur, s in zip(dflt, saved):
                    _refill(cur, s)
            else:
                for k, s in saved.items():
                    _refill(g.__kwdefaults__[k], s)
        for owner, d, contents in cls.snap:
            cur = vars(owner)
            for k in list(cur):
                if k.startswith("__") or k.startswith("_abc_"):
                    continue
                if k not in d:
                    if owner.__class__.__name__ == "module" and isinstance(cur[k], type(sys)):
                        continue  # submodule or lazily imported module
                    delattr(owner, k)
                elif cur[k] is not d[k]:
                    setattr(owner, k, d[k])
            for k, v in d.items():
                if k not in cur and not k.startswith("__"):
                    setattr(owner, k, v)
            for k, s in contents.items():
                if k in cur and cur[k] != s:
                    _refill(cur[k], s)


    @classmethod
    def save(cls):
        """What the running process changed since import."""
        out = []
        for i, (owner, d, contents) in enumerate(cls.snap or ()):
            cur = vars(owner)
            attrs, conts = {}, {}
            for k, v in list(cur.items()):
                if k.startswith("__") or k.startswith("_abc_"):
                    continue
                if k not in d:
                    if not isinstance(v, type(sys)):
                        attrs[k] = v
                elif v is not d[k]:
                    attrs[k] = v
                elif k in contents and v != contents[k]:
                    conts[k] = v.copy() if hasattr(v, "copy") else v[:]
            gone = [k for k in d if k not in cur and not k.startswith("__")]
            if attrs or conts or gone:
                out.append((i, attrs, conts, gone))
        dfl = []
        for i, (g, dflt, saved) in enumerate(cls.funcs if cls.snap else ()):
            cur = dflt if dflt is not None else [g.__kwdefaults__[k] for k in saved]
            vals = saved if dflt is not None else saved.values()
            for j, (c, s) in enumerate(zip(cur, vals)):
                if isinstance(c, (list, dict, set)) and c != s:
                    dfl.append((c, c.copy()))
        return (out, dfl)

    @classmethod
    def load(cls, saved):
        if cls.snap is None:
            return
        cls.reset()
        if saved is None:
            return
        for i, attrs, conts, gone in saved[0]:
            owner = cls.snap[i][0]
            for k, v in attrs.items():
                setattr(owner, k, v)
            for k, v in conts.items():
                _put(vars(owner)[k], v)
            for k in gone:
                delattr(owner, k)
        for c, v in saved[1]:
            _put(c, v)


def _put(cur, v):
    if isinstance(cur, (list, bytearray)):
        cur[:] = v
    else:
        cur.clear()
        cur.update(v)


def _refill(cur, saved):
    import copy

    if isinstance(cur, (list, bytearray)):
        cur[:] = copy.deepcopy(saved)
    elif isinstance(cur, dict):
        cur.clear()
        cur.update(copy.deepcopy(saved))
    elif isinstance(cur, set):
        cur.clear()
        cur.update(copy.deepcopy(saved))


def set_world(w):
    global W
    W = w


def boot_reset(tmpdir=SIM_ROOT + "/tmp", seed=0):
    ModuleState.reset()
    tempfile.tempdir = tmpdir
    random.seed(seed)


class running:
    """Run harness-driven code as the given task (inline, single process)."""

    def __init__(self, world, task):
        self.w, self.t = world, task

    def __enter__(self):
        self.prev = (W, self.w.cur)
        set_world(self.w)
        self.w.cur = self.t
        return self.t

    def __exit__(self, *a):
        self.w.cur = self.prev[1]
        set_world(self.prev[0])
        return False
