"""Shared pieces of the simulation engines."""
import hashlib


class Viol(BaseException):
    """A property violation (BaseException: the code under test must not catch it)."""

    def __init__(self, tags, what, detail=""):
        super().__init__(what)
        self.tags, self.what, self.detail = frozenset(tags), what, detail


class Stop(BaseException):
    """The run cannot go on (it left what this property speaks about)."""


class Result:
    """What one simulated run did."""

    def __init__(self):
        self.viol = None  # (what, detail)
        self.other = []  # violations of properties this check does not decide
        self.known = []  # known findings met
        self.fired = {}  # fault kind -> count
        self.sim_ns = 0
        self.events = 0
        self.probes = 0
        self.steps = 0
        self.boots = 0
        self.states = set()
        self.hash = ""
        self.nontrivial = False
        self.probe_idx = None
        self.interleaving = None
        self.notes = {}
        self.counts = {}  # rare-condition probes

    def hit(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def absorb(self, world):
        for f in world.fired:
            k = f"{f[2]}:{f[3]}"
            self.fired[k] = self.fired.get(k, 0) + 1
        self.sim_ns += world.now - world.start
        self.events += world.events


def h8(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p if isinstance(p, bytes) else repr(p).encode("utf-8", "surrogatepass"))
    return h.hexdigest()[:16]


def tree_diff(a, b):
    """(added, removed, changed) relative paths between two h_tree results."""
    added = [p for p in b if p not in a]
    removed = [p for p in a if p not in b]
    changed = [p for p in b if p in a and a[p] != b[p]]
    return added, removed, changed
