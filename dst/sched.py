"""Seeded schedulers for runs with several tasks."""
import random


def make(kind, seed, ntasks, horizon=400):
    """strategy(g, current task or None, runnable tasks) -> next task"""
    r = random.Random(f"sched/{kind}/{seed}")
    if kind == "pct":
        prio = list(range(ntasks))
        r.shuffle(prio)
        depth = r.randint(1, 6)
        points = {r.randint(0, horizon) for _ in range(depth)}
        low = [0]

        def pct(g, t, rs):
            if t is not None and g in points:
                low[0] -= 1
                prio[t.tid] = low[0]
            return max(rs, key=lambda x: prio[x.tid])

        return pct
    p = {"calm": 0.02, "mid": 0.1, "wild": 0.4}[kind]
    burst = [0]

    def rnd(g, t, rs):
        if t is None or t not in rs:
            return rs[r.randrange(len(rs))]
        if kind == "mid":
            # stretches of quiet and of thrashing
            if burst[0] > 0:
                burst[0] -= 1
                return rs[r.randrange(len(rs))]
            if r.random() < 0.04:
                burst[0] = r.randint(1, 12)
            return t
        return rs[r.randrange(len(rs))] if r.random() < p else t

    return rnd


KINDS = ("calm", "mid", "wild", "pct", "pct")
