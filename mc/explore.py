"""Deviation-bounded stateless exploration of deterministic executions.

``run(chooser)`` executes the system once, asking ``chooser.choose(label, n)`` at every
point where the environment has a choice.  Choice 0 is the default answer; any other
costs one deviation (unless ``costs`` says otherwise).  ``explore`` enumerates every
execution with at most ``bound`` deviations, replaying each prefix and treating a
divergence while replaying as a hard error.
"""
from __future__ import annotations


class Divergence(Exception):
    pass


class Chooser:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.points: list[tuple[str, int, tuple]] = []
        self.choices: list[int] = []
        self.cost = 0

    def choose(self, label: str, n: int, costs=None) -> int:
        i = len(self.points)
        if costs is None:
            costs = (0,) + (1,) * (n - 1)
        self.points.append((label, n, tuple(costs)))
        if i < len(self.prefix):
            lab, c = self.prefix[i]
            if lab != label or c >= n:
                raise Divergence(f"replay diverged at point {i}: recorded {lab!r}/{c}, now {label!r}/{n}")
        else:
            c = 0
        self.choices.append(c)
        self.cost += costs[c]
        return c

    def trace(self):
        return [(p[0], c) for p, c in zip(self.points, self.choices)]

    def deviations(self):
        return [(p[0], c) for p, c in zip(self.points, self.choices) if c]


def children(ch: Chooser, start: int, bound: int):
    """Prefixes one deviation beyond this execution, branching at points >= start."""
    out = []
    cost = 0
    for i, (lab, n, costs) in enumerate(ch.points):
        if i >= start:
            for alt in range(n):
                if alt == ch.choices[i]:
                    continue
                if cost + costs[alt] <= bound:
                    out.append([(p[0], c) for p, c in zip(ch.points[:i], ch.choices[:i])] + [(lab, alt)])
        cost += costs[ch.choices[i]]
    return out


def explore(run, bound: int, tally, on_exec, shard=(0, 1), cap: int | None = None):
    """DFS over all executions with <= bound deviations belonging to this shard.

    Sharding: the root execution is run by every shard (reported by shard 0 only), its
    children are dealt round-robin.
    Returns False if the cap was hit.
    """
    idx, n = shard
    root = Chooser()
    res = run(root)
    if idx == 0:
        on_exec(root, res)
        again = Chooser(root.trace())
        res2 = run(again)
        if again.trace() != root.trace() or repr(res2) != repr(res):
            raise Divergence("two runs of the same schedule differ")
    stack = [(p, len(p)) for j, p in enumerate(children(root, 0, bound)) if j % n == idx]
    done = 0
    while stack:
        prefix, start = stack.pop()
        ch = Chooser(prefix)
        res = run(ch)
        on_exec(ch, res)
        done += 1
        if cap is not None and done >= cap:
            return False
        if tally.full:
            return False
        stack.extend((p, len(p)) for p in children(ch, start, bound))
    return True
