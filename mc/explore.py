"""Deviation-bounded exhaustive exploration (depth-first over recorded choice sequences)."""
import gc

from .world import Divergence


class Chooser(object):
    def __init__(self, prefix=(), expect=None):
        self.prefix = list(prefix)
        self.expect = expect          # [(n, label)] of the recorded run for the prefix
        self.choices = []
        self.points = []              # (n, costs, label)
        self.spent = []               # cost spent before each point
        self.cost = 0

    def choose(self, n, costs, label):
        i = len(self.choices)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n or (self.expect and i < len(self.expect) and self.expect[i] != (n, label)):
                raise Divergence("choice point %d: %r expected %r" % (i, (n, label, c), self.expect and self.expect[i]))
        else:
            c = 0
        self.choices.append(c)
        self.points.append((n, costs, label))
        self.spent.append(self.cost)
        self.cost += costs[c]
        return c


class Stats(object):
    def __init__(self):
        self.executions = 0
        self.nodes = 0          # distinct choice-tree nodes (scheduling states) visited
        self.edges = 0
        self.outcomes = {}
        self.max_points = 0
        self.max_cost = 0
        self.capped = False

    def merge(self, o):
        self.executions += o.executions
        self.nodes += o.nodes
        self.edges += o.edges
        for k, v in o.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        self.max_points = max(self.max_points, o.max_points)
        self.capped = self.capped or o.capped


def explore(run, bound, stats=None, prefix=(), expect=None, max_runs=None, depth_limit=None, on_result=None,
            stop=None, collect=200):
    """run(chooser) -> result.  Visits every execution with at most `bound` deviations that extends `prefix`.
    on_result(result, chooser) is called for each.  Returns stats."""
    stats = stats or Stats()
    stack = [(list(prefix), list(expect) if expect else None)]
    while stack:
        if stop is not None and stop():
            break
        if max_runs is not None and stats.executions >= max_runs:
            stats.capped = True
            break
        pre, exp = stack.pop()
        ch = Chooser(pre, exp)
        res = run(ch)
        if len(ch.choices) < len(pre):
            raise Divergence("execution ended after %d of %d recorded choices" % (len(ch.choices), len(pre)))
        stats.executions += 1
        stats.nodes += len(ch.points) - len(pre) + 1
        stats.edges += len(ch.points) - len(pre) + (1 if pre else 0)
        stats.max_points = max(stats.max_points, len(ch.points))
        if on_result is not None:
            on_result(res, ch)
        sig = [(p[0], p[2]) for p in ch.points]
        lim = len(ch.points) if depth_limit is None else min(len(ch.points), depth_limit)
        for i in range(lim - 1, len(pre) - 1, -1):
            n, costs, label = ch.points[i]
            for alt in range(n - 1, 0, -1):
                if ch.spent[i] + costs[alt] <= bound:
                    stack.append((ch.choices[:i] + [alt], sig[:i + 1]))
        if stats.executions % collect == 0:
            gc.collect()
    return stats


def roots(run, bound, on_result=None, stats=None):
    """run the default execution; return the list of first-level prefixes (to be explored by parallel workers)"""
    stats = stats or Stats()
    ch = Chooser()
    res = run(ch)
    stats.executions += 1
    stats.nodes += len(ch.points) + 1
    stats.edges += len(ch.points)
    stats.max_points = max(stats.max_points, len(ch.points))
    if on_result is not None:
        on_result(res, ch)
    sig = [(p[0], p[2]) for p in ch.points]
    out = []
    for i in range(len(ch.points)):
        n, costs, label = ch.points[i]
        for alt in range(1, n):
            if ch.spent[i] + costs[alt] <= bound:
                out.append((ch.choices[:i] + [alt], sig[:i + 1]))
    return out, stats
