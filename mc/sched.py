"""Scenario exploration for the checks: run a scenario in a World under every schedule / environment choice sequence
within a deviation bound, confirm failures by re-running them, and report to the job context.

A scenario is a function  scn(w, lib, out, *args)  run as the foreground task "main" of a World; it may spawn further
foreground tasks and waits for them itself or leaves that to World.run.  It records what happened in `out` (class Out)
and may set out.after = function(out, w) that judges the finished execution (returns an error text or None).
"""
import json

from . import explore as ex
from . import instr, loader
from .world import World


class Out(object):
    def __init__(self):
        self.errors = []
        self.log = []
        self.after = None
        self.outcome = None
        self.allow = ()            # verdicts that are not errors by themselves
        self.allow_exc = False
        self.w = None

    def fail(self, what):
        self.errors.append(what)

    def expect(self, cond, what):
        if not cond:
            self.errors.append(what)
        return cond


class Scenario(object):
    def __init__(self, fn, bound=(1, 2), trace=True, cap=1, free=True, only=None, max_time=5000.0,
                 max_steps=60000, netpoints=True, groups=24):
        self.fn = fn
        self.bound = bound
        self.trace = trace
        self.cap = cap
        self.free = free
        self.only = only
        self.max_time = max_time
        self.max_steps = max_steps
        self.netpoints = netpoints
        self.groups = groups
        self.name = fn.__name__


def scenario(registry, **kw):
    def deco(fn):
        registry[fn.__name__] = Scenario(fn, **kw)
        return fn
    return deco


def once(scn, args, chooser):
    """one execution; returns (error text or None, outcome key)"""
    if scn.trace:
        instr.install()
    w = World(chooser, trace=False, visit_cap=scn.cap, free_switch=scn.free, max_time=scn.max_time,
              max_steps=scn.max_steps)
    w.want_trace = scn.trace
    w.net.points = scn.netpoints
    w.only = scn.only
    lib = loader.Lib(w.fakes)
    out = Out()
    out.w = w

    def main():
        scn.fn(w, lib, out, *args)
    w.spawn(main, "main")
    v = w.run()
    if v == "diverge":
        return ("DIVERGE", w.detail), None
    err = None
    if v is not None and v not in out.allow:
        err = "%s: %s" % ({"deadlock": "deadlock", "steps": "endless activity", "time": "does not end",
                           "hang": "hangs"}.get(v, v), w.detail)
    if err is None and not out.allow_exc:
        for t in w.tasks:
            if t.exc is not None and not isinstance(t.exc, SystemExit):
                tb = getattr(t.exc, "tb_text", "")
                err = "thread %s ended with %r (%s)" % (t.name, t.exc, " / ".join(
                    l.strip() for l in tb.splitlines() if l.strip().startswith("File"))[-400:])
                break
    if err is None and out.errors:
        err = "; ".join(out.errors[:3])
    if err is None and out.after is not None:
        err = out.after(out, w)
    oc = out.outcome if out.outcome is not None else tuple(map(repr, out.log))
    return err, oc


def _run(ctx, scn, args, ch, what=None):
    """one execution with retry on divergence"""
    for _ in range(3):
        r = once(scn, args, ch)
        if not (isinstance(r[0], tuple) and r[0][0] == "DIVERGE"):
            return r
        ch.choices, ch.points, ch.spent, ch.cost = [], [], [], 0
    return r


class _Skip(Exception):
    pass


def _on(ctx, scn, name, args, r, ch, stats):
    err, oc = r
    if isinstance(err, tuple):
        ctx.notes["diverged"] = ctx.notes.get("diverged", 0) + 1
        ctx.capped = True
        if ctx.notes["diverged"] > 20 and ctx.notes["diverged"] > 0.05 * (stats.executions + 1):
            raise RuntimeError("executions are not reproducible: %s" % (err[1],))
        return
    ctx.trace()
    ctx.outcome(str((name, oc))[:160])
    if stats.executions <= 1:
        ctx.sample({"scenario": name, "args": repr(args), "choices": len(ch.points), "outcome": repr(oc)[:300]})
    if err:
        choices = list(ch.choices)
        again = 0
        for _ in range(2):
            c2 = ex.Chooser(choices)
            e2, _o = once(scn, args, c2)
            if e2 and not isinstance(e2, tuple):
                again += 1
        if not again:
            raise RuntimeError("failure not reproducible: %s (choices %r)" % (err, choices))
        while choices and choices[-1] == 0:
            choices.pop()
        ctx.fail("%s: %s" % (name, err), {"scenario": name, "args": args, "choices": choices,
                                          "deviations": [(i, c, ch.points[i][2]) for i, c in enumerate(choices) if c]})


def _count(ctx, st):
    ctx.nstates += st.nodes
    ctx.transitions += st.edges
    ctx.notes["max_choice_points"] = max(ctx.notes.get("max_choice_points", 0), st.max_points)
    ctx.notes["executions"] = ctx.notes.get("executions", 0) + st.executions
    ctx.capped = ctx.capped or st.capped


def replay(ctx, registry):
    case = ctx.replay["case"]
    scn = registry[case["scenario"]]
    args = tuple(_tup(a) for a in case["args"])
    err, oc = once(scn, args, ex.Chooser(case["choices"]))
    if err:
        ctx.fail("%s: %s" % (case["scenario"], err), case)


def _tup(x):
    return tuple(_tup(i) for i in x) if isinstance(x, list) else x


def root(ctx, registry, name, args, bound=None, sub="sub"):
    """explore a scenario: the default execution here, its first-level alternatives in spawned jobs"""
    if ctx.replay:
        return replay(ctx, registry)
    scn = registry[name]
    if bound is None:
        bound = scn.bound[1 if ctx.thorough else 0]
    st = ex.Stats()
    pre, st = ex.roots(lambda ch: _run(ctx, scn, args, ch), bound,
                       on_result=lambda r, ch: _on(ctx, scn, name, args, r, ch, st), stats=st)
    _count(ctx, st)
    n = min(scn.groups, max(1, len(pre) // 4)) if bound > 0 else 1
    if bound <= 1:
        n = min(n, 6)
    for i in range(n):
        part = pre[i::n]
        if part:
            ctx.spawn(sub, name, args, bound, part)


def sub(ctx, registry, name, args, bound, prefixes):
    if ctx.replay:
        return replay(ctx, registry)
    scn = registry[name]
    st = ex.Stats()
    try:
        for p, e in prefixes:
            ex.explore(lambda ch: _run(ctx, scn, args, ch), bound, stats=st, prefix=p, expect=e,
                       on_result=lambda r, ch: _on(ctx, scn, name, args, r, ch, st), stop=ctx.out_of_time)
            if ctx.out_of_time():
                ctx.capped = True
                break
    finally:
        _count(ctx, st)


def full(ctx, registry, name, args, bound=None):
    """explore a scenario completely inside this job (small ones)"""
    if ctx.replay:
        return replay(ctx, registry)
    scn = registry[name]
    if bound is None:
        bound = scn.bound[1 if ctx.thorough else 0]
    st = ex.Stats()
    try:
        ex.explore(lambda ch: _run(ctx, scn, args, ch), bound, stats=st,
                   on_result=lambda r, ch: _on(ctx, scn, name, args, r, ch, st), stop=ctx.out_of_time)
        if ctx.out_of_time():
            ctx.capped = True
    finally:
        _count(ctx, st)
