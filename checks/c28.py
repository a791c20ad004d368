"""C28: WorkerThread runs init, loop and exit exactly as specified, in every interleaving of controllers and worker."""
from mc import sched

BOUNDS = ("programs of start/stop (one or two controlling threads, up to 3 operations) x init none/ok/slow/raises/returning any kind of value x main "
          "sleeping/raising at the 1st or 3rd round/returning any kind of value x exit none/ok/slow; preemption bound quick 2, thorough 4 (one less for two controllers), "
          "scheduling points at every shared access; one long-running worker over thousands of rounds; init, main and exit functions of up to 400 s each")
REG = {}


# what a main function returns means nothing
RETS = {"none": None, "false": False, "true": True, "zero": 0, "text": "stop"}


class Boom(Exception):
    pass


@sched.scenario(REG, bound=(2, 4), cap=2)
def worker(w, lib, out, progs, init, main, exit_):
    ev = out.log
    state = {"n": 0, "exited": 0, "stop": None}

    def f_init(a, b):
        ev.append("init")
        if (a, b) != (11, "x"):
            out.fail("init called with %r" % ((a, b),))
        if init == "slow":
            w.sleep(0.3)
        if init == "raise":
            raise Boom("init")
        return RETS.get(init)

    def f_main(a, b):
        state["n"] += 1
        if state["stop"] is not None and w.now > state["stop"]:
            out.fail("a round of the main function began %.2f s after stop was called: %r" % (w.now - state["stop"], ev))
        if state["n"] <= 3:
            ev.append("main")
        if (a, b) != (11, "x"):
            out.fail("main called with %r" % ((a, b),))
        if main in RETS:
            w.sleep(0.1)
            return RETS[main]
        if main == "raise1" or (main == "raise3" and state["n"] == 3):
            raise Boom("main")
        w.sleep(0.1)

    def f_exit(a, b):
        ev.append("exit")
        if (a, b) != (11, "x"):
            out.fail("exit called with %r" % ((a, b),))
        if exit_ == "slow":
            w.sleep(0.5)
        state["exited"] += 1
        ev.append("exited")
    wk = lib.utils.WorkerThread(f_main, args=(11, "x"), init_fct=f_init if init != "none" else None,
                                exit_fct=f_exit if exit_ != "none" else None)
    w.trace = w.want_trace
    starts = sum(p.count("start") for p in progs)
    done = [0]

    started = []

    def controller(i, prog):
        for op in prog:
            if op == "start":
                wk.start()
                started.append(1)
            elif op == "stop":
                after_start = bool(started)     # the start had returned before this stop began
                if after_start and state["stop"] is None:
                    state["stop"] = w.now
                wk.stop()
                ev.append("stopped")
                if after_start:
                    if exit_ != "none" and state["exited"] != 1:
                        out.fail("stop returned before the exit function had finished: %r" % ev)
                    m = state["n"]
                    w.sleep(0.35)
                    if state["n"] != m:
                        out.fail("main function called after stop returned")
            elif op == "wait":
                w.sleep(0.25)
        done[0] += 1
    ts = [w.spawn(lambda i=i, p=p: controller(i, p), "C%d" % i) for i, p in enumerate(progs)]
    w.block(lambda: done[0] == len(progs) or any(t.exc for t in ts), 60.0)
    out.expect(done[0] == len(progs), "a controlling thread does not come back: %r" % ev)
    if any("stop" in p for p in progs):
        # however they raced, one more stop ends it
        wk.stop()
        n = state["n"]
        w.sleep(0.5)
        out.expect(state["n"] == n, "the worker still runs after stop")
    else:
        w.sleep(3.0)

    def after(out, w):
        calls = [e for e in ev if e != "stopped"]
        want_init = ["init"] if init != "none" and starts else []
        ended = any("stop" in p for p in progs) or main.startswith("raise") or init == "raise"
        want_exit = ["exit", "exited"] if exit_ != "none" and starts and ended else []
        mains = calls[len(want_init):len(calls) - len(want_exit)]
        if calls[:len(want_init)] != want_init or (want_exit and calls[-2:] != want_exit) or any(m != "main" for m in mains):
            return "functions called as %r" % (calls,)
        if init == "raise" and mains:
            return "main called after init raised: %r" % (calls,)
        if starts and init != "raise" and not any("stop" in p for p in progs) and not mains:
            return "main function never called: %r" % (calls,)
        if main == "raise1" and len(mains) > 1:
            return "main called again after it raised"
        if not any("stop" in p for p in progs) and main in ("sleep",) + tuple(RETS) and init != "raise" and state["n"] < 5:
            return "main called only %d times in three seconds" % state["n"]
        live = [t for t in w.tasks if t.thread_obj is not None and not t.done and t.name not in ("main",) and not t.name.startswith("C")]
        if ended and live:
            return "the worker thread is still there"
        out.outcome = tuple(ev)
    out.after = after


PROGS = [
    (("start", "stop"),), (("start", "wait", "stop"),), (("stop", "start", "stop"),), (("start", "stop", "stop"),),
    (("start",),), (("stop",),), (("start", "stop"), ("stop",)), (("start", "wait", "stop"), ("stop",)),
    (("start",), ("stop", "stop")), (("start", "wait", "stop"), ("wait", "stop")), (("stop", "stop"),),
]


@sched.scenario(REG, bound=(0, 0), cap=1)
def long_run(w, lib, out, every, rounds):
    """thousands of rounds, then stop"""
    n, ended = [0], []

    def main(*args):
        if args:
            out.fail("main called with %r" % (args,))
        n[0] += 1
        w.sleep(every)
    wk = lib.utils.WorkerThread(main, exit_fct=lambda: ended.append(n[0]))
    wk.start()
    w.sleep(every * (rounds + 0.3))
    out.expect(n[0] >= rounds * 0.9, "main was called only %d times in %g s (every %g s)" % (n[0], every * rounds, every))
    wk.stop()
    out.expect(ended == [n[0]], "exit ran %r" % (ended,))
    m = n[0]
    w.sleep(10 * every)
    out.expect(n[0] == m, "main was called after stop")
    out.outcome = ("long", every, rounds)


@sched.scenario(REG, bound=(0, 0), cap=1)
def long_parts(w, lib, out, init, main, exit_, wait):
    """init, main and exit functions of any duration: stop waits for them"""
    log = []

    def part(name, dur):
        def f():
            log.append(name)
            w.sleep(dur)
            log.append(name + " done")
        return f
    wk = lib.utils.WorkerThread(part("main", main), init_fct=part("init", init), exit_fct=part("exit", exit_))
    wk.start()
    w.sleep(wait)
    t = w.now
    wk.stop()
    got = list(log)
    w.sleep(3 * main + init + exit_ + 5)
    out.expect(log == got, "after stop returned: %r" % (log[len(got):],))
    out.expect(got[-2:] == ["exit", "exit done"] and got.count("exit") == got.count("init") == 1, "stop returned after %.1f s: %r" % (w.now - t, got[-4:]))
    rounds = int((wait - init) // main) + 1 if wait > init else 0
    out.expect(abs(got.count("main") - rounds) <= 1 and got.count("main") == got.count("main done"), "main ran %d times instead of %d" % (got.count("main"), rounds))
    out.outcome = (init, main, exit_, wait)


def jobs(tier, seed):
    js = [("top", ("long_run", a)) for a in ((0.001, 3000), (1.0, 2000), (30.0, 50))]
    durs = (0.01, 1.5, 7.0, 45.0, 400.0)
    for i, m, x in [(d, 0.1, 0.1) for d in durs] + [(0.0, d, 0.1) for d in durs] + [(0.0, 0.1, d) for d in durs] + [(50.0, 70.0, 90.0)]:
        for wait in (0.3 * (i + m), i + 2.4 * m):
            js.append(("top", ("long_parts", (i, m, x, wait))))
    for progs in ((("start",),), (("start", "wait", "stop"),)):
        for main in sorted(RETS):
            js.append(("top", ("worker", (progs, "ok", main, "ok"))))
        for init in sorted(set(RETS) - {"none"}):
            js.append(("top", ("worker", (progs, init, "sleep", "ok"))))
            js.append(("top", ("worker", (progs, init, "raise3", "ok"))))
    for progs in PROGS:
        for init in ("none", "ok", "slow", "raise"):
            for main in ("sleep", "raise1", "raise3"):
                for ex in ("none", "ok", "slow"):
                    js.append(("top", ("worker", (progs, init, main, ex))))
    return js


def top(ctx, name, args):
    b = REG[name].bound[1 if ctx.thorough else 0]
    if name == "worker" and len(args[0]) > 1:
        b -= 1
    sched.full(ctx, REG, name, args, b)
