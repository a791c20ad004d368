"""C33: what is marked thread-safe is run by one thread at a time and never stays locked, in every interleaving.

Functions decorated with threadsafe_function, methods decorated with threadsafe_method and the execute method of masters
(a Master subclass whose transport is the check itself) are called by two or three threads; each call returns, raises (an
exception or a KeyboardInterrupt), lasts, calls itself again or calls another one, with threadsafe left out, True or False.
"""
import itertools

from mc import sched

BOUNDS = ("decorated functions, decorated methods of two objects, and masters x programs of two threads with up to 2 calls and of "
          "three threads with one call x 10 behaviours of the body (return, raise, raise KeyboardInterrupt / SystemExit, last 1 s or 700 s, call "
          "itself 1 to 3 deep, call itself and raise, call the other one) x threadsafe {left out, True, False}; preemption bound "
          "quick 2, thorough 3 (one less for three threads, for longer programs, and with anything else than calls that return, raise or nest), a scheduling point at every shared access of the library and inside the body; all combinations of "
          "positional and keyword arguments and of returned values in one thread")
REG = {}


class Boom(Exception):
    pass


LASTS = {"last": 1.0, "age": 700.0}
ENDS = {"raise": Boom, "key": KeyboardInterrupt, "exit": SystemExit}


def locks(lib):
    """__getattr__ of an object which has a lock, whatever its name"""
    def get(self, name):
        if "lock" not in name.lower() or name.startswith("__"):
            raise AttributeError(name)
        return self.__dict__.setdefault(name, lib.utils.threading.RLock())
    return get


class Rig(object):
    """two things that are marked thread-safe"""

    def __init__(self, w, lib, out, kind):
        self.w, self.lib, self.out, self.kind = w, lib, out, kind
        self.inside = [[], []]          # tasks inside of each, by threadsafe calls
        self.calls = 0
        self.make()

    def make(self):
        lib, rig = self.lib, self
        if self.kind == "function":
            def mk(t):
                @lib.utils.threadsafe_function
                def f(*a, **k):
                    return rig.body(t, *a, **k)
                return f
            self.fn = [mk(0), mk(1)]
        elif self.kind == "method":
            class Obj(object):
                def __init__(self, t):
                    self.t = t

                __getattr__ = locks(lib)

                @lib.utils.threadsafe_method
                def run(self, *a, **k):
                    return rig.body(self.t, *a, **k)

                @lib.utils.threadsafe_method
                def other(self, *a, **k):
                    return rig.body(self.t, *a, **k)
            o = [Obj(0), Obj(1)]
            self.fn = [o[0].run, o[1].run]
            self.other = [o[0].other, o[1].other]
        else:
            class Q(lib.modbus.Query):
                def build_request(self, pdu, slave):
                    return pdu

                def parse_response(self, response):
                    return response

            class M(lib.modbus.Master):
                def __init__(self, t):
                    lib.modbus.Master.__init__(self, 5.0)
                    self.t = t

                def _do_open(self):
                    pass

                def _do_close(self):
                    pass

                def _make_query(self):
                    return Q()

                def _send(self, buf):
                    cur = rig.cur()
                    if rig.args[cur]:
                        a, k = rig.args[cur].pop()
                        rig.res[cur].append(rig.body(self.t, *a, **k))

                def _recv(self, expected_length=-1):
                    return b"\x03\x02\x12\x34"
            self.m = [M(0), M(1)]
            self.args, self.res = {}, {}
            self.fn = [lambda *a, **k: self.master(0, *a, **k), lambda *a, **k: self.master(1, *a, **k)]

    def cur(self):
        from mc.world import current
        return current()[1].name

    def master(self, t, *a, **k):
        ts = {"threadsafe": k.pop("threadsafe")} if "threadsafe" in k else {}
        cur = self.cur()
        self.args.setdefault(cur, []).append((a, k))
        self.res.setdefault(cur, [])
        try:
            got = self.m[t].execute(1, 3, 0, 1, **ts)
        except BaseException:
            self.args[cur][:] = []
            raise
        if tuple(got) != (0x1234,):
            self.out.fail("the master returned %r" % (got,))
        return self.res[cur].pop()

    def body(self, t, how, safe, depth, token, **kw):
        """what the decorated function does; safe: it was called with the lock"""
        if kw != {"word": token}:
            self.out.fail("called with the keyword arguments %r" % (kw,))
        self.calls += 1
        me = self.cur()
        ins = self.inside[t]
        if safe:
            if any(x != me for x in ins):
                self.out.fail("%s is inside while %s is" % (me, ins))
            ins.append(me)
        try:
            self.w.point()
            if how in LASTS:
                self.w.sleep(LASTS[how])
            if how in ("nest", "nest3", "nest-raise") and depth > 0:
                try:
                    self.call(t, "raise" if how == "nest-raise" else how, None, depth - 1, token)
                except Boom:
                    if how != "nest-raise":
                        raise
                self.w.point()
            if how == "cross" and t == 0:
                self.call(1, "ok", None, 0, token)
            if how in ENDS:
                e = ENDS[how]("end")
                self.ends = getattr(self, "ends", {})
                self.ends[me] = e
                raise e
            self.w.point()
            if safe and any(x != me for x in ins):
                self.out.fail("%s came in while %s was inside" % (ins, me))
        finally:
            if safe:
                ins.remove(me)
        return (token, how)

    def call(self, t, how, mode, depth, token):
        kw = {} if mode is None else {"threadsafe": mode}
        try:
            r = self.fn[t](how, mode is not False, depth, token, word=token, **kw)
        except BaseException as e:      # noqa
            if how in ENDS and e is self.ends.get(self.cur()):
                if depth == 0 and how == "raise":
                    raise
                return None
            raise
        if how in ENDS:
            self.out.fail("the call returned %r instead of raising" % (r,))
        elif r != (token, how):
            self.out.fail("the call returned %r instead of %r" % (r, (token, how)))
        return r


def plain(progs):
    return sum(map(len, progs)) == 2 and all(h in ("ok", "raise", "nest", "key") and m is None and t == 0 for q in progs for t, h, m in q)


DEPTH = {"nest": 1, "nest3": 3, "nest-raise": 1}


@sched.scenario(REG, bound=(2, 3), cap=2)
def crowd(w, lib, out, kind, progs):
    if kind == "method" and not hasattr(lib.utils, "threadsafe_method"):
        return
    rig = Rig(w, lib, out, kind)
    if kind == "master" and not plain(progs):
        w.only = ("utils",)     # (the rest of a call is C16's)
    w.trace = w.want_trace
    done, spent = [0], {}

    def run(i, prog):
        for j, (t, how, mode) in enumerate(prog):
            t0 = w.now
            try:
                rig.call(t, how, mode, DEPTH.get(how, 0), (i, j))
            except Boom:
                if how != "raise":
                    raise
            spent[i, j] = w.now - t0
        done[0] += 1
    ts = [w.spawn(lambda i=i, p=p: run(i, p), "T%d" % i) for i, p in enumerate(progs)]
    w.block(lambda: done[0] == len(progs) or any(x.exc for x in ts), 60.0 if not any(h == "age" for q in progs for t, h, m in q) else 1700.0)
    if any(x.exc for x in ts):
        return
    if not out.expect(done[0] == len(progs), "a call never comes back"):
        return
    # nobody waits for a thread which uses something else, or which does not lock
    for i, p in enumerate(progs):
        for j, (t, how, mode) in enumerate(p):
            if how in LASTS or how == "cross" or (how.startswith("nest") and mode is False):
                continue            # (the calls made by the body lock)
            waits = mode is not False and any(h in LASTS and m is not False and t2 == t or h == "cross"
                                              for i2, q in enumerate(progs) if i2 != i for t2, h, m in q)
            if not waits:
                out.expect(spent[i, j] < 0.5, "call %r waited %.1f s for another thread" % ((t, how, mode), spent[i, j]))
    # everything is free again
    for t in (0, 1):
        ok = []
        z = w.spawn(lambda: (rig.call(t, "ok", None, 0, "end"), ok.append(1)), "Z%d" % t)
        w.block(lambda: ok or z.exc, 5.0)
        out.expect(ok, "it stays locked after %r" % (progs,))
    out.outcome = (kind, tuple(sorted((k, round(v, 1)) for k, v in spent.items())))


def top(ctx, name, args, less=0):
    sched.full(ctx, REG, name, args, REG[name].bound[1 if ctx.thorough else 0] - less)


@sched.scenario(REG, bound=(0, 0), cap=1)
def arguments(w, lib, out, kind):
    """every way of passing arguments and every kind of result, in one thread"""
    if kind == "method" and not hasattr(lib.utils, "threadsafe_method"):
        return
    seen = []
    results = [None, 0, 1, False, True, "", "x", (), [], {}, b"", 1.5, object(), (1, 2), lambda: 1, ValueError("a value"), StopIteration()]

    def target(*a, **k):
        seen.append((a, k))
        return target.ret
    if kind == "function":
        f = lib.utils.threadsafe_function(target)
    else:
        class Obj(object):
            __getattr__ = locks(lib)

            @lib.utils.threadsafe_method
            def run(self, *a, **k):
                return target(*a, **k)
        f = Obj().run
    n = 0
    for npos in range(4):
        for names in itertools.chain.from_iterable(itertools.combinations(("a", "b", "c"), r) for r in range(4)):
            for mode in ((), (True,), (False,), (1,), (0,)):
                for ret in results:
                    kw = dict((x, object()) for x in names)
                    pos = tuple(object() for _ in range(npos))
                    target.ret = ret
                    got = f(*pos, **dict(kw, **({"threadsafe": mode[0]} if mode else {})))
                    n += 1
                    if got is not ret or seen.pop() != (pos, kw) or seen:
                        out.fail("%d arguments, keywords %r, threadsafe %r: called with something else or returned %r instead of %r" % (
                            npos, names, mode, got, ret))
                        return
    for exc in (Boom("x"), ValueError(), KeyError("k"), OSError(5, "x"), KeyboardInterrupt(), SystemExit(3), GeneratorExit(), StopIteration(1),
                lib.modbus.ModbusError(3), AssertionError()):
        def bad(*a, **k):
            raise exc
        if kind == "function":
            f = lib.utils.threadsafe_function(bad)
        else:
            class Obj2(object):
                __getattr__ = locks(lib)

                @lib.utils.threadsafe_method
                def run(self, *a, **k):
                    return bad(*a, **k)
            f = Obj2().run
        for mode in ({}, {"threadsafe": True}, {"threadsafe": False}):
            try:
                f(**mode)
                out.fail("%r was swallowed" % exc)
            except BaseException as e:  # noqa
                out.expect(e is exc, "raised %r instead of %r" % (e, exc))
            ok = []
            z = w.spawn(lambda: (_call(f), ok.append(1)), "Z")
            w.block(lambda: ok or z.done, 5.0)
            out.expect(ok, "it stays locked after %r" % exc)
    out.outcome = (kind, n)


def _call(f):
    try:
        f()
    except BaseException:   # noqa
        pass


HOWS = ("ok", "raise", "key", "exit", "last", "nest", "nest3", "nest-raise", "cross")
MODES = (None, True, False)


def programs():
    """programs of the threads, without those which only differ by a symmetry"""
    out = []
    firsts = [(0, h, m) for h in HOWS for m in (MODES if h in ("ok", "raise") else (None, False))]
    seconds = [(t, h, m) for t in (0, 1) for h in ("ok", "raise", "key", "last", "nest") for m in (None, False)]
    for a in firsts:
        for b in seconds:
            if a[1] == "cross" and b[0] == 1 and b[1] in ("last",):
                continue
            out.append(((a,), (b,)))
    for b in ((0, "ok", None), (0, "raise", None), (1, "ok", None), (0, "ok", False), (0, "age", None)):
        out.append((((0, "age", None),), (b,)))
    for a in ((0, "raise", None), (0, "nest-raise", None), (0, "key", None), (0, "nest", None), (0, "raise", False), (0, "nest", False)):
        for b in ((0, "ok", None), (1, "ok", None), (0, "last", None)):
            for c in ((0, "ok", None), (0, "nest3", None), (1, "raise", None)):
                out.append(((a, b), (c,)))
                out.append(((a, b), (c, (0, "ok", None))))
    return out


def jobs(tier, seed):
    js = [("top", ("arguments", (k,))) for k in ("function", "method")]
    for kind in ("function", "method", "master"):
        ps = programs()
        for p in ps:
            if kind == "method" and any(h in ("exit", "nest3", "cross", "last") or h == "age" and m is False for q in p for t, h, m in q):
                continue
            js.append(("top", ("crowd", (kind, p), 0 if plain(p) else 1)))
        for a, b, c in itertools.combinations_with_replacement(((0, "ok", None), (0, "raise", None), (0, "nest", None), (0, "key", None),
                                                                (1, "ok", None), (0, "ok", False)), 3):
            js.append(("top", ("crowd", (kind, ((a,), (b,), (c,))), 1)))
    return js
