"""C21: hooks are called as documented, in order, and can override.

1. Breadth-first search of install / uninstall / call histories of the hook registry against a dictionary of lists.
2. Re-entrant histories: hook functions that install, uninstall or call hooks themselves; threads that do so at the same
   time (linearizability of the registry).
3. Every exchange kind of TCP and RTU servers and of TCP, RTU and RTU-over-TCP masters with recording hooks on every
   documented name: the calls, their order and their arguments are compared with the documented ones.
4. The same exchanges with one hook returning a value: replaced where the value is a request or a response, else unaffected.
"""
import itertools
import struct

from mc import fserial, lin, loader, peer, ref, sched, tcp
from checks.c07 import in_world

BOUNDS = ("registry: every history of install/uninstall/call up to depth 7 (thorough 9) over 2 names x 3 functions, states "
          "merged when the registry model is equal; every re-entrant action of a hook at every position of lists of 3; lists of "
          "up to 346 functions, a value returned at every place; 2 and 3 "
          "threads that install, uninstall and call, preemption bound 2 (thorough 3); 20 "
          "exchanges per server kind and 8 per master kind x every documented hook name x {None, override, junk value, two "
          "functions, uninstalled again}")
NAMES = ("modbus.Master.before_send", "modbus.Server.on_exception")


# ------------------------------------------------------------------ 1. registry
def fns(log):
    def mk(name, ret):
        def f(args):
            log.append((name, args))
            return ret
        f.tag = name
        return f
    return [mk("n", None), mk("v", "value"), mk("z", 0)]


RET = {"n": None, "v": "value", "z": 0}


def ops():
    out = []
    for a in range(2):
        for f in range(3):
            out.append(("install", a, f))
            out.append(("uninstall", a, f))
        out.append(("clear", a, None))
        out.append(("call", a, None))
    return out


def model_step(st, op):
    """st: tuple of 2 (known, tuple of fn indexes)"""
    k, a, f = op
    st = [list(x) for x in st]
    if k == "install":
        st[a].append(f)
    elif k == "uninstall":
        if f in st[a]:
            st[a].remove(f)
    elif k == "clear":
        st[a] = []
    return tuple(tuple(x) for x in st)


def apply(h, fs, log, op):
    k, a, f = op
    try:
        if k == "install":
            h.install_hook(NAMES[a], fs[f])
        elif k == "uninstall":
            h.uninstall_hook(NAMES[a], fs[f])
        elif k == "clear":
            h.uninstall_hook(NAMES[a])
        else:
            return ("ret", h.call_hooks(NAMES[a], (a, 7)))
    except Exception as e:  # noqa
        return ("exc", e)
    return None


def verify(h, log, st, hist):
    for a in range(2):
        del log[:]
        try:
            r = h.call_hooks(NAMES[a], (a, "x"))
        except Exception as e:  # noqa
            return "after %r: calling %s raised %r" % (hist, NAMES[a], e)
        want, ret = [], None
        for f in st[a]:
            n = "nvz"[f]
            want.append((n, (a, "x")))
            if RET[n] is not None:
                ret = RET[n]
                break
        if log != want or r != ret or type(r) is not type(ret):
            return "after %r: a call of %s ran %r and returned %r instead of %r and %r" % (hist, NAMES[a], log, r, want, ret)
    return None


def registry(ctx, first):
    depth = 9 if ctx.thorough else 7
    maxlen = 4 if ctx.thorough else 3
    allops = ops()
    seen = set()
    front = [(first,)]
    while front:
        nxt = []
        for hist in front:
            lib = loader.plain()
            log = []
            fs = fns(log)
            st = ((), ())
            bad = None
            for op in hist:
                r = apply(lib.hooks, fs, log, op)
                inst = op[0] != "uninstall" or op[2] in st[op[1]]
                if r is not None and r[0] == "exc" and inst and not (op[0] == "clear" and not st[op[1]]):
                    bad = "%r raised %r" % (op, r[1])
                    break
                st = model_step(st, op)
            ctx.trans()
            ctx.trace()
            bad = bad or verify(lib.hooks, log, st, hist)
            if bad:
                ctx.fail(bad, {"history": hist})
                return
            if st in seen or len(hist) >= depth or max(map(len, st)) > maxlen:
                continue
            seen.add(st)
            ctx.state(st)
            ctx.sample({"history": hist, "registry": st})
            for op in allops:
                nxt.append(hist + (op,))
        front = nxt


def reentrant(ctx):
    """functions of one list of three act on the registry when they are called: every function is called once for this
    event, in order, unless it was uninstalled meanwhile; later events see the new registry"""
    acts = ["none", "self-off", "next-off", "prev-off", "clear", "install-new", "call-other", "call-same-once", "off-on"]
    for n in (1, 2, 3):
        for pos in range(n):
            for act in acts:
                for other in (False, True):
                    lib = loader.plain()
                    h = lib.hooks
                    log, st = [], {"done": False}
                    name = NAMES[0]

                    def make(i):
                        def f(args):
                            log.append((i, args))
                            if i != pos or st["done"]:
                                return None
                            st["done"] = True
                            if act == "self-off":
                                h.uninstall_hook(name, fl[i])
                            elif act == "next-off" and i + 1 < n:
                                h.uninstall_hook(name, fl[i + 1])
                            elif act == "prev-off" and i:
                                h.uninstall_hook(name, fl[i - 1])
                            elif act == "clear":
                                h.uninstall_hook(name)
                            elif act == "install-new":
                                h.install_hook(name, fnew)
                            elif act == "call-other":
                                h.call_hooks(NAMES[1], ("o",))
                            elif act == "call-same-once":
                                h.call_hooks(name, ("again",))
                            elif act == "off-on":
                                h.uninstall_hook(name, fl[i])
                                h.install_hook(name, fl[i])
                        return f
                    fl = [make(i) for i in range(n)]

                    def fnew(args):
                        log.append(("new", args))
                    for f in fl:
                        h.install_hook(name, f)
                    if other:
                        h.install_hook(NAMES[1], lambda a: log.append(("other", a)))
                    case = {"functions": n, "acting": pos, "action": act}
                    with ctx.guard("hook call"):
                        try:
                            h.call_hooks(name, ("e1",))
                        except Exception as e:  # noqa
                            ctx.fail("the call raised %r" % e, case)
                            return
                    got = [i for i, a in log if a == ("e1",)]
                    must = list(range(n))
                    opt = set()
                    if act == "next-off":
                        opt = {pos + 1}
                    elif act == "clear":
                        opt = set(range(pos + 1, n))
                    elif act == "install-new":
                        opt = {"new"}
                    elif act == "off-on":
                        opt = {pos}
                    need = [i for i in must if i not in opt]
                    core = [i for i in got if i not in opt]
                    order = [i for i in got if i != "new"]
                    if act == "off-on":
                        ok = got[:n] == must and len(got) <= n + 1
                    else:
                        ok = core == need and order == sorted(order) and len(set(got)) == len(got)
                    if not ok:
                        ctx.fail("functions called for the event: %r" % (got,), case)
                        return
                    left = {"none": must, "self-off": [i for i in must if i != pos],
                            "next-off": [i for i in must if i != pos + 1], "prev-off": [i for i in must if i != pos - 1],
                            "clear": [], "install-new": must + ["new"], "call-other": must, "call-same-once": must,
                            "off-on": [i for i in must if i != pos] + [pos]}[act]
                    del log[:]
                    h.call_hooks(name, ("e2",))
                    if [i for i, a in log] != left:
                        ctx.fail("functions called for the next event: %r instead of %r" % (log, left), case)
                        return
                    ctx.state(repr(case))
                    ctx.trans(2)
                    ctx.trace()


def many(ctx, n):
    """n functions on a name, some of them several times, and n names: called in order until one returns a value"""
    lib = loader.plain()
    h = lib.hooks
    log = []

    def mk(i, ret=None):
        def f(args):
            log.append(i)
            return ret
        return f
    fs = [mk(i) for i in range(n)]
    with ctx.guard("hook calls", 60) as g:
        want = []
        for i in range(n):
            h.install_hook("a.b", fs[i])
            h.install_hook("name.%d" % i, fs[i])
            want.append(i)
            if i % 3 == 0:
                h.install_hook("a.b", fs[i // 2])
                want.append(i // 2)

        def check(what, ret=None):
            del log[:]
            g.again()
            ctx.trans()
            r = h.call_hooks("a.b", (1,))
            if log != want or r != ret:
                ctx.fail("%s: the functions called are %r instead of %r, the value %r instead of %r" % (what, log[:80], want[:80], r, ret),
                         {"functions": n})
                return False
            return True
        if not check("%d functions installed" % len(want)):
            return
        for i in range(n):
            del log[:]
            h.call_hooks("name.%d" % i, (1,))
            if log != [i]:
                ctx.fail("the functions called for name %d of %d are %r" % (i, n, log), {"names": n})
                return
        # one of them is taken away: its first entry only
        for i in list(range(0, n, 4)) + list(range(n - 1, 0, -5)):
            if i in want:
                h.uninstall_hook("a.b", fs[i])
                want.remove(i)
                if not check("function %d uninstalled" % i):
                    return
            ctx.state((n, i))
        # a value at every place of the list
        for k in range(n):
            v = mk("v", k)
            h.uninstall_hook("a.b")
            want = []
            for i in range(n):
                f = v if i == k else fs[i]
                h.install_hook("a.b", f)
                if i <= k:
                    want.append("v" if i == k else i)
            if not check("a value returned by function %d of %d" % (k, n), k):
                return
            ctx.state((n, "v", k))
    ctx.trace()


# ------------------------------------------------------------------ several threads
REG = {}


class RM(object):
    def __init__(self, st):
        self.st = st

    def key(self):
        return self.st


def rm_apply(m, op):
    """what a registry answers: 'ok', or anything for what is not there"""
    a, f = op.args
    there = f in m.st[a] if op.name == "uninstall" else bool(m.st[a])
    m2 = RM(model_step(m.st, (op.name, a, f)))
    return m2, "ok" if op.name == "install" or there else "any"


@sched.scenario(REG, bound=(2, 3), cap=2, only=("hooks",))
def threads(w, lib, out, initial, progs):
    h = lib.hooks
    ran = {}

    def mk(i):
        return lambda args: ran.setdefault(args[0], []).append(i)
    fs = [mk(i) for i in range(4)]
    st = ((), ())
    for op in initial:
        apply(h, fs, [], op)
        st = model_step(st, op)
    hist = lin.History(w)
    calls = []

    def do(k, n, op):
        name, a, f = op
        if name == "call":
            calls.append((k, n, a))
            return h.call_hooks(NAMES[a], ((k, n), 7))
        try:
            if name == "install":
                h.install_hook(NAMES[a], fs[f])
            elif name == "uninstall":
                h.uninstall_hook(NAMES[a], fs[f])
            else:
                h.uninstall_hook(NAMES[a])
            return "ok"
        except (KeyError, ValueError):
            return "refused"

    def runner(k, prog):
        for n, op in enumerate(prog):
            hist.call(k, op[0], (op[1], op[2]), lambda: do(k, n, op))
    w.trace = w.want_trace
    for k, prog in enumerate(progs):
        w.spawn(lambda k=k, prog=prog: runner(k, prog), "T%d" % k)

    def after(out, w):
        w.trace = False
        final = []
        for a in (0, 1):
            h.call_hooks(NAMES[a], (("end", a), 7))
            final.append(tuple(ran.get(("end", a), ())))
        final = tuple(final)
        out.outcome = (final, tuple(sorted((k, tuple(v)) for k, v in ran.items() if k[0] != "end")))
        for op in hist.ops:
            if op.end is None:
                return "%r never ended" % (op,)
        changes = [o for o in hist.ops if o.name != "call"]
        if not lin.linearizable(changes, RM(st), rm_apply, lambda e, g: e == "any" or e == g, lambda m: m.st == final):
            return "no sequential order explains %r: the functions installed are now %r" % (changes, final)
        for o in hist.ops:
            if o.name != "call":
                continue
            a = o.args[0]
            got = ran.get((o.thread, [c for c in progs[o.thread]].index(("call", a, None))), [])
            if o.result is not None:
                return "call_hooks returned %r" % (o.result,)
            before = [c for c in changes if c.end < o.start]
            other = [c for c in changes if not c.end < o.start and c.start < o.end and c.args[0] == a]
            # what was installed when the call began and is not touched by an overlapping change is called, in order
            sure = [f for f in range(4) if not any(c.name == "clear" or c.args[1] == f for c in other)]
            cands = set()

            def grow(m, left):
                if not left:
                    cands.add(tuple(f for f in m.st[a] if f in sure))
                for i, c in enumerate(left):
                    if not any(x.end < c.start for x in left):
                        grow(rm_apply(m, c)[0], left[:i] + left[i + 1:])
            grow(RM(st), before)
            if any(c.name == "clear" for c in other):
                continue
            if tuple(f for f in got if f in sure) not in cands:
                return "a call ran %r: expected one of %r (and perhaps those of %r)" % (got, sorted(cands), other)
        return None
    out.after = after


def top(ctx, name, args):
    b = REG[name].bound[1 if ctx.thorough else 0]
    sched.root(ctx, REG, name, args, b - 1 if len(args[1]) > 2 else b)


def sub(ctx, name, args, bound, prefixes):
    sched.sub(ctx, REG, name, args, bound, prefixes)


def thread_jobs():
    I0, I1, IB, U0, C, X = (("install", 0, 0), ("install", 0, 1), ("install", 1, 2), ("uninstall", 0, 0), ("clear", 0, None), ("call", 0, None))
    one = [(o,) for o in (I0, I1, IB, U0, C, X)]
    two = [(I0, U0), (U0, I0), (I1, I0), (X, I0), (C, I0), (I0, X)]
    out = []
    for init in ((), (I0,), (I1, I0)):
        for p, q in itertools.combinations_with_replacement(one, 2):
            if p[0][0] != "call" or q[0][0] != "call":
                out.append((init, (p, q)))
        for p in two:
            for q in one + two[:4]:
                out.append((init, (p, q)))
        for t in ((I0, I1, IB), (I0, I1, X), (I0, U0, X), (I0, U0, I1), (C, I0, X), (U0, I1, X)):
            out.append((init, tuple((o,) for o in t)))
    return [("top", ("threads", j)) for j in out]


# ------------------------------------------------------------------ 2. exchanges
SLAVE_HOOK = {1: "handle_read_coils_request", 2: "handle_read_discrete_inputs_request",
              3: "handle_read_holding_registers_request", 4: "handle_read_input_registers_request",
              5: "handle_write_single_coil_request", 6: "handle_write_single_register_request",
              7: "handle_read_exception_status_request", 15: "handle_write_multiple_coils_request",
              16: "handle_write_multiple_registers_request", 22: "handle_mask_write_register_request",
              23: "handle_read_write_multiple_registers_request"}
SERVER_NAMES = (["modbus.Slave." + v for v in SLAVE_HOOK.values()] +
                ["modbus.Slave.handle_request", "modbus.Slave.on_handle_broadcast", "modbus.Slave.on_exception",
                 "modbus.Databank.on_error", "modbus.ModbusBlock.setitem", "modbus.Server.before_handle_request",
                 "modbus.Server.after_handle_request", "modbus.Server.on_exception"])
TCP_NAMES = ["modbus_tcp.TcpServer." + x for x in ("on_connect", "on_disconnect", "after_recv", "before_send", "on_error", "after_send")]
RTU_NAMES = ["modbus_rtu.RtuServer." + x for x in ("before_close", "after_close", "before_open", "after_open", "after_read",
                                                  "before_write", "after_write", "on_error")]
MASTER_NAMES = ["modbus.Master." + x for x in ("before_send", "after_send", "after_recv")]
TCPM_NAMES = ["modbus_tcp.TcpMaster." + x for x in ("before_connect", "after_connect", "before_close", "after_close", "before_send", "after_recv")]
RTUM_NAMES = ["modbus_rtu.RtuMaster." + x for x in ("before_open", "after_close", "before_send", "after_recv")]

W = struct.pack
PDUS = {
    "coils": W(">BHH", 1, 2, 9), "discrete": W(">BHH", 2, 0, 3), "holding": W(">BHH", 3, 5, 2), "input": W(">BHH", 4, 0, 1),
    "wcoil": W(">BHH", 5, 4, 0xFF00), "wreg": W(">BHH", 6, 7, 0xABCD), "status": b"\x07",
    "wcoils": W(">BHHB", 15, 1, 3, 1) + b"\x05", "wregs": W(">BHHB", 16, 3, 2, 4) + b"\x00\x09\x80\x01",
    "mask": W(">BHHH", 22, 2, 0xF2, 0x25), "rw": W(">BHHHHB", 23, 1, 2, 4, 1, 2) + b"\x12\x34",
    "badaddr": W(">BHH", 3, 500, 2), "badqty": W(">BHH", 1, 0, 0), "badval": W(">BHH", 5, 1, 0x1234), "badfc": b"\x63\x01",
    "trunc": b"\x03\x00",
}


def srv_exchanges():
    out = [(n, 1, PDUS[n]) for n in PDUS]
    out += [("missing", 9, PDUS["holding"]), ("bcast", 0, PDUS["wreg"]), ("bcastbad", 0, PDUS["badval"]), ("bcastread", 0, PDUS["holding"])]
    return out


class SrvRig(object):
    def __init__(self, ctx, w, lib, kind, rec):
        w.net.points = False
        self.w, self.lib, self.kind = w, lib, kind
        self.dev = tcp.Device(w, lib, slaves=(1, 2))
        if kind == "rtu":
            self.ser = fserial.FakeSerial(w)
            self.srv = lib.modbus_rtu.RtuServer(self.ser, databank=self.dev.srv.get_db())
        else:
            self.srv = self.dev.srv
        rec.install(lib)
        self.srv.start()
        w.sleep(0.05)
        self.cl = None

    def connect(self):
        if self.kind == "tcp":
            self.cl = tcp.Client(self.w)
            self.w.sleep(0.05)

    def frame(self, unit, pdu, tid=0x1234):
        return ref.rtu(unit, pdu) if self.kind == "rtu" else ref.mbap(tid, unit, pdu)

    def send(self, frame):
        """bytes answered"""
        if self.kind == "rtu":
            n = len(self.ser.written)
            self.ser.feed(frame)
            self.w.sleep(0.2)
            return b"".join(self.ser.written[n:])
        b = len(self.cl.drain())
        self.cl.send(frame)
        self.w.sleep(0.05)
        return self.cl.drain()[b:]

    def values(self):
        out = []
        for sid in (1, 2):
            s = self.srv.get_slave(sid)
            for b, n in (("c", 20), ("d", 20), ("h", 40), ("i", 130)):
                out.append(tuple(s.get_values(b, 0, n)))
        return tuple(out)


class Rec(object):
    """recording functions on the documented names; .fn maps a name to a function(args) giving the value returned"""

    def __init__(self, names, fn=None, double=None):
        self.names, self.fn, self.double = names, fn or {}, double
        self.log = []

    def install(self, lib):
        for n in self.names:
            lib.hooks.install_hook(n, self._mk(n))
        if self.double:
            lib.hooks.install_hook(self.double, self._mk(self.double, second=True))

    def _mk(self, n, second=False):
        def f(args):
            self.log.append((n + ("#2" if second else ""), tuple(bytes(a) if isinstance(a, (bytes, bytearray)) else a for a in args)))
            g = None if second else self.fn.get(n)
            return g(args) if g else None
        return f


def setitem_items(log, slave):
    """the writes announced by ModbusBlock.setitem hooks: {(block object id, index): value}"""
    out = {}
    for n, a in log:
        if n != "modbus.ModbusBlock.setitem":
            continue
        blk, item, val = a
        if isinstance(item, slice):
            for i, v in zip(range(*item.indices(10 ** 6)), val):
                out[(id(blk), i)] = v
        else:
            out[(id(blk), item)] = val
    return out


def expected(rig, unit, pdu, reply):
    """documented hook calls of one request (setitem excluded): list of (name, args), args may hold Any markers"""
    lib, srv = rig.lib, rig.srv
    f = rig.frame(unit, pdu)
    ev = []
    sock = Any("sock")
    if rig.kind == "tcp":
        ev.append(("modbus_tcp.TcpServer.after_recv", (srv, sock, f[:7])))
    else:
        ev.append(("modbus_rtu.RtuServer.after_read", (srv, f)))
    ev.append(("modbus.Server.before_handle_request", (srv, f)))
    fc = pdu[0]
    targets = [unit] if unit in (1, 2) else ([1, 2] if unit == 0 else [])
    db = srv.get_db()
    for t in targets:
        s = srv.get_slave(t)
        ev.append(("modbus.Slave.handle_request", (s, pdu)))
        if unit == 0 and fc in (1, 2, 3, 4):
            break
        if fc in SLAVE_HOOK:
            ev.append(("modbus.Slave." + SLAVE_HOOK[fc], (s, pdu)))
        code = None
        if reply[:1] and rig.kind == "tcp" and reply[7] & 0x80:
            code = reply[8]
        elif reply[:1] and rig.kind == "rtu" and reply[1] & 0x80:
            code = reply[2]
        if unit == 0:
            m = rig.dev.models[t].copy()
            try:
                r = m.handle(pdu)
                ev.append(("modbus.Slave.on_handle_broadcast", (s, r[1:])))
            except ref.Refused as e:
                code = min(e.codes)
        if code == 4:
            ev.append(("modbus.Databank.on_error", (db, Exc(Exception), pdu)))
        elif code is not None:
            ev.append(("modbus.Slave.on_exception", (s, fc, Exc(lib.modbus.ModbusError, code))))
    ev.append(("modbus.Server.after_handle_request", (srv, reply if reply else Empty())))
    if rig.kind == "tcp":
        if reply:
            ev.append(("modbus_tcp.TcpServer.before_send", (srv, sock, reply)))
            ev.append(("modbus_tcp.TcpServer.after_send", (srv, sock, reply)))
    else:
        ev.append(("modbus_rtu.RtuServer.before_write", (srv, reply if reply else Empty())))
        ev.append(("modbus_rtu.RtuServer.after_write", (srv, reply if reply else Empty())))
    return ev


class Any(object):
    """any value, the same one wherever the name is the same"""
    def __init__(self, name=None):
        self.name = name


class Exc(object):
    def __init__(self, cls, code=None):
        self.cls, self.code = cls, code


class Empty(object):
    pass


def match(want, got, binds):
    if len(want) != len(got):
        return False
    for w_, g in zip(want, got):
        if isinstance(w_, Any):
            if w_.name is not None and binds.setdefault(w_.name, g) is not g:
                return False
        elif isinstance(w_, Exc):
            if not isinstance(g, w_.cls) or (w_.code is not None and g.get_exception_code() != w_.code):
                return False
        elif isinstance(w_, Empty):
            if g:
                return False
        elif isinstance(w_, bytes):
            if not isinstance(g, bytes) or g != w_:
                return False
        elif w_ is not g and w_ != g:
            return False
    return True


def compare(want, got):
    """error text or None"""
    binds = {}
    for i in range(max(len(want), len(got))):
        if i >= len(got):
            return "hook %s was not called" % want[i][0]
        if i >= len(want):
            return "hook %s was called and should not (arguments %r)" % (got[i][0], got[i][1])
        if want[i][0] != got[i][0]:
            return "hook %s was called where %s should be" % (got[i][0], want[i][0])
        if not match(want[i][1], got[i][1], binds):
            return "hook %s was called with %r instead of %r" % (want[i][0], got[i][1][1:], [getattr(x, "__dict__", x) if isinstance(x, (Any, Exc)) else x for x in want[i][1][1:]])
    return None


def names_of(kind):
    return SERVER_NAMES + (TCP_NAMES if kind == "tcp" else RTU_NAMES)


def srv_trace(ctx, kind):
    rec = Rec(names_of(kind))

    def body(w, lib):
        rig = SrvRig(ctx, w, lib, kind, rec)
        srv = rig.srv

        def check(want, case, ignore_setitem=True):
            got = [e for e in rec.log if e[0] != "modbus.ModbusBlock.setitem"]
            err = compare(want, got)
            del rec.log[:]
            ctx.state(repr(case))
            ctx.trans(len(got))
            ctx.trace()
            if err:
                ctx.fail(err, case)
                return False
            return True
        if kind == "rtu":
            ok = check([("modbus_rtu.RtuServer.before_open", (srv,)), ("modbus_rtu.RtuServer.after_open", (srv,))], {"start": kind})
        else:
            ok = check([], {"start": kind})
            rig.connect()
            ok = ok and check([("modbus_tcp.TcpServer.on_connect", (srv, Any(), Any()))], {"event": "connect"})
        if not ok:
            return
        for name, unit, pdu in srv_exchanges():
            model = {k: m.copy() for k, m in rig.dev.models.items()}
            before = rig.values()
            reply = rig.send(rig.frame(unit, pdu))
            after = rig.values()
            case = {"server": kind, "exchange": name, "unit": unit, "pdu": pdu.hex()}
            ctx.sample(case, 1)
            # writes announced = writes done
            ann = setitem_items(rec.log, None)
            real = {}
            for sid in (1, 2):
                s = srv.get_slave(sid)
                real.update(writes_of(model[sid], pdu, s, unit, sid))
            keyed = {}
            for (blk, i), v in ann.items():
                keyed[(blk, i)] = v
            nreal = len(real)
            if len(keyed) != nreal or sorted(v for v in keyed.values()) != sorted(real.values()):
                ctx.fail("ModbusBlock.setitem hooks announced %r for the writes %r" % (sorted(keyed.values()), sorted(real.values())), case)
                return
            got_first = [i for i, e in enumerate(rec.log) if e[0] == "modbus.ModbusBlock.setitem"]
            if got_first:
                hr = [i for i, e in enumerate(rec.log) if e[0] == "modbus.Slave.handle_request"]
                if not hr or min(got_first) < hr[0]:
                    ctx.fail("setitem hook before the request hook", case)
                    return
            if not check(expected(rig, unit, pdu, reply), case):
                return
            for sid in (1, 2):
                if unit in (0, sid) and not (unit == 0 and pdu[0] < 5):
                    try:
                        rig.dev.models[sid].handle(pdu)
                    except ref.Refused:
                        pass
            if rig.dev.state_error():
                ctx.fail("with recording hooks: %s" % rig.dev.state_error(), case)
                return
        # disconnection, error, stop
        if kind == "tcp":
            rig.cl.close()
            w.sleep(0.05)
            if not check([("modbus_tcp.TcpServer.on_disconnect", (srv, Any()))], {"event": "disconnect"}):
                return
            rig.connect()
            del rec.log[:]
            rig.cl.reset()
            w.sleep(0.05)
            if not check([("modbus_tcp.TcpServer.on_error", (srv, Any(), Exc(Exception)))], {"event": "reset"}):
                return
        srv.stop()
        if kind == "rtu":
            check([("modbus_rtu.RtuServer.before_close", (srv,)), ("modbus_rtu.RtuServer.after_close", (srv,))], {"stop": kind})
        else:
            check([], {"stop": kind})
        # a server that fails
        if kind == "tcp":
            s2 = w.net.socket_class()
            s2.bind(("127.0.0.1", tcp.PORT))
            s2.listen(1)
            srv.start()
            w.sleep(1.5)
            check([("modbus.Server.on_exception", (srv, Exc(Exception)))], {"event": "start fails"})
    in_world(ctx, body)


def writes_of(model, pdu, s, unit, sid):
    """the items an accepted request writes in a slave"""
    if unit not in (0, sid) or pdu[0] not in (5, 6, 15, 16, 22, 23):
        return {}
    m = model.copy()
    try:
        m.handle(pdu)
    except ref.Refused:
        return {}
    fc = pdu[0]
    tab = "c" if fc in (5, 15) else "h"
    if fc == 23:
        addr, n = struct.unpack(">HH", pdu[5:9])
    else:
        addr, = struct.unpack(">H", pdu[1:3])
        n = 1 if fc in (5, 6, 22) else struct.unpack(">H", pdu[3:5])[0]
    return {(sid, tab, addr + i): m.blocks[tab][2][addr + i] for i in range(n)}


# ------------------------------------------------------------------ overrides on servers
JUNK = (b"junk", "text", 1, ("t",))
FILTERS = {
    # name: (what is replaced)
    "modbus_tcp.TcpServer.after_recv": "header", "modbus_rtu.RtuServer.after_read": "request",
    "modbus.Server.before_handle_request": "request", "modbus.Slave.handle_request": "pdu",
    "modbus.Server.after_handle_request": "response", "modbus_tcp.TcpServer.before_send": "response",
    "modbus_rtu.RtuServer.before_write": "response",
}
# the documentation promises "returns modified response or None" for these, the library never used the value
DOC_ONLY = ["modbus.Slave." + v for v in SLAVE_HOOK.values() if v != "handle_write_multiple_coils_request"]


def srv_override(ctx, kind):
    other = ("holding", 2, W(">BHH", 3, 20, 3))

    def body(w, lib):
        rec = Rec(names_of(kind))
        rig = SrvRig(ctx, w, lib, kind, rec)
        rig.connect()
        cur = {}

        def hook(name):
            def f(args):
                cur.setdefault("calls", []).append(name)
                if cur.get("name") == name and not cur.get("used", 0) >= cur.get("times", 1):
                    cur["used"] = cur.get("used", 0) + 1
                    return cur["value"]
                return None
            return f
        for n in names_of(kind):
            lib.hooks.install_hook(n, hook(n))

        def second(args):
            cur["second"] = cur.get("second", 0) + 1
            return cur.get("value2")
        exch = srv_exchanges()
        for name, unit, pdu in exch:
            cur.clear()
            base_in = rig.values()
            base = rig.send(rig.frame(unit, pdu))
            after = rig.values()
            calls = list(cur.get("calls", ()))
            restore = lambda: restore_values(rig, base_in)
            for hn in dict.fromkeys(calls):
                if hn == "modbus.ModbusBlock.setitem":
                    vals = JUNK[:2]
                elif hn in FILTERS:
                    vals = ["filter"]
                else:
                    vals = JUNK
                for v in vals:
                    for two in (False, True):
                        restore()
                        case = {"server": kind, "exchange": name, "hook": hn, "returns": repr(v), "second function": two}
                        ctx.cur = case
                        want, want_vals = base, after
                        kindf = FILTERS.get(hn)
                        if kindf == "header":
                            # the same bytes but for unit 2
                            v = rig.frame(2, pdu)[:7]
                            want, want_vals = outcome(rig, base_in, 2, pdu)
                        elif kindf == "request":
                            v = rig.frame(other[1], other[2])
                            want, want_vals = outcome(rig, base_in, other[1], other[2])
                        elif kindf == "pdu":
                            v = b"\x41\x07\x08"
                            if unit == 0:
                                want, want_vals = b"", base_in
                            else:
                                want, want_vals = rig.frame(unit, v), base_in
                        elif kindf == "response":
                            v = rig.frame(unit if unit else 1, b"\x03\x02\xAA\xBB")
                            want = v
                        restore()
                        cur.clear()
                        cur.update(name=hn, value=v, times=10 if hn in ("modbus.ModbusBlock.setitem",) or kindf == "pdu" else 1)
                        if two:
                            # installed later: must not run once the first one returned a value
                            lib.hooks.install_hook(hn, second)
                            cur["value2"] = None
                        got = rig.send(rig.frame(unit, pdu))
                        now = rig.values()
                        if two:
                            lib.hooks.uninstall_hook(hn, second)
                        ctx.state(repr(case))
                        ctx.trans()
                        ctx.trace()
                        if two and cur.get("second") and calls.count(hn) == 1:
                            ctx.fail("the second function ran although the first one returned a value", case)
                            return
                        if not cur.get("used"):
                            ctx.fail("the hook was not called this time", case)
                            return
                        if got != want or now != want_vals:
                            ctx.fail("with %s returning %r: answered %s instead of %s%s" % (
                                hn, v, got.hex() or "nothing", want.hex() or "nothing", "" if now == want_vals else ", other values stored"), case,
                                None)
                            return
                        elif hn in DOC_ONLY and v == JUNK[0]:
                            ctx.fail("the value returned by %s is ignored" % hn, case, key="handler-return-ignored")
        # a value that only the second function returns
        restore = None
        for hn, kindf in FILTERS.items():
            if kindf != "response" or hn not in names_of(kind):
                continue
            for order in (0, 1):
                cur.clear()
                v = rig.frame(1, b"\x03\x02\x55\x66")
                lib.hooks.install_hook(hn, second)
                cur["value2"] = v
                got = rig.send(rig.frame(1, PDUS["holding"]))
                lib.hooks.uninstall_hook(hn, second)
                ctx.trans()
                if got != v or cur.get("second") != 1:
                    ctx.fail("the value of the last function of %s was not used" % hn, {"hook": hn})
                    return
                cur.clear()
                got = rig.send(rig.frame(1, PDUS["holding"]))
                if got == v or cur.get("second"):
                    ctx.fail("an uninstalled function of %s still runs" % hn, {"hook": hn})
                    return
    in_world(ctx, body)


def restore_values(rig, vals):
    it = iter(vals)
    for sid in (1, 2):
        s = rig.srv.get_slave(sid)
        for b, n in (("c", 20), ("d", 20), ("h", 40), ("i", 130)):
            v = next(it)
            s.set_values(b, 0, list(v))


def outcome(rig, vals, unit, pdu):
    """reply bytes and values after the request, from the reference model"""
    models = {}
    it = iter(vals)
    for sid in (1, 2):
        m = ref.RefSlave(True)
        for b, typ, n in (("c", 1, 20), ("d", 2, 20), ("h", 3, 40), ("i", 4, 130)):
            m.add(b, typ, 0, n)
            m.blocks[b][2][:] = list(next(it))
        models[sid] = m
    rep = b""
    try:
        r = models[unit].handle(pdu)
        rep = r if r is not None else bytes([7, 0])
    except ref.Refused as e:
        rep = bytes([pdu[0] | 0x80, max(e.codes)])
    out = []
    for sid in (1, 2):
        for b in ("c", "d", "h", "i"):
            out.append(tuple(models[sid].blocks[b][2]))
    return rig.frame(unit, rep), tuple(out)


# ------------------------------------------------------------------ masters
class MRig(object):
    def __init__(self, w, lib, kind):
        w.net.points = False
        self.w, self.kind, self.lib = w, kind, lib
        if kind == "rtu":
            self.ser = fserial.FakeSerial(w, timeout=1.0)
            self.p = peer.SerialPeer(self.ser)
            self.m = lib.modbus_rtu.RtuMaster(self.ser)
            self.m.set_timeout(1.0)
        else:
            self.p = peer.Peer(w, 1502, framing="tcp" if kind == "tcp" else "rtu")
            cls = lib.modbus_tcp.TcpMaster if kind == "tcp" else lib.modbus_rtu_over_tcp.RtuOverTcpMaster
            self.m = cls("127.0.0.1", 1502, timeout_in_sec=1.0)
        peer.fill(self.p.model)

    def base(self):
        return {"tcp": "modbus_tcp.TcpMaster", "rot": "modbus_tcp.TcpMaster", "rtu": "modbus_rtu.RtuMaster"}[self.kind]

    def recv(self):
        return {"tcp": "modbus_tcp.TcpMaster", "rot": "modbus_rtu_over_tcp.RtuOverTcpMaster", "rtu": "modbus_rtu.RtuMaster"}[self.kind] + ".after_recv"

    def open_events(self):
        m = self.m
        if self.kind == "rtu":
            return [("modbus_rtu.RtuMaster.before_open", (m,))]
        return [("modbus_tcp.TcpMaster.before_connect", (m,)), ("modbus_tcp.TcpMaster.after_connect", (m,))]

    def close_events(self):
        m = self.m
        if self.kind == "rtu":
            return [("modbus_rtu.RtuMaster.after_close", (m,))]
        return [("modbus_tcp.TcpMaster.before_close", (m,)), ("modbus_tcp.TcpMaster.after_close", (m,))]


def m_names(kind):
    return MASTER_NAMES + {"tcp": TCPM_NAMES, "rtu": RTUM_NAMES, "rot": TCPM_NAMES + ["modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv"]}[kind]


MEX = [("holding", 3, dict(starting_address=4, quantity_of_x=2)), ("coils", 1, dict(starting_address=4, quantity_of_x=9)),
       ("wreg", 6, dict(starting_address=7, output_value=99)), ("wcoils", 15, dict(starting_address=0, output_value=[1, 0, 1])),
       ("wregs", 16, dict(starting_address=3, output_value=[1, 2, 3])), ("badaddr", 3, dict(starting_address=299, quantity_of_x=5)),
       ("mask", 22, dict(starting_address=3, and_mask=1, or_mask=2)), ("nofc", 99, dict(starting_address=0))]


def mst_trace(ctx, kind):
    def body(w, lib):
        rec = Rec(m_names(kind))
        rig = MRig(w, lib, kind)
        rec.install(lib)
        m = rig.m
        for cycle in range(2):
            first = True
            for name, fc, kw in MEX:
                n = len(rig.p.requests)
                replies = []
                old = rig.p.handler

                def handler(conn, req):
                    r = rig.p.frame(req, rig.p.reply_pdu(req))
                    replies.append(r)
                    (rig.p if rig.kind == "rtu" else conn).push(r)
                rig.p.handler = handler
                r = peer.call(m, 1, fc, **kw)
                want = rig.open_events() if first else []
                if fc != 99:
                    req, rep = rig.p.requests[n], replies[0]
                    want += [("modbus.Master.before_send", (m, req)), (rig.base() + ".before_send", (m, req)),
                             ("modbus.Master.after_send", (m,)), (rig.recv(), (m, rep)), ("modbus.Master.after_recv", (m, rep))]
                first = False
                case = {"master": kind, "call": name, "cycle": cycle}
                err = compare(want, rec.log)
                del rec.log[:]
                ctx.state(repr(case))
                ctx.trans(len(want))
                ctx.trace()
                ctx.sample(case, 1)
                if err:
                    ctx.fail(err, case)
                    return
            m.close()
            err = compare(rig.close_events(), rec.log)
            del rec.log[:]
            if err:
                ctx.fail(err, {"master": kind, "event": "close"})
                return
            m.close()
            if rec.log:
                ctx.fail("closing a closed master calls hooks: %r" % rec.log, {"master": kind, "event": "close again"})
                return
    in_world(ctx, body)


def mst_override(ctx, kind):
    def body(w, lib):
        rig = MRig(w, lib, kind)
        m = rig.m
        m.open()
        cur = {}
        filt = {"modbus.Master.before_send": "request", rig.base() + ".before_send": "request", rig.recv(): "response",
                "modbus.Master.after_recv": "response"}

        def hook(name):
            def f(args):
                if cur.get("name") == name:
                    cur["used"] = cur.get("used", 0) + 1
                    return cur["value"](args)
                return None
            return f
        for n in m_names(kind):
            lib.hooks.install_hook(n, hook(n))

        def second(args):
            cur["second"] = cur.get("second", 0) + 1
            return cur.get("value2")

        for name, fc, kw in MEX[:-1]:
            cur.clear()
            base = peer.call(m, 1, fc, **kw)
            if base[0] == "exc" and not isinstance(base[1], lib.modbus.ModbusError):
                ctx.fail("a plain call raised %r" % (base[1],), {"call": name})
                return
            for hn in m_names(kind):
                if "connect" in hn or "close" in hn or "open" in hn:
                    continue
                kindf = filt.get(hn)
                for v in (["filter"] if kindf else JUNK):
                    for two in (False, True):
                        case = {"master": kind, "call": name, "hook": hn, "returns": repr(v), "second function": two}
                        ctx.cur = case
                        cur.clear()
                        n = len(rig.p.requests)
                        sent = []
                        if kindf == "request":
                            def value(args):
                                req = bytes(args[1])
                                sent.append(rig.p.frame(req, W(">BHH", 4, 8, 2)) if fc not in (3,) else rig.p.frame(req, W(">BHH", 3, 50, 2)))
                                return sent[-1]
                            cur.update(name=hn, value=value)
                        elif kindf == "response":
                            def value(args):
                                rep = bytes(args[1])
                                sent.append(rig.p.frame(rep, bytes([fc | 0x80, 6])))
                                return sent[-1]
                            cur.update(name=hn, value=value)
                        else:
                            cur.update(name=hn, value=lambda args: v)
                        if two:
                            lib.hooks.install_hook(hn, second)
                        r = peer.call(m, 1, fc, **kw)
                        if two:
                            lib.hooks.uninstall_hook(hn, second)
                        ctx.state(repr(case))
                        ctx.trans()
                        ctx.trace()
                        err = None
                        if two and cur.get("second") and cur.get("used") and (kindf or v is not None):
                            err = "the second function ran although the first one returned a value"
                        elif not kindf:
                            if not cur.get("used") and hn in (MASTER_NAMES[1],):
                                err = "the hook was not called"
                            elif r[0] != base[0] or (r[0] == "ok" and r[1] != base[1]):
                                err = "the call gave %r instead of %r" % (r[1], base[1])
                        elif not sent:
                            err = "the hook was not called"
                        elif kindf == "request":
                            if rig.p.requests[n:] != sent:
                                err = "the device received %r instead of the replaced request %s" % (
                                    [x.hex() for x in rig.p.requests[n:]], sent[0].hex())
                            elif fc == 3 and name == "holding" and (r[0] != "ok" or tuple(r[1]) != tuple(rig.p.model.blocks["h"][2][50:52])):
                                err = "the call gave %r" % (r[1],)
                        else:
                            if r[0] != "exc" or not isinstance(r[1], lib.modbus.ModbusError) or r[1].get_exception_code() != 6:
                                err = "the replaced response was not used: %r" % (r[1],)
                        if err:
                            ctx.fail(err, case)
                            return
                        # afterwards everything is as before
                        cur.clear()
                        r = peer.call(m, 1, fc, **kw)
                        if r[0] != base[0] or (r[0] == "ok" and r[1] != base[1]):
                            ctx.fail("after the hook: the call gave %r instead of %r" % (r[1], base[1]), case)
                            return
    in_world(ctx, body)


def jobs(tier, seed):
    js = [("registry", (op,)) for op in ops()]
    js.append(("reentrant", ()))
    js += [("many", (n,)) for n in (5, 17, 65, 260)]
    js += thread_jobs()
    for k in ("tcp", "rtu"):
        js += [("srv_trace", (k,)), ("srv_override", (k,))]
    for k in ("tcp", "rtu", "rot"):
        js += [("mst_trace", (k,)), ("mst_override", (k,))]
    return js
