"""C18: slaves can be added, removed and looked up while requests are being handled.

Threads call the Databank (requests of server threads, add/remove/get of the application) under every interleaving
within the preemption bound.  Everything but broadcasts must be linearizable against a map id -> slave object; a
broadcast must reach every slave registered throughout and no error may come out of it.
"""
import itertools

from mc import lin, ref, sched

BOUNDS = ("2 threads x 1-3 operations, 3 threads x 1 operation over add / add duplicate / remove / remove all / get / "
          "unicast read and write / broadcast, initially 0..3 slaves; preemption bound quick 2 (1 for longer programs), thorough 3 (2 for 3 threads)")
REG = {}
MODS = ("modbus", "hooks")


def P(*b):
    return bytes(b)


class M(object):
    """id -> token of the slave object; token -> register value"""

    def __init__(self, slaves=None, regs=None):
        self.slaves = dict(slaves or {})
        self.regs = dict(regs or {})

    def copy(self):
        return M(self.slaves, self.regs)

    def key(self):
        return (tuple(sorted(self.slaves.items())), tuple(sorted(self.regs.items())))


def apply(m, op):
    m = m.copy()
    n, a = op.name, op.args
    if n == "add":
        if a in m.slaves:
            return m, ("dup",)
        tok = op.result[1] if op.result[0] == "slave" else "?"
        if tok in m.regs:
            return m, ("impossible",)
        m.slaves[a] = tok
        m.regs[tok] = None            # no block yet
        return m, ("slave", tok)
    if n == "rm":
        if a not in m.slaves:
            return m, ("missing",)
        del m.slaves[a]
        return m, ("none",)
    if n == "rmall":
        m.slaves.clear()
        return m, ("none",)
    if n == "get":
        if a not in m.slaves:
            return m, ("missing",)
        return m, ("slave", m.slaves[a])
    if n == "block":                   # add a block to the slave got before
        m.regs[a] = 0
        return m, ("none",)
    if n == "write":
        i, v = a
        if i not in m.slaves:
            return m, ("noreply",)
        t = m.slaves[i]
        if m.regs[t] is None:
            return m, ("exc", 2)
        m.regs[t] = v
        return m, ("reply", P(6, 0, 0, 0, v))
    if n == "read":
        if a not in m.slaves:
            return m, ("noreply",)
        t = m.slaves[a]
        if m.regs[t] is None:
            return m, ("exc", 2)
        return m, ("reply", P(3, 2, 0, m.regs[t]))
    raise AssertionError(n)


def same(exp, got):
    return exp == got


class Rig(object):
    def __init__(self, w, lib):
        self.w, self.lib = w, lib
        self.db = lib.modbus.Databank()
        self.tokens = {}
        self.tid = 0

    def token(self, s):
        if id(s) not in self.tokens:
            self.tokens[id(s)] = (len(self.tokens), s)
        return self.tokens[id(s)][0]

    def send(self, unit, pdu, framing):
        if framing == "tcp":
            self.tid += 1
            t = self.tid
            q = self.lib.modbus_tcp.TcpQuery()
            r = self.db.handle_request(q, ref.mbap(t, unit, pdu))
            if not r:
                return ("noreply",)
            r = bytes(r)
            if ref.mbap(t, unit, r[7:]) != r:
                return ("error", "reply %s" % r.hex())
            r = r[7:]
        else:
            q = self.lib.modbus_rtu.RtuQuery()
            r = self.db.handle_request(q, ref.rtu(unit, pdu))
            if not r:
                return ("noreply",)
            r = bytes(r)
            if ref.rtu(unit, r[1:-2]) != r:
                return ("error", "reply %s" % r.hex())
            r = r[1:-2]
        if len(r) == 2 and r[0] & 0x80:
            return ("exc", r[1])
        return ("reply", r)

    def real(self, n, a, framing):
        me = self.lib.modbus
        try:
            if n == "add":
                return ("slave", self.token(self.db.add_slave(a)))
            if n == "rm":
                self.db.remove_slave(a)
                return ("none",)
            if n == "rmall":
                self.db.remove_all_slaves()
                return ("none",)
            if n == "get":
                return ("slave", self.token(self.db.get_slave(a)))
            if n == "write":
                return self.send(a[0], P(6, 0, 0, 0, a[1]), framing)
            if n == "read":
                return self.send(a, P(3, 0, 0, 0, 1), framing)
            if n == "bcast":
                return self.send(0, P(6, 0, 0, 0, a), framing)
        except me.DuplicatedKeyError:
            return ("dup",)
        except me.MissingKeyError:
            return ("missing",)
        except Exception as e:   # noqa
            return ("error", repr(e))


@sched.scenario(REG, bound=(2, 3), cap=2, only=MODS)
def hist(w, lib, out, initial, progs):
    rig = Rig(w, lib)
    m = M()
    errs = []
    real_on_error = lambda args: errs.append(repr(args[1]))   # noqa
    lib.hooks.install_hook("modbus.Databank.on_error", real_on_error)
    for i in initial:
        s = rig.db.add_slave(i)
        s.add_block("h", 3, 0, 1)
        t = rig.token(s)
        m.slaves[i] = t
        m.regs[t] = 0
    h = lin.History(w)
    first = dict(m.slaves)

    def runner(k, prog):
        for n, a in prog:
            r = h.call(k, n, a, lambda: rig.real(n, a, "rtu" if k % 2 else "tcp"))
            if n == "add" and r[0] == "slave":
                t = r[1]
                s = [x for tk, x in rig.tokens.values() if tk == t][0]
                h.call(k, "block", t, lambda: (s.add_block("h", 3, 0, 1), ("none",))[1])
    w.trace = w.want_trace
    for k, prog in enumerate(progs):
        w.spawn(lambda k=k, prog=prog: runner(k, prog), "T%d" % k)

    def after(out, w):
        w.trace = False
        for op in h.ops:
            if op.end is None:
                return "operation %r never ended" % (op,)
            if op.result[0] == "error":
                return "operation %r: internal error" % (op,)
        if errs:
            return "internal error while a request was handled: %s" % errs[0]
        bc = [o for o in h.ops if o.name == "bcast"]
        for o in bc:
            if o.result != ("noreply",):
                return "broadcast got %r" % (o.result,)
        reg = {}
        for tk, s in rig.tokens.values():
            try:
                reg[tk] = s.get_values("h", 0, 1)[0]
            except lib.modbus.MissingKeyError:
                reg[tk] = None
        final_map = {}
        for i in range(1, 6):
            try:
                final_map[i] = rig.token(rig.db.get_slave(i))
            except lib.modbus.MissingKeyError:
                pass
        out.outcome = (tuple(repr(o.result)[:30] for o in h.ops), tuple(sorted(final_map.items())))
        if bc:
            # registers are judged apart: a broadcast is not one atomic step over all slaves
            touched = set()
            for o in h.ops:
                if o.name in ("rm", "add"):
                    touched.add(o.args)
                if o.name == "rmall":
                    touched |= set(range(256))
            for i, t in first.items():
                if i in touched:
                    continue
                writers = {o.args for o in bc} | {o.args[1] for o in h.ops if o.name == "write" and o.args[0] == i}
                if reg[t] not in writers:
                    return "slave %d was registered throughout but its register is %r after broadcast(s) %r" % (
                        i, reg[t], [o.args for o in bc])
            ops = [o for o in h.ops if o.name not in ("bcast", "read", "write", "block")]
            if not lin.linearizable(ops, m, apply, same, lambda mm: mm.slaves == final_map):
                return "no sequential order explains %r with final slaves %r" % (ops, final_map)
            return None
        if not lin.linearizable(h.ops, m, apply, same, lambda mm: mm.slaves == final_map and mm.regs == reg):
            return "no sequential order explains %r with final slaves %r values %r" % (h.ops, final_map, reg)
        return None
    out.after = after


A1, A2, A3, R1, R2, RA, G1, G2 = (("add", 1), ("add", 2), ("add", 3), ("rm", 1), ("rm", 2), ("rmall", None), ("get", 1),
                                  ("get", 2))
W1, D1, B7, B8 = ("write", (1, 5)), ("read", 1), ("bcast", 7), ("bcast", 8)


def jobs(tier, seed):
    js = []
    ops = [A1, R1, RA, G1, W1, D1, A2]
    for a, b in itertools.combinations_with_replacement(ops, 2):
        for init in ((), (1,)):
            if init == () and not (a[0] == "add" or b[0] == "add"):
                continue
            js.append((init, ((a,), (b,))))
    for other in ((A3,), (R2,), (RA,), (A3, R1), (R1, A1), (R2, A2), (W1,), (B8,), (R1, R2, A3), (G1, R1)):
        js.append(((1, 2), ((B7,), other)))
    js.append(((1, 2, 3), ((B7,), (R2, A2))))
    js.append(((1, 2, 3), ((B7,), (R1,), (A1,))))
    for progs in [((A1, W1), (A1, D1)), ((R1, A1), (W1, D1)), ((R1, A1), (G1, R1)), ((RA, A1), (A1, G1)), ((A1, R1), (A1, R1)),
                  ((A1,), (A1,), (A1,)), ((R1,), (R1,), (A1,)), ((W1,), (R1,), (A1,)), ((RA,), (A1,), (A2,)),
                  ((B7,), (A3,), (R1,)), ((W1, R1), (D1, A1))]:
        js.append(((1,), progs))
        js.append(((), progs))
    return [("top", ("hist", j)) for j in js]


def top(ctx, name, args):
    b = REG[name].bound[1 if ctx.thorough else 0]
    if len(args[1]) > 2 or (max(map(len, args[1])) > 1 and not ctx.thorough):
        b -= 1
    sched.root(ctx, REG, name, args, b)


def sub(ctx, name, args, bound, prefixes):
    sched.sub(ctx, REG, name, args, bound, prefixes)
