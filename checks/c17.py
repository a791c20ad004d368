"""C17: requests and application accesses on a slave are atomic.

Threads send requests to a real Databank (TCP or RTU framing, as the server threads do) and use the application API of
the same slave, under every interleaving within the preemption bound; each history (results and final state) must be
explained by a sequential order consistent with real time of the reference model.
"""
import itertools

from mc import lin, ref, sched
from mc.dev import Dev

BOUNDS = ("2 threads x 1-2 operations and 3 threads x 1 operation out of 18 request / application operations on shared "
          "addresses; preemption bound quick 1 (and 2 for 19 conflicting pairs), thorough 2 (and 3); also requests of up to 256 items, and writes lasting 3 and 30 s; "
          "scheduling points: every shared access of modbus_tk, each location at most 2 times per thread (once with the "
          "deeper bound)")
REG = {}


def P(*b):
    return bytes(b)


REQ = {
    "wmr": P(16, 0, 0, 0, 4, 8, 0, 11, 0, 12, 0, 13, 0, 14),
    "wmr2": P(16, 0, 2, 0, 4, 8, 0, 21, 0, 22, 0, 23, 0, 24),
    "rh": P(3, 0, 0, 0, 6),
    "mask": P(22, 0, 2, 0xFF, 0xF0, 0, 0x05),
    "mask2": P(22, 0, 2, 0xFF, 0x0F, 0, 0x50),
    "rw": P(23, 0, 0, 0, 6, 0, 1, 0, 3, 6, 0, 31, 0, 32, 0, 33),
    "wr": P(6, 0, 2, 0, 77),
    "wmc": P(15, 0, 0, 0, 10, 2, 0xFF, 3),
    "wc": P(5, 0, 9, 0xFF, 0),
    "rc": P(1, 0, 0, 0, 12),
    "rh2": P(3, 0, 100, 0, 2),
    "wr2": P(6, 0, 101, 0, 55),
    "rstraddle": P(3, 0, 98, 0, 4),
    "wmrL": P(16, 4, 0, 0, 123, 246) + bytes(range(1, 247)),
    "wmrL2": P(16, 4, 50, 0, 100, 200) + bytes(range(201, 1, -1)),
    "rhL": P(3, 4, 0, 0, 125),
    "rwL": P(23, 4, 20, 0, 100, 4, 0, 0, 121, 242) + bytes((i * 7) & 0xFF for i in range(242)),
    "wmcL": P(15, 8, 0, 1, 0, 32) + b"\xA7" * 32,
    "rcL": P(1, 8, 0, 1, 0x2C),
}
INIT = [("h", 3, 0, [1, 2, 3, 4, 5, 6]), ("c", 1, 0, [0] * 12), ("g", 3, 90, [9] * 10)]
BIG = [("L", 3, 1024, [7] * 150), ("K", 1, 2048, [0] * 300)]


class M(ref.RefSlave):
    def copy(self):
        s = M(self.unsigned)
        s.blocks = {k: [b[0], b[1], list(b[2])] for k, b in self.blocks.items()}
        return s


def apply(m, op):
    m = m.copy()
    n, a = op.name, op.args
    if n == "req":
        try:
            return m, ("reply", m.handle(REQ[a[0]]))
        except ref.Refused as e:
            return m, ("exc", frozenset(e.codes))
    if n == "set":
        name, addr, vals = a
        b = m.blocks.get(name)
        if b is None or addr < b[1] or addr + len(vals) > b[1] + len(b[2]):
            return m, ("raise",)
        b[2][addr - b[1]:addr - b[1] + len(vals)] = list(vals)
        return m, ("none",)
    if n == "get":
        name, addr, size = a
        b = m.blocks.get(name)
        if b is None or addr < b[1] or addr + size > b[1] + len(b[2]):
            return m, ("raise",)
        return m, ("values", tuple(b[2][addr - b[1]:addr - b[1] + size]))
    if n == "add":
        name, typ, start, size = a
        if not m.can_add(name, typ, start, size):
            return m, ("raise",)
        m.add(name, typ, start, size)
        return m, ("none",)
    if n == "rm":
        if a[0] not in m.blocks:
            return m, ("raise",)
        del m.blocks[a[0]]
        return m, ("none",)
    if n == "rmall":
        m.blocks.clear()
        return m, ("none",)
    raise AssertionError(n)


def same(exp, got):
    if exp[0] == "exc":
        return got[0] == "reply" and len(got[1]) == 2 and got[1][0] >= 0x80 and got[1][1] in exp[1]
    return exp == got


OPS = {k: ("req", (k,)) for k in REQ}
OPS.update({
    "set": ("set", ("h", 1, (41, 42, 43, 44))),
    "set1": ("set", ("h", 2, (45,))),
    "setg": ("set", ("n", 100, (7, 8))),
    "get": ("get", ("h", 0, 6)),
    "getc": ("get", ("c", 0, 12)),
    "getn": ("get", ("n", 100, 2)),
    "setc": ("set", ("c", 4, (1, 1, 1, 1, 1, 1))),
    "setL": ("set", ("L", 1024, tuple(range(5000, 5150)))),
    "getL": ("get", ("L", 1024, 150)),
    "setCL": ("set", ("K", 2048, (1, 0, 1) * 100)),
    "getCL": ("get", ("K", 2048, 300)),
    "add": ("add", ("n", 3, 100, 4)),
    "addo": ("add", ("o", 3, 102, 4)),
    "addn": ("add", ("n", 3, 200, 4)),
    "rm": ("rm", ("h",)),
    "rmn": ("rm", ("n",)),
    "rmall": ("rmall", ()),
})


def real(dev, s, name, a, framing):
    me = dev.lib.modbus
    if name == "req":
        got, err = dev.send(1, REQ[a[0]], framing)
        if err:
            return ("error", err)
        return ("reply", got)
    try:
        if name == "set":
            r = s.set_values(a[0], a[1], list(a[2]) if len(a[2]) > 1 else a[2][0])
        elif name == "get":
            return ("values", s.get_values(*a))
        elif name == "add":
            r = s.add_block(*a)
        elif name == "rm":
            r = s.remove_block(*a)
        elif name == "rmall":
            r = s.remove_all_blocks()
    except (me.MissingKeyError, me.DuplicatedKeyError, me.OutOfModbusBlockError, me.OverlapModbusBlockError,
            me.InvalidArgumentError):
        return ("raise",)
    except Exception as e:   # noqa
        return ("error", repr(e))
    return ("none",)


MODS = ("modbus", "hooks")


@sched.scenario(REG, cap=2, only=MODS)
def hist2(w, lib, out, progs, unsigned, pre):
    hist(w, lib, out, progs, unsigned, pre)


@sched.scenario(REG, cap=1, only=MODS)
def hist1(w, lib, out, progs, unsigned, pre):
    hist(w, lib, out, progs, unsigned, pre)


@sched.scenario(REG, bound=(0, 1), cap=1, only=MODS)
def slow(w, lib, out, progs, unsigned, pre, seconds):
    """every write lasts: those who wait, wait for its end"""
    lib.hooks.install_hook("modbus.ModbusBlock.setitem", lambda args: w.sleep(seconds) if w.trace else None)
    hist(w, lib, out, progs, unsigned, pre)


def hist(w, lib, out, progs, unsigned, pre):
    dev = Dev(lib)
    s = dev.db.add_slave(1, unsigned)
    m = M(unsigned)
    big = any(k.endswith("L") or k == "wmrL2" for p in progs for k in p)
    for name, typ, start, vals in INIT + (BIG if big else []):
        s.add_block(name, typ, start, len(vals))
        s.set_values(name, start, list(vals))
        m.add(name, typ, start, len(vals))
        m.blocks[name][2][:] = vals
    dev.slaves[1], dev.models[1] = s, m
    for k in pre:
        n, a = OPS[k]
        real(dev, s, n, a, "tcp")
        m, _e = apply(m, lin.Op(0, n, a, 0))
    h = lin.History(w)

    def runner(i, prog):
        for k in prog:
            n, a = OPS[k]
            h.call(i, n, a, lambda: real(dev, s, n, a, "tcp" if i % 2 else "rtu"))
    w.trace = w.want_trace
    for i, prog in enumerate(progs):
        w.spawn(lambda i=i, prog=prog: runner(i, prog), "T%d" % i)

    def after(out, w):
        w.trace = False
        for op in h.ops:
            if op.end is None:
                return "operation %r never ended" % (op,)
            if op.result[0] == "error":
                return "operation %r: internal error" % (op,)

        def final(mm):
            if not ref.same_slave(s, mm):
                return False
            # every block the model has is there, nothing else answers
            for name in ("h", "c", "g", "n", "o"):
                if name not in mm.blocks:
                    try:
                        s.get_values(name, 0, 0)
                        return False
                    except lib.modbus.MissingKeyError:
                        pass
            for typ, fc, addrs in ((3, 3, (0, 5, 6, 90, 100, 103, 105, 200)), (1, 1, (0, 11, 12))):
                for addr in addrs:
                    got, err = dev.send(1, bytes([fc, addr >> 8, addr & 255, 0, 1]), "tcp")
                    if err or (got[0] >= 0x80) != (mm.find(typ, addr, 1) is None):
                        return False
            return True
        fin = {}

        def final1(mm):
            k = mm.key()
            if k not in fin:
                try:
                    fin[k] = final(mm)
                except Exception:   # noqa
                    fin[k] = False
            return fin[k]
        out.outcome = tuple(repr(o.result)[:40] for o in h.ops)
        with_world = lin.linearizable(h.ops, m, apply, same, final1)
        if not with_world:
            return "no sequential order explains %r with final %s" % (h.ops, state(s))
        return None
    out.after = after


def state(s):
    r = {}
    for name, start, n in (("h", 0, 6), ("c", 0, 12), ("g", 90, 10), ("n", 100, 4), ("n", 200, 4), ("o", 102, 4)):
        try:
            r[name] = s.get_values(name, start, n)
        except Exception as e:   # noqa
            r[name] = type(e).__name__
    return r


HOLD = ["wmr", "wmr2", "rh", "mask", "mask2", "rw", "wr", "set", "set1", "get"]
COIL = ["wmc", "wc", "rc", "setc", "getc"]
REGY = ["add", "addo", "addn", "rm", "rmn", "rmall", "rh2", "wr2", "rstraddle", "setg", "getn"]
LARGE = ["wmrL", "wmrL2", "rhL", "rwL", "setL", "getL"]
LARGEC = ["wmcL", "rcL", "setCL", "getCL"]
DEEP = [("wmr", "rh"), ("wmr", "wmr2"), ("mask", "mask2"), ("mask", "wr"), ("rw", "wmr"), ("set", "rh"), ("wmr", "get"),
        ("wmr", "set"), ("mask", "set1"), ("wmc", "rc"), ("wmc", "setc"), ("add", "addo"), ("add", "addn"), ("add", "rh2"),
        ("rmn", "wr2"), ("rmall", "add"), ("rw", "rw"), ("wc", "getc"), ("set", "get")]


def jobs(tier, seed):
    js = []
    th = tier == "thorough"
    for group in (HOLD, COIL, REGY):
        for a, b in itertools.combinations_with_replacement(group, 2):
            pre = ("add",) if (a in ("rmn", "rmall", "wr2", "setg", "getn", "rh2") and "add" not in (a, b)) else ()
            deep = (a, b) in DEEP or (b, a) in DEEP
            js.append(("top", ("hist2", (((a,), (b,)), True, pre), 2 if th else 1)))
            if deep:
                js.append(("top", ("hist1", (((a,), (b,)), True, pre), 3 if th else 2)))
    for group in (LARGE, LARGEC):
        for a, b in itertools.combinations_with_replacement(group, 2):
            js.append(("top", ("hist2", (((a,), (b,)), True, ()), 2 if th else 1)))
    for a, b in (("wmrL", "getL"), ("wmrL", "rhL"), ("rwL", "setL"), ("wmcL", "getCL")) + ((("wmrL", "wmrL2"), ("wmcL", "rcL"), ("setCL", "wmcL")) if th else ()):
        js.append(("top", ("hist1", (((a,), (b,)), True, ()), 3 if th else 2)))
    for seconds in (3.0, 30.0):
        for progs in [(("wmr",), ("rh",)), (("wr",), ("mask",)), (("wr",), ("set1",)), (("set",), ("wmr",)), (("wr",), ("get",)), (("wc",), ("rc",)), (("wr", "rh"), ("wr", "rh")),
                      (("wr",), ("rm",)), (("set",), ("rmall",)), (("set1",), ("mask",), ("get",)), (("mask",), ("mask2",)), (("rw",), ("rh",))]:
            js.append(("top", ("slow", (progs, True, (), seconds), 1 if th else 0)))
    for progs in [(("wmr", "rh"), ("wmr2", "rh")), (("add", "setg"), ("rm", "getn")), (("mask", "mask"), ("mask2", "mask2")),
                  (("add", "rmn"), ("addo", "rh2")), (("set", "get"), ("rw", "wr")), (("rmall", "add"), ("addo", "wr2")),
                  (("wmc", "rc"), ("setc", "getc"))]:
        js.append(("top", ("hist2", (progs, True, ()), 2 if th else 1)))
    for progs in [(("wmr",), ("wmr2",), ("rh",)), (("mask",), ("mask2",), ("wr",)), (("add",), ("addo",), ("rh2",)),
                  (("wmr",), ("rm",), ("get",)), (("rmall",), ("add",), ("set",)), (("wmc",), ("rc",), ("setc",))]:
        js.append(("top", ("hist2", (progs, True, ()), 2 if th else 1)))
    js.append(("top", ("hist2", ((("wmr",), ("mask",)), False, ()), 1)))
    js.append(("top", ("hist2", ((("rw",), ("set",)), False, ()), 1)))
    return js


def top(ctx, name, args, bound):
    sched.root(ctx, REG, name, args, bound)


def sub(ctx, name, args, bound, prefixes):
    sched.sub(ctx, REG, name, args, bound, prefixes)
