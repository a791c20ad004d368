"""C05: application access to blocks is exact, bounded and isolated; results are snapshots."""
import array
import itertools
import struct

from mc import ref, loader
from mc.dev import Dev

BOUNDS = ("every (block start, size up to 9, address from 2 before to 2 after, length 0..size+2, container kind, table), blocks of 300 / 35536 / "
          "65536 items with every length and place near a power of two, all "
          "65536 values as scalars, every sequence of accesses up to depth 3/4 over a small alphabet")


class Seq(list):
    pass


def containers(vals, typ):
    out = [("list", list(vals)), ("tuple", tuple(vals)), ("listsub", Seq(vals))]
    if vals and all(0 <= v <= 255 for v in vals):
        out.append(("bytearray", bytearray(vals)))
        out.append(("bytes", bytes(vals)))
    if vals and list(vals) == list(range(vals[0], vals[0] + len(vals))):
        out.append(("range", range(vals[0], vals[0] + len(vals))))
    if vals and all(0 <= v <= 65535 for v in vals):
        out.append(("array", array.array("H", vals)))
    return out


def layout(dev, uns, typ, start, size):
    blocks = [(typ, start, size, "x")]
    if start >= 3:
        blocks.append((typ, start - 3, 3, "before"))
    blocks.append((typ, start + size, 3, "after"))
    blocks += [(t, start, size, "t%d" % t) for t in (1, 2, 3, 4) if t != typ]
    dev.add_slave(1, uns, blocks)
    dev.add_slave(2, uns, blocks[:1])
    for sid in (1, 2):
        for k, (name, (t, st, vals)) in enumerate(list(dev.models[sid].blocks.items())):
            dev.fill(sid, name, st, [1 if t in (1, 2) else 100 * (k + 1) + i + sid * 1000 for i in range(len(vals))])


def set_(ctx, dev, name, addr, val, case, size=None):
    """application write on slave 1; model decides"""
    E = dev.lib.exceptions.OutOfModbusBlockError
    b = dev.models[1].blocks[name]
    seq = hasattr(val, "__len__")
    vals = list(val) if seq else [val]
    ok = b[1] <= addr and addr + len(vals) <= b[1] + len(b[2])
    ctx.trans()
    try:
        dev.slaves[1].set_values(name, addr, val)
    except E:
        if ok:
            ctx.fail("set_values(%r, %d, %r) refused as out of block" % (name, addr, val), case)
        return
    except Exception as e:   # noqa
        ctx.fail("set_values(%r, %d, %r) raised %r" % (name, addr, val, e), case)
        return
    if not ok:
        ctx.fail("set_values(%r, %d, %r) out of the block accepted" % (name, addr, val), case)
    o = addr - b[1]
    b[2][o:o + len(vals)] = vals


def get_(ctx, dev, name, addr, n, case):
    E = dev.lib.exceptions.OutOfModbusBlockError
    b = dev.models[1].blocks[name]
    ok = b[1] <= addr and addr + n <= b[1] + len(b[2])
    ctx.trans()
    try:
        got = dev.slaves[1].get_values(name, addr, n)
    except E:
        if ok:
            ctx.fail("get_values(%r, %d, %d) refused as out of block" % (name, addr, n), case)
        return None
    except Exception as e:   # noqa
        ctx.fail("get_values(%r, %d, %d) raised %r" % (name, addr, n, e), case)
        return None
    if not ok:
        ctx.fail("get_values(%r, %d, %d) out of the block returned %r" % (name, addr, n, got), case)
        return None
    want = tuple(b[2][addr - b[1]:addr - b[1] + n])
    if tuple(got) != want:
        ctx.fail("get_values(%r, %d, %d) returned %r instead of %r" % (name, addr, n, got, want), case)
    return got


def verify(ctx, dev, case, remote=True):
    errs = []
    try:
        if not dev.same(errs):
            ctx.fail(errs[0], case)
    except Exception as e:   # noqa
        ctx.fail("a block can not be read back: %r" % (e,), case)
    if remote:
        for name, (t, st, vals) in dev.models[1].blocks.items():
            if st + len(vals) > 65536 or not vals:
                continue
            got, err = dev.send(1, struct.pack(">BHH", t, st, len(vals)))
            d = ref.pack_bits(vals) if t in (1, 2) else ref.regs(vals)
            if err or got != bytes([t, len(d)]) + d:
                ctx.fail("remote read of block %s gives %s (%s) instead of %s" % (name, got and got.hex(), err, d.hex()), case)


def job_windows(ctx, uns, typ, start, sizes):
    with ctx.guard("access", 60) as g:
        for size in sizes:
            for addr in range(start - 2, start + size + 3):
                for n in range(0, size + 3):
                    g.again()
                    base = 1 if typ not in (1, 2) else 0
                    if typ in (1, 2):
                        vals = [(i + n) & 1 for i in range(n)]
                    else:
                        vals = [(n + 1) * 10 + i for i in range(n)]
                    for kind, c in containers(vals, typ):
                        dev = Dev()
                        layout(dev, uns, typ, start, size)
                        case = {"table": typ, "block": [start, size], "addr": addr, "values": vals, "container": kind}
                        if n == 0 and not (start <= addr <= start + size):
                            continue
                        keep = dev.slaves[1].get_values("x", start, size)
                        old = tuple(keep)
                        set_(ctx, dev, "x", addr, c, case)
                        verify(ctx, dev, case, remote=start + size + 3 <= 65536 and addr <= start + size)
                        if tuple(keep) != old:
                            ctx.fail("a result read earlier changed from %r to %r" % (old, keep), case)
                        if kind in ("list", "bytearray", "array", "listsub") and n:
                            # altering what was passed must not alter the stored values
                            for i in range(n):
                                c[i] = 99
                            verify(ctx, dev, dict(case, then="the sequence passed in was altered"), remote=False)
                        ctx.trace()
                        ctx.state((typ, start, size, addr, n, kind))
                    # reads
                    dev = Dev()
                    layout(dev, uns, typ, start, size)
                    if n:
                        get_(ctx, dev, "x", addr, n, {"table": typ, "block": [start, size], "addr": addr, "n": n})
                    # one value, not in a sequence
                    v = 1 if typ in (1, 2) else 7
                    if n == 1:
                        case = {"table": typ, "block": [start, size], "addr": addr, "value": v}
                        set_(ctx, dev, "x", addr, v, case)
                        verify(ctx, dev, case, remote=False)
    ctx.sample({"table": typ, "start": start, "sizes": list(sizes)})


def job_values(ctx, uns, lo, hi):
    dev = Dev()
    dev.add_slave(1, uns, [(3, 10, 5, "h"), (4, 10, 5, "i"), (3, 15, 1, "h2"), (1, 10, 3, "c")])
    f = ref.u16 if uns else ref.s16
    with ctx.guard("access", 60) as g:
        for v in range(lo, hi):
            x = f(v)
            a = 10 + v % 5
            name = "h" if v & 1 else "i"
            set_(ctx, dev, name, a, x if v % 3 else [x], {"value": x})
            get_(ctx, dev, name, a, 1, {"value": x})
            if v % 64 == 0:
                g.again()
                ctx.trace()
                ctx.state((uns, v))
                verify(ctx, dev, {"value": x})


def job_missing(ctx):
    """unknown names"""
    dev = Dev()
    layout(dev, True, 3, 10, 4)
    M = dev.lib.exceptions.MissingKeyError
    for name in ("nope", "", None, 3):
        for fn in (lambda: dev.slaves[1].get_values(name, 10, 1), lambda: dev.slaves[1].set_values(name, 10, [1])):
            ctx.trans()
            ctx.trace()
            ctx.state(("missing", name))
            try:
                fn()
                ctx.fail("access to unknown block %r did not raise" % (name,), {})
            except M:
                pass
            except Exception as e:   # noqa
                ctx.fail("access to unknown block %r raised %r" % (name, e), {})
            verify(ctx, dev, {"name": name})


def job_sequences(ctx, typ, part, parts, depth):
    """sequences of sets and gets; every earlier result must stay what it was"""
    bit = typ in (1, 2)
    V = (0, 1) if bit else (7, 8)
    ops = []
    for name, st in (("x", 10), ("y", 13)):
        for a in (st, st + 1, st + 2):
            ops.append(("set", name, a, V[1]))
        ops += [("set", name, st, [V[1], V[0], V[1]]), ("set", name, st + 1, (V[0], V[1])), ("set", name, st + 2, [V[1], V[1]]),
                ("set", name, st - 1, [V[0]]), ("set", name, st, [V[0]] * 4), ("get", name, st, 3), ("get", name, st + 1, 1),
                ("get", name, st + 2, 2)]
    ops += [("remote", 10, 2), ("remote", 13, 3)]
    with ctx.guard("access", 60) as g:
        for k, hist in enumerate(itertools.product(ops, repeat=depth)):
            if k % parts != part:
                continue
            g.again()
            dev = Dev()
            dev.add_slave(1, True, [(typ, 10, 3, "x"), (typ, 13, 3, "y")])
            results = []
            for op in hist:
                case = {"table": typ, "history": hist}
                if op[0] == "set":
                    set_(ctx, dev, op[1], op[2], op[3], case)
                elif op[0] == "get":
                    r = get_(ctx, dev, op[1], op[2], op[3], case)
                    if r is not None:
                        results.append((r, tuple(r)))
                elif not bit and typ == 3:
                    n = op[2]
                    vals = [50 + i for i in range(n)]
                    pdu = struct.pack(">BHHB", 16, op[1], n, 2 * n) + ref.regs(vals)
                    dev.models[1].handle(pdu)
                    dev.send(1, pdu)
                elif typ == 1:
                    n = op[2]
                    pdu = struct.pack(">BHHB", 15, op[1], n, 1) + b"\xff"
                    dev.models[1].handle(pdu)
                    dev.send(1, pdu)
                for r, old in results:
                    if tuple(r) != old:
                        ctx.fail("a result read earlier changed", case)
            verify(ctx, dev, {"table": typ, "history": hist}, remote=k % 7 == 0)
            ctx.trace()
            ctx.state((typ, hist))


def job_big(ctx, typ, start, size):
    """blocks as long as the address space: every length near a power of two, every place near one"""
    bit = typ in (1, 2)
    marks = sorted({x for p in range(17) for x in ((1 << p) - 1, 1 << p, (1 << p) + 1)} | {100, 125, 126, 1000, 2000, 2001, 10000, 60000})
    dev = Dev()
    dev.add_slave(1, True, [(typ, start, size, "x")])
    k = 0
    with ctx.guard("access", 60) as g:
        for off in [0] + [m for m in marks if m < size] + [size - m for m in marks if 0 < m < size]:
            for n in marks:
                if n == 0 or not ctx.thorough and n > 5000 and off not in (0, 1, size - n, size - n + 1):
                    continue
                k += 1
                g.again()
                case = {"table": typ, "block": [start, size], "addr": start + off, "n": n}
                vals = [(i * 7 + k >> 2) & 1 for i in range(n)] if bit else [(i * 257 + k) & 0xFFFF for i in range(n)]
                # every kind of sequence in turn: plain 0/1 or 0..255 values fit them all
                if k % 3 == 0 and not bit:
                    vals = [v & 0xFF for v in vals]
                if k % 3 == 1 and not bit:
                    vals = list(range(n))
                kinds = containers(vals, typ)
                kind, val = kinds[k % len(kinds)]
                case["kind"] = kind
                set_(ctx, dev, "x", start + off, val, case)
                get_(ctx, dev, "x", start + off, n, case)
                if n <= size - off:
                    lo = max(0, off - 2)
                    m = min(size, off + n + 2) - lo
                    get_(ctx, dev, "x", start + lo, m, case)
                if k % 16 == 0:
                    verify(ctx, dev, case, remote=False)
                ctx.trace()
                ctx.state(("big", typ, start, size, off, n))
        for a in range(start, start + size):
            if (a - start) % 1024 == 0:
                g.again()
            set_(ctx, dev, "x", a, 1 if bit else a ^ 0x5A5A, {"table": typ, "addr": a})
            get_(ctx, dev, "x", a, 1, {"table": typ, "addr": a})
        verify(ctx, dev, {"table": typ, "block": [start, size]}, remote=False)


def jobs(tier, seed):
    t = tier == "thorough"
    out = []
    big = [("job_big", (typ, st, sz)) for typ in (1, 2, 3, 4) for st, sz in ((0, 65536), (30000, 35536), (100, 300))]
    for typ in (1, 2, 3, 4):
        for start in (0, 5, 65528) if t else (0, 5):
            for size in range(1, 15 if t else 8):
                out.append(("job_windows", (typ % 2 == 1 or typ < 3, typ, start, (size,))))
        out += [("job_sequences", (typ, i, 8, 3 if t else 2)) for i in range(8 if t else 1)] if not t else \
               [("job_sequences", (typ, i, 8, 3)) for i in range(8)]
    if not t:
        out = [j for j in out if j[0] != "job_sequences"]
        out += [("job_sequences", (3, i, 16, 3)) for i in range(16)]
        out += [("job_sequences", (typ, 0, 1, 2)) for typ in (1, 2, 4)]
    for uns in (True, False):
        out += [("job_values", (uns, lo, lo + 16384)) for lo in range(0, 65536, 16384)]
    out.append(("job_missing", ()))
    return out + big
