"""C02: accepted writes change exactly the addressed items and are acknowledged as specified."""
import itertools
import struct

from mc import ref
from mc.dev import Dev, step
from checks.c01 import lcg

BOUNDS = ("all 65536 register values, all 65536 addresses with each writing function (one block, or 64), all coil and register quantities (1..1968, 1..123, 1..121), all bits of the mask "
          "write and a 24-value boundary cube of (stored, and, or), read/write windows in every relative position, and "
          "breadth-first search of all write sequences over a small memory")

EDGE = (0, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFF00, 0xFFFE, 0xFFFF, 0x5555, 0xAAAA,
        0x00F0, 0x0F0F, 0xF2, 0x25, 0x1234, 0xEDCB, 0x4000, 0xBFFF)


def p5(a, v):
    return struct.pack(">BHH", 5, a, v)


def p6(a, v):
    return struct.pack(">BHH", 6, a, v & 0xFFFF)


def p15(a, vals):
    d = ref.pack_bits(vals)
    return struct.pack(">BHHB", 15, a, len(vals), len(d)) + d


def p16(a, vals):
    return struct.pack(">BHHB", 16, a, len(vals), 2 * len(vals)) + ref.regs(vals)


def p22(a, am, om):
    return struct.pack(">BHHH", 22, a, am, om)


def p23(ra, rn, wa, vals):
    return struct.pack(">BHHHHB", 23, ra, rn, wa, len(vals), 2 * len(vals)) + ref.regs(vals)


def mk(unsigned, regs=6, coils=12, other=True):
    dev = Dev()
    blocks = [(3, 10, regs, "h"), (3, 10 + regs, 3, "h2"), (3, 5, 5, "h0"), (1, 20, coils, "c"), (1, 20 + coils, 4, "c2"),
              (1, 16, 4, "c0"), (4, 10, regs, "i"), (2, 20, coils, "d")]
    dev.add_slave(1, unsigned, blocks)
    if other:
        dev.add_slave(2, not unsigned, blocks)
    f = ref.u16 if unsigned else ref.s16
    for sid in dev.models:
        g = f if sid == 1 else (ref.s16 if unsigned else ref.u16)
        for name, (typ, st, vals) in list(dev.models[sid].blocks.items()):
            dev.fill(sid, name, st, [((i * 5 + st) >> 1) & 1 if typ in (1, 2) else g(40000 + sid * 7 + typ * 100 + i * 3001)
                                     for i in range(len(vals))])
    return dev


def job_single_values(ctx, unsigned, lo, hi):
    dev = mk(unsigned, other=False)
    with ctx.guard("writing", 60) as g:
        for v in range(lo, hi):
            a = 10 + v % 6
            ctx.trans()
            ctx.trace()
            full = v % 64 == 0
            e = step(dev, 1, p6(a, v), "tcp" if v & 1 else "rtu", check_all=full)
            if e is None and not full:
                want = dev.models[1].blocks["h"][2][a - 10]
                got = dev.slaves[1].get_values("h", a, 1)
                if got != (want,):
                    e = "register %d holds %r after writing %d" % (a, got, v)
            if e:
                ctx.fail(e, {"fc": 6, "unsigned": unsigned, "addr": a, "value": v})
            if full:
                g.again()
                ctx.state((unsigned, v))


def job_coils(ctx, unsigned, framing):
    """FC 15: every quantity, several contents and offsets, with neighbours set to the opposite value"""
    dev = Dev()
    size = 1968 + 12
    dev.add_slave(1, unsigned, [(1, 100, size, "c"), (1, 100 + size, 9, "c2"), (1, 90, 10, "c0"), (2, 100, size, "d")])
    mix = [v & 1 for v in lcg(size + 20, 5)]
    step_n = 1
    with ctx.guard("writing", 60) as g:
        for n in list(range(1, 60)) + list(range(60, 1968, 1 if ctx.thorough else 13)) + list(range(1950, 1969)):
            g.again()
            for o in (0, 5, size - n) if n < 100 or ctx.thorough else (3,):
                if o < 0 or o + n > size:
                    continue
                for kind in (0, 1, 2):
                    if kind == 0:
                        dev.fill(1, "c", 100, [1] * size)
                        vals = [0] * n
                    elif kind == 1:
                        dev.fill(1, "c", 100, [0] * size)
                        vals = [1] * n
                    else:
                        vals = [mix[(i + n) % size] for i in range(n)]
                    ctx.trans()
                    ctx.trace()
                    e = step(dev, 1, p15(100 + o, vals), framing)
                    if e:
                        ctx.fail(e, {"fc": 15, "unsigned": unsigned, "addr": 100 + o, "n": n, "kind": kind})
                    ctx.state((unsigned, n, o, kind))


def job_coil_bytes(ctx, unsigned):
    """FC 15: every byte value for 1..16 coils; FC 5 both values at every address"""
    dev = mk(unsigned, coils=20, other=False)
    with ctx.guard("writing", 60):
        for n in range(1, 17):
            for b in range(256):
                for b2 in ((0, 0xFF, b) if n > 8 else (0,)):
                    # bits past n in the last byte are to be ignored
                    d = bytes([b]) if n <= 8 else bytes([b, b2])
                    pdu = struct.pack(">BHHB", 15, 21, n, len(d)) + d
                    ctx.trans()
                    ctx.trace()
                    e = step(dev, 1, pdu)
                    if e:
                        ctx.fail(e, {"fc": 15, "n": n, "data": d.hex()})
                    ctx.state((unsigned, n, b, b2))
        for a in list(range(16, 44)):
            for v in (0xFF00, 0, 0xFF00):
                ctx.trans()
                ctx.trace()
                e = step(dev, 1, p5(a, v), "rtu")
                if e:
                    ctx.fail(e, {"fc": 5, "addr": a, "value": v})


def job_regs(ctx, unsigned, framing):
    dev = Dev()
    size = 123 + 5
    dev.add_slave(1, unsigned, [(3, 100, size, "h"), (3, 100 + size, 9, "h2"), (3, 90, 10, "h0"), (4, 100, size, "i")])
    mix = lcg(400, 3)
    with ctx.guard("writing", 60) as g:
        for n in range(1, 124):
            g.again()
            for o in sorted(o for o in {0, 1, 4, size - n} if 0 <= o and o + n <= size):
                for vals in ([0] * n, [0xFFFF] * n, [0x8000 + i for i in range(n)], [mix[n + i] for i in range(n)]):
                    ctx.trans()
                    ctx.trace()
                    e = step(dev, 1, p16(100 + o, vals), framing)
                    if e:
                        ctx.fail(e, {"fc": 16, "unsigned": unsigned, "addr": 100 + o, "n": n})
            ctx.state((unsigned, n))


def job_mask(ctx, unsigned, part, parts):
    dev = mk(unsigned, other=False)
    f = ref.u16 if unsigned else ref.s16
    combos = list(itertools.product(EDGE, EDGE, EDGE))[part::parts]
    with ctx.guard("writing", 60):
        for i, (cur, am, om) in enumerate(combos):
            a = 10 + (cur ^ am) % 6
            dev.fill(1, "h", a, [f(cur)])
            ctx.trans()
            ctx.trace()
            e = step(dev, 1, p22(a, am, om), "tcp", check_all=(i % 16 == 0))
            if e is None:
                got = dev.slaves[1].get_values("h", a, 1)
                want = (dev.models[1].blocks["h"][2][a - 10],)
                if got != want:
                    e = "mask write and=%04x or=%04x of %04x stored %r instead of %r" % (am, om, cur, got, want)
            if e is None and i % 8 == 0:
                e = step(dev, 1, struct.pack(">BHH", 3, 10, 6), check_all=False)
            if e:
                ctx.fail(e, {"fc": 22, "unsigned": unsigned, "current": cur, "and": am, "or": om})
            ctx.state((unsigned, cur, am, om))


def job_rw(ctx, unsigned):
    """FC 23: read window and write window in every relative position inside and across two blocks"""
    dev = Dev()
    n = 6
    dev.add_slave(1, unsigned, [(3, 50, n, "h"), (3, 50 + n, n, "h2"), (4, 50, 2 * n, "i")])
    k = 0
    with ctx.guard("writing", 60) as g:
        for base_r in (50, 50 + n):
            for base_w in (50, 50 + n):
                for ra in range(n):
                    for rn in range(1, n - ra + 1):
                        g.again()
                        for wa in range(n):
                            for wn in range(1, n - wa + 1):
                                k += 1
                                vals = [(k * 257 + 0x7FF0 * i + 11 * i) & 0xFFFF for i in range(wn)]
                                ctx.trans()
                                ctx.trace()
                                e = step(dev, 1, p23(base_r + ra, rn, base_w + wa, vals), "tcp" if k & 1 else "rtu")
                                if e:
                                    ctx.fail(e, {"fc": 23, "unsigned": unsigned, "read": [base_r + ra, rn],
                                                 "write": [base_w + wa, wn]})
                                ctx.state((unsigned, base_r, base_w, ra, rn, wa, wn))


def job_rw_big(ctx, unsigned):
    dev = Dev()
    dev.add_slave(1, unsigned, [(3, 0, 300, "h")])
    with ctx.guard("writing", 60) as g:
        for rn in range(1, 126):
            g.again()
            for wn in (1, 2, 60, 120, 121, max(1, min(121, rn))):
                vals = [(rn * 331 + i * 523) & 0xFFFF for i in range(wn)]
                for ra, wa in ((0, 0), (100, 50), (50, 100), (175, 179)):
                    ctx.trans()
                    ctx.trace()
                    e = step(dev, 1, p23(ra, rn, wa, vals), check_all=(wa == 100))
                    if e:
                        ctx.fail(e, {"fc": 23, "read": [ra, rn], "write": [wa, wn]})
            ctx.state((unsigned, rn))


def bfs_ops(first, unsigned):
    ops = []
    for a in (10, 12):
        for v in (0, 1, 0x8000, 0xFFFF):
            ops.append(p6(a, v))
    ops += [p5(20, 0xFF00), p5(20, 0), p5(21, 0xFF00), p5(21, 0)]
    ops += [p15(20, v) for v in ((1, 1), (0, 0), (1, 0), (0, 1), (1, 1, 1), (0, 1, 0))]
    ops += [p16(10, v) for v in ((1, 0x8000), (0xFFFF, 0), (0, 0, 0), (0x7FFF, 0xFFFF, 1))] + [p16(11, (0x8000, 1))]
    ops += [p22(a, am, om) for a in (10, 11) for am, om in ((0, 0), (0xFFFF, 0), (0, 0xFFFF), (0x7FFF, 0x8000), (0x00FF, 0x8001))]
    ops += [p23(10, 3, 10, (1, 2)), p23(10, 2, 11, (0x8000,)), p23(11, 2, 10, (0xFFFF, 0)), p23(12, 1, 10, (0,))]
    ops += [struct.pack(">BHH", fc, 10 if fc > 2 else 20, 3) for fc in (1, 2, 3, 4)]
    return ops


def job_bfs(ctx, unsigned, part, parts, depth, cap):
    """breadth-first search over all sequences of writes and reads; slave 2 must never change"""
    dev = Dev()
    for sid in (1, 2):
        dev.add_slave(sid, unsigned, [(3, 10, 3, "h"), (1, 20, 3, "c"), (4, 10, 3, "i"), (2, 20, 3, "d")])
        dev.fill(sid, "i", 10, [1, 2, 3])
        dev.fill(sid, "d", 20, [1, 0, 1])
    dev.fill(2, "h", 10, [7, 8, 9])
    dev.fill(2, "c", 20, [1, 0, 1])
    ops = bfs_ops(None, unsigned)
    init = dev.models[1].copy()
    seen = {init.key()}
    frontier = [(init, ())]
    with ctx.guard("writing", 60) as g:
        for d in range(depth):
            nxt = []
            for st, hist in frontier:
                g.again()
                for k, op in enumerate(ops):
                    if d == 0 and k % parts != part:
                        continue
                    if ctx.out_of_time():
                        ctx.capped = True
                        return
                    dev.models[1] = st.copy()
                    ref.load_slave(dev.slaves[1], st)
                    ctx.trans()
                    ctx.trace()
                    e = step(dev, 1, op, "tcp" if k & 1 else "rtu")
                    if e:
                        ctx.fail(e, {"history": [o.hex() for o in hist + (op,)], "unsigned": unsigned})
                    key = dev.models[1].key()
                    if key not in seen and len(seen) < cap:
                        seen.add(key)
                        ctx.state((unsigned, key))
                        nxt.append((dev.models[1].copy(), hist + (op,)))
            frontier = nxt
    ctx.note("bfs_depth", depth)
    ctx.sample({"history": [o.hex() for o in frontier[0][1]] if frontier else []})


def job_mixed(ctx, unsigned):
    """application writes, then remote ones, then application reads: same cells (both directions)"""
    dev = mk(unsigned)
    f = ref.u16 if unsigned else ref.s16
    with ctx.guard("writing", 60):
        for v in EDGE:
            for w in EDGE:
                dev.fill(1, "h", 11, [f(v), f(w)])
                for pdu in (struct.pack(">BHH", 3, 10, 6), p6(12, w ^ 0x8001), p22(11, v, w), p16(10, (v, w, v)),
                            p23(10, 6, 13, (w, v))):
                    ctx.trans()
                    ctx.trace()
                    e = step(dev, 1, pdu)
                    if e:
                        ctx.fail(e, {"app wrote": [v, w], "unsigned": unsigned})
                ctx.state((unsigned, v, w))


def job_addresses(ctx, unsigned, lo, hi, split):
    """every address of the tables, each writing function; `split`: the table is one block, or blocks of 1024 items"""
    dev = Dev()
    blk = 1024 if split else 65536
    dev.add_slave(1, unsigned, [(t, st, blk, "%d_%d" % (t, st)) for t in (1, 2, 3, 4) for st in range(0, 65536, blk)])
    f = ref.u16 if unsigned else ref.s16
    for name, (typ, st, vals) in dev.models[1].blocks.items():
        dev.fill(1, name, st, [((st + i) * 7 >> 2) & 1 if typ in (1, 2) else f((st + i) * 40503 + typ) for i in range(blk)])

    def local(typ, a):
        for name, (t, st, vals) in dev.models[1].blocks.items() if not split else \
                [("%d_%d" % (typ, a // blk * blk), dev.models[1].blocks["%d_%d" % (typ, a // blk * blk)])]:
            if t == typ and st <= a < st + len(vals):
                o = max(0, a - st - 1)
                n = min(5, len(vals) - o)
                got = dev.slaves[1].get_values(name, st + o, n)
                if tuple(got) != tuple(vals[o:o + n]):
                    return "the items from address %d are %r instead of %r" % (st + o, got, tuple(vals[o:o + n]))

    if split:      # the reference looks its blocks up in a table here
        def find(typ, addr, n):
            b = dev.models[1].blocks.get("%d_%d" % (typ, addr // blk * blk))
            return b if b and addr + n <= b[1] + blk else None
        dev.models[1].find = find
    with ctx.guard("writing", 60) as g:
        for a in range(lo, hi):
            v = (a * 2654435761 >> 7) & 0xFFFF
            for pdu in (p6(a, v), p5(a, 0xFF00 if not dev_bit(dev, a, blk) else 0), p22(a, v ^ 0xFF0, a), p16(a, (v ^ a, a)),
                        p15(a, (a & 1, v & 1, 1 - (a & 1))), p23(a ^ 0x8000, 1, a, (~a & 0xFFFF,)), p23(a, 1, a ^ 0x4000, (v,))):
                ctx.trans()
                ctx.trace()
                e = step(dev, 1, pdu, "tcp" if a & 1 else "rtu", check_all=False)
                e = e or local(3 if pdu[0] not in (5, 15) else 1, a)
                if e:
                    ctx.fail("%s (request %s)" % (e, pdu.hex()), {"unsigned": unsigned, "addr": a, "blocks of": blk, "fc": pdu[0]})
            if a % 1024 == 1023:
                g.again()
                errs = []
                if not dev.same(errs):
                    ctx.fail("after writing around %d: %s" % (a, errs[0]), {"unsigned": unsigned, "addr": a, "blocks of": blk})
                ctx.state((unsigned, split, a))


def dev_bit(dev, a, blk):
    return dev.models[1].blocks["1_%d" % (a // blk * blk)][2][a % blk]


def jobs(tier, seed):
    out = []
    for uns in (True, False):
        for split in (False, True):
            if tier == "quick" and split == uns:
                continue
            out += [("job_addresses", (uns, lo, lo + 8192, split)) for lo in range(0, 65536, 8192)]
    t = tier == "thorough"
    for uns in (True, False):
        out += [("job_single_values", (uns, lo, lo + 8192)) for lo in range(0, 65536, 8192)]
        out += [("job_coils", (uns, fr)) for fr in ("tcp", "rtu")]
        out += [("job_coil_bytes", (uns,)), ("job_rw", (uns,)), ("job_rw_big", (uns,)), ("job_mixed", (uns,))]
        out += [("job_regs", (uns, fr)) for fr in ("tcp", "rtu")]
        out += [("job_mask", (uns, i, 4)) for i in range(4)]
        parts = 12
        out += [("job_bfs", (uns, i, parts, 6 if t else 3, 60000 if t else 4000)) for i in range(parts)]
    return out
