"""C03: rejected requests get an exception naming a broken rule, and change nothing."""
import itertools
import struct

from mc import ref
from mc.dev import Dev, step
from checks.c02 import p5, p6, p15, p16, p22, p23

BOUNDS = ("all 128 function codes, all 65536 quantities, all 65536 coil values, all 65536 addresses, all 256 byte counts, "
          "every truncation of every kind of request, every pair of broken rules over boundary values; TCP and RTU framing")

LAYOUT = [(1, 10, 20, "c"), (1, 30, 6, "c2"), (1, 40, 3, "c3"), (2, 10, 20, "d"), (2, 33, 2, "d2"),
          (3, 10, 20, "h"), (3, 30, 6, "h2"), (3, 40, 3, "h3"), (4, 10, 20, "i"), (4, 33, 2, "i2"),
          (1, 3000, 2100, "cbig"), (2, 3000, 2100, "dbig"), (3, 3000, 300, "hbig"), (4, 3000, 300, "ibig"),
          (1, 65530, 6, "ctop"), (2, 65530, 6, "dtop"), (3, 65530, 6, "htop"), (4, 65530, 6, "itop")]


def mk(unsigned):
    dev = Dev()
    dev.add_slave(1, unsigned, LAYOUT)
    dev.add_slave(2, unsigned, LAYOUT[:4])
    f = ref.u16 if unsigned else ref.s16
    for sid in dev.models:
        for name, (typ, st, vals) in list(dev.models[sid].blocks.items()):
            dev.fill(sid, name, st, [((i * 5 + st + sid) >> 1) & 1 if typ in (1, 2) else f(30000 + typ * 100 + i * 3001 + sid)
                                     for i in range(len(vals))])
    return dev


def refused_only(ctx, dev, pdu, framing, case, full):
    """the model must refuse; real code as well, with no change.  Accepted requests are left to C01/C02 (but checked too)"""
    ctx.trans()
    ctx.trace()
    if not 0 < len(pdu) <= (253 if framing == "tcp" else 253):
        pass
    e = step(dev, 1, pdu, framing, check_all=full)
    if e:
        ctx.fail(e, case)


def job_functions(ctx, unsigned, framing):
    dev = mk(unsigned)
    tails = [b"", b"\x00", struct.pack(">HH", 10, 1), struct.pack(">HHHH", 1, 2, 3, 4), struct.pack(">HHB", 10, 1, 2) + b"\0\1",
             struct.pack(">HHB", 10, 8, 1) + b"\xff", struct.pack(">HHHHB", 10, 1, 10, 1, 2) + b"\x12\x34"]
    with ctx.guard("handling", 60):
        for fc in range(128):
            if fc in ref.SUPPORTED:
                continue
            for t in tails:
                ctx.state((fc, len(t)))
                refused_only(ctx, dev, bytes([fc]) + t, framing, {"fc": fc, "tail": t.hex()}, True)
        # codes above 127 can not be answered with fc + 0x80: silence or a well-formed exception
        for fc in range(128, 256):
            for t in tails[:3]:
                ctx.trans()
                ctx.trace()
                try:
                    got, err = dev.send(1, bytes([fc]) + t, framing)
                except Exception:   # the servers turn it into silence
                    got, err = None, None
                if got is not None and (len(got) != 2 or got[0] != fc or got[1] not in (1, 4)):
                    ctx.fail("request with function code %d got %s" % (fc, got.hex()), {"fc": fc})
                errs = []
                if not dev.same(errs):
                    ctx.fail("request with function code %d changed: %s" % (fc, errs[0]), {"fc": fc})


def job_read_quantities(ctx, fc, unsigned, lo, hi):
    dev = mk(unsigned)
    with ctx.guard("handling", 60) as g:
        for n in range(lo, hi):
            if n % 256 == 0:
                g.again()
                ctx.state((fc, unsigned, n))
            for a in (10, 3000, 65530, 0):
                refused_only(ctx, dev, struct.pack(">BHH", fc, a, n), "tcp", {"fc": fc, "addr": a, "n": n}, n % 4096 == 0)


def job_addresses(ctx, fc, unsigned, lo, hi):
    """every address, several lengths: wholly inside one block or refused"""
    dev = mk(unsigned)
    lens = (1, 2, 6, 7, 20, 21)
    with ctx.guard("handling", 60) as g:
        for a in range(lo, hi):
            interesting = a < 60 or 2990 < a < 3310 or 5080 < a < 5110 or a > 65520
            if a % 256 == 0:
                g.again()
                ctx.state((fc, unsigned, a))
            for n in lens if interesting else (1, 20):
                if fc <= 4:
                    pdu = struct.pack(">BHH", fc, a, n)
                elif fc == 5:
                    pdu = p5(a, 0xFF00 if n & 1 else 0)
                elif fc == 6:
                    pdu = p6(a, 1000 + n)
                elif fc == 15:
                    pdu = p15(a, [1, 0, 1] * 7)[:0] or p15(a, ([1, 0, 1] * 7)[:n])
                elif fc == 16:
                    pdu = p16(a, list(range(n)))
                elif fc == 22:
                    pdu = p22(a, 0xF0F0, n)
                else:
                    pdu = p23(a, n, 10, (1, 2)) if n & 1 else p23(10, 2, a, list(range(n)))
                refused_only(ctx, dev, pdu, "rtu" if interesting and a & 1 else "tcp", {"fc": fc, "addr": a, "n": n},
                             interesting and (ctx.thorough or n in (2, 7) or 10 <= a < 50))


def job_write_counts(ctx, fc, unsigned, framing):
    """every byte count with small quantities (data present or not), every quantity with its own byte count mod 256"""
    dev = mk(unsigned)
    head = (lambda a, n, bc: struct.pack(">BHHB", fc, a, n, bc)) if fc in (15, 16) else \
        (lambda a, n, bc: struct.pack(">BHHHHB", 23, 10, 2, a, n, bc))
    with ctx.guard("handling", 60) as g:
        for n in (0, 1, 2, 7, 8, 9, 16, 17, 20, 21):
            g.again()
            for bc in range(256):
                want = (n + 7) // 8 if fc == 15 else 2 * n
                for dl in sorted({0, bc, min(want, 255), max(0, bc - 1)}):
                    ctx.state((fc, unsigned, n, bc, dl))
                    refused_only(ctx, dev, head(10, n, bc) + bytes((i * 37 + 1) & 0xFF for i in range(dl)), framing,
                                 {"fc": fc, "n": n, "byte count": bc, "data bytes": dl}, bc in (want, want - 1, want + 1) or bc % 32 == 0)


def job_write_quantities(ctx, fc, unsigned, lo, hi):
    dev = mk(unsigned)
    with ctx.guard("handling", 60) as g:
        for n in range(lo, hi):
            if n % 256 == 0:
                g.again()
                ctx.state((fc, unsigned, n))
            want = (n + 7) // 8 if fc == 15 else 2 * n
            if fc == 23 and n in (122, 123):
                continue           # above the specified 121 but the slave has always accepted what FC 16 accepts
            bcs = {want & 0xFF, min(want, 255)}
            for bc in bcs:
                data = bytes((i * 37 + 1) & 0xFF for i in range(bc))
                if fc in (15, 16):
                    pdu = struct.pack(">BHHB", fc, 3000, n, bc) + data
                    refused_only(ctx, dev, pdu, "tcp", {"fc": fc, "n": n, "byte count": bc}, n % 2048 == 0 or n < 130)
                else:
                    refused_only(ctx, dev, struct.pack(">BHHHHB", 23, 3000, 2, 3000, n, bc) + data, "tcp",
                                 {"fc": fc, "n": n, "byte count": bc}, n % 2048 == 0 or n < 130)
                    refused_only(ctx, dev, struct.pack(">BHHHHB", 23, 3000, n, 3000, 2, 4) + b"\1\2\3\4", "tcp",
                                 {"fc": fc, "read n": n}, n % 2048 == 0 or n < 130)


def job_coil_values(ctx, lo, hi):
    dev = mk(True)
    with ctx.guard("handling", 60) as g:
        for v in range(lo, hi):
            if v % 256 == 0:
                g.again()
                ctx.state(("coil", v))
            before = dev.models[1].blocks["c"][2][3]
            a = 13 if v % 3 else 9
            refused_only(ctx, dev, p5(a, v), "tcp" if v & 1 else "rtu", {"fc": 5, "value": v, "addr": a}, v % 128 == 0 or v > 0xFE00)
            got = dev.slaves[1].get_values("c", 13, 1)
            if got != (dev.models[1].blocks["c"][2][3],):
                ctx.fail("coil value %#x: coil holds %r" % (v, got), {"value": v})


def job_truncated(ctx, unsigned, framing):
    """every truncation of every kind of request; after each the data is what it was"""
    dev = mk(unsigned)
    reqs = [struct.pack(">BHH", fc, 10, 3) for fc in (1, 2, 3, 4)]
    reqs += [p5(10, 0xFF00), p5(11, 0), p6(10, 0x1234), p22(10, 0xFF, 0x1200), p23(10, 3, 12, (5, 6, 7)), p23(12, 1, 10, (1,))]
    reqs += [p15(10, [1] * n) for n in (1, 7, 8, 9, 16, 17, 20)] + [p15(10, [0] * n) for n in (8, 20)]
    reqs += [p16(10, [n * 1111 + i for i in range(n)]) for n in (1, 2, 3, 20)] + [p16(3000, list(range(123))), p15(3000, [1, 0, 0] * 656)]
    reqs += [p23(3000, 125, 3000, list(range(1, 122)))]
    with ctx.guard("handling", 60) as g:
        for full in reqs:
            g.again()
            for n in range(1, len(full) + 1):
                ctx.state((full[:6], len(full), n))
                refused_only(ctx, dev, full[:n], framing, {"request": full.hex()[:60], "bytes kept": n}, len(full) < 60 or n % 8 == 0 or n > len(full) - 4)


def job_pairs(ctx, unsigned):
    """combinations of broken rules: the code names one of them"""
    dev = mk(unsigned)
    addrs = (0, 9, 10, 28, 29, 30, 35, 36, 39, 42, 43, 3000, 65530, 65535)
    with ctx.guard("handling", 60) as g:
        for a in addrs:
            g.again()
            for n in (0, 1, 2, 19, 20, 21, 124, 126, 1969, 2001, 65535):
                for fc in (1, 2, 3, 4):
                    refused_only(ctx, dev, struct.pack(">BHH", fc, a, n), "rtu", {"fc": fc, "addr": a, "n": n}, False)
                for bc in (0, 1, 2, 3, 40, 246, 247, 255):
                    for dl in (0, bc // 2, bc):
                        d = bytes((i + 1) & 0xFF for i in range(dl))
                        ctx.state((unsigned, a, n, bc, dl))
                        for fc in (15, 16):
                            refused_only(ctx, dev, struct.pack(">BHHB", fc, a, n, bc) + d, "tcp", {"fc": fc, "addr": a, "n": n, "bc": bc, "data": dl}, bc < 4)
                        if n not in (122, 123):
                            refused_only(ctx, dev, struct.pack(">BHHHHB", 23, 10, 1, a, n, bc) + d, "tcp", {"fc": 23, "waddr": a, "n": n, "bc": bc, "data": dl}, bc < 4)
                            refused_only(ctx, dev, struct.pack(">BHHHHB", 23, a, n, 10, 1, bc) + d, "tcp", {"fc": 23, "raddr": a, "n": n, "bc": bc, "data": dl}, bc < 4)
            for v in (0, 1, 0xFF, 0x100, 0xFF00, 0xFF01, 0xFFFF):
                refused_only(ctx, dev, p5(a, v), "rtu", {"fc": 5, "addr": a, "value": v}, True)
    errs = []
    if not dev.same(errs):
        ctx.fail("a refused request changed something: " + errs[0], {})


def job_histories(ctx, part, parts, depth):
    """breadth-first: refused requests mixed with accepted ones, state compared after every step"""
    dev = Dev()
    dev.add_slave(1, True, [(3, 10, 3, "h"), (1, 20, 3, "c")])
    bad = [p16(10, (1, 2, 3))[:-1], p16(12, (9, 9)), p15(20, (1, 1, 1, 1)), p5(20, 1), p23(10, 3, 12, (7, 8)), p23(10, 0, 10, (1,)),
           p23(10, 3, 10, (1, 2, 3))[:-2], p22(13, 0, 0), p6(13, 1), b"\x10\x00\x0a\x00\x03\x06\x00", b"\x2b\x0e\x01\x00", b"\x0f\x00\x14\x00\x03\x01",
           p22(10, 0, 0)[:-1], p6(10, 5)[:-1], b"\x05\x00"]
    good = [p16(10, (1, 2, 3)), p15(20, (1, 0, 1)), p5(21, 0xFF00), p6(11, 77), p22(11, 0xF, 0xF0), p23(10, 2, 11, (8, 9))]
    init = dev.models[1].copy()
    seen = {init.key()}
    frontier = [(init, ())]
    with ctx.guard("handling", 60) as g:
        for d in range(depth):
            nxt = []
            for st, hist in frontier:
                g.again()
                for k, op in enumerate(bad + good):
                    if d == 0 and k % parts != part:
                        continue
                    for fr in ("tcp", "rtu"):
                        dev.models[1] = st.copy()
                        ref.load_slave(dev.slaves[1], st)
                        ctx.trans()
                        ctx.trace()
                        e = step(dev, 1, op, fr)
                        if e:
                            ctx.fail(e, {"history": [o.hex() for o in hist + (op,)]})
                    key = dev.models[1].key()
                    if key not in seen:
                        seen.add(key)
                        ctx.state(key)
                        nxt.append((dev.models[1].copy(), hist + (op,)))
            frontier = nxt


def jobs(tier, seed):
    t = tier == "thorough"
    out = []
    for uns in ((True, False) if t else (True,)):
        for fc in (1, 2, 3, 4):
            out += [("job_read_quantities", (fc, uns, lo, lo + 16384)) for lo in range(0, 65536, 16384)]
        for fc in (1, 2, 3, 4, 5, 6, 15, 16, 22, 23):
            out += [("job_addresses", (fc, uns, lo, lo + 16384)) for lo in range(0, 65536, 16384)]
        for fc in (15, 16, 23):
            out += [("job_write_quantities", (fc, uns, lo, lo + 8192)) for lo in range(0, 65536, 8192)]
    for uns in (True, False):
        for fr in ("tcp", "rtu"):
            out += [("job_functions", (uns, fr)), ("job_truncated", (uns, fr))]
            out += [("job_write_counts", (fc, uns, fr)) for fc in (15, 16, 23)]
        out.append(("job_pairs", (uns,)))
    out += [("job_coil_values", (lo, lo + 8192)) for lo in range(0, 65536, 8192)]
    out += [("job_histories", (i, 7, 5 if t else 3)) for i in range(7)]
    return out
