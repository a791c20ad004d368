"""C01: read replies carry exactly the stored values."""
import itertools
import struct

from mc import ref
from mc.dev import Dev, step

BOUNDS = ("all quantities 1..2000 / 1..125 at several offsets, every start in a block of every size up to 40, every "
          "address of a full table (one block, or 64), all 65536 "
          "register values, 6 contents per layout, TCP and RTU framing, unsigned and signed slaves; every "
          "history of 5 (thorough 6) reads, application writes, requests and replaced blocks")


def lcg(n, seed):
    x = seed * 2654435761 % 2 ** 32 or 1
    out = []
    for _ in range(n):
        x = (1103515245 * x + 12345) % 2 ** 31
        out.append(x >> 8)
    return out


def contents(kind, n, bits, unsigned):
    if bits:
        return {"zero": [0] * n, "one": [1] * n, "alt": [i & 1 for i in range(n)], "alt8": [(i >> 3) & 1 for i in range(n)],
                "mix": [v & 1 for v in lcg(n, 7)], "mix2": [(v >> 3) & 1 for v in lcg(n, 99)],
                "truthy": [(0, 1, 2, True, False, 255, -1, 256, 65534)[i % 9] for i in range(n)]}[kind]
    f = ref.u16 if unsigned else ref.s16
    return [f(v) for v in {"zero": [0] * n, "one": [0xFFFF] * n, "alt": [i for i in range(n)],
                           "alt8": [(i * 257 + 0x8000) for i in range(n)], "mix": lcg(n, 7), "mix2": lcg(n, 99),
                           "truthy": [(0, 1, 0x7FFF, 0x8000, 0xFFFF, 0x00FF, 0xFF00)[i % 7] for i in range(n)]}[kind]]


KINDS = ("zero", "one", "alt", "alt8", "mix", "mix2", "truthy")


def read(fc, addr, n):
    return struct.pack(">BHH", fc, addr, n)


def job_quantities(ctx, fc, unsigned, kind, framing):
    """every legal quantity at a few offsets inside one big block, between two neighbouring blocks"""
    bits = fc in (1, 2)
    top = 2000 if bits else 125
    size = top + 9
    dev = Dev()
    typ = ref.TABLE_OF[fc]
    dev.add_slave(3, unsigned, [(typ, 10, 5, "low"), (typ, 15, size, "mid"), (typ, 15 + size, 7, "high")]
                  + [(t, 0, 40, "o%d" % t) for t in (1, 2, 3, 4) if t != typ])
    dev.fill(3, "low", 10, contents("one", 5, bits, unsigned))
    dev.fill(3, "high", 15 + size, contents("one", 7, bits, unsigned))
    dev.fill(3, "mid", 15, contents(kind, size, bits, unsigned))
    ctx.state(("q", fc, unsigned, kind))
    quick = not ctx.thorough
    with ctx.guard("reading", 60) as g:
        for n in range(1, top + 1):
            g.again()
            offs = (0, 1, size - n) if quick and bits else range(0, size - n + 1) if not bits else sorted({0, 1, 2, 3, 4, 5, 6, 7, 8, size - n})
            if quick and not bits:
                offs = sorted(o for o in {0, 1, 2, 3, 7, 8, size - n - 1, size - n} if o >= 0)
            for o in offs:
                if o < 0 or o + n > size:
                    continue
                pdu = read(fc, 15 + o, n)
                ctx.trans()
                ctx.trace()
                e = step(dev, 3, pdu, framing, check_all=False)
                if e:
                    ctx.fail(e, {"fc": fc, "unsigned": unsigned, "content": kind, "addr": 15 + o, "n": n})
            if n % 97 == 0 or n == top:
                errs = []
                if not dev.same(errs):
                    ctx.fail("reading changed a stored value: " + errs[0], {"fc": fc, "n": n})
    ctx.sample({"fc": fc, "unsigned": unsigned, "content": kind, "quantities": "1..%d" % top})


def job_values(ctx, unsigned, lo, hi):
    """every register value: 125 values per request"""
    dev = Dev()
    dev.add_slave(1, unsigned, [(3, 0, 125, "h"), (4, 100, 125, "i")])
    f = ref.u16 if unsigned else ref.s16
    with ctx.guard("reading", 60):
        for base in range(lo, hi, 125):
            vals = [f(v) for v in range(base, min(base + 125, 65536))]
            dev.fill(1, "h", 0, vals)
            dev.fill(1, "i", 100, list(reversed(vals)))
            for pdu in (read(3, 0, len(vals)), read(4, 100, len(vals)), read(3, len(vals) - 1, 1)):
                ctx.trans()
                ctx.trace()
                e = step(dev, 1, pdu)
                if e:
                    ctx.fail(e, {"unsigned": unsigned, "values from": base})
            ctx.state(("v", unsigned, base))


def job_layouts(ctx, fc, unsigned, framing):
    """every (block start, block size, request start, request length) for small blocks, incl. the ends of the address space"""
    bits = fc in (1, 2)
    typ = ref.TABLE_OF[fc]
    sizes = (1, 2, 3, 7, 8, 9, 15, 16, 17) if not ctx.thorough else tuple(range(1, 41))
    with ctx.guard("reading", 60) as g:
        for start in (0, 1, 255, 256, 32767, 65535 - 40):
            for size in sizes:
                g.again()
                for kind in ("mix", "truthy"):
                    dev = Dev()
                    blocks = [(typ, start, size, "x")]
                    if start > 3:
                        blocks.append((typ, start - 3, 3, "before"))
                    if start + size + 3 < 65536:
                        blocks.insert(0, (typ, start + size, 3, "after"))
                    dev.add_slave(9, unsigned, blocks)
                    dev.fill(9, "x", start, contents(kind, size, bits, unsigned))
                    ctx.state(("l", fc, unsigned, start, size, kind))
                    for a in range(size):
                        for n in range(1, size - a + 1):
                            ctx.trans()
                            ctx.trace()
                            e = step(dev, 9, read(fc, start + a, n), framing, check_all=False)
                            if e:
                                ctx.fail(e, {"fc": fc, "block": [start, size], "addr": start + a, "n": n, "content": kind})
                    errs = []
                    if not dev.same(errs):
                        ctx.fail("reading changed a stored value: " + errs[0], {"fc": fc, "block": [start, size]})
    ctx.sample({"fc": fc, "unsigned": unsigned, "sizes": len(sizes)})


def job_two_slaves(ctx):
    """each table of each slave answers with its own content; the last address 65535 is readable"""
    dev = Dev()
    for sid, uns in ((1, True), (2, False), (255, True)):
        dev.add_slave(sid, uns, [(t, st, 16, "%d_%d" % (t, st)) for t in (1, 2, 3, 4) for st in (0, 16, 65520)])
        for t in (1, 2, 3, 4):
            for st in (0, 16, 65520):
                dev.fill(sid, "%d_%d" % (t, st), st, [((sid * 7 + t * 3 + st + i * i) >> 1) & 1 if t in (1, 2) else
                                                      (ref.u16 if uns else ref.s16)(sid * 4099 + t * 1031 + st + i * 17) for i in range(16)])
    with ctx.guard("reading", 60):
        for sid in (1, 2, 255):
            for t in (1, 2, 3, 4):
                for st in (0, 16, 65520):
                    for a in range(16):
                        for n in (1, 16 - a):
                            for fr in ("tcp", "rtu"):
                                ctx.trans()
                                ctx.trace()
                                ctx.state((sid, t, st, a, n))
                                e = step(dev, sid, read(t, st + a, n), fr, check_all=False)
                                if e:
                                    ctx.fail(e, {"slave": sid, "table": t, "addr": st + a, "n": n})
        errs = []
        if not dev.same(errs):
            ctx.fail("reading changed a stored value: " + errs[0], {})


def job_addresses(ctx, fc, unsigned, split):
    """every address of a full table, in one block or in blocks of 1024, alone and with the seven addresses after it"""
    bits = fc in (1, 2)
    typ = ref.TABLE_OF[fc]
    blk = 1024 if split else 65536
    dev = Dev()
    dev.add_slave(7, unsigned, [(t, st, blk, "%d_%d" % (t, st)) for t in (1, 2, 3, 4) for st in range(0, 65536, blk)])
    f = ref.u16 if unsigned else ref.s16
    want = {}
    for t in (1, 2, 3, 4):
        vals = [v & 1 for v in lcg(65536, t)] if t in (1, 2) else [f(i * 40503 + t) for i in range(65536)]
        for st in range(0, 65536, blk):
            dev.slaves[7].set_values("%d_%d" % (t, st), st, vals[st:st + blk])
        if t == typ:
            want = vals
    with ctx.guard("reading", 60) as g:
        for a in range(65536):
            for n in (1, 8):
                inside = a % blk + n <= blk
                if n == 1 or a % 8 == 3 or not inside:
                    ctx.trans()
                    ctx.trace()
                    got, e = dev.send(7, read(fc, a, n), "tcp" if a & 1 else "rtu")
                    if not inside:
                        exp = bytes([fc + 0x80, 2])
                    elif bits:
                        exp = ref.pack_bits(want[a:a + n])
                        exp = bytes([fc, len(exp)]) + exp
                    else:
                        exp = bytes([fc, 2 * n]) + ref.regs(want[a:a + n])
                    if e or got != exp:
                        ctx.fail(e or "reading %d at address %d got %s instead of %s" % (n, a, got and got.hex(), exp.hex()),
                                 {"fc": fc, "unsigned": unsigned, "addr": a, "n": n, "blocks of": blk})
            if a % 1024 == 0:
                g.again()
                ctx.state(("a", fc, unsigned, split, a))


def hist_ops(typ):
    """(name, function(dev, k)) for the operations of a history; k makes every stored value different"""
    bits = typ in (1, 2)
    val = (lambda k: k & 1) if bits else (lambda k: 1000 + 17 * k)

    def rd(a, n, sid=1, t=typ):
        return lambda dev, k: step(dev, sid, read(t, a, n), "tcp", check_all=False)

    def sv(dev, name, a, vals, how):
        vals = [val(v) for v in vals]
        dev.slaves[1].set_values(name, a, vals[0] if how == "scalar" else tuple(vals) if how == "tuple" else list(vals))
        b = dev.models[1].blocks[name]
        b[2][a - b[1]:a - b[1] + len(vals)] = vals

    def again(dev, k):
        """another block in the place of the first one"""
        dev.slaves[1].remove_block("x")
        dev.slaves[1].add_block("x", typ, 10, 4)
        dev.models[1].blocks.pop("x")
        dev.models[1].add("x", typ, 10, 4)

    def wr(dev, k):
        if typ == 1:
            return step(dev, 1, struct.pack(">BHH", 5, 11, 0xFF00 if k & 1 else 0), check_all=False)
        return step(dev, 1, struct.pack(">BHH", 6, 11, 2000 + k), check_all=False)

    def wm(dev, k):
        if typ == 1:
            return step(dev, 1, struct.pack(">BHHBB", 15, 10, 3, 1, k & 7), check_all=False)
        return step(dev, 1, struct.pack(">BHHBHH", 16, 10, 2, 4, 3000 + k, k), check_all=False)
    out = [("read", rd(10, 2)), ("read all", rd(10, 4)), ("read next", rd(14, 2)), ("read other slave", rd(10, 2, 2)),
           ("read other table", rd(10, 2, 1, 3 - typ if bits else 7 - typ)),
           ("set", lambda dev, k: sv(dev, "x", 11, [k], "scalar")), ("set list", lambda dev, k: sv(dev, "x", 10, [k, k + 1], "list")),
           ("set tuple", lambda dev, k: sv(dev, "x", 10, [k + 1, k, k, k + 1], "tuple")),
           ("set next", lambda dev, k: sv(dev, "y", 14, [k], "scalar")), ("replace block", again)]
    if typ in (1, 3):
        out += [("write", wr), ("write many", wm)]
    return out


def job_histories(ctx, typ, first):
    """every sequence of reads and changes of any kind: a read never answers an older content"""
    ops = hist_ops(typ)
    depth = 6 if ctx.thorough else 5
    reads = [i for i, o in enumerate(ops) if o[0].startswith("read")]
    with ctx.guard("histories", 60) as g:
        for n in range(1, depth):
            for rest in itertools.product(range(len(ops)), repeat=n):
                if rest[-1] not in reads:
                    continue
                g.again()
                ctx.tidy()
                if ctx.out_of_time():
                    ctx.capped = True
                    return
                dev = Dev()
                for sid in (1, 2):
                    dev.add_slave(sid, True, [(t, 10, 4, "x" if t == typ else "o%d" % t) for t in (1, 2, 3, 4)] + [(typ, 14, 3, "y")])
                    for i, t in enumerate((1, 2, 3, 4)):
                        dev.fill(sid, "x" if t == typ else "o%d" % t, 10, [(sid + i + j) & 1 if t in (1, 2) else sid * 100 + i * 10 + j
                                                                           for j in range(4)])
                ctx.trace()
                for k, i in enumerate((first,) + rest):
                    ctx.trans()
                    e = ops[i][1](dev, k + 1)
                    if e:
                        ctx.fail(e, {"history": [ops[j][0] for j in ((first,) + rest)[:k + 1]]})
                        break
                ctx.state((typ, first, rest))


def jobs(tier, seed):
    out = []
    for fc in (1, 2, 3, 4):
        for uns in (True, False):
            for fr in ("tcp", "rtu"):
                if tier == "quick" and fr == "rtu" and not uns:
                    continue
                for k in (KINDS if tier == "thorough" else ("mix", "truthy", "one") if fr == "tcp" else ("mix2",)):
                    out.append(("job_quantities", (fc, uns, k, fr)))
                out.append(("job_layouts", (fc, uns, fr)))
    for uns in (True, False):
        for lo in range(0, 65536, 8125):
            out.append(("job_values", (uns, lo, min(65536, lo + 8125))))
    out.append(("job_two_slaves", ()))
    for fc in (1, 2, 3, 4):
        out += [("job_addresses", (fc, uns, split)) for uns, split in
                (((True, False), (False, True)) if tier == "quick" else itertools.product((True, False), (True, False)))]
    for typ in (1, 2, 3, 4):
        out += [("job_histories", (typ, i)) for i in range(len(hist_ops(typ)))]
    return out
