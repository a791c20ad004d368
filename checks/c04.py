"""C04: the block registry stays consistent over every add/remove history (enumeration of histories on the real slave)."""
import itertools
import struct

from mc import ref, loader

BOUNDS = ("all histories of additions and removals up to depth 4 (quick) / 6 (thorough) over 11 operations on one table, "
          "all histories over names and types, every pair and triple of intervals over a 7-address window, "
          "every pair of intervals of 20 starts and 12 sizes over the whole address space, 512 blocks in 5 orders, argument errors")

IV = [(0, 2), (2, 2), (4, 2), (1, 4), (0, 6), (5, 1), (3, 1), (2, 4)]
IV_MORE = [(10, 1), (0, 1), (6, 3), (1, 1)]


class Reg(object):
    """real slave + model"""

    def __init__(self, lib, unsigned=True, memory=None):
        self.lib = lib
        self.db = lib.modbus.Databank()
        self.s = self.db.add_slave(1, unsigned, memory) if memory is not None else self.db.add_slave(1, unsigned)
        self.m = ref.RefSlave(unsigned)
        self.n = 0
        self.gone = set()
        ex = lib.exceptions
        self.E = {"arg": ex.InvalidArgumentError, "dup": ex.DuplicatedKeyError, "type": ex.InvalidModbusBlockError,
                  "overlap": ex.OverlapModbusBlockError, "missing": ex.MissingKeyError}
        self.Q = lib.modbus_tcp.TcpQuery

    def broken(self, name, typ, start, size):
        b = set()
        if size <= 0 or start < 0:
            b.add("arg")
        if name in self.m.blocks:
            b.add("dup")
        if typ not in (1, 2, 3, 4):
            b.add("type")
        elif size > 0:
            for o in self.m.blocks.values():
                if o[0] == typ and start < o[1] + len(o[2]) and o[1] < start + size:
                    b.add("overlap")
        return b

    def add(self, name, typ, start, size):
        b = self.broken(name, typ, start, size)
        try:
            self.s.add_block(name, typ, start, size)
        except Exception as e:   # noqa
            if not b:
                return "add_block(%r, %r, %r, %r) refused: %r" % (name, typ, start, size, e)
            if not isinstance(e, tuple(self.E[x] for x in b)):
                return "add_block(%r, %r, %r, %r) raised %r, expected %s" % (name, typ, start, size, e, sorted(b))
            return None
        if b:
            return "add_block(%r, %r, %r, %r) accepted although %s" % (name, typ, start, size, sorted(b))
        self.m.add(name, typ, start, size)
        self.gone.discard(name)
        self.n += 1
        vals = [((self.n >> (i % 4)) & 1 if typ in (1, 2) else (self.n * 100 + i) & 0x7FFF) for i in range(size)]
        if self.s.get_values(name, start, size) != tuple([0] * size):
            return "new block %r is not zero" % (name,)
        self.s.set_values(name, start, vals)
        self.m.blocks[name][2][:] = vals
        return None

    def remove(self, name):
        try:
            self.s.remove_block(name)
        except Exception as e:   # noqa
            if name in self.m.blocks:
                return "remove_block(%r) raised %r" % (name, e)
            if not isinstance(e, self.E["missing"]):
                return "remove_block of unknown %r raised %r" % (name, e)
            return None
        if name not in self.m.blocks:
            return "remove_block of unknown %r did not raise" % (name,)
        del self.m.blocks[name]
        self.gone.add(name)
        return None

    def remove_all(self):
        self.s.remove_all_blocks()
        self.gone |= set(self.m.blocks)
        self.m.blocks.clear()

    def remote(self, fc, addr, n):
        r = self.db.handle_request(self.Q(), ref.mbap(5, 1, struct.pack(">BHH", fc, addr, n)))
        return bytes(r)[7:]

    def verify(self, lo=0, hi=12, types=(1, 2, 3, 4)):
        errs = []
        try:
            if not ref.same_slave(self.s, self.m, errs):
                return errs[0]
        except Exception as e:   # noqa
            return "a registered block is not reachable by name: %r" % (e,)
        for name in self.gone:
            for fn in (lambda: self.s.get_values(name, 0, 1), lambda: self.s.set_values(name, 0, [1])):
                try:
                    fn()
                    return "removed block %r is still reachable" % (name,)
                except self.E["missing"]:
                    pass
                except Exception as e:   # noqa
                    return "access to removed block %r raised %r" % (name, e)
        for typ in types:
            for a in range(lo, hi):
                b = self.m.find(typ, a, 1)
                got = self.remote(typ, a, 1)
                if b is None:
                    want = bytes([typ + 0x80, 2])
                else:
                    v = b[2][a - b[1]]
                    want = bytes([typ, 1, 1 if v else 0]) if typ in (1, 2) else bytes([typ, 2]) + struct.pack(">H", v & 0xFFFF)
                if got != want:
                    return "table %d address %d: remote read gives %s instead of %s" % (typ, a, got.hex(), want.hex())
            # a request may not run over the border of a block
            for b in self.m.blocks.values():
                if b[0] == typ and len(b[2]) < 120 and b[1] < 65536:
                    if self.remote(typ, b[1], len(b[2]))[0] != typ:
                        return "table %d: block at %d not readable as a whole" % (typ, b[1])
                    if self.remote(typ, b[1], len(b[2]) + 1) != bytes([typ + 0x80, 2]):
                        return "table %d: read across the end of the block at %d accepted" % (typ, b[1])
        return None


def apply(reg, op, typ):
    k = op[0]
    if k == "add":
        return reg.add("n%d" % (reg.n + len(reg.gone) * 50 + 1), typ, op[1], op[2])
    names = list(reg.m.blocks)
    if k == "rm_old":
        return reg.remove(names[0] if names else "nothing")
    if k == "rm_new":
        return reg.remove(names[-1] if names else "nothing")
    if k == "rm_mid":
        return reg.remove(names[len(names) // 2] if names else "nothing")
    if k == "dup":
        return reg.add(names[0] if names else "first", typ, 8, 2)
    if k == "clear":
        reg.remove_all()
        return None
    if k == "other":
        return reg.add("o%d" % reg.n, typ % 4 + 1, op[1], op[2])


OPS = [("add",) + i for i in IV] + [("rm_old",), ("rm_new",), ("clear",)]


def job_histories(ctx, typ, first, depth):
    lib = loader.plain()
    with ctx.guard("registry", 60) as g:
        for hist in itertools.product(range(len(OPS)), repeat=depth - 1):
            hist = (first,) + hist
            # the state after step s is verified only by the first history that has this prefix
            last = 0
            for i in range(depth - 1, 0, -1):
                if hist[i]:
                    last = i
                    break
            reg = Reg(lib)
            case = [OPS[h] for h in hist]
            for i, h in enumerate(hist):
                e = apply(reg, OPS[h], typ)
                if e is None and i >= last:
                    e = reg.verify(0, 8, (typ,))
                    ctx.state(reg_key(reg) + (hist[:i + 1],))
                    ctx.trans()
                if e:
                    ctx.fail(e, {"table": typ, "history": case[:i + 1]})
            g.again()
            ctx.trace()
            if ctx.out_of_time():
                ctx.capped = True
                return
    ctx.sample({"table": typ, "history": case})


def reg_key(reg):
    return tuple(sorted((b[0], b[1], len(b[2])) for b in reg.m.blocks.values()))


def job_intervals(ctx, typ, part, parts):
    """all ordered triples of intervals over a 7-address window"""
    lib = loader.plain()
    iv = [(s, n) for s in range(6) for n in range(1, 7 - s)]
    with ctx.guard("registry", 60) as g:
        for k, (a, b) in enumerate(itertools.product(iv, iv)):
            if k % parts != part:
                continue
            g.again()
            for c in iv:
                reg = Reg(lib)
                for i, x in enumerate((a, b, c)):
                    e = reg.add("b%d" % i, typ, *x)
                    if e:
                        ctx.fail(e, {"table": typ, "intervals": [a, b, c]})
                ctx.trans(3)
                ctx.trace()
                ctx.state((typ, a, b, c))
                e = reg.verify(0, 8, (typ,))
                if e:
                    ctx.fail(e, {"table": typ, "intervals": [a, b, c]})


def job_permutations(ctx, typ):
    """disjoint blocks added in every order, then removed in every order (5 blocks)"""
    lib = loader.plain()
    blocks = [(0, 2), (2, 1), (3, 3), (7, 2), (9, 1)]
    perms = list(itertools.permutations(range(5)))
    with ctx.guard("registry", 60) as g:
        for p in perms:
            for q in (perms if ctx.thorough else perms[::17]):
                g.again()
                reg = Reg(lib)
                e = None
                for i in p:
                    e = e or reg.add("b%d" % i, typ, *blocks[i])
                e = e or reg.verify(0, 12, (typ,))
                for i in q[:3]:
                    e = e or reg.remove("b%d" % i)
                    e = e or reg.verify(0, 12, (typ,))
                # what was freed can be used again, what was not can not
                for i in range(5):
                    e = e or reg.add("again%d" % i, typ, *blocks[i])
                e = e or reg.verify(0, 12, (typ,))
                ctx.trans(13)
                ctx.trace()
                ctx.state((typ, p, q))
                if e:
                    ctx.fail(e, {"table": typ, "add order": p, "remove order": q[:3]})


def job_names_types(ctx, part, parts):
    """histories over names x types x two places, duplicates included"""
    lib = loader.plain()
    ops = [("add", n, t, s) for n in ("a", "b") for t in (1, 3, 4) for s in (0, 1)] + [("rm", "a"), ("rm", "b"), ("clear",)]
    with ctx.guard("registry", 60) as g:
        for k, hist in enumerate(itertools.product(ops, repeat=4 if not ctx.thorough else 5)):
            if k % parts != part:
                continue
            g.again()
            reg = Reg(lib)
            e = None
            for op in hist:
                if op[0] == "add":
                    e = reg.add(op[1], op[2], op[3], 2)
                elif op[0] == "rm":
                    e = reg.remove(op[1])
                else:
                    reg.remove_all()
                if e:
                    break
            e = e or reg.verify(0, 4)
            ctx.trans(len(hist))
            ctx.trace()
            ctx.state(hist)
            if e:
                ctx.fail(e, {"history": hist})


def job_arguments(ctx):
    """argument errors, several at once; sizes and addresses over a wide range; big and high blocks"""
    lib = loader.plain()
    with ctx.guard("registry", 60) as g:
        for typ in (0, 1, 2, 3, 4, 5, 15, -1, None, "3"):
            for start in (-2, -1, 0, 1, 9, 10, 11, 65535, 65536, 100000):
                for size in (-5, -1, 0, 1, 2, 10, 2000, 65536):
                    for name in ("x", "new", "", 7):
                        for base in ((3, 10, 5), (1, 0, 1)):
                            g.again()
                            reg = Reg(lib)
                            e = reg.add("x", *base)
                            e = e or reg.add("y", 4, 20, 2)
                            e = e or reg.add(name, typ, start, size)
                            e = e or reg.verify(0, 12, (3, 4))
                            ctx.trans(3)
                            ctx.trace()
                            ctx.state((typ, start, size, name, base))
                            if e:
                                ctx.fail(e, {"name": name, "type": typ, "start": start, "size": size, "with": base})


def job_memory(ctx):
    """a slave created with its own memory map, and one whose tables share a list, keep the same rules"""
    lib = loader.plain()
    with ctx.guard("registry", 60):
        for a, b, c in itertools.product(IV, IV, IV):
            reg = Reg(lib, True, {1: [], 2: [], 3: [], 4: []})
            e = None
            for i, x in enumerate((a, b, c)):
                e = e or reg.add("b%d" % i, 3, *x)
                e = e or reg.add("c%d" % i, 1, *x)
            e = e or reg.verify(0, 8)
            reg.remove_all()
            e = e or reg.verify(0, 8)
            e = e or reg.add("b0", 3, *c)
            e = e or reg.verify(0, 8)
            ctx.trans(8)
            ctx.trace()
            ctx.state(("mem", a, b, c))
            if e:
                ctx.fail(e, {"memory": "own", "blocks": [a, b, c]})


def job_two_slaves(ctx):
    """blocks of one slave never exist on another one"""
    lib = loader.plain()
    db = lib.modbus.Databank()
    s1, s2 = db.add_slave(1), db.add_slave(2)
    s1.add_block("a", 3, 0, 4)
    s2.add_block("a", 3, 2, 4)
    s1.set_values("a", 0, [1, 2, 3, 4])
    s2.set_values("a", 2, [5, 6, 7, 8])
    s1.remove_block("a")
    ctx.trace()
    ctx.trans(6)
    ctx.state("two")
    if s2.get_values("a", 2, 4) != (5, 6, 7, 8):
        ctx.fail("removing a block of slave 1 changed slave 2", {})
    s1.add_block("a", 3, 0, 4)
    s2.remove_all_blocks()
    if s1.get_values("a", 0, 4) != (0, 0, 0, 0):
        ctx.fail("removing the blocks of slave 2 changed slave 1", {})


def job_wide(ctx, typ, part, parts):
    """pairs of blocks anywhere in the address space, of any magnitude"""
    lib = loader.plain()
    starts = (0, 1, 127, 128, 255, 256, 257, 999, 1000, 4096, 9999, 10000, 32766, 32767, 32768, 32769, 40000, 50000, 65279, 65534, 65535)
    sizes = (1, 2, 128, 255, 256, 257, 2000, 32767, 32768, 32769, 65535, 65536)
    iv = [(a, n) for a in starts for n in sizes if a + n <= 65536]
    with ctx.guard("registry", 60) as g:
        for x in iv[part::parts]:
            for y in iv:
                g.again()
                reg = Reg(lib)
                e = None
                for name, (a, n) in (("x", x), ("y", y)):
                    b = reg.broken(name, typ, a, n)
                    try:
                        reg.s.add_block(name, typ, a, n)
                        if b:
                            e = e or "add_block(%r, %r, %r, %r) accepted although %s" % (name, typ, a, n, sorted(b))
                        reg.m.add(name, typ, a, n)
                    except Exception as x_:   # noqa
                        if not b or not isinstance(x_, tuple(reg.E[k] for k in b)):
                            e = e or "add_block(%r, %r, %r, %r) raised %r (rules broken: %s)" % (name, typ, a, n, x_, sorted(b))
                for name, b in reg.m.blocks.items():
                    if e:
                        break
                    end = b[1] + len(b[2])
                    for a in (b[1], end - 1):
                        reg.s.set_values(name, a, 1)
                        b[2][a - b[1]] = 1
                    for a in sorted({b[1] - 1, b[1], b[1] + 1, end - 1, end} & set(range(65536))):
                        o = reg.m.find(typ, a, 1)
                        if o is None:
                            want = bytes([typ + 0x80, 2])
                        else:
                            v = o[2][a - o[1]]
                            want = bytes([typ, 1, v]) if typ in (1, 2) else bytes([typ, 2]) + struct.pack(">H", v)
                        got = reg.remote(typ, a, 1)
                        if got != want:
                            e = "table %d address %d: remote read gives %s instead of %s" % (typ, a, got.hex(), want.hex())
                ctx.trans(2)
                ctx.trace()
                ctx.state(("w", typ, x, y))
                if e:
                    ctx.fail(e, {"table": typ, "blocks": [x, y]})


def job_many(ctx, typ):
    """hundreds of blocks over the whole address space, added in several orders, a third of them removed and added again"""
    lib = loader.plain()
    n = 512
    place = [(i * 128, (i * 37) % 120 + 1) for i in range(n)]
    asc = list(range(n))
    orders = {"up": asc, "down": asc[::-1], "bit reversed": [int(format(i, "09b")[::-1], 2) for i in asc],
              "inside out": sorted(asc, key=lambda i: (abs(i - 256), i)), "odd first": asc[1::2] + asc[::2]}
    with ctx.guard("registry", 120) as g:
        for how, order in sorted(orders.items()):
            reg = Reg(lib)
            e = None
            for i in order:
                g.again()
                e = e or reg.add("b%d" % i, typ, *place[i])
                # what is there already is refused again, under another name too
                e = e or reg.add("again", typ, place[i][0] + place[i][1] - 1, 2) or reg.add("b%d" % i, typ, place[i][0] + 120, 2)
                ctx.trans(3)
            e = e or full(reg, typ, place)
            for i in order[::3]:
                e = e or reg.remove("b%d" % i)
            g.again()
            e = e or full(reg, typ, place)
            for i in order[::6]:
                e = e or reg.add("c%d" % i, typ, place[i][0], place[i][1] + 3)
            g.again()
            e = e or full(reg, typ, place)
            reg.remove_all()
            g.again()
            e = e or full(reg, typ, place)
            ctx.trace()
            ctx.state(("many", typ, how))
            if e:
                ctx.fail(e, {"table": typ, "order": how})


def full(reg, typ, place):
    try:
        errs = []
        if not ref.same_slave(reg.s, reg.m, errs):
            return errs[0]
    except Exception as e:   # noqa
        return "a registered block is not reachable by name: %r" % (e,)
    at = {}
    for b in reg.m.blocks.values():
        for k, v in enumerate(b[2]):
            at[b[1] + k] = v
    for a, size in place:
        for x in (a, a + size - 1, a + size, a + size + 2, a + size + 3, a + 127):
            v = at.get(x)
            want = bytes([typ + 0x80, 2]) if v is None else bytes([typ, 1, 1 if v else 0]) if typ in (1, 2) else \
                bytes([typ, 2]) + struct.pack(">H", v & 0xFFFF)
            got = reg.remote(typ, x, 1)
            if got != want:
                return "table %d address %d: remote read gives %s instead of %s" % (typ, x, got.hex(), want.hex())
    return None


def jobs(tier, seed):
    t = tier == "thorough"
    out = []
    for typ in (1, 2, 3, 4):
        out += [("job_many", (typ,))]
        if t or typ in (3, 2):
            out += [("job_wide", (typ, i, 8)) for i in range(8)]
    for typ in ((1, 2, 3, 4) if t else (3, 1)):
        out += [("job_histories", (typ, f, 5 if t else 4)) for f in range(len(OPS))]
        out += [("job_intervals", (typ, i, 8)) for i in range(8)]
        out += [("job_permutations", (typ,))]
    if not t:
        for typ in (2, 4):
            out += [("job_histories", (typ, f, 3)) for f in range(len(OPS))]
            out += [("job_permutations", (typ,))]
    else:
        out += [("job_histories", (3, f, 6)) for f in range(len(OPS))]
    out += [("job_names_types", (i, 8)) for i in range(8)]
    out += [("job_arguments", ()), ("job_memory", ()), ("job_two_slaves", ())]
    return out
