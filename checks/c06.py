"""C06: requests reach exactly the addressed slave; broadcasts reach every slave and are never answered."""
import itertools
import struct

from mc import ref, loader
from checks.c02 import p5, p6, p15, p16, p22, p23

BOUNDS = ("all histories of adding, removing and addressing slaves up to depth 3 (quick) / 4 (thorough) over 23 operations, "
          "every slave id 0..255 addressed with every id registered alone, every broadcast function code 0..127 and every "
          "truncation of every broadcast, TCP and RTU framing, both missing-slave policies; 5 to 255 slaves at once in 3 orders of creation, "
          "broadcast to, addressed one by one, half of them removed")


class Db(object):
    def __init__(self, lib, error_on_missing=True, framing="tcp"):
        self.lib = lib
        self.db = lib.modbus.Databank(error_on_missing_slave=error_on_missing)
        self.real, self.models = {}, {}
        self.framing = framing
        self.n = 0
        self.old = []

    def add(self, sid, uns=True, small=False):
        want_ok = isinstance(sid, int) and 1 <= sid <= 255 and sid not in self.models
        try:
            s = self.db.add_slave(sid, uns)
        except Exception as e:   # noqa
            if want_ok:
                return "add_slave(%r) raised %r" % (sid, e)
            return self.lookups()
        if not want_ok:
            return "add_slave(%r) accepted" % (sid,)
        if s is None:
            return "add_slave(%r) returned nothing" % (sid,)
        if any(s is o for o in self.old):
            return "add_slave(%r) returned a slave that existed before" % (sid,)
        self.old.append(s)
        m = ref.RefSlave(uns)
        self.n += 1
        for name, typ, st, size in (("h", 3, 10, 4), ("c", 1, 20, 4)) if not small else (("h", 3, 10, 2), ):
            try:
                s.add_block(name, typ, st, size)
            except Exception as e:   # noqa
                return "a new slave %d is not empty: %r" % (sid, e)
            m.add(name, typ, st, size)
            vals = [(self.n * 13 + i * 5) % 2 if typ == 1 else self.n * 100 + i for i in range(size)]
            s.set_values(name, st, vals)
            m.blocks[name][2][:] = vals
        self.real[sid], self.models[sid] = s, m
        return self.lookups()

    def remove(self, sid):
        try:
            self.db.remove_slave(sid)
        except Exception as e:   # noqa
            if sid in self.models:
                return "remove_slave(%r) raised %r" % (sid, e)
            return self.lookups()
        if sid not in self.models:
            return "remove_slave(%r) of an absent slave did not raise" % (sid,)
        del self.models[sid], self.real[sid]
        return self.lookups()

    def clear(self):
        self.db.remove_all_slaves()
        self.models.clear()
        self.real.clear()
        return self.lookups()

    def lookups(self):
        for sid in (1, 2, 3, 7, 255):
            try:
                s = self.db.get_slave(sid)
            except self.lib.exceptions.MissingKeyError:
                if sid in self.real:
                    return "get_slave(%d) does not find the slave" % sid
                continue
            except Exception as e:   # noqa
                return "get_slave(%d) raised %r" % (sid, e)
            if sid not in self.real:
                return "get_slave(%d) finds an absent slave" % sid
            if s is not self.real[sid]:
                return "get_slave(%d) returns another slave" % sid
        return None

    def request(self, sid, pdu):
        pdu = bytes(pdu)
        if self.framing == "tcp":
            q, frame = self.lib.modbus_tcp.TcpQuery(), ref.mbap(77, sid, pdu)
        else:
            q, frame = self.lib.modbus_rtu.RtuQuery(), ref.rtu(sid, pdu)
        try:
            resp = self.db.handle_request(q, frame)
        except Exception as e:   # noqa
            return "request %s to %d raised %r" % (pdu.hex(), sid, e)
        if sid == 0:
            if resp:
                return "broadcast %s was answered with %s" % (pdu.hex(), bytes(resp).hex())
            fc = pdu[0] if pdu else None
            if fc not in (1, 2, 3, 4, None):
                for m in self.models.values():
                    try:
                        m.handle(pdu)
                    except ref.Refused:
                        pass
        elif sid not in self.models:
            if resp:
                return "request %s to absent slave %d was answered with %s" % (pdu.hex(), sid, bytes(resp).hex())
        else:
            if not resp:
                return "request %s to slave %d got no reply" % (pdu.hex(), sid)
            resp = bytes(resp)
            try:
                want = self.models[sid].handle(pdu)
                ok = [want]
            except ref.Refused as e:
                ok = [bytes([pdu[0] + 0x80, c]) for c in e.codes]
            ok = [ref.mbap(77, sid, w) if self.framing == "tcp" else ref.rtu(sid, w) for w in ok]
            if resp not in ok:
                return "request %s to slave %d got %s" % (pdu.hex(), sid, resp.hex())
        return self.same("request %s to %d" % (pdu.hex(), sid))

    def same(self, what):
        errs = []
        for sid, m in self.models.items():
            try:
                if not ref.same_slave(self.real[sid], m, errs):
                    return "%s: slave %d: %s" % (what, sid, errs[0])
            except Exception as e:   # noqa
                return "%s: slave %d lost a block: %r" % (what, sid, e)
        return None

    def key(self):
        return tuple((sid, m.key()) for sid, m in self.models.items())


RD = struct.pack(">BHH", 3, 10, 2)
OPS = [("add", 1), ("add", 2), ("add", 255), ("add", 0), ("add", 256), ("add", -1), ("rm", 1), ("rm", 2), ("rm", 7),
       ("clear",), ("req", 1, RD), ("req", 1, p6(10, 7)), ("req", 2, p6(11, 8)), ("req", 7, p6(10, 9)), ("req", 255, p5(20, 0xFF00)),
       ("req", 0, p6(10, 55)), ("req", 0, p16(10, (5, 6))), ("req", 0, p15(20, (1, 0, 1, 1))), ("req", 0, RD),
       ("req", 0, p16(10, (5, 6))[:-1]), ("req", 0, p22(10, 0xF, 0x30)), ("req", 0, p23(10, 1, 10, (3,))), ("req", 0, b"\x63\x01")]


def do(db, op):
    if op[0] == "add":
        return db.add(op[1])
    if op[0] == "rm":
        return db.remove(op[1])
    if op[0] == "clear":
        return db.clear()
    return db.request(op[1], op[2])


def job_histories(ctx, first, framing, err, depth):
    lib = loader.plain()
    with ctx.guard("databank", 60) as g:
        for hist in itertools.product(range(len(OPS)), repeat=depth - 1):
            hist = (first,) + hist
            g.again()
            db = Db(lib, err, framing)
            for pre in (db.add(3),):
                pass
            e = pre
            for i, h in enumerate(hist):
                e = e or do(db, OPS[h])
                if e:
                    ctx.fail(e, {"history": ["add 3"] + [OPS[x] for x in hist[:i + 1]], "framing": framing})
            ctx.trans(depth)
            ctx.trace()
            ctx.state((db.key(), hist))
            if ctx.out_of_time():
                ctx.capped = True
                return
    ctx.sample({"history": [repr(OPS[x]) for x in hist]})


def job_ids(ctx, framing, lo, hi):
    """a slave registered alone with each id is reached by exactly that id"""
    lib = loader.plain()
    with ctx.guard("databank", 60) as g:
        for sid in range(lo, hi):
            for uns in (True, False):
                g.again()
                db = Db(lib, bool(sid & 1), framing)
                e = db.add(sid, uns)
                if 1 <= sid <= 255:
                    ctx.state((framing, sid, uns))
                for to in range(1, 256):
                    if abs(to - sid) > 2 and to not in (1, 2, 127, 128, 247, 248, 254, 255) and to % 16 and not ctx.thorough:
                        continue
                    e = e or db.request(to, p6(10, to + 1000))
                    ctx.trans()
                e = e or db.request(0, p6(11, 4242)) or db.request(0, p15(20, (0, 1, 1, 0)))
                ctx.trace()
                if e:
                    ctx.fail(e, {"registered": sid, "framing": framing})


def job_bad_ids(ctx):
    lib = loader.plain()
    with ctx.guard("databank", 60):
        for sid in list(range(-300, 1)) + list(range(256, 600)) + [65535, 65536, -65535, 2 ** 31]:
            db = Db(lib)
            e = db.add(5) or db.add(sid) or db.request(5, RD) or db.remove(sid) or db.request(5, p6(10, 1))
            ctx.trans(3)
            ctx.trace()
            ctx.state(sid)
            if e:
                ctx.fail(e, {"id": sid})
            # ids out of range must not shadow valid ones
            e = db.request(sid % 256, RD) if sid % 256 else None
            if e:
                ctx.fail(e, {"id": sid})


def job_broadcasts(ctx, framing, err):
    """every function code, truncation and combination of slaves able and unable to execute it"""
    lib = loader.plain()
    reqs = [p5(20, 0xFF00), p5(21, 0), p5(22, 7), p6(10, 0x8001), p6(12, 3), p15(20, (1, 0, 1, 1)), p15(20, (1,) * 5), p16(10, (1, 0x9000)),
            p16(10, (1, 2, 3, 4)), p22(13, 0, 0xFFFF), p23(10, 1, 11, (7, 8, 9)), p23(13, 2, 10, (1,)), p16(500, (1,)), p15(10, (1,) * 2000)]
    reqs += [bytes([fc]) + struct.pack(">HH", 10, 1) for fc in range(128)]
    reqs += [r[:n] for r in reqs[:12] for n in range(0, len(r))]
    with ctx.guard("databank", 60) as g:
        for combo in itertools.product((None, "full", "small", "signed"), repeat=3):
            for r in reqs:
                g.again()
                db = Db(lib, err, framing)
                e = None
                for sid, kind in zip((9, 1, 255), combo):
                    if kind:
                        e = e or db.add(sid, kind != "signed", kind == "small")
                if framing == "rtu" and len(r) == 0:
                    continue
                e = e or db.request(0, r)
                ctx.trans()
                ctx.trace()
                ctx.state((combo, r, framing))
                if e:
                    ctx.fail(e, {"slaves": combo, "broadcast": r.hex(), "framing": framing})


def job_failing_slave(ctx, framing):
    """one slave cannot execute the broadcast at all (its hook raises): the others do, nobody answers"""
    with ctx.guard("databank", 60):
        for n in (1, 2, 3, 4):
            for bad in range(n):
                for r in (p6(10, 99), p16(10, (5, 6)), p15(20, (1, 1)), p5(20, 0xFF00), p22(10, 0, 5)):
                    for hook in ("modbus.Slave.handle_request", "modbus.ModbusBlock.setitem"):
                        lib = loader.plain()
                        db = Db(lib, True, framing)
                        for sid in range(1, n + 1):
                            db.add(sid)
                        victim = db.real[bad + 1]

                        if hook.endswith("handle_request"):
                            def boom(args):
                                if args[0] is victim:
                                    raise ValueError("injected")
                        else:
                            left = [bad]

                            def boom(args):
                                # the (bad+1)-th write fails
                                if left[0] == 0:
                                    left[0] -= 1
                                    raise ValueError("injected")
                                left[0] -= 1
                        if hook.endswith("setitem") and len(r) > 6 and r[0] != 22:
                            continue
                        m = dict(db.models)
                        lib.hooks.install_hook(hook, boom)
                        dropped = db.models.pop(bad + 1)
                        e = db.request(0, r)
                        lib.hooks.uninstall_hook(hook)
                        db.models[bad + 1] = dropped
                        e = e or db.same("after the broadcast")
                        ctx.trans()
                        ctx.trace()
                        ctx.state((n, bad, r, hook, framing))
                        if e:
                            ctx.fail(e, {"slaves": n, "failing": bad + 1, "broadcast": r.hex(), "hook": hook})


def job_isolation(ctx, framing):
    """writes to one of three slaves with identical layouts, every function"""
    lib = loader.plain()
    with ctx.guard("databank", 60):
        for order in itertools.permutations((1, 2, 200)):
            for uns in (True, False):
                db = Db(lib, True, framing)
                e = None
                for sid in order:
                    e = e or db.add(sid, uns)
                for sid in order:
                    for r in (p6(10, 1), p16(11, (2, 3)), p5(20, 0xFF00), p15(21, (0, 1)), p22(13, 0, 9), p23(10, 4, 10, (4, 4)), RD, p6(99, 1),
                              b"\x07", b"\x55"):
                        if r == b"\x07":
                            continue
                        e = e or db.request(sid, r)
                        ctx.trans()
                        ctx.trace()
                        ctx.state((order, uns, sid, r))
                if e:
                    ctx.fail(e, {"order": order, "framing": framing})


def job_crowd(ctx, framing, n):
    """n slaves at once (up to every id): a broadcast reaches every one, a request only the one it names"""
    lib = loader.plain()
    orders = {"up": list(range(1, n + 1)), "down": list(range(255, 255 - n, -1)),
              "mixed": [(i * 128 + 3) % 255 + 1 for i in range(n)]}
    with ctx.guard("databank", 120) as g:
        for name, ids in orders.items():
            db = Db(lib, True, framing)
            e = None
            for sid in ids:
                g.again()
                e = e or db.add(sid)
            for step, (sid, r) in enumerate([(0, p16(10, (7, 8)))] + [(sid, p6(11, sid * 3)) for sid in ids]
                                            + [(0, p6(12, 5)), (0, p15(20, (1, 0, 1)))]):
                g.again()
                e = e or db.request(sid, r)
                ctx.trans()
            e = e or db.same("after all the requests")
            # half of them go away
            for sid in ids[::2]:
                g.again()
                e = e or db.remove(sid)
            for sid, r in [(0, p16(10, (1, 2, 3)))] + [(sid, RD) for sid in ids]:
                g.again()
                e = e or db.request(sid, r)
                ctx.trans()
            ctx.trace()
            ctx.state((n, name, framing))
            if e:
                ctx.fail(e, {"slaves": n, "order": name, "framing": framing})


def jobs(tier, seed):
    t = tier == "thorough"
    out = []
    for fr in ("tcp", "rtu"):
        for err in (True, False):
            out += [("job_histories", (f, fr, err, 3 if t or (fr == "tcp") == err else 2)) for f in range(len(OPS))]
            out.append(("job_broadcasts", (fr, err)))
        out += [("job_ids", (fr, lo, lo + 32)) for lo in range(1, 256, 32)]
        out += [("job_failing_slave", (fr,)), ("job_isolation", (fr,))]
    if t:
        out += [("job_histories", (f, "tcp", True, 4)) for f in range(len(OPS))]
    out += [("job_crowd", (fr, n)) for fr in ("tcp", "rtu") for n in ((5, 17, 33, 65, 129, 255) if not t else (4, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 200, 248, 255))]
    out.append(("job_bad_ids", ()))
    return out
