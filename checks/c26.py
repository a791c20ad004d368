"""C26: the pymodbus-style client returns what the device holds.

The real client talks to a reference device (and, for histories, to a real TcpServer) in the simulated world: every address
range shape of every read method, every register value written, every failure of the device and of the connection, and every
history of open / close / is_open / read / write / lost connection up to a depth.
"""
import itertools

from mc import peer, ref, tcp
from checks.c07 import in_world

BOUNDS = ("read_coils / read_discrete_inputs: every quantity 1..2000 and every start 0..15; read_input_registers: every quantity "
          "1..125 x boundary starts; default quantities; both writes at every address 0..65535 and reads of up to 2000 items around "
          "every power of two and all along the address space; every register value written; every exception code; every history of up to "
          "5 (thorough 6) of 11 operations; constructor arguments present or absent in every combination")


def client(lib, port=1502, host="127.0.0.1", **kw):
    return lib.pymodbusclient.PyModbusClientTCP(host=host, port=port, **kw)


class Rig(object):
    def __init__(self, w, lib):
        w.net.points = False
        self.w = w
        self.p = peer.Peer(w, 1502)
        peer.fill(self.p.model)
        self.c = client(lib, timeout=0.5)

    def vals(self, name):
        return self.p.model.blocks[name][2]


def islist(v, want):
    return type(v) is list and len(v) == len(want) and all(a == b for a, b in zip(v, want))


def reads(ctx, part, parts):
    def body(w, lib):
        r = Rig(w, lib)
        todo = []
        for meth, name in (("read_coils", "c"), ("read_discrete_inputs", "d")):
            for q in range(1, 2001):
                todo.append((meth, name, 0 if q == 2000 else (q * 7) % (2001 - q), q))
            for a in range(16):
                for q in range(1, 18):
                    todo.append((meth, name, a, q))
            todo.append((meth, name, 5, None))
        for q in range(1, 126):
            for a in (0, 1, 7, 127, 300 - q):
                todo.append(("read_input_registers", "i", a, q))
        todo.append(("read_input_registers", "i", 9, None))
        for k, (meth, name, a, q) in enumerate(todo):
            if k % parts != part:
                continue
            case = {"method": meth, "address": a, "quantity": q}
            ctx.cur = case
            n = len(r.p.requests)
            try:
                v = getattr(r.c, meth)(a) if q is None else getattr(r.c, meth)(a, q)
            except Exception as e:  # noqa
                v = e
            want = r.vals(name)[a:a + (q or 1)]
            w.sleep(0.01)
            ctx.state(repr(case))
            ctx.trans()
            ctx.trace()
            ctx.sample(case)
            if not islist(v, want):
                ctx.fail("returned %s instead of %s" % (repr(v)[:200], repr(want)[:200]), case)
                return
            if len(r.p.requests) != n + 1:
                ctx.fail("%d requests were sent" % (len(r.p.requests) - n), case)
                return
            if r.p.requests[-1][6] != 1:
                ctx.fail("the unit %d was asked" % r.p.requests[-1][6], case)
                return
            del r.p.requests[:]
    in_world(ctx, body)


def writes(ctx, part, parts):
    def body(w, lib):
        r = Rig(w, lib)
        for v in range(part, 65536, parts):
            a = v % 300
            before = list(r.vals("h"))
            case = {"method": "write_single_register", "address": a, "value": v}
            ctx.cur = case
            try:
                r.c.write_single_register(a, v)
            except Exception as e:  # noqa
                ctx.fail("raised %r" % e, case)
                return
            before[a] = v
            if r.vals("h") != before:
                ctx.fail("the device holds %r" % r.vals("h")[a], case)
                return
            if r.p.requests[-1][6] != 1:
                ctx.fail("the unit %d was asked" % r.p.requests[-1][6], case)
                return
            ctx.nstates += 1
            ctx.trans()
            ctx.trace()
            if v % 16 == 0:
                w.sleep(0.01)
                del r.p.requests[:]
        for a in list(range(0, 64)) + [1999]:
            for v in (True, False, 1, 0, True):
                before = list(r.vals("c"))
                case = {"method": "write_single_coil", "address": a, "value": v}
                try:
                    r.c.write_single_coil(a, v)
                    back = r.c.read_coils(a, 1)
                except Exception as e:  # noqa
                    ctx.fail("raised %r" % e, case)
                    return
                before[a] = int(v)
                if r.vals("c") != before or back != [int(v)]:
                    ctx.fail("the device holds %r, read back %r" % (r.vals("c")[a], back), case)
                    return
                if [q[6] for q in r.p.requests[-2:]] != [1, 1]:
                    ctx.fail("the units %r were asked" % [q[6] for q in r.p.requests[-2:]], case)
                    return
                ctx.state(repr(case))
                ctx.trans(2)
                ctx.trace()
    in_world(ctx, body)


def everywhere(ctx, part, parts):
    """the whole address space of a device that has all of it"""
    def body(w, lib):
        r = Rig(w, lib)
        m = r.p.model
        for name, typ in (("c", 1), ("d", 2), ("h", 3), ("i", 4)):
            del m.blocks[name]
            m.add(name, typ, 0, 65536)
            m.blocks[name][2][:] = [(i * i // 3 + typ) & 1 for i in range(65536)] if typ < 3 else [(i * 40503 + typ * 257) & 0xFFFF for i in range(65536)]
        near = {x + d for x in ([1 << p for p in range(17)] + [9999, 10000, 20000, 30000, 30001, 40000, 40001, 49999, 50000]) for d in (-2, -1, 0, 1, 2)}
        for a in range(part, 65536, parts):
            full = a in near
            for meth, name, most in (("read_coils", "c", 2000), ("read_discrete_inputs", "d", 2000), ("read_input_registers", "i", 125)):
                for q in ((1, 2, 8, 17, most - 1, most) if full else (1 + a % 9,) if ctx.thorough or (a // parts) % 3 == 0 else ()):
                    if a + q > 65536:
                        continue
                    case = {"method": meth, "address": a, "quantity": q}
                    ctx.cur = case
                    try:
                        v = getattr(r.c, meth)(a, q)
                    except Exception as e:  # noqa
                        v = e
                    ctx.trans()
                    if not islist(v, r.vals(name)[a:a + q]):
                        ctx.fail("returned %s instead of %s" % (repr(v)[:200], repr(r.vals(name)[a:a + q])[:200]), case)
                        return
            case = {"method": "write_single_register / write_single_coil", "address": a}
            ctx.cur = case
            v = (a * 7919 + 3) & 0xFFFF
            b = 1 - r.vals("c")[a]
            exp = {"c": list(r.vals("c")), "h": list(r.vals("h"))} if full else None
            try:
                r.c.write_single_register(a, v)
                r.c.write_single_coil(a, b)
            except Exception as e:  # noqa
                ctx.fail("raised %r" % e, case)
                return
            ctx.trans(2)
            if exp:
                exp["c"][a], exp["h"][a] = b, v
            if r.vals("h")[a] != v or r.vals("c")[a] != b or exp and (exp["c"] != r.vals("c") or exp["h"] != r.vals("h")):
                ctx.fail("the device holds %r and %r instead of %r and %r (or something else changed)" % (r.vals("h")[a], r.vals("c")[a], v, b), case)
                return
            ctx.nstates += 1
            if a // parts % 16 == 0:
                w.sleep(0.01)
                if any(q[6] != 1 for q in r.p.requests):
                    ctx.fail("another unit was asked", case)
                    return
                del r.p.requests[:]
        ctx.trace()
        bad = [a for a in range(part, 65536, parts) if r.vals("h")[a] != (a * 7919 + 3) & 0xFFFF]
        if bad:
            ctx.fail("the registers %r do not hold what was written" % bad[:5], {"method": "write_single_register"})
        bad = [a for a in range(65536) if a % parts != part and (r.vals("h")[a] != (a * 40503 + 3 * 257) & 0xFFFF or r.vals("c")[a] != (a * a // 3 + 1) & 1)]
        if bad:
            ctx.fail("the items %r, never written, have changed" % bad[:5], {"method": "write_single_register"})
    in_world(ctx, body)


METHODS = (("read_coils", (3, 4)), ("read_discrete_inputs", (3, 4)), ("read_input_registers", (3, 4)), ("write_single_register", (3, 4)),
           ("write_single_coil", (3, 1)))


def errors(ctx):
    """exceptions and connection failures raise"""
    def body(w, lib):
        for meth, args in METHODS:
            for code in range(1, 256):
                r = Rig(w, lib)
                r.p.handler = lambda conn, req: conn.push(r.p.frame(req, bytes([req[7] | 0x80, code])))
                case = {"method": meth, "exception": code}
                ctx.cur = case
                try:
                    v = getattr(r.c, meth)(*args)
                    err = "returned %r" % (v,)
                except lib.modbus.ModbusError as e:
                    err = None if e.get_exception_code() == code else "raised the exception code %r" % e.get_exception_code()
                except Exception as e:  # noqa
                    err = "raised %r" % e
                r.c.close()
                judge(ctx, case, err)
                if err:
                    return
            for what in ("refused", "silent", "closes", "resets", "garbage"):
                r = Rig(w, lib)
                if what == "refused":
                    r.p.on_connect = lambda s: ConnectionRefusedError(111, "refused")
                r.p.handler = {"closes": lambda c, q: c.eof(), "resets": lambda c, q: c.rst(), "garbage": lambda c, q: c.push(b"\0\1\0\0\0\3\1\x55\x55" * 2)}.get(
                    what, lambda c, q: None)
                case = {"method": meth, "peer": what}
                ctx.cur = case
                try:
                    v = getattr(r.c, meth)(*args)
                    err = "returned %r" % (v,)
                except Exception:  # noqa
                    err = None
                if what == "refused" and not err:
                    if r.c.is_open():
                        err = "is_open() after a refused connection"
                    try:
                        r.c.open()
                        err = "open() did not raise"
                    except Exception:  # noqa
                        pass
                    if r.c.is_open():
                        err = "is_open() after a refused connection"
                r.c.close()
                if not err and (r.c.is_open() or w.net.open_sockets()):
                    err = "still open after close()"
                w.net.socks[:] = []
                judge(ctx, case, err)
                if err:
                    return
    in_world(ctx, body)


def judge(ctx, case, err):
    ctx.state(repr(case))
    ctx.trans()
    ctx.trace()
    ctx.sample(case)
    if err:
        ctx.fail(err, case)


OPS = ("open", "close", "is_open", "rc", "rd", "ri", "wr", "wc0", "wc1", "eof", "refuse")


def histories(ctx, first, depth):
    def body(w, lib):
        for n in range(0, depth):
            for rest in itertools.product(OPS, repeat=n):
                hist = (first,) + rest
                if hist[-1] in ("eof", "refuse", "open", "close"):
                    continue
                w.net.socks[:] = []
                r = Rig(w, lib)
                r.p.on_connect = lambda s: None
                st = {"open": False, "lost": False, "refuse": False}

                def conn(s):
                    if st["refuse"]:
                        st["refuse"] = False
                        return ConnectionRefusedError(111, "refused")
                    return None
                r.p.on_connect = conn
                case = {"history": hist}
                ctx.cur = case
                err = None
                for i, op in enumerate(hist):
                    err = step(r, st, op, i)
                    ctx.trans()
                    if err:
                        case = dict(case, at=i)
                        break
                r.c.close()
                if not err and w.net.open_sockets():
                    err = "a socket is open after close()"
                w.sleep(0.001)
                ctx.state(hist)
                ctx.trace()
                ctx.sample(case)
                if err:
                    ctx.fail(err, case)
                    return
    in_world(ctx, body)


def step(r, st, op, i):
    c = r.c
    refuse = st["refuse"]
    if op == "eof":
        if st["open"]:
            r.p.conns[-1].eof()
            st["lost"] = True
        return None
    if op == "refuse":
        st["refuse"] = True
        return None
    if op == "is_open":
        v = c.is_open()
        if st["open"] is not None and bool(v) != st["open"] and not st["lost"]:
            return "is_open() is %r" % (v,)
        return None
    try:
        if op == "open":
            c.open()
        elif op == "close":
            c.close()
        elif op == "wr":
            c.write_single_register(7, 100 + i)
        elif op in ("wc0", "wc1"):
            c.write_single_coil(9, op == "wc1")
        else:
            v = {"rc": lambda: c.read_coils(5, 9), "rd": lambda: c.read_discrete_inputs(5, 9), "ri": lambda: c.read_input_registers(5, 3)}[op]()
        exc = None
    except Exception as e:  # noqa
        exc = e
    if op == "close":
        st["open"] = st["lost"] = False
        return "close() raised %r" % exc if exc else None
    if st["open"] and op == "open":
        return "open() raised %r" % exc if exc else None
    if st["open"] and not st["lost"]:
        if exc:
            return "%s raised %r" % (op, exc)
    elif st["open"]:
        if exc is None:
            st["lost"] = False
        else:
            st["open"] = bool(r.w.net.open_sockets())
            st["lost"] = True
            return None
    elif refuse:
        if exc is None:
            return "%s did not raise although the connection was refused" % op
        return None
    elif exc:
        return "%s raised %r" % (op, exc)
    else:
        st["open"] = True
    if op == "wr" and r.vals("h")[7] != 100 + i:
        return "the register was not written"
    if op in ("wc0", "wc1") and r.vals("c")[9] != int(op == "wc1"):
        return "the coil was not written"
    if op in ("rc", "rd", "ri"):
        name = op[1]
        want = r.vals(name)[5:5 + (3 if op == "ri" else 9)]
        if not islist(v, want):
            return "%s returned %r instead of %r" % (op, v, want)
    return None


def ctor(ctx):
    """arguments left out have their defaults: the client works"""
    def body(w, lib):
        w.net.points = False
        for port, host, timeout in itertools.product((None, 502, 1502), (None, "127.0.0.1"), (None, 0.5, 3)):
            p = peer.Peer(w, port or 502)
            peer.fill(p.model)
            kw = {k: v for k, v in (("port", port), ("host", host), ("timeout", timeout)) if v is not None}
            case = {"arguments": kw}
            ctx.cur = case
            try:
                c = lib.pymodbusclient.PyModbusClientTCP(**kw)
                err = None if not c.is_open() else "is_open() before open()"
                c.open()
                err = err or (None if c.is_open() else "not open after open()")
                err = err or (None if c.read_input_registers(0, 2) == p.model.blocks["i"][2][:2] else "wrong values")
                c.close()
                err = err or (None if not c.is_open() else "open after close()")
            except Exception as e:  # noqa
                err = "raised %r" % e
            judge(ctx, case, err)
            if err:
                return
    in_world(ctx, body)


def jobs(tier, seed):
    d = 6 if tier == "thorough" else 5
    js = [("reads", (i, 8)) for i in range(8)] + [("writes", (i, 8)) for i in range(8)] + [("errors", ()), ("ctor", ())]
    js += [("everywhere", (i, 16)) for i in range(16)]
    js += [("histories", (op, d)) for op in OPS]
    return js
