"""C15: master calls put the specified request on the wire and decode the reply.

Real masters (TCP, RTU, RTU over TCP) call a scripted device; the request on the wire is compared with the PDU built here
from the Modbus specification, the device answers with a conforming reply built the same way, and the values returned are
compared with those put in it.  Argument spaces are enumerated completely where they are small (all quantities, all
register values, all bit patterns) and at their boundaries elsewhere; arguments that cannot be encoded must raise with
nothing sent; every pattern of short sends must still deliver the whole request.
"""
import itertools
import struct

from mc import fserial, peer, ref
from checks.c07 import in_world
from checks.c09 import same

BOUNDS = ("all quantities of every read function, all 98304 values of single register writes, all coil patterns of up to 10 "
          "coils and all lengths up to 1968, all lengths of register writes up to 123 and 121, boundary addresses x masks x "
          "values, all struct formats of up to 3 items of 9 types, files of up to 3 sub-requests, of every quantity up to 121 and of up to 35 sub-requests, all function codes 0..255, "
          "all unit ids, 60+ arguments that cannot be encoded, on 3 kinds of masters; short sends of every size")
W = struct.pack
ADDRS = (0, 1, 2, 255, 256, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF)
VALS = (0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, -1, -2, -0x7FFF, -0x8000)


SIZED = (1, 2, 3, 4, 5, 6, 15, 16, 20, 22, 23)     # the request tells how long the reply is


class Rig(object):
    def __init__(self, ctx, w, lib, kind="tcp"):
        w.net.points = False
        self.ctx, self.w, self.lib, self.kind = ctx, w, lib, kind
        self.rep = None
        if kind == "rtu":
            self.ser = fserial.FakeSerial(w)
            self.p = peer.SerialPeer(self.ser, handler=self.handle)
            self.m = lib.modbus_rtu.RtuMaster(self.ser)
            self.m.set_timeout(1.0)
        elif kind == "tcp":
            self.p = peer.Peer(w, 1502, handler=self.handle)
            self.m = lib.modbus_tcp.TcpMaster("127.0.0.1", 1502, timeout_in_sec=1.0)
        else:
            self.p = peer.Peer(w, 1502, framing="rtu", handler=self.handle)
            self.m = lib.modbus_rtu_over_tcp.RtuOverTcpMaster("127.0.0.1", 1502, timeout_in_sec=1.0)
        self.n = 0

    def handle(self, conn, req):
        if self.rep is not None:
            f = self.p.frame(req, self.rep)
            (self.p.push if self.kind == "rtu" else conn.push)(f)

    def exchange(self, unit, fc, kw, want, rep, val, case):
        """one call; True if the request and the result are the right ones"""
        self.rep = rep
        self.w.sleep(0.01)
        del self.p.requests[:]
        self.ctx.cur = case
        t0 = self.w.now
        r = peer.call(self.m, unit, fc, **kw)
        t0 = self.w.now - t0
        self.n += 1
        ctx = self.ctx
        ctx.nstates += 1
        ctx.trans()
        ctx.trace()
        if self.n <= 1:
            ctx.sample(case)
        if len(self.p.requests) != 1:
            ctx.fail("%d requests were sent (the call %s %r)" % (len(self.p.requests), "returned" if r[0] == "ok" else "raised", r[1]), case)
            return False
        _t, u, pdu = self.p.split(self.p.requests[0])
        frame = self.p.requests[0]
        ok = frame == (ref.rtu(unit, want) if self.kind != "tcp" else ref.mbap(_t, unit, want))
        if not ok or u != unit or pdu != want:
            ctx.fail("the request on the wire is %s instead of %s to unit %d" % (frame.hex(), want.hex(), unit), case)
            return False
        if r[0] != "ok" or not same(r[1], val):
            ctx.fail("the reply %s gave %s %r instead of %r" % (rep.hex()[:200], r[0], r[1], val), case)
            return False
        if t0 >= 0.9 and (self.kind == "tcp" or fc in SIZED):
            ctx.fail("the reply was complete at once but the call took %.2f s (the timeout is 1 s)" % t0, case)
            return False
        return True

    def illegal(self, unit, fc, kw, case):
        self.rep = bytes([fc & 0x7F, 2, 0, 0])
        del self.p.requests[:]
        raw = sum(len(c.raw) for c in self.p.conns) if self.kind != "rtu" else 0
        self.ctx.cur = case
        r = peer.call(self.m, unit, fc, **kw)
        self.ctx.nstates += 1
        self.ctx.trans()
        self.ctx.trace()
        sent = list(self.p.requests)
        more = (sum(len(c.raw) for c in self.p.conns) if self.kind != "rtu" else 0) - raw
        if sent or more > 0:
            self.ctx.fail("%s was sent for arguments that cannot be encoded" % (sent[0].hex() if sent else "%d bytes" % more), case)
            return False
        if r[0] == "ok":
            self.ctx.fail("the call returned %r for arguments that cannot be encoded" % (r[1],), case)
            return False
        return True


def rd(fc, addr, q):
    return W(">BHH", fc, addr, q)


def bits_reply(fc, bits):
    d = ref.pack_bits(bits)
    return bytes([fc, len(d)]) + d


def regs_reply(fc, vals):
    return bytes([fc, 2 * len(vals)]) + ref.regs(vals)


def c_reads(r, part, parts, thorough):
    """read functions"""
    k = 0
    for fc in (1, 2):
        for q in range(1, 2001):
            k += 1
            if k % parts != part:
                continue
            addr = ADDRS[k % len(ADDRS)]
            for pat in ([1] * q, [(i * 5 + q) // 3 % 2 for i in range(q)]) + (([0] * (q - 1) + [1],) if thorough or q < 40 else ()):
                if not r.exchange(1 + k % 247, fc, dict(starting_address=addr, quantity_of_x=q), rd(fc, addr, q), bits_reply(fc, pat), tuple(pat),
                                  {"function": fc, "address": addr, "quantity": q}):
                    return
    for fc in (3, 4):
        for q in range(1, 126):
            for addr in ADDRS:
                k += 1
                if k % parts != part:
                    continue
                vals = [(0x8001 * i + q * 7 + addr) & 0xFFFF for i in range(q)]
                if not r.exchange(1 + k % 247, fc, dict(starting_address=addr, quantity_of_x=q), rd(fc, addr, q), regs_reply(fc, vals), tuple(vals),
                                  {"function": fc, "address": addr, "quantity": q}):
                    return
    if part == 0:
        for fc in (1, 2, 3, 4):
            for addr in range(0, 65536, 1 if thorough else 31):
                if not r.exchange(1, fc, dict(starting_address=addr, quantity_of_x=1), rd(fc, addr, 1),
                                  bits_reply(fc, [1]) if fc < 3 else regs_reply(fc, [addr]), (1,) if fc < 3 else (addr,),
                                  {"function": fc, "address": addr}):
                    return
        for unit in range(1, 256):
            if not r.exchange(unit, 3, dict(starting_address=5, quantity_of_x=1), rd(3, 5, 1), regs_reply(3, [unit]), (unit,), {"unit": unit}):
                return


FMT = {"h": 2, "H": 2, "i": 4, "I": 4, "f": 4, "d": 8, "q": 8, "BB": 2, "4s": 4}


def c_formats(r, part, parts, thorough):
    k = 0
    blob = bytes((i * 71 + 13) & 0xFF for i in range(64))
    fmts = []
    for n in (1, 2, 3):
        for items in itertools.product(sorted(FMT), repeat=n):
            for order in ">", "<", "!":
                fmts.append(order + "".join(items))
    for f in fmts:
        size = struct.calcsize(f)
        for fc in (3, 4, 23):
            k += 1
            if k % parts != part:
                continue
            off = k % 7
            data = bytes(x if x != 0x7F else 0x7E for x in blob[off:off + size])
            val = struct.unpack(f, data)
            case = {"function": fc, "format": f, "data": data.hex()}
            if any(isinstance(v, float) and v != v for v in val):
                continue
            if fc == 23:
                ok = r.exchange(1, 23, dict(starting_address=2, quantity_of_x=size // 2, output_value=[7], write_starting_address_fc23=9, data_format=f),
                                W(">BHHHHBH", 23, 2, size // 2, 9, 1, 2, 7), bytes([23, size]) + data, val, case)
            else:
                ok = r.exchange(1, fc, dict(starting_address=2, quantity_of_x=size // 2, data_format=f), rd(fc, 2, size // 2),
                                bytes([fc, size]) + data, val, case)
            if ok:
                ok = r.exchange(1, 3, dict(starting_address=2, quantity_of_x=size // 2, data_format=f, returns_raw=True), rd(3, 2, size // 2),
                                bytes([3, size]) + data, data, dict(case, raw=True))
            if ok and fc == 3:
                # written with the format: the reply is always the address and the number of registers
                ok = r.exchange(1, 16, dict(starting_address=11, output_value=list(val), data_format=f),
                                W(">BHHB", 16, 11, size // 2, size) + struct.pack(f, *val), W(">BHH", 16, 11, size // 2), (11, size // 2),
                                dict(case, function=16))
            if not ok:
                return


def c_single(r, part, parts, thorough):
    step = parts
    for v in range(-0x8000 + part, 0x10000, step):
        a = (v * 7) & 0xFFFF
        if not r.exchange(1, 6, dict(starting_address=a, output_value=v), W(">BHH", 6, a, v & 0xFFFF), W(">BHH", 6, a, v & 0xFFFF), (a, v & 0xFFFF),
                          {"function": 6, "address": a, "value": v}):
            return
    if part == 0:
        for a in ADDRS:
            for v in (0, 1, 2, 0xFF, 0xFF00, 0xFFFF, True, False, -1, -256):
                enc = 0xFF00 if v else 0
                if not r.exchange(1, 5, dict(starting_address=a, output_value=v), W(">BHH", 5, a, enc), W(">BHH", 5, a, enc), (a, enc),
                                  {"function": 5, "address": a, "value": v}):
                    return
            for v in VALS:
                if not r.exchange(1, 6, dict(starting_address=a, output_value=v), W(">BHH", 6, a, v & 0xFFFF), W(">BHH", 6, a, v & 0xFFFF),
                                  (a, v & 0xFFFF), {"function": 6, "address": a, "value": v}):
                    return
                if not r.exchange(1, 6, dict(starting_address=a, output_value=v, data_format=">Hh"), W(">BHH", 6, a, v & 0xFFFF),
                                  W(">BHH", 6, a, v & 0xFFFF), (a, struct.unpack(">h", W(">H", v & 0xFFFF))[0]),
                                  {"function": 6, "address": a, "value": v, "format": ">Hh"}):
                    return


def c_multi(r, part, parts, thorough):
    k = 0
    for n in range(1, 11):
        for pat in itertools.product((0, 1), repeat=n):
            k += 1
            if k % parts != part:
                continue
            a = ADDRS[k % 9]
            v = [bool(x) for x in pat] if k % 3 == 0 else (tuple(pat) if k % 3 == 1 else list(pat))
            if not r.exchange(1, 15, dict(starting_address=a, output_value=v), W(">BHHB", 15, a, n, (n + 7) // 8) + ref.pack_bits(pat),
                              W(">BHH", 15, a, n), (a, n), {"function": 15, "address": a, "values": pat}):
                return
    for n in range(1, 1969):
        k += 1
        if k % parts != part:
            continue
        for pat in ([1] * n, [(i * 11 + n) // 5 % 2 for i in range(n)], [0] * (n - 1) + [1]):
            if not r.exchange(1, 15, dict(starting_address=9, output_value=pat), W(">BHHB", 15, 9, n, (n + 7) // 8) + ref.pack_bits(pat),
                              W(">BHH", 15, 9, n), (9, n), {"function": 15, "length": n}):
                return
    for n in range(1, 124):
        for a in ADDRS:
            k += 1
            if k % parts != part:
                continue
            vals = [VALS[(i + k) % len(VALS)] for i in range(n)]
            if not r.exchange(1, 16, dict(starting_address=a, output_value=vals if k % 2 else tuple(vals)),
                              W(">BHHB", 16, a, n, 2 * n) + ref.regs([v & 0xFFFF for v in vals]), W(">BHH", 16, a, n), (a, n),
                              {"function": 16, "address": a, "values": vals}):
                return
    for q in range(1, 126):
        for n in sorted({1, 2, 121, 1 + q % 121}):
            k += 1
            if k % parts != part:
                continue
            a, wa = ADDRS[k % 9], ADDRS[k // 9 % 9]
            vals = [VALS[(i + k) % len(VALS)] for i in range(n)]
            got = [(i * 0x777 + q) & 0xFFFF for i in range(q)]
            if not r.exchange(1, 23, dict(starting_address=a, quantity_of_x=q, output_value=vals, write_starting_address_fc23=wa),
                              W(">BHHHHB", 23, a, q, wa, n, 2 * n) + ref.regs([v & 0xFFFF for v in vals]), regs_reply(23, got), tuple(got),
                              {"function": 23, "read": (a, q), "write": (wa, vals)}):
                return


def c_others(r, part, parts, thorough):
    k = 0
    masks = (0, 1, 0xF2, 0x25, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF)
    for a in ADDRS:
        for am in masks:
            for om in masks:
                k += 1
                if k % parts == part and not r.exchange(1, 22, dict(starting_address=a, and_mask=am, or_mask=om), W(">BHHH", 22, a, am, om),
                                                        W(">BHHH", 22, a, am, om), (a, am, om), {"function": 22, "args": (a, am, om)}):
                    return
    for v in range(256):
        k += 1
        if k % parts == part and not r.exchange(1 + v % 247, 7, dict(starting_address=0), b"\x07", bytes([7, v]), (v,), {"function": 7, "status": v}):
            return
    for sub in tuple(range(0, 22)) + (255, 0xFFFF):
        for data in ((), (0, 0), (0xA5, 0x37), (0xFF, 0), (1, 2, 3, 4), tuple(range(100, 200))):
            for fmt in ("", ">" + "H" * (1 + len(data) // 2), ">H" + "B" * len(data)):
                k += 1
                if k % parts != part or (r.kind != "tcp" and len(data) % 2):
                    continue
                body = W(">H", sub) + bytes(data)
                val = struct.unpack(fmt or (">H" + "B" * len(data)), body)
                kw = dict(starting_address=sub, output_value=list(data))
                if fmt:
                    kw["data_format"] = fmt
                if not r.exchange(1, 8, kw, b"\x08" + body, b"\x08" + body, val, {"function": 8, "sub-function": sub, "data": data, "format": fmt}):
                    return
    todo = [f for n in (1, 2, 3) for f in itertools.product(((4, 1, 2), (3, 9, 2), (1, 0, 1), (0xFFFF, 0x270F, 7)), repeat=n)]
    todo += [((4, 1, q),) for q in range(1, 122)]
    todo += [((4, 1, a), (2, 7, b)) for a in (1, 2, 31, 62, 63, 64, 65, 100, 119) for b in (1, 2, 31, 62, 63, 64, 65, 100, 119) if a + b <= 120]
    todo += [tuple((i + 1, 2 * i, 1 + (i * j) % 3) for i in range(n)) for n in range(4, 36) for j in (0, 1) if n * (4 + j * 2) <= 245]
    for files in todo:
        k += 1
        if k % parts != part:
            continue
        body = b"".join(W(">BHHH", 6, *f) for f in files)
        vals = tuple(tuple((f[0] * 3 + i * 0x1111) & 0xFFFF for i in range(f[2])) for f in files)
        rep = b"".join(bytes([1 + 2 * f[2], 6]) + ref.regs(v) for f, v in zip(files, vals))
        if not r.exchange(1, 20, dict(number_file=tuple(f[0] for f in files), starting_address=tuple(f[1] for f in files),
                                      quantity_of_x=tuple(f[2] for f in files)),
                          bytes([20, len(body)]) + body, bytes([20, len(rep)]) + rep, vals, {"function": 20, "sub-requests": files}):
            return
    for code in range(1, 5):
        for obj in (0, 1, 2, 6, 0x7F, 0x80, 0xFF):
            for n in (1, 2, 3, 40, 240):
                k += 1
                if k % parts != part or r.kind == "rtu":
                    continue
                data = bytes([14, code, 0x83, 0, 0, 1, obj, n]) + bytes(65 + i % 26 for i in range(n))
                if not r.exchange(1, 43, dict(starting_address=0, output_value=[code, obj]), bytes([43, 14, code, obj]), b"\x2b" + data,
                                  tuple(data), {"function": 43, "code": code, "object": obj, "length": n}):
                    return
    for fc in (3, 0x41, 0x42, 0x64, 0x6E, 17, 24, 12):
        for n in (0, 1, 2, 5, 100, 252):
            for rn in (1, 2, 5, 251, 252):
                k += 1
                if k % parts != part:
                    continue
                pdu = bytes([fc]) + bytes((i * 31 + n) & 0xFF for i in range(n))
                data = bytes((i * 17 + rn) & 0xFF for i in range(rn))
                case = {"raw": pdu.hex(), "reply": rn}
                kw = dict(starting_address=0, pdu=pdu, expected_length=rn + 4)
                if r.kind == "otcp" and fc in (3,):
                    continue
                if not r.exchange(1, 0, dict(kw, data_format=">" + "B" * rn), pdu, bytes([fc]) + data, tuple(data), case):
                    return
                if not r.exchange(1, 0, dict(kw, returns_raw=True), pdu, bytes([fc]) + data, data, case):
                    return


LEGAL = {1: dict(starting_address=1, quantity_of_x=3), 2: dict(starting_address=1, quantity_of_x=3), 3: dict(starting_address=1, quantity_of_x=3),
         4: dict(starting_address=1, quantity_of_x=3), 5: dict(starting_address=1, output_value=1), 6: dict(starting_address=1, output_value=1),
         7: dict(starting_address=0), 8: dict(starting_address=0, output_value=[0, 0]), 15: dict(starting_address=1, output_value=[1, 0]),
         16: dict(starting_address=1, output_value=[1, 2]), 22: dict(starting_address=1, and_mask=1, or_mask=2),
         20: dict(starting_address=(1,), quantity_of_x=(1,), number_file=(1,)), 43: dict(starting_address=0, output_value=[1, 0]),
         23: dict(starting_address=1, quantity_of_x=1, output_value=[1], write_starting_address_fc23=1)}
BAD = {
    "starting_address": ((1, 2, 3, 4, 5, 6, 8, 15, 16, 22, 23), (-1, -65536, 65536, 1 << 32, 1.5, "1", None)),
    "quantity_of_x": ((1, 2, 3, 4, 23), (-1, 65536, 1 << 20, "2", None)),
    "write_starting_address_fc23": ((23,), (-1, 65536, "1", None)),
    "and_mask": ((22,), (-1, 65536, "1", None)),
    "or_mask": ((22,), (-1, 65536, "1", None)),
}
VBAD = {6: (-32769, 65536, 1 << 20, 1.5, "1", None), 16: ([65536], [-32769], [1, "2"], [1, None], [1.5], [0] * 128, [0] * 70000, None),
        23: ([65536], [-32769], [1, "2"], [0] * 128, None), 15: ([0] * 2041, [1] * 70000, ["1"], [None], None),
        8: ([256], [-1], ["1"], [1.5]), 43: ([256, 0], [0, 256], [-1, 0], [1], [])}


def c_illegal(r, part, parts, thorough):
    def after(case):
        return r.exchange(1, 3, dict(starting_address=5, quantity_of_x=1), rd(3, 5, 1), regs_reply(3, [0x4242]), (0x4242,), dict(case, then="legal call"))

    def bad(unit, fc, kw):
        case = {"unit": unit, "function": fc, "arguments": repr(kw)[:120]}
        return r.illegal(unit, fc, kw, case) and after(case)
    for fc in range(-2, 300):
        if fc not in LEGAL and fc != 0:
            if not bad(1, fc, dict(starting_address=0, quantity_of_x=1, output_value=[0, 0])):
                return
    for name, (fcs, vals) in BAD.items():
        for fc in fcs:
            for v in vals:
                if not bad(1, fc, dict(LEGAL[fc], **{name: v})):
                    return
    for fc, vals in VBAD.items():
        for v in vals:
            if not bad(1, fc, dict(LEGAL[fc], output_value=v)):
                return
    for n, s, q in (((1,), (1, 2), (1,)), ((), (), ()), ((65536,), (1,), (1,)), ((1,), (-1,), (1,)), ((1,), (1,), (65536,)), ((1, 2), (1, 2), (3,)),
                    (1, (1,), (1,)), ((1,), 1, (1,)), ((1,), (1,), 1), ((1,) * 37, (1,) * 37, (1,) * 37)):
        if not bad(1, 20, dict(number_file=n, starting_address=s, quantity_of_x=q)):
            return
    for unit in (-1, 256, 1000, 65536, -256, "1", None, 1.5):
        for fc in LEGAL:
            if not bad(unit, fc, LEGAL[fc]):
                return


def c_replies(r, part, parts, thorough):
    """exceptions with every code to every function; replies returned as they are"""
    k = 0
    for name, fc, kw, rep, vals in peer.exchanges():
        k += 1
        if k % parts != part:
            continue
        r.rep = rep
        del r.p.requests[:]
        got = peer.call(r.m, 1, fc, **dict(kw, returns_raw=True))
        want = rep[2:] if fc in (1, 2, 3, 4, 20, 23) else rep[1:]
        case = {"exchange": name, "function": fc, "returns_raw": True}
        r.ctx.cur = case
        r.ctx.state(repr(case))
        if got[0] != "ok" or not isinstance(got[1], (bytes, bytearray)) or bytes(got[1]) != want:
            r.ctx.fail("returns_raw gave %s %r instead of %r" % (got[0], got[1], want), case)
            return
        for code in range(256):
            r.rep = bytes([rep[0] | 0x80, code])
            case = {"exchange": name, "function": fc, "exception": code}
            r.ctx.cur = case
            got = peer.call(r.m, 1, fc, **kw)
            r.ctx.state(repr(case))
            r.ctx.trans()
            if got[0] == "ok" or not isinstance(got[1], r.lib.modbus.ModbusError) or got[1].get_exception_code() != code:
                r.ctx.fail("the exception %d gave %s %r" % (code, got[0], got[1]), case)
                return
            r.w.sleep(0.01)


CASES = {"replies": c_replies, "reads": c_reads, "formats": c_formats, "single": c_single, "multi": c_multi, "others": c_others, "illegal": c_illegal}


def values(ctx, case, kind, part, parts):
    def body(w, lib):
        CASES[case](Rig(ctx, w, lib, kind), part, parts, ctx.thorough)
    in_world(ctx, body)


def short(ctx, kind, size):
    """send() takes only part of the bytes: the request still arrives whole"""
    def body(w, lib):
        vals = [(i * 257) & 0xFFFF for i in range(size)]
        body_ = W(">BHHB", 16, 5, size, 2 * size) + ref.regs(vals)
        total = len(body_) + (7 if kind == "tcp" else 3)
        pats = [(k,) for k in range(1, total)] + [(k, 1) for k in range(1, total)] + [(1,) * total, (2,) * total]
        if ctx.thorough or total < 40:
            pats += [(a, b) for a in range(1, total) for b in range(2, total - a)]
        for pat in pats:
            r = Rig(ctx, w, lib, kind)
            todo = list(pat)

            def fault(op, sock):
                if op == "send" and todo:
                    return todo.pop(0)
                return None
            w.net.fault = fault
            ok = r.exchange(1, 16, dict(starting_address=5, output_value=vals), body_, W(">BHH", 16, 5, size), (5, size),
                            {"master": kind, "registers": size, "send() takes": pat[:8]})
            w.net.fault = None
            r.m.close()
            if not ok:
                return
    in_world(ctx, body)


def jobs(tier, seed):
    js = []
    for case in CASES:
        for kind in ("tcp", "rtu", "otcp"):
            parts = {"illegal": 1, "others": 4, "replies": 4}.get(case, 16 if kind == "tcp" or tier == "thorough" else 8)
            for p in range(parts):
                js.append(("values", (case, kind, p, parts)))
    for kind in ("tcp", "otcp"):
        for size in (1, 2, 9, 60, 123):
            js.append(("short", (kind, size)))
    return js
