"""C13: an RTU master returns the slave's reply however the line delivers it.

A real RtuMaster on a simulated serial port (pyserial's POSIX semantics, virtual time) talks to a scripted device which
delivers every reply in every chunking within the bounds, with and without local echo and software timeout, after
left-overs of every kind, and with every corruption of the bounded sets.
"""
import itertools
import struct

from mc import fserial, peer, ref
from checks.c07 import in_world, pieces, splits
from checks.c09 import same

BOUNDS = ("15 exchanges covering every function, normal and exception replies, timeouts {1 s, inter-frame default, none}, "
          "software timeout on/off, local echo on/off: every chunking into <=3 chunks and byte by byte with gaps of 0..0.8 "
          "timeouts; every truncation, every single-bit corruption, every foreign address, noise before/after; left-over "
          "bytes of 1..600; replies of every length (1..125 registers, 1..2000 coils) from 10 units; histories of late replies; thorough: <=4 chunks, two-bit corruptions")
EX = peer.exchanges()


class Rig(object):
    def __init__(self, ctx, w, lib, timeout=1.0, sw=False, echo=False):
        w.net.points = False
        self.ctx, self.w, self.lib = ctx, w, lib
        self.ser = fserial.FakeSerial(w, timeout=timeout)
        self.p = peer.SerialPeer(self.ser, handler=self.handle, echo=echo)
        self.m = lib.modbus_rtu.RtuMaster(self.ser)
        if timeout != "default":
            self.m.set_timeout(timeout, use_sw_timeout=sw)
        else:
            self.m.use_sw_timeout = sw
        self.m.handle_local_echo = echo
        self.T = self.ser.timeout
        self.script = None

    def handle(self, conn, req):
        if self.script is not None:
            self.script(req)

    def call(self, ex, script, unit=1):
        self.script = script
        r = peer.call(self.m, unit, ex[1], **ex[2])
        self.script = None
        return r


def judge(ctx, lib, ex, r, want, case):
    """want: 'ok' | 'raise' | ('modbus', code) | 'okraise'"""
    name, fc, kw, pdu, val = ex
    ctx.state(repr(case))
    ctx.trans()
    ctx.trace()
    ctx.sample(case, 1)
    kind, v = r
    if kind == "ok" and same(v, val) and want in ("ok", "okraise"):
        return True
    if kind == "exc":
        if want in ("raise", "okraise"):
            return True
        if isinstance(want, tuple) and isinstance(v, lib.modbus.ModbusError) and v.get_exception_code() == want[1]:
            return True
    ctx.fail("%s: expected %s, the call %s %r" % (name, want if want != "ok" else "values %r" % (val,),
                                                   "returned" if kind == "ok" else "raised", v), case)
    return False


def chunks(ctx, idx, timeout, sw, echo):
    ex = EX[idx]

    def body(w, lib):
        rig = Rig(ctx, w, lib, timeout, sw, echo)
        T = rig.T
        for exc in (None, 2):
            pdu = ex[3] if exc is None else bytes([ex[1] | 0x80, exc])
            n = len(pdu) + 3
            maxk = 4 if ctx.thorough else 3
            for gap in (0.0, 0.3, 0.8):
                todo = [c for k in range(1, maxk + 1) for c in splits(n, k)] + [tuple(range(1, n))]
                for cuts in todo:
                    g = gap * (T or 1.0)
                    if sw and gap * len(cuts) > 0.75:
                        continue            # the software timeout bounds the whole reception
                    if sw:
                        g = g if gap * len(cuts) <= 0.75 else 0
                    if T is None and (exc is not None or ex[1] == 43):
                        continue            # without any timeout only the expected length ends a reception

                    def script(req):
                        data = ref.rtu(req[0], pdu)
                        first = 0.0 if len(cuts) % 2 else 0.1 * (T or 1.0)
                        for i, piece in enumerate(pieces(data, cuts)):
                            rig.p.push(piece, first + i * g)
                    case = {"exchange": ex[0], "exception": exc, "cuts": cuts, "gap_in_timeouts": gap, "timeout": timeout,
                            "sw_timeout": sw, "echo": echo}
                    ctx.cur = case
                    r = rig.call(ex, script)
                    if not judge(ctx, lib, ex, r, "ok" if exc is None else ("modbus", exc), case):
                        return
    in_world(ctx, body)


def corrupt(ctx, idx, sw):
    """truncations, corruptions, foreign addresses, noise: never wrong data"""
    ex = EX[idx]

    def body(w, lib):
        rig = Rig(ctx, w, lib, 1.0, sw)
        good = ref.rtu(1, ex[3])
        muts = []
        for n in range(len(good)):
            muts.append(("truncated to %d" % n, good[:n], "raise"))
        for b in range(8 * len(good)):
            m = bytearray(good)
            m[b // 8] ^= 1 << (b % 8)
            muts.append(("bit %d" % b, bytes(m), "raise"))
            if ctx.thorough:
                for c in range(b + 1, 8 * len(good)):
                    m2 = bytearray(m)
                    m2[c // 8] ^= 1 << (c % 8)
                    muts.append(("bits %d %d" % (b, c), bytes(m2), "raise"))
        for a in range(256):
            if a != 1:
                muts.append(("address %d" % a, ref.rtu(a, ex[3]), "raise"))
                muts.append(("exception of address %d" % a, ref.rtu(a, bytes([ex[1] | 0x80, 2])), "raise"))
        for fc in range(128):
            if fc != ex[1]:
                muts.append(("function %d" % fc, ref.rtu(1, bytes([fc]) + ex[3][1:]), "raise"))
                muts.append(("exception of function %d" % fc, ref.rtu(1, bytes([fc | 0x80, 2])), "raise"))
        for nb in (0, 1, 0xFF, 0x55):
            muts.append(("noise %d before" % nb, bytes([nb]) + good, "raise" if ex[1] != 43 else "raise"))
            if ex[1] != 43 or nb:
                # (a zero byte after a frame of unknown length leaves the CRC valid: that is how CRC-16 is)
                muts.append(("noise %d after" % nb, good + bytes([nb]), "okraise"))
        for k in (1, 2, 3):
            if ex[1] in (1, 2, 3, 4, 23):
                muts.append(("byte count +%d" % k, ref.rtu(1, bytes([ex[3][0], ex[3][1] + k]) + ex[3][2:]), "raise"))
            if len(ex[3]) > k + 1 and ex[1] != 43:
                muts.append(("%d bytes short" % k, ref.rtu(1, ex[3][:-k]), "raise"))
            if ex[1] != 43:
                muts.append(("%d bytes long" % k, ref.rtu(1, ex[3] + b"\0" * k), "raise"))
        muts.append(("bare address", b"\x01", "raise"))
        muts.append(("empty pdu", ref.rtu(1, b""), "raise"))
        muts.append(("one byte pdu", ref.rtu(1, ex[3][:1]), "raise"))
        muts.append(("zeros", b"\0" * 20, "raise"))
        muts.append(("ones", b"\xff" * 20, "raise"))
        muts.append(("proper", good, "ok"))
        for code in range(256):
            muts.append(("exception %d" % code, ref.rtu(1, bytes([ex[1] | 0x80, code])), ("modbus", code)))
        for label, data, want in muts:
            case = {"exchange": ex[0], "reply": label, "sw_timeout": sw}
            ctx.cur = case
            r = rig.call(ex, lambda req: rig.p.push(data, 0.01))
            if not judge(ctx, lib, ex, r, want, case):
                return
            w.sleep(0.05)
    in_world(ctx, body)


def leftovers(ctx, echo):
    """whatever is in the receive buffer before a call is discarded"""
    def body(w, lib):
        for idx, ex in enumerate(EX):
            good = ref.rtu(1, ex[3])
            wrong = ref.rtu(1, bytes(ex[3][:2]) + bytes(b ^ 0x11 for b in ex[3][2:]))
            for junk in [b"\0", b"\xff" * 3, good, wrong, wrong[:-1], wrong + wrong, b"\x55" * 600, good[:4]]:
                rig = Rig(ctx, w, lib, 1.0, False, echo)
                rig.ser.open()
                rig.ser.feed(junk)
                case = {"exchange": ex[0], "left_over": junk.hex()[:80], "echo": echo}
                ctx.cur = case
                r = rig.call(ex, lambda req: rig.p.push(ref.rtu(req[0], ex[3]), 0.01))
                if not judge(ctx, lib, ex, r, "ok", case):
                    return
                # and again after a good call
                rig.ser.feed(junk)
                r = rig.call(ex, lambda req: rig.p.push(ref.rtu(req[0], ex[3]), 0.01))
                if not judge(ctx, lib, ex, r, "ok", dict(case, second=True)):
                    return
                rig.m.close()
    in_world(ctx, body)


def histories(ctx, depth):
    """sequences of calls whose replies come in time, late, partially or never; calls never return another call's data
    when the late bytes arrived before the call"""
    kinds = ("now", "late", "part", "never", "exc", "extra")

    def body(w, lib):
        for hist in itertools.product(kinds, repeat=depth):
            rig = Rig(ctx, w, lib, 0.5)
            for k, kind in enumerate(hist):
                ex = EX[2]
                val = tuple(0x100 * (k + 1) + i for i in range(3))
                pdu = bytes([3, 6]) + ref.regs(val)
                e2 = (ex[0], 3, ex[2], pdu, val)

                def script(req):
                    f = ref.rtu(req[0], pdu)
                    if kind == "now":
                        rig.p.push(f, 0.01)
                    elif kind == "late":
                        rig.p.push(f, 0.6)
                    elif kind == "part":
                        rig.p.push(f[:5], 0.01)
                        rig.p.push(f[5:], 1.2)
                    elif kind == "exc":
                        rig.p.push(ref.rtu(req[0], bytes([0x83, 6])), 0.01)
                    elif kind == "extra":
                        rig.p.push(f + f[:6], 0.01)
                case = {"history": hist[:k + 1]}
                ctx.cur = case
                r = rig.call(e2, script)
                want = {"now": "ok", "late": "raise", "part": "raise", "never": "raise", "exc": ("modbus", 6), "extra": "ok"}[kind]
                if not judge(ctx, lib, e2, r, want, case):
                    return
                w.sleep(1.5)
            rig.m.close()
    in_world(ctx, body)


def sized(step=1):
    """an exchange of every length of every function"""
    for q in range(1, 126):
        vals = tuple((q * 771 + i * 40503) & 0xFFFF for i in range(q))
        for fc in (3, 4):
            yield "%d registers" % q, fc, dict(starting_address=q * 500, quantity_of_x=q), bytes([fc, 2 * q]) + ref.regs(vals), vals
        w = 1 + q % 121
        yield ("fc23 %d %d" % (q, w), 23, dict(starting_address=q, quantity_of_x=q, write_starting_address_fc23=60000 + q, output_value=[q] * w),
               bytes([23, 2 * q]) + ref.regs(vals), vals)
    for q in range(1, 124):
        vals = [(q * 31 + i * 257) & 0xFFFF for i in range(q)]
        a = 65536 - q
        yield "write %d registers" % q, 16, dict(starting_address=a, output_value=vals), bytes([16]) + struct.pack(">HH", a, q), (a, q)
    for q in [q for q in range(1, 2001) if q < 20 or q > 1960 or q % step == 0]:
        bits = [(i * i // 3 + q) & 1 for i in range(q)]
        data = ref.pack_bits(bits)
        fc = 1 + q // step % 2
        yield "%d bits" % q, fc, dict(starting_address=q, quantity_of_x=q), bytes([fc, len(data)]) + data, tuple(bits)
        if q < 248:
            data = [(q * 7 + i * 31) & 0xFF for i in range(q)]
            yield ("diagnostic %d bytes" % q, 8, dict(starting_address=q * 200, output_value=data), bytes([8]) + struct.pack(">H", q * 200) + bytes(data),
                   (q * 200,) + tuple(data))
        if q <= 1968:
            yield "write %d coils" % q, 15, dict(starting_address=q, output_value=bits), bytes([15]) + struct.pack(">HH", q, q), (q, q)


def sizes(ctx, part, parts, timeout, sw, echo):
    """replies of every length, asked to many units: whole, in halves, in 128 byte reads, byte by byte"""
    def body(w, lib):
        rig = Rig(ctx, w, lib, timeout, sw, echo)
        T = rig.T
        for k, ex in enumerate(sized(1 if ctx.thorough else 7)):
            if k % parts != part:
                continue
            unit = (1, 2, 3, 16, 17, 127, 128, 247, 248, 255)[k // parts % 10]
            n = len(ex[3]) + 3
            for style in ("whole", "halves", "128", "bytes", "exception"):
                cuts = {"whole": (), "halves": (n // 2,), "128": tuple(range(128, n, 128)), "bytes": tuple(range(1, n)), "exception": ()}[style]
                g = 0.0 if style == "bytes" and sw else (T or 1.0) * (0.001 if style == "bytes" else 0.3)

                def script(req):
                    data = ref.rtu(req[0], ex[3] if style != "exception" else bytes([req[1] | 0x80, 1 + k * 37 % 255]))
                    if req[0] != unit:
                        ctx.fail("the unit %d was asked" % req[0], case)
                    for i, piece in enumerate(pieces(data, cuts)):
                        rig.p.push(piece, 0.05 * (T or 1.0) + i * g)
                if T is None and style == "exception":
                    continue
                case = {"exchange": ex[0], "function": ex[1], "unit": unit, "style": style, "timeout": timeout, "sw_timeout": sw, "echo": echo}
                ctx.cur = case
                r = rig.call(ex, script, unit)
                if not judge(ctx, lib, ex, r, "ok" if style != "exception" else ("modbus", 1 + k * 37 % 255), case):
                    return
            if ctx.out_of_time():
                ctx.capped = True
                return
    in_world(ctx, body)


def jobs(tier, seed):
    out = []
    for i in range(len(EX)):
        for timeout, sw, echo in ((1.0, False, False), (1.0, True, False), (1.0, False, True), ("default", False, False), ("default", True, True),
                                  (None, False, False)):
            out.append(("chunks", (i, timeout, sw, echo)))
        for sw in (False, True):
            out.append(("corrupt", (i, sw)))
    for echo in (False, True):
        out.append(("leftovers", (echo,)))
    for p in range(8):
        for timeout, sw, echo in ((1.0, False, False), (1.0, True, True), ("default", False, True), (None, False, False), (0.05, False, False), (8.0, True, False)):
            out.append(("sizes", (p, 8, timeout, sw, echo)))
    out.append(("histories", (4 if tier == "thorough" else 3,)))
    return out
