"""C14: RTU over TCP gives the same results as RTU on a serial line.

The same scripted device answers a real RtuOverTcpMaster (simulated sockets) and a real RtuMaster (simulated serial port)
with the same bytes; results and Modbus errors must be equal, and equal to the reference.  On top of it, disconnections at
every byte of the reply must make the call raise promptly.
"""
from mc import peer, ref
from checks import c13
from checks.c07 import in_world, pieces, splits
from checks.c09 import same
from checks.c13 import judge

BOUNDS = ("15 exchanges covering every function plus the largest frames (125 registers, 2000 coils, 253-byte PDU), normal "
          "and exception replies: every segmentation into <=3 segments and byte by byte (gaps 0/0.4 s); every truncation "
          "then silence/close/reset, every single-bit corruption, every foreign address or function; left-overs; replies of every length from 10 units")
BIG = [
    ("125 registers", 3, dict(starting_address=0, quantity_of_x=125), bytes([3, 250]) + bytes(i & 0xFF for i in range(250)),
     tuple(((2 * i) & 0xFF) << 8 | ((2 * i + 1) & 0xFF) for i in range(125))),
    ("2000 coils", 1, dict(starting_address=0, quantity_of_x=2000), bytes([1, 250]) + b"\xA5" * 250, (1, 0, 1, 0, 0, 1, 0, 1) * 250),
]
RAW = ("253-byte raw", 0, dict(starting_address=0, pdu=b"\x41\x01", expected_length=256, returns_raw=True),
       bytes([0x41]) + bytes((i * 3) & 0xFF for i in range(252)), bytes((i * 3) & 0xFF for i in range(252)))
EX = peer.exchanges() + BIG


class TRig(object):
    def __init__(self, ctx, w, lib):
        w.net.points = False
        self.w, self.lib, self.ctx = w, lib, ctx
        self.p = peer.Peer(w, 1502, framing="rtu", handler=self.handle)
        self.m = lib.modbus_rtu_over_tcp.RtuOverTcpMaster("127.0.0.1", 1502, timeout_in_sec=1.0)
        self.script = None

    def handle(self, conn, req):
        self.conn = conn
        if self.script is not None:
            self.script(req)

    def call(self, ex, script, unit=1):
        self.script = script
        t0 = self.w.now
        r = peer.call(self.m, unit, ex[1], **ex[2])
        self.dt = self.w.now - t0
        self.script = None
        return r


def both(ctx, w, rigs, ex, data_of, want, case, unit=1):
    """run the exchange on both masters with the same reply pieces; results must be the same"""
    out = []
    for kind, rig in rigs:
        def script(req):
            for i, (piece, d) in enumerate(data_of(req)):
                (rig.p.push if kind == "rtu" else rig.conn.push)(piece, d)
        ctx.cur = dict(case, master=kind)
        r = rig.call(ex, script, unit)
        if not judge(ctx, rig.lib, ex, r, want, dict(case, master=kind)):
            return False
        out.append(r)
        w.sleep(0.05)
    (k1, v1), (k2, v2) = out
    me = rigs[0][1].lib.modbus.ModbusError
    same_ = k1 == k2 and (same(v1, v2) if k1 == "ok" else isinstance(v1, me) == isinstance(v2, me))
    if not same_:
        ctx.fail("RTU gives %r while RTU over TCP gives %r" % (v1, v2), case)
        return False
    return True


def rigs_of(ctx, w, lib):
    return [("rtu", c13.Rig(ctx, w, lib, 1.0)), ("tcp", TRig(ctx, w, lib))]


def segments(ctx, idx):
    ex = (EX + [RAW])[idx]

    def body(w, lib):
        rigs = rigs_of(ctx, w, lib)
        n = len(ex[3]) + 3
        for exc in (None, 1, 2, 3, 4, 11):
            m = n if exc is None else 5
            if m <= 20:
                todo = [c for k in (1, 2, 3) for c in splits(m, k)] + [tuple(range(1, m))]
            else:
                todo = [()] + [(c,) for c in range(1, m)] + [(c, c + 1) for c in range(1, m - 1)] + [tuple(range(1, m))]
            for gap in (0.0, 0.4):
                for cuts in todo:
                    g = gap if len(cuts) < 20 else gap / 40

                    def data_of(req):
                        data = ref.rtu(req[0], ex[3] if exc is None else bytes([req[1] | 0x80, exc]))
                        return [(p, 0.01 + i * g) for i, p in enumerate(pieces(data, cuts))]
                    case = {"exchange": ex[0], "exception": exc, "cuts": cuts if len(cuts) < 20 else "each byte", "gap": gap}
                    if not both(ctx, w, rigs, ex, data_of, "ok" if exc is None else ("modbus", exc), case):
                        return
    in_world(ctx, body)


def corrupt(ctx, idx):
    ex = EX[idx]

    def body(w, lib):
        rigs = rigs_of(ctx, w, lib)
        good = ref.rtu(1, ex[3])
        muts = [("truncated to %d" % n, good[:n]) for n in range(len(good))]
        for b in range(8 * len(good)):
            m = bytearray(good)
            m[b // 8] ^= 1 << (b % 8)
            muts.append(("bit %d" % b, bytes(m)))
        for a in range(256):
            if a != 1:
                muts.append(("address %d" % a, ref.rtu(a, ex[3])))
                muts.append(("exception of address %d" % a, ref.rtu(a, bytes([ex[1] | 0x80, 2]))))
        for fc in range(128):
            if fc != ex[1]:
                muts.append(("function %d" % fc, ref.rtu(1, bytes([fc]) + ex[3][1:])))
        muts += [("noise before", b"\x55" + good), ("zeros", b"\0" * 20), ("ones", b"\xff" * 20), ("empty pdu", ref.rtu(1, b""))]
        for k in (1, 2, 3):
            if ex[1] != 43:
                muts.append(("%d bytes short" % k, ref.rtu(1, ex[3][:-k])))
                muts.append(("%d bytes long" % k, ref.rtu(1, ex[3] + b"\0" * k)))
        for label, data in muts:
            if not both(ctx, w, rigs, ex, lambda req: [(data, 0.01)], "raise", {"exchange": ex[0], "reply": label}):
                return
        for code in range(256):
            if not both(ctx, w, rigs, ex, lambda req: [(ref.rtu(1, bytes([ex[1] | 0x80, code])), 0.01)], ("modbus", code),
                        {"exchange": ex[0], "exception": code}):
                return
        if not both(ctx, w, rigs, ex, lambda req: [(good, 0.01)], "ok", {"exchange": ex[0], "reply": "proper"}):
            return
    in_world(ctx, body)


def disconnect(ctx, idx):
    ex = EX[idx]

    def body(w, lib):
        rig = TRig(ctx, w, lib)
        good = ref.rtu(1, ex[3])
        for n in range(len(good) + 1):
            for how in ("eof", "rst"):
                for when in (0.0, 0.3):
                    def script(req):
                        rig.conn.push(good[:n])
                        if n == len(good) or how == "eof":
                            rig.conn.eof(when)
                        else:
                            rig.conn.rst(when + 0.01)
                    case = {"exchange": ex[0], "bytes": n, "then": how, "after": when}
                    ctx.cur = case
                    r = rig.call(ex, script)
                    ok = judge(ctx, lib, ex, r, "ok" if n == len(good) else "raise", case)
                    if ok and r[0] == "exc" and rig.dt > when + 0.2:
                        ctx.fail("the call raised only %.2f s after the disconnection" % (rig.dt - when), case)
                        return
                    if not ok:
                        return
                    w.sleep(0.5)
                    rig.m.close()
    in_world(ctx, body)


def leftovers(ctx):
    def body(w, lib):
        for ex in EX:
            good = ref.rtu(1, ex[3])
            wrong = ref.rtu(1, bytes(ex[3][:2]) + bytes(b ^ 0x11 for b in ex[3][2:]))
            for junk in (b"\0", good, wrong, wrong[:-1], wrong * 2, b"\x55" * 600, good[:4]):
                rig = TRig(ctx, w, lib)
                case = {"exchange": ex[0], "left_over": junk.hex()[:60]}
                ctx.cur = case
                for k in range(3):
                    if k:
                        rig.conn.push(junk)
                    r = rig.call(ex, lambda req: rig.conn.push(good, 0.01))
                    if not judge(ctx, lib, ex, r, "ok", dict(case, call=k)):
                        return
                rig.m.close()
    in_world(ctx, body)


def sizes(ctx, part, parts):
    """replies of every length from many units"""
    def body(w, lib):
        rigs = rigs_of(ctx, w, lib)
        for k, ex in enumerate(c13.sized(1 if ctx.thorough else 7)):
            if k % parts != part:
                continue
            n = len(ex[3]) + 3
            unit = (1, 2, 3, 16, 17, 127, 128, 247, 248, 255)[k // parts % 10]
            for style in ("whole", "halves", "bytes", "exception", "short", "crc"):
                cuts = {"halves": (n // 2,), "bytes": tuple(range(1, n))}.get(style, ())

                def data_of(req):
                    data = ref.rtu(req[0], ex[3] if style != "exception" else bytes([req[1] | 0x80, 1 + k * 37 % 255]))
                    if style == "short":
                        data = data[:-1]
                    if style == "crc":
                        data = data[:k % len(data)] + bytes([data[k % len(data)] ^ 0x10]) + data[k % len(data) + 1:]
                    return [(p, 0.01 + i * 0.001) for i, p in enumerate(pieces(data, cuts))]
                case = {"exchange": ex[0], "function": ex[1], "unit": unit, "style": style}
                if not both(ctx, w, rigs, ex, data_of, {"exception": ("modbus", 1 + k * 37 % 255), "short": "raise", "crc": "raise"}.get(style, "ok"), case, unit):
                    return
            if ctx.out_of_time():
                ctx.capped = True
                return
    in_world(ctx, body)


def jobs(tier, seed):
    out = []
    for i in range(len(EX)):
        out += [("segments", (i,)), ("corrupt", (i,)), ("disconnect", (i,))]
    out += [("segments", (len(EX),)), ("leftovers", ())] + [("sizes", (i, 8)) for i in range(8)]
    return out
