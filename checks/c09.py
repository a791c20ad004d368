"""C09: a TCP master returns data only from the response to its own request.

A real TcpMaster talks to a scripted device in the simulated world.  For every supported function the device plays every
response of the bounded mutation sets; the call must return exactly the values of a fully matching frame, raise
ModbusError with the code of a matching exception frame, and raise on anything else.
"""
import itertools
import struct

from mc import peer, ref
from checks.c07 import in_world, pieces, splits

BOUNDS = ("every transaction id, protocol id and length field, every pair of requested and answering unit; "
          "15 exchanges covering every function; every single-bit change of transaction, protocol, unit and length fields "
          "and of the function code, byte counts and data lengths +-1..3, every truncation with and without disconnection, "
          "all 256 exception codes, stale/duplicated frames in every order and timing relative to the call, every "
          "segmentation into <=3 segments (gaps 0/0.4 s) and byte by byte")
BIG = [("125 registers", 3, dict(starting_address=0, quantity_of_x=125), bytes([3, 250]) + ref.regs([i * 523 & 0xFFFF for i in range(125)]),
        tuple(i * 523 & 0xFFFF for i in range(125))),
       ("2000 coils", 1, dict(starting_address=0, quantity_of_x=2000), bytes([1, 250]) + bytes(i * 7 & 0xFF for i in range(250)),
        tuple((i * 7 >> b) & 1 for i in range(250) for b in range(8))),
       ("124 registers", 4, dict(starting_address=0, quantity_of_x=124), bytes([4, 248]) + ref.regs(list(range(124))), tuple(range(124)))]
EX = peer.exchanges() + BIG
T = 1.0


class Rig(object):
    def __init__(self, ctx, w, lib):
        w.net.points = False
        self.ctx, self.w, self.lib = ctx, w, lib
        self.p = peer.Peer(w, 1502, handler=self.handle)
        self.m = lib.modbus_tcp.TcpMaster("127.0.0.1", 1502, timeout_in_sec=T)
        self.script = None
        self.conn = None

    def handle(self, conn, req):
        self.conn = conn
        self.req = req
        s = self.script
        if s is not None:
            s(conn, req)

    def call(self, ex, script, unit=1):
        name, fc, kw, pdu, val = ex
        self.script = script
        t0 = self.w.now
        r = peer.call(self.m, unit, fc, **kw)
        self.script = None
        self.dt = self.w.now - t0
        return r

    def judge(self, ex, r, want, case):
        """want: 'ok' | 'raise' | ('modbus', code) | 'okraise' (correct values or an exception)"""
        ctx = self.ctx
        name, fc, kw, pdu, val = ex
        ctx.state(repr(case))
        ctx.trans()
        ctx.trace()
        ctx.sample(case, 1)
        kind, v = r
        if kind == "ok" and same(v, val) and want in ("ok", "okraise"):
            return True
        if kind == "exc":
            if want in ("raise", "okraise"):
                return True
            if isinstance(want, tuple) and isinstance(v, self.lib.exceptions.ModbusError if hasattr(self.lib, "exceptions")
                                                      else self.lib.modbus.ModbusError) and v.get_exception_code() == want[1]:
                return True
        ctx.fail("%s: expected %s, the call %s %r" % (name, want if want != "ok" else "values %r" % (val,),
                                                       "returned" if kind == "ok" else "raised", v), case)
        return False


def same(v, val):
    try:
        return len(v) == len(val) and all(a == b for a, b in zip(v, val))
    except TypeError:
        return False


def hdr(req):
    return struct.unpack(">HHHB", req[:7])


def mk(tid, proto, length, unit, pdu):
    return struct.pack(">HHHB", tid & 0xFFFF, proto & 0xFFFF, length & 0xFFFF, unit & 0xFF) + pdu


def muts(ex):
    """(label, function(req) -> bytes, want, ending) for every single mutation of the proper reply"""
    name, fc, kw, pdu, val = ex

    def good(req, p=pdu, dt=0, dp=0, du=0, dl=0):
        t, _p, _l, u = hdr(req)
        return mk(t ^ dt, dp, len(p) + 1 + dl, u ^ du, p)
    out = [("good", lambda r: good(r), "ok", None)]
    for b in range(16):
        out.append(("tid bit %d" % b, lambda r, b=b: good(r, dt=1 << b), "raise", None))
        out.append(("proto bit %d" % b, lambda r, b=b: good(r, dp=1 << b), "raise", None))
    for b in range(8):
        out.append(("unit bit %d" % b, lambda r, b=b: good(r, du=1 << b), "raise", None))
        if b < 7:
            out.append(("fc bit %d" % b, lambda r, b=b: good(r, bytes([pdu[0] ^ (1 << b)]) + pdu[1:]), "raise", None))
            for c in (1, 2, 11):
                out.append(("exception fc bit %d code %d" % (b, c),
                            lambda r, b=b, c=c: good(r, bytes([(pdu[0] ^ (1 << b)) | 0x80, c])), "raise", None))
    for b in range(16):
        d = 1 << b
        # a length field which does not fit the bytes sent: shorter than the frame, or longer (then silence or close)
        for e in (None, "eof"):
            out.append(("length +%d %s" % (d, e), lambda r, d=d: good(r, dl=d), "raise", e))
        if d < len(pdu) + 1 and fc != 43:
            out.append(("length -%d" % d, lambda r, d=d: good(r, dl=-d), "raise", None))
    out.append(("length 0", lambda r: good(r, dl=-len(pdu) - 1), "raise", None))
    for n in range(1, len(pdu)):
        if fc == 43 and n > 1:
            continue
        out.append(("pdu cut to %d" % n, lambda r, n=n: good(r, pdu[:n]), "raise", None))
    out.append(("empty pdu", lambda r: good(r, b""), "raise", None))
    for n in (1, 2, 3):
        if fc == 43:
            continue
        out.append(("pdu extended by %d" % n, lambda r, n=n: good(r, pdu + b"\0" * n), "raise", None))
        if fc in (1, 2, 3, 4, 20, 23):
            out.append(("byte count +%d" % n, lambda r, n=n: good(r, bytes([pdu[0], pdu[1] + n]) + pdu[2:]), "raise", None))
            if pdu[1] >= n:
                out.append(("byte count -%d" % n, lambda r, n=n: good(r, bytes([pdu[0], pdu[1] - n]) + pdu[2:]), "raise", None))
            # consistent frame, but more or less data than requested
            if fc in (3, 4, 23):
                out.append(("%d registers too many" % n,
                            lambda r, n=n: good(r, bytes([pdu[0], pdu[1] + 2 * n]) + pdu[2:] + b"\0" * 2 * n), "raise", None))
            if fc in (1, 2):
                out.append(("%d bytes too many" % n,
                            lambda r, n=n: good(r, bytes([pdu[0], pdu[1] + n]) + pdu[2:] + b"\0" * n), "raise", None))
    total = 7 + len(pdu)
    for n in range(total):
        if total > 100 and 20 < n < total - 6 and n % 41:
            continue
        for e in (None, "eof", "rst"):
            out.append(("truncated after %d bytes, then %s" % (n, e), lambda r, n=n: good(r)[:n], "raise", e))
    # frames around the right one
    out.append(("duplicated", lambda r: good(r) * 2, "ok", None))
    out.append(("stale before", lambda r: good(r, dt=1) + good(r), "okraise", None))
    out.append(("stale twice before", lambda r: good(r, dt=1) + good(r, dt=3) + good(r), "okraise", None))
    out.append(("foreign unit before", lambda r: good(r, du=3) + good(r), "okraise", None))
    out.append(("garbage byte before", lambda r: b"\0" + good(r), "raise", None))
    out.append(("garbage byte after", lambda r: good(r) + b"\x07", "ok", None))
    if fc != 43:
        out.append(("request echoed", lambda r: r, "raise" if fc not in (5, 6, 8, 22) else "okraise", None))
    out.append(("zeros", lambda r: b"\0" * 12, "raise", None))
    out.append(("ones", lambda r: b"\xff" * 12, "raise", "eof"))
    out.append(("silence", lambda r: b"", "raise", None))
    out.append(("disconnection", lambda r: b"", "raise", "eof"))
    return out


def mutations(ctx, idx):
    ex = EX[idx]

    def body(w, lib):
        rig = Rig(ctx, w, lib)
        for label, fn, want, ending in muts(ex):
            for cut in (0, 1, 7):
                def script(conn, req):
                    data = fn(req)
                    if cut and cut < len(data):
                        conn.push(data[:cut])
                        conn.push(data[cut:], 0.2)
                        end = 0.3
                    else:
                        conn.push(data)
                        end = 0
                    if ending == "eof":
                        conn.eof(end)
                    elif ending == "rst":
                        conn.rst(end) if not data else conn.rst(end + 0.05)
                r = rig.call(ex, script)
                rig.judge(ex, r, want, {"exchange": ex[0], "reply": label, "cut": cut})
                w.sleep(0.5)
                # the next call must get its own reply whatever is left over (a call may fail to recover from a loss)
                other = EX[(idx + 1) % len(EX)]

                def proper(conn, req):
                    t, _p, _l, u = hdr(req)
                    conn.push(ref.mbap(t, u, other[3]))
                r = rig.call(other, proper)
                rig.judge(other, r, "ok" if label in ("good", "duplicated", "garbage byte after") else "okraise",
                          {"exchange": other[0], "after": [ex[0], label, cut]})
                if r[0] != "ok":
                    rig.call(other, proper)
    in_world(ctx, body)


def headers(ctx, field, lo, hi):
    """every value of a header field; every pair of requested and answering unit"""
    ex = EX[2]

    def body(w, lib):
        rig = Rig(ctx, w, lib)
        pdu = ex[3]
        for v in range(lo, hi):
            unit = (v >> 8) if field == "unit" else 1

            def script(conn, req):
                t, p, n, u = hdr(req)
                n = len(pdu) + 1
                if field == "tid":
                    t ^= v
                elif field == "proto":
                    p = v
                elif field == "length":
                    n = v
                else:
                    u = v & 0xFF
                conn.push(mk(t, p, n, u, pdu))
                if field == "length" and v > len(pdu) + 1 and v & 1:
                    conn.eof(0.1)
            good = {"tid": v == 0, "proto": v == 0, "length": v == len(pdu) + 1, "unit": (v & 0xFF) == unit}[field]
            r = rig.call(ex, script, unit)
            rig.judge(ex, r, "ok" if good else "raise", {"field": field, "value": v})
            if field == "length" and r[0] != "ok":
                w.sleep(0.2)
    in_world(ctx, body)


def exceptions(ctx):
    def body(w, lib):
        rig = Rig(ctx, w, lib)
        for ex in EX:
            for code in range(256):
                def script(conn, req):
                    t, _p, _l, u = hdr(req)
                    conn.push(ref.mbap(t, u, bytes([ex[1] | 0x80, code])))
                r = rig.call(ex, script)
                rig.judge(ex, r, ("modbus", code), {"exchange": ex[0], "exception": code})
    in_world(ctx, body)


def segments(ctx, idx):
    """the proper reply in every segmentation"""
    ex = EX[idx]

    def body(w, lib):
        rig = Rig(ctx, w, lib)
        n = 7 + len(ex[3])
        ks = (1, 2) if n > 100 and not ctx.thorough else (1, 2, 3) if n > 100 or not ctx.thorough else (1, 2, 3, 4)
        todo = [(c, g) for g in (0, 0.4) for k in ks for c in splits(n, k)]
        todo += [(tuple(range(1, n)), g) for g in (0, 0.02, 0.9)]
        for exc in (False, True):
            for cuts, gap in todo:
                def script(conn, req):
                    t, _p, _l, u = hdr(req)
                    data = ref.mbap(t, u, bytes([ex[1] | 0x80, 2]) if exc else ex[3])
                    for i, piece in enumerate(pieces(data, [c for c in cuts if c < len(data)])):
                        conn.push(piece, 0.001 + i * gap)
                r = rig.call(ex, script)
                rig.judge(ex, r, ("modbus", 2) if exc else "ok", {"exchange": ex[0], "cuts": cuts, "gap": gap, "exception": exc})
    in_world(ctx, body)


def stale(ctx, depth):
    """histories of calls where each reply is sent in time, late, twice or never, in every combination and timing"""
    kinds = ["now", "twice", "late", "never", "late+now2", "exc", "dup-late"]

    def body(w, lib):
        for hist in itertools.product(kinds, repeat=depth):
            rig = Rig(ctx, w, lib)
            rig.p = peer.Peer(w, 1502, handler=rig.handle)
            for k, kind in enumerate(hist):
                ex = EX[2 + (k % 2)] if k % 3 else EX[2]
                val = tuple((0x1000 * (k + 1) + i) for i in range(len(ex[4])))
                pdu = bytes([ex[1], 2 * len(val)]) + ref.regs(val)
                e2 = (ex[0], ex[1], ex[2], pdu, val)

                def script(conn, req):
                    t, _p, _l, u = hdr(req)
                    f = ref.mbap(t, u, pdu)
                    if kind == "now":
                        conn.push(f)
                    elif kind == "twice":
                        conn.push(f + f)
                    elif kind == "late":
                        conn.push(f, 1.05)       # after the timeout, while the next call is on its way
                    elif kind == "late+now2":
                        conn.push(f, 1.3)
                    elif kind == "exc":
                        conn.push(ref.mbap(t, u, bytes([ex[1] | 0x80, 4])))
                    elif kind == "dup-late":
                        conn.push(f)
                        conn.push(f, 0.15)
                want = {"now": "ok", "twice": "ok", "late": "raise", "never": "raise", "late+now2": "raise",
                        "exc": ("modbus", 4), "dup-late": "ok"}[kind]
                disturbed = k > 0 and any(h in ("late", "late+now2", "dup-late", "twice") for h in hist[:k])
                r = rig.call(e2, script)
                case = {"history": hist[:k + 1]}
                if r[0] == "ok":
                    if not same(r[1], val):
                        ctx.fail("call %d returned %r, not its own reply %r" % (k, r[1], val), case)
                    if want == "raise":
                        ctx.fail("call %d returned %r although its reply never came in time" % (k, r[1]), case)
                elif not disturbed:
                    rig.judge(e2, r, want, case)
                ctx.state(("stale", hist[:k + 1]))
                ctx.trans()
                w.sleep(0.1)
            ctx.trace()
            rig.m.close()
    in_world(ctx, body)


def jobs(tier, seed):
    out = [("mutations", (i,)) for i in range(len(EX))] + [("segments", (i,)) for i in range(len(EX))]
    out.append(("exceptions", ()))
    for f in ("tid", "proto", "length", "unit"):
        out += [("headers", (f, lo, lo + 4096)) for lo in range(0, 65536, 4096)]
    out.append(("stale", (4 if tier == "thorough" else 3,)))
    return out
