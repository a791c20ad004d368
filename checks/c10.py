"""C10: master calls always end, and the master recovers from any fault of its peer.

Real masters (TCP, RTU over TCP, RTU) call scripted devices in the simulated world.  Every history  good; faults...;
good  of the bounded fault sets is played; each call must end in bounded virtual time, and once the device behaves again
at most one further call may fail before calls return the device's data.
"""
import itertools

from mc import fserial, peer, ref
from checks.c07 import in_world

BOUNDS = ("every fault of the sets (refused/silent/reset connection; silence, every truncation then silence/close/reset, "
          "late replies, garbage of 1..5000 bytes, slow drips, idle disconnection/reset/garbage before a call) at the "
          "first, a later or two consecutive calls, then replies that come at once and after 0.9 timeout; masters TCP, RTU-over-TCP, RTU (software timeout on/off); timeouts 0.05..12 s given "
          "to the constructor or set later; functions "
          "1,3,6,16,7,43-like variable length; thorough: three consecutive faults; each fault 70 (thorough 300) times in a row or every third call, then as many good calls")
REQ = [(3, dict(starting_address=5, quantity_of_x=4)), (1, dict(starting_address=2, quantity_of_x=10)),
       (6, dict(starting_address=9, output_value=77)), (16, dict(starting_address=3, output_value=[7, 8, 9])), (7, dict(starting_address=0))]
NREP = {"tcp": 7 + 2 + 8, "rtutcp": 1 + 2 + 8 + 2, "rtu": 13}


def faults(kind, small=False, T=1.0):
    n = NREP[kind]
    out = [("silent",), ("late", 1.2 * T), ("eof",), ("rst",)]
    ks = range(1, n) if not small else (1, 3, 6, 7, n - 1)
    for k in ks:
        out.append(("part", k, None))
        if kind != "rtu":
            out.append(("part", k, "eof"))
            out.append(("part", k, "rst"))
    for g in ((1, 4, 7, 8, 20, 255, 256, 257, 300, 1000, 5000) if not small else (1, 8, 300)):
        for b in (0, 0xFF, 0x41):
            out.append(("garbage", g, b))
    out.append(("drip", 30, 0.9 * T))
    out.append(("drip", 5, 0.3 * T))
    out += [("idle-garbage", 1), ("idle-garbage", 8), ("idle-garbage", 300), ("idle-garbage", 1024), ("idle-garbage", 3000), ("idle-garbage", 5000)]
    out += [("crc",), ("exception", 2)]
    if kind != "rtu":
        out += [("refuse",), ("nosyn",), ("connreset",), ("idle-eof",), ("idle-rst",), ("idle-eof-garbage",), ("idle-eof-refuse",),
                ("idle-rst-refuse",), ("idle-eof-nosyn",), ("accept-eof",)]
    else:
        out += [("fault", op) for op in ("read", "write", "flush", "reset_input_buffer", "reset_output_buffer")]
        out = [f for f in out if f[0] not in ("eof", "rst")]
    if kind != "tcp":
        # a late RTU reply can't be told from the reply to a later request: it arrives before the next call
        out = [f for f in out if f[0] != "late"] + [("late", T + 0.02)]
    return out


class Rig(object):
    def __init__(self, w, lib, kind, sw, T=1.0, how="constructor", unit=1):
        w.net.points = False
        self.w, self.kind, self.T, self.unit = w, kind, T, unit
        self.lib = lib
        self.fault = None
        self.busy = 0.0
        if kind == "rtu":
            self.ser = fserial.FakeSerial(w)
            self.p = peer.SerialPeer(self.ser, handler=self.handle)
            self.m = lib.modbus_rtu.RtuMaster(self.ser)
            self.m.set_timeout(T, use_sw_timeout=sw)
        else:
            self.p = peer.Peer(w, 1502, framing="tcp" if kind == "tcp" else "rtu", handler=self.handle)
            self.p.on_connect = self.connect
            cls = lib.modbus_tcp.TcpMaster if kind == "tcp" else lib.modbus_rtu_over_tcp.RtuOverTcpMaster
            if how == "constructor":
                self.m = cls("127.0.0.1", 1502, timeout_in_sec=T)
            else:
                self.m = cls("127.0.0.1", 1502, timeout_in_sec=7.0 * T)
            if how == "opened":
                self.m.open()
            if how != "constructor":
                self.m.set_timeout(T)
        peer.fill(self.p.model)
        self.last = w.now
        self.k = 0

    def connect(self, sock):
        f = self.fault
        if f is None:
            return None
        if f[0] in ("refuse", "idle-eof-refuse", "idle-rst-refuse"):
            return ConnectionRefusedError(111, "Connection refused")
        if f[0] in ("nosyn", "idle-eof-nosyn"):
            return "silent"
        if f[0] == "connreset":
            return ConnectionResetError(104, "Connection reset by peer")
        if f[0] == "accept-eof":
            self.w.at(0.0, lambda: self.p.conns and self.p.conns[-1].eof())
        return None

    def mark(self, delay=0.0):
        self.last = max(self.last, self.w.now + delay)

    def handle(self, conn, req):
        c = conn if conn is not self.p else self.p
        f = self.fault
        good = self.p.frame(req, self.p.reply_pdu(req))
        if f is None or f[0].startswith("idle") or f[0] == "fault":
            c.push(good, self.slow)
            self.mark(self.slow)
            return
        if f[0] == "late":
            c.push(good, f[1])
            self.busy = max(self.busy, self.w.now + f[1])
        elif f[0] == "eof":
            c.eof()
        elif f[0] == "rst":
            c.rst()
        elif f[0] == "part":
            c.push(good[:f[1]])
            self.mark()
            if f[2]:
                self.busy = max(self.busy, self.w.now + 0.1 * self.T)
            if f[2] == "eof":
                c.eof(0.1 * self.T)
            elif f[2] == "rst":
                c.rst(0.1 * self.T)
        elif f[0] == "garbage":
            c.push(bytes([f[2]]) * f[1])
            self.mark()
        elif f[0] == "drip":
            for i in range(f[1]):
                c.push(b"\xff", f[2] * (i + 1))
            self.drip = self.w.now + f[2] * f[1]
            self.busy = max(self.busy, self.drip)
        elif f[0] == "crc":
            c.push(good[:-1] + bytes([good[-1] ^ 1]) if self.kind != "tcp" else bytes([good[0] ^ 1]) + good[1:])
            self.mark()
        elif f[0] == "exception":
            c.push(self.p.frame(req, bytes([self.p.split(req)[2][0] | 0x80, f[1]])))
            self.mark()

    def idle(self, f):
        """what happens between calls, before a faulty call"""
        if self.kind == "rtu":
            if f[0] == "idle-garbage":
                self.ser.feed(b"\x55" * f[1])
            return
        if not self.p.conns:
            return
        c = self.p.conns[-1]
        if f[0].startswith("idle-eof"):
            if f[0].endswith("garbage"):
                c.push(b"\x01" * 40)
            c.eof()
        elif f[0].startswith("idle-rst"):
            c.rst()
        elif f[0] == "idle-garbage":
            left = f[1]
            while left > 0:
                c.push(b"\x55" * min(left, 700))
                left -= 700

    def call(self, fault=None, slow=0.0):
        """one call: (outcome, error text about its duration or result)"""
        fc, kw = REQ[self.k % len(REQ)]
        self.k += 1
        self.fault = fault
        self.drip = 0
        self.slow = slow
        want = None
        if fault is not None:
            self.idle(fault)
            if fault[0] == "fault":
                state = [0]

                def inject(op):
                    if op == fault[1] and not state[0]:
                        state[0] = 1
                        return fserial.SerialError("line error")
                self.ser.fault = inject
        t0 = self.last = self.w.now
        r = peer.call(self.m, self.unit, fc, **kw)
        dt = self.w.now - max(t0, self.last, min(self.drip, self.w.now), min(self.busy, self.w.now))
        if self.kind == "rtu":
            self.ser.fault = None
        self.fault = None
        if dt > 2 * self.T + 0.05:
            return r, "the call ended %.2f s after its start or the last byte (timeout %.1f s)" % (dt, self.T)
        want = self.expected(fc, kw)
        if r[0] == "ok" and tuple(r[1]) != want:
            return r, "the call returned %r instead of %r" % (r[1], want)
        return r, None

    def expected(self, fc, kw):
        m = self.p.model
        if fc == 3:
            return tuple(m.blocks["h"][2][5:9])
        if fc == 1:
            return tuple(m.blocks["c"][2][2:12])
        if fc == 6:
            return (9, 77)
        if fc == 16:
            return (3, 3)
        return (0x5A,)


def play(ctx, w, lib, kind, sw, before, fs, off, conf=(1.0, "constructor", 1)):
    rig = Rig(w, lib, kind, sw, *conf)
    rig.k = off
    for i in range(before):
        r, err = rig.call()
        if err or r[0] != "ok":
            return "call %d with a healthy peer: %s" % (i, err or repr(r[1]))
    for f in fs:
        r, err = rig.call(f)
        if err:
            return "faulty call %r: %s" % (f, err)
        if f[0] not in ("late",) and f[0] not in ("part", "garbage", "drip") and r[0] == "ok" and \
                f[0] in ("silent", "eof", "rst", "refuse", "nosyn", "connreset", "crc", "exception") and not (
                    f[0] in ("refuse", "nosyn", "connreset") and rig.p.conns and not rig.p.conns[-1].closed and rig.p.conns[-1].requests):
            return "faulty call %r returned %r" % (f, r[1])
        if f[0] in ("late", "drip") and kind != "tcp":
            w.sleep(0.5 * conf[0] + (rig.drip - w.now if rig.drip > w.now else 0))
    bad = 0
    for i in range(4):
        # (a device which takes its time, within the timeout, behaves)
        if i == 1 and rig.busy >= w.now:
            w.sleep(rig.busy - w.now + 0.01)      # nothing is on its way any more
        r, err = rig.call(slow=0.9 * conf[0] if i in (1, 3) else 0.0)
        if err:
            return "call %d after the peer recovered: %s" % (i, err)
        if r[0] != "ok":
            bad += 1
            if i >= 1:
                return "call %d after the peer recovered still fails: %r" % (i, r[1])
    rig.m.close()
    return None


def hist(ctx, kind, sw, before, fsets, part, nparts, conf=(1.0, "constructor", 1)):
    """fsets: how many consecutive faulty calls"""
    base = faults(kind, small=fsets > 1, T=conf[0])
    combos = list(itertools.product(base, repeat=fsets))[part::nparts]

    def body(w, lib):
        for fs in combos:
            for off in ((0, 1, 2, 3, 4) if fsets == 1 else (0,) if fsets == 3 else (0, 2)):
                case = {"master": kind, "sw_timeout": sw, "good_before": before, "faults": fs, "first_request": off, "timeout": conf[0], "set by": conf[1], "unit": conf[2]}
                ctx.cur = case
                err = play(ctx, w, lib, kind, sw, before, fs, off, conf)
                ctx.state(repr(case))
                ctx.trans(before + len(fs) + 3)
                ctx.trace()
                ctx.sample(case, 1)
                if err:
                    ctx.fail(err, case)
                    return
                w.events.clear()
                if ctx.out_of_time():
                    ctx.capped = True
                    return
    in_world(ctx, body)


def long_fault(ctx, kind, sw, n):
    """the same fault n calls in a row, and n good calls, n times the fault between good calls"""
    def body(w, lib):
        for f in faults(kind, small=True):
            for sched in ("row", "every other"):
                rig = Rig(w, lib, kind, sw)
                case = {"master": kind, "sw_timeout": sw, "fault": f, "calls": n, "how": sched}
                ctx.cur = case
                err = None
                for i in range(n):
                    if sched == "row":
                        r, err = rig.call(f)
                    else:
                        r, err = rig.call(f if i % 3 == 1 else None)
                    if err:
                        err = "call %d: %s" % (i, err)
                        break
                    if f[0] in ("late", "drip") and kind != "tcp":
                        w.sleep(0.5 * rig.T + (rig.drip - w.now if rig.drip > w.now else 0))
                for i in range(n if not err else 0):
                    r, err = rig.call()
                    if not err and r[0] != "ok" and i:
                        err = "fails: %r" % (r[1],)
                    if err:
                        err = "call %d after the peer recovered: %s" % (i, err)
                        break
                rig.m.close()
                ctx.state(repr(case))
                ctx.trans(2 * n)
                ctx.trace()
                if err:
                    ctx.fail(err, case)
                    return
                w.events.clear()
                w.net.socks[:] = []
                if ctx.out_of_time():
                    ctx.capped = True
                    return
    in_world(ctx, body)


def jobs(tier, seed):
    out = []
    th = tier == "thorough"
    for kind, sw in (("tcp", False), ("rtutcp", False), ("rtu", False), ("rtu", True)):
        out.append(("long_fault", (kind, sw, 300 if th else 70)))
        for before in (0, 1):
            out.append(("hist", (kind, sw, before, 1, 0, 1)))
            for p in range(4):
                out.append(("hist", (kind, sw, before, 2, p, 4)))
            for conf in ((0.25, "constructor", 17), (12.0, "constructor", 255), (3.0, "set", 247), (2.0, "opened", 2), (0.05, "opened", 129)):
                if before == 1 or th:
                    out.append(("hist", (kind, sw, before, 1, 0, 1, conf)))
            if th:
                for p in range(24):
                    out.append(("hist", (kind, sw, before, 3, p, 24)))
    return out
