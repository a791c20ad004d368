"""C30: RTU timing follows the baud rate.

The inter-character time is compared with 11 bit times / 0.5 ms for every baud rate; masters and servers are built for
every baud rate of a list x multipliers x base times and the settings of the serial port compared; every history of timeout
changes up to a depth, on idle and running servers, must leave the last value in force, on the port and in behaviour.
"""
import itertools
import struct

from mc import fserial, loader, peer, ref
from checks.c07 import in_world
from checks.c12 import Rig as SrvRig, REQ

BOUNDS = ("every baud rate from 1 to 300000 and the multiples of 100 up to 12 million; masters and servers: 60 baud rates "
          "(every standard one, 1..20, around 19200) x 7 x 7 multipliers x 5 base times; all histories of up to 4 timeout "
          "changes out of 7; servers restarted, given other timeouts and hit by port errors in every history of up to 3 (thorough 4) operations; running server: every gap of 0.05..3 timeouts in steps of 0.05 per timeout set")
BAUDS = (50, 75, 110, 134, 150, 200, 300, 600, 1200, 1800, 2400, 4800, 9600, 14400, 19199, 19200, 19201, 28800, 38400, 57600, 76800, 115200,
         128000, 230400, 256000, 460800, 500000, 576000, 921600, 1000000, 1152000, 1500000, 2000000, 2500000, 3000000, 3500000,
         4000000, 12000000) + tuple(range(1, 21)) + (1000, 10000)
MULTS = (1.5, 3.5, 1, 2, 0.5, 10.0, 0)


def t0_of(baud):
    return 0.0005 if baud > 19200 else 11.0 / baud


def near(a, b):
    return a is not None and b is not None and abs(a - b) <= 1e-9 * max(1.0, abs(b))


def chars(ctx, lo, hi, step):
    lib = loader.plain()
    f = lib.utils.calculate_rtu_inter_char
    for b in range(lo, hi, step):
        v = f(b)
        if not near(v, t0_of(b)):
            ctx.fail("the inter-character time at %d baud is %r instead of %r" % (b, v, t0_of(b)), {"baudrate": b})
            return
    ctx.nstates += len(range(lo, hi, step))
    ctx.transitions += len(range(lo, hi, step))
    ctx.traces += len(range(lo, hi, step))
    ctx.sample({"baudrates": (lo, hi, step)})


def settings(ctx, part, parts):
    def body(w, lib):
        k = 0
        for baud in BAUDS:
            k += 1
            if k % parts != part:
                continue
            for ib, fr in itertools.product(MULTS, repeat=2):
                for t0 in (None, 0.0001, 0.002, 1.0, 0.25):
                    ser = fserial.FakeSerial(w, baudrate=baud, timeout=77)
                    case = {"what": "master", "baudrate": baud, "inter-character multiplier": ib, "inter-frame multiplier": fr, "t0": t0}
                    ctx.cur = case
                    if (ib, fr, t0) == (1.5, 3.5, None):
                        m = lib.modbus_rtu.RtuMaster(ser)
                    elif t0 is None:
                        m = lib.modbus_rtu.RtuMaster(ser, interchar_multiplier=ib, interframe_multiplier=fr)
                    elif ib == 1.5:
                        m = lib.modbus_rtu.RtuMaster(ser, interframe_multiplier=fr, t0=t0)
                    else:
                        m = lib.modbus_rtu.RtuMaster(ser, ib, fr, t0)
                    err = check(ser, m, ib, fr, t0 or t0_of(baud))
                    if not err and t0 is None:
                        ser = fserial.FakeSerial(w, baudrate=baud, timeout=77)
                        case = dict(case, what="server")
                        if (ib, fr) == (1.5, 3.5):
                            s = lib.modbus_rtu.RtuServer(ser)
                        elif ib == 1.5:
                            s = lib.modbus_rtu.RtuServer(ser, interframe_multiplier=fr)
                        elif fr == 3.5:
                            s = lib.modbus_rtu.RtuServer(ser, interchar_multiplier=ib)
                        else:
                            s = lib.modbus_rtu.RtuServer(ser, interchar_multiplier=ib, interframe_multiplier=fr)
                        err = check(ser, s, ib, fr, t0_of(baud))
                    ctx.state(repr(case))
                    ctx.trans()
                    ctx.trace()
                    if err:
                        ctx.fail(err, case)
                        return
    in_world(ctx, body)


def check(ser, obj, ib, fr, t0):
    if not near(ser.inter_byte_timeout, ib * t0):
        return "the inter-character timeout of the port is %r instead of %r" % (ser.inter_byte_timeout, ib * t0)
    if not near(ser.timeout, fr * t0):
        return "the inter-frame timeout of the port is %r instead of %r" % (ser.timeout, fr * t0)
    if not near(obj.get_timeout(), fr * t0):
        return "get_timeout() is %r instead of %r" % (obj.get_timeout(), fr * t0)
    return None


VALS = (0.01, 0.1, 0.5, 1.0, 2.5, 7, 0.05)


def changes(ctx, first):
    """the last change is in force, on the port and for the exchanges"""
    def body(w, lib):
        for n in range(0, 4 if ctx.thorough else 3):
            for rest in itertools.product(VALS, repeat=n):
                hist = (first,) + rest
                case = {"what": "master", "timeouts": hist}
                ctx.cur = case
                ser = fserial.FakeSerial(w, baudrate=9600)
                p = peer.SerialPeer(ser)
                delay = [0.0]
                rep = bytes([3, 2, 0, 9])
                p.handler = lambda conn, req: p.push(ref.rtu(req[0], rep), delay[0])
                m = lib.modbus_rtu.RtuMaster(ser)
                opened = len(hist) % 2
                if opened:
                    m.open()
                for v in hist:
                    m.set_timeout(v)
                v = hist[-1]
                err = None
                if not (near(ser.timeout, v) and near(m.get_timeout(), v)):
                    err = "the timeout is %r / %r instead of %r" % (ser.timeout, m.get_timeout(), v)
                for d, good in ((0.0, True), (0.9 * v, True), (1.1 * v, False), (0.5 * v, True)):
                    delay[0] = d
                    t = w.now
                    r = peer.call(m, 1, 3, 0, 1)
                    if not err and (r[0] == "ok") != good:
                        err = "a reply after %.2f s of %.2f: %r" % (d, v, r[1])
                    if not err and not good and not 0.99 * v <= w.now - t <= 1.01 * v + 0.001:
                        err = "the call gave up after %.4f s instead of %.4f" % (w.now - t, v)
                    w.sleep(3 * v)
                ctx.state(repr(case))
                ctx.trans(len(hist) + 4)
                ctx.trace()
                ctx.sample(case)
                if err:
                    ctx.fail(err, case)
                    return
    in_world(ctx, body)


def server(ctx, T, when, baud):
    """a running server: two parts of a request with every gap; joined below one timeout, separate above two"""
    def body(w, lib):
        rig = SrvRig(w, lib, baud)
        if when == "before":
            rig.srv.set_timeout(T)
        rig.start()
        if when == "running":
            rig.srv.set_timeout(T)
            w.sleep(0.1)
            # the first request may still be received with the older timeout
            rig.dev.reply(0, 1, REQ["holding"][1])
            rig.ser.feed(ref.rtu(*REQ["holding"]))
            w.sleep(5 * T + 5 * rig.T)
        elif when == "default":
            pass
        t = T if T is not None else 3.5 * t0_of(baud)
        unit, pdu = REQ["wreg"]
        data = ref.rtu(unit, pdu)
        for k in range(1, 61):
            gap = 0.05 * k
            if 0.96 < gap < 2.04:
                continue
            m = rig.mark()
            joined = gap < 1
            exp = rig.expect(unit, pdu) if joined else ([], 0)
            case = {"baudrate": baud, "timeout": T, "set": when, "gap_in_timeouts": gap}
            ctx.cur = case
            start = w.now
            rig.ser.feed(data[:4])
            w.sleep(gap * t)
            rig.ser.feed(data[4:])
            end = w.now
            w.sleep(6 * t)
            err = rig.judge(m, [exp])
            if not err and joined:
                dt = rig.ser.write_times[-1] - end
                # the reply must wait for the silence that ends the request, and not much longer
                if not 0.99 * t <= dt <= 2.01 * t + 0.001:
                    err = "the reply was sent %.5f s after the request (inter-frame time %.5f s)" % (dt, t)
            if not err and not near(rig.srv.get_timeout(), t):
                err = "get_timeout() is %r" % rig.srv.get_timeout()
            ctx.state(repr(case))
            ctx.trans(2)
            ctx.trace()
            ctx.sample(case)
            if err:
                ctx.fail(err, case)
                return
        rig.srv.stop()
    in_world(ctx, body)


OPS = ("restart", "timeout 0.03", "timeout 0.008", "error", "request")


def life(ctx, baud, ib, fr, first, depth):
    """a server which is restarted, given other timeouts, whose port fails: its timing stays what it must be"""
    def body(w, lib):
        for n in range(0, depth):
            for rest in itertools.product(OPS, repeat=n):
                hist = (first,) + rest
                case = {"baudrate": baud, "inter-character multiplier": ib, "inter-frame multiplier": fr, "history": hist}
                ctx.cur = case
                rig = SrvRig(w, lib, baud, None, interchar_multiplier=ib, interframe_multiplier=fr)
                gap, t = ib * t0_of(baud), fr * t0_of(baud)
                rig.start()
                err = None
                for op in hist:
                    if op == "restart":
                        rig.srv.stop()
                        err = err or check(rig.ser, rig.srv, ib, t / t0_of(baud), t0_of(baud))
                        rig.start()
                    elif op.startswith("timeout"):
                        t = float(op.split()[1])
                        rig.srv.set_timeout(t)
                        # what is being received may end with the former timeout
                        rig.ser.feed(b"\x63")
                        w.sleep(0.2)
                    elif op == "error":
                        left = [1]

                        def fault(what):
                            if what == "read" and left:
                                left.pop()
                                return fserial.SerialError("line error")
                        rig.ser.fault = fault
                        rig.ser.feed(b"\x63\x63")
                        w.sleep(0.2)
                        rig.ser.fault = None
                    m = rig.mark()
                    unit, pdu = REQ["wreg"]
                    data = ref.rtu(unit, pdu)
                    exp = rig.expect(unit, pdu)
                    rig.ser.feed(data[:3])
                    w.sleep(0.9 * t)
                    rig.ser.feed(data[3:])
                    end = w.now
                    w.sleep(6 * t)
                    err = err or rig.judge(m, [exp])
                    if not err:
                        dt = rig.ser.write_times[-1] - end
                        if not 0.99 * t <= dt <= 2.01 * t + 0.001:
                            err = "the reply was sent %.5f s after the request (inter-frame time %.5f s)" % (dt, t)
                    if not err and not near(rig.srv.get_timeout(), t):
                        err = "get_timeout() is %r instead of %r" % (rig.srv.get_timeout(), t)
                    if not err and not near(rig.ser.inter_byte_timeout, gap):
                        err = "the inter-character timeout of the port is %r instead of %r" % (rig.ser.inter_byte_timeout, gap)
                    m = rig.mark()
                    rig.ser.feed(data[:3])
                    w.sleep(2.1 * t)
                    rig.ser.feed(data[3:])
                    w.sleep(6 * t)
                    err = err or rig.judge(m, [([], 0)])
                    ctx.trans(2)
                    if err:
                        err = "after %s: %s" % (op, err)
                        break
                rig.srv.stop()
                lib.hooks.uninstall_hook("modbus.Slave.handle_request")
                ctx.state(repr(case))
                ctx.trace()
                ctx.sample(case)
                if err:
                    ctx.fail(err, case)
                    return
    in_world(ctx, body)


def jobs(tier, seed):
    js = [("chars", (1 + i * 37500, 1 + (i + 1) * 37500, 1)) for i in range(8)] + [("chars", (100, 12000001, 100))]
    js += [("settings", (i, 8)) for i in range(8)]
    js += [("changes", (v,)) for v in VALS]
    for T in (0.003, 0.02, 0.5):
        for when in ("before", "running"):
            for baud in (9600, 115200):
                js.append(("server", (T, when, baud)))
    for baud, ib, fr in ((9600, 1.5, 3.5), (115200, 1.5, 3.5), (1200, 0.7, 5.0)):
        js += [("life", (baud, ib, fr, op, 4 if tier == "thorough" else 3)) for op in OPS]
    for baud in (50, 300, 1200, 9600, 19200, 38400, 115200):
        js.append(("server", (None, "default", baud)))
    return js
