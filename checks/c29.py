"""C29: verbose logging never changes what is exchanged.

Every scripted session (servers: every kind of request, malformed frames, broadcasts, failing and replacing hooks; masters:
every kind of reply, silence and disconnection) is run once without any handler and once for each combination of verbose
on / off / toggled at each position x log handlers installed x healthy or failing log destination x ASCII or other texts
in the messages; the transcripts (bytes, results, errors, stored values, open connections) must be equal.
"""
import contextlib
import itertools
import logging
import sys
import struct
import threading

from mc import fserial, loader, peer, ref, tcp
from mc.world import World
from checks.c07 import in_world
from checks import c21

BOUNDS = ("TCP and RTU servers: 29 kinds of requests, 12 malformed frames, 6 hook behaviours; TCP, RTU and RTU-over-TCP masters: 19 "
          "exchanges x 9 peer behaviours; x verbose {on, off, every on/off pattern of a sequence of 4 exchanges} x {console, udp, "
          "dummy, console+udp, none} x destination {healthy, failing on every record, failing on the n-th record for every n} x "
          "{ASCII, non-ASCII names and messages}")
W = struct.pack


class Sink(object):
    encoding = "ascii"

    def __init__(self):
        self.n = 0
        self.fail = None        # None, "all", or the number of the write to fail

    def write(self, s):
        self.n += 1
        if self.fail == "all" or self.fail == self.n:
            raise BrokenPipeError(32, "Broken pipe")
        return len(s)

    def flush(self):
        pass


class Logs(object):
    """the logger of the library with the given handlers, for one session"""

    def __init__(self, w, lib, handlers, fail):
        self.w, self.lib, self.handlers, self.fail = w, lib, handlers, fail
        self.records = 0

    def __enter__(self):
        lg = logging.getLogger("modbus_tk")
        self.lg = lg
        self.old = (lg.handlers[:], lg.level, lg.propagate, logging.root.manager.disable, logging.raiseExceptions)
        lg.handlers[:] = []
        lg.propagate = False
        logging.disable(logging.NOTSET)
        logging.raiseExceptions = False
        self.sink = Sink()
        self.sink.fail = self.fail
        self.redir = contextlib.redirect_stdout(self.sink)
        self.redir.__enter__()
        self.err = contextlib.redirect_stderr(Sink())
        self.err.__enter__()
        for h in self.handlers:
            self.lib.utils.create_logger(h)
        if not self.handlers:
            lg.addHandler(logging.NullHandler())
            lg.setLevel(logging.CRITICAL)
        n = [0]

        def fault(op, sock):
            if op == "sendto":
                n[0] += 1
                if self.fail == "all" or self.fail == n[0]:
                    return OSError(101, "Network is unreachable")
            return None
        self.w.net.fault = fault
        return self

    def __exit__(self, *a):
        lg = self.lg
        self.err.__exit__(None, None, None)
        self.redir.__exit__(None, None, None)
        lg.handlers[:], lg.level, lg.propagate, dis, logging.raiseExceptions = self.old
        logging.disable(dis)
        lg.setLevel(lg.level)


def srv_frames():
    out = [("%s" % n, u, p, None) for n, u, p in c21.srv_exchanges()]
    for n in (60, 100, 123, 125):
        out.append(("read %d" % n, 1, W(">BHH", 4, 1, n), None))
    for n in (30, 40, 60, 123):
        out.append(("write %d" % n, 1, W(">BHHB", 16, 0, n, 2 * n) + bytes(i * 7 & 0xFF for i in range(2 * n)), None))
    out.append(("both", 1, W(">BHHHHB", 23, 0, 40, 0, 40, 80) + bytes(80), None))
    return out


def bad_frames(kind):
    """malformed frames: raw bytes"""
    pdu = W(">BHH", 3, 0, 1)
    if kind == "rtu":
        g = ref.rtu(1, pdu)
        return [b"\0", b"\x01\x03", g[:-1], g[:-1] + bytes([g[-1] ^ 1]), b"\xff" * 20, g + g, ref.rtu(0, b""), ref.rtu(1, b""), b"\xff\xff\xff"]
    return [ref.mbap(1, 1, pdu, proto=7), ref.mbap(2, 1, b""), W(">HHHB", 3, 0, 1, 1), ref.mbap(4, 0, b"\x06"), ref.mbap(5, 1, b"\x10\0"),
            ref.mbap(6, 1, bytes(250))]


def hooked(lib, how, text):
    """hook behaviours"""
    H = lib.hooks
    if how == "raise":
        def f(args):
            raise ValueError(text)
        H.install_hook("modbus.Slave.handle_request", f)
    elif how == "raise-before":
        def f(args):
            raise RuntimeError(text)
        H.install_hook("modbus.Server.before_handle_request", f)
    elif how == "raise-after":
        def f(args):
            raise RuntimeError(text)
        H.install_hook("modbus.Server.after_handle_request", f)
    elif how == "empty":
        H.install_hook("modbus.Server.after_handle_request", lambda args: b"")
    elif how == "bytearray":
        H.install_hook("modbus.Server.after_handle_request", lambda args: bytearray(args[1]))
    elif how == "modbus-error":
        def f(args):
            raise lib.modbus.ModbusError(4, text)
        H.install_hook("modbus.Slave.handle_request", f)


def srv_session(w, lib, kind, verbose, how, text, toggles=None, only=None):
    """transcript of a server session"""
    out = []
    try:
        rec = c21.Rec(c21.names_of(kind))
        w.net.points = False
        rig = c21.SrvRig.__new__(c21.SrvRig)
        rig.w, rig.lib, rig.kind = w, lib, kind
        rig.dev = tcp.Device(w, lib, slaves=(1, 2))
        if kind == "rtu":
            rig.ser = fserial.FakeSerial(w, name="/dev/tty" + text)
            rig.srv = lib.modbus_rtu.RtuServer(rig.ser, databank=rig.dev.srv.get_db())
        else:
            rig.srv = rig.dev.srv
        rec.install(lib)
        rig.srv.get_slave(1).add_block("bloc " + text, 3, 1000, 2)
        rig.srv.set_verbose(verbose)
        hooked(lib, how, text)
        rig.srv.start()
        w.sleep(0.05)
        rig.cl = None
        rig.connect()
        ex = srv_frames()
        if only:
            ex = [e for e in ex if e[0] in only]
        for i, (name, unit, pdu, _) in enumerate(ex):
            if toggles is not None:
                rig.srv.set_verbose(toggles[i % len(toggles)])
            out.append((name, rig.send(rig.frame(unit, pdu)).hex()))
        out.append(rig.values())
        if not only:
            for f in bad_frames(kind):
                if kind == "tcp":
                    rig.connect()
                out.append((f.hex(), rig.send(f).hex(), rig.cl.eof() if kind == "tcp" else None))
            rig.connect()
            out.append(rig.send(rig.frame(1, c21.PDUS["holding"])).hex())
            out.append(rig.values())
        rig.srv.stop()
        out.append(("hooks called", [n for n, _a in rec.log]))
        out.append(("stopped", rig.ser.is_open if kind == "rtu" else bool(w.net.listeners)))
    except Exception as e:   # noqa
        out.append(("the session raised", type(e).__name__, str(e)))
    return out


def long_exchanges():
    vals = [(i * 771) & 0xFFFF for i in range(125)]
    bits = [i // 3 & 1 for i in range(2000)]
    return [("125 registers", 3, dict(starting_address=0, quantity_of_x=125), bytes([3, 250]) + ref.regs(vals), tuple(vals)),
            ("2000 coils", 1, dict(starting_address=0, quantity_of_x=2000), bytes([1, 250]) + ref.pack_bits(bits), tuple(bits)),
            ("write 123", 16, dict(starting_address=0, output_value=vals[:123]), W(">BHH", 16, 0, 123), (0, 123)),
            ("write 1968", 15, dict(starting_address=0, output_value=bits[:1968]), W(">BHH", 15, 0, 1968), (0, 1968))]


BEH = ("good", "exception", "empty", "garbage", "none", "close", "reset", "foreign", "partial")


def mst_session(w, lib, kind, verbose, how, text, toggles=None, only=None):
    """transcript of a master session"""
    out = []
    try:
        w.net.points = False
        if kind == "rtu":
            ser = fserial.FakeSerial(w, timeout=0.1, name="/dev/tty" + text)
            p = peer.SerialPeer(ser)
            m = lib.modbus_rtu.RtuMaster(ser)
            m.set_timeout(0.1)
        else:
            p = peer.Peer(w, 1502, framing="tcp" if kind == "tcp" else "rtu")
            cls = lib.modbus_tcp.TcpMaster if kind == "tcp" else lib.modbus_rtu_over_tcp.RtuOverTcpMaster
            m = cls("127.0.0.1", 1502, timeout_in_sec=0.1)
        m.set_verbose(verbose)
        if how == "raise":
            def f(args):
                raise ValueError(text)
            lib.hooks.install_hook("modbus.Master.after_send", f)
        elif how == "empty":
            lib.hooks.install_hook("modbus.Master.after_recv", lambda args: b"")
        elif how == "bytearray":
            lib.hooks.install_hook("modbus.Master.before_send", lambda args: bytearray(args[1]))
        exs = peer.exchanges() + long_exchanges()
        if only:
            exs = exs[:4]
        state = {}

        def handler(conn, req):
            b, pdu = state["b"], state["pdu"]
            good = p.frame(req, pdu)
            push = p.push if kind == "rtu" else conn.push
            if b == "good":
                push(good)
            elif b == "exception":
                push(p.frame(req, bytes([pdu[0] | 0x80, 2])))
            elif b == "empty":
                push(p.frame(req, b""))
            elif b == "garbage":
                push(b"\xff\x80\0" * 5)
            elif b == "foreign":
                r2 = bytearray(req)
                r2[0 if kind != "tcp" else 6] ^= 1
                push(p.frame(bytes(r2), pdu))
            elif b == "partial":
                push(good[:-1])
            elif b in ("close", "reset") and kind != "rtu":
                (conn.eof if b == "close" else conn.rst)()
        p.handler = handler
        i = 0
        for ex in exs:
            for b in ((BEH if not only else BEH[:1])):
                if toggles is not None:
                    m.set_verbose(toggles[i % len(toggles)])
                i += 1
                state.update(b=b, pdu=ex[3])
                n = len(p.requests)
                r = peer.call(m, 1, ex[1], **ex[2])
                out.append((ex[0], b, [x.hex() for x in p.requests[n:]], r[0], repr(r[1]) if r[0] == "ok" else type(r[1]).__name__))
                w.sleep(0.3)
        m.close()
        out.append(("open", len(w.net.open_sockets()) if kind != "rtu" else ser.is_open))
    except Exception as e:   # noqa
        out.append(("the session raised", type(e).__name__, str(e)))
    return out


SESS = {"server": srv_session, "master": mst_session}


def run(role, kind, verbose, handlers, fail, how, text, toggles=None, only=None):
    """(transcript, records)"""
    res = {}

    class C(object):
        def fail(self, what, case=None):
            res["out"] = [("verdict", what)]
    c = C()

    def body(w, lib):
        with Logs(w, lib, handlers, fail) as lg:
            udp = [s for s in w.net.socks]
            res["out"] = SESS[role](w, lib, kind, verbose, how, text, toggles, only)
            out = res["out"]
            if out and out[-1][0] == "open" and kind != "rtu":
                out[-1] = ("open", out[-1][1] - len(udp))
            res["n"] = max(lg.sink.n, len(w.net.udp))
    in_world(c, body)
    return res["out"], res.get("n", 0)


def diff(a, b):
    for i in range(max(len(a), len(b))):
        if i >= len(a) or i >= len(b) or a[i] != b[i]:
            x, y = (a[i] if i < len(a) else None), (b[i] if i < len(b) else None)
            return "%s instead of %s" % (repr(y)[:200], repr(x)[:200])
    return None


HANDLERS = (("dummy",), ("console",), ("udp",), ("console", "udp"))


def compare(ctx, base, role, kind, verbose, handlers, fail, how, text, toggles=None, only=None):
    case = {"role": role, "kind": kind, "verbose": verbose if toggles is None else list(toggles), "handlers": handlers, "destination": fail,
            "hook": how, "text": text}
    ctx.cur = case
    out, n = run(role, kind, verbose, handlers, fail, how, text, toggles, only)
    ctx.state(repr(case))
    ctx.trans(len(out))
    ctx.trace()
    ctx.sample(dict(case, records=n))
    d = diff(base, out)
    if d:
        ctx.fail(d, case)
        return None
    return n


def matrix(ctx, role, kind, how, text):
    base, _ = run(role, kind, False, (), None, how, text)
    for verbose in (False, True):
        for handlers in HANDLERS + ((),):
            if compare(ctx, base, role, kind, verbose, handlers, None, how, text) is None:
                return
            if "console" in handlers or "udp" in handlers:
                if compare(ctx, base, role, kind, verbose, handlers, "all", how, text) is None:
                    return


def toggles(ctx, role, kind):
    for how in ("", "raise"):
        base, _ = run(role, kind, False, (), None, how, "x")
        for t in itertools.product((False, True), repeat=4):
            for handlers in (("console",), ("udp",)):
                if compare(ctx, base, role, kind, False, handlers, None, how, "x", t) is None:
                    return


def nth(ctx, role, kind, handlers):
    """the n-th record fails, for every n"""
    only = ("holding", "wreg", "bcast", "badaddr", "missing")
    base, _ = run(role, kind, False, (), None, "", "x", None, only)
    n = compare(ctx, base, role, kind, True, handlers, None, "", "x", None, only)
    for k in range(1, (n or 0) + 2):
        if compare(ctx, base, role, kind, True, handlers, k, "", "x", None, only) is None:
            return


def jobs(tier, seed):
    js = []
    for role, kinds, hows in (("server", ("tcp", "rtu"), ("", "raise", "raise-before", "raise-after", "empty", "bytearray", "modbus-error")),
                              ("master", ("tcp", "rtu", "rot"), ("", "raise", "empty", "bytearray"))):
        for kind in kinds:
            for how in hows:
                for text in ("x", "\xe9\u20ac"):
                    js.append(("matrix", (role, kind, how, text)))
            js.append(("toggles", (role, kind)))
            for h in (("console",), ("udp",)):
                js.append(("nth", (role, kind, h)))
    return js
