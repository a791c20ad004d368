"""C34: verbose logs show exactly what was exchanged, and every record reaches each handler once."""
import contextlib
import itertools
import logging
import re
import struct

from mc import fserial, peer, ref, tcp
from checks import c13, c21
from checks.c07 import in_world

BOUNDS = ("TCP and RTU servers: 20 kinds of requests, writes of every length 1..123 registers and of every byte value, malformed requests; "
          "TCP, RTU and RTU-over-TCP masters: an exchange of every function and of every length x replies {good, exception, none, "
          "garbage, foreign, corrupt, wrong byte count, partial} x verbose {on, off, every on/off pattern of 4 exchanges} x {console, udp, console+udp, "
          "twice the same} x hooks which replace the request or the response or raise; histories of 3 (thorough 4) restarts and changes of "
          "servers and composite servers; handlers: every level x 6 formats x 12 messages, "
          "the n-th delivery failing for every n")
W = struct.pack
ARROW = re.compile(r"^(<-+|-+>)\s*((?:\d+(?:-\d+)*)?)$")


class Sink(object):
    encoding = "utf-8"

    def __init__(self):
        self.text = ""
        self.n = 0
        self.bad = None

    def write(self, s):
        self.n += 1
        if self.bad == self.n:
            raise BrokenPipeError(32, "Broken pipe")
        self.text += s
        return len(s)

    def flush(self):
        pass


class Logs(object):
    """handlers of the library on its logger during a session; what they delivered since the last look"""

    def __init__(self, w, lib, names, fmt="%(message)s", level=logging.DEBUG):
        self.w, self.lib, self.names, self.fmt, self.level = w, lib, names, fmt, level

    def __enter__(self):
        lg = self.lg = logging.getLogger("modbus_tk")
        self.old = (lg.handlers[:], lg.level, lg.propagate, logging.root.manager.disable, logging.raiseExceptions)
        lg.handlers[:] = []
        lg.propagate = False
        logging.disable(logging.NOTSET)
        logging.raiseExceptions = False
        self.sink = Sink()
        self.redir = contextlib.redirect_stdout(self.sink)
        self.redir.__enter__()
        self.made = []
        for n in self.names:
            kw = {} if self.fmt is None else {"record_format": self.fmt}
            self.made.append(self.lib.utils.create_logger(n, self.level, **kw))
        self.pos, self.upos = 0, len(self.w.net.udp)
        return self

    def __exit__(self, *a):
        self.redir.__exit__(None, None, None)
        lg = self.lg
        lg.handlers[:], level, lg.propagate, dis, logging.raiseExceptions = self.old
        logging.disable(dis)
        lg.setLevel(level)

    def new(self):
        """{handler name: records}; a text if something else than records was delivered"""
        out = {}
        text = self.sink.text[self.pos:]
        self.pos = len(self.sink.text)
        if text and not text.endswith("\n"):
            return "the console got %r, not whole lines" % text[-80:]
        out["console"] = text.split("\n")[:-1]
        grams = self.w.net.udp[self.upos:]
        self.upos = len(self.w.net.udp)
        out["udp"] = []
        for data, addr in grams:
            if tuple(addr) != ("127.0.0.1", 1975):
                return "a record was sent to %r" % (addr,)
            t = data.decode("utf-8")
            if not t.endswith("\r\n"):
                return "the datagram %r has no end of line" % data[-40:]
            out["udp"].append(t[:-2])
        return out


def arrows(lines):
    """[(sent by a master / received by a server..., bytes)]"""
    out = []
    for line in lines:
        m = ARROW.match(line.strip())
        if m:
            out.append((m.group(1)[0] == "<", bytes(int(x) for x in m.group(2).split("-")) if m.group(2) else b""))
    return out


def expect(ctx, logs, want, case):
    """want: what each handler must have shown, [(is response, bytes)]"""
    got = logs.new()
    ctx.state(repr(case))
    ctx.trans()
    ctx.trace()
    if not isinstance(got, dict):
        ctx.fail(got, case)
        return False
    for name in ("console", "udp"):
        n = logs.names.count(name)
        a = arrows(got[name])
        # several handlers of one kind show each record several times, one after the other
        w = [x for x in want for _ in range(n)]
        if a != w:
            ctx.fail("%s shows %r instead of %r" % (name, [(r, b.hex()) for r, b in a][:4], [(r, b.hex()) for r, b in w][:4]), case)
            return False
    return True


HANDLERS = (("console",), ("udp",), ("console", "udp"), ("udp", "udp"), ("dummy", "console"), ("console", "console"))


def server(ctx, kind, handlers, pattern, hook):
    def body(w, lib):
        w.net.points = False
        with Logs(w, lib, handlers) as logs:
            rec = c21.Rec(())
            rig = c21.SrvRig(ctx, w, lib, kind, rec)
            rig.connect()
            seen = {}

            def after(args):
                seen["resp"] = args[1]
                if hook == "replace" and args[1]:
                    return bytes(args[1][:-1]) + bytes([args[1][-1] ^ 1])
                if hook == "bytearray" and args[1]:
                    return bytearray(args[1])
                return None
            lib.hooks.install_hook("modbus.Server.after_handle_request", after)
            if hook in ("request", "refuse"):
                # the request which is handled is another one, or none
                def before(args):
                    seen["in"] = bytes(args[1])
                    if hook == "refuse":
                        raise RuntimeError("refused by the hook")
                    return rig.frame(1, W(">BHH", 3, 1, 2))
                lib.hooks.install_hook("modbus.Server.before_handle_request", before)
            frames = [(n, rig.frame(u, p)) for n, u, p in c21.srv_exchanges()]
            for n in range(1, 124):
                vals = bytes((n * 5 + i * 3) & 0xFF for i in range(2 * n))
                frames.append(("write %d" % n, rig.frame(1, W(">BHHB", 16, 0, n, 2 * n) + vals)))
            for n in range(1, 126, 1 if ctx.thorough else 8):
                frames.append(("read %d" % n, rig.frame(1, W(">BHH", 4, 2, n))))
            for v in range(256):
                frames.append(("value %d" % v, rig.frame(1, W(">BHBB", 6, 1, v, 255 - v))))
            logs.new()
            for i, (name, f) in enumerate(frames):
                on = pattern[i % len(pattern)]
                rig.srv.set_verbose(on)
                case = {"server": kind, "handlers": handlers, "verbose": pattern, "hook": hook, "request": name, "i": i}
                ctx.cur = case
                r = rig.send(f)
                want = [(False, f)] + ([(True, r)] if r else []) if on else []
                if not expect(ctx, logs, want, case):
                    return
            rig.srv.stop()
    in_world(ctx, body)


BEH = ("good", "exception", "none", "garbage", "foreign", "partial", "corrupt", "count")


def master(ctx, kind, handlers, pattern, hook):
    def body(w, lib):
        w.net.points = False
        with Logs(w, lib, handlers) as logs:
            if kind == "rtu":
                ser = fserial.FakeSerial(w, timeout=0.1)
                p = peer.SerialPeer(ser)
                m = lib.modbus_rtu.RtuMaster(ser)
                m.set_timeout(0.1)
            else:
                p = peer.Peer(w, 1502, framing="tcp" if kind == "tcp" else "rtu")
                cls = lib.modbus_tcp.TcpMaster if kind == "tcp" else lib.modbus_rtu_over_tcp.RtuOverTcpMaster
                m = cls("127.0.0.1", 1502, timeout_in_sec=0.1)
            st = {}

            def handler(conn, req):
                b, pdu = st["b"], st["pdu"]
                f = p.frame(req, pdu)
                if b == "exception":
                    f = p.frame(req, bytes([pdu[0] | 0x80, st["i"] % 11 + 1]))
                elif b == "garbage":
                    f = b"\xff\x80\0" * 5
                elif b == "foreign":
                    r2 = bytearray(req)
                    r2[0 if kind != "tcp" else 6] ^= 1
                    f = p.frame(bytes(r2), pdu)
                elif b == "corrupt":
                    f = bytes([f[0] ^ 1]) + f[1:] if kind == "tcp" else f[:-1] + bytes([f[-1] ^ 1])
                elif b == "count":
                    f = p.frame(req, pdu[:1] + bytes([pdu[1] ^ 1]) + pdu[2:])
                elif b == "partial":
                    f = f[:-1]
                elif b == "none":
                    f = b""
                st["pushed"] = f
                if f:
                    (p.push if kind == "rtu" else conn.push)(f)
            p.handler = handler
            if hook == "request":
                # to the unit 2 whatever was asked
                def before(args):
                    r = bytearray(args[1])
                    if kind == "tcp":
                        r[6] = 2
                        return bytes(r)
                    return ref.rtu(2, bytes(r[1:-2]))
                lib.hooks.install_hook("modbus.Master.before_send", before)
            elif hook == "response":
                lib.hooks.install_hook("modbus.Master.after_recv", lambda args: bytearray(args[1]))
            exs = list(peer.exchanges())
            exs += list(c13.sized(40 if not ctx.thorough else 7))
            logs.new()
            i = 0
            for k, ex in enumerate(exs):
                for b in (BEH if k < 15 else ("good",)):
                    on = pattern[i % len(pattern)]
                    i += 1
                    m.set_verbose(on)
                    st.update(b=b, pdu=ex[3], i=i)
                    case = {"master": kind, "handlers": handlers, "verbose": pattern, "hook": hook, "exchange": ex[0], "reply": b, "i": i}
                    ctx.cur = case
                    del p.requests[:]
                    st["pushed"] = None
                    r = peer.call(m, 1, ex[1], **ex[2])
                    req = [x for x in p.requests]
                    if len(req) != 1:
                        ctx.fail("%d requests were sent" % len(req), case)
                        return
                    # a complete frame, whatever the master thinks of it
                    whole = r[0] == "ok" or isinstance(r[1], lib.modbus.ModbusError) or b in ("foreign", "corrupt", "count")
                    got = logs.new()
                    if not isinstance(got, dict):
                        ctx.fail(got, case)
                        return
                    ctx.state(repr(case))
                    ctx.trans(2)
                    ctx.trace()
                    for name in ("console", "udp"):
                        n = handlers.count(name)
                        a = arrows(got[name])
                        want = [(False, req[0])] * n if on else []
                        if whole:
                            want += [(True, st["pushed"])] * n if on else []
                            ok = a == want
                        else:
                            # whatever it shows as received did arrive
                            ok = a[:len(want)] == want and len(a[len(want):]) in (0, n if on else 0) and all(
                                x and data == st["pushed"][:len(data)] for x, data in a[len(want):])
                        if not ok:
                            ctx.fail("%s shows %r instead of %r" % (name, [(x, d.hex()) for x, d in a][:4], [(x, d.hex()) for x, d in want][:4]), case)
                            return
                    w.sleep(0.3)
            m.close()
    in_world(ctx, body)


MESSAGES = (("x", ()), ("", ()), ("%s", ("a",)), ("%d %s", (3, "b")), ("100%", ()), ("\xe9\u20ac\U0001f600", ()), ("a\tb", ()), ("%s", ("%s",)),
            ("x" * 2000, ()), ("%r", (b"\0\xff",)), ("{0}", ()), (ValueError("v"), ()))
FORMATS = ("%(message)s", "%(levelname)s %(message)s", "[%(name)s] %(message)s %(levelno)d", "%(message)s%%", "\u20ac %(message)s", None)
LEVELS = (logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL)


def deliver(ctx, handlers, fmt, level):
    """each record reaches each handler once, in order, in the given format"""
    def body(w, lib):
        with Logs(w, lib, handlers, fmt, level) as logs:
            log = lib.modbus.LOGGER
            for m in logs.made:
                if m is not log:
                    ctx.fail("create_logger returned %r" % (m,), {"handlers": handlers})
                    return
            for lv in LEVELS:
                for msg, args in MESSAGES:
                    case = {"handlers": handlers, "format": fmt, "level": level, "record": [lv, repr(msg)[:40]]}
                    ctx.cur = case
                    log.log(lv, msg, *args)
                    got = logs.new()
                    ctx.state(repr(case))
                    ctx.trans()
                    if not isinstance(got, dict):
                        ctx.fail(got, case)
                        return
                    text = str(msg) % args if args else str(msg)
                    for name in ("console", "udp"):
                        n = handlers.count(name) if lv >= level else 0
                        if fmt is None:
                            rows = [r.split("\t") for r in got[name]]
                            ok = len(rows) == n and all(r[1] == logging.getLevelName(lv) and "\t".join(r[4:]) == text for r in rows)
                        else:
                            t = fmt % {"message": text, "levelname": logging.getLevelName(lv), "name": "modbus_tk", "levelno": lv}
                            ok = got[name] == [t] * n
                        if not ok:
                            ctx.fail("%s got %r for the record %r" % (name, got[name][:3], text[:60]), case)
                            return
    in_world(ctx, body)


def lasting(ctx, kind):
    """the verbosity of a server lasts over restarts, and is the one of each part of a composite server"""
    def body(w, lib):
        w.net.points = False
        lib.simulator
        with Logs(w, lib, ("console",)) as logs:
            ser = fserial.FakeSerial(w)
            mk = {"tcp": lambda: lib.modbus_tcp.TcpServer(port=1502), "rtu": lambda: lib.modbus_rtu.RtuServer(ser),
                  "both": lambda: lib.simulator.CompositeServer([lib.modbus_rtu.RtuServer, lib.modbus_tcp.TcpServer], [(ser,), (1502,)]),
                  "tcps": lambda: lib.simulator.CompositeServer([lib.modbus_tcp.TcpServer] * 3, [(1502,), (1503,), (1504,)])}[kind]
            for ops in itertools.product(("on", "off", "restart", "slaves"), repeat=3 if not ctx.thorough else 4):
                srv = mk()
                srv.add_slave(1).add_block("h", 3, 0, 5)
                srv.start()
                w.sleep(0.1)
                on = False
                for op in ops:
                    if op in ("on", "off"):
                        on = op == "on"
                        srv.set_verbose(on)
                    elif op == "restart":
                        srv.stop()
                        srv.start()
                        w.sleep(0.1)
                    else:
                        srv.remove_all_slaves()
                        srv.add_slave(1).add_block("h", 3, 0, 5)
                    case = {"server": kind, "operations": ops, "after": op}
                    ctx.cur = case
                    if kind in ("rtu", "both"):
                        f = ref.rtu(1, W(">BHH", 3, 0, 2))
                        n = len(ser.written)
                        logs.new()
                        ser.feed(f)
                        w.sleep(0.3)
                        r = b"".join(ser.written[n:])
                        if not r or not expect(ctx, logs, [(False, f), (True, r)] if on else [], case):
                            if not r:
                                ctx.fail("no answer", case)
                            return
                    for port in {"tcp": (1502,), "both": (1502,), "tcps": (1502, 1503, 1504)}.get(kind, ()):
                        cl = tcp.Client(w, port)
                        w.sleep(0.1)
                        f = ref.mbap(7, 1, W(">BHH", 3, 0, 2))
                        logs.new()
                        cl.send(f)
                        w.sleep(0.1)
                        r = cl.drain()
                        if not r or not expect(ctx, logs, [(False, f), (True, r)] if on else [], dict(case, port=port)):
                            if not r:
                                ctx.fail("no answer", dict(case, port=port))
                            return
                        cl.close()
                        w.sleep(0.1)
                srv.stop()
    in_world(ctx, body)


def unknown(ctx):
    """an unknown kind of handler is refused without effect"""
    def body(w, lib):
        for name in ("", "Console", "UDP", "file", "none", None, 0, "console ", b"udp"):
            with Logs(w, lib, ("console",)) as logs:
                n = len(logs.lg.handlers)
                case = {"handler": repr(name)}
                ctx.state(repr(case))
                try:
                    lib.utils.create_logger(name)
                    ctx.fail("create_logger(%r) is accepted" % (name,), case)
                    return
                except Exception:   # noqa
                    pass
                if len(logs.lg.handlers) != n:
                    ctx.fail("create_logger(%r) was refused but installed a handler" % (name,), case)
                    return
                lib.modbus.LOGGER.info("still")
                if logs.new() != {"console": ["still"], "udp": []}:
                    ctx.fail("nothing is logged after create_logger(%r)" % (name,), case)
                    return
    in_world(ctx, body)


def broken(ctx, handlers):
    """the n-th delivery fails: the other records, and the other handlers, get theirs"""
    def body(w, lib):
        N = 5
        for k in range(1, 2 * N + 1):
            for where in ("console", "udp"):
                if where not in handlers:
                    continue
                with Logs(w, lib, handlers) as logs:
                    sent = [0]

                    def fault(op, sock):
                        if op == "sendto":
                            sent[0] += 1
                            if where == "udp" and sent[0] == k:
                                return OSError(101, "Network is unreachable")
                        return None
                    w.net.fault = fault
                    logs.sink.bad = k if where == "console" else None
                    for i in range(N):
                        lib.modbus.LOGGER.error("record %d", i)
                    w.net.fault = None
                    logs.sink.bad = None
                    case = {"handlers": handlers, "fails": [where, k]}
                    ctx.state(repr(case))
                    ctx.trans(N)
                    text = [x for x in logs.sink.text.replace("\n", " ").replace("record ", "record").split(" ") if x]
                    grams = [d.decode().strip() for d, _a in w.net.udp[logs.upos:]]
                    all_ = ["record %d" % i for i in range(N)]
                    lost_u = 1 if where == "udp" and k <= N else 0
                    if "udp" in handlers and (len(grams) != N - lost_u or [g for g in all_ if g in grams] != grams):
                        ctx.fail("udp got %r" % (grams,), case)
                        return
                    # (a line is written in two parts, the text and its end)
                    if "console" in handlers and len(text) < N - (1 if where == "console" else 0):
                        ctx.fail("the console got %r" % (logs.sink.text,), case)
                        return
    in_world(ctx, body)


def jobs(tier, seed):
    js = [("unknown", ())] + [("lasting", (k,)) for k in ("tcp", "rtu", "both", "tcps")] + [("broken", (h,)) for h in (("console",), ("udp",), ("console", "udp"), ("udp", "console"))]
    on, off = (True,), (False,)
    pats = [on, off] + [p for p in itertools.product((True, False), repeat=4) if len(set(p)) > 1]
    for kind in ("tcp", "rtu"):
        for h in HANDLERS:
            for hook in ("", "replace", "bytearray", "request", "refuse"):
                js.append(("server", (kind, h, on, hook)))
            js.append(("server", (kind, h, off, "")))
        for p in pats[2:]:
            js.append(("server", (kind, ("console", "udp"), p, "")))
    for kind in ("tcp", "rtu", "rot"):
        for h in HANDLERS:
            for hook in ("", "request", "response"):
                js.append(("master", (kind, h, on, hook)))
            js.append(("master", (kind, h, off, "")))
        for p in pats[2:]:
            js.append(("master", (kind, ("console", "udp"), p, "")))
    for h in (("console",), ("udp",), ("console", "udp"), ("dummy", "udp"), ("dummy",), ("udp", "udp"), ()):
        for fmt in FORMATS:
            for level in LEVELS:
                js.append(("deliver", (h, fmt, level)))
    return js
