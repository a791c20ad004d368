"""C35: objects which were created separately do not influence each other.

B lives a scripted life (created, configured, used, stopped or closed, used again) whose transcript - bytes on the wire, results,
errors, durations, stored values, settings, log records - must be the same whatever is done in between with a second object A,
and also when there is no A at all.
"""
import itertools
import logging
import struct

from mc import fserial, peer, ref, tcp
from checks import c21
from checks.c07 import in_world
from checks.c34 import ARROW

BOUNDS = ("each pair of {TcpMaster, RtuMaster, RtuOverTcpMaster} (9), of {TcpServer, RtuServer, composite server} (9), of slaves of one "
          "and of two databanks, of worker threads, and each master next to each server (18), on ports of different names and of the same name: every sequence of 1 and 2 operations "
          "out of the 10 to 14 which A has (thorough 3), at each of 4 to 6 moments of the life of B")
W = struct.pack


class Capture(logging.Handler):
    """records of exchanges shown by the library since the last look"""

    def __init__(self):
        logging.Handler.__init__(self)
        self.n = 0

    def emit(self, record):
        if ARROW.match(record.getMessage().strip()):
            self.n += 1

    def take(self):
        n, self.n = self.n, 0
        return n

    def __enter__(self):
        lg = logging.getLogger("modbus_tk")
        self.old = (lg.handlers[:], lg.level, lg.propagate, logging.root.manager.disable)
        lg.handlers[:] = [self]
        lg.propagate = False
        lg.setLevel(logging.DEBUG)
        logging.disable(logging.NOTSET)
        return self

    def __exit__(self, *a):
        lg = logging.getLogger("modbus_tk")
        lg.handlers[:], level, lg.propagate, dis = self.old
        lg.setLevel(level)
        logging.disable(dis)


EXS = peer.exchanges()
RTUS = ("rtu", "rtu-same")      # rtu-same: the port of A has the name of the one of B


class MasterLife(object):
    """a master and its device"""

    def __init__(self, w, lib, kind, port, log):
        kind_ = kind
        self.w, self.lib, self.kind, self.log = w, lib, kind, log
        self.unit = 1
        if kind in RTUS:
            self.kind = kind = "rtu"
            self.ser = fserial.FakeSerial(w, baudrate=9600 if port % 2 else 19200, name="/dev/tty%d" % (port if kind_ == "rtu" else 1701))
            self.p = peer.SerialPeer(self.ser, handler=self.handle)
            self.m = lib.modbus_rtu.RtuMaster(self.ser)
        else:
            self.p = peer.Peer(w, port, framing="tcp" if kind == "tcp" else "rtu", handler=self.handle)
            self.m = (lib.modbus_tcp.TcpMaster if kind == "tcp" else lib.modbus_rtu_over_tcp.RtuOverTcpMaster)(port=port)
        self.rep = None
        self.mode = "good"

    def handle(self, conn, req):
        if self.mode == "none" or self.rep is None:
            return
        f = self.p.frame(req, self.rep)
        if self.mode == "garbage":
            f = b"\xff\x80\0" * 4
        push = self.p.push if self.kind == "rtu" else conn.push
        if self.mode == "late":
            push(f, 0.4)
        else:
            push(f)

    def call(self, k, mode="good", unit=1):
        ex = EXS[k]
        self.rep, self.mode = ex[3], mode
        if mode == "exception":
            self.rep, self.mode = bytes([ex[3][0] | 0x80, 2]), "good"
        n = len(self.p.requests)
        self.log.take()
        t0 = self.w.now
        r = peer.call(self.m, unit, ex[1], **ex[2])
        sent = tuple((q[2:] if self.kind == "tcp" else q).hex() for q in self.p.requests[n:])
        out = (ex[0], mode, sent, r[0], repr(r[1]) if r[0] == "ok" else type(r[1]).__name__, round(self.w.now - t0, 1), self.log.take())
        self.w.sleep(0.5)
        return out

    def opened(self):
        return self.ser.is_open if self.kind == "rtu" else len(self.p.open_conns())

    # B
    def life(self):
        yield lambda: (self.m.get_timeout(), getattr(self, "ser", None) and (self.ser.timeout, self.ser.inter_byte_timeout))
        yield lambda: [self.call(k) for k in range(len(EXS))] + [self.opened()]
        yield lambda: [self.m.set_timeout(1.0), self.m.set_verbose(True), self.call(2, "late"), self.call(2, "none"), self.call(3, "garbage"), self.call(4),
                       self.m.get_timeout()]
        yield lambda: [self.call(2), self.call(8, "exception"), self.opened(), self.m.get_timeout()]
        yield lambda: [self.m.close(), self.opened(), self.m.set_verbose(False), self.call(9), self.opened()]
        yield lambda: [self.call(6), self.m.close(), self.opened()]

    # A
    def ops(self):
        m = self.m
        return {
            "open": m.open, "close": m.close, "timeout": lambda: m.set_timeout(0.2), "long": lambda: m.set_timeout(9.0),
            "verbose": lambda: m.set_verbose(True), "call": lambda: self.call(2), "write": lambda: self.call(10), "unit": lambda: self.call(3, unit=77),
            "silence": lambda: (m.set_timeout(0.3), self.call(2, "none")), "garbage": lambda: (m.set_timeout(0.3), self.call(2, "garbage")),
            "exception": lambda: self.call(2, "exception"), "illegal": lambda: peer.call(m, 1, 6, starting_address=-1),
            "broadcast": lambda: peer.call(m, 0, 6, starting_address=1, output_value=2),
        }


class ServerLife(object):
    """a server, its slaves and its clients"""

    def __init__(self, w, lib, kind, port, log):
        kind, kind_ = "rtu" if kind in RTUS else kind, kind
        self.w, self.lib, self.kind, self.log, self.port = w, lib, kind, log, port
        self.ser = None
        if kind in ("rtu", "both"):
            self.ser = fserial.FakeSerial(w, baudrate=9600 if port % 2 else 19200, name="/dev/tty%d" % (port if kind_ != "rtu-same" else 1701))
        if kind == "rtu":
            self.srv = lib.modbus_rtu.RtuServer(self.ser)
        elif kind == "tcp":
            self.srv = lib.modbus_tcp.TcpServer(port=port)
        else:
            self.srv = lib.simulator.CompositeServer([lib.modbus_rtu.RtuServer, lib.modbus_tcp.TcpServer], [(self.ser,), (port,)])
        s = self.srv.add_slave(1)
        s.add_block("h", 3, 0, 20)
        s.add_block("c", 1, 0, 20)
        s2 = self.srv.add_slave(2, unsigned=False)
        s2.add_block("h", 3, 0, 20)
        self.cl = None

    def request(self, unit, pdu):
        out = []
        self.log.take()
        if self.ser is not None:
            n = len(self.ser.written)
            self.ser.feed(ref.rtu(unit, pdu))
            self.w.sleep(0.3)
            out.append(b"".join(self.ser.written[n:]).hex())
        if self.kind != "rtu":
            try:
                if self.cl is None:
                    self.cl = tcp.Client(self.w, self.port)
                    self.w.sleep(0.05)
                b = len(self.cl.drain())
                self.cl.send(ref.mbap(7, unit, pdu))
                self.w.sleep(0.1)
                out.append((self.cl.drain()[b:].hex(), self.cl.eof()))
            except OSError as e:
                out.append(type(e).__name__)
                self.cl = None
        return tuple(out), self.log.take()

    def requests(self):
        out = [self.request(u, p) for u, p in (
            (1, W(">BHH", 3, 0, 5)), (1, W(">BHBB", 6, 2, 0x12, 0x34)), (2, W(">BHH", 3, 0, 5)), (2, W(">BHBB", 6, 1, 0xFF, 0xFE)),
            (3, W(">BHH", 3, 0, 1)), (0, W(">BHBB", 6, 9, 7, 7)), (1, W(">BHH", 3, 100, 2)), (1, b"\x63"), (1, W(">BHH", 5, 3, 0xFF00)),
            (1, W(">BHH", 1, 0, 20)), (2, W(">BHH", 1, 0, 1)))]
        return out + [self.values()]

    def values(self):
        out = []
        for sid in (1, 2, 3, 9):
            for b in ("h", "c", "x"):
                try:
                    out.append(tuple(self.srv.get_slave(sid).get_values(b, 0, 20)))
                except Exception as e:  # noqa
                    out.append(type(e).__name__)
        return out

    def drop(self):
        if self.cl is not None:
            self.cl.close()
            self.cl = None

    def listening(self):
        return (self.ser.is_open if self.ser is not None else None, (self.port in self.ports()) if self.kind != "rtu" else None)

    def ports(self):
        return [s.bound[1] for s in self.w.net.socks if getattr(s, "listening", False) or s in getattr(self.w.net, "listeners", {}).values()]

    def life(self):
        s = self.srv
        yield lambda: [self.values()]
        yield lambda: [s.start(), self.w.sleep(0.1), self.requests()]
        yield lambda: [s.set_verbose(True), self.requests(), s.add_slave(3).add_block("x", 3, 0, 20), self.requests()]
        yield lambda: [self.requests(), s.get_slave(1).set_values("h", 0, [5, 6]), s.set_verbose(False), s.remove_slave(3), self.requests()]
        yield lambda: [self.drop(), s.stop(), self.request(1, W(">BHH", 3, 0, 5)), self.values()]
        yield lambda: [self.drop(), s.start(), self.w.sleep(0.1), self.requests(), self.drop(), s.stop()]

    def ops(self):
        s = self.srv

        def hop(f):
            try:
                f()
            except Exception:   # noqa
                pass
        return {
            "start": lambda: hop(s.start), "stop": lambda: (self.drop(), s.stop()), "verbose": lambda: s.set_verbose(True),
            "add": lambda: hop(lambda: s.add_slave(9).add_block("x", 3, 0, 20)), "block": lambda: hop(lambda: s.get_slave(1).add_block("x", 3, 30, 20)),
            "remove": lambda: hop(lambda: s.remove_slave(2)), "clear": s.remove_all_slaves, "set": lambda: hop(lambda: s.get_slave(1).set_values("h", 0, [99] * 20)),
            "write": lambda: self.request(1, W(">BHHB", 16, 0, 3, 6) + b"\x11" * 6), "broadcast": lambda: self.request(0, W(">BHBB", 6, 3, 9, 9)),
            "bad": lambda: self.request(1, b"\x10\0"), "blocks": lambda: hop(lambda: s.get_slave(2).remove_all_blocks()),
        }


class SlaveLife(object):
    """a slave of a databank"""

    def __init__(self, w, lib, kind, port, log):
        self.w, self.lib, self.log = w, lib, log
        if kind == "one" and getattr(w, "c35_db", None) is not None:
            self.db = w.c35_db
        else:
            self.db = w.c35_db = lib.modbus.Databank()
        self.id = 1 + port % 2
        self.slave = self.db.add_slave(self.id, unsigned=bool(port % 2))
        for i, t in enumerate((1, 2, 3, 4)):
            self.slave.add_block("b%d" % t, t, i, 20)

    def send(self, pdu):
        q = self.lib.modbus_rtu.RtuQuery()
        r = self.db.handle_request(q, ref.rtu(self.id, pdu))
        return bytes(r or b"").hex()

    def values(self):
        out = []
        for t in (1, 2, 3, 4):
            for b in ("b%d" % t, "n%d" % t):
                try:
                    out.append(tuple(self.slave.get_values(b, t - 1, 20)))
                except Exception as e:  # noqa
                    out.append(type(e).__name__)
        return out

    def requests(self):
        return [self.send(p) for p in (W(">BHH", 1, 0, 9), W(">BHH", 2, 2, 9), W(">BHH", 3, 2, 5), W(">BHH", 4, 5, 5), W(">BHBB", 6, 3, 0x80, 1),
                                       W(">BHH", 3, 2, 5), W(">BHBB", 6, 60, 1, 1), b"\x63", W(">BHH", 5, 4, 0xFF00), W(">BHH", 1, 0, 9),
                                       W(">BHHH", 22, 3, 0xF, 0xF0))] + [self.values()]

    def life(self):
        s = self.slave

        yield lambda: [self.values(), self.requests()]
        yield lambda: [s.set_values("b3", 2, [1, 2, 3]), self.requests(), s.add_block("n3", 3, 40, 3), self.requests()]
        yield lambda: [self.requests(), s.remove_block("b1"), self.requests()]
        yield lambda: [s.remove_all_blocks(), self.requests(), s.add_block("b3", 3, 2, 20), self.requests()]
        yield lambda: [self.requests()]

    def ops(self):
        s = self.slave

        def hop(f):
            try:
                f()
            except Exception:   # noqa
                pass
        return {
            "set": lambda: hop(lambda: s.set_values("b3", 2, [77] * 5)), "bits": lambda: hop(lambda: s.set_values("b1", 0, [1] * 20)),
            "add": lambda: hop(lambda: s.add_block("n4", 4, 60, 20)), "add-same": lambda: hop(lambda: s.add_block("n3", 3, 40, 3)),
            "remove": lambda: hop(lambda: s.remove_block("b1")), "clear": s.remove_all_blocks, "write": lambda: self.send(W(">BHHB", 16, 3, 2, 4) + b"\x22" * 4),
            "coils": lambda: self.send(W(">BHHB", 15, 0, 8, 1) + b"\xff"), "bad": lambda: self.send(b"\x10\0"), "fc": lambda: self.send(b"\x63\0"),
            "mask": lambda: self.send(W(">BHHH", 22, 3, 0, 0xFFFF)),
        }


class WorkerLife(object):
    def __init__(self, w, lib, kind, port, log):
        self.w, self.n = w, 0
        self.ev = []

        def main(*a):
            self.n += 1
            w.sleep(0.1)
        self.wk = lib.utils.WorkerThread(main, args=(), init_fct=lambda: self.ev.append("init"), exit_fct=lambda: self.ev.append("exit"))
        self.kind, self.lib = kind, lib

    def life(self):
        yield lambda: [self.wk.stop(), list(self.ev)]
        yield lambda: [self.wk.start(), self.w.sleep(1.05), self.n, list(self.ev)]
        yield lambda: [setattr(self, "n0", self.n), self.w.sleep(0.5), self.n >= self.n0 + 4, list(self.ev)]
        yield lambda: [self.wk.stop(), setattr(self, "n0", self.n), self.w.sleep(0.5), self.n == self.n0, list(self.ev)]

    def ops(self):
        def hop(f):
            try:
                f()
            except Exception:   # noqa
                pass
        return {"start": lambda: hop(self.wk.start), "stop": self.wk.stop, "wait": lambda: self.w.sleep(0.3)}


LIVES = {"master": MasterLife, "server": ServerLife, "slave": SlaveLife, "worker": WorkerLife}


def session(ctx, b, a, seq, moment):
    """transcript of B; a is None or the kind of A; seq of operations of A at the moment"""
    res = {}

    def body(w, lib):
        w.net.points = False
        if b[1] == "both" or (a and a[1] == "both"):
            lib.simulator           # (installs a handler when it is imported)
        with Capture() as log:
            out = []
            A = None
            if a and moment == 0:
                A = LIVES[a[0]](w, lib, a[1], 1600, log)
                for op in seq:
                    A.ops()[op]()
            B = LIVES[b[0]](w, lib, b[1], 1701, log)
            if a and moment > 0:
                A = LIVES[a[0]](w, lib, a[1], 1600, log)
            for i, step in enumerate(B.life()):
                if a and moment == i + 1:
                    for op in seq:
                        A.ops()[op]()
                log.take()
                try:
                    out.append(step())
                except Exception as e:  # noqa
                    out.append(("raised", type(e).__name__, str(e)))
            res["out"] = out
            if A is not None and a[0] in ("server", "worker"):
                A.ops()["stop"]()
    in_world(ctx, body)
    return res.get("out")


def steps_of(b):
    return {"master": 6, "server": 6, "slave": 5, "worker": 4}[b]


def names_of(a):
    """names of the operations of A"""
    res = []

    class C(object):
        cur = None

        def fail(self, *a):
            pass

    def body(w, lib):
        w.net.points = False
        res.extend(sorted(LIVES[a[0]](w, lib, a[1], 1600, Capture()).ops()))
    in_world(C(), body)
    return res


def pair(ctx, b, a, depth, first):
    base = session(ctx, b, None, (), 0)
    ops = names_of(a)
    seqs = [()] if first == 0 else []
    for d in range(1, depth + 1):
        seqs += list(itertools.product(ops, repeat=d))
    k = 0
    for moment in range(steps_of(b[0]) + 1):
        for seq in seqs:
            k += 1
            if k % 4 != first:
                continue
            case = {"object": b, "other object": a, "operations": seq, "moment": moment}
            ctx.cur = case
            out = session(ctx, b, a, seq, moment)
            ctx.state(repr(case))
            ctx.trans(len(seq) + len(base))
            ctx.trace()
            if out != base:
                for i, (x, y) in enumerate(zip(base, out or [])):
                    if x != y:
                        if isinstance(x, list) and isinstance(y, list):
                            d = [(p, q) for p, q in zip(x, y) if p != q][:1]
                            x, y = d[0] if d else (x, y)
                        ctx.fail("step %d of the life gives %s instead of %s" % (i, repr(y)[:300], repr(x)[:300]), case)
                        return
                ctx.fail("the life is cut", case)
                return
            if ctx.out_of_time():
                ctx.capped = True
                return


def jobs(tier, seed):
    js = []
    ms = [("master", k) for k in ("tcp", "rtu", "rot")]
    ss = [("server", k) for k in ("tcp", "rtu", "both")]
    pairs = [(x, y) for x in ms for y in ms] + [(x, y) for x in ss for y in ss] + [(x, y) for x in ms for y in ss] + [(x, y) for x in ss for y in ms]
    pairs += [((x, "rtu"), (y, "rtu-same")) for x in ("master", "server") for y in ("master", "server")]
    pairs += [(("slave", k), ("slave", k)) for k in ("one", "two")] + [(("worker", ""), ("worker", ""))]
    for b, a in pairs:
        depth = (2 if b[0] == a[0] else 1) if tier != "thorough" else 3 if b[0] == a[0] == "slave" else 2
        for first in range(4):
            js.append(("pair", (b, a, depth, first)))
    return js
