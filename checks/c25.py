"""C25: the servers of a composite server share one set of slaves.

Real CompositeServer objects (several combinations of TCP and RTU members) run in the controlled world.  Every history of
slave/block management through the composite server, requests received by each member, start and stop is replayed against
one reference model, and after every step each member is asked for everything the model holds.
"""
import itertools
import struct

from mc import fserial, lin, ref, sched
from checks.c07 import in_world

BOUNDS = ("9 combinations of 1-8 TCP/RTU members (own or passed databank, a class which is no server among them); every history "
          "of depth 2 (quick: 3 for one of them; thorough: 3) over 16 operations (add / remove slaves and blocks, set values, write requests and "
          "broadcasts received by each member, start, stop), from a stopped and from a started server, all members read back "
          "after each step; requests received by two members at the same time in every interleaving within 1 (thorough 2) "
          "deviations from the default schedule")
W = struct.pack
PORTS = (1502, 1503, 1504, 1505, 1506)
REG = {}
MODS = ("modbus", "modbus_tcp", "modbus_rtu", "simulator")


class Absent(object):
    pass


class TcpMember(object):
    def __init__(self, w, port):
        self.w, self.port, self.s, self.tid = w, port, None, 0

    def up(self):
        return self.port in self.w.net.listeners

    def ask(self, unit, pdu, wait):
        """the reply PDU, b'' for none, or an error text"""
        if self.s is None:
            self.s = self.w.net.socket_class()
            try:
                self.s.connect(("127.0.0.1", self.port))
            except OSError as e:
                self.s = None
                return "cannot connect to port %d: %r" % (self.port, e)
        self.tid += 1
        try:
            self.s.sendall(ref.mbap(self.tid, unit, pdu))
        except OSError as e:
            return "cannot send to port %d: %r" % (self.port, e)
        rx = self.s.rx
        if wait:
            self.w.block(lambda: bool(rx.segs) or rx.eof, 3.0)
        self.w.sleep(0.002)
        got = b"".join(bytes(s) for s in rx.segs)
        del rx.segs[:]
        if not got:
            return b"" if not rx.eof else "connection closed"
        if got[:7] != struct.pack(">HHHB", self.tid, 0, len(got) - 6, unit):
            return "ill-formed reply %s" % got.hex()
        return got[7:]

    def reset(self):
        if self.s is not None:
            self.s.close()
            self.s = None


class RtuMember(object):
    def __init__(self, w, ser):
        self.w, self.ser = w, ser

    def up(self):
        return self.ser.is_open

    def ask(self, unit, pdu, wait):
        if not self.ser.is_open:
            return "the serial port is not open"
        n = len(self.ser.written)
        self.ser.feed(ref.rtu(unit, pdu))
        if wait:
            self.w.block(lambda: len(self.ser.written) > n, 3.0)
        self.w.sleep(0.03)
        got = b"".join(self.ser.written[n:])
        if not got:
            return b""
        if got[:1] != bytes([unit]) or ref.rtu(unit, got[1:-2]) != got:
            return "ill-formed reply %s" % got.hex()
        return got[1:-2]

    def reset(self):
        pass


# combinations of members
COMBOS = ["rt", "tr", "tt", "rr", "t", "rtt", "rt+db", "xrt", "rtrtrtxtt"]


class Rig(object):
    def __init__(self, w, lib, combo, start=False):
        self.w, self.lib = w, lib
        self.models = {}
        kinds, _, opt = combo.partition("+")
        classes, args, self.members = [], [], []
        for k in kinds:
            if k == "t":
                p = PORTS[sum(isinstance(m, TcpMember) for m in self.members)]
                classes.append(lib.modbus_tcp.TcpServer)
                args.append((p, "127.0.0.1"))
                self.members.append(TcpMember(w, p))
            elif k == "r":
                ser = fserial.FakeSerial(w)
                classes.append(lib.modbus_rtu.RtuServer)
                args.append((ser,))
                self.members.append(RtuMember(w, ser))
            else:
                classes.append(Absent)
                args.append((1, 2, 3))
        kw = {}
        if opt:
            kw["databank"] = lib.modbus.Databank()
            kw["databank"].add_slave(3).add_block("h0", 3, 0, 4)
            self.models[3] = ref.RefSlave(True)
            self.models[3].add("h0", 3, 0, 4)
        self.srv = lib.simulator.CompositeServer(classes, args, **kw)
        self.running = False
        if start:
            self.start()

    def start(self):
        self.srv.start()
        self.w.block(lambda: all(m.up() for m in self.members), 5.0)
        self.running = True
        # the RTU servers take what arrives in the first moments for the rest of a frame
        self.w.sleep(0.1)

    def stop(self):
        self.srv.stop()
        self.running = False
        for m in self.members:
            m.reset()

    # -- one operation; returns an error text or None
    def do(self, op):
        k = op[0]
        lib, srv = self.lib, self.srv
        if k == "start":
            if self.running:
                # refused or without effect, the servers run on
                try:
                    self.srv.start()
                except Exception:   # noqa
                    pass
            else:
                self.start()
            return None
        if k == "stop":
            self.stop()
            return None
        if k == "verbose":
            srv.set_verbose(op[1])
            return None
        if k == "ask":
            i, unit, pdu = op[1:]
            if i >= len(self.members) or not self.running:
                return None
            return self.ask(i, unit, pdu)
        m, want = self.models, None
        sid = op[1] if len(op) > 1 else None
        if k == "add":
            if sid in m:
                want = "DuplicatedKeyError"
            else:
                m[sid] = ref.RefSlave(op[2])
            fn = lambda: srv.add_slave(sid, unsigned=op[2])
        elif k == "rm":
            if sid not in m:
                want = "MissingKeyError|KeyError"
            else:
                del m[sid]
            fn = lambda: srv.remove_slave(sid)
        elif k == "rmall":
            m.clear()
            fn = srv.remove_all_slaves
        else:
            if sid not in m:
                want = "MissingKeyError"
            elif k == "block":
                if op[2] in m[sid].blocks:
                    want = "DuplicatedKeyError"
                else:
                    m[sid].add(op[2], op[3], op[4], op[5])
            elif k == "rmblock":
                if op[2] not in m[sid].blocks:
                    want = "MissingKeyError|KeyError"
                else:
                    m[sid].blocks.pop(op[2])
            elif k == "set":
                if op[2] not in m[sid].blocks:
                    want = "MissingKeyError"
                else:
                    b = m[sid].blocks[op[2]]
                    b[2][op[3] - b[1]:op[3] - b[1] + len(op[4])] = list(op[4])
            if k == "block":
                fn = lambda: srv.get_slave(sid).add_block(*op[2:])
            elif k == "rmblock":
                fn = lambda: srv.get_slave(sid).remove_block(op[2])
            else:
                fn = lambda: srv.get_slave(sid).set_values(op[2], op[3], list(op[4]))
        try:
            fn()
            got = None
        except Exception as e:   # noqa
            got = type(e).__name__
        if (got is None) != (want is None) or (want and got not in want.split("|")):
            return "%r %s instead of %s" % (op, got or "succeeded", want or "success")
        return None

    def ask(self, i, unit, pdu):
        if unit == 0:
            for m in self.models.values():
                try:
                    m.handle(pdu)
                except ref.Refused:
                    pass
            want = (b"",)
        elif unit not in self.models:
            want = (b"",)
        else:
            try:
                want = (self.models[unit].handle(pdu),)
            except ref.Refused as e:
                want = tuple(bytes([pdu[0] | 0x80, c]) for c in e.codes)
        got = self.members[i].ask(unit, pdu, want != (b"",))
        if got not in want:
            return "member %d (%s) answers %s to %s for slave %d instead of %s" % (
                i, type(self.members[i]).__name__[:3], got if isinstance(got, str) else got.hex() or "nothing", pdu.hex(),
                unit, " or ".join(x.hex() or "nothing" for x in want))
        return None

    def probe(self):
        """everything, through every member and through the composite server"""
        for sid in (1, 2, 3):
            m = self.models.get(sid)
            try:
                s = self.srv.get_slave(sid)
            except Exception as e:   # noqa
                if m is not None:
                    return "get_slave(%d) raised %r" % (sid, e)
                s = None
            if s is not None and m is None:
                return "slave %d was removed, get_slave returns it" % sid
            if m is not None:
                err = []
                if not ref.same_slave(s, m, err):
                    return "slave %d: %s" % (sid, err[0])
        for i, mem in enumerate(self.members):
            if mem.up() != self.running:
                return "member %d is %s although the composite server was %s" % (
                    i, "up" if mem.up() else "down", "started" if self.running else "stopped")
            if not self.running:
                continue
            for sid in (1, 2, 3):
                m = self.models.get(sid)
                if m is None:
                    e = self.ask(i, sid, W(">BHH", 3, 0, 1))
                    if e:
                        return e
                    continue
                for name, b in sorted(m.blocks.items()):
                    e = self.ask(i, sid, W(">BHH", b[0], b[1], len(b[2])))
                    if e:
                        return e
                if not any(b[0] == 1 for b in m.blocks.values()):
                    e = self.ask(i, sid, W(">BHH", 1, 0, 1))
                    if e:
                        return e
        return None


OPS = [("add", 1, True), ("add", 2, False), ("rm", 1), ("rmall",), ("block", 1, "h0", 3, 0, 4), ("block", 1, "c0", 1, 0, 9),
       ("rmblock", 1, "h0"), ("set", 1, "h0", 0, (7, 8)),
       ("ask", 0, 1, W(">BHHB", 16, 1, 2, 4) + b"\x00\x63\x80\x01"), ("ask", 1, 1, W(">BHH", 6, 0, 0x4321)),
       ("ask", 2, 1, W(">BHH", 5, 3, 0xFF00)), ("ask", 0, 0, W(">BHH", 6, 2, 0x0102)), ("ask", 1, 0, W(">BHH", 5, 0, 0xFF00)),
       ("start",), ("stop",), ("verbose", True)]
SETUPS = {"empty": (), "one": (("add", 1, True), ("block", 1, "h0", 3, 0, 4), ("set", 1, "h0", 0, (1, 2, 3, 4)),
                               ("add", 2, True), ("block", 2, "h0", 3, 0, 4), ("block", 2, "c1", 1, 0, 10))}


def useful(combo, op, started):
    n = len(combo.partition("+")[0].replace("x", ""))
    return op[0] != "ask" or op[1] < n


def hist(ctx, combo, setup, started, first, depth):
    if ctx.replay:
        def one(w, lib):
            walk(ctx, w, lib, combo, setup, started, [tuple(tuple(x) if isinstance(x, list) else x for x in o)
                                                      for o in ctx.replay["case"]["ops"]])
        in_world(ctx, one)
        return
    ops = [o for o in OPS if useful(combo, o, started)]
    for rest in itertools.product(ops, repeat=depth - 1):
        seq = (first,) + rest
        if any(a == b and a[0] in ("verbose", "start", "stop", "rmall") for a, b in zip(seq, seq[1:])):
            continue
        if ctx.out_of_time():
            ctx.capped = True
            return
        in_world(ctx, lambda w, lib: walk(ctx, w, lib, combo, setup, started, seq))


def walk(ctx, w, lib, combo, setup, started, seq):
    w.net.points = False
    rig = Rig(w, lib, combo)
    for op in SETUPS[setup]:
        e = rig.do(op)
        if e:
            ctx.fail(e, {"combo": combo, "setup": setup, "ops": []})
            return
    if started:
        rig.start()
    case = {"combo": combo, "setup": setup, "started": started, "ops": seq}
    ctx.cur = case
    for i, op in enumerate(seq):
        try:
            e = rig.do(op) or rig.probe()
        except Exception as exc:   # noqa
            e = "%r raised %r" % (op, exc)
        ctx.trans()
        ctx.state((combo, setup, started, seq[:i + 1]))
        if e:
            ctx.fail("after %r: %s" % (seq[:i + 1], e), case)
            return
    ctx.trace()
    rig.stop()
    e = rig.probe()
    if e:
        ctx.fail("after %r and stop: %s" % (seq, e), case)


# ---------------------------------------------------------------------------------------- requests at the same time

class Model(object):
    def __init__(self, m):
        self.m = m

    def key(self):
        return repr([(n, list(b[2])) for n, b in sorted(self.m.blocks.items())])


BOTH = {
    "w0": W(">BHHB", 16, 0, 2, 4) + b"\x11\x11\x22\x22", "w1": W(">BHHB", 16, 0, 2, 4) + b"\x33\x33\x44\x44",
    "r": W(">BHH", 3, 0, 2), "mask": W(">BHHH", 22, 0, 0xFF00, 0x0055), "mask2": W(">BHHH", 22, 0, 0x00FF, 0x6600),
    "rw": W(">BHHHHB", 23, 0, 2, 1, 1, 2) + b"\x77\x77", "s": W(">BHH", 6, 1, 5),
}


def copy_model(m):
    c = ref.RefSlave(True)
    for n, b in m.blocks.items():
        c.add(n, b[0], b[1], len(b[2]))
        c.blocks[n][2][:] = b[2]
    return c


@sched.scenario(REG, bound=(1, 2), cap=1, only=MODS, free=False)
def both(w, lib, out, combo, progs):
    w.net.points = False
    rig = Rig(w, lib, combo)
    for op in SETUPS["one"]:
        rig.do(op)
    rig.start()
    base = copy_model(rig.models[1])
    h = lin.History(w)
    for m in rig.members:
        if isinstance(m, TcpMember):       # connected before, the requests meet
            m.s = w.net.socket_class()
            m.s.connect(("127.0.0.1", m.port))
    w.sleep(0.01)
    w.trace = w.want_trace

    def user(i):
        for name in progs[i]:
            h.call(i, name, (), lambda: rig.members[i].ask(1, BOTH[name], True))
    ts = [w.spawn(lambda i=i: user(i), "U%d" % i) for i in range(len(progs))]
    w.block(lambda: all(t.done for t in ts), 60.0)
    w.trace = False
    rig.stop()
    if not all(t.done for t in ts):
        out.fail("a member does not answer")
        return
    final = [list(rig.srv.get_slave(1).get_values("h0", 0, 4))]

    def apply(m, op):
        c = copy_model(m.m)
        return Model(c), c.handle(BOTH[op.name])
    out.outcome = tuple(sorted((o.thread, o.name, o.result if isinstance(o.result, str) else o.result.hex()) for o in h.ops))
    if not lin.linearizable(h.ops, Model(base), apply, lambda e, g: e == g, lambda m: list(m.m.blocks["h0"][2]) == final[0]):
        out.fail("no order of the requests explains the answers %r and the values %r" % (out.outcome, final[0]))


PROGS = [(("w0",), ("w1",)), (("w0",), ("r",)), (("mask",), ("mask2",)), (("rw",), ("w1",)), (("s", "r"), ("w0", "r")),
         (("r",), ("rw",)), (("mask",), ("w0",))]


def top(ctx, combo, progs):
    sched.root(ctx, REG, "both", (combo, progs))


def sub(ctx, name, args, bound, prefixes):
    sched.sub(ctx, REG, name, args, bound, prefixes)


def jobs(tier, seed):
    th = tier == "thorough"
    js = []
    for combo in ("rt", "tt", "rr"):
        for p in PROGS:
            js.append(("top", (combo, p)))
    for combo in COMBOS:
        for setup in SETUPS:
            for started in (True, False):
                for o in OPS:
                    if useful(combo, o, started):
                        d = 3 if th or (combo == "rt" and setup == "one" and started) else 2
                        if len(combo) > 5:
                            d = 2
                        if d == 2 and not started and combo not in ("rt", "tr", "rt+db"):
                            continue
                        js.append(("hist", (combo, setup, started, o, d)))
    return js
