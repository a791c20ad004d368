"""C27: a master can be opened, closed and reused in any order.

Every history (up to a depth) of open, close, call, losing the connection in three ways, refused connections and failing
open / close hooks is run on real TcpMaster, RtuOverTcpMaster and RtuMaster objects; after every operation the number of
connections made and of sockets open (or the state of the serial port) is compared with a model.
"""
import itertools
import struct

from mc import fserial, peer, ref
from checks.c07 import in_world

BOUNDS = ("every history of up to 5 (thorough 6) of 11 operations (9 for RTU) per master: open, close, call, connection closed / "
          "reset / stalled by the peer, next connection refused, next open hook fails, next close hook fails; serial port "
          "initially open or closed, closed behind the master's back, dead until it is opened again; 8 cycles a hundred times over")
OPS_TCP = ("open", "close", "call", "eof", "rst", "stall", "refuse", "hook-open", "hook-connected", "hook-close", "hook-closed")
OPS_RTU = ("open", "close", "call", "lost", "dead", "refuse", "stall", "hook-open", "hook-closed")
VALS = (0x1234, 0xFFFF)


def hooks(lib, prefix, names):
    """one-shot failing hooks; [rig] whose .hook names the one to fail"""
    cur = [None]

    def mk(h):
        def f(args):
            if cur[0] is not None and cur[0].hook == h and args[0] is cur[0].m:
                cur[0].hook = None
                raise RuntimeError("hook " + h)
        return f
    for h in names:
        lib.hooks.install_hook(prefix + h, mk(h))
    return cur


class Tcp(object):
    def __init__(self, w, lib, kind):
        self.w, self.lib, self.kind = w, lib, kind
        self.p = peer.Peer(w, 1502, framing="tcp" if kind == "tcp" else "rtu", handler=self.handle)
        self.p.on_connect = self.on_connect
        C = lib.modbus_tcp.TcpMaster if kind == "tcp" else lib.modbus_rtu_over_tcp.RtuOverTcpMaster
        self.m = C("127.0.0.1", 1502, timeout_in_sec=0.5)
        self.refuse = self.stall = False
        self.hook = None
        self.is_open = False          # model: the master is open
        self.good = True              # model: the connection is usable
        self.sure = True              # model: is_open is known
        self.conns = 0

    def on_connect(self, sock):
        if self.refuse:
            self.refuse = False
            return ConnectionRefusedError(111, "Connection refused")
        return None

    def handle(self, conn, req):
        if self.stall:
            self.stall = False
            return
        conn.push(self.p.frame(req, bytes([3, 4]) + ref.regs(VALS)))

    def connected(self):
        return [s for s in self.w.net.open_sockets() if s.connected]

    def sockets(self):
        return self.w.net.open_sockets()

    def prune(self):
        # the records of sockets closed long ago are not needed
        self.w.net.socks[:] = [s for s in self.w.net.socks if not s.closed]
        del self.p.conns[:-1]
        del self.p.requests[:]

    def step(self, op):
        """error text or None"""
        w, m = self.w, self.m
        if op in ("eof", "rst"):
            if self.p.conns and self.is_open:
                getattr(self.p.conns[-1], op)()
                self.good = False
            return None
        if op == "stall":
            self.stall = True
            return None
        if op == "refuse":
            self.refuse = True
            return None
        if op.startswith("hook-"):
            self.hook = {"open": "before_connect", "connected": "after_connect", "close": "before_close", "closed": "after_close"}[op[5:]]
            return None
        tries = self.p.attempts
        refuse, hook, stall = self.refuse, self.hook, self.stall
        res = None
        try:
            if op == "open":
                m.open()
            elif op == "close":
                m.close()
            else:
                res = m.execute(1, 3, 0, 2)
            exc = None
        except Exception as e:  # noqa
            exc = e
        made = self.p.attempts - tries
        opens_fail = refuse or hook in ("before_connect", "after_connect")
        if self.is_open is None and op != "close":
            if exc is None and op == "call" and res != VALS:
                return "the call returned %r" % (res,)
            if exc is None and self.connected() and (op == "call" or made):
                self.is_open = self.good = True
            elif exc is not None and not opens_fail and not stall and op == "call" and not made and self.good:
                return "the call raised %r" % exc
            return None
        if op == "open":
            if self.is_open:
                if exc is not None or made:
                    return "opening an open master %s" % ("raised %r" % exc if exc else "connected again")
            elif opens_fail:
                if exc is None:
                    return "a failed open did not raise"
            else:
                if exc is not None:
                    return "open raised %r" % exc
                if made != 1:
                    return "%d connections were made by open" % made
                self.is_open = self.good = True
        elif op == "close":
            if self.is_open is False:
                if exc is not None or (hook in ("before_close", "after_close") and self.hook is None):
                    return "closing a closed master %s" % ("raised %r" % exc if exc else "closes something")
            elif hook in ("before_close", "after_close"):
                if exc is None:
                    return "the close hook failed and close did not raise"
                # it may be half closed: another close finishes it (a call may open it again)
                self.is_open = None
                return None
            elif exc is not None:
                return "close raised %r" % exc
            self.is_open = False
        else:
            if exc is None and res != VALS:
                return "the call returned %r" % (res,)
            if self.is_open and self.good:
                if stall:
                    if exc is None:
                        return "the call returned values without a response"
                elif exc is not None:
                    return "the call on an open connection raised %r" % exc
                elif made:
                    return "the call connected again"
                if stall and exc is not None:
                    # what the master does with the connection after a timeout is its choice
                    self.is_open = bool(self.connected())
                    self.good = True
            elif self.is_open:
                # lost: it notices, now or during the next call
                if exc is None:
                    if made != 1:
                        return "%d connections were made by a call on a lost connection" % made
                    self.good = True
                else:
                    n = len(self.connected())
                    self.good = n == 1 and made > 0 and not opens_fail
                    if n == 0:
                        self.is_open = None
            else:
                if opens_fail or stall:
                    if exc is None:
                        return "the call returned values without a connection"
                    if stall and not opens_fail:
                        self.is_open = bool(self.connected())
                        self.good = True
                elif exc is not None:
                    return "the call raised %r" % exc
                elif made != 1:
                    return "%d connections were made by a call on a closed master" % made
                else:
                    self.is_open = self.good = True
        return None

    def check(self):
        n = len(self.sockets())
        if n > 1:
            return "%d sockets are open" % n
        if self.is_open is False and n:
            return "the master is closed and a socket is still open"
        if self.is_open and n != 1:
            return "the master is open without a socket"
        return None

    def settle(self):
        """whatever happened: close, then open and call work"""
        self.refuse = self.stall = False
        self.hook = None
        if self.is_open is None:
            try:
                self.m.close()
            except Exception as e:  # noqa
                return "closing again raised %r" % e
        else:
            try:
                self.m.close()
            except Exception as e:  # noqa
                return "close raised %r" % e
        if self.sockets():
            return "after close a socket is still open"
        for how in ("open", "call"):
            try:
                if how == "open":
                    self.m.open()
                r = self.m.execute(1, 3, 0, 2)
            except Exception as e:  # noqa
                return "after close, %s raised %r" % (how, e)
            if r != VALS:
                return "after close, the call returned %r" % (r,)
            if len(self.sockets()) != 1:
                return "%d sockets are open" % len(self.sockets())
            self.m.close()
            if self.sockets():
                return "after close a socket is still open"
        return None


class Rtu(object):
    def __init__(self, w, lib, initially):
        self.w, self.lib = w, lib
        self.ser = fserial.FakeSerial(w, is_open=initially)
        self.p = peer.SerialPeer(self.ser, handler=self.handle)
        self.m = lib.modbus_rtu.RtuMaster(self.ser)
        self.m.set_timeout(0.05)
        self.ser.fault = self.fault
        self.refuse = self.stall = False
        self.dead = None
        self.hook = None

    def fault(self, op):
        if op == "open" and self.refuse:
            self.refuse = False
            return fserial.SerialError("could not open port")
        if self.dead is not None and self.dead == self.ser.gen and op not in ("open", "close"):
            return fserial.SerialError("device disconnected")
        return None

    def handle(self, conn, req):
        if self.stall:
            self.stall = False
            return
        self.p.push(self.p.frame(req, bytes([3, 4]) + ref.regs(VALS)))

    def prune(self):
        del self.ser.written[:], self.ser.write_times[:], self.ser.log[:], self.ser.settings[:], self.p.requests[:]

    is_open = True

    def step(self, op):
        m, ser = self.m, self.ser
        if op == "lost":
            ser.is_open = False        # closed behind the master's back
            return None
        if op == "dead":
            self.dead = ser.gen if ser.is_open else None
            return None
        if op in ("stall", "refuse"):
            setattr(self, op, True)
            return None
        if op.startswith("hook-"):
            self.hook = {"open": "before_open", "closed": "after_close"}[op[5:]]
            return None
        was, opens, closes, gen = ser.is_open, ser.opens, ser.closes, ser.gen
        refuse, hook, stall = self.refuse, self.hook, self.stall
        res = exc = None
        try:
            if op == "open":
                m.open()
            elif op == "close":
                m.close()
            else:
                res = m.execute(1, 3, 0, 2)
        except Exception as e:  # noqa
            exc = e
        made = ser.opens - opens
        if made > 1 or was and made and op != "close":
            return "the port was opened %d times by %s" % (made, op)
        if op == "open":
            if was and (exc is not None or made or not ser.is_open):
                return "opening an open master: %r" % (exc,)
            if not was and exc is None and not ser.is_open:
                # the port was closed behind its back: it can not know
                if not self.lost_while_open:
                    return "open returned and the port is closed"
            if not was and exc is not None and not (refuse or hook == "before_open"):
                return "open raised %r" % (exc,)
        elif op == "close":
            if exc is not None and not (hook == "after_close" and self.hook is None):
                return "close raised %r" % (exc,)
            if ser.is_open and self.opened:
                return "close left the port open"
        else:
            if exc is None and res != VALS:
                return "the call returned %r" % (res,)
            bad = stall or self.dead == gen and was or self.lost_while_open
            if not was and not self.lost_while_open:
                bad = bad or refuse or hook == "before_open"
            if exc is not None and not bad:
                return "the call raised %r" % (exc,)
            if exc is None and stall:
                return "the call returned values without a response"
        return None


def tcp_hist(ctx, kind, first, depth):
    def body(w, lib):
        w.net.points = False
        cur = hooks(lib, "modbus_tcp.TcpMaster.", ("before_connect", "after_connect", "before_close", "after_close"))
        for n in range(0, depth):
            for rest in itertools.product(OPS_TCP, repeat=n):
                hist = (first,) + rest
                # the last operation must do something
                if hist[-1] not in ("open", "close", "call"):
                    continue
                w.net.socks[:] = []
                rig = cur[0] = Tcp(w, lib, kind)
                ctx.cur = case = {"master": kind, "history": hist}
                err = None
                for i, op in enumerate(hist):
                    err = rig.step(op) or (rig.check() if op in ("open", "close", "call") else None)
                    ctx.trans()
                    if err:
                        case = dict(case, at=i)
                        break
                err = err or rig.settle()
                w.sleep(0.001)
                ctx.state((kind, hist))
                ctx.trace()
                ctx.sample(case)
                if err:
                    ctx.fail(err, case)
                    return
    in_world(ctx, body)


def rtu_hist(ctx, initially, first, depth):
    def body(w, lib):
        cur = hooks(lib, "modbus_rtu.RtuMaster.", ("before_open", "after_close"))
        for n in range(0, depth):
            for rest in itertools.product(OPS_RTU, repeat=n):
                hist = (first,) + rest
                if hist[-1] not in ("open", "close", "call"):
                    continue
                rig = cur[0] = Rtu(w, lib, initially)
                rig.lost_while_open = False
                rig.opened = False
                ctx.cur = case = {"port initially open": initially, "history": hist}
                err = None
                for i, op in enumerate(hist):
                    err = rig.step(op)
                    ctx.trans()
                    if err:
                        case = dict(case, at=i)
                        break
                    # what is known of the master: open after an open or call which did not fail, closed after close
                    if op == "lost" and rig.opened:
                        rig.lost_while_open = True
                    if op in ("open", "call"):
                        rig.opened = rig.opened or rig.ser.is_open
                        if rig.ser.is_open:
                            rig.lost_while_open = False
                    if op == "close" and not rig.ser.is_open:
                        rig.opened = rig.lost_while_open = False
                if not err:
                    rig.refuse = rig.stall = False
                    rig.hook = None
                    err = rtu_settle(rig)
                w.sleep(0.001)
                ctx.state((initially, hist))
                ctx.trace()
                ctx.sample(case)
                if err:
                    ctx.fail(err, case)
                    return
    in_world(ctx, body)


def rtu_settle(rig):
    m, ser = rig.m, rig.ser
    try:
        m.close()
    except Exception as e:  # noqa
        return "close raised %r" % e
    if ser.is_open and rig.opened:
        return "after close the port is still open"
    if ser.is_open:
        ser.is_open = False
        ser.gen += 1
    for how in ("open", "call"):
        opens = ser.opens
        try:
            if how == "open":
                m.open()
            r = m.execute(1, 3, 0, 2)
        except Exception as e:  # noqa
            return "after close, %s raised %r" % (how, e)
        if r != VALS:
            return "after close, the call returned %r" % (r,)
        if ser.opens != opens + 1:
            return "the port was opened %d times" % (ser.opens - opens)
        m.close()
        if ser.is_open:
            return "after close the port is still open"
    return None


def tcp_soak(ctx, kind, cycle):
    """one master through the same cycle a hundred times"""
    def body(w, lib):
        w.net.points = False
        cur = hooks(lib, "modbus_tcp.TcpMaster.", ("before_connect", "after_connect", "before_close", "after_close"))
        rig = cur[0] = Tcp(w, lib, kind)
        ctx.cur = case = {"master": kind, "cycle": cycle}
        err = None
        for i in range(100):
            for op in cycle:
                err = err or rig.step(op) or (rig.check() if op in ("open", "close", "call") else None)
                ctx.trans()
            ctx.state((kind, cycle, i))
            if err:
                ctx.fail("round %d: %s" % (i + 1, err), case)
                return
        err = rig.settle()
        ctx.trace()
        if err:
            ctx.fail(err, case)
    in_world(ctx, body)


def rtu_soak(ctx, initially, cycle):
    def body(w, lib):
        cur = hooks(lib, "modbus_rtu.RtuMaster.", ("before_open", "after_close"))
        rig = cur[0] = Rtu(w, lib, initially)
        rig.lost_while_open = rig.opened = False
        ctx.cur = case = {"port initially open": initially, "cycle": cycle}
        for i in range(100):
            for op in cycle:
                err = rig.step(op)
                ctx.trans()
                if op in ("open", "call"):
                    rig.opened = rig.opened or rig.ser.is_open
                if op == "close" and not rig.ser.is_open:
                    rig.opened = False
                if err:
                    ctx.fail("round %d: %s" % (i + 1, err), case)
                    return
            ctx.state((initially, cycle, i))
        ctx.trace()
    in_world(ctx, body)


SOAKS = (("open", "call", "close"), ("call", "close"), ("call",), ("open", "close"), ("open", "call", "eof", "call", "rst", "call"), ("refuse", "open", "close"),
         ("refuse", "call", "call", "close"), ("stall", "call", "call"), ("hook-open", "open", "open", "close"))


def jobs(tier, seed):
    d = 6 if tier == "thorough" else 5
    js = []
    for kind in ("tcp", "otcp"):
        for op in OPS_TCP:
            js.append(("tcp_hist", (kind, op, d)))
    js += [("tcp_soak", (k, c)) for k in ("tcp", "otcp") for c in SOAKS if all(o in OPS_TCP for o in c)]
    js += [("rtu_soak", (i, c)) for i in (False, True) for c in SOAKS if all(o in OPS_RTU for o in c) and "lost" not in c]
    for init in (False, True):
        for op in OPS_RTU:
            js.append(("rtu_hist", (init, op, d)))
    return js
