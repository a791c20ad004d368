"""C20: servers start, stop and restart cleanly in every schedule.

Real TcpServer / RtuServer / CompositeServer objects run in the controlled world; one or two controlling threads start,
use, stop and restart them (with idle, half-sent and active clients, and with start-up failures) under every
interleaving with the server threads within the preemption bound.
"""
from mc import fserial, ref, sched

BOUNDS = ("programs of up to 7 start / request / stop / wait operations by one or two controlling threads on TCP, RTU and "
          "composite servers, clients idle / half-sent / connected, start-up failing once (port in use, serial port that "
          "does not open); stop while a request takes 0.5 .. 40 s; every start-up socket or serial operation failing once; 40 starts and stops of a server; preemption bound quick 1, thorough 2")
REG = {}
MODS = ("modbus", "modbus_tcp", "modbus_rtu", "simulator")
PORT = 1502
REQ = bytes([3, 0, 0, 0, 2])
REP = bytes([3, 4, 0, 11, 0, 12])


class Tcp(object):
    def __init__(self, w, lib):
        self.w = w
        self.srv = lib.modbus_tcp.TcpServer(port=PORT, address="127.0.0.1")
        fill(self.srv)
        self.clients = []

    def serves(self):
        s = self.w.net.socket_class()
        try:
            s.settimeout(5.0)
            s.connect(("127.0.0.1", PORT))
            s.sendall(ref.mbap(7, 1, REQ))
            got = b""
            while len(got) < 13:
                d = s.recv(64)
                if not d:
                    return "connection closed instead of a reply"
                got += d
            if got != ref.mbap(7, 1, REP):
                return "wrong reply %s" % got.hex()
        except OSError as e:
            return "no reply: %r" % e
        finally:
            s.close()
        return None

    def wait_up(self):
        self.w.block(lambda: PORT in self.w.net.listeners, 5.0)

    def connect(self, data=b""):
        s = self.w.net.socket_class()
        try:
            s.connect(("127.0.0.1", PORT))
            if data:
                s.sendall(data)
            self.clients.append(s)
        except OSError:
            s.close()

    def left(self):
        lst = self.w.net.listeners.get(PORT)
        own = [s for s in self.w.net.socks if not s.closed and s not in self.clients and s not in self.foreign
               and not getattr(s, "pending", False)]
        return own

    foreign = ()

    def block_port(self):
        s = self.w.net.socket_class()
        s.bind(("127.0.0.1", PORT))
        s.listen(1)
        self.foreign = (s,)

    def free_port(self):
        self.foreign[0].close()
        self.foreign = ()

    def closed(self):
        left = self.left()
        return "sockets %r are still open" % left if left else None


class Rtu(object):
    def __init__(self, w, lib):
        self.w = w
        self.ser = fserial.FakeSerial(w)
        self.srv = lib.modbus_rtu.RtuServer(self.ser)
        fill(self.srv)
        self.fail_open = False
        self.ser.fault = self._fault

    def _fault(self, op):
        if op == "open" and self.fail_open:
            return OSError("could not open port")
        return None

    def serves(self):
        for _ in range(2):
            if not self.ser.is_open:
                self.w.sleep(0.5)
                if not self.ser.is_open:
                    return "the serial port is not open"
            n = len(self.ser.written)
            self.ser.feed(ref.rtu(1, REQ))
            self.w.block(lambda: len(self.ser.written) > n, 5.0)
            if len(self.ser.written) == n:
                return "no reply"
            if self.ser.written[n:] != [ref.rtu(1, REP)]:
                return "wrong reply %r" % (self.ser.written[n:],)
            self.w.sleep(0.05)
        return None

    def wait_up(self):
        self.w.block(lambda: self.ser.is_open, 5.0)
        self.w.sleep(0.1)

    def connect(self, data=b""):
        if data:
            self.ser.feed(data)

    def block_port(self):
        self.fail_open = True

    def free_port(self):
        self.fail_open = False

    def closed(self):
        return "the serial port is still open" if self.ser.is_open else None


class Composite(object):
    def __init__(self, w, lib):
        self.w = w
        self.ser = fserial.FakeSerial(w)
        self.srv = lib.simulator.CompositeServer([lib.modbus_rtu.RtuServer, lib.modbus_tcp.TcpServer],
                                                 [(self.ser,), (PORT, "127.0.0.1")])
        fill(self.srv)
        self.t = Tcp.__new__(Tcp)
        self.t.w, self.t.srv, self.t.clients = w, self.srv, []
        self.r = Rtu.__new__(Rtu)
        self.r.w, self.r.srv, self.r.ser = w, self.srv, self.ser

    def serves(self):
        return self.t.serves() or self.r.serves()

    def wait_up(self):
        self.t.wait_up()
        self.r.wait_up()

    def connect(self, data=b""):
        self.t.connect(data)

    def closed(self):
        return self.t.closed() or self.r.closed()

    def block_port(self):
        self.t.block_port()

    def free_port(self):
        self.t.free_port()


def fill(srv):
    s = srv.add_slave(1)
    s.add_block("h", 3, 0, 10)
    s.set_values("h", 0, [11, 12])


KIND = {"tcp": Tcp, "rtu": Rtu, "composite": Composite}


def run_prog(w, out, d, prog, i, st):
    for op in prog:
        st["op"][i] = op
        if op == "start":
            d.srv.start()
            st["running"] = True
        elif op == "stop":
            t0 = w.now
            d.srv.stop()
            st["stops"] += 1
            if w.now - t0 > 10.0:
                out.fail("stop took %.1f s" % (w.now - t0))
            if st["strict"]:
                st["running"] = False
                judge_stopped(w, out, d)
        elif op == "wait":
            w.sleep(0.4)
        elif op == "long":
            w.sleep(3.0)
        elif op == "up":
            d.wait_up()
        elif op == "serve":
            e = d.serves()
            if e:
                out.fail("the started server does not serve: %s" % e)
        elif op == "dead":
            with w.atomic():
                pass
            d2 = d.closed()
            if d2:
                out.fail("after a failed start: %s" % d2)
        elif op == "client":
            d.connect()
        elif op == "half":
            d.connect(ref.mbap(1, 1, REQ)[:5])
        elif op == "request":
            d.connect(ref.mbap(1, 1, REQ) if not isinstance(d, Rtu) else ref.rtu(1, REQ))
        elif op == "block":
            d.block_port()
        elif op == "free":
            d.free_port()
        else:
            raise AssertionError(op)
    st["op"][i] = "done"


def server_threads(w):
    return [t for t in w.tasks if t.thread_obj is not None and not t.done and t.name != "main" and not t.name.startswith("C")]


def judge_stopped(w, out, d):
    e = d.closed()
    if e:
        out.fail("after stop returned: %s" % e)
    if server_threads(w):
        # the thread may be in its very last instructions
        w.block(lambda: not server_threads(w), 0.01)
        if server_threads(w):
            out.fail("after stop returned: the server thread still runs")


@sched.scenario(REG, bound=(1, 2), cap=1, only=MODS)
def control(w, lib, out, kind, progs):
    d = KIND[kind](w, lib)
    st = {"op": ["?"] * len(progs), "running": False, "stops": 0, "strict": len(progs) == 1}
    w.trace = w.want_trace
    ts = [w.spawn(lambda i=i, p=p: run_prog(w, out, d, p, i, st), "C%d" % i) for i, p in enumerate(progs)]
    w.block(lambda: all(t.done for t in ts), 200.0)
    if not all(t.done for t in ts):
        out.fail("a controlling thread hangs in %r" % (st["op"],))
        return
    if any(t.exc for t in ts):
        return
    # whatever happened: it can be stopped, restarted and serves
    t0 = w.now
    d.srv.stop()
    judge_stopped(w, out, d)
    if getattr(d, "foreign", None) or getattr(d, "fail_open", False) or (kind == "composite" and d.t.foreign):
        d.free_port()
    d.srv.start()
    d.wait_up()
    e = d.serves()
    if e:
        out.fail("the server started again does not serve: %s" % e)
    d.srv.stop()
    if w.now - t0 > 30:
        out.fail("stop took long")
    judge_stopped(w, out, d)
    out.outcome = (kind, progs, st["stops"])


@sched.scenario(REG, bound=(1, 2), cap=1, only=MODS)
def startfault(w, lib, out, kind, faults):
    """the nth operation `op` of the server's start fails once, for each (op, nth) of faults; then it is stopped,
    started again and must serve"""
    d = KIND[kind](w, lib)
    n = []

    def fault(o, *a):
        n.append(o)
        if (o, n.count(o)) in faults:
            return OSError(5, "injected fault in " + o)
        return None
    if kind == "rtu":
        d.ser.fault = fault
    else:
        w.net.fault = fault
        if kind == "composite" and faults[0][0] != "close":
            d.ser.fault = fault
    w.trace = w.want_trace
    d.srv.start()
    w.sleep(2.5)
    t0 = w.now
    w.spawn(lambda: (d.srv.stop(), n.append("stopped")), "C0")
    w.block(lambda: "stopped" in n, 30.0)
    if "stopped" not in n:
        out.fail("stop does not return after a failing %s" % (faults,))
        return
    judge_stopped(w, out, d)
    w.net.fault = None
    if hasattr(d, "ser"):
        d.ser.fault = None
    d.srv.start()
    d.wait_up()
    e = d.serves()
    if e:
        out.fail("the server started again does not serve: %s" % e)
    d.srv.stop()
    judge_stopped(w, out, d)
    out.outcome = (kind, faults)


@sched.scenario(REG, bound=(1, 2), cap=1, only=MODS)
def unplugged(w, lib, out, early, more):
    """the serial port disappears while the server runs, and comes back while the server is being stopped"""
    d = Rtu(w, lib)
    st = {"gone": False, "n": 0}

    def fault(op):
        if not st["gone"] or op not in ("open", "read", "in_waiting"):
            return None
        # the server retries at once: let it fail 40 times, then `more` times when it is being stopped
        st["n"] += 1
        if st["n"] > 40 + more:
            w.block(lambda: not st["gone"])
        elif st["n"] > 40:
            w.block(lambda: not st["gone"] or "stopping" in st)
        return OSError(5, "no such device") if st["gone"] else None
    d.ser.fault = fault
    d.srv.start()
    d.wait_up()
    e = d.serves()
    if e:
        out.fail(e)

    def plug():
        if not early:
            w.block(lambda: "stopping" in st)
        st["gone"] = False

    def stop():
        st["stopping"] = 1
        d.srv.stop()
        st["stopped"] = 1
    w.trace = w.want_trace
    d.ser.rx += b"x"                     # something wakes the reader up
    st["gone"] = True
    w.sleep(0.01)
    w.spawn(stop, "C0")
    w.spawn(plug, "C1")
    w.block(lambda: "stopped" in st, 30.0)
    if "stopped" not in st:
        out.fail("stop does not return after the serial port failed")
        return
    judge_stopped(w, out, d)
    st["gone"] = False
    d.srv.start()
    d.wait_up()
    e = d.serves()
    if e:
        out.fail("the server started again does not serve: %s" % e)
    d.srv.stop()
    judge_stopped(w, out, d)
    out.outcome = ("unplugged", early, more)


@sched.scenario(REG, bound=(1, 1), cap=1, only=MODS, free=False)
def busy(w, lib, out, kind, slow, again):
    """stop is called while the server handles a request which takes `slow` seconds (and another one waits): it returns
    when the server has ended, and nothing is executed afterwards"""
    d = KIND[kind](w, lib)
    ran = []

    def hook(args):
        ran.append(w.now)
        w.sleep(slow)
        ran.append(w.now)
    lib.hooks.install_hook("modbus.Slave.handle_request", hook)
    d.srv.start()
    d.wait_up()
    frame = ref.mbap(1, 1, REQ) if kind != "rtu" else ref.rtu(1, REQ)
    d.connect(frame)
    w.block(lambda: bool(ran), 5.0)
    if again:
        d.connect(frame)
    if not ran:
        out.fail("the request is not handled")
        return
    w.trace = w.want_trace
    t0 = w.now
    done = []
    w.spawn(lambda: (d.srv.stop(), done.append(1)), "C0")
    w.block(lambda: bool(done), 3 * slow + 15.0)
    w.trace = False
    if not done:
        out.fail("stop does not return although the request was handled")
        return
    judge_stopped(w, out, d)
    n = len(ran)
    w.sleep(2 * slow + 3.0)
    if len(ran) != n or n % 2:
        out.fail("a request is still being handled after stop returned")
    lib.hooks.uninstall_hook("modbus.Slave.handle_request", hook)
    d.srv.start()
    d.wait_up()
    e = d.serves()
    if e:
        out.fail("the server started again does not serve: %s" % e)
    d.srv.stop()
    judge_stopped(w, out, d)
    out.outcome = ("busy", kind, slow, again)


@sched.scenario(REG, bound=(0, 0), cap=1, only=MODS, free=False)
def many(w, lib, out, kind, prog):
    """the same thing again and again on one server"""
    d = KIND[kind](w, lib)
    t = w.want_trace
    for i in range(40):
        w.trace = t and i == 39
        d.srv.start()
        if "up" in prog:
            d.wait_up()
        if "serve" in prog:
            e = d.serves()
            if e:
                out.fail("start %d: the started server does not serve: %s" % (i + 1, e))
                return
        if "client" in prog:
            d.connect()
        t0 = w.now
        d.srv.stop()
        if w.now - t0 > 10:
            out.fail("stop %d took %.1f s" % (i + 1, w.now - t0))
        judge_stopped(w, out, d)
    out.outcome = ("many", kind, prog)


@sched.scenario(REG, bound=(1, 2), cap=1, only=MODS, free=False)
def control_composite(w, lib, out, kind, progs):
    """three or more threads: a change of thread costs one deviation also where the running one blocks"""
    control(w, lib, out, kind, progs)


@sched.scenario(REG, bound=(1, 2), cap=1, only=MODS, free=False)
def startfault_composite(w, lib, out, kind, faults):
    startfault(w, lib, out, kind, faults)


PROGS = [
    (("start", "stop"),), (("start", "up", "serve", "stop"),), (("stop", "start", "up", "serve", "stop", "stop"),),
    (("start", "stop", "start", "stop", "start", "up", "serve"),), (("start", "up", "client", "stop"),),
    (("start", "up", "half", "stop"),), (("start", "up", "half", "wait", "stop"),), (("start", "up", "request", "stop"),),
    (("start", "up", "request", "wait", "stop", "start", "up", "serve"),), (("start", "up", "client", "wait", "serve", "stop"),),
    (("block", "start", "stop", "free", "start", "up", "serve", "stop"),),
    (("block", "start", "wait", "stop", "free", "start", "up", "serve", "stop"),),
    (("block", "start", "long", "dead", "free", "start", "up", "serve", "stop"),),
    (("start", "stop"), ("stop",)), (("start", "up", "stop"), ("wait", "stop")), (("start", "up", "request"), ("stop", "stop")),
    (("block", "start", "stop"), ("stop",)), (("start",), ("long", "stop", "start", "up", "serve")),
]
# programs in which one thread starts the server while another one stops it
RACING = [(("start", "stop"), ("stop",)), (("start", "up", "request"), ("stop", "stop")), (("block", "start", "stop"), ("stop",))]


def jobs(tier, seed):
    js = []
    for kind in ("tcp", "rtu", "composite"):
        for progs in PROGS:
            if kind == "composite" and progs[0][0] == "block" and "dead" in progs[0]:
                continue         # the other server of the composite is rightly running
            if kind == "composite" and progs[0][0] == "block" and "stop" not in progs[0]:
                continue
            if kind != "tcp" and progs in RACING:
                continue         # start and stop called at the same time on an RTU server: not promised
            js.append(("top", ("control_composite" if kind == "composite" else "control", (kind, progs))))
    for op in ("bind", "listen", "accept", "select", "recv", "send", "close"):
        for nth in (1, 2):
            js.append(("top", ("startfault", ("tcp", ((op, nth),)))))
            js.append(("top", ("startfault_composite", ("composite", ((op, nth),)))))
    js += [("top", ("busy", (k, x, n))) for k in ("tcp", "rtu", "composite") for x in (0.5, 2.5, 7.0, 40.0) for n in (0, 1)]
    js += [("top", ("many", (k, p))) for k in ("tcp", "rtu", "composite") for p in ((), ("up",), ("up", "serve"), ("up", "client", "serve"))]
    singles = [(op, nth) for op in ("open", "read", "in_waiting") for nth in (1, 2, 3)]
    for f in singles:
        js.append(("top", ("startfault", ("rtu", (f,)))))
    js += [("top", ("unplugged", (e, n))) for e in (False, True) for n in (1, 2, 3, 4)]
    for f, g in (("read", 1), ("open", 2)), (("read", 2), ("open", 2)), (("read", 2), ("open", 3)), (("open", 2), ("open", 3)):
        js.append(("top", ("startfault", ("rtu", (f, g)))))
        js.append(("top", ("startfault_composite", ("composite", (f, g)))))
    return js


def top(ctx, name, args):
    sched.root(ctx, REG, name, args)


def sub(ctx, name, args, bound, prefixes):
    sched.sub(ctx, REG, name, args, bound, prefixes)
