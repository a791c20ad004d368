"""C32: a simulator can be closed in every state and leaves nothing behind.

Real Simulator objects run in the controlled world and are closed: before they were started, after a start that failed,
while they run, after quit (console or RPC), twice, while commands are being executed or waited for, at every moment of
their start and end (interleavings within a preemption bound).  Afterwards nothing may be left and another simulator must
work in the same process.
"""
from mc import sched, simu
from checks.c07 import in_world
from checks.c24 import case_loop

BOUNDS = ("15 ways of life (never started, failed start, used by console / RPC / Modbus, quit by each interface, command in progress, "
          "commands after quit, silent clients) x 4 ways of closing x TCP / composite server, each followed by a second and a "
          "third simulator; closing at every moment of start and quit with preemption bound 1 (thorough 2)")
REG = {}
MODS = ("simulator", "socketserver", "modbus", "modbus_tcp")

LIVES = ("new", "fail", "idle", "console", "rpc", "modbus", "quit-console", "quit-rpc", "slow-console", "slow-rpc", "after-quit", "many", "silent-1", "silent-3",
         "partial")
CLOSES = ("close", "close-twice", "quit-close", "fast")


class Rig(object):
    def __init__(self, w, lib, kind):
        self.w, self.lib, self.kind = w, lib, kind
        if kind == "tcp":
            srv = lib.modbus_tcp.TcpServer(port=1502, address="127.0.0.1")
        else:
            srv = lib.simulator.CompositeServer([lib.modbus_tcp.TcpServer, lib.modbus_tcp.TcpServer],
                                                [(1502, "127.0.0.1"), (1503, "127.0.0.1")])
        self.s = simu.Sim(w, lib, srv)
        srv.add_slave(1).add_block("h0", 3, 0, 4)

        def slow(args):
            w.sleep(float(args[1]))
            return "ok"
        self.s.sim.add_command("slow", slow)

    def works(self):
        for how in ("console", "rpc"):
            a = getattr(self.s, how)("has_slave 1")
            if a != "has_slave done: 1\r\n":
                return "has_slave on the %s is answered %r" % (how, a)
        m = self.lib.modbus_tcp.TcpMaster("127.0.0.1", 1502, timeout_in_sec=2.0)
        try:
            r = m.execute(1, 3, 0, 2)
            if tuple(r) != (0, 0):
                return "the server answers %r" % (r,)
        except Exception as e:   # noqa
            return "the server does not answer: %r" % (e,)
        finally:
            m.close()
        return None

    def close(self, limit=8.0):
        """close in this task; error text or None"""
        t0 = self.w.now
        done = []

        def run():
            try:
                self.s.sim.close()
                done.append(None)
            except Exception as e:   # noqa
                done.append(e)
        t = self.w.spawn(run, "CLOSER", foreground=False)
        self.w.block(lambda: bool(done), limit)
        if not done:
            return "close() does not return (within %g s)" % limit
        if done[0] is not None:
            return "close() raised %r" % (done[0],)
        return None

    def left(self, grace=6.5):
        w = self.w
        w.sleep(grace)        # RPC users may still wait for an answer
        lst = [s for s in w.net.open_sockets() if s.listening and s not in self.foreign]
        if lst:
            return "listening sockets are left: %r" % (lst,)
        ts = [t for t in w.tasks if t.thread_obj is not None and not t.done and t.name not in ("main",)]
        if ts:
            return "threads are left: %s" % ", ".join(t.name for t in ts)
        return None

    foreign = ()


def life(w, lib, c):
    kind, way, how = c
    out = w.stdout
    r = Rig(w, lib, kind)
    us = []
    if way == "fail":
        def bad():
            raise OSError("the server cannot start")
        r.s.server.start = bad
    if way != "new":
        r.s.start()
    if way == "fail" and r.s.alive():
        return "start() goes on although the server failed"
    if way == "console":
        if r.s.console("has_slave 1") != "has_slave done: 1\r\n":
            return "console answer"
    elif way == "rpc":
        if r.s.rpc("has_slave 1") != "has_slave done: 1\r\n":
            return "rpc answer"
    elif way == "modbus":
        us.append(w.net.socket_class())
        us[-1].connect(("127.0.0.1", 1502))
    elif way.startswith("quit") or way == "after-quit":
        a = (r.s.rpc if way == "quit-rpc" else r.s.console)("quit")
        if a != "bye-bye\r\n":
            return "quit is answered %r" % a
        w.block(lambda: not r.s.alive(), 1.0)
        if r.s.alive():
            return "the simulator goes on after quit"
        if way == "after-quit":
            w.stdin.type("quit\n")
            u = simu.RpcUser(w)
            us.append(u)
            u.send("quit\r\n")
            u2 = simu.RpcUser(w)
            us.append(u2)
            u2.send("remove_all_slaves\r\n")
            w.sleep(0.2)
    elif way == "slow-console":
        w.stdin.type("slow 1.2\n")
        w.sleep(0.1)
    elif way == "slow-rpc":
        u = simu.RpcUser(w)
        us.append(u)
        u.send("slow 1.2\r\n")
        w.sleep(0.1)
    elif way == "many":
        for i in range(4):
            us.append(simu.RpcUser(w))
            us[-1].send("has_slave %d\r\n" % i)
        w.stdin.type("has_slave 1\n")
    elif way.startswith("silent") or way == "partial":
        # RPC clients which stay connected and say nothing, or not all
        for i in range(3 if way == "silent-3" else 1):
            us.append(simu.RpcUser(w))
            if way == "partial":
                us[-1].send("has_sl")
        w.sleep(0.1)
    if how == "quit-close" and r.s.alive():
        w.stdin.type("quit\n")
        w.block(lambda: not r.s.alive(), 8.0)
    e = r.close(12.0)
    if e:
        return e
    if how == "close-twice":
        e = r.close(12.0)
        if e:
            return "the second time " + e
    for u in us:
        u.close()
    if r.s.alive():
        # whoever closes the simulator without quit ends its command loop
        r.s.sim.inq.put("quit")
        w.block(lambda: not r.s.alive(), 8.0)
    e = None
    if how != "fast":
        # nobody waits for the answer to a command: everything ends with close
        quiet = way in ("idle", "console", "rpc", "modbus", "quit-console", "quit-rpc", "fail", "new")
        e = (r.left(1.0) if quiet else None) or r.left()
    if e:
        return "after close(): " + e
    for n in (2, 3):
        try:
            r2 = Rig(w, lib, kind)
        except Exception as exc:   # noqa
            return "simulator %d cannot be created: %r" % (n, exc)
        r2.s.start()
        if not r2.s.alive():
            return "simulator %d ended at once (%r)" % (n, r2.s.exc)
        e = r2.works()
        if e:
            return "simulator %d does not work: %s" % (n, e)
        w.stdin.type("quit\n")
        w.block(lambda: not r2.s.alive(), 5.0)
        e = r2.close() or r2.left()
        if e:
            return "simulator %d: %s" % (n, e)
    return None


def lives(ctx, kind, way):
    case_loop(ctx, [(kind, way, how) for how in CLOSES if not (way in ("new", "fail") and how == "quit-close")], life)


@sched.scenario(REG, bound=(1, 2), cap=1, only=MODS, free=False)
def closing(w, lib, out, kind, when):
    r = Rig(w, lib, kind)
    w.trace = w.want_trace and when == "starting"
    r.s.task = w.spawn(lambda: r.s.sim.start(), "SIM", foreground=False)
    if when == "starting":
        w.stdin.type("has_slave 1\n")
        w.block(lambda: "\n" in w.stdout.text, 10.0)
    else:
        w.sleep(1.0)
        w.trace = w.want_trace
        w.stdin.type("quit\n")
        w.block(lambda: r.s.task.done, 10.0)
    e = r.close(12.0)
    w.trace = False
    if r.s.alive():
        r.s.sim.inq.put("quit")
        w.block(lambda: not r.s.alive(), 8.0)
    e = e or r.left()
    if e:
        out.fail(e)
        return
    r2 = Rig(w, lib, kind)
    r2.s.start()
    e = r2.works()
    w.stdin.type("quit\n")
    w.block(lambda: not r2.s.alive(), 5.0)
    e = e or r2.close() or r2.left()
    if e:
        out.fail("the next simulator: " + e)
    out.outcome = (kind, when)


def top(ctx, args):
    sched.root(ctx, REG, "closing", args)


def sub(ctx, name, args, bound, prefixes):
    sched.sub(ctx, REG, name, args, bound, prefixes)


def jobs(tier, seed):
    js = [("lives", (k, x)) for k in ("tcp", "composite") for x in LIVES]
    js += [("top", ((k, x),)) for k in ("tcp", "composite") for x in ("starting", "quit")]
    return js
