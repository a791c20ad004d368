"""Conformance of the controlled world: every operation script up to a depth is run on the fakes and on the real thing.

  conformance.py tcp [depth]      both ends of a connection: fake sockets  /  real sockets on the loopback network
  conformance.py listen [depth]   bind, listen, connect, accept, close, rebind (with and without SO_REUSEADDR)
  conformance.py serial [depth]   fake serial port  /  pyserial on a pty
  conformance.py timed            blocking calls while the other end, or another thread, acts at set moments
  conformance.py threading [depth]  fake Lock/RLock/Condition/Event/Semaphore/Queue  /  the real ones (non-blocking scripts)

Prints the number of scripts compared and every script whose outcomes differ; exit 1 if any does.
"""
import errno
import itertools
import os
import select
import socket
import struct
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.world import World      # noqa


def outcome(f):
    try:
        r = f()
    except OSError as e:
        return "%s:%s" % (type(e).__name__, errno.errorcode.get(e.errno, e.errno))
    except Exception as e:      # noqa
        return type(e).__name__
    return r


def in_world(fn):
    w = World()
    w.net.points = False
    box = []
    t = w.spawn(lambda: box.append(fn(w)))
    v = w.run()
    if t.exc is not None:
        raise t.exc
    if v:
        raise SystemExit("world: %s %s" % (v, w.detail))
    return box[0]


def drain(s):
    data = b""
    while True:
        r = outcome(lambda: s.recv(10))
        if not isinstance(r, bytes) or not r:
            return data, r
        data += r


# ------------------------------------------------------------------ connections
TCP_OPS = ["send", "recv1", "drain", "peek", "sel", "shut", "close", "rst"]


def tcp_op(op, s, sel, rst):
    if op == "send":
        return outcome(lambda: s.send(b"ab"))
    if op == "sendall":
        return outcome(lambda: s.sendall(b"ab"))
    if op == "recv1":
        return outcome(lambda: s.recv(1))
    if op == "peek":
        return outcome(lambda: s.recv(1, socket.MSG_PEEK))
    if op == "drain":
        return drain(s)
    if op == "sel":
        return outcome(lambda: tuple(len(x) for x in sel([s], [s], [], 0)[:2]))
    if op == "shut":
        return outcome(lambda: s.shutdown(socket.SHUT_WR))
    if op == "close":
        return outcome(s.close)
    if op == "rst":
        return outcome(lambda: rst(s))
    if op == "fileno":
        return s.fileno() < 0


def run_script(script, a, b, sel, rst):
    return [tcp_op(op, (a, b)[who], sel, rst) for who, op in script]


def scripts(depth):
    alphabet = [(w, o) for w in (0, 1) for o in TCP_OPS]
    for d in range(1, depth + 1):
        for s in itertools.product(alphabet, repeat=d):
            if d < depth and d > 1:
                continue            # prefixes of longer scripts are compared with them
            if s[0][0] == 1:
                continue            # the two ends are symmetric: by convention end 0 begins
            yield s


def real_rst(s):
    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    s.close()


def fake_rst(s):
    s._chk()
    s._reset()


def tcp(depth=4):
    todo = list(scripts(depth))
    real = []
    lst = None
    for k, s in enumerate(todo):
        if k % 4000 == 0:
            if lst:
                lst.close()
            lst = socket.socket()
            lst.bind(("127.0.0.1", 0))
            lst.listen(5)
        a = socket.create_connection(lst.getsockname())
        b, _ = lst.accept()
        for x in (a, b):
            x.setblocking(False)
            x.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        real.append(run_script(s, a, b, select.select, real_rst))
        for x in (a, b):
            if x.fileno() >= 0:
                real_rst(x)
    lst.close()

    def fakes(w):
        sk = w.fakes["socket"]
        l2 = sk.socket()
        l2.bind(("127.0.0.1", 502))
        l2.listen(5)
        out = []
        for s in todo:
            a = sk.create_connection(("127.0.0.1", 502))
            b, _ = l2.accept()
            a.setblocking(False)
            b.setblocking(False)
            out.append(run_script(s, a, b, w.fakes["select"].select, fake_rst))
            for x in (a, b):
                if x.fileno() >= 0:
                    fake_rst(x)
            del w.net.socks[1:]
            w.now += 1.0
        return out
    fake = in_world(fakes)
    return compare("tcp depth %d" % depth, todo, real, fake)


def compare(name, todo, real, fake):
    bad = [(s, r, f) for s, r, f in zip(todo, real, fake) if r != f]
    print("%s: %d scripts, %d differ" % (name, len(todo), len(bad)))
    seen = set()
    for s, r, f in bad:
        k = next(i for i in range(len(r)) if r[i] != f[i])
        sig = (s[k][-1] if isinstance(s[k], tuple) else s[k], repr(r[k]), repr(f[k]), tuple(s[:k]) if k < 3 else ())
        if sig in seen:
            continue
        seen.add(sig)
        if len(seen) <= 25:
            print("  %s\n     real %r\n     fake %r" % (" ".join("%s" % ("/".join(map(str, o)) if isinstance(o, tuple) else o)
                                                               for o in s[:k + 1]), r[:k + 1], f[:k + 1]))
    return not bad


# ------------------------------------------------------------------ listeners
LISTEN_OPS = ["bind", "reuse", "listen", "connect", "connect2", "accept", "lsel", "lclose", "new", "cclose", "sclose",
              "csend", "crecv"]


def listen_script(script, mk, sel, port):
    st = {"l": mk(), "c": None, "s": None, "all": []}
    st["all"].append(st["l"])

    def op(o):
        if o == "bind":
            return outcome(lambda: st["l"].bind(("127.0.0.1", port)))
        if o == "reuse":
            return outcome(lambda: st["l"].setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1))
        if o == "listen":
            if outcome(lambda: st["l"].getsockname()[1]) != port:
                return "skipped"
            return outcome(lambda: st["l"].listen(5))
        if o in ("connect", "connect2"):
            c = mk()
            st["all"].append(c)
            c.settimeout(1.0)
            r = outcome(lambda: c.connect(("127.0.0.1", port)))
            c.setblocking(False)
            if r is None:
                st["c"] = c
            return r
        if o == "accept":
            st["l"].settimeout(0.0) if st["l"].fileno() >= 0 else None

            def acc():
                s, _ = st["l"].accept()
                s.setblocking(False)
                st["all"].append(s)
                st["s"] = s
                return "conn"
            return outcome(acc)
        if o == "lsel":
            return outcome(lambda: len(sel([st["l"]], [], [], 0)[0]) if st["l"].fileno() >= 0 else "closed")
        if o == "lclose":
            return outcome(st["l"].close)
        if o == "new":
            st["l"] = mk()
            st["all"].append(st["l"])
            return None
        if o == "cclose":
            return outcome(st["c"].close) if st["c"] else "-"
        if o == "sclose":
            return outcome(st["s"].close) if st["s"] else "-"
        if o == "csend":
            return outcome(lambda: st["c"].send(b"x")) if st["c"] else "-"
        if o == "crecv":
            return outcome(lambda: st["c"].recv(1)) if st["c"] else "-"
    out = [op(o) for o in script]
    return out, st["all"]


def listen(depth=4):
    """scripts begin with bind, listen (with or without the option): the rest is enumerated"""
    tails = list(itertools.product([o for o in LISTEN_OPS if o not in ("listen", "connect2")], repeat=depth))
    heads = [["bind", "listen"], ["reuse", "bind", "listen"], ["reuse", "bind", "listen", "connect", "accept"],
             ["bind", "listen", "connect", "accept"]]
    ends = [["bind"], ["new", "bind"], ["new", "reuse", "bind", "listen", "connect"]]
    todo = [tuple(h) + t + tuple(e) for h in heads for t in tails for e in ends]
    real = []
    used = [20000]

    def fresh():
        # a port nobody used: TIME_WAIT of earlier scripts must not show
        while True:
            used[0] += 1
            if used[0] > 60000:
                used[0] = 20001
            with socket.socket() as x:
                try:
                    x.bind(("127.0.0.1", used[0]))
                    return used[0]
                except OSError:
                    continue
    for s in todo:
        out, socks = listen_script(s, socket.socket, select.select, fresh())
        for x in socks:
            if x.fileno() >= 0:
                real_rst(x)
        real.append(out)

    def fakes(w):
        out = []
        for k, s in enumerate(todo):
            o, socks = listen_script(s, w.fakes["socket"].socket, w.fakes["select"].select, 502 + k)
            for x in socks:
                if x.fileno() >= 0:
                    x.close()
            del w.net.socks[:]
            out.append(o)
        return out
    return compare("listen depth %d" % depth, todo, real, in_world(fakes))


# ------------------------------------------------------------------ serial port
SER_OPS = ["open", "close", "isopen", "feed", "read1", "read4", "waiting", "flush_in", "cancel", "write", "out"]


def serial_script(script, port, feed, out):
    got = []
    for o in script:
        if o == "open":
            r = outcome(port.open)
        elif o == "close":
            r = outcome(port.close)
        elif o == "isopen":
            r = outcome(lambda: port.is_open)
        elif o == "feed":
            feed(b"xyz")
            r = None
        elif o == "read1":
            r = outcome(lambda: port.read(1))
        elif o == "read4":
            r = outcome(lambda: port.read(4))
        elif o == "waiting":
            r = outcome(lambda: port.in_waiting)
        elif o == "flush_in":
            r = outcome(port.reset_input_buffer)
        elif o == "cancel":
            r = outcome(port.cancel_read)
        elif o == "write":
            r = outcome(lambda: port.write(b"w"))
        elif o == "out":
            r = out()
        if isinstance(r, str) and (r.startswith("Serial") or r.startswith("PortNotOpen") or r.startswith("TypeError") or r.startswith("AttributeError")):
            r = "error"          # pyserial's exception classes differ from the fake's: an error is an error
        got.append(r)
    return got


def serial(depth=4):
    import pty
    import tty
    import serial as ps
    from mc.fserial import FakeSerial
    todo = [s for s in itertools.product(SER_OPS, repeat=depth)]
    heads = [(), ("open",)]
    todo = [h + s for h in heads for s in todo]
    real = []
    for s in todo:
        m, sl = pty.openpty()
        tty.setraw(sl)
        tty.setraw(m)
        port = ps.Serial(timeout=0.002)
        port.port = os.ttyname(sl)

        def feed(d):
            if not port.is_open:
                return              # bytes on a closed line are lost: a pty would keep them
            before = port.in_waiting
            os.write(m, d)
            n = time.time() + 0.2
            while port.in_waiting < before + len(d) and time.time() < n:     # the pty delivers asynchronously
                time.sleep(0.0001)

        def out():
            d = b""
            n = len(wrote)
            del wrote[:]
            while len(d) < n and select.select([m], [], [], 0.2)[0]:
                d += os.read(m, 100)
            return d
        write = port.write
        wrote = []

        def counted(data):
            n = write(data)
            wrote.append(n)
            return n
        port.write = counted
        real.append(serial_script(s, port, feed, out))
        if port.is_open:
            port.close()
        os.close(m)
        os.close(sl)

    def fakes(w):
        res = []
        for s in todo:
            port = FakeSerial(w, timeout=0.002)
            pos = [0]

            def out():
                d = b"".join(port.written[pos[0]:])
                pos[0] = len(port.written)
                return d
            res.append(serial_script(s, port, port.feed, out))
        return res
    return compare("serial depth %d" % depth, todo, real, in_world(fakes))


# ------------------------------------------------------------------ threading, queue
def threading_scripts(mod, queue, kind, script):
    if kind == "lock":
        o = mod.Lock()
        ops = {"acq": lambda: o.acquire(False), "rel": o.release, "locked": o.locked,
               "acqt": lambda: o.acquire(timeout=0.001), "enter": lambda: o.__enter__() if not o.locked() else "skip",
               "bad": lambda: o.acquire(False, 1)}
    elif kind == "rlock":
        o = mod.RLock()
        ops = {"acq": lambda: o.acquire(False), "rel": o.release, "owned": o._is_owned,
               "acqt": lambda: o.acquire(timeout=0.001), "enter": lambda: o.__enter__(), "exit": lambda: o.__exit__(None, None, None)}
    elif kind == "cond":
        o = mod.Condition()
        ops = {"acq": lambda: o.acquire(), "rel": o.release, "wait": lambda: o.wait(0.001), "notify": o.notify,
               "all": o.notify_all, "waitfor": lambda: o.wait_for(lambda: False, 0.001)}
    elif kind == "event":
        o = mod.Event()
        ops = {"set": o.set, "clear": o.clear, "is": o.is_set, "wait": lambda: o.wait(0.001)}
    elif kind == "sem":
        o = mod.Semaphore(1)
        ops = {"acq": lambda: o.acquire(False), "rel": o.release, "acqt": lambda: o.acquire(timeout=0.001)}
    elif kind == "bsem":
        o = mod.BoundedSemaphore(1)
        ops = {"acq": lambda: o.acquire(False), "rel": o.release, "acqt": lambda: o.acquire(timeout=0.001)}
    elif kind == "queue":
        o = queue.Queue(2)
        n = itertools.count()
        ops = {"put": lambda: o.put_nowait(next(n)), "get": o.get_nowait, "size": o.qsize, "empty": o.empty, "full": o.full,
               "done": o.task_done, "gett": lambda: o.get(True, 0.001), "putt": lambda: o.put(next(n), True, 0.001)}
    elif kind == "thread":
        ran = []
        o = mod.Thread(target=lambda: ran.append(1))
        ops = {"start": o.start, "join": lambda: o.join(1.0) if o.ident is not None else o.join(), "alive": lambda: (o.join(0.5) if o.ident else None, o.is_alive())[1],
               "daemon": lambda: setattr(o, "daemon", True), "isd": lambda: o.daemon, "ran": lambda: (o.join() if o.ident else None, len(ran))[1],
               "ident": lambda: o.ident is None}
    elif kind == "local":
        o = mod.local()
        ops = {"set": lambda: setattr(o, "x", 1), "get": lambda: getattr(o, "x", None), "del": lambda: delattr(o, "x")}
    if script is None:
        return list(ops)
    return [outcome(ops[s]) for s in script]


KINDS = ["lock", "rlock", "cond", "event", "sem", "bsem", "queue", "thread", "local"]


def threading_(depth=5):
    import threading
    import queue
    ok = True
    for kind in KINDS:
        names = threading_scripts(threading, queue, kind, None)
        d = depth if len(names) <= 6 else depth - 1
        if kind == "thread":
            d = min(d, 4)
        todo = list(itertools.product(names, repeat=d))
        real = [threading_scripts(threading, queue, kind, s) for s in todo]

        def fakes(w):
            from mc import loader
            th = w.fakes["threading"]
            q = loader.Loader(w.fakes)._import("queue")
            return [threading_scripts(th, q, kind, s) for s in todo]
        ok = compare("%s depth %d" % (kind, d), todo, real, in_world(fakes)) and ok
    return ok


# ------------------------------------------------------------------ blocking calls
UNIT = 0.06
WAITS = ["recv", "recv0.5", "peekall", "select", "selw", "sendbig", "accept", "connect", "waitall"]
ACTS = ["send", "close", "rst", "shut", "recvall", "connect"]
SER_WAITS = ["read1", "read4", "read0", "readforever"]
SER_ACTS = ["feed", "cancel", "close", "feed4"]
TH_WAITS = ["lock", "lockt", "cond", "condt", "event", "eventt", "join", "joint", "queue", "queuet", "sleep"]
TH_ACTS = ["release", "notify", "set", "end", "put"]


def timed_scripts():
    for w in WAITS:
        for n in (0, 1, 2):
            for acts in itertools.product(ACTS, repeat=n):
                yield "tcp", w, acts
    for w in SER_WAITS:
        for n in (0, 1, 2):
            if w == "readforever" and not n:
                continue
            for acts in itertools.product(SER_ACTS, repeat=n):
                if w == "readforever" and not set(acts) & {"cancel", "feed4"}:
                    continue
                yield "serial", w, acts
    for w in TH_WAITS:
        for acts in [()] + [(a,) for a in TH_ACTS]:
            if w in ("lock", "cond", "event", "join", "queue") and acts != {"lock": ("release",), "cond": ("notify",), "event": ("set",),
                                                                "join": ("end",), "queue": ("put",)}[w]:
                continue
            yield "threading", w, acts


def timed_one(env, script):
    """env: socket, select, threading, queue, time, serial() -> (port, feed)"""
    kind, wait, acts = script
    T = env["time"]
    out = []
    if kind == "tcp":
        S = env["socket"]
        lst = S.socket()
        lst.bind(("127.0.0.1", 0))
        lst.listen(5)
        addr = lst.getsockname()
        a = S.create_connection(addr) if wait != "recv0.5" else S.create_connection(addr, 0.5 * UNIT)
        b, _ = lst.accept()
        if wait != "recv0.5":
            a.settimeout(2 * UNIT)
        lst.settimeout(2 * UNIT)
        extra = []

        def act(x):
            if x == "send":
                return outcome(lambda: b.send(b"ab"))
            if x == "close":
                return outcome(b.close)
            if x == "rst":
                return outcome(lambda: env["rst"](b))
            if x == "shut":
                return outcome(lambda: b.shutdown(socket.SHUT_WR))
            if x == "recvall":
                return outcome(lambda: (b.settimeout(0.0), len(drain(b)[0]) > 0)[1])
            if x == "connect":
                c = S.socket()
                extra.append(c)
                return outcome(lambda: c.connect(addr))

        def do():
            if wait.startswith("recv"):
                return outcome(lambda: a.recv(10))
            if wait == "peekall":
                return outcome(lambda: (a.recv(10, socket.MSG_PEEK), a.recv(10)))
            if wait == "select":
                return outcome(lambda: tuple(len(x) for x in env["select"].select([a], [], [], 2 * UNIT)))
            if wait == "selw":
                return outcome(lambda: tuple(len(x) for x in env["select"].select([a, lst], [], [], 2 * UNIT)))
            if wait == "waitall":
                return outcome(lambda: a.recv(3, socket.MSG_WAITALL))
            if wait == "accept":
                r = outcome(lambda: lst.accept()[0])
                if not isinstance(r, str):
                    extra.append(r)
                    r = "conn"
                return r
            if wait == "connect":
                c = S.socket()
                extra.append(c)
                c.settimeout(UNIT)
                return outcome(lambda: c.connect(addr))
            if wait == "sendbig":
                if env["fake"]:
                    return outcome(lambda: a.sendall(b"x" * 10))
                return outcome(lambda: a.sendall(b"x" * 10))
        end = lambda: [x.close() for x in [lst, a, b] + extra]     # noqa
    elif kind == "serial":
        port, feed, done = env["serial"]()
        port.timeout = None if wait == "readforever" else 2 * UNIT

        def act(x):
            if x == "feed":
                return feed(b"12")
            if x == "feed4":
                return feed(b"1234")
            if x == "cancel":
                return outcome(port.cancel_read)
            if x == "close":
                if wait == "readforever":
                    return "skipped"
                return None

        def do():
            n = {"read1": 1, "read4": 4, "read0": 0, "readforever": 4}[wait]
            return outcome(lambda: port.read(n))
        end = done
    else:
        M = env["threading"]
        lock, cond, ev, q = M.Lock(), M.Condition(), M.Event(), env["queue"].Queue()
        go = M.Event()
        thr = M.Thread(target=go.wait)
        thr.start()
        lock.acquire()

        def act(x):
            if x == "release":
                return outcome(lock.release)
            if x == "notify":
                def n():
                    with cond:
                        cond.notify()
                return outcome(n)
            if x == "set":
                return outcome(ev.set)
            if x == "end":
                return outcome(go.set)
            if x == "put":
                return outcome(lambda: q.put(1))

        def do():
            if wait == "lock":
                return outcome(lock.acquire)
            if wait == "lockt":
                return outcome(lambda: lock.acquire(timeout=2 * UNIT))
            if wait in ("cond", "condt"):
                def c():
                    with cond:
                        return cond.wait(2 * UNIT if wait == "condt" else None)
                return outcome(c)
            if wait == "event":
                return outcome(ev.wait)
            if wait == "eventt":
                return outcome(lambda: ev.wait(2 * UNIT))
            if wait == "join":
                return outcome(thr.join)
            if wait == "joint":
                return outcome(lambda: (thr.join(2 * UNIT), thr.is_alive())[1])
            if wait == "queue":
                return outcome(q.get)
            if wait == "queuet":
                return outcome(lambda: q.get(True, 2 * UNIT))
            if wait == "sleep":
                return outcome(lambda: T.sleep(2 * UNIT))

        def end():
            go.set()
            thr.join()

    def other():
        for x in acts:
            T.sleep(0.75 * UNIT)
            out.append(act(x))
    t = env["threading"].Thread(target=other)
    t.daemon = True
    t0 = T.time()
    t.start()
    r = do()
    dt = T.time() - t0
    t.join()
    end()
    return [r, round(dt / (0.25 * UNIT)), out]


def timed():
    import queue
    import threading
    import pty
    import tty
    import serial as ps
    from mc.fserial import FakeSerial
    from mc import loader
    from concurrent.futures import ThreadPoolExecutor
    todo = list(timed_scripts())

    def real_serial():
        m, sl = pty.openpty()
        tty.setraw(sl)
        tty.setraw(m)
        port = ps.Serial(os.ttyname(sl))

        def done():
            port.close()
            os.close(m)
            os.close(sl)
        return port, lambda d: (os.write(m, d), None)[1], done
    env = {"socket": socket, "select": select, "threading": threading, "queue": queue, "time": time, "rst": real_rst,
           "serial": real_serial, "fake": False}
    with ThreadPoolExecutor(6) as ex:
        real = list(ex.map(lambda s: timed_one(env, s), todo))

    def fakes(w):
        def fake_serial():
            port = FakeSerial(w, is_open=True)
            return port, port.feed, port.close
        e = {"socket": w.fakes["socket"], "select": w.fakes["select"], "threading": w.fakes["threading"], "time": w.fakes["time"],
             "queue": loader.Loader(w.fakes)._import("queue"), "rst": fake_rst, "serial": fake_serial, "fake": True}
        out = []
        for k, s in enumerate(todo):
            w.net.timewait.clear()
            out.append(timed_one(e, s))
        return out
    fake = in_world(fakes)
    bad = [k for k in range(len(todo)) if real[k] != fake[k]]
    for _ in range(3):          # the real clock is disturbed by the load: a script differs if it differs three times
        for k in list(bad):
            real[k] = timed_one(env, todo[k])
            if real[k] == fake[k]:
                bad.remove(k)
    print("timed: %d scripts, %d differ" % (len(todo), len(bad)))
    for k in bad[:40]:
        print("  %s %s\n     real %r\n     fake %r" % (todo[k][1], "/".join(todo[k][2]), real[k], fake[k]))
    return not bad


if __name__ == "__main__":
    what = sys.argv[1] if len(sys.argv) > 1 else "all"
    dd = [int(x) for x in sys.argv[2:3]]
    good = True
    for name, fn in (("tcp", tcp), ("listen", listen), ("serial", serial), ("timed", timed), ("threading", threading_)):
        if what in (name, "all"):
            good = fn(*dd) and good
    sys.exit(0 if good else 1)
