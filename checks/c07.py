"""C07: the TCP server answers each request once, in order, however the bytes arrive.

A real TcpServer runs in the simulated world (virtual time, simulated sockets, its own thread); raw clients deliver
request streams in every segmentation / delivery order within the bounds, and every connection's reply stream is
compared byte for byte with the reference model's.
"""
import gc
import itertools

from mc import loader, ref, tcp
from mc.world import World

BOUNDS = ("streams of 1-3 pipelined requests over all function codes (also refused, absent-slave and broadcast ones); "
          "every segmentation into <=3 segments and byte-by-byte, gaps 0 / 0.02 / 0.3 / 0.6 / 0.9 s (the server waits 1 s for the next byte); two and three connections with every "
          "order of delivery of their segments; 2400 requests on a "
          "connection; client receive windows of 1..16 bytes; "
          "thorough: <=4 segments, more streams")


def P(*b):
    return bytes(b)


R = {
    "rh": (1, P(3, 0, 2, 0, 3)),
    "rc": (1, P(1, 0, 0, 0, 11)),
    "rd": (1, P(2, 0, 3, 0, 9)),
    "ri": (2, P(4, 0, 0, 0, 2)),
    "big": (1, P(4, 0, 0, 0, 125)),
    "wr": (1, P(6, 0, 5, 0x12, 0x34)),
    "wc": (2, P(5, 0, 1, 0xFF, 0)),
    "wmr": (1, P(16, 0, 0, 0, 2, 4, 0, 9, 0x80, 1)),
    "wmc": (1, P(15, 0, 2, 0, 10, 2, 0xA5, 1)),
    "mask": (1, P(22, 0, 3, 0x0F, 0xF0, 0, 0x25)),
    "rw": (2, P(23, 0, 0, 0, 3, 0, 1, 0, 2, 4, 7, 7, 8, 8)),
    "bad": (1, P(3, 0, 38, 0, 5)),
    "badfc": (1, P(99, 1, 2)),
    "absent": (9, P(3, 0, 0, 0, 1)),
    "bcast": (0, P(6, 0, 7, 0, 77)),
    "st": (1, P(7)),
}
STREAMS = [("rh",), ("wmr",), ("big",), ("badfc",), ("rw",), ("rh", "wr"), ("wr", "rh"), ("bad", "rc"), ("absent", "rd"),
           ("bcast", "rh"), ("wmc", "rc"), ("rc", "rw"), ("mask", "rh"), ("wc", "ri"), ("bad", "badfc"), ("big", "big"),
           ("rh", "wr", "rh"), ("absent", "bcast", "st")]
MULTI = [(("rh",), ("ri",)), (("wr",), ("rw",)), (("rh", "wr"), ("ri",)), (("bad",), ("wc", "ri")), (("bcast",), ("rc",)),
         (("rh",), ("absent", "ri")), (("big",), ("big",))]


def stream(dev, names, tid0):
    data, exp = b"", []
    for k, n in enumerate(names):
        unit, pdu = R[n]
        tid = (tid0 + k * 0x0101) & 0xFFFF
        proto = 0
        data += ref.mbap(tid, unit, pdu, proto)
        e = dev.reply(tid, unit, pdu, proto)
        if e:
            exp.append(e)
    return data, exp


def splits(n, k):
    for cuts in itertools.combinations(range(1, n), k - 1):
        yield cuts


def pieces(data, cuts):
    b = (0,) + tuple(cuts) + (len(data),)
    return [data[b[i]:b[i + 1]] for i in range(len(b) - 1)]


def in_world(ctx, body, max_time=10 ** 9):
    if gc.get_count()[0] > 400000:
        gc.collect()        # (the collector is off: it never runs within the code under test)
    w = World(None, max_steps=10 ** 9, max_time=max_time)
    lib = loader.Lib(w.fakes)
    w.spawn(lambda: body(w, lib), "main")
    v = w.run()
    if v:
        ctx.fail("the code under test does not come back: %s %s" % (v, w.detail), getattr(ctx, "cur", None))
    for t in w.tasks:
        if t.exc is not None:
            if type(t.exc).__name__ == "StopJob":
                raise t.exc
            raise t.exc


def seg(ctx, names, kinds):
    """one connection, every segmentation"""
    def body(w, lib):
        w.net.points = False
        dev = tcp.Device(w, lib, slaves=(1, 2))
        dev.srv.start()
        w.sleep(0.01)
        n = len(stream(tcp_probe(w, lib), names, 0)[0])
        tid = 0xFFF0
        for kind, k, gap in kinds:
            cutsets = splits(n, k) if kind == "split" else [tuple(range(1, n))]
            for cuts in cutsets:
                cl = tcp.Client(w)
                tid = (tid + 3) & 0xFFFF
                data, exp = stream(dev, names, tid)
                for i, piece in enumerate(pieces(data, cuts)):
                    if i and gap:
                        w.sleep(gap)
                    cl.send(piece)
                w.sleep(0.05)
                err = tcp.match(exp, cl.drain())
                ctx.trans(len(cuts) + 1)
                ctx.state(("seg", names, cuts, gap))
                ctx.trace()
                case = {"requests": names, "stream": data.hex(), "cuts": cuts, "gap": gap}
                ctx.sample(case)
                if err is None and cl.eof():
                    err = "the server closed the connection"
                if err is None:
                    err = dev.state_error()
                if err:
                    ctx.fail(err, case)
                    cl.close()
                    dev = None
                    return
                cl.close()
                w.sleep(0.001)
        dev.srv.stop()
    in_world(ctx, body)


def tcp_probe(w, lib):
    class D(object):
        models = {}

        def reply(self, *a):
            return b""
    return D()


def multi(ctx, pair, nseg, gap):
    """several connections: every order of delivery of their segments, every 2-cut per connection at header edges"""
    def body(w, lib):
        w.net.points = False
        dev = tcp.Device(w, lib, slaves=(1, 2))
        dev.srv.start()
        w.sleep(0.01)
        tid = 100
        lens = [len(stream(tcp_probe(w, lib), names, 0)[0]) for names in pair]

        def cutsof(n):
            c = sorted({1, 5, 6, 7, 8, n // 2, n - 1})
            return [(x,) for x in c if 0 < x < n] + [()]
        for cuts in itertools.product(*[cutsof(n) for n in lens]):
            counts = [len(c) + 1 for c in cuts]
            for order in orders(counts):
                cls = [tcp.Client(w) for _ in pair]
                sts = []
                for names in pair:
                    tid = (tid + 7) & 0xFFFF
                    sts.append((tid, names))
                built = [b"".join(ref.mbap((t + k * 0x0101) & 0xFFFF, R[n][0], R[n][1]) for k, n in enumerate(names))
                         for t, names in sts]
                ps = [pieces(b, c) for b, c in zip(built, cuts)]
                pos = [0] * len(pair)
                first = True
                for who in order:
                    if not first and gap:
                        w.sleep(gap)
                    first = False
                    cls[who].send(ps[who][pos[who]])
                    pos[who] += 1
                w.sleep(0.05)
                case = {"connections": pair, "cuts": cuts, "order": order, "gap": gap}
                ctx.state(("multi", pair, cuts, order, gap))
                ctx.trans(len(order))
                ctx.trace()
                ctx.sample(case, 1)
                err = None
                # the streams of a pair touch disjoint data, so the expected replies do not depend on the order
                for i, (t, names) in enumerate(sts):
                    _, exp = stream(dev, names, t)
                    e = tcp.match(exp, cls[i].drain())
                    if e is None and cls[i].eof():
                        e = "the server closed the connection"
                    if e:
                        err = err or "connection %d: %s" % (i, e)
                err = err or dev.state_error()
                for c in cls:
                    c.close()
                w.sleep(0.001)
                if err:
                    ctx.fail(err, case)
                    return
        dev.srv.stop()
    in_world(ctx, body)


def orders(counts):
    """all interleavings of segment deliveries"""
    if not any(counts):
        yield ()
        return
    for i, c in enumerate(counts):
        if c:
            rest = counts[:i] + [c - 1] + counts[i + 1:]
            for o in orders(rest):
                yield (i,) + o


def window(ctx, names, cap):
    """the client's receive window holds `cap` bytes; it reads `cap` bytes every 2 ms"""
    def body(w, lib):
        w.net.points = False
        dev = tcp.Device(w, lib, slaves=(1, 2))
        dev.srv.start()
        w.sleep(0.01)
        cl = tcp.Client(w, cap=cap)
        data, exp = stream(dev, names, 5)
        cl.send(data)
        for _ in range(700):
            w.sleep(0.002)
            cl.drain()
        ctx.state(("win", names, cap))
        ctx.trans()
        ctx.trace()
        err = tcp.match(exp, cl.drain()) or ("the server closed the connection" if cl.eof() else None)
        if err:
            ctx.fail("slow reader: " + err, {"requests": names, "window": cap})
        cl.close()
        dev.srv.stop()
    in_world(ctx, body)


def windows(ctx):
    for names in (("rh",), ("big",), ("wr", "rh"), ("bad",), ("big", "rh")):
        for cap in range(1, 17):
            window(ctx, names, cap)


def values(ctx, part, nparts):
    """every transaction id byte pattern and unit id is echoed"""
    def body(w, lib):
        w.net.points = False
        dev = tcp.Device(w, lib, slaves=tuple(range(1, 256)) if part == 0 else (1, 2))
        dev.srv.start()
        w.sleep(0.01)
        cl = tcp.Client(w)
        todo = []
        if part == 0:
            todo = [(u * 257 & 0xFFFF, u, 0) for u in range(1, 256)]
        elif part == 1:
            todo = [(t, 1, 0) for t in list(range(0, 256)) + [x << 8 for x in range(256)] + [0xFFFF, 0xFFFE, 0x8001]]
        else:
            todo = [(3, 1, p) for p in (1, 0xFF, 0x100, 0xFFFF)]
        for tid, unit, proto in todo:
            pdu = P(3, 0, 1, 0, 2)
            err = tcp.one(w, dev, cl, tid, unit, pdu, proto=proto)
            ctx.state((tid, unit, proto))
            ctx.trans()
            ctx.trace()
            if err:
                ctx.fail(err, {"tid": tid, "unit": unit, "proto": proto})
                return
        dev.srv.stop()
    in_world(ctx, body)


def sizes(ctx):
    """every request size a PDU can have (1..253 bytes), in one piece, split in the middle, and pipelined with a second"""
    def body(w, lib):
        w.net.points = False
        dev = tcp.Device(w, lib, slaves=(1, 2))
        dev.srv.start()
        w.sleep(0.01)
        for n in range(1, 254):
            cl = tcp.Client(w)
            if n >= 8 and n % 2 == 0 and (n - 6) // 2 <= 40:
                k = (n - 6) // 2
                pdu = bytes([16, 0, 0, 0, k, 2 * k]) + bytes((i * 5 + n) & 0xFF for i in range(2 * k))
            else:
                pdu = bytes([99]) + bytes(n - 1)
            for mode in range(3):
                f1 = ref.mbap(n, 1, pdu)
                e1 = dev.reply(n, 1, pdu)
                before = len(cl.drain())
                f2, exp = b"", [e1]
                if mode == 2:
                    f2 = ref.mbap(n + 1000, 2, P(3, 0, 0, 0, 1))
                    exp.append(dev.reply(n + 1000, 2, P(3, 0, 0, 0, 1)))
                if mode == 1:
                    cl.send(f1[:len(f1) // 2])
                    w.sleep(0.1)
                    cl.send(f1[len(f1) // 2:])
                else:
                    cl.send(f1 + f2)
                w.sleep(0.02)
                ctx.state((n, mode))
                ctx.trans()
                ctx.trace()
                err = tcp.match(exp, cl.drain()[before:])
                if err:
                    ctx.fail(err, {"pdu_size": n, "mode": mode})
                    return
            cl.close()
            w.sleep(0.001)
        err = dev.state_error()
        if err:
            ctx.fail(err, {"sizes": True})
        dev.srv.stop()
    in_world(ctx, body)


def soak(ctx, mode):
    """thousands of requests on one connection: one by one, or pipelined in blobs of 5 / 60 / 400 requests"""
    def body(w, lib):
        w.net.points = False
        dev = tcp.Device(w, lib, slaves=(1, 2))
        dev.srv.start()
        w.sleep(0.01)
        names = sorted(R)
        cl = tcp.Client(w)
        k = 0
        for i in range(2400 // mode):
            data = b""
            exp = []
            for j in range(mode):
                unit, pdu = R[names[(k * 7 + k // 16) % len(names)]]
                tid = (k * 31 + 5) & 0xFFFF
                data += ref.mbap(tid, unit, pdu)
                e = dev.reply(tid, unit, pdu)
                if e:
                    exp.append(e)
                k += 1
            seen = len(cl.drain())
            cl.send(data)
            w.sleep(0.01 if mode < 400 else 1.0)
            err = tcp.match(exp, cl.drain()[seen:])
            if err is None and cl.eof():
                err = "the server closed the connection"
            ctx.state(("soak", mode, i))
            ctx.trans(mode)
            if err is None and i % 20 == 0:
                err = dev.state_error()
            if err:
                ctx.fail("request %d on a connection: %s" % (k, err), {"requests": k, "pipelined": mode})
                return
        ctx.trace()
        dev.srv.stop()
    in_world(ctx, body)


def cfg(ctx, i, name, args):
    tcp.configured(i, globals()[name], ctx, *args)


def jobs(tier, seed):
    th = tier == "thorough"
    out = []
    for names in STREAMS:
        kinds = [("split", 1, 0), ("split", 2, 0), ("split", 2, 0.3), ("bytes", 0, 0), ("bytes", 0, 0.02)]
        kinds += [("split", 2, 0.9), ("bytes", 0, 0.4), ("bytes", 0, 0.9)]
        out.append(("seg", (names, tuple(kinds))))
        out.append(("seg", (names, (("split", 3, 0.7 if th else 0.6),))))
        out.append(("seg", (names, (("split", 3, 0), ("split", 3, 0.3)))))
        if th and len(names) < 3:
            out.append(("seg", (names, (("split", 4, 0.2),))))
    if th:
        for a, b in itertools.product(sorted(R), repeat=2):
            if (a, b) not in STREAMS:
                out.append(("seg", ((a, b), (("split", 1, 0), ("split", 2, 0.3), ("split", 3, 0)))))
    for pair in MULTI:
        for gap in (0, 0.2):
            out.append(("multi", (pair, 2, gap)))
    if th:
        out.append(("multi", ((("rh",), ("ri",), ("wc",)), 2, 0.1)))
        out.append(("multi", ((("rh", "wr"), ("ri",), ("bcast",)), 2, 0)))
    out.append(("windows", ()))
    out.append(("sizes", ()))
    out += [("soak", (m,)) for m in (1, 5, 60, 400)]
    for p in range(3):
        out.append(("values", (p, 3)))
    out += [("cfg", (i, n, a)) for i in range(1, len(tcp.CONFIGS)) for n, a in list(out)]
    return out
