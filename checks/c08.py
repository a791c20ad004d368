"""C08: no client can stop or disturb a TCP server.

A real TcpServer in the simulated world serves a healthy client H while a faulty client F plays every script of the
bounded sets below (garbage, truncation, stalls, disconnections at every byte, tiny receive windows), or while a single
operation on one of the server's sockets is made to fail at every possible moment.  Afterwards H and a new client N must
be answered exactly as the reference model prescribes.
"""
import errno
import itertools
import struct

from mc import ref, tcp
from checks.c07 import in_world, P

BOUNDS = ("faulty client: every truncation of 6 requests x {stall, close, reset, half-close}, every length field of "
          "{0..12,20,255..300,0x7FFF,0xFFFF}, every function code with 0..6 data bytes, foreign protocol ids, non-modbus "
          "text, receive windows 0..40; 1/2/5 clients which always have another request waiting; 12/40/150 clients connected at a time; 30/300 one after another; one fault at every server-side socket operation of a 3-client history "
          "(thorough: two faults)")
REQS = [(1, P(3, 0, 2, 0, 3)), (1, P(16, 0, 0, 0, 2, 4, 0, 9, 0x80, 1)), (1, P(4, 0, 0, 0, 125)), (9, P(3, 0, 0, 0, 1)),
        (0, P(6, 0, 7, 0x07, 0xD7)), (1, P(7,))]
HREQ = [(2, P(3, 0, 1, 0, 4)), (2, P(6, 0, 9, 5, 6)), (2, P(1, 0, 0, 0, 9)), (2, P(15, 0, 0, 0, 3, 1, 5)), (2, P(3, 0, 9, 0, 1))]


class Rig(object):
    def __init__(self, w, lib):
        w.net.points = False
        self.w = w
        self.dev = tcp.Device(w, lib, slaves=(1, 2))
        self.dev.srv.start()
        w.sleep(0.01)
        self.h = tcp.Client(w)
        self.k = 0

    def healthy(self, wait=6.0, cl=None):
        """one request of the healthy client"""
        unit, pdu = HREQ[self.k % len(HREQ)]
        self.k += 1
        return tcp.one(self.w, self.dev, cl or self.h, 7000 + self.k, unit, pdu, wait)

    def newcomer(self):
        """a new client connects and is answered"""
        try:
            n = tcp.Client(self.w)
        except OSError as e:
            return "a new client cannot connect: %r" % e
        err = self.healthy(cl=n)
        if err:
            return "a new client is not served: " + err
        n.close()
        return None


def judge_faulty(got, closed, sent):
    """whatever F received must be well-formed reply frames to its own requests; a partial one only before a close"""
    fr, err = tcp.frames(got)
    if err and not closed:
        return "the faulty client received " + err
    for t, p, u, pdu in fr:
        hdr = struct.pack(">HH", t, p)
        ok = any(sent[i:i + 4] == hdr and sent[i + 6] == u for i in range(0, max(0, len(sent) - 6)))
        if not ok:
            return "the faulty client received a frame (tid %d proto %d unit %d) which answers none of its requests" % (t, p, u)
    return None


def play(rig, script, ctx):
    """script: (chunks, gap, ending, window); returns error text or None"""
    chunks, gap, ending, window = script
    w = rig.w
    f = tcp.Client(w, cap=window)
    sent = b""
    for i, c in enumerate(chunks):
        if i:
            w.sleep(gap)
        try:
            f.send(c)
            sent += c
        except OSError:
            break
    if ending == "stall":
        w.sleep(0.001)
    elif ending == "close":
        f.close()
    elif ending == "closelate":
        w.sleep(0.2)
        f.close()
    elif ending == "reset":
        f.reset()
    elif ending == "half":
        f.s.shutdown(1)
    err = rig.healthy()
    if err:
        return "healthy client: " + err
    err = rig.newcomer()
    if err:
        return err
    if ending in ("stall", "half"):
        w.sleep(3.0)
        if window is None:
            f.drain()
        else:
            for _ in range(400):
                f.drain()
                w.sleep(0.001)
        closed = f.eof()
        err = judge_faulty(f.got, closed, sent)
        if err:
            return err
        if not closed and ending == "stall":
            # the connection is still open: it must be usable (complete reply) or be closed now
            n = len(f.got)
            req = ref.mbap(0x4321, 2, P(3, 0, 0, 0, 1))
            exp = rig.dev.reply(0x4321, 2, P(3, 0, 0, 0, 1))
            try:
                f.send(req)
                sent += req
            except OSError:
                pass
            for _ in range(60):
                w.sleep(0.1)
                f.drain()
            closed = f.eof()
            err = judge_faulty(f.got, closed, sent)
            if err:
                return err
            if not closed and f.got[n:][-len(exp):] != exp:
                return "the faulty client's connection is neither closed nor served (sent %s)" % sent.hex()[:80]
        f.close()
    w.sleep(0.01)
    err = rig.healthy()
    return "healthy client: " + err if err else None


def scripts_job(ctx, group, part, nparts):
    items = list(itertools.islice(SETS[group](ctx.thorough), part, None, nparts))

    def body(w, lib):
        rig = Rig(w, lib)
        for s in items:
            err = play(rig, s, ctx)
            ctx.state((group, s))
            ctx.trans(len(s[0]) + 3)
            ctx.trace()
            case = {"chunks": [c.hex()[:120] for c in s[0]], "gap": s[1], "ending": s[2], "window": s[3]}
            ctx.sample(case, 1)
            if err is None:
                # functions that the faulty client may have executed on its slave: reload slave 1's model
                rig.dev.models.pop(1, None)
                err = rig.dev.state_error()
            if err:
                ctx.fail(err, case)
                return
        rig.dev.srv.stop()
        left = w.net.open_sockets()
        left = [x for x in left if x.peer is None or not x.peer.closed]
        ctx.check(not [x for x in left if x.listening], "a listening socket is left open after stop", {"group": group})
    in_world(ctx, body)


ENDS = ("stall", "close", "closelate", "reset", "half")


def s_trunc(th):
    for unit, pdu in REQS:
        f = ref.mbap(0x0102, unit, pdu)
        for n in range(0, min(len(f), 20) + 1):
            for e in ENDS:
                yield ((f[:n],), 0, e, None)
                if n and n < len(f):
                    yield ((f, f[:n]), 0.01, e, None)


def s_length(th):
    for L in list(range(0, 13)) + [20, 255, 256, 259, 260, 261, 300, 0x7FFF, 0xFFFF]:
        for pdu in (P(3, 0, 2, 0, 3), P(16, 0, 0, 0, 2, 4, 0, 9, 0x80, 1), P(3,), b""):
            f = ref.mbap(0x0A0B, 1, pdu, length=L)
            for e in ENDS:
                yield ((f,), 0, e, None)
                yield ((f, ref.mbap(5, 1, P(3, 0, 0, 0, 1))), 0.01, e, None)


def s_fc(th):
    for fc in range(256):
        for n in range(0, 7 if th or fc in (1, 5, 6, 7, 15, 16, 22, 23, 43, 0, 0x80, 0x83, 255) else 2):
            for unit in (1, 0):
                yield ((ref.mbap(fc * 256 + n, unit, bytes([fc]) + bytes([1] * n)),), 0, "stall" if n % 2 else "close", None)


def s_text(th):
    for t in (b"GET / HTTP/1.1\r\nHost: plc\r\n\r\n", b"\0" * 7, b"\0" * 20, b"\xff" * 7, b"\xff" * 300, b"SSH-2.0-x\r\n", b"\x16\x03\x01" * 30,
              b"\0" * 1000, bytes(range(256)), ref.rtu(1, P(3, 0, 0, 0, 1)), b"\0\0\0\0\0\0\0\0", b"\r\n" * 10):
        for e in ENDS:
            yield ((t,), 0, e, None)
            yield ((t, t), 0.3, e, None)
    for proto in (1, 0x0100, 0xFFFF):
        for e in ENDS:
            yield ((ref.mbap(9, 1, P(3, 0, 0, 0, 1), proto),), 0, e, None)
    for e in ENDS:
        yield ((), 0, e, None)
        yield ((ref.mbap(0x0909, 1, P()),), 0, e, None)
        yield ((ref.mbap(0x0909, 0, P()),), 0, e, None)


def s_window(th):
    big = ref.mbap(0x0707, 1, P(4, 0, 0, 0, 125))
    small = ref.mbap(0x0708, 1, P(3, 0, 0, 0, 2))
    for cap in range(1, 41) if th else (1, 2, 6, 7, 8, 13, 14, 40):
        for e in ENDS:
            yield ((big,), 0, e, cap)
            yield ((small, small), 0.01, e, cap)
            yield ((big, big, small), 0.3, e, cap)


SETS = {"trunc": s_trunc, "length": s_length, "fc": s_fc, "text": s_text, "window": s_window}

ERR = {
    "accept": [ConnectionAbortedError(errno.ECONNABORTED, "aborted"), OSError(errno.EMFILE, "too many files"),
               BlockingIOError(errno.EAGAIN, "again"), PermissionError(errno.EPERM, "firewall"), TimeoutError("timed out")],
    "recv": [ConnectionResetError(errno.ECONNRESET, "reset"), TimeoutError("timed out"), BlockingIOError(errno.EAGAIN, "again"),
             OSError(errno.EHOSTUNREACH, "no route")],
    "send": [BrokenPipeError(errno.EPIPE, "pipe"), ConnectionResetError(errno.ECONNRESET, "reset"), TimeoutError("timed out"), 1, 5],
    "close": [OSError(errno.EIO, "io")],
}


def history(w, lib, plan, log):
    """three clients; the plan maps server-side op index -> error choice.  Returns error text"""
    w.net.points = False
    dev = tcp.Device(w, lib, slaves=(1, 2))
    dev.srv.start()
    w.sleep(0.01)
    cnt = [0]
    hit = []

    def fault(op, sock):
        if op not in ERR or sock is None or not (sock.listening or (sock.peer is not None and getattr(sock, "pending", False))):
            return None
        i = cnt[0]
        cnt[0] += 1
        log.append(op)
        if i in plan:
            e = ERR[op][plan[i] % len(ERR[op])]
            hit.append(sock)
            return e
        return None
    w.net.fault = fault
    clients = {}
    k = [0]

    def victim(c):
        return c is not None and c.s.peer in hit

    def lst_hit():
        return any(s.listening for s in hit)

    def connect(name):
        try:
            clients[name] = tcp.Client(w)
        except OSError as e:
            return "client %s cannot connect: %r" % (name, e)
        w.sleep(0.01)
        return None

    def ask(name, what):
        k[0] += 1
        unit, pdu = what
        c = clients[name]
        nh = len(hit)
        err = tcp.one(w, dev, c, 500 + k[0], unit, pdu, 6.0)
        if err is None:
            return None
        if victim(c):
            w.sleep(3)
            c.drain()
            fr, bad = tcp.frames(c.got)
            if not c.eof():
                return "client %s's connection, given up after an error, is not closed (%s)" % (name, err)
            return None
        if lst_hit() and c.s.peer.closed:
            return None            # the connection was lost in a failed accept
        return "client %s: %s" % (name, err)
    steps = [lambda: connect("H"), lambda: ask("H", HREQ[0]), lambda: connect("F"), lambda: ask("F", (1, P(3, 0, 0, 0, 3))),
             lambda: ask("H", HREQ[2]), lambda: ask("F", (1, P(4, 0, 0, 0, 4))), lambda: clients["F"].close(), lambda: w.sleep(0.01),
             lambda: ask("H", HREQ[0]), lambda: connect("N"), lambda: ask("N", (2, P(2, 0, 0, 0, 5))), lambda: ask("H", HREQ[0])]
    for s in steps:
        err = s()
        if err:
            return err
    w.net.fault = None
    for name in ("H", "N"):
        if not victim(clients[name]) and not clients[name].s.peer.closed:
            err = ask(name, (2, P(3, 0, 2, 0, 2)))
            if err:
                return err
    err = connect("Z") or ask("Z", (2, P(3, 0, 2, 0, 2)))
    if err:
        return "after the fault: " + err
    for s in hit:
        if not s.listening and not s.closed:
            c = [c for c in clients.values() if c.s.peer is s]
            if c and not c[0].s.closed:
                err = tcp.one(w, dev, c[0], 9999, 2, P(3, 0, 0, 0, 1), 3.0)
                if err and not c[0].eof():
                    return "the connection on which an operation failed is neither served nor closed: " + err
    dev.srv.stop()
    return None


def count_ops(ctx_or_none=None):
    log = []

    def body(w, lib):
        history(w, lib, {}, log)

    class C(object):
        def fail(self, what, *a, **k):
            raise RuntimeError(what)
    in_world(C(), body)
    return log


def faults(ctx, first, nth):
    """a single fault at op index i (every error kind); thorough: pairs"""
    base = count_ops()
    for i in range(first, len(base), nth):
        for kind in range(len(ERR[base[i]])):
            plans = [{i: kind}]
            if ctx.thorough:
                plans += [{i: kind, j: 0} for j in range(i + 1, len(base) + 4)]
            for plan in plans:
                if ctx.out_of_time():
                    ctx.capped = True
                    return
                res = []

                def body(w, lib):
                    res.append(history(w, lib, plan, []))
                in_world(ctx, body)
                ctx.state(("fault", tuple(plan.items())))
                ctx.trans(len(base))
                ctx.trace()
                case = {"operation": base[i], "index": i, "error": repr(ERR[base[i]][kind]), "plan": plan}
                ctx.sample(case, 1)
                if res and res[0]:
                    ctx.fail(res[0], case)
                    return


def busy(ctx, style, n, when):
    """clients which always have another request on its way: everybody else is served all the same"""
    case = {"busy": style, "clients": n, "moment": when}

    def body(w, lib):
        rig = Rig(w, lib)
        if when == "before":
            rig.h = None
        fs = [tcp.Client(w) for _ in range(n)]
        count = [0]
        reqs = {"read": P(3, 0, 2, 0, 3), "write": P(6, 0, 7, 0, 9), "refused": P(99), "absent": P(3, 0, 0, 0, 1)}

        def more(f):
            """another request in the receive buffer of the server: it never runs dry"""
            if f.s.peer.closed or not on[0]:
                return
            count[0] += 1
            d = ref.mbap(count[0] & 0xFFFF, 9 if style == "absent" else 1, reqs.get(style, P(3, 0, 0, 0, 1)))
            if style == "bytes":
                for b in d:
                    f.s.tx.put(bytes([b]))
            else:
                f.s.tx.put(d)
        on = [True]
        limit = 400

        class Feed(object):
            """the segments waiting at the server: refilled as they are taken"""

            def __init__(self, f):
                self.f = f

            def __call__(self):
                pipe = self.f.s.tx
                if on[0] and count[0] < limit * n and len(pipe.segs) < 3:
                    more(self.f)
        feeds = [Feed(f) for f in fs]

        box, starved = [], []

        def fault(op, sock):
            if box and box[0].s.rx.size() >= len(exp):
                on[0] = False        # answered
            elif count[0] >= limit * n:
                starved.append(1)
            for fe in feeds:
                fe()
            return None
        exp = rig.dev.reply(4711, 2, HREQ[0][1])
        for fe in feeds:
            fe()
            fe()
        w.net.fault = fault
        try:
            h = rig.h or tcp.Client(w)
        except OSError as e:
            ctx.fail("a new client cannot connect: %r" % e, case)
            return
        h.send(ref.mbap(4711, 2, HREQ[0][1]))
        box.append(h)
        w.block(lambda: h.s.rx.size() >= len(exp) or count[0] >= limit * n, 60.0)
        h.drain()
        if starved:
            ctx.fail("a client waits for ever while %d others keep the server busy (%d of their requests were handled first)" % (
                n, count[0]), case)
        elif h.got != exp:
            ctx.fail("a client is answered %s instead of %s while others keep the server busy" % (h.got.hex(), exp.hex()), case)
        on[0] = False
        w.net.fault = None
        w.sleep(1.0)
        if ctx.fails:
            return
        rig.h = h
        e = rig.healthy() or rig.newcomer()
        ctx.check(e is None, "after the busy clients: %s" % e, case)
        ctx.state((style, n, when))
        ctx.trans(count[0])
        ctx.trace()
        ctx.sample(case, 1)
        rig.dev.srv.stop()
    in_world(ctx, body)


def crowd(ctx, style, n):
    """n clients connected at the same time: each of them, and one more, is served"""
    case = {"crowd": style, "clients": n}

    def body(w, lib):
        rig = Rig(w, lib)
        cs = []
        for i in range(n):
            try:
                c = tcp.Client(w)
            except OSError as e:
                ctx.fail("client %d cannot connect: %r" % (i + 1, e), case)
                return
            cs.append(c)
            if style == "served" or (style == "mixed" and i % 3 == 0):
                e = rig.healthy(cl=c)
                if e:
                    ctx.fail("client %d: %s" % (i + 1, e), case)
                    return
            elif style == "half" and i % 4 == 0 or style == "mixed" and i % 16 == 1:
                c.send(ref.mbap(1, 1, P(3, 0, 0, 0, 1))[:5])
                c.half = True
                w.sleep(1.1)
            else:
                w.sleep(0.001)
        e = rig.healthy(30.0) or rig.newcomer()
        if e:
            ctx.fail("with %d clients connected: %s" % (n, e), case)
            return
        if style != "half":
            for i, c in enumerate(cs):
                e = None if getattr(c, "half", False) else rig.healthy(cl=c)
                if e:
                    ctx.fail("client %d of %d, later: %s" % (i + 1, n, e), case)
                    return
        ctx.state((style, n))
        ctx.trans(2 * n)
        ctx.trace()
        rig.dev.srv.stop()
    in_world(ctx, body)


def churn(ctx, style, n):
    """n clients come and go one after another: nothing of them is left in the server and everybody is served"""
    case = {"churn": style, "clients": n}

    def body(w, lib):
        rig = Rig(w, lib)
        e = rig.healthy()
        w.sleep(0.1)
        base = len(w.net.open_sockets())
        for i in range(n):
            c = tcp.Client(w)
            if style in ("served", "half-closed"):
                e = e or rig.healthy(cl=c)
            elif style == "half":
                c.send(ref.mbap(1, 1, P(3, 0, 0, 0, 1))[:i % 12])
            if style == "reset":
                c.reset()
            elif style == "half-closed":
                c.s.shutdown(1)
                w.sleep(0.05)
                c.close()
            else:
                c.close()
            w.sleep(0.01)
            if e:
                ctx.fail("client %d: %s" % (i + 1, e), case)
                return
        e = rig.healthy() or rig.newcomer()
        if e:
            ctx.fail("after %d clients: %s" % (n, e), case)
            return
        w.sleep(5.0)
        left = len(w.net.open_sockets()) - base
        ctx.check(left <= 0, "%d of %d clients have gone but the server keeps their sockets" % (left, n), case)
        ctx.state((style, n))
        ctx.trans(n)
        ctx.trace()
        rig.dev.srv.stop()
    in_world(ctx, body)


def clean(ctx):
    res = []

    def body(w, lib):
        res.append(history(w, lib, {}, []))
    in_world(ctx, body)
    ctx.check(res == [None], "without any fault: %s" % res, {})
    ctx.state("clean")


def cfg(ctx, i, name, args):
    tcp.configured(i, globals()[name], ctx, *args)


def jobs(tier, seed):
    out = [("clean", ())]
    out += [("busy", (s, n, m)) for s in ("read", "write", "refused", "absent", "bytes") for n in (1, 2, 5) for m in ("before", "connected")]
    out += [("crowd", (s, n)) for s in ("idle", "served", "half", "mixed") for n in (12, 40, 150)]
    out += [("churn", (s, n)) for s in ("idle", "served", "half", "reset", "half-closed") for n in (30, 300)]
    for g, n in (("trunc", 4), ("length", 4), ("fc", 4), ("text", 3), ("window", 6)):
        for p in range(n):
            out.append(("scripts_job", (g, p, n)))
    for p in range(16 if tier == "thorough" else 8):
        out.append(("faults", (p, 16 if tier == "thorough" else 8)))
    out += [("cfg", (i, n, a)) for i in range(1, len(tcp.CONFIGS)) for n, a in list(out)]
    return out
