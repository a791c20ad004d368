"""C19: each TCP request carries a fresh transaction id.

(a) one thread, several query objects / masters: the complete sequence over several roll-overs (every id of every window
    of 65536 requests); (b) every interleaving within the preemption bound of 2-3 threads building requests, from counter
    positions around the roll-over as well, directly and through masters.
"""
import struct

from mc import loader, peer, ref, sched
from checks.c07 import in_world

BOUNDS = ("sequence: 200000 consecutive requests through 1, 2 and 3 alternating query objects (no id repeated within 65536); "
          "threads: 2-3 threads x 2-3 requests, from the first request and from 1-4 before the roll-over; preemption bound "
          "quick 1 (2 for one request each), thorough 2 (3); masters: 2 threads on 1 or 2 TcpMasters")
REG = {}


def tid_of(frame):
    return struct.unpack(">H", bytes(frame[:2]))[0]


def sequence(ctx, nq, n):
    lib = loader.plain()
    qs = [lib.modbus_tcp.TcpQuery() for _ in range(nq)] if nq else None
    last = {}
    with ctx.guard("building requests", cpu=120):
        for i in range(n):
            q = qs[(i * 7 // 3) % nq] if nq else lib.modbus_tcp.TcpQuery()
            f = bytes(q.build_request(b"\x03\0\0\0\1", 1))
            t = tid_of(f)
            ctx.trans()
            if f != ref.mbap(t, 1, b"\x03\0\0\0\1"):
                ctx.fail("request %d is ill-formed: %s" % (i, f.hex()), {"request": i})
                return
            if t in last and i - last[t] < 65536:
                ctx.fail("transaction id %d of request %d was already used %d requests before" % (t, i, i - last[t]),
                         {"request": i, "id": t})
                return
            last[t] = i
            ctx.state((nq, t))
    ctx.trace()


def positions(ctx, target):
    """a failed build (slave out of range) and any pdu must not make ids repeat either"""
    lib = loader.plain()
    last = {}
    with ctx.guard("building requests", cpu=120):
        n = 0
        for i in range(140000):
            q = lib.modbus_tcp.TcpQuery()
            try:
                f = q.build_request(bytes([i % 128, 1]), (i * 37) % (300 if target else 256))
            except Exception:
                continue
            t = tid_of(f)
            ctx.trans()
            if t in last and n - last[t] < 65536:
                ctx.fail("transaction id %d was already used %d requests before" % (t, n - last[t]), {"request": i, "id": t})
                return
            last[t] = n
            n += 1
            ctx.state((target, t))
    ctx.trace()


def advance(lib, n):
    """bring the counter to a given position: n requests built so far"""
    if n <= 0:
        return
    Q = lib.modbus_tcp.TcpQuery
    a = tid_of(Q().build_request(b"\1\2", 1))
    b = tid_of(Q().build_request(b"\1\2", 1))
    done = 2
    cands = [(Q, k) for k, v in list(vars(Q).items()) if type(v) is int and v == b]
    cands += [(lib.modbus_tcp, k) for k, v in list(vars(lib.modbus_tcp).items()) if type(v) is int and v == b]
    if len(cands) == 1 and b == (a + 1) & 0xFFFF:
        o, k = cands[0]
        setattr(o, k, (b + n - done - 2) & 0xFFFF)
        if tid_of(Q().build_request(b"\1\2", 1)) == (b + n - done - 1) & 0xFFFF and type(vars(o)[k]) is int:
            done = n - 1
        else:
            setattr(o, k, b)
    while done < n:
        Q().build_request(b"\1\2", 1)
        done += 1


@sched.scenario(REG, bound=(1, 2), cap=2)
def build(w, lib, out, counts, pos, shared):
    advance(lib, pos)
    ids = []
    qs = lib.modbus_tcp.TcpQuery()

    def runner(i, n):
        for k in range(n):
            q = qs if shared else lib.modbus_tcp.TcpQuery()
            f = q.build_request(b"\x03\0\0\0\1", 1)
            ids.append(tid_of(f))
    w.trace = w.want_trace
    for i, n in enumerate(counts):
        w.spawn(lambda i=i, n=n: runner(i, n), "T%d" % i)

    def after(out, w):
        out.outcome = tuple(ids)
        if len(set(ids)) != len(ids) or len(ids) != sum(counts):
            return "transaction ids %r are not distinct" % (ids,)
    out.after = after


@sched.scenario(REG, bound=(1, 2), cap=1)
def masters(w, lib, out, nm, pos):
    advance(lib, pos)
    peers = [peer.Peer(w, 1502 + i) for i in range(nm)]
    for p in peers:
        peer.fill(p.model)
    ms = [lib.modbus_tcp.TcpMaster("127.0.0.1", 1502 + i, timeout_in_sec=1.0) for i in range(nm)]
    res = []

    def runner(i):
        m = ms[i % nm]
        for k in range(2):
            res.append(peer.call(m, 1, 3, 10 * i + k, 2))
    w.trace = w.want_trace
    for i in range(2):
        w.spawn(lambda i=i: runner(i), "T%d" % i)

    def after(out, w):
        ids = [tid_of(r) for p in peers for r in p.requests]
        out.outcome = tuple(ids)
        bad = [r for r in res if r[0] != "ok"]
        if bad:
            return "call failed: %r" % (bad[0][1],)
        if len(set(ids)) != 4 or len(ids) != 4:
            return "transaction ids on the wire %r are not distinct" % (ids,)
    out.after = after


def jobs(tier, seed):
    js = [("sequence", (0, 200000)), ("sequence", (1, 200000)), ("sequence", (2, 200000)), ("sequence", (3, 200000)),
          ("positions", (0,)), ("positions", (1,))]
    th = tier == "thorough"
    for pos in (0, 65533, 65534, 65535, 65536):
        js.append(("top", ("build", ((2, 2), pos, False))))
        if th or pos in (0, 65535):
            js.append(("top", ("build", ((1, 1, 1), pos, False), 2 if th else 1)))
            js.append(("top", ("build", ((1, 1), pos, False), 3 if th else 2)))
    js.append(("top", ("build", ((3, 3), 0, False))))
    for pos in (0, 65534):
        js.append(("top", ("masters", (1, pos))))
        js.append(("top", ("masters", (2, pos))))
    return js


def top(ctx, name, args, bound=None):
    sched.root(ctx, REG, name, args, bound)


def sub(ctx, name, args, bound, prefixes):
    sched.sub(ctx, REG, name, args, bound, prefixes)
