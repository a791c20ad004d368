"""C16: concurrent calls on masters never mix up requests or responses.

2-3 threads call one or several real masters (TCP, RTU over TCP, RTU on a simulated serial port) whose devices answer,
answer slowly, in pieces, with exceptions, late, not at all, or drop the connection depending on the request, under every
interleaving within the preemption bound.
"""
from mc import fserial, peer, ref, sched

BOUNDS = ("2 threads x 1-2 calls and 3 threads x 1 call, on one shared or several masters of each kind or of two kinds, every function (slaves of different addresses); answers: normal, "
          "exception, delayed, byte by byte, none, late, connection dropped; calls waiting for 2 (thorough 4) calls of 60 s; preemption bound quick 1 (2 for two plain calls), "
          "thorough 2 (3)")
REG = {}
MODS = ("modbus", "modbus_tcp", "modbus_rtu", "modbus_rtu_over_tcp", "utils")

# call name -> (fc, kwargs, behaviour)
CALLS = {
    "r0": (3, dict(starting_address=0, quantity_of_x=3), "ok"),
    "r1": (3, dict(starting_address=10, quantity_of_x=3), "ok"),
    "r2": (4, dict(starting_address=20, quantity_of_x=5), "ok"),
    "rf": (3, dict(starting_address=30, quantity_of_x=2, data_format=">i"), "ok"),
    "c0": (1, dict(starting_address=3, quantity_of_x=11), "ok"),
    "w0": (6, dict(starting_address=5, output_value=1234), "ok"),
    "w1": (16, dict(starting_address=6, output_value=[7, 8, 9]), "ok"),
    "x": (3, dict(starting_address=299, quantity_of_x=3), "exc"),
    "slow": (3, dict(starting_address=78, quantity_of_x=2), "slow"),
    "bits": (3, dict(starting_address=81, quantity_of_x=2), "pieces"),
    "none": (3, dict(starting_address=77, quantity_of_x=2), "none"),
    "late": (3, dict(starting_address=80, quantity_of_x=2), "late"),
    "drop": (3, dict(starting_address=79, quantity_of_x=2), "drop"),
    "k0": (15, dict(starting_address=100, output_value=[1, 0, 1, 1, 0, 0, 1, 0, 1, 1, 1]), "ok"),
    "k1": (15, dict(starting_address=200, output_value=[0, 1, 1, 0, 1, 0, 0, 1, 1, 0, 0, 1, 0, 1, 1, 1, 1]), "ok"),
    "w5": (5, dict(starting_address=300, output_value=1), "ok"),
    "d0": (2, dict(starting_address=30, quantity_of_x=21), "ok"),
    "mw": (22, dict(starting_address=120, and_mask=0xF2, or_mask=0x25), "ok"),
    "m1": (22, dict(starting_address=121, and_mask=0x0FF0, or_mask=0x1001), "ok"),
    "rw": (23, dict(starting_address=130, quantity_of_x=3, write_starting_address_fc23=135, output_value=[1, -2]), "ok"),
    "r3": (23, dict(starting_address=140, quantity_of_x=2, write_starting_address_fc23=141, output_value=[0xABCD]), "ok"),
    "wf": (16, dict(starting_address=150, output_value=[1.5, -2.25], data_format=">ff"), "ok"),
    "wi": (16, dict(starting_address=155, output_value=[-5], data_format="<i"), "ok"),
    "fl": (20, dict(starting_address=(4, 9), quantity_of_x=(2, 1), number_file=(1, 2)), "ok"),
    "f1": (20, dict(starting_address=(7,), quantity_of_x=(3,), number_file=(5,)), "ok"),
    "dg": (8, dict(starting_address=0, output_value=[0xA5, 0x37]), "ok"),
    "st": (7, dict(starting_address=0), "ok"),
    "di": (43, dict(starting_address=0, output_value=[1, 0]), "ok"),
    "rb": (3, dict(starting_address=160, quantity_of_x=2, returns_raw=True), "ok"),
    "bad": (99, dict(starting_address=79, quantity_of_x=2), "arg"),
    "bad2": (3, dict(starting_address=-1, quantity_of_x=2), "arg"),
}
BY_ADDR = {78: "slow", 81: "pieces", 77: "none", 80: "late", 79: "drop"}


def req_pdu(name):
    import struct
    fc, kw, _ = CALLS[name]
    if fc in (1, 2, 3, 4):
        return struct.pack(">BHH", fc, kw["starting_address"], kw["quantity_of_x"])
    if fc in (5, 6):
        return struct.pack(">BHH", fc, kw["starting_address"], kw["output_value"] if fc == 6 else 0xFF00)
    if fc == 7:
        return b"\x07"
    if fc == 8:
        return struct.pack(">BH", 8, kw["starting_address"]) + bytes(kw["output_value"])
    if fc == 43:
        return bytes([43, 14]) + bytes(kw["output_value"])
    if fc == 20:
        recs = list(zip(kw["number_file"], kw["starting_address"], kw["quantity_of_x"]))
        return bytes([20, 7 * len(recs)]) + b"".join(struct.pack(">BHHH", 6, *r) for r in recs)
    if fc == 22:
        return struct.pack(">BHHH", 22, kw["starting_address"], kw["and_mask"], kw["or_mask"])
    if fc == 15:
        v = kw["output_value"]
        data = ref.pack_bits(v)
        return struct.pack(">BHHB", 15, kw["starting_address"], len(v), len(data)) + data
    if fc == 23:
        v = kw["output_value"]
        return struct.pack(">BHHHHB", 23, kw["starting_address"], kw["quantity_of_x"], kw["write_starting_address_fc23"], len(v), 2 * len(v)) + \
            b"".join(struct.pack(">H", x & 0xFFFF) for x in v)
    if "data_format" in kw:
        data = struct.pack(kw["data_format"], *kw["output_value"])
        return struct.pack(">BHHB", 16, kw["starting_address"], len(data) // 2, len(data)) + data
    v = kw["output_value"]
    return struct.pack(">BHHB", 16, kw["starting_address"], len(v), 2 * len(v)) + ref.regs(v)


def value(model, name):
    import struct
    fc, kw, _ = CALLS[name]
    if name == "rf":
        b = model.blocks["h"][2][30:32]
        return struct.unpack(">i", ref.regs(b))
    if name in CANNED:
        return CANNED[name][1]
    if name == "rb":
        return tuple(ref.regs(model.blocks["h"][2][160:162]))
    if fc == 5:
        return (kw["starting_address"], 0xFF00)
    if fc == 22:
        return (kw["starting_address"], kw["and_mask"], kw["or_mask"])
    if fc == 23:
        return tuple(model.blocks["h"][2][kw["starting_address"]:kw["starting_address"] + kw["quantity_of_x"]])
    if fc == 2:
        return tuple(model.blocks["d"][2][30:51])
    if "data_format" in kw:
        return (kw["starting_address"], struct.calcsize(kw["data_format"]) // 2)
    if fc in (3, 4):
        b = model.blocks["h" if fc == 3 else "i"][2]
        return tuple(b[kw["starting_address"]:kw["starting_address"] + kw["quantity_of_x"]])
    if fc == 1:
        return tuple(model.blocks["c"][2][3:14])
    if fc == 6:
        return (kw["starting_address"], kw["output_value"])
    return (kw["starting_address"], len(kw["output_value"]))


CANNED = {
    "fl": (bytes([20, 10, 5, 6, 0x0D, 0xFE, 0, 0x20, 3, 6, 0x33, 0xCD]), ((0x0DFE, 0x20), (0x33CD,))),
    "f1": (bytes([20, 8, 7, 6, 1, 2, 3, 4, 5, 6]), ((0x0102, 0x0304, 0x0506),)),
    "dg": (bytes([8, 0, 0, 0xA5, 0x37]), (0, 0xA5, 0x37)),
    "st": (bytes([7, 0x6D]), (0x6D,)),
    "di": (bytes([43, 14, 1, 1, 0, 0, 1, 0, 2, 65, 66]), (14, 1, 1, 0, 0, 1, 0, 2, 65, 66)),
}


class Device(object):
    def __init__(self, w, kind, idx):
        self.w, self.kind = w, kind
        if kind == "rtu":
            self.ser = fserial.FakeSerial(w, is_open=False, timeout=1.0)
            self.p = peer.SerialPeer(self.ser, handler=self.handle)
        else:
            self.p = peer.Peer(w, 1502 + idx, framing="tcp" if kind == "tcp" else "rtu", handler=self.handle)
        peer.fill(self.p.model)
        self.p.model.blocks["h"][2][:] = [(i * 777 + 5 + 1000 * idx) & 0xFFFF for i in range(300)]
        self.bad = []

    def master(self, lib, idx):
        if self.kind == "rtu":
            m = lib.modbus_rtu.RtuMaster(self.ser)
            m.set_timeout(1.0)
            return m
        cls = lib.modbus_tcp.TcpMaster if self.kind == "tcp" else lib.modbus_rtu_over_tcp.RtuOverTcpMaster
        return cls("127.0.0.1", 1502 + idx, timeout_in_sec=1.0)

    def handle(self, conn, req):
        tid, unit, pdu = self.p.split(req)
        if unit not in (1, 2, 3) or pdu not in PDUS or (self.kind != "tcp" and ref.rtu(unit, pdu) != req):
            self.bad.append(req)
            return
        push = self.p.push if self.kind == "rtu" else conn.push
        how = BY_ADDR.get((pdu[1] << 8 | pdu[2]) if pdu[0] == 3 else None, "ok")
        rep = self.p.frame(req, CANNED_PDU[pdu] if pdu in CANNED_PDU else self.p.reply_pdu(req))
        if how == "ok":
            push(rep, 0.01)
        elif how == "slow":
            push(rep, 0.5)
        elif how == "pieces":
            for i in range(len(rep)):
                push(rep[i:i + 1], 0.01 + 0.02 * i)
        elif how == "late":
            push(rep, 1.2)
        elif how == "drop" and self.kind != "rtu":
            conn.eof(0.02)


CANNED_PDU = {req_pdu(n): CANNED[n][0] for n in CANNED}
PDUS = {req_pdu(n) for n in CALLS if CALLS[n][2] != "arg"}


@sched.scenario(REG, bound=(1, 2), cap=1, only=MODS)
def calls(w, lib, out, kind, nm, progs):
    kinds = kind.split("+")
    devs = [Device(w, kinds[i % len(kinds)], i) for i in range(nm)]
    # several masters: the slaves have different addresses, so that a mixed up request or response shows
    units = [1 + i if nm > 1 else 1 for i in range(len(progs))]
    ms = [d.master(lib, i) for i, d in enumerate(devs)]
    res = []

    def runner(i, prog):
        for name in prog:
            fc, kw, how = CALLS[name]
            t0 = w.now
            r = peer.call(ms[i % nm], units[i], fc, **kw)
            res.append((i, name, r, w.now - t0))
    w.trace = w.want_trace
    for i, prog in enumerate(progs):
        w.spawn(lambda i=i, prog=prog: runner(i, prog), "T%d" % i)

    def after(out, w):
        w.trace = False
        me = lib.modbus.ModbusError
        out.outcome = tuple((i, n, r[0]) for i, n, r, dt in res)
        if len(res) != sum(map(len, progs)):
            return "some calls never ended: %r" % (out.outcome,)
        for d in devs:
            if d.bad:
                return "a device received %s, which nobody sent" % d.bad[0].hex()
        late = any("late" in p for p in progs)
        drops = sum(p.count("drop") for p in progs)
        extra = 0
        sent = [[] for _ in range(nm)]
        for i, name, (k, v), dt in res:
            how = CALLS[name][2]
            if how != "arg":
                sent[i % nm].append((units[i], req_pdu(name)))
            good = value(devs[i % nm].p.model, name) if how != "arg" else None
            if how in ("ok", "slow", "pieces"):
                if k == "ok" and tuple(v) == good:
                    continue
                if k == "exc" and not isinstance(v, me) and (late or drops):
                    extra += 1
                    continue
                return "call %s of thread %d gave %r instead of %r" % (name, i, v, good)
            if how == "exc":
                if k == "exc" and isinstance(v, me) and v.get_exception_code() == 2:
                    continue
                if k == "exc" and not isinstance(v, me) and (late or drops):
                    extra += 1
                    continue
                return "call %s of thread %d gave %r instead of exception 2" % (name, i, v)
            # none / late / drop / arg: must raise
            if k == "ok":
                return "call %s of thread %d returned %r" % (name, i, v)
            if isinstance(v, me):
                return "call %s of thread %d raised %r" % (name, i, v)
        nlate = sum(p.count("late") for p in progs)
        if extra > nlate + drops:
            return "%d calls failed after %d late or dropped replies: %r" % (extra, nlate + drops, res)
        for d, s in zip(devs, sent):
            got = sorted(d.p.split(q)[1:] for q in d.p.requests)
            if not drops and got != sorted(s):
                return "the device received %r instead of %r" % (got, sorted(s))
            if any(g not in s for g in got):
                return "the device received %r instead of %r" % (got, sorted(s))
        return None
    out.after = after


@sched.scenario(REG, bound=(0, 1), cap=1, only=MODS)
def patient(w, lib, out, kind, delay, n):
    """the device takes a long time, within the timeout: n threads wait for their turn as long as it takes"""
    d = Device(w, kind, 0)
    m = d.master(lib, 0)
    m.set_timeout(delay * 1.5)
    res = {}

    def handle(conn, req):
        push = d.p.push if kind == "rtu" else conn.push
        push(d.p.frame(req, d.p.reply_pdu(req)), delay)
    d.p.handler = handle
    names = ("r0", "r1", "c0", "w0", "r2")[:n]

    def one(i):
        fc, kw, _ = CALLS[names[i]]
        res[i] = peer.call(m, 1, fc, **kw)
    w.trace = w.want_trace
    for i in range(n):
        w.spawn(lambda i=i: one(i), "T%d" % i)

    def after(out, w):
        w.trace = False
        for i in range(n):
            good = value(d.p.model, names[i])
            if i not in res or res[i][0] != "ok" or tuple(res[i][1]) != good:
                return "call %s gave %r instead of %r" % (names[i], res.get(i), good)
    out.after = after


PLAIN = [(("r0",), ("r1",)), (("r0",), ("c0",)), (("w0",), ("w1",)), (("r2",), ("rf",))]
# every function against itself and another one
FUNCS = [(("k0",), ("k1",)), (("k0",), ("r0",)), (("mw",), ("m1",)), (("rw",), ("r3",)), (("wf",), ("wi",)), (("fl",), ("f1",)), (("dg",), ("di",)),
         (("w5",), ("st",)), (("d0",), ("k1",)), (("rb",), ("wf",)), (("fl",), ("rw",)), (("st",), ("c0",))]
PROGS = [(("r0",), ("x",)), (("slow",), ("r1",)), (("bits",), ("r1",)), (("none",), ("r1",)), (("drop",), ("r1",)),
         (("bad",), ("r0",)), (("bad2",), ("r0",)), (("slow",), ("bits",)), (("x",), ("none",)),
         (("r0", "r1"), ("r2", "w0")), (("x", "r0"), ("bits", "r1")), (("none", "r0"), ("r1", "slow")),
         (("r0",), ("r1",), ("r2",)), (("x",), ("slow",), ("w1",))]
TCPONLY = [(("late",), ("r1", "r0")), (("late", "r0"), ("r1", "r2")), (("drop", "r0"), ("r1", "r2"))]


def jobs(tier, seed):
    th = tier == "thorough"
    js = []
    for kind in ("tcp", "rot", "rtu"):
        for nm in (1, 2):
            for progs in PLAIN:
                js.append(("top", ("calls", (kind, nm, progs), (3 if th else 2) - (nm > 1))))
            for progs in PROGS:
                if kind != "tcp" and any("late" in p for p in progs):
                    continue
                b = 2 if th else 1
                js.append(("top", ("calls", (kind, nm, progs), b)))
        if kind == "tcp":
            for progs in TCPONLY:
                js.append(("top", ("calls", (kind, 1, progs), 2 if th else 1)))
    for kind in ("tcp", "rot", "rtu"):
        for nm in (1, 2):
            for progs in FUNCS:
                js.append(("top", ("calls", (kind, nm, progs), 2 if th else 1)))
        for delay in (2.0, 15.0, 60.0):
            js.append(("top", ("patient", (kind, delay, 2), 1 if delay == 15.0 or th else 0)))
            js.append(("top", ("patient", (kind, delay, 5 if th else 3), 0)))
    # masters of different kinds at the same time
    for kind in ("tcp+rtu", "rtu+rot", "tcp+rot"):
        for progs in PLAIN + [(("slow",), ("r1",)), (("x",), ("r1",)), (("r0",), ("none",))]:
            js.append(("top", ("calls", (kind, 2, progs), 2 if th else 1)))
    return js


def top(ctx, name, args, bound):
    sched.root(ctx, REG, name, args, bound)


def sub(ctx, name, args, bound, prefixes):
    sched.sub(ctx, REG, name, args, bound, prefixes)
