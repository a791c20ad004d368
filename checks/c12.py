"""C12: an RTU server's behaviour does not depend on how the line delivers the bytes.

A real RtuServer runs in the controlled world on a simulated serial port with virtual time.  The line delivers request
frames in every chunking within the bounds; frames follow each other after silences; newer requests arrive while a reply
is being prepared; serial operations fail at every position.  Every reply and every execution is counted.
"""
import itertools
import struct

from mc import fserial, ref, sched, tcp
from checks.c07 import in_world, pieces, splits

BOUNDS = ("18 kinds of requests (every function, refused, absent-slave, broadcast) and write requests of every length up to "
          "255 bytes; every chunking into <=3 chunks (two for more than 24 bytes) and byte by byte, gaps of 0, 0.4 and 0.97 "
          "inter-frame timeouts, 3 baud rates and a caller's own timeout; 1000 frames one after another; all sequences of 3 frames out of 10 kinds separated "
          "by silences; a newer request (whole, cut at every byte, broken) arriving while a reply is prepared; every single "
          "and (thorough: every; quick: near) pair of failing serial operations of 3 error types; every interleaving of line "
          "and server with 2 preemptions")
W = struct.pack
REQ = {
    "coils": (1, W(">BHH", 1, 2, 9)), "discrete": (1, W(">BHH", 2, 0, 3)), "holding": (1, W(">BHH", 3, 5, 2)),
    "input": (2, W(">BHH", 4, 0, 1)), "wcoil": (1, W(">BHH", 5, 4, 0xFF00)), "wreg": (2, W(">BHH", 6, 7, 0xABCD)),
    "status": (1, b"\x07"), "wcoils": (1, W(">BHHB", 15, 1, 3, 1) + b"\x05"),
    "wregs": (1, W(">BHHB", 16, 3, 2, 4) + b"\x00\x09\x80\x01"), "mask": (1, W(">BHHH", 22, 2, 0xF2, 0x25)),
    "rw": (2, W(">BHHHHB", 23, 1, 2, 4, 1, 2) + b"\x12\x34"), "big": (1, W(">BHH", 4, 0, 125)),
    "badaddr": (1, W(">BHH", 3, 500, 2)), "badqty": (1, W(">BHH", 1, 0, 0)), "badfc": (1, b"\x63\x01"),
    "absent": (9, W(">BHH", 3, 5, 2)), "bcast": (0, W(">BHH", 6, 1, 0x1001)), "bcastbad": (0, W(">BHH", 6, 900, 1)),
}


class Rig(object):
    """an RtuServer with two slaves and their models on a line"""

    def __init__(self, w, lib, baud=9600, timeout=None, **kw):
        w.net.points = False
        self.w, self.lib = w, lib
        self.dev = tcp.Device(w, lib, slaves=(1, 2))
        self.ser = fserial.FakeSerial(w, baudrate=baud)
        self.srv = lib.modbus_rtu.RtuServer(self.ser, databank=self.dev.srv.get_db(), **kw)
        if timeout is not None:
            self.srv.set_timeout(timeout)
        self.T = self.srv.get_timeout()
        self.handled = []
        lib.hooks.install_hook("modbus.Slave.handle_request", self._handled)

    def _handled(self, args):
        self.handled.append(bytes(args[1]))

    def start(self):
        self.srv.start()
        self.w.block(lambda: self.ser.is_open, 5.0)
        self.w.sleep(3 * self.T)

    def expect(self, unit, pdu):
        """(list of allowed reply frames or [] if none, number of executions)"""
        e = self.dev.reply(0, unit, pdu)
        n = 2 if unit == 0 else int(unit in self.dev.models)
        if not e:
            return [], n
        return [ref.rtu(unit, f[7:]) for f in ([e] if isinstance(e, bytes) else sorted(e))], n

    def mark(self):
        return len(self.ser.written), len(self.handled)

    def judge(self, mark, exp):
        """exp: list of (allowed replies, executions) in order; error text or None"""
        got = b"".join(self.ser.written[mark[0]:])
        ns = 0
        for alts, n in exp:
            ns += n
            if not alts:
                continue
            for a in alts:
                if got.startswith(a):
                    got = got[len(a):]
                    break
            else:
                return "the reply should be %s, the server sent %s" % (" or ".join(a.hex() for a in alts[:5]), got.hex() or "nothing")
        if got:
            return "the server sent %s more than the replies" % got.hex()
        k = len(self.handled) - mark[1]
        if k != ns:
            return "%d requests were executed instead of %d" % (k, ns)
        return self.dev.state_error()


def chunk(ctx, name, baud, timeout, kw):
    def body(w, lib):
        rig = Rig(w, lib, baud, timeout, **dict(kw))
        rig.start()
        T = rig.T
        unit, pdu = REQ[name] if name in REQ else lengths()[name]
        data = ref.rtu(unit, pdu)
        n = len(data)
        big = n > 24
        maxk = 2 if big else (4 if ctx.thorough and n < 14 else 3)
        for gap in (0.0, 0.4, 0.97):
            todo = [c for k in range(1, maxk + 1) for c in splits(n, k)] + [tuple(range(1, n))]
            if big and not ctx.thorough and name not in REQ:
                todo = [(), (1,), (2,), (6,), (7,), (n - 3,), (n - 2,), (n - 1,), (1, n - 1), tuple(range(1, n))] + \
                    [(c,) for c in (127, 128, 129, 130) if c < n] + [(1, c) for c in (128, 129, 130) if 1 < c < n]
            for cuts in todo:
                m = rig.mark()
                exp = rig.expect(unit, pdu)
                case = {"request": data.hex(), "cuts": cuts, "gap_in_timeouts": gap, "baudrate": baud, "timeout": T}
                ctx.cur = case
                for i, piece in enumerate(pieces(data, cuts)):
                    if i and gap:
                        w.sleep(gap * T)
                    rig.ser.feed(piece)
                w.sleep(5 * T + 1e-6)
                err = rig.judge(m, [exp])
                ctx.state(repr(case))
                ctx.trans(len(cuts) + 1)
                ctx.trace()
                ctx.sample(case)
                if err:
                    ctx.fail(err, case)
                    return
        rig.srv.stop()
    in_world(ctx, body)


def lengths():
    out = {}
    for q in range(1, 124):
        out["wregs%d" % q] = (1, W(">BHHB", 16, 0, q, 2 * q) + bytes((i * 5 + q) & 0xFF for i in range(2 * q)))
    for nb in range(1, 247):
        q = nb * 8
        out["wcoils%d" % nb] = (1, W(">BHHB", 15, 0, q, nb) + bytes((i * 5 + nb) & 0xFF for i in range(nb)))
    return out


def lens(ctx, names):
    for n in names:
        chunk(ctx, n, 9600, None, ())


SEQ = ("holding", "wreg", "bcast", "absent", "badaddr", "crc", "short", "noise", "status", "cut")


def soak(ctx, pause):
    """a thousand frames of every kind one after another"""
    def body(w, lib):
        rig = Rig(w, lib)
        rig.start()
        T = rig.T
        names = list(REQ) + ["crc", "short", "noise", "cut"]
        for k in range(1000):
            m = rig.mark()
            kind = names[(k * 7 + k // 22) % len(names)]
            data, e = frame_of(rig, kind)
            rig.ser.feed(data)
            w.sleep(pause * T)
            err = rig.judge(m, [e])
            ctx.state(("soak", pause, k))
            ctx.trans()
            if err:
                ctx.fail("frame %d: %s" % (k, err), {"frames": k, "the last one": kind, "silence_in_timeouts": pause})
                return
        ctx.trace()
        rig.srv.stop()
    in_world(ctx, body)


def frame_of(rig, kind):
    """(bytes on the line, expectation)"""
    if kind in REQ:
        return ref.rtu(*REQ[kind]), rig.expect(*REQ[kind])
    good = ref.rtu(1, W(">BHH", 6, 3, 0x7777))
    return {"crc": good[:-1] + bytes([good[-1] ^ 1]), "short": good[:2], "noise": b"\xff" * 7, "cut": good[:-3]}[kind], ([], 0)


def seqs(ctx, first):
    def body(w, lib):
        rig = Rig(w, lib)
        rig.start()
        T = rig.T
        for rest in itertools.product(SEQ, repeat=3 if ctx.thorough else 2):
            kinds = (first,) + rest
            # a silence ends a frame for sure when it is longer than two timeouts (the timeout in progress and one more);
            # after a reply the server pauses for one more timeout, which a master, waiting for the reply, respects
            quiet = all(k in ("bcast", "absent", "crc", "short", "noise", "cut") for k in kinds[:-1])
            for pause in ((2.2, 3.2, 30) if quiet else (3.2, 3.7, 30)):
                m = rig.mark()
                exp = []
                case = {"frames": kinds, "silence_in_timeouts": pause}
                ctx.cur = case
                for k in kinds:
                    data, e = frame_of(rig, k)
                    exp.append(e)
                    rig.ser.feed(data)
                    w.sleep(pause * T)
                w.sleep(8 * T)
                err = rig.judge(m, exp)
                ctx.state(repr(case))
                ctx.trans(3)
                ctx.trace()
                ctx.sample(case)
                if err:
                    ctx.fail(err, case)
                    return
        rig.srv.stop()
    in_world(ctx, body)


def newer(ctx, old, new):
    """bytes of a newer request arrive while the older one is executed: the older reply is not sent, the newer request
    is handled like any other (whole, in two parts, or broken)"""
    def body(w, lib):
        rig = Rig(w, lib)
        state = {"data": None}

        def arrive(args):
            if state["data"] is not None:
                rig.ser.feed(state["data"])
                state["data"] = None
        lib.hooks.install_hook("modbus.Server.before_handle_request", arrive)
        rig.start()
        T = rig.T
        ounit, opdu = REQ[old]
        nunit, npdu = REQ[new]
        whole = ref.rtu(nunit, npdu)
        for cut in list(range(1, len(whole) + 1)) + ["broken"]:
            for gap in (0.3, 0.9):
                m = rig.mark()
                oexp = rig.expect(ounit, opdu)
                exp = [([], oexp[1])]
                if cut == "broken":
                    state["data"], rest = whole[:-1] + bytes([whole[-1] ^ 0x40]), b""
                    if gap > 0.5:
                        continue
                else:
                    state["data"], rest = whole[:cut], whole[cut:]
                    exp.append(rig.expect(nunit, npdu))
                case = {"older": old, "newer": new, "arrived": cut, "gap_in_timeouts": gap}
                ctx.cur = case
                rig.ser.feed(ref.rtu(ounit, opdu))
                w.block(lambda: state["data"] is None, 1.0)
                if rest:
                    w.sleep(gap * T)
                    rig.ser.feed(rest)
                w.sleep(6 * T)
                err = rig.judge(m, exp)
                if err is None and state["data"] is not None:
                    err = "the older request was not handled"
                    state["data"] = None
                ctx.state(repr(case))
                ctx.trans(2)
                ctx.trace()
                ctx.sample(case)
                if err:
                    ctx.fail(err, case)
                    return
                # a request that arrives later is answered as always
                m = rig.mark()
                exp = rig.expect(ounit, opdu)
                rig.ser.feed(ref.rtu(ounit, opdu))
                w.sleep(6 * T)
                err = rig.judge(m, [exp])
                if err:
                    ctx.fail("request after it: " + err, case)
                    return
        rig.srv.stop()
    in_world(ctx, body)


ERRS = {"oserror": lambda: OSError(5, "Input/output error"), "serial": lambda: fserial.SerialError("device disconnected"),
        "type": lambda: TypeError("'NoneType' object cannot be interpreted as an integer")}


class Faults(object):
    """fails the serial operations with the numbers given (counted from arm())"""

    def __init__(self, ser, kind, positions, persist=0):
        self.n = -1
        self.positions = positions
        self.kind = kind
        self.ops = []
        self.hits = []
        self.persist = persist
        self.armed = False
        self.dead = None             # persist < 0: every operation fails until the port is opened again
        self.ser = ser
        ser.fault = self

    def __call__(self, op):
        if not self.armed or op == "cancel_read":
            return None
        self.n += 1
        self.ops.append(op)
        if self.dead is not None and self.dead == self.ser.gen and op not in ("open", "close"):
            self.hits.append((self.n, op))
            return ERRS[self.kind]()
        if self.n in self.positions or self.positions and 0 <= self.n - max(self.positions) < self.persist:
            self.hits.append((self.n, op))
            if self.persist < 0:
                self.dead = self.ser.gen
            return ERRS[self.kind]()
        return None


def faulted(ctx, kind, positions, persist, hook, boot):
    """three requests, then a calm line: after the faults every request is answered"""
    info = {}

    def body(w, lib):
        rig = Rig(w, lib)
        f = Faults(rig.ser, kind, positions, persist)
        if hook:
            def boom(args):
                raise RuntimeError("hook")
            lib.hooks.install_hook("modbus_rtu.RtuServer.on_error", boom)
        if boot:
            rig.start()
        T = rig.T
        f.armed = True
        if not boot:
            rig.start()
        reqs = [("wreg", None), ("holding", None), ("rw", None)]
        case = {"failing": positions, "error": kind, "persist": persist, "on_error_hook_raises": hook, "from_start": not boot}
        ctx.cur = case
        before = [list(b[2]) for m in rig.dev.models.values() for b in m.blocks.values()]
        m0 = rig.mark()
        pos = m0[0]
        for name, _ in reqs:
            unit, pdu = REQ[name]
            hits = len(f.hits)
            h0 = len(rig.handled)
            data = ref.rtu(unit, pdu)
            w0 = len(rig.ser.written)
            rig.ser.feed(data[:3])
            w.sleep(0.5 * T)
            rig.ser.feed(data[3:])
            w.sleep(7 * T)
            got = b"".join(rig.ser.written[w0:])
            k = len(rig.handled) - h0
            if k > 1:
                ctx.fail("the request was executed %d times" % k, case)
                return
            if k and rig.handled[-1] != pdu:
                ctx.fail("executed %s instead of %s" % (rig.handled[-1].hex(), pdu.hex()), case)
                return
            if k:
                alts, _n = rig.expect(unit, pdu)
            else:
                alts = []
            if got and got not in alts:
                ctx.fail("the server sent %s" % got.hex(), case)
                return
            if len(f.hits) == hits and (not f.hits or rig.ser.is_open) and (not k or got not in alts):
                ctx.fail("a request received after the error was %s" % ("not executed" if not k else "not answered"), case)
                return
            if f.hits and f.hits[-1][1] == "flush" and not k:
                ctx.fail("not executed", case)
                return
        # faults that are left do not matter any more
        f.positions, f.persist = (), min(f.persist, 0)
        w.sleep(12 * T + 1)
        for name in ("holding", "wregs", "status"):
            m = rig.mark()
            exp = rig.expect(*REQ[name])
            if not rig.ser.is_open:
                ctx.fail("the port was left closed", case)
                return
            rig.ser.feed(ref.rtu(*REQ[name]))
            w.sleep(7 * T)
            err = rig.judge(m, [exp])
            if err:
                ctx.fail("after the errors: " + err, case)
                return
        rig.srv.stop()
        info["ops"] = f.ops
        info["hits"] = f.hits
        ctx.state(repr((case, f.hits)))
        ctx.trans(len(f.ops))
        ctx.trace()
        ctx.sample(dict(case, hit=f.hits))
    in_world(ctx, body)
    return info


def faults(ctx, kind, part, parts):
    if ctx.replay:
        c = ctx.replay["case"]
        faulted(ctx, c["error"], tuple(c["failing"]), c["persist"], c["on_error_hook_raises"], not c["from_start"])
        return
    for boot in (True, False):
        n = len(faulted(ctx, kind, (), 0, False, boot).get("ops", ()))
        cases = []
        # (a server whose port can not be opened at start does not start: C20)
        for i in range(0 if boot else 1, n):
            for persist in (0, 2, 5, 20, -1):
                cases.append(((i,), persist, False))
            cases.append(((i,), 0, True))
            for j in range(i + 1, n if ctx.thorough else min(n, i + 7)):
                cases.append(((i, j), 0, False))
                if j < i + 4:
                    cases.append(((i, j), -1, False))
        for pos, persist, hook in cases[part::parts]:
            faulted(ctx, kind, pos, persist, hook, boot)


# ------------------------------------------------------------------ schedules
REG = {}
MODS = ("modbus_rtu", "modbus")


@sched.scenario(REG, bound=(2, 3), only=MODS, free=True)
def deliver(w, lib, out, name, cuts):
    """the line's pieces arrive at any point of the server's execution, without a silence"""
    rig = Rig(w, lib)
    w.net.points = False
    rig.start()
    unit, pdu = REQ[name]
    m = rig.mark()
    exp = rig.expect(unit, pdu)
    for p in pieces(ref.rtu(unit, pdu), cuts):
        rig.ser.feed(p)
        w.point()
    w.sleep(8 * rig.T)
    err = rig.judge(m, [exp])
    if err:
        out.fail(err)
    rig.srv.stop()


@sched.scenario(REG, bound=(1, 2), only=MODS, free=True)
def crossing(w, lib, out, old, new):
    """a newer request arrives at any moment after the silence that ended the older one: it is answered, and each reply is
    sent once or, for the older one, not at all"""
    rig = Rig(w, lib)
    rig.start()
    T = rig.T
    a, b = REQ[old], REQ[new]
    m = rig.mark()
    ea = rig.expect(*a)
    eb = rig.expect(*b)
    rig.ser.feed(ref.rtu(*a))

    handled = []
    lib.hooks.install_hook("modbus.Server.before_handle_request", lambda args: handled.append(1))
    w.block(lambda: handled, 1.0)
    rig.ser.feed(ref.rtu(*b))
    w.sleep(9 * T)
    full = rig.judge(m, [ea, eb])
    short = rig.judge(m, [([], ea[1]), eb])
    out.outcome = (full is None, short is None)
    if full and short:
        out.fail("%s (with both replies) / %s (with the newer reply only)" % (full, short))
    rig.srv.stop()


def sroot(ctx, name, args, bound=None):
    sched.root(ctx, REG, name, args, bound)


def sub(ctx, name, args, bound, prefixes):
    sched.sub(ctx, REG, name, args, bound, prefixes)


def jobs(tier, seed):
    th = tier == "thorough"
    js = []
    for n in REQ:
        js.append(("chunk", (n, 9600, None, ())))
        js.append(("chunk", (n, 19200, 0.5, ())))
        if th or n in ("wreg", "rw", "big"):
            js.append(("chunk", (n, 115200, None, ())))
            js.append(("chunk", (n, 300, None, (("interframe_multiplier", 5.0),))))
    ls = sorted(lengths())
    for i in range(16):
        js.append(("lens", (ls[i::16],)))
    js += [("soak", (p,)) for p in (3.7, 40)]
    for k in SEQ:
        js.append(("seqs", (k,)))
    for old in ("holding", "wreg", "badaddr", "big"):
        for new in ("holding", "wregs", "bcast", "absent", "rw"):
            js.append(("newer", (old, new)))
    for kind in ERRS:
        for p in range(8):
            js.append(("faults", (kind, p, 8)))
    for name, cuts in (("wreg", ()), ("wreg", (1,)), ("rw", (5,)), ("holding", (1, 7))):
        js.append(("sroot", ("deliver", (name, cuts))))
    for old, new in (("wreg", "holding"), ("badaddr", "wregs"), ("big", "bcast")):
        js.append(("sroot", ("crossing", (old, new))))
    return js
