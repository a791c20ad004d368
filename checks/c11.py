"""C11: RTU frames are accepted only with the right CRC and address.

The CRC function is compared with a bit-by-bit reference on every byte string of up to three bytes (every transition of
the 65536 states of the CRC register), on every length up to 300 and every position; the query class, databank, server
and master are given every corruption of the bounded error sets.
"""
import struct

from mc import fserial, loader, peer, ref, tcp
from mc.dev import Dev
from checks.c07 import in_world

BOUNDS = ("CRC: all byte strings of length 0..3 (16.8 million), all lengths 0..300 x 6 patterns, one byte at every position; "
          "frames of every function: every single and double bit error and every burst of up to 16 bits of 5..12-byte frames "
          "(bursts up to 8 bits of longer frames; thorough: 16), every truncation, every extension byte, all 256 addresses; "
          "on the query class, the databank, the RTU server (simulated line) and the RTU master")
W = struct.pack



def _step(crc, b):
    crc ^= b
    for _ in range(8):
        crc = (crc >> 1) ^ 0xA001 if crc & 1 else crc >> 1
    return crc


def crc3(ctx, part, parts):
    lib = loader.plain()
    calc = lib.utils.calculate_crc
    T = [_step(0, b) for b in range(256)]
    buf = bytearray(3)
    n = 0
    for a in range(part, 256, parts):
        ca = (0xFFFF >> 8) ^ T[(0xFFFF ^ a) & 0xFF]
        buf[0] = a
        for b in range(256):
            cb = (ca >> 8) ^ T[(ca ^ b) & 0xFF]
            buf[1] = b
            for c in range(256):
                buf[2] = c
                w = (cb >> 8) ^ T[(cb ^ c) & 0xFF]
                if calc(buf) != ((w & 0xFF) << 8 | w >> 8):
                    ctx.fail("CRC of %s is %04x" % (buf.hex(), calc(buf)), {"data": buf.hex()})
                    return
        n += 65536
    ctx.nstates += n
    ctx.transitions += n
    ctx.traces += n
    ctx.sample({"all strings": "of three bytes starting with %d mod %d" % (part, parts)})


def want(data):
    c = ref.crc16(data)
    return (c & 0xFF) << 8 | c >> 8


def crcs(ctx):
    lib = loader.plain()
    calc = lib.utils.calculate_crc

    def one(d):
        for typ in (bytes, bytearray):
            try:
                got = calc(typ(d))
            except Exception as e:  # noqa
                ctx.fail("CRC of %s raised %r" % (d.hex(), e), {"data": d.hex()})
                return False
            if got != want(d):
                ctx.fail("CRC of %d bytes %s is %04x instead of %04x" % (len(d), d.hex()[:80], got, want(d)), {"data": d.hex()})
                return False
        ctx.state(d)
        ctx.trans()
        ctx.trace()
        return True
    if not one(b""):
        return
    for a in range(256):
        if not one(bytes([a])):
            return
        for b in range(256):
            if not one(bytes([a, b])):
                return
    for n in range(301):
        for pat in (b"\0" * n, b"\xff" * n, bytes(i & 0xFF for i in range(n)), bytes((i * 37 + 11) & 0xFF for i in range(n)),
                    b"\x55\xaa" * (n // 2) + b"\x01" * (n % 2), bytes((255 - i * 3) & 0xFF for i in range(n))):
            if not one(pat):
                return
    for n in (8, 64, 256):
        for p in range(n):
            for v in (1, 0x80, 0xFF):
                d = bytearray(n)
                d[p] = v
                if not one(bytes(d)):
                    return


REQS = {"short": b"\x07", "read": W(">BHH", 3, 0, 2), "wreg": W(">BHH", 6, 1, 0x55AA), "wcoil": W(">BHH", 5, 1, 0xFF00),
        "mask": W(">BHHH", 22, 1, 0xF2, 0x25), "wregs": W(">BHHB", 16, 3, 2, 4) + b"\x12\x34\x56\x78",
        "long": W(">BHHB", 16, 3, 30, 60) + bytes(i * 7 & 0xFF for i in range(60)),
        "rw": W(">BHHHHB", 23, 1, 2, 4, 1, 2) + b"\x12\x34",
        "max": bytes([0x41]) + bytes(i * 3 & 0xFF for i in range(252))}


def build(ctx):
    lib = loader.plain()
    for name, pdu in REQS.items():
        for addr in range(256):
            q = lib.modbus_rtu.RtuQuery()
            f = bytes(q.build_request(pdu, addr))
            q2 = lib.modbus_rtu.RtuQuery()
            ctx.trans(4)
            ctx.trace()
            ctx.state((name, addr))
            case = {"pdu": pdu.hex(), "address": addr}
            if f != ref.rtu(addr, pdu):
                ctx.fail("request frame %s instead of %s" % (f.hex(), ref.rtu(addr, pdu).hex()), case)
                return
            got = q2.parse_request(bytearray(f))
            if got[0] != addr or bytes(got[1]) != pdu:
                ctx.fail("the request frame %s is read as %r" % (f.hex(), got), case)
                return
            r = bytes(q2.build_response(pdu))
            if r != ref.rtu(addr, pdu):
                ctx.fail("response frame %s instead of %s" % (r.hex(), ref.rtu(addr, pdu).hex()), case)
                return
            if bytes(q.parse_response(bytearray(r))) != pdu:
                ctx.fail("the response frame %s is not read as its PDU" % r.hex(), case)
                return
            for other in range(256):
                if other != addr and (name == "read" or other in (0, 1, 255, addr ^ 1)):
                    try:
                        q.parse_response(ref.rtu(other, pdu))
                    except Exception:  # noqa
                        continue
                    ctx.fail("a response of address %d is accepted for a request to %d" % (other, addr), case)
                    return
        for addr in (-1, 256, 1000, 65536):
            try:
                f = lib.modbus_rtu.RtuQuery().build_request(pdu, addr)
            except Exception:  # noqa
                continue
            ctx.fail("a request for address %d was built: %s" % (addr, bytes(f).hex()), {"address": addr})
            return


def double_errors(n):
    for i in range(8 * n):
        yield (1 << i)
        for j in range(i):
            yield (1 << i) | (1 << j)


def bursts(n, k, part=0, parts=1):
    """bursts of up to k consecutive bits in the order of transmission: least significant bit of each byte first"""
    for length in range(3, k + 1):
        for mid in range(part, 1 << (length - 2), parts):
            pat = 1 | (mid << 1) | (1 << (length - 1))
            for sh in range(8 * n - length + 1):
                yield pat << sh


def errors(ctx, name, side, how, part, parts):
    """every error of a set on one frame, straight into the query class"""
    lib = loader.plain()
    pdu = REQS[name]
    good = ref.rtu(17, pdu)
    n = len(good)
    base = int.from_bytes(good, "little")
    if how == "double":
        gen = double_errors(n)
    else:
        gen = bursts(n, how, part, parts)
    q = lib.modbus_rtu.RtuQuery()
    if side == "response":
        q.build_request(pdu, 17)
        parse = q.parse_response
    else:
        parse = q.parse_request
    ctx.sample({"frame": good.hex(), "errors": how, "read as": side})
    k = 0
    for e in gen:
        bad = (base ^ e).to_bytes(n, "little")
        k += 1
        try:
            got = parse(bad)
        except Exception:  # noqa
            continue
        ctx.fail("the corrupted frame %s (correct: %s) is accepted: %r" % (bad.hex(), good.hex(), got),
                 {"frame": good.hex(), "received": bad.hex(), "read as": side})
        return
    ctx.nstates += k
    ctx.transitions += k
    ctx.traces += k


def databank(ctx, name):
    """errors on request frames given to the databank: nothing executed, nothing answered"""
    dev = Dev()
    for sid in (1, 2, 17):
        dev.add_slave(sid, True, [(1, 0, 40, "c"), (3, 0, 40, "h")])
        dev.fill(sid, "h", 0, [sid * 100 + i for i in range(40)])
    db = dev.db
    pdu = REQS[name]
    good = ref.rtu(17, pdu)
    n = len(good)
    base = int.from_bytes(good, "little")
    cand = [(base ^ e).to_bytes(n, "little") for e in (double_errors(n) if n <= 14 else ((1 << i) for i in range(8 * n)))]
    cand += [good[:i] for i in range(n)]
    if name not in ("long",):
        cand += [good + bytes([b]) for b in range(256)]
    cand += [bytes([a]) + good[1:] for a in range(256) if a != 17]
    cand += [ref.rtu(a, pdu) for a in range(1, 256) if a not in (1, 2, 17)]
    cand += [good[:-2] + good[-1:] + good[-2:-1]] if good[-1] != good[-2] else []
    cand += [b"", b"\x11", b"\x11\x03", b"\0\0", b"\xff\xff"]
    for bad in cand:
        if len(bad) >= 4 and ref.rtu(bad[0], bad[1:-2]) == bad and bad[0] in (0, 1, 2, 17):
            continue
        if len(bad) == 3 and ref.crc16(bad[:1]) == bad[1] | bad[2] << 8:
            continue
        try:
            r = db.handle_request(dev.lib.modbus_rtu.RtuQuery(), bytearray(bad))
        except Exception as e:  # noqa
            ctx.fail("the frame %s raised %r" % (bad.hex(), e), {"frame": bad.hex()})
            return
        ctx.trans()
        ctx.trace()
        ctx.state(bad)
        errs = []
        if r or not dev.same(errs):
            ctx.fail("the frame %s was %s" % (bad.hex(), "answered %s" % bytes(r).hex() if r else "executed: %s" % errs), {"frame": bad.hex()})
            return


def server(ctx, name, part, parts):
    """errors on request frames on a simulated line: the server stays silent, changes nothing, answers the next request"""
    def body(w, lib):
        w.net.points = False
        dev = tcp.Device(w, lib, slaves=(1, 17))
        ser = fserial.FakeSerial(w)
        srv = lib.modbus_rtu.RtuServer(ser, databank=dev.srv.get_db())
        srv.start()
        w.sleep(0.05)
        pdu = REQS[name]
        good = ref.rtu(17, pdu)
        n = len(good)
        base = int.from_bytes(good, "little")
        cand = [(base ^ e).to_bytes(n, "little") for e in (double_errors(n) if n <= 10 else ((1 << i) for i in range(8 * n)))]
        cand += [good[:i] for i in range(1, n)] + [bytes([a]) + good[1:] for a in range(256) if a != 17]
        cand += [ref.rtu(a, pdu) for a in range(1, 256) if a not in (1, 17)] + [good + b"\0", b"\0" + good, good + good]
        probe = ref.rtu(1, W(">BHH", 3, 7, 1))
        answer = ref.rtu(1, bytes([3, 2]) + ref.regs([dev.models[1].blocks["h"][2][7]]))
        for i, bad in enumerate(cand[part::parts]):
            if len(bad) >= 3 and bad[0] in (0, 1, 17) and ref.rtu(bad[0], bad[1:-2]) == bad:
                continue                # a frame followed by a zero byte has a correct CRC again
            k = len(ser.written)
            ctx.cur = {"frame": bad.hex()}
            ser.feed(bad)
            w.sleep(0.03)
            ctx.trans()
            ctx.trace()
            ctx.state(("srv", bad))
            if len(ser.written) > k:
                ctx.fail("the frame %s was answered %s" % (bad.hex(), ser.written[k].hex()), {"frame": bad.hex()})
                return
            if i % 50 == 0 or i == len(cand[part::parts]) - 1:
                e = dev.state_error()
                if e:
                    ctx.fail("one of the last 50 frames up to %s was executed: %s" % (bad.hex(), e), {"frame": bad.hex()})
                    return
                ser.feed(probe)
                w.sleep(0.03)
                if ser.written[k:] != [answer]:
                    ctx.fail("after the frame %s a correct request was answered %r" % (bad.hex(), ser.written[k:]), {"frame": bad.hex()})
                    return
        srv.stop()
    in_world(ctx, body)


def master(ctx, idx):
    """every single and double bit error and every foreign address of a reply: the call raises"""
    ex = peer.exchanges()[idx]

    def body(w, lib):
        from checks import c13
        rig = c13.Rig(ctx, w, lib, 0.2)
        good = ref.rtu(1, ex[3])
        n = len(good)
        base = int.from_bytes(good, "little")
        errs = list(double_errors(n)) if n <= (14 if ctx.thorough else 9) else [1 << i for i in range(8 * n)]
        cand = [(base ^ e).to_bytes(n, "little") for e in errs] + [ref.rtu(a, ex[3]) for a in range(256) if a != 1]
        for bad in cand:
            r = rig.call(ex, lambda req: rig.p.push(bad, 0.001))
            ctx.trans()
            ctx.trace()
            ctx.state((idx, bad))
            if r[0] == "ok":
                ctx.fail("the call returned %r from the corrupted reply %s (correct: %s)" % (r[1], bad.hex(), good.hex()),
                         {"exchange": ex[0], "reply": bad.hex()})
                return
        r = rig.call(ex, lambda req: rig.p.push(good, 0.001))
        if r[0] != "ok":
            ctx.fail("the correct reply %s raised %r" % (good.hex(), r[1]), {"exchange": ex[0]})
    in_world(ctx, body)


def jobs(tier, seed):
    th = tier == "thorough"
    js = [("crc3", (i, 32)) for i in range(32)] + [("crcs", ()), ("build", ())]
    for name in REQS:
        n = len(REQS[name]) + 3
        for side in ("request", "response"):
            if n <= 70 or th:
                js.append(("errors", (name, side, "double", 0, 1)))
            k = 16 if n <= 12 or th and n < 100 else (8 if n <= 70 else 6)
            if th and n >= 100:
                k = 10
            if n == 4:
                k = 16
            parts = 8 if k == 16 else 1
            for p in range(parts):
                js.append(("errors", (name, side, k, p, parts)))
        js.append(("databank", (name,)))
        if n < 100:
            for p in range(4):
                js.append(("server", (name, p, 4)))
    for i in range(len(peer.exchanges())):
        js.append(("master", (i,)))
    return js
