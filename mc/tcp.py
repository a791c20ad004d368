"""Helpers for TCP checks: a served device, raw clients, judging streams of reply frames."""
import socket as _s
import struct

from . import ref
from .world import FakeSocket, Pipe

PORT = 1502


# ways of building the server (any of them must behave alike)
CONFIGS = [dict(address="127.0.0.1", timeout_in_sec=1), {}, dict(timeout_in_sec=0), dict(address="localhost", timeout_in_sec=None),
           dict(address="0.0.0.0", timeout_in_sec=5), dict(address="127.0.0.1", timeout_in_sec=0.5), dict(databank=True)]
CONFIG = [0]


def configured(i, fn, *args):
    CONFIG[0] = i
    try:
        fn(*args)
    finally:
        CONFIG[0] = 0


class Device(object):
    """a TcpServer with slaves and reference models"""

    def __init__(self, w, lib, port=PORT, slaves=(1,), **kw):
        self.w, self.lib, self.port = w, lib, port
        kw = dict(CONFIGS[CONFIG[0]], **kw)
        if kw.get("databank") is True:
            kw["databank"] = lib.modbus.Databank()
        self.srv = lib.modbus_tcp.TcpServer(port=port, **kw)
        self.models = {}
        for sid in slaves:
            s = self.srv.add_slave(sid)
            m = ref.RefSlave(True)
            for name, typ, start, size in (("c", 1, 0, 20), ("d", 2, 0, 20), ("h", 3, 0, 40), ("i", 4, 0, 130)):
                s.add_block(name, typ, start, size)
                m.add(name, typ, start, size)
            self.models[sid] = m
            vals = [(i * 7 + sid) % 2 for i in range(20)]
            self.set(sid, "c", 0, vals)
            self.set(sid, "d", 0, vals[::-1])
            self.set(sid, "h", 0, [(1000 * sid + i) & 0xFFFF for i in range(40)])
            self.set(sid, "i", 0, [(2000 * sid + i) & 0xFFFF for i in range(130)])

    def set(self, sid, name, start, vals):
        self.srv.get_slave(sid).set_values(name, start, list(vals))
        b = self.models[sid].blocks[name]
        b[2][start:start + len(vals)] = list(vals)

    def reply(self, tid, unit, pdu, proto=0):
        """expected reply frame (model updated); b'' if there must be none; frozenset of frames if several are allowed"""
        if unit == 0:
            for m in self.models.values():
                if pdu[0] in (5, 6, 15, 16, 22):
                    try:
                        m.handle(pdu)
                    except ref.Refused:
                        pass
            return b""
        if unit not in self.models:
            return b""
        try:
            r = self.models[unit].handle(pdu)
        except ref.Refused as e:
            return frozenset(ref.mbap(tid, unit, bytes([pdu[0] | 0x80, c]), proto) for c in e.codes)
        if r is None:
            return frozenset(ref.mbap(tid, unit, bytes([pdu[0], v]), proto) for v in range(256))
        return ref.mbap(tid, unit, r, proto)

    def state_error(self):
        for sid, m in self.models.items():
            err = []
            if not ref.same_slave(self.srv.get_slave(sid), m, err):
                return "slave %d: %s" % (sid, err[0])
        return None


class Client(object):
    """a raw TCP client"""

    def __init__(self, w, port=PORT, cap=None):
        self.w = w
        self.s = w.net.socket_class()
        self.s.connect(("127.0.0.1", port))
        if cap:
            self.s.rx.cap = cap
        self.got = b""

    def send(self, data):
        self.s.sendall(data)

    def drain(self):
        rx = self.s.rx
        while rx.segs:
            self.got += rx.segs.pop(0)
        return self.got

    def eof(self):
        return bool(self.s.rx.eof)

    def close(self):
        self.s.close()

    def reset(self):
        self.s._reset()


def match(expected, got):
    """expected: list of frames / frozensets of frames (b'' = none).  None if `got` is exactly that, else a text"""
    off = 0
    for i, e in enumerate(expected):
        alts = [e] if isinstance(e, bytes) else sorted(e)
        for a in alts:
            if got[off:off + len(a)] == a:
                off += len(a)
                break
        else:
            return "reply %d should be %s but the client received %s" % (
                i, " or ".join(a.hex() for a in alts), got[off:off + 60].hex() or "nothing")
    if off != len(got):
        return "extra bytes received after the replies: %s" % got[off:off + 60].hex()
    return None


def frames(data):
    """split a reply stream: (list of (tid, proto, unit, pdu)), error text or None"""
    out, off = [], 0
    while off < len(data):
        if len(data) - off < 8:
            return out, "incomplete frame %s" % data[off:].hex()
        t, p, l, u = struct.unpack(">HHHB", data[off:off + 7])
        if l < 2 or len(data) - off < 6 + l:
            return out, "ill-formed frame %s" % data[off:off + 40].hex()
        out.append((t, p, u, data[off + 7:off + 6 + l]))
        off += 6 + l
    return out, None


def one(w, dev, cl, tid, unit, pdu, wait=0.01, proto=0):
    """send a request in one piece and wait for the reply; error text or None"""
    e = dev.reply(tid, unit, pdu, proto)
    before = len(cl.drain())
    try:
        cl.send(ref.mbap(tid, unit, pdu, proto))
    except OSError as exc:
        return "the connection is broken: %r" % exc
    end = w.now + wait
    need = min(len(a) for a in e) if isinstance(e, frozenset) else len(e)
    while w.now < end:
        w.sleep(min(0.2, max(1e-4, end - w.now)))
        if len(cl.drain()) - before >= need > 0:
            break
    w.sleep(1e-3)
    return match([e], cl.drain()[before:])
