"""Driving real slaves through the public request path (query object + databank), with a model next to them."""
import struct

from . import ref, loader

NAMES = {1: "c", 2: "d", 3: "h", 4: "i"}


class Dev(object):
    """a databank with slaves and their models; requests go through Databank.handle_request with TCP or RTU framing"""

    def __init__(self, lib=None):
        self.lib = lib or loader.plain()
        self.db = self.lib.modbus.Databank()
        self.models = {}
        self.slaves = {}
        self.tid = 0

    def add_slave(self, sid, unsigned, blocks):
        s = self.db.add_slave(sid, unsigned=unsigned)
        m = ref.RefSlave(unsigned)
        for i, b in enumerate(blocks):
            typ, start, size = b[:3]
            name = b[3] if len(b) > 3 else "%s%d" % (NAMES[typ], i)
            s.add_block(name, typ, start, size)
            m.add(name, typ, start, size)
        self.slaves[sid] = s
        self.models[sid] = m
        return s, m

    def fill(self, sid, name, start, values):
        self.slaves[sid].set_values(name, start, list(values))
        b = self.models[sid].blocks[name]
        b[2][start - b[1]:start - b[1] + len(values)] = list(values)

    def tcp(self, sid, pdu):
        """request over TCP framing: (reply pdu or None, error text or None)"""
        self.tid = (self.tid + 1) & 0xFFFF
        q = self.lib.modbus_tcp.TcpQuery()
        resp = self.db.handle_request(q, ref.mbap(self.tid, sid, pdu))
        if not resp:
            return None, None
        resp = bytes(resp)
        if len(resp) < 8:
            return None, "reply %s is shorter than a frame" % resp.hex()
        t, p, l, u = struct.unpack(">HHHB", resp[:7])
        if t != self.tid or p != 0 or u != sid or l != len(resp) - 6:
            return None, "reply header %s does not fit request tid=%d unit=%d" % (resp[:7].hex(), self.tid, sid)
        return resp[7:], None

    def rtu(self, sid, pdu):
        q = self.lib.modbus_rtu.RtuQuery()
        resp = self.db.handle_request(q, ref.rtu(sid, pdu))
        if not resp:
            return None, None
        resp = bytes(resp)
        if len(resp) < 4:
            return None, "reply %s is shorter than a frame" % resp.hex()
        if resp[0] != sid:
            return None, "reply from address %d instead of %d" % (resp[0], sid)
        if ref.rtu(sid, resp[1:-2]) != resp:
            return None, "reply %s has a wrong CRC" % resp.hex()
        return resp[1:-2], None

    def send(self, sid, pdu, framing="tcp"):
        try:
            return (self.tcp if framing == "tcp" else self.rtu)(sid, pdu)
        except Exception as e:   # noqa
            return None, "request %s raised %r" % (bytes(pdu).hex(), e)

    def same(self, err=None):
        return all(ref.same_slave(self.slaves[s], self.models[s], err) for s in self.models)


def step(dev, sid, pdu, framing="tcp", check_all=True):
    """send one request to real code and model; returns an error text or None"""
    pdu = bytes(pdu)
    fc = pdu[0]
    m = dev.models[sid]
    try:
        want = m.handle(pdu)
        codes = None
    except ref.Refused as e:
        codes = e.codes
        want = None
    got, err = dev.send(sid, pdu, framing)
    if err:
        return err
    if got is None:
        return "no reply to request %s" % pdu.hex()
    if codes is not None:
        if len(got) != 2 or got[0] != fc + 0x80 or got[1] not in codes:
            return "request %s got %s instead of exception %s" % (pdu.hex(), got.hex(), sorted(codes))
    elif want is None:
        if len(got) != 2 or got[0] != fc:
            return "request %s got %s" % (pdu.hex(), got.hex())
    elif got != want:
        return "request %s got %s instead of %s" % (pdu.hex(), got.hex()[:200], want.hex()[:200])
    if check_all:
        errs = []
        if not dev.same(errs):
            return "after request %s (reply %s): %s" % (pdu.hex(), got.hex()[:60], errs[0])
    return None
