"""Scripted Modbus devices for master checks: over TCP (MBAP or RTU framing) and behind a FakeSerial."""
import struct

from . import ref
from .world import Pipe


def request_len_rtu(buf):
    """length of the RTU request at the start of buf, None if more bytes are needed"""
    if len(buf) < 2:
        return None
    fc = buf[1]
    if fc in (1, 2, 3, 4, 5, 6):
        return 8
    if fc == 7:
        return 4
    if fc in (15, 16):
        return 9 + buf[6] if len(buf) > 6 else None
    if fc == 22:
        return 10
    if fc == 23:
        return 13 + buf[10] if len(buf) > 10 else None
    return len(buf)


class Conn(object):
    """one accepted connection, seen from the device"""

    def __init__(self, peer, sock):
        self.peer, self.sock = peer, sock
        self.w = peer.w
        self.buf = b""
        self.requests = []
        self.raw = b""
        sock.rx = Pipe()
        sock.on_send = self._data
        sock.on_close = self._closed
        self.closed = False
        self.gone = False             # the device closed its side completely

    def _data(self, data):
        if self.gone:
            # nobody reads any more: the device's stack answers RST
            self.sock.got_rst()
            return
        self.raw += data
        self.buf += data
        while self.buf:
            if self.peer.framing == "tcp":
                if len(self.buf) < 6:
                    return
                n = 6 + struct.unpack(">H", self.buf[4:6])[0]
            else:
                n = request_len_rtu(self.buf)
                if n is None:
                    return
            if len(self.buf) < n:
                return
            req, self.buf = self.buf[:n], self.buf[n:]
            self.requests.append(req)
            self.peer.requests.append(req)
            self.peer.handler(self, req)

    def _closed(self):
        self.closed = True

    # -- what the device does
    def push(self, data, delay=0.0):
        def fn():
            if not self.sock.rx.eof:
                self.sock.rx.put(data)
        fn() if delay <= 0 else self.w.at(delay, fn)

    def eof(self, delay=0.0, half=False):
        """the device closes the connection (half: it only ends its sending direction)"""
        def fn():
            self.sock.rx.eof = True
            self.gone = not half
        fn() if delay <= 0 else self.w.at(delay, fn)

    def rst(self, delay=0.0):
        def fn():
            self.gone = True
            self.sock.got_rst()
        fn() if delay <= 0 else self.w.at(delay, fn)


class Peer(object):
    """a device listening on a port; handler(conn, request) decides what it does"""

    def __init__(self, w, port, framing="tcp", handler=None):
        self.w, self.port, self.framing = w, port, framing
        self.conns = []
        self.requests = []
        self.handler = handler or self.answer
        self.on_connect = None        # callable(sock) -> None / exception / "silent"
        self.model = ref.RefSlave(True)
        self.attempts = 0
        w.net.peers[port] = self._connect

    def _connect(self, sock, addr):
        self.attempts += 1
        if self.on_connect is not None:
            r = self.on_connect(sock)
            if r is not None:
                return r
        self.conns.append(Conn(self, sock))
        return None

    def open_conns(self):
        return [c for c in self.conns if not c.closed]

    def split(self, req):
        """(tid, unit, pdu) of a request"""
        if self.framing == "tcp":
            tid, _p, _l, unit = struct.unpack(">HHHB", req[:7])
            return tid, unit, req[7:]
        return None, req[0], req[1:-2]

    def frame(self, req, pdu):
        tid, unit, _ = self.split(req)
        return ref.mbap(tid, unit, pdu) if self.framing == "tcp" else ref.rtu(unit, pdu)

    def reply_pdu(self, req):
        _, unit, pdu = self.split(req)
        try:
            r = self.model.handle(pdu)
            return r if r is not None else bytes([pdu[0], 0x5A])
        except ref.Refused as e:
            return bytes([pdu[0] | 0x80, sorted(e.codes)[0]])

    def answer(self, conn, req):
        if self.split(req)[1] != 0 or self.framing == "tcp":
            conn.push(self.frame(req, self.reply_pdu(req)))


class SerialPeer(object):
    """a device behind a FakeSerial"""

    def __init__(self, serial, handler=None, echo=False):
        self.s = serial
        self.w = serial.w
        self.requests = []
        self.model = ref.RefSlave(True)
        self.handler = handler or self.answer
        self.echo = echo
        self.framing = "rtu"
        serial.on_write = self._data

    def _data(self, data):
        self.requests.append(data)
        if self.echo:
            self.s.feed(data)
        self.handler(self, data)

    split = Peer.split
    frame = Peer.frame
    reply_pdu = Peer.reply_pdu

    def push(self, data, delay=0.0):
        if delay <= 0:
            self.s.feed(data)
        else:
            self.w.at(delay, lambda: self.s.feed(data))

    def answer(self, conn, req):
        self.push(self.frame(req, self.reply_pdu(req)))


def fill(model):
    model.add("c", 1, 0, 2000)
    model.add("d", 2, 0, 2000)
    model.add("h", 3, 0, 300)
    model.add("i", 4, 0, 300)
    model.blocks["c"][2][:] = [(i * 3 // 2) % 2 for i in range(2000)]
    model.blocks["d"][2][:] = [(i // 3) % 2 for i in range(2000)]
    model.blocks["h"][2][:] = [(i * 777 + 5) & 0xFFFF for i in range(300)]
    model.blocks["i"][2][:] = [(i * 333 + 0x8001) & 0xFFFF for i in range(300)]


def call(m, *a, **k):
    """('ok', value) or ('exc', exception)"""
    try:
        return "ok", m.execute(*a, **k)
    except Exception as e:   # noqa
        return "exc", e


# requests of every function with the reply a device would give: (name, fc, kwargs, reply pdu, values)
def exchanges():
    regs = [0, 1, 0x7FFF, 0x8000, 0xFFFF, 0x1234]
    out = [
        ("coils", 1, dict(starting_address=3, quantity_of_x=11), bytes([1, 2, 0xA5, 0x05]), (1, 0, 1, 0, 0, 1, 0, 1, 1, 0, 1)),
        ("discrete", 2, dict(starting_address=0, quantity_of_x=8), bytes([2, 1, 0x81]), (1, 0, 0, 0, 0, 0, 0, 1)),
        ("holding", 3, dict(starting_address=10, quantity_of_x=3), bytes([3, 6]) + ref.regs(regs[3:]), (0x8000, 0xFFFF, 0x1234)),
        ("input", 4, dict(starting_address=1, quantity_of_x=1), bytes([4, 2]) + ref.regs([0xBEEF]), (0xBEEF,)),
        ("float", 3, dict(starting_address=1, quantity_of_x=4, data_format=">ff"), bytes([3, 8]) + struct.pack(">ff", 1.5, -2.25), (1.5, -2.25)),
        ("signed", 4, dict(starting_address=1, quantity_of_x=2, data_format=">hh"), bytes([4, 4, 0x80, 0, 0xFF, 0xFF]), (-32768, -1)),
        ("wcoil", 5, dict(starting_address=7, output_value=1), bytes([5, 0, 7, 0xFF, 0]), (7, 0xFF00)),
        ("wreg", 6, dict(starting_address=8, output_value=0x1234), bytes([6, 0, 8, 0x12, 0x34]), (8, 0x1234)),
        ("wcoils", 15, dict(starting_address=9, output_value=[1, 0, 1]), bytes([15, 0, 9, 0, 3]), (9, 3)),
        ("wregs", 16, dict(starting_address=9, output_value=[1, 2]), bytes([16, 0, 9, 0, 2]), (9, 2)),
        ("mask", 22, dict(starting_address=4, and_mask=0xF2, or_mask=0x25), bytes([22, 0, 4, 0, 0xF2, 0, 0x25]), (4, 0xF2, 0x25)),
        ("rw", 23, dict(starting_address=2, quantity_of_x=2, output_value=[5], write_starting_address_fc23=3),
         bytes([23, 4, 0, 1, 0xFF, 0xFE]), (1, 0xFFFE)),
        ("status", 7, dict(starting_address=0), bytes([7, 0x6D]), (0x6D,)),
        ("file", 20, dict(starting_address=(4,), quantity_of_x=(2,), number_file=(1,)), bytes([20, 6, 5, 6, 0x0D, 0xFE, 0, 0x20]),
         ((0x0DFE, 0x20),)),
        ("files", 20, dict(starting_address=(1, 9), quantity_of_x=(1, 2), number_file=(4, 3)),
         bytes([20, 10, 3, 6, 0x0D, 0xFE, 5, 6, 0x33, 0xCD, 0, 0x40]), ((0x0DFE,), (0x33CD, 0x40))),
        ("diagnostic", 8, dict(starting_address=0, output_value=[0xA5, 0x37]), bytes([8, 0, 0, 0xA5, 0x37]), (0, 0xA5, 0x37)),
        ("wfloats", 16, dict(starting_address=2, output_value=[1.5, -2.25], data_format=">ff"), bytes([16, 0, 2, 0, 4]), (2, 4)),
        ("bits", 2, dict(starting_address=6, quantity_of_x=16), bytes([2, 2, 0x81, 0x7F]), (1, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 0)),
        ("device", 43, dict(starting_address=0, output_value=[1, 0]), bytes([43, 14, 1, 1, 0, 0, 1, 0, 2, 65, 66]),
         (14, 1, 1, 0, 0, 1, 0, 2, 65, 66)),
    ]
    return out
