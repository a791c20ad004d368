"""Reference model written from the Modbus specification: slave, PDUs, MBAP and RTU framing.  Deliberately boring."""
import struct

COILS, DISCRETE, HOLDING, INPUT = 1, 2, 3, 4
TABLE_OF = {1: COILS, 2: DISCRETE, 3: HOLDING, 4: INPUT, 5: COILS, 6: HOLDING, 15: COILS, 16: HOLDING, 22: HOLDING,
            23: HOLDING}
SUPPORTED = (1, 2, 3, 4, 5, 6, 7, 15, 16, 22, 23)
BITS = (COILS, DISCRETE)


def crc16(data):
    crc = 0xFFFF
    for b in data:
        crc ^= b
        for _ in range(8):
            if crc & 1:
                crc = (crc >> 1) ^ 0xA001
            else:
                crc >>= 1
    return crc


def rtu(addr, pdu):
    body = bytes([addr]) + bytes(pdu)
    c = crc16(body)
    return body + bytes([c & 0xFF, c >> 8])


def mbap(tid, unit, pdu, proto=0, length=None):
    return struct.pack(">HHHB", tid, proto, len(pdu) + 1 if length is None else length, unit) + bytes(pdu)


def u16(v):
    return v & 0xFFFF


def s16(v):
    v &= 0xFFFF
    return v - 0x10000 if v & 0x8000 else v


class Refused(Exception):
    """the request breaks rules; .codes are the exception codes that name one of them"""

    def __init__(self, codes):
        Exception.__init__(self, codes)
        self.codes = set(codes)


class RefSlave(object):
    def __init__(self, unsigned=True):
        self.unsigned = unsigned
        self.blocks = {}      # name -> [type, start, [values]]

    def copy(self):
        s = RefSlave(self.unsigned)
        s.blocks = {k: [b[0], b[1], list(b[2])] for k, b in self.blocks.items()}
        return s

    def key(self):
        return tuple(sorted((k, b[0], b[1], tuple(b[2])) for k, b in self.blocks.items()))

    def add(self, name, typ, start, size):
        self.blocks[name] = [typ, start, [0] * size]

    def can_add(self, name, typ, start, size):
        if name in self.blocks or typ not in (1, 2, 3, 4) or size <= 0 or start < 0:
            return False
        for b in self.blocks.values():
            if b[0] == typ and start < b[1] + len(b[2]) and b[1] < start + size:
                return False
        return True

    def find(self, typ, addr, n):
        for b in self.blocks.values():
            if b[0] == typ and b[1] <= addr and addr + n <= b[1] + len(b[2]):
                return b
        return None

    def _norm(self, v):
        return u16(v) if self.unsigned else s16(v)

    def read_bits(self, typ, addr, n):
        b = self.find(typ, addr, n)
        vals = b[2][addr - b[1]:addr - b[1] + n]
        return pack_bits(vals)

    def read_regs(self, typ, addr, n):
        b = self.find(typ, addr, n)
        vals = b[2][addr - b[1]:addr - b[1] + n]
        return b"".join(struct.pack(">H", u16(v)) for v in vals)

    def _write(self, typ, addr, vals):
        b = self.find(typ, addr, len(vals))
        o = addr - b[1]
        b[2][o:o + len(vals)] = vals

    def handle(self, pdu, broadcast=False):
        """the normal reply pdu (state updated), or Refused (state unchanged)"""
        pdu = bytes(pdu)
        fc = pdu[0]
        if fc not in SUPPORTED:
            raise Refused([1])
        broken = set()
        trunc = False
        if fc in (1, 2, 3, 4):
            if len(pdu) < 5:
                raise Refused([3, 4])
            addr, n = struct.unpack(">HH", pdu[1:5])
            if not 1 <= n <= (2000 if fc in (1, 2) else 125):
                broken.add(3)
            if self.find(TABLE_OF[fc], addr, n) is None:
                broken.add(2)
            if broken:
                raise Refused(broken)
            data = (self.read_bits if fc in (1, 2) else self.read_regs)(TABLE_OF[fc], addr, n)
            return bytes([fc, len(data)]) + data
        if fc == 7:
            return None       # any status byte
        if fc == 5:
            if len(pdu) < 5:
                raise Refused([3, 4])
            addr, v = struct.unpack(">HH", pdu[1:5])
            if v not in (0, 0xFF00):
                broken.add(3)
            if self.find(COILS, addr, 1) is None:
                broken.add(2)
            if broken:
                raise Refused(broken)
            self._write(COILS, addr, [1 if v else 0])
            return pdu[:5]
        if fc == 6:
            if len(pdu) < 5:
                raise Refused([3, 4])
            addr, v = struct.unpack(">HH", pdu[1:5])
            if self.find(HOLDING, addr, 1) is None:
                raise Refused([2])
            self._write(HOLDING, addr, [self._norm(v)])
            return pdu[:5]
        if fc in (15, 16):
            if len(pdu) < 6:
                raise Refused([3, 4])
            addr, n, bc = struct.unpack(">HHB", pdu[1:6])
            want = (n + 7) // 8 if fc == 15 else 2 * n
            if not 1 <= n <= (1968 if fc == 15 else 123) or bc != want:
                broken.add(3)
            if len(pdu) - 6 < bc:
                broken |= {3, 4}
            if self.find(TABLE_OF[fc], addr, n) is None:
                broken.add(2)
            if broken:
                raise Refused(broken)
            data = pdu[6:]
            if fc == 15:
                vals = [(data[i // 8] >> (i % 8)) & 1 for i in range(n)]
            else:
                vals = [self._norm(struct.unpack(">H", data[2 * i:2 * i + 2])[0]) for i in range(n)]
            self._write(TABLE_OF[fc], addr, vals)
            return pdu[:5]
        if fc == 22:
            if len(pdu) < 7:
                raise Refused([3, 4])
            addr, am, om = struct.unpack(">HHH", pdu[1:7])
            b = self.find(HOLDING, addr, 1)
            if b is None:
                raise Refused([2])
            cur = u16(b[2][addr - b[1]])
            self._write(HOLDING, addr, [self._norm((cur & am) | (om & ~am & 0xFFFF))])
            return pdu[:7]
        if fc == 23:
            if len(pdu) < 10:
                raise Refused([3, 4])
            ra, rn, wa, wn, bc = struct.unpack(">HHHHB", pdu[1:10])
            if not 1 <= rn <= 125 or not 1 <= wn <= 121 or bc != 2 * wn:
                broken.add(3)
            if len(pdu) - 10 < bc:
                broken |= {3, 4}
            if self.find(HOLDING, ra, rn) is None or self.find(HOLDING, wa, wn) is None:
                broken.add(2)
            if broken:
                raise Refused(broken)
            data = pdu[10:]
            self._write(HOLDING, wa, [self._norm(struct.unpack(">H", data[2 * i:2 * i + 2])[0]) for i in range(wn)])
            out = self.read_regs(HOLDING, ra, rn)
            return bytes([fc, len(out)]) + out
        raise AssertionError(fc)


def pack_bits(vals):
    out = bytearray((len(vals) + 7) // 8)
    for i, v in enumerate(vals):
        if v:
            out[i // 8] |= 1 << (i % 8)
    return bytes(out)


def unpack_bits(data, n):
    return tuple((data[i // 8] >> (i % 8)) & 1 for i in range(n))


def regs(vals):
    return b"".join(struct.pack(">H", u16(v)) for v in vals)


def same_slave(slave, model, err=None):
    """does the real slave hold exactly what the model holds?  (through the public API)"""
    for name, (typ, start, vals) in model.blocks.items():
        got = slave.get_values(name, start, len(vals))
        if len(got) != len(vals) or any(g != v for g, v in zip(got, vals)):
            if err is not None:
                for i, (g, v) in enumerate(zip(got, vals)):
                    if g != v:
                        err.append("block %s address %d holds %r instead of %r" % (name, start + i, g, v))
                        break
                else:
                    err.append("block %s has %d values instead of %d" % (name, len(got), len(vals)))
            return False
    return True


def build_slave(slave, model):
    """make the real slave look like the model"""
    for name, (typ, start, vals) in model.blocks.items():
        slave.add_block(name, typ, start, len(vals))
        slave.set_values(name, start, list(vals))


def load_slave(slave, model):
    for name, (typ, start, vals) in model.blocks.items():
        slave.set_values(name, start, list(vals))
