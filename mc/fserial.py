"""A serial port with the semantics of pyserial's POSIX Serial, on virtual time.

Read: blocks until `size` bytes were read, the total timeout expired, or cancel_read() was called (a pipe: sticky until
the next read).  The inter-byte timeout has no effect of its own with VMIN/VTIME > 0 on a select()-driven read, as in
pyserial.  Everything raises on a closed port; open() on an open port raises.
"""
from .world import current, Killed


class SerialError(OSError):
    pass


class FakeSerial(object):
    def __init__(self, world, is_open=False, baudrate=9600, timeout=None, name="/dev/fake"):
        self.w = world
        self.name = name
        self.port = name
        self.portstr = name
        self._baud = baudrate
        self._timeout = timeout
        self._ibt = None
        self.write_timeout = None
        self.is_open = is_open
        self.rx = bytearray()        # bytes received by the driver, not read yet
        self.aborts = 0              # pending cancel_read
        self.written = []            # one entry per write() call
        self.write_times = []
        self.on_write = None         # device behind the line
        self.fault = None            # callable(op) -> None or exception
        self.log = []
        self.opens = 1 if is_open else 0
        self.closes = 0
        self.gen = 0
        self.settings = []
        self.parity, self.bytesize, self.stopbits = "N", 8, 1
        self.xonxoff = self.rtscts = self.dsrdtr = False

    # -- settings
    @property
    def baudrate(self):
        return self._baud

    @baudrate.setter
    def baudrate(self, v):
        self._baud = v

    @property
    def timeout(self):
        return self._timeout

    @timeout.setter
    def timeout(self, v):
        if v is not None:
            v + 1
            if v < 0:
                raise ValueError("Not a valid timeout: %r" % (v,))
        self._timeout = v
        self.settings.append(("timeout", v))

    @property
    def inter_byte_timeout(self):
        return self._ibt

    @inter_byte_timeout.setter
    def inter_byte_timeout(self, v):
        if v is not None:
            if v < 0:
                raise ValueError("Not a valid timeout: %r" % (v,))
            v + 1
        self._ibt = v
        self.settings.append(("inter_byte_timeout", v))

    interCharTimeout = inter_byte_timeout

    # -- helpers
    def _op(self, op):
        self.w.point()
        if self.w.aborting and current():
            raise Killed()
        self.log.append(op)
        if self.fault is not None:
            e = self.fault(op)
            if e is not None:
                raise e

    def _need_open(self):
        if not self.is_open:
            raise SerialError("Attempting to use a port that is not open")

    def feed(self, data):
        """bytes arrive on the line (lost when the port is closed)"""
        if self.is_open:
            self.rx += data

    # -- pyserial API
    def open(self):
        self._op("open")
        if self.is_open:
            raise SerialError("Port is already open.")
        self.is_open = True
        self.opens += 1
        self.gen += 1
        self.aborts = 0
        self.rx = bytearray()

    def close(self):
        if self.is_open:
            self._op("close")
            self.is_open = False
            self.closes += 1
            self.aborts = 0

    def isOpen(self):
        return self.is_open

    @property
    def in_waiting(self):
        self._op("in_waiting")
        self._need_open()
        return len(self.rx)

    def inWaiting(self):
        return self.in_waiting

    def read(self, size=1):
        self._op("read")
        self._need_open()
        gen = self.gen
        out = bytearray()
        deadline = None if self._timeout is None else self.w.now + self._timeout
        while len(out) < size:
            if not self.aborts and not self.rx:
                left = None if deadline is None else deadline - self.w.now
                if left is None or left > 0:
                    self.w.block(lambda: self.rx or self.aborts or not self.is_open or self.gen != gen, left)
                else:
                    self.w.tick()
            if not self.is_open or self.gen != gen:
                raise SerialError("read failed: port closed")
            if self.aborts:
                self.aborts = 0
                break
            if not self.rx:
                break
            n = size - len(out)
            out += self.rx[:n]
            del self.rx[:n]
            if deadline is not None and self.w.now >= deadline:
                break
        return bytes(out)

    def read_all(self):
        return self.read(self.in_waiting)

    def write(self, data):
        data = bytes(data)
        self._op("write")
        self._need_open()
        self.written.append(data)
        self.write_times.append(self.w.now)
        if self.on_write is not None:
            self.on_write(data)
        return len(data)

    def flush(self):
        self._op("flush")
        self._need_open()

    def reset_input_buffer(self):
        self._op("reset_input_buffer")
        self._need_open()
        self.rx = bytearray()

    flushInput = reset_input_buffer

    def reset_output_buffer(self):
        self._op("reset_output_buffer")
        self._need_open()

    flushOutput = reset_output_buffer

    def cancel_read(self):
        self._op("cancel_read")
        if self.is_open:
            self.aborts = 1

    def cancel_write(self):
        pass

    def fileno(self):
        return 3
