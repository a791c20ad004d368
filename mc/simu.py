"""A modbus_tk.simulator.Simulator running in a World, its console and RPC users, and a twin databank for the API's effect."""
import builtins
import struct
import sys

from . import ref

RPC_PORT = 2711


class Sim(object):
    """the simulator runs in its own task; users type lines on the console or connect to the RPC port"""

    def __init__(self, w, lib, server=None, cls=None, **kw):
        self.w, self.lib = w, lib
        w.net.points = False
        mod = lib.simulator

        def fake_print(*a, **k):
            # what the simulator itself prints goes to the console; log records do not
            if k.get("file") is None:
                if sys._getframe(1).f_globals.get("__name__", "").endswith(".utils"):
                    return
                k["file"] = w.stdout
            builtins.print(*a, **k)
        lib._loader.set_builtin("print", fake_print)
        self.server = server if server is not None else lib.modbus_tcp.TcpServer(port=1502, address="127.0.0.1")
        self.sim = (cls(mod) if cls else mod.Simulator)(self.server, **kw)
        self.task = None
        self.exc = None
        self.seen = 0

    def start(self):
        def run():
            try:
                self.sim.start()
            except Exception as e:   # noqa
                self.exc = e
        self.task = self.w.spawn(run, "SIM", foreground=False)
        self.w.block(lambda: RPC_PORT in self.w.net.listeners and 1502 in self.w.net.listeners or self.task.done, 10.0)
        self.w.sleep(0.7)

    def alive(self):
        return self.task is not None and not self.task.done

    # -- console
    def console(self, line, end="\n", wait=8.0):
        """everything written on the console in answer to a line, after the simulator had time to write more"""
        out = self.w.stdout
        n = len(out.text)
        self.w.stdin.type(line + end)
        self.w.block(lambda: "\n" in out.text[n:] or not self.alive(), wait)
        self.w.sleep(0.01)
        return out.text[n:]

    # -- RPC
    def rpc(self, line, end="\r\n", pieces=None, wait=8.0):
        """everything an RPC client receives before the connection is closed"""
        c = RpcUser(self.w)
        try:
            c.send((line + end) if isinstance(line, str) else line)
            return c.answer(wait)
        finally:
            c.close()


class RpcUser(object):
    def __init__(self, w):
        self.w = w
        self.s = w.net.socket_class()
        self.s.connect(("127.0.0.1", RPC_PORT))
        self.text = b""

    def send(self, data):
        self.s.sendall(data.encode("utf-8") if isinstance(data, str) else data)

    def poll(self):
        rx = self.s.rx
        while rx.segs:
            self.text += bytes(rx.segs.pop(0))
        return self.text

    def answer(self, wait=8.0):
        end = self.w.now + wait
        rx = self.s.rx
        while self.w.now < end:
            self.w.block(lambda: bool(rx.segs) or rx.eof, end - self.w.now)
            self.poll()
            if rx.eof:
                self.poll()
                break
        return self.text.decode("utf-8", "replace")

    def close(self):
        self.s.close()


def judge_line(text):
    """('done', command, value) / ('error', text) / None if the text is not one answer"""
    if not text.endswith("\n") or text.count("\n") != 1:
        return None
    body = text.rstrip("\r\n")
    if not text.endswith("\r\n"):
        return None
    if body == "bye-bye":
        return ("bye",)
    head, sep, rest = body.partition(" done: ")
    if sep and " " not in head:
        return ("done", head, rest)
    if body.startswith("error: ") or body.partition(" error: ")[1]:
        return ("error", body)
    return None


class Twin(object):
    """the same commands through the API, on another databank"""

    def __init__(self, lib, fcts=()):
        self.lib = lib
        self.db = lib.modbus.Databank()
        self.hooks = {}
        self.fcts = fcts
        self.verbose = None

    def run(self, a):
        """(value or None when the command reports none) of a well-formed command; raises what the API raises"""
        c, db = a[0], self.db
        n = {"add_slave": 2, "has_slave": 2, "remove_slave": 2, "remove_all_slaves": 1, "add_block": 6, "remove_block": 3,
             "remove_all_blocks": 2, "get_values": 5, "install_hook": 3, "set_verbose": 2}.get(c)
        if n is not None:
            a = a[:n]
            if len(a) < n:
                raise IndexError()
        if c == "add_slave":
            sid = int(a[1])
            db.add_slave(sid)
            return str(sid)
        if c == "has_slave":
            try:
                db.get_slave(int(a[1]))
                return "1"
            except self.lib.modbus.MissingKeyError:
                return "0"
        if c == "remove_slave":
            db.remove_slave(int(a[1]))
            return None
        if c == "remove_all_slaves":
            db.remove_all_slaves()
            return None
        if c == "add_block":
            sid, typ, start, size = int(a[1]), int(a[3]), int(a[4]), int(a[5])
            db.get_slave(sid).add_block(a[2], typ, start, size)
            return a[2]
        if c == "remove_block":
            db.get_slave(int(a[1])).remove_block(a[2])
            return None
        if c == "remove_all_blocks":
            db.get_slave(int(a[1])).remove_all_blocks()
            return None
        if c == "set_values":
            sid, name, addr, vals = int(a[1]), a[2], int(a[3]), [int(v) for v in a[4:]]
            s = db.get_slave(sid)
            s.set_values(name, addr, vals)
            return " ".join(str(v) for v in s.get_values(name, addr, len(vals)))
        if c == "get_values":
            sid, name, addr, size = int(a[1]), a[2], int(a[3]), int(a[4])
            return " ".join(str(v) for v in db.get_slave(sid).get_values(name, addr, size))
        if c == "install_hook":
            f = self.fcts.index(a[2])
            self.hooks.setdefault(a[1], []).append(a[2])
            return None
        if c == "uninstall_hook":
            name, f = a[1], (a[2] if len(a) > 2 else "")
            if f:
                self.fcts.index(f)
                self.hooks[name].remove(f)
            else:
                self.hooks[name] = []
            return None
        if c == "set_verbose":
            v = int(a[1])
            self.verbose = bool(v)
            return str(v)
        raise KeyError(c)


def dump(lib, db, sids, addrs, names):
    """everything a databank (or server) shows through its API and through requests"""
    out = []
    for sid in sids:
        try:
            s = db.get_slave(sid)
        except lib.modbus.MissingKeyError:
            out.append((sid, None))
            continue
        for name in names:
            for a in addrs[:3]:
                try:
                    out.append((sid, name, a, tuple(s.get_values(name, a, 1))))
                except Exception as e:   # noqa
                    out.append((sid, name, a, type(e).__name__))
        q = lib.modbus_tcp.TcpQuery
        bank = db.get_db() if hasattr(db, "get_db") else db
        for fc in (1, 2, 3, 4):
            for a in addrs:
                r = bank.handle_request(q(), ref.mbap(1, sid, struct.pack(">BHH", fc, a, 1)))
                out.append((sid, fc, a, bytes(r or b"")))
    return out
