"""C23: each simulator command gets exactly one answer and the API's effect.

A real Simulator (command loop, console and RPC threads, a served databank) runs in the controlled world.  Its states are
enumerated by histories of commands; in each of them every command line of a large alphabet (well-formed ones, every
number of arguments, every argument replaced by odd ones) is given on the console and by RPC, and answer and effect are
compared with those of the API calls on a twin databank.
"""
from mc import simu
from checks.c07 import in_world

BOUNDS = ("every state reached by up to 2 (thorough 3) of 16 commands; in each, ~280 command lines: the well-formed ones, each "
          "command with 0..n+2 arguments, each argument replaced by 12 odd values, odd spacing, unknown commands; each by "
          "console and RPC with 3 line ends; a history of 1600 commands with up to 4097 values, 255 slaves, 300 blocks and names of up to 1001 characters")
FCTS = ("f1", "f2")
HOOKS = ("modbus.Server.before_handle_request", "some.hook")
SIDS, ADDRS, NAMES = (1, 2, 9), (0, 1, 2, 5, 9), ("h0", "c0", "i_1")

ALPHA = ["add_slave 1", "add_slave 2", "remove_slave 1", "remove_all_slaves", "add_block 1 h0 3 0 4", "add_block 1 c0 1 0 6",
         "add_block 2 h0 4 1 3", "remove_block 1 h0", "remove_all_blocks 1", "set_values 1 h0 0 11 22 33", "set_values 1 c0 1 1 0 1",
         "set_values 2 h0 2 65535", "install_hook some.hook f1", "install_hook some.hook f2", "uninstall_hook some.hook f1",
         "uninstall_hook some.hook"]
WELL = ALPHA + ["has_slave 1", "has_slave 2", "has_slave 9", "get_values 1 h0 0 4", "get_values 1 h0 1 1", "get_values 1 c0 0 6",
                "get_values 2 h0 1 3", "get_values 1 h0 3 2", "set_values 1 h0 3 1 2", "set_values 1 h0 0 5", "set_values 2 h0 1 1 2 3",
                "add_block 1 i_1 4 9 1", "add_block 1 x 3 2 5", "add_block 1 h0 4 100 2", "add_block 2 c0 2 5 5", "add_slave 9",
                "remove_slave 9", "remove_slave 2", "add_slave 0", "add_slave 256", "add_block 9 b 3 0 1", "remove_block 1 nob",
                "remove_block 9 h0", "set_verbose 1", "set_verbose 0", "install_hook modbus.Server.before_handle_request f2",
                "uninstall_hook modbus.Server.before_handle_request f2", "uninstall_hook some.hook f2",
                "install_hook some.hook nof", "remove_all_blocks 2", "remove_all_blocks 9", "add_block 1 y 3 4 0", "add_block 1 z 7 0 1",
                "set_values 1 h0 1 70000", "set_values 1 c0 0 2"]
ODD = ["", "x", "-1", "1.5", "99999", "0", "+1", "01", "1_0", "1e3", "\u00e9", "None"]


def lines():
    out = []
    sigs = {"add_slave": "1", "has_slave": "1", "remove_slave": "1", "remove_all_slaves": "", "add_block": "1 h0 3 0 4",
            "remove_block": "1 h0", "remove_all_blocks": "1", "set_values": "1 h0 0 11 22", "get_values": "1 h0 0 2",
            "install_hook": "some.hook f1", "uninstall_hook": "some.hook f1", "set_verbose": "1"}
    for c, sig in sigs.items():
        args = sig.split()
        for n in range(len(args)):
            out.append(" ".join([c] + args[:n]))
        out.append(" ".join([c] + args) + " 7")
        out.append(" ".join([c] + args) + " extra words")
        for i in range(len(args)):
            for o in ODD:
                out.append(" ".join([c] + args[:i] + [o] + args[i + 1:]))
        out.append(" " + c + " " + sig)
        out.append(c + "  " + sig)
        out.append(c + " " + sig + " ")
        out.append(c + "\t" + sig)
        out.append(c.upper() + " " + sig)
    out += ["", " ", "\t", "x", "quitx", "quit_all", "quitter 1", "x quit", "QUIT", "help", "\u00e9", "add_slave;1", "done: 1", "a" * 700,
            "set_values 1 h0 0 " + " ".join("1" for _ in range(300)), "error: x", "None", "custom", "custom 4 5", "broken", "broken 1",
            "nothing", "custom "]
    seen, res = set(), []
    for l in out:
        if l not in seen and l not in WELL:
            seen.add(l)
            res.append(l)
    return res


class Rec(object):
    def __init__(self, name, log):
        self.name, self.log = name, log

    def __call__(self, args):
        self.log.append(self.name)


class Rig(object):
    def __init__(self, w, lib, kind="tcp"):
        self.w, self.lib = w, lib
        self.verbose = []

        class Srv(lib.modbus_tcp.TcpServer):
            def set_verbose(srv, v):
                self.verbose.append(bool(v))
                lib.modbus_tcp.TcpServer.set_verbose(srv, v)
        if kind == "composite":
            class Comp(lib.simulator.CompositeServer):
                def set_verbose(srv, v):
                    self.verbose.append(bool(v))
                    lib.simulator.CompositeServer.set_verbose(srv, v)
            srv = Comp([lib.modbus_tcp.TcpServer], [(1502, "127.0.0.1")])
        else:
            srv = Srv(port=1502, address="127.0.0.1")
        self.s = simu.Sim(w, lib, srv)
        self.hooklog = []
        self.fcts = {n: Rec(n, self.hooklog) for n in FCTS}
        for n, f in self.fcts.items():
            self.s.sim.declare_hook(n, f)
        self.custom = []
        self.s.sim.add_command("custom", self.do_custom)
        self.s.sim.add_command("broken", self.do_broken)
        self.s.sim.add_command("nothing", lambda args: None)
        self.t = simu.Twin(lib, FCTS)
        self.s.start()

    def do_custom(self, args):
        self.custom.append(tuple(args))
        return "c%d" % len(args)

    def do_broken(self, args):
        raise ValueError("it does not work")

    def hooks_seen(self, name):
        del self.hooklog[:]
        self.lib.hooks.call_hooks(name, ("x",))
        return list(self.hooklog)

    def state_error(self):
        a = simu.dump(self.lib, self.s.server, SIDS, ADDRS, NAMES)
        b = simu.dump(self.lib, self.t.db, SIDS, ADDRS, NAMES)
        if a != b:
            d = [(x, y) for x, y in zip(a, b) if x != y][:1]
            return "the simulator shows %r instead of %r" % d[0] if d else "the simulator shows other slaves"
        for h in HOOKS:
            if self.hooks_seen(h) != self.t.hooks.get(h, []):
                return "the functions hooked to %s are %r instead of %r" % (h, self.hooks_seen(h), self.t.hooks.get(h, []))
        if self.t.verbose is not None and self.verbose[-1:] != [self.t.verbose]:
            return "set_verbose was called with %r" % (self.verbose,)
        return None

    def command(self, line, how, end, well=False):
        """give a line and judge it; error text or None"""
        nv, nc = len(self.verbose), len(self.custom)
        txt = getattr(self.s, how)(line, end)
        if not self.s.alive():
            return "%r ended the simulator (%r)" % (line, self.s.exc)
        j = simu.judge_line(txt)
        if j is None:
            return "%r was answered %r" % (line, txt)
        words = line.strip("\r\n").split(" ")
        name = words[0]
        known = name in ("custom", "broken", "nothing")
        if known or (name == "custom"):
            if name == "broken":
                ok = j[0] == "error"
            else:
                ok = j[0] == "done" and j[1] == name and (name == "nothing" or (
                    self.custom[nc:] in ([tuple(words)], [tuple(line.split())]) and j[2] == "c%d" % len(self.custom[-1])))
            return None if ok else "%r was answered %r (called with %r)" % (line, txt, self.custom[nc:])
        # what may happen: nothing (with an error answer), or the effect of the API call
        well = well or line in WELL
        ways = [words] if well else [words, line.split()]
        applied, value, exc = False, None, None
        if j[0] == "done" or well:
            snap = dict(self.t.hooks)
            for words in ways:
                try:
                    value = self.t.run(words)
                    applied = True
                    break
                except Exception as e:   # noqa
                    exc = e
        name = words[0] if words else ""
        if j[0] == "done":
            if not applied:
                if not (name == "uninstall_hook" and not self.t.hooks.get(words[1] if len(words) > 1 else "", ())):
                    return "%r was answered %r although the API refuses it (%r)" % (line, txt, exc)
            elif j[1] != name or (value is not None and j[2] != value):
                return "%r was answered %r instead of the value %r" % (line, txt, value)
        elif j[0] == "error":
            if well and applied:
                if name == "uninstall_hook" and words[1] not in snap:
                    pass
                else:
                    return "%r was answered %r although the API accepts it" % (line, txt)
        else:
            return "%r was answered %r" % (line, txt)
        if name != "set_verbose" and len(self.verbose) != nv:
            return "%r changed the verbosity" % line
        return self.state_error()

    def reset(self, hist):
        for l in ["remove_all_slaves"] + ["uninstall_hook " + h for h in HOOKS]:
            self.s.console(l)
        self.t.db.remove_all_slaves()
        self.t.hooks.clear()
        for h in HOOKS:
            if self.hooks_seen(h):
                return "uninstall_hook left %r" % self.hooks_seen(h)
        for l in hist:
            e = self.command(l, "console", "\n")
            if e:
                return e
        return None


def states(lib, base, depth):
    """shortest history of every state reachable by `depth` commands of ALPHA from a base history, on the twin alone"""
    def key(hist):
        t = simu.Twin(lib, FCTS)
        for l in hist:
            try:
                t.run(l.split(" "))
            except Exception:   # noqa
                return None          # a refused command does not lead to a new state
        return repr((simu.dump(lib, t.db, SIDS, ADDRS, NAMES), sorted((k, v) for k, v in t.hooks.items() if v)))
    found = {key(base): base}
    layer = [base]
    for _ in range(depth):
        nxt = []
        for h in layer:
            for l in ALPHA:
                k = key(h + (l,))
                if k is not None and k not in found:
                    found[k] = h + (l,)
                    nxt.append(h + (l,))
        layer = nxt
    return sorted(found.values())


BASE = [(), ("add_slave 1", "add_block 1 h0 3 0 4", "set_values 1 h0 0 11 22 33"),
        ("add_slave 1", "add_slave 2", "add_block 1 c0 1 0 6", "add_block 2 h0 4 1 3", "install_hook some.hook f1",
         "install_hook some.hook f2")]


def state(ctx, kind, hist, ls, how, ends):
    if ctx.replay:
        c = ctx.replay["case"]
        kind, hist, ls, how, ends = c["kind"], c["history"], [c["line"]], c["how"], [c["end"]]

    def body(w, lib):
        rig = Rig(w, lib, kind)
        dirty = True
        for i, line in enumerate(ls):
            end = ends[i % len(ends)] if line.strip() else "\n"
            case = {"kind": kind, "history": hist, "line": line, "how": how, "end": end}
            ctx.cur = case
            if dirty:
                e = rig.reset(hist)
                if e:
                    ctx.fail("after %r: %s" % (hist, e), case)
                    return
            before = repr((simu.dump(lib, rig.t.db, SIDS, ADDRS, NAMES), rig.t.hooks))
            e = rig.command(line, how, end)
            ctx.trans()
            ctx.state((kind, hist, line, how))
            if e:
                ctx.fail("after %r by %s: %s" % (hist, how, e), case)
                return
            dirty = repr((simu.dump(lib, rig.t.db, SIDS, ADDRS, NAMES), rig.t.hooks)) != before
        # quit: one answer, and the command loop ends
        txt = getattr(rig.s, how)("quit", "\n")
        rig.w.sleep(0.1)
        ctx.trans()
        ctx.trace()
        if txt != "bye-bye\r\n" or rig.s.alive():
            ctx.fail("quit by %s was answered %r and the simulator %s" % (how, txt, "goes on" if rig.s.alive() else "ended"),
                     {"kind": kind, "history": hist, "line": "quit", "how": how, "end": "\n"})
        rig.s.sim.close()
    in_world(ctx, body)


def bulk(ctx, bases, depth, i, n, odd):
    from mc import loader
    lib = loader.plain()
    todo = set()
    for b in bases:
        for h in states(lib, b, depth):
            todo.add(h)
    ls = WELL + (lines() if odd else [])
    for h in sorted(todo)[i::n]:
        if ctx.out_of_time():
            ctx.capped = True
            return
        state(ctx, "tcp", h, ls, "console", ["\n"])
        if odd:
            state(ctx, "composite", h, ls, "rpc", ["\r\n", "\n"])


def long_lines(ctx, kind, how):
    """blocks of thousands of items, lines and answers of thousands of bytes, hundreds of slaves and blocks"""
    def body(w, lib):
        rig = Rig(w, lib, kind)
        end = "\n" if how == "console" else "\r\n"
        todo = ["add_slave 1", "add_block 1 h0 3 0 4096", "add_block 1 c0 1 1000 4096"]
        for n in (1, 2, 7, 30, 59, 60, 61, 63, 64, 65, 100, 120, 125, 126, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1024, 2000, 2048,
                  4000, 4096, 4097):
            for v in (0, 1, 60000):
                todo.append("set_values 1 h0 0 " + " ".join(str(v + i % 5000) for i in range(n)))
                todo.append("get_values 1 h0 0 %d" % n)
            todo.append("get_values 1 h0 %d %d" % (4096 - n, n))
            todo.append("set_values 1 h0 %d %s" % (4096 - n, " ".join("7" for _ in range(n))))
            todo.append("set_values 1 c0 1000 " + " ".join(str(i % 3 & 1) for i in range(n)))
            todo.append("get_values 1 c0 1000 %d" % n)
        todo += ["get_values 1 h0 0 4096", "get_values 1 c0 1000 4096"]
        for s in range(2, 256):
            todo += ["add_slave %d" % s, "add_block %d h0 3 0 4" % s, "set_values %d h0 1 %d" % (s, s)]
        todo += ["get_values %d h0 0 4" % s for s in range(2, 256)]
        todo += ["add_block 2 b%d 4 %d 3" % (i, i * 3) for i in range(300)]
        todo += ["set_values 2 b%d %d 5 %d" % (i, i * 3, i) for i in range(300)] + ["get_values 2 b%d %d 3" % (i, i * 3) for i in range(300)]
        # names which only differ at their end, in case, or look like something else
        names = [c * n + d for n in (1, 2, 8, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 1000) for c in "b" for d in "xy"]
        names += ["A", "a", "1", "01", "-1", "None", "h.0", "h,0", "h;0", "h:0", "h/0", "h=0", "'h0'", '"h0"', "#h", "%s", "{0}", "\\n", "h0\u00e9", "quit", "add_block"]
        for i, nm in enumerate(names):
            todo += ["add_block 4 %s 4 %d 3" % (nm, i * 3), "set_values 4 %s %d 5 %d" % (nm, i * 3, i)]
        todo += ["get_values 4 %s %d 3" % (nm, i * 3) for i, nm in enumerate(names)]
        for i, nm in enumerate(names):
            todo += ["remove_block 4 %s" % nm, "get_values 4 %s %d 3" % (nm, i * 3), "remove_block 4 %s" % nm]
        todo += ["has_slave %d" % s for s in range(1, 256)] + ["remove_slave %d" % s for s in range(3, 256, 2)] + ["has_slave %d" % s for s in range(1, 256)]
        todo += ["remove_all_slaves", "has_slave 2", "remove_slave 300"]
        for i, line in enumerate(todo):
            case = {"kind": kind, "how": how, "number": i, "line": line[:300]}
            ctx.cur = case
            e = rig.command(line, how, end, True)
            ctx.trans()
            ctx.state((kind, how, line))
            if e:
                ctx.fail(e if len(e) < 800 else e[:400] + " ... " + e[-300:], case)
                return
        ctx.trace()
        txt = getattr(rig.s, how)("quit", "\n")
        rig.w.sleep(0.1)
        if txt != "bye-bye\r\n" or rig.s.alive():
            ctx.fail("quit was answered %r" % txt, {"kind": kind, "how": how})
        rig.s.sim.close()
    in_world(ctx, body)


def jobs(tier, seed):
    th = tier == "thorough"
    js = []
    for b in BASE:
        for how in ("console", "rpc"):
            for kind in ("tcp", "composite"):
                js.append(("state", (kind, b, WELL + lines(), how, ["\n", "\r\n"] if how == "console" else ["\r\n", "\n", ""])))
    js += [("long_lines", (kind, how)) for how in ("console", "rpc") for kind in ("tcp", "composite")]
    n = 16
    for i in range(n):
        js.append(("bulk", (BASE, 2 if th else 1, i, n, True)))
        js.append(("bulk", (BASE, 3 if th else 2, i, n, False)))
    return js
