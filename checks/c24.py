"""C24: users of the simulator each get the answer to their own command.

A real Simulator with its console and RPC threads runs in the controlled world; console users, raw RPC clients and
SimulatorRpcClient objects give commands at the same time, in every interleaving within the preemption bound, with commands
that take longer than the users wait, with aborted, malformed and silent RPC connections and every segmentation of requests.
The RPC client is also run against an RPC server which answers in every other way.
"""
from mc import sched, simu
from checks.c07 import in_world, splits

BOUNDS = ("2-3 users (console, raw RPC, RPC client) x 1-2 commands in every interleaving within preemption bound 1 (thorough 2); "
          "commands which take 0.3 / 1 / 3 / 6 s x every next user and moment; every split of an RPC command into <=3 segments and byte by byte; "
          "aborts (close, half-close, reset) after every byte of a command and at 5 later moments; 9 malformed requests; "
          "every RPC client method with normal, error, empty, cut (then closed, silent or continued late), split, late and missing answers")
REG = {}
MODS = ("simulator", "simulator_rpc_client", "queue", "socketserver")
SLOW = {"s0": 0.3, "s1": 1.0, "s3": 3.0, "s6": 6.0}

CMDS = {
    "g1": ("get_values 1 h0 0 3", "get_values done: 11 12 13\r\n"),
    "g2": ("get_values 2 h0 0 2", "get_values done: 21 22\r\n"),
    "has": ("has_slave 1", "has_slave done: 1\r\n"),
    "hasnt": ("has_slave 7", "has_slave done: 0\r\n"),
    "bad": ("get_values 9 h0 0 2", "get_values error: "),
    "unk": ("fly away", "error: unknown command fly\r\n"),
    "set": ("set_values 3 h0 1 31", "set_values done: 31\r\n"),
    "big": ("get_values 4 b 0 120", "get_values done: " + " ".join(str(60000 + i) for i in range(120)) + "\r\n"),
    "s0": ("slow s0", "slow done: s0\r\n"),
    "s1": ("slow s1", "slow done: s1\r\n"),
    "s3": ("slow s3", "slow done: s3\r\n"),
    "s6": ("slow s6", "slow done: s6\r\n"),
}


def right(name, text):
    want = CMDS[name][1]
    if name == "bad":
        return text.startswith(want) and text.endswith("\r\n") and text.count("\n") == 1
    return text == want


def rig(w, lib):
    s = simu.Sim(w, lib)
    for sid in (1, 2, 3):
        sl = s.server.add_slave(sid)
        sl.add_block("h0", 3, 0, 5)
        sl.set_values("h0", 0, [10 * sid + 1, 10 * sid + 2, 10 * sid + 3])
    sl = s.server.add_slave(4)
    sl.add_block("b", 3, 0, 400)
    sl.set_values("b", 0, [60000 + i for i in range(400)])

    def slow(args):
        w.sleep(SLOW[args[1]])
        return args[1]
    s.sim.add_command("slow", slow)
    s.start()
    return s


def client_call(lib, name, timeout=8.0):
    """the command of `name` through a SimulatorRpcClient, as the text a raw client would receive"""
    c = lib.simulator_rpc_client.SimulatorRpcClient(timeout=timeout)
    try:
        if name in ("g1", "g2", "bad", "big"):
            a = CMDS[name][0].split()
            v = c.get_values(int(a[1]), a[2], int(a[3]), int(a[4]))
            return "get_values done: " + " ".join(map(str, v)) + "\r\n"
        if name in ("has", "hasnt"):
            return "has_slave done: %d\r\n" % c.has_slave(1 if name == "has" else 7)
        if name == "set":
            return "set_values done: %s\r\n" % c.set_values(3, "h0", 1, [31])
        # commands without a method
        return None
    except Exception as e:   # noqa
        t = str(e)
        return t + "\r\n" if t.startswith("get_values error") else "raised %r" % (e,)


METHODS = ("g1", "g2", "bad", "big", "has", "hasnt", "set")


def use(s, w, lib, how, name):
    if how == "console":
        n = len(w.stdout.text)
        w.stdin.type(CMDS[name][0] + "\n")
        w.block(lambda: "\n" in w.stdout.text[n:], 30.0)
        return w.stdout.text[n:]
    if how == "client":
        return client_call(lib, name)
    return s.rpc(CMDS[name][0], "\r\n" if how == "rpc" else "")


@sched.scenario(REG, bound=(1, 2), cap=1, only=MODS, free=False)
def users(w, lib, out, progs):
    s = rig(w, lib)
    got = []

    def user(i, how, names):
        for n in names:
            got.append((i, how, n, use(s, w, lib, how, n)))
    w.trace = w.want_trace
    ts = [w.spawn(lambda i=i, p=p: user(i, p[0], p[1]), "U%d" % i) for i, p in enumerate(progs)]
    w.block(lambda: all(t.done for t in ts), 60.0)
    w.trace = False
    out.outcome = tuple((i, h, n) for i, h, n, t in got)
    if not all(t.done for t in ts):
        out.fail("a user waits for ever (answers so far: %r)" % (got,))
        return
    for i, h, n, t in got:
        if not right(n, t):
            out.fail("the %s user %d gave %r and received %r" % (h, i, CMDS[n][0], t[:200]))
            return
    if not s.alive():
        out.fail("the simulator ended: %r" % (s.exc,))
    w.sleep(8.0)
    extra = len(w.stdout.text) - sum(len(t) for i, h, n, t in got if h == "console")
    if extra:
        out.fail("the console shows %d characters more than its answers" % extra)


PAIRS = [((("console", ("g1",)), ("rpc", ("g2",)))), ((("rpc", ("g1",)), ("rpc", ("has",)))),
         ((("client", ("g1",)), ("client", ("g2",)))), ((("console", ("bad",)), ("client", ("g2",)))),
         ((("rpc", ("unk",)), ("client", ("bad",)))), ((("rpc", ("set",)), ("console", ("g1",)))),
         ((("console", ("g1", "g2")), ("rpc", ("has", "hasnt")))), ((("client", ("g1", "has")), ("rpc", ("g2", "unk")))),
         ((("rpc", ("g1",)), ("rpc", ("g2",)), ("rpc", ("has",)))), ((("console", ("g1",)), ("rpc", ("g2",)), ("client", ("has",))))]


def top(ctx, args):
    sched.root(ctx, REG, "users", args)


def sub(ctx, name, args, bound, prefixes):
    sched.sub(ctx, REG, name, args, bound, prefixes)


def case_loop(ctx, cases, one):
    """run one world per case"""
    if ctx.replay:
        cases = [untuple(ctx.replay["case"]["case"])]
    for c in cases:
        ctx.cur = {"case": c}

        def body(w, lib):
            e = one(w, lib, c)
            ctx.trans()
            ctx.trace()
            ctx.state(repr(c))
            if e:
                ctx.fail(e, {"case": c})
        in_world(ctx, body)


def untuple(x):
    return tuple(untuple(i) for i in x) if isinstance(x, list) else x


# ---------------------------------------------------------------------------------------------- slow commands

def slow_case(w, lib, c):
    """first user gives a slow command, another one gives another command `dt` later; then everybody once more"""
    first, slow, dt, second, cmd = c
    s = rig(w, lib)
    res = {}
    n0 = len(w.stdout.text)

    def go1():
        if first == "console":
            w.stdin.type(CMDS[slow][0] + "\n")
        elif first == "gone":            # an RPC client which leaves
            u = simu.RpcUser(w)
            u.send(CMDS[slow][0] + "\r\n")
            w.sleep(0.1)
            u.close()
        else:
            res["1"] = s.rpc(CMDS[slow][0], wait=20.0)
    t1 = w.spawn(go1, "U1")
    w.sleep(dt)
    if first == "console" and second == "console":
        w.stdin.type(CMDS[cmd][0] + "\n")
        w.sleep(12.0)
        t = w.stdout.text[n0:]
        lines = t.splitlines(True)
        if not lines or not right(cmd, lines[-1]) or len(lines) > 2 or (
                len(lines) == 2 and lines[0] != CMDS[slow][1] and "error" not in lines[0]):
            return "the console user gave %r and %r later %r: the console shows %r" % (CMDS[slow][0], dt, CMDS[cmd][0], t)
    else:
        t0 = w.now
        a = use(s, w, lib, second, cmd)
        late = w.now - t0 > (1.9 if second == "console" else 4.9)
        if not right(cmd, a) and not (late and (not a or "error" in a or a.startswith("raised"))):
            return "while %r of a %s user ran, the %s user gave %r and received %r" % (CMDS[slow][0], first, second, CMDS[cmd][0], a[:200])
        w.sleep(12.0)
        if first == "console":
            own = w.stdout.text[n0:]
            if own and own != CMDS[slow][1] and not ("error" in own and own.count("\n") == 1):
                return "the console user gave %r and received %r" % (CMDS[slow][0], own)
            if SLOW[slow] < 1.9 and own != CMDS[slow][1]:
                return "the console user gave %r and received %r" % (CMDS[slow][0], own)
        elif first == "rpc":
            w.block(lambda: "1" in res, 20.0)
            own = res.get("1")
            if own is None or own and own != CMDS[slow][1] and "error" not in own or SLOW[slow] < 4.9 and own != CMDS[slow][1]:
                return "the RPC user gave %r and received %r" % (CMDS[slow][0], own)
    for how in ("console", "rpc", "client", "console"):
        for n in ("g2", "has"):
            a = use(s, w, lib, how, n)
            if not right(n, a):
                return "afterwards the %s user gave %r and received %r" % (how, CMDS[n][0], a[:200])
    return None


def slow(ctx, first, second):
    cases = []
    for sl in SLOW:
        for dt in (0.05, 0.2, 0.9, 2.5, 4.0):
            if dt < SLOW[sl] + 1:
                for cmd in (("g1", "bad") if second == "client" else ("g1", "unk", "hasnt")):
                    if first == second == "console" and (SLOW[sl] - max(dt, 2.0)) > 1.8:
                        continue
                    cases.append((first, sl, dt, second, cmd))
    case_loop(ctx, cases, slow_case)


# ---------------------------------------------------------------------------------------------- requests in pieces, aborts

def after_ok(s, w, lib, who=("rpc", "console", "client")):
    for how in who:
        for n in ("g1", "hasnt"):
            a = use(s, w, lib, how, n)
            if not right(n, a):
                return "then the %s user gave %r and received %r" % (how, CMDS[n][0], a[:200])
    if not s.alive():
        return "the simulator ended: %r" % (s.exc,)
    return None


def piece_case(w, lib, c):
    name, cuts, gap, end = c
    s = rig(w, lib)
    return piece_one(s, w, lib, c) or after_ok(s, w, lib)


def piece_one(s, w, lib, c):
    name, cuts, gap, end = c
    data = (CMDS[name][0] + end).encode()
    u = simu.RpcUser(w)
    prev = 0
    for cut in tuple(cuts) + (len(data),):
        if prev:
            w.sleep(gap)
        u.send(data[prev:cut])
        prev = cut
    a = u.answer()
    u.close()
    if not right(name, a):
        return "an RPC client gave %r in pieces cut at %r with gaps of %r s and received %r" % (data, cuts, gap, a[:200])
    return None


def pieces(ctx, name, gap, end, k):
    n = len(CMDS[name][0] + end)
    allc = [c for j in range(1, k + 1) for c in splits(n, j)] + [tuple(range(1, n))]
    if ctx.replay:
        return case_loop(ctx, [], piece_case)

    def body(w, lib):
        s = rig(w, lib)
        for cuts in allc:
            c = (name, cuts, gap, end)
            ctx.cur = {"case": c}
            ctx.state(c)
            ctx.trans()
            e = piece_one(s, w, lib, c)
            if e:
                ctx.fail(e, {"case": c})
                return
        e = after_ok(s, w, lib)
        if e:
            ctx.fail(e, {"case": (name, allc[-1], gap, end)})
        ctx.trace()
    in_world(ctx, body)


def abort_case(w, lib, c):
    name, cut, how, when = c
    s = rig(w, lib)
    data = (CMDS[name][0] + "\r\n").encode()[:cut]
    u = simu.RpcUser(w)
    if data:
        u.send(data)
    if when is not None:
        w.sleep(when)
    if how == "close":
        u.close()
    elif how == "reset":
        u.s._reset()
    elif how == "half":
        u.s.shutdown(1)
    # 'silent': it stays connected and says nothing more
    return after_ok(s, w, lib)


def aborts(ctx, name, how):
    n = len(CMDS[name][0]) + 2
    cases = [(name, cut, how, 0.0) for cut in range(0, n + 1)] + \
        [(name, cut, how, t) for cut in (0, 5, n) for t in (None, 0.0001, 0.1, 0.25, 1.0)]
    case_loop(ctx, cases, abort_case)


def odd_case(w, lib, c):
    raw, end, k = c
    raw = raw.encode("latin-1")
    s = rig(w, lib)
    us = []
    for _ in range(k):
        u = simu.RpcUser(w)
        us.append(u)
        for i in range(0, len(raw), 700):
            u.send(raw[i:i + 700])
    w.sleep(6.0)
    for u in us:
        u.poll()
        if u.text and (not u.text.endswith(b"\n")):
            return "the request %r was answered %r" % (raw[:60], u.text)
    e = after_ok(s, w, lib)
    if end == "close":
        for u in us:
            u.close()
    return e or after_ok(s, w, lib)


ODD = ["\xff\xfe\r\n", "\x00\x00\x00\r\n", "\xc3(\xa0 1\r\n", "add_slave \xb2\r\n", "x" * 5000 + "\r\n", "y" * 3000, "\r\n", "\n\n\n",
       "has_slave 1\r\nhas_slave 2\r\n", "GET / HTTP/1.1\r\nHost: x\r\n\r\n", "\xff", "get_values 4 b 0 400\r\n"]


def odd(ctx, part, n):
    cases = [(o, e, k) for o in ODD for e in ("close", "stay") for k in (1, 3)]
    case_loop(ctx, cases[part::n], odd_case)


def eof_case(w, lib, c):
    """the end of the console's input"""
    before, = c
    s = rig(w, lib)
    for n in before:
        if not right(n, use(s, w, lib, "console", n)):
            return "console answer"
    t = len(w.stdout.text)
    w.stdin.eof = True
    w.sleep(5.0)
    if len(w.stdout.text) - t > 100:
        return "after the end of its input the console shows %r.." % w.stdout.text[t:t + 100]
    return after_ok(s, w, lib, ("rpc", "client"))


def eof(ctx):
    case_loop(ctx, [((),), (("g1",),), (("bad", "unk"),)], eof_case)


# ---------------------------------------------------------------------------------------------- the RPC client's methods

CALLS = [
    ("add_slave", (5,), "add_slave 5", "add_slave done: 5\r\n", "5"),
    ("remove_slave", (5,), "remove_slave 5", "remove_slave done: \r\n", None),
    ("remove_all_slaves", (), "remove_all_slaves", "remove_all_slaves done: \r\n", None),
    ("has_slave", (5,), "has_slave 5", "has_slave done: 1\r\n", True),
    ("has_slave", (6,), "has_slave 6", "has_slave done: 0\r\n", False),
    ("add_block", (5, "blk", 3, 10, 20), "add_block 5 blk 3 10 20", "add_block done: blk\r\n", "blk"),
    ("remove_block", (5, "blk"), "remove_block 5 blk", "remove_block done: None\r\n", None),
    ("remove_all_blocks", (5,), "remove_all_blocks 5", "remove_all_blocks done: None\r\n", None),
    ("set_values", (5, "blk", 3, [1, 2, 65535]), "set_values 5 blk 3 1 2 65535", "set_values done: 1 2 65535\r\n", "1 2 65535"),
    ("set_values", (5, "blk", 3, tuple(range(10000, 10500))), "set_values 5 blk 3 " + " ".join(map(str, range(10000, 10500))),
     "set_values done: " + " ".join(map(str, range(10000, 10500))) + "\r\n", " ".join(map(str, range(10000, 10500)))),
    ("get_values", (5, "blk", 3, 3), "get_values 5 blk 3 3", "get_values done: 1 2 65535\r\n", (1, 2, 65535)),
    ("get_values", (5, "blk", 3, 1), "get_values 5 blk 3 1", "get_values done: -7\r\n", (-7,)),
    ("get_values", (5, "blk", 0, 500), "get_values 5 blk 0 500",
     "get_values done: " + " ".join(map(str, range(10000, 10500))) + "\r\n", tuple(range(10000, 10500))),
    ("get_values", (5, "blk", 3, 0), "get_values 5 blk 3 0", "get_values done: \r\n", ()),
    ("install_hook", ("modbus.Slave.handle_request", "fct"), "install_hook modbus.Slave.handle_request fct",
     "install_hook done: None\r\n", None),
    ("uninstall_hook", ("modbus.Slave.handle_request", "fct"), "uninstall_hook modbus.Slave.handle_request fct",
     "uninstall_hook done: None\r\n", None),
    ("uninstall_hook", ("modbus.Slave.handle_request",), "uninstall_hook modbus.Slave.handle_request",
     "uninstall_hook done: None\r\n", None),
]
VOID = ("remove_slave", "remove_all_slaves", "remove_block", "remove_all_blocks", "install_hook", "uninstall_hook")


def server_side(w, ls, how, answer, seen):
    """an RPC server which answers one request in some way"""
    s, _ = ls.accept()
    data = b""
    s.settimeout(1.0)
    try:
        while b"\n" not in data:
            d = s.recv(4096)
            if not d:
                break
            data += d
    except OSError:
        pass
    seen.append(data)
    a = answer.encode()
    kind, arg = how
    try:
        if kind == "split":
            i = arg % (len(a) - 1) + 1
            s.sendall(a[:i])
            w.sleep(0.1)
            s.sendall(a[i:])
        elif kind == "bytes":
            for i in range(len(a)):
                s.sendall(a[i:i + 1])
        elif kind == "late":
            w.sleep(arg)
            s.sendall(a)
        elif kind == "cut":
            s.sendall(a[:max(0, len(a) - arg)])
        elif kind == "stall":
            s.sendall(a[:max(0, len(a) - arg)])
            w.sleep(5.0)
        elif kind == "gap":
            s.sendall(a[:max(0, len(a) - arg)])
            w.sleep(0.9)
            s.sendall(a[max(0, len(a) - arg):])
        elif kind == "error":
            s.sendall(b"%s error: it is wrong\r\n" % a.split(b" ")[0])
        elif kind == "unknown":
            s.sendall(b"error: unknown command x\r\n")
        elif kind == "other":
            s.sendall(b"another_command done: 1 2 3\r\n")
        elif kind == "silent":
            w.sleep(3.0)
        elif kind == "reset":
            s._reset()
            return
        else:
            s.sendall(a)
    except OSError:
        pass
    if kind == "stay":
        w.sleep(3.0)
    s.close()


def client_case(w, lib, c):
    i, how, timeout = c
    w.net.points = False
    name, args, query, answer, value = CALLS[i]
    seen = []
    kw = {} if timeout is None else {"timeout": timeout}
    cl = lib.simulator_rpc_client.SimulatorRpcClient(**kw)
    if how[0] != "refused":
        ls = w.net.socket_class()
        ls.bind(("", simu.RPC_PORT))
        ls.listen(5)
        t = w.spawn(lambda: server_side(w, ls, how, answer, seen), "SRV", foreground=False)
    t0 = w.now
    try:
        r = ("ok", getattr(cl, name)(*args))
    except Exception as e:   # noqa
        r = ("exc", e)
    dt = w.now - t0
    good = how[0] in ("normal", "split", "bytes", "stay") or how[0] == "late" and how[1] < (0.5 if timeout is None else timeout)
    if how[0] == "gap":
        good = r[0] == "ok"          # it may be given up, but never returned in part
    if good:
        if r[0] == "exc":
            return "%s%r raised %r (answer %s %r)" % (name, args[:2], r[1], how, answer[:60])
        if name not in VOID and (r[1] != value or type(r[1]) is not type(value)):
            return "%s%r returned %r instead of %r" % (name, args[:2], r[1], value)
        if seen[0].decode().strip().split() != query.split():
            return "%s%r sent %r instead of %r" % (name, args[:2], seen[0][:100], query[:100])
    else:
        if r[0] == "ok":
            return "%s%r returned %r although the answer was %s %r" % (name, args[:2], r[1], how, answer[:60])
        if how[0] == "error" and "it is wrong" not in str(r[1]):
            return "%s%r raised %r instead of the simulator's error" % (name, args[:2], r[1])
        if dt > 2.0 * len(answer) + 5:
            return "%s%r took %.1f s" % (name, args[:2], dt)
    w.sleep(10.0)
    open_ = [s for s in w.net.open_sockets() if not s.listening]
    if open_:
        return "%s%r left the socket open (%s)" % (name, args[:2], how)
    return None


def client(ctx, i):
    a = CALLS[i][3]
    hows = [("normal", 0), ("bytes", 0), ("stay", 0), ("late", 0.3), ("late", 0.9), ("error", 0), ("unknown", 0), ("other", 0), ("silent", 0),
            ("reset", 0), ("refused", 0)]
    hows += [("split", k) for k in (range(len(a) - 1) if len(a) < 60 else (0, 5, 17, 1022, 1023, 1024, len(a) - 3))]
    hows += [("cut", k) for k in (range(1, len(a) + 1) if len(a) < 60 else (1, 2, 3, 5, len(a) - 1024, len(a)))]
    hows += [(k, n) for h, n in hows if h == "cut" for k in ("stall", "gap")]
    case_loop(ctx, [(i, h, t) for h in hows for t in (None, 0.7)], client_case)


def real_case(w, lib, c):
    """every method against the real simulator"""
    s = rig(w, lib)
    cl = lib.simulator_rpc_client.SimulatorRpcClient()
    s.sim.declare_hook("f", lambda args: None)
    steps = [("remove_all_slaves", (), None), ("has_slave", (1,), False), ("add_slave", (12,), "12"), ("has_slave", (12,), True),
             ("add_slave", (12,), Exception), ("add_block", (12, "toto", 1, 0, 100), "toto"),
             ("add_block", (12, "tata", 1, 50, 100), Exception), ("add_block", (12, "r", 3, 0, 1000), "r"),
             ("set_values", (12, "r", 0, list(range(60000, 61000))), " ".join(map(str, range(60000, 61000)))),
             ("get_values", (12, "r", 0, 1000), tuple(range(60000, 61000))), ("get_values", (12, "r", 999, 1), (60999,)),
             ("get_values", (12, "r", 999, 2), Exception), ("get_values", (12, "r", 3, 0), ()), ("set_values", (12, "toto", 0, [1, 0, 1]), "1 0 1"),
             ("get_values", (12, "toto", 0, 3), (1, 0, 1)), ("install_hook", ("h", "f"), None), ("install_hook", ("h", "nof"), Exception),
             ("uninstall_hook", ("h", "f"), None), ("install_hook", ("h", "f"), None), ("uninstall_hook", ("h",), None),
             ("uninstall_hook", ("h", "f"), Exception), ("remove_block", (12, "toto"), None), ("remove_block", (12, "toto"), Exception),
             ("get_values", (12, "toto", 0, 1), Exception), ("remove_all_blocks", (12,), None), ("get_values", (12, "r", 0, 1), Exception),
             ("remove_slave", (12,), None), ("remove_slave", (12,), Exception), ("has_slave", (12,), False)]
    for name, args, want in steps:
        try:
            r = getattr(cl, name)(*args)
            if want is Exception:
                return "%s%r returned %r instead of raising" % (name, args[:3], r)
        except Exception as e:   # noqa
            if want is not Exception:
                return "%s%r raised %r" % (name, args[:3], e)
            continue
        if name not in VOID and (r != want or type(r) is not type(want)):
            return "%s%r returned %r instead of %r" % (name, args[:3], str(r)[:200], str(want)[:200])
    w.sleep(1.0)
    left = [k for k in w.net.open_sockets() if not k.listening]
    if left:
        return "sockets %r are still open" % left
    return None


def real(ctx):
    case_loop(ctx, [("all",)], real_case)


def jobs(tier, seed):
    th = tier == "thorough"
    js = [("top", ((p,),)) for p in PAIRS]
    for first in ("console", "rpc", "gone"):
        for second in ("console", "rpc", "client"):
            js.append(("slow", (first, second)))
    for name in ("g1", "bad"):
        js.append(("pieces", (name, 0.05, "\r\n", 2)))
        js.append(("pieces", (name, 0.15, "\n", 2)))
    js.append(("pieces", ("set", 0.0, "\r\n", 3)))
    js.append(("pieces", ("has", 0.0, "", 2)))
    for how in ("close", "reset", "half", "silent"):
        for name in ("g1", "s0", "set"):
            js.append(("aborts", (name, how)))
    js += [("odd", (i, 4)) for i in range(4)]
    js.append(("eof", ()))
    js += [("client", (i,)) for i in range(len(CALLS))]
    js.append(("real", ()))
    return js
