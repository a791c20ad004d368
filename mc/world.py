"""A controlled world: cooperative scheduler over real threads, virtual time, fake threading/time/select/socket modules.

Exactly one task (thread) runs at any moment; it hands the baton over only at scheduling points.  Scheduling points are
  * every blocking operation of the fake primitives (lock, event, join, select, recv, sleep, ...), and
  * with instruction tracing on, the instructions of modbus_tk that can touch shared state (see instr.py).
Which task continues at a point is decided by the chooser (see explore.py).
"""
import _thread
import ctypes
import errno
import heapq
import logging
import sys
import threading as _rt          # the real thing
import time as _real_time
import traceback
import types


class Killed(BaseException):
    """raised inside tasks to abandon an execution"""


class Divergence(Exception):
    """the replay of a recorded prefix did not meet the same choice points: nondeterminism outside our control"""


class HarnessError(Exception):
    pass


class DefaultChooser(object):
    """always choice 0; records nothing"""
    trace = ()

    def choose(self, n, costs, label):
        return 0


class Task(object):
    __slots__ = ("tid", "name", "fn", "baton", "pred", "deadline", "done", "foreground", "ident", "exc", "visits",
                 "thread_obj", "started", "nopreempt", "real", "result")

    def __init__(self, tid, name, fn, foreground):
        self.tid = tid
        self.name = name
        self.fn = fn
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.pred = None
        self.deadline = None
        self.done = False
        self.foreground = foreground
        self.ident = None
        self.exc = None
        self.visits = {}
        self.thread_obj = None
        self.started = False
        self.nopreempt = 0
        self.real = None
        self.result = None


_current = {}     # thread ident -> (world, task)


def current():
    """(world, task) of the calling thread or None"""
    return _current.get(_thread.get_ident())


class World(object):
    TICK = 1e-5

    def __init__(self, chooser=None, max_steps=200000, max_time=100000.0, free_switch=True, trace=False,
                 visit_cap=2, start_time=1000000.0):
        # (the simulator adds a handler to the logger when it is imported: it must not outlive the execution)
        self.handlers = logging.getLogger("modbus_tk").handlers[:]
        self.chooser = chooser or DefaultChooser()
        self.now = start_time
        self.tasks = []
        self.cur = None
        self.aborting = False
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        self.verdict = None          # None, 'deadlock', 'steps', 'time', 'hang', 'error'
        self.detail = ""
        self.steps = 0
        self.max_steps = max_steps
        self.spin = (0, start_time)  # first step at (about) the present time
        self.max_spin = 150000
        self.t_start = start_time
        self.max_time = max_time
        self.events = []             # (time, seq, fn)
        self._seq = 0
        self.trace = trace
        self.visit_cap = visit_cap
        self.only = None             # modules with instruction points (None = all of the package)
        self.points = 0
        self.free_switch = free_switch
        self.beat = 0
        self.log = []
        self.killed_tasks = 0
        self.net = Net(self)
        self.stdin = FakeStdin(self)
        self.stdout = FakeStdout()
        self.stderr = FakeStdout()
        self.fakes = make_fakes(self)
        self.on_end = []

    # ------------------------------------------------------------------ tasks
    def spawn(self, fn, name=None, foreground=True):
        t = Task(len(self.tasks), name or "T%d" % len(self.tasks), fn, foreground)
        self.tasks.append(t)
        t.started = True
        real = _rt.Thread(target=self._body, args=(t,), daemon=True)
        t.real = real
        real.start()
        return t

    def _body(self, t):
        t.ident = _thread.get_ident()
        _current[t.ident] = (self, t)
        t.baton.acquire()
        try:
            if self.aborting:
                return
            t.result = t.fn()
        except Killed:
            pass
        except BaseException as e:   # noqa
            t.exc = e
            if not isinstance(e, SystemExit):
                e.tb_text = traceback.format_exc()
        finally:
            t.done = True
            try:
                if self.aborting:
                    pass
                else:
                    self._dispatch(t, ended=True)
            except BaseException as e:   # noqa
                self._fail("error", "scheduler: %r %s" % (e, traceback.format_exc()))
            _current.pop(t.ident, None)

    def run(self, hang_cpu=12.0, hang_wall=240.0):
        """run until every foreground task has ended (or the execution was abandoned); returns the verdict"""
        if not self.tasks:
            return None
        first = self._pick(None)
        if first is None:
            self._fail("deadlock", "nothing to run")
        else:
            self.cur = first
            first.baton.release()
        last = (-1, -1)
        cpu0, wall0 = _real_time.process_time(), _real_time.monotonic()
        while True:
            if self.finished.acquire(timeout=1.0):
                break
            mark = (self.steps, self.beat)
            if mark != last:
                last = mark
                cpu0, wall0 = _real_time.process_time(), _real_time.monotonic()
            elif _real_time.process_time() - cpu0 > hang_cpu or _real_time.monotonic() - wall0 > hang_wall:
                self.verdict = self.verdict or "hang"
                self.detail = self._where()
                break
        self.aborting = True
        self._kill_all()
        for fn in self.on_end:
            fn()
        logging.getLogger("modbus_tk").handlers[:] = self.handlers
        return self.verdict

    def _where(self):
        out = []
        frames = sys._current_frames()
        for t in self.tasks:
            if not t.done and t.ident in frames:
                st = traceback.extract_stack(frames[t.ident])
                out.append("%s: %s" % (t.name, " < ".join("%s:%d %s" % (f.filename.rsplit("/", 1)[-1], f.lineno, f.name)
                                                          for f in reversed(st[-6:]))))
        return "; ".join(out)

    def _kill_all(self):
        for t in self.tasks:
            if t.real is None:
                continue
            tries = 0
            while t.real.is_alive():
                try:
                    t.baton.release()
                except RuntimeError:
                    pass
                t.real.join(0.02 if tries == 0 else 0.2)
                tries += 1
                if t.real.is_alive() and tries > 1:
                    ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident or 0), ctypes.py_object(Killed))
                if tries > 20:
                    self.killed_tasks += 1
                    break

    def _fail(self, verdict, detail=""):
        if self.verdict is None:
            self.verdict = verdict
            self.detail = detail or self._where()
        self.aborting = True
        try:
            self.finished.release()
        except RuntimeError:
            pass

    # ------------------------------------------------------------------ scheduling
    def _enabled(self):
        en = []
        for t in self.tasks:
            if t.done or not t.started:
                continue
            if t.pred is None:
                en.append(t)
            elif t.pred():
                en.append(t)
            elif t.deadline is not None and t.deadline <= self.now:
                en.append(t)
        return en

    def _pick(self, cur):
        """choose the next task; cur is the running one (None if it ended). None = execution is over"""
        self.steps += 1
        if self.steps > self.max_steps:
            self._fail("steps", "more than %d steps: %s" % (self.max_steps, self._where()))
            return None
        if self.now - self.spin[1] > 1e-3:
            self.spin = (self.steps, self.now)
        elif self.steps - self.spin[0] > self.max_spin:
            self._fail("steps", "%d steps while no time passes: %s" % (self.max_spin, self._where()))
            return None
        while True:
            if self.events:
                self._due()
            if not any(t.foreground and not t.done for t in self.tasks):
                return None
            en = self._enabled()
            if en:
                break
            nxt = [t.deadline for t in self.tasks if not t.done and t.started and t.deadline is not None]
            if self.events:
                nxt.append(self.events[0][0])
            if not nxt:
                self._fail("deadlock", "; ".join("%s blocked" % t.name for t in self.tasks if not t.done) + " | " + self._where())
                return None
            t = min(nxt)
            if t > self.now:
                self.now = t
            if self.now - self.t_start > self.max_time:
                self._fail("time", "virtual time horizon exceeded: %s" % self._where())
                return None
        if len(en) == 1:
            return en[0]
        if cur is not None and cur in en:
            order = [cur] + [t for t in en if t is not cur]
            costs = [0] + [1] * (len(order) - 1)
        else:
            order = en
            costs = [0] * len(order) if self.free_switch else [0] + [1] * (len(order) - 1)
        self.points += 1
        try:
            i = self.chooser.choose(len(order), costs, "sched")
        except Divergence as e:
            self._fail("diverge", str(e))
            return None
        return order[i]

    def _due(self):
        while self.events and self.events[0][0] <= self.now:
            _, _, fn = heapq.heappop(self.events)
            fn()

    def at(self, delay, fn):
        """call fn (in scheduler context, must not block) after `delay` seconds of virtual time"""
        self._seq += 1
        heapq.heappush(self.events, (self.now + delay, self._seq, fn))

    def _dispatch(self, me, ended=False):
        nxt = self._pick(None if ended else me)
        if nxt is None:
            # over
            self.aborting = True
            try:
                self.finished.release()
            except RuntimeError:
                pass
            if ended:
                return
            raise Killed()
        if nxt is me:
            return
        self.cur = nxt
        nxt.baton.release()
        if ended:
            return
        me.baton.acquire()
        if self.aborting:
            raise Killed()

    def point(self):
        """a scheduling point: the running task stays runnable"""
        c = _current.get(_thread.get_ident())
        if c is None or c[0] is not self:
            return
        if self.aborting:
            raise Killed()
        t = c[1]
        if t.nopreempt:
            return
        self._dispatch(t)

    def block(self, pred, timeout=None):
        """block the running task until pred() holds; False when the timeout came first"""
        if self.aborting:
            raise Killed()
        c = _current.get(_thread.get_ident())
        if c is None or c[0] is not self:
            raise HarnessError("blocking operation outside of a task")
        t = c[1]
        if timeout is not None:
            if timeout <= 0:
                self.tick()
                return bool(pred())
            t.deadline = self.now + timeout
        t.pred = pred
        try:
            self._dispatch(t)
            return bool(pred())
        finally:
            t.pred = None
            t.deadline = None

    def choose(self, n, label="env", costs=None):
        """an environment choice (fault, short read, ...): 0 is the default, others cost one deviation each"""
        if n <= 1:
            return 0
        try:
            return self.chooser.choose(n, costs or ([0] + [1] * (n - 1)), label)
        except Divergence as e:
            self._fail("diverge", str(e))
            raise Killed()

    def tick(self):
        self.now += self.TICK

    def sleep(self, dt):
        self.tick()
        self.block(lambda: False, max(dt, 1e-9))

    def heartbeat(self):
        self.beat += 1

    class _NoPreempt(object):
        def __init__(self, w):
            self.w = w

        def __enter__(self):
            c = current()
            self.t = c[1] if c and c[0] is self.w else None
            if self.t:
                self.t.nopreempt += 1

        def __exit__(self, *a):
            if self.t:
                self.t.nopreempt -= 1

    def atomic(self):
        """no preemption inside (for harness code)"""
        return World._NoPreempt(self)


# ---------------------------------------------------------------------------------------------- fake threading
def make_threading(world):
    m = types.ModuleType("threading")
    m.__dict__.update({k: v for k, v in _rt.__dict__.items() if not k.startswith("__")})

    def lock_args(blocking, timeout):
        if timeout is None:
            raise TypeError("'NoneType' object cannot be interpreted as an integer")
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        if timeout < 0 and timeout != -1:
            raise ValueError("timeout value must be a non-negative number")

    class Lock(object):
        def __init__(self):
            self._owner = None

        def acquire(self, blocking=True, timeout=-1):
            lock_args(blocking, timeout)
            if world.aborting:
                if current():
                    raise Killed()
                return True
            if current() is None:      # outside of the world (set-up code)
                if self._owner is not None:
                    raise HarnessError("lock held at set-up")
                self._owner = "setup"
                return True
            world.point()
            me = current()[1]
            if self._owner is not None:
                if not blocking:
                    return False
                if not world.block(lambda: self._owner is None, None if timeout is None or timeout < 0 else timeout):
                    return False
            self._owner = me
            return True

        def release(self):
            if self._owner is None:
                if world.aborting:
                    return
                raise RuntimeError("release unlocked lock")
            self._owner = None

        def locked(self):
            return self._owner is not None

        def __enter__(self):
            return self.acquire()

        def __exit__(self, *a):
            self.release()

    class RLock(object):
        def __init__(self):
            self._owner = None
            self._count = 0

        def _me(self):
            c = current()
            return c[1] if c else "setup"

        def acquire(self, blocking=True, timeout=-1):
            lock_args(blocking, timeout)
            me = self._me()
            if world.aborting:
                if me != "setup":
                    raise Killed()
                return True
            if self._owner is me:
                self._count += 1
                return True
            if me == "setup":
                if self._owner is not None:
                    raise HarnessError("rlock held at set-up")
            else:
                world.point()
                if self._owner is not None:
                    if not blocking:
                        return False
                    if not world.block(lambda: self._owner is None, None if timeout is None or timeout < 0 else timeout):
                        return False
            self._owner = me
            self._count = 1
            return True

        def release(self):
            if self._owner is not self._me():
                if world.aborting:
                    return
                raise RuntimeError("cannot release un-acquired lock")
            self._count -= 1
            if self._count <= 0:
                self._owner = None

        def _release_save(self):
            s = (self._owner, self._count)
            self._owner, self._count = None, 0
            return s

        def _acquire_restore(self, s):
            if self._owner is not None:
                world.block(lambda: self._owner is None)
            self._owner, self._count = s

        def _is_owned(self):
            return self._owner is self._me()

        def __enter__(self):
            return self.acquire()

        def __exit__(self, *a):
            self.release()

    class Condition(object):
        def __init__(self, lock=None):
            self._lock = lock if lock is not None else RLock()
            self.acquire = self._lock.acquire
            self.release = self._lock.release
            self._waiters = []

        def __enter__(self):
            return self._lock.__enter__()

        def __exit__(self, *a):
            return self._lock.__exit__(*a)

        def _owned(self):
            if hasattr(self._lock, "_is_owned"):
                return self._lock._is_owned()
            return self._lock.locked()

        def wait(self, timeout=None):
            if not self._owned():
                if world.aborting:
                    raise Killed()
                raise RuntimeError("cannot wait on un-acquired lock")
            tok = [False]
            self._waiters.append(tok)
            if hasattr(self._lock, "_release_save"):
                st = self._lock._release_save()
            else:
                st = None
                self._lock.release()
            try:
                got = world.block(lambda: tok[0], timeout)
            finally:
                if not got_safe(tok):
                    try:
                        self._waiters.remove(tok)
                    except ValueError:
                        pass
                if not world.aborting:
                    if st is not None:
                        self._lock._acquire_restore(st)
                    else:
                        self._lock.acquire()
            return got

        def wait_for(self, predicate, timeout=None):
            end = None if timeout is None else world.now + timeout
            res = predicate()
            while not res:
                left = None
                if end is not None:
                    left = end - world.now
                    if left <= 0:
                        break
                self.wait(left)
                res = predicate()
            return res

        def notify(self, n=1):
            if not self._owned():
                if world.aborting:
                    return
                raise RuntimeError("cannot notify on un-acquired lock")
            for tok in self._waiters[:n]:
                tok[0] = True
            del self._waiters[:n]

        def notify_all(self):
            self.notify(len(self._waiters))
        notifyAll = notify_all

    def got_safe(tok):
        return tok[0]

    class Event(object):
        def __init__(self):
            self._flag = False

        def is_set(self):
            world.point()
            return self._flag
        isSet = is_set

        def set(self):
            world.point()
            self._flag = True

        def clear(self):
            world.point()
            self._flag = False

        def wait(self, timeout=None):
            world.point()
            if self._flag:
                return True
            world.block(lambda: self._flag, timeout)
            return self._flag

    class Semaphore(object):
        def __init__(self, value=1):
            if value < 0:
                raise ValueError("semaphore initial value must be >= 0")
            self._value = value

        def acquire(self, blocking=True, timeout=None):
            world.point()
            if self._value == 0:
                if not blocking:
                    return False
                if not world.block(lambda: self._value > 0, timeout):
                    return False
            self._value -= 1
            return True

        def release(self, n=1):
            self._value += n

        def __enter__(self):
            self.acquire()
            return self

        def __exit__(self, *a):
            self.release()

    class BoundedSemaphore(Semaphore):
        def __init__(self, value=1):
            Semaphore.__init__(self, value)
            self._initial = value

        def release(self, n=1):
            if self._value + n > self._initial:
                raise ValueError("Semaphore released too many times")
            self._value += n

    class Thread(object):
        _n = [0]

        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
            self._target = target
            self._args = args
            self._kwargs = kwargs or {}
            Thread._n[0] += 1
            self._name = str(name or "Thread-%d" % Thread._n[0])
            self._daemonic = bool(daemon)
            self._task = None
            self._init_ok = True

        def start(self):
            if not getattr(self, "_init_ok", False):
                raise RuntimeError("thread.__init__() not called")
            if self._task is not None:
                raise RuntimeError("threads can only be started once")
            world.point()
            if self._task is not None:
                raise RuntimeError("threads can only be started once")
            t = world.spawn(self._bootstrap_mc, self._name, foreground=False)
            t.thread_obj = self
            self._task = t
            world.point()

        def _bootstrap_mc(self):
            self.run()

        def run(self):
            if self._target:
                self._target(*self._args, **self._kwargs)

        def join(self, timeout=None):
            if self._task is None:
                raise RuntimeError("cannot join thread before it is started")
            c = current()
            if c and c[1] is self._task:
                raise RuntimeError("cannot join current thread")
            world.point()
            if not self._task.done:
                world.block(lambda: self._task.done, None if timeout is None else max(timeout, 0))

        def is_alive(self):
            world.point()
            return self._task is not None and not self._task.done

        isAlive = None

        @property
        def name(self):
            return self._name

        @name.setter
        def name(self, v):
            self._name = str(v)

        @property
        def ident(self):
            return None if self._task is None else self._task.ident
        native_id = ident

        @property
        def daemon(self):
            return self._daemonic

        @daemon.setter
        def daemon(self, v):
            if self._task is not None:
                raise RuntimeError("cannot set daemon status of active thread")
            self._daemonic = bool(v)

        def isDaemon(self):
            return self._daemonic

        def setDaemon(self, v):
            self.daemon = v

        def getName(self):
            return self._name

        def setName(self, v):
            self._name = str(v)
    del Thread.isAlive

    class _MainThread(Thread):
        def __init__(self, task=None):
            Thread.__init__(self, name="MainThread")
            self._task = task
    mains = {}

    def current_thread():
        c = current()
        if c is None or c[0] is not world:
            return _rt.current_thread()
        t = c[1]
        if t.thread_obj is None:
            t.thread_obj = _MainThread(t)
            t.thread_obj._name = t.name
        return t.thread_obj

    def enumerate_():
        return [t.thread_obj for t in world.tasks if t.thread_obj is not None and not t.done]

    class Timer(Thread):
        def __init__(self, interval, function, args=None, kwargs=None):
            Thread.__init__(self)
            self.interval, self.function = interval, function
            self.args, self.kwargs = args or [], kwargs or {}
            self.finished = Event()

        def cancel(self):
            self.finished.set()

        def run(self):
            self.finished.wait(self.interval)
            if not self.finished.is_set():
                self.function(*self.args, **self.kwargs)
            self.finished.set()

    class Barrier(object):
        def __init__(self, parties, action=None, timeout=None):
            self.parties, self.n, self.gen = parties, 0, 0

        def wait(self, timeout=None):
            world.point()
            i, g = self.n, self.gen
            self.n += 1
            if self.n == self.parties:
                self.n = 0
                self.gen += 1
            else:
                world.block(lambda: self.gen != g, timeout)
            return i

    m.Lock = m._allocate_lock = m._PyRLock = Lock
    m.RLock = m._RLock = RLock
    m._CRLock = RLock
    m.Condition, m.Event = Condition, Event
    m.Semaphore, m.BoundedSemaphore = Semaphore, BoundedSemaphore
    m.Thread, m.Timer, m.Barrier = Thread, Timer, Barrier
    m.current_thread = m.currentThread = current_thread
    m.main_thread = lambda: current_thread()
    m.enumerate = enumerate_
    m.active_count = m.activeCount = lambda: len(enumerate_())
    m.get_ident = _thread.get_ident
    m.local = _rt.local
    m.__name__ = "threading"
    return m


class _Proxy(types.ModuleType):
    """module proxy: overridden names, the rest from the real module"""

    def __init__(self, real, **over):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self.__dict__["_real"], name)


def make_fakes(world):
    import time
    import select
    import socket
    fakes = {}

    def now():
        world.tick()
        return world.now

    fakes["time"] = _Proxy(time, time=now, monotonic=now, perf_counter=now, process_time=now,
                           time_ns=lambda: int(now() * 1e9), monotonic_ns=lambda: int(now() * 1e9),
                           sleep=lambda dt: world.sleep(dt))
    fakes["threading"] = make_threading(world)
    net = world.net
    sel = _Proxy(select, select=net.select)
    for k in ("poll", "epoll", "devpoll", "kqueue", "kevent"):
        sel.__dict__[k] = None
    # hasattr(select, 'poll') must be false for selectors: hide them
    for k in ("poll", "epoll", "devpoll", "kqueue", "kevent"):
        del sel.__dict__[k]

    class _Sel(types.ModuleType):
        def __getattr__(self, name):
            if name in ("poll", "epoll", "devpoll", "kqueue", "kevent"):
                raise AttributeError(name)
            return getattr(select, name)
    sel = _Sel("select")
    sel.select = net.select
    sel.error = OSError
    fakes["select"] = sel

    def create_connection(address, timeout=socket._GLOBAL_DEFAULT_TIMEOUT, source_address=None, **kw):
        s = FakeSocket(net)
        try:
            if timeout is not socket._GLOBAL_DEFAULT_TIMEOUT:
                s.settimeout(timeout)
            if source_address:
                s.bind(source_address)
            s.connect(address)
        except BaseException:
            s.close()
            raise
        return s

    def create_server(address, family=socket.AF_INET, backlog=None, reuse_port=False, dualstack_ipv6=False):
        s = FakeSocket(net)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try:
            s.bind(address)
            s.listen(backlog or 10)
        except BaseException:
            s.close()
            raise
        return s

    class _SocketCls(FakeSocket):
        def __init__(self, family=socket.AF_INET, type=socket.SOCK_STREAM, proto=0, fileno=None):
            FakeSocket.__init__(self, net, dgram=bool(type & socket.SOCK_DGRAM) and not bool(type & socket.SOCK_STREAM))
    fakes["socket"] = _Proxy(socket, socket=_SocketCls, SocketType=_SocketCls, create_connection=create_connection,
                             create_server=create_server, getfqdn=lambda name="": "localhost",
                             gethostname=lambda: "localhost")
    net.socket_class = _SocketCls
    fakes["sys"] = _Proxy(sys, stdin=world.stdin, stdout=world.stdout, stderr=world.stderr)
    return fakes


class FakeStdout(object):
    def __init__(self):
        self.text = ""

    def write(self, s):
        self.text += s
        return len(s)

    def flush(self):
        pass


class FakeStdin(object):
    """the console: lines typed at given moments"""

    def __init__(self, world):
        self.w = world
        self.lines = []
        self.eof = False

    def fileno(self):
        return 0

    def type(self, line):
        self.lines.append(line)

    def readable_now(self):
        return bool(self.lines) or self.eof

    def readline(self, *a):
        if not self.lines and not self.eof:
            self.w.block(lambda: self.lines or self.eof)
        return self.lines.pop(0) if self.lines else ""


# ---------------------------------------------------------------------------------------------- fake network
class Pipe(object):
    """one direction of a connection: a list of segments (bytes); readers never see past a segment in one recv"""

    def __init__(self):
        self.segs = []
        self.eof = False
        self.total = 0        # bytes ever written
        self.cap = None       # max bytes buffered, None = unlimited

    def size(self):
        return sum(len(s) for s in self.segs)

    def put(self, data):
        if data:
            self.segs.append(bytes(data))
            self.total += len(data)

    def readable(self):
        return bool(self.segs) or self.eof

    def read(self, n, peek=False):
        s = self.segs[0]
        out = s[:n]
        if not peek:
            rest = s[n:]
            if rest:
                self.segs[0] = rest
            else:
                self.segs.pop(0)
        return out


class Net(object):
    def __init__(self, world):
        self.w = world
        self.listeners = {}      # port -> listening FakeSocket
        self.peers = {}          # port -> connect callback(world) for scripted peers
        self.next_fd = 1000
        self.socks = []          # every socket ever created
        self.fault = None        # callable(op, sock) -> None or exception instance / int (short send)
        self.udp = []
        self.socket_class = None
        self.connect_log = []
        self.points = True       # are socket operations scheduling points?
        self.timewait = {}       # closed server side socket -> end of TIME_WAIT
        self.spin = 0
        self.spin_t = 0.0

    def open_sockets(self):
        return [s for s in self.socks if not s.closed]

    def hook(self, op, sock):
        if self.points:
            self.w.point()
        elif self.w.aborting and current():
            raise Killed()
        else:
            self.w.steps += 1
            self.spin += 1
            if self.w.now - self.spin_t > 0.5:
                self.spin, self.spin_t = 0, self.w.now
            elif self.spin > 200000 and current():
                self.w._fail("steps", "200000 socket operations within half a second: " + self.w._where())
                raise Killed()
        if self.fault is not None:
            r = self.fault(op, sock)
            if isinstance(r, BaseException):
                raise r
            return r
        return None

    def select(self, r, w, x, timeout=None):
        w_ = self.w
        for o in list(r) + list(w) + list(x):
            fd = o if isinstance(o, int) else o.fileno()
            if fd < 0:
                raise ValueError("file descriptor cannot be a negative integer (%d)" % fd)
        if timeout is not None and timeout < 0:
            raise ValueError("timeout must be non-negative")
        self.hook("select", None)
        rl = [self._obj(o) for o in r]
        wl = [self._obj(o) for o in w]

        def ready():
            return ([o for o, s in zip(r, rl) if s.readable_now()], [o for o, s in zip(w, wl) if s.writable_now()])
        a = ready()
        if not (a[0] or a[1]) and (timeout is None or timeout > 0):
            w_.block(lambda: any(s.readable_now() for s in rl) or any(s.writable_now() for s in wl), timeout)
            a = ready()
        else:
            w_.tick()
        return a[0], a[1], []

    def _obj(self, o):
        if isinstance(o, int):
            for s in self.socks:
                if s.fd == o and not s.closed:
                    return s
            raise OSError(errno.EBADF, "Bad file descriptor")
        if hasattr(o, "readable_now"):
            return o
        fd = o.fileno()
        for s in self.socks:
            if s.fd == fd and not s.closed:
                return s
        raise HarnessError("unknown object in select: %r" % (o,))


class FakeSocket(object):
    """TCP (or UDP send-only) socket with the semantics of the real one, on the fake network"""

    def __init__(self, net, dgram=False):
        self.net = net
        self.w = net.w
        self.dgram = dgram
        net.next_fd += 1
        self.fd = net.next_fd
        net.socks.append(self)
        self.timeout_v = None
        self.err = None            # pending error of a reset connection: raised once by recv or send
        self.dead = False          # the connection was reset
        self.closed = False
        self.rx = None
        self.tx = None
        self.peer = None
        self.listening = False
        self.backlog = []
        self.bound = None
        self.connected = False
        self.addr = None
        self.sent = b""            # everything accepted by send, in order
        self.on_send = None        # scripted peer: called with the bytes
        self.on_close = None
        self.shut_w = False
        self.accepted = False
        self.opts = {}

    # -- descriptors
    def fileno(self):
        return -1 if self.closed else self.fd

    def _chk(self):
        if self.w.aborting and current():
            raise Killed()
        if self.closed:
            raise OSError(errno.EBADF, "Bad file descriptor")

    def settimeout(self, t):
        self._chk()
        if t is not None:
            t = float(t)
            if t < 0:
                raise ValueError("Timeout value out of range")
        self.timeout_v = t

    def gettimeout(self):
        return self.timeout_v

    def setblocking(self, flag):
        self._chk()
        self.timeout_v = None if flag else 0.0

    def getblocking(self):
        return self.timeout_v != 0.0

    def setsockopt(self, *a):
        self._chk()
        self.opts[a[:2]] = a[2] if len(a) > 2 else None

    def getsockopt(self, *a):
        self._chk()
        return self.opts.get(a[:2], 0)

    @property
    def family(self):
        import socket
        return socket.AF_INET

    @property
    def type(self):
        import socket
        return socket.SOCK_DGRAM if self.dgram else socket.SOCK_STREAM
    proto = 0

    def getsockname(self):
        self._chk()
        return self.bound or ("0.0.0.0", 0)

    def getpeername(self):
        self._chk()
        if not self.connected:
            raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")
        return self.addr

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def got_rst(self, exc=None):
        """the peer's stack sent RST: data received before stays readable; the error is reported once, by the next recv
        without data or the next send - but not when the peer's FIN had been received before"""
        if self.dead or self.closed:
            return
        self.dead = True
        if self.rx is None:
            self.rx = Pipe()
        if not self.rx.eof:
            self.err = exc or ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        self.rx.eof = True

    # -- readiness
    def readable_now(self):
        if self.closed:
            return False
        if self.listening:
            return bool(self.backlog)
        if self.rx is None:
            return True
        return self.rx.readable()

    def writable_now(self):
        if self.closed or self.listening:
            return False
        if self.tx is None:
            return True
        return self.tx.cap is None or self.tx.size() < self.tx.cap or self.dead

    # -- server side
    def bind(self, addr):
        self._chk()
        self.net.hook("bind", self)
        if self.bound:
            raise OSError(errno.EINVAL, "Invalid argument")
        if addr[1] in self.net.listeners:
            raise OSError(errno.EADDRINUSE, "Address already in use")
        # connections of this port that are established or in TIME_WAIT: both sides must allow the reuse of the address
        if not self.dgram and any(c is not self and not c.dgram and c.bound and c.bound[1] == addr[1] and
                                  (c.accepted or c.peer is None) and
                                  (not c.closed or self.net.timewait.get(c, 0) > self.w.now) and
                                  not (self.reuse() and c.reuse()) for c in self.net.socks):
            raise OSError(errno.EADDRINUSE, "Address already in use")
        self.bound = (addr[0] or "0.0.0.0", addr[1])

    def reuse(self):
        import socket
        return bool(self.opts.get((socket.SOL_SOCKET, socket.SO_REUSEADDR)))

    def listen(self, backlog=10):
        self._chk()
        self.net.hook("listen", self)
        if self.bound is None:
            self.bound = ("0.0.0.0", 40000 + self.fd)
        if self.bound[1] in self.net.listeners and self.net.listeners[self.bound[1]] is not self:
            raise OSError(errno.EADDRINUSE, "Address already in use")
        self.listening = True
        self.net.listeners[self.bound[1]] = self

    def accept(self):
        self._chk()
        if not self.listening:
            raise OSError(errno.EINVAL, "Invalid argument")
        self.net.hook("accept", self)
        self._chk()
        if not self.backlog:
            if self.timeout_v == 0.0:
                self.w.tick()
                raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
            if not self.w.block(lambda: self.backlog or self.closed, self.timeout_v):
                raise TimeoutError("timed out")
            self._chk()
        conn = self.backlog.pop(0)
        conn.accepted = True
        return conn, conn.addr

    # -- client side
    def connect(self, addr):
        self._chk()
        self.net.hook("connect", self)
        self._chk()
        if self.dgram:
            self.addr = addr
            return
        if self.connected:
            raise OSError(errno.EISCONN, "Transport endpoint is already connected")
        host, port = addr[0], addr[1]
        if not isinstance(port, int):
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(port).__name__)
        if not isinstance(host, str):
            raise TypeError("str, bytes or bytearray expected, not %s" % type(host).__name__)
        self.net.connect_log.append((self, addr))
        if port in self.net.peers:
            r = self.net.peers[port](self, addr)      # scripted: returns None (ok) or an exception or "silent"
            if r == "silent":
                if self.timeout_v == 0.0:
                    raise BlockingIOError(errno.EINPROGRESS, "Operation now in progress")
                self.w.block(lambda: self.closed, self.timeout_v)
                self._chk()
                raise TimeoutError("timed out")
            if isinstance(r, BaseException):
                raise r
            self.connected = True
            self.addr = (host, port)
            if self.rx is None:
                self.rx = Pipe()
            return
        lst = self.net.listeners.get(port)
        if lst is None or lst.closed:
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        srv = self.net.socket_class() if self.net.socket_class else FakeSocket(self.net)
        srv.addr = ("127.0.0.1", 50000 + self.fd)
        srv.bound = lst.bound
        srv.opts = dict(lst.opts)
        srv.connected = True
        srv.rx, srv.tx = Pipe(), Pipe()
        self.rx, self.tx = srv.tx, srv.rx
        srv.peer, self.peer = self, srv
        self.connected = True
        self.addr = (host, port)
        self.bound = srv.addr
        srv.pending = True
        lst.backlog.append(srv)

    def connect_ex(self, addr):
        try:
            self.connect(addr)
        except OSError as e:
            return e.errno or errno.EAGAIN
        return 0

    # -- data
    def recv(self, n, flags=0):
        self._chk()
        r = self.net.hook("recv", self)
        self._chk()
        if self.listening or self.rx is None:
            raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")
        if n == 0:
            return b""
        rx = self.rx
        if not rx.readable():
            if self.timeout_v == 0.0:
                self.w.tick()
                raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
            if not self.w.block(lambda: rx.readable() or self.closed, self.timeout_v):
                raise TimeoutError("timed out")
            if self.closed:
                raise OSError(errno.EBADF, "Bad file descriptor")
        import socket
        if rx.segs:
            # (a socket with a timeout is non-blocking for the system: MSG_WAITALL has no effect)
            waitall = flags & getattr(socket, "MSG_WAITALL", 0) and self.timeout_v is None
            if waitall and rx.size() < n and not rx.eof:
                self.w.block(lambda: rx.size() >= n or rx.eof)
            out = rx.read(n, bool(flags & socket.MSG_PEEK))
            if waitall and not flags & socket.MSG_PEEK:
                while len(out) < n and rx.segs:
                    out += rx.read(n - len(out))
            return out
        self._pending()
        return b""

    def _pending(self):
        if self.err is not None:
            e, self.err = self.err, None
            raise e

    def recv_into(self, buf, nbytes=0, flags=0):
        data = self.recv(nbytes or len(buf), flags)
        memoryview(buf)[:len(data)] = data
        return len(data)

    def recvfrom(self, n, flags=0):
        return self.recv(n, flags), self.addr

    def send(self, data, flags=0):
        data = bytes(memoryview(data))
        self._chk()
        r = self.net.hook("send", self)
        self._chk()
        return self._send(data, r)

    def _send(self, data, r=None):
        if self.dgram:
            self.net.udp.append((data, self.addr))
            return len(data)
        if not self.connected:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        self._pending()
        if self.shut_w:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        if not data:
            return 0
        if self.dead:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        if self.tx is not None:
            if self.tx.cap is not None:
                room = self.tx.cap - self.tx.size()
                if room <= 0:
                    if self.timeout_v == 0.0:
                        self.w.tick()
                        raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
                    if not self.w.block(lambda: self.tx.size() < self.tx.cap or self.dead or self.closed, self.timeout_v):
                        raise TimeoutError("timed out")
                    self._chk()
                    self._pending()
                    if self.dead:
                        raise BrokenPipeError(errno.EPIPE, "Broken pipe")
                    room = self.tx.cap - self.tx.size()
                data = data[:room]
        if isinstance(r, int) and not isinstance(r, bool) and r > 0:
            data = data[:r]
        self.sent += data
        if self.tx is not None:
            self.tx.put(data)
            if self.peer is not None and self.peer.closed:
                # data for a closed peer: the peer's stack answers RST
                self.net.timewait.pop(self.peer, None)
                self.got_rst()
        if self.on_send is not None:
            self.on_send(data)
        return len(data)

    def sendall(self, data, flags=0):
        data = bytes(memoryview(data))
        end = None if not self.timeout_v else self.w.now + self.timeout_v
        off = 0
        self._chk()
        while off < len(data):
            r = self.net.hook("send", self)
            self._chk()
            if end is not None and self.w.now > end:
                raise TimeoutError("timed out")
            off += self._send(data[off:], r)

    def sendto(self, data, *a):
        self._chk()
        self.net.hook("sendto", self)
        self.net.udp.append((bytes(memoryview(data)), a[-1]))
        return len(data)

    def shutdown(self, how):
        self._chk()
        if not self.connected:
            raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")
        if self.dead or (self.shut_w and self.rx is not None and self.rx.eof):
            # reset, or closed by both ends
            raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")
        import socket
        if how in (socket.SHUT_WR, socket.SHUT_RDWR):
            self.shut_w = True
            if self.tx is not None:
                self.tx.eof = True
        if how in (socket.SHUT_RD, socket.SHUT_RDWR) and self.rx is not None:
            self.rx.eof = True

    def close(self):
        if self.closed:
            return
        if self.w.aborting and current():
            raise Killed()
        try:
            self.net.hook("close", self)
        finally:
            # a failing close() releases the descriptor all the same
            self._close()

    def _close(self):
        if self.closed:
            return
        self.closed = True
        if self.listening:
            p = self.bound[1]
            if self.net.listeners.get(p) is self:
                del self.net.listeners[p]
            for c in self.backlog:
                c._reset()
            self.backlog = []
        if self.tx is not None:
            if self.rx is not None and self.rx.segs:
                # unread data at close: RST instead of FIN
                if self.peer is not None:
                    self.peer.got_rst()
            elif self.accepted and not self.rx.eof:
                self.net.timewait[self] = self.w.now + 60.0      # we close first
            self.tx.eof = True
        if self.on_close is not None:
            self.on_close()

    def _reset(self):
        """abortive close (RST)"""
        self.closed = True
        if self.peer is not None:
            self.peer.got_rst()

    def detach(self):
        fd = self.fd
        self.closed = True
        return fd

    def makefile(self, mode="r", buffering=None, **kw):
        import io
        sock = self

        class Raw(io.RawIOBase):
            def readable(self_):
                return True

            def writable(self_):
                return True

            def readinto(self_, b):
                d = sock.recv(len(b))
                b[:len(d)] = d
                return len(d)

            def write(self_, b):
                return sock.send(b)
        raw = Raw()
        if buffering == 0:
            return raw
        b = io.BufferedRWPair(raw, raw)
        return b if "b" in mode else io.TextIOWrapper(b)

    def __del__(self):
        pass

    def __repr__(self):
        return "<FakeSocket fd=%d%s>" % (self.fd, " closed" if self.closed else "")
