"""A virtual network, clock and cooperative thread scheduler.

The code under test is imported with these stand-ins for `socket`, `select`,
`time` and the thread pool, so that one controller owns every source of
nondeterminism: thread switches, message delays, fragmentation, failures and
the clock. Executions are deterministic functions of a choice sequence.
"""

import heapq
import importlib
import sys
import threading
import types

import numpy as np


class Chooser:
    """Replays a prefix of choices and takes 0 afterwards; records the points met."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.points = []  # (n alternatives, chosen, label)

    def __call__(self, n, label=""):
        i = len(self.points)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError("choice %d out of range at %s (%d)" % (c, label, n))
        self.points.append((n, c, label))
        return c


def explore(run, bound, maxruns=None, only=None):
    """Enumerates all executions with at most `bound` non-default choices.

    run(chooser) performs one execution. `only(i, label)` may restrict the points
    at which deviations are tried. Yields (choices, result)."""
    stack = [((), 0)]
    n = 0
    while stack:
        prefix, dev = stack.pop()
        ch = Chooser(prefix)
        res = run(ch)
        n += 1
        yield [p[1] for p in ch.points], ch.points, res
        if maxruns and n >= maxruns:
            return
        if dev >= bound:
            continue
        for i in range(len(prefix), len(ch.points)):
            k, c, lab = ch.points[i]
            if only and not only(i, lab):
                continue
            for alt in range(1, k):
                stack.append((tuple(p[1] for p in ch.points[:i]) + (alt,), dev + 1))


class Killed(BaseException):
    """Raised inside tasks that are still alive when an execution ends."""


class Task:
    def __init__(self, sched, fn, name):
        self.sched, self.fn, self.name = sched, fn, name
        self.sem = threading.Semaphore(0)
        self.ready = None
        self.deadline = None
        self.done = False
        self.exc = None
        self.value = None
        self.thread = threading.Thread(target=self._main, name=name, daemon=True)

    def _main(self):
        self.sem.acquire()
        try:
            if self.sched.killed:
                raise Killed()
            if self.sched.tracer:
                sys.settrace(self.sched.tracer)
            self.value = self.fn()
        except BaseException as e:  # noqa
            self.exc = e
        sys.settrace(None)
        self.done = True
        self.sched._exit(self)


class Sched:
    """One task runs at a time; control moves only inside block()/point()."""

    def __init__(self, choose, max_steps=20000, max_time=1e7):
        self.choose = choose
        self.tasks = []
        self.now = 1000.0
        self.events = []  # (time, seq, fn)
        self.seq = 0
        self.steps = 0
        self.max_steps = max_steps
        self.max_time = max_time
        self.verdict = None
        self.fin = threading.Event()
        self.current = None
        self.main = None
        self.preempt = False  # offer preemptions of runnable tasks
        self.early = False  # let timed waits expire at any moment, as a choice
        self.tick = 1e-5  # virtual cost of one scheduling step
        self.burst = 0
        self.max_burst = 60
        self.killed = False
        self.tracer = None  # settrace function installed in every task

    # -- task API -----------------------------------------------------------
    def spawn(self, fn, name):
        t = Task(self, fn, name)
        self.tasks.append(t)
        t.thread.start()
        return t

    def me(self):
        th = threading.current_thread()
        for t in self.tasks:
            if t.thread is th:
                return t
        return None

    def at(self, when, fn):
        self.seq += 1
        heapq.heappush(self.events, (when, self.seq, fn))

    def block(self, ready, timeout=None):
        """Waits for ready(); returns False when the timeout expired first."""
        t = self.me()
        if t is None:  # called from the controller (teardown): no waiting
            return ready()
        if self.killed:
            raise Killed()
        t.ready = ready
        t.deadline = None if timeout is None else self.now + max(timeout, 0.0)
        self._switch(t)
        t.ready = None
        d, t.deadline = t.deadline, None
        return True if ready() else False

    def point(self):
        """A pure scheduling point (preemption opportunity)."""
        t = self.me()
        if t is None:
            return
        self._switch(t)

    def sleep(self, dt):
        t = self.me()
        if t is None:
            return
        end = self.now + max(dt, 1e-9)
        self.block(lambda: self.now >= end, max(dt, 1e-9))

    # -- engine -------------------------------------------------------------
    def _enabled(self, t):
        if t.done:
            return False
        if t.ready is None:
            return True
        if t.ready():
            return True
        return t.deadline is not None and self.now >= t.deadline

    def _pick(self, cur):
        while True:
            while self.events and self.events[0][0] <= self.now:
                heapq.heappop(self.events)[2]()
            en = [t for t in self.tasks if self._enabled(t)]
            if en:
                first = cur in en
                if self.early:  # a timed wait may also end now
                    en += [t for t in self.tasks if not t.done and t.deadline is not None and t not in en]
                if first:
                    en.remove(cur)
                    en.insert(0, cur)
                    if len(en) > 1:
                        self.burst += 1
                        if self.burst > self.max_burst:  # fairness
                            return en[1]
                        if self.preempt:
                            return en[self.choose(len(en), "preempt")]
                    return cur
                if len(en) > 1:
                    return en[self.choose(len(en), "sched")]
                return en[0]
            times = [t.deadline for t in self.tasks if not t.done and t.deadline is not None]
            if self.events:
                times.append(self.events[0][0])
            if not times:
                return None
            self.now = max(self.now, min(times))
            if self.now > self.max_time:
                return "time"

    def _park(self, cur):
        cur.sem.acquire()
        if self.killed:
            raise Killed()

    def _switch(self, cur):
        if self.killed:
            raise Killed()
        self.steps += 1
        self.now += self.tick
        if self.steps > self.max_steps:
            self._finish("livelock")
            self._park(cur)
        nxt = self._pick(cur)
        if nxt is None or nxt == "time":
            self._finish("deadlock" if nxt is None else "horizon")
            self._park(cur)
        if nxt is cur:
            return
        self.burst = 0
        self.current = nxt
        nxt.sem.release()
        self._park(cur)

    def _exit(self, t):
        if self.killed:
            return
        if t is self.main:
            self._finish("done")
            return
        nxt = self._pick(None)
        if nxt is None or nxt == "time":
            self._finish("deadlock" if nxt is None else "horizon")
            return
        nxt.sem.release()

    def _finish(self, verdict):
        if self.verdict is None:
            self.verdict = verdict
            self.fin.set()

    def run(self, fn, wall=60.0):
        self.main = self.spawn(fn, "main")
        self.main.sem.release()
        if not self.fin.wait(wall):
            self.verdict = "stuck"
        return self.verdict

    def kill(self):
        """Ends the tasks that are still alive (nothing is checked afterwards)."""
        self.killed = True
        for t in self.tasks:
            if not t.done:
                t.sem.release()
        for t in self.tasks:
            t.thread.join(2.0)


class FakeTime(types.ModuleType):
    def __init__(self, sched_ref):
        super().__init__("time")
        import time as rt

        for k in ("strftime", "localtime", "gmtime", "ctime", "struct_time", "asctime"):
            setattr(self, k, getattr(rt, k))
        self._s = sched_ref
        self._rt = rt

    def time(self):
        return self._s[0].now if self._s[0] else self._rt.time()

    perf_counter = monotonic = time

    def sleep(self, dt):
        if self._s[0]:
            self._s[0].sleep(dt)


class Endpoint:
    """The i-PI side of one connection."""

    def __init__(self, net, fd):
        self.net, self.fd = net, fd
        self.buf = bytearray()
        self.eof = False
        self.rst = False
        self.closed = False
        self.shut = False
        self.peer = None

    def readable(self):
        return len(self.buf) > 0 or self.eof or self.rst or self.shut or self.closed


class Net:
    nextfd = 100  # never reused, not even by later executions in one process

    def __init__(self, sched):
        self.sched = sched
        self.endpoints = {}
        self.listeners = {}
        self.pending = []  # endpoints waiting in the accept queue
        self.on_accept_poll = None

    def new_fd(self):
        Net.nextfd += 1
        return Net.nextfd

    def connect(self, peer):
        e = Endpoint(self, self.new_fd())
        e.peer = peer
        peer.end = e
        self.endpoints[e.fd] = e
        self.pending.append(e)
        return e

    def deliver(self, e, data, when):
        def go():
            if not e.eof and not e.rst:
                e.buf.extend(data)

        self.sched.at(when, go)

    def fin(self, e, when):
        def go():
            e.eof = True

        self.sched.at(when, go)

    def reset(self, e, when):
        def go():
            e.rst = True

        self.sched.at(when, go)


def make_modules(ref):
    """Fake `socket`, `select` and `time` modules bound to ref = [sched, net]."""

    sm = types.ModuleType("socket")
    import socket as rs

    for k in ("AF_UNIX", "AF_INET", "SOCK_STREAM", "SOL_SOCKET", "SO_REUSEADDR",
              "IPPROTO_TCP", "TCP_NODELAY", "SHUT_RDWR", "SHUT_RD", "SHUT_WR", "timeout", "error", "gaierror"):
        setattr(sm, k, getattr(rs, k))

    def sched():
        return ref[0]

    def net():
        return ref[1]

    class VSocket:
        def __init__(self, family=rs.AF_UNIX, type=rs.SOCK_STREAM, proto=0, fileno=None):
            self.family, self.type, self.proto = family, type, proto
            self._timeout = None
            self._e = None
            self._listen = False
            self._closed = False
            self._fd = fileno
            if fileno is not None:
                self._e = net().endpoints.get(fileno)
            else:
                self._fd = net().new_fd()

        def fileno(self):
            return -1 if self._closed else self._fd

        def settimeout(self, t):
            self._timeout = t

        def gettimeout(self):
            return self._timeout

        def setblocking(self, flag):
            self._timeout = None if flag else 0.0

        def setsockopt(self, *a):
            pass

        def getpeername(self):
            return "vpeer%d" % self._fd

        def bind(self, addr):
            pass

        def listen(self, n=0):
            self._listen = True

        def connect(self, addr):
            raise OSError("virtual socket cannot connect")

        def accept(self):
            n = net()
            ok = sched().block(lambda: len(n.pending) > 0, self._timeout)
            if not ok:
                raise rs.timeout("timed out")
            e = n.pending.pop(0)
            s = VSocket(fileno=e.fd)
            return s, "vaddr%d" % e.fd

        # data
        def _check(self):
            if self._closed or self._e is None:
                raise OSError(9, "Bad file descriptor")

        def sendall(self, data):
            self._check()
            e = self._e
            sched().point()
            self._check()
            if e.shut or e.rst:
                raise BrokenPipeError(32, "Broken pipe")
            if e.eof:
                raise BrokenPipeError(32, "Broken pipe")
            e.peer.feed(bytes(data))
            if getattr(e, "send_timeout", False):
                e.send_timeout = False
                raise rs.timeout("timed out")

        def send(self, data):
            self.sendall(data)
            return len(data)

        def _wait(self, n):
            self._check()
            e = self._e
            ok = sched().block(lambda: e.readable() or self._closed, self._timeout)
            self._check()
            if not ok:
                raise rs.timeout("timed out")
            if len(e.buf):
                d = bytes(e.buf[:n])
                del e.buf[:n]
                return d
            if e.rst:
                raise ConnectionResetError(104, "Connection reset by peer")
            return b""

        def recv(self, n, flags=0):
            return self._wait(n)

        def recv_into(self, buf, nbytes=0, flags=0):
            mv = memoryview(buf).cast("B")
            n = nbytes or len(mv)
            d = self._wait(n)
            mv[: len(d)] = d
            return len(d)

        def shutdown(self, how=rs.SHUT_RDWR):
            self._check()
            if self._e.rst:
                raise OSError(107, "Transport endpoint is not connected")
            self._e.shut = True
            self._gone()

        def _gone(self):
            f = getattr(self._e.peer, "on_close", None)
            if f:
                f()

        def close(self):
            self._closed = True
            if self._e is not None:
                self._e.closed = True
                self._gone()

        def detach(self):
            return self._fd

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

    sm.socket = VSocket
    sm.dup = lambda fd: fd
    sm.SocketType = VSocket

    sel = types.ModuleType("select")
    sel.error = OSError

    def select(r, w, x, timeout=None):
        n = net()

        def fds_ok():
            for s in list(r) + list(w):
                if s.fileno() < 0:
                    raise ValueError("file descriptor cannot be a negative integer (-1)")

        fds_ok()
        listening = [s for s in r if getattr(s, "_listen", False)]
        if listening and n.on_accept_poll:
            n.on_accept_poll(timeout)

        def rd(s):
            if getattr(s, "_listen", False):
                return len(n.pending) > 0
            return s._e.readable() or s._closed

        def wr(s):
            return True

        def ready():
            return any(rd(s) for s in r) or any(wr(s) for s in w)

        sched().block(ready, timeout)
        # a descriptor closed by another thread meanwhile is reported readable
        return [s for s in r if rd(s)], [s for s in w if wr(s)], []

    sel.select = select

    tm = FakeTime(ref)
    return sm, sel, tm


class Future:
    def __init__(self, task, sched):
        self.task, self.sched = task, sched

    def result(self, timeout=None):
        self.sched.block(lambda: self.task.done, timeout)
        if self.task.exc is not None:
            raise self.task.exc
        return self.task.value

    def done(self):
        return self.task.done

    def exception(self, timeout=None):
        self.sched.block(lambda: self.task.done, timeout)
        return self.task.exc


def make_executor(ref):
    class VExecutor:
        def __init__(self, max_workers=None, **kw):
            self.n = 0

        def submit(self, fn, *a, **kw):
            self.n += 1
            t = ref[0].spawn(lambda: fn(*a, **kw), "worker%d" % self.n)
            f = Future(t, ref[0])
            ref[0].point()
            return f

        def shutdown(self, wait=True, **kw):
            pass

    return VExecutor


class FakeSharedMemory:
    """In-process registry of named segments."""

    reg = {}

    def __init__(self, name=None, create=False, size=0):
        if create:
            if name in self.reg:
                raise FileExistsError(name)
            self.reg[name] = bytearray(size)
        elif name not in self.reg:
            raise FileNotFoundError(name)
        self.name = name
        self.size = len(self.reg[name])
        self.buf = memoryview(self.reg[name])

    def close(self):
        pass

    def unlink(self):
        if self.name not in self.reg:
            raise FileNotFoundError(self.name)
        del self.reg[self.name]


def import_with(modname, fakes):
    """(Re-)executes a module with stand-ins for some of its imports."""
    saved = {k: sys.modules.get(k) for k in fakes}
    importlib.import_module(modname)  # make sure its other imports are loaded for real
    try:
        sys.modules.update(fakes)
        mod = importlib.reload(sys.modules[modname])
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    return mod
