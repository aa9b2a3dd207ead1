"""Line-level control of real threads: cooperative stand-ins for the `threading`
primitives and a tracer that makes every source line of chosen files a scheduling
point of a vnet.Sched."""

import os
import pickle
import sys
import threading as rt
import types

from . import vnet


class VThreading(types.ModuleType):
    """A `threading` namespace whose locks, events and threads belong to ref[0]."""

    def __init__(self, ref):
        super().__init__("threading")
        self._ref = ref
        self.pending = []
        self.current_thread = self.currentThread = self._cur
        self._mainobj = None
        vt = self

        class VLock:
            reentrant = False

            def __init__(self):
                self.owner = None
                self.n = 0

            def acquire(self, blocking=True, timeout=-1):
                s = ref[0]
                t = s.me() if s else None
                key = t or "nobody"
                if self.reentrant and self.owner is key:
                    self.n += 1
                    return True
                if t is not None:
                    s.point()
                if self.owner is not None:
                    if not blocking or t is None:
                        if t is None and not s:
                            raise RuntimeError("lock held outside the scheduler")
                        return False
                    s.block(lambda: self.owner is None, None if timeout is None or timeout < 0 else timeout)
                    if self.owner is not None:
                        return False
                self.owner = key
                self.n = 1
                return True

            def release(self):
                self.n -= 1
                if self.n <= 0:
                    self.owner = None

            def locked(self):
                return self.owner is not None

            def __enter__(self):
                self.acquire()
                return True

            def __exit__(self, *a):
                self.release()

        class VRLock(VLock):
            reentrant = True

        class VEvent:
            def __init__(self):
                self.flag = False

            def set(self):
                self.flag = True

            def clear(self):
                self.flag = False

            def is_set(self):
                return self.flag

            isSet = is_set

            def wait(self, timeout=None):
                s = ref[0]
                if s and s.me() is not None:
                    s.block(lambda: self.flag, timeout)
                return self.flag

        class VThread:
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
                self.target, self.args, self.kwargs = target, args, kwargs or {}
                self.name = name or "thread"
                self.daemon = daemon
                self.task = None

            def _body(self):
                try:
                    self.target(*self.args, **self.kwargs)
                except SystemExit:
                    pass

            def start(self):
                s = ref[0]
                if s is None:
                    vt.pending.append(self)
                else:
                    self._spawn(s)

            def _spawn(self, s):
                self.task = s.spawn(self._body, self.name)
                self.task.vthread = self
                self.task.daemon = self.daemon

            def join(self, timeout=None):
                s = ref[0]
                if s and s.me() is not None and self.task is not None:
                    s.block(lambda: self.task.done, timeout)

            def is_alive(self):
                return self.task is not None and not self.task.done

            isAlive = is_alive

        self.Lock, self.RLock, self.Event, self.Thread = VLock, VRLock, VEvent, VThread
        self.Timer = rt.Timer
        self.local = rt.local
        self.get_ident = rt.get_ident

    def _cur(self):
        s = self._ref[0]
        t = s.me() if s else None
        if t is None or t is (s and s.main):
            return self.main_thread()
        return getattr(t, "vthread", t)

    def main_thread(self):
        return rt.main_thread()

    def launch_pending(self, sched):
        for t in self.pending:
            t._spawn(sched)
        self.pending = []


def make_tracer(sched, files, extra=None):
    """settrace function: a scheduling point at every line of the given files."""
    files = tuple(files)

    def local(frame, event, arg):
        if event == "line":
            sched.point()
        return local

    cache = {}

    def tracer(frame, event, arg):
        fn = frame.f_code.co_filename
        ok = cache.get(fn)
        if ok is None:
            ok = cache[fn] = fn.endswith(files)
        return local if ok else None

    return tracer


def forked(fn, timeout=60.0):
    """Runs fn() in a forked child and returns its (pickled) value; None if it died."""
    import select
    import signal

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException as e:  # noqa
                import traceback

                out = ("exc", "".join(traceback.format_exception(e)))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    import time

    end = time.time() + timeout
    with os.fdopen(r, "rb", buffering=0) as f:
        while True:
            left = end - time.time()
            rl, _, _ = select.select([f], [], [], max(left, 0))
            if not rl:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return ("timeout", None)
            b = f.read(1 << 16)
            if not b:
                break
            data += b
    os.waitpid(pid, 0)
    if not data:
        return ("died", None)
    return pickle.loads(data)
