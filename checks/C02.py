"""C02: the byte stream between i-PI and a driver carries every structure and every
result unchanged, however the transport cuts it into pieces.

The real server code and the real Python driver run against each other on the
virtual network. Every byte position of both directions of the conversation is
tried as a cut (the rest arrives later than the socket timeout), every send is
tried as a short write, and all kinds of extra strings/sizes are transmitted."""

import importlib.util
import json
import os
import types

import numpy as np

from vlib import vnet
from vlib.core import Result, REPO
from checks import C01

PROPERTY = "C02"
LEVEL = "model_checking"
TIMEOUT = 600.0
RULE = (
    "one case = one transport configuration and a block of cut positions; states are distinct "
    "(configuration, fragmentation pattern); transitions are scheduler steps of real server and driver code"
)
ASSUMPTIONS = ["byte order and content are preserved by the transport; only its packetisation varies"]
BOUNDS = {
    "quick": "every single cut position in both directions of a 2-round conversation, 8 transport configurations; "
    "all short sends; 13 extra strings x 4 transports; byte-by-byte delivery",
    "thorough": "as quick, plus all pairs of cut positions on a lattice of 7 bytes and all adjacent pairs",
}

EXTRAS = ["", " ", "plain text", "{}", '{"a": [1, 2.5], "b": "x"}', "é ü — 漢字", '{"k": "naïve"}', "42", "[1, 2]",
          '"str"', "null", "line\nbreak\n", "x" * 5000]

CONFIGS = {
    "c1": dict(mode="unix", consolidate=True, batch=1, reqs=2, nat=2),
    "t1": dict(mode="unix", consolidate=False, batch=1, reqs=2, nat=2),
    "c1-inet": dict(mode="inet", consolidate=True, batch=1, reqs=1, nat=3, extra=4),
    "c-batch2": dict(mode="unix", consolidate=True, batch=2, reqs=3, nat=2, extra=4),
    "c-batch3": dict(mode="inet", consolidate=True, batch=3, reqs=3, nat=1, extra=5),
    "c-shm": dict(mode="shm", consolidate=True, batch=1, reqs=2, nat=2, extra=4),
    "t-shm": dict(mode="shm", consolidate=False, batch=1, reqs=2, nat=2, extra=2),
    "c-shm-batch2": dict(mode="shm", consolidate=True, batch=2, reqs=3, nat=2, extra=5),
}


def items(tier):
    out = []
    for c in CONFIGS:
        out.append(dict(config=c, kind="plain"))
        out.append(dict(config=c, kind="drip"))
        out.append(dict(config=c, kind="short"))
        out.append(dict(config=c, kind="vanish"))
        n = 4 if tier == "quick" else 8
        for d in ("s2c", "c2s"):
            for k in range(n):
                out.append(dict(config=c, kind="cut", dir=d, shard=[k, n]))
            if tier != "quick":
                for k in range(8):
                    out.append(dict(config=c, kind="cut2", dir=d, shard=[k, 8]))
    for c in ("c1", "t1", "c-batch2", "c-shm"):
        for x in range(len(EXTRAS)):
            out.append(dict(config=c, kind="extra", extra=x))
    return out


def potential(cell, pos):
    pos = np.asarray(pos)
    w = 1.0 + np.arange(pos.size).reshape(pos.shape) * 0.25
    pot = float((w * pos).sum() + np.trace(cell))
    f = -(w + 0.25 * pos)
    vir = np.outer(f[0], pos[0]) + 0.5 * np.asarray(cell)
    return pot, f, vir


class PES:
    def __init__(self, extra):
        self.extra = extra

    def one(self, cell, pos):
        u, f, v = potential(cell, pos)
        return u, f, v, self.extra

    def __call__(self, cell, pos):
        if isinstance(cell, list):
            return [self.one(c, p) for c, p in zip(cell, pos)]
        return self.one(cell, pos)


class Pipe:
    """One direction; `cuts` are stream offsets at which the flow is interrupted."""

    def __init__(self, sched, sink, cuts=(), drip=False):
        self.sched, self.sink = sched, sink
        self.cuts = sorted(cuts)
        self.off = 0
        self.t = 0.0
        self.drip = drip

    def put(self, data):
        data = bytes(data)
        t = max(self.sched.now + 1e-3, self.t)
        pieces = []
        a = 0
        for c in self.cuts:
            r = c - self.off
            if a < r < len(data):
                pieces.append((data[a:r], t))
                t += 0.35
                a = r
            elif r == len(data):
                pass
        if self.drip:
            step = max(1, (len(data) - a) // 40)
            while a < len(data):
                pieces.append((data[a : a + step], t))
                t += 1e-4
                a += step
        else:
            pieces.append((data[a:], t))
        self.off += len(data)
        self.t = t
        for p, w in pieces:
            self.sched.at(w, lambda p=p: self.sink(p))


_drv = {}


def load_driver(ref):
    if _drv:
        return _drv["m"]
    import socket as rs

    sm = types.ModuleType("socket")
    for k in ("AF_UNIX", "AF_INET", "SOCK_STREAM", "SOL_SOCKET", "SO_REUSEADDR", "IPPROTO_TCP", "TCP_NODELAY",
              "SHUT_RDWR", "timeout", "error", "MSG_WAITALL"):
        setattr(sm, k, getattr(rs, k))

    class CSock:
        def __init__(self, *a, **k):
            self.buf = bytearray()
            self.eof = False
            self.sends = 0
            self.ctx = ref[2]

        def setsockopt(self, *a):
            pass

        def settimeout(self, t):
            pass

        def connect(self, addr):
            ctx = self.ctx
            ctx["csock"] = self
            sched, net = ref[0], ref[1]
            self.s2c = Pipe(sched, self._arrive, ctx["cuts"].get("s2c", ()), ctx.get("drip"))
            e = net.connect(self)
            self.end = e
            self.c2s = Pipe(sched, lambda d: e.buf.extend(d), ctx["cuts"].get("c2s", ()), ctx.get("drip"))

        def _arrive(self, d):
            self.buf.extend(d)

        def feed(self, data):
            v = self.ctx.get("vanish")
            if v is not None and self.s2c.off + len(data) >= v:
                if self.s2c.off < v:
                    self.s2c.put(data[: v - self.s2c.off])
                self.s2c.off = max(self.s2c.off, v)
                self.ctx["vanished"] = True
                self.on_close()
                return
            self.s2c.put(data)

        def on_close(self):
            ref[0].at(max(ref[0].now, self.s2c.t) + 1e-3, lambda: setattr(self, "eof", True))

        def _get(self, n):
            ref[0].block(lambda: len(self.buf) > 0 or self.eof)
            d = bytes(self.buf[:n])
            del self.buf[:n]
            return d

        def recv(self, n, flags=0):
            if flags & rs.MSG_WAITALL:
                ref[0].block(lambda: len(self.buf) >= n or self.eof)
            return self._get(n)

        def recv_into(self, buf, nbytes=0, flags=0):
            mv = memoryview(buf).cast("B")
            n = nbytes or len(mv)
            d = self.recv(n, flags)
            mv[: len(d)] = d
            return len(d)

        def send(self, data):
            ref[0].point()
            data = bytes(data)
            k = self.sends
            self.sends += 1
            if k == self.ctx.get("short"):
                data = data[: max(1, len(data) // 2)] if data else data
            self.c2s.put(data)
            return len(data)

        def sendall(self, data):
            ref[0].point()
            self.c2s.put(bytes(data))

        def close(self):
            e = self.end
            ref[0].at(ref[0].now + 1e-3, lambda: setattr(e, "eof", True))

        def shutdown(self, how=0):
            self.close()

    sm.socket = CSock
    spec = importlib.util.spec_from_file_location("v_driver", os.path.join(REPO, "drivers/py/driver.py"))
    m = importlib.util.module_from_spec(spec)
    import sys

    real = sys.modules["socket"]
    sys.modules["socket"] = sm
    try:
        spec.loader.exec_module(m)
    finally:
        sys.modules["socket"] = real
    m.shared_memory = types.SimpleNamespace(SharedMemory=vnet.FakeSharedMemory)
    m.resource_tracker = types.SimpleNamespace(unregister=lambda *a: None)
    m.print = lambda *a, **k: None
    _drv["m"] = m
    return m


def execute(cfg, ctx):
    M = C01.load()
    S, FF, ref = M["S"], M["FF"], M["ref"]
    while len(ref) < 3:
        ref.append(None)
    for k, v in M["glob"].items():
        setattr(S, k, v)
    vnet.FakeSharedMemory.reg.clear()
    vnet.FakeSharedMemory._name = property(lambda self: self.name)
    sched = vnet.Sched(vnet.Chooser(()), max_steps=40000, max_time=2000.0)
    net = vnet.Net(sched)
    ref[0], ref[1], ref[2] = sched, net, ctx
    ctx.setdefault("cuts", {})
    drv = load_driver(ref)
    S.threading = types.SimpleNamespace(Thread=None)
    itf = S.InterfaceSocket(address="x", mode=cfg["mode"], timeout=600.0, consolidate_messages=cfg["consolidate"],
                            batch_size=cfg["batch"], sockets_prefix="/nonexistent/v_")
    off = 1.25
    ff = FF.FFSocket(latency=0.01, offset=off, name="v", pars={"a": 1.5}, dopbc=False, threaded=True, interface=itf)
    itf.open()
    extra = EXTRAS[ctx.get("extra", cfg.get("extra", 0))]
    errs = []
    nat = cfg["nat"]
    stats = {}

    def main():
        pt = sched.spawn(lambda: (ff._doloop.__setitem__(0, True), ff._poll_loop()), "poll")
        dt = sched.spawn(lambda: drv.run_driver(unix=cfg["mode"] == "unix", address="x", driver=PES(extra),
                                                shm=cfg["mode"] == "shm"), "driver")
        for rnd in range(2):
            rs = []
            for i in range(cfg["reqs"]):
                q = np.sin(np.arange(3 * nat) * 1.7 + i + 10 * rnd) * 3
                h = np.diag([5.0 + i, 6.0, 7.0 + rnd]) + np.triu(np.full((3, 3), 0.3 * i), 1)
                rs.append((ff.queue(C01.FakeAtoms(q), C01.FakeCell(h), reqid=i), q, h))
            sched.block(lambda: pt.done or dt.done or all(r["status"] == "Done" for r, _, _ in rs), 300.0)
            if ctx.get("vanished"):
                # i-PI is gone without an exit message: the driver must end by itself
                sched.block(lambda: dt.done, 100.0)
                if not dt.done:
                    errs.append(("orphan", "the driver keeps running after the connection was lost"))
                return
            if pt.done or dt.done:
                errs.append(("ended", "a side of the conversation ended: poll %r driver %r" % (pt.exc, dt.exc)))
                return
            for r, q, h in rs:
                u, f, v = potential(h, q.reshape(-1, 3))
                ru, rf, rv, rx = r["result"]
                if not (ru == u - off and np.array_equal(rf, f.flatten()) and np.array_equal(rv, v)):
                    errs.append(("corrupt", "numbers changed on the way (round %d)" % rnd))
                if extra.strip() == "":
                    good = rx.get("raw", extra).strip() == ""
                else:
                    try:
                        j = json.loads(extra)
                    except ValueError:
                        j = None
                    want = dict(j) if isinstance(j, dict) else {}
                    want["raw"] = extra
                    good = rx == want
                if not good:
                    errs.append(("extra", "extra string %r came out as %r" % (extra[:40], str(rx)[:80])))
                ff.release(r)
        ff._doloop[0] = False
        sched.block(lambda: pt.done)
        if len(itf.clients) != 1 or len([e for e in net.endpoints]) != 1:
            errs.append(("dropped", "the healthy driver was disconnected (%d clients left)" % len(itf.clients)))
        itf.close()
        sched.block(lambda: dt.done, 60.0)
        if not dt.done:
            errs.append(("noexit", "the driver does not end after i-PI closed the connection"))
        elif dt.exc is not None:
            errs.append(("driver-exc", "driver raised %r at shutdown" % (dt.exc,)))

    verdict = sched.run(main, wall=30.0)
    if sched.main.exc is not None:
        import traceback

        errs.append(("main-exc", "".join(traceback.format_exception(sched.main.exc))[-900:]))
    if verdict == "stuck":
        errs.append(("spin", "a thread spins without communicating"))
    elif verdict != "done":
        exc = [t.exc for t in sched.tasks if t.exc]
        errs.append((verdict, "the conversation stalls (%r)" % (exc,)))
    cs = ctx.get("csock")
    if cs is not None:
        stats = dict(s2c=cs.s2c.off, c2s=cs.c2s.off, sends=cs.sends)
    steps = sched.steps
    if verdict != "stuck":
        sched.kill()
    return errs, steps, stats


def run(item):
    cfg = CONFIGS[item["config"]]
    res = Result()

    def do(tag, **ctx):
        errs, steps, st = execute(cfg, dict(ctx))
        res.state(item["config"], tag)
        res.transitions += steps
        res.traces += 1
        res.outcome("violating" if errs else "intact")
        for k, m in errs:
            res.fail("%s:%s:%s" % (k, item["config"], item["kind"] + (":%d" % item["extra"] if "extra" in item else "") + (":" + item["dir"] if "dir" in item else "")), m, {"ctx": str(ctx)[:500]})
        return st, errs

    def enough():
        return res.outcomes.get("violating", 0) >= 15

    k = item["kind"]
    if k == "plain":
        do("plain")
        return res
    if k == "drip":
        do("drip", drip=True)
        return res
    if k == "extra":
        do("extra%d" % item["extra"], extra=item["extra"])
        return res
    errs, steps, st = execute(cfg, {})
    if errs:
        return res  # reported by the plain case
    if k == "short":
        for j in range(st["sends"]):
            do("short%d" % j, short=j)
            if enough():
                break
    elif k == "cut":
        n = st[item["dir"]]
        for c in range(1 + item["shard"][0], n, item["shard"][1]):
            do((item["dir"], c), cuts={item["dir"]: [c]})
            if enough():
                break
    elif k == "vanish":
        for v in sorted(set(range(0, st["s2c"], 5)) | {0, 1, 11, 12, 13, 23, 24, 25}):
            do("vanish%d" % v, vanish=v)
            if enough():
                break
    elif k == "cut2":
        n = st[item["dir"]]
        pairs = [(a, b) for a in range(1, n, 7) for b in range(a + 7, min(n, a + 150), 7)] + [(a, a + 1) for a in range(1, n - 1)]
        for a, b in pairs[item["shard"][0] :: item["shard"][1]]:
            do((item["dir"], a, b), cuts={item["dir"]: [a, b]})
            if enough():
                break
    return res
