"""C01: every force request dispatched to socket clients is answered with the
result of its own structure, whatever the clients, the network and the threads do.

The real FFSocket/InterfaceSocket/Driver code runs on a virtual network under a
controlled scheduler; all executions with at most `bound` deviations (client
failures, delays, fragmentation, thread preemptions) are enumerated."""

import itertools
import types

import numpy as np

from vlib import vnet
from vlib.core import Result, digest
from vlib.vclient import Client, model, model_extra, FAULTS

PROPERTY = "C01"
LEVEL = "model_checking"
TIMEOUT = 600.0
RULE = (
    "cases are (configuration, shard of first deviations); states are distinct "
    "(configuration, choice sequence) executions; transitions are scheduler steps "
    "of the real dispatch code"
)
ASSUMPTIONS = [
    "whenever a client failed, fresh healthy clients keep connecting",
    "the virtual network follows stream-socket semantics (FIN, RST, timeouts, order)",
]
SPARES = 8


def _configs():
    """name, options"""
    C = {}
    base = dict(mode="unix", consolidate=True, batch=1, match="auto", clients=2, reqs=2,
                rounds=2, timeout=5.0, ids=0, active=None, offset=0.0, extra="json")

    def add(name, **kw):
        d = dict(base)
        d.update(kw)
        C[name] = d

    for cons in (True, False):
        t = "c" if cons else "t"
        for match in ("auto", "any", "lock"):
            add("%s-%s" % (t, match), consolidate=cons, match=match)
        add(t + "-1c3r", consolidate=cons, clients=1, reqs=3)
        add(t + "-1c1r-notimeout", consolidate=cons, clients=1, reqs=1, timeout=0.0, active=[1, 2], offset=2.5)
        add(t + "-reinit", consolidate=cons, clients=1, reqs=2, reinit=True, needinit=True, extra="raw")
        add(t + "-lockbig", consolidate=cons, match="lock", ids=4000)
        add(t + "-shm", consolidate=cons, mode="shm", clients=1, reqs=2, active=[0, 2])
        add(t + "-late", consolidate=cons, clients=0, late=1, reqs=2)
        add(t + "-3c2r-lock", consolidate=cons, match="lock", clients=3, reqs=2)
    add("batch2", batch=2, clients=2, reqs=3, needinit=True)
    add("batch3pad", batch=3, clients=1, reqs=2, active=[1, 2], offset=1.5, extra="raw")
    add("batch2-shm", batch=2, clients=1, reqs=3, mode="shm", extra="none")
    add("c-sizes", clients=1, reqs=3, sizes=[6, 9, 3])
    add("t-sizes", consolidate=False, clients=2, reqs=2, sizes=[6, 9])
    add("batch2-sizes", batch=2, clients=1, reqs=3, sizes=[6, 9, 6])
    add("exitdisc", clients=1, reqs=2, exitdisc=True)
    return C


CONFIGS = _configs()
BOUNDS = {
    "quick": "27 configurations, <=3 clients, <=3 requests x 2 rounds; all executions with at most 1 deviation, "
    "2 client faults in 8 small configurations; connection lost after every byte a client sends in 7 configurations",
    "thorough": "same configurations; at most 2 deviations everywhere, 3 client faults in the small configurations",
}

SMALL = ["c-1c1r-notimeout", "t-1c1r-notimeout", "c-auto", "t-auto", "batch3pad", "c-shm", "t-shm", "c-reinit"]


# connection lost after every single byte the (first) client sends
CUTS = ["c-1c1r-notimeout", "t-1c1r-notimeout", "c-reinit", "t-reinit", "batch3pad", "c-shm", "t-shm"]


def items(tier):
    out = []
    for name in CONFIGS:
        n = 2 if tier == "quick" else 16
        for s in range(n):
            out.append(dict(config=name, bound=1 if tier == "quick" else 2, preempt=True, shard=[s, n]))
    for name in SMALL:
        n = 4 if tier == "quick" else 32
        for s in range(n):
            out.append(dict(config=name, bound=2 if tier == "quick" else 3, preempt=False, shard=[s, n],
                            small=True))
    for name in CUTS:
        n = 3 if tier == "quick" else 8
        for s in range(n):
            out.append(dict(config=name, cuts=1 if tier == "quick" else 2, preempt=False, shard=[s, n]))
    return out


_mods = {}
sent = [0]


def load():
    if _mods:
        return _mods
    ref = [None, None]
    sm, sel, tm = vnet.make_modules(ref)
    S = vnet.import_with("ipi.interfaces.sockets", {"socket": sm, "select": sel})
    import ipi.engine.forcefields as FF
    from ipi.utils.messages import verbosity

    verbosity.level = "quiet"
    S.time = tm
    S.ThreadPoolExecutor = vnet.make_executor(ref)
    S.shared_memory = types.SimpleNamespace(SharedMemory=vnet.FakeSharedMemory)
    S.warning = lambda *a, **k: None
    S.info = lambda *a, **k: None
    FF.info = lambda *a, **k: None
    FF.time = tm
    _mods.update(
        ref=ref, S=S, FF=FF, tm=tm,
        glob={k: getattr(S, k) for k in ("TIMEOUT", "SERVERTIMEOUT", "NTIMEOUT", "SELECTTIMEOUT", "UPDATEFREQ", "HDRLEN")},
    )
    return _mods


class FakeAtoms:
    def __init__(self, q):
        self.q = q


class FakeCell:
    def __init__(self, h):
        self.h = h
        self.ih = np.linalg.inv(h)

    def array_pbc(self, x):
        pass


def structure(cfg, rnd, i):
    q = np.array([0.1, 0.2, 0.3, 1.1, 1.4, 1.7, 2.2, 2.3, 2.9]) * (1 + 0.37 * i) + 0.013 * (rnd + 1)
    q = q[: cfg.get("sizes", [9] * 9)[i]]
    h = np.eye(3) * (10.0 + i) + np.triu(np.full((3, 3), 0.25 * (rnd + 1)), 1)
    return q, h


def execute(cfg, choose, preempt, faults=FAULTS, cut=None):
    M = load()
    S, FF, ref = M["S"], M["FF"], M["ref"]
    for k, v in M["glob"].items():
        setattr(S, k, v)
    vnet.FakeSharedMemory.reg.clear()
    sched = vnet.Sched(choose, max_steps=60000, max_time=4000.0)
    net = vnet.Net(sched)
    ref[0], ref[1] = sched, net
    sched.preempt = preempt
    triggers = []
    S.threading = types.SimpleNamespace(
        Thread=lambda target=None, kwargs=None, **k: types.SimpleNamespace(
            start=lambda: triggers.append(sched.now), daemon=True
        )
    )
    itf = S.InterfaceSocket(
        address="x", mode=cfg["mode"], timeout=cfg["timeout"], match_mode=cfg["match"],
        consolidate_messages=cfg["consolidate"], batch_size=cfg["batch"], sockets_prefix="/nonexistent/v_",
        exit_on_disconnect=bool(cfg.get("exitdisc")),
    )
    act = np.array([-1]) if cfg["active"] is None else np.array(cfg["active"])
    ff = FF.FFSocket(latency=0.01, offset=cfg["offset"], name="v", pars={"a": 1.5}, dopbc=False,
                     active=act, threaded=True, interface=itf)
    itf.open()
    clients = []
    protoerr = []

    def newclient(healthy=False):
        o = dict(needinit=cfg.get("needinit"), reinit=cfg.get("reinit"), batch=cfg["batch"], extra=cfg["extra"],
                 shm=vnet.FakeSharedMemory if cfg["mode"] == "shm" else None,
                 faults=("ok",) if healthy else faults, slow=cfg["timeout"] + 2.0 if cfg["timeout"] else 130.0)
        if cut is not None and len(clients) == 0:
            o["cut"] = cut
        c = Client(net, choose, "c%d" % len(clients), o)
        orig = c.feed

        def feed(d):
            try:
                orig(d)
            except AssertionError as e:
                protoerr.append(str(e))
                c.dead = True

        c.feed = feed
        net.connect(c)
        clients.append(c)
        return c

    for _ in range(cfg["clients"]):
        newclient()
    for k in range(cfg.get("late", 0)):
        sched.at(sched.now + 3.0 + k, newclient)

    def faulty():
        return any(isinstance(x, tuple) and x[1] not in ("ok", "frag", "slow") for c in clients for x in c.log) or (
            cfg["timeout"] > 0 and any(isinstance(x, tuple) and x[1] == "slow" for c in clients for x in c.log))

    spares = [0]

    def supervise():
        if spares[0] < SPARES:
            if faulty():
                spares[0] += 1
                newclient(healthy=True)
            sched.at(sched.now + 11.0, supervise)

    sched.at(sched.now + 11.0, supervise)
    errs = []
    prog = {"round": 0, "left": None}

    def main():
        def poll():
            ff._doloop[0] = True
            ff._poll_loop()

        pt = sched.spawn(poll, "poll")
        for rnd in range(cfg["rounds"]):
            prog["round"] = rnd
            rs = []
            for i in range(cfg["reqs"]):
                q, h = structure(cfg, rnd, i)
                rs.append((ff.queue(FakeAtoms(q), FakeCell(h), reqid=cfg["ids"] + i), q, h))
            prog["reqs"] = [r for r, _, _ in rs]

            def ok():
                return pt.done or all(r["status"] == "Done" for r, _, _ in rs)

            sched.block(ok)
            if pt.done:
                errs.append(("poll-thread-ended", "the polling thread ended: %r" % (pt.exc,)))
                return
            for r, q, h in rs:
                if not r._event_done.is_set():
                    # set right after the status; no scheduling point may separate them
                    errs.append(("event", "request is Done but its completion event is not set"))
                nat = len(q)
                act = np.arange(nat) if cfg["active"] is None else np.array([[3 * n, 3 * n + 1, 3 * n + 2] for n in cfg["active"]]).flatten()
                u, f, v = model(q[act], h)
                x = model_extra(q[act], cfg["extra"])
                ff_full = np.zeros(nat)
                ff_full[act] = f
                ru, rf, rv, rx = r["result"]
                if not (abs(ru - (u - cfg["offset"])) < 1e-9 and np.shape(rf) == (nat,)
                        and np.abs(rf - ff_full).max() < 1e-12 and np.abs(rv - v).max() < 1e-12):
                    errs.append(("wrong-result", "request %r of round %d got a result that is not the one of its structure" % (r["id"], rnd)))
                if x == "":
                    xok = not rx or rx.get("raw", "") == ""
                elif cfg["extra"] == "raw":
                    xok = rx == {"raw": x}
                else:
                    xok = rx.get("raw") == x and rx.get("v") == [1.0, 2.5]
                if not xok:
                    errs.append(("wrong-extra", "extra string of another structure: %r" % (rx,)))
                ff.release(r)
            if ff.requests:
                errs.append(("release", "released requests stay queued"))
        ff._doloop[0] = False
        sched.block(lambda: pt.done)
        if pt.exc is not None:
            errs.append(("poll-exc", "polling thread raised %r" % (pt.exc,)))
        itf.close()

    verdict = sched.run(main, wall=20.0)
    exc = sched.main.exc
    log = [(c.name, c.log[-12:]) for c in clients]
    if verdict == "stuck":
        return [("spin", "a thread spins without ever blocking or communicating; statuses %s" % [r["status"] for r in prog.get("reqs", [])])], sched.steps, log
    if exc is not None:
        import traceback

        errs.append(("main-exc", "%r %s" % (exc, "".join(traceback.format_exception(exc))[-800:])))
    for t in sched.tasks:
        if t.exc is not None and not isinstance(t.exc, vnet.Killed) and t is not sched.main and verdict != "done":
            import traceback

            errs.append(("thread-exc", "%s: %s" % (t.name, "".join(traceback.format_exception(t.exc))[-900:])))
    if verdict != "done":
        errs.append((verdict, "requests never answered in round %d: statuses %s" % (
            prog["round"], [r["status"] for r in prog.get("reqs", [])])))
    elif exc is None:
        for c in clients:
            if not c.dead and c.end in [d._e for d in itf.clients]:
                errs.append(("noexit", "a live client was not told to exit"))
            if not c.dead and not c.exited and c.end not in net.pending:
                errs.append(("noexit", "a connected live client (%s) was not told to exit" % c.name))
        if not faulty():
            n = sum(c.computed for c in clients)
            per = -(-cfg["reqs"] // cfg["batch"])
            if cfg["batch"] == 1 and n != cfg["reqs"] * cfg["rounds"]:
                errs.append(("recomputed", "%d force evaluations for %d requests" % (n, cfg["reqs"] * cfg["rounds"])))
            if cfg["batch"] > 1 and not (per * cfg["rounds"] <= n <= cfg["reqs"] * cfg["rounds"]):
                errs.append(("recomputed", "%d batched evaluations" % n))
        if cfg.get("exitdisc") and any(c.dead and not c.exited for c in clients):
            if not triggers:
                errs.append(("exitdisc", "a client disconnected but no exit was triggered"))
        if cfg["mode"] == "shm" and verdict == "done":
            left = sorted(vnet.FakeSharedMemory.reg)
            if left and not faulty():
                errs.append(("shm-leak", "shared memory segments left behind: %s" % left))
    for p in protoerr:
        errs.append(("protocol", p))
    steps = sched.steps
    sched.kill()
    sent[0] = clients[0].sent if clients else 0
    return errs, steps, log


def run(item):
    cfg = CONFIGS[item["config"]]
    res = Result()

    def one(ch):
        return execute(cfg, ch, item["preempt"], FAULTS)

    def handle(choices, out):
        errs, steps, log = out
        res.state(item["config"], item["preempt"], choices)
        res.transitions += steps
        res.traces += 1
        dev = tuple((i, c) for i, c in enumerate(choices) if c)
        res.outcome("violating" if errs else "answered")
        for k, m in errs:
            labels = [l for l in log]
            key = "%s:%s:%s" % (k, item["config"], "+".join(sorted({x[0] + "=" + x[1] for _, lg in log for x in lg if isinstance(x, tuple) and x[1] != "ok"})) or "schedule")
            res.fail(key, m, {"choices": choices, "log": str(labels)[:3000]})

    if "cuts" in item:
        execute(cfg, vnet.Chooser(()), False, ("ok",))
        total = sent[0]
        k, n = item["shard"]
        for pos in range(k, total + 1, n):
            for how in ("fin", "rst"):
                out = execute(cfg, vnet.Chooser(()), False, ("ok",), cut=(pos, how))
                errs, steps, log = out
                res.state(item["config"], "cut", pos, how)
                res.transitions += steps
                res.traces += 1
                res.outcome("violating" if errs else "answered")
                for kk, m in errs:
                    at = [x[0] for _, lg in log for x in lg if isinstance(x, tuple) and x[1].startswith("cut")]
                    res.fail("%s:%s:cut-%s-%s" % (kk, item["config"], how, "+".join(at)), "connection lost (%s) after %d bytes: %s" % (how, pos, m), {"pos": pos, "how": how})
                if len(res.violations) > 20:
                    return res
        return res
    if "choices" in item:
        ch = vnet.Chooser(item["choices"])
        handle(item["choices"], one(ch))
        return res
    class Enough(Exception):
        pass

    orig_handle = handle

    def handle(choices, out):
        orig_handle(choices, out)
        if res.outcomes.get("violating", 0) >= 25 or any(e[0] == "spin" for e in out[0]):
            raise Enough()

    try:
        _explore(item, one, handle)
    except Enough:
        pass
    return res


def _explore(item, one, handle):
    # first level
    ch = vnet.Chooser(())
    out = one(ch)
    k, n = item["shard"]
    if k == 0:
        handle([p[1] for p in ch.points], out)
    if item["bound"] < 1:
        return
    first = []
    for i, (m, c, lab) in enumerate(ch.points):
        for alt in range(1, m):
            first.append(tuple(p[1] for p in ch.points[:i]) + (alt,))
    for j, pre in enumerate(first):
        if j % n != k:
            continue
        stack = [(pre, 1)]
        while stack:
            p, d = stack.pop()
            c2 = vnet.Chooser(p)
            handle_out = one(c2)
            handle([q[1] for q in c2.points], handle_out)
            if d < item["bound"]:
                for i in range(len(p), len(c2.points)):
                    for alt in range(1, c2.points[i][0]):
                        stack.append((tuple(q[1] for q in c2.points[:i]) + (alt,), d + 1))
