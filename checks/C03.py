"""C03: whatever evaluates the forces (a PES in this process, threaded or not, batched or
not; the built-in analytic force fields; drivers over MPI; committees and rotational
averages of them), every request is answered once, with its own result.

The real force fields, force components and MPI interface (and the real MPI driver) run
as real threads under a controlled scheduler in which every source line of the request
code is a scheduling point. All executions with at most `bound` deviations from the
default schedule are enumerated; every value obtained by a client is compared with a
direct evaluation of the potential at the positions of that request."""

import importlib.util
import os
import sys
import types

import numpy as np

from vlib import core, sim, tline, vnet
from vlib.core import REPO, Result

PROPERTY = "C03"
LEVEL = "model_checking"
TIMEOUT = 800.0
RULE = (
    "one case = one force field configuration (type, threading, batch size, offset, beads, systems, MPI ranks, fault) and a "
    "shard of its schedules; states are distinct (configuration, schedule); transitions are scheduler steps of the real code"
)
ASSUMPTIONS = [
    "a thread switch can happen between any two source lines of forcefields.py, forces.py, mpi.py and the MPI driver, and inside any PES call",
    "MPI delivers messages in order per pair of ranks; sends are tried both buffered and synchronous",
]
BOUNDS = {
    "quick": "all schedules with one deviation (preemption or choice of the next thread) at every source line; "
    "1-2 systems, 1-3 beads, batch 1-3, 1-3 MPI groups, 2 rounds",
    "thorough": "as quick with two deviations on a lattice of every 5th point of the first",
}

FILES = ("ipi/engine/forcefields.py", "ipi/engine/forces.py", "ipi/interfaces/mpi.py", "drivers/py/driver.py")


def C(ff, **kw):
    d = dict(ff=ff, beads=[2], rounds=2, nat=[2], offset=0.25)
    d.update(kw)
    return d


CONFIGS = {
    "dummy": C("dummy"),
    "dummy-thr": C("dummy", threaded=True),
    "direct": C("direct"),
    "direct-thr": C("direct", threaded=True),
    "direct-2sys": C("direct", beads=[2, 1], nat=[2, 1]),
    "direct-thr-2sys": C("direct", threaded=True, beads=[1, 2], nat=[2, 3], rounds=1),
    "direct-b2": C("direct", batch=2),
    "direct-b2-thr": C("direct", threaded=True, batch=2, beads=[3], rounds=2),
    "direct-b3-thr-2sys": C("direct", threaded=True, batch=3, beads=[2, 2], nat=[2, 1], rounds=1),
    "direct-b3-thr-short": C("direct", threaded=True, batch=3, beads=[1], rounds=2),
    "direct-b2-2sys": C("direct", batch=2, beads=[2, 2], nat=[2, 2]),
    "direct-active": C("direct", active=[1], nat=[3]),
    "direct-b2-active": C("direct", active=[2, 0], nat=[3], batch=2),
    "lj": C("lj"),
    "lj-thr": C("lj", threaded=True, rounds=2),
    "lj-2sys": C("lj", beads=[1, 2], nat=[2, 3]),
    "lj-thr-2sys": C("lj", threaded=True, beads=[1, 1], nat=[2, 3], rounds=1),
    "lj-active": C("lj", active=[0, 2], nat=[3]),
    "debye": C("debye"),
    "dmd": C("dmd", nat=[3]),
    "dmd-thr": C("dmd", nat=[3], threaded=True, rounds=1),
    "comm-dd": C("committee", members=["direct-thr", "direct"], rounds=1),
    "comm-thr": C("committee", members=["direct-thr", "direct-thr", "direct-thr"], beads=[1], rounds=1),
    "comm-lj": C("committee", members=["lj-thr", "direct"], rounds=1),
    "comm-weights": C("committee", members=["direct", "direct"], weights=[0.5, 1.5], rounds=1),
    "comm-base": C("committee", members=["direct", "direct-thr", "direct"], baseline=1, rounds=1, alpha=0.7),
    "comm-base-w": C("committee", members=["direct", "direct", "direct"], baseline=0, weights=[2.0, 0.25], rounds=1, alpha=1.3),
    "comm-json": C("committee", members=["json"], parse_json=True, rounds=1, alpha=1.5),
    "comm-2sys": C("committee", members=["direct-thr", "direct"], beads=[1, 1], nat=[2, 1], rounds=1),
    "comm-b2": C("committee", members=["direct-b2-thr", "direct"], beads=[2], rounds=1),
    "rot": C("rotations", members=["direct"], rounds=2),
    "rot-thr": C("rotations", members=["direct-thr"], rounds=1, inversion=True, beads=[2]),
    "rot-b2": C("rotations", members=["direct-b2-thr"], rounds=1, inversion=True, beads=[2]),
    "rot-grid": C("rotations", members=["direct"], order=2, gmode="legendre", rounds=1, beads=[1]),
    "rot-grid-l": C("rotations", members=["direct"], order=3, gmode="lebedev", inversion=True, rounds=1, beads=[1]),
    "mpi-1": C("mpi", ranks=1),
    "mpi-2": C("mpi", ranks=2, beads=[3]),
    "mpi-2-sync": C("mpi", ranks=2, beads=[3], sync=True, rounds=1),
    "mpi-b2": C("mpi", ranks=2, beads=[3], batch=2),
    "mpi-b3-2sys": C("mpi", ranks=1, beads=[2, 2], nat=[2, 2], batch=3, rounds=1),
    "mpi-b2-2nat": C("mpi", ranks=1, beads=[1, 1], nat=[2, 1], batch=2, rounds=1),
    "mpi-group": C("mpi", ranks=4, group=2, beads=[2], rounds=1),
    "mpi-group-sync": C("mpi", ranks=3, group=2, beads=[2], rounds=1, sync=True),
    "mpi-2ff": C("mpi", ranks=3, nff=2, beads=[1], rounds=1),
    "mpi-active": C("mpi", ranks=1, active=[1], nat=[3], rounds=1),
    "fault-direct-thr": C("direct", threaded=True, fail=2, rounds=2),
    "fault-direct-b2-thr": C("direct", threaded=True, batch=2, fail=3, rounds=2),
    "fault-lj-thr": C("lj", threaded=True, fail=2, rounds=2),
    "fault-direct": C("direct", fail=2, rounds=2),
    "fault-comm": C("committee", members=["direct-thr", "direct-thr"], fail=2, rounds=1),
}
SEQ_ONLY = ("rot-grid", "rot-grid-l")


def items(tier):
    out = []
    for c in CONFIGS:
        n = 1 if c in SEQ_ONLY else 2
        if tier != "quick" and c not in SEQ_ONLY:
            n = 16
        for k in range(n):
            out.append(dict(config=c, shard=[k, n], bound=0 if c in SEQ_ONLY else (1 if tier == "quick" else 2), lattice=5))
    return out


# -- potentials ---------------------------------------------------------------------


def pes(kind, cell, pos):
    """Potentials without symmetry: energy, forces, virial, extra."""
    pos = np.asarray(pos, float).reshape(-1, 3)
    cell = np.asarray(cell, float)
    k = 1.0 + 0.5 * kind
    w = (1.0 + np.arange(pos.size).reshape(pos.shape) * 0.25) * k
    s = np.linalg.solve(cell, pos.T).T
    u = float((w * np.sin(pos)).sum() + 0.1 * k * (pos**2).sum() + (s**2).sum())
    f = -(w * np.cos(pos) + 0.2 * k * pos + 2 * s @ np.linalg.inv(cell))
    v = f.T @ pos
    return u, f, v + 0.01 * k * cell, '{"k": %d, "first": %.12f}' % (kind, pos[0, 0])


class PES:
    """Stands for the driver; the scheduler may switch inside a call."""

    def __init__(self, world, kind, fail=None, json=False):
        self.world, self.kind, self.fail, self.json = world, kind, fail, json
        self.calls = 0

    def one(self, cell, pos):
        self.calls += 1
        self.world.calls += 1
        self.world.point()
        if self.fail == self.calls:
            raise RuntimeError("driver failure")
        u, f, v, x = pes(self.kind, cell, pos)
        if self.json:
            import json

            us, fs, vs = [], [], []
            for k in (self.kind, self.kind + 1, self.kind + 2):
                a, b, c, _ = pes(k, cell, pos)
                us.append(a), fs.append(b.flatten().tolist()), vs.append(c.flatten().tolist())
            x = json.dumps(dict(committee_pot=us, committee_force=fs, committee_virial=vs, other=[1, 2]))
        self.world.point()
        return u, f, v, x

    def __call__(self, cell, pos):
        if isinstance(cell, list):
            return [self.one(c, p) for c, p in zip(cell, pos)]
        return self.one(cell, pos)


def ref_lj(pos, eps, sig):
    p = pos.reshape(-1, 3)
    u = 0.0
    f = np.zeros_like(p)
    for i in range(len(p)):
        for j in range(i):
            d = p[i] - p[j]
            r = np.sqrt(d @ d)
            u += 4 * eps * ((sig / r) ** 12 - (sig / r) ** 6)
            g = 4 * eps * (12 * (sig / r) ** 12 - 6 * (sig / r) ** 6) / r**2 * d
            f[i] += g
            f[j] -= g
    return u, f


DEB_H = None


def debye_pars(n3):
    i = np.arange(n3)
    H = np.diag(1.0 + 0.1 * i) + 0.05 * np.cos(np.add.outer(i, i))
    return H, 0.3 * np.sin(1.0 + i), 0.7


def dmd_ref(pos, h, coupling, phase):
    """Every pair, every nearby image (nearest one counts)."""
    p = pos.reshape(-1, 3)
    u = 0.0
    f = np.zeros_like(p)
    v = np.zeros((3, 3))
    k = 0
    for i in range(1, len(p)):
        for j in range(i):
            best = None
            for n in np.ndindex(3, 3, 3):
                d = p[i] - p[j] + h @ (np.array(n) - 1.0)
                if best is None or d @ d < best @ best:
                    best = d
            r = np.sqrt(best @ best)
            u += coupling[k] * r * phase
            g = -coupling[k] * phase * best / r
            f[i] += g
            f[j] -= g
            v += np.outer(g, best)
            k += 1
    return u, f, v


# -- a small MPI world --------------------------------------------------------------


class MPIWorld:
    ANY_SOURCE, ANY_TAG = -1, -1
    INT, BYTE, DOUBLE = "int", "byte", "double"

    def __init__(self, world, size, sync):
        self.world, self.size, self.sync = world, size, sync
        self.box = {r: [] for r in range(size)}
        self.rank_of = {}
        self.aborted = False
        self.coll = {}
        w = self

        class Status:
            def Get_source(self):
                return self.src

            def Get_tag(self):
                return self.tag

            def Get_count(self, t):
                return self.n

        class Comm:
            def __init__(self, ranks):
                self.ranks = ranks
                self.n = {r: 0 for r in ranks}

            def Get_rank(self):
                return self.ranks.index(w.me())

            def Get_size(self):
                return len(self.ranks)

            def _match(self, source, tag):
                for m in w.box[w.me()]:
                    if source in (-1, m[0]) and tag in (-1, m[1]):
                        return m
                return None

            def _wait(self, source, tag):
                w.world.block(lambda: self._match_for(w.me_cached, source, tag))

            def Probe(self, source, tag, status=None):
                r = w.me()
                w.world.block(lambda: any(source in (-1, m[0]) and tag in (-1, m[1]) for m in w.box[r]))
                m = self._match(source, tag)
                if status is not None:
                    status.src, status.tag, status.n = m[0], m[1], len(m[2])

            def Iprobe(self, source, tag, status=None):
                w.world.point()
                return self._match(source, tag) is not None

            def Recv(self, buf, source, tag, status=None):
                self.Probe(source, tag, status)
                m = self._match(source, tag)
                a = buf[0]
                if len(a) < len(m[2]):
                    raise RuntimeError("MPI_ERR_TRUNCATE: %d < %d" % (len(a), len(m[2])))
                a[: len(m[2])] = m[2]
                w.box[w.me()].remove(m)
                m[3][0] = True

            def Send(self, buf, dest, tag):
                m = (w.me(), tag, np.array(buf[0]).copy(), [False])
                w.box[dest].append(m)
                if w.sync:
                    w.world.block(lambda: m[3][0])
                else:
                    w.world.point()

            def Abort(self, code=0):
                w.aborted = True

            def _collective(self, name, value):
                r = w.me()
                k = self.n[r]
                self.n[r] += 1
                d = w.coll.setdefault((id(self), k), {})
                d[r] = value
                w.world.block(lambda: len(d) == len(self.ranks))
                return d

            def allgather(self, v):
                d = self._collective("allgather", v)
                return [d[r] for r in self.ranks]

            def Split(self, color=0, key=0):
                d = self._collective("split", (color, key))
                rs = tuple(sorted((r for r in self.ranks if d[r][0] == color), key=lambda r: d[r][1]))
                c = d.setdefault(("comm", rs), None) if False else None
                cache = w.coll.setdefault(("split", id(self), self.n[w.me()], rs), [])
                if not cache:
                    cache.append(Comm(list(rs)))
                return cache[0]

            def Bcast(self, buf, root=0):
                r = w.me()
                k = self.n[r]
                self.n[r] += 1
                d = w.coll.setdefault((id(self), k), {})
                if self.ranks.index(r) == root:
                    d["data"] = np.array(buf[0]).copy()
                w.world.block(lambda: "data" in d)
                buf[0][:] = d["data"]

        self.Status = Status
        self.COMM_WORLD = Comm(list(range(size)))

    def me(self):
        return self.rank_of.get(self.world.me(), 0)


# -- one execution ------------------------------------------------------------------


class World:
    def __init__(self):
        self.sched = None
        self.calls = 0  # evaluations of any potential

    def point(self):
        if self.sched and self.sched.me() is not None:
            self.sched.point()

    def block(self, f):
        if self.sched:
            self.sched.block(f)

    def me(self):
        return self.sched.me() if self.sched else None


def modules():
    import ipi.engine.forcefields as FF
    import ipi.engine.forces as FO
    import ipi.interfaces.mpi as MP
    import ipi.utils.depend as DE
    import ipi.utils.softexit as SE

    return FF, FO, MP, DE, SE


_drv = []


def real_driver():
    if not _drv:
        p = os.path.join(REPO, "drivers/py/driver.py")
        spec = importlib.util.spec_from_file_location("c03_driver", p)
        m = importlib.util.module_from_spec(spec)
        argv, sys.argv = sys.argv, ["driver.py"]
        try:
            spec.loader.exec_module(m)
        finally:
            sys.argv = argv
        _drv.append(m)
    return _drv[0]


COUPL = np.array([0.3, -0.2, 0.5])


def make_ff(name, cfg, world, depth=0, kind=0):
    FF = modules()[0]
    t = cfg["ff"]
    kw = dict(name=name, latency=0.1, offset=cfg["offset"], threaded=bool(cfg.get("threaded")))
    act = dict(active=np.array(cfg["active"])) if cfg.get("active") else {}
    fail = cfg.get("fail") if t in ("direct", "json", "lj") else None
    if t == "dummy":
        return FF.ForceField(**kw, **act)
    if t in ("direct", "json"):
        ff = FF.FFDirect(pes="dummy", batch_size=cfg.get("batch", 1), **kw, **act)
        ff.driver = PES(world, kind, fail, json=t == "json")
        return ff
    if t in ("lj", "debye", "dmd"):
        if t == "lj":
            ff = FF.FFLennardJones(pars={"eps": "0.02", "sigma": "1.5"}, dopbc=False, **kw, **act)
        elif t == "debye":
            H, x, v = debye_pars(3 * cfg["nat"][0])
            ff = FF.FFDebye(H=H, xref=x, vref=v, **kw)
        else:
            ff = FF.FFdmd(coupling=COUPL, freq=0.3, dtdmd=2.0, dmdstep=1, **kw)
        orig, n = ff.evaluate, [0]

        def ev(r):
            n[0] += 1
            world.calls += 1
            if n[0] == fail:
                raise RuntimeError("driver failure")
            orig(r)

        ff.evaluate = ev
        return ff
    if t == "committee":
        mem = [make_ff("m%d" % i, dict(CONFIGS.get(m, C("json")), offset=0.1 * (i + 1), nat=cfg["nat"], fail=cfg.get("fail") if i == 1 else None), world, 1, i)
               for i, m in enumerate(cfg["members"])]
        kw.pop("threaded")
        base = {}
        if "baseline" in cfg:
            base = dict(baseline_name="m%d" % cfg["baseline"], baseline_uncertainty=2.0)
        return FF.FFCommittee(fflist=mem, ffweights=np.array(cfg.get("weights", [])), alpha=cfg.get("alpha", 1.0),
                              parse_json=cfg.get("parse_json", False), dopbc=False, **base, **kw)
    if t == "rotations":
        m = make_ff("inner", dict(CONFIGS[cfg["members"][0]], offset=0.1, nat=cfg["nat"]), world, 1, 0)
        kw.pop("threaded")
        from ipi.utils.prng import Random

        return FF.FFRotations(ffdirect=m, prng=Random(seed=1), inversion=cfg.get("inversion", False), dopbc=False,
                              grid_order=cfg.get("order", 1), grid_mode=cfg.get("gmode", "legendre"), **kw)
    if t == "mpi":
        kw["threaded"] = True
        return FF.FFMPI(batch_size=cfg.get("batch", 1), **kw, **act)
    raise ValueError(t)


def expected(cfg, h, q, kind=0, offset=None):
    """(pot, forces, virial, extras) that the request must be answered with."""
    t = cfg["ff"]
    off = cfg["offset"] if offset is None else offset
    q = np.asarray(q).reshape(-1, 3)
    act = cfg.get("active")
    if act:
        sub = dict(cfg, active=None)
        u, f, v, x = expected(sub, h, q[act], kind, offset)
        full = np.zeros_like(q)
        full[act] = np.asarray(f).reshape(-1, 3)
        return u, full, v, x
    z = np.zeros((3, 3))
    if t == "dummy":
        return -off, np.zeros_like(q), z, {"raw": ""}
    if t in ("direct", "mpi"):
        u, f, v, x = pes(kind, h, q)
        import json

        d = json.loads(x)
        d["raw"] = x
        return u - off, f, v, d
    if t == "lj":
        u, f = ref_lj(q, 0.02, 1.5)
        return u - off, f, z, {"raw": ""}
    if t == "debye":
        H, x, v = debye_pars(q.size)
        d = q.flatten() - x
        return v + 0.5 * d @ H @ d - off, -(H @ d), z, {"raw": ""}
    if t == "dmd":
        u, f, v = dmd_ref(q, h, COUPL, np.sin(1 * 0.3 * 2.0))
        return u - off, f, v, None
    if t == "committee":
        mem, extras = [], []
        base = None
        w = list(cfg.get("weights") or [1.0] * 10)
        for i, m in enumerate(cfg["members"]):
            if m == "json":
                for k in range(3):
                    a, b, c, _ = pes(i + k, h, q)
                    mem.append((a, b.flatten(), c))
                continue
            u, f, v, x = expected(dict(CONFIGS[m], nat=cfg["nat"]), h, q, i, 0.1 * (i + 1))
            if i == cfg.get("baseline"):
                base = (u, np.asarray(f).flatten(), v)
                continue
            s = w.pop(0)
            extras.append(x)
            mem.append((s * u, s * np.asarray(f).flatten(), s * v))
        n = len(mem)
        mu = [sum(x[k] for x in mem) / n for k in range(3)]
        al = cfg.get("alpha", 1.0)
        var = sum((al * (x[0] - mu[0])) ** 2 for x in mem) / (n - 1)
        ex = {"committee_pot": np.array([mu[0] + al * (x[0] - mu[0]) for x in mem]), "committee_uncertainty": np.sqrt(var),
              "committee_force": np.array([mu[1] + al * (x[1] - mu[1]) for x in mem])}
        if base is None:
            out = mu
        else:
            # U = U_b + m g(var), g = s^2/(s^2+var); derivatives by the chain rule
            s2 = 2.0**2
            g = s2 / (s2 + var)
            dg = -s2 / (s2 + var) ** 2
            out = [base[0] + mu[0] * g]
            for k in (1, 2):
                dvar = al**2 * sum(2 * (x[0] - mu[0]) * (x[k] - mu[k]) for x in mem) / (n - 1)
                out.append(base[k] + mu[k] * g + mu[0] * dg * dvar)
            ex["wb_mixing"] = (g,)
        if extras and all(set(e) == set(extras[0]) for e in extras):
            for k in extras[0]:
                ex["committee_" + k] = [e[k] for e in extras]
        return out[0] - off, out[1], out[2], ex
    if t == "rotations":
        import ipi.utils.mathtools as MT

        gm = cfg.get("gmode", "legendre")
        rots = getattr(MT, "get_rotation_quadrature_" + gm)(cfg.get("order", 1))
        tot = 0.0
        U, F, V = 0.0, 0.0, 0.0
        for R, w, *_ in rots:
            for sg in ((1, -1) if cfg.get("inversion") else (1,)):
                S = sg * np.asarray(R)
                u, f, v, _ = pes(0, S @ h, q @ S.T)
                U += w * (u - 0.1)
                F = F + w * (f @ S)
                V = V + w * (S.T @ v @ S)
                tot += w
        return U / tot - off, F / tot, V / tot, None
    raise ValueError(t)


def geometry(c, r, b, nat):
    """Positions of bead b of system c in round r."""
    i = np.arange(3 * nat)
    return 1.7 * (i // 3) + 0.4 * np.sin(1.0 + i * (1 + c) + 2.3 * b + 4.1 * r) + 0.1 * c


CELL = np.array([[4.0, 0.3, -0.2], [0.0, 5.0, 0.4], [0.0, 0.0, 6.0]])


def evaluations(cfg):
    """How many times the potentials must be evaluated in an execution."""
    n = sum(cfg["beads"]) * cfg["rounds"] * cfg.get("nff", 1)
    t = cfg["ff"]
    if t == "dummy":
        return 0
    if t == "committee":
        return n * len(cfg["members"])
    if t == "rotations":
        import ipi.utils.mathtools as MT

        rots = getattr(MT, "get_rotation_quadrature_" + cfg.get("gmode", "legendre"))(cfg.get("order", 1))
        return n * len(rots) * (2 if cfg.get("inversion") else 1)
    if t == "mpi":
        g = cfg.get("group", 1)
        if g > 1:  # every rank of a group takes part; the last group may be smaller
            return None
    return n


def cell_of(cfg):
    return CELL * (3.0 if cfg["ff"] == "dmd" else 1.0)


def execute(cfg, chooser):
    """One run of all the clients; returns (verdict, errors, steps)."""
    FF, FO, MP, DE, SE = modules()
    world = World()
    ref = [None]
    vt = tline.VThreading(ref)
    saved = {}
    tm = vnet.FakeTime(ref)
    for m in (FF, FO, MP, DE, SE):
        for k, v in (("threading", vt), ("time", tm)):
            if hasattr(m, k):
                saved[m, k] = getattr(m, k)
                setattr(m, k, v)
    saved[SE, "print"] = print
    SE.print = FF.print = lambda *a, **k: None
    SE.softexit.__init__()
    trig = []

    def trigger(status="restartable", message=""):
        trig.append(message)
        SE.softexit.triggered = True

    SE.softexit.trigger = trigger
    MP._mpi_world_manager = None
    errs = []
    sched = vnet.Sched(chooser, max_steps=9000, max_time=1000.0 + 8.0)
    sched.preempt = True
    sched.max_burst = 5000
    sched.early = True
    world.sched = sched
    try:
        nff = cfg.get("nff", 1)
        mpi = None
        if cfg["ff"] == "mpi":
            mpi = MPIWorld(world, cfg["ranks"] + 1, cfg.get("sync"))
            mod = types.ModuleType("mpi4py")
            mod.rc = types.SimpleNamespace(thread_level="multiple")
            mod.MPI = mpi
            sys.modules["mpi4py"] = mod
        ref[0] = None
        ffs = [make_ff("ff%d" % i, cfg, world) for i in range(nff)]
        from ipi.engine.beads import Beads
        from ipi.engine.cell import Cell

        clients = []
        for c, (nb, nat) in enumerate(zip(cfg["beads"], cfg["nat"])):
            for k in range(nff):
                beads = Beads(nat, nb)
                for b in range(nb):
                    beads.q[b] = geometry(c, 0, b, nat)
                cell = Cell(cell_of(cfg).copy())
                fc = FO.ForceComponent("ff%d" % k, nbeads=nb, name="fc")
                fc.bind(beads, cell, {f.name: f for f in ffs}, None)
                clients.append((c, k, beads, cell, fc))
        for f in ffs:
            f.bind(None)
        ref[0] = sched
        got = {}

        def client(c, k, beads, cell, fc):
            for r in range(cfg["rounds"]):
                if r:
                    for b in range(beads.nbeads):
                        beads.q[b] = geometry(c, r, b, beads.natoms)
                fc.queue()
                fr = fc._forces
                for b in range(beads.nbeads):
                    got[c, k, r, b] = (float(fr[b].pot), np.array(fr[b].f), np.array(fr[b].vir), fr[b].extra,
                                       np.array(fc.pots)[b], np.array(fc.f)[b], np.array(fc.virs)[b])

        def main():
            for f in ffs:
                f.start()
            others = [vt.Thread(target=client, args=x, name="sys%d%d" % x[:2]) for x in clients[1:]]
            for o in others:
                o.start()
            client(*clients[0])
            for o in others:
                o.join()
            for f in ffs:
                f.stop()
                for m in getattr(f, "fflist", []) or ([f.ff] if hasattr(f, "ff") else []):
                    m.stop()
            if mpi:
                sched.block(lambda: all(t.done for t in drivers))

        drivers = []
        sched.tracer = tline.make_tracer(sched, FILES)
        if mpi:
            D = real_driver()
            for r in range(1, cfg["ranks"] + 1):
                w = (r - 1) % nff
                t = sched.spawn(lambda w=w: D.run_driver_mpi(driver=PES(world, 0), group_size=cfg.get("group", 1),
                                                             mpi_name="ff%d" % w if nff > 1 else "", mpi_id=w), "driver%d" % r)
                mpi.rank_of[t] = r
                drivers.append(t)
        verdict = sched.run(main, wall=30.0)
        excs = [(t.name, t.exc) for t in sched.tasks if t.exc is not None]
        leftovers = [len(f.requests) for f in ffs]
        for t in sched.tasks:
            t.thread_state = (t.name, t.done)
        alive = [t.name for t in sched.tasks if not t.done]
        sched.kill()
        ref[0] = None
        world.sched = None
        if cfg.get("fail"):
            if verdict != "done" and not trig and not any(not isinstance(e, SystemExit) for n, e in excs if n == "main"):
                errs.append(("hang-after-failure", "the PES raised an exception and the simulation waits forever (%s)" % verdict))
            for key, g in sorted(got.items()):
                errs += compare(cfg, clients, key, g)
            return verdict, errs, sched.steps
        if excs:
            n, e = excs[0]
            import traceback

            errs.append(("exception:" + type(e).__name__, "thread %s died: %s" % (n, "".join(traceback.format_exception(e))[-700:])))
        if verdict != "done":
            errs.append(("hang", "the clients never got all their results (%s; still waiting: %s)" % (verdict, alive)))
        else:
            if trig:
                errs.append(("exit", "the run was stopped: %s" % trig[0]))
            if any(leftovers):
                errs.append(("leftover", "requests left in the queue after all were answered: %s" % leftovers))
            for c, (nb, nat) in enumerate(zip(cfg["beads"], cfg["nat"])):
                for k in range(nff):
                    for r in range(cfg["rounds"]):
                        for b in range(nb):
                            if (c, k, r, b) not in got:
                                errs.append(("missing", "no result for system %d bead %d round %d" % (c, b, r)))
            need = evaluations(cfg)
            if need is not None and world.calls != need:
                errs.append(("evaluations", "%d evaluations of the potential for %d requests" % (world.calls, need)))
        for key, g in sorted(got.items()):
            errs += compare(cfg, clients, key, g)
        return verdict, errs, sched.steps
    finally:
        for (m, k), v in saved.items():
            if k == "print":
                continue
            setattr(m, k, v)
        if "trigger" in SE.softexit.__dict__:
            del SE.softexit.trigger


def compare(cfg, clients, key, g):
    c, k, r, b = key
    u, f, v, x = expected(cfg, cell_of(cfg), geometry(c, r, b, cfg["nat"][c]))
    errs = []
    who = "system %d, bead %d, round %d" % (c, b, r)

    def off(a, e):
        a, e = np.asarray(a, float), np.asarray(e, float)
        return a.shape != e.shape or not np.allclose(a, e, rtol=1e-9, atol=1e-9)

    if off(g[0], u) or off(g[4], u):
        errs.append(("energy", "%s: energy %r / %r instead of %r" % (who, g[0], g[4], u)))
    if off(g[1], np.asarray(f).flatten()) or off(g[5], np.asarray(f).flatten()):
        errs.append(("force", "%s: forces are not those of its own positions: %s instead of %s" % (who, g[1][:4], np.asarray(f).flatten()[:4])))
    tv = np.triu(np.asarray(v))
    if off(np.triu(g[2]), tv) or off(np.triu(g[6]), tv):
        errs.append(("virial", "%s: virial %s instead of %s" % (who, g[2].tolist(), tv.tolist())))
    if x is not None:
        y = g[3]
        for kk, xv in x.items():
            if not isinstance(y, dict) or kk not in y:
                errs.append(("extras-" + kk, "%s: extra %r is lost (%s)" % (who, kk, str(y)[:80])))
            elif isinstance(xv, (str, list)) and not isinstance(xv, np.ndarray) and not np.array_equal(np.asarray(xv), np.asarray(y[kk])):
                errs.append(("extras-" + kk, "%s: extra %r is %r instead of %r" % (who, kk, str(y[kk])[:80], str(xv)[:80])))
            elif not isinstance(xv, (str, list)) and off(y[kk], xv):
                errs.append(("extras-" + kk, "%s: extra %r is %s instead of %s" % (who, kk, str(y[kk])[:80], str(xv)[:80])))
    return errs


def run(item):
    res = Result()
    cfg = CONFIGS[item["config"]]
    from ipi.utils.messages import verbosity

    verbosity.level = "quiet"
    k, n = item["shard"]
    seen = set()
    bad = [0]

    def one(prefix):
        ch = vnet.Chooser(prefix)
        verdict, errs, steps = execute(cfg, ch)
        res.transitions += steps
        res.state(item["config"], tuple(prefix))
        res.outcome("%s: %s" % (cfg["ff"], verdict if not cfg.get("fail") else "fault handled" if not errs else verdict))
        bad[0] += bool(errs)
        for e, m in errs:
            if (e, item["config"]) in seen:
                continue
            seen.add((e, item["config"]))
            res.fail("%s/%s" % (item["config"], e), "%s: %s (schedule deviating at %s)" % (
                item["config"], m, [(i, c) for i, c in enumerate(prefix) if c]), dict(prefix=list(prefix)))
        return ch

    if "replay" in item and item["replay"]:
        one(item["replay"]["prefix"])
        return res
    base = one([])
    res.bounds_met = len(base.points)
    if item["bound"] < 1:
        return res
    todo = [(i, a) for i in range(len(base.points)) for a in range(1, base.points[i][0])]
    for j, (i, a) in enumerate(todo):
        if j % n != k:
            continue
        if bad[0] > 40:
            break  # enough evidence; hung executions are expensive
        ch = one([p[1] for p in base.points[:i]] + [a])
        if item["bound"] > 1 and (j // n) % item["lattice"] == 0:
            for i2 in range(i + 1, len(ch.points)):
                for a2 in range(1, ch.points[i2][0]):
                    one([p[1] for p in ch.points[:i2]] + [a2])
    return res
