"""C25: instanton searches end at stationary paths, and can be interrupted.

The real instanton mover is stepped from every start of a grid of settings until it ends, once
without a break and once through the checkpoint after every few steps. After every step the
reported forces and potentials and the fixed coordinates are checked; when it reports
convergence, the force on the path, its index and the Hessian in the checkpoint are computed
independently.
"""

import itertools
import os
import re
import tempfile

import numpy as np

from vlib import sim, vfs, vpes
from vlib.core import Result

PROPERTY = "C25"
LEVEL = "model_checking"
TIMEOUT = 300.0
RULE = "one case per (optimizer, mode, update of the Hessian, beads, atoms, fixed coordinates, start, temperature); states are distinct (case, step, restarted or not), transitions are steps and resumptions after a crash"
ASSUMPTIONS = ["the potential is smooth", "uniform discretization, no friction"]
BOUNDS = {
    "quick": "4 optimizers x rates and splittings x 2 updates of the Hessian x 1, 4 and 7 beads x 1-2 atoms x fixed atoms or none x 2 starts x 2 temperatures x 4 sets of tolerances (in turn), followed until they end (at most 120 steps), without a break and restarted every 3 steps; computation of Hessians of 4 systems killed after every file operation and within every write (at every byte of short ones)",
    "thorough": "as quick with 1, 2, 4, 7 and 12 beads, 4 starts, 4 temperatures, all sets of tolerances and 500 steps, restarted after every step",
}
POT = dict(k=0.05, aniso=-1.2, k4=0.3, kp=0.04, r0=0.0)  # a saddle point of first order between two wells
FIX = {"none": "", "atom": "<fixatoms>[ 0 ]</fixatoms>"}
# in each set another criterion is the last one to be met
TOLS = {"all": dict(energy=1e-6, force=2e-5, position=1e-3), "force": dict(energy=1e-2, force=1e-6, position=0.5), "position": dict(energy=1e-2, force=1.0, position=1e-5), "energy": dict(energy=1e-10, force=1.0, position=0.5)}


def fixed(item):
    return {"none": [], "atom": [0, 1, 2]}[item["fix"]]


def masses(n):
    return np.array([1837.0, 3600.0])[:n]


def ev(q):
    r = [vpes.evaluate(sim.CELL, x, **POT) for x in q]
    return np.array([x[0] for x in r]), np.array([x[1].flatten() for x in r])


def hess(x):
    e = 1e-4
    h = np.zeros((x.size, x.size))
    for i in range(x.size):
        d = np.zeros(x.size)
        d[i] = e
        h[i] = -(vpes.evaluate(sim.CELL, x + d, **POT)[1] - vpes.evaluate(sim.CELL, x - d, **POT)[1]).flatten() / (2 * e)
    return 0.5 * (h + h.T)


def springs(item):
    """K of the chain of beads: force = -m (K q)"""
    P = item["P"]
    w = (2 if item["mode"] == "rate" else 1) * P * item["T"]
    K = np.zeros((P, P))
    for i in range(P - 1):
        K[i, i] += w * w
        K[i + 1, i + 1] += w * w
        K[i, i + 1] -= w * w
        K[i + 1, i] -= w * w
    return K


def items(tier):
    q = tier == "quick"
    out = [dict(crash=True, P=P, n=n, fix=f, every=1) for P, n, f in ((1, 1, "none"), (2, 1, "none"), (3, 2, "none"), (2, 2, "atom"))]
    opts = [("nichols", m, u) for m in ("rate", "splitting") for u in ("powell", "recompute")]
    opts += [("NR", "rate", "powell"), ("NR", "rate", "recompute"), ("lanczos", "rate", "powell"), ("lanczos", "rate", "recompute"), ("lbfgs", "splitting", "none")]
    for (opt, mode, upd), P, n, fix in itertools.product(opts, (1, 4, 7) if q else (1, 2, 4, 7, 12), (1, 2), FIX):
        if n == 1 and fix != "none" or P == 1 and mode == "splitting" or P == 1 and opt == "lanczos" or fix != "none" and opt in ("NR", "lbfgs"):
            continue
        for s, T in itertools.product(range(2 if q else 4), (0.0006, 0.0003) if q else (0.0008, 0.0006, 0.0004, 0.0002)):
            if q and n == 2 and s != (T == 0.0003):
                continue
            for tol in [list(TOLS)[len(out) % 4]] if q else TOLS:
                out.append(dict(tol=tol, opt=opt, mode=mode, upd=upd, P=P, n=n, fix=fix, s=s, T=T, steps=120 if q else 500, every=3 if q else 1))
    return out


def start(item):
    P, n, s = item["P"], item["n"], item["s"]
    fx = fixed(item)
    q = np.zeros((P, 3 * n))
    if s % 2 == 0 or P == 1:
        amp = 0.25 if item["mode"] == "rate" else 0.42
        c = np.cos(np.pi * np.arange(P) / max(P - 1, 1))[:, None] if P > 1 else np.full((1, 1), 0.1)
        q = amp * c * np.tile([0.1, 1.0, 0.05], n) + 0.03 * np.cos(np.arange(P)[:, None] * 1.1 + np.arange(3 * n) * 0.7 + s)
    q[:, fx] = 0.0
    return np.round(q, 10)


def build(it, q):
    P, n = it["P"], it["n"]
    TOL = TOLS[it["tol"]]
    m = masses(n)
    ts = not np.any(q) and P > 1
    x = "<tolerances><energy>%r</energy><force>%r</force><position>%r</position></tolerances>" % (TOL["energy"], TOL["force"], TOL["position"])
    x += "<opt>%s</opt><biggest_step>0.1</biggest_step><delta>0.3</delta>" % it["opt"]
    if it["opt"] != "lbfgs":
        x += "<hessian_update>%s</hessian_update><hessian_final>True</hessian_final>" % it["upd"]
    if ts:
        x += "<hessian shape='(%d, %d)'>%s</hessian>" % (3 * n, 3 * n, sim.arr(hess(np.zeros(3 * n))))
    elif it["opt"] != "lbfgs":
        x += "<hessian_init>True</hessian_init>"
    mot = "<motion mode='instanton'>%s<instanton mode='%s'>%s</instanton></motion>" % (FIX[it["fix"]], it["mode"], x)
    beads = "<beads natoms='%d' nbeads='%d'><q shape='(%d,%d)'>%s</q><p shape='(%d,%d)'>%s</p><m shape='(%d)'>%s</m><names shape='(%d)'>[ %s ]</names></beads>" % (
        n, P, P, 3 * n, sim.arr(q), P, 3 * n, sim.arr(q * 0), n, sim.arr(m), n, ",".join(["H", "D"][:n]))
    return sim.simulation_xml(sim.ff_xml("ff", POT), sim.system_xml(mot, beads=beads, cell=sim.cell_xml(None), temp=it["T"]), steps=it["steps"] + 5)


def crash(item):
    """The computation of a Hessian dies after any file operation, or within any write, and is started again."""
    from ipi.utils.hesstools import get_hessian

    R = Result()
    P, n = item["P"], item["n"]
    q = np.round(0.3 * np.cos(1.3 * np.arange(P)[:, None] + 0.7 * np.arange(3 * n)), 6)
    calls = [0]

    def gm(x, *a, **k):
        calls[0] += 1
        V, f = ev(x)
        return V, -f

    def go():
        return get_hessian(gm=gm, x0=q.copy(), natoms=n, nbeads=P, fixatoms_dof=np.array(fixed(item), int))

    here = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            rec = vfs.Recorder(d)
            rec.install()
            try:
                ref = go()
            finally:
                rec.uninstall()
            most = calls[0]
            left = os.listdir(d)
            if left:
                R.fail("crash:left", "the computation of a Hessian leaves %s behind, which the next one would use" % left[:3])
            seen = set()
            for k in range(len(rec.log) + 1):
                names, data = rec.base()
                for op in rec.log[:k]:
                    rec.apply(names, data, op)
                nxt = rec.log[k] if k < len(rec.log) else None
                cuts = [None]
                if nxt is not None and nxt[0] == "write":
                    m = len(nxt[3])
                    cuts += range(1, m) if m < 700 else sorted(set(list(range(1, m, 97)) + list(range(max(1, m - 80), m))))
                for c in cuts:
                    d2 = dict(data)
                    if c is not None:
                        rec._wr(d2, nxt[1], nxt[2], nxt[3][:c])
                    files = rec.files(names, d2)
                    key = repr(sorted(files.items()))
                    if key in seen:
                        continue
                    seen.add(key)
                    for f in os.listdir(d):
                        os.unlink(os.path.join(d, f))
                    for f, b in files.items():
                        with open(f, "wb") as fd:
                            fd.write(b)
                    calls[0] = 0
                    R.transitions += 1
                    R.state(str(item), key)
                    what = "Hessian of %d beads of %d atom(s), fixed %s: killed after %d file operations%s" % (P, n, item["fix"], k, "" if c is None else " and %d bytes of the next one" % c)
                    try:
                        h = go()
                    except Exception as e:
                        R.fail("crash:fails", "%s, it cannot be started again: %r" % (what, e))
                        continue
                    if not np.allclose(h, ref, rtol=1e-9, atol=1e-12):
                        R.fail("crash:wrong", "%s, it gives another result (largest difference %.3g)" % (what, np.max(np.abs(h - ref))))
                    elif calls[0] > most:
                        R.fail("crash:work", "%s, it needs %d evaluations instead of at most %d" % (what, calls[0], most))
                    else:
                        R.outcome("resumed")
        finally:
            os.chdir(here)
    return R


def run(item):
    if item.get("crash"):
        return crash(item)
    R = Result()
    TOL = TOLS[item["tol"]]
    q0 = start(item)
    P, n = item["P"], item["n"]
    fx = fixed(item)
    mask = np.array([i not in fx for i in range(3 * n)])
    m3 = np.repeat(masses(n), 3)
    K = springs(item)
    tag = "%s:%s:" % (item["opt"], item["mode"])
    paths = {}
    for broken in (False, True):
        what = "instanton (%s, %s, %s, tolerances %s), %d beads, %d atom(s), fixed %s, start %d, T %g%s" % (
            item["opt"], item["mode"], item["upd"], item["tol"], P, n, item["fix"], item["s"], item["T"], ", restarted every %d steps" % item["every"] if broken else "")
        s = sim.load(build(item, q0))
        path = paths.setdefault(broken, [])
        old, ended = None, False
        for step in range(item["steps"]):
            y = s.syslist[0]
            mv = y.motion
            s.step = step
            before = np.array(y.beads.q)
            mv.step(step)
            R.transitions += 1
            R.state(str(item), step, broken)
            q = np.array(y.beads.q)
            path.append(q)
            if not np.all(np.isfinite(q)):
                R.outcome("diverged")
                break
            if not np.array_equal(q[:, fx], q0[:, fx]):
                R.fail(tag + "fixed", "%s: fixed coordinates moved in step %d" % (what, step))
                break
            V, f = ev(q)
            if not np.allclose(np.array(y.forces.f), f, rtol=1e-8, atol=1e-10):
                R.fail(tag + "forces", "%s: the forces after step %d are not those of the positions" % (what, step))
                break
            if not np.allclose(np.array(y.forces.pots), V, rtol=1e-9, atol=1e-10):
                R.fail(tag + "pots", "%s: the potentials after step %d are not those of the positions" % (what, step))
                break
            if mv.exit_status:
                if mv.exit_status == "success":
                    ended = True
                if not np.array_equal(before, q):
                    R.fail(tag + "moved", "%s: the path moved after it had converged" % what)
                break
            if broken and step % item["every"] == item["every"] - 1:
                try:
                    s = sim.load(sim.restart_text(s))
                except BaseException as e:
                    R.fail(tag + "restart", "%s: the checkpoint after step %d cannot be read: %r" % (what, step, e))
                    break
            old = q
        if R.violations:
            return R
        if not ended:
            R.outcome("not converged")
            continue
        R.outcome("converged %s %s" % (item["opt"], item["mode"]))
        g = (f - m3 * (K @ q))[:, mask]
        if np.max(np.abs(g)) > TOL["force"] * 1.0001:
            pf = ev(path[-3])[1] if len(path) > 2 else f + 1
            if np.linalg.norm(f - pf) > 1.0001e-8:
                R.fail(tag + "converged", "%s: ends at step %d with a force of %.3g on the path" % (what, step, np.max(np.abs(g))))
        if len(path) > 2:
            dV = abs(V.sum() - ev(path[-3])[0].sum()) / n
            if dV > TOL["energy"] * 1.0001 + 1e-14:
                R.fail(tag + "energy", "%s: ends at step %d with an energy change of %.3g" % (what, step, dV))
            if np.max(np.abs(q - path[-3])) > TOL["position"] * 1.0001:
                R.fail(tag + "position", "%s: ends at step %d with a move of %.3g" % (what, step, np.max(np.abs(q - path[-3]))))
        # the second derivatives of the path
        act = np.nonzero(mask)[0]
        H = np.kron(K, np.diag(m3[act]))
        hs = [hess(x) for x in q]
        for b in range(P):
            c = slice(b * len(act), (b + 1) * len(act))
            H[c, c] += hs[b][np.ix_(act, act)]
        mm = 1 / np.sqrt(np.tile(m3[act], P))
        w = np.linalg.eigvalsh(H * np.outer(mm, mm))
        R.outcome("index %s %s %d" % (item["opt"], item["mode"], int(np.sum(w < -1e-9))))
        if item["opt"] != "lbfgs":
            t = sim.restart_text(s)
            x = re.search(r"<hessian[^>]*>\s*\[([^\]]*)\]", t)
            h = np.array([float(z) for z in x.group(1).split(",")]).reshape(3 * n, 3 * n * P) if x else None
            ref = np.hstack(hs)
            am = np.tile(mask, P)
            if h is None or not np.allclose(h[np.ix_(mask, am)], ref[np.ix_(mask, am)], rtol=1e-3, atol=2e-5):
                R.fail(tag + "hessian", "%s: the final Hessian is not that of the path (largest difference %s)" % (what, None if h is None else np.max(np.abs(h - ref)[np.ix_(mask, am)])))
    a, b = paths[False], paths[True]
    for k in range(1, len(a)):
        if np.array_equal(a[k], a[k - 1]):  # out of moves: a restarted search tries afresh
            a = a[: k + 1]
            break
    for k, (x, z) in enumerate(zip(a[:-1], b)):  # at the very end a restarted search checks once more that it has converged
        if not np.allclose(x, z, rtol=1e-7, atol=1e-8):
            R.outcome("restart differs")
            R.fail(tag + "resume", "instanton %s: interrupted after every %d steps, it takes another path from step %d" % (item, item["every"], k))
            break
    return R
