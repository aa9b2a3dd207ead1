"""C21: computed dynamical matrices are those of the potential.

The real phonon calculations (all modes, sum rules, sets of fixed coordinates, displacements,
shifts and initial matrices) are run step by step to their end, and every number in the files they
write is compared with the Hessian of the potential, obtained independently.
"""

import glob
import itertools
import os
import shutil
import tempfile

import numpy as np

from vlib import sim, vpes
from vlib.core import Result

PROPERTY = "C21"
LEVEL = "model_checking"
TIMEOUT = 300.0
RULE = "one case per (mode, sum rule, geometry, potential, masses); states are distinct (case, fixed coordinates, settings, step), transitions are steps of the calculation"
ASSUMPTIONS = ["the potential is smooth"]
BOUNDS = {
    "quick": "1-4 atoms, 5 geometries (generic, symmetric top, linear), 3 modes x 4 sum rules, all subsets of fixed atoms and all single fixed coordinates, 3 displacements, 2 shifts, 3 initial matrices",
    "thorough": "as quick with all pairs of fixed coordinates",
}
POT = {
    "harmonic": dict(k=0.2, k4=0.0, kp=0.1, r0=0.0, aniso=1.2),
    "pairs": dict(k=0.0, k4=0.0, kp=0.3, r0=1.5),
    "saddle": dict(k=-0.05, k4=0.01, kp=0.2, r0=1.2, aniso=1.4),
}
GEO = {
    "one": [[0.3, -0.2, 0.5]],
    "dimer": [[0.1, 0.2, 0.3], [1.2, 0.9, -0.4]],
    "generic": [[0.0, 0.1, -0.2], [1.3, 0.4, 0.2], [-0.5, 1.1, 0.7]],
    "top": None,
    "four": [[0.0, 0.1, -0.2], [1.3, 0.4, 0.2], [-0.5, 1.1, 0.7], [0.4, -0.9, 1.2]],
}


def geometry(g):
    if g != "top":
        return np.array(GEO[g])
    # equilateral triangle in a general orientation
    a = np.array([[np.cos(t), np.sin(t), 0.0] for t in (0.3, 0.3 + 2 * np.pi / 3, 0.3 + 4 * np.pi / 3)])
    c, s = np.cos(0.7), np.sin(0.7)
    r = np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]]) @ np.array([[1, 0, 0], [0, np.cos(0.4), -np.sin(0.4)], [0, np.sin(0.4), np.cos(0.4)]])
    return a @ r.T + np.array([0.3, -0.1, 0.2])


def masses(g, n):
    return np.full(n, 1837.0) if g == "top" else np.array([1837.0, 21894.0, 3671.0, 12650.0])[:n]


def hessian(q, pot):
    n = q.size
    H = np.zeros((n, n))

    def f(x):
        return vpes.evaluate(sim.CELL, x, **pot)[1].flatten()

    for i in range(n):
        for d, w in ((1e-3, 8 / 12e-3), (2e-3, -1 / 12e-3)):
            e = np.zeros(n)
            e[i] = d
            H[i] -= w * (f(q.flatten() + e) - f(q.flatten() - e))
    return 0.5 * (H + H.T)


def null(q, m, rule):
    """Mass-weighted translations (and rotations), orthonormal."""
    n = len(m)
    v = []
    for a in range(3):
        x = np.zeros((n, 3))
        x[:, a] = 1
        v.append((x * np.sqrt(m)[:, None]).flatten())
    if rule in ("poly", "lin"):
        c = q - (m[:, None] * q).sum(axis=0) / m.sum()
        for a in range(3):
            e = np.zeros(3)
            e[a] = 1
            v.append((np.cross(e, c) * np.sqrt(m)[:, None]).flatten())
    u, s, _ = np.linalg.svd(np.array(v).T, full_matrices=False)
    return u[:, s > 1e-8 * s[0]]


def items(tier):
    q = tier == "quick"
    out = []
    for g, pot, mode in itertools.product(GEO, POT, ("fd", "nmfd", "enmfd")):
        for asr in ("none", "crystal", "poly", "lin"):
            if asr == "poly" and g in ("one", "dimer") or asr == "lin" and g != "dimer":
                continue
            if g == "one" and pot == "pairs":
                continue
            out.append(dict(geo=g, pot=pot, mode=mode, asr=asr, pairs=not q))
    return out


def numbers(f):
    rows = [[float(x) for x in l.split()] for l in open(f) if l.strip() and not l.startswith("#")]
    return np.array(rows)


def calculate(R, item, q, m, fix, dx, de, shift, D0):
    top = os.getcwd()
    d = tempfile.mkdtemp(dir=top)
    os.chdir(d)
    try:
        return calculation(R, item, q, m, fix, dx, de, shift, D0)
    finally:
        os.chdir(top)
        shutil.rmtree(d, ignore_errors=True)


def calculation(R, item, q, m, fix, dx, de, shift, D0):
    n = len(m)
    x = "<pos_shift>%r</pos_shift><energy_shift>%r</energy_shift><output_shift>%r</output_shift><asr>%s</asr>" % (dx, de, shift, item["asr"])
    if D0 is not None:
        x += "<dynmat shape='(%d,%d)'>%s</dynmat>" % (3 * n, 3 * n, sim.arr(D0))
    fx = "<fixatoms_dof>[ %s ]</fixatoms_dof>" % ", ".join(map(str, fix)) if len(fix) else ""
    mot = "<motion mode='vibrations'>%s<vibrations mode='%s'>%s</vibrations></motion>" % (fx, item["mode"], x)
    beads = "<beads natoms='%d' nbeads='1'><q shape='(1,%d)'>%s</q><p shape='(1,%d)'>%s</p><m shape='(%d)'>%s</m><names shape='(%d)'>[ %s ]</names></beads>" % (
        n, 3 * n, sim.arr(q), 3 * n, sim.arr(q * 0), n, sim.arr(m), n, ", ".join(["H", "C", "D", "Li"][:n]))
    s = sim.load(sim.simulation_xml(sim.ff_xml("ff", POT[item["pot"]]), sim.system_xml(mot, beads=beads, cell=sim.cell_xml(None)), steps=3 * n + 5))
    y = s.syslist[0]
    q0 = np.array(y.beads.q)
    for step in range(3 * n + 1):
        y.motion.step(step)
        R.transitions += 1
    if not np.array_equal(np.array(y.beads.q), q0):
        R.fail("moved", "the calculation moved the atoms")
    if getattr(y.motion, "exit_status", None) != "success":
        R.fail("end", "the calculation does not end after %d steps" % (3 * n + 1))
    out = {}
    for k in ("dynmat", "hess", "_full.hess", "eigval", "eigvec", "mode"):
        f = [x for x in glob.glob("*phonons%s%s*" % ("" if k.startswith("_") else ".", k))]
        out[k] = numbers(f[0]) if f else None
    return out


def run(item):
    R = Result()
    q = geometry(item["geo"])
    n = len(q)
    m = masses(item["geo"], n)
    pot = POT[item["pot"]]
    H = hessian(q, pot)
    sm = np.sqrt(np.repeat(m, 3))
    D = H / np.outer(sm, sm)
    runs = []
    fixes = [[]]
    if item["mode"] == "fd":
        for k in range(1, n):
            fixes += [[3 * a + c for a in s for c in range(3)] for s in itertools.combinations(range(n), k)]
        fixes += [[i] for i in range(3 * n)]
        if item["pairs"]:
            fixes += [list(s) for s in itertools.combinations(range(3 * n), 2)]
        # a sum rule is about all atoms
        if item["asr"] != "none":
            fixes = [[]]
    D0s = [None]
    if item["mode"] != "fd":
        i = np.arange(9 * n * n).reshape(3 * n, 3 * n)
        w = np.sin(1.3 * i)
        D0s = [D, D + 1e-6 * (w + w.T), np.diag(1e-5 * (1 + np.arange(3 * n)))]
    for fix, D0 in itertools.product(fixes, D0s):
        for dx, de, sh in [(0.001, 1e-5, 0.0), (0.005, 1e-6, 0.0), (0.002, 1e-5, 3e-5)]:
            if fix and dx != 0.002:
                continue
            what = "%s, %s, %s, %s, fixed %s, displacement %g, shift %g" % (item["mode"], item["asr"], item["geo"], item["pot"], fix, dx, sh)
            out = calculate(R, item, q, m, np.array(fix, int), dx, de, sh, D0)
            R.state(str(item), str(fix), dx, de, sh, "" if D0 is None else float(np.round(D0.sum(), 12)))
            want = D.copy()
            if item["asr"] != "none":
                u = null(q, m, item["asr"])
                p = np.eye(3 * n) - u @ u.T
                want = p @ want @ p
            for f in fix:
                want[f, :] = want[:, f] = 0
            act = [i for i in range(3 * n) if i not in fix]
            full = want + sh * np.eye(3 * n)
            want = full[np.ix_(act, act)]
            scale = np.max(np.abs(D))
            tol = 2e-4 if item["mode"] == "enmfd" else 1e-5

            def bad(a, b, t, s):
                return a is None or a.shape != b.shape or not np.all(np.isfinite(a)) or np.max(np.abs(a - b)) > t * s

            # error of a finite difference in a potential that is not harmonic
            if item["pot"] != "harmonic":
                tol *= 20 if dx < 0.004 else 100
            if item["mode"] == "enmfd" and item["pot"] != "harmonic":
                tol = 0.05
            hs = np.max(np.abs(H)) + 1e-300
            if bad(out["dynmat"], want, tol, scale):
                R.fail("dynmat", "%s: the dynamical matrix is wrong by %s (largest element %.3g)" % (what, "shape" if out["dynmat"] is None or out["dynmat"].shape != want.shape else "%.3g" % np.max(np.abs(out["dynmat"] - want)), scale))
                continue
            M = out["dynmat"]
            so = np.outer(sm[act], sm[act])
            if bad(out["hess"], M * so, 1e-8, hs):
                R.fail("hess", "%s: the Hessian is not the dynamical matrix times the masses" % what)
            # the couplings of fixed coordinates are reported as they were computed: not judged
            F = want * so
            G = out["_full.hess"]
            if G is not None and G.shape == (3 * n, 3 * n):
                G = G[np.ix_(act, act)]
            if bad(G, F, tol * 1.5 * np.max(so) / np.min(so), hs + abs(sh) * np.max(so)):
                R.fail("full", "%s: the full Hessian is wrong" % what)
            w, v = np.linalg.eigh(0.5 * (M + M.T))
            if not np.allclose(M, M.T, rtol=0, atol=1e-12 * scale):
                R.fail("symmetric", "%s: the dynamical matrix is not symmetric" % what)
            if out["eigval"] is None or bad(out["eigval"].flatten(), w, 1e-8, scale):
                R.fail("eigval", "%s: the eigenvalues are not those of the dynamical matrix" % what)
                continue
            V = out["eigvec"]
            if V is None or bad(M @ V, V * w, 1e-7, scale) or bad(V.T @ V, np.eye(len(w)), 1e-8, 1):
                R.fail("eigvec", "%s: the eigenvectors are not those of the dynamical matrix" % what)
                continue
            c = V / sm[act][:, None]
            c /= np.linalg.norm(c, axis=0)
            if bad(out["mode"], c, 1e-8, 1):
                R.fail("mode", "%s: the modes are not the normalized cartesian displacements of the eigenvectors" % what)
            if item["asr"] != "none" and sh == 0.0:
                if np.max(np.abs(M @ u)) > 1e-9 * scale:
                    R.fail("sum rule", "%s: translations or rotations have a frequency" % what)
            R.outcome("%s %s" % (item["mode"], item["asr"]))
    return R
