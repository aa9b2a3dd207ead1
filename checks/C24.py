"""C24: searches for transition paths relax the path and keep its ends.

The real NEB mover is stepped from every start of a grid until it ends; after every
step the forces and potentials it leaves behind, the ends of the band and the fixed
coordinates are checked, and when it reports convergence the force on the band (or the
climbing image) is computed independently.
"""

import itertools

import numpy as np

from vlib import sim, vpes
from vlib.core import Result

PROPERTY = "C24"
LEVEL = "model_checking"
TIMEOUT = 300.0
RULE = "one case per (optimizer, tangents, images, springs, fixed coordinates, climbing, potential); states are distinct (case, start, step), transitions are steps"
ASSUMPTIONS = ["the potential is smooth"]
BOUNDS = {
    "quick": "1-2 atoms, 3, 5 and 6 images, 2 optimizers x 2 tangents x 2 spring constants x 3 sets of fixed coordinates x climbing or not x 2 potentials x 4 sets of tolerances (in turn) x 3 starts (one of them restarted from its checkpoint every 7 steps), followed until they end (at most 400 steps)",
    "thorough": "as quick with all sets of tolerances, 12 starts and 1500 steps",
}
# two wells along one direction, connected by bent paths through saddle points of another one
POT = {"bent": dict(k=-0.1, aniso=-1.5, k4=0.3, kp=0.0), "pair": dict(k=-0.05, aniso=-1.5, k4=0.2, kp=0.05, r0=1.0, sp=0.3)}
FIX = {"none": "", "atom": "<fixatoms>[ 0 ]</fixatoms>", "dof": "<fixatoms_dof>[ 1 ]</fixatoms_dof>"}
# in each set another criterion is the last one to be met
TOLS = {"all": dict(energy=1e-5, force=2e-4, position=5e-3), "force": dict(energy=1.0, force=1e-4, position=1.0), "position": dict(energy=1.0, force=1.0, position=5e-5), "energy": dict(energy=1e-8, force=1.0, position=1.0)}


def well(pot, n):
    """A minimum, by steepest descent of the analytic potential."""
    q = np.array([[0.05 * (i + 1), 0.1, 0.9 + 0.3 * i] for i in range(n)]).flatten()
    for _ in range(4000):
        q = q + 1.0 * vpes.evaluate(sim.CELL, q, **POT[pot])[1].flatten()
    return q


def band(pot, n, P, s):
    a = well(pot, n)
    b = a * np.tile([1.0, 1.0, -1.0], n)
    x = np.linspace(0, 1, P)[:, None]
    q = a + (b - a) * x
    bump = np.sin(np.pi * x) * np.tile([[0.35, 0.55, 0.2][s % 3], 0.07 * (-1) ** s, 0.03], n)
    q += bump + 0.02 * np.sin(np.pi * x) * np.cos(1.3 * np.arange(3 * n) + s)
    q[0], q[-1] = a, b
    return np.round(q, 10)


def items(tier):
    q = tier == "quick"
    out = []
    for opt, tan, (P, n), kap, fix, climb, pot in itertools.product(("fire", "damped_bfgs"), ("plain", "improved"), ((3, 1), (5, 1), (6, 2)), (0.1, 0.4), FIX, (False, True), POT):
        if n == 1 and (fix == "atom" or pot == "pair") or n == 2 and q and kap == 0.4:
            continue
        for tol in [list(TOLS)[len(out) % 4]] if q else TOLS:
            out.append(dict(tol=tol, opt=opt, tan=tan, P=P, n=n, kappa=kap, fix=fix, climb=climb, pot=pot, starts=list(range(3 if q else 12)), steps=400 if q else 1500))
    return out


def gradient(q, f, V, mask, tan, kap):
    """Force on the images of an elastic band (J. Chem. Phys. 113, 9978)."""
    P = len(q)
    out = []
    q = q[:, mask]
    f = f[:, mask]
    for i in range(1, P - 1):
        a, b = q[i] - q[i - 1], q[i + 1] - q[i]
        if tan == "plain":
            t = a / np.linalg.norm(a) + b / np.linalg.norm(b)
        else:
            up, dn = V[i + 1] - V[i], V[i] - V[i - 1]
            if up > 0 and dn > 0 or up == 0 and dn >= 0 or dn == 0 and up >= 0:
                t = b
            elif up < 0 and dn < 0:
                t = a
            else:
                big, small = max(abs(up), abs(dn)), min(abs(up), abs(dn))
                t = big * b + small * a if V[i + 1] >= V[i - 1] else small * b + big * a
        t = t / np.linalg.norm(t)
        out.append(f[i] - (f[i] @ t) * t + kap * (np.linalg.norm(b) - np.linalg.norm(a)) * t)
    return np.array(out)


def build(it, q):
    P, n = it["P"], it["n"]
    TOL = TOLS[it["tol"]]
    m = np.full(n, 1837.0)
    x = "<tolerances><energy>%r</energy><force>%r</force><position>%r</position></tolerances><endpoints><optimize>False</optimize></endpoints>" % (TOL["energy"], TOL["force"], TOL["position"])
    x += "<tangent>%s</tangent><spring><varsprings>False</varsprings><kappa>%r</kappa></spring><use_climb>%r</use_climb><biggest_step>0.3</biggest_step>" % (it["tan"], it["kappa"], it["climb"])
    mot = "<motion mode='neb'>%s<neb_optimizer mode='%s'>%s</neb_optimizer></motion>" % (FIX[it["fix"]], it["opt"], x)
    beads = "<beads natoms='%d' nbeads='%d'><q shape='(%d,%d)'>%s</q><p shape='(%d,%d)'>%s</p><m shape='(%d)'>%s</m><names shape='(%d)'>[ %s ]</names></beads>" % (
        n, P, P, 3 * n, sim.arr(q), P, 3 * n, sim.arr(q * 0), n, sim.arr(m), n, ",".join(["H"] * n))
    return sim.simulation_xml(sim.ff_xml("ff", POT[it["pot"]]), sim.system_xml(mot, beads=beads, cell=sim.cell_xml(None)), steps=it["steps"] + 5)


def run(item):
    R = Result()
    P, n = item["P"], item["n"]
    TOL = TOLS[item["tol"]]
    fixed = {"none": [], "atom": [0, 1, 2], "dof": [1]}[item["fix"]]
    mask = np.array([i not in fixed for i in range(3 * n)])

    def ev(q):
        r = [vpes.evaluate(sim.CELL, x, **POT[item["pot"]]) for x in q]
        return np.array([x[0] for x in r]), np.array([x[1].flatten() for x in r])

    for s0 in item["starts"]:
        q0 = band(item["pot"], n, P, s0)
        s = sim.load(build(item, q0))
        y = s.syslist[0]
        mv = y.motion
        tag = "%s:" % item["opt"]
        what = "NEB with %s, tolerances %s, %s tangents, %d images of %d atom(s), kappa %g, fixed %s, climbing %s, %s, start %s" % (
            item["opt"], item["tol"], item["tan"], P, n, item["kappa"], item["fix"], item["climb"], item["pot"], s0)
        V, f = ev(q0)
        old, oldV, ended, cl = q0, V, False, None
        for step in range(item["steps"]):
            stage = mv.stage
            s.step = step
            mv.step(step)
            R.transitions += 1
            R.state(str(item), s0, step)
            q = np.array(y.beads.q)
            if not np.all(np.isfinite(q)):
                R.outcome("diverged")
                break
            V, f = ev(q)
            if not np.array_equal(q[[0, -1]], q0[[0, -1]]):
                R.fail(tag + "ends", "%s: the ends of the path moved in step %d" % (what, step))
                break
            if not np.array_equal(q[:, fixed], q0[:, fixed]):
                R.fail(tag + "fixed", "%s: fixed coordinates moved in step %d" % (what, step))
                break
            if not np.allclose(np.array(y.forces.f), f, rtol=1e-8, atol=1e-10):
                i = int(np.argmax(np.abs(np.array(y.forces.f) - f).max(axis=1)))
                R.fail(tag + "forces-" + stage, "%s: the force on image %d after step %d (stage %s) is not that of its position" % (what, i, step, stage))
                break
            if not np.allclose(np.array(y.forces.pots), V, rtol=1e-9, atol=1e-10):
                R.fail(tag + "pots-" + stage, "%s: potentials after step %d (stage %s) are not those of the positions" % (what, step, stage))
                break
            moved = [i for i in range(P) if not np.array_equal(q[i], old[i])]
            if stage == "climb":
                if cl is None:
                    cl = moved[0] if moved else int(np.argmax(oldV))
                    if oldV[cl] < oldV.max() - 1e-9:
                        R.fail(tag + "climb", "%s: image %s climbs, but it is not the highest one" % (what, cl))
                        break
                if any(i != cl for i in moved):
                    R.fail(tag + "climb", "%s: images %s moved while image %s climbs" % (what, moved, cl))
                    break
            if mv.exit_status == "success" or mv.stage != stage:
                t = TOL["force"] * 1.0001 + 1e-12
                if stage == "neb":
                    g = gradient(q, f, V, mask, item["tan"], item["kappa"])
                else:
                    g = f[cl][mask]  # the climbing force has the components of the force, one of them reversed
                    d1, d2 = (q[cl] - q[cl - 1])[mask], (q[cl + 1] - q[cl])[mask]
                    tau = d1 / np.linalg.norm(d1) + d2 / np.linalg.norm(d2)
                    tau /= np.linalg.norm(tau)
                    g = g - 2 * (g @ tau) * tau
                if np.max(np.abs(g)) > t:
                    R.fail(tag + "converged-" + stage, "%s: %s ends at step %d with a force of %.3g" % (what, stage, step, np.max(np.abs(g))))
                    break
                if np.max(np.abs((q - old)[:, mask])) > TOL["position"] * 1.0001:
                    R.fail(tag + "position-" + stage, "%s: %s ends at step %d with a move of %.3g" % (what, stage, step, np.max(np.abs(q - old))))
                    break
                dV = abs(V.sum() - oldV.sum()) / P if stage == "neb" else abs(V[cl] - oldV[cl])
                if dV / n > TOL["energy"] * 1.0001 + 1e-13:
                    R.fail(tag + "energy-" + stage, "%s: %s ends at step %d with a change of the energy of %.3g" % (what, stage, step, dV / n))
                    break
                R.outcome("converged " + stage)
            if mv.exit_status == "success":
                ended = True
            elif mv.exit_status:
                R.outcome("gave up")
            if mv.exit_status:
                # the last checkpoint can be read, and says that there is nothing to do
                try:
                    s2 = sim.load(sim.restart_text(s))
                    m2 = s2.syslist[0].motion
                    m2.step(step + 1)
                except BaseException as e:
                    R.fail(tag + "restart", "%s: the checkpoint after the end of the search cannot be used: %r" % (what, e))
                    break
                if ended and not (m2.exit_status == "success" and np.array_equal(np.array(s2.syslist[0].beads.q), q)):
                    R.fail(tag + "restart", "%s: a search that has ended goes on when it is restarted" % what)
                break
            old, oldV = q, V
            if s0 % 3 == 2 and step % 7 == 3:
                # go on from the checkpoint
                try:
                    s = sim.load(sim.restart_text(s))
                except BaseException as e:
                    R.fail(tag + "restart", "%s: the checkpoint after step %d cannot be read: %r" % (what, step, e))
                    break
                y = s.syslist[0]
                mv = y.motion
        if not ended:
            R.outcome("not converged")
    return R
