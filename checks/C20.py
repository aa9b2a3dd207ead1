"""C20: geometry optimizations go downhill and end at stationary points.

The real optimizers (all six modes) are stepped from every combination of start, potential,
number of beads, fixed coordinates and settings. Every step is checked: cached forces are those of
the new positions, fixed coordinates do not move, minimizers with a line search never go uphill,
step limits hold, and convergence is reported exactly when the documented criteria are met. Every
run has to converge, at a point where the analytic force vanishes.
"""

import itertools

import numpy as np

from vlib import sim, vpes
from vlib.core import Result

PROPERTY = "C20"
LEVEL = "model_checking"
TIMEOUT = 600.0
RULE = "one case per (mode, potential, beads, fixed coordinates, settings), all starts; states are distinct (case, start, step), transitions are optimization steps"
ASSUMPTIONS = ["forces are the derivatives of the potential (C08)"]
BOUNDS = {
    "quick": "3 atoms, 6 modes x 3 potentials (convex, with negative curvature, anharmonic) x 1-2 beads x 3 sets of fixed coordinates x 5-8 settings (three of them with one deciding criterion) x 4-7 starts (one of them stationary), followed to convergence",
    "thorough": "as quick with 30 starts and 3 beads",
}
N = 3
POT = {
    "convex": dict(k=0.3, k4=0.0, kp=0.1, r0=0.0, aniso=1.2),
    "negative": dict(k=0.15, k4=0.05, kp=0.4, r0=2.0, aniso=1.1),
    "anharmonic": dict(k=0.2, k4=0.3, kp=0.05, r0=1.0, aniso=1.3),
}
TOL = dict(energy=1e-6, force=1e-4, position=1e-3)
FIX = {"none": "", "atom": "<fixatoms>[ 1 ]</fixatoms>", "dof": "<fixatoms_dof>[ 0, 4, 8 ]</fixatoms_dof>"}
FIXED = {"none": [], "atom": [3, 4, 5], "dof": [0, 4, 8]}
MODES = ("sd", "cg", "bfgs", "bfgstrm", "lbfgs", "damped_bfgs")
SETTINGS = {
    "sd": [{}, {"iter": 3}, {"step": 0.1, "adaptive": 0.0}],
    "cg": [{}, {"iter": 3}, {"step": 0.1, "adaptive": 0.0}],
    "bfgs": [{}, {"big": 0.02}],
    "bfgstrm": [{}, {"big": 0.1}, {"tr": 0.05}],
    "lbfgs": [{}, {"big": 0.02}, {"corr": 2}, {"scale": 0}, {"scale": 2, "corr": 3}],
    "damped_bfgs": [{"big": 0.3}, {"big": 0.05}],
}
# one criterion decides, the others are always met
TOLS = {"e": dict(energy=1e-9, force=10.0, position=10.0), "f": dict(energy=1e-4, force=1e-4, position=10.0), "x": dict(energy=1e-4, force=10.0, position=1e-4)}
for _m in MODES:
    SETTINGS[_m] += [dict(SETTINGS[_m][0], tol=t) for t in TOLS]
STEPS = 600


def start(s, P):
    i = np.arange(P * 3 * N).reshape(P, 3 * N)
    if s == "stationary":
        return np.zeros((P, 3 * N))
    base = [1.0, 0.25, 2.0][s % 3] * np.sin(np.arange(3 * N) * (1.3 + 0.41 * (s // 3)) + 0.7 * s)
    return np.round(base[None, :] + 0.2 * np.cos(1.7 * i + s) * (P > 1), 6)


def items(tier):
    q = tier == "quick"
    out = []
    for mode, pot, P, fix in itertools.product(MODES, POT, (1, 2) if q else (1, 2, 3), FIX):
        for se in SETTINGS[mode]:
            n = (5 if P == 1 else 2) if q else 29
            if "tol" in se:
                n = 2 if q else 9
                if q and pot == "negative":
                    continue
            out.append(dict(mode=mode, pot=pot, P=P, fix=fix, setting=se, starts=list(range(n)) + (["stationary"] if pot == "convex" else [])))
    return out


def build(it, q0):
    se = it["setting"]
    P = it["P"]
    t = TOLS.get(se.get("tol"), TOL)
    x = "<tolerances><energy>%r</energy><force>%r</force><position>%r</position></tolerances>" % (t["energy"], t["force"], t["position"])
    x += "<ls_options><iter>%d</iter><step>%r</step><adaptive>%r</adaptive><tolerance>1e-4</tolerance></ls_options>" % (se.get("iter", 100), se.get("step", 1e-3), se.get("adaptive", 1.0))
    if "big" in se:
        x += "<biggest_step>%r</biggest_step>" % se["big"]
    if "tr" in se:
        x += "<tr_trm shape='(1)'>[ %r ]</tr_trm>" % se["tr"]
    if "corr" in se:
        x += "<corrections_lbfgs>%d</corrections_lbfgs>" % se["corr"]
    if "scale" in se:
        x += "<scale_lbfgs>%d</scale_lbfgs>" % se["scale"]
    mot = "<motion mode='minimize'>%s<optimizer mode='%s'>%s</optimizer></motion>" % (FIX[it["fix"]], it["mode"], x)
    m = np.full(N, 1837.0)
    beads = "<beads natoms='%d' nbeads='%d'><q shape='(%d,%d)'>%s</q><p shape='(%d,%d)'>%s</p><m shape='(%d)'>%s</m><names shape='(%d)'>[ H, H, H ]</names></beads>" % (
        N, P, P, 3 * N, sim.arr(q0), P, 3 * N, sim.arr(q0 * 0), N, sim.arr(m), N)
    s = sim.load(sim.simulation_xml(sim.ff_xml("ff", POT[it["pot"]]), sim.system_xml(mot, beads=beads, cell=sim.cell_xml(None)), steps=STEPS + 5))
    return s, s.syslist[0]


def run(item):
    R = Result()
    P, mode, se = item["P"], item["mode"], item["setting"]
    fixed = FIXED[item["fix"]]
    free = [i for i in range(3 * N) if i not in fixed]

    def ev(q):
        r = [vpes.evaluate(sim.CELL, x, **POT[item["pot"]]) for x in q]
        return sum(x[0] for x in r), np.array([x[1].flatten() for x in r])

    for s0 in item["starts"]:
        q = start(s0, P)
        s, y = build(item, q)
        tag = "%s:" % mode
        what = "%s (%s, %d bead(s), fixed: %s, %s) from start %s" % (mode, item["pot"], P, item["fix"], se, s0)
        V, f = ev(q)
        stat = not np.any(f[:, free])
        ended, low = False, V
        steps = 40 if se.get("iter") else STEPS
        for step in range(steps):
            before = np.array(y.beads.q)
            s.step = step
            y.motion.step(step)
            R.transitions += 1
            if getattr(y.motion, "exit_status", None) == "success":
                R.fail(tag + "criteria", "%s: the optimization ended before step %d although the criteria were not met" % (what, step))
                break
            q1 = np.array(y.beads.q)
            R.state(mode, item["pot"], P, item["fix"], str(se), s0, step)
            if not np.all(np.isfinite(q1)):
                R.fail(tag + "finite", "%s: positions are not numbers after step %d" % (what, step))
                break
            V1, f1 = ev(q1)
            if not np.allclose(np.array(y.forces.f), f1, rtol=1e-9, atol=1e-11) or abs(float(np.squeeze(y.forces.pot)) - V1) > 1e-9:
                R.fail(tag + "forces", "%s: forces or potential after step %d are not those of the positions" % (what, step))
                break
            if fixed and not np.array_equal(q1[:, fixed], q[:, fixed]):
                R.fail(tag + "fixed", "%s: fixed coordinates moved in step %d" % (what, step))
                break
            dx = q1 - before
            if mode in ("sd", "cg", "bfgs", "lbfgs") and V1 > V + 1e-10 or mode == "bfgstrm" and V1 > V + 1e-4:
                R.fail(tag + "uphill", "%s: the potential rose from %.10g to %.10g in step %d" % (what, V, V1, step))
                break
            n = np.linalg.norm(dx)
            if mode == "damped_bfgs" and item["fix"] != "dof" and np.amax(np.linalg.norm(dx.reshape(-1, 3), axis=1)) > se["big"] * (1 + 1e-9):
                R.fail(tag + "step", "%s: step %d moved an atom by more than the largest step" % (what, step))
            if mode == "bfgstrm" and n > max(se.get("big", 100.0), se.get("tr", 0.4)) * (1 + 1e-3):
                R.fail(tag + "step", "%s: step %d is %.4g long, longer than the trust radius may become" % (what, step, n))
            if mode in ("bfgs", "lbfgs"):
                xn = before[:, free]
                if n > se.get("big", 100.0) * max(np.linalg.norm(xn), xn.size) * (1 + 1e-9):
                    R.fail(tag + "step", "%s: step %d is %.4g long" % (what, step, n))
            fmax = np.max(np.abs(f1[:, free]))
            crit = [abs(V1 - V) / N, fmax, np.max(np.abs(dx))]
            t = TOLS.get(se.get("tol"), TOL)
            lim = [t["energy"], t["force"], t["position"]]
            met = all(a <= b for a, b in zip(crit, lim))
            clear = all(abs(a - b) > 1e-6 * b for a, b in zip(crit, lim))
            # convergence is visible: the next step does nothing and asks to end the run
            V = V1
            if met or stat:
                before = np.array(y.beads.q)
                y.motion.step(step + 1)
                end = "exit_status" in y.motion.__dict__ and y.motion.exit_status == "success"
                if clear and not (end and np.array_equal(before, np.array(y.beads.q))):
                    R.fail(tag + "criteria", "%s: the criteria are met after step %d (%s) and the optimization goes on" % (what, step, crit))
                ended = True
                break
        else:
            # three iterations are not a line search: only the steps are judged
            if steps < STEPS:
                R.outcome("short line searches")
                continue
            R.fail(tag + "converge", "%s: not converged after %d steps, largest force %.3g" % (what, STEPS, fmax))
        if ended:
            R.outcome("converged")
            R.outcome("steps %s" % mode, step + 1)
            if stat and not np.array_equal(np.array(y.beads.q), q):
                R.fail(tag + "stationary", "%s: moved away from a stationary point" % what)
        if len(R.violations) > 10:
            break
    return R
