"""C12: whatever is fixed stays fixed, and only that.

Real runs over the grid of motions, ensembles, thermostats, splittings, multiple time
steps, path dynamics and constraints, started with spread beads and with momenta along the
constrained directions; after every step the constrained quantities must be where they were.
The mean of the reported temperature over the canonical distribution of the momenta that
the constraints allow is computed exactly (the estimator is quadratic: a complete set of
covariance directions decides it) and must be the temperature that was set.
"""

import itertools

import numpy as np

from vlib import configs, sim
from vlib.core import Result

PROPERTY = "C12"
LEVEL = "model_checking"
TIMEOUT = 300.0
RULE = "one case per configuration; states are distinct (configuration, step) phase-space points; transitions are steps of the real engine and estimator evaluations"
ASSUMPTIONS = ["centre-of-mass positions are required to stay put only when the cell is not deformed"]
BOUNDS = {
    "quick": "~330 configurations, 4 steps; temperature estimator for all atom, bead and mode selections",
    "thorough": "~900 configurations, 12 steps",
}
PACMD = {"freqs": ("pa-cmd", [0.01])}
MAN = {"freqs": ("manual", "manual")}
OPEN = {"open": [0], "transform": "matrix"}
CAY = {"prop": "cayley"}
BAB = {"prop": "bab", "nmts": 4}


def name(c):
    return ",".join("%s=%s" % (k, str(c[k]).replace(" ", "")) for k in sorted(c))


FIX = [dict(fixcom=True), dict(fixcom=False, fixatoms=[1]), dict(fixcom=False, fixatoms=[0, 2]), dict(fixcom=False, fixdof=[0, 4, 8]), dict(fixcom=False, fixatoms=[0, 1, 2])]


def runs(tier):
    q = tier == "quick"
    out = []

    def add(**k):
        if k not in out:
            out.append(k)

    for nb, fx in itertools.product((1, 2, 3) if q else (1, 2, 3, 4, 5), FIX):
        allfixed = len(fx.get("fixatoms", [])) == 3
        for ens in ("nve", "sc", "nvt-cc"):
            if ens == "sc" and nb != 2 and nb != 4:
                continue
            add(ens=ens, nbeads=nb, **fx)
            if ens == "sc":
                add(ens=ens, nbeads=nb, thermo="langevin", split="baoab", **fx)
                add(ens=ens, nbeads=nb, thermo="langevin", forces="mts", nmts=(2, 3), fb=nb, bias=1, **fx)
        for th in ("langevin", "svr", "pile_l", "pile_g", "gle", "nm_gle", "cl_off", "ffl_rescale", "multi:langevin+svr") if not allfixed else ("langevin", "pile_g"):
            for sp in ("obabo", "baoab"):
                if q and nb == 3 and sp == "baoab" and th not in ("langevin", "pile_l"):
                    continue
                add(ens="nvt", thermo=th, nbeads=nb, split=sp, **fx)
        if allfixed:
            continue
        add(ens="nvt", thermo="langevin", nbeads=nb, forces="mts", nmts=(2, 3), bias=1, **fx)
        add(ens="nvt", thermo="langevin", nbeads=nb, split="baoab", forces="mts", nmts=(3, 2), bias=1, **fx)
        add(ens="nvt-cc", thermo="langevin", nbeads=nb, **fx)
        if nb > 1:
            for nm in (PACMD, MAN, OPEN, CAY, BAB, dict(OPEN, **PACMD)):
                add(ens="nvt", thermo="pile_l", nbeads=nb, nm=nm, **fx)
            add(ens="nvt", thermo="pile_l", nbeads=nb, hweights=0.6, **fx)
        for opt in ("sd", "cg", "bfgs", "bfgstrm", "lbfgs"):
            if nb == 1 and not fx.get("fixcom"):
                add(motion="minimize", opt=opt, nbeads=nb, **fx)
        if nb == 1:
            add(motion="driven", nbeads=nb, **fx)
    for (ens, baro), nb, sp, bt in itertools.product((("npt", "isotropic"), ("npt", "flexible"), ("nst", "anisotropic"), ("scnpt", "sc-isotropic")), (1, 2), ("obabo", "baoab"), ("langevin", "svr", "none")):
        if ens == "scnpt" and nb == 1:
            continue
        if bt == "svr" and q and nb == 2:
            continue
        add(ens=ens, baro=baro, bthermo=bt, thermo="langevin", nbeads=nb, split=sp, fixcom=True)
        if baro in ("flexible", "anisotropic"):
            for hf in (("offdiagonal",), ("xy",), ("xx",), ("xx", "yy", "offdiagonal"), ("xz", "yz"), ("zz", "xy")):
                add(ens=ens, baro=baro, bthermo=bt, thermo="langevin", nbeads=nb, split=sp, hfix=hf, fixcom=False)
        if baro == "flexible":
            add(ens=ens, baro=baro, bthermo=bt, thermo="langevin", nbeads=nb, split=sp, volc=True, fixcom=False)
            add(ens=ens, baro=baro, bthermo=bt, thermo="langevin", nbeads=nb, split=sp, volc=True, hfix=("xy",), fixcom=False)
    return out


CONS = {
    "bond": "<constraint mode='distance'><atoms shape='(2)'>[ 0, 1 ]</atoms></constraint>",
    "bondval": "<constraint mode='distance'><atoms shape='(2)'>[ 0, 1 ]</atoms><values shape='(1)'>[ 2.6 ]</values></constraint>",
    "two": "<constraint mode='distance'><atoms shape='(2)'>[ 0, 1 ]</atoms></constraint><constraint mode='distance'><atoms shape='(2)'>[ 2, 3 ]</atoms></constraint>",
    "pair": "<constraint mode='distance'><atoms shape='(4)'>[ 0, 1, 0, 2 ]</atoms></constraint>",
    "angle": "<constraint mode='angle'><atoms shape='(3)'>[ 0, 1, 2 ]</atoms></constraint>",
    "rigid": "<constraint mode='multi'><constraint mode='distance'><atoms shape='(4)'>[ 0, 1, 0, 2 ]</atoms></constraint><constraint mode='angle'><atoms shape='(3)'>[ 0, 1, 2 ]</atoms></constraint></constraint>",
    "eckart": "<constraint mode='eckart'><atoms shape='(3)'>[ 0, 1, 2 ]</atoms></constraint>",
}


def items(tier):
    q = tier == "quick"
    out = [dict(kind="run", cfg=c, n=4 if q else 12) for c in runs(tier)]
    for cons, split, geo, mts in itertools.product(CONS, ("obabo", "baoab"), (1, 3), (None, (1, 2), (3, 2))):
        for th in ("none", "langevin", "gle"):
            if q and (geo == 3 or mts == (3, 2)) and (th == "gle" or cons in ("two", "bondval")):
                continue
            if q and geo == 3 and mts is not None or q and th == "gle" and split == "baoab":
                continue
            for fc in (False, True):
                if fc and (cons == "eckart" or q and (mts == (3, 2) or th == "gle")):
                    continue
                out.append(dict(kind="cons", cons=cons, split=split, geo=geo, mts=mts, th=th, fixcom=fc, n=4 if q else 12))
    for nb in (1, 2, 3) if q else (1, 2, 3, 4, 5):
        for ens in ("nvt", "nvt-cc"):
            for fx in [dict(fixcom=False)] + FIX[:4]:
                out.append(dict(kind="temp", cfg=dict(ens=ens, thermo="langevin", nbeads=nb, **fx)))
                if nb == 3:
                    out.append(dict(kind="temp", cfg=dict(ens=ens, thermo="pile_l", nbeads=nb, nm=PACMD, **fx)))
    return out


def fixed_dofs(c):
    f = []
    for a in c.get("fixatoms", []):
        f += [3 * a, 3 * a + 1, 3 * a + 2]
    return sorted(set(f + list(c.get("fixdof", []))))


def run(item):
    r = Result()
    r.outcome(item["kind"])
    if item["kind"] == "temp":
        run_temp(item, r)
    elif item["kind"] == "cons":
        run_cons(item, r)
    else:
        run_run(item, r)
    return r


def run_run(item, r):
    c = item["cfg"]
    key = name(c)
    s = sim.load(configs.xml(c, 100000))
    y = s.syslist[0]
    b = y.beads
    m3 = np.array(b.m3)
    P = b.nbeads
    fd = fixed_dofs(c)
    # the initial momenta point also along what is going to be constrained
    q0 = np.array(b.q)
    h0 = np.array(y.cell.h)
    free = [i for i in range(3 * b.natoms) if i not in fd]
    kick = np.sqrt(m3 * configs.T) * (0.4 + np.sin(np.arange(q0.size)).reshape(q0.shape))
    b.p = kick
    ba = getattr(y.motion, "barostat", None)
    if c.get("baro"):
        m = float(np.array(ba.m).flat[0])
        shape = np.array(ba.p).shape
        ba.p = np.triu(np.array([[0.3, 0.12, -0.2], [0, -0.25, 0.15], [0, 0, 0.4]])) * np.sqrt(m) * 0.05 if shape == (3, 3) else np.full(shape, 0.3 * np.sqrt(m) * 0.05)
    if hasattr(y.motion, "integrator"):
        y.motion.integrator.pconstraints()
    moved = np.zeros(len(free), bool)
    for n in range(item["n"]):
        sim.advance(s, 1)
        r.transitions += 1
        q, p = np.array(b.q), np.array(b.p)
        if not (np.all(np.isfinite(q)) and np.all(np.isfinite(p))):
            r.fail("nan:" + key, "positions or momenta are undefined after step %d" % n, {})
            return
        r.state(key, n, q.round(9).tolist())
        if fd and not c.get("baro"):
            d = np.abs(q - q0)[:, fd].max()
            if d > 1e-10:
                r.fail("fixatoms:q:" + key, "fixed coordinates have moved by %.1e after %d steps" % (d, n + 1), {})
            if c.get("motion") in (None, "driven") and np.abs(p[:, fd]).max() > 1e-10:
                r.fail("fixatoms:p:" + key, "fixed coordinates have momentum %.1e after %d steps" % (np.abs(p[:, fd]).max(), n + 1), {})
        if free:
            moved |= np.abs(q - q0)[:, free].max(axis=0) > 1e-9
        if c.get("fixcom"):
            pc = p.reshape(-1, 3).sum(axis=0)
            if np.abs(pc).max() > 1e-9 * np.abs(p).sum() + 1e-12:
                r.fail("fixcom:p:" + key, "the centre of mass has momentum %.1e after %d steps" % (np.abs(pc).max(), n + 1), {})
            if not c.get("baro"):
                com = ((q - q0) * m3).reshape(-1, 3).sum(axis=0) / m3.sum() * 3
                if np.abs(com).max() > 1e-9:
                    r.fail("fixcom:q:" + key, "the centre of mass has moved by %.1e after %d steps" % (np.abs(com).max(), n + 1), {})
        if c.get("ens") == "nvt-cc":
            d = np.abs(q.mean(axis=0) - q0.mean(axis=0)).max()
            if d > 1e-9:
                r.fail("centroid:q:" + key, "a fixed centroid has moved by %.1e after %d steps" % (d, n + 1), {})
            if np.abs(p.mean(axis=0)).max() > 1e-9 * np.abs(p).max() + 1e-12:
                r.fail("centroid:p:" + key, "a fixed centroid has momentum after %d steps" % (n + 1), {})
        if c.get("baro"):
            h = np.array(y.cell.h)
            for i, nme in enumerate(("xx", "yy", "zz", "xy", "xz", "yz")):
                ij = [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)][i]
                if nme in c.get("hfix", ()) or (i > 2 and "offdiagonal" in c.get("hfix", ())):
                    if abs(_cellv(h0, h)[ij]) > 1e-9:
                        r.fail("hfix:" + key, "the fixed component %s of the cell deformation is %.1e after %d steps" % (nme, _cellv(h0, h)[ij], n + 1), {})
            if c.get("volc") and abs(np.linalg.det(h) / np.linalg.det(h0) - 1) > 1e-9:
                r.fail("volume:" + key, "the fixed volume has changed by a factor %.3e" % (np.linalg.det(h) / np.linalg.det(h0)), {})
            if np.abs(np.tril(h, -1)).max() > 1e-10:
                r.fail("triangular:" + key, "the cell is not upper triangular any more", {})
    if free and c.get("ens") != "nvt-cc" and not np.all(moved):
        r.fail("free:" + key, "coordinates %s are not fixed but do not move" % [free[i] for i in np.where(~moved)[0]], {})
    r.traces += 1


def _cellv(h0, h):
    """Deformation h h0^-1 minus one.  (xz alone is never fixed here: it can arise from xy and yz.)"""
    return h @ np.linalg.inv(h0) - np.eye(3)


def cons_values(q, cons):
    def dist(i, j):
        return np.linalg.norm(q[i] - q[j])

    def ang(i, j, k):
        a, b = q[j] - q[i], q[k] - q[i]
        return np.arccos(a @ b / np.linalg.norm(a) / np.linalg.norm(b))

    if cons in ("bond", "bondval"):
        return [dist(0, 1)]
    if cons == "two":
        return [dist(0, 1), dist(2, 3)]
    if cons == "pair":
        return [dist(0, 1), dist(0, 2)]
    if cons == "angle":
        return [ang(0, 1, 2)]
    if cons == "rigid":
        return [dist(0, 1), dist(0, 2), ang(0, 1, 2)]
    return []


def cons_load(it, dt):
    mts = it["mts"]
    nm = "" if mts is None else "<nmts shape='(2)'>[ %d, %d ]</nmts>" % tuple(mts)
    mo = (
        "<motion mode='constrained_dynamics'><fixcom>%s</fixcom><constrained_dynamics mode='%s' splitting='%s'><timestep>%r</timestep><nsteps_geo>%d</nsteps_geo>"
        "<nsteps_o>2</nsteps_o><csolver><tolerance>1e-13</tolerance></csolver>%s%s%s</constrained_dynamics></motion>"
        % (it["fixcom"], "nve" if it["th"] == "none" else "nvt", it["split"], dt, it["geo"], nm, configs.thermostat(it["th"], 1), CONS[it["cons"]])
    )
    c = dict(pes="ti") if it["fixcom"] else {}
    if mts is not None:
        c["forces"] = "mts"
    x = sim.simulation_xml(configs.forcefields(c), sim.system_xml(mo, natoms=4, nbeads=1, temp=configs.T, ff=configs.forces(c)), steps=100000)
    return sim.load(x)


def run_cons(it, r):
    key = "cons:%s,%s,geo=%d,mts=%s,%s,fixcom=%s" % (it["cons"], it["split"], it["geo"], it["mts"], it["th"], it["fixcom"])
    if it["cons"] == "angle" or it["cons"] == "rigid":
        pass
    drift = []
    for dt in (8.0, 2.0):
        s = cons_load(it, dt)
        y = s.syslist[0]
        b = y.beads
        q0 = np.array(b.q)[0].reshape(-1, 3)
        v0 = cons_values(q0, it["cons"])
        if it["cons"] == "bondval":
            v0 = [2.6]
        m = np.array(b.m)
        com0 = m @ q0 / m.sum()
        e = []
        N = int(it["n"] * 8 / dt)
        for n in range(N):
            sim.advance(s, 1)
            r.transitions += 1
            q = np.array(b.q)[0].reshape(-1, 3)
            p = np.array(b.p)[0].reshape(-1, 3)
            if not np.all(np.isfinite(q)):
                r.fail("nan:" + key, "positions are undefined", {})
                return
            v = cons_values(q, it["cons"])
            if v and np.abs(np.array(v) - v0).max() > 1e-7:
                r.fail("value:" + key, "a constrained value has changed by %.1e after %d steps" % (np.abs(np.array(v) - v0).max(), n + 1), {})
            # velocities along the constraint vanish
            if v:
                eps = 1e-5
                vp = cons_values(q + eps * p / m[:, None], it["cons"])
                vm = cons_values(q - eps * p / m[:, None], it["cons"])
                g = np.abs(np.array(vp) - vm).max() / (2 * eps)
                if g > 1e-8:
                    r.fail("velocity:" + key, "a constrained value has velocity %.1e after %d steps" % (g, n + 1), {})
            else:
                # Eckart: no translation and no rotation (in the linear sense) of the molecule
                d = (m[:3, None] * (q - q0)[:3]).sum(axis=0)
                c0 = (m[:3, None] * q0[:3]).sum(axis=0) / m[:3].sum()
                rot = (m[:3, None] * np.cross(q0[:3] - c0, q[:3] - q0[:3])).sum(axis=0)
                if np.abs(d).max() / m.sum() > 1e-7 or np.abs(rot).max() / m.sum() > 1e-6:
                    r.fail("value:" + key, "the Eckart conditions are violated after %d steps" % (n + 1), {})
            if it["fixcom"]:
                if np.abs(m @ q / m.sum() - com0).max() > 1e-8 and it["cons"] != "bondval" or np.abs(p.sum(axis=0)).max() > 1e-9:
                    r.fail("fixcom:" + key, "the centre of mass moves", {})
            if n * dt >= 8.0:
                e.append(float(y.ensemble.econs))
            r.state(key, dt, n, q.round(9).tolist())
        drift.append(max(e) - min(e))
    if not drift[1] < (max(1e-9, drift[0] / 6.0) if it["th"] == "none" else max(5e-8, drift[0] / 3.0)):
        r.fail("energy:" + key, "spread of the conserved quantity does not vanish with the time step: %.2e at 8, %.2e at 2" % tuple(drift), {})
    r.traces += 1


def run_temp(item, r):
    c = item["cfg"]
    key = name(c)
    s = sim.load(configs.xml(c, 10))
    y = s.syslist[0]
    b, nm = y.beads, y.nm
    P, n3 = b.nbeads, 3 * b.natoms
    N = P * n3
    m = np.array(nm.dynm3).flatten()
    C = np.diag(m * configs.T * P)
    # directions removed by the constraints, in mode space: the allowed momenta are p = B z
    rows = []
    fd = fixed_dofs(c)
    for k in range(P):
        for f in fd:
            e = np.zeros(N)
            e[k * n3 + f] = 1
            rows.append(e)
    if c["ens"] == "nvt-cc":
        for f in range(n3):
            e = np.zeros(N)
            e[f] = 1
            rows.append(e)
    if c.get("fixcom"):
        for x in range(3):
            e = np.zeros(N)
            e[x:n3:3] = 1
            rows.append(e)
    sq = np.sqrt(np.diag(C))
    L = np.diag(sq)
    if rows:
        A = np.array(rows) * sq[None, :]
        u, sv, vt = np.linalg.svd(A)
        rank = int((sv > 1e-9 * sv.max()).sum())
        L = L @ vt[rank:].T  # columns: allowed directions with canonical weight
    prop = y.properties
    # momenta obeying the constraints only
    args = [{}]
    names = sorted(set(np.array(b.names).tolist()))
    args += [dict(atom=str(i)) for i in range(b.natoms)] + [dict(atom=x) for x in names]
    if P > 1:
        args += [dict(nm=str(k)) for k in range(P)] + [dict(bead=str(k)) for k in range(P)]
        args += [dict(atom=str(i), nm=str(k)) for i in range(b.natoms) for k in range(P)]
    for a in args:
        kw = ";".join("%s=%s" % kv for kv in a.items())

        def val():
            return float(np.atleast_1d(prop["temperature" + ("(" + kw + ")" if kw else "")][0])[0])

        nm.pnm = np.zeros((P, n3))
        if "bead" in a and "nm" in c:
            continue  # refused by the program: masses differ
        z = val()
        tot = z
        for j in range(L.shape[1]):
            nm.pnm = L[:, j].reshape(P, n3)
            tot += val() - z
            r.transitions += 1
        exp = configs.T
        if not np.isfinite(tot) or abs(tot / exp - 1) > 1e-9:
            r.fail("temp:%s:%s" % (key, a), "the mean of temperature%s over the canonical distribution is %.6f of the set temperature" % (a or "", tot / exp), {})
        r.state(key, str(a))
        r.traces += 1
