"""C10: every integrator conserves what it says it conserves and can be run backwards.

Real simulations over the full grid of ensembles, force decompositions, multiple time
steps, splittings, biases, weights, path dynamics and barostats.  Per configuration:
(a) "reverse": n steps, momenta reversed, n steps return to the starting point;
(b) "order": the largest deviation of the conserved quantity over a fixed time must
    vanish as the square of the time step (3 time steps);
(c) "heat": with thermostats the conserved quantity, which contains the heat exchanged,
    must still converge with the time step;
(d) "const": with forces that do not depend on the position, every multiple-time-step
    schedule must give the exact parabola.
"""

import itertools
import os

import numpy as np

from vlib import configs, sim
from vlib.core import Result, digest

PROPERTY = "C10"
LEVEL = "model_checking"
TIMEOUT = 300.0
RULE = (
    "one case per configuration of the grid; states are distinct (configuration, step, time step) phase-space points visited; "
    "transitions are integration steps executed by the real engine"
)
ASSUMPTIONS = [
    "the asymptotic order is read off three time steps on a smooth potential",
    "with fixcom the potential is translationally invariant",
]
BOUNDS = {
    "quick": "grid of ~300 configurations, 4 steps forwards and backwards, time steps 12, 6, 3 over 48-96 units of time",
    "thorough": "grid of ~1500 configurations, 8 steps forwards and backwards, time steps 12, 6, 3, 1.5 over 144 units of time",
}


def name(c):
    return ",".join("%s=%s" % (k, str(c[k]).replace(" ", "")) for k in sorted(c))


OPEN = {"open": [0], "transform": "matrix"}
PACMD = {"freqs": ("pa-cmd", [0.01])}
WMAX = {"freqs": ("wmax-cmd", [0.01, 0.008])}
MAN = {"freqs": ("manual", "manual")}
CAY = {"prop": "cayley"}
BAB = {"prop": "bab", "nmts": 6}


def dets(tier):
    """Configurations without any thermostat."""
    q = tier == "quick"
    out = []

    def add(**k):
        k.setdefault("fixcom", False)
        if k not in out:
            out.append(k)

    nbs = (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6)
    for ens, nb in itertools.product(("nve", "sc"), nbs):
        if ens == "sc" and nb % 2:
            continue
        for bias, hw in itertools.product((0, 1), (None, 0.6)):
            for f in (None, "rpc", "mts", "mts3"):
                if ens == "sc" and f not in (None, "mts"):
                    continue
                k = dict(ens=ens, nbeads=nb)
                if bias:
                    k["bias"] = 1
                if hw is not None:
                    if f is not None:
                        continue
                    k["hweights"] = hw
                if f is None:
                    add(**k)
                    continue
                k["forces"] = f
                if f == "rpc":
                    add(**k)
                elif f == "mts":
                    if ens == "sc":
                        k["fb"] = nb
                    for n in [(1, 2), (2, 1), (2, 3), (3, 2)] if not q or nb == 2 else [(1, 2), (3, 2)]:
                        add(**k, nmts=n)
                else:
                    for n in [(2, 3, 2), (1, 2, 1)] if not q or nb == 2 else [(2, 3, 2)]:
                        add(**k, nmts=n)
        for nm in (OPEN, PACMD, WMAX, MAN, CAY, BAB, dict(OPEN, **PACMD), dict(CAY, **PACMD), dict(BAB, **WMAX), dict(OPEN, **CAY)):
            if nb == 1 or (nb == 2 and q and nm not in (OPEN, PACMD)):
                continue
            add(ens=ens, nbeads=nb, nm=nm)
        for split in ("baoab",):
            add(ens="nvt" if ens == "nve" else "sc", nbeads=nb, split=split)
            if ens == "nve" or nb == 2:
                add(ens="nvt" if ens == "nve" else "sc", nbeads=nb, split=split, forces="mts", nmts=(3, 2), fb=nb)
                add(ens="nvt" if ens == "nve" else "sc", nbeads=nb, split=split, forces="mts", nmts=(2, 3), fb=nb)
        # constraints
        add(ens=ens, nbeads=nb, fixcom=True, pes="ti")
        add(ens=ens, nbeads=nb, fixatoms=[1])
        add(ens=ens, nbeads=nb, fixdof=[0, 4, 8])
        add(ens=ens, nbeads=nb, fixatoms=[1], bias=1)
        if ens == "nve":
            add(ens=ens, nbeads=nb, fixcom=True, pes="ti", forces="mts", nmts=(2, 3))
            add(ens=ens, nbeads=nb, fixatoms=[0], forces="mts", nmts=(2, 3), bias=1)
    # constant pressure, nothing thermostatted
    for nb in (1, 2) if q else (1, 2, 3, 4):
        for ens, baro in (("npt", "isotropic"), ("npt", "flexible"), ("nst", "anisotropic"), ("scnpt", "sc-isotropic")):
            if ens == "scnpt" and nb % 2:
                continue
            base = dict(ens=ens, baro=baro, bthermo="none", nbeads=nb)
            add(**base)
            add(**base, bias=1)
            add(**base, hweights=0.6)
            add(**base, split="baoab")
            if ens != "scnpt":
                add(**base, forces="rpc")
            for n in ((1, 2), (2, 3)):
                add(**base, forces="mts", nmts=n, fb=nb)
            add(**base, fixcom=True, pes="ti")
            add(**base, fixatoms=[1])
            if nb > 1:
                add(**base, nm=PACMD)
                add(**base, nm=OPEN)
            if baro in ("flexible", "anisotropic"):
                for hf in (("offdiagonal",), ("xy",), ("xx",), ("xx", "yy", "offdiagonal"), ("xz", "yz")) if nb == 1 or not q else (("offdiagonal",),):
                    add(**base, hfix=hf)
            if baro == "flexible":
                add(**base, volc=True)
                add(**base, volc=True, hfix=("xz",))
    return out


THERMOS = ["langevin", "svr", "pile_l", "pile_g", "pile_l_ct", "gle", "gle_c", "nm_gle", "nm_gle_c", "nm_gle_g", "cl_plain", "cl", "ffl_rescale",
           "ffl_hard", "ffl_soft", "ffl_none", "multi:langevin+svr", "multi:gle+langevin"]


def heats(tier):
    q = tier == "quick"
    out = []

    def add(**k):
        k.setdefault("fixcom", False)
        if k not in out:
            out.append(k)

    for th in THERMOS:
        for nb in (1, 3):
            if nb == 1 and th.startswith(("pile", "nm_gle")):
                continue
            for split in ("obabo", "baoab"):
                add(ens="nvt", thermo=th, nbeads=nb, split=split)
            add(ens="nvt", thermo=th, nbeads=nb, fixatoms=[1]) if th not in ("nm_gle_g",) else None
            add(ens="nvt", thermo=th, nbeads=nb, fixcom=True, pes="ti")
            add(ens="nvt", thermo=th, nbeads=nb, forces="mts", nmts=(2, 3), bias=1)
            if nb > 1:
                add(ens="nvt", thermo=th, nbeads=nb, nm=PACMD)
        add(ens="sc", thermo=th, nbeads=2)
        if not th.startswith("pile_g") or not q:
            add(ens="nvt-cc", thermo=th, nbeads=3)
        if th in ("langevin", "pile_g"):
            add(ens="nvt-cc", thermo=th, nbeads=3, bias=1)
            add(ens="nvt-cc", thermo=th, nbeads=4, nm=PACMD)
            add(ens="nvt-cc", thermo=th, nbeads=3, hweights=0.6)
    for ens, baro in (("npt", "isotropic"), ("npt", "flexible"), ("nst", "anisotropic"), ("scnpt", "sc-isotropic")):
        for bt in ("none", "langevin", "gle", "svr"):
            for th in ("none", "langevin", "pile_l") if q else ("none", "langevin", "pile_l", "gle", "svr", "pile_g"):
                for split in ("obabo", "baoab"):
                    if bt == "none" and th == "none":
                        continue
                    if bt == "svr" and baro == "isotropic":
                        pass
                    add(ens=ens, baro=baro, bthermo=bt, thermo=th, nbeads=2, split=split)
    return out


def items(tier):
    q = tier == "quick"
    out = []
    for c in dets(tier):
        out.append(dict(kind="det", cfg=c, n=4 if q else 8, T=48.0 if q else 144.0, dts=[12.0, 6.0, 3.0] if q else [12.0, 6.0, 3.0, 1.5]))
    for c in heats(tier):
        out.append(dict(kind="heat", cfg=c, T=48.0 if q else 144.0, dts=[12.0, 3.0, 0.75]))
    for split, levels in itertools.product(("obabo", "baoab"), (1, 2, 3)):
        out.append(dict(kind="const", split=split, levels=levels, top=4 if q else 6))
    return out


def flip(s):
    m = s.syslist[0].motion
    s.syslist[0].beads.p = -np.array(s.syslist[0].beads.p)
    if hasattr(m, "barostat") and hasattr(m.barostat, "p"):
        m.barostat.p = -np.array(m.barostat.p)


def point(s):
    y = s.syslist[0]
    out = [np.array(y.beads.q).flatten(), np.array(y.beads.p).flatten(), np.array(y.cell.h).flatten()]
    if hasattr(y.motion.barostat, "p"):
        out.append(np.array(y.motion.barostat.p, float).flatten())
    return out


def seedbaro(s, c):
    b = s.syslist[0].motion.barostat
    if not hasattr(b, "p"):
        return
    p = np.array(b.p, float)
    if p.shape == (3, 3):
        x = np.triu(np.array([[0.3, 0.12, -0.2], [0, -0.25, 0.15], [0, 0, 0.4]])) * np.sqrt(float(np.array(b.m).flat[0])) * 0.15
        if c.get("volc"):
            x = x - np.eye(3) * np.trace(x) / 3
        b.p = x * np.array(b.hmask)
        if c.get("volc"):
            b.p = np.array(b.p) - np.eye(3) * np.trace(np.array(b.p)) / 3
    else:
        b.p = np.full(p.shape, 0.3 * np.sqrt(float(np.array(b.m).flat[0])) * 0.15)


def start(c, dt, seed=True):
    s = sim.load(configs.xml(dict(c, dt=dt), 100000))
    if seed:
        seedbaro(s, c)
    return s


def energy(s, c):
    """Independent conserved quantity for cells with fixed components (no thermostats)."""
    b = s.syslist[0].motion.barostat
    x = float(s.syslist[0].ensemble.econs) - float(b.thermostat.ethermo)
    hm = np.array(b.hmask)
    h = np.array(s.syslist[0].cell.h)
    L = [hm[i, i:].sum() for i in range(3)]
    return x - float(b.cell_jacobian) - configs.T * c["nbeads"] * sum(L[i] * np.log(h[i, i]) for i in range(3))


def drift(c, dt, T, r, own=False):
    s = start(c, dt)
    e = s.syslist[0].ensemble
    # the very first constraint projection is bookkeeping of the initial conditions
    sim.advance(s, 1)
    e0 = energy(s, c) if own else float(e.econs)
    m = 0.0
    for k in range(int(round(T / dt))):
        sim.advance(s, 1)
        x = energy(s, c) if own else float(e.econs)
        if not np.isfinite(x):
            return float("inf"), s
        m = max(m, abs(x - e0))
        r.transitions += 1
    r.state(name(c), dt, [x.round(9).tolist() for x in point(s)])
    return m, s


def conserved(c, item, r, lim, own=False):
    d = []
    for dt in item["dts"]:
        m, s = drift(c, dt, item["T"], r, own)
        d.append(m)
    r.traces += 1
    floor = 2e-10
    bad = []
    if item["kind"] == "heat":
        # the noise differs between time steps: only the overall trend is meaningful
        if not d[-1] < max(floor, max(d[:-1]) / 8.0):
            bad.append(d)
        return d, bad
    for a, b in zip(d, d[1:]):
        if b > floor and not b < lim * a:
            bad.append((a, b))
    return d, bad


def run(item):
    r = Result()
    k = item["kind"]
    if k == "const":
        run_const(item, r)
        return r
    c = item["cfg"]
    if k == "det":
        s = start(c, configs.DT)
        m = s.syslist[0].motion
        m.integrator.pconstraints()
        a = point(s)
        for i in range(item["n"]):
            sim.advance(s, 1)
            r.transitions += 1
            r.state(name(c), i, [x.round(9).tolist() for x in point(s)])
        flip(s)
        for i in range(item["n"]):
            sim.advance(s, 1)
            r.transitions += 1
        flip(s)
        b = point(s)
        err = max(np.abs(x - y).max() / (np.abs(x).max() + 1e-12) for x, y in zip(a, b))
        if not err < 1e-7:
            r.fail("reverse:" + name(c), "%d steps forwards and %d backwards end %.1e away from the start (%s)" % (item["n"], item["n"], err, name(c)), {"cfg": c})
        d, bad = conserved(c, item, r, 0.36)
        nm = name(c)
        if c.get("hfix") or c.get("volc"):
            # the reported value is a known finding; the motion itself must conserve the right one
            nm = "%s,hfix=%s%s" % (c["baro"], "+".join(c.get("hfix", ())), ",volc" if c.get("volc") else "")
            d2, bad2 = conserved(c, item, r, 0.36, True)
            if bad2:
                r.fail("motion:" + name(c), "deviation of the energy of a partly fixed cell for time steps %s: %s (not second order; %s)" % (item["dts"], ["%.2e" % x for x in d2], name(c)), {"cfg": c})
        if bad:
            r.fail("order:" + nm, "deviation of the conserved quantity for time steps %s: %s (not second order; %s)" % (item["dts"], ["%.2e" % x for x in d], name(c)), {"cfg": c})
        r.outcome("det:%s" % c["ens"])
    else:
        d, bad = conserved(c, item, r, 0.35)
        nm = name(c)
        if c.get("nm") == PACMD and not c["thermo"].startswith(("pile", "nm_gle")):
            nm = "bead-thermostat-scaled-masses:" + c["thermo"]
        if bad:
            r.fail("heat:" + nm, "deviation of the conserved quantity for time steps %s: %s (does not converge; %s)" % (item["dts"], ["%.2e" % x for x in d], name(c)), {"cfg": c})
        r.outcome("heat:%s" % c["ens"])
    return r


CONST_PES = '''
import numpy as np
__DRIVER_NAME__ = "custom"
__DRIVER_CLASS__ = "C"
class C:
    def __init__(self, verbose=False, **kw):
        self.f = float(kw.get("f", 0.0))
    def one(self, cell, pos):
        f = self.f * np.array([1.0, -0.7, 0.4]) * (1 + np.arange(len(pos)))[:, None]
        return -float((f * pos).sum()), f, f.T @ pos, ""
    def __call__(self, cell, pos):
        if isinstance(cell, list):
            return [self.one(c, p) for c, p in zip(cell, pos)]
        return self.one(cell, pos)
'''


def run_const(item, r):
    with open("const.py", "w") as f:
        f.write(CONST_PES)
    L = item["levels"]
    top = item["top"]
    dt = 8.0
    for nmts in itertools.product(range(1, top + 1), repeat=L):
        fs = [0.004, -0.0013, 0.0021][:L]
        ff = "".join(sim.ff_xml("f%d" % i, dict(f=fs[i]), pes=os.path.abspath("const.py")) for i in range(L))
        forces = "".join("<force forcefield='f%d'><mts_weights shape='(%d)'>[ %s ]</mts_weights></force>" % (i, L, ", ".join("1" if j == i else "0" for j in range(L))) for i in range(L))
        mo = "<motion mode='dynamics'><fixcom>False</fixcom><dynamics mode='nvt' splitting='%s'><timestep>%r</timestep><nmts shape='(%d)'>[ %s ]</nmts></dynamics></motion>" % (
            item["split"], dt, L, ", ".join(map(str, nmts)))
        s = sim.load(sim.simulation_xml(ff, sim.system_xml(mo, natoms=2, nbeads=1, ff=forces, temp=0.003)))
        b = s.syslist[0].beads
        q0, p0, m = np.array(b.q), np.array(b.p), np.array(b.m3)
        F = sum(fs) * (np.array([1.0, -0.7, 0.4]) * (1 + np.arange(2))[:, None]).flatten()
        for n in range(1, 3):
            sim.advance(s, 1)
            t = n * dt
            r.transitions += 1
            q, p = q0 + p0 * t / m + 0.5 * F * t * t / m, p0 + F * t
            if np.abs(np.array(b.p) - p).max() > 1e-9:
                r.fail("const:p:%s" % item["split"], "with nmts=%s constant forces change the momentum by a wrong amount in one step (off by %.1e)" % (nmts, np.abs(np.array(b.p) - p).max()), {"nmts": nmts})
            if np.abs(np.array(b.q) - q).max() > 1e-9:
                r.fail("const:q:%s" % item["split"], "with nmts=%s constant forces do not give a parabola (off by %.1e)" % (nmts, np.abs(np.array(b.q) - q).max()), {"nmts": nmts})
        r.traces += 1
        r.state("const", item["split"], nmts)
    r.outcome("const")
