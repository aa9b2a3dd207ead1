"""C11: thermostats leave the canonical distribution of the momenta invariant.

Real thermostats, built and bound by the real engine, are driven with a generator whose
numbers are prescribed.  A thermostat step is a map of (momenta, auxiliary variables,
random numbers): for linear thermostats its matrices are read off on a complete basis of
states and of random numbers, which decides the distribution after the step exactly; for
velocity rescaling and fast-forward Langevin the dependence on every single random number
is read off and compared with the exact process.
"""

import itertools

import numpy as np
import scipy.linalg as sl

from vlib import configs, sim, noise
from vlib.core import Result

PROPERTY = "C11"
LEVEL = "model_checking"
TIMEOUT = 300.0
RULE = (
    "one case per (thermostat, beads, path dynamics, constraint); inside it all time steps x temperatures x basis states x single random numbers; "
    "states are distinct (case, time step, temperature) settings, transitions are thermostat steps executed"
)
ASSUMPTIONS = [
    "the random numbers are independent standard normal, gamma and uniform variates",
    "linear thermostats: images of a complete basis decide the map",
]
BOUNDS = {
    "quick": "16 thermostats, 1-4 beads, 2 atoms, 4 path-dynamics styles, 3 time steps, 2 temperatures, complete bases; all octants for fast-forward Langevin",
    "thorough": "as quick with 1-6 beads, 3 atoms, 5 time steps",
}
PACMD = {"freqs": ("pa-cmd", [0.01])}
WMAX = {"freqs": ("wmax-cmd", [0.01, 0.008])}
MAN = {"freqs": ("manual", "manual")}
OPEN = {"open": [0], "transform": "matrix"}
LIN = ["langevin", "pile_l", "pile_l_ct", "gle", "gle2", "gle_c", "nm_gle", "nm_gle_c", "cl_off", "ffl_none", "multi:langevin+gle", "multi:pile_l+langevin", "multi:nm_gle+pile_l"]
SVR = ["svr", "pile_g", "pile_g_ct", "nm_gle_g", "multi:langevin+svr", "multi:langevin+pile_g", "multi:gle+pile_g_ct"]


def name(c):
    return ",".join("%s=%s" % (k, str(c[k]).replace(" ", "")) for k in sorted(c))


def items(tier):
    q = tier == "quick"
    out = []
    nat = 2 if q else 3
    nbs = (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6)
    dts = [2.0, 40.0, 900.0] if q else [0.5, 2.0, 12.0, 40.0, 900.0]
    for th, nb in itertools.product(LIN, nbs):
        if q and (nb > 2 and th in ("ffl_none", "cl_off", "gle2") or nb > 3 and not th.startswith("pile")):
            continue
        nms = [None]
        if nb > 1 and th.startswith(("pile", "nm_gle")):
            nms += [PACMD, MAN, OPEN] if nb != 3 else [PACMD, WMAX, MAN, OPEN]
        for nm in nms:
            c = dict(ens="nvt", thermo=th, nbeads=nb, natoms=nat, fixcom=False)
            if nm:
                c["nm"] = nm
            out.append(dict(kind="lin", cfg=c, dts=dts))
    for th, nb in itertools.product(SVR, nbs):
        if q and nb > 3 and th.startswith("multi"):
            continue
        for fx in (dict(fixcom=False), dict(fixcom=True), dict(fixatoms=[1]), dict(fixdof=[0, 4]), dict(fixdof=[2])):
            if th == "nm_gle_g" and (fx.get("fixatoms") or fx.get("fixdof")):
                continue  # refused by the program
            c = dict(ens="nvt", thermo=th, nbeads=nb, natoms=nat, **fx)
            out.append(dict(kind="svr", cfg=c, dts=dts[:3]))
            if nb == 3 and th in ("pile_g", "nm_gle_g") and fx == dict(fixcom=False):
                for nm in (PACMD, OPEN):
                    out.append(dict(kind="svr", cfg=dict(c, nm=nm), dts=dts[:3]))
    for th, nb in itertools.product(("ffl_rescale", "ffl_hard", "ffl_soft", "ffl_none"), (1, 2)):
        out.append(dict(kind="ffl", cfg=dict(ens="nvt", thermo=th, nbeads=nb, natoms=2, fixcom=False), dts=dts[:3]))
    for th, nb in itertools.product(("cl_off", "cl_in", "cl_id", "cl_plain"), (1, 2)):
        out.append(dict(kind="cl", cfg=dict(ens="nvt", thermo=th, nbeads=nb, natoms=2, fixcom=False), dts=dts))
    # the engine applies the thermostat for the right time
    for split, nb, mts in itertools.product(("obabo", "baoab"), (1, 2, 3), (None, (2, 3), (3, 1))):
        for th in ("langevin", "pile_l", "svr", "pile_g", "gle", "nm_gle", "cl_off", "multi:langevin+langevin"):
            c = dict(ens="nvt", thermo=th, nbeads=nb, natoms=2, split=split, pes="free", fixcom=False)
            if mts:
                c.update(nmts=mts, forces="mts")
            out.append(dict(kind="time", cfg=c))
            if nb == 2 and th in ("langevin", "pile_l"):
                c = dict(c, ens="sc")
                if mts:
                    c["fb"] = nb
                out.append(dict(kind="time", cfg=c))
    for (ens, baro), bt, split in itertools.product(
        (("npt", "isotropic"), ("npt", "flexible"), ("nst", "anisotropic"), ("scnpt", "sc-isotropic")), ("langevin", "gle", "svr"), ("obabo", "baoab")
    ):
        for nb in (1, 2):
            if ens == "scnpt" and nb == 1:
                continue
            out.append(dict(kind="celltime", cfg=dict(ens=ens, baro=baro, bthermo=bt, thermo="none", nbeads=nb, natoms=2, split=split, pes="free", fixcom=False)))
            for mode in ("lin", "svr"):
                if (bt == "svr") == (mode == "svr"):
                    for hf in ((), ("offdiagonal",), ("xx", "yz")) if baro in ("flexible", "anisotropic") else ((),):
                        c = dict(ens=ens, baro=baro, bthermo=bt, thermo="none", nbeads=nb, natoms=2, split=split, fixcom=False)
                        if hf:
                            c["hfix"] = hf
                        if split == "obabo":
                            out.append(dict(kind="cell" + mode, cfg=c, dts=dts[:3]))
                            if baro == "flexible" and "xx" not in hf:  # refused by the program
                                out.append(dict(kind="cell" + mode, cfg=dict(c, volc=True), dts=dts[:3]))
    for g in ("gle", "gle_c", "nm_gle", "nm_gle_c"):
        for nb in (1, 2, 3):
            out.append(dict(kind="init", thermo=g, nbeads=nb))
    return out


# ------------------------------------------------------------------ access to the real thermostat
class Sys:
    """State of a thermostat of a real simulation: momenta of the modes and auxiliary variables."""

    def __init__(self, c, cell=False):
        self.c = c
        self.sim = sim.load(configs.xml(c, 1000))
        y = self.sim.syslist[0]
        self.y = y
        self.draws = noise.install(self.sim)
        self.cell = cell
        self.b = y.motion.barostat if cell else None
        self.six = cell and np.array(self.b.p).shape == (3, 3)
        self.th = self.b.thermostat if cell else y.motion.thermostat
        self.P = y.beads.nbeads
        self.n3 = 3 * y.beads.natoms
        self.parts = list(getattr(self.th, "tlist", [self.th]))
        self.aux = []
        for t in self.parts:
            s = getattr(t, "s", None)
            if isinstance(s, np.ndarray) and s.size:
                self.aux.append(t)

    # momenta as a flat vector, with their masses
    def getp(self):
        if self.cell:
            return np.array(self.b.p6 if self.six else self.b.p, float).flatten()
        return np.array(self.y.nm.pnm, float).flatten()

    def setp(self, v):
        if self.cell:
            if self.six:
                self.b.p6 = np.array(v)
            else:
                self.b.p = np.reshape(v, np.array(self.b.p).shape)
        else:
            self.y.nm.pnm = np.reshape(v, (self.P, self.n3))

    def mass(self):
        if self.cell:
            return np.full(self.getp().size, float(np.array(self.b.m).flat[0]))
        return np.array(self.y.nm.dynm3, float).flatten()

    def kin(self, p=None):
        p = self.getp() if p is None else p
        return 0.5 * float((p * p / self.mass()).sum())

    def gets(self):
        out = []
        for t in self.aux:
            s = np.array(t.s)
            out.append((s[:, 1:] if s.ndim == 3 else s[1:]).flatten())
        return np.concatenate(out) if out else np.zeros(0)

    def sets(self, v):
        k = 0
        for t in self.aux:
            s = t.s
            sub = s[:, 1:] if s.ndim == 3 else s[1:]
            n = sub.size
            sub[...] = np.reshape(v[k : k + n], sub.shape)
            k += n

    def step(self, p, s, values=None, default=0.0):
        self.setp(p)
        self.sets(s)
        self.draws.reset(values, default)
        e0 = float(self.th.ethermo)
        k0 = self.kin()
        self.th.step()
        return self.getp(), self.gets(), float(self.th.ethermo) - e0 - (k0 - self.kin())


def free_cell(c):
    """1 for the components xx, yy, zz, xy, xz, yz of the cell that can move."""
    out = np.ones(6)
    for i, n in enumerate(("xx", "yy", "zz", "xy", "xz", "yz")):
        if n in c.get("hfix", ()) or (i > 2 and "offdiagonal" in c.get("hfix", ())):
            out[i] = 0
    return out


def cov_expected(S, temp):
    """Covariance of (momenta, auxiliary variables) and matrix of the decay rates, from the input."""
    c = S.c
    P, n3 = S.P, S.n3
    kind = c["bthermo"] if S.cell else c["thermo"]
    m = S.mass()
    npz = len(m)
    n = npz + S.gets().size
    kT = temp * P
    C = np.zeros((n, n))
    C[np.arange(npz), np.arange(npz)] = m * kT
    return C, kind, kT


def layout(S, kind):
    """Yields for each part (kind, offset of its auxiliary variables)."""
    subs = kind[6:].split("+") if kind.startswith("multi:") else [kind]
    off = len(S.mass())
    out = []
    for i, (k, t) in enumerate(zip(subs, S.parts)):
        na = 0
        if t in S.aux:
            s = t.s
            na = (s[:, 1:] if s.ndim == 3 else s[1:]).size
        out.append((k, off, na, i))
        off += na
    return out


def oracle(S, dt, temp):
    """Expected one-step drift matrix and stationary covariance."""
    c = S.c
    P, n3 = S.P, S.n3
    C, kind, kT = cov_expected(S, temp)
    n = len(C)
    npz = len(S.mass())
    sm = np.sqrt(S.mass())
    A = np.eye(n)
    tau0 = 250.0 if S.cell else 150.0
    F = None
    if not S.cell:
        # orthogonal matrix beads <- modes (per coordinate)
        F = np.zeros((npz, npz))
        for j in range(npz):
            e = np.zeros(npz)
            e[j] = 1
            S.setp(e)
            F[:, j] = np.array(S.y.beads.p).flatten()
    for k, off, na, i in layout(S, kind):
        tau = tau0 * (1 + i) if kind.startswith("multi:") else tau0
        M = np.eye(n)
        if k in ("langevin", "ffl_none"):
            M[:npz, :npz] *= np.exp(-dt / tau)
        elif k == "cl_off":
            M[:npz, :npz] *= np.exp(-0.5 * dt / tau)
        elif k in ("pile_l", "pile_l_ct"):
            w = np.array(S.y.nm.dynomegak)
            d = np.exp(-dt / np.array([tau] + [1.0 / (2 * 0.4 * x) for x in w[1:]]))
            M[:npz, :npz] = np.diag(np.repeat(d, n3))
            if k.endswith("_ct"):
                C[:n3, :n3] *= 0.7
        elif k in ("gle", "gle2", "gle_c", "nm_gle", "nm_gle_c"):
            ns = 2 if k == "gle2" else 1
            nm = k.startswith("nm")
            G = np.eye(n)
            for b in range(P if not S.cell else 1):
                a = configs.gle_A(ns) * ((1 + 0.3 * b) if nm else 1.0)
                cc = np.eye(ns + 1) * kT
                if k.endswith("_c"):
                    cc = configs.gle_C(1, configs.T * (P if nm else 1))
                ex = sl.expm(-a * dt)
                for j in range(n3 if not S.cell else npz):
                    # flat index of the momentum (in beads for gle, in modes for nm_gle)
                    ip = b * n3 + j
                    ia = [off + (b * ns * n3 + l * n3 + j if nm else l * npz + ip) for l in range(ns)]
                    idx = [ip] + ia
                    sc = np.array([sm[ip]] + [1.0] * ns)
                    G[np.ix_(idx, idx)] = sc[:, None] * ex / sc[None, :]
                    C[np.ix_(idx, idx)] = sc[:, None] * cc * sc[None, :]
            if not nm and F is not None:
                R = np.eye(n)
                R[:npz, :npz] = F
                # momenta of modes -> beads -> modes (equal masses along the modes)
                G = R.T @ G @ R
                if not kind.startswith("multi:"):
                    C = R.T @ C @ R
            M = G
        else:
            raise ValueError(k)
        A = M @ A
    return A, C


def scale_of(C):
    return np.sqrt(np.diag(C))


def run_lin(item, r, cell=False):
    c = item["cfg"]
    S = Sys(c, cell)
    key = name(c)
    kind = c["bthermo"] if cell else c["thermo"]
    temps = [configs.T, 2.5 * configs.T]
    mask = None
    if cell and S.six:
        mask = free_cell(c) != 0
    for temp, dt in itertools.product(temps, item["dts"]):
        if temp != configs.T and kind.endswith(("_c", "_ct")):
            continue
        S.y.ensemble.temp = temp
        if cell:
            S.y.motion.dt = 2 * dt
            h = float(S.th.dt)
        else:
            S.y.motion.dt = 2 * dt  # half of it acts in each thermostat step (obabo)
            h = float(S.th.dt)
        if abs(h - dt) > 1e-9 * dt:
            r.fail("dt:" + key, "with a time step of %g the thermostat uses %g instead of half of it" % (2 * dt, h), {})
        A0, C = oracle(S, dt, temp)
        n = len(C)
        npz = len(S.mass())
        sc = scale_of(C)
        A = np.zeros((n, n))
        worst = 0.0
        z = np.zeros(n)
        for j in range(n):
            x = np.zeros(n)
            x[j] = sc[j]
            p, s, dh = S.step(x[:npz], x[npz:])
            A[:, j] = np.concatenate([p, s]) / sc[j]
            worst = max(worst, abs(dh))
            r.transitions += 1
        nd = len(S.draws.log)
        if any(k != "g" for k, _ in S.draws.log):
            r.fail("draws:" + key, "unexpected kinds of random numbers %s" % (sorted({k for k, _ in S.draws.log}),), {})
            return
        B = np.zeros((n, nd))
        for j in range(nd):
            p, s, dh = S.step(z[:npz], z[npz:], {j: 1.0})
            B[:, j] = np.concatenate([p, s])
            worst = max(worst, abs(dh))
            r.transitions += 1
        # superposition, also to check that heat is counted when everything acts together
        x = sc * np.sin(1.0 + np.arange(n))
        xi = {j: np.cos(0.7 + 1.3 * j) for j in range(nd)}
        p, s, dh = S.step(x[:npz], x[npz:], xi)
        worst = max(worst, abs(dh))
        pred = A @ x + B @ np.array([xi[j] for j in range(nd)])
        lin = np.abs((np.concatenate([p, s]) - pred) / sc).max()
        kT = temp * S.P
        if worst > 1e-9 * kT * n:
            r.fail("heat:" + key, "the heat counted in one step differs from the change of the kinetic energy by %.1e kT (dt=%g)" % (worst / kT, dt), {})
        if lin > 1e-9:
            r.fail("linear:" + key, "state and random numbers do not act independently (%.1e)" % lin, {})
        keep = np.ones(n, bool)
        if mask is not None:
            # fixed cell components: only the free ones matter
            keep[:npz] = mask
        An, Cn, A0n = [M / sc[:, None] * sc[None, :] for M in (A,)][0], C / sc[:, None] / sc[None, :], A0 / sc[:, None] * sc[None, :]
        Bn = B / sc[:, None]
        kk = np.ix_(keep, keep)
        if np.abs((An - A0n)[kk]).max() > 1e-8:
            r.fail("decay:" + key, "noise-free decay over dt=%g differs from the stated one by %.1e" % (dt, np.abs((An - A0n)[kk]).max()), {})
        err = np.abs((An @ Cn @ An.T + Bn @ Bn.T - Cn)[kk]).max()
        if not err < 1e-7:
            r.fail("invariant:" + key, "the equilibrium distribution changes by %.1e in one thermostat step (dt=%g, T=%g)" % (err, dt, temp), {})
        r.state(key, dt, temp, np.round(An, 9).tolist())
        r.traces += 1


# ------------------------------------------------------------------ velocity rescaling
def run_svr(item, r, cell=False):
    c = item["cfg"]
    S = Sys(c, cell)
    key = name(c)
    kind = (c["bthermo"] if cell else c["thermo"]).split("+")[-1]
    multi = not cell and c["thermo"].startswith("multi:")
    P, n3 = S.P, S.n3
    npz = len(S.mass())
    G = np.arange(npz) if kind == "svr" else np.arange(n3)
    fixed = []
    for a in c.get("fixatoms", []):
        fixed += [3 * a, 3 * a + 1, 3 * a + 2]
    fixed += c.get("fixdof", [])
    if cell:
        ndof = npz
        if S.six:
            ndof = int(free_cell(c).sum()) - (1 if c.get("volc") else 0)
    else:
        ndof = len(G) - len(fixed) * (len(G) // n3) - (3 if c.get("fixcom") else 0)
    tau = (250.0 if cell else 150.0) * (2 if multi else 1)
    x = np.sin(1.0 + np.arange(npz)) + 0.1
    if cell and S.six:
        x = x * free_cell(c)
        if c.get("volc"):
            x[:3] -= free_cell(c)[:3] * x[:3].sum() / free_cell(c)[:3].sum()
    for f in fixed:
        x[f::n3] = 0.0
    sm = np.sqrt(S.mass())
    aux = 0.3 * np.sqrt(configs.T * P) * np.cos(np.arange(S.gets().size))
    for dt, kscale in itertools.product(item["dts"], (0.02, 1.0, 30.0)):
        S.y.motion.dt = 2 * dt
        et = np.exp(-dt / tau)
        kT = configs.T * P * (0.7 if kind.endswith("_ct") else 1.0)
        p0 = x * sm * np.sqrt(kT) * np.sqrt(kscale)
        base, s0, dh = S.step(p0, aux)
        log = list(S.draws.log)
        worst = abs(dh)
        KG = 0.5 * float((base[G] ** 2 / S.mass()[G]).sum())
        Kpre = KG / et  # with all its random numbers zero the rescaling factor is sqrt(et)
        if not multi and kind != "nm_gle_g":
            k0 = 0.5 * float((p0[G] ** 2 / S.mass()[G]).sum())
            if abs(KG / k0 - et) > 1e-9:
                r.fail("decay:" + key, "noise-free decay of the kinetic energy over dt=%g is %.6f, expected %.6f" % (dt, KG / k0, et), {})
        u = base[G] / np.linalg.norm(base[G])
        nu = 0.0
        odd = []
        cc = kT / 2 / Kpre * (1 - et)
        for i, (k, par) in enumerate(log):
            res = []
            par_ok = True
            for v in ((1.0, -1.0) if k == "g" else (1.0, 2.0)):
                p, s, dh = S.step(p0, aux, {i: v})
                r.transitions += 1
                worst = max(worst, abs(dh))
                a = float(p[G] @ u) / float(base[G] @ u)
                rest = np.delete(p, G) - np.delete(base, G)
                if np.linalg.norm(p[G] - a * base[G]) > 1e-9 * np.linalg.norm(p[G]) or (rest.size and np.abs(rest).max() > 1e-12 * np.abs(p0).max()):
                    par_ok = False
                    break
                res.append(a * a * et)
            if not par_ok:
                continue  # a random number of another part of the thermostat
            if k == "g":
                even = 0.5 * (res[0] + res[1]) - et
                o = 0.5 * (res[0] - res[1])
                if abs(even) < 1e-12 and abs(o) < 1e-12:
                    continue  # an auxiliary variable of another part
                nu += 1
                if abs(even - cc) > 1e-8 * (1 + cc):
                    r.fail("width:" + key, "kinetic energy noise %.3e instead of %.3e (dt=%g)" % (even, cc, dt), {})
                if abs(o) > 1e-10:
                    odd.append((i, o))
            else:
                nu += 2 * par
                if abs(res[0] - et - 2 * cc) > 1e-8 * (1 + cc) or abs(res[1] - et - 4 * cc) > 1e-8 * (1 + cc):
                    r.fail("width:" + key, "kinetic energy noise does not have the right width (dt=%g)" % dt, {})
        if abs(nu - ndof) > 1e-9:
            r.fail("dof:" + key, "the kinetic energy is thermalised as if it had %g degrees of freedom; it has %d" % (nu, ndof), {})
        if len(odd) != 1 or abs(abs(odd[0][1]) - 2 * np.sqrt(cc * et)) > 1e-8 * (1 + cc):
            r.fail("cross:" + key, "the term of the exact solution linear in the noise is wrong (dt=%g)" % dt, {})
        else:
            i = odd[0][0]
            thr = np.sqrt(et / cc) * np.sign(odd[0][1])
            for v in (-0.5, -0.9, -0.99, -1.01, -1.1, -1.35, -1.45, -2.0, 0.7):
                p, s, dh = S.step(p0, aux, {i: v * thr})
                r.transitions += 1
                worst = max(worst, abs(dh))
                a = float(p[G] @ u) / float(base[G] @ u)
                if abs(a * a * et - (np.sqrt(et) + v * abs(thr) * np.sqrt(cc)) ** 2) > 1e-8 * (1 + cc):
                    r.fail("cross:" + key, "rescaling factor is wrong", {})
                if np.sign(a) != np.sign(1 + v):
                    r.fail("sign:" + key, "the rescaling factor has the wrong sign (noise %.2f times that which stops the particles)" % v, {})
        if worst > 1e-9 * kT * npz * max(1, kscale):
            r.fail("heat:" + key, "the heat counted in one step differs from the change of the kinetic energy by %.1e kT (dt=%g)" % (worst / kT, dt), {})
        r.state(key, dt, kscale)
        r.traces += 1
    # atoms at rest stay finite
    p, s, dh = S.step(np.zeros(npz), aux, default=0.5)
    if not np.all(np.isfinite(p)):
        r.fail("rest:" + key, "momenta become undefined when the system is at rest", {})


# ------------------------------------------------------------------ fast-forward and Cherry-Langevin
def run_ffl(item, r):
    c = item["cfg"]
    S = Sys(c)
    key = name(c)
    mode = c["thermo"][4:]
    P, n3 = S.P, S.n3
    m = np.array(S.y.beads.m3, float).flatten()
    N = P * n3
    sm = np.sqrt(m)
    kT = configs.T * P
    for dt in item["dts"]:
        S.y.motion.dt = 2 * dt
        T = np.exp(-dt / 150.0)
        W = np.sqrt(kT * (1 - T * T))
        for sg, rest, amp in itertools.product(itertools.product((1, -1), repeat=6), (0, 1), (0.3, 3.0)):
            po = np.tile(np.array([0.6 * sg[0], 1.1 * sg[1], 0.8 * sg[2]]), N // 3) * np.sqrt(kT)
            xi = np.tile(np.array([1.0 * sg[3], 0.7 * sg[4], 1.3 * sg[5]]), N // 3) * amp
            if rest:
                po[:3] = 0.0
            S.y.beads.p = (po * sm).reshape(P, n3)
            pnm = S.getp()
            _, _, dh = S.step(pnm, np.zeros(0), {i: xi[i] for i in range(N)})
            new = np.array(S.y.beads.p).flatten() / sm
            r.transitions += 1
            lan = (T * po + W * xi).reshape(-1, 3)
            o3 = po.reshape(-1, 3)
            exp = lan.copy()
            for a in range(N // 3):
                if mode == "hard":
                    exp[a] = np.where(lan[a] * o3[a] < 0, -lan[a], lan[a])
                elif np.linalg.norm(o3[a]) == 0:
                    continue
                elif mode == "rescale":
                    exp[a] = o3[a] / np.linalg.norm(o3[a]) * np.linalg.norm(lan[a])
                elif mode == "soft":
                    u = o3[a] / np.linalg.norm(o3[a])
                    exp[a] = lan[a] - min(0.0, 2 * (lan[a] @ u)) * u
            err = np.abs(new.reshape(-1, 3) - exp).max() / np.sqrt(kT)
            if not err < 1e-9:
                r.fail("flip:" + key + (",rest" if rest else ""), "momenta after a step with flip '%s' are off by %.1e (dt=%g)" % (mode, err, dt), {})
            if not abs(dh) < 1e-9 * kT * N:
                r.fail("heat:" + key, "the heat counted in one step differs from the change of the kinetic energy by %.1e kT" % (dh / kT), {})
        r.state(key, dt)
        r.traces += 1


def run_cl(item, r):
    c = item["cfg"]
    S = Sys(c)
    key = name(c)
    P, n3 = S.P, S.n3
    N = P * n3
    kT = configs.T * P
    th = c["thermo"]
    gi = 1 / 400.0 if th in ("cl_in", "cl_plain") else 0.0
    gd = 1 / 500.0 if th in ("cl_id", "cl_plain") else 0.0
    for dt in item["dts"]:
        S.y.motion.dt = 2 * dt
        sc = np.sqrt(S.mass() * kT)
        T = np.exp(-0.5 * dt * (1 / 150.0 + gi))
        W2 = 1 - np.exp(-dt * (1 / 150.0 + gd))
        worst = 0
        for j in range(N):
            x = np.zeros(N)
            x[j] = sc[j]
            p, _, dh = S.step(x, np.zeros(0))
            worst = max(worst, abs(dh))
            x[j] *= T
            r.transitions += 1
            if np.abs(p - x).max() > 1e-9 * sc[j]:
                r.fail("decay:" + key, "noise-free decay over dt=%g is wrong" % dt, {})
        B = []
        for j in range(N):
            p, _, dh = S.step(np.zeros(N), np.zeros(0), {j: 1.0})
            worst = max(worst, abs(dh))
            B.append(p / sc)
            r.transitions += 1
        B = np.array(B).T
        if np.abs(B @ B.T - W2 * np.eye(N)).max() > 1e-9:
            r.fail("noise:" + key, "noise has the wrong strength for dt=%g" % dt, {})
        if worst > 1e-9 * kT * N:
            r.fail("heat:" + key, "the heat counted in one step differs from the change of the kinetic energy by %.1e kT" % (worst / kT), {})
        r.state(key, dt)
        r.traces += 1


# ------------------------------------------------------------------ whole steps
def run_time(item, r):
    c = item["cfg"]
    th = c["thermo"]
    key = name(c)
    for dt in (3.0, 40.0):
        S = Sys(dict(c, dt=dt))
        P, n3 = S.P, S.n3
        sc = np.sqrt(S.mass() * configs.T * P)
        p0 = np.zeros(P * n3)
        p0[:n3] = sc[:n3] * np.sin(1.0 + np.arange(n3))  # centroid only, no internal motion
        S.y.nm.qnm = np.vstack([np.array(S.y.nm.qnm)[0], np.zeros((P - 1, n3))])
        S.setp(p0)
        S.sets(0 * S.gets())
        S.draws.reset()
        kk = 0.5 if th == "cl_off" else 1.0
        for n in (1, 2, 3):
            S.y.motion.step(n)
            r.transitions += 1
            t = n * dt
            p = S.getp()
            if th in ("gle", "nm_gle"):
                d = sl.expm(-configs.gle_A(1) * t)[0, 0]
            elif th in ("svr", "pile_g"):
                d = np.exp(-0.5 * t / 150.0)
            elif th.startswith("multi"):
                d = np.exp(-t / 150.0 - t / 300.0)
            else:
                d = np.exp(-kk * t / 150.0)
            if th in ("gle", "nm_gle") and P == 1 and False:
                continue
            err = np.abs(p - d * p0).max() / np.abs(p0).max()
            if err > 1e-8:
                r.fail("time:" + key, "after %d steps of %g free atoms have kept %.8f of their momentum, expected %.8f" % (n, dt, float(p @ p0 / (p0 @ p0)), d), {})
        r.state(key, dt)
        r.traces += 1


def run_celltime(item, r):
    """Decay of a small cell momentum over whole steps (difference of two runs)."""
    c = item["cfg"]
    key = name(c)
    bt = c["bthermo"]
    for dt in (3.0, 6.0):
        res = []
        for amp in (-1.0, 1.0) if bt != "svr" else (1.0,):
            S = Sys(dict(c, dt=dt), cell=True)
            S.y.beads.p = np.zeros((S.P, S.n3))
            S.y.beads.q = np.zeros((S.P, S.n3))
            shape = np.array(S.b.p).shape
            x = np.triu(np.array([[0.3, 0.12, -0.2], [0, -0.25, 0.15], [0, 0, 0.4]])) if shape == (3, 3) else np.full(shape, 0.3)
            m = float(np.array(S.b.m).flat[0])
            sz = 1e-3 if bt != "svr" else 30.0
            x = x * np.sqrt(m * configs.T) * sz * amp
            S.b.p = x
            S.sets(0 * S.gets())
            S.draws.reset()
            S.y.motion.step(0)
            r.transitions += 1
            res.append((np.array(S.b.p, float), x))
        if bt == "svr":
            continue
        dp = res[1][0] - res[0][0]
        dx = res[1][1] - res[0][1]
        d = np.exp(-dt / 250.0) if bt == "langevin" else sl.expm(-configs.gle_A(1) * dt)[0, 0]
        err = np.abs(dp - d * dx).max() / np.abs(dx).max()
        if err > 5e-4:
            r.fail("celltime:" + key, "over one step of %g the momentum of the cell decays to %.6f, expected %.6f" % (dt, float((dp * dx).sum() / (dx * dx).sum()), d), {})
        r.state(key, dt)
        r.traces += 1


def run_init(item, r):
    """Auxiliary variables are drawn from their stationary distribution."""
    from ipi.engine.thermostats import ThermoGLE, ThermoNMGLE
    from ipi.utils.prng import Random

    g, P = item["thermo"], item["nbeads"]
    S = Sys(dict(ens="nvt", thermo="none", nbeads=P, natoms=1, fixcom=False))
    kT = configs.T * P
    nm = g.startswith("nm")
    A = configs.gle_A(1)
    cc = configs.gle_C(1, kT) if g.endswith("_c") else None

    def make(values):
        pr = Random(seed=1)
        d = noise.Draws(pr.rng[0], values=values)
        pr.rng[0] = d
        if nm:
            t = ThermoNMGLE(temp=kT, dt=1.0, A=np.array([A] * P), C=None if cc is None else np.array([cc] * P))
            t.s = np.zeros(0)
        else:
            t = ThermoGLE(temp=kT, dt=1.0, A=A, C=cc)
        t.bind(beads=S.y.beads, nm=S.y.nm, prng=pr, fixdof=0)
        s = np.array(t.s)
        if not nm:
            s = s.reshape(2, P, 3).transpose(1, 0, 2)
        return s, d

    s, d = make({})
    B = []
    for j in range(len(d.log)):
        s, _ = make({j: 1.0})
        B.append(s.flatten())
        r.transitions += 1
    B = np.array(B).T
    got = B @ B.T
    exp = np.zeros_like(got)
    C = np.eye(2) * kT if cc is None else cc
    for b, x, i, j in itertools.product(range(P), range(3), range(2), range(2)):
        exp[(b * 2 + i) * 3 + x, (b * 2 + j) * 3 + x] = C[i, j]
    if np.abs(got - exp).max() > 1e-9 * kT:
        r.fail("init:%s:%d" % (g, P), "auxiliary variables are not drawn from their stationary distribution (off by %.1e)" % (np.abs(got - exp).max() / kT), {})
    r.state("init", g, P)
    r.traces += 1


def run(item):
    r = Result()
    k = item["kind"]
    r.outcome(k)
    if k == "lin":
        run_lin(item, r)
    elif k == "celllin":
        run_lin(item, r, True)
    elif k == "svr":
        run_svr(item, r)
    elif k == "cellsvr":
        run_svr(item, r, True)
    elif k == "ffl":
        run_ffl(item, r)
    elif k == "cl":
        run_cl(item, r)
    elif k == "time":
        run_time(item, r)
    elif k == "celltime":
        run_celltime(item, r)
    elif k == "init":
        run_init(item, r)
    return r
