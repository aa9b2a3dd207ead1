"""C17: every reported quantity has the value its documentation defines.

All queries (every static property and trajectory quantity, with every selection of atom,
species, bead, normal mode, mass ratio, displacement or component) are evaluated on the real
Properties and Trajectories objects and compared with formulas written directly from positions,
momenta, masses, cell and the analytic potential. Histories: for every pair of queries and every
kind of change of state between them, the second query has to see the current state only, and no
query may change the state of the simulation.
"""

import itertools
import json

import numpy as np

from vlib import sim, vpes
from vlib.core import Result

PROPERTY = "C17"
LEVEL = "model_checking"
TIMEOUT = 400.0
RULE = "one case per (number of beads, force components, dynamics, first query); states are distinct (case, state, query), transitions are queries answered and changes of state"
ASSUMPTIONS = ["forces, virials and their contraction are right (C08)", "normal modes are right (C09)"]
BOUNDS = {
    "quick": "3 atoms of 2 species, 1-4 beads, 1-2 force components, ordinary and Suzuki-Chin dynamics: all queries in 3 states; all pairs of 12 first and all second queries with 5 kinds of change in between",
    "thorough": "1-6 beads; all pairs of queries",
}

# what the documentation says about the units of the quantities
DIM = dict(
    energy="potential bead_potentials potential_opsc potential_tdsc pot_component pot_component_raw spring kinetic_md kinetic_cv kinetic_td kinetic_prsc kinetic_tdsc kinetic_opsc kinetic_tens kinetic_ij virial_fq ti_pot kinetic_od",
    pressure="vir_component vir_component_raw stress_md pressure_md kstress_md virial_md stress_cv pressure_cv kstress_cv virial_cv kstress_tdsc",
    length="cell_h r_gyration atom_x atom_x_path positions x_centroid x_centroid_even x_centroid_odd",
    velocity="atom_v vcom velocities v_centroid v_centroid_even v_centroid_odd",
    momentum="atom_p momenta p_centroid",
    force="forcemod atom_f atom_f_path forces forces_spring forces_sc f_centroid forces_component forces_component_raw",
    temperature="temperature ensemble_temperature",
    density="density",
    volume="volume",
)
DIM = {k: d for d in DIM for k in DIM[d].split()}
N = 3
NAMES = ["H", "C", "H"]
M = np.array([1837.0, 21894.0, 1837.0])
PARS = [dict(k=0.03, k4=0.01, kp=0.02, c=0.4, aniso=1.2), dict(k=0.05, k4=0.004, kp=0.01, c=0.1, aniso=1.3)]
ALPHA = 0.3


def states(P):
    out = []
    for s in range(3):
        i = np.arange(P * 3 * N).reshape(P, 3 * N)
        q = np.round(0.1 * np.sin(1.1 * i + s) + 0.9 * np.cos(2.0 * np.arange(3 * N) + 0.3 * s)[None, :], 6)
        p = np.round(4.0 * np.cos(0.7 * i * (1 + s) + 1), 6)
        h = np.array([[9.0 + 0.4 * s, 0.7, -0.4], [0.0, 10.0 - 0.3 * s, 0.5], [0.0, 0.0, 11.0 + 0.2 * s]])
        out.append(dict(q=q, p=p, h=h, T=0.004 * (1 + 0.5 * s)))
    return out


class Ref:
    """The quantities, from first principles."""

    def __init__(self, P, layout, st, sc):
        self.P, self.layout, self.sc = P, layout, sc
        self.__dict__.update({k: np.array(v) for k, v in st.items()})
        self.T = float(self.T)
        self.m3 = np.repeat(M, 3)
        self.w = [1.0] if layout == "one" else [0.7, 1.3]
        self.V, self.f, self.virs = self.total(self.q)
        self.qc = self.q.mean(axis=0)
        self.vol = abs(np.linalg.det(self.h))
        self.w2 = (P * self.T) ** 2
        self.dq = self.q - self.qc

    def comp(self, i, q):
        """Component i at its own number of beads."""
        if self.layout == "two" and i == 1:
            q = q.mean(axis=0)[None, :]
        r = [vpes.evaluate(self.h, x, **PARS[i]) for x in q]
        return np.array([x[0] for x in r]), np.array([x[1].flatten() for x in r]), np.array([x[2] for x in r])

    def total(self, q):
        V, f, v = np.zeros(self.P), np.zeros(q.shape), np.zeros((self.P, 3, 3))
        for i, w in enumerate(self.w):
            a, b, c = self.comp(i, q)
            V, f, v = V + w * a, f + w * b, v + w * c
        return V, f, v

    def sel(self, atom):
        if atom == "":
            return list(range(N))
        if atom.isdigit():
            return [int(atom)]
        return [i for i in range(N) if NAMES[i] == atom]

    def cols(self, atom):
        return [3 * i + k for i in self.sel(atom) for k in range(3)]

    def pnm(self):
        P, j = self.P, np.arange(self.P)
        C = np.zeros((P, P))
        for b in range(P):
            if b == 0:
                C[b] = 1 / np.sqrt(P)
            elif 2 * b < P:
                C[b] = np.sqrt(2 / P) * np.cos(2 * np.pi * j * b / P)
            elif 2 * b == P:
                C[b] = (-1.0) ** j / np.sqrt(P)
            else:
                C[b] = np.sqrt(2 / P) * np.sin(2 * np.pi * j * b / P)
        return C @ self.p

    def kin(self, atom="", bead=None, nm=None):
        c = self.cols(atom)
        x = self.p if nm is None else self.pnm()
        k = (x[:, c] ** 2 / (2 * self.m3[c])).sum(axis=1)
        if bead is None and nm is None:
            return k.sum() / self.P
        return k[bead if bead is not None else nm]

    def springs(self, i):
        x = self.q[:, 3 * i : 3 * i + 3]
        return ((x - np.roll(x, 1, axis=0)) ** 2).sum()

    def vec6(self, t):
        return np.array([t[0, 0], t[1, 1], t[2, 2], t[0, 1], t[0, 2], t[1, 2]])

    def scaled(self, i, a):
        q = self.q.copy()
        c = slice(3 * i, 3 * i + 3)
        q[:, c] = self.qc[c] + a * self.dq[:, c]
        return q

    def kcv_atom(self, i, q=None, f=None):
        q = self.q if q is None else q
        f = self.f if f is None else f
        c = slice(3 * i, 3 * i + 3)
        return 1.5 * self.T - 0.5 / self.P * ((q - q.mean(axis=0))[:, c] * f[:, c]).sum()

    def kstress(self, f):
        t = np.zeros((3, 3))
        pc = self.p.mean(axis=0)
        for a in range(3):
            for b in range(a, 3):
                t[a, b] = -(self.dq[:, a::3] * f[:, b::3]).sum()
            t[a, a] += self.P * (pc[a::3] ** 2 / M).sum()
        return t

    # Suzuki-Chin
    def d(self):
        return np.array([ALPHA if b % 2 == 0 else 1 - ALPHA for b in range(self.P)]) / (9.0 * self.w2)

    def f2(self, f=None, cols=slice(None)):
        f = self.f if f is None else f
        return (f[:, cols] ** 2 / self.m3[cols]).sum(axis=1)

    def wk(self):
        return np.array([2 / 3.0 if b % 2 == 0 else 4 / 3.0 for b in range(self.P)])

    def fep(self, rows):
        h, k = np.array([r[0] for r in rows]), np.array([r[1] for r in rows])
        s = (np.exp(-h) * k).sum()
        return np.array([h.mean(), (h * h).mean(), k.mean(), (k * k).mean(), np.log(np.exp(-h).sum()), np.log(abs(s)), np.sign(s)])


def queries(P, layout, sc):
    """[(kind, key, function of Ref, tolerance)]"""
    Q = []

    def add(key, f, tol=1e-9, kind="p"):
        Q.append((kind, key, f, tol))

    A = ["", "0", "1", "2", "H", "C"]
    nc = 1 if layout == "one" else 2

    def arg(atom, *rest):
        x = (["atom=%s" % atom] if atom else []) + ["%s=%s" % r for r in rest]
        return "(" + ";".join(x) + ")" if x else ""

    for a in A:
        for extra in [()] + [(("bead", b),) for b in range(P)] + [(("nm", b),) for b in range(P)]:
            kw = {k: v for k, v in extra}
            add("kinetic_md" + arg(a, *extra), lambda r, a=a, kw=kw: r.kin(a, **kw))
            add("temperature" + arg(a, *extra), lambda r, a=a, kw=kw: 2 * r.kin(a, **kw) / (3.0 * len(r.sel(a)) * P))
        add("kinetic_cv" + arg(a), lambda r, a=a: sum(r.kcv_atom(i) for i in r.sel(a)))
        add("kinetic_td" + arg(a), lambda r, a=a: sum(1.5 * P * r.T - 0.5 * M[i] * r.w2 * r.springs(i) / P for i in r.sel(a)))

        def ktens(r, a):
            t = np.zeros((3, 3))
            for i in r.sel(a):
                c = slice(3 * i, 3 * i + 3)
                x = r.dq[:, c].T @ r.f[:, c]
                t += -0.25 / P * (x + x.T) + 0.5 * r.T * np.eye(3)
            return r.vec6(t)

        add("kinetic_tens" + arg(a), lambda r, a=a: ktens(r, a))
        add("r_gyration" + arg(a), lambda r, a=a: np.mean([np.sqrt((r.dq[:, 3 * i : 3 * i + 3] ** 2).sum() / P) for i in r.sel(a)]))
        add("ti_pot" + arg(a), lambda r, a=a: r.f2(cols=r.cols(a)).sum() / 24.0 / r.w2 / P)
        for u in ((0.3, -0.2, 0.5), (0.0, 0.4, 0.0)):

            def lin(r, a, u):
                u = np.array(u)
                out = []
                for i in r.sel(a):
                    q = r.q.copy()
                    for b in range(P):
                        q[b, 3 * i : 3 * i + 3] += (b / P + 0.5 / P - 0.5) * u
                    out.append(np.exp(-M[i] * u @ u * r.T / 2) * np.exp(-(r.total(q)[0].sum() - r.V.sum()) / (r.T * P)))
                return np.mean(out)

            add("displacedpath(ux=%s;uy=%s;uz=%s%s)" % (*u, ";atom=" + a if a else ""), lambda r, a=a, u=u: lin(r, a, u))
        for al in (2.0, 0.5):

            def scf(r, a, al):
                rows = []
                for i in r.sel(a):
                    q = r.scaled(i, al**-0.5)
                    V, f, _ = r.total(q)
                    rows.append(((V.sum() - r.V.sum()) / (r.T * P), r.kcv_atom(i, q, f)))
                return r.fep(rows)

            add("isotope_scfep(alpha=%s%s)" % (al, ";atom=" + a if a else ""), lambda r, a=a, al=al: scf(r, a, al))
            add("isotope_tdfep(alpha=%s%s)" % (al, ";atom=" + a if a else ""), lambda r, a=a, al=al: r.fep([((al - 1) * 0.5 * M[i] * r.w2 * r.springs(i) / (r.T * P), r.kcv_atom(i)) for i in r.sel(a)]))

            def zt(r, a, al, order4=False):
                x = np.array([(al - 1) * 0.5 * M[i] * r.w2 * r.springs(i) for i in r.sel(a)])
                b = 1 / (r.T * P)
                ff = al ** (1.5 * (P - 1))
                out = [x.mean(), (x * x).mean(), ff * np.exp(-b * x).mean()]
                if order4:
                    ti = np.array([(1 / al - 1) * r.f2(cols=r.cols(str(i))).sum() / 24 / r.w2 for i in r.sel(a)])
                    ch = np.array([(1 / al - 1) * r.f2(cols=r.cols(str(i)))[1::2].sum() / 9 / r.w2 for i in r.sel(a)])
                    out += [ff * np.exp(-b * (x + ti)).mean(), ff * np.exp(-b * (x + ch)).mean()]
                return np.array(out)

            def zs(r, a, al, order4=False):
                b = 1 / (r.T * P)
                x, ti, ch = [], [], []
                for i in r.sel(a):
                    V, f, _ = r.total(r.scaled(i, al**-0.5))
                    x.append(V.sum() - r.V.sum())
                    c = r.cols(str(i))
                    ti.append((r.f2(f, c) / al - r.f2(cols=c)).sum() / 24 / r.w2)
                    ch.append((r.f2(f, c) / al - r.f2(cols=c))[1::2].sum() / 9 / r.w2 + ((V[1::2] - r.V[1::2]).sum() - (V[::2] - r.V[::2]).sum()) / 3)
                x, ti, ch = map(np.array, (x, ti, ch))
                out = [x.mean(), (x * x).mean(), np.exp(-b * x).mean()]
                if order4:
                    out += [np.exp(-b * (x + ti)).mean(), np.exp(-b * (x + ch)).mean()]
                return np.array(out)

            s = "(alpha=%s%s)" % (al, ";atom=" + a if a else "")
            add("isotope_zetatd" + s, lambda r, a=a, al=al: zt(r, a, al))
            add("isotope_zetasc" + s, lambda r, a=a, al=al: zs(r, a, al))
            add("isotope_zetatd_4th" + s, lambda r, a=a, al=al: zt(r, a, al, True))
            if P % 2 == 0:
                add("isotope_zetasc_4th" + s, lambda r, a=a, al=al: zs(r, a, al, True))

            def tsc(r, a, al):
                out = np.zeros((N, 3))
                for i in r.sel(a):
                    x = (r.total(r.scaled(i, al**-0.5))[0].sum() - r.V.sum()) / P
                    out[i] = [x, x * x, np.exp(-x / r.T)]
                return out[r.sel(a)].flatten()

            add("isotope_zetasc" + s, lambda r, a=a, al=al: tsc(r, a, al), kind="tsel:" + a)
    for i, j in itertools.product(range(N), range(N)):

        def kij(r, i, j):
            a, b = slice(3 * i, 3 * i + 3), slice(3 * j, 3 * j + 3)
            t = M[i] * r.dq[:, a].T @ r.f[:, b] + M[j] * (r.dq[:, b].T @ r.f[:, a]).T
            return r.vec6(-0.25 / P / np.sqrt(M[i] * M[j]) * t + (0.5 * r.T * np.eye(3) if i == j else 0))

        add("kinetic_ij(%d;%d)" % (i, j), lambda r, i=i, j=j: kij(r, i, j))
    for i in range(N):
        c = slice(3 * i, 3 * i + 3)
        for b in [None] + list(range(P)):
            s = "(atom=%d%s)" % (i, "" if b is None else ";bead=%d" % b)

            def pick(x, b, c):
                return x.mean(axis=0)[c] if b is None else x[b, c]

            add("atom_x" + s, lambda r, b=b, c=c: pick(r.q, b, c))
            add("atom_v" + s, lambda r, b=b, c=c: pick(r.p / r.m3, b, c))
            add("atom_p" + s, lambda r, b=b, c=c: pick(r.p, b, c))
            add("atom_f" + s, lambda r, b=b, c=c: pick(r.f, b, c))
        add("atom_x_path(%d)" % i, lambda r, c=c: r.q[:, c].flatten())
        add("atom_f_path(%d)" % i, lambda r, c=c: r.f[:, c].flatten())
    for l in ("", "H", "C"):
        for b in [None] + list(range(P)):

            def vcom(r, l, b):
                p = (r.p.mean(axis=0) if b is None else r.p[b]).reshape(N, 3)
                s = [i for i in range(N) if l in ("", NAMES[i])]
                return p[s].sum(axis=0) / M[s].sum()

            add("vcom" + ("(" + ";".join(([l] if l else []) + ([] if b is None else ["bead=%d" % b])) + ")" if l or b is not None else ""), lambda r, l=l, b=b: vcom(r, l, b))
    add("potential", lambda r: r.V.mean())
    add("bead_potentials", lambda r: r.V)
    for b in range(P):
        add("potential(bead=%d)" % b, lambda r, b=b: r.V[b])
        add("forcemod(bead=%d)" % b, lambda r, b=b: np.linalg.norm(r.f[b]))
    for i in range(nc):

        def comp(r, i, raw, b, k):
            x = r.comp(i, r.q)[k]
            if not raw:
                x = np.broadcast_to(x * r.w[i], (P,) + x.shape[1:])
            y = x.mean(axis=0) if b is None else x[b]
            return r.vec6(y) / r.vol if k == 2 else y

        for raw, nm in itertools.product((False, True), (("pot", 0), ("vir", 2), ("forces", 1))):
            nb = 1 if raw and layout == "two" and i == 1 else P
            for b in [None] + list(range(nb)):
                key = "%s_component%s(%d%s)" % (nm[0], "_raw" if raw else "", i, "" if b is None else ";bead=%d" % b)
                add(key, lambda r, i=i, raw=raw, b=b, k=nm[1]: comp(r, i, raw, b, k), kind="t" if nm[0] == "forces" else "p")
    add("spring", lambda r: sum(0.5 * M[i] * r.w2 * r.springs(i) for i in range(N)) / P)
    add("volume", lambda r: r.vol)
    add("density", lambda r: M.sum() / r.vol)
    add("cell_h", lambda r: r.vec6(r.h))

    def abc(r):
        v = [r.h[:, i] for i in range(3)]
        n = [np.linalg.norm(x) for x in v]
        ang = [np.degrees(np.arccos(v[i] @ v[j] / n[i] / n[j])) for i, j in ((1, 2), (0, 2), (0, 1))]
        return np.array(n + ang)

    add("cell_abcABC", abc)
    add("ensemble_temperature", lambda r: r.T)
    add("stress_md", lambda r: r.vec6(r.virs.sum(axis=0) + (r.p / np.sqrt(r.m3)).reshape(-1, 3).T @ (r.p / np.sqrt(r.m3)).reshape(-1, 3)) / r.vol)
    add("kstress_md", lambda r: r.vec6((r.p / np.sqrt(r.m3)).reshape(-1, 3).T @ (r.p / np.sqrt(r.m3)).reshape(-1, 3)) / r.vol)
    add("virial_md", lambda r: r.vec6(r.virs.sum(axis=0)) / r.vol)
    add("pressure_md", lambda r: (np.trace(r.virs.sum(axis=0)) + 2 * r.kin() * P) / (3 * r.vol))
    add("stress_cv", lambda r: r.vec6(r.virs.sum(axis=0) + r.kstress(r.f)) / (r.vol * P))
    add("pressure_cv", lambda r: np.trace(r.virs.sum(axis=0) + r.kstress(r.f)) / (3 * r.vol * P))
    add("kstress_cv", lambda r: r.vec6(r.kstress(r.f)) / (r.vol * P))
    add("virial_cv", lambda r: r.vec6(r.virs.sum(axis=0)) / (r.vol * P))
    add("virial_fq", lambda r: 0.5 / P * (r.f * r.q).sum())
    add("virial_fq(ref=ref1.txt)", lambda r: 0.5 / P * (r.f * (r.q - ref(1))).sum())
    add("virial_fq(ref=ref2.txt;units=angstrom)", lambda r: 0.5 / P * (r.f * (r.q - ref(2) * 1.8897261)).sum(), 1e-6)

    def ev(r):
        return r.V.mean() - 0.5 / P * (r.dq * r.f).sum() + 1.5 * N * r.T

    for key in ("scaledcoords", "scaledcoords(fd_delta=-0.001)", "scaledcoords(fd_delta=0.0005)"):

        def yama(r):
            def g(x):
                return (1 + x) * r.total(r.qc + np.sqrt(1 + x) * r.dq)[0].mean()

            return np.array([ev(r), (g(1e-3) + g(-1e-3) - 2 * g(0.0)) / 1e-6 * r.T - 1.5 * N * r.T**2])

        add(key, yama, 2e-4 if "0005" in key else 2e-2)
    if P % 2 == 0:
        add("chin_weight", lambda r: (lambda x: np.array([x, x * x, np.exp(x)]))(-1 / (r.T * P) * (r.f2()[1::2].sum() / 9 / r.w2 + (r.V[1::2] - r.V[::2]).sum() / 3)))


        def opsc(r):
            q = r.q.copy()
            q[::2] += 1e-5 * r.dq[::2]
            v1 = (r.dq * r.f)[::2].sum() * 2 / P
            v2 = (r.dq * (r.total(q)[1] - r.f))[::2].sum() * 2 / P / 1e-5
            return np.array([1.5 * N * r.T - 0.5 * v1 + r.V[::2].mean(), 1.5 * N * r.T**2 + 0.75 * r.T * v1 + 0.25 * r.T * v2])

        add("sc_op_scaledcoords", opsc, 2e-4)
        add("potential_opsc", lambda r: r.V[::2].mean())
        add("kinetic_opsc", lambda r: 1.5 * N * r.T - 0.5 * 2 / P * (r.dq * r.f)[::2].sum())
        for a in A[1:]:
            add("kinetic_opsc" + arg(a), lambda r, a=a: 1.5 * len(r.sel(a)) * r.T - 1.0 / P * (r.dq * r.f)[::2][:, r.cols(a)].sum())
    add("ti_weight", lambda r: (lambda x: np.array([x, x * x, np.exp(x)]))(-1 / (r.T * P) * r.f2().sum() / 24 / r.w2))
    if sc:
        add("potential_tdsc", lambda r: (r.wk() * r.V + 2 * r.d() * r.f2()).mean())
        add("kinetic_prsc", lambda r: 1.5 * N * P * r.T - sum(0.5 * M[i] * r.w2 * r.springs(i) for i in range(N)) / P + (r.d() * r.f2()).mean())

        def vsc(r, q):
            V, f, _ = r.total(q)
            return r.wk() * V + r.d() * r.f2(f)

        def fsc(r):
            """minus the gradient of the Suzuki-Chin potential, by central differences"""
            if not hasattr(r, "_fsc"):
                g = np.zeros(r.q.shape)
                for k in range(3 * N):
                    e = np.zeros(r.q.shape)
                    e[:, k] = 1e-4
                    g[:, k] = -(8 * (vsc(r, r.q + e) - vsc(r, r.q - e)) - (vsc(r, r.q + 2 * e) - vsc(r, r.q - 2 * e))) / 12e-4
                r._fsc = g
            return r._fsc

        for a in A:
            add("kinetic_tdsc" + arg(a), lambda r, a=a: 1.5 * len(r.sel(a)) * r.T - 0.5 / P * (r.dq * fsc(r))[:, r.cols(a)].sum() + (r.d() * r.f2(cols=r.cols(a))).mean(), 2e-4)

        def syama(r):
            def g(x):
                V, f, _ = r.total(r.qc + np.sqrt(1 + x) * r.dq)
                return (1 + x) * (r.wk() * V + r.d() * (1 + x) ** 2 * r.f2(f)).mean()

            return np.array([(g(1e-4) - g(-1e-4)) / 2e-4 + 1.5 * N * r.T, (g(1e-3) + g(-1e-3) - 2 * g(0.0)) / 1e-6 * r.T - 1.5 * N * r.T**2])

        add("sc_scaledcoords", syama, 2e-2)
        add("sc_scaledcoords(fd_delta=0.0005)", syama, 2e-4)
        add("forces_sc", lambda r: fsc(r), 2e-3, kind="t")
        add("kstress_tdsc", lambda r: np.trace(r.kstress(fsc(r))) / (3 * r.vol * P), 2e-4)

    # trajectories
    add("x_centroid", lambda r: r.qc, kind="t")
    add("v_centroid", lambda r: (r.p / r.m3).mean(axis=0), kind="t")
    add("p_centroid", lambda r: r.p.mean(axis=0), kind="t")
    add("f_centroid", lambda r: r.f.mean(axis=0), kind="t")
    if P % 2 == 0:
        for o, s in ((0, "even"), (1, "odd")):
            add("x_centroid_" + s, lambda r, o=o: r.q[o::2].mean(axis=0), kind="t")
            add("v_centroid_" + s, lambda r, o=o: (r.p / r.m3)[o::2].mean(axis=0), kind="t")
    add("positions", lambda r: r.q, kind="t")
    add("velocities", lambda r: r.p / r.m3, kind="t")
    add("momenta", lambda r: r.p, kind="t")
    add("forces", lambda r: r.f, kind="t")
    add("forces_spring", lambda r: -np.repeat(M, 3) * r.w2 * (2 * r.q - np.roll(r.q, 1, axis=0) - np.roll(r.q, -1, axis=0)), kind="t")
    add("kinetic_cv", lambda r: 0.5 * r.T - 0.5 / P * (r.dq * r.f).sum(axis=0), kind="t")

    def od(r):
        out = np.zeros((N, 3))
        for i in range(N):
            c = slice(3 * i, 3 * i + 3)
            x = r.dq[:, c].T @ r.f[:, c]
            out[i] = r.vec6(-0.25 / P * (x + x.T))[3:]
        return out.flatten()

    add("kinetic_od", od, kind="t")
    add("r_gyration", lambda r: np.sqrt((r.dq**2).mean(axis=0)), kind="t")
    return Q


def ref(k):
    return np.round(0.3 * np.cos(np.arange(3 * N) * k), 4)


def build(P, layout, sc):
    np.savetxt("ref1.txt", ref(1).reshape(N, 3))
    np.savetxt("ref2.txt", ref(2).reshape(N, 3))
    ffs = sim.ff_xml("ff", PARS[0]) + (sim.ff_xml("ff2", PARS[1]) if layout == "two" else "")
    fc = "<force forcefield='ff'/>" if layout == "one" else "<force forcefield='ff' weight='0.7'/><force forcefield='ff2' nbeads='1' weight='1.3'/>"
    st = states(P)
    beads = "<beads natoms='%d' nbeads='%d'><q shape='(%d,%d)'>%s</q><p shape='(%d,%d)'>%s</p><m shape='(%d)'>%s</m><names shape='(%d)'>[ %s ]</names></beads>" % (
        N, P, P, 3 * N, sim.arr(st[2]["q"]), P, 3 * N, sim.arr(st[2]["p"]), N, sim.arr(M), N, ", ".join(NAMES))
    mot = "<motion mode='dynamics'><fixcom>False</fixcom><dynamics mode='%s'><timestep>1</timestep>%s</dynamics></motion>" % ("sc" if sc else "nve", "<thermostat mode='langevin'><tau>100</tau></thermostat>" if sc else "")
    s = sim.load(sim.simulation_xml(ffs, sim.system_xml(mot, beads=beads, cell=sim.cell_xml(st[2]["h"]), ff=fc, temp=st[2]["T"])))
    return s, s.syslist[0], st


def put(y, st, what="qphT"):
    if "q" in what:
        y.beads.q[:] = st["q"]
    if "p" in what:
        y.beads.p[:] = st["p"]
    if "h" in what:
        y.cell.h = st["h"]
    if "T" in what:
        y.ensemble.temp = st["T"]


def ask(y, q):
    """The answer of i-PI, or the exception it raised."""
    try:
        return ask1(y, q)
    except Exception as e:
        return e


def ask1(y, q):
    kind, key = q[0], q[1]
    if kind == "p":
        return np.array(y.properties[key][0], float)
    v = np.array(y.trajs[key][0], float)
    if kind.startswith("tsel:"):
        a = kind[5:]
        idx = range(N) if a == "" else [int(a)] if a.isdigit() else [i for i in range(N) if NAMES[i] == a]
        v = v.reshape(N, 3)[list(idx)].flatten()
    return v


def show(x):
    return repr(x) if isinstance(x, Exception) else np.round(x, 10).tolist()


def wrong(got, want, tol):
    if isinstance(got, Exception):
        return True
    want = np.array(want, float)
    if got.shape != want.shape and got.size == want.size:
        got = got.reshape(want.shape)
    if got.shape != want.shape:
        return True
    if not np.all(np.isfinite(got)):
        return True
    return bool(np.any(np.abs(got - want) > tol * np.abs(want) + max(1e-12, 1e-3 * tol) * np.max(np.abs(want)) + 1e-15))


HEADS = [
    "kinetic_md", "kinetic_cv", "displacedpath(ux=0.3;uy=-0.2;uz=0.5)", "isotope_scfep(alpha=2.0)", "isotope_zetasc(alpha=2.0;atom=1)", "isotope_zetasc_4th(alpha=0.5)",
    "scaledcoords", "virial_fq", "virial_fq(ref=ref1.txt)", "kinetic_tdsc", "pot_component_raw(0)", "stress_cv",
]


def items(tier):
    q = tier == "quick"
    out = []
    for P, layout, sc in itertools.product((1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6), ("one", "two"), (False, True)):
        if sc and (P % 2 or layout == "two"):
            continue
        out.append(dict(kind="values", P=P, layout=layout, sc=sc))
        n = len(HEADS) if q else len(queries(P, layout, sc))
        for a in range(n):
            if q and P != 2 and layout == "two":
                continue
            out.append(dict(kind="pairs", P=P, layout=layout, sc=sc, first=a, heads=q))
    return out


def run(item):
    R = Result()
    P, layout, sc = item["P"], item["layout"], item["sc"]
    s, y, st = build(P, layout, sc)
    if sc:
        y.forces.alpha = ALPHA
    Q = queries(P, layout, sc)
    if item["kind"] == "values":
        for n, x in enumerate(st):
            put(y, x)
            r = Ref(P, layout, x, sc)
            for q in Q:
                want = q[2](r)
                got = ask(y, q)
                R.transitions += 1
                R.state(P, layout, sc, n, q[0], q[1])
                name = q[1].split("(")[0]
                if n == 0 and not isinstance(got, Exception):
                    dim = (y.properties if q[0] == "p" else y.trajs)[q[1]][1]
                    if dim != DIM.get(name, "undefined"):
                        R.fail("dimension:%s" % name, "%s is reported as a %s and is a %s" % (name, dim, DIM.get(name, "undefined")))
                    size = y.properties.property_dict[name].get("size", 1) if q[0] == "p" else np.size(want)
                    if size != np.size(want):
                        R.fail("size:%s" % name, "%s is declared to have %s values and has %d" % (q[1], size, np.size(want)))
                if wrong(got, want, q[3]):
                    R.fail("value:%s" % q[1].split("(")[0], "%s is %s and should be %s (%d beads, %s component(s), state %d)" % (q[1], show(got), show(want), P, layout, n))
        R.outcome("values", len(Q) * len(st))
        return R
    if item["heads"]:
        A = [q for q in Q if q[1] == HEADS[item["first"]] and q[0] == "p"]
        if not A:
            R.outcome("no such query")
            return R
        A = A[0]
    else:
        A = Q[item["first"]]
    mixed = {}
    for what in ("", "q", "h", "p", "T"):
        x = dict(st[0])
        for k in what:
            x[k] = st[1][k]
        r = Ref(P, layout, x, sc)
        mixed[what] = (x, {(q[0], q[1]): q[2](r) for q in Q})
    r0 = Ref(P, layout, st[0], sc)
    for what in mixed:
        for B in Q:
            put(y, st[0])
            ask(y, A)
            for k in "qp":
                if not np.array_equal(np.array(getattr(y.beads, k)), st[0][k]):
                    R.fail("state:%s" % A[1].split("(")[0], "reading %s changed %s of the simulation" % (A[1], k))
            if not np.array_equal(np.array(y.cell.h), st[0]["h"]) or not np.allclose(np.array(y.forces.f), r0.f, rtol=0, atol=1e-12):
                R.fail("state:%s" % A[1].split("(")[0], "reading %s changed the cell or forces of the simulation" % A[1])
            put(y, mixed[what][0], what)
            got = ask(y, B)
            R.transitions += 2 + len(what)
            R.state(P, layout, sc, A[1], what, B[0], B[1])
            want = mixed[what][1][(B[0], B[1])]
            if wrong(got, want, B[3]):
                R.fail("history:%s" % B[1].split("(")[0], "after %s%s, %s is %s and should be %s (%d beads)" % (A[1], ", a change of %s" % what if what else "", B[1], show(got), show(want), P))
    R.outcome("pairs", len(Q) * len(mixed))
    return R
