"""C14: bosonic exchange samples the sum over all permutations.

The real exchange potential is evaluated for every labelling of the particles; the average
over labellings of the weight exp(-beta V), and of weight times each estimator or force, must
equal the brute-force sum over all N! permutations of the ring-polymer connections. Forces
are also the derivatives of the potential of that labelling, spectators are not affected, and
the numerical propagator conserves the free energy of the path.
"""

import itertools
import math

import numpy as np

from vlib import configs, sim
from vlib.core import Result

PROPERTY = "C14"
LEVEL = "model_checking"
TIMEOUT = 300.0
RULE = "one case per (number of bosons, beads, spectators, geometry, temperature), inside it all labellings of the bosons and all permutations; states are distinct (case, labelling), transitions are evaluations and propagation steps"
ASSUMPTIONS = ["spring frequencies and normal modes of distinguishable particles are right (C09)"]
BOUNDS = {
    "quick": "1-4 bosons (all 24 labellings and permutations; 5 for one geometry), 2-4 beads, 0-2 spectators in all index orders, 5 geometries, 3 temperatures over 4 orders of magnitude",
    "thorough": "1-5 bosons, 2-6 beads, 7 geometries",
}


def geometry(kind, P, N, seed=0):
    b, i, k = np.meshgrid(np.arange(P), np.arange(N), np.arange(3), indexing="ij")
    x = np.cos(1.7 * b + 2.3 * i + 0.9 * k + 0.31 * b * i + 0.7 * k * i + 1.1 * seed) + 0.4 * np.sin(2.9 * b * (k + 1) + i)
    if kind == "mixed":
        return 0.3 * x
    if kind == "spread":
        return 0.15 * x + 1.5 * i
    if kind == "point":
        return 0 * x
    if kind == "same":  # all particles on top of each other
        return np.repeat(x[:, :1], N, axis=1) * 0.3
    if kind == "huge":  # Boltzmann factors of single permutations underflow
        return 40 * x + 3.0 * i
    if kind == "crossed":  # last beads of one particle near the first beads of the next
        return 0.1 * x + 1.0 * i + b / (P - 1.0)
    if kind == "line":
        return np.where(k == 0, 0.5 * x, 0.0)
    raise ValueError(kind)


def items(tier):
    q = tier == "quick"
    out = []
    geos = ["mixed", "spread", "point", "same", "huge", "crossed"] + ([] if q else ["line"])
    for N, P, g in itertools.product((1, 2, 3, 4) if q else (1, 2, 3, 4, 5), (2, 3, 4) if q else (2, 3, 4, 6), geos):
        for T in (0.0001, 0.003, 0.5):
            out.append(dict(kind="perm", N=N, P=P, geo=g, T=T, idx=list(range(N)), n=N))
    out.append(dict(kind="perm", N=5, P=3, geo="crossed", T=0.003, idx=list(range(5)), n=5))
    out.append(dict(kind="perm", N=5, P=3, geo="huge", T=0.0001, idx=list(range(5)), n=5))
    # spectators, and every order in which the bosons can be listed
    for nat, N in ((2, 1), (3, 2), (4, 2), (4, 3)):
        for idx in itertools.permutations(range(nat), N):
            if N == 3 and q and idx[0] != 1:
                continue
            out.append(dict(kind="perm", N=N, P=3, geo="crossed", T=0.003, idx=list(idx), n=nat))
    for N, P, g in itertools.product((1, 2, 3, 4), (2, 3), geos[:3] + ["crossed"]):
        out.append(dict(kind="prop", N=N, P=P, geo=g, T=0.003, idx=list(range(N)), n=N + 1))
    for P, lab in itertools.product((1, 2, 3), ("label", "index", "all", "empty")):
        out.append(dict(kind="sim", P=P, lab=lab))
    return out


def build(it):
    from ipi.engine.beads import Beads
    from ipi.engine.ensembles import Ensemble
    from ipi.engine.motion import Motion
    from ipi.engine.normalmodes import NormalModes

    n, P = it["n"], it["P"]
    b = Beads(n, P)
    m = np.array([1837.0 * (1.6 + 0.7 * i) for i in range(n)])
    m[it["idx"]] = 1837.0
    b.m = m
    b.names = np.array(["H"] * n)
    mo = Motion()
    mo.dt = 5.0
    nm = NormalModes(mode="rpmd", transform_method="fft", propagator="bab", nmts=it.get("nmts", 10), bosons=np.array(it["idx"], int))
    nm.bind(Ensemble(temp=it["T"]), mo, beads=b)
    return b, nm


def lse(a):
    a = np.asarray(a, float)
    k = a.max()
    return k + np.log(np.exp(a - k).sum())


def signed_mean(logw, x):
    """sum_i exp(logw_i) x_i / sum_i exp(logw_i)"""
    w = np.exp(np.asarray(logw) - lse(logw))
    return np.tensordot(w, np.asarray(x, float), axes=1)


def parity(s):
    s = list(s)
    p = 1
    for i in range(len(s)):
        while s[i] != i:
            j = s[i]
            s[i], s[j] = s[j], s[i]
            p = -p
    return p


def cycles(s):
    seen, c = set(), []
    for i in range(len(s)):
        if i in seen:
            continue
        k = 0
        while i not in seen:
            seen.add(i)
            i = s[i]
            k += 1
        c.append(k)
    return c


def brute(x, m, T, P):
    """Energies, forces, signs of all permutations for positions x[P, N, 3]."""
    N = x.shape[1]
    w2 = (P * T) ** 2  # hbar = kB = 1
    out = []
    for s in itertools.permutations(range(N)):
        e = 0.0
        F = np.zeros_like(x)
        for l in range(N):
            for b in range(P):
                nb, nl = (b + 1, l) if b < P - 1 else (0, s[l])
                d = x[nb, nl] - x[b, l]
                e += 0.5 * m * w2 * (d @ d)
                F[nb, nl] -= m * w2 * d
                F[b, l] += m * w2 * d
        out.append((e, F, parity(s), len(cycles(s)) == 1, len(cycles(s)) == N))
    return out


def run(item):
    r = Result()
    {"perm": run_perm, "prop": run_prop, "sim": run_sim}[item["kind"]](item, r)
    r.outcome(item["kind"])
    return r


def nm_of(it):
    return "N%d P%d %s T%g %s/%d" % (it["N"], it["P"], it["geo"], it["T"], "".join(map(str, it["idx"])), it["n"])


def free_springs(q, m, T, P):
    w2 = (P * T) ** 2
    d = np.roll(q, -1, axis=0) - q
    e = 0.5 * w2 * (m[None, :, None] * d**2).sum()
    return e, w2 * m[None, :, None] * (d - np.roll(d, 1, axis=0))


def run_perm(it, r):
    key = nm_of(it)
    b, nm = build(it)
    N, P, n, T = it["N"], it["P"], it["n"], it["T"]
    beta = 1.0 / (P * T)
    q = geometry(it["geo"], P, n)
    idx = np.array(it["idx"])
    spect = [i for i in range(n) if i not in it["idx"]]
    m = np.array(b.m)
    x = q[:, idx]
    bf = brute(x, 1837.0, T, P)
    lw0 = [-beta * e for e, *_ in bf]
    Z = lse(lw0) - math.lgamma(N + 1)
    want = dict(
        kin=signed_mean(lw0, [1.5 * N / beta - e / P for e, *_ in bf]),
        sign=signed_mean(lw0, [s for _, _, s, _, _ in bf]),
        longest=N * signed_mean(lw0, [l for *_, l, _ in bf]),
        distinct=signed_mean(lw0, [d for *_, d in bf]),
        force=signed_mean(lw0, [F for _, F, *_ in bf]),
    )
    es, fs = free_springs(q[:, spect], m[spect], T, P) if spect else (0.0, None)
    lws, got = [], {k: [] for k in want}
    for lab in itertools.permutations(range(N)):
        qq = q.copy()
        qq[:, idx] = x[:, list(lab)]
        b.q = qq.reshape(P, -1)
        v = float(nm.vspring)
        f = np.array(nm.fspring).reshape(P, n, 3)
        ep = nm.exchange_potential
        vb = float(ep.vspring_and_fspring[0])
        r.transitions += 1
        r.state(key, lab)
        scale = max(1.0, abs(v), abs(vb))
        if abs(v - vb - es) > 1e-9 * scale:
            r.fail("spectator-energy:" + key, "spring energy %r is not the exchange potential %r plus the springs %r of the other particles" % (v, vb, es))
        if spect and not np.allclose(f[:, spect], fs, rtol=1e-9, atol=1e-9 * max(1e-9, np.abs(fs).max())):
            r.fail("spectator-force:" + key, "spring forces of distinguishable particles are wrong")
        vals = dict(kin=ep.kinetic_td, sign=ep.fermionic_sign, longest=ep.longest_probability, distinct=ep.distinct_probability)
        for k, y in vals.items():
            if not np.isfinite(y):
                r.fail("finite:%s:%s" % (k, key), "%s is %r" % (k, y))
                return
            got[k].append(float(y))
        eps = 1e-9 if it["geo"] != "huge" else 1e-6  # rounding of exp(beta E) with beta E up to 1e8
        if not -1 - eps <= vals["sign"] <= 1 + eps or not -eps <= vals["distinct"] <= 1 + eps or not -eps <= vals["longest"] <= N + eps * N:
            r.fail("range:" + key, "estimators out of range: %s" % vals)
        back = np.zeros((P, N, 3))
        back[:, list(lab)] = f[:, idx]
        got["force"].append(back)
        lws.append(-beta * vb)
        # derivative of this labelling's potential
        if lab == tuple(range(N)) or lab == tuple(range(N))[::-1]:
            fd = np.zeros((P, N, 3))
            hstep = 1e-4 * max(1.0, np.abs(q).max()) if it["geo"] != "huge" else 1e-3
            vs = max(1e-12, abs(vb))
            for (bb, l, k) in itertools.product(range(P), range(N), range(3)):
                e = []
                for sg in (1, -1):
                    q2 = qq.copy()
                    q2[bb, idx[l], k] += sg * hstep
                    b.q = q2.reshape(P, -1)
                    e.append(float(ep.vspring_and_fspring[0]))
                    r.transitions += 1
                fd[bb, l, k] = -(e[0] - e[1]) / 2 / hstep
            tol = 1e-5 * max(np.abs(fd).max(), 1e-12) + 1e-13 * vs / hstep + 1e-12
            if it["T"] > 0.0005 and np.abs(fd - f[:, idx]).max() > max(tol, 1e-4 * np.abs(fd).max()):
                r.fail("derivative:" + key, "forces differ from the derivative of the potential by %.3g of %.3g" % (np.abs(fd - f[:, idx]).max(), np.abs(fd).max()))
            b.q = qq.reshape(P, -1)
    r.traces += 1
    if abs(lse(lws) - math.lgamma(N + 1) - Z) > 1e-8 * max(1, abs(Z)):
        r.fail("weight:" + key, "log of the mean weight over labellings is %r, sum over permutations %r" % (lse(lws) - math.lgamma(N + 1), Z))
    for k in want:
        g = signed_mean(lws, got[k])
        sc = np.abs(want[k]).max() if k in ("force",) else max(abs(want[k]), 1.0 if k != "kin" else 1.5 * N / beta)
        if not np.allclose(g, want[k], rtol=1e-7, atol=1e-8 * max(sc, 1e-12)):
            r.fail("%s:%s" % (k, key), "%s averaged over labellings is %s, over permutations %s" % (k, str(g)[:200], str(want[k])[:200]))


def step(nm, b):
    """The free ring polymer part of a step, as the integrators do it."""
    nm.qnm[0, :] += np.array(nm.pnm)[0] / np.array(b.m3)[0] * nm.dt
    nm.free_qstep()


def run_prop(it, r):
    key = nm_of(it)
    errs = []
    for nmts in (4, 8, 16):
        b, nm = build(dict(it, nmts=nmts))
        P, n = it["P"], it["n"]
        q0 = geometry(it["geo"], P, n)
        b.q = q0.reshape(P, -1)
        p0 = np.sqrt(1837 * it["T"] * P) * geometry("mixed", P, n, 3).reshape(P, -1)
        b.p = p0
        e0 = nm.vspring + (np.array(b.p) ** 2 / np.array(b.m3)).sum() / 2
        m = 0.0
        for k in range(12):
            step(nm, b)
            nm_e = nm.vspring + (np.array(b.p) ** 2 / np.array(b.m3)).sum() / 2
            m = max(m, abs(nm_e - e0))
            r.transitions += 1
        errs.append(m / abs(e0))
        b.p = -np.array(b.p)
        for k in range(12):
            step(nm, b)
        if not np.allclose(np.array(b.q), q0.reshape(P, -1), atol=1e-8) or not np.allclose(np.array(b.p), -p0, atol=1e-6):
            r.fail("reverse:" + key, "the propagation with exchange is not reversible")
        r.state(key, nmts)
    r.traces += 1
    if not (errs[2] < 1e-9 or (errs[1] < errs[0] / 2.5 and errs[2] < errs[1] / 2.5)):
        r.fail("conserve:" + key, "the energy of the free path changes by %s with 4, 8, 16 sub-steps" % errs)


def run_sim(it, r):
    P, lab = it["P"], it["lab"]
    nm = {"label": "<bosons id='label' shape='(1)'>[ H ]</bosons>", "index": "<bosons id='index' shape='(2)'>[ 2, 0 ]</bosons>", "all": "<bosons id='index' shape='(3)'>[ 0, 1, 2 ]</bosons>", "empty": ""}[lab]
    cfg = dict(ens="nvt", thermo="pile_l", nbeads=P, natoms=3, fixcom=False)
    x = configs.xml(cfg, 10)
    import re

    nms = ["H", "D", "H"] if lab != "all" else ["H"] * 3
    x = re.sub(r"<names[^>]*>.*?</names>", "<names shape='(3)'>[ %s ]</names>" % ", ".join(nms), x, flags=re.S)
    ms = [1837.0, 3000.0, 1837.0] if lab != "all" else [1837.0] * 3
    x = re.sub(r"<m shape[^>]*>.*?</m>", "<m shape='(3)'>%s</m>" % sim.arr(ms), x, flags=re.S)
    x = x.replace("</system>", "<normal_modes propagator='bab'><nmts>8</nmts>%s</normal_modes></system>" % nm)
    S = sim.load(x)
    s = S.syslist[0]
    bos = {"label": [0, 2], "index": [2, 0], "all": [0, 1, 2], "empty": []}[lab]
    if sorted(int(i) for i in s.nm.bosons) != sorted(bos):
        r.fail("resolve:%s:%d" % (lab, P), "bosons are %s, should be %s" % (list(s.nm.bosons), bos))
        return
    T = s.ensemble.temp
    for k in range(3):
        q = np.array(s.beads.q).reshape(P, 3, 3)
        m = np.array(s.beads.m)
        sp = [i for i in range(3) if i not in bos]
        r.state(lab, P, k)
        key = "%s:%d" % (lab, P)

        def ktd(i):
            return 1.5 * P * T - free_springs(q[:, [i]], m[[i]], T, P)[0] / P

        # (one bead: no springs, classical particles)
        kb = 0.0
        if bos and P > 1:
            kb = compositions(q[:, bos], 1837.0, T, P)["kin"]
        elif bos:
            kb = 1.5 * T * len(bos)
        pr = s.properties
        if P > 1 or not bos:
            tot = pr["kinetic_td"][0]
            w = kb + sum(ktd(i) for i in sp)
            if abs(tot - w) > 1e-9 * abs(w):
                r.fail("kinetic_td:" + key, "kinetic_td is %r, should be %r" % (tot, w))
            for i in range(3):
                sel = [str(i), nms[i]]
                for a in sel:
                    atoms = [i] if a.isdigit() else [j for j in range(3) if nms[j] == a]
                    ib = set(atoms) & set(bos)
                    r.transitions += 1
                    try:
                        v = pr.get_kintd(a)
                    except IndexError:
                        v = None
                    if ib and not set(bos) <= set(atoms):
                        if v is not None:
                            r.fail("subset:" + key, "kinetic_td of a part of the bosons was not refused")
                    else:
                        w = (kb if ib else 0.0) + sum(ktd(j) for j in atoms if j not in bos)
                        if v is None or abs(v - w) > 1e-9 * abs(w):
                            r.fail("kinetic_td:%s:%s" % (a, key), "kinetic_td{%s} is %r, should be %r" % (a, v, w))
            if bos:
                c = compositions(q[:, bos], 1837.0, T, P)
                for p, k2 in (("exchange_distinct_prob", "distinct"), ("exchange_all_prob", "longest"), ("fermionic_sign", "sign")):
                    v = pr[p][0]
                    if abs(v - c[k2]) > 1e-8 * max(1, abs(c[k2])):
                        r.fail("%s:%s" % (p, key), "%s is %r, should be %r" % (p, v, c[k2]))
        else:
            if s.nm.vspring != 0:
                r.fail("classical:" + key, "spring energy %r with one bead" % s.nm.vspring)
        sim.advance(S, 1)
        r.transitions += 1
    r.traces += 1


def compositions(x, m, T, P):
    """The same estimators for one labelling: all ways of cutting 1..N into consecutive cycles, each weighted 1/(last index)."""
    N = x.shape[1]
    beta = 1.0 / (P * T)
    w2 = (P * T) ** 2

    def cyc(u, v):
        path = np.concatenate([x[:, l] for l in range(u, v + 1)])
        d = np.roll(path, -1, axis=0) - path
        return 0.5 * m * w2 * (d**2).sum()

    logs, e, sg, n = [], [], [], []
    for cut in itertools.product((0, 1), repeat=N - 1):
        b = [0] + [i + 1 for i in range(N - 1) if cut[i]] + [N]
        en, lw, s = 0.0, 0.0, 1
        for u, v in zip(b, b[1:]):
            en += cyc(u, v - 1)
            lw -= math.log(v)
            s *= (-1) ** (v - u - 1)
        logs.append(lw - beta * en)
        e.append(en)
        sg.append(s)
        n.append(len(b) - 1)
    return dict(
        kin=signed_mean(logs, [1.5 * N / beta - y / P for y in e]), sign=signed_mean(logs, sg),
        longest=N * signed_mean(logs, [y == 1 for y in n]), distinct=signed_mean(logs, [y == N for y in n]),
    )
