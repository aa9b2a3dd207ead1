"""C08: forces, energies and virials are assembled correctly from their components.

The real Forces object is bound to an instant analytic force provider that records
every configuration it is asked to evaluate.  Enumerated: bead numbers, contraction of
each component, weights, time-step weights, open paths, orders in which the results
are read, and histories of moves, weight changes, trial copies, stored and reloaded
states.  Oracles: an independent contraction (lowest ring-polymer modes), the weighted
sum of the analytic components, and finite differences of the total energy along every
coordinate and every cell deformation.
"""

import itertools
import json

import numpy as np

from vlib import vpes
from vlib.core import Result, digest

PROPERTY = "C08"
LEVEL = "model_checking"
TIMEOUT = 300.0
RULE = (
    "one case per (bead number, component layout, open atoms) or per first operation of a history; states are distinct "
    "(layout, bead count, outcome) and (history state) digests; transitions are evaluations and operations on the real objects"
)
ASSUMPTIONS = [
    "the force provider returns the exact energy, force and virial of the configuration it is given",
    "states are reloaded only together with the positions they belong to",
]
BOUNDS = {
    "quick": "1-5 beads, contraction to every smaller number, 1-2 components, 1-3 time-step levels, 2 atoms, open paths none/one/both; histories of 3 operations; Suzuki-Chin with 2 and 4 beads",
    "thorough": "1-8 beads, 1-3 components; histories of 4 operations; Suzuki-Chin with 2, 4 and 6 beads",
}

PARS = [dict(k=0.03, k4=0.01, kp=0.02, c=0.4), dict(k=0.05, k4=0.004, kp=0.0, aniso=1.3), dict(k=0.01, k4=0.02, kp=0.05)]
H0 = np.array([[9.0, 0.7, -0.4], [0.0, 10.0, 0.5], [0.0, 0.0, 11.0]])
NAT = 2


class Req(dict):
    pass


class FF:
    """Instant force provider."""

    def __init__(self, name, pars):
        self.name, self.pars, self.latency = name, pars, 0.0
        self.seen = []
        self.released = 0

    def queue(self, atoms, cell, reqid=-1):
        q = np.array(atoms.q, float).copy()
        h = np.array(cell.h, float).copy()
        self.seen.append(q)
        u, f, v = vpes.evaluate(h, q, **self.pars)
        r = Req(status="Done", t_finished=0.0, t_queued=0.0, t_dispatched=0.0)
        r["result"] = [u, f.flatten(), v.copy(), {"dip": [float(x) for x in q[:3] * 2], "raw": "<%s>" % self.name}]
        return r

    def release(self, r, lock=True):
        self.released += 1


def path(P, shift=0.0):
    rng = np.random.RandomState(11 + P)
    base = np.array([1.0, 0.2, -0.4, -0.7, 0.9, 0.5])
    return base + 0.3 * rng.standard_normal((P, 3 * NAT)) + shift * np.arange(3 * NAT)


def build(P, comps, opened=(), q=None, h=None, alpha=None, eps=-0.001):
    from ipi.engine.beads import Beads
    from ipi.engine.cell import Cell
    from ipi.engine.forces import Forces, ForceComponent

    b = Beads(NAT, P)
    b.q[:] = path(P) if q is None else q
    b.m[:] = [2.0, 3.5]
    c = Cell(H0.copy() if h is None else h)
    ffs = {}
    fcs = []
    for i, k in enumerate(comps):
        n = "ff%d" % k.get("ff", i)
        if n not in ffs:
            ffs[n] = FF(n, PARS[k.get("ff", i)])
        fcs.append(
            ForceComponent(n, nbeads=k["nb"], weight=k["w"], name="c%d" % i, mts_weights=k["mts"], interpolate_extras=k.get("ix"), epsilon=k.get("eps", eps))
        )
    F = Forces()
    F.bind(b, c, fcs, ffs, list(opened), None)
    if alpha is not None:
        F.alpha = alpha
        F.omegan2 = 0.09
    return F, b, c, ffs


def modes(P, opened):
    """Rows are the modes ordered by stiffness."""
    rows = [np.ones(P) / np.sqrt(P)]
    j = np.arange(P)
    if opened:
        for k in range(1, P):
            rows.append(np.sqrt(2.0 / P) * np.cos(np.pi * k * (j + 0.5) / P))
        return np.array(rows)
    for k in range(1, (P - 1) // 2 + 1):
        rows.append(np.sqrt(2.0 / P) * np.cos(2 * np.pi * k * j / P))
        rows.append(np.sqrt(2.0 / P) * np.sin(2 * np.pi * k * j / P))
    if P % 2 == 0:
        rows.append((-1.0) ** j / np.sqrt(P))
    return np.array(rows)


def contraction(P, N, opened):
    if N == P:
        return np.eye(P)
    A, B = modes(P, opened), modes(N, opened)
    return np.sqrt(N / float(P)) * B.T @ A[:N]


def contract_all(P, N, opened, x):
    """Contracts the (P, 3*NAT) array x atom by atom."""
    out = np.zeros((N, x.shape[1]))
    for a in range(NAT):
        T = contraction(P, N, a in opened)
        out[:, 3 * a : 3 * a + 3] = T @ x[:, 3 * a : 3 * a + 3]
    return out


def expand_all(P, N, opened, x):
    out = np.zeros((P, x.shape[1]))
    for a in range(NAT):
        T = contraction(P, N, a in opened)
        out[:, 3 * a : 3 * a + 3] = (P / float(N)) * T.T @ x[:, 3 * a : 3 * a + 3]
    return out


def oracle(P, comps, opened, q, h):
    """Per-bead sums over beads are what is uniquely defined for energies and virials."""
    f = np.zeros((P, 3 * NAT))
    pot = 0.0
    vir = np.zeros((3, 3))
    lev = max(len(k["mts"]) for k in comps)
    flev = [np.zeros((P, 3 * NAT)) for _ in range(lev)]
    vlev = [np.zeros((3, 3)) for _ in range(lev)]
    pots = np.zeros(P)
    exact = True
    for i, k in enumerate(comps):
        N = P if k["nb"] == 0 or k["nb"] > P else k["nb"]
        qc = contract_all(P, N, opened, q)
        ev = [vpes.evaluate(h, x, **PARS[k.get("ff", i)]) for x in qc]
        w = k["w"]
        fe = expand_all(P, N, opened, np.array([e[1].flatten() for e in ev]))
        pe = sum(e[0] for e in ev) * P / N
        ve = np.triu(sum(e[2] for e in ev)) * P / N
        s = sum(k["mts"])
        f += w * s * fe
        pot += w * s * pe
        vir += w * s * ve
        if N == P:
            pots += w * s * np.array([e[0] for e in ev])
        elif not opened:
            T = contraction(P, N, False)
            pots += w * s * (P / float(N)) * T.T @ np.array([e[0] for e in ev])
        else:
            exact = False
        for l, m in enumerate(k["mts"]):
            flev[l] += w * m * fe
            vlev[l] += w * m * ve
    return dict(f=f, pot=pot, vir=vir, flev=flev, vlev=vlev, pots=pots if exact else None)


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol * max(1.0, np.abs(b).max(initial=0.0)))


def lname(P, comps, opened):
    return "P=%d open=%s %s" % (P, list(opened), [(k["nb"], k["w"], list(k["mts"])) for k in comps])


READS = ("f", "pots", "virs", "extras", "mts")


def doread(F, what):
    if what == "f":
        np.array(F.f)
    elif what == "pots":
        np.array(F.pots)
    elif what == "virs":
        np.array(F.virs)
    elif what == "extras":
        F.extras
    elif what == "mts":
        for m in F.mts_forces:
            np.array(m.f), np.array(m.virs)


def check_all(F, P, comps, opened, q, h, r, tag, case):
    o = oracle(P, comps, opened, q, h)
    bad = []
    if not close(F.f, o["f"]):
        bad.append(("f", np.array(F.f).tolist(), o["f"].tolist()))
    if not close(F.pot, o["pot"]):
        bad.append(("pot", float(F.pot), o["pot"]))
    if o["pots"] is not None and not close(F.pots, o["pots"]):
        bad.append(("pots", np.array(F.pots).tolist(), o["pots"].tolist()))
    if not close(F.vir, o["vir"]):
        bad.append(("vir", np.array(F.vir).tolist(), o["vir"].tolist()))
    if not close(np.array(F.virs).sum(axis=0), o["vir"]):
        bad.append(("virs", np.array(F.virs).sum(axis=0).tolist(), o["vir"].tolist()))
    for l, m in enumerate(F.mts_forces):
        if not close(m.f, o["flev"][l]):
            bad.append(("mts%d.f" % l, np.array(m.f).tolist(), o["flev"][l].tolist()))
        if not close(m.vir, o["vlev"][l]):
            bad.append(("mts%d.vir" % l, np.array(m.vir).tolist(), o["vlev"][l].tolist()))
    for i, k in enumerate(comps):
        if k["w"] == 0:
            continue
        N = P if k["nb"] == 0 or k["nb"] > P else k["nb"]
        want = contract_all(P, N, opened, q)
        if not close(F.mbeads[i].q, want):
            bad.append(("contracted path %d" % i, np.array(F.mbeads[i].q).tolist(), want.tolist()))
    for what, got, want in bad:
        r.fail("%s:%s" % (tag, what), "%s: %s is %.160r, should be %.160r" % (lname(P, comps, opened), what, got, want), case)
    r.transitions += 1
    return not bad


# ---------------------------------------------------------------- layouts
def layouts(P, tier):
    single, out = [], []
    for nb in range(0, P + 1):
        for w in (1.0, -0.5):
            out.append([dict(nb=nb, w=w, mts=[1.0])])
    pairs = [(0, 1), (P, P)] + [(0, n) for n in range(2, P)] + ([(P - 1, 1)] if P > 2 else [])
    for nbs in dict.fromkeys(pairs):
        for ws in ((1.0, 1.0), (0.0, 2.0), (0.7, -0.4)):
            for m in (([1.0], [1.0]), ([1.0, 0.0], [0.0, 1.0]), ([-1.0, 1.0], [1.0, 0.0]), ([0.5, 0.25, 0.25], [0.0, 1.0, 1.0])):
                out.append([dict(nb=nbs[0], w=ws[0], mts=m[0]), dict(nb=nbs[1], w=ws[1], mts=m[1])])
    # the same provider used twice
    out.append([dict(nb=0, w=1.0, mts=[1.0]), dict(nb=1, w=-1.0, mts=[1.0], ff=0)])
    if tier == "thorough":
        for nbs in itertools.product(range(0, P + 1), repeat=3):
            if nbs[0] <= nbs[1]:
                out.append([dict(nb=nbs[0], w=1.0, mts=[1.0, 0.0]), dict(nb=nbs[1], w=0.3, mts=[0.0, 1.0]), dict(nb=nbs[2], w=-0.8, mts=[0.5, 0.5])])
    return out


def run_combine(item, r):
    P, opened = item["P"], item["open"]
    for comps in item["layouts"]:
        case = dict(item, layouts=[comps])
        q = path(P)
        F, b, c, ffs = build(P, comps, opened, q)
        nact = {}
        for i, k in enumerate(comps):
            n = "ff%d" % k.get("ff", i)
            N = P if k["nb"] == 0 or k["nb"] > P else k["nb"]
            nact[n] = nact.get(n, 0) + (N if k["w"] != 0 else 0)
        ok = check_all(F, P, comps, opened, q, H0, r, "combine", case)
        for n, ff in ffs.items():
            if len(ff.seen) != nact[n]:
                r.fail("combine:count", "%s: provider %s evaluated %d configurations, %d needed" % (lname(P, comps, opened), n, len(ff.seen), nact[n]), case)
            if ff.released != len(ff.seen):
                r.fail("combine:release", "%s: %d requests released of %d" % (lname(P, comps, opened), ff.released, len(ff.seen)), case)
        # read orders: same values and same number of evaluations
        for first in item["orders"]:
            F2, b2, c2, ff2 = build(P, comps, opened, q)
            for w in first:
                doread(F2, w)
            for n, ff in ff2.items():
                if len(ff.seen) != nact[n]:
                    r.fail("combine:order", "%s: reading %s made %d evaluations instead of %d" % (lname(P, comps, opened), first, len(ff.seen), nact[n]), case)
            check_all(F2, P, comps, opened, q, H0, r, "order", case)
        # energy gradient and virial by finite differences of the real object
        if ok:
            d = 1e-4
            f = np.array(F.f)
            vir = np.array(F.vir)
            g = np.zeros_like(f)
            for idx in np.ndindex(*f.shape):
                e = []
                for s in (d, -d):
                    qq = q.copy()
                    qq[idx] += s
                    b.q = qq
                    e.append(F.pot)
                g[idx] = -(e[0] - e[1]) / (2 * d)
            if not np.allclose(f, g, atol=2e-6):
                r.fail("combine:gradient", "%s: force differs from the energy gradient by %.2e" % (lname(P, comps, opened), np.abs(f - g).max()), case)
            for a in range(3):
                for bb in range(a, 3):
                    e = []
                    for s in (d, -d):
                        D = np.eye(3)
                        D[a, bb] += s
                        c.h = D @ H0
                        b.q = (q.reshape(P, NAT, 3) @ D.T).reshape(P, -1)
                        e.append(F.pot)
                    w = -(e[0] - e[1]) / (2 * d)
                    if abs(w - vir[a, bb]) > 1e-5:
                        r.fail("combine:virial", "%s: virial component %d%d is %g, energy change under that deformation gives %g" % (lname(P, comps, opened), a, bb, vir[a, bb], w), case)
            b.q = q
            c.h = H0.copy()
            check_all(F, P, comps, opened, q, H0, r, "return", case)
            r.transitions += f.size + 6
        # extras
        F3, b3, c3, ff3 = build(P, comps if opened else [dict(x, ix=["dip"]) for x in comps], opened, q)
        x = F3.extras
        want = 0
        dec = not opened
        raw = [""] * P
        for i, k in enumerate(comps):
            if k["w"] == 0:
                continue
            N = P if k["nb"] == 0 or k["nb"] > P else k["nb"]
            v = 2 * contract_all(P, N, opened, q)[:, :3]
            want = want + k["w"] * sum(k["mts"]) * (P / float(N)) * contraction(P, N, False).T @ v
            if N == P:
                raw = [s + "<ff%d>" % k.get("ff", i) for s in raw]
        if dec and any(k["w"] != 0 for k in comps) and not close(x.get("dip", np.zeros(1)), want):
            r.fail("combine:extras", "%s: combined extras %.120r should be %.120r" % (lname(P, comps, opened), np.asarray(x.get("dip")).tolist(), want.tolist()), case)
        if raw[0] and list(x.get("raw", [])) != raw:
            r.fail("combine:raw", "%s: raw extras %r should be %r" % (lname(P, comps, opened), x.get("raw"), raw), case)
        r.states.add(digest([P, list(opened), str(comps)]))
        r.traces += 1
    r.outcome("combine", len(item["layouts"]))


# ---------------------------------------------------------------- histories
HOPS = ("move", "move1", "cell", "weight0", "weight1", "f", "pots", "virs", "mts", "trial+", "trial-", "revert", "revertcell", "clone", "manual")
HL = [
    (3, [dict(nb=0, w=1.0, mts=[1.0])], ()),
    (3, [dict(nb=0, w=1.0, mts=[1.0, 0.0]), dict(nb=1, w=0.5, mts=[0.0, 1.0])], ()),
    (4, [dict(nb=2, w=1.0, mts=[1.0]), dict(nb=4, w=-0.5, mts=[1.0], ff=0)], (0,)),
    (1, [dict(nb=0, w=1.0, mts=[0.5, 0.5])], ()),
]


def run_hist(item, r):
    P, comps0, opened = HL[item["lay"]]
    for rest in itertools.product(HOPS, repeat=item["depth"] - 1):
        seq = (item["first"],) + rest
        comps = [dict(k) for k in comps0]
        F, b, c, ffs = build(P, comps, opened)
        q, h = path(P), H0.copy()
        case = dict(item, only=list(seq))
        if item.get("only") and list(seq) != item["only"]:
            continue

        def nev():
            return sum(len(f.seen) for f in ffs.values())

        for n, op in enumerate(seq):
            q2 = path(P, 0.05 * (n + 1)) + 0.02 * n
            if op == "move":
                q = q2
                b.q = q
            elif op == "move1":
                q = q.copy()
                q[P - 1, 2] += 0.1 + 0.01 * n
                b.q[P - 1, 2] = q[P - 1, 2]
            elif op == "cell":
                h = h * (1.01 + 0.002 * n)
                c.h = h.copy()
            elif op.startswith("weight"):
                i = int(op[-1]) % len(comps)
                comps[i]["w"] = 0.0 if comps[i]["w"] != 0 else 0.8
                F.mforces[i].weight = comps[i]["w"]
            elif op in ("f", "pots", "virs", "mts"):
                doread(F, op)
            elif op in ("trial+", "trial-"):
                # a copy of the system is moved and evaluated, then taken over or dropped
                tb, tc = b.clone(), c.clone()
                T = F.clone(tb, tc)
                for i in range(len(comps)):
                    T.mforces[i].weight = comps[i]["w"]
                tb.q = q2
                check_all(T, P, comps, opened, q2, h, r, "hist:trial copy", case)
                if op == "trial+" and all(k["w"] != 0 for k in comps):
                    b.q = q2
                    q = q2
                    F.transfer_forces(T)
                    e0 = nev()
                    check_all(F, P, comps, opened, q, h, r, "hist:taken over", case)
                    if nev() != e0:
                        r.fail("hist:reeval", "after %s, forces taken over from a copy are computed again (%d evaluations)" % (list(seq[: n + 1]), nev() - e0), case)
            elif op == "manual":
                if all(k["w"] != 0 for k in comps):
                    tb, tc = b.clone(), c.clone()
                    T = F.clone(tb, tc)
                    tb.q = q2
                    nq = [np.array(m.q) for m in T.mbeads]
                    nv = [np.array(m.pots) for m in T.mforces]
                    nf = [np.array(m.f) for m in T.mforces]
                    b.q = q2
                    q = q2
                    F.transfer_forces_manual(nq, nv, nf)
                    if not close(F.f, oracle(P, comps, opened, q, h)["f"]) or not close(F.pot, oracle(P, comps, opened, q, h)["pot"]):
                        r.fail("hist:manual", "after %s: forces set by hand are not those read back" % (list(seq[: n + 1]),), case)
                    # the virial is not part of the transfer, so continue from a move
                    q = q2 + 0.001
                    b.q = q
            elif op in ("revert", "revertcell"):
                check_all(F, P, comps, opened, q, h, r, "hist:before", case)
                st = F.dump_state()
                old, oldh = q, h
                b.q = q2
                if op == "revertcell":
                    c.h = h * 1.02
                doread(F, "f")
                b.q = old
                if op == "revertcell":
                    c.h = oldh
                if all(k["w"] != 0 for k in comps):
                    F.load_state(st)
                    e0 = nev()
                    check_all(F, P, comps, opened, q, h, r, "hist:reverted", case)
                    if nev() != e0:
                        r.fail("hist:reeval", "after %s, a reloaded state is computed again (%d evaluations)" % (list(seq[: n + 1]), nev() - e0), case)
            elif op == "clone":
                tb, tc = b.clone(), c.clone()
                T = F.clone(tb, tc)
                tb.q = q2
                tc.h = h * 0.97
                doread(T, "f")
            r.transitions += 1
        check_all(F, P, comps, opened, q, h, r, "hist:end", case)
        r.traces += 1
        r.states.add(digest(["hist", item["lay"], seq[-2:], [k["w"] for k in comps]]))
    r.outcome("hist")


# ---------------------------------------------------------------- Suzuki-Chin
def run_sc(item, r):
    P, alpha, comps = item["P"], item["alpha"], item["comps"]
    case = item
    q = path(P)
    F, b, c, ffs = build(P, comps, (), q, alpha=alpha, eps=item["eps"])
    name = "P=%d alpha=%g eps=%g %s" % (P, alpha, item["eps"], [(k["nb"], k["w"], k["mts"]) for k in comps])

    def V(qq, h):
        """Suzuki-Chin energy difference from the oracle."""
        o = oracle(P, comps, (), qq, h)
        m3 = np.repeat([2.0, 3.5], 3)
        f2 = (o["f"] ** 2 / m3).sum(axis=1)
        c1 = np.where(np.arange(P) % 2 == 0, -1 / 3.0, 1 / 3.0)
        c2 = np.where(np.arange(P) % 2 == 0, alpha, 1 - alpha) / 0.09 / 9.0
        return (c1 * o["pots"]).sum() + (c2 * f2).sum()

    if not close(F.potsc, V(q, H0)):
        r.fail("sc:energy", "%s: %g should be %g" % (name, F.potsc, V(q, H0)), case)
    f = np.array(F.fsc)
    g = np.zeros_like(f)
    d = 1e-4
    for idx in np.ndindex(*f.shape):
        a, bq = q.copy(), q.copy()
        a[idx] += d
        bq[idx] -= d
        g[idx] = -(V(a, H0) - V(bq, H0)) / (2 * d)
    sc = np.abs(g).max()
    contracted = any(k["nb"] not in (0, P) for k in comps)
    tol = 3e-3 if item["eps"] > 0 else 1e-4
    if not contracted and np.abs(f - g).max() > tol * sc:
        r.fail("sc:force", "%s: Suzuki-Chin force differs from the energy gradient by %.2e of %.2e" % (name, np.abs(f - g).max(), sc), case)
    v = np.array(F.virsc)
    for i in range(3):
        for j in range(i, 3):
            e = []
            for s in (d, -d):
                D = np.eye(3)
                D[i, j] += s
                e.append(V((q.reshape(P, NAT, 3) @ D.T).reshape(P, -1), D @ H0))
            w = -(e[0] - e[1]) / (2 * d)
            if abs(w - v[i, j]) > tol and not contracted:
                r.fail("sc:virial", "%s: Suzuki-Chin virial component %d%d is %g, the energy change under that deformation gives %g" % (name, i, j, v[i, j], w), case)
    # a second evaluation elsewhere, and back
    b.q = path(P, 0.04)
    np.array(F.fsc)
    b.q = q
    if not close(F.fsc, f, 1e-7):
        r.fail("sc:history", "%s: Suzuki-Chin force differs after moving away and back" % name, case)
    r.transitions += f.size
    r.traces += 1
    r.states.add(digest(["sc", P, alpha, str(comps)]))
    r.outcome("sc")


def items(tier):
    q = tier == "quick"
    out = []
    orders = [[x] for x in READS] + [["mts", "f"], ["extras", "pots"], ["virs", "mts"]]
    for P in range(1, 6 if q else 9):
        for op in ((), (0,), (0, 1)):
            L = layouts(P, tier)
            n = 30
            for i in range(0, len(L), n):
                out.append(dict(kind="combine", P=P, open=list(op), layouts=L[i : i + n], orders=orders if (P <= 3 or not q) else orders[-3:]))
    for lay in range(len(HL)):
        for f in HOPS:
            out.append(dict(kind="hist", lay=lay, first=f, depth=3 if q else 4))
    for P in (2, 4) if q else (2, 4, 6):
        for alpha in (0.0, 0.3, 1.0):
            for eps in (-0.001, 0.001):
                cs = [[dict(nb=0, w=1.0, mts=[1.0])], [dict(nb=0, w=0.6, mts=[1.0, 0.0]), dict(nb=0, w=1.0, mts=[0.0, 1.0])]]
                if eps < 0:
                    cs.append([dict(nb=0, w=1.0, mts=[1.0]), dict(nb=1, w=1.0, mts=[1.0])])
                    cs.append([dict(nb=P // 2, w=1.0, mts=[1.0])])
                for k in cs:
                    out.append(dict(kind="sc", P=P, alpha=alpha, eps=eps, comps=k))
    return out


def run(item):
    r = Result()
    {"combine": run_combine, "hist": run_hist, "sc": run_sc}[item["kind"]](item, r)
    return r
