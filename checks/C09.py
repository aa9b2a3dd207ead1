"""C09: normal modes represent the same path, and the free ring polymer is propagated
exactly as its Hamiltonian prescribes.

Real Beads/NormalModes objects are built for every bead number, set of open atoms,
transformation method, frequency style and propagator in the bounds; the oracle is the
bead-space Hamiltonian: spring matrix built link by link, kinetic energy from the
masses that the documented frequencies imply, the flow obtained with a matrix
exponential (or the Cayley / velocity-Verlet map of the same Hamiltonian).
"""

import itertools

import numpy as np
import scipy.linalg as sl

from vlib.core import Result, digest

PROPERTY = "C09"
LEVEL = "model_checking"
TIMEOUT = 300.0
RULE = (
    "one case per (beads, atoms, open set, transform); inside it every frequency style x propagator x time step x sequence of steps; "
    "states are distinct (setting, step) digests, transitions are propagations and transformations executed"
)
ASSUMPTIONS = ["transformations and propagation are linear, so the images of a complete set of unit vectors decide all paths"]
BOUNDS = {
    "quick": "1-8, 12, 16 beads; 2 atoms; open set none/one/both; fft and matrix; rpmd, manual, pa-cmd, wmax-cmd; exact, cayley, bab; 2 time steps; all unit vectors",
    "thorough": "1-16, 24, 32 beads; 1-3 atoms; every open subset; 4 time steps",
}

TEMP = 0.004


def build(P, N, opened, transform, style, freqs, prop, dt, nmts=3, bosons=None):
    from ipi.engine.beads import Beads
    from ipi.engine.normalmodes import NormalModes
    from ipi.engine.ensembles import Ensemble
    from ipi.engine.motion import Motion

    b = Beads(N, P)
    b.m[:] = [1837.0, 2900.0, 1100.0][:N]
    nm = NormalModes(mode=style, transform_method=transform, propagator=prop, freqs=freqs, open_paths=list(opened), bosons=np.zeros(0, int), dt=dt, nmts=nmts)
    mo = Motion()
    mo.dt = dt
    nm.bind(Ensemble(temp=TEMP), mo, beads=b)
    return b, nm, mo


def links(P, opened):
    """Spring matrix K with V = 1/2 m wn^2 q.K.q"""
    K = np.zeros((P, P))
    for j in range(P - 1 if opened else P):
        k = (j + 1) % P
        if j == k:
            continue
        K[j, j] += 1
        K[k, k] += 1
        K[j, k] -= 1
        K[k, j] -= 1
    return K


def style_freqs(style, P):
    if style == "rpmd":
        return np.zeros(0)
    if style == "manual":
        return np.array([0.011 + 0.003 * i for i in range(P - 1)])
    if style == "pa-cmd":
        return np.array([0.02])
    return np.array([0.03, 0.01])


def want_dyn(style, fr, w):
    """Frequencies of the internal modes as documented (w: physical frequencies)."""
    if style == "rpmd":
        return w.copy()
    out = w.copy()
    if style == "manual":
        out[1:] = fr
    elif style == "pa-cmd":
        out[1:] = fr[0]
    else:
        wmax, wt = fr
        out[1:] = wt * w[1:] * np.sqrt((1 + (wmax / w[1]) ** 2) / (wmax**2 + w[1:] ** 2))
    return out


def ordered_modes(P, opened, wn):
    """Mode frequencies in i-PI's order, from the documented dispersion relation."""
    k = np.arange(P)
    return 2 * wn * (np.sin(k * np.pi / (2 * P)) if opened else np.sin(k * np.pi / P))


def fail(r, item, key, msg):
    r.fail("%s:open=%d" % (key, len(item["open"]) > 0), "P=%d N=%d open=%s %s: %s" % (item["P"], item["N"], item["open"], item["transform"], msg), item)


def run(item):
    r = Result()
    P, N, opened, tr = item["P"], item["N"], item["open"], item["transform"]
    wn = TEMP * P
    D = P * 3 * N
    m = np.array([1837.0, 2900.0, 1100.0][:N])
    # ---- transformation: orthogonal, invertible, diagonalises the springs
    b, nm, mo = build(P, N, opened, tr, "rpmd", np.zeros(0), "exact", 5.0)
    M = np.zeros((P, 3 * N, P))  # image of unit vectors (same coordinate)
    for j in range(P):
        for c in range(3 * N):
            x = np.zeros((P, 3 * N))
            x[j, c] = 1.0
            b.q = x
            y = np.array(nm.qnm)
            z = y.copy()
            z[:, c] = 0
            if np.abs(z).max() > 1e-12:
                fail(r, item, "mix", "the transformation mixes coordinates")
            M[:, c, j] = y[:, c]
            nm.qnm = x
            back = np.array(b.q)[:, c].copy()
            nm.qnm = y
            if np.abs(np.array(b.q) - x).max() > 1e-10:
                fail(r, item, "inverse", "going to normal modes and back changes a path by %.1e" % np.abs(np.array(b.q) - x).max())
            b.p = x
            if np.abs(np.array(nm.pnm) - y).max() > 1e-12:
                fail(r, item, "momenta", "momenta are transformed differently from positions")
            if np.abs(back @ back - 1) > 1e-10:
                fail(r, item, "norm", "the inverse transformation is not norm-conserving")
            r.transitions += 4
    for c in range(3 * N):
        op = c // 3 in opened
        C = M[:, c, :]
        if np.abs(C @ C.T - np.eye(P)).max() > 1e-10:
            fail(r, item, "orthogonal", "the transformation is not orthogonal")
        if np.abs(C[0] - 1 / np.sqrt(P)).max() > 1e-12:
            fail(r, item, "centroid", "mode 0 is not the centroid")
        w = ordered_modes(P, op, wn)
        K = wn**2 * links(P, op)
        if np.abs(C @ K @ C.T - np.diag(w**2)).max() > 1e-9 * wn**2:
            fail(r, item, "diagonal", "modes do not diagonalise the springs of a%s path (off by %.1e)" % ("n open" if op else " closed", np.abs(C @ K @ C.T - np.diag(w**2)).max() / wn**2))
    # ---- energies, forces and propagation for every style and propagator
    rng = np.random.RandomState(7)
    q0 = rng.standard_normal((P, 3 * N)) * 0.3
    p0 = rng.standard_normal((P, 3 * N)) * 4.0
    for style in item["styles"]:
        if P == 1 and style != "rpmd":
            continue
        fr = style_freqs(style, P)
        for prop in ("exact", "cayley", "bab"):
            if prop == "bab" and opened:
                continue
            for dt in item["dts"]:
                b, nm, mo = build(P, N, opened, tr, style, fr, prop, 1.0)
                mo.dt = dt  # the step is set after binding
                b.q = q0
                b.p = p0
                # dynamical mass matrix in mode space, from the documented frequencies
                V = 0.0
                mass = np.zeros((P, 3 * N))
                wd = np.zeros((P, 3 * N))
                wp = np.zeros((P, 3 * N))
                for c in range(3 * N):
                    op = c // 3 in opened
                    w = ordered_modes(P, op, wn)
                    d = want_dyn(style, fr, w)
                    f2 = np.ones(P)
                    f2[1:] = (w[1:] / d[1:]) ** 2
                    mass[:, c] = m[c // 3] * f2
                    wd[:, c], wp[:, c] = d, w
                    V += 0.5 * m[c // 3] * wn**2 * q0[:, c] @ links(P, op) @ q0[:, c]
                tag = "%s:%s" % (style, prop)
                if abs(nm.vspring - V) > 1e-9 * max(1, V):
                    fail(r, item, "vspring", "spring energy %g, the links of the paths give %g" % (nm.vspring, V))
                F = np.zeros((P, 3 * N))
                for c in range(3 * N):
                    F[:, c] = -m[c // 3] * wn**2 * links(P, c // 3 in opened) @ q0[:, c]
                if P > 1 and np.abs(np.array(nm.fspring) - F).max() > 1e-9 * np.abs(F).max():
                    fail(r, item, "fspring", "spring forces are not the gradient of the spring energy")
                if np.abs(np.array(nm.dynm3) / mass - 1).max() > 1e-9:
                    fail(r, item, "masses:" + style, "dynamical masses do not give the requested frequencies (%s): off by %.1e" % (style, np.abs(np.array(nm.dynm3) / mass - 1).max()))
                pn = np.array(nm.pnm)
                kin = 0.5 * (pn**2 / mass).sum()
                if abs(nm.kin - kin) > 1e-9 * kin:
                    fail(r, item, "kin:" + style, "kinetic energy %.10g instead of %.10g (%s)" % (nm.kin, kin, style))
                ks = np.zeros((3, 3))
                for a in range(N):
                    x = pn[:, 3 * a : 3 * a + 3] / np.sqrt(mass[:, 3 * a : 3 * a + 3])
                    ks += x.T @ x
                if np.abs(np.array(nm.kstress) - ks).max() > 1e-9 * np.abs(ks).max():
                    fail(r, item, "kstress:" + style, "kinetic stress off by %.1e" % np.abs(np.array(nm.kstress) - ks).max())
                # propagation of every unit vector of phase space (mode space)
                for c in item["cols"]:
                    cc = c % (3 * N)
                    op = cc // 3 in opened
                    for k in range(P):
                        mk, wk = mass[k, cc], wp[k, cc]
                        A = np.array([[0.0, -m[cc // 3] * wk**2], [1.0 / mk, 0.0]])  # d/dt (p,q)
                        if k == 0:
                            U = np.eye(2)
                            if prop == "bab":
                                U = np.array([[1.0, 0.0], [0.0, 1.0]])
                        elif prop == "exact":
                            U = sl.expm(A * dt)
                        elif prop == "cayley":
                            U = np.linalg.solve(np.eye(2) - 0.5 * dt * A, np.eye(2) + 0.5 * dt * A)
                        else:
                            h = dt / 3
                            B = np.array([[1.0, 0.5 * h * A[0, 1]], [0, 1]])
                            Q = np.array([[1.0, 0], [h * A[1, 0], 1.0]])
                            U = np.linalg.matrix_power(B @ Q @ B, 3)
                        got = np.zeros((2, 2))
                        for z in range(2):
                            q = np.zeros((P, 3 * N))
                            p = np.zeros((P, 3 * N))
                            # units that keep both columns comparable
                            if z == 0:
                                p[k, cc] = mk * 0.01
                            else:
                                q[k, cc] = 1.0
                            if prop == "bab":
                                q[0] += p[0] / mass[0] * 0.0
                            nm.qnm = q
                            nm.pnm = p
                            if prop == "bab" and k == 0 and z == 0 and P > 1:
                                # centroid drift is undone and redone by this propagator
                                nm.qnm[0] += p[0] / m[cc // 3] * dt
                                exp = p[0] / m[cc // 3] * dt
                            nm.free_qstep()
                            gp, gq = np.array(nm.pnm), np.array(nm.qnm)
                            if prop == "bab" and k == 0 and z == 0 and P > 1:
                                gq[0] -= exp
                            got[0, z], got[1, z] = gp[k, cc], gq[k, cc]
                            gp[k, cc] = gq[k, cc] = 0
                            if np.abs(gp).max() > 1e-9 * mk or np.abs(gq).max() > 1e-9:
                                fail(r, item, "couple:" + tag, "%s propagation of mode %d moves other modes" % (prop, k))
                            r.transitions += 1
                        S = np.diag([mk * 0.01, 1.0])
                        want = U @ S
                        scale = np.array([[mk * 0.01], [1.0]])
                        if np.abs((got - want) / scale).max() > 1e-7:
                            fail(r, item, "flow:" + tag, "%s/%s dt=%g mode %d: (p,q) map %s instead of %s" % (style, prop, dt, k, got.tolist(), want.tolist()))
                        r.states.add(digest([P, tr, op, style, prop, dt, k]))
                # a history: two different steps, reversal of momenta, same steps backwards
                b.q = q0
                b.p = p0
                e0 = nm.kin + nm.vspring
                for s in (dt, 0.5 * dt):
                    mo.dt = s
                    nm.free_qstep()
                    if prop != "bab" and abs(nm.kin + nm.vspring - e0) > 1e-9 * e0:
                        fail(r, item, "energy:" + tag, "free ring polymer energy changes from %.12g to %.12g" % (e0, nm.kin + nm.vspring))
                nm.pnm = -np.array(nm.pnm)
                for s in (0.5 * dt, dt):
                    mo.dt = s
                    nm.free_qstep()
                dq = np.array(b.q) - q0
                if prop == "bab" and P > 1:
                    dq = dq - dq.mean(axis=0)  # the centroid is advanced elsewhere
                if np.abs(dq).max() > 1e-9 or np.abs(np.array(b.p) + p0).max() > 1e-8:
                    fail(r, item, "reverse:" + tag, "propagation back with reversed momenta does not return (%.1e)" % np.abs(dq).max())
                r.transitions += 4
                r.traces += 1
    r.outcome(tr)
    return r


def items(tier):
    q = tier == "quick"
    out = []
    for P in list(range(1, 9)) + [12, 16] if q else list(range(1, 17)) + [24, 32]:
        for N in (2,) if q else (1, 2, 3):
            subs = [(), (0,), (0, 1)] if q else [s for n in range(N + 1) for s in itertools.combinations(range(N), n)]
            for op in subs:
                if max(op, default=0) >= N:
                    continue
                for tr in ("fft", "matrix"):
                    for st in ("rpmd", "manual", "pa-cmd", "wmax-cmd"):
                        out.append(dict(P=P, N=N, open=list(op), transform=tr, styles=[st], dts=[3.0, 25.0] if q else [1.0, 7.0, 25.0, 90.0], cols=[0, 4] if N > 1 else [0]))
    return out
