"""C13: replica exchange swaps thermodynamic states with the right probability, completely, and keeps track of them.

pair:    for every kind of ensemble two replicas with different thermodynamic states; the
         acceptance probability is computed from fresh simulations that were set up in the
         swapped states, and the real swap is made to happen and not to happen with random
         numbers just below and above it. After an accepted swap the simulation must be
         indistinguishable (state and further trajectory) from one set up in the swapped
         state, after a rejected one from one where nothing was tried.
history: every sequence of outcomes (not tried, rejected, accepted) of all pairs over some
         steps; conserved quantities, replica indices, swap file, sorted outputs.
"""

import copy
import importlib.util
import itertools
import os
import xml.etree.ElementTree as ET

import numpy as np

from vlib import configs, core, noise, sim
from vlib.core import Result

PROPERTY = "C13"
LEVEL = "model_checking"
TIMEOUT = 300.0
RULE = "pair: one case per ensemble kind, thermostat, path dynamics and varied quantity, both replicas orders and all outcomes; history: all outcome sequences; states are distinct replica states seen, transitions are swap attempts and steps"
ASSUMPTIONS = ["the potential energies, spring and barostat terms entering the probabilities are the ones other properties check"]
BOUNDS = {
    "quick": "2 replicas x ~70 ensemble kinds x (accept, reject); 3 replicas, all 27 outcomes per step, 2 steps; sorted outputs of every history",
    "thorough": "as quick with 4 replicas (729 outcomes per step, 1 step), 3 replicas 3 steps (19683 histories)",
}
PACMD = {"freqs": ("pa-cmd", [0.01])}
MAN = {"freqs": ("manual", "manual")}
OPEN = {"open": [0], "transform": "matrix"}
ENS = ("temperature", "pressure", "stress", "bias_weights", "hamiltonian_weights")


def name(c):
    return ",".join("%s=%s" % (k, str(c[k]).replace(" ", "")) for k in sorted(c))


def variants(cfg):
    v = ["temp"]
    if cfg.get("bias"):
        v += ["bweights"]
    if cfg.get("baro") == "anisotropic":
        v += ["stress"]
    elif cfg.get("baro"):
        v += ["press"]
    v += ["hweights"]
    return v


def build(cfg, vary, order=False, steps=50, nsys=2, output="", extra="<stride>1.0</stride>", krescale=True):
    root = ET.fromstring(configs.xml(dict(cfg, nsys=nsys, hweights=0.9), steps, output=output))
    for i, s in enumerate(root.findall("system")):
        e = s.find("ensemble")
        for t, k in (("temperature", "temp"), ("pressure", "press"), ("stress", "stress"), ("bias_weights", "bweights"), ("hamiltonian_weights", "hweights")):
            n = e.find(t)
            if n is None:
                continue
            x = sim.numbers(n.text)
            f = dict(temp=1.35, press=1.6, stress=1.6, bweights=0.5, hweights=0.8)[k] ** (nsys - 1 - i if order else i) if (k in vary) else 1.0
            if t == "temperature":
                x = np.array([configs.T]) * f
                n.text = "%.17e" % x[0]
            elif t == "pressure":
                n.text = "%.17e" % (x[0] * f)
            else:
                n.text = sim.arr(x * f)
    sm = ET.SubElement(root, "smotion", mode="remd")
    sm.append(ET.fromstring("<remd>%s<krescale>%s</krescale></remd>" % (extra, krescale)))
    return ET.tostring(root, encoding="unicode")


def items(tier):
    q = tier == "quick"
    out = []

    def add(kr=True, **c):
        vs = variants(c)
        for vary in [vs[:1], vs[1:], vs]:
            for order in (False, True):
                if q and order and len(vary) < len(vs):
                    continue
                out.append(dict(kind="pair", cfg=c, vary=vary, order=order, kr=kr))

    for nb in (1, 2, 3):
        add(ens="nvt", thermo="langevin", nbeads=nb)
        add(ens="nvt", thermo="svr", nbeads=nb, bias=1)
        add(ens="nvt", thermo="gle", nbeads=nb)
        add(ens="nvt", thermo="pile_g", nbeads=nb)
        add(ens="nvt", thermo="nm_gle", nbeads=nb)
        add(ens="nvt", thermo="nm_gle_g", nbeads=nb)
        add(ens="nvt", thermo="multi:langevin+gle", nbeads=nb)
        add(ens="nvt", thermo="ffl_rescale", nbeads=nb)
        if nb > 1:
            for nm in (PACMD, MAN, OPEN):
                add(ens="nvt", thermo="pile_l", nbeads=nb, nm=nm)
            add(ens="nvt", thermo="pile_l", nbeads=nb, nm={"bosons": [0, 2], "prop": "bab", "nmts": 4})
        add(kr=False, ens="nvt", thermo="langevin", nbeads=nb)
        add(kr=False, ens="nvt", thermo="gle", nbeads=nb)
    add(ens="sc", thermo="pile_l", nbeads=2)
    for nb in (1, 2):
        for ens, baro in (("npt", "isotropic"), ("npt", "flexible"), ("nst", "anisotropic"), ("scnpt", "sc-isotropic")):
            if ens == "scnpt" and nb == 1:
                continue
            add(ens=ens, thermo="langevin", baro=baro, nbeads=nb)
            add(ens=ens, thermo="svr", baro=baro, bthermo="gle", nbeads=nb, bias=1 if ens != "scnpt" else 0)
            if nb == 1:
                add(kr=False, ens=ens, thermo="langevin", baro=baro, nbeads=nb)
    # multi motion: dynamics inside
    add(motion="multi", sub=[dict(motion="dynamics", ens="nvt", thermo="gle"), dict(motion="dynamics", ens="nvt", thermo="svr")], nbeads=2)
    acts = list(itertools.product("0ra", repeat=3))
    for a in acts:
        for multi in (False, True):
            out.append(dict(kind="hist", first=list(a), depth=1 if multi else 2 if q else 3, nsys=3, multi=multi))
    if not q:
        for a in acts:
            out.append(dict(kind="hist", first=list(a), depth=1, nsys=4, multi=False))
    for st in (1.0, 2.0, 3.5, 50.0):
        out.append(dict(kind="try", stride=st))
    return out


def run(item):
    r = Result()
    {"pair": run_pair, "hist": run_hist, "try": run_try}[item["kind"]](item, r)
    r.outcome(item["kind"])
    return r


class U:
    """A generator whose uniform numbers are prescribed, in order."""

    def __init__(self, us):
        self.us = list(us)
        self.n = 0

    @property
    def u(self):
        self.n += 1
        return self.us.pop(0)


def scale_tag(node, f):
    x = sim.numbers(node.text)
    node.text = sim.arr(x * f)


def swapped(text, kr):
    """The checkpoint of the same configurations in each other's thermodynamic state."""
    root = ET.fromstring(text)
    a, b = root.findall("system")
    T = [sim.numbers(s.find("ensemble/temperature").text)[0] for s in (a, b)]
    ea, eb = a.find("ensemble"), b.find("ensemble")
    for t in ENS:
        na, nb = ea.find(t), eb.find(t)
        if na is not None:
            na.text, nb.text = nb.text, na.text
    for s, f in ((a, T[1] / T[0]), (b, T[0] / T[1])):
        if kr:
            scale_tag(s.find("beads/p"), np.sqrt(f))
            for n in s.iter("barostat"):
                if n.find("p") is not None:
                    scale_tag(n.find("p"), f)
        for n in s.iter("thermostat"):
            if n.find("s") is not None:
                scale_tag(n.find("s"), np.sqrt(f))
    ha, hb = [[n.find("h0") for n in s.iter("barostat")] for s in (a, b)]
    for na, nb in zip(ha, hb):
        if na is not None:
            na.text, nb.text = nb.text, na.text
            # in units that may be written as attributes both are the same
    return ET.tostring(root, encoding="unicode")


def barostats(m):
    if hasattr(m, "mlist"):
        return [b for x in m.mlist for b in barostats(x)]
    b = getattr(m, "barostat", None)
    return [b] if b is not None and type(b).__name__ != "Barostat" else []


def logprob(s):
    e = s.ensemble
    x = s.nm.vspring + s.nm.kin + s.forces.pot + e.bias.pot
    if getattr(s.motion, "enstype", "") in ("sc", "scnpt"):
        x += s.forces.potsc
    if getattr(s.motion, "enstype", "") in ("npt", "nst", "scnpt"):
        for b in barostats(s.motion):
            x += b.kin + b.pot + b.cell_jacobian
    return -x / (e.temp * s.beads.nbeads)


def snapshot(S):
    root = ET.fromstring(sim.restart_text(S))
    for s in root.findall("system"):
        n = s.find("ensemble/eens")
        if n is not None:
            n.text = "0.0"
    for n in root.findall("smotion"):
        for x in n.iter("repindex"):
            x.text = ""
    for n in root.findall("prng"):
        root.remove(n)
    return ET.tostring(root, encoding="unicode")


def fresh(text):
    return sim.load(text)


def move(S, n=2):
    """Moves all replicas with the same prescribed noise; returns what they did."""
    S.smotion = None
    d = noise.install(S)
    d.reset({}, 0.37)
    out = []
    e0 = [s.ensemble.econs for s in S.syslist]
    for k in range(n):
        S.run_step(S.step + k)
        for s, e in zip(S.syslist, e0):
            out.append(np.array(s.beads.q))
            out.append(np.array(s.beads.p))
            out.append(np.array(s.cell.h))
            out.append(np.array([s.ensemble.econs - e]))
            out.append(np.array([s.ensemble.lpens]))
    return out


def close(a, b, tol):
    return all(np.allclose(x, y, rtol=tol, atol=tol * (1e-30 + np.abs(y).max())) for x, y in zip(a, b))


def run_pair(item, r):
    cfg = item["cfg"]
    kr = item["kr"]
    nm = "%s:vary=%s%s%s" % (name(cfg), "+".join(item["vary"]), ":reversed" if item["order"] else "", "" if kr else ":nokrescale")
    x = build(cfg, item["vary"], item["order"], krescale=kr)
    os.makedirs("a", exist_ok=True)
    os.chdir("a")
    S = sim.load(x)
    # somewhere along a trajectory, without swaps
    sm = S.smotion
    S.smotion = None
    d = noise.install(S)
    d.reset({}, 0.29)
    for k in range(3):
        S.run_step(k)
    S.smotion = sm
    start = sim.restart_text(S)
    lp0 = sum(logprob(s) for s in S.syslist)
    F = fresh(swapped(start, kr))
    lp1 = sum(logprob(s) for s in F.syslist)
    r.traces += 1
    ratio = np.exp(lp1 - lp0)
    plain = fresh(start)
    lpp = sum(logprob(s) for s in plain.syslist)
    if abs(lpp - lp0) > 1e-8 * max(1, abs(lp0)):
        r.fail("logprob:" + nm, "ensemble probability %r, the same state set up afresh %r" % (lp0, lpp))
        return
    # just below and just above the acceptance probability, and the extremes
    tests = []
    if ratio < 1:
        tests = [(ratio * (1 - 1e-6), True), (ratio * (1 + 1e-6), False)]
    else:
        tests = [(0.0, True), (1.0 - 1e-15, True)]
    snap0 = snapshot(S)
    want_acc = snapshot(F)
    mv_acc = move(fresh(swapped(start, kr)))
    mv_rej = move(fresh(start))
    for it, (u, acc) in enumerate(tests):
        Q = sim.load(start)
        # rebuild by a restart of the same state: check it first against the original
        ec0 = [s.ensemble.econs for s in Q.syslist]
        Q.smotion.prng = U([0.0, u])
        for s in Q.syslist:
            s.ensemble.lpens
        Q.smotion.step(7)
        ec1 = [s.ensemble.econs for s in Q.syslist]
        got = list(Q.smotion.repindex)
        r.transitions += 1
        r.state(nm, round(u, 9), got)
        if (got == [1, 0]) != acc:
            r.fail("accept:" + nm, "the ratio of the probabilities is %.9g; with the random number %.9g the swap was %s" % (ratio, u, "accepted" if got == [1, 0] else "rejected"))
            continue
        for i in range(2):
            if abs(ec1[i] - ec0[i]) > 1e-9 * max(1, abs(ec0[i])):
                r.fail("econs:" + nm, "the conserved quantity of replica %d jumps from %r to %r in a swap attempt (accepted: %s)" % (i, ec0[i], ec1[i], acc))
        df = sim.diff_leaves(sim.leaves(snapshot(Q)), sim.leaves(want_acc if acc else snap0), rtol=1e-9, atol=1e-14)
        if df:
            r.fail("state:%s:%s" % ("accepted" if acc else "rejected", nm), "after the swap was %s: %s" % ("accepted" if acc else "rejected", str(df[:4])[:600]))
        if it < 2 or not acc:
            m = move(Q)
            if not close(m, mv_acc if acc else mv_rej, 1e-7):
                r.fail("motion:%s:%s" % ("accepted" if acc else "rejected", nm), "after the swap was %s the replicas do not move as replicas in that state do" % ("accepted" if acc else "rejected"))
            r.transitions += 2


def run_try(item, r):
    st = item["stride"]
    cfg = dict(ens="nvt", thermo="langevin", nbeads=1, natoms=2)
    x = build(cfg, ["temp"], extra="<stride>%r</stride>" % st)
    for u, tried in ((0.0, True), (1 / st - 1e-9, True), (1 / st + 1e-9, False), (1 - 1e-12, st == 1.0)):
        if not 0 <= u < 1:
            continue
        S = sim.load(x)
        S.smotion.prng = U([u, 0.5, 0.5])
        S.smotion.step(0)
        r.transitions += 1
        r.state(st, u)
        if (S.smotion.prng.n == 2) != tried:
            r.fail("stride:%r" % st, "swaps are to be tried with probability 1/%r; with the random number %r %d numbers were drawn" % (st, u, S.smotion.prng.n))
    r.traces += 1


OUT = ("<output prefix='sim'><properties stride='1' filename='p'>[ step, ensemble_temperature, potential, conserved ]</properties>"
       "<properties stride='2' filename='p2'>[ step, ensemble_temperature, potential ]</properties>"
       "<trajectory stride='1' filename='pos' format='xyz'>positions</trajectory>"
       "<trajectory stride='2' filename='mom' format='xyz'>momenta</trajectory>"
       "<trajectory stride='1' filename='cen' format='pdb'>x_centroid</trajectory></output>")


def run_hist(item, r):
    ns = item["nsys"]
    npair = ns * (ns - 1) // 2
    spec = importlib.util.spec_from_file_location("remdsort", os.path.join(core.REPO, "tools/py/remdsort.py"))
    rs = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(rs)
    cfg = dict(ens="nvt", thermo="langevin", nbeads=2, natoms=1, fixcom=False)
    x = build(cfg, ["temp", "hweights"], nsys=ns, output=OUT, steps=item["depth"], extra="<stride>2.0</stride>")
    if item["multi"]:
        root = ET.fromstring(x)
        sm = root.find("smotion")
        root.remove(sm)
        m = ET.SubElement(root, "smotion", mode="multi")
        ET.SubElement(m, "smotion", mode="dummy")
        m.append(sm)
        x = ET.tostring(root, encoding="unicode")
    rest = itertools.product(*[["0", "r", "a"]] * (npair * item["depth"] - len(item["first"])))
    base = os.getcwd()
    k = 0
    for t in rest:
        acts = list(item["first"]) + list(t)
        if ns == 4 and k % 1 != 0:
            continue
        d = os.path.join(base, "h%d" % k)
        k += 1
        os.makedirs(d)
        os.chdir(d)
        if not history(x, acts, ns, npair, item, rs, r):
            break
    os.chdir(base)


def history(x, acts, ns, npair, item, rs, r):
    key = "%s%s" % ("".join(acts), ":multi" if item["multi"] else "")
    S = sim.load(x)
    sm = S.smotion.mlist[-1] if item["multi"] else S.smotion
    us = []
    for a in acts:
        us += [0.9] if a == "0" else [0.1, np.inf if a == "r" else -1.0]
    sm.prng = U(us)
    temps0 = [s.ensemble.temp for s in S.syslist]
    hw0 = [np.array(s.ensemble.hweights) for s in S.syslist]
    model = list(range(ns))
    rows = []
    truth = {}  # step -> list over systems
    pairs = [(i, j) for i in range(ns) for j in range(i)]
    it = iter(acts)
    orig = S.smotion.step
    bad = []
    held = {0: list(model)}
    seen = {0: [seen_of(s) for s in S.syslist]}

    def step(step=None):
        e0 = [s.ensemble.econs for s in S.syslist]
        orig(step)
        e1 = [s.ensemble.econs for s in S.syslist]
        hit = False
        for i, j in pairs:
            if next(it) == "a":
                model[i], model[j] = model[j], model[i]
                hit = True
        if hit:
            rows.append([step] + list(model))
        r.transitions += 1
        if not np.allclose(e0, e1, rtol=1e-10, atol=1e-12):
            bad.append("conserved quantities change from %s to %s" % (e0, e1))
        for i, s in enumerate(S.syslist):
            if abs(s.ensemble.temp - temps0[model[i]]) > 1e-15 or not np.allclose(np.array(s.ensemble.hweights), hw0[model[i]], rtol=1e-14):
                bad.append("replica %d should be in state %d" % (i, model[i]))
        if list(sm.repindex) != model:
            bad.append("replica indices are %s, should be %s" % (list(sm.repindex), model))
        held[step + 1] = list(model)
        seen[step + 1] = [seen_of(s) for s in S.syslist]
        r.state(key[: npair * (step + 1)], model)

    S.smotion.step = step
    S.run()
    for o in S.outputs:
        o.close_stream()
    r.traces += 1
    if sm.prng.us:
        bad.append("not all pairs were tried")
    got = [[int(v) for v in l.split()] for l in open("sim.remd_idx").read().splitlines() if l.strip() and not l.startswith("#")]
    if got != rows:
        bad.append("swap file has %s, should have %s" % (got, rows))
    if bad:
        r.fail("history:" + key, "; ".join(bad)[:700], acts)
        return len(r.violations) < 6
    # outputs sorted by thermodynamic state
    open("input.xml", "w").write(x)
    rs.main("input.xml")
    import gc

    gc.collect()
    for e in range(ns):
        for fn, st in (("p", 1), ("p2", 2)):
            want = []
            for n in sorted(held):
                if n % st == 0:
                    i = held[n].index(e)
                    want.append([n, temps0[e], seen[n][i][0]])
            have = [[float(v) for v in l.split()[:3]] for l in open("SRT_s%d_sim.%s" % (e, fn)) if not l.startswith("#")]
            if np.shape(have) != np.shape(want) or not np.allclose(have, want, rtol=1e-9):
                bad.append("sorted properties of state %d: %s, should be %s" % (e, have, want))
        for b in range(2):
            for fn, st, w in (("pos", 1, 1), ("mom", 2, 2)):
                want = [seen[n][held[n].index(e)][w][b] for n in sorted(held) if n % st == 0]
                L = open("SRT_s%d_sim.%s_%d.xyz" % (e, fn, b)).read().splitlines()
                have = [[float(v) for v in l.split()[1:4]] for l in L[2::3]]
                if np.shape(have) != np.shape(want) or not np.allclose(have, want, rtol=1e-4, atol=1e-4):
                    bad.append("sorted trajectory %s of state %d: %s, should be %s" % (fn, e, have, want))
        want = [seen[n][held[n].index(e)][3] * 0.529177 for n in sorted(held)]
        have = [[float(l[30:38]), float(l[38:46]), float(l[46:54])] for l in open("SRT_s%d_sim.cen.pdb" % e) if l.startswith("ATOM")]
        if np.shape(have) != np.shape(want) or not np.allclose(have, want, atol=2e-3):
            bad.append("sorted centroids of state %d: %s, should be %s" % (e, have, want))
    if bad:
        r.fail("sorted:" + key, "; ".join(bad)[:700], acts)
    return len(r.violations) < 6


def seen_of(s):
    return (float(s.forces.pot) / s.beads.nbeads, np.array(s.beads.q), np.array(s.beads.p), np.array(s.beads.qc))
