"""C18: Monte Carlo exchanges of atoms keep the distribution of the ensemble.

The random numbers of the real AlchemyMC and AtomSwap motions are chosen by the checker. From
every state that exchanges can reach, every possible sequence of choices is carried out: the
graph of all states, proposals and outcomes is explored completely. Proposals have to be as
likely as their reverse, the outcome has to follow Metropolis' rule for the exact weight of the
two states (potential, bias and path springs, written directly in terms of coordinates), and
every move has to be an exact exchange that keeps the conserved quantity.
"""

import itertools

import numpy as np

from vlib import sim, vpes
from vlib.core import Result

PROPERTY = "C18"
LEVEL = "model_checking"
TIMEOUT = 400.0
RULE = "one case per (move, selected species, number of beads, system); states are distinct (assignment of species or positions), transitions are executed choice sequences"
ASSUMPTIONS = ["the numbers of the generator have the distributions they are asked for"]
BOUNDS = {
    "quick": "4-5 atoms of 2-3 species, 1-4 beads, closed and open paths, two force components, bias, Hamiltonian weights, PA-CMD masses: all reachable states, all choices of one attempt (one redraw), all sequences of two attempts from the first state",
    "thorough": "1-6 beads, two redraws",
}
MASS = {"H": 1837.0, "D": 3671.0, "C": 21894.0}
PARS = [dict(k=0.004, k4=0.001, kp=0.002, sp=0.3), dict(k=0.003, k4=0.0, kp=0.001, sp=-0.1)]
BIAS = dict(k=0.002, k4=0.0, kp=0.0, sp=0.5)
T = 0.003


class TooLong(Exception):
    pass


class Script:
    """Stands in for the generator: answers from a script, records what was asked."""

    def __init__(self, ntries, draws, us):
        self.ntries, self.draws, self.us = ntries, list(draws), list(us)
        self.nd, self.nu, self.weight, self.lam = 0, 0, 1.0, None
        self.want = None  # number of alternatives of the first draw beyond the script

    def poisson(self, lam=1.0, size=None):
        self.lam = lam
        return self.ntries

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        n = int(high) - int(low) + (1 if endpoint else 0)
        if self.nd >= len(self.draws):
            self.want = n
            raise TooLong()
        self.weight /= n
        self.nd += 1
        return int(low) + self.draws[self.nd - 1]

    @property
    def u(self):
        if self.nu >= len(self.us):
            raise TooLong()
        self.nu += 1
        return self.us[self.nu - 1]

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.u


class System:
    def __init__(self, it):
        self.it = it
        self.P, self.names0 = it["P"], it["species"]
        self.n = len(self.names0)
        self.m0 = np.array([MASS[x] for x in self.names0])
        P, n = self.P, self.n
        i = np.arange(P * 3 * n).reshape(P, 3 * n)
        self.q0 = np.round(1.1 * np.cos(2.0 * np.arange(3 * n) + 0.3)[None, :] + 0.25 * np.sin(1.1 * i) * (P > 1), 6)
        self.p0 = np.round(3 * np.cos(0.7 * i + 1), 6)
        two = it["system"] == "two"
        bias = it["system"] == "bias"
        opn = it["system"] == "open"
        ffs = sim.ff_xml("ff", PARS[0]) + sim.ff_xml("ff2", PARS[1]) + sim.ff_xml("fb", BIAS)
        fc = "<force forcefield='ff' weight='0.7'/><force forcefield='ff2' nbeads='1' weight='1.3'/>" if two else "<force forcefield='ff'/>"
        ens = "<bias><force forcefield='fb'/></bias>" if bias else ""
        if it["system"] == "hweights":
            ens = "<hamiltonian_weights>[ 0.6 ]</hamiltonian_weights>"
        nm = ""
        if opn:
            nm = "<normal_modes propagator='bab' transform='matrix'><open_paths>[ 0, 2 ]</open_paths></normal_modes>"
        elif it["system"] == "pacmd":
            nm = "<normal_modes><frequencies style='pa-cmd'>[ 0.01 ]</frequencies></normal_modes>"
        self.open = [0, 2] if opn else []
        mode = it["move"]
        mot = "<motion mode='%s'><%s><names>[ %s ]</names><nxc>%r</nxc></%s></motion>" % (mode, mode, ", ".join(it["select"]), 1.7, mode)
        if it["system"] == "multi":
            mot = "<motion mode='multi'><motion mode='dynamics'><fixcom>False</fixcom><dynamics mode='nve'><timestep>1</timestep></dynamics></motion>%s</motion>" % mot
        beads = "<beads natoms='%d' nbeads='%d'><q shape='(%d,%d)'>%s</q><p shape='(%d,%d)'>%s</p><m shape='(%d)'>%s</m><names shape='(%d)'>[ %s ]</names></beads>" % (
            n, P, P, 3 * n, sim.arr(self.q0), P, 3 * n, sim.arr(self.p0), n, sim.arr(self.m0), n, ", ".join(self.names0))
        self.sim = sim.load(sim.simulation_xml(ffs, sim.system_xml(mot, beads=beads, cell=sim.cell_xml(None), ff=fc, temp=T, ensemble=ens, nm=nm)))
        self.y = self.sim.syslist[0]
        self.mc = self.y.motion if it["system"] != "multi" else self.y.motion.mlist[1]

    def potential(self, q):
        sys = self.it["system"]
        V = sum(vpes.evaluate(sim.CELL, x, **PARS[0])[0] for x in q)
        if sys == "two":
            V = 0.7 * V + 1.3 * self.P * vpes.evaluate(sim.CELL, q.mean(axis=0), **PARS[1])[0]
        if sys == "hweights":
            V *= 0.6
        if sys == "bias":
            V += sum(vpes.evaluate(sim.CELL, x, **BIAS)[0] for x in q)
        return V

    def springs(self, q, m):
        w2 = (self.P * T) ** 2
        s = 0.0
        for a in range(self.n):
            d = q[:, 3 * a : 3 * a + 3] - np.roll(q[:, 3 * a : 3 * a + 3], 1, axis=0)
            if a in self.open:
                d = d[1:]
            s += 0.5 * m[a] * w2 * (d**2).sum()
        return s if self.P > 1 else 0.0

    def weight(self, st):
        """Energy of the ring polymer in the sampled distribution."""
        q, m = self.decode(st)[:2]
        return self.potential(q) + self.springs(q, m)

    def decode(self, st):
        """st: tuple; alchemy: which original species sits on each atom; swap: whose original position each atom has."""
        st = list(st)
        if self.it["move"] == "alchemy":
            m = self.m0[st]
            return self.q0, m, [self.names0[i] for i in st], self.p0 * np.repeat(np.sqrt(m / self.m0), 3)
        q = self.q0.reshape(self.P, self.n, 3)[:, st].reshape(self.P, -1)
        return q, self.m0, list(self.names0), self.p0

    def put(self, st):
        q, m, names, p = self.decode(st)
        self.y.beads.m[:] = m
        self.y.beads.names[:] = names
        self.y.beads.q[:] = q
        self.y.beads.p[:] = p
        self.mc.ealc = 0.125

    def canon(self, st):
        """Alchemy: atoms of the same species are the same."""
        if self.it["move"] == "alchemy":
            first = {}
            pool = {}
            for i, x in enumerate(self.names0):
                pool.setdefault(x, []).append(i)
            out = []
            for i in st:
                out.append(pool[self.names0[i]][0])
                pool[self.names0[i]] = pool[self.names0[i]][1:]
            return tuple(out)
        return tuple(st)

    def econs(self):
        return float(self.y.ensemble.econs)

    def go(self, st, draws, us, ntries=1):
        """Executes one step; returns (script, state after or None)"""
        self.put(st)
        e0 = self.econs()
        s = Script(ntries, draws, us)
        self.mc.prng = s
        try:
            self.mc.step()
        except TooLong:
            return s, None, 0.0
        return s, self.read(), self.econs() - e0

    def read(self):
        b = self.y.beads
        q, m, names, p = np.array(b.q), np.array(b.m), [str(x) for x in b.names], np.array(b.p)
        return q, m, names, p, np.array(self.y.forces.f), float(self.y.forces.pot)

    def swap(self, st, i, j):
        st = list(st)
        st[i], st[j] = st[j], st[i]
        return self.canon(st)

    def matches(self, got, st):
        q, m, names, p = self.decode(st)
        return np.array_equal(got[0], q) and np.allclose(got[1], m, rtol=1e-12, atol=0) and got[2] == names and np.allclose(got[3], p, rtol=1e-12, atol=1e-14)


def items(tier):
    q = tier == "quick"
    out = []
    for move, (species, select), P, system in itertools.product(
        ("alchemy", "atomswap"),
        ((["H", "D", "H", "C"], ["H", "D"]), (["H", "D", "H", "C"], ["H", "D", "C"]), (["D", "H", "C", "H", "D"], ["D", "H"])),
        (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6),
        ("one", "two", "bias", "hweights", "open", "pacmd", "multi"),
    ):
        if system != "one" and (P == 1 and system not in ("bias", "hweights") or len(species) == 5 and move == "atomswap"):
            continue
        if q and (len(species) == 5 and P > 2 or P == 4 and system not in ("one", "open", "two")):
            continue
        out.append(dict(move=move, species=species, select=select, P=P, system=system, redraws=1 if q else 2))
    return out


def proposals(S, st):
    """All draw sequences of one attempt: {(draws): (weight, state if accepted, script)}"""
    todo, out = [()], {}
    while todo:
        d = todo.pop()
        s, got, de = S.go(st, d, [0.0])
        if got is None:
            if s.want is not None and len(d) < 2 + S.it["redraws"]:
                todo += [d + (k,) for k in range(s.want)]
            continue
        out[d] = (s.weight, got, de, s)
    return out


def run(item):
    R = Result()
    S = System(item)
    P, n = S.P, S.n
    beta = 1.0 / (T * P)
    tag = "%s(%s):%s" % (item["move"], item["system"], "")
    start = S.canon(range(n))
    sel = [i for i in range(n) if S.names0[i] in item["select"]]
    seen, todo, Q = {start}, [start], {}
    edges = {}

    def check(got, de, want, what):
        if not S.matches(got, want):
            R.fail(tag + "move", "%s: the state afterwards is not %s with one exact exchange: %s" % (what, list(want), [np.round(x, 8).tolist() if not isinstance(x, list) else x for x in got[:3]]))
            return
        if abs(de) > 1e-10 * max(1, abs(S.weight(want))):
            R.fail(tag + "conserved", "%s: the conserved quantity changed by %r" % (what, de))
        q = got[0]
        f = np.array([vpes.evaluate(sim.CELL, x, **PARS[0])[1].flatten() for x in q])
        V = sum(vpes.evaluate(sim.CELL, x, **PARS[0])[0] for x in q)
        if item["system"] == "two":
            _, fc, _ = vpes.evaluate(sim.CELL, q.mean(axis=0), **PARS[1])
            f = 0.7 * f + 1.3 * fc.flatten()
            V = S.potential(q)
        if not np.allclose(got[4], f, rtol=1e-9, atol=1e-12) or abs(got[5] - V) > 1e-10:
            R.fail(tag + "forces", "%s: forces or potential afterwards are not those of the configuration" % what)

    while todo:
        st = todo.pop()
        R.state(str(item["move"]), P, item["system"], str(item["select"]), str(st))
        q, m, names, p = S.decode(st)
        edges[st] = {}
        for d, (w, got, de, s) in proposals(S, st).items():
            R.transitions += 1
            if abs(s.lam - 1.7) > 1e-12:
                R.fail(tag + "rate", "the number of attempts has mean %r instead of 1.7" % s.lam)
            if s.nu != 1:
                # decided without a random number: only right when the outcome is certain
                R.fail(tag + "choices", "one attempt used %d random numbers to decide" % s.nu)
                continue
            # which exchange was proposed: read it off the accepted move
            cand = [(i, j) for i in sel for j in sel if i < j and names[i] != names[j] and S.matches(got, S.swap(st, i, j))]
            if not cand:
                R.fail(tag + "move", "draws %s: the state afterwards is not an exchange of two selected atoms of different species: %s" % (list(d), [np.round(x, 8).tolist() if not isinstance(x, list) else x for x in got[:3]]))
                continue
            to = S.swap(st, *cand[0])
            what = "exchange of atoms %d and %d in %s with %d beads" % (*cand[0], list(st), P)
            check(got, de, to, what)
            edges[st][to] = edges[st].get(to, 0.0) + w
            a = np.exp(min(0.0, -beta * (S.weight(to) - S.weight(st))))
            # rejected and accepted right at the threshold
            if a > 1e-300:
                _, g, de = S.go(st, d, [a * (1 - 1e-7)])
                R.transitions += 1
                if not S.matches(g, to):
                    R.fail(tag + "probability", "%s: rejected for a random number below the Metropolis probability %.8g" % (what, a))
                else:
                    check(g, de, to, what)
            if a < 1 - 1e-6:
                _, g, de = S.go(st, d, [a * (1 + 1e-7)])
                R.transitions += 1
                if not S.matches(g, st):
                    R.fail(tag + "probability", "%s: accepted for a random number above the Metropolis probability %.8g" % (what, a))
                elif abs(de) > 1e-12:
                    R.fail(tag + "conserved", "%s, rejected: the conserved quantity changed by %r" % (what, de))
            if to not in seen:
                seen.add(to)
                todo.append(to)
    # proposals are as likely as their reverse
    for a in edges:
        for b, w in edges[a].items():
            r = edges.get(b, {}).get(a, 0.0)
            if abs(r - w) > 1e-12:
                R.fail(tag + "proposal", "the exchange from %s to %s is proposed with probability %.6g, the reverse with %.6g" % (list(a), list(b), w, r))
    # all arrangements are reached
    import math

    if item["move"] == "alchemy":
        c = [sum(1 for i in sel if S.names0[i] == x) for x in set(S.names0[i] for i in sel)]
        full = math.factorial(len(sel))
        for k in c:
            full //= math.factorial(k)
        if len(seen) != full and not R.violations:
            R.fail(tag + "reach", "%d of %d arrangements can be reached" % (len(seen), full))
    # histories of several attempts in one step, from the first state; no attempt: nothing happens
    s, got, de = S.go(start, [], [], ntries=0)
    if got is None or not S.matches(got, start) or abs(de) > 0:
        R.fail(tag + "none", "a step without attempts changed the state")
    pr = [d for d in proposals(S, start) if len(d) == 2][:: 1 if P < 3 else 3]
    for dd in itertools.product(pr, repeat=2):
        for acc in itertools.product((0, 1), repeat=2):
            st, us, dr, ok = start, [], (), True
            for d, x in zip(dd, acc):
                _, g, _ = S.go(st, d, [0.0])
                if g is None:
                    ok = False
                    break
                names = S.decode(st)[2]
                c = [(i, j) for i in sel for j in sel if i < j and names[i] != names[j] and S.matches(g, S.swap(st, i, j))]
                if not c:
                    ok = False
                    break
                to = S.swap(st, *c[0])
                a = np.exp(min(0.0, -beta * (S.weight(to) - S.weight(st))))
                if x:
                    us.append(a * (1 - 1e-7))
                    st = to
                elif a < 1 - 1e-6:
                    us.append(a * (1 + 1e-7))
                else:
                    ok = False
                    break
                dr += d
            if not ok:
                continue
            _, g, de = S.go(start, dr, us, ntries=2)
            R.transitions += 1
            if g is None:
                R.fail(tag + "history", "two attempts in one step make other choices than the same attempts in two steps")
            else:
                check(g, de, st, "attempts %s with outcomes %s in one step" % (list(dr), list(acc)))
                R.outcome("history")
    R.outcome("states", len(seen))
    return R
