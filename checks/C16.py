"""C16: a simulation starts from the state its input describes.

The <initialize> section is a program: positions, velocities, momenta, masses, labels and cell set
from values, files of every format or checkpoints, for the whole path, one bead or one atom, in
any units, possibly several times. All programs of bounded length over an alphabet of such
instructions are run through the real input and compared with a reference machine written from
the manual. Thermal momenta are judged as a linear map of the random numbers, hence for every
outcome of the generator. Replays of trajectories are compared frame by frame with the file.
"""

import itertools
import json
import os

import numpy as np

from vlib import configs, noise, sim
from vlib.core import Result

PROPERTY = "C16"
LEVEL = "model_checking"
TIMEOUT = 400.0
RULE = "cases are batches of programs with the same first instruction; states are distinct programs, transitions are instructions executed (or replayed frames)"
ASSUMPTIONS = [
    "normal modes and contraction of paths are right (C08, C09)",
    "readers and writers of the file formats are right (C15)",
    "momenta of a file with another number of beads are scaled by the square root of the ratio, as the code documents",
]
BOUNDS = {
    "quick": "2 atoms, 3 beads: all programs of one base file and up to two of 58 further instructions; 1 and 4 beads: one further instruction; thermal momenta for 3 bead numbers, 3 path dynamics, 2 temperatures, whole path and single atoms; 60 replays",
    "thorough": "up to three further instructions of a reduced alphabet of 18, two of all 58 for 1-4 beads",
}

N = 2
ANG = 1.8897261
MS = 4.5710289e-7
AMU = 1822.8885
NAMES = ["H", "C"]
MASSES = np.array([1.00794, 12.0107]) * AMU
H0 = np.array([[10.0, 0.7, -0.4], [0.0, 11.0, 0.9], [0.0, 0.0, 9.5]])


def fields(kind, P, n=N):
    """Deterministic data for a source of P rows."""
    s = sum(ord(x) for x in kind)
    i = np.arange(P * 3 * n).reshape(P, 3 * n)
    return np.round(1.1 * np.sin(0.37 * i * (1 + s % 7) + s) + 0.01 * i, 4)


def modes(P):
    j = np.arange(P)
    rows = [np.ones(P) / np.sqrt(P)]
    for k in range(1, (P - 1) // 2 + 1):
        rows.append(np.sqrt(2.0 / P) * np.cos(2 * np.pi * k * j / P))
        rows.append(np.sqrt(2.0 / P) * np.sin(2 * np.pi * k * j / P))
    if P % 2 == 0:
        rows.append((-1.0) ** j / np.sqrt(P))
    return np.array(rows)


def rescale(x, P):
    n = len(x)
    if n == P:
        return np.array(x)
    k = min(n, P)
    return np.sqrt(P / n) * modes(P)[:k].T @ (modes(n)[:k] @ x)


def xyz(fn, rows, comment, names=NAMES):
    with open(fn, "w") as f:
        for r in rows:
            f.write("%d\n# %s\n" % (len(r) // 3, comment))
            for a in range(len(r) // 3):
                f.write("%s %.10e %.10e %.10e\n" % (names[a % len(names)], *r[3 * a : 3 * a + 3]))


def pdb(fn, rows, title, cell, names=NAMES):
    with open(fn, "w") as f:
        for r in rows:
            if title:
                f.write("TITLE  %s\n" % title)
            f.write("CRYST1%9.3f%9.3f%9.3f%7.2f%7.2f%7.2f%s%4i\n" % (*cell, " P 1        ", 1))
            for a in range(len(r) // 3):
                f.write("ATOM  %5i %4s%1s%3s %1s%4i%1s   %8.3f%8.3f%8.3f%6.2f%6.2f          %2s%2i\n" % (a + 1, names[a], " ", "  1", " ", 1, " ", *r[3 * a : 3 * a + 3], 0, 0, "  ", 0))
            f.write("END\n")


CELLTXT = "CELL(H): " + " ".join("%.10f" % x for x in H0.flatten())


def chk_state(P):
    return dict(q=fields("chkq", P), p=fields("chkp", P) * 3, m=np.array([2000.0, 3000.0]), names=["D", "Li"], h=H0 * 1.05)


def prepare(P):
    """Writes the files all instructions refer to."""
    for k in sorted({1, 2, P, P + 2}):
        xyz("pa_%d.xyz" % k, fields("pa", k), CELLTXT + " positions{angstrom} cell{angstrom}")
        xyz("pn_%d.xyz" % k, fields("pn", k), CELLTXT)
        xyz("pq_%d.xyz" % k, fields("pq", k), "no cell here")
        xyz("v_%d.xyz" % k, 1e3 * fields("v", k), CELLTXT + " velocities{m/s} cell{angstrom}")
        xyz("w_%d.xyz" % k, 1e-4 * fields("w", k), CELLTXT)
        xyz("m_%d.xyz" % k, fields("m", k), CELLTXT + " momenta{atomic_unit}")
        pdb("p_%d.pdb" % k, np.round(fields("pdb", k), 3), "", (5.5, 6.5, 7.5, 90.0, 90.0, 90.0))
        pdb("b_%d.pdb" % k, np.round(fields("pdb2", k), 3), "positions{atomic_unit} cell{atomic_unit}", (12.5, 13.5, 14.5, 90.0, 90.0, 90.0))
        st = chk_state(k)
        xml = sim.simulation_xml(sim.ff_xml(), sim.system_xml("<motion mode='dynamics'><fixcom>False</fixcom><dynamics mode='nve'><timestep>1</timestep></dynamics></motion>",
            beads="<beads natoms='%d' nbeads='%d'><q shape='(%d,%d)'>%s</q><p shape='(%d,%d)'>%s</p><m shape='(%d)'>%s</m><names shape='(%d)'>[ %s ]</names></beads>"
            % (N, k, k, 3 * N, sim.arr(st["q"]), k, 3 * N, sim.arr(st["p"]), N, sim.arr(st["m"]), N, ", ".join(st["names"])), cell=sim.cell_xml(st["h"])))
        with open("c_%d.chk" % k, "w") as f:
            f.write(xml)
    from ase import Atoms
    from ase.io import write

    r = fields("ase", 1)[0].reshape(-1, 3)
    write("a.extxyz", Atoms(NAMES, positions=r, cell=[6.0, 7.0, 8.0], pbc=True), format="extxyz")


class Machine:
    """Reference semantics of the instructions, from the manual."""

    def __init__(self, P):
        self.P = P
        self.q = self.p = self.m = self.names = self.h = None

    def vec(self, old, rows, bead, atom, momentum=False):
        rows = np.array(rows)
        if bead is None and momentum:
            rows = rows * np.sqrt(self.P / float(len(rows)))
        out = np.zeros((self.P, 3 * N)) if old is None else old.copy()
        new = rescale(rows, self.P) if bead is None else rows
        tgt = slice(None) if bead is None else slice(bead, bead + 1)
        cols = slice(None) if atom is None else slice(3 * atom, 3 * atom + 3)
        out[tgt, cols] = new
        return out

    def masses(self, m):
        if self.p is not None and self.m is not None:
            self.p = self.p * np.repeat(np.sqrt(m / self.m), 3)
        self.m = m

    def do(self, op):
        k, src = op["k"], op["src"]
        bead, atom = op.get("bead"), op.get("atom")
        if k == "file":
            q, names, m, h, p = source(op, self.P)
            self.q = self.vec(self.q, q, bead, None)
            self.masses(m)
            self.names = list(names)
            if h is not None:
                self.h = h
            if p is not None:
                self.p = self.vec(self.p, p, bead, None, True)
        elif k == "positions":
            self.q = self.vec(self.q, rows_of(op, self.P), bead, atom)
        elif k == "momenta":
            self.p = self.vec(self.p, rows_of(op, self.P), bead, atom, True)
        elif k == "velocities":
            r = rows_of(op, self.P)
            m3 = np.repeat(self.m, 3) if atom is None else self.m[atom]
            self.p = self.vec(self.p, r * m3, bead, atom, True)
        elif k == "masses":
            m = self.m.copy()
            if src == "manual":
                v = np.array(op["val"]) * op.get("conv", 1.0)
                if atom is None:
                    m = v
                else:
                    m[atom] = v[0]
            else:
                m = source(op, self.P)[2]
            self.masses(m)
        elif k == "labels":
            if src == "manual":
                if atom is None:
                    self.names = list(op["val"])
                else:
                    self.names = list(self.names)
                    self.names[atom] = op["val"][0]
            else:
                self.names = list(source(op, self.P)[1])
        elif k == "cell":
            if src in ("chk", "pdb"):
                self.h = source(op, self.P)[3]
            else:
                self.h = np.array(op["h"]) * op.get("conv", 1.0)


def source(op, P):
    """q, names, m, h, p of a file in internal units."""
    fn, u = op["fn"], op.get("conv", 1.0)
    k = op.get("rows", 1)
    base = fn.split("_")[0].split(".")[0]
    if op["src"] == "chk":
        s = chk_state(k)
        return s["q"], s["names"], s["m"], s["h"], s["p"]
    if op["src"] == "ase":
        from ase.units import Bohr

        return fields("ase", 1) / Bohr, NAMES, np.array([1.008, 12.011]) * AMU, np.diag([6.0, 7.0, 8.0]) / Bohr, None
    if base == "pa":
        return fields("pa", k) * ANG, NAMES, MASSES, H0 * ANG, None
    if base == "pn":
        return fields("pn", k) * u, NAMES, MASSES, H0 * op.get("cconv", 1.0), None
    if base == "pq":
        return fields("pq", k) * u, NAMES, MASSES, None, None
    if base == "p":
        return np.round(fields("pdb", k), 3) * ANG, NAMES, MASSES, np.diag([5.5, 6.5, 7.5]) * ANG, None
    if base == "b":
        return np.round(fields("pdb2", k), 3), NAMES, MASSES, np.diag([12.5, 13.5, 14.5]), None
    raise ValueError(fn)


def rows_of(op, P):
    k = op.get("rows", 1)
    if op["src"] == "manual":
        return np.array(op["val"]).reshape(1 if op.get("bead") is not None else P, -1) * op.get("conv", 1.0)
    if op["src"] == "chk":
        s = chk_state(k)
        if op["k"] == "velocities":
            return s["p"] / np.repeat(s["m"], 3)
        return s["q"] if op["k"] == "positions" else s["p"]
    base = op["fn"].split("_")[0]
    if op["k"] == "velocities":
        return 1e3 * fields("v", k) * MS if base == "v" else 1e-4 * fields("w", k) * op.get("conv", 1.0)
    if op["k"] == "momenta":
        return fields("m", k)
    return source(op, P)[0]


def to_xml(op):
    at = " mode='%s'" % op.get("mode", op["src"])
    if "bead" in op:
        at += " bead='%d'" % op["bead"]
    if "atom" in op:
        at += " index='%d'" % op["atom"]
    if "units" in op:
        at += " units='%s'" % op["units"]
    if "cunits" in op:
        at += " cell_units='%s'" % op["cunits"]
    v = op.get("text") or op.get("fn")
    if v is None:
        if op["k"] == "labels":
            v = "[ %s ]" % ", ".join(op["val"])
        else:
            v = "[ %s ]" % ", ".join("%.12e" % x for x in np.ravel(op["val"] if "val" in op else op["h"]))
    return "<%s%s>%s</%s>" % (op["k"], at, v, op["k"])


def alphabet(P):
    A = []
    last = P - 1

    def val(tag, rows, cols, s=1.0):
        i = np.arange(rows * cols)
        return (s * np.round(np.cos(0.9 * i + len(tag)) + 0.1, 4)).tolist()

    F = [dict(k="file", src="xyz", fn="pa_%d.xyz" % r, rows=r) for r in sorted({1, P, P + 2})]
    F += [dict(k="file", src="xyz", fn="pn_1.xyz", rows=1), dict(k="file", src="xyz", fn="pn_1.xyz", rows=1, units="angstrom", conv=ANG, cunits="angstrom", cconv=ANG)]
    F += [dict(k="file", src="pdb", fn="p_1.pdb", rows=1), dict(k="file", src="pdb", fn="b_%d.pdb" % P, rows=P), dict(k="file", src="ase", fn="a.extxyz", rows=1)]
    F += [dict(k="file", src="chk", fn="c_%d.chk" % r, rows=r) for r in sorted({1, P, P + 2})]
    A += F
    for kind, unit, c in (("positions", "angstrom", ANG), ("velocities", "m/s", MS), ("momenta", None, 1.0)):
        s = {"positions": 1.0, "velocities": 1e-4, "momenta": 2.0}[kind]
        su = {"positions": 1.0, "velocities": 300.0}.get(kind)
        A.append(dict(k=kind, src="manual", val=val(kind, P, 3 * N, s)))
        if unit:
            A.append(dict(k=kind, src="manual", val=val(kind + "u", P, 3 * N, su), units=unit, conv=c))
        for b in sorted({0, last}):
            A.append(dict(k=kind, src="manual", val=val(kind + "b%d" % b, 1, 3 * N, s), bead=b))
        A.append(dict(k=kind, src="manual", val=val(kind + "i", P, 3, s), atom=1))
        A.append(dict(k=kind, src="manual", val=val(kind + "ib", 1, 3, s), atom=0, bead=last))
        A += [dict(k=kind, src="chk", fn="c_%d.chk" % r, rows=r) for r in sorted({P, P + 2})]
    A.append(dict(k="positions", src="xyz", fn="pq_1.xyz", rows=1, units="angstrom", conv=ANG))
    A.append(dict(k="positions", src="xyz", fn="pa_1.xyz", rows=1, bead=last))
    A.append(dict(k="positions", src="pdb", fn="p_1.pdb", rows=1))
    for r in sorted({1, P}):
        A.append(dict(k="velocities", src="xyz", fn="v_%d.xyz" % r, rows=r))
        A.append(dict(k="momenta", src="xyz", fn="m_%d.xyz" % r, rows=r))
    A.append(dict(k="velocities", src="xyz", fn="w_1.xyz", rows=1, units="m/s", conv=MS))
    A.append(dict(k="velocities", src="xyz", fn="v_1.xyz", rows=1, bead=last))
    A.append(dict(k="momenta", src="xyz", fn="m_1.xyz", rows=1, bead=0))
    A.append(dict(k="masses", src="manual", val=[3000.0, 5000.0]))
    A.append(dict(k="masses", src="manual", val=[2.0, 16.0], units="dalton", conv=AMU))
    A.append(dict(k="masses", src="manual", val=[7777.0], atom=1))
    A.append(dict(k="masses", src="xyz", fn="pa_1.xyz", rows=1))
    A.append(dict(k="masses", src="chk", fn="c_1.chk", rows=1))
    A.append(dict(k="labels", src="manual", val=["O", "Si"]))
    A.append(dict(k="labels", src="manual", val=["N"], atom=0))
    A.append(dict(k="labels", src="chk", fn="c_1.chk", rows=1))
    A.append(dict(k="cell", src="manual", h=[[12.0, 1.0, 2.0], [0, 13.0, -1.0], [0, 0, 14.0]]))
    A.append(dict(k="cell", src="manual", h=[[6.0, 1.0, 2.0], [0, 7.0, -1.0], [0, 0, 8.0]], units="angstrom", conv=ANG))
    A.append(dict(k="cell", src="abc", mode="abc", h=np.diag([6.0, 7.0, 8.0]).tolist(), text="[ 6.0, 7.0, 8.0 ]", units="angstrom", conv=ANG))
    c60 = [[9.0, 5.0, 0.0], [0.0, 5.0 * np.sqrt(3), 0.0], [0.0, 0.0, 11.0]]
    A.append(dict(k="cell", src="abcABC", mode="abcABC", h=c60, text="[ 9.0, 10.0, 11.0, 90.0, 90.0, 60.0 ]"))
    A.append(dict(k="cell", src="pdb", fn="p_1.pdb", rows=1))
    A.append(dict(k="cell", src="chk", fn="c_1.chk", rows=1))
    return A


def reduced(A):
    keep = {}
    for i, o in enumerate(A):
        keep.setdefault((o["k"], o["src"], "bead" in o, "atom" in o), i)
    return sorted(keep.values())[:18]


def items(tier):
    q = tier == "quick"
    out = []
    for P in (3,) if q else (1, 2, 3, 4):
        A = alphabet(P)
        for i in range(len(A)):
            out.append(dict(kind="seq", P=P, first=i, depth=2))
        if not q:
            for i in reduced(A):
                for j in reduced(A):
                    out.append(dict(kind="seq", P=P, first=i, second=j, depth=3))
    if q:
        for P in (1, 4):
            out.append(dict(kind="seq", P=P, first=None, depth=1))
    for P, mode, unit in itertools.product((1, 2, 3, 4), ("rpmd", "pa-cmd", "wmax-cmd"), ("kelvin", "default")):
        if P == 1 and mode != "rpmd":
            continue
        for atom, what in itertools.product((None, 0, 1), ("velocities", "momenta")):
            out.append(dict(kind="thermal", P=P, nm=mode, unit=unit, atom=atom, what=what))
            if P > 1 and what == "velocities" and unit == "kelvin":
                for op in ((1,), (0, 1)):
                    out.append(dict(kind="thermal", P=P, nm=mode, unit=unit, atom=atom, what=what, open=op))
    for P, mode in itertools.product((1, 2, 3), ("xyz", "pdb", "ase", "chk")):
        out.append(dict(kind="replay", P=P, mode=mode))
    for P, th, src in itertools.product((1, 2, 3), ("gle", "gle2", "nm_gle"), ("manual", "chk")):
        out.append(dict(kind="gle", P=P, thermo=th, src=src))
    for P in (1, 3):
        out.append(dict(kind="early", P=P))
    return out


def system(P, prog, motion="<motion mode='dynamics'><fixcom>False</fixcom><dynamics mode='nve'><timestep>1</timestep></dynamics></motion>", nm="", temp=0.003):
    return (
        "<system><initialize nbeads='%d'>%s</initialize><forces><force forcefield='ff'/></forces><ensemble><temperature>%.10e</temperature></ensemble>%s%s</system>"
        % (P, "".join(to_xml(o) for o in prog), temp, motion, nm)
    )


def one(R, P, prog):
    m = Machine(P)
    for o in prog:
        m.do(o)
    s = sim.load(sim.simulation_xml(sim.ff_xml(), system(P, prog)))
    b, c = s.syslist[0].beads, s.syslist[0].cell
    R.transitions += len(prog)
    R.state(P, json.dumps(prog, sort_keys=True))
    want = dict(positions=m.q, momenta=np.zeros((P, 3 * N)) if m.p is None else m.p, masses=m.m, cell=m.h)
    got = dict(positions=np.array(b.q), momenta=np.array(b.p), masses=np.array(b.m), cell=np.array(c.h))
    txt = "".join(to_xml(o) for o in prog)
    tag = ">".join("%s:%s%s%s" % (o["k"], o["src"], "/bead" if "bead" in o else "", "/atom" if "atom" in o else "") for o in prog[1:])
    for k in want:
        w, g = want[k], got[k]
        tol = 2e-6 * (np.max(np.abs(w)) + 1e-12) if k != "masses" else 3e-4 * np.max(w)
        if g.shape != w.shape or np.max(np.abs(w - g)) > tol:
            R.fail("%s:%s" % (k, tag), "%s are %s and should be %s after %s (%d beads)" % (k, np.round(g, 5).tolist(), np.round(w, 5).tolist(), txt[-700:], P))
    if [str(x) for x in b.names] != m.names:
        R.fail("labels:%s" % tag, "labels are %s and should be %s after %s" % (list(b.names), m.names, txt[-500:]))


def seq(item):
    R = Result()
    P = item["P"]
    prepare(P)
    A = alphabet(P)
    base = dict(k="file", src="xyz", fn="pa_1.xyz", rows=1)
    i = item["first"]
    firsts = range(len(A)) if i is None else [i]
    for a in firsts:
        head = [base, A[a]]
        if item.get("second") is not None:
            head.append(A[item["second"]])
        else:
            one(R, P, head)
        if item["depth"] == 1:
            continue
        for b in A if item["depth"] == 2 else [A[x] for x in reduced(A)]:
            one(R, P, head + [b])
    R.outcome("programs")
    return R


def thermal(item):
    """Momenta drawn from the Maxwell-Boltzmann distribution of the mode masses."""
    R = Result()
    P, atom = item["P"], item["atom"]
    prepare(P)
    T = 0.003 if item["unit"] == "default" else 450.0 * 3.1668152e-06
    op = "<%s mode='thermal' units='kelvin'%s> %s </%s>" % (item["what"], "" if atom is None else " index='%d'" % atom, "-1" if item["unit"] == "default" else "450.0", item["what"])
    nmx = {
        "rpmd": "<normal_modes transform='fft' propagator='exact'/>",
        "pa-cmd": "<normal_modes propagator='exact'><frequencies style='pa-cmd' shape='(1)'>[ 0.02 ]</frequencies></normal_modes>",
        "wmax-cmd": "<normal_modes transform='matrix'><frequencies style='wmax-cmd' shape='(2)'>[ 0.015, 0.02 ]</frequencies></normal_modes>",
    }[item["nm"]]
    opened = item.get("open", ())
    if opened:
        tag = "<open_paths> %s </open_paths>" % list(opened)
        nmx = nmx[:-2] + ">" + tag + "</normal_modes>" if nmx.endswith("/>") else nmx.replace("</normal_modes>", tag + "</normal_modes>")
    pre = [dict(k="file", src="xyz", fn="pa_%d.xyz" % P, rows=P), dict(k="momenta", src="manual", val=np.zeros(P * 3 * N).tolist())]
    from ipi.engine import simulation as es

    ctl = {}
    orig = es.Simulation.__init__

    def hooked(self, *a, **k):
        prng = k.get("prng") if "prng" in k else [x for x in a if type(x).__name__ == "Random"][0]
        d = noise.Draws(prng.rng[0], values=ctl["values"])
        for i in range(len(prng.rng)):
            prng.rng[i] = d
        ctl["draws"] = d
        return orig(self, *a, **k)

    es.Simulation.__init__ = hooked
    try:

        def momenta(values):
            ctl["values"] = values
            xml = sim.simulation_xml(sim.ff_xml(), system(P, pre, nm=nmx).replace("</initialize>", op + "</initialize>"))
            s = sim.load(xml)
            R.transitions += 1
            return s, np.array(s.syslist[0].beads.p), len([1 for x in ctl["draws"].log if x[0] == "g"])

        s, p0, nd = momenta({})
        rows = []
        for i in range(nd):
            _, p, _ = momenta({i: 1.0})
            rows.append((p - p0).flatten())
            R.state(json.dumps(item), i)
        _, p2, _ = momenta({i: 1.0 for i in range(nd)})
        B = np.array(rows)
        if np.max(np.abs(p2.flatten() - p0.flatten() - B.sum(axis=0))) > 1e-9 * (1 + np.max(np.abs(p2))):
            R.fail("thermal:linear", "thermal momenta are not a linear function of the random numbers")
    finally:
        es.Simulation.__init__ = orig
    y = s.syslist[0]
    cov = B.T @ B
    # reference: each normal mode has variance P kT times its dynamical mass
    U = modes(P)
    wk = [0.0] + [2 * P * 0.003 * np.sin(np.pi * k / P) for k in range(1, (P - 1) // 2 + 1) for _ in (0, 1)] + ([2 * P * 0.003] if P % 2 == 0 else [])

    def matrix(U, wk):
        if item["nm"] == "rpmd":
            fac = [1.0] * P
        elif item["nm"] == "pa-cmd":
            fac = [1.0] + [(w / 0.02) ** 2 for w in wk[1:]]
        else:
            fac = [1.0] + [(w**2 + 0.015**2) / (0.02**2 * (1 + (0.015 / wk[1]) ** 2)) for w in wk[1:]]
        return (U.T * np.array(fac)) @ U

    want = np.zeros((3 * N * P, 3 * N * P))
    closed = matrix(U, wk)
    # an open path has the cosine modes, with the frequencies of a chain of springs
    Uo = np.array([[np.sqrt((2.0 if k else 1.0) / P) * np.cos(np.pi * (j + 0.5) * k / P) for j in range(P)] for k in range(P)])
    chain = matrix(Uo, [2 * P * 0.003 * np.sin(np.pi * k / (2 * P)) for k in range(P)])
    m3 = np.repeat(np.array(y.beads.m), 3)
    for x in range(3 * N):
        if atom is not None and x // 3 != atom:
            continue
        idx = [b * 3 * N + x for b in range(P)]
        want[np.ix_(idx, idx)] = (chain if x // 3 in opened else closed) * m3[x] * P * T
    if np.max(np.abs(p0)) > 0:
        R.fail("thermal:mean", "thermal momenta have a mean")
    if np.max(np.abs(cov - want)) > 1e-8 * np.max(want):
        k = np.unravel_index(np.argmax(np.abs(cov - want)), cov.shape)
        R.fail("thermal:%s" % item["nm"], "covariance of the thermal momenta is %.8g and should be %.8g (elements %s, %s)" % (cov[k], want[k], k, json.dumps(item)))
    R.outcome("thermal")
    return R


def replay(item):
    """Motion 'replay' visits the frames of the trajectory."""
    R = Result()
    P, mode = item["P"], item["mode"]
    prepare(P)
    nfr = 3
    base = [dict(k="file", src="xyz", fn="pn_1.xyz", rows=1)]
    cases = []
    if mode == "xyz":
        for stated, asked, cst, wild in itertools.product((None, "angstrom", "atomic_unit"), (None, "angstrom"), (True, False), (False, True)):
            cases.append((stated, asked, cst, wild))
    elif mode == "pdb":
        for stated, asked, wild in itertools.product((None, "angstrom", "atomic_unit"), (None, "angstrom"), (False, True)):
            cases.append((stated, asked, True, wild))
    elif mode == "ase":
        cases = [(None, None, True, False), (None, None, True, True)]
    else:
        cases = [(None, None, True, False)]
    for ci, (stated, asked, cst, wild) in enumerate(cases):
        if stated and asked and stated != asked:
            continue
        d = "r%d" % ci
        os.makedirs(d)
        data = np.round(fields("replay%d" % ci, nfr * P).reshape(nfr, P, 3 * N), 3)
        conv = {None: 1.0, "atomic_unit": 1.0, "angstrom": ANG}[stated or asked]
        cells = [np.diag([10.0 + f, 11.0, 12.0]) for f in range(nfr)]
        cconv = conv
        if mode == "pdb" and not stated:
            conv = cconv = ANG
        if mode == "ase":
            from ase.units import Bohr

            conv = cconv = 1 / Bohr
        if mode == "chk":
            fn = "c_%d.chk" % P
            data = chk_state(P)["q"][None]
            cells = [chk_state(P)["h"]]
            conv = cconv = 1.0
        else:
            for b in range(P) if wild else [None]:
                fn = os.path.join(d, "t_%s" % ("x" if b is None else b))
                for f in range(nfr):
                    for bb in range(P) if b is None else [b]:
                        com = "Step: %d Bead: %d" % (f, bb)
                        if stated:
                            com += " positions{%s}" % stated
                            if cst:
                                com += " cell{%s}" % stated
                        if mode == "xyz":
                            head = " CELL(H): " + " ".join("%.8f" % x for x in cells[f].flatten())
                            xyz("tmp", [data[f][bb]], com + head)
                        elif mode == "pdb":
                            pdb("tmp", [data[f][bb]], com if stated or wild else "", tuple(np.diag(cells[f])) + (90.0,) * 3)
                        else:
                            from ase import Atoms
                            from ase.io import write

                            a = Atoms(NAMES, positions=data[f][bb].reshape(-1, 3), cell=np.diag(cells[f]), pbc=True)
                            a.info["ipi_comment"] = com + " positions{ase}  cell{ase}"
                            write("tmp", a, format="extxyz")
                        with open(fn, "a") as g:
                            g.write(open("tmp").read())
            fn = os.path.join(d, "t_x")
        if wild and mode != "chk":
            # the wildcard is matched in the working directory
            for b in range(P):
                os.replace(os.path.join(d, "t_%d" % b), "zz%d_%d.extxyz" % (ci, b))
            fn = "zz%d_*.extxyz" % ci
        if stated and not cst:
            cconv = ANG if asked else 1.0
            if asked:
                cconv = None  # which unit the cell has is not specified
        mot = "<motion mode='replay'><file mode='%s'%s>%s</file></motion>" % (mode, " units='%s'" % asked if asked else "", fn)
        s = sim.load(sim.simulation_xml(sim.ff_xml(), system(P, base, motion=mot)))
        y = s.syslist[0]
        tag = "replay:%s:%s:%s%s" % (mode, stated, asked, ":wild" if wild else "")
        n = 0
        for f in range(len(data) + (mode != "chk")):
            # a replayed frame is one step of the simulation
            y.motion.step(f)
            if f == len(data):
                break
            n += 1
            R.transitions += 1
            R.state(P, mode, stated, asked, cst, wild, f)
            if np.max(np.abs(np.array(y.beads.q) - data[f] * conv)) > 1e-6:
                R.fail(tag, "frame %d: positions are %s and should be %s (units stated: %s, asked: %s)" % (f, np.round(np.array(y.beads.q), 5).tolist(), np.round(data[f] * conv, 5).tolist(), stated, asked))
                break
            if mode != "chk" and cconv is not None and np.max(np.abs(np.array(y.cell.h) - cells[f] * cconv)) > 1e-6 * 30:
                R.fail(tag + ":cell", "frame %d: cell is %s and should be %s" % (f, np.array(y.cell.h).tolist(), (cells[f] * cconv).tolist()))
                break
            if mode == "chk" and np.max(np.abs(np.array(y.cell.h) - cells[f])) > 1e-6 * 30:
                R.fail(tag + ":cell", "cell is %s and should be %s" % (np.array(y.cell.h).tolist(), cells[f].tolist()))
        if not getattr(y.motion, "finished", False) and not any(v[0].startswith(tag) for v in R.violations):
            R.fail(tag + ":end", "the end of the trajectory does not end the run")
        R.outcome("replay")
    return R


def gle(item):
    """Extra momenta of a GLE thermostat, from values or from a checkpoint."""
    R = Result()
    P, kind = item["P"], item["thermo"]
    prepare(P)
    mot = "<motion mode='dynamics'><fixcom>False</fixcom><dynamics mode='nvt'><timestep>1</timestep>%s</dynamics></motion>" % configs.thermostat(kind, P, 0.003)
    ns = 2 if kind == "gle2" else 1
    n = P * 3 * N * (ns + 1)
    data = np.round(np.sin(0.7 * np.arange(n)) + 0.1, 4)
    base = [dict(k="file", src="xyz", fn="pa_1.xyz", rows=1)]
    if item["src"] == "manual":
        op = "<gle mode='manual'>[ %s ]</gle>" % ", ".join("%.12e" % x for x in data)
        want = data
    else:
        # a checkpoint written by a simulation with the same thermostat
        s0 = sim.load(sim.simulation_xml(sim.ff_xml(), system(P, base, motion=mot)))
        t0 = s0.syslist[0].motion.thermostat
        t0.s[:] = data.reshape(t0.s.shape)
        s0.chk.store()
        s0.chk.write(store=False)
        fn = s0.chk.filename if os.path.exists(s0.chk.filename) else [x for x in os.listdir(".") if x.endswith("RESTART")][0]
        op = "<gle mode='chk'>%s</gle>" % fn
        want = data
    for pos in (0, 1):
        xml = system(P, base, motion=mot)
        xml = xml.replace("</initialize>", op + "</initialize>") if pos else xml.replace("'>" + to_xml(base[0]), "'>" + op + to_xml(base[0]))
        assert op in xml
        s = sim.load(sim.simulation_xml(sim.ff_xml(), xml))
        got = np.array(s.syslist[0].motion.thermostat.s).flatten()
        R.transitions += 1
        R.state(json.dumps(item), pos)
        if got.shape != want.shape or np.max(np.abs(got - want)) > 1e-9:
            R.fail("gle:%s" % item["src"], "additional momenta of the thermostat are %s and should be %s" % (np.round(got, 4).tolist()[:9], want.tolist()[:9]))
    R.outcome("gle")
    return R


def early(item):
    """Instructions that need what is not known yet are refused or give the right state."""
    R = Result()
    P = item["P"]
    prepare(P)
    A = alphabet(P)
    base = dict(k="file", src="xyz", fn="pa_%d.xyz" % P, rows=P)
    for o in A:
        if o["k"] not in ("velocities", "masses", "labels") or o["src"] == "chk":
            continue
        for prog in ([o, base], [dict(k="positions", src="xyz", fn="pa_%d.xyz" % P, rows=P), o, base]):
            R.state(json.dumps(prog), P)
            R.transitions += len(prog)
            try:
                s = sim.load(sim.simulation_xml(sim.ff_xml(), system(P, prog)))
            except ValueError:
                R.outcome("refused")
                continue
            R.outcome("accepted")
            p = np.array(s.syslist[0].beads.p)
            if o["k"] == "velocities" and not np.any(p):
                R.fail("early:velocities", "velocities given before the masses are dropped without an error: %s" % "".join(to_xml(x) for x in prog)[:300])
    return R


def run(item):
    return dict(seq=seq, thermal=thermal, replay=replay, gle=gle, early=early)[item["kind"]](item)
