"""C15: what is written to an output file is what is read back from it.

Every format, quantity, unit, cell and frame sequence of the bounded space is written by the
real writers and read by the real readers and must come back, in internal units, within the
precision of the format, frame by frame, followed by the end of the file. Every file is also cut
after every byte (the crash points of the writer) and read: frames that were complete come back,
a torn frame never does with made-up values. Whole simulations are run with all outputs on and
every file is compared, row by row and frame by frame, with an independent step-by-step run.
"""

import io as pyio
import itertools
import os
import re

import numpy as np

from vlib import sim
from vlib.core import Result

PROPERTY = "C15"
LEVEL = "model_checking"
TIMEOUT = 300.0
RULE = "cases are (format, quantity) pairs, torn files, headers and whole runs; states are distinct files (format, quantity, unit, cell unit, cell, number of atoms and frames, cut); transitions are frames, rows or cut files read back"
ASSUMPTIONS = [
    "ASE's own extended XYZ reader and writer",
    "a cut inside the last number of the last line cannot be told from a complete file and is not judged",
    "labels of at most four characters; values within the columns of the PDB format",
]
BOUNDS = {
    "quick": "xyz, pdb, json, extended xyz, binary x all trajectory quantities x all units with 3 prefixes x 5 cell units x 6 cells x 1, 2 and 5 atoms x files of 1-3 frames; all byte cuts of 6 files; 48 header styles; all consistent and conflicting explicit units; 10 runs (1, 2, 3, 11 beads; strides 1-3; all formats; per bead and single bead)",
    "thorough": "8 prefixes, 12 cells, files of up to 4 frames, all byte cuts of 14 files, 30 runs",
}

A = 1.8897261
CELLS = {
    "cube": (10.0, 10.0, 10.0, 90.0, 90.0, 90.0),
    "ortho": (8.0, 11.5, 21.25, 90.0, 90.0, 90.0),
    "tri": (10.0, 11.0, 9.5, 85.0, 92.0, 77.0),
    "obtuse": (7.0, 9.0, 12.0, 101.0, 115.0, 120.0),
    "long": (310.0, 15.0, 42.0, 60.0, 90.0, 90.0),
    "hex": (12.0, 12.0, 30.0, 90.0, 90.0, 120.0),
    "rhomb": (13.0, 13.0, 13.0, 55.0, 55.0, 55.0),
    "a60": (9.0, 10.0, 11.0, 90.0, 60.0, 90.0),
    "a120": (9.0, 10.0, 11.0, 120.0, 90.0, 90.0),
    "skew": (22.0, 5.5, 6.5, 33.0, 44.0, 62.0),
    "flat": (100.0, 100.0, 3.5, 90.0, 90.0, 90.0),
    "monoc": (9.1, 18.0, 5.0, 90.0, 104.0, 90.0),
}
QCELLS = ["cube", "ortho", "tri", "obtuse", "long", "hex"]
NAMES = ["H", "Cl", "D", "C", "He"]
ANAMES = ["H", "Cl", "Li", "C", "He"]
LONG = ["C13", "Cl37", "H", "Zp", "XX4b"]
PREF = ["", "pico", "kilo", "nano"]
TPREF = ["", "pico", "kilo", "nano", "milli", "micro", "femto", "mega", "giga"]
FMTS = ["xyz", "pdb", "json", "ase", "bin"]


def hmat(name):
    a, b, c, al, be, ga = CELLS[name]
    al, be, ga = np.radians([al, be, ga])
    va = np.array([a, 0, 0])
    vb = np.array([b * np.cos(ga), b * np.sin(ga), 0])
    cx = np.cos(be)
    cy = (np.cos(al) - np.cos(be) * np.cos(ga)) / np.sin(ga)
    vc = c * np.array([cx, cy, np.sqrt(1 - cx**2 - cy**2)])
    return np.array([va, vb, vc]).T


def abc(h):
    L = np.sqrt((h**2).sum(axis=0))

    def ang(i, j):
        return np.degrees(np.arccos(np.clip(np.dot(h[:, i], h[:, j]) / (L[i] * L[j]), -1, 1)))

    return np.array([L[0], L[1], L[2], ang(1, 2), ang(0, 2), ang(0, 1)])


def values(nat, f, scale=1.0, big=False):
    i = np.arange(3 * nat)
    q = scale * (3.1 * np.sin(1.3 * i + 0.7 * f) + 0.01 * i)
    if nat > 1:
        q[1] = 0.0
        q[2] = -scale * 1.2345678e-7
        q[4] = scale * 97.123456
    if big and nat > 1:
        # what the columns of a PDB file can hold
        q[0], q[3], q[4], q[5] = -123.4567, 1234.5678, -987.6543, 9876.5432
    return q


def traj_keys():
    from ipi.engine.properties import Trajectories

    return [(k, d["dimension"]) for k, d in Trajectories().traj_dict.items() if "dimension" in d]


def items(tier):
    q = tier == "quick"
    out = []
    for f in FMTS:
        for n in (1, 2, 5):
            out.append(dict(kind="rt", fmt=f, nat=n, tier=tier))
    for f, nat, nfr, c in [("xyz", 2, 2, "tri"), ("xyz", 1, 3, "cube"), ("json", 2, 2, "tri"), ("json", 1, 3, "ortho"), ("xyz", 3, 1, "obtuse"), ("ase", 2, 2, "tri")] + (
        [] if q else [("xyz", 5, 3, "hex"), ("xyz", 12, 1, "tri"), ("json", 5, 3, "hex"), ("xyz", 2, 4, "long"), ("xyz", 1, 1, "cube"), ("json", 1, 1, "cube"), ("json", 2, 4, "long"), ("ase", 1, 3, "cube")]
    ):
        out.append(dict(kind="torn", fmt=f, nat=nat, frames=nfr, cell=c))
    out.append(dict(kind="header"))
    for f in ("xyz", "pdb", "json"):
        out.append(dict(kind="explicit", fmt=f))
    for f in ("xyz", "pdb"):
        out.append(dict(kind="path", fmt=f))
    runs = [
        dict(P=1, n=1, stride=1, fmt="xyz"), dict(P=2, n=3, stride=2, fmt="xyz", steps=13), dict(P=3, n=2, stride=3, fmt="xyz"),
        dict(P=11, n=1, stride=2, fmt="xyz"), dict(P=2, n=2, stride=1, fmt="ase"), dict(P=2, n=2, stride=1, fmt="pdb"),
        dict(P=1, n=2, stride=3, fmt="pdb", steps=13), dict(P=3, n=3, stride=1, fmt="xyz", ibead=1), dict(P=4, n=2, stride=2, fmt="xyz", ibead=-2), dict(P=2, n=2, stride=1, fmt="bin"),
    ]
    if not q:
        runs += [dict(P=P, n=n, stride=s, fmt=f) for P in (1, 4) for n in (1, 4) for s in (2, 5) for f in ("xyz", "pdb", "ase")][:21]
    out += [dict(dict(kind="run", steps=25 if not q else 6), **r) for r in runs]
    return out


def make_atoms(nat, q, names):
    from ipi.engine.atoms import Atoms

    a = Atoms(nat)
    a.q[:] = q
    a.names[:] = (names * nat)[:nat]
    return a


def make_cell(h):
    from ipi.engine.cell import Cell

    c = Cell()
    c.h = h
    return c


def tolerance(fmt, u):
    """Half a unit in the last printed place, for values u in the units of the file."""
    u = np.abs(np.asarray(u, float))
    if fmt == "xyz":
        e = np.floor(np.log10(np.where(u > 0, u, 1e-300)) + 1e-9)
        return 0.5001e-5 * 10.0**e + 1e-300
    if fmt == "pdb":
        return np.full(u.shape, 0.5001e-3)
    if fmt == "ase":
        return 0.5001e-8 + 1e-12 * u
    return 1e-12 * u + 1e-300


def cell_tolerance(fmt):
    return {"xyz": (0.51e-5, 0.51e-5), "pdb": (0.51e-3, 0.51e-2), "ase": (2e-6, 2e-6)}.get(fmt, (1e-9, 1e-7))


def conv(dim, unit):
    """Independent conversion factors: value in internal units of one unit."""
    from ipi.utils.units import UnitMap, UnitPrefix

    if dim == "number":
        return 1.0
    for p in sorted(UnitPrefix, key=len, reverse=True):
        if p and unit.startswith(p) and unit[len(p) :].lower() in UnitMap[dim]:
            return UnitPrefix[p] * UnitMap[dim][unit[len(p) :].lower()]
    return UnitMap[dim][unit.lower()]


def as_file(text):
    with open("f.extxyz", "w") as f:
        f.write(text)
    return open("f.extxyz")


def compare(R, key, ret, q, h, names, fmt, cq, cc, tag, masses=True):
    """One frame read back (internal units) against what was written."""
    at, ce = ret["atoms"], ret["cell"]
    if len(at.q) != len(q):
        R.fail("%s:natoms" % tag, "%d atoms read back instead of %d (%s)" % (len(at.q) // 3, len(q) // 3, key))
        return False
    err = np.abs(np.asarray(at.q) / cq - q / cq)
    tol = tolerance(fmt, q / cq)
    if not np.all(err <= tol):
        i = int(np.argmax(err - tol))
        R.fail("%s:values" % tag, "value %d was %.8g and is read back as %.8g (internal units; %s)" % (i, q[i], at.q[i], key))
        return False
    if [str(x) for x in at.names] != [str(x) for x in names]:
        R.fail("%s:names" % tag, "labels %s are read back as %s (%s)" % (names, list(at.names), key))
        return False
    t0, t1 = cell_tolerance(fmt)
    x, y = abc(np.asarray(ce.h)), abc(np.asarray(h))
    if not (np.all(np.abs(x[:3] - y[:3]) / cc <= t0 + 1e-12 * y[:3] / cc) and np.all(np.abs(x[3:] - y[3:]) <= t1 + 30 * t0 / np.min(y[:3] / cc))):
        R.fail("%s:cell" % tag, "cell %s is read back as %s (%s)" % (np.round(y, 6), np.round(x, 6), key))
        return False
    if masses:
        from ipi.utils.units import Elements

        m = [Elements.mass_list.get(n, None) for n in names]
        for i, v in enumerate(m):
            if v is not None and abs(at.m[i] / (v * 1822.8885) - 1) > 2e-3:
                R.fail("%s:masses" % tag, "atom %s is read back with mass %g (%s)" % (names[i], at.m[i], key))
                return False
    return True


def roundtrip(item):
    """All quantities, units, cell units, cells and frame counts of one format."""
    from ipi.utils.io import iter_file, print_file, read_file
    from ipi.utils.units import UnitMap

    R = Result()
    fmt, nat, q = item["fmt"], item["nat"], item["tier"] == "quick"
    pref = PREF if q else TPREF
    cells = QCELLS if q else list(CELLS)
    nmax = 3 if q else 4
    for key, dim in traj_keys():
        if fmt == "pdb" and dim != "length":
            continue
        if fmt == "ase":
            units = ["automatic", "ase"]
        elif dim in ("number", "undefined"):
            units = ["automatic"]
        else:
            base = [u for u in UnitMap[dim] if u not in ("", "automatic", "ase", "radian", "degree")]
            units = ["automatic"] + [p + u for u in base for p in (pref if u != "atomic_unit" else [""])]
            if dim == "length":
                units.append("Angstrom")
        if fmt == "pdb":
            units = ["automatic", "atomic_unit", "angstrom", "Angstrom", "nanometer", "picometer"]
        cunits = ["automatic", "ase"] if fmt == "ase" else ["automatic", "atomic_unit", "angstrom", "nanometer", "picometer"]
        default = {"pdb": "angstrom", "ase": "ase"}.get(fmt, "atomic_unit")
        for unit, cu in itertools.product(units, cunits):
            cq = conv(dim, default if unit == "automatic" else unit)
            cc = conv("length", default if cu == "automatic" else cu)
            if fmt == "pdb" and (cu == "picometer" or unit == "picometer"):
                pass
            combos = [(c, k) for c in cells for k in range(1, nmax + 1)]
            if unit != units[0] and cu != cunits[0]:
                combos = combos[:: 5 if q else 2]
            for cname, nfr in combos:
                frames = []
                buf = pyio.StringIO() if fmt != "bin" else None
                fn = "f.bin"
                if fmt == "bin":
                    buf = open(fn, "wb")
                labels = (ANAMES if fmt == "ase" else NAMES if nfr % 2 else LONG)[:nat]
                labels = (labels * nat)[:nat]
                for f in range(nfr):
                    scale = 1.0 if dim != "velocity" else 1e-3
                    v = values(nat, f, scale)
                    if fmt == "pdb":
                        lim = 60.0 * cq
                        v = v * min(1.0, lim / 100.0) if unit == "nanometer" else v
                        if np.max(np.abs(v)) / cq > 9000:
                            v = v / 10
                        if f == 1 and unit != "nanometer":
                            v = values(nat, f, scale, big=True) * cq
                    h = hmat(cells[(cells.index(cname) + f) % len(cells)])
                    frames.append((v, h))
                    print_file(fmt, make_atoms(nat, v, labels), make_cell(h), buf, title="Step:  %10d  Bead:   %5d " % (10 * f, 0), key=key, dimension=dim, units=unit, cell_units=cu)
                    R.transitions += 1
                R.state(fmt, key, unit, cu, cname, nat, nfr)
                desc = "%s %s{%s} cell{%s} %s nat=%d frames=%d" % (fmt, key, unit, cu, cname, nat, nfr)
                tag = "rt:%s:%s" % (fmt, key)
                if fmt == "bin":
                    buf.close()
                    fd = open(fn, "rb")
                elif fmt == "ase":
                    fd = as_file(buf.getvalue())
                else:
                    fd = pyio.StringIO(buf.getvalue())
                got = []
                if nfr % 2:
                    for ret in iter_file(fmt, fd):
                        got.append(ret)
                        if len(got) > nfr:
                            break
                else:
                    while len(got) <= nfr:
                        try:
                            got.append(read_file(fmt, fd))
                        except EOFError:
                            break
                if len(got) != nfr:
                    R.fail(tag + ":frames", "%d frames written and %d read (%s)" % (nfr, len(got), desc))
                    continue
                for ret, (v, h) in zip(got, frames):
                    compare(R, desc, ret, v, h, labels, fmt, cq, cc, tag, masses=fmt not in ("json", "bin"))
                R.outcome("files")
    return R


def torn(item):
    """Reads the file cut after every byte."""
    from ipi.utils.io import print_file, read_file

    R = Result()
    fmt, nat = item["fmt"], item["nat"]
    labels = (ANAMES * nat)[:nat]
    frames = []
    text = ""
    ends = []
    for f in range(item["frames"]):
        v = values(nat, f) + 0.5
        h = hmat(item["cell"])
        buf = pyio.StringIO()
        print_file(fmt, make_atoms(nat, v, labels), make_cell(h), buf, title="Step:  %10d  Bead:   %5d " % (f, 0), key="positions", dimension="length", units="automatic", cell_units="automatic")
        text += buf.getvalue()
        ends.append(len(text))
        frames.append((v, h))
    c = conv("length", {"ase": "ase"}.get(fmt, "atomic_unit"))
    for cut in range(len(text) + 1):
        t = text[:cut]
        R.state(item["fmt"], item["nat"], item["frames"], cut)
        fd = pyio.StringIO(t) if fmt != "ase" else as_file(t)
        done = sum(1 for e in ends if e <= cut)
        # the last frame is whole but for the end of its last token
        start = ends[done - 1] if done else 0
        rest = text[cut : ends[done]] if done < len(ends) else ""
        almost = done < len(ends) and cut > start and not re.search(r"\S\s+\S", rest.strip("\n") and (text[cut - 1] + rest.rstrip())) and len(rest.split()) <= 1 and text[cut - 1 : cut].strip() != ""
        if fmt == "json":
            almost = not rest.strip()  # the document is complete
        n = 0
        ended = ""
        while n <= len(ends):
            try:
                ret = read_file(fmt, fd)
            except EOFError:
                ended = "eof"
                break
            except BaseException as e:
                ended = type(e).__name__
                break
            R.transitions += 1
            if n >= done and not almost:
                R.fail("torn:%s" % fmt, "the file is cut %d bytes into frame %d of %d and the torn frame is returned as if complete: %s %s" % (cut - start, done, len(ends), list(ret["atoms"].names), np.round(ret["atoms"].q, 4)))
                break
            if n < done or (fmt == "json" and almost):
                if not compare(R, "cut at byte %d of %d" % (cut, len(text)), ret, frames[n][0], frames[n][1], labels, fmt, c, c, "torn:%s" % fmt, masses=fmt != "json"):
                    break
            n += 1
        if n < done:
            if fmt == "ase":
                continue  # ASE indexes the whole file first and refuses torn ones
            R.fail("torn-lost:%s" % fmt, "%d complete frames, %d read from the file cut at byte %d (%s)" % (done, n, cut, ended))
        R.outcome(ended or "complete")
    return R


def header(item):
    """Cells given in the comment line in all supported ways."""
    from ipi.utils.io import read_file

    R = Result()
    rot = []
    for k in range(3):
        a = 0.4 + 0.9 * k
        c, s = np.cos(a), np.sin(a)
        M = np.eye(3)
        i, j = [(0, 1), (1, 2), (0, 2)][k]
        M[i, i] = M[j, j] = c
        M[i, j], M[j, i] = -s, s
        rot.append(M if not rot else M @ rot[-1])
    x = np.array([[0.3, 1.2, -0.7], [2.0, -1.0, 0.25]])
    for cname, style, (l, r), cu, unit in itertools.product(["cube", "tri", "obtuse", "hex"], ["abcABC", "H", "GENH0", "GENH1", "GENH2", "none"], ["()", "[]", "{}"], ["", "angstrom"], ["", "angstrom", "picometer"]):
        h = hmat(cname)
        if style == "abcABC":
            head = "abcABC", " ".join("%.9f" % v for v in CELLS[cname])
            q = x
        elif style == "H":
            head = "H", " ".join("%.9f" % v for v in h.flatten())
            q = x
        elif style == "none":
            head = None
            q = x
        else:
            g = rot[int(style[-1])] @ h  # rotated lattice vectors in columns
            head = "GENH", " ".join("%.12f" % v for v in g.T.flatten())
            q = x @ rot[int(style[-1])].T
        com = ""
        if unit:
            com += " positions{%s}" % unit
        if cu:
            com += " cell{%s}" % cu
        if head:
            com = "# CELL%s%s%s: %s %s" % (l, head[0], r, head[1], com)
        elif cu:
            continue
        text = "2\n%s\n" % com + "".join("%s %.12f %.12f %.12f\n" % (n, *v) for n, v in zip("HC", q))
        cq, cc = conv("length", unit or "atomic_unit"), conv("length", cu or "atomic_unit")
        if style.startswith("GENH") and cq != cc:
            pass  # coordinates are turned with the cell, whatever their units
        ret = read_file("xyz", pyio.StringIO(text))
        R.state(cname, style, l, cu, unit)
        R.transitions += 1
        tag = "header:%s" % style[:4]
        if np.max(np.abs(np.asarray(ret["atoms"].q).reshape(-1, 3) - x * cq)) > 1e-8 * max(1.0, cq):
            R.fail(tag, "positions %s are read as %s (%s)" % ((x * cq).tolist(), np.asarray(ret["atoms"].q).tolist(), text[:160]))
        if head and np.max(np.abs(np.asarray(ret["cell"].h) - h * cc)) > 1e-7 * cc * 30:
            R.fail(tag, "cell %s is read as %s (%s)" % ((h * cc).tolist(), np.asarray(ret["cell"].h).tolist(), text[:160]))
        if not head and ret["cell"].V > 0:
            R.fail(tag, "a file without cell is read with cell %s" % np.asarray(ret["cell"].h).tolist())
        R.outcome(style)
    return R


def explicit(item):
    """Units asked for by the reader: used if the file states none, refused if it states others."""
    from ipi.utils.io import print_file, read_file

    R = Result()
    fmt = item["fmt"]
    v, h = values(2, 0), hmat("tri")
    lab = NAMES[:2]
    default = "angstrom" if fmt == "pdb" else "atomic_unit"
    for ustate, cstate, uask, cask, dim in itertools.product([None, "angstrom", "atomic_unit"], [None, "angstrom", "atomic_unit"], ["automatic", "angstrom", "atomic_unit"], ["automatic", "angstrom", "atomic_unit"], ["automatic", "length"]):
        buf = pyio.StringIO()
        print_file(fmt, make_atoms(2, v, lab), make_cell(h), buf, key="positions", dimension="length", units=ustate or "atomic_unit", cell_units=cstate or "atomic_unit")
        t = buf.getvalue()
        if ustate is None:
            t = re.sub(r"positions\{\w*\}", "", t)
        if cstate is None:
            t = re.sub(r"cell\{\w*\}", "", t)
        if fmt == "pdb" and (ustate is None or cstate is None):
            # a PDB file which says nothing is in angstrom
            if uask not in ("automatic", "angstrom") or cask not in ("automatic", "angstrom"):
                continue
        if not (ustate or cstate) and dim == "automatic" and uask != "automatic":
            continue  # a unit without a dimension has no meaning
        if ustate is None and dim == "automatic":
            continue
        conflict = ustate is not None and ((uask != "automatic" and uask != ustate) or (cask != "automatic" and cask != (cstate or default)))
        if ustate is None and cstate is not None and cask not in ("automatic", cstate):
            continue  # not specified which one wins
        R.state(fmt, ustate, cstate, uask, cask, dim)
        R.transitions += 1
        try:
            ret = read_file(fmt, pyio.StringIO(t), dimension=dim, units=uask, cell_units=cask)
        except ValueError:
            if not conflict:
                raise
            R.outcome("refused")
            continue
        tag = "explicit:%s" % fmt
        if conflict:
            R.fail(tag + ":conflict", "units %s/%s are asked for a file that states %s/%s and it is read without complaint" % (uask, cask, ustate, cstate))
            continue
        uu = ustate or (uask if uask != "automatic" else default)
        cc = cstate or (cask if cask != "automatic" else default)
        f = conv("length", uu) / conv("length", ustate or "atomic_unit")
        g = conv("length", cc) / conv("length", cstate or "atomic_unit")
        desc = "%s states %s/%s, asked %s/%s" % (fmt, ustate, cstate, uask, cask)
        compare(R, desc, ret, v * f, h * g, lab, fmt, conv("length", uu), conv("length", cc), tag, masses=fmt != "json")
        R.outcome("read")
    # a quantity of another dimension is refused
    if fmt != "pdb":
        for key, dim in traj_keys():
            if dim in ("number", "undefined"):
                continue
            buf = pyio.StringIO()
            print_file(fmt, make_atoms(2, v, lab), make_cell(h), buf, key=key, dimension=dim)
            for ask in ("length", "velocity", "momentum", "force", "energy"):
                R.transitions += 1
                R.state(fmt, key, ask)
                try:
                    read_file(fmt, pyio.StringIO(buf.getvalue()), dimension=ask)
                    if ask != dim:
                        R.fail("explicit:%s:dimension" % fmt, "a file of %s (%s) is read as %s" % (key, dim, ask))
                except ValueError:
                    if ask == dim:
                        raise
    return R


def path(item):
    """Whole paths in one file."""
    from ipi.engine.beads import Beads
    from ipi.utils.io import print_file_path, read_file

    R = Result()
    fmt = item["fmt"]
    for P, nat, cname, big in itertools.product((1, 2, 4), (1, 3), QCELLS, (False, True)):
        b = Beads(nat, P)
        lab = (NAMES * nat)[:nat]
        b.names[:] = lab
        for j in range(P):
            b.q[j] = values(nat, j, big=big)
        if big and nat > 1:
            b.q *= A
        h = hmat(cname)
        buf = pyio.StringIO()
        print_file_path(fmt, b, make_cell(h), buf)
        R.state(fmt, P, nat, cname, big)
        c = conv("length", "angstrom" if fmt == "pdb" else "atomic_unit")
        desc = "%s path, %d beads, %d atoms" % (fmt, P, nat)
        if fmt == "pdb":
            # one structure of P*nat atoms, joined by CONECT records, in the columns of the format
            rows = [x for x in buf.getvalue().split("\n") if x.startswith("ATOM")]
            got = np.array([[float(x[30:38]), float(x[38:46]), float(x[46:54])] for x in rows])
            if len(rows) != P * nat or np.max(np.abs(got.flatten() - np.asarray(b.q).flatten() / c)) > 0.51e-3:
                R.fail("path:pdb", "the path written is not in the columns of the PDB format (%s)" % desc)
            con = sorted(tuple(int(y) for y in (x[6:11], x[11:16])) for x in buf.getvalue().split("\n") if x.startswith("CONECT"))
            want = sorted(tuple(sorted((j * nat + i + 1, ((j + 1) % P) * nat + i + 1))) for j in range(P) for i in range(nat)) if P > 1 else []
            if sorted(set(tuple(sorted(x)) for x in con)) != sorted(set(want)):
                R.fail("path:pdb:conect", "springs %s instead of %s" % (con, want))
            if P == 1:
                ret = read_file(fmt, pyio.StringIO(buf.getvalue()))
                compare(R, desc, ret, np.asarray(b.q[0]), h, lab, fmt, c, c, "path:%s" % fmt)
            R.transitions += P
            continue
        fd = pyio.StringIO(buf.getvalue())
        for j in range(P):
            R.transitions += 1
            ret = read_file(fmt, fd, dimension="length")
            compare(R, desc, ret, np.asarray(b.q[j]), h, lab, fmt, c, c, "path:%s" % fmt)
        try:
            read_file(fmt, fd, dimension="length")
            R.fail("path:%s:end" % fmt, "more frames than beads")
        except EOFError:
            pass
    return R


PROPS = [
    "step", "time{picosecond}", "conserved{electronvolt}", "temperature{kelvin}", "kinetic_md", "kinetic_md{electronvolt}", "potential", "potential{kilocal/mol}",
    "kinetic_cv{electronvolt}", "atom_x{angstrom}(1)", "atom_x(0)", "atom_v{m/s}(0)", "volume{angstrom3}", "cell_h{angstrom}", "cell_abcABC", "pressure_md{megapascal}",
    "stress_md{gigapascal}", "atom_x{angstrom}(atom=0;bead=0)", "kinetic_td(C)", "ensemble_temperature{kelvin}",
]


def run_sim(item):
    """A simulation with every output on, against a step-by-step run without outputs."""
    import ipi.engine.simulation  # noqa
    from ipi.utils.io import read_file
    from ipi.utils.io.inputs import io_xml  # noqa

    R = Result()
    P, n, stride, fmt = item["P"], item["n"], item["stride"], item["fmt"]
    nsteps = item["steps"]
    ib = item.get("ibead", None)
    keys = ["positions", "velocities", "momenta", "forces", "forces_spring", "x_centroid", "v_centroid", "p_centroid", "f_centroid", "r_gyration", "kinetic_cv"]
    units = {"positions": "angstrom", "velocities": "m/s", "forces": "piconewton", "x_centroid": "atomic_unit", "v_centroid": "kilom/s", "kinetic_cv": "electronvolt", "f_centroid": "ev/ang"}
    if fmt == "pdb":
        keys = ["positions", "x_centroid", "r_gyration"]
    if fmt in ("ase", "pdb"):
        units = {}
    cu = {"xyz": "angstrom", "json": "angstrom"}.get(fmt, "")
    if fmt == "json":
        units = dict(units, positions="atomic_unit")
    out = "<output prefix='sim'>"
    for k in keys:
        out += "<trajectory filename='%s' stride='%d' format='%s'%s%s flush='2'>%s%s</trajectory>" % (k, stride, fmt, " cell_units='%s'" % cu if cu else "", " bead='%d'" % ib if ib is not None else "", k, "{%s}" % units[k] if k in units else "")
    for nm, et in (("dip", "dip"), ("both", "dip, val")):
        out += "<trajectory filename='%s' stride='%d' extra_type='%s'>extras</trajectory>" % (nm, stride, et)
    props = [x for x in PROPS if not (n < 2 and ("(1)" in x or "(C)" in x))]
    out += "<properties filename='md' stride='%d'>[ %s ]</properties>" % (stride, ", ".join(props))
    out += "<properties filename='two' stride='%d'>[ step, potential, atom_f{ev/ang}(0) ]</properties>" % (stride + 1)
    out += "</output>"
    sysx = sim.system_xml("<motion mode='dynamics'><dynamics mode='npt'><timestep>20.0</timestep><barostat mode='isotropic'><tau>500</tau><thermostat mode='langevin'><tau>500</tau></thermostat></barostat><thermostat mode='pile_g'><tau>500</tau></thermostat></dynamics><fixcom>False</fixcom></motion>", natoms=n, nbeads=P, pressure=1e-4, beads=sim.beads_xml(n, P, nm=sim.names(n, ["H", "C", "Li"])))
    ff = sim.ff_xml()
    s = sim.run_cli(sim.simulation_xml(ff, sysx, steps=nsteps, output=out))
    from ipi.utils.softexit import softexit

    softexit.reset()
    ref = sim.load(sim.simulation_xml(ff, sysx, steps=10**6))
    hist = []

    def snap():
        y = ref.syslist[0]
        q, p, f, m3 = [np.array(x) for x in (y.beads.q, y.beads.p, y.forces.f, y.beads.m3)]
        qc = q.mean(axis=0)
        om2 = (P * float(y.ensemble.temp)) ** 2
        fs = np.zeros_like(q)
        if P > 1:
            fs = -m3 * om2 * (2 * q - np.roll(q, 1, 0) - np.roll(q, -1, 0))
        d = {
            "positions": q, "velocities": p / m3, "momenta": p, "forces": f, "forces_spring": fs, "x_centroid": qc,
            "v_centroid": p.mean(axis=0) / m3[0], "p_centroid": p.mean(axis=0), "f_centroid": f.mean(axis=0),
            "r_gyration": np.sqrt(((q - qc) ** 2).mean(axis=0)),
            "kinetic_cv": 0.5 * float(y.ensemble.temp) - 0.5 * ((q - qc) * f).mean(axis=0),
            "cell": np.array(y.cell.h),
            "dip": q.reshape(P, n, 3).sum(axis=1), "pots": np.array(y.forces.pots),
        }
        vals = {}
        for w in props + ["atom_f{ev/ang}(0)"]:
            v, dim, u = y.properties[w]
            v = np.atleast_1d(np.array(v, float))
            vals[w] = v / (conv(dim, u) if dim not in ("", "undefined") and u else 1.0)
        vals["step"] = np.array([float(len(hist))])
        vals["volume{angstrom3}"] = np.array([np.linalg.det(d["cell"]) / 6.748334231])
        vals["atom_x(0)"] = qc[:3]
        vals["atom_v{m/s}(0)"] = d["v_centroid"][:3] / 4.5710289e-7
        vals["time{picosecond}"] = np.array([len(hist) * 20.0 / 41341.373])
        hist.append((d, vals))

    snap()
    for i in range(nsteps):
        sim.advance(ref, 1)
        snap()
    want = [i for i in range(nsteps + 1) if i % stride == 0]
    labels = [str(x) for x in ref.syslist[0].beads.names]
    ext = {"ase": "extxyz"}.get(fmt, fmt)
    width = len(str(P - 1)) if P > 1 else 1
    dims = dict(traj_keys())
    seen = set()
    for k in keys:
        per = hist[0][0][k].ndim == 2
        if per:
            beads = range(P) if ib is None else ([ib] if ib >= 0 else [b for b in range(P) if b % (-ib) == 0])
            width = int(1 + np.floor(np.log10(P) + 1e-12))
            files = [("sim.%s_%0*d.%s" % (k, width, b, ext), b) for b in beads]
        else:
            files = [("sim.%s.%s" % (k, ext), None)]
        for fn, b in files:
            seen.add(fn)
            tag = "run:%s:%s" % (fmt, k)
            if not os.path.exists(fn):
                R.fail(tag + ":missing", "output file %s does not exist (files: %s)" % (fn, sorted(os.listdir("."))[:20]))
                continue
            u = units.get(k) or {"ase": "ase", "pdb": "angstrom"}.get(fmt, "atomic_unit")
            cc = conv("length", cu or {"ase": "ase", "pdb": "angstrom"}.get(fmt, "atomic_unit"))
            text = open(fn, "rb").read().replace(b"\0", b"").decode("latin1")
            with open(fn, "rb" if fmt == "bin" else "r") as fd:
                steps = []
                for m in re.finditer(r"Step:\s+(\d+)\s+Bead:\s+(\d+)", text):
                    steps.append(int(m.group(1)))
                    if int(m.group(2)) != (b or 0):
                        R.fail(tag + ":bead", "%s says bead %s" % (fn, m.group(2)))
                if steps != want:
                    R.fail(tag + ":steps", "%s has steps %s instead of %s" % (fn, steps, want))
                    continue
                for i in want:
                    R.transitions += 1
                    R.state(fmt, k, i, b, P, n)
                    d = hist[i][0]
                    v = d[k] if b is None else d[k][b]
                    try:
                        ret = read_file(fmt, fd)
                    except EOFError:
                        R.fail(tag + ":short", "%s ends before step %d" % (fn, i))
                        break
                    if not compare(R, "%s step %d" % (fn, i), ret, v, d["cell"], labels, fmt, conv(dims[k], u), cc, tag, masses=fmt not in ("json", "bin")):
                        break
            scripting(R, fn, fmt, k, b, want, hist, dims[k], labels, tag)
    got = sorted(x for x in os.listdir(".") if x.startswith("sim.") and x.endswith(ext))
    if set(got) != seen:
        R.fail("run:%s:files" % fmt, "output files %s instead of %s" % (sorted(set(got) - seen), sorted(seen - set(got))))
    width = int(1 + np.floor(np.log10(P) + 1e-12))
    for b in range(P):
        extras(R, "sim.dip_%0*d" % (width, b), "dip", want, [hist[i][0]["dip"][b] for i in want])
        extras(R, "sim.both_%0*d" % (width, b), "dip, val", want, [np.append(hist[i][0]["dip"][b], 2 * hist[i][0]["pots"][b]) for i in want])
    for fn, pp, st in (("sim.md", props, stride), ("sim.two", ["step", "potential", "atom_f{ev/ang}(0)"], stride + 1)):
        table(R, fn, pp, [i for i in range(nsteps + 1) if i % st == 0], hist)
    R.outcome("run")
    return R


def scripting(R, fn, fmt, k, b, want, hist, dim, labels, tag):
    """The same file through ipi.read_trajectory (ASE units)."""
    from ipi.scripting import parsing

    fr = parsing.read_trajectory(fn, format="binary" if fmt == "bin" else None)
    R.transitions += len(fr)
    if len(fr) != len(want):
        R.fail(tag + ":read_trajectory", "%d frames of %d" % (len(fr), len(want)))
        return
    for a, i in zip(fr, want):
        d = hist[i][0]
        v = (d[k] if b is None else d[k][b]).reshape(-1, 3)
        cq, cl = conv(dim, "ase"), conv("length", "ase")
        if fmt == "pdb":
            tol = 0.6e-3
        else:
            tol = 2e-5 * np.max(np.abs(v / cq)) + 1e-7
        if k in a.arrays:
            w = a.arrays[k]
        elif k == "forces" and fmt == "ase":
            w = a.get_forces()
        else:
            w = a.positions
        if np.max(np.abs(w - v / cq)) > tol:
            R.fail(tag + ":read_trajectory", "%s of step %d in %s are read by read_trajectory as %s instead of %s" % (k, i, fn, np.round(w, 6).tolist(), np.round(v / cq, 6).tolist()))
            return
        if np.max(np.abs(np.array(a.cell).T - d["cell"] / cl)) > 2e-2:
            R.fail(tag + ":read_trajectory", "cell of step %d in %s" % (i, fn))
            return
        if "step" in a.info and a.info["step"] != i:
            R.fail(tag + ":read_trajectory:step", "the frame of step %d in %s is said to be of step %s" % (i, fn, a.info["step"]))
            return


def extras(R, fn, name, want, ref):
    from ipi.scripting import parsing

    steps, rows = [], []
    for line in open(fn):
        m = re.match(r"\s*#EXTRAS\((.*)\)# Step:\s+(\d+)", line)
        if m:
            steps.append(int(m.group(2)))
            rows.append([])
        elif line.strip():
            rows[-1] += [float(x) for x in line.split()]
    R.transitions += len(rows)
    ref = np.array(ref)
    if steps != want:
        R.fail("extras:steps", "%s has steps %s instead of %s" % (fn, steps, want))
    elif np.array(rows).shape != ref.shape or np.max(np.abs(np.array(rows) - ref)) > 1e-9 * (1 + np.max(np.abs(ref))):
        R.fail("extras:values", "%s has %s instead of %s" % (fn, rows[:2], ref[:2].tolist()))
    else:
        d = parsing.read_trajectory(fn, format="extras")
        if list(d["step"]) != want or np.max(np.abs(np.asarray(d[name]) - ref.squeeze())) > 1e-9 * (1 + np.max(np.abs(ref))):
            R.fail("extras:read_trajectory", "%s is read by read_trajectory as %s" % (fn, d))


def table(R, fn, props, want, hist):
    from ipi.scripting import parsing

    lines = open(fn).read().split("\n")
    rows = [[float(x) for x in l.split()] for l in lines if l.strip() and not l.startswith("#")]
    heads = [l for l in lines if l.startswith("#")]
    tag = "table:%s" % fn[4:]
    cols = {}
    at = 0
    for w in props:
        cols[w] = (at, at + len(hist[0][1][w]))
        at += len(hist[0][1][w])
    if [len(r) for r in rows] != [at] * len(want):
        R.fail(tag + ":shape", "%s has rows of %s columns for steps %s, %d columns asked for" % (fn, [len(r) for r in rows], want, at))
        return
    named = []
    for hline in heads:
        m = re.match(r"#\s*(?:column|cols\.)\s+(\d+)(?:-(\d+))?\s*-->\s*(\S+)", hline)
        if m:
            named.append((m.group(3), int(m.group(1)) - 1, int(m.group(2) or m.group(1))))
    if named != [(w,) + cols[w] for w in props]:
        R.fail(tag + ":header", "the header of %s says %s" % (fn, named))
        return
    vals, info = parsing.read_output(fn)
    for w in props:
        a, b = cols[w]
        for r, i in zip(rows, want):
            R.transitions += 1
            x = hist[i][1][w]
            if np.max(np.abs(np.array(r[a:b]) - x)) > 1e-9 * np.max(np.abs(x)) + 1e-12:
                R.fail(tag + ":" + w, "%s of step %d is %s in %s instead of %s" % (w, i, r[a:b], fn, x.tolist()))
                break
        m = re.match(r"([^{(]*)(?:\{([^}]*)\})?(?:\(([^)]*)\))?", w)
        name = m.group(1) + ("(%s)" % m.group(3) if m.group(3) else "")
        same = [y for y in props if re.sub(r"\{[^}]*\}", "", y) == name]
        unit = m.group(2)
        cand = [name] if len(same) == 1 else [name, w, "%s{%s}" % (name, unit)]
        hit = [c for c in cand + [c for c in vals if c.startswith(name + "{")] if c in vals and (info[c][0] or None) == (unit or None)]
        if not hit:
            R.fail(tag + ":read_output", "read_output of %s has no entry for %s (has %s)" % (fn, w, sorted(vals)))
            continue
        v = np.asarray(vals[hit[0]])
        x = np.array([hist[i][1][w] for i in want]).squeeze()
        if v.shape != x.shape or np.max(np.abs(v - x)) > 1e-9 * np.max(np.abs(x)) + 1e-12:
            R.fail(tag + ":read_output", "read_output of %s gives for %s an array of shape %s instead of %s, or other values" % (fn, w, v.shape, x.shape))


def unreadable(f):
    """What is written in another layout than the format prescribes is a violation."""

    def g(item):
        try:
            return f(item)
        except (ValueError, IndexError, KeyError) as e:
            from vlib.core import in_repo_frame

            if in_repo_frame(e.__traceback__):
                raise
            R = Result()
            R.fail("unreadable:%s:%s" % (item["kind"], item.get("fmt")), "the output cannot be parsed: %r" % e)
            return R

    return g


def run(item):
    f = dict(rt=roundtrip, torn=torn, header=header, explicit=explicit, path=path, run=run_sim)[item["kind"]]
    return (unreadable(f) if item["kind"] in ("run", "path") else f)(item)
