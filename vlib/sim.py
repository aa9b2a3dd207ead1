"""Builders for small in-process i-PI simulations driven through the real XML input."""

import os
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
PES = os.path.join(HERE, "vpes.py")

SPECIES = ["H", "D", "Li", "C"]
MASS = {"H": 1837.47159, "D": 3671.482934, "Li": 12650.0, "C": 21894.71361}


def positions(natoms, nbeads, seed=3, scale=0.25):
    """Deterministic structure, no symmetry, beads spread around each atom."""
    i = np.arange(natoms * 3, dtype=float)
    base = 1.3 * np.sin(1.7 * i + 0.3 * seed) + 0.6 * np.cos(0.9 * i * seed)
    q = np.zeros((nbeads, 3 * natoms))
    for b in range(nbeads):
        q[b] = base + scale * np.sin(2.1 * i + 1.3 * b + 0.7 * seed) * (
            1 if nbeads > 1 else 0
        )
    return q


def momenta(natoms, nbeads, masses, seed=5, temp=0.001):
    i = np.arange(natoms * 3, dtype=float)
    p = np.zeros((nbeads, 3 * natoms))
    m3 = np.repeat(masses, 3)
    for b in range(nbeads):
        p[b] = np.sqrt(m3 * temp) * (np.sin(3.3 * i + 1.9 * b + seed) + 0.2)
    return p


def arr(a):
    a = np.asarray(a, float).flatten()
    return "[ " + ", ".join("%.17e" % x for x in a) + " ]"


def names(n, seq=None):
    seq = seq or ["H", "D", "H", "Li", "D", "H"]
    return [seq[i % len(seq)] for i in range(n)]


def beads_xml(natoms, nbeads, seed=3, nm=None, q=None, p=None, temp=0.001, scale=0.25):
    nm = nm or names(natoms)
    m = np.array([MASS[x] for x in nm])
    q = positions(natoms, nbeads, seed, scale) if q is None else q
    p = momenta(natoms, nbeads, m, seed + 2, temp) if p is None else p
    return (
        "<beads natoms='%d' nbeads='%d'><q shape='(%d,%d)'>%s</q>"
        "<p shape='(%d,%d)'>%s</p><m shape='(%d)'>%s</m>"
        "<names shape='(%d)'>[ %s ]</names></beads>"
        % (
            natoms, nbeads, nbeads, 3 * natoms, arr(q),
            nbeads, 3 * natoms, arr(p), natoms, arr(m), natoms, ", ".join(nm),
        )
    )


CELL = np.array([[10.0, 0.7, -0.4], [0.0, 11.0, 0.9], [0.0, 0.0, 9.5]])


def cell_xml(h=None):
    h = CELL if h is None else h
    return "<cell shape='(3,3)'>%s</cell>" % arr(h)


def ff_xml(name="ff", pars=None, threaded=False, batch=1, pes=PES, extra="", offset=None):
    pars = dict(pars or {})
    ps = ", ".join("%s: %s" % kv for kv in pars.items())
    return (
        "<ffdirect name='%s' pbc='False' threaded='%s'><pes>custom</pes>"
        "<pes_path>%s</pes_path><parameters>{%s}</parameters>"
        "<batch_size>%d</batch_size>%s%s</ffdirect>"
        % (
            name, threaded, pes, ps, batch,
            "" if offset is None else "<offset>%r</offset>" % offset, extra,
        )
    )


def simulation_xml(
    ffs, systems, steps=1000, output="", seed=31, safe_stride=1, threading=False,
    smotion="", floatformat="%25.17e", verbosity="quiet", mode="md", extra="",
):
    return (
        "<simulation verbosity='%s' safe_stride='%d' threading='%s' floatformat='%s' mode='%s'>"
        "<total_steps>%d</total_steps><prng><seed>%d</seed></prng>%s%s%s%s%s</simulation>"
        % (
            verbosity, safe_stride, threading, floatformat, mode, steps, seed, extra,
            output or "<output prefix='sim'></output>",
            ffs if isinstance(ffs, str) else "".join(ffs),
            systems if isinstance(systems, str) else "".join(systems),
            smotion,
        )
    )


def system_xml(
    motion, natoms=3, nbeads=2, ff="<force forcefield='ff'/>", temp=0.01, ensemble="",
    nm="", seed=3, prefix="", beads=None, cell=None, extra="", pressure=None,
    stress=None, scale=0.25,
):
    ens = ""
    if temp is not None:
        ens += "<temperature>%.17e</temperature>" % temp
    if pressure is not None:
        ens += "<pressure>%.17e</pressure>" % pressure
    if stress is not None:
        ens += "<stress>%s</stress>" % arr(stress)
    return "<system%s>%s%s<forces>%s</forces><ensemble>%s%s</ensemble>%s%s%s</system>" % (
        " prefix='%s'" % prefix if prefix else "",
        beads or beads_xml(natoms, nbeads, seed=seed, scale=scale),
        cell or cell_xml(),
        ff, ens, ensemble, motion, nm, extra,
    )


def load(xml, read_only=False):
    """Creates a Simulation from XML (with a clean soft-exit state)."""
    from ipi.engine.simulation import Simulation
    from ipi.utils.softexit import softexit

    softexit.reset()
    return Simulation.load_from_xml(xml, read_only=read_only)


def advance(sim, n, write_outputs=False):
    """Runs n further steps through the real main loop (as the interactive API does)."""
    sim.tsteps = sim.step + n
    sim.run(write_outputs=write_outputs)
    sim.step += 1


def restart_text(sim):
    """The XML a checkpoint of the present state would contain."""
    from ipi.inputs.simulation import InputSimulation

    st = InputSimulation()
    st.store(sim)
    return st.write(name="simulation")


def fast_exit():
    """Shortens the polling latency of the soft-exit monitor thread."""
    import ipi.utils.softexit as se

    if hasattr(se, "SOFTEXITLATENCY"):
        se.SOFTEXITLATENCY = 0.002


def run_cli(xml, before_run=None):
    """What bin/i-pi does with an input file: load, run, soft exit. Returns the simulation."""
    from ipi.utils.softexit import softexit

    fast_exit()
    s = load(xml)
    if before_run:
        before_run(s)
    try:
        s.run()
        softexit.trigger(status=s.exit_status, message=s.exit_message)
    except SystemExit:
        pass
    return s


def leaves(xml_text, drop=()):
    """Flattens an i-PI XML document to {path: (attributes, text)}."""
    import xml.etree.ElementTree as ET

    root = ET.fromstring(xml_text)
    out = {}

    def walk(node, path):
        count = {}
        for a, v in sorted(node.attrib.items()):
            out[path + "@" + a] = v.strip()
        txt = (node.text or "").strip()
        kids = list(node)
        if not kids or txt:
            out[path] = txt
        for k in kids:
            n = count.get(k.tag, 0)
            count[k.tag] = n + 1
            p = "%s/%s[%d]" % (path, k.tag, n)
            if k.tag in drop:
                continue
            walk(k, p)

    walk(root, root.tag)
    return out


def numbers(text):
    """Parses a leaf as a float array if possible, else None."""
    t = text.replace("[", " ").replace("]", " ").replace(",", " ").split()
    try:
        return np.array([float(x) for x in t])
    except ValueError:
        return None


def diff_leaves(a, b, rtol=1e-9, atol=1e-12, ignore=lambda p: False):
    """List of (path, description) where the two flattened documents differ."""
    bad = []
    for p in sorted(set(a) | set(b)):
        if ignore(p):
            continue
        if p not in a or p not in b:
            bad.append((p, "present only in %s" % ("first" if p in a else "second")))
            continue
        if a[p] == b[p]:
            continue
        x, y = numbers(a[p]), numbers(b[p])
        if x is None or y is None or x.shape != y.shape:
            bad.append((p, "%.80s != %.80s" % (a[p], b[p])))
            continue
        scale = np.max(np.abs(x)) if x.size else 0.0
        err = np.max(np.abs(x - y)) if x.size else 0.0
        if not (err <= rtol * scale + atol):
            if np.array_equal(np.isnan(x), np.isnan(y)) and np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True):
                continue
            bad.append((p, "max|diff|=%.3e scale=%.3e" % (err, scale)))
    return bad
