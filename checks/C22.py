"""C22: what an input file says is what the checkpoint says, option by option.

For a catalogue of inputs that between them contain every kind of element, every
option (attribute or field) of every element present is set, one at a time, to
every value of its list of options, or to one or two other values of its type (also
in other units). The simulation is set up from the input and its checkpoint is
written: the checkpoint must give the option the same value (in internal units),
must be readable, and must reproduce itself.
"""

import copy
import xml.etree.ElementTree as ET
import numpy as np
from vlib import sim, configs
from vlib.core import Result

PROPERTY = "C22"
LEVEL = "model_checking"
TIMEOUT = 240.0
ASSUMPTIONS = ["the parser reads what an input file says (C23)"]
BOUNDS = {
    "quick": "46 inputs, every option set one at a time to every listed value or to 1-2 other numbers (default and other units)",
    "thorough": "as quick with one more number per option and a restart from the checkpoint of every setting",
}
RULE = "every option of every element of every input of the catalogue x every value of its alphabet, one at a time"


# ---------------------------------------------------------------- catalogue
MOT = "/system[0]/motion"
DYN = MOT + "/dynamics"
ENS = "/system[0]/ensemble"
NM = "/system[0]/normal_modes"


def catalogue():
    """(configuration, where its options are varied)"""
    md = dict(motion="dynamics", ens="nvt", thermo="langevin")
    c = [(dict(ens="nvt", thermo="langevin"), [""])]
    for th in ("svr", "gle", "cl", "ffl_rescale", "pile_l", "pile_g", "nm_gle", "nm_gle_g", "multi:langevin+svr"):
        c.append((dict(ens="nvt", thermo=th, nbeads=1 if th == "cl" else 2), [DYN]))
    for ens, baro in (("npt", "isotropic"), ("nst", "anisotropic"), ("npt", "flexible"), ("scnpt", "sc-isotropic")):
        c.append((dict(ens=ens, baro=baro, bthermo="langevin", thermo="pile_l"), [DYN, ENS]))
    c.append((dict(ens="nvt", forces="mts", fb=1, nmts=[1, 2], thermo="pile_l"), ["/system[0]/forces", DYN]))
    c.append((dict(ens="nvt", bias=True, thermo="pile_l", eens=0.3), [ENS]))
    c.append((dict(ens="sc", thermo="pile_l", nbeads=4), [DYN]))
    c.append((dict(ens="nvt", thermo="pile_l", nbeads=3, nm=dict(prop="exact", transform="matrix", freqs=("manual", "manual"))), [NM]))
    c.append((dict(ens="nvt", thermo="pile_l", nbeads=3, nm=dict(open=[0, 2], transform="fft", prop="cayley")), [NM]))
    c.append((dict(ens="nve", nbeads=3, natoms=3, nm=dict(bosons=[0, 2], prop="bab", nmts=2)), [NM]))
    c.append((dict(ens="nvt", thermo="langevin", nsys=2, smotion="remd", swapstride=2, nbeads=1), ["/smotion", "/system[1]" + ENS[10:]]))
    for o in ("sd", "cg", "bfgs", "bfgstrm", "lbfgs", "damped_bfgs"):
        c.append((dict(motion="minimize", opt=o, nbeads=1), [MOT]))
    for v in ("fd", "nmfd"):
        c.append((dict(motion="vibrations", vib=v, nbeads=1, natoms=2), [MOT]))
    c.append((dict(motion="driven", ens="eda-nvt", thermo="langevin", nbeads=1), [MOT, ENS]))
    c.append((dict(motion="multi", sub=[md, dict(motion="atomswap")], nbeads=2, natoms=4), [MOT]))
    c.append((dict(motion="multi", fixcom=False, sub=[md, dict(motion="alchemy")], nbeads=2, natoms=4), [MOT]))
    c.append((dict(motion="multi", sub=[dict(motion="t_ramp"), md]), [MOT]))
    c.append((dict(motion="multi", press=True, sub=[dict(motion="p_ramp"), dict(motion="dynamics", ens="npt", thermo="svr", baro="isotropic")]), [MOT]))
    for o in ("fire", "damped_bfgs"):
        c.append((dict(motion="neb", opt=o, nbeads=5, natoms=2), [MOT]))
    for o in ("nichols", "lbfgs"):
        c.append((dict(motion="instanton", opt=o, nbeads=4, natoms=1, optx="<hessian_init>true</hessian_init>" if o != "lbfgs" else ""), [MOT]))
    one = dict(ens="nvt", thermo="langevin", nbeads=1)
    for name, x in FFX.items():
        c.append((dict(one, ffx=name), ["/%s[0]" % ET.fromstring(x).tag]))
    return c


PES = "<ffdirect name='%s'><pes>dummy</pes><parameters>{}</parameters></ffdirect>"
FFX = {
    "socket": "<ffsocket name='x' mode='unix'><address>addr</address></ffsocket>",
    "inet": "<ffsocket name='x' mode='inet'><address>localhost</address><port>12345</port></ffsocket>",
    "lj": "<fflj name='x'><parameters>{eps: 0.1, sigma: 1.5, rcut: 8.0}</parameters></fflj>",
    "dmd": "<ffdmd name='x'><dmd_coupling shape='(9)'>[ 0,1,2,1,0,3,2,3,0 ]</dmd_coupling><dmd_freq>0.01</dmd_freq><dmd_dt>2.0</dmd_dt></ffdmd>",
    "debye": "<ffdebye name='x'><hessian shape='(9,9)'>[ %s ]</hessian><x_reference shape='(9)'>[ %s ]</x_reference><v_reference>0.1</v_reference></ffdebye>"
    % (",".join("%g" % (0.1 * (i // 9 + i % 9)) for i in range(81)), ",".join("%g" % (0.3 * i) for i in range(9))),
    "committee": "<ffcommittee name='x'>%s%s<weights>[ 1.0, 3.0 ]</weights><alpha>1.5</alpha></ffcommittee>" % (PES % "x1", PES % "x2"),
    "rotations": "<ffrotations name='x'><random>true</random><grid_order>3</grid_order>%s</ffrotations>" % (PES % "x1"),
    "cavity": "<ffcavphsocket name='x' mode='unix'><address>addr</address><charge_array>[ 0.1, 0.2, -0.3 ]</charge_array><E0>1e-4</E0><omega_c>0.01</omega_c></ffcavphsocket>",
}


# ---------------------------------------------------------------- inputs as trees
def effective(inp, path=""):
    """{path: value in internal units} of everything an Input object says."""
    from ipi.utils.inputvalue import InputAttribute, InputValue

    out = {}
    for a in inp.attribs:
        if a in ("units", "shape", "mode") and isinstance(inp, InputValue):
            continue  # the way the value is written
        out[path + "@" + a] = norm(inp.__dict__[a].fetch())
    for f in inp.instancefields:
        v = inp.__dict__[f]
        if isinstance(v, InputAttribute):
            out.update(value(v, path + "/" + f))
        else:
            out.update(effective(v, path + "/" + f))
    count = {}
    for f, v in inp.extra:
        n = count.get(f, 0)
        count[f] = n + 1
        p = "%s/%s[%d]" % (path, f, n)
        if isinstance(v, InputAttribute):
            out.update(value(v, p))
        else:
            out.update(effective(v, p))
    return out


def value(v, path):
    out = {}
    for a in v.attribs:
        if a not in ("units", "shape", "mode"):
            out[path + "@" + a] = norm(v.__dict__[a].fetch())
    if getattr(v, "_dimension", "undefined") == "undefined":
        out[path] = norm(v.value)
    else:
        from ipi.utils.units import unit_to_internal

        out[path] = norm(v.value * unit_to_internal(v._dimension, v.units.fetch(), 1.0))
    return out


def norm(x):
    if isinstance(x, np.ndarray):
        return x.flatten().tolist()
    if isinstance(x, (np.generic,)):
        return x.item()
    if isinstance(x, str):
        return x.strip()
    if isinstance(x, (tuple, list)):
        return [norm(y) for y in x]
    if isinstance(x, dict):
        return {k: norm(y) for k, y in x.items()}
    return x


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    return a == b


def parse(text):
    from ipi.inputs.simulation import InputSimulation
    from ipi.utils.io.inputs import io_xml

    x = io_xml.xml_parse_string(text)
    inp = InputSimulation()
    inp.parse(x.fields[0][1])
    return inp


UNITS = {
    "energy": "kelvin", "temperature": "kelvin", "time": "femtosecond", "frequency": "inversecm", "length": "angstrom", "mass": "dalton",
    "pressure": "gigapascal", "velocity": "angstrom/ps", "momentum": None, "force": "ev/ang", "hessian": None, "ms-momentum": None, "electric-field": "v/ang",
    "density": "g/cm3", "number": "percent", "undefined": None,
}


def alphabet(v):
    """Texts (value, units) to give to an option."""
    from ipi.utils.inputvalue import InputArray

    out = []
    dim = getattr(v, "_dimension", "undefined")
    cur = v.value if hasattr(v, "value") else None
    if getattr(v, "_valid", None) is not None and not isinstance(v, InputArray):
        return [(str(o), None) for o in v._valid]
    if isinstance(v, InputArray):
        a = np.array(cur).flatten() if cur is not None else np.zeros(0)
        if v.type is float:
            if a.size:
                w = [0.7 * x + 0.013 * (i + 1) for i, x in enumerate(a)]
                out.append(("[ " + ", ".join(repr(float(x)) for x in w) + " ]", None))
            else:
                for n in (1, 2, 3, 9):
                    out.append(("[ " + ", ".join(repr(0.17 + 0.11 * i) for i in range(n)) + " ]", None))
        elif v.type is int:
            out += [("[ 1 ]", None), ("[ 0, 1 ]", None), ("[ 2, 1, 3 ]", None)]
        elif v.type is str:
            out += [("[ H ]", None), ("[ H, D ]", None)]
        elif v.type is bool:
            out += [("[ True, False ]", None)]
        return out
    if v.type is bool:
        return [("True", None), ("False", None)]
    if v.type is int:
        c = int(cur) if cur is not None else 0
        return [(str(c + 1), None), (str(c + 3), None)]
    if v.type is float:
        c = float(cur) if cur is not None and np.isfinite(cur) else 0.0
        out = [(repr(0.37 + 1.5 * c), None), (repr(0.00217), None)]
        if UNITS.get(dim):
            out.append((repr(2.31), UNITS[dim]))
        return out
    if v.type is str:
        return [("hard", None)] if cur in ("rescale", "soft") else [("word", None)]
    if v.type is tuple:
        return [("(2, 3)", None)]
    if v.type is dict:
        return [("{ one: 1, two: 2.5 }", None)]
    return []


def options(inp, el, path=""):
    """Yields (path, setter(el) ) for every option of this element and the ones present below it."""
    from ipi.utils.inputvalue import InputAttribute, InputValue

    out = []
    for a in inp.attribs:
        if a in ("units", "shape") or (a == "mode" and isinstance(inp, InputValue)):
            continue
        if a == "mode" and (path.endswith("/motion") or path.rsplit("/", 1)[-1].startswith("motion[")):
            continue  # other motions are other inputs of the catalogue
        for t, u in [("%20.12e", None)] if a == "floatformat" else alphabet(inp.__dict__[a]):
            if a != "verbosity" or t in ("quiet", "low"):
                out.append((path + "@" + a, ("attr", a, t, u), []))
    for f in inp.instancefields:
        v = inp.__dict__[f]
        kid = el.find(f) if el is not None else None
        if f in ("pes", "beads", "cell"):
            continue  # what is computed, not how
        if isinstance(v, InputAttribute):
            for t, u in alphabet(v):
                out.append((path + "/" + f, ("field", f, t, u), []))
            for a in v.attribs:
                if a in ("units", "shape", "mode") or kid is None:
                    continue
                for t, u in alphabet(v.__dict__[a]):
                    out.append((path + "/" + f + "@" + a, ("attr", a, t, u), [(f, 0)]))
        elif kid is not None:
            for p, s, where in options(v, kid, path + "/" + f):
                out.append((p, s, [(f, 0)] + where))
    count = {}
    for f, v in inp.extra:
        n = count.get(f, 0)
        count[f] = n + 1
        kid = el.findall(f)[n]
        p0 = "%s/%s[%d]" % (path, f, n)
        if isinstance(v, InputAttribute):
            for a in v.attribs:
                if a in ("units", "shape", "mode"):
                    continue
                for t, u in alphabet(v.__dict__[a]):
                    out.append((p0 + "@" + a, ("attr", a, t, u), [(f, n)]))
        else:
            for p, s, where in options(v, kid, p0):
                out.append((p, s, [(f, n)] + where))
    return out


def apply(root, setting, where):
    root = copy.deepcopy(root)
    el = root
    for f, n in where:
        el = el.findall(f)[n]
    kind, name, text, unit = setting
    if kind == "attr":
        el.set(name, text)
    else:
        kid = el.find(name)
        if kid is None:
            kid = ET.SubElement(el, name)
        if kid.get("shape"):
            n = text.count(",") + 1
            old = [int(x) for x in kid.get("shape").strip("()").split(",") if x.strip()]
            if int(np.prod(old)) != n:
                del kid.attrib["shape"]
        if unit:
            kid.set("units", unit)
        elif kid.get("units"):
            del kid.attrib["units"]
        kid.text = text
    return ET.tostring(root, encoding="unicode")


THERMO = {
    "": (), "langevin": ("tau",), "svr": ("tau",), "pile_l": ("tau", "pile_lambda", "pile_centroid_t"), "pile_g": ("tau", "pile_lambda", "pile_centroid_t"),
    "gle": ("A", "C"), "nm_gle": ("A", "C"), "nm_gle_g": ("A", "C"), "cl": ("tau", "intau", "idtau", "apat"), "ffl": ("tau", "flip"), "multi": (),
}
# states of algorithms and quantities that are not options
STATE = ("eens", "h0", "p", "s", "ethermo", "file", "old_pot", "old_pos", "old_force", "old_direction", "invhessian_bfgs", "hessian_trm", "hessian", "hessian_init", "qlist_lbfgs",
         "glist_lbfgs", "fric_hessian", "old_u", "old_f", "old_d", "old_nebpotential", "old_nebgradient", "old_stringpotential", "old_stringgradient", "dynmat", "refdynmat", "full_force", "full_pots", "v_fire", "a_fire")
OPTIMIZER = {"biggest_step": ("bfgs", "bfgstrm", "lbfgs", "damped_bfgs"), "tr_trm": ("bfgstrm",), "corrections_lbfgs": ("lbfgs",), "scale_lbfgs": ("lbfgs",)}
# a sequence of motions has the constraints of its members, ramps have none
NOFIX = ("multi", "t_ramp", "p_ramp")
# force fields that do not use some of the general options
NOTUSED = {
    "ffdebye": ("pbc", "threaded", "parameters", "activelist"), "ffdmd": ("activelist",), "ffcommittee": ("threaded", "activelist"), "ffrotations": ("threaded",),
}
FRICTION = ("frictionSD", "eta", "fric_spec_dens", "fric_spec_dens_ener")


def relevant(path, given):
    """Does this option mean something in this input?"""
    up, name = path.rsplit("@" if "@" in path else "/", 1)
    kind = up.rsplit("/", 1)[-1].split("[")[0]
    if name in NOTUSED.get(kind, ()):
        return False
    if name in STATE:
        return False
    if up.endswith("thermostat") or up.rsplit("/", 1)[-1].startswith("thermostat["):
        return name == "mode" or name in THERMO[given[up + "@mode"]]
    if up.endswith("optimizer") and name in OPTIMIZER:
        return given.get(up + "@mode") in OPTIMIZER[name]
    if up.endswith("instanton"):
        if name in FRICTION:
            return given[up + "/friction"]
        if name in ("hessian_update", "hessian_asr"):
            return given[up + "/opt"] in ("nichols", "NR")
        if name in OPTIMIZER and name != "biggest_step":
            return given[up + "/opt"] == "lbfgs"
        if name == "opt":
            return given[path] != "None"
    if name == "fixcom":
        return given[up + "@mode"] not in NOFIX
    return True


def fixed(e, p):
    """Fixed coordinates, however they are given."""
    up = p.rsplit("/", 1)[0]
    return sorted(set(e[up + "/fixatoms_dof"]) | set(3 * i + j for i in e[up + "/fixatoms"] for j in range(3)))


# ---------------------------------------------------------------- the check
def items(tier):
    q = tier == "quick"
    return [dict(cfg=c, where=w, part=k, parts=4, quick=q) for c, w in catalogue() for k in range(4)]


def run(item):
    from ipi.interfaces.sockets import InterfaceSocket

    InterfaceSocket.open = lambda self: None  # nobody connects to these simulations
    R = Result()
    base = configs.xml(item["cfg"], 10, "<output prefix='sim'><properties stride='1' filename='prop'>[ step ]</properties><trajectory stride='1' filename='pos' format='xyz'>positions</trajectory><checkpoint stride='4' filename='chk'/></output>")
    root = ET.fromstring(base)
    if "ffx" in item["cfg"]:
        root.insert(0, ET.fromstring(FFX[item["cfg"]["ffx"]]))
        base = ET.tostring(root, encoding="unicode")
    inp = parse(base)
    todo = [(None, None, None)] + [o for o in options(inp, root) if any(o[0].startswith(w) for w in item["where"])]
    if item["cfg"].get("motion") == "multi":
        todo = [o for o in todo if o[0] is None or "/dynamics/" not in o[0]]  # varied in other inputs
    kept, before = [], None
    for k, o in enumerate(todo):
        again = not item["quick"] or o[0] != before
        if item["quick"] and o[1] is not None and o[1][2] == repr(0.00217):
            continue
        kept.append(o + (again,))
        before = o[0]
    for p, s, where, again in kept[item["part"] :: item["parts"]]:
        text = base if p is None else apply(root, s, where)
        try:
            given = effective(parse(text))
            sm = sim.load(text)
        except BaseException as e:
            R.outcome("rejected")
            if p is None:
                raise
            continue
        R.transitions += 1
        R.state(str(item), p, str(s))
        try:
            chk = sim.restart_text(sm)
            back = effective(parse(chk))
        except Exception as e:
            R.fail("unreadable:%s" % p, "with %s = %s no readable checkpoint is written: %r" % (p, s[2] if s else None, e), item)
            continue
        if p is not None and p.endswith(("/fixatoms", "/fixatoms_dof")):
            if given[p.rsplit("/", 1)[0] + "@mode"] not in NOFIX and fixed(given, p) != fixed(back, p):
                R.fail("fixed:%s" % p, "%s is given as %s and the checkpoint fixes the coordinates %s" % (p, s[2], fixed(back, p)), item)
        elif p is not None and relevant(p, given):
            said = back.get(p)
            if p.endswith("/parameters") and said:
                said = {k: v for k, v in said.items() if k in given[p]}  # drivers get further parameters
            if p not in back:
                R.fail("lost:%s" % p, "%s (given as %s) is not in the checkpoint" % (p, s[2]), item)
            elif not same(given[p], said):
                R.fail("option:%s" % p, "%s is given as %s %s (%r) and the checkpoint says %r" % (p, s[2], s[3] or "", given[p], said), item)
        R.outcome("option")
        if not again:
            continue
        R.outcome("restarted")
        try:
            chk2 = sim.restart_text(sim.load(chk))
        except BaseException as e:
            R.fail("reload:%s" % p, "with %s = %s the checkpoint cannot be loaded: %r" % (p, s[2] if s else None, e), item)
            continue
        b2 = effective(parse(chk2))
        for k in sorted(set(back) | set(b2)):
            if k == "/prng/seed":
                continue  # a label, once the state of the generator is stored
            if k not in back or k not in b2 or not same(back[k], b2[k]):
                R.fail("again:%s:%s" % (p, k), "with %s = %s, %s of the checkpoint %r becomes %r when restarted" % (p, s[2] if s else None, k, back.get(k), b2.get(k)), item)
                break
    return R
