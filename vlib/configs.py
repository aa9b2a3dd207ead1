"""Catalogue of small complete i-PI inputs, generated from option grids.

A configuration is a JSON-able dict of options; xml(cfg, steps, output) renders
the i-PI input. The same catalogue feeds the restart, soft-exit, cache,
integrator and output checks.
"""

import itertools
import numpy as np
from . import sim

T = 0.003  # Hartree; well below every barrier of the test surface
DT = 12.0

_A2 = np.array([[0.004, 0.003], [-0.003, 0.006]])


def _tag(name, val, shape=None):
    if shape is None:
        return "<%s>%s</%s>" % (name, val, name)
    return "<%s shape='%s'>%s</%s>" % (name, shape, val, name)


def gle_A(ns=1):
    A = np.zeros((ns + 1, ns + 1))
    A[0, 0] = 0.004
    for i in range(ns):
        A[0, i + 1] = 0.003 + 0.001 * i
        A[i + 1, 0] = -0.003 - 0.001 * i
        A[i + 1, i + 1] = 0.006 + 0.002 * i
    return A


def gle_C(ns, temp):
    C = np.eye(ns + 1) * temp
    C[0, 0] = temp * 1.2
    C[1, 1] = temp * 0.9
    C[0, 1] = C[1, 0] = 0.05 * temp
    return C


def thermostat(kind, nbeads=1, temp=T, tau=150.0):
    if kind is None or kind == "none":
        return ""
    t = _tag("tau", tau)
    if kind in ("langevin", "svr"):
        return "<thermostat mode='%s'>%s</thermostat>" % (kind, t)
    if kind in ("pile_l", "pile_g"):
        return "<thermostat mode='%s'>%s<pile_lambda>0.4</pile_lambda></thermostat>" % (kind, t)
    if kind in ("pile_l_ct", "pile_g_ct"):
        return (
            "<thermostat mode='%s'>%s<pile_lambda>0.4</pile_lambda>"
            "<pile_centroid_t>%.10e</pile_centroid_t></thermostat>" % (kind[:6], t, temp * 0.7)
        )
    if kind == "gle2":
        return "<thermostat mode='gle'>%s</thermostat>" % _tag("A", sim.arr(gle_A(2)), "(3,3)")
    if kind in ("gle", "gle_c"):
        c = "" if kind == "gle" else _tag("C", sim.arr(gle_C(1, temp)), "(2,2)")
        return "<thermostat mode='gle'>%s%s</thermostat>" % (_tag("A", sim.arr(gle_A(1)), "(2,2)"), c)
    if kind in ("nm_gle", "nm_gle_c", "nm_gle_g"):
        A = np.array([gle_A(1) * (1 + 0.3 * b) for b in range(nbeads)])
        c = ""
        if kind == "nm_gle_c":
            C = np.array([gle_C(1, temp * nbeads) for b in range(nbeads)])
            c = _tag("C", sim.arr(C), "(%d,2,2)" % nbeads)
        return "<thermostat mode='%s'>%s%s%s</thermostat>" % (
            "nm_gle_g" if kind == "nm_gle_g" else "nm_gle",
            _tag("A", sim.arr(A), "(%d,2,2)" % nbeads), c, t if kind == "nm_gle_g" else "")
    if kind == "cl_off":
        return "<thermostat mode='cl'>%s</thermostat>" % t
    if kind == "cl_in":
        return "<thermostat mode='cl'>%s<intau>400</intau></thermostat>" % t
    if kind == "cl_id":
        return "<thermostat mode='cl'>%s<idtau>500</idtau></thermostat>" % t
    if kind == "cl":
        return "<thermostat mode='cl'>%s<intau>400</intau><idtau>500</idtau><apat>300</apat></thermostat>" % t
    if kind == "cl_plain":
        return "<thermostat mode='cl'>%s<intau>400</intau><idtau>500</idtau></thermostat>" % t
    if kind.startswith("ffl"):
        return "<thermostat mode='ffl'>%s<flip>%s</flip></thermostat>" % (t, kind[4:] or "rescale")
    if kind.startswith("multi"):
        sub = kind[6:].split("+")
        return "<thermostat mode='multi'>%s</thermostat>" % "".join(
            thermostat(s, nbeads, temp, tau * (1 + i)) for i, s in enumerate(sub))
    raise ValueError(kind)


def barostat(kind, nbeads=1, temp=T, bt="langevin", hfix=(), volc=False):
    if kind is None or kind == "none":
        return ""
    b = "<tau>300</tau>"
    b += thermostat(bt, 1, temp, 250.0)
    if kind == "anisotropic":
        b += "<h0 shape='(3,3)'>%s</h0>" % sim.arr(sim.CELL * 1.01)
    if hfix:
        b += "<hfix shape='(%d)'>[ %s ]</hfix>" % (len(hfix), ", ".join(hfix))
    if volc:
        b += "<vol_constraint>True</vol_constraint>"
    return "<barostat mode='%s'>%s</barostat>" % (kind, b)


PRESS = 2.0e-6


def motion(cfg):
    """XML of one <motion> block."""
    kind = cfg.get("motion", "dynamics")
    nb = cfg.get("nbeads", 2)
    fix = ""
    if "fixcom" in cfg:
        fix += _tag("fixcom", cfg["fixcom"])
    if cfg.get("fixatoms"):
        fa = cfg["fixatoms"]
        fix += "<fixatoms shape='(%d)'>[ %s ]</fixatoms>" % (len(fa), ", ".join(map(str, fa)))
    if cfg.get("fixdof"):
        fa = cfg["fixdof"]
        fix += "<fixatoms_dof shape='(%d)'>[ %s ]</fixatoms_dof>" % (len(fa), ", ".join(map(str, fa)))
    if kind == "dynamics":
        nm = cfg.get("nmts")
        body = "<dynamics mode='%s' splitting='%s'><timestep>%r</timestep>%s%s%s</dynamics>" % (
            cfg.get("ens", "nvt"), cfg.get("split", "obabo"), cfg.get("dt", DT),
            "" if nm is None else "<nmts shape='(%d)'>[ %s ]</nmts>" % (len(nm), ", ".join(map(str, nm))),
            thermostat(cfg.get("thermo"), nb),
            barostat(cfg.get("baro"), nb, bt=cfg.get("bthermo", "langevin"),
                     hfix=cfg.get("hfix", ()), volc=cfg.get("volc", False)),
        )
    elif kind == "minimize":
        body = "<optimizer mode='%s'><tolerances><energy>1e-9</energy><force>1e-6</force><position>1e-6</position></tolerances><biggest_step>%r</biggest_step>%s</optimizer>" % (
            cfg["opt"], cfg.get("big", 0.05), cfg.get("optx", ""))
    elif kind == "alchemy":
        body = "<alchemy><names shape='(2)'>[ H, D ]</names><nxc>%r</nxc></alchemy>" % cfg.get("nxc", 2.5)
    elif kind == "atomswap":
        body = "<atomswap><names shape='(2)'>[ H, D ]</names><nxc>%r</nxc></atomswap>" % cfg.get("nxc", 2.5)
    elif kind == "t_ramp":
        body = "<t_ramp><t_start>%r</t_start><t_end>%r</t_end><total_steps>5</total_steps><logscale>%s</logscale></t_ramp>" % (T, 3 * T, cfg.get("log", False))
    elif kind == "p_ramp":
        body = "<p_ramp><p_start>%r</p_start><p_end>%r</p_end><total_steps>5</total_steps><logscale>%s</logscale></p_ramp>" % (PRESS, 4 * PRESS, cfg.get("log", False))
    elif kind == "planetary":
        body = "<planetary mode='md'><timestep>%r</timestep><nsamples>2</nsamples><stride>%d</stride><nbeads>%d</nbeads>%s</planetary>" % (DT, cfg.get("stride", 1), cfg.get("pbeads", nb), thermostat(cfg.get("thermo", "langevin"), nb))
    elif kind == "driven":
        body = ("<driven_dynamics mode='%s'><timestep>%r</timestep>%s<efield><amp shape='(3)'>[ 0.001, 0.002, -0.001 ]</amp>"
                "<freq>0.004</freq><phase>0.3</phase><peak>20.0</peak><sigma>60.0</sigma></efield>"
                "<bec mode='manual' shape='(%d,3)'>%s</bec></driven_dynamics>") % (
            cfg.get("ens", "eda-nve"), DT, thermostat(cfg.get("thermo"), nb), 3 * nb * cfg.get("natoms", 3),
            sim.arr(np.tile(np.tile(np.eye(3), (cfg.get("natoms", 3), 1)) * np.repeat(np.array([1.0, -1.0] * 9)[: cfg.get("natoms", 3)], 3)[:, None], (nb, 1))))
    elif kind == "vibrations":
        n3 = 3 * cfg.get("natoms", 3)
        dm = ""
        if cfg.get("vib", "fd") != "fd":
            ij = np.arange(n3)
            M = 1e-5 * (np.eye(n3) * (1 + 0.1 * ij) + 0.05 * np.cos(ij[:, None] + ij[None, :]))
            dm = "<dynmat shape='(%d,%d)'>%s</dynmat>" % (n3, n3, sim.arr(M))
        body = "<vibrations mode='%s'><pos_shift>0.01</pos_shift><energy_shift>1e-4</energy_shift><output_shift>1e-4</output_shift><prefix>ph</prefix>%s</vibrations>" % (cfg.get("vib", "fd"), dm)
    elif kind == "neb":
        body = "<neb_optimizer mode='%s'><endpoints><optimize>False</optimize></endpoints>%s%s</neb_optimizer>" % (cfg["opt"], "", cfg.get("optx", ""))
    elif kind == "instanton":
        body = "<instanton mode='%s'><opt>%s</opt><tolerances><energy>1e-9</energy><force>1e-6</force><position>1e-6</position></tolerances><alt_out>-1</alt_out>%s</instanton>" % (cfg.get("imode", "rate"), cfg["opt"], cfg.get("optx", ""))
    elif kind == "multi":
        return "<motion mode='multi'>%s</motion>" % "".join(motion({**cfg, **s, "sub": 1}) for s in cfg["sub"])
    elif kind == "replay":
        body = "<file mode='%s'>%s</file>" % (cfg.get("fmt", "xyz"), cfg["file"])
    elif kind == "dummy":
        return "<motion mode='dummy'></motion>"
    else:
        raise ValueError(kind)
    mode = {"driven": "driven_dynamics"}.get(kind, kind)
    return "<motion mode='%s'>%s%s</motion>" % (mode, fix, body)


def normal_modes(cfg):
    s = cfg.get("nm")
    if not s:
        return ""
    a = "<normal_modes transform='%s' propagator='%s'>" % (s.get("transform", "fft"), s.get("prop", "exact"))
    if "freqs" in s:
        st, v = s["freqs"]
        if isinstance(v, str) and v == "manual":
            v = [0.004 + 0.002 * i for i in range(cfg.get("nbeads", 2) - 1)]
        a += "<frequencies style='%s' shape='(%d)'>%s</frequencies>" % (st, len(v), sim.arr(v))
    if s.get("open"):
        a += "<open_paths shape='(%d)'>[ %s ]</open_paths>" % (len(s["open"]), ", ".join(map(str, s["open"])))
    if s.get("bosons"):
        a += "<bosons shape='(%d)'>[ %s ]</bosons>" % (len(s["bosons"]), ", ".join(map(str, s["bosons"])))
    if s.get("nmts"):
        a += "<nmts>%d</nmts>" % s["nmts"]
    return a + "</normal_modes>"


def forces(cfg):
    if cfg.get("forces") == "rpc":
        return "<force forcefield='ff' weight='0.7'/><force forcefield='ff2' nbeads='1' weight='1.1'/>"
    if cfg.get("forces") == "mts":
        return (
            "<force forcefield='ff'><mts_weights shape='(2)'>[ 1.0, 0.0 ]</mts_weights></force>"
            "<force forcefield='ff2' nbeads='%d'><mts_weights shape='(2)'>[ 0.0, 1.0 ]</mts_weights></force>" % cfg.get("fb", 1)
        )
    if cfg.get("forces") == "mts3":
        return "".join(
            "<force forcefield='%s' nbeads='%d'><mts_weights shape='(3)'>[ %s ]</mts_weights></force>" % (f, b, w)
            for f, b, w in (("ff", 0, "0.0, 0.0, 1.0"), ("ff2", cfg.get("fb", 1), "0.0, 1.0, 0.0"), ("ff2", 0, "1.0, -0.5, 0.0"), ("ff", 1, "0.2, 0.0, -0.2"))
        )
    return "<force forcefield='ff'/>"


def ensemble_extra(cfg):
    e = ""
    if cfg.get("bias"):
        e += "<bias><force forcefield='ffb'/></bias><bias_weights shape='(1)'>[ 0.6 ]</bias_weights>"
    if cfg.get("hweights"):
        e += "<hamiltonian_weights shape='(1)'>[ %r ]</hamiltonian_weights>" % cfg["hweights"]
    if "eens" in cfg:
        e += "<eens>%r</eens>" % cfg["eens"]
    return e


def system(cfg, prefix="", seed=3, temp=None):
    pr = st = None
    if cfg.get("baro") or cfg.get("motion") == "p_ramp" or cfg.get("press"):
        if cfg.get("baro") == "anisotropic":
            st = np.array([[1.0, 0.1, 0.05], [0.0, 1.3, 0.0], [0.0, 0.0, 0.8]]) * PRESS
        else:
            pr = PRESS
    return sim.system_xml(
        motion(cfg), natoms=cfg.get("natoms", 3), nbeads=cfg.get("nbeads", 2),
        ff=forces(cfg), temp=T if temp is None else temp, ensemble=ensemble_extra(cfg), nm=normal_modes(cfg),
        seed=seed, prefix=prefix, pressure=pr, stress=st,
    )


def forcefields(cfg):
    ti = cfg.get("pes") == "ti"  # translationally invariant
    if cfg.get("pes") == "free":
        return sim.ff_xml("ff", dict(k=0.0, k4=0.0, kp=0.0)) + sim.ff_xml("ff2", dict(k=0.0, k4=0.0, kp=0.0))
    p = dict(k=0.0, k4=0.0, kp=0.02) if ti else dict(k=0.02, k4=0.003, kp=0.01)
    if cfg.get("baro") or cfg.get("press"):
        p.update(c=0.5, v0=1040.0)
    f = sim.ff_xml("ff", p)
    f += sim.ff_xml("ff2", dict(k=0.0, k4=0.0, kp=0.004, r0=1.1) if ti else dict(k=0.004, k4=0.001, kp=0.002))
    if cfg.get("bias"):
        f += sim.ff_xml("ffb", dict(k=0.0, k4=0.0, kp=0.004, r0=1.9) if ti else dict(k=0.003, k4=0.0, kp=0.004))
    return f


def xml(cfg, steps, output="", **kw):
    sysx = ""
    ns = cfg.get("nsys", 1)
    for s in range(ns):
        temp = T * (1 + 0.4 * s)
        sysx += system(cfg, prefix="s%d" % s if ns > 1 else "", seed=3 + s, temp=temp)
    sm = cfg.get("smotion", "")
    if sm == "remd":
        sm = "<smotion mode='remd'><remd><stride>%d</stride></remd></smotion>" % cfg.get("swapstride", 1)
    return sim.simulation_xml(
        forcefields(cfg), sysx, steps=steps, output=output, smotion=sm,
        safe_stride=cfg.get("safe_stride", 1), **kw)
