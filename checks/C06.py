"""C06: stopping after any step and restarting gives the uninterrupted run.

For every configuration of the catalogue and every split point k < N the real
engine is run (a) N steps, (b) k steps, exit, restart from RESTART, N-k steps in
the same directory, and (c) restarted from the checkpoint file written after step
k of run (a). Final states (every leaf of the final RESTART document) and all
output files must coincide.
"""

import os
import re
import xml.etree.ElementTree as ET
import numpy as np
from vlib import sim, configs
from vlib.core import Result, adigest

PROPERTY = "C06"
LEVEL = "model_checking"
RULE = "configuration grid x every split point x {RESTART, checkpoint} restart path"
TIMEOUT = 150.0

NSTEPS = {"quick": 4, "thorough": 8}


def grid(tier):
    c = []
    th1 = ["langevin", "svr", "gle", "gle_c", "cl", "cl_plain", "ffl_rescale", "ffl_soft", "ffl_hard", "ffl_none",
           "pile_l", "pile_g", "pile_l_ct", "pile_g_ct", "nm_gle", "nm_gle_c", "nm_gle_g",
           "multi:langevin+svr", "multi:gle+langevin", "multi:pile_g+svr"]
    # constant-temperature dynamics: every thermostat x both splittings x fixcom
    for th in th1:
        for sp in ("obabo", "baoab"):
            for fc in ((True, False) if tier == "thorough" else (sp == "obabo",)):
                c.append(dict(ens="nvt", thermo=th, split=sp, fixcom=fc, nbeads=1 if th.startswith("cl") else 2))
        c.append(dict(ens="nvt", thermo=th, nbeads=1 if (th.startswith("cl") or tier == "quick") else 3))
    c.append(dict(ens="nve"))
    c.append(dict(ens="nve", nbeads=1, split="baoab"))
    for fx in (dict(fixatoms=[1]), dict(fixdof=[0, 4, 8])):
        for th in ("langevin", "pile_g", "gle", "nm_gle"):
            c.append(dict(ens="nvt", thermo=th, **fx))
    # barostats
    for ens, baro in (("npt", "isotropic"), ("nst", "anisotropic"), ("npt", "flexible"), ("scnpt", "sc-isotropic")):
        for bt in ("langevin", "svr", "gle", "none"):
            for sp in (("obabo", "baoab") if ens in ("npt", "nst") else ("obabo",)):
                c.append(dict(ens=ens, baro=baro, bthermo=bt, thermo="pile_l", split=sp))
        c.append(dict(ens=ens, baro=baro, thermo="svr", nbeads=2 if ens == "scnpt" else 1, bias=ens != "scnpt"))
    c.append(dict(ens="npt", baro="flexible", thermo="langevin", hfix=["xy", "xz"], fixcom=False))
    c.append(dict(ens="npt", baro="flexible", thermo="langevin", hfix=["offdiagonal"]))
    c.append(dict(ens="nst", baro="anisotropic", thermo="langevin", hfix=["xx", "yz"]))
    c.append(dict(ens="npt", baro="flexible", thermo="langevin", volc=True))
    # multiple time steps, contraction, Suzuki-Chin, bias, weights
    for ens in ("nve", "nvt", "npt"):
        for fb in (1, 2):
            c.append(dict(ens=ens, forces="mts", fb=fb, nmts=[1, 2], thermo="pile_l" if ens != "nve" else None,
                          baro="isotropic" if ens == "npt" else None, split="baoab" if fb == 1 else "obabo"))
    c.append(dict(ens="nvt", forces="rpc", thermo="pile_g", nbeads=3))
    c.append(dict(ens="nvt", bias=True, thermo="pile_l", eens=0.3))
    c.append(dict(ens="sc", thermo="pile_l", nbeads=4))
    c.append(dict(ens="sc", thermo="langevin", nbeads=2))
    c.append(dict(ens="scnpt", baro="sc-isotropic", thermo="pile_l", nbeads=4))
    # ring-polymer options
    for pr in ("exact", "cayley", "bab"):
        for tr in ("fft", "matrix"):
            for fr in (None, ("pa-cmd", [0.02]), ("wmax-cmd", [0.03, 0.01]), ("manual", "manual")):
                nm = dict(prop=pr, transform=tr, nmts=3)
                if fr:
                    nm["freqs"] = fr
                c.append(dict(ens="nvt", thermo="pile_l", nbeads=3, nm=nm))
    c.append(dict(ens="nvt", thermo="pile_l", nbeads=3, nm=dict(open=[0], transform="matrix")))
    c.append(dict(ens="nvt", thermo="pile_l", nbeads=3, nm=dict(open=[0, 2], transform="fft", prop="cayley")))
    c.append(dict(ens="nve", nbeads=3, natoms=3, nm=dict(bosons=[0, 2], prop="bab", nmts=2)))
    c.append(dict(ens="nvt", thermo="pile_l", nbeads=2, natoms=3, nm=dict(bosons=[0, 2], prop="bab", nmts=2)))
    # replica exchange and multiple systems
    c.append(dict(ens="nvt", thermo="pile_l", nsys=2))
    for st in (1, 2, 3):
        c.append(dict(ens="nvt", thermo="langevin", nsys=3, smotion="remd", swapstride=st, nbeads=1))
    c.append(dict(ens="npt", baro="isotropic", thermo="svr", nsys=2, smotion="remd", bias=True))
    # other kinds of motion
    for o in ("sd", "cg", "bfgs", "bfgstrm", "lbfgs", "damped_bfgs"):
        for nb in (1, 2):
            for fx in ({}, dict(fixatoms=[1])):
                if fx and nb > 1:
                    continue  # optimizers do not support frozen atoms with several beads
                c.append(dict(motion="minimize", opt=o, nbeads=nb, **fx))
    c.append(dict(motion="vibrations", vib="fd", nbeads=1, natoms=2))
    c.append(dict(motion="vibrations", vib="nmfd", nbeads=1, natoms=2))
    c.append(dict(motion="vibrations", vib="enmfd", nbeads=1, natoms=2))
    for en in ("eda-nve", "eda-nvt"):
        c.append(dict(motion="driven", ens=en, thermo="langevin", nbeads=2 if en == "eda-nvt" else 1))
    md = dict(motion="dynamics", ens="nvt", thermo="langevin")
    c.append(dict(motion="multi", sub=[md, dict(motion="atomswap")], nbeads=2, natoms=4))
    # (with fixcom the split of the conserved quantity between bath and constraint depends on when
    # the drift created by the exchange is removed; only the sum is meaningful, so fixcom is off)
    c.append(dict(motion="multi", fixcom=False, sub=[md, dict(motion="alchemy")], nbeads=2, natoms=4))
    c.append(dict(motion="multi", fixcom=False, sub=[dict(motion="alchemy"), dict(motion="dynamics", ens="nvt", thermo="pile_g")], nbeads=3, natoms=4))
    c.append(dict(motion="multi", sub=[dict(motion="t_ramp"), md]))
    c.append(dict(motion="multi", sub=[dict(motion="t_ramp", log=True), md]))
    c.append(dict(motion="multi", press=True, sub=[dict(motion="p_ramp"), dict(motion="dynamics", ens="npt", thermo="svr", baro="isotropic")]))
    c.append(dict(motion="multi", press=True, sub=[dict(motion="p_ramp", log=True), dict(motion="dynamics", ens="npt", thermo="svr", baro="isotropic")]))
    for o in ("fire", "damped_bfgs"):
        c.append(dict(motion="neb", opt=o, nbeads=5, natoms=2))
    for o in ("nichols", "NR", "lbfgs", "lanczos"):
        c.append(dict(motion="instanton", opt=o, nbeads=4, natoms=1, optx="<hessian_init>true</hessian_init>" if o != "lbfgs" else ""))
    c.append(dict(motion="dummy"))
    for ss in (2, 3):
        c.append(dict(ens="nvt", thermo="langevin", safe_stride=ss))
    if tier == "thorough":
        for th in th1:
            for ens, baro in (("npt", "isotropic"), ("nst", "anisotropic"), ("npt", "flexible"), ("scnpt", "sc-isotropic")):
                nb = 1 if th.startswith("cl") else 2
                if ens == "scnpt" and nb == 1:
                    continue
                c.append(dict(ens=ens, baro=baro, thermo=th, nbeads=nb))
        for th in ("pile_l", "pile_g", "nm_gle", "gle", "svr"):
            for pr in ("exact", "cayley", "bab"):
                c.append(dict(ens="nvt", thermo=th, nbeads=4, nm=dict(prop=pr, nmts=2)))
                c.append(dict(ens="nvt", thermo=th, nbeads=3, nm=dict(prop=pr, open=[1])) if pr != "bab" else dict(ens="nvt", thermo=th, nbeads=4, nm=dict(prop=pr, nmts=4)))
    out = []
    for x in c:
        if x not in out:
            out.append(x)
    return out


def items(tier):
    out = []
    for i, c in enumerate(grid(tier)):
        d = {k: v for k, v in c.items() if v is not None}
        out.append({"cfg": d, "n": NSTEPS[tier]})
    return out


BOUNDS = {
    t: "%d configurations, %d steps, split after every step, both restart paths" % (len(items(t)), NSTEPS[t])
    for t in ("quick", "thorough")
}
ASSUMPTIONS = [
    "floatformat %25.17e so that checkpoints carry full double precision",
    "deterministic forces from an in-process PES",
    "relative agreement 1e-7 of final states, 1e-6 of printed outputs",
]

OUT = """<output prefix='sim'>
<properties stride='1' filename='prop'>[ step, time, conserved, temperature, kinetic_cv, potential, kinetic_md, ensemble_temperature ]</properties>
<properties stride='2' filename='prop2'>[ step, potential ]</properties>
<trajectory stride='1' filename='pos' format='xyz'>positions</trajectory>
<trajectory stride='3' filename='vel' format='xyz'>velocities</trajectory>
<checkpoint stride='1' filename='chk' overwrite='False'/>
</output>"""


def output(cfg):
    if cfg.get("nm", {}).get("bosons"):
        return OUT.replace("kinetic_cv", "kinetic_td")
    return OUT


def settotal(text, n):
    root = ET.fromstring(text)
    root.find("total_steps").text = str(n)
    return ET.tostring(root, encoding="unicode")


def read_outputs():
    out = {}
    for fn in sorted(os.listdir(".")):
        if os.path.isdir(fn) or fn.startswith("chk") or ".chk" in fn or fn.startswith("RESTART") or fn.startswith("#") or fn in ("EXIT", "START"):
            continue
        with open(fn, "rb") as f:
            b = f.read()
        try:
            out[fn] = b.decode().splitlines()
        except UnicodeDecodeError:
            out[fn] = [b.hex()]
    return out


def tok_diff(a, b, rtol, atol):
    if a == b:
        return None
    ta, tb = a.split(), b.split()
    if len(ta) != len(tb):
        return "%r vs %r" % (a[:120], b[:120])
    for x, y in zip(ta, tb):
        if x == y:
            continue
        try:
            fx, fy = float(x), float(y)
        except ValueError:
            return "%r vs %r" % (x, y)
        if abs(fx - fy) > atol + rtol * max(abs(fx), abs(fy)):
            return "%s vs %s" % (x, y)
    return None


def cmp_outputs(A, B):
    bad = []
    for f in sorted(set(A) | set(B)):
        if f not in A or f not in B:
            bad.append((f, "file only in one run"))
            continue
        if len(A[f]) != len(B[f]):
            bad.append((f, "line counts %d vs %d" % (len(A[f]), len(B[f]))))
            continue
        for i, (x, y) in enumerate(zip(A[f], B[f])):
            d = tok_diff(x, y, 2e-6, 2e-6)
            if d:
                bad.append((f, "line %d: %s" % (i, d)))
                break
    return bad


# leaves that may legitimately differ between the two routes
def ignore(p):
    # the seed is only a label once the generator state is stored
    return "/prng[" in p and "/seed[" in p


def run(item):
    cfg, n = item["cfg"], item["n"]
    r = Result()
    top = os.getcwd()

    def sub(d):
        os.makedirs(d)
        os.chdir(d)

    key = lambda *a: ":".join(str(x) for x in a)
    os.makedirs("full")
    os.chdir("full")
    out = output(cfg)
    sim.run_cli(configs.xml(cfg, n, out))
    ref = sim.leaves(open("RESTART").read())
    refout = read_outputs()
    chks = {}
    for fn in os.listdir("."):
        m = re.match(r"sim\.chk_(\d+)$", fn) or re.match(r"chk_(\d+)$", fn)
        if m:
            chks[int(m.group(1))] = open(fn).read()
    os.chdir(top)
    tag = digest_cfg(cfg)
    r.state(tag, "full", ref.get("simulation/step[0]"))
    r.transitions += n
    nref = int(ref["simulation/step[0]"])
    if nref != n and not cfg.get("motion") in ("vibrations",):
        r.outcome("full-run-finished-early")
    for k in range(1, min(n, nref)):
        # (b) stop after k steps, restart in place
        os.chdir(top)
        sub("split%d" % k)
        sim.run_cli(configs.xml(cfg, k, out))
        if not os.path.exists("RESTART"):
            r.fail(key(tag, "norestart", k), "no RESTART after %d steps" % k, cfg)
            continue
        txt = settotal(open("RESTART").read(), n)
        r.state(tag, "split", k)
        sim.run_cli(txt)
        got = sim.leaves(open("RESTART").read())
        bad = sim.diff_leaves(ref, got, rtol=1e-7, atol=1e-10, ignore=ignore)
        if bad:
            r.fail(key(tag, "restart", bad[0][0]), "restart after step %d of %s: final state differs at %s: %s" % (k, cfg, bad[0][0], bad[0][1]), {"k": k, "bad": bad[:20]})
        bado = cmp_outputs(refout, read_outputs())
        if bado:
            r.fail(key(tag, "outputs", bado[0][0]), "restart after step %d of %s: output %s differs: %s" % (k, cfg, bado[0][0], bado[0][1]), {"k": k, "bad": bado[:20]})
        r.transitions += n
        r.traces += 1
        r.outcome("restart-path")
        # (c) restart from the checkpoint written after step k of the full run
        ck = None
        for idx, t in chks.items():
            m = re.search(r"<step>\s*(\d+)\s*</step>", t)
            if (int(m.group(1)) if m else 0) == k:
                ck = t
        if ck is None:
            r.fail(key(tag, "nochk", k), "no checkpoint for step %d of %s (have %s)" % (k, cfg, sorted(chks)), None)
            continue
        os.chdir(top)
        sub("chk%d" % k)
        sim.run_cli(ck)
        got = sim.leaves(open("RESTART").read())
        bad = sim.diff_leaves(ref, got, rtol=1e-7, atol=1e-10, ignore=ignore)
        if bad:
            r.fail(key(tag, "checkpoint", bad[0][0]), "restart from checkpoint of step %d of %s: final state differs at %s: %s" % (k, cfg, bad[0][0], bad[0][1]), {"k": k, "bad": bad[:20]})
        r.transitions += n - k
        r.traces += 1
        r.outcome("checkpoint-path")
        r.state(tag, "chk", k)
    os.chdir(top)
    return r


def digest_cfg(cfg):
    return ",".join("%s=%s" % (k, cfg[k]) for k in sorted(cfg))
