"""C07: no quantity is ever read stale.

(a) "graph": every dependency graph of bounded size built from the real depend
objects, every sequence of writes and reads of bounded length, each read compared
with a recomputation from the primitive values.
(b) "sync": a pair of synchronised arrays (as bead / normal-mode coordinates are)
with bead views, held views and dependants, every sequence of bounded length.
(c) "sim": complete systems built from the catalogue of inputs; every quantity that
can be set is changed in every way (whole, one element, through a view), alone and in
pairs; afterwards every cached quantity must equal the value it takes when every
cache is discarded.
(d) "run": the same comparison after every step of real runs.
"""

import copy
import itertools
import os

import numpy as np

from vlib import configs, sim
from vlib.core import Result, digest

PROPERTY = "C07"
LEVEL = "model_checking"
TIMEOUT = 300.0
RULE = (
    "one case per dependency-graph shape, synchroniser scenario, or simulation input; states are distinct (cache validity, value "
    "version) combinations reached; transitions are writes and reads executed on the real objects"
)
ASSUMPTIONS = [
    "values are changed through the public interface (attribute, index or view assignment), not through numpy views of the raw storage",
    "no thread writes a quantity while another one reads it (the engine never does)",
]
BOUNDS = {
    "quick": "graphs: 2 primitives + 3 computed, all predecessor sets, sequences of 3 or 4 operations; synchronised pair: sequences of 4 "
    "operations; simulations: every single change, every pair on 2 inputs, 2 steps",
    "thorough": "as quick with sequences of 5 operations, every pair of changes on 16 inputs, 4 steps",
}


# ---------------------------------------------------------------- abstract graphs
def graphs():
    """All dependency structures of 2 primitives and 3 computed nodes."""
    out = []
    opts = []
    for n in (2, 3, 4):
        opts.append([s for r in range(1, n + 1) for s in itertools.combinations(range(n), r)])
    for a in opts[0]:
        for b in opts[1]:
            for c in opts[2]:
                out.append([a, b, c])
    return out


def build_graph(preds, kinds):
    import ipi.utils.depend as D

    nodes = []
    for i in range(2):
        if kinds[i] == "v":
            nodes.append(D.depend_value(name="p%d" % i, value=float(i + 1)))
        else:
            nodes.append(D.depend_array(name="p%d" % i, value=np.array([1.0 + i, 2.0 + i])))

    def rd(o):
        x = o.get()
        return np.asarray(x, float).sum() if not isinstance(x, float) else x

    for j, ps in enumerate(preds):
        f = lambda ps=ps, j=j: sum((k + 2) * rd(nodes[k]) for k in ps) + j
        if kinds[2 + j] == "v":
            nodes.append(D.depend_value(name="c%d" % j, func=f, dependencies=[nodes[k] for k in ps]))
        else:
            g = lambda f=f: np.array([f(), 2 * f()])
            nodes.append(D.depend_array(name="c%d" % j, value=np.zeros(2), func=g, dependencies=[nodes[k] for k in ps]))
    return nodes, rd


def graph_truth(preds, kinds, prim):
    vals = [float(np.sum(prim[0])), float(np.sum(prim[1]))]
    for j, ps in enumerate(preds):
        f = sum((k + 2) * vals[k] for k in ps) + j
        vals.append(f if kinds[2 + j] == "v" else 3 * f)
    return vals


def run_graph(item, r):
    import ipi.utils.depend as D

    depth = item["depth"]
    for preds in item["graphs"]:
        for kinds in item["kinds"]:
            ops = []
            for i in range(2):
                ops.append(("set", i))
                if kinds[i] == "a":
                    ops.append(("elem", i))
                    ops.append(("view", i))
            for i in range(2, 5):
                ops.append(("read", i))
                if i == 4:
                    ops.append(("badset", i))
            for seq in itertools.product(ops, repeat=depth):
                if seq[-1][0] != "read":
                    continue
                nodes, rd = build_graph(preds, kinds)
                views = [nodes[i][0:1] if kinds[i] == "a" else None for i in range(2)]
                prim = [np.array([1.0]) if kinds[0] == "v" else np.array([1.0, 2.0]), np.array([2.0]) if kinds[1] == "v" else np.array([2.0, 3.0])]
                n = 0
                for op, i in seq:
                    n += 1
                    if op == "set":
                        v = 10.0 * n + i
                        if kinds[i] == "v":
                            nodes[i].set(v)
                            prim[i][:] = v
                        else:
                            nodes[i].set(np.array([v, v + 1]))
                            prim[i][:] = [v, v + 1]
                    elif op == "elem":
                        nodes[i][1] = 7.0 * n
                        prim[i][1] = 7.0 * n
                    elif op == "view":
                        views[i][0] = 5.0 * n
                        prim[i][0] = 5.0 * n
                    elif op == "badset":
                        try:
                            nodes[i].set(-1.0)
                            r.fail("graph:accepted", "a computed quantity accepts a value: graph %s" % (preds,), {"seq": seq})
                        except NameError:
                            pass
                    else:
                        got = rd(nodes[i])
                        want = graph_truth(preds, kinds, prim)[i]
                        if abs(got - want) > 1e-9:
                            r.fail("graph:stale:%s" % kinds, "graph %s of kinds %s after %s: node %d is %r, should be %r" % (preds, kinds, seq, i, got, want), {"seq": seq})
                    r.transitions += 1
                r.states.add(digest([preds, kinds, [int(bool(x._tainted[0])) for x in nodes]]))
                r.traces += 1
    r.outcome("graph", len(item["graphs"]))


# ---------------------------------------------------------------- synchronised pair
NB = 2


def build_sync(seed=0):
    """beads + normal modes of one quantity, with the real classes."""
    from ipi.engine.beads import Beads
    import ipi.utils.depend as D
    from ipi.utils import nmtransform

    b = Beads(1, NB)
    b.q[:] = np.arange(NB * 3).reshape(NB, 3) + 1.0
    b.p[:] = np.arange(NB * 3).reshape(NB, 3) * 0.5 - 1.0
    b.m[:] = 2.0
    from ipi.engine.normalmodes import NormalModes
    from ipi.engine.ensembles import Ensemble
    from ipi.engine.motion import Motion

    nm = NormalModes(transform_method="matrix")
    mo = Motion()
    mo.dt = 1.0
    nm.bind(Ensemble(temp=0.01), mo, beads=b)
    return b, nm


SYNC_OPS = [
    "q=", "qnm=", "q[i,j]=", "qnm[i,j]=", "q[1]=", "qnm[0]=", "bead.q=", "bead.q[j]=", "held[i,j]=", "heldnm[i,j]=",
    "heldview[j]=", "q+=", "q[0]*=", "flatview=", "out=",
    "r:q", "r:qnm", "r:qc", "r:bead.q", "r:vspring", "r:held", "r:heldview", "r:heldcopy", "r:heldT", "r:vpath",
]


# in the quick tier one of the middle operations is of this kind
LEAN = ("q[i,j]=", "qnm=", "heldview[j]=", "heldnm[i,j]=", "r:qnm", "bead.q=")


def run_sync(item, r):
    M = None
    for first in item["first"]:
        for rest in itertools.product(SYNC_OPS, repeat=item["depth"] - 1):
            seq = (first,) + rest
            if not seq[-1].startswith("r:") or any(a == b for a, b in zip(seq, seq[1:])):
                continue
            if item.get("lean") and not any(o in LEAN for o in seq[1:-1]):
                continue
            b, nm = build_sync()
            if M is None:
                from ipi.utils import nmtransform

                M = np.array(nmtransform.mk_nm_matrix(NB))
            Q = np.arange(NB * 3).reshape(NB, 3) + 1.0
            held, heldnm, heldview = b.q, nm.qnm, b.q[1]
            snaps = [("np.array(q)", np.array(b.q), Q.copy()), ("np.array(qnm)", np.array(nm.qnm), M @ Q), ("q[1].copy()", b.q[1].copy(), Q[1].copy())]
            for n, op in enumerate(seq):
                x = 3.0 + 1.7 * n
                full = x + np.arange(NB * 3).reshape(NB, 3) * (0.3 + n)
                Qn = M @ Q
                if op == "q=":
                    b.q = full
                    Q = full.copy()
                elif op == "qnm=":
                    nm.qnm = full
                    Q = M.T @ full
                elif op == "q[i,j]=":
                    b.q[1, 2] = x
                    Q[1, 2] = x
                elif op == "qnm[i,j]=":
                    nm.qnm[1, 0] = x
                    Qn[1, 0] = x
                    Q = M.T @ Qn
                elif op == "q[1]=":
                    b.q[1] = full[0]
                    Q[1] = full[0]
                elif op == "qnm[0]=":
                    nm.qnm[0, :] = full[1]
                    Qn[0] = full[1]
                    Q = M.T @ Qn
                elif op == "bead.q=":
                    b[0].q = full[0]
                    Q[0] = full[0]
                elif op == "bead.q[j]=":
                    b[1].q[1] = x
                    Q[1, 1] = x
                elif op == "held[i,j]=":
                    held[0, 1] = x
                    Q[0, 1] = x
                elif op == "heldnm[i,j]=":
                    heldnm[0, 2] = x
                    Qn[0, 2] = x
                    Q = M.T @ Qn
                elif op == "heldview[j]=":
                    heldview[2] = x
                    Q[1, 2] = x
                elif op == "q+=":
                    b.q += x
                    Q = Q + x
                elif op == "q[0]*=":
                    b.q[0] *= 1.5
                    Q[0] = Q[0] * 1.5
                elif op == "flatview=":
                    b.q.reshape((NB, 1, 3))[0, 0, 1] = x
                    Q[0, 1] = x
                elif op == "out=":
                    np.add(b.q, x, out=b.q)
                    Q = Q + x
                else:
                    want = got = None
                    if op == "r:q":
                        got, want = np.array(b.q), Q
                    elif op == "r:qnm":
                        got, want = np.array(nm.qnm), M @ Q
                    elif op == "r:qc":
                        got, want = np.array(b.qc), Q.mean(axis=0)
                    elif op == "r:bead.q":
                        got, want = np.array(b[1].q), Q[1]
                    elif op == "r:vspring":
                        got = nm.vspring
                        om2 = (0.01 * NB) ** 2
                        want = 0.5 * 2.0 * om2 * sum(((Q[k] - Q[(k + 1) % NB]) ** 2).sum() for k in range(NB))
                    elif op == "r:vpath":
                        got = b.vpath
                        want = 0.5 * 2.0 * sum(((Q[k] - Q[(k + 1) % NB]) ** 2).sum() for k in range(NB))
                    elif op == "r:held":
                        got, want = np.array(held), Q
                    elif op == "r:heldview":
                        got, want = heldview + 0.0, Q[1]
                    elif op == "r:heldcopy":
                        got, want = heldview.copy(), Q[1]
                    elif op == "r:heldT":
                        got, want = np.array(held.T), Q.T
                    if not np.allclose(got, want, rtol=1e-9, atol=1e-9):
                        w = [o for o in seq[:n] if not o.startswith("r:")]
                        r.fail("sync:%s:after:%s" % (op, w[-1] if w else "nothing"), "after %s, %s gives %s instead of %s" % (list(seq[:n]), op, np.asarray(got).tolist(), np.asarray(want).tolist()), {"seq": seq})
                r.transitions += 1
            for what, got, want in snaps:
                if not np.allclose(got, want, rtol=1e-9, atol=1e-9):
                    r.fail("sync:snapshot:" + what, "a copy made with %s changes after %s" % (what, list(seq)), {"seq": seq})
            r.traces += 1
            r.states.add(digest(["sync", seq[-2:], bool(b._q._tainted[0]), bool(nm._qnm._tainted[0]), b._q._synchro.manual]))
    r.outcome("sync")


# ---------------------------------------------------------------- real systems
SKIP_PATH = (".properties", ".trajs", ".init", ".simul", ".output_maker", ".prng")


def walk(root, name):
    import ipi.utils.depend as D

    seen, out = set(), {}
    keep = []
    stack = [(name, root)]
    while stack:
        path, o = stack.pop(0)
        if id(o) in seen:
            continue
        seen.add(id(o))
        keep.append(o)
        if isinstance(o, D.depend_base):
            out[path] = o
            continue
        if isinstance(o, (list, tuple)):
            if len(o) < 64:
                stack += [("%s[%d]" % (path, i), x) for i, x in enumerate(o)]
        elif isinstance(o, dict):
            if len(o) < 64:
                stack += [("%s{%s}" % (path, k), x) for k, x in o.items()]
        elif hasattr(o, "__dict__") and type(o).__module__.startswith("ipi"):
            for k, x in vars(o).items():
                p = path + "." + k
                if not any(p.endswith(s) for s in SKIP_PATH):
                    stack.append((p, x))
    return out


def nodes_of(s):
    w = {}
    for i, sy in enumerate(s.syslist):
        for k, o in walk(sy, "s%d" % i).items():
            if id(o) not in [id(x) for x in w.values()]:
                w[k] = o
    return w


def root_of(o):
    while getattr(o, "_parent", None) is not None:
        o = o._parent
    return o


def settable(o):
    root = root_of(o)
    return root._func is None or root._synchro is not None


def raw(o):
    import ipi.utils.depend as D

    v = o.get()
    return v._value if isinstance(v, D.depend_array) else v


def readall(w):
    out = {}
    for p, o in w.items():
        if o._func is None and o._synchro is None:
            continue
        try:
            out[p] = copy.deepcopy(raw(o))
        except (Exception, SystemExit) as e:  # not defined for this system
            out[p] = ("EXC", type(e).__name__)
    return out


def discard(w):
    """Marks every computed value as unknown."""
    for o in w.values():
        if getattr(o, "_parent", None) is not None:
            continue
        if o._synchro is not None:
            if o._synchro.manual != o._name:
                o._tainted[0] = True
        elif o._func is not None:
            o._tainted[0] = True


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    try:
        x, y = np.asarray(a, float), np.asarray(b, float)
    except Exception:
        try:
            return bool(a == b)
        except Exception:
            return True
    if x.shape != y.shape:
        return False
    sc = np.max(np.abs(x[np.isfinite(x)]), initial=0.0)
    return bool(np.allclose(x, y, rtol=1e-8, atol=1e-10 * sc + 1e-300, equal_nan=True))


def changes(w, bosons=False):
    """Every way in which one quantity of the system can be changed."""
    out = []
    for p, o in w.items():
        if not settable(o) or "mbeads" in p or ("mforces" in p and not p.endswith("._weight")):
            continue
        try:
            old = raw(o)
            x = np.asarray(old)
        except Exception:
            continue
        if bosons and p.endswith("._m"):
            continue  # bosons must keep equal masses
        if x.dtype.kind == "f" and x.size > 0:
            out.append((p, "whole"))
            if x.ndim > 0 and x.size > 1 and hasattr(o, "__setitem__"):
                out.append((p, "element"))
                if x.ndim > 1:
                    out.append((p, "view"))
        elif p.endswith("._propagator"):
            out.append((p, "choice"))
        elif p.endswith("._splitting"):
            out.append((p, "choice"))
        elif p.endswith(".motion._nmts"):
            out.append((p, "count"))
    return out


def apply(w, ch, up):
    p, how = ch
    o = w[p]
    old = copy.deepcopy(raw(o))
    if how == "choice":
        alt = {"exact": "cayley", "cayley": "exact", "bab": "bab", "obabo": "baoab", "baoab": "obabo"}
        o.set(alt[old])
        return
    if how == "count":
        o[len(np.atleast_1d(old)) - 1] = int(np.atleast_1d(old)[-1]) + (1 if up else -1)
        return
    x = np.array(old, float)
    if how == "whole":
        if up:
            bump = 0.001 * max(np.abs(x).max(), 1e-8) * (np.arange(x.size).reshape(x.shape) / max(x.size, 1) if x.ndim else 0.0)
            new = x * 1.03 + bump
            if not np.any(x):
                new = x + 0.01
            if p.endswith("._h") and x.shape == (3, 3):
                new = np.triu(new)
        else:
            new = x * 0.98 - (0.004 if not np.any(x) else 0.0)
        o.set(float(new) if x.ndim == 0 else new)
        return
    f = 1.02 if up else 0.97
    idx = tuple(n - 1 for n in x.shape)
    v = x[idx] * f if x[idx] != 0 else (0.01 if not p.endswith("._h") else 0.0)
    if how == "element":
        o[idx if len(idx) > 1 else idx[0]] = v
    else:
        o[idx[0]][idx[1:] if len(idx) > 2 else idx[1]] = v


NOISY = ("_extras",)


def compare(w, r, what, cfgname, hist):
    got = readall(w)
    discard(w)
    want = readall(w)
    for p in got:
        g, v = got[p], want[p]
        if isinstance(g, tuple) and len(g) == 2 and g[0] == "EXC":
            continue
        if not same(g, v):
            short = "/".join(x for x in p.replace("[", ".").split(".") if x.startswith("_") or x in ("beads", "nm", "cell", "ensemble", "forces", "thermostat", "barostat", "integrator", "bias", "motion"))
            r.fail("stale:%s:after:%s" % (short, what), "%s: %s is stale after %s (cached %.120r, recomputed %.120r)" % (cfgname, p, hist, g, v), {"hist": hist})
    r.transitions += 1
    r.states.add(digest([cfgname, what, len(got)]))


def sim_cfgs():
    c = []
    for th in ("langevin", "svr", "gle", "pile_l", "pile_g", "pile_l_ct", "nm_gle", "nm_gle_g", "cl", "ffl_rescale", "multi:pile_g+svr"):
        c.append(dict(ens="nvt", thermo=th, nbeads=1 if th == "cl" else 2))
    c.append(dict(ens="nvt", thermo="gle", nbeads=1))
    c.append(dict(ens="nve", nbeads=3))
    for ens, baro in (("npt", "isotropic"), ("nst", "anisotropic"), ("npt", "flexible"), ("scnpt", "sc-isotropic")):
        c.append(dict(ens=ens, baro=baro, bthermo="langevin", thermo="pile_l"))
        c.append(dict(ens=ens, baro=baro, bthermo="gle", thermo="svr"))
    c.append(dict(ens="npt", baro="isotropic", thermo="pile_l", bias=True, split="baoab"))
    c.append(dict(ens="nvt", forces="mts", fb=1, nmts=[1, 2], thermo="pile_l"))
    c.append(dict(ens="npt", forces="mts", fb=2, nmts=[1, 2], thermo="pile_l", baro="isotropic", split="baoab"))
    c.append(dict(ens="nvt", forces="rpc", thermo="pile_g", nbeads=3))
    c.append(dict(ens="nvt", bias=True, thermo="pile_l"))
    c.append(dict(ens="nvt", hweights=0.8, thermo="pile_l"))
    c.append(dict(ens="sc", thermo="pile_l", nbeads=4))
    for pr in ("exact", "cayley", "bab"):
        for fr in (None, ("pa-cmd", [0.02]), ("wmax-cmd", [0.03, 0.01]), ("manual", "manual")):
            nm = dict(prop=pr, nmts=3)
            if fr:
                nm["freqs"] = fr
            c.append(dict(ens="nvt", thermo="pile_l", nbeads=3, nm=nm))
    c.append(dict(ens="nvt", thermo="pile_l", nbeads=3, nm=dict(open=[0], freqs=("pa-cmd", [0.02]))))
    c.append(dict(ens="nvt", thermo="pile_l", nbeads=3, nm=dict(open=[0, 2], transform="fft", prop="cayley")))
    c.append(dict(ens="nvt", thermo="pile_l", nbeads=2, natoms=3, nm=dict(bosons=[0, 2], prop="bab", nmts=2)))
    c.append(dict(motion="minimize", opt="bfgs", nbeads=1))
    c.append(dict(motion="driven", ens="eda-nvt", thermo="langevin", nbeads=2))
    c.append(dict(ens="nvt", thermo="langevin", nsys=2, smotion="remd", nbeads=1))
    md = dict(motion="dynamics", ens="nvt", thermo="langevin")
    c.append(dict(motion="multi", sub=[md, dict(motion="atomswap")], nbeads=2, natoms=4))
    c.append(dict(motion="multi", fixcom=False, sub=[md, dict(motion="alchemy")], nbeads=2, natoms=4))
    c.append(dict(motion="multi", sub=[dict(motion="t_ramp"), md]))
    c.append(dict(motion="multi", press=True, sub=[dict(motion="p_ramp"), dict(motion="dynamics", ens="npt", thermo="svr", baro="isotropic")]))
    c.append(dict(ens="npt", thermo="svr", baro="isotropic", nsys=2, smotion="remd", bias=True))
    c.append(dict(ens="nst", thermo="pile_l", baro="anisotropic", nsys=2, smotion="remd"))
    return c


def run_sim(item, r):
    cfg = item["cfg"]
    name = configs_name(cfg)
    s = sim.load(configs.xml(cfg, 50))
    w = nodes_of(s)
    readall(w)
    chs = changes(w, "bosons" in str(cfg))
    r.notes["nchanges"] = len(chs)
    if item["kind"] == "single":
        for ch in chs:
            for up in (True, False):
                apply(w, ch, up)
                compare(w, r, "%s:%s" % (ch[0].split(".", 1)[1], ch[1]), name, [ch, up])
                r.traces += 1
        # and the same with the motion having moved in between
        for k in range(item["steps"]):
            sim.advance(s, 1)
            w = nodes_of(s)
            compare(w, r, "step", name, ["step", k])
            r.traces += 1
    else:
        lo, hi = item["slice"]
        for a in chs[lo:hi]:
            for b in chs:
                apply(w, a, True)
                # read one dependant in between, then change the other
                for p, o in list(w.items())[:: max(1, len(w) // 3)]:
                    try:
                        raw(o)
                    except (Exception, SystemExit):
                        pass
                apply(w, b, True)
                compare(w, r, "%s+%s" % (a[0].split(".", 1)[1], b[0].split(".", 1)[1]), name, [a, b])
                apply(w, b, False)
                apply(w, a, False)
                if item.get("lean"):
                    continue
                compare(w, r, "%s-%s" % (a[0].split(".", 1)[1], b[0].split(".", 1)[1]), name, [a, b])
                r.traces += 1
            if hi - lo > 0:
                # start again from pristine values
                s = sim.load(configs.xml(cfg, 50))
                w = nodes_of(s)
                readall(w)
    r.outcome("sim-" + item["kind"])


def configs_name(cfg):
    return ",".join("%s=%s" % (k, cfg[k]) for k in sorted(cfg))


def items(tier):
    q = tier == "quick"
    out = []
    g = graphs()
    kinds = ["avava"] if q else ["".join(k) for k in itertools.product("va", repeat=5)][::4] + ["aaaaa"]
    depth = 4 if q else 5
    for i in range(0, len(g), 21 if q else 5):
        out.append(dict(kind="graph", graphs=g[i : i + (21 if q else 5)], kinds=kinds, depth=depth))
    if q:
        for k in ("aaaaa", "vvvvv", "vavav"):
            out.append(dict(kind="graph", graphs=g, kinds=[k], depth=3))
    for f in SYNC_OPS:
        out.append(dict(kind="sync", first=[f], depth=4 if q else 5, lean=q))
    cf = sim_cfgs()
    for c in cf:
        out.append(dict(kind="single", cfg={k: v for k, v in c.items() if v is not None}, steps=2 if q else 4))
    pick = [13, 22] if q else list(range(0, len(cf), 3))
    for i in pick:
        for lo in range(0, 64, 8):
            out.append(dict(kind="pairs", cfg={k: v for k, v in cf[i].items() if v is not None}, slice=[lo, lo + 8], lean=q))
    # longest first
    order = {"pairs": 0, "sync": 1, "graph": 2, "single": 3}
    return sorted(out, key=lambda x: order[x["kind"]])


def run(item):
    r = Result()
    k = item["kind"]
    if k == "graph":
        run_graph(item, r)
    elif k == "sync":
        run_sync(item, r)
    elif k in ("single", "pairs"):
        run_sim(item, r)
    return r
