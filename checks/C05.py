"""C05: whatever the moment at which the process or the machine dies, the run can be
resumed from a complete checkpoint and no earlier file has been destroyed."""

import os
import re
import shutil

from vlib import configs, sim, tline, vfs
from vlib import core
from vlib.core import Result, digest

PROPERTY = "C05"
LEVEL = "model_checking"
TIMEOUT = 600.0
RULE = (
    "one case per (simulation, output layout, kind of run); states are distinct directory contents a crash can leave; "
    "transitions are the recorded file operations of the real run times the crash variants applied to them"
)
ASSUMPTIONS = [
    "a killed process loses what is in its own buffers and nothing else; a single write can be cut short",
    "after a power loss data written after the last fsync of the file may be lost from some point on, and name changes "
    "may be persisted only up to one of the last 4",
]
BOUNDS = {
    "quick": "3 simulations x 5 layouts x 3 kinds of run (fresh, over old files, continued), 5 steps, all crash points",
    "thorough": "as quick with 6 simulations, 8 steps and all power-loss combinations over the last 8 name changes",
}
SIMS = {
    "nvt": dict(ens="nvt", thermo="langevin", nbeads=1, natoms=2),
    "pimd": dict(ens="nvt", thermo="pile_g", nbeads=2, natoms=2),
    "remd": dict(ens="nvt", thermo="langevin", nbeads=1, natoms=2, nsys=2, smotion="remd"),
    "npt": dict(ens="npt", thermo="svr", baro="isotropic", nbeads=1, natoms=2),
    "gle": dict(ens="nvt", thermo="gle", nbeads=1, natoms=2),
    "min": dict(motion="minimize", opt="sd", nbeads=1, natoms=2),
}
P = "<properties stride='1' filename='out' flush='1'>[ step, time, conserved, kinetic_md ]</properties>"
TR = "<trajectory stride='2' filename='pos' format='xyz' flush='1'>positions</trajectory>"
LAYOUTS = {
    "over": P + TR + "<checkpoint stride='2' filename='chk' overwrite='True'/>",
    "over1": P + TR.replace("stride='2'", "stride='1'") + "<checkpoint stride='1' filename='chk' overwrite='True'/>",
    "number": P + "<checkpoint stride='1' filename='chk' overwrite='False'/>",
    "both": P + "<checkpoint stride='2' filename='chk' overwrite='True'/><checkpoint stride='1' filename='num' overwrite='False'/>",
    "none": P + TR,
}


def items(tier):
    q = tier == "quick"
    out = []
    for s in list(SIMS)[: 3 if q else 6]:
        for l in LAYOUTS:
            for kind in ("fresh", "overold", "continued"):
                out.append(dict(sim=s, layout=l, kind=kind, n=5 if q else 8, back=3 if q else 8))
    return out


def build(item, n):
    return configs.xml(SIMS[item["sim"]], n, "<output prefix='sim'>%s</output>" % LAYOUTS[item["layout"]])


def run_to_end(xml):
    """The command-line run; returns the boundary snapshots it went through."""
    snaps = {}

    def hook(s):
        orig = s.run_step

        def rs(step):
            snaps[step] = sim.restart_text(s)
            return orig(step)

        s.run_step = rs
        s._snaps = snaps

    s = sim.run_cli(xml, hook)
    return snaps, s


def last(d, snaps, n):
    snaps[n] = body(open(os.path.join(d, "RESTART")).read())
    return snaps


def body(txt):
    return txt[txt.find("<simulation") :].strip()


def ignore(p):
    return p.endswith("@verbosity") or "/checkpoint[" in p or p.endswith("/total_steps[0]") or p.endswith("/prng[0]/seed[0]")


_lvc = {}


def lv(txt):
    k = digest(txt.encode())
    if k not in _lvc:
        try:
            _lvc[k] = sim.leaves(txt)
        except Exception as e:
            _lvc[k] = e
    return _lvc[k]


_ckc = {}


def is_chk(name):
    b = name.split("#")[1] if name.startswith("#") else name
    return b in ("RESTART", "sim.chk", "sim.chk.restart") or b.startswith(("RESTART", "sim.chk", "sim.num")) and not b.endswith(".tmp")


def check_chk(content, snaps):
    """(label, error) of a checkpoint file."""
    k = digest(content)
    if k in _ckc:
        return _ckc[k]
    try:
        txt = content.decode()
        d = lv(body(txt) if "<simulation" in txt else txt)
        if isinstance(d, Exception):
            raise d
    except Exception as e:
        _ckc[k] = (None, "not a complete document (%s; %d bytes)" % (str(e)[:60], len(content)))
        return _ckc[k]
    st = int(d.get("simulation/step[0]", 0))
    if st not in snaps:
        _ckc[k] = (None, "is labelled step %d, which is not a boundary of the run" % st)
        return _ckc[k]
    df = sim.diff_leaves(lv(body(snaps[st])), d, 1e-10, 1e-13, ignore)
    if st == 0:
        df = [x for x in df if "/remd[0]/repindex[0]" not in x[0] and x[0] != "simulation/smotion[0]"]
    _ckc[k] = (st, None if not df else "is labelled step %d but holds another state: %s" % (st, df[:2]))
    return _ckc[k]


def set_steps(txt, n):
    return re.sub(r"<total_steps>\s*\d+\s*</total_steps>", "<total_steps>%d</total_steps>" % n, txt)


def rows(txt, name):
    """Rows of a property file; frames of a trajectory as rows (step, then every number)."""
    if not name.endswith(".xyz") or txt.startswith("OLD"):
        return [x for x in txt.split("\n") if x and not x.startswith("#")]
    ll = txt.split("\n")
    out, i = [], 0
    while i + 1 < len(ll):
        try:
            n = int(ll[i])
            step = re.search(r"Step:\s+(\d+)", ll[i + 1]).group(1)
        except (ValueError, AttributeError):
            out.append("garbage " + ll[i])
            break
        fr = ll[i + 2 : i + 2 + n]
        if len(fr) < n:
            break
        out.append(" ".join([step] + [t for l in fr for t in l.split()[1:]]))
        i += 2 + n
    return out


def run(item):
    res = Result()
    sim.fast_exit()
    n = item["n"]
    top = os.getcwd()
    xml = build(item, n)

    def golden():
        os.makedirs("golden")
        os.chdir("golden")
        snaps, s = run_to_end(xml)
        return last(".", snaps, s.step), {f: open(f).read() for f in os.listdir(".") if os.path.isfile(f)}

    st, val = tline.forked(golden, 120)
    core.demand(st, val, "the run fails")
    snaps, gold = val
    nlast = max(snaps)

    work = os.path.join(top, "work")
    os.makedirs(work)
    start = xml
    if item["kind"] == "overold":
        # files of an unrelated earlier run lie in the directory
        for f in gold:
            with open(os.path.join(work, f), "w") as fd:
                fd.write("OLD CONTENT OF %s\n" % f)
    if item["kind"] == "continued":
        # the first part of the same run, then a restart from its RESTART file
        def first():
            os.chdir(work)
            s = sim.run_cli(build(item, 2))

        st, val = tline.forked(first, 120)
        core.demand(st, val, "the run fails")
        start = set_steps(body(open(os.path.join(work, "RESTART")).read()), n)

    def recorded():
        os.chdir(work)
        rec = vfs.Recorder(work)
        rec.install()
        try:
            sim.run_cli(start)
        finally:
            rec.uninstall()
        return rec.log, rec.initial, rec.init_names

    st, val = tline.forked(recorded, 120)
    core.demand(st, val, "the run fails")
    rec = vfs.Recorder.__new__(vfs.Recorder)
    rec.log, rec.initial, rec.init_names = val
    # the log must reproduce the directory (binding of the model to the real run)
    fin = None
    for _, fin in rec.kill_states(False):
        pass
    real = {f: open(os.path.join(work, f), "rb").read() for f in os.listdir(work)}
    if {k: digest(v) for k, v in fin.items()} != {k: digest(v) for k, v in real.items()}:
        raise RuntimeError("the recorded log does not reproduce the directory: %s" % [
            f for f in set(fin) | set(real) if fin.get(f) != real.get(f)])
    tag = "%s:%s:%s" % (item["sim"], item["layout"], item["kind"])
    best = -1
    cbest = {}
    outf = {f: gold[f] for f in gold if f.endswith((".out", ".xyz"))}
    old = {} if item["kind"] == "fresh" else rec.initial
    restarts = {}

    def common(label, files, torn, power):
        errs = []
        top_label = -1
        for f, c in files.items():
            if not is_chk(f):
                continue
            if item["kind"] == "overold" and c.startswith(b"OLD CONTENT"):
                continue
            l, e = check_chk(c, snaps)
            if e:
                errs.append(("checkpoint", "%s %s" % (f, e)))
            else:
                top_label = max(top_label, l)
        for f, c in old.items():
            ok = any(x.startswith(c) for x in files.values()) if c else True
            # a checkpoint of the same run may be superseded by a later one of the same name
            if not ok and is_chk(f) and item["kind"] == "continued":
                l0, _ = check_chk(c, snaps)
                ok = f in files and (check_chk(files[f], snaps)[0] or -1) >= (l0 or 0)
            if not ok:
                errs.append(("destroyed", "the previous contents of %s are nowhere to be found" % f))
        for f in outf:
            c = files.get(f, b"").decode()
            g = rows(outf[f], f)
            whole, _, tail = c.rpartition("\n")
            mine = rows(whole, f)
            if item["kind"] == "overold" and mine[:1] and mine[0].startswith("OLD CONTENT"):
                continue
            pos = -1
            for r in mine:
                if not known(r, g):
                    if power:
                        break
                    errs.append(("row", "%s contains a row the uninterrupted run does not have: %r" % (f, r[:50])))
                    break
            # rows the surviving checkpoint relies on
            for cf, cc in files.items():
                if is_chk(cf) and not cf.startswith("#") and not (item["kind"] == "overold" and cc.startswith(b"OLD")):
                    l, e = check_chk(cc, snaps)
                    # (frames are handed to the system, but not forced to disk)
                    if e is None and l > 0 and not (power and f.endswith(".xyz")):
                        lost = [r for r in g if int(float(r.split()[0])) <= l and not known(r, mine)]
                        if lost:
                            errs.append(("lost-row", "%s resumes after step %d but the row of step %s of %s is not on disk" % (
                                cf, l, lost[0].split()[0], f)))
        return errs, top_label

    for (k, torn), files in rec.kill_states():
        res.transitions += 1
        res.state(tag, {f: digest(c) for f, c in files.items()})
        errs, lab = common(k, files, torn, False)
        what = rec.log[k] if k < len(rec.log) else ("end",)
        where = "killed before operation %d %s%s" % (k, what[:2], " cut at byte %s" % torn if torn else "")
        if lab < best:
            errs.append(("older", "the newest complete checkpoint goes back from step %d to %d" % (best, lab)))
        best = max(best, lab)
        for f in ("RESTART", "sim.chk"):
            if f in cbest and f not in files:
                errs.append(("missing", "%s, written earlier by this run, does not exist" % f))
            c = files.get(f)
            if c is not None and not c.startswith(b"OLD"):
                l, e = check_chk(c, snaps)
                if e is None and l < cbest.get(f, -1):
                    errs.append(("older", "%s goes back from step %d to %d" % (f, cbest[f], l)))
                if e is None and not (f in old and c == old[f]):
                    cbest[f] = max(cbest.get(f, -1), l)
        for kk, m in errs:
            res.fail("%s:%s" % (kk, tag), "%s: %s" % (where, m), {"op": k, "torn": torn})
        res.outcome("kill-bad" if errs else "kill-ok")
        if not torn and not errs:
            c = files.get("sim.chk", files.get("sim.chk_0"))
            for f in sorted(files):
                if is_chk(f) and not f.startswith("#") and not files[f].startswith(b"OLD"):
                    l, e = check_chk(files[f], snaps)
                    key = digest([f, {x: digest(y) for x, y in files.items() if x.endswith((".out", ".xyz")) or x == f}])
                    if e is None and l < nlast and key not in restarts:
                        restarts[key] = (k, f, dict(files))
    seen = set()
    for label, files in rec.power_states(item["back"]):
        res.transitions += 1
        h = digest({f: digest(c) for f, c in files.items()})
        if h in seen:
            continue
        seen.add(h)
        res.states.add(h)
        errs, lab = common(label[0], files, True, True)
        for kk, m in errs:
            res.fail("%s:%s" % (kk, tag), "power loss after operation %d (names up to %d, data %s): %s" % (label[0], label[1], label[2], m), {"state": label})
        res.outcome("power-bad" if errs else "power-ok")

    # resume from every distinct surviving directory: the run ends as the uninterrupted one did
    for key, (k, f, files) in sorted(restarts.items(), key=lambda x: x[1][0]):
        def resume():
            d = os.path.join(top, "resume%d" % k + f)
            os.makedirs(d)
            os.chdir(d)
            for x, c in files.items():
                with open(x, "wb") as fd:
                    fd.write(c)
            sim.run_cli(set_steps(body(files[f].decode()), n))
            out = {x: open(x).read() for x in os.listdir(".")}
            os.chdir(top)
            shutil.rmtree(d)
            return out

        st, out = tline.forked(resume, 60)
        res.traces += 1
        if st != "ok":
            res.fail("resume:%s" % tag, "after a kill before operation %d, resuming from %s fails: %s" % (k, f, str(out)[-500:]), {"op": k})
            continue
        l, e = check_chk(out["RESTART"].encode(), snaps)
        if e or l != nlast:
            # numerical identity is the business of the restart property; here only that it gets there
            lvv = lv(body(out["RESTART"]))
            df = sim.diff_leaves(lv(body(snaps[nlast])), lvv, 1e-9, 1e-12, ignore)
            if df:
                res.fail("resume-state:%s" % tag, "resuming from %s after a kill before operation %d ends elsewhere: %s" % (f, k, df[:2]), {"op": k})
        for x in outf:
            g = rows(outf[x], x)
            m = rows(out.get(x, ""), x)
            if [r for r in g if not known(r, m)]:
                res.fail("resume-rows:%s" % tag, "after a kill before operation %d and a resume from %s, %s lacks rows of the uninterrupted run" % (k, f, x), {"op": k})
    return res


def known(r, rr):
    return r in rr or any(close(r, y) for y in rr)


def close(a, b):
    if a == b:
        return True
    x, y = a.split(), b.split()
    if len(x) != len(y) or x[0] != y[0]:
        return False
    try:
        return all(abs(float(p) - float(q)) <= 1e-8 * (1 + abs(float(p))) for p, q in zip(x, y))
    except ValueError:
        return False
