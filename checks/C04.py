"""C04: a soft exit requested at any moment, from any thread, any number of times,
leaves a RESTART file that holds exactly the state at the boundary of a step
together with that step's number, and the process ends.

Every source line executed by the main loop is tried as the moment at which a signal
arrives (and pairs of lines for two signals), or at which another thread runs its
exit request, with that thread itself preempted at every one of its lines."""

import os
import shutil
import signal
import sys

from vlib import configs, sim, tline, vnet
from vlib import core
from vlib.core import Result, digest

PROPERTY = "C04"
LEVEL = "model_checking"
TIMEOUT = 800.0
RULE = (
    "cases are (simulation, kind of request, shard); states are distinct (simulation, injection points) "
    "executions; transitions are traced source lines of the real main loop"
)
ASSUMPTIONS = [
    "requests arrive between source lines of the main-loop, output, checkpoint, soft-exit and motion modules",
    "at most two requests per run",
]
BOUNDS = {
    "quick": "6 simulations of 3 steps; one signal at every traced line; two signals at every line pair of the "
    "clean-up for a lattice of first lines; exit request from a second thread at every line, preempted once",
    "thorough": "as quick with all (line, preemption) pairs, all signal pairs and exit requests from two other threads",
}

FILES = (
    "ipi/engine/simulation.py",
    "ipi/engine/outputs.py",
    "ipi/utils/softexit.py",
    "ipi/engine/motion/dynamics.py",
    "ipi/engine/motion/multi.py",
    "ipi/engine/smotion/remd.py",
    "ipi/engine/smotion/smotion.py",
    "ipi/inputs/simulation.py",
    "ipi/engine/forces.py",
    "ipi/scripting/interactive.py",
)
CORE = FILES[:3] + ("ipi/inputs/simulation.py", "ipi/scripting/interactive.py")


def files(item):
    return CORE if item.get("files") == "core" else FILES


NSTEPS = 3

OUT = (
    "<output prefix='sim'><properties stride='1' filename='out' flush='1'>[ step, time, conserved, kinetic_md ]</properties>"
    "<trajectory stride='2' filename='pos' format='xyz'>positions</trajectory>"
    "<checkpoint stride='2' filename='chk' overwrite='True'/></output>"
)

SIMS = {
    "nvt": dict(ens="nvt", thermo="langevin", nbeads=1, natoms=2),
    "pimd": dict(ens="nvt", thermo="pile_g", nbeads=2, natoms=2, safe_stride=2),
    "npt": dict(ens="npt", thermo="svr", baro="isotropic", nbeads=1, natoms=2),
    "remd": dict(ens="nvt", thermo="langevin", nbeads=1, natoms=2, nsys=2, smotion="remd"),
    "min": dict(motion="minimize", opt="sd", nbeads=1, natoms=2),
    "remd-thr": dict(ens="nvt", thermo="langevin", nbeads=1, natoms=2, nsys=2, smotion="remd", threads=True),
}


def items(tier):
    out = []
    q = tier == "quick"
    for s in SIMS:
        fl = "core" if q and s != "nvt" else "all"
        if s != "remd-thr":
            n = 2 if q else 4
            for k in range(n):
                out.append(dict(sim=s, kind="signal", files=fl, shard=[k, n]))
            n = 1 if q else 16
            for k in range(n):
                out.append(dict(sim=s, kind="signal2", files=fl, lattice=97 if q else 11, lattice2=5 if q else 1, shard=[k, n]))
        if q and s in ("min", "npt"):
            continue
        n = 4 if q else 8
        for k in range(n):
            out.append(dict(sim=s, kind="thread", files="core" if q else "all", bound=1, jstep=1, kstep=3 if q and s in ("pimd", "remd") else 1, shard=[k, n]))
        n = 1 if q else 16
        for k in range(n):
            out.append(dict(sim=s, kind="thread", files="core", bound=2, jstep=37 if q else 5, kstep=61 if q else 7, shard=[k, n]))
        if not q:
            for k in range(8):
                out.append(dict(sim=s, kind="thread2", files="core", bound=2, jstep=31, kstep=23, shard=[k, 8]))
    out.append(dict(sim="nvt", kind="interactive", files="core", shard=[0, 1]))
    return out


_state = {}


def prepare(item, coop):
    """Loads the simulation (with cooperative threading when coop)."""
    cfg = SIMS[item["sim"]]
    import ipi.utils.softexit as se
    import ipi.engine.simulation as SI
    import ipi.engine.forces as FO
    import ipi.engine.forcefields as FF
    import ipi.engine.system as SY
    import ipi.utils.depend as DE
    import ipi.engine.outputs as OU
    import ipi.utils.messages as ME

    sim.fast_exit()
    se.print = lambda *a, **k: None
    ref = [None, None]
    vt = None
    if coop:
        vt = tline.VThreading(ref)
        for m in (se, SI, FO, FF, SY, DE, OU):
            if hasattr(m, "threading"):
                m.threading = vt
        SI.ThreadPoolExecutor = vnet.make_executor(ref)
        tm = vnet.FakeTime(ref)
        FO.time = FF.time = tm

        class SET(vnet.FakeTime):
            def sleep(self, dt):
                # may wake up at any time
                if ref[0] and ref[0].me() is not None:
                    ref[0].block(lambda: True)

        se.time = SET(ref)
        se.softexit.__init__()
    xml = configs.xml(cfg, NSTEPS, OUT, threading=bool(cfg.get("threads")))
    s = sim.load(xml)
    return s, ref, vt, se


def golden(s):
    """Texts of the snapshot at the start of each step, and at the end."""
    def go():
        import ipi.engine.simulation as SI

        snaps = {}
        orig = s.run_step

        def rs(step):
            snaps[step] = sim.restart_text(s)
            return orig(step)

        s.run_step = rs
        s.run()
        s.step += 1
        snaps[s.step] = sim.restart_text(s)
        for o in s.outputs:
            if hasattr(o, "close_stream"):
                o.close_stream()
        rows = {f: open(f).read() for f in sorted(os.listdir(".")) if f.endswith((".out", ".xyz"))}
        return snaps, rows

    os.makedirs("golden", exist_ok=True)
    st, val = tline.forked(lambda: (in_dir("golden"), go())[1])
    core.demand(st, val, "the uninterrupted run fails")
    return val


def in_dir(d):
    os.makedirs(d, exist_ok=True)
    os.chdir(d)


def move_outputs(s, d):
    """The streams were opened by the parent: give the child its own files."""
    in_dir(d)
    for o in s.outputs:
        if getattr(o, "out", None) is not None and hasattr(o, "open_stream"):
            outs = o.out if hasattr(o.out, "__getitem__") else None
            if outs is None:
                o.out = open(os.path.basename(o.out.name), "w")
            else:
                o.out = [None if x is None else open(os.path.basename(x.name), "w") for x in outs]


def ignore(p):
    return p.endswith("@verbosity") or "/output[0]/checkpoint[0]" in p or p.endswith("/total_steps[0]")


_cache = {}


def _lv(txt):
    k = digest(txt.encode())
    if k not in _cache:
        _cache[k] = sim.leaves(txt)
    return _cache[k]


def frames(txt):
    """Splits an xyz text in frames by the declared number of atoms; a last piece may be incomplete."""
    lines = txt.splitlines(True)
    out = []
    k = 0
    while k < len(lines):
        try:
            n = int(lines[k])
        except ValueError:
            n = 0
        out.append("".join(lines[k : k + n + 2]))
        k += n + 2
    return out


def frame_step(x):
    return int(x.split("Step:")[1].split()[0])


def judge(snaps, rows, d, finished, extra_ok=()):
    """Checks what an execution left behind; returns a list of (key, message)."""
    errs = []
    fn = os.path.join(d, "RESTART")
    if not os.path.exists(fn):
        return [("no-restart", "no RESTART file was written")], None
    txt = open(fn).read()
    body = txt[txt.find("<simulation") :].strip()
    whole = [k for k, v in snaps.items() if v.strip() == body]
    try:
        lv = _lv(snaps[whole[0]]) if whole else sim.leaves(txt)
    except Exception as e:
        return [("torn-restart", "the RESTART file is not a complete document: %s (%d bytes)" % (e, len(txt)))], None
    st = int(lv.get("simulation/step[0]", 0))
    if st not in snaps:
        return [("step", "RESTART claims step %s, which is not a boundary of the run" % st)], st
    if lv == _lv(snaps[st]):
        diff = []
    else:
        diff = sim.diff_leaves(_lv(snaps[st]), lv, rtol=0, atol=0, ignore=ignore)
    # before the replica exchange is bound the index is absent, which means the identity
    if st == 0:
        diff = [x for x in diff if "/remd[0]/repindex[0]" not in x[0] and x[0] != "simulation/smotion[0]"]
    if diff:
        other = [k for k, v in snaps.items() if not sim.diff_leaves(
            {**sim.leaves(v), "simulation/step[0]": ""}, {**lv, "simulation/step[0]": ""}, 0, 0, ignore)]
        what = "the state of step %s" % other if other else "no boundary state at all"
        errs.append(("state", "RESTART is labelled step %d but holds %s (%s)" % (st, what, diff[:3])))
    # outputs: every row due up to the restart point is there, none is torn or wrong
    for f, g in rows.items():
        p = os.path.join(d, f)
        got = open(p).read() if os.path.exists(p) else ""
        if f.endswith(".xyz"):
            fr = frames(g)
            mine = frames(got)
            for k, x in enumerate(mine):
                if x not in fr:
                    errs.append(("frame", "trajectory %s has a frame that the uninterrupted run does not have: %r" % (f, x[:80])))
                    break
            need = [x for x in fr if frame_step(x) <= st] if st > 0 else []
            if [x for x in need if x not in mine]:
                errs.append(("lost-frame", "restart from step %d but frames of %s up to it were never written" % (st, f)))
            continue
        ref = [x for x in g.splitlines() if not x.startswith("#")]
        mine = [x for x in got.splitlines() if not x.startswith("#")]
        for k, x in enumerate(mine):
            if x not in ref:
                errs.append(("row", "file %s contains a row that the uninterrupted run does not have: %r" % (f, x[:60])))
                break
        need = [x for x in ref if int(float(x.split()[0])) <= st] if st > 0 else []
        miss = [x for x in need if x not in mine]
        if miss:
            errs.append(("lost-row", "restart from step %d but rows %s of %s were never written" % (
                st, [int(float(x.split()[0])) for x in miss], f)))
    return errs, st


def run(item):
    res = Result()
    kind = item["kind"]
    if kind.startswith("signal") or kind == "interactive":
        return run_signal(item, res)
    return run_thread(item, res)


# -- signals in the main thread -------------------------------------------------


def fork_world(newdir):
    """After a fork: move this process to a private copy of its working directory,
    re-targeting every file it has open there (offsets and buffered data are kept)."""
    import fcntl

    base = os.getcwd()
    shutil.copytree(base, newdir)
    for fd in os.listdir("/proc/self/fd"):
        fd = int(fd)
        try:
            link = os.readlink("/proc/self/fd/%d" % fd)
        except OSError:
            continue
        if not link.startswith(base + os.sep):
            continue
        pos = os.lseek(fd, 0, os.SEEK_CUR)
        fl = fcntl.fcntl(fd, fcntl.F_GETFL) & ~os.O_TRUNC
        nfd = os.open(os.path.join(newdir, link[len(base) + 1 :]), fl)
        os.lseek(nfd, pos, os.SEEK_SET)
        os.dup2(nfd, fd)
        os.close(nfd)
    os.chdir(newdir)


def signal_world(s, se, d, report, depth, pick, judge_it, files):
    """Runs the simulation; at every traced line picked, a forked copy of the process
    receives a signal there and goes on to its own end. report: results file."""
    import json
    import time

    move_outputs(s, d)
    root = os.path.dirname(os.getcwd())
    st = {"n": 0, "depth": 0, "at": [], "info": []}
    cache = {}

    def emit(**kw):
        fd = os.open(report, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, (json.dumps(kw) + "\n").encode())
        os.close(fd)

    def local(frame, event, arg):
        if event != "line":
            return local
        n = st["n"]
        st["n"] += 1
        if st["depth"] < depth and pick(n, st):
            pid = os.fork()
            if pid == 0:
                st["depth"] += 1
                st["at"].append(n)
                c = frame.f_code
                st["info"].append("%s:%s:%d@%d%s" % (os.path.basename(c.co_filename), c.co_name, frame.f_lineno, s.step, "*" if se.softexit.exiting else ""))
                fork_world(os.path.join(root, "w" + "_".join(map(str, st["at"]))))
                sys.call_tracing(signal.getsignal(signal.SIGTERM), (signal.SIGTERM, frame))
                return local
            t0 = time.time()
            while os.waitpid(pid, os.WNOHANG)[0] == 0:
                if time.time() - t0 > (30.0 if st["depth"] + 1 == depth else 600.0):
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    emit(at=st["at"] + [n], hang=True)
                    break
                time.sleep(0.0005)
        return local

    def tracer(frame, event, arg):
        fn = frame.f_code.co_filename
        ok = cache.get(fn)
        if ok is None:
            ok = cache[fn] = fn.endswith(files)
        return local if ok else None

    signal.signal(signal.SIGTERM, se.softexit._kill_handler)
    signal.signal(signal.SIGINT, se.softexit._kill_handler)
    exc = None
    sys.settrace(tracer)
    try:
        if type(s).__name__ == "InteractiveSimulation":
            s.run(1)
            s.run(1)
        else:
            s.run()
            se.softexit.trigger(status=s.exit_status, message=s.exit_message)
    except SystemExit:
        sys.settrace(None)
    except BaseException as e:  # noqa
        sys.settrace(None)
        import traceback

        exc = "".join(traceback.format_exception(e))[-1500:]
    sys.settrace(None)
    errs, stp = judge_it(".")
    emit(at=st["at"], info=st["info"], exc=exc, errs=errs, step=stp, lines=st["n"])
    if st["depth"]:
        d = os.getcwd()
        os.chdir(root)
        shutil.rmtree(d, ignore_errors=True)
        os._exit(0)
    return st["n"]


def run_signal(item, res):
    import json

    s, ref, vt, se = prepare(item, False)
    # the monitor thread does not survive the fork; let the clean-up know
    se.softexit.tlist = []
    if item["kind"] == "interactive":
        from ipi.scripting.interactive import InteractiveSimulation

        s2 = object.__new__(InteractiveSimulation)
        s2.__dict__ = s.__dict__
        se.softexit.flist = [(s2.softexit if f == s.softexit else f, a, k) for f, a, k in se.softexit.flist]
        s2.chk.simul = s2
        s = s2
        s.run(1)
        for o in s.outputs:
            for x in o.out if isinstance(getattr(o, "out", None), list) else [getattr(o, "out", None)]:
                if x is not None:
                    x.flush()
        st, val = tline.forked(lambda: (in_dir("golden"), _ginter(s))[1])
        core.demand(st, val, "the uninterrupted run fails")
        snaps, rows = val, {}
    else:
        snaps, rows = golden(s)
    for v in snaps.values():
        _lv(v)
    k0, n0 = item["shard"]
    depth = 2 if item["kind"] == "signal2" else 1
    lat = item.get("lattice", 1)

    def pick(n, st):
        if st["depth"] == 0:
            return n % lat == 0 and (n // lat) % n0 == k0
        return (n - st["at"][-1]) % item.get("lattice2", 1) == 0

    report = os.path.abspath("report.jsonl")
    st, out = tline.forked(
        lambda: signal_world(s, se, "base", report, depth, pick, lambda d: judge(snaps, rows, d, False), files(item)), timeout=700.0
    )
    core.demand(st, out, "the run fails")
    for line in open(report):
        r = json.loads(line)
        at = r["at"]
        if depth == 2 and len(at) == 1 and not r.get("hang"):
            continue
        if not at and k0:
            continue
        res.traces += 1
        res.state(item["sim"], item["kind"], at)
        if r.get("hang"):
            res.fail("hang:%s" % item["sim"], "the process does not end after signals at traced lines %s" % (at,), {"at": at})
            continue
        res.transitions += r["lines"] - (at[0] if at else 0)
        where = ">".join(i.split(":")[1] for i in r["info"])
        if r["exc"]:
            res.fail("exception:%s:%s" % (item["sim"], where), "signal at %s made i-PI die with %s" % (r["info"], r["exc"][-700:]), {"at": at})
        res.outcome("violating" if r["errs"] or r["exc"] else "restart@%s" % r["step"])
        for k, m in r["errs"]:
            res.fail("%s:%s:%s" % (k, item["sim"], where or "clean-end"), "signal at %s: %s" % (r["info"], m), {"at": at})
    return res


# -- requests from other threads ---------------------------------------------------


def thread_exec(s, ref, vt, se, d, prefix, nthreads, flist):
    move_outputs(s, d)
    ch = vnet.Chooser(prefix)
    sched = vnet.Sched(ch, max_steps=400000, max_time=1e9)
    sched.tick = 0.0
    sched.max_burst = 10**9
    sched.preempt = True
    sched.tracer = tline.make_tracer(sched, flist)
    ref[0] = sched
    # the monitor finds the wall-clock limit exceeded whenever it is scheduled
    se.softexit.timeout = 1.0
    at_exit = []
    import atexit

    vt.launch_pending(sched)
    for k in range(nthreads - 1):
        t = vt.Thread(target=se.softexit.trigger, kwargs={"message": "other thread"}, name="other%d" % k, daemon=True)
        t.start()

    def main():
        try:
            s.run()
            se.softexit.trigger(status=s.exit_status, message=s.exit_message)
        except SystemExit:
            pass
        except BaseException as e:  # noqa: an uncaught exception in main also ends the process
            main.exc = e
        # the interpreter now runs the registered exit handlers and stops daemon threads
        for f in list(se_atexit):
            f()

    main.exc = None
    se_atexit = _state.get("atexit", [])
    verdict = sched.run(main, wall=40.0)
    exc = None
    e = sched.main.exc or main.exc
    if e is not None:
        import traceback

        exc = "".join(traceback.format_exception(e))[-1200:]
    pts = [p[0] for p in ch.points]
    chosen = [p[1] for p in ch.points]
    # the process is gone: daemon threads stop where they are
    for o in s.outputs:
        outs = getattr(o, "out", None)
        for x in outs if isinstance(outs, list) else [outs]:
            if x is not None and not x.closed:
                x.flush()
    return verdict, exc, pts, chosen, sched.steps


def run_thread(item, res):
    import atexit

    _state["atexit"] = []
    real = atexit.register

    def fake(f, *a, **k):
        if getattr(f, "__module__", "").startswith("ipi") or "ipi" in str(getattr(getattr(f, "__self__", None), "__module__", "")) :
            _state["atexit"].append(lambda: f(*a, **k))
            return f
        return real(f, *a, **k)

    atexit.register = fake
    s, ref, vt, se = prepare(item, True)
    atexit.register = real
    snaps, rows = golden_coop(s, ref, vt, item)
    nthr = 2 if item["kind"] == "thread2" else 1

    def one(prefix):
        d = "r%d" % res.traces
        st, out = tline.forked(lambda: thread_exec(s, ref, vt, se, d, prefix, nthr, files(item)), timeout=60.0)
        res.traces += 1
        if st != "ok":
            res.fail("%s:%s" % (st, item["sim"]), "process %s: %s" % (st, str(out)[-700:]), {"prefix": list(prefix)})
            return None
        verdict, exc, pts, chosen, steps = out
        res.transitions += steps
        res.state(item["sim"], item["kind"], tuple(i for i, c in enumerate(chosen) if c))
        tag = "%s:%s:dev%d" % (item["sim"], item["kind"], sum(1 for c in prefix if c))
        if verdict != "done":
            res.fail("%s:%s" % (verdict, tag), "the process does not end (%s)" % verdict, {"prefix": list(prefix)})
        elif exc:
            res.fail("exception:%s" % tag, "exit request from another thread makes the main thread die: %s" % exc[-600:], {"prefix": list(prefix)})
        es, stp = judge(snaps, rows, d, False)
        res.outcome("violating" if es else "restart@%s" % stp)
        for k, m in es:
            res.fail("%s:%s" % (k, tag), m, {"deviations": [(i, c) for i, c in enumerate(prefix) if c]})
        shutil.rmtree(d, ignore_errors=True)
        return pts, chosen

    r0 = one(())
    if r0 is None:
        return res
    pts, chosen = r0
    k0, n0 = item["shard"]
    first = [(i, a) for i in range(0, len(pts), 1) for a in range(1, pts[i])]
    first = first[:: item["kstep"]]
    for i, a in first[k0::n0]:
        pre = tuple(chosen[:i]) + (a,)
        r1 = one(pre)
        if r1 is None or item["bound"] < 2:
            continue
        p1, c1 = r1
        sec = [(j, b) for j in range(i + 1, len(p1)) for b in range(1, p1[j])]
        for j, b in sec[:: item["jstep"]]:
            one(tuple(c1[:j]) + (b,))
            if len(res.violations) > 20:
                return res
    return res


def golden_coop(s, ref, vt, item):
    def go():
        in_dir("golden")
        for o in s.outputs:
            pass
        move_outputs(s, ".")
        snaps = {}
        orig = s.run_step

        def rs(step):
            snaps[step] = sim.restart_text(s)
            return orig(step)

        s.run_step = rs
        sched = vnet.Sched(vnet.Chooser(()), max_steps=10**7, max_time=1e12)
        sched.max_burst = 10**9
        ref[0] = sched
        v = sched.run(s.run, wall=60.0)
        if v != "done" or sched.main.exc:
            raise core.CodeFailure("the uninterrupted run fails: %s %r" % (v, sched.main.exc))
        s.step += 1
        snaps[s.step] = sim.restart_text(s)
        for o in s.outputs:
            if hasattr(o, "close_stream"):
                o.close_stream()
        rows = {f: open(f).read() for f in sorted(os.listdir(".")) if f.endswith((".out", ".xyz"))}
        return snaps, rows

    st, val = tline.forked(go)
    core.demand(st, val, "the uninterrupted run fails")
    return val


# -- repeated run() calls (scripting interface) --------------------------------------


def _ginter(s):
    snaps = {s.step: sim.restart_text(s)}
    for k in range(2):
        s.run(1)
        snaps[s.step] = sim.restart_text(s)
    return snaps
