"""Shared machinery of the checks: enumeration bookkeeping, isolated parallel
execution of the enumerated cases, known findings, replay files and evidence.

A check is a module in /verif/checks with
    PROPERTY, LEVEL, RULE
    items(tier)        -> list of (case, case) JSON-able descriptions (the bounded space)
    run(item)          -> Result (executed in a forked child, real i-PI code from /repo)
and is executed by `python run.py C01 [quick|thorough]`.
"""

import hashlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def digest(obj):
    """Short stable hash of a JSON-able/bytes object."""
    if not isinstance(obj, (bytes, bytearray)):
        obj = json.dumps(obj, sort_keys=True, default=str).encode()
    return hashlib.blake2b(obj, digest_size=10).hexdigest()


def adigest(*arrays, nd=9):
    """Hash of float arrays rounded to nd significant-ish decimals (state keys)."""
    import numpy as np

    h = hashlib.blake2b(digest_size=10)
    for a in arrays:
        a = np.asarray(a)
        if a.dtype.kind in "fc":
            a = np.round(a, nd) + 0.0
        h.update(repr(a.shape).encode())
        h.update(np.ascontiguousarray(a).tobytes())
    return h.hexdigest()


class Result:
    """What one enumerated case covered and found."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.violations = []  # (key, message, data)
        self.notes = {}
        self.outcomes = {}

    def state(self, *key):
        self.states.add(digest(key))

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def fail(self, key, message, data=None):
        # keep at most one record per key and case
        for k, _, _ in self.violations:
            if k == key:
                return
        self.violations.append((key, message, data))

    def merge(self, other):
        self.states |= other.states
        self.transitions += other.transitions
        self.traces += other.traces
        for v in other.violations:
            self.fail(*v)
        for k, v in other.outcomes.items():
            self.outcome(k, v)


class CodeFailure(Exception):
    """The code under test failed where every correct version must succeed."""


def demand(status, value, what):
    """Value of a forked run that any correct version of the code completes."""
    if status == "ok":
        return value
    files = [x for x in str(value).split("\n") if x.strip().startswith('File "')]
    last = [x for x in files if REPO + os.sep in x or VERIF + os.sep in x][-1:]
    if status in ("timeout", "died") or (last and REPO + os.sep in last[0]):
        raise CodeFailure("%s: %s %s" % (what, status, str(value)[-1500:]))
    raise RuntimeError("%s: %s %s" % (what, status, str(value)[-3000:]))


def in_repo_frame(tb):
    """True if the innermost frames of a traceback lie in the code under test."""
    last = None
    for f in traceback.extract_tb(tb):
        fn = f.filename
        if fn.startswith(REPO + os.sep):
            last = "repo"
        elif fn.startswith(VERIF + os.sep):
            last = "verif"
    return last == "repo"


def _child(fn, item, conn, scratch):
    # isolate: own scratch directory, own process group, quiet stdout
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    if not os.environ.get("VERIF_LOUD"):
        dn = os.open(os.devnull, os.O_RDWR)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    try:
        try:
            r = fn(item)
        except BaseException as exc:
            r = Result()
            msg = "".join(traceback.format_exception(exc))
            if isinstance(exc, CodeFailure):
                r.fail("failure:%s" % digest(item), str(exc))
            elif in_repo_frame(exc.__traceback__):
                r.fail(
                    "exception:%s:%s" % (type(exc).__name__, digest(item)),
                    "i-PI raised %s: %s" % (type(exc).__name__, exc),
                    {"traceback": msg[-3000:]},
                )
            else:
                r.notes["harness_error"] = msg
        conn.send(r)
        conn.close()
    finally:
        sys.stdout.flush()
        os._exit(0)


def _reap(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        p.kill()
    except Exception:
        pass
    p.join()


def run_items(fn, items, procs=None, timeout=120.0, hang=None, deadline=None):
    """Runs fn(item) for every item, each in its own forked process.

    Yields (item, Result). A case that exceeds `timeout` is reported through
    `hang(item) -> Result` if given, else as a harness error.
    """

    procs = procs or int(os.environ.get("VERIF_PROCS", os.cpu_count() or 4))
    ctx = mp.get_context("fork")
    base = tempfile.mkdtemp(prefix="verif_")
    todo = list(enumerate(items))[::-1]
    active = {}
    try:
        while todo or active:
            while todo and len(active) < procs:
                i, it = todo.pop()
                rx, tx = ctx.Pipe(duplex=False)
                scratch = os.path.join(base, "c%06d" % i)
                p = ctx.Process(target=_child, args=(fn, it, tx, scratch))
                p.start()
                tx.close()
                active[rx] = (p, it, time.time(), scratch)
            ready = mpc.wait(list(active), timeout=0.5)
            now = time.time()
            for rx in ready:
                p, it, t0, scratch = active.pop(rx)
                try:
                    r = rx.recv()
                except EOFError:
                    r = Result()
                    r.notes["harness_error"] = "case process died: %r" % (it,)
                rx.close()
                _reap(p)
                shutil.rmtree(scratch, ignore_errors=True)
                yield it, r
            for rx in list(active):
                p, it, t0, scratch = active[rx]
                if now - t0 > timeout:
                    del active[rx]
                    _reap(p)
                    rx.close()
                    shutil.rmtree(scratch, ignore_errors=True)
                    if hang is not None:
                        yield it, hang(it)
                    else:
                        r = Result()
                        r.fail("hang:%s" % digest(it), "the case does not end within %d s (it takes a small fraction of that normally)" % timeout)
                        yield it, r
    finally:
        for rx in list(active):
            _reap(active[rx][0])
        shutil.rmtree(base, ignore_errors=True)


def load_known(prop):
    fn = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(fn):
        return {}
    return {
        e["key"]: e
        for e in json.load(open(fn))["findings"]
        if e["property"] == prop and e.get("status", "known") == "known"
    }


def main(mod, tier, replay=None):
    t0 = time.time()
    prop = mod.PROPERTY
    seed = int(os.environ.get("VERIF_SEED", "1"))
    known = load_known(prop)
    timeout = getattr(mod, "TIMEOUT", 120.0)
    hang = getattr(mod, "hang", None)
    if hasattr(mod, "setup"):
        mod.setup()
    if replay:
        items = [json.load(open(replay))["item"]]
    else:
        items = mod.items(tier)
    total = Result()
    viol = {}
    errors = []
    done = 0
    first_samples = []
    seen_items = set()
    knownseen = {}
    for it, r in run_items(mod.run, items, timeout=timeout, hang=hang):
        done += 1
        if "harness_error" in r.notes:
            errors.append((it, r.notes["harness_error"]))
        seen_items.add(digest(it))
        total.states |= r.states
        total.transitions += r.transitions
        total.traces += r.traces
        for k, v in r.outcomes.items():
            total.outcome(k, v)
        if len(first_samples) < 3:
            first_samples.append(it)
        for k, m, d in r.violations:
            if k in known:
                knownseen.setdefault(k, m)
                continue
            viol.setdefault(k, (it, m, d))
    if hasattr(mod, "final") and not replay:
        for k, m, d in mod.final(total):
            if k in known:
                knownseen.setdefault(k, m)
            else:
                viol.setdefault(k, (None, m, d))
    wall = time.time() - t0
    cov = {
        "states": len(total.states),
        "transitions": total.transitions,
        "traces_validated_against_impl": total.traces,
        "cases": len(seen_items),
        "rule": mod.RULE,
        "samples": [json.loads(json.dumps(s, default=str)) for s in first_samples],
        "outcomes": dict(sorted(total.outcomes.items())[:60]),
        "exhaustive": not errors,
        "bounds": mod.BOUNDS[tier] if hasattr(mod, "BOUNDS") else "",
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print(
        "%s tier=%s cases=%d states=%d transitions=%d traces=%d outcomes=%s wall=%.1fs"
        % (
            prop,
            tier,
            done,
            len(total.states),
            total.transitions,
            total.traces,
            dict(list(sorted(total.outcomes.items()))[:12]),
            wall,
        )
    )
    for k, m in sorted(knownseen.items()):
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, known[k]["what"], k))
    rc = 0
    rdir = os.path.join(VERIF, "replays")
    if not replay and os.path.isdir(rdir):
        for f in os.listdir(rdir):
            if f.startswith(prop + "_"):
                os.unlink(os.path.join(rdir, f))
    if viol:
        os.makedirs(rdir, exist_ok=True)
        for n, (k, (it, m, d)) in enumerate(sorted(viol.items())):
            fn = os.path.join(rdir, "%s_%s.json" % (prop, digest([k])[:8]))
            if not replay:
                with open(fn, "w") as f:
                    json.dump(
                        {
                            "property": prop,
                            "key": k,
                            "message": m,
                            "item": it,
                            "data": d,
                            "how": "/opt/venv/bin/python /verif/run.py %s --replay %s"
                            % (prop, fn),
                        },
                        f,
                        indent=1,
                        default=str,
                    )
            if n < int(os.environ.get('VERIF_MAXV', '12')):
                print("VIOLATION property=%s replay=%s" % (prop, fn))
                print("   key=%s" % k)
                print("   %s" % str(m)[:600])
        if len(viol) > 12:
            print("   ... %d further violation keys" % (len(viol) - 12))
        rc = 1
    if errors:
        for it, e in errors[:5]:
            print("HARNESS-ERROR in case %s\n%s" % (json.dumps(it, default=str)[:300], e))
        print("%d harness errors" % len(errors))
        if rc == 0:
            rc = 3
    return rc
