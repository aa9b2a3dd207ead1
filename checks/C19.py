"""C19: random numbers are fresh, reproducible and independent of threads.

sequences: all sequences of requests to the generator up to some length, with a checkpoint written
           (through the real input classes, as text) and read back at every position: the restored
           generator has to continue with the same numbers, and the original must not notice.
threads:   arrays filled by several threads, with the threads' tasks executed in every possible
           order by a controlled executor: the numbers may not depend on the order, every element
           has to be filled with a fresh number.
"""

import concurrent.futures
import itertools
import threading

import numpy as np

from vlib import sim
from vlib.core import Result

PROPERTY = "C19"
LEVEL = "model_checking"
TIMEOUT = 300.0
RULE = "one case per (threads, first request); states are distinct (sequence of requests, position of the checkpoint) and (threads, size, order of tasks), transitions are requests"
ASSUMPTIONS = ["numpy's generators produce the distributions they are asked for"]
BOUNDS = {
    "quick": "1-4 threads, 14 requests, all sequences up to length 3, checkpoint at every position; arrays of 18 sizes, all orders of the tasks, 3 seeds",
    "thorough": "sequences up to length 4, 1-5 threads",
}
OPS = {
    "u": lambda r: r.u,
    "g": lambda r: r.g,
    "gvec3": lambda r: r.gvec(3),
    "gvec2x5": lambda r: r.gvec((2, 5)),
    "gvec1203": lambda r: r.gvec(1203),
    "gvec7x90": lambda r: r.gvec((7, 90)),
    "gfill9": lambda r: fill(r, 9),
    "gfill801": lambda r: fill(r, 801),
    "integers": lambda r: r.integers(0, 1000),
    "integers5": lambda r: r.integers(0, 7, size=5),
    "poisson": lambda r: r.poisson(4.5),
    "gamma": lambda r: r.gamma(2.5),
    "uniform": lambda r: r.uniform(-2.0, 3.0),
    "shuffle": lambda r: mix(r),
}


def fill(r, n):
    x = np.full(n, np.nan)
    r.gfill(x)
    return x


def mix(r):
    x = np.arange(12)
    r.shuffle(x)
    return x


def make(seed, n):
    from ipi.utils.prng import Random

    return Random(seed=seed, n_threads=n)


def checkpoint(r):
    """Through the text of a checkpoint file."""
    from ipi.inputs.prng import InputRandom
    from ipi.utils.io.inputs.io_xml import xml_parse_string

    i = InputRandom()
    i.store(r)
    text = i.write(name="prng")
    j = InputRandom()
    j.parse(xml_parse_string(text).fields[0][1])
    return j.fetch()


class Ordered(concurrent.futures.Executor):
    """Executes what was submitted in a given order, as soon as nothing more arrives."""

    def __init__(self, order):
        self.order, self.queue, self.done, self.lock = order, [], [], threading.Lock()

    def submit(self, fn, *a, **k):
        f = concurrent.futures.Future()
        with self.lock:
            self.queue.append((f, fn, a, k))
            n = len(self.queue)
        if n == len(self.order):
            self.flush()
        else:
            t = threading.Timer(2.0, self.flush)
            t.daemon = True
            t.start()
        return f

    def flush(self):
        with self.lock:
            q, self.queue = self.queue, []
        for i in [x for x in self.order if x < len(q)]:
            f, fn, a, k = q[i]
            try:
                f.set_result(fn(*a, **k))
            except Exception as e:
                f.set_exception(e)

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *x) for x in zip(*its)]
        self.flush()
        return iter([f.result() for f in fs])


SIZES = [1, 99, 100, 101, 199, 200, 201, 299, 300, 301, 399, 400, 401, 599, 600, 1203, (4, 100), (3, 5, 41)]


def items(tier):
    q = tier == "quick"
    out = []
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        out += [dict(kind="threads", n=n, seed=s) for s in (1, 31415, 271828)]
        out += [dict(kind="sequences", n=n, first=o, length=3 if q else 4) for o in OPS]
    return out


def same(a, b):
    return np.array_equal(np.asarray(a), np.asarray(b))


def run(item):
    R = Result()
    n = item["n"]
    if item["kind"] == "threads":
        for size in SIZES:
            ref = None
            orders = list(itertools.permutations(range(n))) + ["real", "real"]
            for o in orders:
                r = make(item["seed"], n)
                if o != "real" and n > 1:
                    r.executor.shutdown()
                    r.executor = Ordered(o)
                x = np.full(size, np.nan)
                r.gfill(x)
                y = r.gvec(size)
                z = r.u
                w = r.gvec(3)
                R.transitions += 4
                R.state(n, str(size), str(o), item["seed"])
                if np.shape(y) != np.shape(x):
                    R.fail("shape", "gvec(%s) has shape %s" % (size, np.shape(y)))
                    continue
                got = np.concatenate([x.flatten(), np.asarray(y).flatten(), w])
                if not np.all(np.isfinite(got)):
                    R.fail("filled", "%d of %d elements of an array filled with %d threads were not filled" % (np.sum(~np.isfinite(got)), got.size, n))
                    continue
                if len(set(got.tolist())) != got.size:
                    R.fail("fresh", "numbers are repeated in arrays of shape %s filled with %d threads" % (size, n))
                if got.size > 150 and (abs(got.mean()) > 6 / np.sqrt(got.size) or abs(got.var() - 1) > 6 * np.sqrt(2.0 / got.size)):
                    R.fail("normal", "numbers of arrays of shape %s filled with %d threads have mean %.3f and variance %.3f" % (size, n, got.mean(), got.var()))
                if ref is None:
                    ref = (got, z)
                elif not same(ref[0], got) or ref[1] != z:
                    R.fail("order", "the numbers in an array of shape %s depend on the order in which %d threads work" % (size, n))
            # another seed, another stream
            a, b = make(item["seed"] + 1, n), make(item["seed"], n)
            if same(a.gvec(size), b.gvec(size)):
                R.fail("seed", "two seeds give the same numbers")
            if make(item["seed"], n).seed != item["seed"]:
                R.fail("seed", "the seed is not kept")
        # streams of the threads are different, and the seed reproduces all of them
        R.outcome("threads", len(SIZES))
        return R
    for L in range(1, item["length"] + 1):
        for rest in itertools.product(OPS, repeat=L - 1):
            seq = (item["first"],) + rest
            a = make(1234, n)
            first = [OPS[o](a) for o in seq]
            for cut in range(L):
                r = make(1234, n)
                for i, o in enumerate(seq[:cut]):
                    OPS[o](r)
                c = checkpoint(r)
                for i in range(cut, L):
                    x = OPS[seq[i]](c)
                    y = OPS[seq[i]](r)
                    R.transitions += 2
                    if not same(x, first[i]) or not np.all(np.isfinite(x)):
                        R.fail("restart", "after %s, restored from a checkpoint, %s gives other numbers with %d thread(s)" % (list(seq[:i]), seq[i], n))
                        break
                    if not same(y, first[i]):
                        R.fail("writing", "after %s, with a checkpoint written, %s gives other numbers with %d thread(s)" % (list(seq[:i]), seq[i], n))
                        break
                R.state(n, seq, cut)
                for z in (r, c):
                    if hasattr(z, "executor"):
                        z.executor.shutdown(wait=False)
                if R.violations and len(R.violations) > 20:
                    return R
            if hasattr(a, "executor"):
                a.executor.shutdown(wait=False)
            R.outcome("sequence length %d" % L)
    return R
