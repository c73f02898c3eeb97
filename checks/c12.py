"""C12: memory safety and independence of the thread schedule."""

import gc
import sys
import threading

import numba
import numpy as np
import scipy.sparse as sp
from numba.core.runtime import _nrt_python as nrt, rtsys

from mon import jobs
from mon.core import HarnessProblem, pick, scenario

NAMES = sorted(jobs.JOBS)
_server = None


def server():
    global _server
    if _server is None:
        _server = jobs.Server()
    return _server


def guard(a):
    """The array inside of a larger block, with canaries on both sides."""
    pad = 16
    fill = np.nan if a.dtype.kind == "f" else -(2**40)
    buf = np.full(a.size + 2 * pad, fill, dtype=a.dtype)
    v = buf[pad : pad + a.size].reshape(a.shape)
    v[...] = a
    return v, buf, pad


class Inputs:
    def __init__(self, args, inplace):
        self.inplace = inplace
        self.views, self.bufs, self.orig = {}, {}, {}
        for k, a in args.items():
            v, b, pad = guard(np.asarray(a))
            self.views[k], self.bufs[k], self.orig[k] = v, (b, b.copy(), pad), np.array(a, copy=True)

    def check(self, m):
        for k, (b, c, pad) in self.bufs.items():
            m.ok(b[:pad].tobytes() == c[:pad].tobytes() and b[-pad:].tobytes() == c[-pad:].tobytes(), "nothing is written next to the arrays", name=k)
            m.ok(b.tobytes() == c.tobytes(), "the arrays are not overwritten", name=k)


def same(m, got, ref, what, **ctx):
    m.ok(len(got) == len(ref), what + " (number of results)", got=len(got), expected=len(ref), **ctx)
    for g, r in zip(got, ref):
        g, r = np.asarray(g), np.asarray(r)
        if g.dtype == object or r.dtype == object:
            if g.dtype != r.dtype or g.ndim:
                m.fail(what, got=g, expected=r, **ctx)
            m.ok(g.item() is None and r.item() is None, what, got=g, expected=r, **ctx)
        elif g.dtype.kind in "iub":
            m.equal(g, r, what, **ctx)
        else:
            m.close(g, r, what, rtol=1e-9, atol=1e-11, **ctx)


def prepare(m, rng, name, n):
    seed = int(rng.integers(2**31))
    J = jobs.JOBS[name]
    args, run = J["make"](np.random.default_rng(seed), n)
    return seed, args, run, Inputs(args, J["inplace"])


def compiled():
    """The functions of the library which have been compiled and run so far."""
    out = set()
    for name, mod in list(sys.modules.items()):
        if name.startswith("sigmaepsilon.math"):
            for k, v in vars(mod).items():
                if getattr(v, "signatures", None) and hasattr(v, "py_func"):
                    out.add(f"{v.py_func.__module__}.{v.py_func.__name__}"[len("sigmaepsilon.math."):])
    return out


_seen = set()


def record(m):
    for k in compiled() - _seen:
        _seen.add(k)
        m.feat("compiled " + k)


@scenario(quick=12 * len(NAMES), thorough=60 * len(NAMES), modes=("bounds", "mt"))
def sizes(m, rng, i):
    """Against the execution without compilation, for all admissible sizes."""
    name = NAMES[(i // 2) % len(NAMES)]
    J = jobs.JOBS[name]
    n = int(pick(rng, J["sizes"]))
    seed, args, run, inp = prepare(m, rng, name, n)
    m.note(job=name, n=n, seed=seed)
    m.feat(name)
    got = [np.array(r) for r in run(**inp.views)]
    inp.check(m)
    st, ref = server().ask(name, args, seed, n)
    if st != "ok":
        raise HarnessProblem(f"{name}: {ref}")
    same(m, got, ref, "compiled and uncompiled execution agree", job=name, n=n)
    again = [np.array(r) for r in run(**inp.views)]
    same(m, again, got, "repeated calls agree", job=name, n=n)
    inp.check(m)
    record(m)


@scenario(quick=8 * len(NAMES), thorough=40 * len(NAMES), modes=("mt", "omp"))
def threads(m, rng, i):
    """The number of threads and the distribution of the work do not matter."""
    name = NAMES[(i // 2) % len(NAMES)]
    J = jobs.JOBS[name]
    n = J["big"] if rng.random() < 0.7 else int(pick(rng, J["sizes"]))
    seed, args, run, inp = prepare(m, rng, name, n)
    top = numba.config.NUMBA_NUM_THREADS
    m.note(job=name, n=n, seed=seed)
    m.feat(name)
    try:
        numba.set_num_threads(1)
        ref = [np.array(r) for r in run(**inp.views)]
        inp.check(m)
        for k, chunk in [(top, 0), (2, 0), (3, 1), (top, 1), (top, 3), (top - 1, 17), (top, 0)]:
            numba.set_num_threads(k)
            numba.set_parallel_chunksize(chunk)
            got = [np.array(r) for r in run(**inp.views)]
            same(m, got, ref, "the number of threads does not matter", job=name, threads=k, chunk=chunk, n=n)
            m.feat(f"threads{k}/chunk{chunk}")
            inp.check(m)
    finally:
        numba.set_num_threads(top)
        numba.set_parallel_chunksize(0)
    m.feat("layer " + str(numba.threading_layer()))
    record(m)


@scenario(quick=6 * len(NAMES), thorough=40 * len(NAMES), modes=("mt", "omp"))
def concurrent(m, rng, i):
    """Calls from several threads at the same time, with shared inputs."""
    name = NAMES[(i // 2) % len(NAMES)]
    others = [name, name, name] + [pick(rng, NAMES) for _ in range(3)]
    work = []
    top = numba.config.NUMBA_NUM_THREADS
    for k, nm in enumerate(others):
        J = jobs.JOBS[nm]
        if k < 2 or nm != name:
            n = J["big"] if rng.random() < 0.4 else int(pick(rng, J["sizes"]))
            seed, args, run, inp = prepare(m, rng, nm, n)
            ref = [np.array(r) for r in run(**inp.views)]
        # the third one shares the inputs of the second one
        work.append((nm, n, run, inp, ref))
    if str(numba.threading_layer()) == "workqueue":
        raise HarnessProblem("the threading layer does not allow concurrent calls")
    m.note(jobs=others, sizes=[w[1] for w in work])
    m.feat(name)
    barrier = threading.Barrier(len(work))
    results, errors = [None] * len(work), [None] * len(work)
    reps = 4
    delays = rng.random((len(work), reps)) * 1e-3

    def go(k):
        nm, n, run, inp, ref = work[k]
        try:
            numba.set_num_threads(int(1 + (k + i) % top))
            barrier.wait(120)
            out = []
            for r in range(reps):
                # injected delays: other interleavings of the calls
                threading.Event().wait(float(delays[k, r]))
                out.append([np.array(v) for v in run(**inp.views)])
            results[k] = out
        except Exception as e:
            errors[k] = e

    ts = [threading.Thread(target=go, args=(k,)) for k in range(len(work))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for (nm, n, run, inp, ref), out, e in zip(work, results, errors):
        m.ok(e is None, "concurrent calls do not fail", job=nm, n=n, error=e)
        for r in out:
            same(m, r, ref, "concurrent calls agree with single ones", job=nm, n=n)
        inp.check(m)
        m.feat("concurrent calls")
    record(m)


@scenario(quick=3 * len(NAMES), thorough=40 * len(NAMES), modes=("jit",))
def strided(m, rng, i):
    """Arrays that are not contiguous in memory."""
    name = NAMES[i % len(NAMES)]
    J = jobs.JOBS[name]
    n = int(pick(rng, J["sizes"]))
    seed = int(rng.integers(2**31))
    args, run = J["make"](np.random.default_rng(seed), n)
    views, bufs = {}, {}
    for k, a in args.items():
        a = np.asarray(a)
        fill = np.nan if a.dtype.kind == "f" else -(2**40)
        b = np.full(tuple(2 * s + 2 for s in a.shape), fill, dtype=a.dtype)
        v = b[tuple(slice(1, 1 + 2 * s, 2) for s in a.shape)]
        v[...] = a
        views[k], bufs[k] = v, (b, b.copy())
    m.note(job=name, n=n, seed=seed)
    m.feat(name)
    got = [np.array(r) for r in run(**views)]
    st, ref = server().ask(name, args, seed, n)
    if st != "ok":
        raise HarnessProblem(f"{name}: {ref}")
    same(m, got, ref, "the layout of the arrays does not matter", job=name, n=n)
    for k, (b, c) in bufs.items():
        m.ok(b.tobytes() == c.tobytes(), "nothing is written next to the items of the arrays", name=k)
    record(m)


def balance():
    """Blocks of memory of compiled code that are alive."""
    s = rtsys.get_allocation_stats()
    return s.alloc - s.free, s.mi_alloc - s.mi_free


@numba.njit
def _handed(c):
    return c


@numba.njit
def _first(c):
    return c.row(0).sum() + c.irow(0).sum() + c.shape[0]


@scenario(quick=2 * len(NAMES) + 12, thorough=12 * len(NAMES), modes=("mt",))
def memory(m, rng, i):
    """Nothing is held once a call has returned and its result is discarded.

    Watched: the balance of allocations in compiled code and the reference counts of
    the arguments, over repeated calls with the same arguments.
    """
    nrt.memsys_enable_stats()
    if i < 12:
        from sigmaepsilon.math.linalg.sparse import csr_matrix

        k = int(pick(rng, [1, 2, 5, 40]))
        D = np.where(rng.random((k, k + 1)) < 0.6, rng.normal(size=(k, k + 1)), 0.0)
        c = csr_matrix(sp.csr_matrix(D))
        fn = [_handed, _first][i % 2]
        m.note(matrix=D, fn=fn.__name__)
        m.feat("csr " + fn.__name__)
        held = [c, c.data, c.indices, c.indptr, csr_matrix, c.shape]
        call, name = (lambda: fn(c)), "csr"
        if fn is _handed:
            r = fn(c)
            m.close(r.to_numpy(), D, "a matrix returned from compiled code")
            m.ok(type(r) is csr_matrix, "a matrix returned from compiled code", got=type(r))
            del r
    else:
        name = NAMES[(i - 12) % len(NAMES)]
        J = jobs.JOBS[name]
        n = int(pick(rng, J["sizes"]))
        seed, args, run, inp = prepare(m, rng, name, n)
        m.note(job=name, n=n, seed=seed)
        m.feat(name)
        held = list(inp.views.values())
        call = lambda: run(**inp.views)
    for _ in range(2):
        call()
    grown = 0
    for _ in range(3):
        gc.collect()
        refs, before = [sys.getrefcount(x) for x in held], balance()
        for _ in range(4):
            call()
        gc.collect()
        after, refs2 = balance(), [sys.getrefcount(x) for x in held]
        grown += after[0] > before[0] or after[1] > before[1] or any(b > a for a, b in zip(refs, refs2))
    m.ok(grown < 3, "calls do not hold on to memory or to their arguments", job=name, blocks=[before, after], references=[refs, refs2])
    m.feat("balance of allocations")
