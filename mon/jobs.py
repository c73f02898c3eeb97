"""
Calls into the compiled parts of the library, as (inputs, call) pairs that can be
run under any number of threads, concurrently, and without compilation (this
module is also run as a server process with the compiler switched off).
"""

import os
import pickle
import struct
import subprocess
import sys

import numpy as np

JOBS = {}


def job(*sizes, big=2000, inplace=False):
    """sizes: what n may be; big: the size for the stress of the scheduler."""

    def deco(make):
        JOBS[make.__name__] = dict(make=make, sizes=sizes or (1, 2, 3, 7, 33, 200), big=big, inplace=inplace)
        return make

    return deco


def _rot(rng, n=None, d=3):
    if n is None:
        q, _ = np.linalg.qr(rng.normal(size=(d, d)))
        return np.ascontiguousarray(q)
    q, _ = np.linalg.qr(rng.normal(size=(max(n, 1), d, d)))
    return np.ascontiguousarray(q[:n])


def _well(rng, n, d=3):
    return _rot(rng, n, d) * rng.uniform(0.5, 2.0, size=(n, d, 1))


# Every job returns (inputs, function of the inputs -> list of arrays).
# -- transformations ------------------------------------------------------------
def _L():
    import sigmaepsilon.math.linalg as L

    return L


@job()
def vectors_one_frame(rng, n):
    L = _L()
    a = dict(x=rng.normal(size=(n, 3)), A=_rot(rng), B=_well(rng, 1)[0])
    return a, lambda x, A, B: [L.Vector(x, frame=L.ReferenceFrame(A)).show(L.ReferenceFrame(B))]


@job()
def vectors_many_frames(rng, n):
    L = _L()
    a = dict(x=rng.normal(size=(n, 3)), A=_well(rng, n), B=_well(rng, 1)[0])
    return a, lambda x, A, B: [L.Vector(x, frame=L.ReferenceFrame(A)).show(L.ReferenceFrame(B))]


@job()
def vectors_to_many_frames(rng, n):
    L = _L()
    a = dict(x=rng.normal(size=(n, 3)), A=_rot(rng, n), B=_rot(rng, n))
    return a, lambda x, A, B: [L.Vector(x, frame=L.ReferenceFrame(A)).show(L.ReferenceFrame(B))]


@job()
def tensors2_one_frame(rng, n):
    L = _L()
    a = dict(x=rng.normal(size=(n, 3, 3)), A=_rot(rng), B=_well(rng, 1)[0])
    return a, lambda x, A, B: [L.Tensor2(x, frame=L.ReferenceFrame(A), bulk=True).show(L.ReferenceFrame(B))]


@job()
def tensors2_many_frames(rng, n):
    L = _L()
    a = dict(x=rng.normal(size=(n, 3, 3)), A=_well(rng, n), B=_well(rng, 1)[0])
    return a, lambda x, A, B: [L.Tensor2(x, frame=L.ReferenceFrame(A), bulk=True).show(L.ReferenceFrame(B))]


@job(1, 2, 5, 60, big=400)
def tensors2x3_grid_one_frame(rng, n):
    L = _L()
    a = dict(x=rng.normal(size=(n, int(rng.integers(1, 6)), 3, 3)), A=_rot(rng), B=_rot(rng))
    return a, lambda x, A, B: [L.Tensor2x3(x, frame=L.ReferenceFrame(A)).show(L.ReferenceFrame(B))]


@job(1, 2, 5, 60, big=400)
def tensors2x3_grid_many_frames(rng, n):
    L = _L()
    a = dict(x=rng.normal(size=(n, int(rng.integers(1, 6)), 3, 3)), A=_rot(rng, n), B=_rot(rng))
    return a, lambda x, A, B: [L.Tensor2x3(x, frame=L.ReferenceFrame(A)).show(L.ReferenceFrame(B))]


@job(1, 2, 5, big=300)
def tensor4x3(rng, n):
    L = _L()
    a = dict(x=rng.normal(size=(3, 3, 3, 3)), A=_rot(rng), B=_rot(rng))
    return a, lambda x, A, B: [L.Tensor4x3(x, frame=L.ReferenceFrame(A)).show(L.ReferenceFrame(B))]


@job(1, 2, 3, big=60)
def tensors4x3_one_frame(rng, n):
    L = _L()
    a = dict(x=rng.normal(size=(n, 3, 3, 3, 3)), A=_rot(rng), B=_rot(rng))
    return a, lambda x, A, B: [L.Tensor4x3(x, frame=L.ReferenceFrame(A)).show(L.ReferenceFrame(B))]


@job(1, 2, 3, big=60)
def tensors4x3_many_frames(rng, n):
    L = _L()
    a = dict(x=rng.normal(size=(n, 3, 3, 3, 3)), A=_rot(rng, n), B=_rot(rng))
    return a, lambda x, A, B: [L.Tensor4x3(x, frame=L.ReferenceFrame(A)).show(L.ReferenceFrame(B))]


@job(1, 2, 3, big=40)
def tensors4x3_grid_many_frames(rng, n):
    L = _L()
    a = dict(x=rng.normal(size=(n, 2, 3, 3, 3, 3)), A=_rot(rng, n), B=_rot(rng))
    return a, lambda x, A, B: [L.Tensor4x3(x, frame=L.ReferenceFrame(A)).show(L.ReferenceFrame(B))]


@job()
def show_vectors(rng, n):
    L = _L()
    d = int(rng.integers(2, 5))
    a = dict(x=rng.normal(size=(n, d)), Q=_rot(rng, None, d), M=_rot(rng, n, d))
    return a, lambda x, Q, M: [L.show_vector(Q, x), L.show_vector(M, x), L.show_vector(Q, np.ascontiguousarray(x[0]))]


@job()
def show_frames(rng, n):
    from sigmaepsilon.math.linalg.utils import show_frame, transpose_axes

    d = int(rng.integers(2, 5))
    a = dict(F=_rot(rng, n, d), Q=_rot(rng, None, d), M=_rot(rng, n, d))
    return a, lambda F, Q, M: [show_frame(Q, F), show_frame(M, F), show_frame(Q, F[0].copy()), transpose_axes(F)]


# -- small matrices and vectors -------------------------------------------------
@job(0, 1, 2, 9, 200)
def inverses(rng, n):
    L = _L()
    from sigmaepsilon.math.linalg import utils as U

    a = dict(A=_well(rng, n), B=_well(rng, n, 2))
    return a, lambda A, B: [U.inv3x3_bulk(A), U.inv3x3_bulk2(A)] + ([U.inv3x3(A[0].copy()), U.inv2x2(B[0].copy())] if len(A) else [])


@job(0, 1, 2, 9, 200)
def ufuncs(rng, n):
    from sigmaepsilon.math.linalg import utils as U

    a = dict(A=_well(rng, n), B=_well(rng, n, 2))
    return a, lambda A, B: [U.det3x3(A), U.det2x2(B), U.adj3x3(A), U.inv3x3u(A), U.inv2x2u(B)]


@job(0, 1, 2, 9, 300)
def norms(rng, n):
    from sigmaepsilon.math.linalg import utils as U

    a = dict(x=rng.normal(size=(n, int(rng.integers(1, 6)))) + 3.0)
    return a, lambda x: [U.norm2d(x), U.normalize2d(x)] + ([U.norm(x[0].copy()), U.normalize(x[0].copy())] if len(x) else [])


@job(2, 3, 10, 200)
def segments(rng, n):
    from sigmaepsilon.math.linalg import utils as U

    a = dict(p=rng.normal(size=3), q=rng.normal(size=3))
    return a, lambda p, q: [U.linspace(p, q, n), U.linspace1d(float(p[0]), float(q[0]), n)]


@job(2, 3, 10, 40)
def paths(rng, n):
    from sigmaepsilon.math.linalg import utils as U

    a = dict(p=rng.normal(size=3), q=rng.normal(size=3))
    return a, lambda p, q: [U.vpath(p, q, n)]


@job(1, 2, 5, 12, big=40)
def products(rng, n):
    from sigmaepsilon.math.linalg import utils as U

    k = int(rng.integers(1, 6))
    a = dict(A=rng.normal(size=(n, k)), B=rng.normal(size=(n, n)), C=rng.normal(size=(k, n)))
    return a, lambda A, B, C: [U.ATB(A, B), U.ATBA(A, B), U.ATBAw(A, B, 0.5), U.matmul(B, A), U.matmulw(C, A, 2.0)]


@job(1, 2, 5, 12, big=60)
def solvers(rng, n):
    from sigmaepsilon.math.linalg.solve import linsolve, reduce
    from sigmaepsilon.math.linalg import utils as U

    a = dict(A=rng.normal(size=(n, n)) + 4 * n * np.eye(n), b=rng.normal(size=(n, 2)))
    return a, lambda A, b: [linsolve(A, b, method=m) for m in ("Jordan", "Gauss-Jordan", "numpy")] + list(reduce(A, b)) + [U.linsolve(A, b), U.inv(A)]


# -- array utilities ------------------------------------------------------------
def _U():
    import sigmaepsilon.math.utils as U

    return U


@job(0, 1, 2, 3, 17, 200)
def repeats(rng, n):
    U = _U()
    a = dict(a=rng.normal(size=(int(rng.integers(1, 5)), int(rng.integers(1, 5)))), v=rng.normal(size=int(rng.integers(0, 6))))
    return a, lambda a, v: [U.repeat(a, n), U.repeat1d(v, n)] + ([U.repeat_diagonal_2d(a, n)] if n < 300 else [])


@job(0, 1, 2, 3, 17, 200)
def tiles(rng, n):
    U = _U()
    s = (int(rng.integers(1, 5)), int(rng.integers(1, 5)))
    k = int(rng.integers(0, 6))
    a = dict(a=rng.normal(size=s), da=rng.normal(size=s), v=rng.normal(size=k), dv=rng.normal(size=k))
    return a, lambda a, da, v, dv: [U.tile(a, da, n), U.tile1d(v, dv, n)]


@job(1, 2, 30)
def flattening(rng, n):
    U = _U()
    a = dict(a=rng.normal(size=(n, int(rng.integers(1, 6)))))
    return a, lambda a: [U.flatten2d(a), U.flatten2d(a, order="F"), np.array(U.minmax(a))]


@job(0, 1, 5, 100)
def scaling(rng, n):
    U = _U()
    from sigmaepsilon.math.hist import bin_centers

    a = dict(v=rng.normal(size=n), e=np.cumsum(rng.random(n + 1)))
    return a, lambda v, e: [U.to_range_1d(v, source=[0.0, 2.0], target=[-1.0, 4.0]), bin_centers(e)]


@job(0, 1, 5, 100, inplace=True)
def clipping(rng, n):
    U = _U()
    a = dict(v=rng.normal(size=n))
    return a, lambda v: [U.clip1d(v.copy(), -0.5, 0.5)]


@job(1, 2, 9, 30, big=120)
def equal_rows(rng, n):
    U = _U()
    a = dict(x=rng.integers(0, 3, size=(n, 2)).astype(float), y=rng.integers(0, 3, size=(n, 2)).astype(float), z=rng.integers(0, 3, size=(n + 3, 2)).astype(float), i=rng.integers(0, 3, size=(n, 2)), j=rng.integers(0, 3, size=(n + 1, 2)))
    return a, lambda x, y, z, i, j: [*U.indices_of_equal_rows(x, y), *U.indices_of_equal_rows(x, z), *U.indices_of_equal_rows(z, x), *U.indices_of_equal_rows(i, j)]


@job(1, 2, 9, 100)
def finding(rng, n):
    U = _U()
    s = rng.permutation(n + 5)
    a = dict(a=s[rng.integers(n + 5, size=n)], b=s[rng.integers(n + 5, size=(n, 3))], s=s)
    return a, lambda a, b, s: [U.find1d(a, s), U.find2d(b, s)]


@job(0, 1, 2, 40)
def counting(rng, n):
    U = _U()
    a = dict(a=rng.normal(size=(n, 4)), ptr=np.concatenate([[0], np.cumsum(rng.integers(0, 5, size=n))]).astype(np.int64))
    return a, lambda a, ptr: [U.count_cols(a), U.count_cols_csr(ptr, np.zeros(int(ptr[-1]), dtype=np.int64))]


@job(1, 2, 9, 60, big=400)
def uniques(rng, n):
    from sigmaepsilon.math.arraysetops import unique2d

    def flat(out):
        u, ids, inv, cnt = out
        return [np.asarray(u), np.asarray(inv), np.asarray(cnt)] + [np.asarray(ids[int(k)]) for k in np.asarray(u)]

    a = dict(x=rng.integers(0, 2 * n, size=(n, 3)))
    return a, lambda x: flat(unique2d(x, return_index=True, return_inverse=True, return_counts=True))


@job(1, 2, 9, 60, big=400)
def jagged(rng, n):
    from sigmaepsilon.math.linalg.sparse import JaggedArray

    def run(flat, w):
        J = JaggedArray(flat, cuts=w)
        c = J.to_csr()
        S = c.to_scipy() if hasattr(c, "to_scipy") else c
        return [np.asarray(J.widths()), np.asarray(J.flatten()), np.asarray(J.unique()), np.asarray(c.data), np.asarray(c.indices), np.asarray(c.indptr), np.array(c.shape)]

    w = rng.integers(1, 5, size=n)
    a = dict(flat=rng.integers(0, 50, size=int(w.sum())), w=w)
    return a, run


@job(1, 2, 9, 60, big=200)
def sparse_rows(rng, n):
    import scipy.sparse as sp
    from sigmaepsilon.math.linalg.sparse import csr_matrix

    def run(D):
        C = csr_matrix(sp.csr_matrix(D))
        out = []
        for k in (0, len(D) // 2, len(D) - 1):
            out += [np.asarray(C.row(k)), np.asarray(C.irow(k))]
        return out + [np.asarray(C.row_nb(k)) for k in ()]

    D = rng.normal(size=(n, n + 2)) * (rng.random((n, n + 2)) < 0.4)
    D[:, 0] += 1.0
    return dict(D=D), run


@job(2, 5, 12, 40, big=150)
def graphs(rng, n):
    import scipy.sparse as sp
    from sigmaepsilon.math.graph.utils import pseudo_peripheral_nodes, rooted_level_structure
    from sigmaepsilon.math.linalg.sparse import csr_matrix

    def run(M):
        C = csr_matrix(sp.csr_matrix(M))
        r = rooted_level_structure(C, 0)
        return [np.sort(np.asarray(r[k])) for k in sorted(r)] + [np.sort(np.asarray(pseudo_peripheral_nodes(C)))]

    M = rng.random((n, n)) < 3.0 / n
    M = (M | M.T | np.eye(n, k=1, dtype=bool) | np.eye(n, k=-1, dtype=bool)).astype(float)
    np.fill_diagonal(M, 0)
    return dict(M=M), run


# -- approximation --------------------------------------------------------------
@job(5, 9, 40, 200, big=1500)
def nearest_means(rng, n):
    from sigmaepsilon.math.approx import MLSApproximator

    a = dict(X=rng.random((n, 2)), Y=rng.normal(size=(n, 3)), s=rng.normal(size=n), t=rng.normal(size=(n, 2, 2)), T=rng.random((2 * n, 2)))

    def run(X, Y, s, t, T):
        return [MLSApproximator(X, v, k=4).approximate(T) for v in (Y, s, t)] + [MLSApproximator(X, Y, k=3, max_distance=0.2).approximate(T)]

    return a, run


@job(12, 20, big=40)
def least_squares_fits(rng, n):
    from sigmaepsilon.math.approx import CubicWeightFunction, least_squares, moving_least_squares

    a = dict(X=rng.random((n, 2)), x=np.sort(rng.random(n)) + 0.1 * np.arange(n), Z=rng.random((n, 3)), V=rng.normal(size=(n, 2)), q=rng.random(3))

    def run(X, x, Z, V, q):
        f = least_squares(X, V, deg=2, order=2)
        g = least_squares(x, V, deg=2, order=2)
        h = least_squares(Z, V, deg=1, order=2)
        w = moving_least_squares(X, V, deg=1, order=2, w=CubicWeightFunction(core=[0.0, 0.0], supportdomain=[2.5, 2.5]))
        k = moving_least_squares(x, V, deg=1, order=2, w=CubicWeightFunction(core=[0.0], supportdomain=[8.0]))
        return [np.asarray(v) for v in (*f(q[:2].copy()), *g(float(q[0])), *h(q), *w(q[:2].copy()), *k(float(x[n // 2])))]

    return a, run


# -- the server without compilation ---------------------------------------------
def compute(name, args, seed, n):
    """Rebuilds the job and runs it with these inputs."""
    make = JOBS[name]["make"]
    _, run = make(np.random.default_rng(seed), n)
    return [np.asarray(r) for r in run(**args)]


class Server:
    def __init__(self):
        env = dict(os.environ)
        env.update(NUMBA_DISABLE_JIT="1")
        for k in ("MALLOC_PERTURB_", "MALLOC_CHECK_", "NUMBA_BOUNDSCHECK"):
            env.pop(k, None)
        here = os.path.dirname(os.path.abspath(__file__))
        self.p = subprocess.Popen([sys.executable, "-W", "ignore", "-c", f"import sys; sys.path.insert(0, {os.path.dirname(here)!r}); from mon import jobs; jobs.serve()"],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)

    def ask(self, *msg):
        send(self.p.stdin, msg)
        return receive(self.p.stdout)


def send(f, x):
    b = pickle.dumps(x)
    f.write(struct.pack("<q", len(b)) + b)
    f.flush()


def receive(f):
    h = f.read(8)
    if len(h) < 8:
        raise EOFError
    return pickle.loads(f.read(struct.unpack("<q", h)[0]))


def serve():
    fin, fout = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    while True:
        try:
            name, args, seed, n = receive(fin)
        except EOFError:
            return
        try:
            r = ("ok", compute(name, args, seed, n))
        except Exception as e:
            r = ("error", f"{type(e).__name__}: {e}")
        send(fout, r)
