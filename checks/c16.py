"""C16: nearest neighbours and neighbour averages."""

import numpy as np

from mon.core import Frozen, HarnessProblem, grow, layout, pick, scenario

from sigmaepsilon.math.approx import MLSApproximator
from sigmaepsilon.math.knn import k_nearest_neighbours


def points(rng, n, d):
    kind = pick(rng, ["normal", "uniform", "clustered", "line", "far"])
    if kind == "normal":
        X = rng.normal(size=(n, d))
    elif kind == "uniform":
        X = rng.random((n, d))
    elif kind == "clustered":
        X = rng.integers(0, 3, (n, d)) * 10 + rng.normal(size=(n, d)) * 0.1
    elif kind == "line":
        X = np.outer(rng.normal(size=n), np.ones(d)) + rng.normal(size=(n, d)) * 1e-3
    else:
        X = rng.normal(size=(n, d)) * 100 + 1000
    return X, kind


def distances(Y, X, p=2):
    D = np.abs(Y[:, None, :] - X[None])
    if p == 1:
        return D.sum(-1)
    if p == np.inf:
        return D.max(-1)
    return np.sqrt((D**2).sum(-1))


@scenario(quick=500, thorough=10000, modes=("py",))
def knn(m, rng, i):
    n = int([1, 2, 5, 30, 150, grow(rng, 400, 3000, 0.2)][i % 6])
    d = int(pick(rng, [1, 2, 3, 4, 6]))
    X, kind = points(rng, n, d)
    if rng.random() < 0.2:
        X = np.round(X)  # ties and duplicates
        kind += " rounded"
    own = rng.random() < 0.25
    nY = grow(rng, pick(rng, [1, 3, 40]), 300)
    Y = X if own else (points(rng, nY, d)[0] if rng.random() < 0.3 else X[rng.integers(n, size=nY)] + rng.normal(size=(nY, d)) * 0.3)
    p = pick(rng, [2, 2, 2, 1, np.inf])
    k = pick(rng, [1, 2, 3, 7, 20])
    D = distances(Y, X, p)
    S = np.sort(D, axis=1)
    lim = None
    if rng.random() < 0.5:
        lim = float(pick(rng, [np.median(D), S[:, 0].mean(), D.max() * 2 + 1, D.min() / 2 + 1e-9, np.quantile(D, 0.2)]))
        if lim <= 0 or np.any(np.abs(D - lim) < 1e-9 * max(1.0, lim)):
            lim = None
    m.note(X=X, Y=Y, k=k, lim=lim, p=p)
    m.feat(f"n{n}", f"dim{d}", "limit" if lim else "no limit", "points:" + kind, "own points" if own else "queries", f"p={p}")
    if lim is not None:
        S = np.where(S < lim, S, np.inf)
    if S.shape[1] < k:
        S = np.concatenate([S, np.full((len(Y), k - S.shape[1]), np.inf)], axis=1)
    S = S[:, :k]
    kw = {}
    if p != 2 or rng.random() < 0.3:
        kw["query_kwargs"] = dict(p=p)
    if rng.random() < 0.3:
        kw["leaf_size"] = int(pick(rng, [1, 2, 10, 100]))
    if rng.random() < 0.3:
        kw["tree_kwargs"] = dict(balanced_tree=bool(rng.random() < 0.5))
    if rng.random() < 0.5:
        kw["workers"] = int(pick(rng, [1, 2, -1]))
    if rng.random() < 0.2:
        kw["backend"] = "scipy"
    if lim is not None:
        kw["max_distance"] = lim
    qk = dict(kw.get("query_kwargs", {}))
    fr = Frozen(X=X, Y=Y)
    args = (X,) if own else (X, Y)
    ks = k
    if rng.random() < 0.15:
        ks = sorted(int(v) for v in rng.choice(np.arange(1, k + 1), size=max(1, k // 2), replace=False))
        S = S[:, np.array(ks) - 1]
        m.feat("list of ranks")
    dist, ind = k_nearest_neighbours(*args, k=ks, return_distance=True, **kw)
    only = k_nearest_neighbours(*args, k=ks, **kw)
    fr.check(m)
    m.ok(kw.get("query_kwargs", {}) == qk, "the options are left alone")
    m.equal(only, ind, "indices without distances")
    shape = (len(Y),) if ks == 1 else S.shape
    m.ok(ind.shape == shape and dist.shape == shape, "shapes", got=(ind.shape, dist.shape), expected=shape)
    dist, ind = dist.reshape(S.shape), ind.reshape(S.shape)
    m.close(dist, S, "distances of the nearest neighbours", rtol=1e-10)
    miss = np.isinf(S)
    m.equal(ind[miss], np.full(miss.sum(), n), "missing neighbours are marked")
    if miss.any():
        m.feat("missing neighbours")
    rows = np.broadcast_to(np.arange(len(Y))[:, None], S.shape)
    m.close(D[rows[~miss], ind[~miss]], S[~miss], "distances of the reported points", rtol=1e-10)
    for r in ind:
        r = r[r < n]
        m.ok(len(set(r.tolist())) == len(r), "a neighbour is reported once", got=r)
    m.raises(ImportError, lambda: k_nearest_neighbours(X, Y, backend="nothing"), "unknown backend")
    if i % 5 == 0:
        d0, i0 = k_nearest_neighbours(X, Y, k=2, max_distance=0.0, return_distance=True)
        m.ok(not np.any((i0 < n) & (d0 > 0)), "nothing is within no distance but the point itself", got=(d0, i0))


DATA = ["scalar", "column", "vector", "wide", "matrix", "int scalar", "int vector", "int matrix", "third order", "int32", "float32", "bool"]


def data(rng, n, kind):
    shape = {"scalar": (), "column": (1,), "vector": (3,), "wide": (9,), "matrix": (2, 3), "int scalar": (), "int vector": (4,),
             "int matrix": (2, 2), "third order": (2, 1, 3), "int32": (2,), "float32": (2,), "bool": (2,)}[kind]
    if kind == "int32":
        return rng.integers(-50, 50, (n,) + shape).astype(np.int32)
    if kind.startswith("int"):
        return rng.integers(-50, 50, (n,) + shape)
    if kind == "float32":
        return rng.normal(size=(n,) + shape).astype(np.float32)
    if kind == "bool":
        return rng.random((n,) + shape) < 0.5
    return rng.normal(size=(n,) + shape)


@scenario(quick=400, thorough=8000)
def approximator(m, rng, i):
    n = int(pick(rng, [1, 2, 4, 5, 20, grow(rng, 200, 1500, 0.2)]))
    d = int(pick(rng, [1, 1, 2, 3]))
    kind = DATA[i % len(DATA)]
    X, pk = points(rng, n, d)
    Y = data(rng, n, kind)
    k = pick(rng, [None, 1, 2, 3, 4, 7, 12, 40])
    flat = d == 1 and rng.random() < 0.6
    Xs = X[:, 0].copy() if flat else X
    lim = None
    if rng.random() < 0.5:
        D0 = distances(X, X)
        lim = pick(rng, [float(np.median(D0)), float(np.quantile(D0, 0.1)) * 1.01, float(D0.max()) + 1.0, 1, 0.3])
        if not lim > 0:
            lim = None
    m.note(X=X, Y=Y, k=k, lim=lim)
    m.feat("data:" + kind, f"k={k}", f"n{n}", "limit" if lim else "no limit")
    A = MLSApproximator(Xs, Y, **{a: b for a, b in dict(knn_backend=pick(rng, [None, "scipy"]), k=k, max_distance=lim).items() if b is not None or rng.random() < 0.5})
    other = MLSApproximator(X[::-1].copy(), Y[::-1].copy() * 1.0, k=2)
    fr = Frozen(Xs=Xs, Y=Y)
    kk = 4 if k is None else k
    for rep in range(int(rng.integers(1, 4))):
        nT = int(pick(rng, [1, 2, 9, 60]))
        for _ in range(50):
            T = pick(rng, [points(rng, nT, d)[0], X[rng.integers(n, size=nT)] + rng.normal(size=(nT, d)) * 0.2])
            D = distances(T, X)
            S = np.sort(D, axis=1)
            # clear of ties and of the limit
            if n > kk and np.any(S[:, kk] - S[:, kk - 1] < 1e-9 * (1 + S[:, kk])):
                continue
            if lim is not None and np.any(np.abs(D - lim) < 1e-9 * (1 + lim)):
                continue
            break
        else:
            raise HarnessProblem("ties")
        m.step(("approximate", T.tolist()))
        near = np.argsort(D, axis=1)[:, :kk]
        ref = np.full((nT,) + Y.shape[1:], np.nan)
        for t in range(nT):
            ids = [j for j in near[t] if lim is None or D[t, j] < lim]
            if ids:
                ref[t] = Y[ids].astype(float).mean(axis=0)
            else:
                m.feat("no neighbour")
            if len(ids) < kk:
                m.feat("fewer neighbours")
        Tq = T[:, 0].copy() if flat else T
        fq = Frozen(Tq=Tq)
        got = A.approximate(Tq)
        m.close(got, np.squeeze(ref), "mean over the nearest neighbours", rtol=1e-6 if kind == "float32" else 1e-9)
        fr.check(m)
        fq.check(m)
        if rng.random() < 0.5:
            other.approximate(T[:1] + 1.0)
            m.close(A.approximate(Tq), np.squeeze(ref), "the result does not depend on other calls", rtol=1e-6 if kind == "float32" else 1e-9)
    # query by query
    j = int(rng.integers(nT))
    m.close(A.approximate(Tq[j:j + 1]), np.squeeze(ref[j:j + 1]), "a single query", rtol=1e-6 if kind == "float32" else 1e-9)
