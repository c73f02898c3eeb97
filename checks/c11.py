"""C11: linear solvers."""

import numpy as np

from mon.core import Frozen, HarnessProblem, grow, layout, pick, scenario, values

from sigmaepsilon.math.linalg.solve import backsub, linsolve, npsolve, reduce

METHODS = ["numpy", "Jordan", "Gauss-Jordan"]


def pivots(A):
    """Pivots of elimination without exchange of rows."""
    A = np.array(A, dtype=float)
    p, g = [], 0.0
    for k in range(len(A)):
        p.append(A[k, k])
        if A[k, k] == 0:
            return np.array(p), np.inf
        A[k + 1:] -= np.outer(A[k + 1:, k] / A[k, k], A[k])
        g = max(g, float(np.abs(A).max()))
    return np.array(p), g


def small_pivots(A):
    A = np.array(A, dtype=float)
    for k in range(len(A)):
        if abs(A[k, k]) < 1e-13:
            return False
        if abs(A[k, k]) < 1e-2 or np.abs(A).max() > 1e3:
            return True
        A[k + 1:] -= np.outer(A[k + 1:, k] / A[k, k], A[k])
    return False


def system(rng, n, free=None):
    """A matrix whose elimination is well behaved for the free unknowns."""
    for _ in range(400):
        k = pick(rng, ["normal", "dominant", "spd", "int", "sparse", "tri", "skew"])
        if k == "normal":
            A = rng.normal(size=(n, n))
        elif k == "dominant":
            A = rng.normal(size=(n, n)) + np.diag(rng.choice([-1, 1], n) * n * 2.0)
        elif k == "spd":
            A = rng.normal(size=(n, n))
            A = A @ A.T + 0.3 * np.eye(n)
        elif k == "int":
            A = rng.integers(-4, 5, size=(n, n)).astype(float)
        elif k == "sparse":
            A = rng.normal(size=(n, n)) * (rng.random((n, n)) < 0.4) + np.eye(n)
        elif k == "tri":
            A = np.tril(rng.normal(size=(n, n))) + np.eye(n) * 2
            A = A if rng.random() < 0.5 else A.T
        else:
            B = rng.normal(size=(n, n))
            A = B - B.T + np.eye(n)
        S = A if free is None else A[np.ix_(free, free)]
        if len(S) == 0:
            return A
        p, g = pivots(S)
        if np.abs(p).min() > 0.02 and g < 200 and np.linalg.cond(S) < 1e4:
            return A
    raise HarnessProblem("no system")


def units(rng, A, B):
    """The same system in other units: as a whole, equation by equation, or unknown by unknown.
    The elimination is as well behaved as it was, and the pivots stay clear of its tolerance."""
    n = len(A)
    how = pick(rng, ["none", "none", "whole", "rows", "columns", "mixed"])
    r = np.ones(n)
    c = np.ones(n)
    if how == "whole":
        r[:] = 10.0 ** int(rng.integers(-8, 9))
    if how in ("rows", "mixed"):
        r = 10.0 ** rng.integers(-4, 9, n)
    if how in ("columns", "mixed"):
        c = 10.0 ** rng.integers(-3, 4, n)
    return how, A * r[:, None] * c, (B.T * r).T, r, c


def rhs(rng, n):
    k = pick(rng, [None, 1, 2, 3, 7])
    B = values(rng, (n,) if k is None else (n, k), pick(rng, ["normal", "int", "sparse", "uniform"]))
    return B, k


@scenario(quick=400, thorough=8000)
def plain(m, rng, i):
    n = int([1, 2, 3, 4, 5, 8, 12, grow(rng, 25, 70, 0.3)][i % 8])
    A = system(rng, n)
    B, k = rhs(rng, n)
    ints = np.all(A == np.round(A)) and np.all(B == np.round(B)) and rng.random() < 0.5
    c = np.linalg.cond(A)
    X0 = np.linalg.solve(A, B)
    ru = cu = np.ones(n)
    # pivoting by the largest item depends on the units of the equations
    methods = METHODS
    if not ints:
        how, A, B, ru, cu = units(rng, A, B)
        if how in ("rows", "mixed"):
            methods = METHODS[1:]
        X0 = (X0.T / cu).T
        m.feat("units:" + how)
    m.note(A=A, B=B, ints=bool(ints))
    m.feat(f"n{n}", f"rhs{k}")

    def solves(X, what, rtol=None, **kw):
        """compared in the original units of the unknowns"""
        Z, Z0 = (X.T * cu).T, (X0.T * cu).T
        m.close(Z, Z0, what, rtol=rtol or 1e-9 * c + 1e-8, atol=1e-12, **kw)

    fr = Frozen(A=A, B=B)
    # size of each equation
    ri = np.abs(A) @ (np.abs((X0.T * cu).T).max() / cu) + ru * np.abs((B.T / ru).T).max() + 1e-300
    for method in methods:
        a, b = A, B
        if method != "numpy":
            if ints:
                a, b = A.astype(int), B.astype(int)
                m.feat("integers")
            else:
                a = layout(rng, A, pick(rng, ["C", "F", "strided"]))
        X = linsolve(a, b, method=method)
        m.ok(X.size == B.size, "number of unknowns", method=method, got=X.shape)
        X = X.reshape(B.shape)
        solves(X, "solution", method=method)
        m.close(((A @ X - B).T / ri).T, np.zeros_like(B), "equations are satisfied", rtol=0, atol=1e-8 * n, method=method)
        fr.check(m)
    if "numpy" in methods:
        solves(npsolve(A, B), "npsolve")
        solves(linsolve(A, B), "default method")
    # inplace
    method = pick(rng, METHODS[1:])
    a, b = A.copy(), B.copy()
    X = linsolve(a, b, method=method, inplace=True)
    solves(X.reshape(B.shape), "solution by inplace elimination", method=method)
    # reduction and back substitution
    b = B.reshape(n, -1).copy()
    fr = Frozen(A=A, b=b)
    ra, rb = reduce(A, b, method=method)
    fr.check(m)
    sa = np.abs(A).max(axis=1)[:, None] * np.ones((1, n)) / cu.min() * cu
    if method == "Gauss-Jordan":
        m.close(np.tril(ra, -1) / sa, np.zeros((n, n)), "reduction to upper triangular form", atol=1e-8)
    else:
        m.close((ra - np.diag(np.diag(ra))) / sa, np.zeros((n, n)), "reduction to diagonal form", atol=1e-6)
    solves(np.linalg.solve(ra / ru[:, None], rb / ru[:, None]).reshape(B.shape), "reduction keeps the solution", rtol=1e-8 * c + 1e-7)
    Y, R = backsub(ra, rb, np.zeros(n, dtype=bool), np.zeros(n))
    solves(Y.reshape(B.shape), "back substitution")
    m.close(R, np.zeros_like(R), "no residual without prescribed unknowns")
    if np.array_equal(A, np.round(A)) and np.array_equal(b, np.round(b)) and max(np.abs(A).max(), np.abs(b).max()) < 1e15:
        ia, ib = reduce(A.astype(int), b.astype(int), method=method)
        m.close(ia, ra, "reduction of integers", rtol=1e-12)
        m.close(ib, rb, "reduction of integers", rtol=1e-12)
        m.feat("reduction of integers")
    m.raises(AttributeError, lambda: linsolve(A, B, method="Cramer"), "unknown method")
    m.raises(AttributeError, lambda: reduce(A, B, method="Cramer"), "unknown method")


@scenario(quick=500, thorough=10000)
def prescribed(m, rng, i):
    n = int([1, 2, 3, 4, 5, 8, grow(rng, 15, 50, 0.3)][i % 7])
    kind = ["some", "some", "first", "last", "none", "all", "one", "most"][(i // 7) % 8]
    pb = np.zeros(n, dtype=bool)
    if kind == "some":
        pb = rng.random(n) < 0.4
    elif kind == "first":
        pb[: max(1, n // 2)] = True
    elif kind == "last":
        pb[-max(1, n // 2):] = True
    elif kind == "all":
        pb[:] = True
    elif kind == "one":
        pb[rng.integers(n)] = True
    elif kind == "most":
        pb = rng.random(n) < 0.8
    free = ~pb
    A = system(rng, n, free)
    B, k = rhs(rng, n)
    pv = values(rng, (n,), pick(rng, ["normal", "int", "sparse", "uniform"]))
    if rng.random() < 0.3:
        pv = pv * pb
    A0, ru, cu = A, np.ones(n), np.ones(n)
    how, A, B, ru, cu = units(rng, A, B)
    pv = pv / cu
    m.note(A=A, B=B, pb=pb, pv=pv)
    m.feat("prescribed:" + kind, f"n{n}", f"rhs{k}", "units:" + how)
    # reference
    B2 = B.reshape(n, -1)
    X0 = np.zeros(B2.shape)
    X0[pb] = pv[pb][:, None]
    if free.any():
        X0[free] = np.linalg.solve(A0[np.ix_(free, free)], (B2 / ru[:, None])[free] - A0[np.ix_(free, pb)] @ (X0 * cu[:, None])[pb])
        X0[free] /= cu[free][:, None]
    R0 = A @ X0 - B2
    R0[free] = 0.0
    c = np.linalg.cond(A0[np.ix_(free, free)]) if free.any() else 1.0
    # size of each equation in its own units
    s = np.abs(A0).max() * (np.abs(X0 * cu[:, None]).max() + 1) * n + np.abs(B2 / ru[:, None]).max()
    fr = Frozen(A=A, B=B, pb=pb, pv=pv)
    inplace = rng.random() < 0.3
    for method in METHODS[1:]:
        a, b = (A.copy(), B.copy()) if inplace else (A, B)
        X, R = linsolve(a, b, method=method, presc_bool=pb, presc_val=pv, inplace=bool(inplace))
        m.ok(X.size == B.size and R.size == B.size, "number of unknowns and residuals", method=method)
        X, R = X.reshape(B2.shape), R.reshape(B2.shape)
        m.equal(X[pb], np.repeat(pv[pb][:, None], B2.shape[1], axis=1), "prescribed unknowns take exactly their value", method=method)
        m.close(X * cu[:, None], X0 * cu[:, None], "solution with prescribed unknowns", rtol=1e-9 * c + 1e-8, atol=1e-9, method=method)
        m.equal(R[free], np.zeros_like(R[free]), "no residual where nothing is prescribed", method=method)
        m.close(R / ru[:, None], R0 / ru[:, None], "residuals", rtol=1e-7, atol=1e-7, scale=s, method=method)
        m.close((A @ X - B2 - R) / ru[:, None], np.zeros_like(R), "the residuals close the system", rtol=1e-8, atol=1e-7, scale=s, method=method)
        fr.check(m)
    m.raises(AssertionError, lambda: linsolve(A, B, method="numpy", presc_bool=pb, presc_val=pv), "no prescribed values with numpy")


@scenario(quick=200, thorough=3000)
def singular(m, rng, i):
    n = int(pick(rng, [1, 2, 3, 4, 6]))
    A = rng.integers(-3, 4, size=(n, n)).astype(float)
    how = ["zero row", "zero column", "same rows", "zero"][i % 4]
    if n == 1:
        how = "zero"
    if how == "zero row":
        A[rng.integers(n)] = 0
    elif how == "zero column":
        A[:, rng.integers(n)] = 0
    elif how == "same rows":
        p, q = rng.permutation(n)[:2]
        A[p] = A[q]
    else:
        A[...] = 0
    B, k = rhs(rng, n)
    m.note(A=A, B=B)
    m.feat("singular:" + how)
    fr = Frozen(A=A, B=B)
    for method in METHODS:
        # LAPACK exchanges rows, and need not arrive at an exact zero; roundoff
        # may be amplified above the tolerance if a pivot is small
        if how == "same rows" and (method == "numpy" or small_pivots(A)):
            continue
        m.raises(np.linalg.LinAlgError, lambda: linsolve(A, B, method=method), "a singular system is reported", method=method)
        if method != "numpy":
            m.raises(np.linalg.LinAlgError, lambda: reduce(A, B.reshape(n, -1), method=method), "a singular system is reported by the reduction", method=method)
    fr.check(m)
    # the singular part may be prescribed away
    if how == "zero row" and n > 1:
        j = int(np.where(~A.any(axis=1))[0][0])
        pb = np.zeros(n, dtype=bool)
        pb[j] = True
        S = A[np.ix_(~pb, ~pb)]
        p, g = pivots(S)
        if np.abs(p).min() > 0.02 and g < 100:
            pv = rng.normal(size=n)
            X, R = linsolve(A, B, method=pick(rng, METHODS[1:]), presc_bool=pb, presc_val=pv)
            X, R = X.reshape(n, -1), R.reshape(n, -1)
            m.close(A @ X, B.reshape(n, -1) + R, "prescribed values regularize the system", atol=1e-7)
            m.equal(X[j], np.full(X.shape[1], pv[j]), "prescribed unknowns take exactly their value")
    # free unknowns that form a singular block
    if n >= 3:
        A = rng.normal(size=(n, n))
        pb = np.zeros(n, dtype=bool)
        pb[int(rng.integers(n))] = True
        f = np.where(~pb)[0]
        A[np.ix_([f[-1]], f)] = 0.0
        for method in METHODS[1:]:
            m.raises(np.linalg.LinAlgError, lambda: linsolve(A, np.ones(n), method=method, presc_bool=pb, presc_val=np.ones(n)), "a singular block of free unknowns is reported", method=method)
