"""C17: least squares fits."""

import numpy as np

from mon.core import Frozen, HarnessProblem, grow, pick, scenario

from sigmaepsilon.math.approx import (
    ConstantWeightFunction,
    CubicWeightFunction,
    SingularWeightFunction,
    least_squares,
    moving_least_squares,
    weighted_least_squares,
)
from sigmaepsilon.math.approx.functions import MLSWeightFunction


class Gauss(MLSWeightFunction):
    """A weight function as a user would write it."""

    def value(self, x):
        d = np.subtract(self.core, x)
        return float(np.exp(-(d @ d)))

    def gradient(self, x):
        d = np.subtract(self.core, x)
        return -2 * d * self.value(x)

    def Hessian(self, x):
        d = np.subtract(self.core, x)
        return (4 * np.outer(d, d) - 2 * np.eye(len(d))) * self.value(x)


# -- reference -----------------------------------------------------------------
def exponents(dim, deg):
    """All monomials up to a total degree."""
    out = []
    for e in np.ndindex(*(deg + 1,) * dim):
        if sum(e) <= deg:
            out.append(e)
    return out


def basis(X, deg, der=()):
    """The monomials (differentiated by the listed coordinates) at the points."""
    X = np.asarray(X, dtype=float)
    n, dim = X.shape
    cols = []
    for e in exponents(dim, deg):
        e = list(e)
        c = 1.0
        for k in der:
            c *= e[k]
            e[k] -= 1
            if c == 0:
                break
        if c == 0:
            cols.append(np.zeros(n))
        else:
            cols.append(c * np.prod([X[:, k] ** e[k] for k in range(dim)], axis=0))
    return np.array(cols).T


def derivatives(dim):
    """The derivatives in the order they are returned."""
    first = [(k,) for k in range(dim)]
    second = [(k, k) for k in range(dim)]
    mixed = {1: [], 2: [(0, 1)], 3: [(0, 1), (0, 2), (1, 2)]}[dim]
    return [()] + first + second + mixed


def cloud(rng, dim, deg, weights=None, extra=None):
    k = len(exponents(dim, deg))
    for _ in range(200):
        n = k + (grow(rng, rng.integers(0, 15), 600) if extra is None else extra)
        kind = pick(rng, ["uniform", "normal", "grid", "shifted", "scaled"])
        if kind == "uniform":
            X = rng.random((n, dim))
        elif kind == "normal":
            X = rng.normal(size=(n, dim))
        elif kind == "grid":
            X = rng.integers(-3, 4, (n, dim)).astype(float)
        elif kind == "shifted":
            X = rng.normal(size=(n, dim)) + rng.uniform(-3, 3, dim)
        else:
            X = rng.normal(size=(n, dim)) * 3.0
        W = np.ones(n) if weights is None else weights(X)
        if np.any(W < 0):
            continue
        P = basis(X, deg) * np.sqrt(W)[:, None]
        c = np.linalg.cond(P)
        if c < 300:
            return X, W, c, kind
    raise HarnessProblem("no cloud of points")


def data(rng, n, P, i):
    """Values at the points, and the polynomial if they are from one."""
    r = pick(rng, [None, 1, 2, 4])
    kind = ["noise", "polynomial", "int", "constant"][i % 4]
    shape = (n, 1 if r is None else r)
    C = None
    if kind == "noise":
        V = rng.normal(size=shape)
    elif kind == "int":
        V = rng.integers(-9, 10, shape)
    elif kind == "constant":
        C = np.zeros((P.shape[1], shape[1]))
        C[0] = rng.normal(size=shape[1])
        V = P @ C
    else:
        C = rng.normal(size=(P.shape[1], shape[1]))
        V = P @ C
    return V, (V[:, 0] if r is None else V), C, f"{kind} x{r}"


def query(rng, X):
    lo, hi = X.min(axis=0), X.max(axis=0)
    if rng.random() < 0.2:
        return X[int(rng.integers(len(X)))].copy()
    return lo + rng.random(X.shape[1]) * (hi - lo)


def as_points(X):
    return X[:, 0].copy() if X.shape[1] == 1 else X


def as_query(rng, x):
    if len(x) == 1:
        return float(x[0])
    return x if rng.random() < 0.7 else x.tolist()


@scenario(quick=260, thorough=5000)
def unweighted(m, rng, i):
    dim, deg = 1 + i % 3, 1 + (i // 3) % 2
    order = int(pick(rng, [0, 1, 2, 2]))
    X, W, c, pk = cloud(rng, dim, deg)
    P = basis(X, deg)
    V, Vin, C, dk = data(rng, len(X), P, int(rng.integers(4)))
    m.note(X=X, V=V, deg=deg, order=order)
    m.feat(f"dim{dim} deg{deg} order{order}", "data:" + dk, "points:" + pk)
    if C is None:
        C = np.linalg.lstsq(P, V, rcond=None)[0]
        exact = False
    else:
        exact = True
    pts = as_points(X)
    kw = {}
    if deg != 1 or rng.random() < 0.5:
        kw["deg"] = deg
    if order != 2 or rng.random() < 0.5:
        kw["order"] = order
    fr = Frozen(pts=pts, Vin=Vin)
    how = pick(rng, ["least_squares", "no weight", "constant weight", "lists"] + ["integer points"] * 3 * bool(np.all(X == np.round(X))))
    m.feat("via " + how)
    if how == "least_squares":
        f = least_squares(pts, Vin, **kw)
    elif how == "no weight":
        f = weighted_least_squares(pts, Vin, **kw)
    elif how == "integer points":
        f = least_squares(pts.astype(pick(rng, [np.int64, np.int32])), Vin, **kw)
    elif how == "constant weight":
        f = weighted_least_squares(pts, Vin, w=ConstantWeightFunction(dim=dim, value=float(pick(rng, [1.0, 3.0, 0.25]))), **kw)
    else:
        f = least_squares(pts.tolist(), Vin.tolist(), **kw)
    xs = [query(rng, X) for _ in range(3)]
    tol = 1e-13 * c**2 * 50 + 1e-9
    s = np.abs(C).max() * max(1.0, np.abs(basis(X, deg)).max()) + np.abs(V).max()
    ders = derivatives(dim)
    results = []
    for x in xs + xs[:1]:
        res = f(as_query(rng, x))
        results.append(res)
        m.ok(len(res) == len(ders), "number of outputs", got=len(res))
        for got, d in zip(res, ders):
            if len(d) > order:
                m.ok(got is None, "nothing is returned above the requested order", d=d)
                continue
            ref = (basis(x[None], deg, d) @ C)[0]
            name = "derivative of the fitted polynomial" if d else ("polynomials are reproduced" if exact else "value of the best fit")
            m.close(got, ref, name, rtol=tol, atol=1e-9, scale=s, derivative=d, x=x)
    m.equal(results[-1][0], results[0][0], "the result does not depend on other queries")
    # the minimum: perturbing the fit never lowers the error
    r0 = ((np.array([f(as_query(rng, x))[0] for x in X]) - V) ** 2).sum()
    e0 = ((P @ C - V) ** 2).sum()
    m.ok(r0 <= e0 * (1 + 1e-6) + 1e-8 * s**2, "the sum of squared errors is the least possible", got=r0, best=e0)
    fr.check(m)
    m.raises(ValueError, lambda: least_squares(pts, Vin[:-1]), "different number of points and values")


@scenario(quick=240, thorough=5000)
def weighted(m, rng, i):
    dim, deg = 1 + i % 3, 1 + (i // 3) % 2
    kinds = ["constant box", "singular", "gauss"] + (["cubic"] if dim < 3 else [])
    wk = kinds[(i // 6) % len(kinds)]
    order = int(pick(rng, [0, 1, 2, 2]))
    core = rng.normal(size=dim) * 0.5
    sd = rng.uniform(2.0, 6.0, dim)
    value = float(pick(rng, [1.0, 2.0]))
    eps = float(pick(rng, [0.3, 1.0, 0.1]))

    def ref_w(X):
        D = core - X
        if wk == "constant box":
            return np.where(np.all(np.abs(D) <= sd, axis=1), value, 0.0)
        if wk == "singular":
            return 1 / ((D**2).sum(1) + eps**2)
        if wk == "gauss":
            return np.exp(-(D**2).sum(1))
        r = np.abs(D) / sd
        b = np.where(r <= 0.5, 2 / 3 - 4 * r**2 + 4 * r**3, np.where(r <= 1, 4 / 3 * (1 - r) ** 3, 0.0))
        return b.prod(1)

    X, W, c, pk = cloud(rng, dim, deg, ref_w, extra=grow(rng, rng.integers(2, 20), 500))
    P = basis(X, deg)
    V, Vin, C, dk = data(rng, len(X), P, int(rng.integers(4)))
    exact = C is not None
    if C is None:
        q = np.sqrt(W)[:, None]
        C = np.linalg.lstsq(P * q, V * q, rcond=None)[0]
    m.note(X=X, V=V, deg=deg, core=core, sd=sd, wk=wk)
    m.feat(f"dim{dim} deg{deg}", "weight:" + wk, "data:" + dk)
    w = {
        "constant box": lambda: ConstantWeightFunction(core=core, sd=sd, value=value),
        "singular": lambda: SingularWeightFunction(core=core, eps=eps),
        "gauss": lambda: Gauss(core=core),
        "cubic": lambda: CubicWeightFunction(core=core, supportdomain=sd),
    }[wk]()
    pts = as_points(X)
    fr = Frozen(pts=pts, Vin=Vin, core=core, sd=sd)
    f = weighted_least_squares(pts, Vin, w=w, deg=deg, order=order)
    tol = 1e-13 * c**2 * 50 + 1e-9
    s = np.abs(C).max() * max(1.0, np.abs(P).max()) + np.abs(V).max()
    for _ in range(4):
        x = query(rng, X)
        got = f(as_query(rng, x))[0]
        m.close(got, (basis(x[None], deg) @ C)[0], "polynomials are reproduced" if exact else "value of the best weighted fit",
                rtol=tol, atol=1e-9, scale=s, x=x)
        # the weight may move on afterwards
        w.core = rng.normal(size=dim)
    R = np.array([f(as_query(rng, x))[0] for x in X])
    r0 = (W[:, None] * (R - V) ** 2).sum()
    e0 = (W[:, None] * (P @ C - V) ** 2).sum()
    m.ok(r0 <= e0 * (1 + 1e-6) + 1e-8 * s**2, "the weighted sum of squared errors is the least possible", got=r0, best=e0)
    fr.check(m)
    if wk == "gauss":
        m.raises(AssertionError, lambda: weighted_least_squares(np.zeros((20, dim + 1)), np.zeros(20), w=w), "weight of another dimension")


@scenario(quick=120, thorough=2000)
def units(m, rng, i):
    """The same points in other units: the fit is the same one.

    The units are powers of two, within what the normal equations can take in double precision.
    """
    dim, deg = 1 + i % 3, 1 + (i // 3) % 2
    for _ in range(200):
        X, W, c, pk = cloud(rng, dim, deg)
        if pk != "shifted" and c < 40:
            break
    else:
        raise HarnessProblem("no cloud of points")
    e = 12 if deg == 1 else 6
    h = 2.0 ** float(rng.integers(-e, e + 1))
    P = basis(X, deg)
    V, Vin, C, dk = data(rng, len(X), P, int(rng.integers(4)))
    if C is None:
        C = np.linalg.lstsq(P, V, rcond=None)[0]
    m.note(X=X, V=V, deg=deg, unit=h)
    m.feat(f"dim{dim} deg{deg}", "tiny" if h < 1 else "large")
    pts = as_points(X * h)
    how = ["least_squares", "constant weight", "gauss"][(i // 6) % 3]
    if how == "least_squares":
        f = least_squares(pts, Vin, deg=deg)
    elif how == "constant weight":
        f = weighted_least_squares(pts, Vin, w=ConstantWeightFunction(dim=dim, value=2.0), deg=deg)
    else:

        class W(Gauss):
            def value(self, x):
                d = np.subtract(self.core, x) / h
                return float(np.exp(-0.1 * (d @ d)))

        q = np.sqrt(np.exp(-0.1 * (X**2).sum(1)))[:, None]
        if np.linalg.cond(P * q) > 40:
            return
        if "noise" in dk or "int" in dk:
            C = np.linalg.lstsq(P * q, V * q, rcond=None)[0]
        f = weighted_least_squares(pts, Vin, w=W(core=np.zeros(dim)), deg=deg)
    m.feat("via " + how)
    s = np.abs(C).max() * max(1.0, np.abs(P).max()) + np.abs(V).max()
    for _ in range(3):
        x = query(rng, X)
        for got, d in zip(f(as_query(rng, x * h)), derivatives(dim)):
            if len(d) and how == "gauss":
                continue
            ref = (basis(x[None], deg, d) @ C)[0]
            m.close(np.asarray(got) * h ** len(d), ref, "a fit in other units", rtol=1e-4, atol=0.0, scale=s, derivative=d, x=x, unit=h)
