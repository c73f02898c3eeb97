"""C19: Lagrange shape functions."""

import numpy as np
import sympy as sy

from mon.core import HarnessProblem, pick, scenario

from sigmaepsilon.deepdict import DeepDict
from sigmaepsilon.math.approx import approx_Lagrange_1d, gen_Lagrange_1d


def nodes(rng, N, kind):
    for _ in range(500):
        if kind == "float":
            x = np.sort(rng.uniform(-2, 2, N)) if rng.random() < 0.5 else rng.uniform(-2, 2, N)
            x = [float(v) for v in x]
        elif kind == "int":
            x = [int(v) for v in rng.permutation(np.arange(-3, 5))[:N]]
        elif kind == "array":
            x = rng.permutation(np.arange(-4, 4) * 0.5 + float(pick(rng, [0.0, 0.25])))[:N]
        elif kind == "rational":
            x = [sy.Rational(int(v), 3) for v in rng.permutation(np.arange(-4, 6))[:N]]
        else:
            lo = float(rng.uniform(-1, 1))
            x = [float(v) for v in np.linspace(lo, lo + rng.uniform(0.8, 3), N)]
        v = np.array([float(t) for t in x])
        gaps = np.abs(v[:, None] - v[None]) + np.eye(N) * 9
        if gaps.min() > 0.15:
            return x, v
    raise HarnessProblem("nodes")


def lagrange(v, k, t, der=0):
    """The k-th Lagrange polynomial (or a derivative) at t, from its definition."""
    p = np.poly1d([1.0])
    for j, a in enumerate(v):
        if j != k:
            p = p * np.poly1d([1.0, -a]) / (v[k] - a)
    return np.polyval(p.deriv(der) if der else p, t)


def judge(m, L, keys, v, xsym, rng, lambdified, tag):
    N = len(v)
    X = sy.Symbol(xsym)
    cond = np.linalg.cond(np.vander(v))
    lo, hi = v.min() - 0.3, v.max() + 0.3
    ts = np.concatenate([rng.uniform(lo, hi, 3), v])
    scale = max(np.abs(lagrange(v, k, ts, d)).max() for k in range(N) for d in range(4)) + 1
    tol = 1e-14 * cond * 100 + 1e-10
    m.ok(set(L.keys()) == set(keys), "one function per node", how=tag, got=list(L.keys()))
    total = np.zeros(len(ts))
    for k, key in enumerate(keys):
        for d in range(4):
            e = sy.sympify(L[key][d])
            m.ok(e.free_symbols <= {X}, "functions of the requested variable", how=tag, got=e)
            p = sy.Poly(e, X)
            m.ok(p.degree() <= max(N - 1 - d, 0), "polynomials of the matching degree", how=tag, got=e)
            got = np.array([float(e.subs(X, t)) for t in ts])
            ref = lagrange(v, k, ts, d)
            m.close(got, ref, "shape function" if d == 0 else f"derivative {d} of a shape function", rtol=tol, scale=scale, how=tag, node=k)
            if d == 0:
                total += got
                unit = np.zeros(N)
                unit[k] = 1
                m.close(got[3:], unit, "one at its own node and zero at the others", rtol=tol, scale=scale, how=tag, node=k)
            else:
                # the derivative of what was generated
                de = sy.diff(sy.sympify(L[key][d - 1]), X)
                m.close(got, [float(de.subs(X, t)) for t in ts], "derivatives of the generated functions", rtol=tol, scale=scale, how=tag)
            if lambdified:
                f = L[key]["fnc"][d]
                m.close([float(f(t)) for t in ts], got, "numeric and symbolic forms agree", rtol=tol, scale=scale, how=tag)
                if p.degree() > 0:
                    m.close(f(ts), got, "numeric form for arrays", rtol=tol, scale=scale, how=tag)
    m.close(total, np.ones(len(ts)), "the sum is one everywhere", rtol=tol, scale=scale, how=tag)


@scenario(quick=66, thorough=1200, modes=("py", "interp"))
def generate(m, rng, i):
    kind = ["float", "int", "array", "rational", "range", "N", "i"][i % 7]
    N = [2, 3, 4, 2, 3, 5][(i // 2) % 6] if i % 11 else 6
    kw = {}
    if kind == "N":
        v = np.linspace(-1, 1, N)
        kw["N"] = N
    elif kind == "i":
        v = np.linspace(-1, 1, N)
        kw["i"] = [int(k) for k in rng.permutation(20)[:N]]
    else:
        x, v = nodes(rng, N, kind)
        kw["x"] = x
        if rng.random() < 0.4:
            kw["i"] = [int(k) for k in rng.permutation(20)[:N]]
        if rng.random() < 0.3:
            kw["N"] = N
    xsym = "x"
    if rng.random() < 0.4:
        kw["xsym"] = xsym = pick(rng, ["r", "xi", "s"])
    if rng.random() < 0.3:
        kw["fsym"] = "N"
    lam = bool(rng.random() < 0.6)
    if lam:
        kw["lambdify"] = True
    out = None
    if rng.random() < 0.2:
        kw["out"] = out = DeepDict()
    m.note(v=v, kw=str(kw))
    m.feat("nodes:" + kind, f"N{N}")
    L = gen_Lagrange_1d(**kw)
    if out is not None:
        m.ok(L is out, "the dictionary passed in is used")
    judge(m, L, kw.get("i", list(range(1, N + 1))), v, xsym, rng, lam, kind)


@scenario(quick=12, thorough=60, modes=("py", "interp"))
def symbolic(m, rng, i):
    N = 2 if i % 3 else 3
    inds = [int(k) for k in rng.permutation(9)[:N]] if i % 2 else None
    xsym = pick(rng, ["x", "r"])
    kw = {"i": inds} if inds else {"N": N}
    L = gen_Lagrange_1d(sym=True, xsym=xsym, **kw)
    keys = inds or list(range(1, N + 1))
    v = nodes(rng, N, "float")[1]
    m.note(v=v, N=N, xsym=xsym, inds=inds)
    m.feat(f"symbolic N{N}")
    S = {}
    at = {sy.Symbol(f"{xsym}_{k + 1}"): a for k, a in enumerate(v)}
    for key in keys:
        S[key] = {d: sy.sympify(L[key][d]).subs(at) for d in range(4)}
    judge(m, S, keys, v, xsym, rng, False, "symbolic")
    m.raises(AssertionError, lambda: gen_Lagrange_1d(N=2, sym=True, lambdify=True), "symbolic functions have no numeric form")
    m.raises(AssertionError, lambda: gen_Lagrange_1d(), "nothing is given")


@scenario(quick=60, thorough=1200, modes=("py", "interp"))
def approx(m, rng, i):
    kind = ["float", "int", "array", "rational", "range"][i % 5]
    N = [2, 3, 4, 2, 3, 5][i % 6]
    x, v = nodes(rng, N, kind)
    deg = int(rng.integers(0, N))
    c = rng.normal(size=deg + 1)
    y = np.polyval(c, v)
    how = pick(rng, ["list", "array", "data"])
    if how == "data":
        y = rng.integers(-5, 6, N).astype(float)
    vals = y if how == "array" else y.tolist()
    m.note(v=v, y=y, kind=kind)
    m.feat("approx:" + kind, f"N{N}", f"degree{deg}", how)
    f = approx_Lagrange_1d(x, vals, lambdify=True)
    e = approx_Lagrange_1d(x, vals)
    ts = np.concatenate([v, rng.uniform(v.min() - 0.3, v.max() + 0.3, 4)])
    ref = sum(lagrange(v, k, ts) * y[k] for k in range(N))
    s = np.abs(y).max() * max(np.abs(lagrange(v, k, ts)).max() for k in range(N)) * N + 1
    tol = 1e-14 * np.linalg.cond(np.vander(v)) * 100 + 1e-10
    got = np.array([float(f(t)) for t in ts])
    m.close(got[:N], y, "the values at the nodes are interpolated", rtol=tol, scale=s)
    m.close(got, ref, "interpolation", rtol=tol, scale=s)
    if how != "data":
        m.close(got, np.polyval(c, ts), "polynomials are reproduced", rtol=tol, scale=s)
    m.close([float(sy.sympify(e).subs("x", t)) for t in ts], got, "symbolic and numeric forms agree", rtol=tol, scale=s)
    # a symbolic end
    Ls = sy.Symbol("L", positive=True)
    g = approx_Lagrange_1d([0, Ls], [-1, 1])
    a = float(rng.uniform(0.5, 4))
    t = float(rng.uniform(0, a))
    m.close(float(g.subs({Ls: a, sy.Symbol("x"): t})), 2 * t / a - 1, "mapping with a symbolic length", atol=1e-10)
    m.raises(AssertionError, lambda: approx_Lagrange_1d(x, list(vals) + [1.0]), "different number of points and values")
