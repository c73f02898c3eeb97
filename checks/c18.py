"""C18: moving least squares and weight functions."""

import numpy as np

from mon.core import Frozen, HarnessProblem, core_scenarios_reset, grow, pick, scenario

from sigmaepsilon.math.approx import (
    ConstantWeightFunction,
    CubicWeightFunction,
    SingularWeightFunction,
    moving_least_squares,
)

from c17 import Gauss, as_points, as_query, basis, data, derivatives, exponents, query

core_scenarios_reset(__name__)


# -- reference: value, gradient and Hessian with respect to the core ------------
def ref_weight(kind, core, x, sd=None, eps=None, value=1.0):
    d = np.asarray(core, float) - np.asarray(x, float)
    n = len(d)
    if kind == "constant":
        v = value if sd is None or np.all(np.abs(d) <= sd) else 0.0
        return v, np.zeros(n), np.zeros((n, n))
    if kind == "singular":
        q = d @ d + eps**2
        return 1 / q, -2 * d / q**2, 8 * np.outer(d, d) / q**3 - 2 * np.eye(n) / q**2
    if kind == "gauss":
        v = np.exp(-(d @ d))
        return v, -2 * d * v, (4 * np.outer(d, d) - 2 * np.eye(n)) * v
    b, g, h = np.zeros(n), np.zeros(n), np.zeros(n)
    for k in range(n):
        r, s = abs(d[k]) / sd[k], np.sign(d[k]) / sd[k]
        if r <= 0.5:
            b[k], g[k], h[k] = 2 / 3 - 4 * r**2 + 4 * r**3, (-8 * r + 12 * r**2) * s, (-8 + 24 * r) / sd[k] ** 2
        elif r <= 1:
            b[k], g[k], h[k] = 4 / 3 * (1 - r) ** 3, -4 * (1 - r) ** 2 * s, 8 * (1 - r) / sd[k] ** 2
    G, H = np.zeros(n), np.zeros((n, n))
    for k in range(n):
        G[k] = g[k] * np.prod(np.delete(b, k))
        for j in range(n):
            H[k, j] = h[k] * np.prod(np.delete(b, k)) if j == k else g[k] * g[j] * np.prod(np.delete(b, [k, j]))
    return b.prod(), G, H


def ref_mls(X, V, x, deg, weight):
    """Value and derivatives of the moving fit, by differentiating its coefficients."""
    dim = X.shape[1]
    W = [weight(x, xi) for xi in X]
    w = np.array([t[0] for t in W])
    g = np.array([t[1] for t in W])
    h = np.array([t[2] for t in W])
    P = basis(X, deg)

    def A(c):
        return (P * c[:, None]).T @ P

    def R(c):
        return (P * c[:, None]).T @ V

    M = A(w)
    cond = np.linalg.cond(M)
    c0 = np.linalg.solve(M, R(w))
    c1 = [np.linalg.solve(M, R(g[:, k]) - A(g[:, k]) @ c0) for k in range(dim)]
    out = {(): (basis(x[None], deg) @ c0)[0]}
    for k in range(dim):
        out[(k,)] = (basis(x[None], deg, (k,)) @ c0 + basis(x[None], deg) @ c1[k])[0]
    for k in range(dim):
        for j in range(k, dim):
            c2 = np.linalg.solve(M, R(h[:, k, j]) - A(h[:, k, j]) @ c0 - A(g[:, k]) @ c1[j] - A(g[:, j]) @ c1[k])
            out[(k, j)] = (
                basis(x[None], deg, (k, j)) @ c0
                + basis(x[None], deg, (k,)) @ c1[j]
                + basis(x[None], deg, (j,)) @ c1[k]
                + basis(x[None], deg) @ c2
            )[0]
    return out, cond


def make(kind, core, sd, eps, value):
    if kind == "constant":
        return ConstantWeightFunction(core=core, sd=sd, value=value)
    if kind == "singular":
        return SingularWeightFunction(core=core, eps=eps)
    if kind == "gauss":
        return Gauss(core=core)
    return CubicWeightFunction(core=core, supportdomain=sd)


@scenario(quick=600, thorough=12000, modes=("py",))
def weights(m, rng, i):
    kind = ["constant", "singular", "cubic", "cubic"][i % 4]
    dim = int(pick(rng, [1, 2] if kind == "cubic" else [1, 2, 3]))
    core = pick(rng, [np.zeros(dim), rng.normal(size=dim), rng.normal(size=dim) * 50, rng.integers(-3, 4, dim).astype(float)])
    sd = pick(rng, [rng.uniform(0.1, 3.0, dim), np.full(dim, 0.5), rng.uniform(0.01, 0.1, dim), rng.uniform(10, 1000, dim)])
    eps = float(pick(rng, [1e-5, 1e-2, 0.5, 2.0]))
    value = float(pick(rng, [1.0, 0.0, 2.5]))
    if kind == "singular" or (kind == "constant" and rng.random() < 0.3):
        sd = None
    m.note(kind=kind, core=core, sd=sd, eps=eps, value=value)
    m.feat(f"weight:{kind} dim{dim}")
    form = pick(rng, [lambda a: a, lambda a: a.tolist(), lambda a: tuple(a.tolist())])
    if kind == "constant" and sd is None:
        w = ConstantWeightFunction(dim=dim, value=value)
        w.core = form(core)
    elif rng.random() < 0.3:
        # set afterwards
        w = make(kind, form(rng.normal(size=dim)), None if sd is None else form(np.ones(dim)), eps, value)
        w.core = form(core)
        if sd is not None:
            w.supportdomain = form(sd)
    elif dim == 1 and rng.random() < 0.4:
        c = float(core[0])
        w = make(kind, int(c) if c == int(c) and rng.random() < 0.5 else c, None if sd is None else form(sd), eps, value)
        m.feat("scalar core")
    else:
        w = make(kind, form(core), None if sd is None else form(sd), eps, value)
    m.ok(w.dimension == dim, "dimension", got=w.dimension)
    m.close(np.asarray(w.core, float), core, "core")
    width = {"constant": 1.0 if sd is None else sd, "singular": eps}.get(kind, sd)
    pts = [core.copy(), core + width * rng.uniform(-1, 1, dim), core + width * rng.uniform(-1.6, 1.6, dim), core + width * rng.uniform(-0.4, 0.4, dim)]
    if kind == "cubic":
        for f in (0.5, 1.0, -0.5, -1.0, 1.5, -1.5):
            x = core + width * rng.uniform(-0.9, 0.9, dim)
            k = int(rng.integers(dim))
            x[k] = core[k] + f * width[k]
            pts.append(x)
        x = core + width * rng.uniform(-0.9, 0.9, dim)
        k = int(rng.integers(dim))
        x[k] = core[k]
        pts.append(x)
    for x in pts:
        v0, g0, h0 = ref_weight(kind, core, x, sd=sd, eps=eps, value=value)
        # next to the end of the support roundoff decides
        if sd is not None and kind == "constant" and np.any(np.abs(np.abs(core - x) / sd - 1) < 1e-9):
            continue
        X = x if rng.random() < 0.7 else x.tolist()
        if dim == 1 and rng.random() < 0.4:
            X = float(x[0])
        fx = Frozen(x=x, core=core)
        v, g, h = w(X), w.gradient(X), w.Hessian(X)
        rel = 1e-9 if kind != "singular" else 1e-9 + 1e-14 * np.abs(core).max() / eps
        at = 1e-9 * (1 + (np.abs(core).max() / np.min(sd) if sd is not None else 0) * 1e-4)
        s1 = None if sd is None else 1.0 / np.min(sd)
        m.close(v, v0, "value of the weight", rtol=rel, atol=at, x=x)
        m.ok(v >= -1e-15, "weights are not negative", v=v, x=x)
        m.close(np.asarray(g, float), g0, "gradient of the weight", rtol=rel * 10, atol=at, scale=s1 if s1 else None, x=x)
        m.close(np.asarray(h, float), h0, "Hessian of the weight", rtol=rel * 10, atol=at, scale=s1**2 if s1 else None, x=x)
        m.close(w.value(X), v0, "value", rtol=rel, atol=at)
        m.close(w.f(X), v0, "f", rtol=rel, atol=at)
        m.close(w.g(X), g0, "g", rtol=rel * 10, atol=at, scale=s1 if s1 else None)
        m.close(w.G(X), h0, "G", rtol=rel * 10, atol=at, scale=s1**2 if s1 else None)
        mirror = 2 * core - x
        m.close(w(mirror), v0, "weights are symmetric about the core", rtol=rel * 10, atol=at * 10, x=x)
        if sd is not None and kind in ("constant", "cubic") and np.any(np.abs(core - x) > sd * (1 + 1e-9)):
            m.ok(v == 0 and not np.any(g) and not np.any(h), "weights vanish outside of the support", x=x, got=(v, g, h))
            m.feat("outside")
        fx.check(m)
    # derivatives against the values themselves, with respect to the core
    x = core + width * np.where(rng.random(dim) < 0.5, -1, 1) * rng.uniform(0.1, 0.4, dim)
    hstep = 1e-4 * np.broadcast_to(np.asarray(width, float), (dim,))
    if np.all(hstep / (np.abs(core) + 1e-300) > 1e-9):
        for k in range(dim):
            e = np.zeros(dim)
            e[k] = hstep[k]
            v = []
            for sgn in (1, -1):
                w.core = core + sgn * e
                v.append((w(x), np.asarray(w.gradient(x), float)))
            w.core = core
            sc = abs(w(x)) / hstep[k] * 1e-4
            m.close((v[0][0] - v[1][0]) / (2 * hstep[k]), np.asarray(w.gradient(x), float)[k], "gradient is the slope of the values", rtol=0, atol=1e-3 * sc + 1e-9)
            m.close((v[0][1] - v[1][1]) / (2 * hstep[k]), np.asarray(w.Hessian(x), float)[k], "Hessian is the slope of the gradients", rtol=0, atol=1e-3 * sc / hstep[k] * 1e-4 * 20 + 1e-9)
    m.raises(ValueError, lambda: make("cubic", [0.0], [1.0], 1, 1).__class__(core=[0.0], sd=[1.0], supportdomain=[1.0]), "support given twice")


@scenario(quick=360, thorough=7000)
def moving(m, rng, i):
    dim, deg = 1 + i % 3, 1 + (i // 3) % 2
    kinds = ["singular", "gauss", "constant", "none"] + (["cubic", "cubic"] if dim < 3 else [])
    kind = kinds[(i // 6) % len(kinds)]
    order = int(pick(rng, [0, 1, 2, 2, 2]))
    eps = float(pick(rng, [0.3, 1.0, 0.1]))
    sd = rng.uniform(1.5, 4.0, dim)
    k = len(exponents(dim, deg))
    n = k + grow(rng, rng.integers(2, 14), 200)

    def weight(core, x):
        if kind == "none":
            return ref_weight("constant", core, x)
        return ref_weight(kind, core, x, sd=None if kind in ("constant",) else sd, eps=eps, value=2.0)

    for _ in range(200):
        X = pick(rng, [rng.random((n, dim)) * 2, rng.normal(size=(n, dim)), rng.normal(size=(n, dim)) + 0.7])
        xs = [query(rng, X) for _ in range(3)]
        V, Vin, C, dk = data(rng, n, basis(X, deg), int(rng.integers(4)))
        refs = []
        for x in xs:
            wv = np.array([weight(x, xi)[0] for xi in X])
            if np.linalg.cond(basis(X, deg) * np.sqrt(wv)[:, None]) > 300:
                break
            refs.append(ref_mls(X, V, x, deg, weight))
        else:
            break
    else:
        raise HarnessProblem("no cloud of points")
    m.note(X=X, V=V, deg=deg, order=order, kind=kind, eps=eps, sd=sd, xs=np.array(xs))
    m.feat(f"dim{dim} deg{deg} order{order}", "weight:" + kind, "data:" + dk)
    w = None if kind == "none" else (ConstantWeightFunction(dim=dim, value=2.0) if kind == "constant" else make(kind, np.zeros(dim), sd, eps, 2.0))
    pts = as_points(X)
    fr = Frozen(pts=pts, Vin=Vin)
    kw = dict(deg=deg, order=order)
    given = (pts, Vin)
    if rng.random() < 0.25:
        given = (pts.tolist(), Vin.tolist())
        m.feat("points as lists")
    f = moving_least_squares(*given, **kw) if w is None else moving_least_squares(*given, w=w, **kw)
    # a second approximation shares the weight function
    f2 = moving_least_squares(pts, -Vin, w=w, **kw)
    ders = derivatives(dim)
    seq = [0, 1, 2, 0]
    first = None
    for t in seq:
        x, (ref, cond) = xs[t], refs[t]
        if rng.random() < 0.5:
            f2(as_query(rng, xs[int(rng.integers(3))]))
        fx = Frozen(x=x)
        res = f(as_query(rng, x))
        fx.check(m)
        m.ok(len(res) == len(ders), "number of outputs", got=len(res))
        if first is None:
            first = res
        for got, d in zip(res, ders):
            if len(d) > order:
                m.ok(got is None, "nothing is returned above the requested order", derivative=d)
                continue
            s = max(float(np.abs(v).max()) for v in ref.values()) + np.abs(V).max()
            name = ["value of the moving fit", "first derivative of the moving fit", "second derivative of the moving fit"][len(d)]
            m.close(got, ref[d], name, rtol=1e-13 * cond * 100 + 1e-8, atol=1e-9, scale=s, derivative=d, x=x)
            if C is not None:
                m.close(got, (basis(x[None], deg, d) @ C)[0], "polynomials are reproduced with their derivatives",
                        rtol=1e-13 * cond * 100 + 1e-8, atol=1e-8, scale=s + np.abs(C).max() * 10, derivative=d, x=x)
    m.equal(res[0], first[0], "the result does not depend on other queries")
    fr.check(m)
    # slopes of the values the library returns
    if order >= 1:
        x = xs[0]
        h = 1e-5
        for c in range(dim):
            e = np.zeros(dim)
            e[c] = h
            a, b = f(as_query(rng, x + e))[0], f(as_query(rng, x - e))[0]
            s = max(float(np.abs(v).max()) for v in refs[0][0].values()) + np.abs(V).max()
            m.close((a - b) / (2 * h), first[1 + c], "first derivatives are the slopes of the values", rtol=1e-13 * refs[0][1] * 1e6 + 1e-5, atol=1e-5, scale=s * (1 + 1 / eps**2 if kind == "singular" else 1))
