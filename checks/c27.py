"""C27: predicates."""

import numpy as np
import sympy as sy

from mon.core import axes, grow, layout, pick, rotation, scenario, values

from sigmaepsilon.math import logical as A
from sigmaepsilon.math.linalg import logical as L
from sigmaepsilon.math.linalg import utils as LU


def yes(m, got, exp, what, **ctx):
    m.ok(np.ndim(got) == 0, what + " (a single answer)", got=got)
    m.ok(bool(got) == bool(exp), what, got=got, expected=exp, **ctx)
    m.feat(f"{what}: {bool(exp)}")


@scenario(quick=500, thorough=15000, modes=("py", "interp"))
def types(m, rng, i):
    nd = int(rng.integers(0, 4))
    shape = tuple(int(v) for v in rng.integers(0 if rng.random() < 0.2 else 1, 4, size=nd))
    dts = [np.float64, np.float32, np.float16, np.int64, np.int32, np.int16, np.int8, np.uint8, np.uint64, bool, complex, np.complex64, object, "U3"]
    dt = dts[i % len(dts)]
    a = np.zeros(shape, dtype=dt)
    m.note(dtype=str(dt), shape=shape)
    k = a.dtype.kind
    yes(m, A.isfloatarray(a), k == "f", "float array", dtype=str(dt))
    yes(m, A.isintegerarray(a), k in "iu", "integer array", dtype=str(dt))
    yes(m, A.isintarray(a), k in "iu", "int array", dtype=str(dt))
    yes(m, A.isboolarray(a), k == "b", "boolean array", dtype=str(dt))
    yes(m, A.is1dfloatarray(a), k == "f" and nd == 1, "1d float array", dtype=str(dt))
    yes(m, A.is1dintarray(a), k in "iu" and nd == 1, "1d integer array", dtype=str(dt))
    v = pick(rng, [None, False, True, 0, 1, "", "a", [], [0], 0.0, np.zeros(2)])
    yes(m, A.is_none_or_false(v), v is None or v is False, "none or false", value=v)
    yes(m, L.is_hermitian(np.zeros((int(rng.integers(1, 4)),) * int(rng.integers(1, 5)))), True, "equal sizes")
    sh = [3] * int(rng.integers(2, 5))
    sh[int(rng.integers(len(sh)))] = int(pick(rng, [1, 2, 4]))
    yes(m, L.is_hermitian(np.zeros(sh)), False, "equal sizes", shape=sh)


@scenario(quick=500, thorough=15000, modes=("py", "interp"))
def symmetric(m, rng, i):
    n = grow(rng, rng.integers(1, 8), 60)
    a = values(rng, (n, n), pick(rng, ["normal", "int", "uniform", "sparse", "neg"]))
    a = a + a.T
    if i % 2 and n > 1:
        r, c = rng.permutation(n)[:2]
        d = float(pick(rng, [1e-6, 1e-3, 1.0, -1e-5, -2.0]))
        a[r, c] += d
        exp = False
    else:
        d, exp = 0.0, True
        if rng.random() < 0.3 and n > 1:
            a[0, -1] += 1e-10
    a = layout(rng, a)
    m.note(a=np.array(a))
    yes(m, A.issymmetric(a), exp, "symmetric", perturbation=d)
    if n > 1:
        b = np.array(a + a.T) / 2
        e = float(pick(rng, [1e-3, 0.5, 2.0]))
        r, c = rng.permutation(n)[:2]
        b[r, c] += e
        # the norm of the difference is sqrt(2)*e
        yes(m, A.issymmetric(b, tol=1.5 * e), True, "symmetric within the tolerance", perturbation=e)
        yes(m, A.issymmetric(b, tol=1.3 * e), False, "symmetric within the tolerance", perturbation=e)
        yes(m, A.issymmetric(b, 1.5 * e), True, "symmetric within the tolerance", perturbation=e)
        k = values(rng, (n, n), "normal")
        k = k - k.T
        if np.abs(k).max() > 1e-3:
            yes(m, A.issymmetric(k), False, "symmetric", skew=True)


@scenario(quick=500, thorough=15000, modes=("py", "interp"))
def definite(m, rng, i):
    n = grow(rng, rng.integers(1, 8), 40)
    q = rotation(rng, n) if n > 1 else np.eye(1)
    w = rng.uniform(0.1, 5.0, size=n) * 10.0 ** float(pick(rng, [0, 0, 2, -2]))
    kind = pick(rng, ["pos", "pos", "indef", "neg", "one negative"])
    if kind == "indef":
        w = w * np.where(rng.random(n) < 0.5, 1, -1)
    elif kind == "neg":
        w = -w
    elif kind == "one negative":
        w[int(rng.integers(n))] *= -float(pick(rng, [1, 0.01]))
    a = (q * w) @ q.T
    a = (a + a.T) / 2
    exp = bool((w > 0).all())
    m.note(a=a)
    m.feat(kind)
    for f in (A.isposdef, L.is_pos_def):
        yes(m, f(a), exp, "positive definite", eigenvalues=w)
    for f in (A.ispossemidef, L.is_pos_semidef):
        yes(m, f(a), exp, "positive semidefinite", eigenvalues=w)
    # exactly singular
    d = rng.integers(0, 4, size=n).astype(float)
    d[int(rng.integers(n))] = 0.0
    D = np.diag(d)
    for f in (A.ispossemidef, L.is_pos_semidef):
        yes(m, f(D), True, "positive semidefinite", diagonal=d)
    for f in (A.isposdef, L.is_pos_def):
        yes(m, f(D), False, "positive definite", diagonal=d)
    if n > 1:
        d2 = d.copy()
        d2[-1] = -1.0
        for f in (A.ispossemidef, L.is_pos_semidef):
            yes(m, f(np.diag(d2)), False, "positive semidefinite", diagonal=d2)
    lo = float(w.min())
    yes(m, A.isposdef(a, tol=lo - 0.05 * abs(lo)), True, "positive definite with a margin", eigenvalues=w)
    yes(m, A.isposdef(a, tol=lo + 0.05 * abs(lo)), False, "positive definite with a margin", eigenvalues=w)
    # the generators keep their promise
    np.random.seed(int(rng.integers(2**31)))
    p = LU.random_posdef_matrix(n) if rng.random() < 0.5 else LU.random_posdef_matrix(n, 0.1)
    m.ok(p.shape == (n, n) and np.allclose(p, p.T), "random matrix is symmetric")
    m.ok(np.linalg.eigvalsh((p + p.T) / 2).min() > -1e-9, "random positive definite matrix", got=np.linalg.eigvalsh(p))
    p = LU.random_pos_semidef_matrix(n)
    m.ok(np.allclose(p, p.T) and np.linalg.eigvalsh((p + p.T) / 2).min() > -1e-9, "random positive semidefinite matrix")


@scenario(quick=500, thorough=15000, modes=("py", "interp"))
def rank(m, rng, i):
    r, c = int(rng.integers(1, 7)), int(rng.integers(1, 7))
    k = int(rng.integers(0, min(r, c) + 1)) if i % 2 else min(r, c)
    # integer factors of full rank: the rank is exactly k
    for _ in range(100):
        P = rng.integers(-3, 4, size=(r, k))
        Q = rng.integers(-3, 4, size=(k, c))
        M = P @ Q
        S = sy.Matrix(r, c, [int(v) for v in M.ravel()])
        if S.rank() == k:
            sv = np.linalg.svd(M.astype(float), compute_uv=False)
            if k == 0 or sv[k - 1] > 1e-3 * sv[0]:
                break
    else:
        return
    a = pick(rng, [M, M.astype(float), layout(rng, M.astype(float), "F"), M.astype(float) * float(pick(rng, [1e-3, 1e3]))])
    m.note(a=np.array(a), rank=k)
    m.feat(f"deficit{min(r, c) - k}", "wide" if c > r else "tall" if r > c else "square")
    yes(m, L.has_full_row_rank(a), k == r, "full row rank", rank=k, shape=(r, c))
    yes(m, L.has_full_column_rank(a), k == c, "full column rank", rank=k, shape=(r, c))
    yes(m, L.has_full_rank(a), k == min(r, c), "full rank", rank=k, shape=(r, c))
    yes(m, L.has_full_rank(S), k == min(r, c), "full rank of a symbolic matrix", rank=k, shape=(r, c))
    if k and rng.random() < 0.3:
        # badly scaled, but still far from being rank deficient numerically
        u = np.linalg.qr(rng.normal(size=(r, r)))[0][:, :k]
        v = np.linalg.qr(rng.normal(size=(c, c)))[0][:, :k]
        b = (u * np.geomspace(1.0, float(pick(rng, [1e-5, 1e-9])), k)) @ v.T
        m.feat("ill conditioned")
        yes(m, L.has_full_row_rank(b), k == r, "full row rank", rank=k, matrix=b)
        yes(m, L.has_full_column_rank(b), k == c, "full column rank", rank=k, matrix=b)
        yes(m, L.has_full_rank(b), k == min(r, c), "full rank", rank=k, matrix=b)
    if r <= c and (M != 0).any(axis=1).all():
        f = M / np.linalg.norm(M, axis=1)[:, None]
        dg = np.linalg.det(f @ f.T)
        if k < r or dg > 1e-6:
            yes(m, L.is_independent_frame(f, tol=1e-9), k == r, "independent vectors", rank=k)
    if r <= c and k == r and np.linalg.cond(M.astype(float)) < 100:
        yes(m, L.is_independent_frame(M.astype(float)), True, "independent vectors", rank=k)
        z = M.astype(float)
        z[int(rng.integers(r))] = 0.0
        yes(m, L.is_independent_frame(z), False, "independent vectors", zero_row=True)


@scenario(quick=500, thorough=15000, modes=("py", "interp"))
def frames(m, rng, i):
    d = int(rng.integers(1, 6))
    kind = pick(rng, ["eye", "rot", "refl", "perm", "rect", "leftrect", "skew", "unit skew", "one off", "cancel", "balanced"]) if d > 1 else pick(rng, ["eye", "rect"])
    if kind == "unit skew":
        for _ in range(200):
            a = rng.normal(size=(d, d))
            a = a / np.linalg.norm(a, axis=1)[:, None]
            g = a @ a.T - np.eye(d)
            if np.abs(g).max() > 0.02:
                break
        rect, norm = False, True
    elif kind == "cancel" and d > 2:
        # scalar products that sum to zero
        g = np.eye(d)
        t = float(rng.uniform(0.05, 0.6))
        p, q, r = rng.permutation(d)[:3]
        g[p, q] = g[q, p] = t
        g[p, r] = g[r, p] = -t
        a = np.linalg.cholesky(g) @ rotation(rng, d)
        rect, norm = False, True
        if rng.random() < 0.5:
            a, norm = a * 3.0, False
    elif kind == "balanced":
        # lengths that are one on average, in one sense or the other
        n = rng.uniform(0.3, 1.7, d)
        how = pick(rng, ["mean", "square", "product", "first", "last", "sum"])
        if how == "mean":
            n = n / n.mean()
        elif how == "square":
            n = n / np.sqrt((n**2).mean())
        elif how == "product":
            n = n / np.exp(np.log(n).mean())
        elif how == "first":
            n[0] = 1.0
        elif how == "last":
            n[-1] = 1.0
        else:
            n = n / np.sqrt((n**2).sum())
        if np.abs(n - 1).max() < 1e-2:
            return
        a = rotation(rng, d)
        rect, norm = True, False
        if rng.random() < 0.4:
            a[0] = a[0] + 0.5 * a[1]
            a[0] /= np.linalg.norm(a[0])
            rect = False
        a = a * n[:, None]
        m.feat("balanced " + how)
    elif kind in ("one off", "cancel"):
        # a rotation with one vector tilted towards another one, or stretched
        a = rotation(rng, d)
        t = float(pick(rng, [0.01, 0.1, 1.0, -0.3]))
        r, c = rng.permutation(d)[:2]
        if rng.random() < 0.5:
            a[r] = a[r] + t * a[c]
            rect, norm = False, False
            if abs(np.sqrt(1 + t * t) - 1) < 1e-4:
                norm = None
            if rng.random() < 0.5:
                a[r] /= np.linalg.norm(a[r])
                norm = True
            m.feat("tilted")
        else:
            a[r] *= 1 + t
            rect, norm = True, t == 0
            if abs(1 + t) < 1e-6:
                return
            m.feat("stretched")
    else:
        a = axes(rng, d, kind)
        g = a @ a.T
        off = np.abs(g - np.diag(np.diag(g))).max() if d > 1 else 0.0
        n = np.linalg.norm(a, axis=1)
        rect = True if off < 1e-12 * np.abs(g).max() else (False if off > 1e-3 * np.trace(g) else None)
        norm = True if np.abs(n - 1).max() < 1e-12 else (False if np.abs(n - 1).max() > 1e-3 else None)
    if kind != "eye" and rng.random() < 0.3:
        # base vectors in other units, all together or one by one
        u = 2.0 ** rng.integers(-40, 41, size=(d, 1) if rng.random() < 0.5 else (1, 1))
        a = a * u
        norm = False if np.abs(np.log2(np.linalg.norm(a, axis=1))).max() > 0.5 else None
        m.feat("units")
    a = layout(rng, a)
    m.note(a=np.array(a), kind=kind)
    m.feat(kind)
    if rect is not None:
        yes(m, L.is_rectangular_frame(a), rect, "rectangular frame", axes=np.array(a))
    if norm is not None:
        yes(m, L.is_normal_frame(a), norm, "normal frame", axes=np.array(a))
    if rect is not None and norm is not None:
        yes(m, L.is_orthonormal_frame(a), rect and norm, "orthonormal frame", axes=np.array(a))
    unit = np.array(a) / np.linalg.norm(np.array(a), axis=1, keepdims=True)
    yes(m, L.is_independent_frame(a), True, "independent frame") if abs(np.linalg.det(unit)) > 1e-3 and np.abs(np.log2(np.abs(np.linalg.det(np.array(a))))) < 300 else None
    m.raises(AssertionError, lambda: L.is_rectangular_frame(np.array(a)[0]), "not a matrix")
    if d > 1:
        m.raises(AssertionError, lambda: L.is_rectangular_frame(np.array(a)[:-1]), "not a square matrix")


@scenario(quick=600, thorough=20000, modes=("py", "interp"))
def closeness(m, rng, i):
    nd = int(rng.integers(0, 4))
    shape = tuple(int(v) for v in rng.integers(1, 5, size=nd))
    # dyadic numbers: differences and products are exact
    x2 = rng.integers(-64, 65, size=shape).astype(float) / 8
    atol = float(2.0 ** -int(rng.integers(2, 20)))
    rtol = float(2.0 ** -int(rng.integers(2, 20)))
    k = rng.integers(0, 7, size=shape)
    u = 2.0**-30
    lim_a = np.full(shape, atol)
    lim_r = np.abs(rtol * x2)
    # at the limits, just inside, just outside, equal, far
    delta = np.choose(k, [0 * x2, lim_a, lim_r, np.maximum(lim_a - u, 0), lim_a + u, np.maximum(lim_r - u, 0), lim_r + u])
    far = rng.random(shape) < 0.05
    delta = np.where(far, 3.0, delta)
    x1 = x2 + delta * np.where(rng.random(shape) < 0.5, 1, -1)
    diff = np.abs(x1 - x2)
    mode = pick(rng, ["both", "abs", "rel", "default"])
    kw = {"both": dict(atol=atol, rtol=rtol), "abs": dict(atol=atol, rtol=None), "rel": dict(atol=None, rtol=rtol), "default": {}}[mode]
    m.note(x1=x1, x2=x2, kw=kw)
    m.feat(mode, f"nd{nd}")
    a, r = kw.get("atol", 1e-8), kw.get("rtol", 1e-5)
    ref = np.ones(shape, dtype=bool)
    if a is not None:
        ref &= diff <= a
    if r is not None:
        ref &= diff <= np.abs(r * x2)
    y1, y2 = x1, x2
    if nd:
        y1, y2 = layout(rng, x1), layout(rng, x2)
    else:
        y1, y2 = float(x1), float(x2)
    got = A.isclose(y1, y2, **kw)
    if np.size(ref) == 1 and nd <= 1:
        m.ok(np.ndim(got) == 0, "a single answer for a single pair", got=got)
        m.ok(bool(got) == bool(ref.ravel()[0]), "closeness of numbers", got=got, x1=x1, x2=x2, kw=kw)
    else:
        m.equal(got, ref, "closeness, element by element", x1=x1, x2=x2, kw=kw)
        m.ok(np.asarray(got).dtype == bool, "the answer is boolean")
    al = A.allclose(y1, y2, **kw)
    m.ok(np.ndim(al) == 0 and bool(al) == bool(ref.all()), "closeness of all elements", got=al, expected=ref)
    m.feat("allclose %s" % bool(ref.all()))
    yes(m, A.allclose(y2, y2, **kw), bool(a is not None or r is not None), "equal arrays are close")
    if nd:
        # against a number, and lists
        s = float(x2.ravel()[0])
        d = np.abs(x1 - s)
        refs = np.ones(shape, dtype=bool)
        if a is not None:
            refs &= d <= a
        if r is not None:
            refs &= d <= abs(r * s)
        g = A.isclose(y1, s, **kw)
        m.equal(np.ravel(g), refs.ravel(), "closeness to a number")
        m.equal(np.ravel(A.isclose(x1.tolist(), x2.tolist(), **kw)), ref.ravel(), "closeness of lists")
        if x1.size > 1:
            # the relative difference is measured against the second array
            ref2 = np.ones(shape, dtype=bool)
            if a is not None:
                ref2 &= diff <= a
            if r is not None:
                ref2 &= diff <= np.abs(r * x1)
            exact = np.abs(diff - np.abs((r or 0) * x1)) > 1e-12
            g = np.asarray(A.isclose(y2, y1, **kw)).reshape(shape)
            m.equal(g[exact], ref2[exact], "the second array is the reference")
    bad = pick(rng, [dict(atol=0.0), dict(rtol=0.0), dict(atol=-1e-3), dict(rtol=-1e-3), dict(atol=None, rtol=None), dict(atol=-1.0, rtol=None), dict(atol=None, rtol=0)])
    m.raises(AssertionError, lambda: A.isclose(y1, y2, **bad), "invalid tolerances are rejected", kw=bad)
    m.raises(AssertionError, lambda: A.allclose(y1, y2, **bad), "invalid tolerances are rejected", kw=bad)
    if nd:
        z = np.array(x1)
        z.flat[int(rng.integers(z.size))] = np.nan
        m.ok(not bool(A.allclose(z, x2, **kw)), "nan is not close to anything")
