"""C26: array utilities."""

import numpy as np

from mon.core import grow, layout, pick, scenario, values

from sigmaepsilon.math import utils as U
from sigmaepsilon.math.hist import bin_centers, histogram

DT = [np.float64, np.int64]


def arr(rng, shape, dt=None, lay=None):
    dt = dt or pick(rng, DT)
    a = values(rng, shape) if dt in (np.float64, np.float32) else rng.integers(-9, 10, size=shape)
    a = a.astype(dt)
    if a.ndim == 0:
        return a
    return layout(rng, a, lay or pick(rng, ["C", "strided"]))


def size(rng, lo=1):
    return grow(rng, pick(rng, [lo, 1, 2, 3, 4, 7, 13, 40]), 300, 0.03)


@scenario(quick=300, thorough=8000, modes=("py", "interp"))
def dimensions(m, rng, i):
    nd = int(rng.integers(0, 6))
    shape = tuple(int(v) for v in rng.integers(0 if rng.random() < 0.2 else 1, 4, size=nd))
    dt = pick(rng, [np.float64, np.int64, np.float32, np.int32, bool, complex])
    a = (values(rng, shape) * 3).astype(dt)
    if nd:
        a = layout(rng, a)
    n = int(rng.integers(1, 7))
    front, back = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    m.note(a=a, n=n, front=front, back=back)
    src = a
    kind = pick(rng, ["array", "array", "list", "tuple", "number"])
    if kind == "list":
        src = a.tolist()
    elif kind == "tuple" and nd:
        src = tuple(a.tolist())
    elif kind == "number":
        src = pick(rng, [3, 2.5, True, np.float64(1.5), np.int32(4)])
        a = np.array([src])
    ref = np.array(src)
    if ref.ndim == 0 and not isinstance(src, np.ndarray):
        ref = np.array([src])
    nd = ref.ndim
    m.feat(kind, f"nd{nd}", str(ref.dtype))

    def expected(n, front, back):
        if nd >= n:
            return ref
        if front and not back:
            return ref.reshape((1,) * (n - nd) + ref.shape)
        return ref.reshape(ref.shape + (1,) * (n - nd))

    def chk(got, exp, what):
        m.ok(isinstance(got, np.ndarray), what + " (type)")
        m.equal(got, exp, what)
        m.ok(got.dtype == exp.dtype, what + " (dtype)", got=got.dtype, expected=exp.dtype)

    keep = np.array(a, copy=True)
    chk(U.atleastnd(src, n, front=front, back=back), expected(n, front, back), "at least n dimensions")
    chk(U.atleastnd(src, n), expected(n, True, False), "at least n dimensions, default")
    chk(U.atleastnd(src), expected(2, True, False), "at least two dimensions, default")
    chk(U.atleast2d(src, front=front, back=back), expected(2, front, back), "at least two dimensions")
    chk(U.atleast3d(src, front=front, back=back), expected(3, front, back), "at least three dimensions")
    chk(U.atleast4d(src, front=front, back=back), expected(4, front, back), "at least four dimensions")
    chk(U.atleast2d(src), expected(2, True, False), "at least two dimensions by default")
    chk(U.atleast3d(src), expected(3, True, False), "at least three dimensions by default")
    chk(U.atleast4d(src), expected(4, True, False), "at least four dimensions by default")
    chk(U.atleast1d(src), ref if nd else ref.reshape(1), "at least one dimension")
    if nd <= 2:
        chk(U.matrixform(src), ref if nd == 2 else ref.reshape(ref.size, 1), "matrix form")
    else:
        m.raises(AssertionError, lambda: U.matrixform(src), "not a matrix")
    if kind == "array":
        c = U.ascont(src)
        m.equal(c, np.atleast_1d(keep), "contiguous copy of the same values")
        m.ok(c.flags.c_contiguous, "contiguous")
        m.equal(src, keep, "the input is left as it was")


@scenario(quick=260, thorough=6000)
def repeating(m, rng, i):
    dt = DT[i % 2]
    N = grow(rng, pick(rng, [0, 1, 2, 3, 5, 8, 17, 100]), 3000, 0.04)
    a = arr(rng, (size(rng), size(rng)), dt)
    if a.size * N > 2000000:
        N = 7
    keep = np.array(a, copy=True)
    m.note(a=keep, N=N)
    m.feat(f"N{N}", dt.__name__)

    def chk(got, exp, what, dtype=None):
        m.equal(got, exp, what)
        m.ok(got.dtype == (dtype or dt), what + " (dtype)", got=got.dtype)

    chk(U.repeat(a, N), np.stack([keep] * N) if N else np.zeros((0,) + a.shape, dtype=dt), "repeated matrices")
    chk(U.repeat(a), keep[None], "repeated once by default")
    if a.size * N * N < 400000:
        b = np.zeros((a.shape[0] * N, a.shape[1] * N), dtype=dt)
        for k in range(N):
            b[k * a.shape[0] : (k + 1) * a.shape[0], k * a.shape[1] : (k + 1) * a.shape[1]] = keep
        chk(U.repeat_diagonal_2d(a, N), b, "block diagonal matrix")
    v = arr(rng, (size(rng, 0),), dt)
    kv = np.array(v, copy=True)
    chk(U.repeat1d(v, N), np.tile(kv, N), "repeated vector")
    chk(U.repeat1d(v), kv, "vector repeated once by default")
    ddt = pick(rng, DT)
    da = arr(rng, a.shape, ddt, "C")
    dv = arr(rng, v.shape, ddt, "C")
    r = np.result_type(dt, ddt)
    sc = max(1.0, float(np.abs(keep).max(initial=0)), N * float(np.abs(da).max(initial=0)))
    got = U.tile(a, da, N)
    m.close(got, np.stack([keep + k * da for k in range(N)]) if N else np.zeros((0,) + a.shape), "tiled matrices", rtol=1e-14, atol=0, scale=sc)
    m.ok(got.dtype == r, "type of the tiled matrices", got=got.dtype, expected=r)
    got = U.tile1d(v, dv, N)
    sc = max(1.0, float(np.abs(kv).max(initial=0)), N * float(np.abs(dv).max(initial=0)))
    m.close(got, np.concatenate([kv + k * dv for k in range(N)]) if N else np.zeros(0), "tiled vector", rtol=1e-14, atol=0, scale=sc)
    m.close(U.tile(a, da), keep[None].astype(r), "tiled once by default", rtol=1e-15)
    chk(U.flatten2d(a), keep.flatten(), "flattened row by row by default")
    chk(U.flatten2d(a, order="C"), keep.flatten(), "flattened row by row")
    chk(U.flatten2d(a, order="F"), keep.flatten(order="F"), "flattened column by column")
    m.equal(a, keep, "the input is left as it was")
    m.equal(v, kv, "the input is left as it was")
    mi, ma = U.minmax(a)
    m.ok(mi == keep.min() and ma == keep.max(), "smallest and largest value", got=(mi, ma))


@scenario(quick=300, thorough=8000)
def ranges(m, rng, i):
    n = size(rng, 0)
    dt = DT[int(rng.integers(2))]
    s0 = float(pick(rng, [0, -1, 2, rng.normal(), 1e3]))
    s1 = s0 + float(pick(rng, [1, 2, 0.5, -3, rng.uniform(0.1, 5)]))
    t0 = float(pick(rng, [0, -1, 1, rng.normal(), -1e3]))
    t1 = t0 + float(pick(rng, [1, 2, 0.5, -3, 0, rng.uniform(0.1, 5)]))
    if rng.random() < 0.3:
        s0, t0 = round(s0), round(t0)
        s1, t1 = s0 + int(pick(rng, [1, 2, 3, -1])), t0 + int(pick(rng, [1, 3, -2]))
        m.feat("integer ranges")
    v = (s0 + (s1 - s0) * rng.uniform(-0.5, 1.5, size=n)).astype(dt)
    v = layout(rng, v, pick(rng, ["C", "strided"])) if n else v
    keep = np.array(v, copy=True)
    m.note(v=keep, source=(s0, s1), target=(t0, t1))
    src = pick(rng, [[s0, s1], (s0, s1), np.array([s0, s1])])
    tgt = pick(rng, [[t0, t1], (t0, t1), np.array([t0, t1])])
    sc = max(abs(s0), abs(s1)) * abs((t1 - t0) / (s1 - s0)) + abs(t0) + abs(t1) + 1

    def ref(v, s0, s1, t0, t1):
        return t0 + (v - s0) * ((t1 - t0) / (s1 - s0))

    m.close(U.to_range_1d(v, source=src, target=tgt), ref(keep.astype(float), s0, s1, t0, t1), "affine map between the ranges", rtol=1e-12, scale=sc)
    ends = np.array([s0, s1], dtype=float)
    m.close(U.to_range_1d(ends, source=src, target=tgt), np.array([t0, t1], dtype=float), "the ends are mapped to the ends", rtol=1e-12, scale=sc)
    m.close(U.to_range_1d(v, source=src), ref(keep.astype(float), s0, s1, -1.0, 1.0), "the target is [-1, 1] by default", rtol=1e-12, scale=sc + 2 * max(abs(s0), abs(s1)) / abs(s1 - s0))
    m.close(U.to_range_1d(v, source=None, target=tgt), ref(keep.astype(float), 0.0, 1.0, t0, t1), "the source is [0, 1] by default", rtol=1e-12, scale=sc + np.abs(keep).max(initial=0) * abs(t1 - t0))
    if n:
        x = float(keep[0])
        m.close(np.ravel(U.to_range_1d(x, source=src, target=tgt)), np.ravel(ref(x, s0, s1, t0, t1)), "a single value", rtol=1e-12, scale=sc)
    if t0 != t1:
        back = U.to_range_1d(U.to_range_1d(v, source=src, target=tgt), source=tgt, target=src)
        k = abs((s1 - s0) / (t1 - t0))
        m.close(back, keep.astype(float), "there and back", rtol=1e-11, scale=1 + np.abs(keep).max(initial=0) + k * (abs(t0) + abs(t1) + 1) + abs(s0))
    m.equal(v, keep, "the input is left as it was")
    # clipping
    lo = float(rng.normal())
    hi = lo + float(pick(rng, [0.0, 0.3, 2.0]))
    a = values(rng, (n,), pick(rng, ["normal", "uniform", "neg", "big"]))
    if n > 2:
        a[0], a[1] = lo, hi
    ref_c = np.minimum(np.maximum(a, lo), hi)
    m.equal(U.clip1d(a.copy(), lo, hi), ref_c, "clipped to the interval", lo=lo, hi=hi)
    ia = rng.integers(-9, 10, size=n)
    il, ih = -int(rng.integers(0, 5)), int(rng.integers(0, 5))
    m.equal(U.clip1d(ia.copy(), il, ih), np.clip(ia, il, ih), "integers clipped to the interval")


@scenario(quick=200, thorough=5000)
def histograms(m, rng, i):
    n = grow(rng, pick(rng, [1, 2, 5, 30, 500]), 20000, 0.04)
    d = values(rng, (n,), pick(rng, ["normal", "uniform", "int", "neg", "mixed"]))
    if rng.random() < 0.2:
        d = d.reshape(1, -1)
    if rng.random() < 0.2:
        d = d.astype(int)
    kind = pick(rng, ["count", "count", "edges", "edges", "int edges"])
    if kind == "count":
        bins = int(pick(rng, [1, 2, 3, 7, 20]))
    else:
        k = int(rng.integers(2, 9))
        bins = np.cumsum(rng.uniform(0.1, 1.5, size=k)) - 3
        if kind == "int edges":
            bins = np.unique(rng.integers(-8, 9, size=k + 1))
            if len(bins) < 2:
                bins = np.array([-1, 2])
        if rng.random() < 0.5 and d.size > 1:
            # values exactly on the edges
            d = d.astype(float)
            d.flat[0] = bins[-1]
            d.flat[1] = bins[0]
        if rng.random() < 0.5:
            bins = list(bins)
    m.note(d=d, bins=bins)
    m.feat(kind)
    h, e = histogram(d, bins, return_edges=True)
    h, e = np.asarray(h), np.asarray(e, dtype=float)
    if kind == "count":
        m.ok(len(e) == bins + 1, "number of bins")
        m.ok(h.sum() == d.size, "every value is counted once", got=h.sum(), expected=d.size)
        if d.min() < d.max():
            m.close(e, np.linspace(d.min(), d.max(), bins + 1), "edges of the bins", rtol=1e-12)
    else:
        m.equal(e, np.asarray(bins, dtype=float), "edges of the bins")
    f = np.ravel(d)
    ref = np.array([np.sum((f >= e[k]) & ((f < e[k + 1]) if k < len(e) - 2 else (f <= e[k + 1]))) for k in range(len(e) - 1)])
    if kind != "count":
        m.equal(h, ref, "every value in range is counted once, in its bin")
    h2, c = histogram(d, bins)
    m.equal(h2, h, "counts with the centres")
    m.close(c, (e[1:] + e[:-1]) / 2, "centres of the bins", rtol=1e-14)
    m.close(bin_centers(np.asarray(e)), (e[1:] + e[:-1]) / 2, "centres", rtol=1e-14)
    ie = np.unique(rng.integers(-20, 20, size=6))
    m.close(bin_centers(ie), (ie[1:] + ie[:-1]) / 2, "centres of integer edges", rtol=1e-14)
    w = np.abs(values(rng, d.shape, "uniform"))
    hw, cw = histogram(d, bins, weights=w)
    m.close(np.asarray(hw).sum(), w[(d >= e[0]) & (d <= e[-1])].sum(), "weights are counted once", rtol=1e-12)
    if kind == "count":
        lo, hi = float(f.min()) - 1, float(f.max()) + 0.5
        hr, er = histogram(d, bins, range=(lo, hi), return_edges=True)
        m.close(er, np.linspace(lo, hi, bins + 1), "range of the histogram", rtol=1e-12)
        m.ok(hr.sum() == d.size, "values in the range")


@scenario(quick=120, thorough=2000, modes=("py", "interp"))
def others(m, rng, i):
    shape = tuple(int(v) for v in rng.integers(1, 5, size=int(rng.integers(1, 4))))
    b = rng.random(shape) < 0.5
    t, f = float(rng.normal()), float(rng.normal())
    m.note(b=b, t=t, f=f)
    src = b if rng.random() < 0.5 else b.tolist()
    got = U.bool_to_float(src, t, f)
    m.equal(got, np.where(b, t, f), "booleans as floats")
    m.equal(U.bool_to_float(src), b.astype(float), "booleans as zeros and ones")
    m.equal(U.bool_to_float(src, true=t), np.where(b, t, 0.0), "only true is given")
    m.ok(got.dtype == float, "type of the floats")
    for dt, ref in ((np.float32, np.int32), (np.float64, np.int64), ("float32", np.int32), (np.dtype(float), np.int64), (float, np.int64)):
        m.ok(U.itype_of_ftype(dt) == ref, "integer type of the float type", dtype=dt)
    np.random.seed(int(rng.integers(2**31)))
    ch = [int(v) for v in rng.permutation(9)[: int(rng.integers(1, 5))]]
    got = U.choice(ch, shape)
    m.ok(got.shape == shape and np.isin(got, ch).all(), "choices are taken from the choices", got=got)
    p = np.zeros(len(ch))
    k = int(rng.integers(len(ch)))
    p[k] = 1.0
    m.equal(U.choice(ch, shape, p), np.full(shape, ch[k]), "certain choice")
    if len(ch) > 1:
        p = np.zeros(len(ch))
        p[:2] = (0.25, 0.75)
        got = U.choice(ch, (2000,), p)
        m.ok(np.isin(got, ch[:2]).all(), "impossible choices are not taken")
        m.ok(abs(np.mean(got == ch[1]) - 0.75) < 0.08, "probabilities of the choices", got=np.mean(got == ch[1]))
        u = U.choice(ch, 3000)
        m.ok(all(abs(np.mean(u == c) - 1 / len(ch)) < 0.08 for c in ch), "uniform by default")
