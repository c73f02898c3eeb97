"""C20: Gauss quadrature."""

import numpy as np

from mon.core import pick, scenario

from sigmaepsilon.math.numint import gauss_points, gauss_points_1d, gauss_points_2d, gauss_points_3d


def integral(k):
    """of x**k over [-1, 1]"""
    return 0.0 if k % 2 else 2.0 / (k + 1)


def judge(m, rng, ns, pos, w, tag):
    nd = len(ns)
    pos = np.asarray(pos)
    w = np.asarray(w)
    N = int(np.prod(ns))
    m.ok(pos.shape == (N, nd) and w.shape == (N,), "shapes", how=tag, got=(pos.shape, w.shape))
    m.ok(np.all(w > 0), "weights are positive", how=tag)
    m.close(w.sum(), 2.0**nd, "weights sum to the volume", how=tag)
    m.ok(np.all(np.abs(pos) < 1), "points lie inside", how=tag)
    for d in range(nd):
        m.ok(len(np.unique(np.round(pos[:, d], 9))) == ns[d], "number of points per direction", how=tag, direction=d, got=np.unique(np.round(pos[:, d], 9)), expected=ns[d])
    m.ok(len({tuple(p) for p in np.round(pos, 9).tolist()}) == N, "points are distinct", how=tag)
    m.close((pos * w[:, None]).sum(0), np.zeros(nd), "the rule is symmetric", how=tag, atol=1e-9)
    # monomials, up to the promised degree in every direction
    degs = [[2 * n - 1 for n in ns], [2 * n - 2 for n in ns], [0] * nd]
    for d in range(nd):
        e = [0] * nd
        e[d] = 2 * ns[d] - 2
        degs.append(e)
    degs += [[int(rng.integers(0, 2 * n)) for n in ns] for _ in range(6)]
    for e in degs:
        got = (w * np.prod([pos[:, d] ** e[d] for d in range(nd)], axis=0)).sum()
        m.close(got, np.prod([integral(k) for k in e]), "monomials are integrated exactly", how=tag, atol=1e-11, degree=e)
    # a full polynomial
    C = rng.normal(size=[2 * n for n in ns])
    v = {1: np.polynomial.polynomial.polyval, 2: np.polynomial.polynomial.polyval2d, 3: np.polynomial.polynomial.polyval3d}[nd](*pos.T, C)
    I = C
    for n in reversed(ns):
        I = I @ np.array([integral(k) for k in range(2 * n)])
    m.close((w * v).sum(), float(I), "polynomials are integrated exactly", how=tag, scale=np.abs(C).sum(), rtol=1e-11)


@scenario(quick=400, thorough=6000, modes=("py",))
def rules(m, rng, i):
    nd = 1 + i % 3
    if i // 3 < 12:
        ns = [i // 3 + 1] * nd if nd < 3 else [min(i // 3 + 1, 7)] * nd
    else:
        ns = [int(rng.integers(1, {1: 40, 2: 14, 3: 8}[nd])) for _ in range(nd)]
        if rng.random() < 0.3:
            ns[int(rng.integers(nd))] = 1
    m.note(ns=ns)
    m.feat(f"dim{nd}", "equal" if len(set(ns)) == 1 else "different")
    if nd == 1:
        q = gauss_points(ns[0])
        m.ok(np.shape(q) == (2, ns[0]), "shape of the 1d rule", got=np.shape(q))
        judge(m, rng, ns, np.asarray(q[0])[:, None], q[1], "1d")
        m.equal(gauss_points_1d(ns[0]), q, "both forms agree")
        m.ok(np.all(np.diff(q[0]) > 0), "points are ordered")
    else:
        pos, w = gauss_points(*ns)
        judge(m, rng, ns, pos, w, f"{nd}d")
        p2, w2 = {2: gauss_points_2d, 3: gauss_points_3d}[nd](tuple(ns))
        m.equal(p2, pos, "both forms agree")
        m.equal(w2, w, "both forms agree")
        # weights belong to their points
        ref = np.ones(len(w))
        for d in range(nd):
            x, wd = np.polynomial.legendre.leggauss(ns[d])
            k = np.abs(pos[:, d][:, None] - x[None]).argmin(1)
            m.close(pos[:, d], x[k], "points of the 1d rules", atol=1e-12)
            ref *= wd[k]
        m.close(w, ref, "every point has its own weight", atol=1e-12)
    m.raises(NotImplementedError, lambda: gauss_points(2, 2, 2, 2), "higher dimensions")
    # results belong to the caller, who is free to overwrite them
    if nd == 1:
        one = gauss_points(ns[0])
        ref = np.array(one)
        one *= 0.5
        m.equal(gauss_points(ns[0]), ref, "after the previous result was overwritten", how="1d")
        gauss_points_1d(ns[0])[...] = 7.0
        p2, w2 = gauss_points(ns[0], ns[0])
        judge(m, rng, [ns[0]] * 2, p2, w2, "after the 1d rule was overwritten")
    else:
        pos += 1
        w *= 3
        p2, w2 = gauss_points(*ns)
        judge(m, rng, ns, p2, w2, "after the previous result was overwritten")
        m.equal(gauss_points_1d(ns[0])[1], np.polynomial.legendre.leggauss(ns[0])[1], "the 1d rule after results were overwritten")
