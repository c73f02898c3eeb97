"""C02: the algebra of frames."""

import numpy as np

from mon.core import Frozen, axes, grow, pick, scenario, values
from mon.tens import FRAMES, ReferenceFrame, arr, frame_axes, mT, unit

from sigmaepsilon.math.linalg import CartesianFrame, Gram, Vector, dual_frame, rotation_matrix
from mon.tens import apply

RNAMES = ["reference", "rectangular", "cartesian"]


def mk(rng, d, cls=None, n=None):
    cls = cls or pick(rng, RNAMES)
    if n is not None:
        cls = "reference"
    ax = frame_axes(rng, cls, d, n, cond=30, lo=0.02, hi=50)
    return FRAMES[cls](np.array(ax)), ax, cls


def ref_dcm(S, T):
    """components in S -> components in T"""
    return np.linalg.inv(mT(T)) @ mT(S)


@scenario(quick=400, thorough=6000)
def pairs(m, rng, i):
    d = [3, 2, 3, 4, 5, 1][i % 6]
    S, aS, cS = mk(rng, d, RNAMES[i % 3])
    T, aT, cT = mk(rng, d, RNAMES[(i // 3) % 3])
    m.note(S=aS, T=aT, classes=(cS, cT))
    m.feat(f"{cS}->{cT}", f"dim{d}")
    fr = Frozen(S=S.axes, T=T.axes)
    D = arr(S.dcm(target=T))
    ref = ref_dcm(aS, aT)
    m.close(D, ref, "dcm(target)")
    m.close(arr(T.dcm(source=S)), ref, "dcm(source)")
    m.close(arr(S.show(T)), ref_dcm(aT, aS), "components of the base vectors in a target")
    m.close(arr(S.show()), aS, "components of the frame in the ambient frame")
    m.close(arr(S.dcm()), aS, "dcm from the ambient frame")
    m.close(arr(S.dcm(target=S)), np.eye(d), "dcm to itself is the identity")
    m.close(D @ arr(T.dcm(target=S)), np.eye(d), "swapped frames invert")
    U, aU, cU = mk(rng, d)
    m.close(arr(T.dcm(target=U)) @ D, arr(S.dcm(target=U)), "chains compose", scale=max(1, np.abs(D).max()) * 30)
    # the matrix maps the components of every vector
    v = values(rng, (d,), "normal")
    m.close(D @ v, apply(ref, v, 1), "maps components")
    fr.check(m)
    # dual
    G = S.dual()
    g = arr(G.axes)
    m.close(aS @ g.T, np.eye(d), "the dual base is biorthogonal")
    m.close(arr(G.dual().axes), aS, "the dual of the dual is the frame")
    m.ok(type(G) is type(S), "the dual is a frame of the same class")
    m.close(arr(S.Gram()), aS @ aS.T, "Gram matrix")
    m.close(arr(S.metric_tensor().array), aS @ aS.T, "components of the metric tensor")
    m.close(arr(G.Gram()), np.linalg.inv(aS @ aS.T), "Gram matrix of the dual")
    m.close(float(S.volume()), np.linalg.det(aS), "signed volume")
    m.close(arr(dual_frame(aS)), np.linalg.inv(aS).T, "dual_frame of an array")
    m.close(arr(Gram(aS)), aS @ aS.T, "Gram of an array")
    m.ok(bool(S.is_independent), "an independent frame is reported as such")
    fr.check(m)
    # transpose
    if cS != "rectangular":
        m.close(arr(S.T.axes), aS.T, "transpose")
        m.close(arr(S.transpose().axes), aS.T, "transpose")
    fr.check(m)
    m.equal(len(S), d, "len")
    m.close(np.asarray(S.minmax, dtype=float), [aS.min(), aS.max()], "minmax")


@scenario(quick=60, thorough=800)
def collections(m, rng, i):
    d = [3, 2, 4][i % 3]
    n = int([1, 2, 3, 5, 16, 130][i % 6])
    if n == 130 and d != 3:
        n = 9
    S, aS, _ = mk(rng, d, n=n)
    T, aT, _ = mk(rng, d, n=n)
    m.note(S=aS, T=aT)
    m.feat(f"n{n}")
    fr = Frozen(S=S.axes, T=T.axes)
    m.close(arr(S.dcm(target=T)), ref_dcm(aS, aT), "dcm(target) item by item")
    m.close(arr(T.dcm(source=S)), ref_dcm(aS, aT), "dcm(source) item by item")
    m.close(arr(S.show()), aS, "ambient components")
    m.close(arr(S.show(T)), ref_dcm(aT, aS), "components in a target")
    g = arr(S.dual().axes)
    m.close(aS @ mT(g), np.broadcast_to(np.eye(d), (n, d, d)), "duals are biorthogonal item by item")
    m.close(arr(S.Gram()), aS @ mT(aS), "Gram matrices item by item")
    m.close(np.asarray(S.volume()), np.linalg.det(aS), "signed volumes item by item")
    m.close(arr(S.T.axes), mT(aS), "transposed item by item")
    s, a1, _ = mk(rng, d, "reference")
    m.close(arr(S.dcm(target=s)), ref_dcm(aS, a1[None]), "from a collection to a single frame")
    m.close(arr(s.dcm(source=S)), ref_dcm(aS, a1[None]), "from a collection to a single frame (source)")
    m.close(arr(s.dcm(target=S)), ref_dcm(a1[None], aS), "from a single frame to a collection")
    m.close(arr(S.dcm(source=s)), ref_dcm(a1[None], aS), "from a single frame to a collection (source)")
    m.close(arr(S.show(s)), ref_dcm(a1[None], aS), "a collection shown in a single frame")
    fr.check(m)
    if d == 3:
        ang = [float(x) for x in rng.uniform(-3, 3, 3)]
        R = rotation_matrix("Space", ang, "XYZ")
        N = S.orient_new("Space", ang, "XYZ")
        m.close(arr(N.axes), aS @ R, "orient_new item by item")
        fr.check(m)
        S.orient("Space", ang, "XYZ")
        m.close(arr(S.axes), aS @ R, "orient item by item")


@scenario(quick=40, thorough=600)
def assumed(m, rng, i):
    """Collections of frames whose regularity is vouched for by the caller.

    What the library can't do with them is refused.
    """
    d = [3, 2, 4][i % 3]
    n = grow(rng, pick(rng, [1, 2, 3, 4, 7]), 300)
    cls = ["rectangular", "cartesian"][(i // 3) % 2]
    aS = np.stack([frame_axes(rng, cls, d, cond=30, lo=0.02, hi=50) for _ in range(n)])
    m.note(axes=aS, cls=cls)
    m.feat(cls, f"dim{d}", "items:" + ("dim" if n == d else "other"))
    S = FRAMES[cls](np.array(aS), **{"assume_" + cls: True})
    fr = Frozen(S=S.axes)
    s, a1, _ = mk(rng, d, "reference")
    T, aT, _ = mk(rng, d, n=n)
    x = values(rng, (n, d), "normal")
    v = Vector(np.array(x), frame=S)

    def may(fn, ref, text):
        try:
            r = arr(fn())
        except Exception as e:
            m.feat("refused:" + text)
            fr.check(m)
            return
        m.close(r, ref, text)
        fr.check(m)

    m.close(arr(S.Gram()), aS @ mT(aS), "Gram matrices of a collection of regular frames")
    m.close(np.asarray(S.volume()), np.linalg.det(aS), "signed volumes of a collection of regular frames")
    m.ok(bool(S.is_independent) and bool(S.is_rectangular), "regular frames are independent and rectangular")
    m.close(arr(S.show()), aS, "ambient components of a collection of regular frames")
    m.close(arr(S.dcm(target=T)), ref_dcm(aS, aT), "dcm from a collection of regular frames")
    m.close(arr(S.dcm(target=s)), ref_dcm(aS, a1[None]), "dcm from a collection of regular frames to a single frame")
    m.close(arr(v.show()), np.einsum("nij,ni->nj", aS, x), "vectors in a collection of regular frames")
    may(lambda: S.dual().axes, mT(np.linalg.inv(aS)), "duals of a collection of regular frames")
    may(lambda: T.dcm(target=S), ref_dcm(aT, aS), "dcm to a collection of regular frames")
    may(lambda: s.dcm(target=S), ref_dcm(a1[None], aS), "dcm to a collection of regular frames from a single one")
    may(lambda: S.show(s), ref_dcm(a1[None], aS), "regular frames shown in a single one")
    may(lambda: S.copy(deep=True).axes, aS, "deep copy of a collection of regular frames")
    may(lambda: S.metric_tensor().array, aS @ mT(aS), "metric tensors of a collection of regular frames")
    may(lambda: v.dual().array, np.einsum("nij,nj->ni", aS @ mT(aS), x), "dual vectors in a collection of regular frames")
    m.close(arr(v.show(T)), np.einsum("nij,nj->ni", ref_dcm(aS, aT), x), "vectors in a collection of regular frames shown in another")


def elementary(k, a):
    """Passive rotation about axis k."""
    c, s = np.cos(a), np.sin(a)
    R = np.eye(3)
    i, j = [(1, 2), (2, 0), (0, 1)][k]
    R[i, i] = c
    R[j, j] = c
    R[i, j] = s
    R[j, i] = -s
    return R


@scenario(quick=60, thorough=600, modes=("jit",))
def orientation(m, rng, i):
    cls = RNAMES[i % 3]
    F, ax, _ = mk(rng, 3, cls)
    ang = [float(x) for x in rng.uniform(-7, 7, 3)]
    order = pick(rng, ["XYZ", "ZYX", "YXZ", "ZXZ", "123", "321", 213])
    digits = [{"X": 0, "Y": 1, "Z": 2, "1": 0, "2": 1, "3": 2}[c] for c in str(order)]
    kind = ["Body", "Space"][(i // 3) % 2]
    mats = [elementary(k, a) for k, a in zip(digits, ang)]
    R = mats[2] @ mats[1] @ mats[0] if kind == "Body" else mats[0] @ mats[1] @ mats[2]
    m.note(axes=ax, angles=ang, order=str(order), kind=kind, cls=cls)
    fr = Frozen(F=F.axes)
    name = "N" + str(i)
    N = F.orient_new(kind, ang, order, name=name)
    m.close(arr(N.axes), ax @ R, "orient_new rotates the axes")
    m.ok(type(N) is type(F), "a rotated frame is of the same class")
    m.ok(N.name == name, "the name is set")
    fr.check(m)
    N2 = F.rotate(kind, ang, order, inplace=False)
    m.close(arr(N2.axes), ax @ R, "rotate(inplace=False) rotates the axes")
    m.close(arr(F.rotate_new(kind, ang, order).axes), ax @ R, "rotate_new rotates the axes")
    fr.check(m)
    P = F.orient_new()
    m.close(arr(P.axes), ax, "orient_new without arguments is a copy")
    if i % 2:
        r = F.orient(kind, ang, order)
    else:
        r = F.rotate(kind, ang, order)
    m.ok(r is F, "orient returns the frame")
    m.close(arr(F.axes), ax @ R, "orient rotates the axes")
    # lengths and angles are preserved
    m.close(arr(F.Gram()), ax @ ax.T, "rotations preserve the Gram matrix")
    m.close(float(F.volume()), np.linalg.det(ax), "rotations preserve the volume")


@scenario(quick=30, thorough=300, modes=("jit",))
def mutated(m, rng, i):
    """Everything follows the axes after a change."""
    d = [3, 2, 4][i % 3]
    cls = RNAMES[(i // 3) % 3]
    F, ax, _ = mk(rng, d, cls)
    T, aT, _ = mk(rng, d)
    for _ in range(4):
        # caches, if any, are filled
        F.dual(), F.Gram(), F.volume(), F.dcm(target=T), F.show(), np.array(F)
        new = frame_axes(rng, cls, d, cond=30, lo=0.02, hi=50)
        F.axes = new
        m.step(new.tolist())
        m.close(arr(F.dcm(target=T)), ref_dcm(new, aT), "dcm after a change")
        m.close(arr(T.dcm(target=F)), ref_dcm(aT, new), "dcm after a change")
        m.close(arr(F.dual().axes), np.linalg.inv(new).T, "dual after a change")
        m.close(arr(F.Gram()), new @ new.T, "Gram after a change")
        m.close(float(F.volume()), np.linalg.det(new), "volume after a change")
        m.close(arr(np.array(F)), new, "as an array after a change")
        m.close(arr(F.to_numpy()), new, "to_numpy after a change")
        m.close(arr(F[0]), new[0], "item after a change")


@scenario(quick=12, thorough=60, modes=("jit",))
def creation(m, rng, i):
    d = [2, 3, 4, 6][i % 4]
    cls = RNAMES[(i // 4) % 3]
    m.note(d=d, cls=cls)
    m.close(arr(FRAMES[cls](dim=d).axes), np.eye(d), "frame of a dimension")
    m.close(arr(FRAMES[cls].eye(dim=d).axes), np.eye(d), "eye")
    m.close(arr(FRAMES[cls].eye(d).axes), np.eye(d), "eye of a dimension")
    m.close(arr(FRAMES[cls](dim=(d,)).axes), np.eye(d), "frame of a shape")
    n = grow(rng, rng.integers(1, 6), 1100)
    m.close(arr(ReferenceFrame(dim=(n, d)).axes), np.stack([np.eye(d)] * n), "collection of frames of a shape")
    a = axes(rng, d, "rect")
    c = CartesianFrame(np.array(a), normalize=True)
    m.close(arr(c.axes), a / np.linalg.norm(a, axis=1)[:, None], "normalized frame")


@scenario(quick=80, thorough=1000)
def units(m, rng, i):
    """Frames whose base vectors are very short or very long."""
    d = [3, 2, 3, 4][i % 4]
    n = grow(rng, pick(rng, [1, 2, 4]), 300) if (i // 4) % 3 == 2 else None
    classes = ["reference", "rectangular"]
    cS = "reference" if n else classes[i % 2]
    cT = "reference" if n else classes[(i // 2) % 2]
    u, w = unit(rng), unit(rng)
    aS = frame_axes(rng, cS, d, n) * u
    aT = frame_axes(rng, cT, d, n) * w
    S, T = FRAMES[cS](np.array(aS)), FRAMES[cT](np.array(aT))
    m.note(S=aS, T=aT, classes=(cS, cT))
    m.feat(f"{cS}->{cT}", "multi" if n else "single")
    fr = Frozen(S=S.axes, T=T.axes)
    tol = dict(rtol=1e-9, atol=0.0)
    I = np.eye(d) if n is None else np.broadcast_to(np.eye(d), (n, d, d))
    ref = ref_dcm(aS, aT)
    m.close(arr(S.dcm(target=T)), ref, "dcm(target)", **tol)
    m.close(arr(T.dcm(source=S)), ref, "dcm(source)", **tol)
    m.close(arr(S.show(T)), ref_dcm(aT, aS), "components of the base vectors in a target", **tol)
    m.close(arr(S.show()), aS, "components of the frame in the ambient frame", **tol)
    m.close(arr(S.dcm(target=S)), I, "dcm to itself is the identity", **tol)
    g = arr(S.dual().axes)
    m.close(g, mT(np.linalg.inv(aS)), "the dual base", **tol)
    m.close(aS @ mT(g), I, "the dual base is biorthogonal", **tol)
    m.close(arr(S.dual().dual().axes), aS, "the dual of the dual is the frame", **tol)
    m.close(arr(S.Gram()), aS @ mT(aS), "Gram matrix", **tol)
    m.close(np.asarray(S.volume()), np.linalg.det(aS), "signed volume", **tol)
    fr.check(m)
    # frames that are nearly the same are not the same
    h = float(10.0 ** rng.uniform(-6, -3))
    aN = aS * (1 + h) if cS == "rectangular" else aS + u * h * rng.uniform(0.5, 1, aS.shape)
    N = FRAMES[cS](np.array(aN))
    m.close(arr(S.dcm(target=N)), ref_dcm(aS, aN), "dcm between frames that are nearly the same", **tol)
    m.close(arr(N.dcm(source=S)), ref_dcm(aS, aN), "dcm between frames that are nearly the same", **tol)
    m.close(arr(S.show(N)), ref_dcm(aN, aS), "components in a frame that is nearly the same", **tol)
    S.axes = aN
    m.close(arr(S.axes), aN, "a small change of the axes", **tol)
    m.close(arr(S.dcm(target=T)), ref_dcm(aN, aT), "dcm after a small change of the axes", **tol)
