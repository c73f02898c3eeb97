"""C04: the tensor transformation law."""

import numpy as np
import sympy as sy

from c02 import elementary
from mon.core import Frozen, core_scenarios_reset, layout, pick, scenario, values
from mon.tens import (
    FRAMES, KINDS, ReferenceFrame, apply, arr, build, frame_axes, kinds_for, mT,
    name, shape_of, to_ambient, to_frame, unit,
)

core_scenarios_reset(__name__)

from sigmaepsilon.math.linalg import show_frame, show_vector, tr

NAMES = ["reference", "rectangular", "cartesian"]
ALL = [(k, d, False) for k in KINDS for d in KINDS[k][4]] + [
    (k, d, True) for k in ["vb", "vbb", "t2b", "2x3b", "2x3bb", "2x3bbb", "t4b", "4x3b", "4x3bb", "4x3bbb"] for d in KINDS[k][4]
]


def setup(m, rng, i):
    kind, d, multi = ALL[i % len(ALL)]
    rank = KINDS[kind][1]
    n = int(pick(rng, [1, 2, 3, 6])) if multi else None
    cls = "reference" if multi else NAMES[(i // len(ALL)) % 3]
    ax = frame_axes(rng, cls, d, n, cond=10)
    comps = values(rng, shape_of(rng, kind, d, n))
    f = FRAMES[cls](np.array(ax))
    t = build(kind, comps, f)
    m.note(kind=kind, d=d, n=n, cls=cls, axes=ax, comps=comps)
    m.feat(f"kind:{kind}", f"dim{d}", "multi" if multi else "single")
    return kind, d, multi, n, rank, ax, comps, f, t


@scenario(quick=400, thorough=6000)
def show(m, rng, i):
    kind, d, multi, n, rank, ax, comps, f, t = setup(m, rng, i)
    fr = Frozen(t=t.array, f=f.axes)
    amb = to_ambient(comps, ax, rank)
    tol = dict(rtol=1e-8, atol=1e-12)
    m.equal(arr(t.array), comps, "components are stored as given")
    m.ok(t.rank == rank, "rank", got=t.rank)
    m.close(arr(t.show()), amb, "components in the ambient frame", **tol)
    # a single target
    cls = pick(rng, NAMES)
    aT = frame_axes(rng, cls, d, cond=10)
    T = FRAMES[cls](np.array(aT))
    m.close(arr(t.show(T)), to_frame(amb, aT, rank), "components in a target frame", **tol)
    m.close(arr(t.show(f)), comps, "components in the own frame", rtol=1e-7, atol=1e-11)
    D = np.linalg.inv(aT.T) @ mT(ax)
    m.close(arr(t.show(dcm=np.ascontiguousarray(D))), apply(D, comps, rank), "components by an explicit matrix", **tol)
    ndata = KINDS[kind][2]
    if ndata or multi:
        nn = comps.shape[0]
        aN = frame_axes(rng, "reference", d, nn, cond=10)
        m.close(arr(t.show(ReferenceFrame(np.array(aN)))), to_frame(amb, aN, rank), "components in a collection of target frames", **tol)
        m.feat("multi-target")
    # NumPy compares the quantities, whatever the frames
    if not multi:
        u = build(kind, to_frame(amb, aT, rank), T)
        tiny = 1e-8 * (1 + np.abs(amb).max())
        m.ok(bool(np.allclose(t, u, atol=tiny)) and bool(np.allclose(u, t, atol=tiny)), "equal quantities in different frames are close")
        e = np.array(amb)
        k = tuple(int(rng.integers(q)) for q in e.shape)
        e[k] += 1.0 + abs(e[k])
        w = build(kind, to_frame(e, aT, rank), T)
        hit = np.zeros(e.shape, dtype=bool)
        hit[k] = True
        m.ok(not bool(np.allclose(t, w)), "different quantities are not close", where=k)
        m.equal(np.asarray(np.isclose(t, w, rtol=1e-5, atol=1e-6 * (1 + np.abs(amb).max()))), ~hit, "closeness of quantities, component by component")
        m.ok(bool(np.all(np.isclose(t, w, atol=1e3 * (1 + np.abs(e).max())))) and bool(np.allclose(t, w, atol=1e3 * (1 + np.abs(e).max()))), "closeness with a large tolerance")
    fr.check(m)
    # the setter of the frame
    if rng.random() < 0.5 and not multi:
        t.frame = T
        m.ok(t.frame is T, "the frame is set")
        m.close(arr(t.array), to_frame(amb, aT, rank), "components after a change of the frame", **tol)
        m.close(arr(t.show()), amb, "ambient components after a change of the frame", **tol)
        m.equal(arr(T.axes), aT, "the target frame is left alone")
        m.equal(arr(f.axes), ax, "the source frame is left alone")


@scenario(quick=150, thorough=2000)
def dual_and_transpose(m, rng, i):
    kind, d, multi, n, rank, ax, comps, f, t = setup(m, rng, i)
    fr = Frozen(t=t.array, f=f.axes)
    amb = to_ambient(comps, ax, rank)
    tol = dict(rtol=1e-7, atol=1e-11)
    dd = t.dual()
    m.ok(type(dd) is type(t), "the dual is of the same class")
    m.close(arr(dd.frame.axes), mT(np.linalg.inv(ax)), "the dual is given in the dual frame", **tol)
    m.close(arr(dd.array), apply(ax @ mT(ax), comps, rank), "covariant components", **tol)
    m.close(arr(dd.show()), amb, "the dual represents the same quantity", **tol)
    fr.check(m)
    # all ways to read the components
    m.ok(len(t) == len(comps) and t.shape == comps.shape, "size of a tensor", got=(len(t), t.shape))
    for how, read in [("array", np.asarray(t)), ("to_numpy", t.to_numpy()), ("items", np.array([t[k] for k in range(len(t))])), ("iteration", np.array([x for x in t])), ("slice", t[...])]:
        m.equal(np.array(read), comps, "components read by " + how)
    m.equal(np.array(t.minmax), np.array([comps.min(), comps.max()]), "extreme components")
    fr.check(m)
    # transposition
    nd = comps.ndim
    perm = tuple(range(nd - rank)) + tuple(range(nd - 1, nd - rank - 1, -1))
    for tr in (t.T, t.transpose()):
        m.ok(type(tr) is type(t), "the transpose is of the same class")
        m.equal(arr(tr.array), np.transpose(comps, perm), "transposition reverses the tensorial indices")
        m.close(arr(tr.frame.axes), ax, "the transpose is given in the same axes")
        m.close(arr(tr.show()), np.transpose(amb, perm), "transposition of the quantity", **tol)
    fr.check(m)
    r = t.transpose(inplace=True)
    m.ok(r is t, "inplace transpose returns the tensor")
    m.equal(arr(t.array), np.transpose(comps, perm), "inplace transposition reverses the tensorial indices")
    m.equal(arr(f.axes), ax, "inplace transposition leaves the frame alone")
    m.close(arr(t.show()), np.transpose(amb, perm), "inplace transposition of the quantity", **tol)


ORIENT = [x for x in ALL if x[1] == 3]


@scenario(quick=100, thorough=1200)
def orient(m, rng, i):
    kind, d, multi = ORIENT[i % len(ORIENT)]
    rank = KINDS[kind][1]
    n = int(pick(rng, [1, 2, 4])) if multi else None
    ax = frame_axes(rng, "reference", d, n, cond=10)
    comps = values(rng, shape_of(rng, kind, d, n))
    f = ReferenceFrame(np.array(ax))
    t = build(kind, comps, f)
    ang = [float(x) for x in rng.uniform(-7, 7, 3)]
    mats = [elementary(k, a) for k, a in zip([0, 1, 2], ang)]
    how = pick(rng, ["Body", "Space"])
    R = mats[2] @ mats[1] @ mats[0] if how == "Body" else mats[0] @ mats[1] @ mats[2]
    m.note(kind=kind, axes=ax, comps=comps, angles=ang, how=how)
    m.feat("kind:" + kind)
    ref = apply(R.T, comps, rank)
    fr = Frozen(t=t.array, f=f.axes)
    new = t.orient_new(how, ang, "XYZ")
    m.ok(type(new) is type(t), "the oriented tensor is of the same class")
    m.close(arr(new.array), ref, "orient_new rotates the components")
    m.ok(new.frame is f, "orient_new keeps the frame")
    fr.check(m)
    r = t.orient(how, ang, "XYZ")
    m.ok(r is t, "orient returns the tensor")
    m.close(arr(t.array), ref, "orient rotates the components")
    m.equal(arr(f.axes), ax, "orient leaves the frame alone")
    if kind in ("v", "vb", "vbb") and not multi:
        t2 = build(kind, comps, f)
        t2.orient(dcm=np.ascontiguousarray(R))
        m.close(arr(t2.array), ref, "orient by an explicit matrix")


@scenario(quick=60, thorough=600)
def default_frame(m, rng, i):
    """Tensors created without a frame are given in the ambient frame."""
    kind, d, multi = ALL[i % len(ALL)]
    cls, rank, ndata, kw, _ = KINDS[kind]
    comps = values(rng, shape_of(rng, kind, d))
    t = cls(np.array(comps), **kw)
    m.note(kind=kind, d=d, comps=comps)
    m.feat("default:" + kind)
    m.close(arr(t.frame.axes), np.eye(d), "the default frame is the ambient frame")
    m.close(arr(t.show()), comps, "components in the ambient frame", rtol=1e-12)
    aT = frame_axes(rng, "reference", d, cond=10)
    T = ReferenceFrame(np.array(aT))
    ref = to_frame(comps, aT, rank)
    m.close(arr(t.show(T)), ref, "components in a target frame", rtol=1e-8, atol=1e-12)
    other = cls(np.array(comps), **kw)
    how = ["frame=", "axes="][i % 2]
    if how == "frame=":
        t.frame = T
    else:
        t.frame.axes = aT
    m.close(arr(t.array), ref, "components after a change of the frame", rtol=1e-8, atol=1e-12, how=how)
    m.close(arr(t.show()), comps, "ambient components after a change of the frame", rtol=1e-7, atol=1e-11)
    m.close(arr(other.show()), comps, "another tensor without a frame is not affected", rtol=1e-12)
    m.close(arr(other.frame.axes), np.eye(d), "default frames are not shared")
    late = cls(np.array(comps), **kw)
    m.close(arr(late.frame.axes), np.eye(d), "a later default frame is the ambient frame")


@scenario(quick=60, thorough=600)
def lists(m, rng, i):
    """Components and axes given as lists or tuples, or as numbers of other types."""
    kind, d, multi = ALL[i % len(ALL)]
    cls, rank, ndata, kw, _ = KINDS[kind]
    n = int(pick(rng, [1, 2, 3])) if multi else None
    ax = frame_axes(rng, "reference", d, n, cond=10)
    comps = rng.integers(-9, 10, shape_of(rng, kind, d, n))
    how = pick(rng, ["list", "tuple", "int", "float32", "fortran", "reversed"])
    f = ReferenceFrame(np.array(ax))
    if how == "list":
        t = cls(comps.tolist(), frame=f, **kw)
    elif how == "tuple":
        t = cls(tuple(comps.tolist()), frame=f, **kw)
    elif how == "int":
        t = cls(comps.astype(pick(rng, [np.int32, np.int64, np.int8])), frame=f, **kw)
    elif how == "float32":
        t = cls(comps.astype(np.float32), frame=f, **kw)
    elif how == "fortran":
        t = cls(np.asfortranarray(comps.astype(float)), frame=f, **kw)
    else:
        t = cls(np.ascontiguousarray(comps[::-1]).astype(float)[::-1], frame=f, **kw)
    m.note(kind=kind, axes=ax, comps=comps, how=how)
    m.feat("given as " + how, "kind:" + kind)
    m.equal(arr(t.array), comps.astype(float), "components are stored as given", how=how)
    amb = to_ambient(comps, ax, rank)
    m.close(arr(t.show()), amb, "components in the ambient frame", rtol=1e-8, atol=1e-12, how=how)
    t *= 0.5
    m.close(arr(t.array), comps * 0.5, "components are floating point numbers", rtol=1e-12, how=how)
    aT = frame_axes(rng, "reference", d, n, cond=10)
    f.axes = aT.tolist()
    m.close(arr(t.array), to_frame(0.5 * amb, aT, rank), "components after a change of the axes", rtol=1e-8, atol=1e-12, how=how)


@scenario(quick=40, thorough=400)
def arrays(m, rng, i):
    """The functions for plain arrays."""
    d = [3, 2, 4][i % 3]
    n = int([1, 2, 5, 33, 260][i % 5])
    D = rng.normal(size=(d, d))
    DN = rng.normal(size=(n, d, d))
    v = rng.normal(size=d)
    V = rng.normal(size=(n, d))
    A = rng.normal(size=(d, d))
    AN = rng.normal(size=(n, d, d))
    fr = Frozen(D=D, DN=DN, v=v, V=V, A=A, AN=AN)
    m.note(D=D, V=V)
    m.close(show_vector(D, v), D @ v, "show_vector 2-1")
    m.close(show_vector(D, V), V @ D.T, "show_vector 2-2")
    m.close(show_vector(DN, V), np.einsum("nij,nj->ni", DN, V), "show_vector 3-2")
    m.close(show_frame(D, A), A @ D.T, "show_frame 2-2")
    m.close(show_frame(D, AN), AN @ D.T, "show_frame 2-3")
    m.close(show_frame(DN, AN), np.einsum("nij,nkj->nki", DN, AN), "show_frame 3-3")
    m.raises(Exception, lambda: show_vector(DN, v), "show_vector of mismatched shapes")
    m.raises(Exception, lambda: show_frame(DN, A), "show_frame of mismatched shapes")
    fr.check(m)


@scenario(quick=4, thorough=20, modes=("py",))
def symbolic(m, rng, i):
    """The law for items that are expressions."""
    fn = getattr(tr, "_tr_3333_sym", None)
    if fn is None:
        return
    A = np.zeros((3, 3, 3, 3), dtype=object)
    A[...] = rng.integers(-3, 4, size=A.shape)
    x = sy.Symbol("x")
    k = tuple(int(v) for v in rng.integers(3, size=4))
    A[k] = A[k] + x
    Q = rng.integers(-2, 3, size=(3, 3))
    m.note(A=str(A.tolist()), Q=Q)
    m.feat("symbolic")
    fr = Frozen(Q=Q)
    got = fn(A, Q)
    for v in (0, 2, -1):
        num = np.vectorize(lambda e: float(sy.sympify(e).subs(x, v)), otypes=[float])
        m.close(num(got), apply(Q.astype(float), num(A), 4), "components that are expressions", x=v)
    fr.check(m)


@scenario(quick=16, thorough=200)
def large(m, rng, i):
    """Collections large enough to be split between threads."""
    kind = ["vb", "t2b", "2x3bb", "t4b", "2x3b", "4x3b", "vb", "2x3bb"][i % 8]
    multi = (i // 8) % 2 == 1
    n = int(rng.integers(100, 400)) if "4" not in kind else int(rng.integers(50, 90))
    d, rank = 3, KINDS[kind][1]
    shape = (n,) + ((4,) if kind == "2x3bb" else ()) + (d,) * rank
    comps = rng.normal(size=shape)
    ax = np.stack([frame_axes(rng, "reference", d, cond=10) for _ in range(8)])
    ax = ax[rng.integers(0, 8, n)] if multi else ax[0]
    f = ReferenceFrame(np.array(ax))
    t = build(kind, comps, f)
    m.note(kind=kind, n=n, multi=multi, first=comps[0], ax=ax)
    amb = to_ambient(comps, ax, rank)
    m.close(arr(t.show()), amb, "components in the ambient frame", rtol=1e-8)
    aT = frame_axes(rng, "reference", d, cond=10)
    m.close(arr(t.show(ReferenceFrame(np.array(aT)))), to_frame(amb, aT, rank), "components in a target frame", rtol=1e-8)


@scenario(quick=120, thorough=1500)
def units(m, rng, i):
    """The law in other units, and between frames that are nearly the same."""
    kind, d, multi = ALL[i % len(ALL)]
    rank = KINDS[kind][1]
    n = int(pick(rng, [1, 2, 3])) if multi else None
    cls = "reference" if multi else NAMES[(i // len(ALL)) % 2]
    u, w, c = unit(rng), unit(rng), unit(rng)
    near = rng.random() < 0.4
    ax = frame_axes(rng, cls, d, n, cond=10) * u
    aT = frame_axes(rng, "reference", d, n, cond=10) * w
    if near:
        aT = ax + u * float(10.0 ** rng.uniform(-6, -3)) * rng.uniform(0.5, 1, ax.shape)
    comps = values(rng, shape_of(rng, kind, d, n), "normal") * c
    f = FRAMES[cls](np.array(ax), name=name(rng))
    T = ReferenceFrame(np.array(aT), name=name(rng))
    t = build(kind, comps, f)
    m.note(kind=kind, d=d, axes=ax, target=aT, comps=comps)
    m.feat("units", "near" if near else "far", f"rank{rank}")
    fr = Frozen(t=t.array, f=f.axes, T=T.axes)
    amb = to_ambient(comps, ax, rank)
    tol = dict(rtol=1e-9, atol=0.0)
    m.close(arr(t.show()), amb, "components in the ambient frame", **tol)
    m.close(arr(t.show(T)), to_frame(amb, aT, rank), "components in a target frame", **tol)
    m.close(arr(t.show(f)), comps, "components in the own frame", **tol)
    dd = t.dual()
    m.close(arr(dd.array), apply(ax @ mT(ax), comps, rank), "covariant components", **tol)
    m.close(arr(dd.show()), amb, "the dual represents the same quantity", **tol)
    fr.check(m)
    t.frame = T
    m.close(arr(t.array), to_frame(amb, aT, rank), "components after a change of the frame", **tol)
    m.close(arr(t.show()), amb, "ambient components after a change of the frame", **tol)
