"""C06: dot and cross products represent the products of the quantities."""

import numpy as np

from mon.core import Frozen, grow, layout, pick, scenario, values
from mon.tens import (
    FRAMES, CartesianFrame, RectangularFrame, ReferenceFrame, Tensor, Tensor2, Tensor2x3,
    Tensor4, Tensor4x3, Vector, arr, frame_axes, name, to_ambient, to_frame, unit,
)

from sigmaepsilon.math.linalg import cross, dot

NAMES = ["reference", "reference", "rectangular", "cartesian"]


def frame(rng, d, n=None):
    cls = "reference" if n is not None else pick(rng, NAMES)
    ax = frame_axes(rng, cls, d, n, cond=10)
    return FRAMES[cls](np.array(ax), name=name(rng)), ax


def comps(rng, shape):
    return values(rng, shape, pick(rng, ["normal", "int", "sparse", "uniform", "neg"]))


def make(rng, cls, shape, rank, f, ax, **kw):
    c = comps(rng, shape)
    return cls(np.array(c), frame=f, **kw), c, to_ambient(c, ax, rank)


def two_frames(rng, d):
    f, ax = frame(rng, d)
    how = pick(rng, ["other", "other", "same", "equal"])
    if how == "same":
        return f, ax, f, ax, how
    if how == "equal":
        return f, ax, ReferenceFrame(np.array(ax)), ax, how
    g, ax2 = frame(rng, d)
    return f, ax, g, ax2, how


def judge(m, rng, r, ref, rank, cls, d, sc, what):
    if cls is not None:
        m.ok(isinstance(r, cls), "class of " + what, got=type(r))
    m.ok(r.rank == rank, "rank of " + what, got=r.rank)
    m.close(arr(r.show()), ref, "ambient components of " + what, rtol=1e-7, atol=1e-10, scale=sc)
    at = frame_axes(rng, "reference", d, cond=10)
    m.close(arr(r.show(ReferenceFrame(np.array(at)))), to_frame(ref, at, rank), what + " in another frame", rtol=1e-6, atol=1e-9, scale=5.0**rank * sc)


def run(m, rng, fn, ref, rank, cls, d, sc, what, frozen):
    """A product, without and with a target frame."""
    r = fn()
    judge(m, rng, r, ref, rank, cls, d, sc, what)
    frozen.check(m, "the operands are left as they were")
    T, at = frame(rng, d)
    r = fn(frame=T)
    m.ok(r.frame is T, "the product is given in the target frame", product=what)
    m.close(arr(r.array), to_frame(ref, at, rank), what + " in a target frame", rtol=1e-6, atol=1e-9, scale=5.0**rank * sc)
    judge(m, rng, r, ref, rank, cls, d, sc, what)
    m.equal(arr(T.axes), at, "the target frame is left as it was")
    frozen.check(m, "the operands are left as they were")


@scenario(quick=300, thorough=5000)
def dots(m, rng, i):
    d = [3, 2, 3, 4, 3, 5][i % 6]
    what = ["v.v", "T.v", "v.T", "T.T", "T.vs", "vs.T", "T3.T3", "Ts.Ts"][(i // 6) % 8]
    if what in ("T3.T3", "Ts.Ts"):
        d = 3
    f, ax, g, ax2, how = two_frames(rng, d)
    n = grow(rng, pick(rng, [1, 2, 3, 4, 6]), 300)
    m.feat("dot:" + what, f"dim{d}", "frames:" + how)
    fn = pick(rng, [dot, np.dot]) if what in ("v.v",) else dot
    if what == "v.v":
        a, ca, A = make(rng, Vector, (d,), 1, f, ax)
        b, cb, B = make(rng, Vector, (d,), 1, g, ax2)
        m.note(d=d, axes=ax, axes2=ax2, a=ca, b=cb)
        fr = Frozen(a=a.array, b=b.array, f=f.axes, g=g.axes)
        sc = np.abs(A).max() * np.abs(B).max() * d
        m.close(float(fn(a, b)), float(A @ B), "dot product of vectors", rtol=1e-8, atol=1e-10, scale=sc)
        m.close(float(dot(b, a)), float(A @ B), "dot product of vectors", rtol=1e-8, atol=1e-10, scale=sc)
        fr.check(m)
        # frames change, the product does not
        f.axes = arr(f.axes) if rng.random() < 0.1 else frame_axes(rng, "cartesian", d)
        m.close(float(dot(a, b)), float(A @ B), "dot product of vectors after a change of frame", rtol=1e-8, atol=1e-10, scale=sc)
        return
    if what in ("T.v", "T.vs"):
        sh = (d,) if what == "T.v" else (n, d)
        cls = pick(rng, [Tensor2, Tensor2, Tensor] + ([Tensor2x3] if d == 3 else []))
        a, ca, A = make(rng, cls, (d, d), 2, f, ax)
        b, cb, B = make(rng, Vector, sh, 1, g, ax2)
        ref, rank, rc = B @ A.T, 1, Vector
    elif what in ("v.T", "vs.T"):
        sh = (d,) if what == "v.T" else (n, d)
        cls = pick(rng, [Tensor2, Tensor2, Tensor] + ([Tensor2x3] if d == 3 else []))
        a, ca, A = make(rng, Vector, sh, 1, f, ax)
        b, cb, B = make(rng, cls, (d, d), 2, g, ax2)
        ref, rank, rc = A @ B, 1, Vector
    elif what == "T.T":
        ca_, cb_ = pick(rng, [(Tensor2, Tensor2), (Tensor, Tensor2), (Tensor2, Tensor), (Tensor, Tensor)])
        a, ca, A = make(rng, ca_, (d, d), 2, f, ax)
        b, cb, B = make(rng, cb_, (d, d), 2, g, ax2)
        ref, rank, rc = A @ B, 2, type(a)
    elif what == "T3.T3":
        a, ca, A = make(rng, Tensor2x3, (3, 3), 2, f, ax)
        b, cb, B = make(rng, Tensor2x3, (3, 3), 2, g, ax2)
        ref, rank, rc = A @ B, 2, Tensor2x3
    else:
        a, ca, A = make(rng, Tensor2x3, (n, 3, 3), 2, f, ax)
        b, cb, B = make(rng, Tensor2x3, (n, 3, 3), 2, g, ax2)
        ref, rank, rc = A @ B, 2, Tensor2x3
    m.note(d=d, axes=ax, axes2=ax2, a=ca, b=cb)
    fr = Frozen(a=a.array, b=b.array, f=f.axes, g=g.axes)
    sc = np.abs(A).max() * np.abs(B).max() * d * 6
    run(m, rng, lambda **k: dot(a, b, **k), ref, rank, rc, d, sc, "dot product " + what, fr)
    r = np.dot(a, b)
    m.close(arr(r.show()), ref, "numpy.dot of tensors", rtol=1e-7, atol=1e-10, scale=sc)


@scenario(quick=140, thorough=2500)
def contractions(m, rng, i):
    d = [3, 2][i % 2]
    ra, rb = [(3, 1), (3, 2), (3, 3), (4, 2), (2, 3), (4, 1), (2, 4), (5, 2), (3, 4), (4, 4)][i % 10]
    f, ax, g, ax2, how = two_frames(rng, d)
    m.feat(f"contraction:{ra},{rb}", f"dim{d}", "frames:" + how)
    ca_ = {3: [Tensor], 5: [Tensor], 2: [Tensor, Tensor2], 4: [Tensor, Tensor4] + ([Tensor4x3] if d == 3 else [])}[ra]
    cb_ = {1: [Vector, Tensor], 3: [Tensor], 2: [Tensor, Tensor2], 4: [Tensor, Tensor4]}[rb]
    cls_a, cls_b = pick(rng, ca_), pick(rng, cb_)
    a, ca, A = make(rng, cls_a, (d,) * ra, ra, f, ax)
    b, cb, B = make(rng, cls_b, (d,) * rb, rb, g, ax2)
    i1, i2 = int(rng.integers(ra)), int(rng.integers(rb))
    axes = pick(rng, [(i1, i2), [i1, i2]])
    m.note(d=d, axes=ax, axes2=ax2, a=ca, b=cb, contraction=[i1, i2])
    ref = np.tensordot(A, B, axes=([i1], [i2]))
    fr = Frozen(a=a.array, b=b.array, f=f.axes, g=g.axes)
    sc = np.abs(A).max() * np.abs(B).max() * d * 3
    run(m, rng, lambda **k: dot(a, b, axes=axes, **k), ref, ra + rb - 2, Tensor, d, sc, "contraction", fr)
    m.raises(Exception, lambda: dot(a, b), "contraction without indices")
    fr.check(m)


@scenario(quick=140, thorough=2500)
def crosses(m, rng, i):
    d = 3
    what = ["vxv", "vsxvs", "vxv", "Txv", "vxT", "vsxv"][i % 6]
    f, ax, g, ax2, how = two_frames(rng, d)
    n = grow(rng, pick(rng, [1, 2, 3, 4, 7]), 1100)
    m.feat("cross:" + what, "frames:" + how)
    if what in ("vxv", "vsxvs", "vsxv"):
        a, ca, A = make(rng, Vector, (3,) if what == "vxv" else (n, 3), 1, f, ax)
        b, cb, B = make(rng, Vector, (3,) if what != "vsxvs" else (n, 3), 1, g, ax2)
        ref, rank, rc = np.cross(A, B), 1, Vector
    elif what == "Txv":
        a, ca, A = make(rng, pick(rng, [Tensor2, Tensor2x3]), (3, 3), 2, f, ax)
        b, cb, B = make(rng, Vector, (3,), 1, g, ax2)
        ref, rank, rc = np.cross(A.T, B).T, 2, type(a)
    else:
        a, ca, A = make(rng, Vector, (3,), 1, f, ax)
        b, cb, B = make(rng, pick(rng, [Tensor2, Tensor2x3]), (3, 3), 2, g, ax2)
        ref, rank, rc = np.cross(A, B.T).T, 2, type(b)
    m.note(axes=ax, axes2=ax2, a=ca, b=cb)
    fr = Frozen(a=a.array, b=b.array, f=f.axes, g=g.axes)
    sc = np.abs(A).max() * np.abs(B).max() * 6
    run(m, rng, lambda **k: cross(a, b, **k), ref, rank, rc, d, sc, "cross product " + what, fr)
    r = np.cross(a, b)
    m.close(arr(r.show()), ref, "numpy.cross of tensors", rtol=1e-7, atol=1e-10, scale=sc)
    if what == "vxv":
        # laws that involve several operations
        w = cross(a, b)
        m.close(float(dot(w, a)), 0.0, "the cross product is perpendicular", atol=1e-7 * (1 + sc * np.abs(A).max()))
        m.close(arr(cross(b, a).show()), -ref, "the cross product is antisymmetric", rtol=1e-7, atol=1e-10, scale=sc)
    fr.check(m)


SUBS = {
    (1, 1): "...i,...i->...", (2, 1): "...ij,...j->...i", (1, 2): "...i,...ij->...j", (2, 2): "...ij,...jk->...ik",
}


def crossed(A, B, ra, rb):
    if ra == 1 and rb == 1:
        return np.cross(A, B)
    A = A[..., None] if ra == 1 else A
    B = B[..., None] if rb == 1 else B
    A, B = np.broadcast_arrays(A, B)
    return np.swapaxes(np.cross(np.swapaxes(A, -1, -2), np.swapaxes(B, -1, -2)), -1, -2)


@scenario(quick=300, thorough=4000)
def collections(m, rng, i):
    """The i-th item of a product belongs to the i-th items of the operands.

    A product of collections is either refused or it consists of the products of the items,
    also when there are as many items as dimensions.
    """
    d = 3 if rng.random() < 0.7 else int(pick(rng, [2, 4]))
    n = d if rng.random() < 0.4 else grow(rng, pick(rng, [1, 2, 4, 5, 7]), 140)
    op = ["dot", "dot", "cross"][i % 3] if d == 3 else "dot"
    ra, rb = [(1, 1), (2, 1), (1, 2), (2, 2)][(i // 3) % (3 if op == "cross" else 4)]
    na, nb = [(n, n), (n, None), (None, n)][int(rng.integers(3))]
    multi = d == 3 and rng.random() < 0.25  # a frame for each item

    def operand(rank, k):
        f, ax = frame(rng, d, k if (multi and k is not None and rng.random() < 0.6) else None)
        lead = () if k is None else (k,)
        if rank == 1:
            cls, kw = Vector, {}
        else:
            cls = pick(rng, [Tensor2] + ([Tensor2x3] * 2 if d == 3 else []))
            kw = dict(bulk=True) if (k is not None and cls is Tensor2) else {}
        return make(rng, cls, lead + (d,) * rank, rank, f, ax, **kw) + (f, ax)

    a, ca, A, f, ax = operand(ra, na)
    b, cb, B, g, ax2 = operand(rb, nb)
    m.note(d=d, op=op, axes=ax, axes2=ax2, a=ca, b=cb, classes=[type(a), type(b)])
    several = ax.ndim == 3 or ax2.ndim == 3
    m.feat(f"{op}:{ra},{rb}", "items:" + ("dim" if n == d else "other"), "frames per item" if several else "single frames",
           "collections:" + ("both" if na and nb else "left" if na else "right"))
    fr = Frozen(a=a.array, b=b.array, f=f.axes, g=g.axes)
    ref = np.einsum(SUBS[ra, rb], A, B) if op == "dot" else crossed(A, B, ra, rb)
    rank = {(1, 1): 0, (2, 1): 1, (1, 2): 1, (2, 2): 2}[ra, rb] if op == "dot" else max(ra, rb)
    sc = np.abs(A).max() * np.abs(B).max() * d * 6
    fn = pick(rng, [dict(dot=dot, cross=cross), dict(dot=np.dot, cross=np.cross)])[op]
    kw = {}
    if rank and not several and rng.random() < 0.4:
        T, at = frame(rng, d)
        if fn in (dot, cross):
            kw = dict(frame=T)
    try:
        r = fn(a, b, **kw)
    except Exception as e:
        fr.check(m, "the operands of a refused product are left as they were")
        # products with a single tensor in several frames are refused by the library
        m.ok(several and None in (na, nb), "products of collections are available", error=repr(e), op=op, ranks=[ra, rb], items=[na, nb])
        m.feat("refused")
        return
    fr.check(m, "the operands are left as they were")
    if rank == 0:
        m.close(arr(r), ref, "dot products of the items", rtol=1e-7, atol=1e-9, scale=sc)
        return
    m.ok(r.rank == rank, "rank of the products of collections", got=r.rank)
    m.ok(r.is_bulk(), "the products of collections are a collection")
    m.close(arr(r.show()), ref, op + " products of the items", rtol=1e-7, atol=1e-9, scale=sc)
    if kw:
        m.ok(r.frame is T, "the products are given in the target frame")
        m.close(arr(r.array), to_frame(ref, at, rank), "products of the items in a target frame", rtol=1e-6, atol=1e-9, scale=5.0**rank * sc)
    k = int(rng.integers(n))
    at = frame_axes(rng, "reference", d, cond=10)
    shown = arr(r.show(ReferenceFrame(np.array(at))))
    m.close(shown[k], to_frame(ref[k], at, rank), "an item of the products in another frame", rtol=1e-6, atol=1e-9, scale=5.0**rank * sc)
    if na and nb:
        # collections that do not belong together
        short = Vector(np.ones((n + 1, d))) if rb == 1 else Tensor2(np.ones((n + 1, d, d)), bulk=True)
        if n > 1:
            m.raises(Exception, lambda: fn(a, short), "collections of different lengths")
            fr.check(m)


@scenario(quick=80, thorough=1000, modes=("py",))
def arrays(m, rng, i):
    d = int(pick(rng, [1, 2, 3, 4, 6]))
    sh = [((d,), (d,)), ((2, d), (d,)), ((2, d), (d, 3)), ((d,), (d, 2)), ((2, 3, d), (d,)), ((2, d), (4, d, 3))][i % 6]
    A, B = values(rng, sh[0]), values(rng, sh[1])
    if rng.random() < 0.3:
        A, B = A.round().astype(int), B.round().astype(int)
    m.note(A=A, B=B)
    fr = Frozen(A=A, B=B)
    m.close(dot(A, B), np.dot(A, B), "dot product of arrays", rtol=1e-12)
    m.close(dot(layout(rng, A), layout(rng, B)), np.dot(A, B), "dot product of arrays", rtol=1e-12)
    m.close(dot(A.tolist(), B.tolist()), np.dot(A, B), "dot product of lists", rtol=1e-12)
    ref = np.dot(A, B)
    if np.ndim(ref):
        out = np.zeros_like(ref)
        r = dot(A, B, out=out)
        m.close(out, ref, "dot product of arrays with out", rtol=1e-12)
        m.ok(r is out, "the output argument is returned")
    fr.check(m)
    k = pick(rng, [2, 3])
    C, D = values(rng, (4, 3)), values(rng, (4, 3))
    fr = Frozen(C=C, D=D)
    m.close(cross(C, D), np.cross(C, D), "cross product of arrays", rtol=1e-12)
    m.close(cross(C[0], D[1]), np.cross(C[0], D[1]), "cross product of arrays", rtol=1e-12)
    m.close(cross(C.T, D.T, axis=0), np.cross(C.T, D.T, axis=0), "cross product of arrays along an axis", rtol=1e-12)
    m.close(cross(C.tolist(), D), np.cross(C, D), "cross product of a list and an array", rtol=1e-12)
    ax = frame_axes(rng, "reference", 3)
    F = ReferenceFrame(np.array(ax))
    m.close(arr(dot(F, C[0])), ax @ C[0], "dot product of a frame and an array", rtol=1e-10)
    fr.check(m)
    T, v = Tensor2(values(rng, (3, 3))), Vector(values(rng, (3,)))
    m.raises(Exception, lambda: cross(C[0], v), "cross product of an array and a tensor")
    m.raises(Exception, lambda: cross(v, C[0]), "cross product of a tensor and an array")
    m.raises(Exception, lambda: dot(A, B, frame=F), "dot product of arrays with a frame")
    m.raises(Exception, lambda: cross(C, D, frame=F), "cross product of arrays with a frame")
    m.raises(Exception, lambda: dot(v, v, out=np.zeros(())), "dot product of vectors with out")
    m.raises(Exception, lambda: dot(C[0], 3), "dot product of an array and a number")
    m.raises(Exception, lambda: cross(T, T), "cross product of second order tensors")


@scenario(quick=120, thorough=1500)
def units(m, rng, i):
    """Products of quantities in other units, in frames far apart or nearly the same."""
    what = ["v.v", "T.v", "v.T", "T.T", "vxv", "vsxv"][i % 6]
    d = 3 if "x" in what else [3, 2, 4][(i // 6) % 3]
    u, w, c, e = unit(rng), unit(rng), unit(rng), unit(rng)
    near = rng.random() < 0.5
    ax = frame_axes(rng, "reference", d, cond=10) * u
    if near:
        ax2 = ax + u * float(10.0 ** rng.uniform(-6, -3)) * rng.uniform(0.5, 1, ax.shape)
    else:
        ax2 = frame_axes(rng, "reference", d, cond=10) * w
    at = frame_axes(rng, "reference", d, cond=10) * unit(rng)
    f, g, T = (ReferenceFrame(np.array(x), name=name(rng)) for x in (ax, ax2, at))
    n = int(pick(rng, [1, 2, 5]))
    sh = {"v": (d,), "T": (d, d), "vs": (n, d)}
    ka, kb = what.replace("x", ".").split(".")
    ca, cb = rng.normal(size=sh[ka]) * c, rng.normal(size=sh[kb]) * e
    mk = {"v": Vector, "vs": Vector, "T": Tensor2}
    a, b = mk[ka](np.array(ca), frame=f), mk[kb](np.array(cb), frame=g)
    ra, rb = (2 if k == "T" else 1 for k in (ka, kb))
    A, B = to_ambient(ca, ax, ra), to_ambient(cb, ax2, rb)
    m.note(op=what, axes=ax, axes2=ax2, a=ca, b=cb, target=at)
    m.feat("units:" + what, "near" if near else "far")
    sc = float(np.abs(A).max() * np.abs(B).max()) * d
    tol = dict(rtol=1e-9, atol=0.0)
    fr = Frozen(a=a.array, b=b.array, f=f.axes, g=g.axes, T=T.axes)
    if what == "v.v":
        m.close(float(dot(a, b)), float(A @ B), "dot product of vectors", scale=sc, **tol)
        fr.check(m)
        return
    if "x" in what:
        ref, rank, fn = np.cross(A, B), 1, cross
    else:
        ref = {"T.v": lambda: A @ B, "v.T": lambda: A @ B, "T.T": lambda: A @ B}[what]()
        rank, fn = (2 if what == "T.T" else 1), dot
    r = fn(a, b)
    m.close(arr(r.show()), ref, "ambient components of " + what, scale=10 * sc, **tol)
    r = fn(a, b, frame=T)
    m.ok(r.frame is T, "the product is given in the target frame", product=what)
    m.close(arr(r.show()), ref, "ambient components of " + what, scale=100 * sc, **tol)
    m.close(arr(r.array), to_frame(ref, at, rank), what + " in a target frame",
            scale=100 * sc * float(np.abs(np.linalg.inv(at)).max()) ** rank, **tol)
    fr.check(m)
