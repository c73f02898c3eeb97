"""Reference model and generators for frames and tensors."""

import numpy as np

from sigmaepsilon.math.linalg import (
    CartesianFrame,
    RectangularFrame,
    ReferenceFrame,
    Tensor,
    Tensor2,
    Tensor2x3,
    Tensor4,
    Tensor4x3,
    Vector,
)

from mon.core import HarnessProblem, axes, pick, rotation, values

FRAMES = {
    "reference": ReferenceFrame,
    "rectangular": RectangularFrame,
    "cartesian": CartesianFrame,
}


def arr(x):
    """A plain, independent copy of the observed array."""
    return np.array(np.asarray(x), dtype=float, copy=True, subok=False)


def apply(M, comps, rank):
    """Applies M along each of the last `rank` axes (M is 2d, or 3d with one
    matrix for each item along the first axis)."""
    comps = np.asarray(comps, dtype=float)
    if M.ndim == 3:
        return np.stack([apply(M[i], comps[i], rank) for i in range(M.shape[0])])
    out = comps
    nd = comps.ndim
    for k in range(nd - rank, nd):
        out = np.moveaxis(np.tensordot(M, out, axes=(1, k)), 0, k)
    return np.ascontiguousarray(out)


def mT(a):
    return np.swapaxes(np.asarray(a), -1, -2)


def to_ambient(comps, ax, rank):
    """components in the frame with base vectors in the rows of `ax` -> ambient"""
    return apply(np.ascontiguousarray(mT(ax)), comps, rank)


def to_frame(ambient, ax, rank):
    return apply(np.linalg.inv(mT(ax)), ambient, rank)


def frame_axes(rng, cls, d, n=None, cond=12.0, lo=0.2, hi=5.0):
    """Axes admissible for a frame class, with singular values in [lo, hi]."""
    def one():
        for _ in range(300):
            if cls == "cartesian":
                a = axes(rng, d, pick(rng, ["eye", "rot", "rot", "refl", "perm"]))
            elif cls == "rectangular":
                a = axes(rng, d, pick(rng, ["eye", "rot", "rect", "rect", "leftrect", "perm"]))
            else:
                a = axes(rng, d, cond=cond)
            s = np.linalg.svd(a, compute_uv=False)
            if lo <= s[-1] and s[0] <= hi and s[0] / s[-1] < cond:
                return a
        raise HarnessProblem("axes")

    if n is None:
        return one()
    return np.stack([one() for _ in range(n)])


def good(ax, cond=12.0, lo=0.15, hi=6.0):
    if not np.all(np.isfinite(ax)):
        return False
    s = np.linalg.svd(ax, compute_uv=False)
    return bool(np.all(s[..., -1] >= lo) and np.all(s[..., 0] <= hi) and np.all(s[..., 0] / s[..., -1] < cond))


# kind -> (class, rank, number of data axes, extra keywords, dims)
KINDS = {
    "v": (Vector, 1, 0, {}, (2, 3, 4, 5, 7)),
    "vb": (Vector, 1, 1, {}, (2, 3, 4)),
    "vbb": (Vector, 1, 1, {"bulk": True}, (2, 3)),
    "t1": (Tensor, 1, 0, {}, (2, 3)),
    "t2g": (Tensor, 2, 0, {}, (2, 3, 4)),
    "t3": (Tensor, 3, 0, {}, (2, 3, 4)),
    "t4g": (Tensor, 4, 0, {}, (2, 3)),
    "t5": (Tensor, 5, 0, {}, (2, 3)),
    "t6": (Tensor, 6, 0, {}, (2,)),
    "t2": (Tensor2, 2, 0, {}, (2, 3, 4)),
    "t2b": (Tensor2, 2, 1, {"bulk": True}, (2, 3, 4)),
    "2x3": (Tensor2x3, 2, 0, {}, (3,)),
    "2x3b": (Tensor2x3, 2, 1, {}, (3,)),
    "2x3bb": (Tensor2x3, 2, 2, {}, (3,)),
    "2x3bbb": (Tensor2x3, 2, 3, {}, (3,)),
    "t4": (Tensor4, 4, 0, {}, (2, 3)),
    "t4b": (Tensor4, 4, 1, {"bulk": True}, (2, 3)),
    "4x3": (Tensor4x3, 4, 0, {}, (3,)),
    "4x3b": (Tensor4x3, 4, 1, {}, (3,)),
    "4x3bb": (Tensor4x3, 4, 2, {}, (3,)),
    "4x3bbb": (Tensor4x3, 4, 3, {}, (3,)),
}
SINGLE_FRAME = list(KINDS)
MULTI_FRAME = ["vb", "vbb", "t2b", "2x3b", "2x3bb", "2x3bbb", "t4b", "4x3b", "4x3bb", "4x3bbb"]


def kinds_for(d, multi=False, maxrank=9):
    names = MULTI_FRAME if multi else SINGLE_FRAME
    return [k for k in names if d in KINDS[k][4] and KINDS[k][1] <= maxrank]


def shape_of(rng, kind, d, n=None):
    cls, rank, ndata, kw, dims = KINDS[kind]
    data = []
    for j in range(ndata):
        if j == 0 and n is not None:
            data.append(n)
        else:
            data.append(int(pick(rng, [1, 2, 3, 4, 5, 7])))
    return tuple(data) + (d,) * rank


def build(kind, comps, frame):
    cls, rank, ndata, kw, dims = KINDS[kind]
    return cls(np.array(comps), frame=frame, **kw)


def unit(rng, lo=-40, hi=41):
    """A power of two: a change of units that causes no roundoff."""
    return 2.0 ** int(rng.integers(lo, hi))


def name(rng):
    """Names are labels, they don't identify a frame."""
    return pick(rng, [None, None, "A", "A", "B", "", "Frame"])
