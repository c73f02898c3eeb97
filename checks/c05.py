"""C05: tensor arithmetic does not depend on the frames of the operands."""

import numpy as np

from mon.core import Frozen, grow, pick, scenario, values
from mon.tens import (
    FRAMES, KINDS, ReferenceFrame, arr, build, frame_axes, name, shape_of, to_ambient, to_frame, unit,
)

NAMES = ["reference", "reference", "rectangular", "cartesian"]
ALL = [(k, d, False) for k in KINDS for d in KINDS[k][4]] + [
    (k, d, True) for k in ["vb", "vbb", "t2b", "2x3b", "2x3bb", "2x3bbb", "t4b", "4x3b", "4x3bb", "4x3bbb"] for d in KINDS[k][4]
]
TOL = dict(rtol=1e-7, atol=1e-11)


def frame(rng, d, n):
    cls = "reference" if n is not None else pick(rng, NAMES)
    ax = frame_axes(rng, cls, d, n, cond=10)
    return FRAMES[cls](np.array(ax), name=name(rng)), ax


def scalar(rng):
    return pick(rng, [
        float(rng.uniform(0.2, 4)), -float(rng.uniform(0.2, 4)), int(pick(rng, [1, 2, -1, 3, -7])),
        np.float64(rng.uniform(0.5, 2)), np.int64(3), np.float32(0.5), 1e-3, 1e3,
    ])


def setup(m, rng, i):
    kind, d, multi = ALL[i % len(ALL)]
    rank = KINDS[kind][1]
    n = grow(rng, pick(rng, [1, 2, 3, 5]), 270) if multi else None
    shape = shape_of(rng, kind, d, n)
    nf = shape[0] if multi else None
    f, ax = frame(rng, d, nf)
    comps = values(rng, shape, pick(rng, ["normal", "int", "sparse", "uniform", "neg"]))
    t = build(kind, comps, f)
    m.note(kind=kind, d=d, n=n, axes=ax, comps=comps)
    m.feat("kind:" + kind, f"dim{d}", "multi" if multi else "single")
    return kind, d, nf, rank, f, ax, comps, t


@scenario(quick=320, thorough=5000)
def sums(m, rng, i):
    kind, d, nf, rank, f, ax, comps, t = setup(m, rng, i)
    how = pick(rng, ["other", "other", "other", "same", "self", "copyframe"])
    m.note(how=how)
    m.feat("operands:" + how)
    if how == "self":
        u, g, ax2, comps2 = t, f, ax, comps
    else:
        if how == "same":
            g, ax2 = f, ax
        elif how == "copyframe":
            g, ax2 = ReferenceFrame(np.array(ax)), ax
        else:
            g, ax2 = frame(rng, d, nf)
        comps2 = values(rng, comps.shape, pick(rng, ["normal", "int", "sparse", "uniform", "neg"]))
        u = build(kind, comps2, g)
    a = to_ambient(comps, ax, rank)
    b = to_ambient(comps2, ax2, rank)
    for name, ref, op in (("+", a + b, lambda: t + u), ("-", a - b, lambda: t - u)):
        fr = Frozen(t=t.array, u=u.array, f=f.axes, g=g.axes)
        r = op()
        sc = np.abs(a).max() + np.abs(b).max() if a.size else 0.0
        m.ok(type(r) is type(t), "the class of the result", op=name)
        m.ok(r is not t and r is not u, "the result is a new object")
        m.ok(r.rank == rank, "the rank of the result", op=name)
        m.ok(r.is_bulk() == t.is_bulk(), "a collection stays a collection", op=name)
        m.close(arr(r.frame.axes), ax, "the result is given in the axes of the left operand", **TOL)
        m.close(arr(r.array), to_frame(ref, ax, rank), "components of a sum", scale=6 * sc, op=name, **TOL)
        m.close(arr(r.show()), ref, "ambient components of a sum", scale=sc, op=name, **TOL)
        fr.check(m)
        m.ok(t.frame is f and u.frame is g, "the operands stay in their frames")
        # the result keeps representing the sum if frames change afterwards
        r.frame.axes = frame_axes(rng, "reference", d, nf, cond=10)
        m.close(arr(r.show()), ref, "a sum survives a change of its frame", scale=sc, op=name, **TOL)
        fr.check(m)
    # inplace
    op = pick(rng, ["+=", "-="])
    fr = Frozen(f=f.axes, g=g.axes) if u is t else Frozen(u=u.array, f=f.axes, g=g.axes)
    t0 = t
    if op == "+=":
        t += u
        ref = a + b
    else:
        t -= u
        ref = a - b
    m.ok(t is t0, "an inplace operation returns the left operand", op=op)
    m.ok(t.frame is f and u.frame is g, "the operands of an inplace operation stay in their frames")
    m.close(arr(t.array), to_frame(ref, ax, rank), "components of an inplace sum", scale=6 * sc, op=op, **TOL)
    m.close(arr(t.show()), ref, "ambient components of an inplace sum", scale=sc, op=op, **TOL)
    fr.check(m)
    f.axes = ax2 = frame_axes(rng, "cartesian" if type(f).__name__ == "CartesianFrame" else "rectangular" if type(f).__name__ == "RectangularFrame" else "reference", d, nf, cond=10)
    m.close(arr(t.show()), ref, "an inplace sum survives a change of the frame", scale=sc, op=op, **TOL)


@scenario(quick=320, thorough=5000)
def scalars(m, rng, i):
    kind, d, nf, rank, f, ax, comps, t = setup(m, rng, i)
    a = to_ambient(comps, ax, rank)
    s = scalar(rng)
    m.note(scalar=repr(s))
    fr = Frozen(t=t.array, f=f.axes)
    for name, ref, fn in (
        ("*", float(s), lambda: t * s),
        ("/", 1.0 / float(s), lambda: t / s),
        ("neg", -1.0, lambda: -t),
        ("np.negative", -1.0, lambda: np.negative(t)),
        ("/(1/s)", float(s), lambda: t / (1.0 / float(s))),
    ):
        r = fn()
        m.ok(type(r) is type(t), "the class of a multiple", op=name)
        m.ok(r is not t, "the multiple is a new object")
        m.ok(r.rank == rank, "the rank of a multiple", op=name)
        m.ok(r.is_bulk() == t.is_bulk(), "a collection stays a collection", op=name)
        m.close(arr(r.frame.axes), ax, "the multiple is given in the axes of the operand", **TOL)
        m.close(arr(r.array), comps * ref, "components of a multiple", op=name, rtol=1e-12, atol=1e-300)
        m.close(arr(r.show()), a * ref, "ambient components of a multiple", op=name, **TOL)
        fr.check(m)
        # the collection can be used like any other
        tgt, at = frame(rng, d, None)
        m.close(arr(r.show(tgt)), to_frame(a * ref, at, rank), "components of a multiple in another frame", op=name, rtol=1e-7, atol=1e-10)
    # a multiple follows the frame like the operand does
    op = pick(rng, ["*=", "/="])
    t0 = t
    if op == "*=":
        t *= s
        k = float(s)
    else:
        t /= s
        k = 1.0 / float(s)
    m.ok(t is t0, "an inplace operation returns the operand", op=op)
    m.ok(t.frame is f, "an inplace operation leaves the frame alone")
    m.equal(arr(f.axes), ax, "an inplace operation leaves the axes alone")
    m.close(arr(t.array), comps * k, "components after inplace scaling", op=op, rtol=1e-12, atol=1e-300)
    m.close(arr(t.show()), a * k, "ambient components after inplace scaling", op=op, **TOL)


@scenario(quick=160, thorough=2500)
def histories(m, rng, i):
    """Chains of operations on a pool of tensors of the same kind."""
    kind, d, nf, rank, f, ax, comps, t = setup(m, rng, i)
    pool = [[t, to_ambient(comps, ax, rank)]]
    for _ in range(2):
        g, ax2 = (f, ax) if rng.random() < 0.3 else frame(rng, d, nf)
        c = values(rng, comps.shape, "normal")
        pool.append([build(kind, c, g), to_ambient(c, ax2, rank)])
    top = max(float(np.abs(az).max()) for _, az in pool)
    for _ in range(8):
        j, k = int(rng.integers(len(pool))), int(rng.integers(len(pool)))
        (x, ax_), (y, ay) = pool[j], pool[k]
        op = pick(rng, ["+", "-", "+=", "-=", "*", "/", "*=", "/=", "neg", "+=s0", "frame", "copy"])
        s = float(pick(rng, [0.5, 2.0, -1.0, 1.5]))
        m.step([op, j, k, s])
        if op == "+":
            pool.append([x + y, ax_ + ay])
        elif op == "-":
            pool.append([x - y, ax_ - ay])
        elif op == "+=":
            x0 = x
            x += y
            m.ok(x is x0, "an inplace operation returns the left operand")
            pool[j][1] = ax_ + ay
        elif op == "-=":
            x0 = x
            x -= y
            m.ok(x is x0, "an inplace operation returns the left operand")
            pool[j][1] = ax_ - ay
        elif op == "*":
            pool.append([x * s, ax_ * s])
        elif op == "/":
            pool.append([x / s, ax_ / s])
        elif op == "*=":
            x *= s
            pool[j][1] = ax_ * s
        elif op == "/=":
            x /= s
            pool[j][1] = ax_ / s
        elif op == "neg":
            pool.append([-x, -ax_])
        elif op == "+=s0":
            x -= 0.0
            x += 0
        elif op == "frame":
            x.frame = ReferenceFrame(np.array(frame_axes(rng, "reference", d, nf, cond=10)))
        elif op == "copy":
            pool.append([x.copy(), ax_])
        if len(pool) > 6:
            pool = pool[-6:]
        top = max([top] + [float(np.abs(az).max()) for _, az in pool])
        for z, az in pool:
            m.close(arr(z.show()), az, "ambient components after a history", rtol=1e-7, atol=1e-9, scale=top, op=op)
            m.ok(type(z) is type(t), "the class after a history", op=op)


@scenario(quick=60, thorough=600)
def shifts(m, rng, i):
    """A scalar is added to or subtracted from every component."""
    kind, d, nf, rank, f, ax, comps, t = setup(m, rng, i)
    s = scalar(rng)
    m.note(scalar=repr(s))
    t0 = t
    t += s
    m.close(arr(t.array), comps + float(s), "inplace addition of a scalar")
    t -= s
    t -= s
    m.close(arr(t.array), comps - float(s), "inplace subtraction of a scalar", atol=1e-9)
    m.ok(t is t0 and t.frame is f, "the operand and its frame stay the same")
    m.equal(arr(f.axes), ax, "the axes stay the same")


@scenario(quick=120, thorough=1500)
def units(m, rng, i):
    """Operands in frames of different units, or in frames that are nearly the same."""
    kind, d, multi = ALL[i % len(ALL)]
    rank = KINDS[kind][1]
    n = grow(rng, pick(rng, [1, 2, 3]), 270) if multi else None
    shape = shape_of(rng, kind, d, n)
    u, w, c = unit(rng), unit(rng), unit(rng)
    near = rng.random() < 0.5
    ax = frame_axes(rng, "reference", d, n, cond=10) * u
    if near:
        w = u
        ax2 = ax + u * float(10.0 ** rng.uniform(-6, -3)) * rng.uniform(0.5, 1, ax.shape)
    else:
        ax2 = frame_axes(rng, "reference", d, n, cond=10) * w
    f, g = ReferenceFrame(np.array(ax), name=name(rng)), ReferenceFrame(np.array(ax2), name=name(rng))
    ca = values(rng, shape, "normal") * c
    cb = values(rng, shape, "normal") * (c * (u / w) ** rank)
    t, s = build(kind, ca, f), build(kind, cb, g)
    a, b = to_ambient(ca, ax, rank), to_ambient(cb, ax2, rank)
    m.note(kind=kind, axes=ax, axes2=ax2, a=ca, b=cb)
    m.feat("units", "near" if near else "far")
    sc = float(np.abs(a).max() + np.abs(b).max())
    sa = 10.0**rank * sc / u**rank
    tol = dict(rtol=1e-9, atol=0.0)
    fr = Frozen(t=t.array, s=s.array, f=f.axes, g=g.axes)
    for op, ref, fn in (("+", a + b, lambda: t + s), ("-", a - b, lambda: t - s)):
        r = fn()
        m.close(arr(r.show()), ref, "ambient components of a sum", scale=sc, op=op, **tol)
        m.close(arr(r.array), to_frame(ref, ax, rank), "components of a sum", scale=sa, op=op, **tol)
    k = unit(rng) * float(rng.uniform(1, 2))
    m.close(arr((t * k).show()), a * k, "ambient components of a multiple", **tol)
    m.close(arr((t / k).show()), a / k, "ambient components of a multiple", **tol)
    fr.check(m)
    t -= s
    m.close(arr(t.array), to_frame(a - b, ax, rank), "components of an inplace sum", scale=sa, **tol)
    t += s
    t += s
    m.close(arr(t.show()), a + b, "ambient components of an inplace sum", scale=2 * sc, **tol)
