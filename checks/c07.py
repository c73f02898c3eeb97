"""C07: copies and results are independent of what they were made of."""

import copy
import gc

import numpy as np

from mon.core import Frozen, layout, pick, scenario, values
from mon.tens import (
    FRAMES, KINDS, ReferenceFrame, arr, build, frame_axes, shape_of, to_ambient, to_frame,
)

NAMES = ["reference", "reference", "rectangular", "cartesian"]
ALL = [(k, d, False) for k in KINDS for d in KINDS[k][4]] + [
    (k, d, True) for k in ["vb", "vbb", "t2b", "2x3b", "2x3bb", "t4b", "4x3b", "4x3bb", "4x3bbb"] for d in KINDS[k][4]
]
TOL = dict(rtol=1e-7, atol=1e-10)


def clsname(f):
    return {"ReferenceFrame": "reference", "RectangularFrame": "rectangular", "CartesianFrame": "cartesian"}[type(f).__name__]


def setup(m, rng, i):
    kind, d, multi = ALL[i % len(ALL)]
    rank = KINDS[kind][1]
    shape = shape_of(rng, kind, d, int(pick(rng, [1, 2, 4])) if multi else None)
    nf = shape[0] if multi else None
    cls = "reference" if multi else pick(rng, NAMES)
    ax = frame_axes(rng, cls, d, nf, cond=10)
    f = FRAMES[cls](np.array(ax))
    comps = values(rng, shape, pick(rng, ["normal", "int", "sparse", "neg"]))
    t = build(kind, comps, f)
    m.note(kind=kind, d=d, axes=ax, comps=comps, cls=cls)
    m.feat("kind:" + kind, "frame:" + cls)
    return kind, d, nf, rank, f, ax, comps, t


def mutate_tensor(rng, t, d, nf):
    """Changes what the tensor represents, or only how; returns a label."""
    how = pick(rng, ["array", "array[...]", "item", "*=", "+=", "T", "orient", "frame", "chop"])
    if how == "T" and nf is None and t.rank == 1:
        how = "array"
    if how == "orient" and (d != 3 or t.array.ndim - t.rank > 1):
        how = "*="
    if how == "array":
        t.array = np.array(t.array) * 2.0 + 1.0
    elif how == "array[...]":
        t.array[...] = 5.5
    elif how == "item":
        t[0] = 7.25
    elif how == "*=":
        t *= -3.0
    elif how == "+=":
        t += t
    elif how == "T":
        t.transpose(inplace=True)
        t *= 2.0
    elif how == "orient":
        t.orient("Space", [0.3, -0.2, 0.9], "XYZ")
    elif how == "frame":
        t.frame = ReferenceFrame(np.array(frame_axes(rng, "reference", d, nf, cond=10)))
        t.array[...] = -1.5
    else:
        t.array[...] = 1e-14
        t.chop()
    return how


def mutate_frame(rng, f, d, nf):
    how = pick(rng, ["axes", "orient", "*=", "transpose"])
    if how == "transpose" and clsname(f) == "rectangular":
        how = "axes"
    if how == "orient" and d != 3:
        how = "axes"
    if how == "axes":
        f.axes = frame_axes(rng, clsname(f), d, nf, cond=10)
    elif how == "orient":
        f.orient("Body", [0.4, 0.1, -0.6], "XYZ")
    elif how == "*=":
        if clsname(f) == "cartesian":
            f.axes = frame_axes(rng, "cartesian", d, nf)
        else:
            f *= 1.5
    else:
        f.transpose(inplace=True)
    return how


def state(f, *ts):
    return [arr(f.axes)] + [arr(t.array) for t in ts] + [arr(t.show()) for t in ts]


def same(m, before, after, what, **ctx):
    for a, b in zip(before, after):
        m.close(b, a, what, **ctx, **TOL)


@scenario(quick=320, thorough=5000)
def tensor_copies(m, rng, i):
    kind, d, nf, rank, f, ax, comps, t = setup(m, rng, i)
    amb = to_ambient(comps, ax, rank)
    how = pick(rng, ["copy", "copy.copy", "deep", "deepcopy", "copy.deepcopy"])
    m.note(how=how)
    m.feat("copy:" + how)
    fr = Frozen(t=t.array, f=f.axes)
    c = {
        "copy": lambda: t.copy(),
        "copy.copy": lambda: copy.copy(t),
        "deep": lambda: t.copy(deep=True),
        "deepcopy": lambda: t.deepcopy(),
        "copy.deepcopy": lambda: copy.deepcopy(t),
    }[how]()
    deep = "deep" in how
    fr.check(m, "copying leaves the original alone")
    m.ok(c is not t, "a copy is a new object")
    m.ok(type(c) is type(t), "a copy is of the same class")
    m.ok(c.rank == t.rank == rank and c.is_bulk() == t.is_bulk(), "a copy is of the same order and arrangement")
    m.close(arr(c.array), comps, "a copy has the same components", rtol=1e-12)
    m.close(arr(c.show()), amb, "a copy represents the same", **TOL)
    m.close(arr(c.frame.axes), ax, "a copy is given in the same axes", rtol=1e-12)
    m.ok(not np.shares_memory(c.array, t.array), "a copy has its own components")
    if deep:
        m.ok(c.frame is not f, "a deep copy has its own frame")
        m.ok(not np.shares_memory(c.frame.axes, f.axes), "a deep copy has its own axes")
    else:
        m.ok(c.frame is f, "a copy stays in the frame of the original")
    # mutate one of the two tensors
    for _ in range(2):
        x, y = (c, t) if rng.random() < 0.5 else (t, c)
        before = state(y.frame, y)
        lab = mutate_tensor(rng, x, d, nf)
        m.step(["mutate", "copy" if x is c else "original", lab])
        same(m, before, state(y.frame, y), "mutating one of original and copy leaves the other alone", how=lab)
    # mutate the frames
    for _ in range(2):
        x, y = (c, t) if rng.random() < 0.5 else (t, c)
        sx, before = arr(x.show()), state(y.frame, y)
        shared = x.frame is y.frame
        lab = mutate_frame(rng, x.frame, d, nf)
        m.step(["mutate frame of", "copy" if x is c else "original", lab])
        m.close(arr(x.show()), sx, "a change of the frame does not change what the tensor represents", rtol=1e-7, atol=1e-9)
        m.close(arr(y.show()), before[-1], "a change of the frame does not change what the other tensor represents", rtol=1e-7, atol=1e-9)
        if not shared:
            same(m, before, state(y.frame, y), "a change of one frame leaves the other tensor alone", how=lab)
        else:
            m.close(arr(y.array), to_frame(before[-1], arr(y.frame.axes), rank), "a copy follows the shared frame", rtol=1e-6, atol=1e-9)
    # the original goes away
    if rng.random() < 0.5:
        s = arr(c.show())
        g = c.frame
        del x, y, t
        gc.collect()
        mutate_frame(rng, g, d, nf)
        m.close(arr(c.show()), s, "a copy outlives the original", rtol=1e-7, atol=1e-9)


@scenario(quick=240, thorough=4000)
def frame_copies(m, rng, i):
    kind, d, nf, rank, f, ax, comps, t = setup(m, rng, i)
    amb = to_ambient(comps, ax, rank)
    how = pick(rng, ["copy", "copy.copy", "deep", "deepcopy", "copy.deepcopy", "orient_new", "constructor", "rotate_new"])
    m.note(how=how)
    m.feat("framecopy:" + how)
    f.name = "A"
    fr = Frozen(t=t.array, f=f.axes)
    g = {
        "copy": lambda: f.copy(),
        "copy.copy": lambda: copy.copy(f),
        "deep": lambda: f.copy(deep=True),
        "deepcopy": lambda: f.deepcopy(name="B"),
        "copy.deepcopy": lambda: copy.deepcopy(f),
        "orient_new": lambda: f.orient_new(),
        "rotate_new": lambda: f.rotate_new(),
        "constructor": lambda: type(f)(f.axes),
    }[how]()
    fr.check(m, "copying leaves the original alone")
    m.ok(g is not f, "a copy is a new frame")
    m.ok(type(g) is type(f), "the copy of a frame is of the same class")
    m.ok(not np.shares_memory(g.axes, f.axes), "the copy of a frame has its own axes")
    m.close(arr(g.axes), ax, "the copy of a frame has the same axes", rtol=1e-12)
    m.ok(t.frame is f, "the tensor stays with the original frame")
    c2 = values(rng, comps.shape, "normal")
    u = build(kind, c2, g)
    amb2 = to_ambient(c2, ax, rank)
    for _ in range(3):
        x, own, y, other = (f, t, g, u) if rng.random() < 0.5 else (g, u, f, t)
        before = state(y, other)
        s = arr(own.show())
        lab = mutate_frame(rng, x, d, nf)
        m.step(["mutate", "original" if x is f else "copy", lab])
        same(m, before, state(y, other), "a change of one of original and copy leaves the other alone", how=lab)
        m.close(arr(np.asarray(y)), before[0], "a change of one of original and copy leaves the other alone", how=lab)
        m.close(arr(own.show()), s, "a change of the frame does not change what the tensor represents", rtol=1e-7, atol=1e-9)
    m.close(arr(t.show()), amb, "a tensor keeps what it represents", rtol=1e-7, atol=1e-9)
    m.close(arr(u.show()), amb2, "a tensor keeps what it represents", rtol=1e-7, atol=1e-9)


@scenario(quick=240, thorough=4000)
def inputs(m, rng, i):
    """Arrays passed in are copied and never changed."""
    kind, d, nf, rank, f, ax, comps, t = setup(m, rng, i)
    lay = pick(rng, ["C", "F", "strided", "view"])
    a = layout(rng, ax, lay)
    c = layout(rng, comps, pick(rng, ["C", "F", "strided", "view"]))
    fr = Frozen(a=a, c=c)
    g = FRAMES[clsname(f)](a)
    u = KINDS[kind][0](c, frame=g, **KINDS[kind][3])
    fr.check(m, "creation leaves the arrays alone")
    a[...] = 99.0
    c[...] = -99.0
    m.close(arr(g.axes), ax, "a frame does not see later changes of the array", rtol=1e-12, layout=lay)
    m.close(arr(np.asarray(g)), ax, "a frame does not see later changes of the array", rtol=1e-12, layout=lay)
    m.close(arr(u.array), comps, "a tensor does not see later changes of the array", rtol=1e-12, layout=lay)
    # assignment
    ax2 = frame_axes(rng, clsname(f), d, nf, cond=10)
    a = layout(rng, ax2, pick(rng, ["C", "F", "strided", "view"]))
    s = arr(u.show())
    fr = Frozen(a=a)
    g.axes = a
    fr.check(m, "assignment leaves the array alone")
    a[...] = 77.0
    m.close(arr(g.axes), ax2, "the axes do not see later changes of the array", rtol=1e-12)
    m.close(arr(u.show()), s, "a tensor does not see later changes of the array", **TOL)
    c2 = values(rng, comps.shape, "normal")
    c = layout(rng, c2, pick(rng, ["C", "F", "strided", "view"]))
    fr = Frozen(c=c)
    u.array = c
    fr.check(m, "assignment leaves the array alone")
    c[...] = 55.0
    m.close(arr(u.array), c2, "the components do not see later changes of the array", rtol=1e-12)
    # a frame given as an array
    if nf is None:
        ax3 = frame_axes(rng, "reference", d, nf, cond=10)
        a = layout(rng, ax3, pick(rng, ["C", "F", "strided"]))
        s = arr(u.show())
        fr = Frozen(a=a)
        u.frame = a
        fr.check(m, "assignment leaves the array alone")
        a[...] = 44.0
        m.close(arr(u.frame.axes), ax3, "the frame does not see later changes of the array", rtol=1e-12)
        m.close(arr(u.show()), s, "a tensor does not see later changes of the array", **TOL)
        m.close(arr(g.axes), ax2, "the former frame is left alone", rtol=1e-12)
    # components of one tensor used to make another
    w = KINDS[kind][0](u.array, frame=u.frame, **KINDS[kind][3])
    s, p = arr(u.show()), arr(u.array)
    w *= 2.0
    m.close(arr(u.array), p, "a tensor made of the components of another is independent")
    u *= 3.0
    m.close(arr(w.show()), 2 * s, "a tensor made of the components of another is independent", **TOL)
    # a frame made of the axes of another
    h = ReferenceFrame(g.axes)
    p = arr(g.axes)
    h *= 2.0
    m.close(arr(g.axes), p, "a frame made of the axes of another is independent")
    g.axes = frame_axes(rng, clsname(f), d, nf, cond=10)
    m.close(arr(h.axes), 2 * p, "a frame made of the axes of another is independent")


@scenario(quick=240, thorough=4000)
def results(m, rng, i):
    """Out-of-place results."""
    kind, d, nf, rank, f, ax, comps, t = setup(m, rng, i)
    u = build(kind, values(rng, comps.shape, "normal"), f)
    ops = ["*", "/", "neg", "+", "-", "dual", "T", "show", "showT", "orient_new"]
    how = ops[(i // len(ALL)) % len(ops)] if rng.random() < 0.5 else pick(rng, ops)
    if how == "orient_new" and d != 3:
        how = "*"
    T = ReferenceFrame(np.array(frame_axes(rng, "reference", d, cond=10)))
    m.note(op=how)
    m.feat("op:" + how)
    fr = Frozen(t=t.array, u=u.array, f=f.axes)
    r = {
        "*": lambda: t * 2.0,
        "/": lambda: t / 4,
        "neg": lambda: -t,
        "+": lambda: t + u,
        "-": lambda: t - u,
        "dual": lambda: t.dual(),
        "T": lambda: t.T,
        "show": lambda: t.show(),
        "showT": lambda: t.show(pick(rng, [f, T])),
        "orient_new": lambda: t.orient_new("Space", [0.1, 0.2, 0.3], "XYZ"),
    }[how]()
    fr.check(m, "an operation leaves the operands alone")
    if isinstance(r, np.ndarray):
        r[...] = 3.25
        fr.check(m, "mutating a result leaves the operands alone")
        return
    m.ok(not np.shares_memory(r.array, t.array) and not np.shares_memory(r.array, u.array), "a result has its own components")
    s = arr(r.show())
    # mutate the operands
    before_r = arr(r.array)
    lab = mutate_tensor(rng, t, d, nf)
    m.close(arr(r.show()), s, "mutating an operand leaves the result alone", how=lab, **TOL)
    m.close(arr(r.array), before_r, "mutating an operand leaves the result alone", how=lab, **TOL)
    # mutate the result
    before = state(t.frame, t) + state(u.frame, u)
    lab = mutate_tensor(rng, r, d, nf)
    same(m, before, state(t.frame, t) + state(u.frame, u), "mutating a result leaves the operands alone", how=lab)
    # change frames
    s, q = arr(r.show()), [arr(t.show()), arr(u.show())]
    mutate_frame(rng, f, d, nf)
    mutate_frame(rng, r.frame, d, nf)
    m.close(arr(r.show()), s, "a change of the frames leaves the result alone", rtol=1e-7, atol=1e-9)
    m.close(arr(t.show()), q[0], "a change of the frames leaves the operand alone", rtol=1e-7, atol=1e-9)
    m.close(arr(u.show()), q[1], "a change of the frames leaves the operand alone", rtol=1e-7, atol=1e-9)


@scenario(quick=120, thorough=2000)
def frame_results(m, rng, i):
    kind, d, nf, rank, f, ax, comps, t = setup(m, rng, i)
    s = arr(t.show())
    fr = Frozen(t=t.array, f=f.axes)
    x = frame_axes(rng, "reference", d, nf, cond=10)
    frx = Frozen(x=x)
    how = ["*", "+", "-", "@", "dual", "T", "sqrt", "orient_new"][(i // 3) % 8]
    if how == "orient_new" and d != 3:
        how = "@"
    if how == "T" and clsname(f) == "rectangular":
        how = "dual"
    if how == "dual" and clsname(f) == "cartesian":
        how = "*"  # a cartesian frame is its own dual
    m.note(op=how)
    m.feat("op:" + how)
    r = {
        "*": lambda: f * 2.0,
        "+": lambda: f + x,
        "-": lambda: f - x,
        "@": lambda: f @ x,
        "dual": lambda: f.dual(),
        "T": lambda: f.T,
        "sqrt": lambda: np.abs(f),
        "orient_new": lambda: f.orient_new("Body", [0.2, -1.0, 0.4], "ZXZ"),
    }[how]()
    fr.check(m, "an operation leaves the frame and its tensors alone")
    frx.check(m)
    m.ok(not np.shares_memory(r.axes, f.axes), "a result has its own axes")
    ref = arr(r.axes)
    x[...] = 0.0
    mutate_frame(rng, f, d, nf)
    m.close(arr(r.axes), ref, "a change of the operand leaves the result alone")
    before = state(f, t)
    r.axes = frame_axes(rng, clsname(r), d, nf, cond=10)
    same(m, before, state(f, t), "a change of the result leaves the operand and its tensors alone")
    m.close(arr(t.show()), s, "a tensor keeps what it represents", **TOL)
