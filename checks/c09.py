"""C09: rotation matrices are proper rotations that compose as requested."""

import numpy as np
import sympy as sy

from c02 import elementary
from mon.core import Frozen, core_scenarios_reset, pick, rotation, scenario, values
from mon.tens import (
    FRAMES, KINDS, CartesianFrame, ReferenceFrame, apply, arr, build, frame_axes, shape_of, to_ambient, to_frame,
)

core_scenarios_reset(__name__)

from sigmaepsilon.math.linalg import rotation_matrix

ORDERS = [a + b + c for a in "XYZ" for b in "XYZ" for c in "XYZ" if a != b and b != c]
TOL = dict(rtol=0, atol=1e-10)


def angles(rng):
    kind = pick(rng, ["any", "any", "large", "huge", "small", "quarter", "zero", "mixed", "int"])
    if kind == "any":
        a = rng.uniform(-np.pi, np.pi, 3)
    elif kind == "large":
        a = rng.uniform(-60, 60, 3)
    elif kind == "huge":
        a = rng.uniform(-1e6, 1e6, 3)
    elif kind == "small":
        a = rng.uniform(-1e-6, 1e-6, 3)
    elif kind == "quarter":
        a = rng.integers(-4, 5, 3) * np.pi / 2
    elif kind == "zero":
        a = np.zeros(3)
        a[rng.integers(3)] = rng.uniform(-3, 3)
    elif kind == "int":
        return [int(x) for x in rng.integers(-5, 6, 3)], kind
    else:
        a = rng.uniform(-3, 3, 3) * np.array([1, 1e-3, 10])[rng.permutation(3)]
    return [float(x) for x in a], kind


def product(how, a, order):
    mats = [elementary("XYZ".index(c), float(x)) for c, x in zip(order, a)]
    return mats[2] @ mats[1] @ mats[0] if how == "Body" else mats[0] @ mats[1] @ mats[2]


def request(rng, i):
    """A requested rotation and the matrix it stands for."""
    how = ["Body", "Space", "Body", "Space", "Quaternion", "DCM"][i % 6]
    if how in ("Body", "Space"):
        order = ORDERS[(i // 6) % len(ORDERS)]
        a, kind = angles(rng)
        k = ["XYZ".index(c) for c in order]
        R = product(how, a, order)
        digits = "".join(str(j + 1) for j in k)
        name = pick(rng, [order, order.lower(), digits, int(digits)])
        amounts = pick(rng, [list, tuple])(a)
        return (how, amounts, name), R, kind
    if how == "Quaternion":
        q = rng.normal(size=4)
        if rng.random() < 0.2:
            q = np.eye(4)[rng.integers(4)] * pick(rng, [1.0, -1.0])
        q = q / np.linalg.norm(q)
        w, x, y, z = q
        A = np.array([
            [1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
            [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)],
        ])
        return (how, [float(v) for v in q]), A.T, "quaternion"
    Q = rotation(rng, 3)
    return (how, sy.Matrix(Q.tolist())), Q.T, "dcm"


def note(m, args, kind):
    m.note(request=[args[0], str(args[1]), str(args[2:])])
    m.feat("type:" + args[0], "angles:" + kind, *(["order:" + str(args[2]).upper()] if len(args) > 2 else []))


@scenario(quick=420, thorough=5000, modes=("py",))
def matrices(m, rng, i):
    args, ref, kind = request(rng, i)
    note(m, args, kind)
    R = rotation_matrix(*args)
    m.ok(isinstance(R, np.ndarray) and R.dtype == float, "a matrix of floats is returned")
    m.close(R, ref, "the product of the elementary rotations in the order requested", **TOL)
    m.close(R @ R.T, np.eye(3), "orthogonal", **TOL)
    m.close(np.linalg.det(R), 1.0, "determinant one", **TOL)
    m.close(rotation_matrix(*args), R, "asked again, the same matrix", rtol=0, atol=0)
    R[...] = 7.0  # what was returned belongs to the caller
    m.close(rotation_matrix(*args), ref, "asked again, the same matrix", **TOL)
    if args[0] in ("Body", "Space"):
        # the same angles about other axes, in the other sense
        o = pick(rng, ORDERS)
        for how in ("Body", "Space"):
            m.close(rotation_matrix(how, args[1], o), product(how, args[1], o),
                    "the product of the elementary rotations in the order requested", again=how, order=o, **TOL)
        m.close(rotation_matrix(*args), ref, "asked again, the same matrix", **TOL)


@scenario(quick=150, thorough=2500)
def frames(m, rng, i):
    args, R, kind = request(rng, i)
    note(m, args, kind)
    cls = ["reference", "cartesian", "rectangular"][i % 3]
    if cls == "rectangular":
        cls = "cartesian" if rng.random() < 0.5 else "reference"
    n = int(pick(rng, [1, 2, 4])) if cls == "reference" and rng.random() < 0.25 else None
    ax = frame_axes(rng, cls, 3, n, cond=10)
    f = FRAMES[cls](np.array(ax))
    t = build("vb" if n else "v", values(rng, (n, 3) if n else (3,), "normal"), f)
    s = arr(t.show())
    fr = Frozen(f=f.axes, t=t.array)
    g = pick(rng, [f.orient_new, f.rotate_new, lambda *a: f.rotate(*a, inplace=False)])(*args)
    m.close(arr(g.axes), ax @ R, "a new frame is rotated as requested", rtol=1e-9)
    m.ok(type(g) is type(f), "the rotated frame is of the same class")
    fr.check(m)
    r = pick(rng, [f.orient, f.rotate])(*args)
    m.ok(r is f, "inplace rotation returns the frame")
    m.close(arr(f.axes), ax @ R, "a frame is rotated as requested", rtol=1e-9)
    m.close(arr(t.show()), s, "a tensor does not rotate with its frame", rtol=1e-8)
    # the inverse rotation restores the frame
    f.orient("DCM", sy.Matrix(R.tolist()))
    m.close(arr(f.axes), ax, "the inverse rotation restores the frame", rtol=1e-9)
    m.close(arr(t.show()), s, "a tensor does not rotate with its frame", rtol=1e-8)
    m.close(arr(t.array), fr.copies["t"], "the inverse rotation restores the components", rtol=1e-8, atol=1e-9)
    if args[0] in ("Body", "Space"):
        # reversed angles in the reversed order
        order = str(args[2])[::-1]
        back = [-x for x in args[1]][::-1]
        g.orient(args[0], back, order)
        m.close(arr(g.axes), ax, "reversed angles in the reversed order restore the frame", rtol=1e-9)
    # two rotations in a row
    args2, R2, _ = request(rng, int(rng.integers(1000)))
    f.orient(*args).orient(*args2)
    m.close(arr(f.axes), ax @ R @ R2, "successive rotations compose", rtol=1e-9)


@scenario(quick=150, thorough=2500)
def tensors(m, rng, i):
    args, R, kind = request(rng, i)
    note(m, args, kind)
    kinds = ["v", "t2", "2x3", "vb", "t2b", "t3", "t4", "4x3", "t4b", "2x3bb", "vbb", "t2g"]
    k = kinds[(i // 2) % len(kinds)]
    rank = KINDS[k][1]
    ax = frame_axes(rng, "cartesian", 3)
    comps = values(rng, shape_of(rng, k, 3), "normal")
    f = CartesianFrame(np.array(ax)) if rng.random() < 0.5 else ReferenceFrame(np.array(ax))
    t = build(k, comps, f)
    m.feat("kind:" + k)
    u = t.orient_new(*args)
    m.close(arr(u.array), apply(R.T, comps, rank), "a new tensor is rotated as requested", rtol=1e-9)
    m.equal(arr(t.array), comps, "a new tensor leaves the original alone")
    m.close(np.linalg.norm(u.array), np.linalg.norm(comps), "a rotation keeps the magnitude", rtol=1e-9)
    t.orient(*args)
    m.close(arr(t.array), apply(R.T, comps, rank), "a tensor is rotated as requested", rtol=1e-9)
    m.equal(arr(f.axes), ax, "rotating a tensor leaves the frame alone")
    t.orient("DCM", sy.Matrix(R.tolist()))
    m.close(arr(t.array), comps, "the inverse rotation restores the tensor", rtol=1e-9)
    # rotating the tensor or observing it from the frame rotated the other way
    back = ReferenceFrame(np.array(R.T @ ax)) if False else None
    if rank == 1 and t.array.ndim == 1:
        v = build("v", comps, ReferenceFrame(np.eye(3)))
        w = v.orient_new(*args)
        g = ReferenceFrame(np.eye(3)).orient_new(*args)
        m.close(arr(w.show(g)), comps, "a vector rotated with the frame has the same components in it", rtol=1e-9)
