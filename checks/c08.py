"""C08: illegal operations raise and leave everything as it was."""

import numpy as np

from mon.core import pick, scenario, values
from mon.tens import (
    FRAMES, KINDS, CartesianFrame, RectangularFrame, ReferenceFrame, Tensor, Tensor2, Tensor2x3,
    Tensor4, Tensor4x3, Vector, arr, build, frame_axes, kinds_for, shape_of, to_ambient,
)

from sigmaepsilon.math.linalg import cross, dot, show_frame, show_vector

EXC = Exception


class World:
    def __init__(self, m, rng, d, n=None):
        self.m, self.rng, self.d, self.n = m, rng, d, n
        self.frames, self.tensors = [], []
        for _ in range(3):
            self.add_frame()
        for _ in range(5):
            self.add_tensor()
        self.arrays = [values(rng, (d,), "normal"), values(rng, (d, d), "normal"), values(rng, (4, d), "normal")]

    def add_frame(self, cls=None):
        rng = self.rng
        cls = cls or ("reference" if self.n else pick(rng, ["reference", "rectangular", "cartesian"]))
        f = FRAMES[cls](np.array(frame_axes(rng, cls, self.d, self.n)))
        self.frames.append([f, cls])
        return f

    def add_tensor(self, kind=None, f=None):
        rng = self.rng
        kind = kind or pick(rng, kinds_for(self.d, self.n is not None, 4))
        f = f if f is not None else pick(rng, self.frames)[0]
        t = build(kind, values(rng, shape_of(rng, kind, self.d, self.n), "normal"), f)
        self.tensors.append([t, kind])
        return t

    def snap(self):
        return dict(
            axes=[arr(f.axes) for f, _ in self.frames],
            np=[arr(np.asarray(f)) for f, _ in self.frames],
            cls=[type(f) for f, _ in self.frames],
            comps=[arr(t.array) for t, _ in self.tensors],
            tcls=[(type(t), t.rank, t.is_bulk()) for t, _ in self.tensors],
            of=[id(t.frame) for t, _ in self.tensors],
            arrays=[a.copy() for a in self.arrays],
        )

    def compare(self, s, what):
        m = self.m
        now = self.snap()
        for k in ("axes", "np", "comps", "arrays"):
            for j, (a, b) in enumerate(zip(s[k], now[k])):
                m.equal(b, a, "everything is as it was before the illegal operation", after=what, part=k, index=j)
        for k in ("cls", "tcls", "of"):
            m.ok(s[k] == now[k], "everything is as it was before the illegal operation", after=what, part=k)

    def alive(self, what):
        """The tensors still follow their frames."""
        m, rng = self.m, self.rng
        amb = [arr(t.show()) for t, k in self.tensors]
        f, cls = pick(rng, self.frames)
        new = frame_axes(rng, cls, self.d, self.n)
        f.axes = new
        m.close(arr(f.axes), new, "the frame works after an illegal operation", after=what)
        now = [arr(t.show()) for t, k in self.tensors]
        for a, b in zip(amb, now):
            m.close(b, a, "tensors follow their frame after an illegal operation", rtol=1e-7, atol=1e-9, after=what)

    def illegal(self, fn, what, exc=EXC):
        m = self.m
        s = self.snap()
        m.step(what)
        m.feat(what)
        m.raises(exc, fn, what)
        self.compare(s, what)


def other_shape(rng, d, rank, shape):
    """A tensor of the same rank and another shape."""
    k = d + 1 if d < 4 else d - 1
    return (k,) * rank


def imul(x, y):
    x *= y


def idiv(x, y):
    x /= y


def iadd(x, y):
    x += y


def isub(x, y):
    x -= y


def ipow(x, y):
    x **= y


def imat(x, y):
    x @= y


def tensor_ops(w, rng):
    t, kind = pick(rng, w.tensors)
    u, kind2 = pick(rng, w.tensors)
    a = pick(rng, w.arrays)
    b = np.ones(t.array.shape)
    w.arrays = w.arrays[:3] + [b]
    bad = pick(rng, ["a", None, [1.0, 2.0], {"x": 1}, (1,), a, b, object()])
    ops = {
        "t * x": lambda: t * bad,
        "t * t": lambda: t * u,
        "t *= x": lambda: imul(t, bad),
        "t *= t": lambda: imul(t, u),
        "t / x": lambda: t / bad,
        "t / t": lambda: t / u,
        "t /= x": lambda: idiv(t, bad),
        "t /= t": lambda: idiv(t, u),
        "t @ t": lambda: t @ u,
        "t @ x": lambda: t @ a,
        "x @ t": lambda: a @ t,
        "t @= t": lambda: imat(t, u),
        "t @= x": lambda: imat(t, a),
        "t ** n": lambda: t**2,
        "t **= n": lambda: ipow(t, 2),
        "t + x": lambda: t + bad,
        "t - x": lambda: t - bad,
        "t + number": lambda: t + 2.0,
        "t - number": lambda: t - 2,
        "t += x": lambda: iadd(t, bad),
        "t -= x": lambda: isub(t, bad),
        "array + t": lambda: b + t,
        "array - t": lambda: b - t,
        "array * t": lambda: b * t,
        "array / t": lambda: b / t,
        "number / t": lambda: 2.0 / t,
        "number + t": lambda: 2.0 + t,
        "t // n": lambda: t // 2,
        "t % n": lambda: t % 2,
        "+t": lambda: +t,
        "abs(t)": lambda: abs(t),
        "t < u": lambda: t < u,
        "np.add": lambda: np.add(t, t),
        "np.add array": lambda: np.add(t, b),
        "np.add out": lambda: np.add(b, b, out=t),
        "np.multiply": lambda: np.multiply(t, 2.0),
        "np.sin": lambda: np.sin(t),
        "np.sqrt out": lambda: np.sqrt(t, out=t),
        "np.add.reduce": lambda: np.add.reduce(t),
        "np.multiply.accumulate": lambda: np.multiply.accumulate(t),
        "np.negative out": lambda: np.negative(t, out=t),
        "np.negative out array": lambda: np.negative(t, out=b),
        "np.negative.at": lambda: np.negative.at(t, 0),
        "np.sum": lambda: np.sum(t),
        "np.mean": lambda: np.mean(t),
        "np.transpose": lambda: np.transpose(t),
        "np.concatenate": lambda: np.concatenate([t, t]),
        "np.linalg.norm": lambda: np.linalg.norm(t),
        "np.trace": lambda: np.trace(t),
        "np.dot array": lambda: np.dot(t, a),
        "np.allclose array": lambda: np.allclose(t, b),
        "np.einsum": lambda: np.tensordot(t, u),
        "frame = x": lambda: setattr(t, "frame", pick(rng, ["a", None, 3, [[1.0, 0.0], [0.0, 1.0]]])),
        "frame = wrong dimension": lambda: setattr(t, "frame", ReferenceFrame(dim=w.d + 1)),
        "frame = wrong dimension array": lambda: setattr(t, "frame", np.eye(w.d + 1)),
        "frame = singular": lambda: setattr(t, "frame", ReferenceFrame(np.zeros((w.d, w.d)))),
        "frame = wrong number": lambda: setattr(t, "frame", ReferenceFrame(dim=(t.array.shape[0] + 2, w.d))),
        "array = wrong shape": lambda: setattr(t, "array", np.ones(t.array.shape + (2,))),
        "array = wrong shape 2": lambda: setattr(t, "array", np.ones((w.d + 1,) * t.array.ndim)),
        "array = number": lambda: setattr(t, "array", 3.0),
        "array = text": lambda: setattr(t, "array", "abc"),
        "cross T T": lambda: cross(Tensor2(np.eye(3)), Tensor2(np.eye(3))),
        "dot to nowhere": lambda: dot(Tensor2(np.eye(3)), Tensor2(np.eye(3)), frame="a"),
        "dot without axes": lambda: dot(Tensor(np.ones((3, 3, 3))), Tensor2(np.eye(3))),
        "dot with out": lambda: dot(Vector(np.ones(3)), Vector(np.ones(3)), out=b),
        "cross with array": lambda: cross(Vector(np.ones(3)), np.ones(3)),
    }
    return ops


def mismatched(w, rng):
    t, kind = pick(rng, w.tensors)
    rank = KINDS[kind][1]
    # same class, another shape
    if KINDS[kind][2]:
        shape = (t.array.shape[0] + 1,) + t.array.shape[1:]
        if w.n is not None:
            g = ReferenceFrame(dim=(shape[0], w.d))
        else:
            g = ReferenceFrame(np.array(t.frame.axes))
        u = build(kind, np.ones(shape), g)
    else:
        shape = (w.d + 1,) * rank
        if type(t) in (Tensor2x3, Tensor4x3):
            return {}
        u = build(kind, np.ones(shape), ReferenceFrame(dim=w.d + 1))
    ops = {
        "t + t shape": lambda: t + u,
        "t - t shape": lambda: t - u,
        "t += t shape": lambda: iadd(t, u),
        "t -= t shape": lambda: isub(t, u),
    }
    # a single item and a collection, collections of one item included
    base = t.array.shape[len(t.array.shape) - rank :]
    if KINDS[kind][2]:
        single = {"vb": "v", "vbb": "v", "t2b": "t2", "2x3b": "2x3", "2x3bb": "2x3", "2x3bbb": "2x3",
                  "t4b": "t4", "4x3b": "4x3", "4x3bb": "4x3", "4x3bbb": "4x3"}[kind]
        y = build(single, np.ones(base), ReferenceFrame(dim=w.d))
    else:
        many = {"v": "vb", "t2": "t2b", "2x3": "2x3b", "t4": "t4b", "4x3": "4x3b"}.get(kind)
        y = None if many is None else build(many, np.ones((int(pick(rng, [1, 2, 3])),) + base), ReferenceFrame(dim=w.d))
    if y is not None:
        ops.update({
            "single and collection +": lambda: t + y,
            "single and collection -": lambda: t - y,
            "single and collection +=": lambda: iadd(t, y),
            "single and collection -=": lambda: isub(t, y),
            "collection and single +": lambda: y + t,
            "collection and single -=": lambda: isub(y, t),
            "collection and single +=": lambda: iadd(y, t),
        })
    same = [s for s in (Vector, Tensor, Tensor2, Tensor4) if type(t) is not s]
    for cls in same:
        kw = {"bulk": True} if KINDS[kind][2] and cls is not Vector else {}
        try:
            v = cls(np.array(t.array), frame=ReferenceFrame(np.array(t.frame.axes)), **kw)
        except Exception:
            continue
        if v.array.shape == t.array.shape:
            ops["t + t class"] = lambda v=v: t + v
            ops["t - t class"] = lambda v=v: t - v
    return ops


def frame_ops(w, rng):
    f, cls = pick(rng, w.frames)
    t, kind = pick(rng, w.tensors)
    d = w.d
    bad = pick(rng, ["a", None, {"x": 1}, object(), 3.0])
    sh = tuple(f.axes.shape)
    ops = {
        "axes = x": lambda: setattr(f, "axes", bad),
        "axes = wrong shape": lambda: setattr(f, "axes", np.eye(d + 1)),
        "axes = wrong shape 2": lambda: setattr(f, "axes", np.ones(sh + (2,))),
        "axes = row": lambda: setattr(f, "axes", np.ones(d)),
        "axes = list": lambda: setattr(f, "axes", [[1.0] * (d + 1)] * d),
        "axes = text": lambda: setattr(f, "axes", [["a"] * d] * d),
        "item = text": lambda: f.__setitem__((0, 0), "a"),
        "item = wrong shape": lambda: f.__setitem__(0, np.ones(sh + (d + 1,))),
        "item out of range": lambda: f.__setitem__(sh[0], 1.0),
        "name = number": lambda: setattr(f, "name", 3),
        "f + x": lambda: f + "a",
        "f * x": lambda: f * {"x": 1},
        "f + shape": lambda: f + np.ones((d + 1, d + 1)),
        "f += shape": lambda: iadd(f, np.ones((d + 1, d + 1))),
        "f *= shape": lambda: imul(f, np.ones((d + 1, d + 1))),
        "f @= shape": lambda: imat(f, np.ones((d + 1, d + 1))),
        "f @ shape": lambda: f @ np.ones((d + 1, d + 1)),
        "f -= text": lambda: isub(f, "a"),
        "f + t": lambda: f + t,
        "f * t": lambda: f * t,
        "np.add(f, t)": lambda: np.add(f, t),
        "np.add out shape": lambda: np.add(f, np.ones((d + 1, d + 1)), out=f),
        "show in wrong dimension": lambda: t.show(ReferenceFrame(dim=d + 1)),
        "frame of text": lambda: ReferenceFrame("abc"),
        "not rectangular": lambda: RectangularFrame(np.array([[1.0, 1.0], [0.0, 1.0]])),
        "not cartesian": lambda: CartesianFrame(2 * np.eye(d)),
    }
    if d == 3:
        ops.update({
            "orient bogus": lambda: f.orient("Bogus", [1, 2, 3], "XYZ"),
            "orient few": lambda: f.orient("Body", [1, 2], "XYZ"),
            "orient order": lambda: f.orient("Space", [1, 2, 3], "XYW"),
            "orient_new bogus": lambda: f.orient_new("Bogus", [1, 2, 3], "XYZ"),
            "tensor orient bogus": lambda: t.orient("Bogus", [1, 2, 3], "XYZ"),
            "tensor orient_new few": lambda: t.orient_new("Body", [1, 2], "XYZ"),
        })
    else:
        ops.update({"orient in another dimension": lambda: f.orient("Space", [0, 0, 1.0], "XYZ")})
    if cls != "reference":
        skew = np.eye(d)
        skew[0, -1] = 0.7
        ops.update({
            "regular item": lambda: f.__setitem__((0, slice(None)), arr(f.axes)[0] + 0.7 * arr(f.axes)[-1]),
            "regular axes = skew": lambda: setattr(f, "axes", skew),
            "regular ufunc out": lambda: np.sqrt(f, out=f),
            "regular add out": lambda: np.add(f, 1.0, out=f),
        })
    if cls == "cartesian":
        ops.update({"cartesian axes = scaled": lambda: setattr(f, "axes", 2.0 * np.eye(d))})
    if any(u.frame is f for u, _ in w.tensors):
        sing = np.ones(sh)
        ops.update({
            "item = singular": lambda: f.__setitem__(Ellipsis, 0.0),
            "chop to singular": lambda: f.chop(tol=1e6),
            "axes = singular": lambda: setattr(f, "axes", sing),
            "f -= f": lambda: isub(f, arr(f.axes)),
            "f *= 0": lambda: imul(f, 0.0),
            "f *= zero array": lambda: imul(f, np.zeros(sh)),
        })
        if cls == "reference":
            ops["np.subtract out singular"] = lambda: np.subtract(f, arr(f.axes), out=f)
    return ops


CREATE = {
    "Tensor2 3x4": lambda: Tensor2(np.ones((3, 4))),
    "Tensor2 1d": lambda: Tensor2(np.ones(3)),
    "Tensor2 3d": lambda: Tensor2(np.ones((2, 3, 3))),
    "Tensor2 bulk 2d": lambda: Tensor2(np.ones((3, 3)), bulk=True),
    "Tensor2 bulk 4d": lambda: Tensor2(np.ones((2, 2, 3, 3)), bulk=True),
    "Tensor2x3 2x2": lambda: Tensor2x3(np.ones((2, 2))),
    "Tensor2x3 1d": lambda: Tensor2x3(np.ones(3)),
    "Tensor2x3 bulk": lambda: Tensor2x3(np.ones((3, 3)), bulk=True),
    "Tensor2x3 not bulk": lambda: Tensor2x3(np.ones((2, 3, 3)), bulk=False),
    "Tensor2x3 n 2 2": lambda: Tensor2x3(np.ones((5, 2, 2))),
    "Tensor4 3d": lambda: Tensor4(np.ones((3, 3, 3))),
    "Tensor4 uneven": lambda: Tensor4(np.ones((3, 3, 3, 2))),
    "Tensor4 5d": lambda: Tensor4(np.ones((2, 3, 3, 3, 3))),
    "Tensor4 bulk 4d": lambda: Tensor4(np.ones((3, 3, 3, 3)), bulk=True),
    "Tensor4x3 2222": lambda: Tensor4x3(np.ones((2, 2, 2, 2))),
    "Tensor4x3 bulk": lambda: Tensor4x3(np.ones((3, 3, 3, 3)), bulk=True),
    "Tensor4x3 not bulk": lambda: Tensor4x3(np.ones((2, 3, 3, 3, 3)), bulk=False),
    "Tensor uneven": lambda: Tensor(np.ones((3, 3, 2))),
    "Tensor frame text": lambda: Tensor(np.ones((3, 3)), frame="a"),
    "Vector frame array": lambda: Vector(np.ones(3), frame=np.eye(3)),
    "Vector list no frame": lambda: Vector([1.0, 2.0]),
    "Tensor2 list no frame": lambda: Tensor2([[1.0, 2.0], [3.0, 4.0]]),
    "Tensor2 list 1d": lambda: Tensor2([1.0, 2.0, 3.0], frame=ReferenceFrame(dim=3)),
    "Tensor2 list 2x3": lambda: Tensor2([[1.0, 2.0, 3.0]] * 2, frame=ReferenceFrame(dim=3)),
    "Tensor2 list 3d": lambda: Tensor2([[[1.0, 2.0]] * 2] * 5, frame=ReferenceFrame(dim=2)),
    "Tensor2x3 list 2x3": lambda: Tensor2x3([[1.0, 2.0, 3.0]] * 2, frame=ReferenceFrame(dim=3)),
    "Tensor2x3 list bulk": lambda: Tensor2x3(np.eye(3).tolist(), frame=ReferenceFrame(dim=3), bulk=True),
    "Tensor4 list 1d": lambda: Tensor4([1.0, 2.0, 3.0], frame=ReferenceFrame(dim=3)),
    "Tensor4 list 2d": lambda: Tensor4(np.eye(3).tolist(), frame=ReferenceFrame(dim=3)),
    "Tensor4x3 list 3d": lambda: Tensor4x3(np.ones((3, 3, 3)).tolist(), frame=ReferenceFrame(dim=3)),
    "Tensor list uneven": lambda: Tensor(np.ones((2, 2, 3)).tolist(), frame=ReferenceFrame(dim=3)),
    "Tensor list ragged": lambda: Tensor([[1.0, 2.0], [3.0]], frame=ReferenceFrame(dim=2)),
    "Tensor2 rank": lambda: Tensor2(np.ones((3, 3)), rank=2),
    "Tensor4 rank": lambda: Tensor4(np.ones((3, 3, 3, 3)), rank=4),
    "Vector nothing": lambda: Vector(),
    "Vector, frame of another dimension": lambda: Vector(np.ones(3), frame=ReferenceFrame(dim=2)),
    "Vector list, frame of another dimension": lambda: Vector([1.0, 2.0], frame=CartesianFrame(dim=3)),
    "Vectors, frame of another dimension": lambda: Vector(np.ones((5, 2)), frame=ReferenceFrame(dim=3)),
    "Vectors, frames of another number": lambda: Vector(np.ones((5, 3)), frame=ReferenceFrame(dim=(4, 3))),
    "Vectors, one frame in a collection": lambda: Vector(np.ones((5, 3)), frame=ReferenceFrame(dim=(1, 3)), bulk=True),
    "Tensor, frame of another dimension": lambda: Tensor(np.ones((2, 2, 2)), frame=ReferenceFrame(dim=3)),
    "Tensor2, frame of another dimension": lambda: Tensor2(np.ones((2, 2)), frame=CartesianFrame(dim=3)),
    "Tensor2 bulk, frame of another dimension": lambda: Tensor2(np.ones((3, 2, 2)), frame=ReferenceFrame(dim=3), bulk=True),
    "Tensor2 bulk, frames of another number": lambda: Tensor2(np.ones((4, 2, 2)), frame=ReferenceFrame(dim=(2, 2)), bulk=True),
    "Tensor2x3, frame of another dimension": lambda: Tensor2x3(np.ones((3, 3)), frame=ReferenceFrame(dim=2)),
    "Tensor2x3, frames of another number": lambda: Tensor2x3(np.ones((4, 2, 3, 3)), frame=ReferenceFrame(dim=(2, 3))),
    "Tensor4, frame of another dimension": lambda: Tensor4(np.ones((2, 2, 2, 2)), frame=ReferenceFrame(dim=3)),
    "Tensor4x3, frames of another number": lambda: Tensor4x3(np.ones((4, 3, 3, 3, 3)), frame=ReferenceFrame(dim=(3, 3))),
}


def world(m, rng, i):
    d = [3, 3, 2, 4][i % 4]
    n = [None, None, 3][i % 3]
    if n and d == 4:
        n = None
    w = World(m, rng, d, n)
    m.note(d=d, n=n, kinds=[k for _, k in w.tensors], axes=arr(w.frames[0][0].axes))
    return w


@scenario(quick=90, thorough=1500)
def illegal(m, rng, i):
    w = world(m, rng, i)
    for _ in range(18):
        group = pick(rng, [tensor_ops, tensor_ops, frame_ops, frame_ops, mismatched])
        ops = group(w, rng)
        if not ops:
            continue
        name = pick(rng, sorted(ops))
        w.illegal(ops[name], name)
        if rng.random() < 0.4:
            w.alive(name)
    w.alive("the end")


@scenario(quick=8, thorough=60)
def every(m, rng, i):
    """Every illegal operation at least once."""
    w = world(m, rng, i)
    for group in (tensor_ops, frame_ops, mismatched):
        for name in sorted(group(w, rng)):
            ops = group(w, rng)
            if name in ops:
                w.illegal(ops[name], name)
        w.alive(name)
    for name, fn in CREATE.items():
        w.illegal(fn, name)
    w.alive("creation")


class FaultyVector(Vector):
    """A vector that cannot be transformed while armed."""

    armed = False

    def show(self, *args, **kwargs):
        if FaultyVector.armed:
            raise RuntimeError("fault")
        return super().show(*args, **kwargs)


class FaultyTensor(Tensor2x3):
    armed = False

    def show(self, *args, **kwargs):
        if FaultyTensor.armed:
            raise RuntimeError("fault")
        return super().show(*args, **kwargs)

    def transform_components(self, *args, **kwargs):
        if FaultyTensor.armed:
            raise RuntimeError("fault")
        return super().transform_components(*args, **kwargs)


@scenario(quick=80, thorough=1200)
def atomic(m, rng, i):
    """A change of a frame fails because of one of its tensors."""
    n = [None, None, 3][i % 3]
    w = World(m, rng, 3, n)
    m.note(axes=arr(w.frames[0][0].axes), i=i)
    f, cls = w.frames[(i // 3) % 3]
    how = [FaultyVector, FaultyTensor][(i // 9) % 2]
    for _ in range(2):
        w.add_tensor(f=f)
    pre = () if n is None else (n,)
    for _ in range(1 + i % 2):
        w.tensors.append([how(values(rng, pre + ((3,) if how is FaultyVector else (3, 3)), "normal"), frame=f), "bad"])
    for _ in range(2):
        w.add_tensor(f=f)
    m.feat("atomic:" + how.__name__, f"atomic:{cls}")
    new = frame_axes(rng, cls, 3, w.n)
    ops = {
        "axes with a tensor that can't follow": lambda: setattr(f, "axes", new),
        "orient with a tensor that can't follow": lambda: f.orient("Space", [0.1, 0.2, 0.3], "XYZ"),
        "*= with a tensor that can't follow": lambda: imul(f, 2.0),
        "+= with a tensor that can't follow": lambda: iadd(f, 0.01 * np.ones(f.axes.shape)),
        "@= with a tensor that can't follow": lambda: imat(f, frame_axes(rng, "cartesian", 3)),
        "out= with a tensor that can't follow": lambda: np.add(f, 0.01, out=f),
        "at with a tensor that can't follow": lambda: np.multiply.at(f, [0, 1], 1.5),
    }
    for what, fn in ops.items():
        s = w.snap()
        m.step(what)
        how.armed = True
        try:
            fn()
        except Exception:
            m.feat("failed: " + what)
        else:
            m.feat("did not need the tensor: " + what)
            continue
        finally:
            how.armed = False
        w.compare(s, what)
    # everything works afterwards
    amb = [arr(t_.show()) for t_, _ in w.tensors]
    cls = {ReferenceFrame: "reference", RectangularFrame: "rectangular", CartesianFrame: "cartesian"}[type(f)]
    new = frame_axes(rng, cls, 3, w.n)
    f.axes = new
    for a, (t_, _) in zip(amb, w.tensors):
        m.close(arr(t_.show()), a, "tensors follow their frame after a failed change", rtol=1e-7, atol=1e-9)
    m.close(arr(f.axes), new, "the frame works after a failed change")


@scenario(quick=60, thorough=600)
def mismatched_collections(m, rng, i):
    """Collections of different length are never combined."""
    n = int(rng.integers(1, 6))
    k = int(rng.integers(0, n)) + (0 if rng.random() < 0.5 else n + 1)
    d = 3
    D = rng.normal(size=(k, d, d))
    V = rng.normal(size=(n, d))
    A = rng.normal(size=(n, d, d))
    m.note(n=n, k=k, D=D)
    if k == n:
        k, D = n + 1, rng.normal(size=(n + 1, d, d))
    m.raises(EXC, lambda: show_vector(D, V), "vectors and matrices of different number")
    m.raises(EXC, lambda: show_frame(D, A), "frames and matrices of different number")
    kind = ["vb", "t2b", "2x3b", "2x3bb", "t4b", "4x3b", "4x3bb"][i % 7]
    f = ReferenceFrame(np.array(frame_axes(rng, "reference", d)))
    g = ReferenceFrame(np.array(frame_axes(rng, "reference", d, k + 1 if k + 1 != n else n + 1)))
    t = build(kind, rng.normal(size=(n,) + ((2,) if kind.endswith("bb") else ()) + (d,) * KINDS[kind][1]), f)
    before = arr(t.array)
    m.raises(EXC, lambda: t.show(g), "components in a collection of frames of another length")
    m.raises(EXC, lambda: setattr(t, "frame", g), "a collection of frames of another length")
    m.equal(arr(t.array), before, "everything is as it was before the illegal operation")
    m.ok(t.frame is f, "everything is as it was before the illegal operation")
