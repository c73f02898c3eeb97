"""C03: frame classes, their promises and their operators."""

import numpy as np

from mon.core import Frozen, axes, layout, pick, scenario, values
from mon.tens import FRAMES, KINDS, Vector, arr, frame_axes, good, rotation, to_ambient

from sigmaepsilon.math.linalg import (
    CartesianFrame, RectangularFrame, ReferenceFrame, rotation_matrix,
)

NAMES = ["reference", "rectangular", "cartesian"]


def off(a):
    g = a @ a.T
    return float(np.abs(g - np.diag(np.diag(g))).max()) / float(np.abs(g).max())


def promises(m, f, ax, what):
    a = arr(f.axes)
    m.close(a, ax, "axes of the frame", after=what)
    if isinstance(f, RectangularFrame):
        m.ok(off(a) < 1e-6, "a rectangular frame has perpendicular axes", axes=a, cls=type(f), after=what)
        m.ok(f.is_rectangular is True or bool(f.is_rectangular), "a rectangular frame says so", after=what)
    if isinstance(f, CartesianFrame):
        m.ok(np.abs(a @ a.T - np.eye(len(a))).max() < 1e-6, "a cartesian frame has orthonormal axes", axes=a, after=what)
        m.ok(bool(f.is_cartesian), "a cartesian frame says so", after=what)


def clearly_skew(rng, d):
    """not rectangular, beyond any tolerance"""
    while True:
        a = axes(rng, d, "skew")
        n = a / np.linalg.norm(a, axis=1)[:, None]
        if np.abs(n @ n.T - np.eye(d)).max() > 0.05:
            return a


def bad_axes(rng, cls, d):
    kind = pick(rng, ["skew", "slight", "lengths", "last", "first", "one", "cancel"]) if cls == "cartesian" else pick(rng, ["skew", "slight", "last", "cancel"])
    if kind == "skew":
        return kind, clearly_skew(rng, d)
    a = rotation(rng, d)
    if kind == "slight":
        a = a + 0.0
        a[-1] += 0.05 * a[0]
    elif kind == "lengths":
        a = a * rng.uniform(1.3, 3)
    elif kind == "cancel":
        # scalar products that sum to zero
        g = np.eye(d)
        t = float(rng.uniform(0.05, 0.6))
        g[0, 1] = g[1, 0] = t
        if d > 2:
            g[0, 2] = g[2, 0] = -t
        a = np.linalg.cholesky(g) @ a
    elif kind == "last":
        a[-1] += a[-2] * 0.5
    elif kind == "first":
        a[0] *= 1.05
    elif kind == "one":
        a[-1] *= 0.7
    return kind, a


@scenario(quick=150, thorough=2000, modes=("jit",))
def rejected_input(m, rng, i):
    d = [3, 2, 4][i % 3]
    cls = ["rectangular", "cartesian"][(i // 3) % 2]
    C = FRAMES[cls]
    kind, bad = bad_axes(rng, cls, d)
    if cls == "rectangular" and rng.random() < 0.5:
        # base vectors in other units, all together or one by one
        bad = bad * 2.0 ** rng.integers(-30, 31, size=(d, 1) if rng.random() < 0.5 else (1, 1))
        m.feat("bad in other units")
    m.note(bad=bad, kind=kind, cls=cls)
    m.feat(f"bad:{cls}:{kind}")
    fr = Frozen(bad=bad)
    m.raises(Exception, lambda: C(np.array(bad)), "axes that break the promise are rejected at creation")
    ax = frame_axes(rng, cls, d)
    f = C(np.array(ax))
    v = values(rng, (d,), "normal")
    vec = Vector(np.array(v), frame=f)
    how = pick(rng, ["array", "list", "F"])
    val = bad.tolist() if how == "list" else layout(rng, bad, "F" if how == "F" else "C")

    def setit():
        f.axes = val

    m.raises(Exception, setit, "axes that break the promise are rejected at assignment")
    promises(m, f, ax, "rejected assignment")
    m.equal(arr(f.axes), ax, "a rejected assignment leaves the axes alone")
    m.equal(arr(vec.array), v, "a rejected assignment leaves the tensors alone")
    m.ok(vec.frame is f, "a rejected assignment leaves the tensors on the frame")

    # wrong shapes and types
    wrong = pick(rng, [np.eye(d + 1), np.ones(d), np.ones((2, d, d)), 5, None, "axes"])

    def setwrong():
        f.axes = wrong

    m.raises(Exception, setwrong, "axes of the wrong shape or type are rejected")
    m.equal(arr(f.axes), ax, "a rejected assignment leaves the axes alone")
    m.equal(arr(vec.array), v, "a rejected assignment leaves the tensors alone")
    if cls == "rectangular" and off(ax.T) > 0.05:
        m.raises(Exception, lambda: f.transpose(inplace=True), "a transposition that breaks the promise is rejected")
        m.raises(Exception, lambda: f.T, "a transposition that breaks the promise is rejected")
        m.equal(arr(f.axes), ax, "a rejected transposition leaves the axes alone")
        m.equal(arr(vec.array), v, "a rejected transposition leaves the tensors alone")
        m.feat("transpose-rejected")
    # universal functions must not write into a frame that cannot take it
    uf = pick(rng, [lambda: np.add(f, 1.0, out=f), lambda: np.sqrt(np.abs(bad), out=f), lambda: np.multiply(f, bad, out=f)])
    m.raises(Exception, uf, "universal functions do not write into regular frames")
    m.equal(arr(f.axes), ax, "a rejected universal function leaves the axes alone")
    m.equal(arr(vec.array), v, "a rejected universal function leaves the tensors alone")
    fr.check(m)
    # the legal ones are accepted
    ok = frame_axes(rng, cls, d)
    f.axes = ok
    promises(m, f, ok, "legal assignment")
    if cls == "rectangular":
        # legal axes in other units
        q = rotation(rng, d) * rng.uniform(0.5, 2, (d, 1)) * 2.0 ** rng.integers(-30, 31, size=(d, 1) if rng.random() < 0.5 else (1, 1))
        g = C(np.array(q))
        m.ok(bool(g.is_rectangular), "legal axes in other units", axes=q)
        f.axes = q
        m.close(arr(f.axes), q, "legal axes in other units", rtol=1e-12, atol=0.0)
    promises(m, C(np.array(ok)), ok, "legal creation")


OPS = {
    "*s": lambda a, x: a * x, "/s": lambda a, x: a / x, "*i": lambda a, x: a * x, "/i": lambda a, x: a / x,
    "*A": lambda a, x: a * x, "/A": lambda a, x: a / x, "+A": lambda a, x: a + x, "-A": lambda a, x: a - x,
    "+s": lambda a, x: a + x, "-s": lambda a, x: a - x, "@A": lambda a, x: a @ x, "**": lambda a, x: a**x,
    "*r": lambda a, x: a * x, "/r": lambda a, x: a / x, "*c": lambda a, x: a * x, "+r": lambda a, x: a + x,
    "-c": lambda a, x: a - x,
}


def operand(rng, op, d, shape):
    if op in ("*s", "/s"):
        return float(rng.uniform(0.3, 3)) * pick(rng, [1, -1])
    if op in ("*i", "/i"):
        return int(pick(rng, [1, 2, 3, -1, -2]))
    if op in ("*A", "/A"):
        return rng.uniform(0.5, 2, shape) * rng.choice([1, -1], shape)
    if op in ("*r", "/r", "+r"):
        return rng.uniform(0.5, 2, d) * rng.choice([1, -1], d)
    if op in ("*c", "-c"):
        return rng.uniform(0.5, 2, (d, 1)) * rng.choice([1, -1], (d, 1))
    if op in ("+A", "-A"):
        return rng.normal(size=shape)
    if op in ("+s", "-s"):
        return float(rng.normal())
    if op == "@A":
        return axes(rng, d)
    return int(pick(rng, [2, 3]))


def iop(f, op, x):
    g = f
    if op == "**":
        g **= x
    elif op[0] == "*":
        g *= x
    elif op[0] == "/":
        g /= x
    elif op[0] == "+":
        g += x
    elif op[0] == "-":
        g -= x
    else:
        g @= x
    return g


def expected_type(cls, op, inplace):
    scalar = op in ("*s", "/s", "*i", "/i")
    if cls == "reference" or not scalar:
        return ReferenceFrame
    return RectangularFrame


@scenario(quick=510, thorough=5000, modes=("jit",))
def operators(m, rng, i):
    names = list(OPS)
    op = names[i % len(names)]
    cls = NAMES[(i // len(names)) % 3]
    d = [3, 2, 4, 3][(i // (3 * len(names))) % 4]
    for _ in range(80):
        ax = frame_axes(rng, cls, d)
        x = operand(rng, op, d, ax.shape)
        ref = OPS[op](ax, x)
        if np.linalg.cond(ref) < 1e4:
            break
    f = FRAMES[cls](np.array(ax))
    m.note(op=op, cls=cls, axes=ax, x=np.asarray(x))
    m.feat(f"{cls}{op}")
    fr = Frozen(f=f.axes, x=np.asarray(x))
    r = OPS[op](f, x)
    m.ok(isinstance(r, ReferenceFrame), "operators return frames", got=type(r))
    m.ok(type(r) is expected_type(cls, op, False), "class of the result of an operator", got=type(r), op=op, cls=cls)
    m.ok(r is not f, "operators return new frames")
    promises(m, r, ref, f"{cls} {op}")
    fr.check(m, "the operands of an operator are left as they were")
    m.ok(not np.shares_memory(np.asarray(r.axes), np.asarray(f.axes)), "the result has its own axes")
    promises(m, f, ax, "operand")
    # inplace
    r = iop(f, op, x)
    if cls == "reference" or (cls == "rectangular" and op in ("*s", "/s", "*i", "/i")):
        m.ok(r is f, "an inplace operator works inplace", op=op, cls=cls)
    else:
        m.ok(type(r) is expected_type(cls, op, True), "class of the result of an inplace operator", got=type(r), op=op, cls=cls)
    promises(m, r, ref, f"{cls} {op}=")
    if r is not f:
        promises(m, f, ax, "the frame left behind")
    if isinstance(x, np.ndarray):
        m.equal(x, fr.copies["x"], "the right operand of an inplace operator is left as it was")


@scenario(quick=120, thorough=1500, modes=("jit",))
def universal_functions(m, rng, i):
    cls = NAMES[i % 3]
    d = [3, 2, 4][(i // 3) % 3]
    ax = frame_axes(rng, cls, d)
    f = FRAMES[cls](np.array(ax))
    fr = Frozen(f=f.axes)
    un = pick(rng, ["negative", "absolute", "square", "exp", "sin", "cos", "arctan", "cbrt", "sign", "tanh"])
    r = getattr(np, un)(f)
    m.note(cls=cls, un=un, axes=ax)
    m.ok(type(r) is ReferenceFrame, "universal functions return general frames", got=type(r))
    m.close(arr(r.axes), getattr(np, un)(ax), "universal function of the axes")
    fr.check(m)
    A = rng.normal(size=ax.shape)
    s = float(rng.uniform(0.5, 2))
    for name, call, ref in [
        ("array + frame", lambda: A + f, A + ax), ("array - frame", lambda: A - f, A - ax),
        ("array * frame", lambda: A * f, A * ax), ("scalar * frame", lambda: s * f, s * ax),
        ("scalar - frame", lambda: s - f, s - ax), ("array @ frame", lambda: A @ f, A @ ax),
        ("np.add", lambda: np.add(f, A), ax + A), ("np.matmul", lambda: np.matmul(f, A), ax @ A),
        ("np.maximum", lambda: np.maximum(f, A), np.maximum(ax, A)), ("-frame", lambda: -f, -ax),
        ("frame + list", lambda: f + A.tolist(), ax + A),
        ("np.subtract frame", lambda: np.subtract(A, f), A - ax),
    ]:
        r = call()
        m.ok(isinstance(r, ReferenceFrame), "universal functions return frames", name=name)
        promises(m, r, ref, name)
        fr.check(m)
    g = FRAMES[pick(rng, NAMES)](np.array(frame_axes(rng, "cartesian", d)))
    ga = arr(g.axes)
    m.close(arr((f + g).axes), ax + ga, "sum of frames")
    m.close(arr((f @ g).axes), ax @ ga, "product of frames")
    fr.check(m)
    # NumPy functions see the axes
    m.close(np.linalg.det(np.asarray(f)), np.linalg.det(ax), "as array")
    m.close(np.sum(f), np.sum(ax), "np.sum of a frame")
    m.close(np.dot(f, A), ax @ A, "np.dot of a frame and an array")
    m.close(np.max(f), ax.max(), "np.max of a frame")
    if cls == "reference":
        t = arr(ax)
        np.multiply(f, s, out=f)
        promises(m, f, t * s, "out=frame")
        h = ReferenceFrame(np.array(ax))
        for _ in range(20):
            B = rng.normal(size=ax.shape)
            if np.linalg.cond(ax + B) < 1e3:
                break
        np.add(ax, B, out=h)
        promises(m, h, ax + B, "out=frame")
        o = np.zeros_like(ax)
        np.add(h, 1.0, out=o)
        m.close(o, ax + B + 1.0, "universal function of a frame written to an array")
        promises(m, h, ax + B, "not an output")
    # several results
    x = pick(rng, [1.0, 0.5, 2.0])
    for name, call, ref in [("modf", lambda: np.modf(f), np.modf(arr(f.axes))), ("divmod", lambda: np.divmod(f, x), np.divmod(arr(f.axes), x)), ("builtin divmod", lambda: divmod(f, x), np.divmod(arr(f.axes), x))]:
        r = call()
        m.ok(isinstance(r, tuple) and len(r) == 2, "universal functions with several results return all of them", got=type(r), name=name)
        for a, b in zip(r, ref):
            m.ok(type(a) is ReferenceFrame, "universal functions return frames", name=name)
            m.close(arr(a.axes), b, "axes of the result of a universal function", name=name)
    fr2 = Frozen(f=f.axes)
    if cls == "reference":
        now = arr(f.axes)
        k = [int(v) for v in rng.integers(0, d, 2)]
        np.add.at(f, k, s)
        np.add.at(now, k, s)
        m.close(arr(f.axes), now, "ufunc.at on a frame")
    else:
        m.raises(Exception, lambda: np.add.at(f, [0], s), "universal functions do not write into regular frames")
        m.raises(Exception, lambda: np.multiply.at(f, [0], 3.0), "universal functions do not write into regular frames")
        m.raises(Exception, lambda: np.floor_divide(f, 2.0, out=f), "universal functions do not write into regular frames")
        fr2.check(m, "a rejected universal function leaves the axes alone")
    # illegal types
    m.raises(TypeError, lambda: np.add(f, "a"), "illegal operand of a universal function")
    m.raises(TypeError, lambda: f + {"a": 1}, "illegal operand of an operator")


@scenario(quick=150, thorough=2000, modes=("jit",))
def predicates(m, rng, i):
    d = [3, 2, 4, 3][i % 4]
    kind = ["eye", "rot", "refl", "perm", "rect", "leftrect", "skew", "slight", "unit-skew"][i % 9]
    if kind == "skew":
        a = clearly_skew(rng, d)
    elif kind == "slight":
        a = rotation(rng, d)
        a[-1] += 0.03 * a[0]
    elif kind == "unit-skew":
        a = clearly_skew(rng, d)
        a = a / np.linalg.norm(a, axis=1)[:, None]
    else:
        a = axes(rng, d, kind)
    if kind in ("rect", "leftrect"):
        a[0] *= 1.7
    if kind in ("skew", "slight", "rect", "leftrect") and rng.random() < 0.5:
        a = a * 2.0 ** rng.integers(-20, 21, size=(d, 1) if rng.random() < 0.5 else (1, 1))
        m.feat("other units")
    f = ReferenceFrame(np.array(a))
    m.note(axes=a, kind=kind)
    m.feat("kind:" + kind)
    rect = kind in ("eye", "rot", "refl", "perm", "rect", "leftrect")
    cart = kind in ("eye", "rot", "refl", "perm")
    if kind in ("rect", "leftrect") and np.allclose(np.linalg.norm(a, axis=1), 1, atol=1e-2):
        cart = None
    m.ok(bool(f.is_rectangular) == rect, "is_rectangular is truthful", got=f.is_rectangular)
    if cart is not None:
        m.ok(bool(f.is_cartesian) == cart, "is_cartesian is truthful", got=f.is_cartesian)
    m.ok(bool(f.is_independent), "is_independent is truthful")
    b = np.array(rng.integers(-3, 4, (d, d)), dtype=float)
    j, k = (int(x) for x in rng.choice(d, 2, replace=False))
    b[j] = 0.0 if d > 2 or rng.random() < 0.4 else b[k]
    m.ok(not bool(ReferenceFrame(b).is_independent), "dependent axes are reported", axes=b)
    # regular frames, also those with vanishing axes
    q = rotation(rng, d) * rng.uniform(0.5, 2, d)[:, None]
    R = RectangularFrame(np.array(q))
    m.ok(bool(R.is_independent) and bool(R.is_rectangular), "a regular rectangular frame has independent axes", axes=q)
    m.ok(bool(CartesianFrame(rotation(rng, d)).is_independent), "the axes of a cartesian frame are independent")
    z = np.array(q)
    how = ["axis", "product", "inplace", "cartesian product"][i % 4]
    if how == "axis":
        z[int(rng.integers(d))] = 0.0
        Z = RectangularFrame(z)
    elif how == "product":
        Z = R * 0
    elif how == "inplace":
        Z = RectangularFrame(np.array(q))
        Z *= 0.0
    else:
        Z = CartesianFrame(rotation(rng, d)) * 0.0
    m.feat("vanishing " + how)
    m.ok(not bool(Z.is_independent), "vanishing axes are not independent", axes=arr(Z.axes), cls=type(Z))
    m.ok(not bool(Z.is_cartesian), "vanishing axes are not of unit length", axes=arr(Z.axes))
    # the predicates follow the axes
    n = frame_axes(rng, "cartesian", d)
    f.axes = n
    m.ok(bool(f.is_cartesian) and bool(f.is_rectangular), "predicates follow the axes")
    f.axes = clearly_skew(rng, d)
    m.ok(not bool(f.is_cartesian) and not bool(f.is_rectangular), "predicates follow the axes")


@scenario(quick=60, thorough=800, modes=("jit",))
def chains(m, rng, i):
    """A frame through a chain of operations keeps its promises."""
    d = [3, 3, 2][i % 3]
    cls = ["cartesian", "rectangular"][i % 2]
    ax = frame_axes(rng, cls, d)
    f = FRAMES[cls](np.array(ax))
    v = values(rng, (d,), "normal")
    vec = Vector(np.array(v), frame=f)
    amb = to_ambient(v, ax, 1)
    m.note(cls=cls, axes=ax)
    for _ in range(12):
        what = pick(rng, ["orient", "scale", "copy", "dual", "assign", "bad", "operator", "transpose", "deepcopy"])
        cls = {ReferenceFrame: "reference", RectangularFrame: "rectangular", CartesianFrame: "cartesian"}[type(f)]
        m.step(f"{what} on {cls}")
        if what == "orient" and d == 3:
            ang = [float(x) for x in rng.uniform(-4, 4, 3)]
            f.orient("Body", ang, "XYZ")
            ax = ax @ rotation_matrix("Body", ang, "XYZ")
        elif what == "scale":
            s = float(rng.uniform(0.6, 1.6))
            if not good(ax * s):
                continue
            f *= s
            ax = ax * s
        elif what == "copy":
            promises(m, f.copy(), ax, "copy")
            m.ok(type(f.copy()) is type(f), "a copy is of the same class")
        elif what == "deepcopy":
            promises(m, f.deepcopy(), ax, "deepcopy")
            m.ok(type(f.deepcopy()) is type(f), "a deep copy is of the same class")
        elif what == "dual":
            promises(m, f.dual(), np.linalg.inv(ax).T, "dual")
        elif what == "assign":
            ax = frame_axes(rng, cls, d)
            f.axes = ax
        elif what == "bad" and cls != "reference":
            _, bad = bad_axes(rng, cls, d)

            def setit():
                f.axes = bad

            m.raises(Exception, setit, "axes that break the promise are rejected at assignment")
        elif what == "operator" and rng.random() < 0.3:
            for _ in range(30):
                x = rng.normal(size=(d, d)) * 0.4
                if good(ax + x):
                    break
            else:
                continue
            f += x
            ax = ax + x
            m.ok(type(f) is ReferenceFrame, "class of the result of an inplace operator")
        elif what == "transpose":
            if cls == "rectangular" and off(ax.T) > 1e-9:
                continue
            f.transpose(inplace=True)
            ax = ax.T.copy()
        promises(m, f, ax, what)
        m.close(arr(vec.show()), amb, "the tensors stay what they are", rtol=1e-7)
        m.ok(vec.frame is f, "the tensors stay on the frame")


@scenario(quick=90, thorough=900, modes=("jit",))
def collections(m, rng, i):
    """Operators, functions and transposition of collections of frames."""
    d = [3, 2, 4, 3][i % 4]
    n = int([1, 2, 3, 4, 5, 9][i % 6])
    ax = frame_axes(rng, "reference", d, n)
    f = ReferenceFrame(np.array(ax))
    m.note(axes=ax)
    fr = Frozen(f=f.axes)
    for what, t in [("T", f.T), ("transpose", f.transpose()), ("transpose(inplace=False)", f.transpose(inplace=False))]:
        m.ok(type(t) is ReferenceFrame and t is not f, "transposition out of place returns a new frame", got=type(t))
        m.close(arr(t.axes), np.swapaxes(ax, -1, -2), "transposition is item by item", how=what)
        m.ok(not np.shares_memory(np.asarray(t.axes), np.asarray(f.axes)), "the result has its own axes")
    m.close(arr(f.copy().axes), ax, "copy of a collection")
    m.close(arr(f.deepcopy().axes), ax, "copy of a collection")
    fr.check(m)
    s = float(rng.uniform(0.5, 2))
    A = rng.uniform(0.5, 2, ax.shape)
    B = axes(rng, d)
    row = rng.uniform(0.5, 2, d)
    for name, fn in [
        ("f * s", lambda x: x * s), ("s * f", lambda x: s * x), ("f / s", lambda x: x / s), ("-f", lambda x: -x),
        ("f + A", lambda x: x + A), ("A - f", lambda x: A - x), ("f * A", lambda x: x * A), ("f @ B", lambda x: x @ B),
        ("B @ f", lambda x: B @ x), ("f @ A", lambda x: x @ A), ("f * row", lambda x: x * row), ("f ** 2", lambda x: x**2),
        ("f - B", lambda x: x - B), ("exp", lambda x: np.exp(x)), ("maximum", lambda x: np.maximum(x, A)),
    ]:
        r = fn(f)
        m.ok(type(r) is ReferenceFrame, "operators return frames", got=type(r), name=name)
        m.close(arr(r.axes), fn(ax), "axes of the result of an operator", name=name)
        fr.check(m)
    # inplace
    name = ["*=", "/=", "+=", "-=", "@=", "**=", "T"][i % 7]
    if name == "T":
        r = f.transpose(inplace=True)
        ref = np.swapaxes(ax, -1, -2)
    else:
        op, x = {"*=": ("*s", s), "/=": ("/A", A), "+=": ("+A", A), "-=": ("-s", s), "@=": ("@A", B), "**=": ("**", 2)}[name]
        ref = OPS[op](ax, x)
        r = iop(f, op, x)
    m.ok(r is f, "an inplace operation works inplace", op=name)
    m.close(arr(f.axes), ref, "axes after an inplace operation", op=name)
    m.feat("collection" + name)
