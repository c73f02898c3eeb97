"""C01: tensors keep their ambient components whatever happens to their frames."""

import gc

import numpy as np

from mon.core import axes, layout, pick, rotation, scenario, values
from mon.tens import (
    FRAMES, KINDS, ReferenceFrame, arr, build, frame_axes, good, kinds_for,
    name, shape_of, to_ambient, to_frame, unit,
)

from sigmaepsilon.math.linalg import rotation_matrix


def cancels(a, b, s):
    size = lambda x: float(np.max(np.abs(x))) if x.size else 0.0
    return size(a + s * b) < 0.1 * (size(a) + size(b))


class World:
    """Frames and tensors, and what the model knows about them."""

    def __init__(self, m, rng, d, n, nframes):
        self.m, self.rng, self.d, self.n = m, rng, d, n
        self.frames = []  # [frame, class name, model axes]
        self.tensors = []  # [tensor, kind, index of frame, model ambient]
        for _ in range(nframes):
            self.add_frame()

    def add_frame(self, cls=None, ax=None):
        rng = self.rng
        if cls is None:
            cls = "reference" if self.n else pick(rng, ["reference", "reference", "rectangular", "cartesian"])
        if ax is None:
            ax = frame_axes(rng, cls, self.d, self.n)
        self.frames.append([FRAMES[cls](np.array(ax), name=name(rng)), cls, ax])
        return len(self.frames) - 1

    def add_tensor(self, fi=None, maxrank=4):
        rng = self.rng
        if fi is None:
            fi = int(rng.integers(len(self.frames)))
        kind = pick(rng, kinds_for(self.d, self.n is not None, maxrank))
        comps = values(rng, shape_of(rng, kind, self.d, self.n), pick(rng, ["normal", "int", "sparse", "big", "small"]))
        f, _, ax = self.frames[fi]
        t = build(kind, comps, f)
        self.tensors.append([t, kind, fi, to_ambient(comps, ax, KINDS[kind][1])])
        self.m.step(f"new {kind}{comps.shape} on frame {fi}")
        self.m.feat("tensor:" + kind)

    def verify(self, what):
        m = self.m
        for fi, (f, cls, ax) in enumerate(self.frames):
            m.close(arr(f.axes), ax, "axes of a frame after the history", frame=fi, after=what)
        for ti, (t, kind, fi, amb) in enumerate(self.tensors):
            f, cls, ax = self.frames[fi]
            rank = KINDS[kind][1]
            m.ok(t.frame is f, "the tensor refers to the frame it belongs to", tensor=ti, kind=kind, after=what)
            s = float(np.max(np.abs(amb))) if amb.size else 0.0
            m.close(arr(t.show()), amb, "ambient components of a tensor are conserved", rtol=1e-7, scale=s + 1e-12,
                    atol=1e-12, tensor=ti, kind=kind, after=what)
            ref = to_frame(amb, ax, rank)
            m.close(arr(t.array), ref, "components follow the frame", rtol=1e-7, atol=1e-12, tensor=ti, kind=kind, after=what)

    # -- operations on frames ------------------------------------------------
    def set_frame(self, fi, new, ax, cls=None):
        self.frames[fi] = [new, cls or self.frames[fi][1], ax]

    def op_axes(self, fi):
        rng = self.rng
        f, cls, ax = self.frames[fi]
        new = frame_axes(rng, cls, self.d, self.n)
        how = pick(rng, ["C", "F", "strided", "list", "view", "array-of-frame"])
        if how == "list":
            val = new.tolist()
        elif how == "array-of-frame":
            val = ReferenceFrame(np.array(new)).axes
        else:
            val = layout(rng, new, how)
        f.axes = val
        if isinstance(val, np.ndarray) and how != "array-of-frame":
            val[...] = 0.123  # the frame must not see this
        self.set_frame(fi, f, new)
        return f"axes={how}"

    def op_orient(self, fi):
        rng = self.rng
        f, cls, ax = self.frames[fi]
        if self.d != 3:
            return self.op_axes(fi)
        how = pick(rng, ["Space", "Body", "Axis"])
        ang = [float(x) for x in rng.uniform(-4, 4, 3)]
        if how == "Axis":
            from sympy.physics.vector import ReferenceFrame as SF

            args = ("Axis", [ang[0], SF("S").z])
        else:
            args = (how, ang, pick(rng, ["XYZ", "123", "ZXZ", "313", "YZX", 123]))
        R = rotation_matrix(*args) if how != "Axis" else None
        if R is None:
            c, s = np.cos(ang[0]), np.sin(ang[0])
            R = np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])
            args = ("Space", [0, 0, ang[0]], "XYZ")
        fn = pick(rng, [f.orient, f.rotate])
        res = fn(*args)
        self.m.ok(res is f, "orient returns the frame itself")
        self.set_frame(fi, f, ax @ R)
        return f"orient{args}"

    def op_transpose(self, fi):
        f, cls, ax = self.frames[fi]
        new = np.ascontiguousarray(np.swapaxes(ax, -1, -2))
        if cls == "rectangular":
            g = new @ np.swapaxes(new, -1, -2)
            if np.abs(g - np.diag(np.diag(g))).max() > 1e-12:
                return self.op_axes(fi)
        res = f.transpose(inplace=True)
        self.m.ok(res is f, "inplace transpose returns the frame itself")
        self.set_frame(fi, f, new)
        return "transpose"

    def op_operator(self, fi):
        rng = self.rng
        f, cls, ax = self.frames[fi]
        for _ in range(60):
            op = pick(rng, ["*s", "/s", "*i", "@", "+", "-", "**", "*A", "/A", "+s", "*r", "+r"])
            if op in ("*s", "/s"):
                x = float(rng.uniform(0.5, 2.0)) * (-1 if rng.random() < 0.3 else 1)
            elif op == "*i":
                x = int(pick(rng, [2, -1, 3, 1]))
            elif op == "@":
                x = frame_axes(rng, "reference", self.d, None)
            elif op in ("+", "-"):
                x = rng.normal(size=ax.shape) * 0.5
            elif op == "+s":
                x = float(rng.normal() * 0.3)
            elif op in ("*r", "+r"):
                x = rng.uniform(0.5, 2.0, size=self.d)
                if rng.random() < 0.4:
                    x = x[:, None]
            elif op == "**":
                x = 3
            else:
                x = rng.uniform(0.5, 2.0, size=ax.shape)
            new = {
                "*": lambda: ax * x, "/": lambda: ax / x, "@": lambda: ax @ x,
                "+": lambda: ax + x, "-": lambda: ax - x,
            }[op[0]]() if op != "**" else ax**3
            if good(new):
                break
        else:
            return self.op_axes(fi)
        g = f
        if op == "**":
            g **= x
        elif op[0] == "*":
            g *= x
        elif op[0] == "/":
            g /= x
        elif op[0] == "@":
            g @= x
        elif op[0] == "+":
            g += x
        else:
            g -= x
        scalar = op in ("*s", "/s", "*i")
        if cls == "reference" or (cls == "rectangular" and scalar):
            self.m.ok(g is f, "the operator works inplace", op=op, cls=cls)
            self.set_frame(fi, g, new)
        else:
            ncls = "rectangular" if scalar else "reference"
            self.m.ok(type(g) is FRAMES[ncls], "type of the frame after an inplace operator", got=type(g), op=op, cls=cls)
            self.set_frame(fi, g, new, ncls)
        self.m.feat("op:" + op)
        return f"operator {op}= on {cls}"

    def op_ufunc(self, fi):
        rng = self.rng
        f, cls, ax = self.frames[fi]
        if cls != "reference":
            return self.op_operator(fi)
        for _ in range(60):
            name = pick(rng, ["add", "multiply", "divide", "matmul", "exp", "sinh", "negative", "arctan"])
            fn = getattr(np, name)
            if name in ("exp", "sinh", "negative", "arctan"):
                args = ()
            elif name == "matmul":
                args = (frame_axes(rng, "reference", self.d, None),)
            else:
                args = (float(rng.uniform(0.5, 2)) if rng.random() < 0.5 else rng.uniform(0.5, 2, ax.shape),)
            new = fn(ax, *args)
            if good(new):
                break
        else:
            return self.op_axes(fi)
        res = fn(f, *args, out=f)
        self.m.ok(res is f, "a universal function writing into a frame returns that frame")
        self.set_frame(fi, f, new)
        self.m.feat("ufunc:" + name)
        return f"np.{name}(out=frame)"

    def op_at(self, fi):
        """ufunc.at and the operators without a method of their own."""
        rng = self.rng
        f, cls, ax = self.frames[fi]
        if cls != "reference":
            return self.op_operator(fi)
        for _ in range(60):
            how = pick(rng, ["add.at", "multiply.at", "negative.at", "subtract.at", "//", "%"])
            name = how.split(".")[0]
            new = np.array(ax)
            if how == "//":
                x = float(rng.uniform(0.2, 0.6))
                new = ax // x
            elif how == "%":
                x = float(rng.uniform(1.5, 5))
                new = ax % x
            else:
                k = int(rng.integers(1, len(ax) + 1))
                idx = [int(v) for v in rng.integers(0, len(ax), k)]
                idx = idx if rng.random() < 0.7 else idx[0]
                args = () if name == "negative" else (float(rng.uniform(0.3, 2)),)
                getattr(np, name).at(new, idx, *args)
            if good(new):
                break
        else:
            return self.op_axes(fi)
        g = f
        if how == "//":
            g //= x
        elif how == "%":
            g %= x
        else:
            r = getattr(np, name).at(g, idx, *args)
            self.m.ok(r is None, "ufunc.at returns nothing")
        self.m.ok(g is f, "the operator works inplace", op=how, cls=cls)
        self.set_frame(fi, g, new)
        self.m.feat("op:" + how)
        return f"{how} on frame {fi}"

    def op_items(self, fi):
        """Items, rows, columns or masked items of the axes are assigned."""
        rng = self.rng
        f, cls, ax = self.frames[fi]
        if cls != "reference":
            return self.op_operator(fi)
        for _ in range(60):
            how = pick(rng, ["item", "row", "column", "mask", "all", "negative", "chop"])
            key = {
                "item": tuple(int(rng.integers(k)) for k in ax.shape), "row": (Ellipsis, int(rng.integers(self.d)), slice(None)),
                "column": (Ellipsis, int(rng.integers(self.d))), "mask": rng.random(ax.shape) < 0.3, "all": Ellipsis,
                "negative": -1, "chop": np.abs(ax) < 0.15,
            }[how]
            new = np.array(ax)
            val = 0.0 if how == "chop" else rng.normal(size=np.shape(new[key])) + 0.5
            new[key] = val
            if good(new):
                break
        else:
            return self.op_axes(fi)
        if how == "chop":
            r = f.chop(0.15)
            self.m.ok(r is f, "chop returns the frame itself")
        else:
            f[key] = val.tolist() if rng.random() < 0.3 and np.ndim(val) else val
        self.set_frame(fi, f, new)
        self.m.feat("items:" + how)
        return f"items {how} of frame {fi}"

    def op_copy_frame(self, fi):
        f, cls, ax = self.frames[fi]
        if len(self.frames) > 8:
            return self.op_axes(fi)
        how = pick(self.rng, ["copy", "deepcopy", "copy.copy", "orient_new", "copy.deepcopy"])
        import copy

        g = {"copy": lambda: f.copy(), "deepcopy": lambda: f.deepcopy(), "copy.copy": lambda: copy.copy(f),
             "orient_new": lambda: f.orient_new(), "copy.deepcopy": lambda: copy.deepcopy(f)}[how]()
        self.m.ok(type(g) is type(f), "class of a copy")
        self.frames.append([g, cls, arr(ax)])
        return f"{how} of frame {fi}"

    def op_ufunc_other(self, fi):
        """Results of universal functions written into other frames, one or two."""
        rng = self.rng
        refs = [k for k, x in enumerate(self.frames) if x[1] == "reference"]
        if not refs:
            return self.op_operator(fi)
        a = int(pick(rng, refs))
        sh = self.frames[a][2].shape
        if rng.random() < 0.5:
            for _ in range(60):
                x = self.frames[fi][2]
                y = rng.normal(size=sh)
                name = pick(rng, ["add", "subtract", "multiply", "matmul", "maximum"])
                new = getattr(np, name)(x, y)
                if good(new):
                    break
            else:
                return self.op_axes(a)
            out = self.frames[a][0]
            src = self.frames[fi][0]
            kw = dict(out=(out,)) if rng.random() < 0.5 else dict(out=out)
            res = getattr(np, name)(src, y, **kw)
            self.m.ok(res is out, "a universal function writing into a frame returns that frame")
            self.set_frame(a, out, new)
            self.m.feat("ufunc-other:" + name)
            return f"np.{name}(frame {fi}, .., out=frame {a})"
        for _ in range(200):
            q = np.floor(rng.uniform(0, 4, sh))
            if good(q):
                break
        else:
            return self.op_axes(a)
        for _ in range(400):
            r = rng.integers(0, 64, sh) / 64.0
            if good(r):
                break
        else:
            return self.op_axes(a)
        others = [k for k in refs if k != a]
        b = int(pick(rng, others)) if others and rng.random() < 0.7 else None
        x = q + r
        src = ReferenceFrame(np.array(x)) if b is None or rng.random() < 0.5 else x
        first = self.frames[a][0]
        second = self.frames[b][0] if b is not None else np.zeros(sh)
        how = pick(rng, ["divmod", "divmod-swapped", "modf"])
        if how == "divmod":
            np.divmod(src, 1.0, out=(first, second))
            one, two = q, r
        elif how == "divmod-swapped":
            np.divmod(src, 1.0, out=(second, first))
            one, two = r, q
        else:
            np.modf(src, out=(first, second))
            one, two = r, q
        self.set_frame(a, first, one)
        if b is not None:
            self.set_frame(b, second, two)
        else:
            self.m.close(second, two, "second output of a universal function")
        self.m.feat("ufunc-two:" + how)
        return f"np.{how} into frames {a}, {b}"

    # -- operations on tensors -----------------------------------------------
    def op_reframe(self, ti):
        rng = self.rng
        t, kind, fi, amb = self.tensors[ti]
        if rng.random() < 0.7 or self.n:
            k = int(rng.integers(len(self.frames)))
            t.frame = self.frames[k][0]
            self.tensors[ti][2] = k
            return f"tensor {ti}.frame = frame {k}"
        ax = frame_axes(rng, "reference", self.d)
        t.frame = np.array(ax)
        self.frames.append([t.frame, "reference", ax])
        self.tensors[ti][2] = len(self.frames) - 1
        return f"tensor {ti}.frame = array"

    def op_scale(self, ti):
        t, kind, fi, amb = self.tensors[ti]
        s = float(self.rng.uniform(0.3, 2)) * (1 if self.rng.random() < 0.5 else -1)
        t *= s
        self.m.ok(t is self.tensors[ti][0], "scaling is inplace")
        self.tensors[ti][3] = amb * s
        return f"tensor {ti} *= {s}"

    def op_assign(self, ti):
        t, kind, fi, amb = self.tensors[ti]
        comps = values(self.rng, amb.shape, "normal")
        t.array = comps
        self.tensors[ti][3] = to_ambient(comps, self.frames[fi][2], KINDS[kind][1])
        return f"tensor {ti}.array = .."

    def op_components(self, ti):
        """Some of the components are assigned."""
        rng = self.rng
        t, kind, fi, amb = self.tensors[ti]
        rank = KINDS[kind][1]
        comps = arr(t.array)
        self.m.close(comps, to_frame(amb, self.frames[fi][2], rank), "components follow the frame", rtol=1e-7, atol=1e-12)
        how = pick(rng, ["item", "first", "last", "mask", "chop"])
        if how == "chop":
            tol = 0.3 * float(np.abs(comps).max())
            if np.any(np.abs(np.abs(comps) - tol) < 1e-6 * tol) or tol == 0:
                return self.op_scale(ti)
            comps[np.abs(comps) < tol] = 0.0
            r = t.chop(tol)
            self.m.ok(r is t, "chop returns the tensor itself")
        else:
            key = {"item": tuple(int(rng.integers(k)) for k in comps.shape), "first": 0, "last": (Ellipsis, -1), "mask": rng.random(comps.shape) < 0.4}[how]
            val = rng.normal(size=np.shape(comps[key])) * (float(np.abs(comps).max()) + 1e-3)
            comps[key] = val
            t[key] = val
        self.tensors[ti][3] = to_ambient(comps, self.frames[fi][2], rank)
        self.m.feat("components:" + how)
        return f"components {how} of tensor {ti}"

    def op_add(self, ti):
        t, kind, fi, amb = self.tensors[ti]
        cands = [j for j, x in enumerate(self.tensors) if x[1] == kind and x[3].shape == amb.shape]
        j = pick(self.rng, cands)
        u, ambu = self.tensors[j][0], self.tensors[j][3]
        plus = self.rng.random() < 0.5
        # what remains after a cancellation is roundoff
        if cancels(amb, ambu, 1 if plus else -1):
            plus = not plus
            if cancels(amb, ambu, 1 if plus else -1):
                return self.op_scale(ti)
        if plus:
            t += u
            self.tensors[ti][3] = amb + ambu
        else:
            t -= u
            self.tensors[ti][3] = amb - ambu
        self.m.ok(t is self.tensors[ti][0], "addition is inplace")
        return f"tensor {ti} +-= tensor {j}"

    def op_copy(self, ti):
        t, kind, fi, amb = self.tensors[ti]
        if len(self.tensors) > 12:
            return self.op_delete(ti)
        if self.rng.random() < 0.5:
            c = t.copy()
            self.tensors.append([c, kind, fi, amb.copy()])
            return f"copy of tensor {ti}"
        c = t.deepcopy()
        self.frames.append([c.frame, "reference", arr(self.frames[fi][2])])
        self.tensors.append([c, kind, len(self.frames) - 1, amb.copy()])
        return f"deepcopy of tensor {ti}"

    def op_result(self, ti):
        """Results of operations live on like any other tensor."""
        rng = self.rng
        t, kind, fi, amb = self.tensors[ti]
        if len(self.tensors) > 12:
            return self.op_delete(ti)
        rank, ndata = KINDS[kind][1:3]
        how = pick(rng, ["-", "*", "/", "+", "T", "dual"])
        if how == "-":
            r, new = -t, -amb
        elif how == "*":
            r, new = t * 1.5, amb * 1.5
        elif how == "/":
            r, new = t / 2.0, amb / 2.0
        elif how == "+":
            j = pick(rng, [j for j, x in enumerate(self.tensors) if x[1] == kind and x[3].shape == amb.shape and not cancels(amb, x[3], 1)] or [ti])
            r, new = t + self.tensors[j][0], amb + self.tensors[j][3]
        elif how == "T":
            nd = amb.ndim
            r, new = t.T, np.transpose(amb, list(range(nd - rank)) + list(range(nd - rank, nd))[::-1])
        else:
            r, new = t.dual(), amb
        f, cls, ax = self.frames[fi]
        if r.frame is f:
            k = fi
        else:
            if len(self.frames) > 8:
                return self.op_scale(ti)
            k = [j for j, x in enumerate(self.frames) if x[0] is r.frame]
            if k:
                k = k[0]
            else:
                a = np.swapaxes(np.linalg.inv(ax), -1, -2) if how == "dual" else arr(ax)
                ncls = {v: n for n, v in FRAMES.items()}[type(r.frame)]
                if how == "dual" and not good(a):
                    return self.op_scale(ti)
                self.frames.append([r.frame, ncls, a])
                k = len(self.frames) - 1
        self.tensors.append([r, kind, k, np.array(new)])
        self.m.feat("result:" + how)
        return f"result {how} of tensor {ti}"

    def op_turn(self, ti):
        """A change of the tensor itself."""
        rng = self.rng
        t, kind, fi, amb = self.tensors[ti]
        rank, ndata = KINDS[kind][1:3]
        ax = self.frames[fi][2]
        if self.d == 3 and rng.random() < 0.6:
            ang = [float(x) for x in rng.uniform(-4, 4, 3)]
            R = rotation_matrix("Space", ang, "XYZ")
            comps = to_frame(amb, ax, rank)
            t.orient("Space", ang, "XYZ")
            from mon.tens import apply

            self.tensors[ti][3] = to_ambient(apply(np.ascontiguousarray(R.T), comps, rank), ax, rank)
            return f"orient tensor {ti}"
        nd = amb.ndim
        r = t.transpose(inplace=True)
        self.m.ok(r is t, "inplace transposition returns the tensor")
        self.tensors[ti][3] = np.ascontiguousarray(np.transpose(amb, list(range(nd - rank)) + list(range(nd - rank, nd))[::-1]))
        return f"transpose tensor {ti}"

    def op_delete(self, ti):
        if len(self.tensors) < 2:
            return "nothing"
        self.tensors.pop(ti)
        if self.rng.random() < 0.3:
            gc.collect()
        return f"delete tensor {ti}"


FRAME_OPS = ["op_axes", "op_orient", "op_transpose", "op_operator", "op_operator", "op_ufunc", "op_ufunc_other", "op_at", "op_items", "op_copy_frame"]
TENSOR_OPS = ["op_reframe", "op_reframe", "op_scale", "op_assign", "op_add", "op_copy", "op_delete", "op_result", "op_result", "op_turn", "op_components"]


def history(m, rng, d, n, steps, nframes, ntens, maxrank=4):
    w = World(m, rng, d, n, nframes)
    for k in range(ntens):
        w.add_tensor(fi=k % nframes, maxrank=maxrank)
    m.note(dim=d, frames=n, first=w.frames[0][2])
    w.verify("start")
    for _ in range(steps):
        r = rng.random()
        if r < 0.6:
            ops, hi = FRAME_OPS, len(w.frames)
            name = pick(rng, ops)
            if n and name in ("op_orient",):
                name = "op_axes" if d != 3 else name
            what = getattr(w, name)(int(rng.integers(hi)))
        elif r < 0.92 and w.tensors:
            what = getattr(w, pick(rng, TENSOR_OPS))(int(rng.integers(len(w.tensors))))
        else:
            w.add_tensor(maxrank=maxrank)
            what = "new tensor"
        m.step(what)
        w.verify(what)
        if len(w.frames) > 8:
            # forget frames that carry nothing
            used = {x[2] for x in w.tensors}
            drop = [k for k in range(len(w.frames)) if k not in used]
            if drop:
                k = drop[0]
                w.frames.pop(k)
                for x in w.tensors:
                    if x[2] > k:
                        x[2] -= 1


@scenario(quick=90, thorough=1500)
def single_frames(m, rng, i):
    d = [3, 2, 3, 4][i % 4]
    history(m, rng, d, None, steps=14, nframes=1 + i % 3, ntens=2 + i % 5)
    m.feat(f"dim{d}")


@scenario(quick=24, thorough=300)
def collections_of_frames(m, rng, i):
    d = [3, 2, 3, 4][i % 4]
    n = int([1, 2, 3, 5, 8, 17][i % 6])
    history(m, rng, d, n, steps=9, nframes=1 + i % 2, ntens=2 + i % 3)
    m.feat(f"bulk{n}")


@scenario(quick=6, thorough=60, modes=("jit",))
def long_histories(m, rng, i):
    d = [3, 2][i % 2]
    history(m, rng, d, None, steps=120, nframes=2, ntens=4, maxrank=3)


@scenario(quick=6, thorough=40, modes=("jit",))
def many_tensors_on_one_frame(m, rng, i):
    """A crowd on a frame, with members dropping out."""
    d = [3, 2][i % 2]
    w = World(m, rng, d, None, 1)
    for _ in range(60):
        w.add_tensor(fi=0, maxrank=2)
    w.verify("start")
    for _ in range(8):
        drop = sorted(rng.choice(len(w.tensors), 6, replace=False), reverse=True)
        for k in drop:
            w.tensors.pop(k)
        what = getattr(w, pick(rng, FRAME_OPS))(0)
        m.step(what)
        for _ in range(5):
            w.add_tensor(fi=0, maxrank=2)
        w.verify(what)


@scenario(quick=6, thorough=40)
def large_collections(m, rng, i):
    """Collections large enough to be split between threads."""
    n = int([64, 257, 1000][i % 3])
    d = 3
    kind = ["vb", "t2b", "2x3b"][(i // 3) % 3] if i % 2 else "vb"
    ax = frame_axes(rng, "reference", d, n)
    f = ReferenceFrame(np.array(ax))
    comps = values(rng, (n,) + (d,) * KINDS[kind][1], "normal")
    t = build(kind, comps, f)
    amb = to_ambient(comps, ax, KINDS[kind][1])
    m.note(n=n, kind=kind, comps=comps)
    for _ in range(3):
        new = frame_axes(rng, "reference", d, n)
        f.axes = new
        m.close(arr(t.show()), amb, "ambient components of a tensor are conserved", rtol=1e-7)
        m.close(arr(t.array), to_frame(amb, new, KINDS[kind][1]), "components follow the frame", rtol=1e-7)


@scenario(quick=80, thorough=1000)
def units(m, rng, i):
    """Frames in other units, and changes of the axes that are small."""
    d = [3, 2, 3, 4][i % 4]
    multi = (i // 4) % 3 == 2
    n = int(pick(rng, [1, 2, 5])) if multi else None
    cls = "reference" if multi else ["reference", "rectangular", "cartesian", "reference"][(i // 12) % 4]
    u = 1.0 if cls == "cartesian" else unit(rng)
    kind = pick(rng, kinds_for(d, multi, 4))
    rank = KINDS[kind][1]
    c = unit(rng)
    shape = shape_of(rng, kind, d, n)
    ax = frame_axes(rng, cls, d, n) * u
    comps = values(rng, shape, "normal") * c
    f = FRAMES[cls](np.array(ax))
    t = build(kind, comps, f)
    amb = to_ambient(comps, ax, rank)
    s = float(np.abs(amb).max())
    m.note(kind=kind, d=d, unit=u, cls=cls, axes=ax, comps=comps)
    m.feat("kind:" + kind, cls, "tiny" if u < 1e-3 else "huge" if u > 1e3 else "ordinary")

    def look(what):
        m.close(arr(f.axes), ax, "axes of a frame after the history", rtol=1e-12, atol=0.0, after=what)
        m.close(arr(t.show()), amb, "ambient components of a tensor are conserved", rtol=1e-9, atol=0.0, scale=s, after=what)
        m.close(arr(t.array), to_frame(amb, ax, rank), "components follow the frame", rtol=1e-9, atol=0.0, after=what)

    look("start")
    for _ in range(5):
        what = pick(rng, ["new", "small turn", "small change", "scale", "reframe", "rescale"])
        if what == "small change" and cls != "reference":
            what = "small turn"
        if what in ("scale", "rescale") and cls == "cartesian":
            what = "new"
        if what == "new":
            ax = frame_axes(rng, cls, d, n) * u
            f.axes = ax
        elif what == "small turn":
            h = float(10.0 ** rng.uniform(-6, -2))
            R = np.eye(d)
            R[0, 0] = R[1, 1] = np.cos(h)
            R[0, 1], R[1, 0] = np.sin(h), -np.sin(h)
            ax = ax @ R
            f.axes = ax
        elif what == "small change":
            h = float(10.0 ** rng.uniform(-6, -2))
            ax = ax * (1 + h * rng.uniform(0.5, 1, ax.shape))
            f.axes = ax
        elif what == "scale":
            h = float(1 + 10.0 ** rng.uniform(-6, -2))
            ax = ax * h
            f *= h
        elif what == "rescale":
            w = unit(rng, -30, 31) if 1e-9 < u < 1e9 else 1.0 / u
            ax = ax * w
            u = u * w
            f.axes = ax
        else:
            u = 1.0 if cls == "cartesian" else unit(rng)
            ax = frame_axes(rng, cls, d, n) * u
            g = FRAMES[cls](np.array(ax))
            t.frame = g
            m.ok(t.frame is g, "the tensor refers to the frame it belongs to")
            f = g
        m.step(what)
        look(what)
