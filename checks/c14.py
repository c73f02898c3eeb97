"""C14: unique values and matching of rows."""

import awkward as ak
import numpy as np

from mon.core import Frozen, grow, layout, pick, scenario

from sigmaepsilon.math import arraysetops
from sigmaepsilon.math.arraysetops import unique2d
from sigmaepsilon.math.linalg import JaggedArray
from sigmaepsilon.math.utils import find1d, find2d, indices_of_equal_rows

from c13 import split, widths
from mon.core import core_scenarios_reset

core_scenarios_reset(__name__)


def ints(rng, n):
    kind = pick(rng, ["few", "negative", "wide", "same", "distinct", "big", "skewed"])
    if kind == "few":
        a = rng.integers(0, 4, n)
    elif kind == "negative":
        a = rng.integers(-7, 4, n)
    elif kind == "wide":
        a = rng.integers(-10**6, 10**6, n)
    elif kind == "same":
        a = np.full(n, rng.integers(-3, 9))
    elif kind == "distinct":
        a = rng.permutation(n) * 3 - 5
    elif kind == "big":
        a = rng.integers(0, 5, n) * 2**40 + rng.integers(-1, 2, n)
    else:
        a = rng.geometric(0.4, n)
    return a.astype(np.int64), kind


def call(fn, arr, rng, m):
    """The outputs by name, for a random subset of requested outputs."""
    want = [k for k in ("return_index", "return_inverse", "return_counts") if rng.random() < 0.5]
    m.feat("outputs:" + ",".join(k[7:] for k in want))
    res = fn(arr, **{k: True for k in want})
    if not want:
        return {"unique": res}
    m.ok(len(res) == len(want) + 1, "number of outputs", got=len(res))
    out = {"unique": res[0]}
    for k, r in zip(want, res[1:]):
        out[k[7:]] = r
    return out


def judge(m, out, flat, where_of, inverse_to_flat, tag):
    u, inv, cnt = np.unique(flat, return_inverse=True, return_counts=True)
    m.equal(out["unique"], u, "unique values are sorted and complete", how=tag)
    if "counts" in out:
        m.equal(out["counts"], cnt, "counts", how=tag)
    if "inverse" in out:
        m.equal(inverse_to_flat(out["inverse"]), inv.reshape(-1), "inverse", how=tag)
        m.equal(np.asarray(out["unique"])[inverse_to_flat(out["inverse"])], flat, "the inverse reconstructs the array", how=tag)
    if "index" in out:
        d = out["index"]
        m.ok(sorted(int(k) for k in d) == [int(k) for k in u], "keys of the indices", how=tag)
        for v in u:
            got = [tuple(int(t) for t in np.atleast_1d(r)) for r in d[int(v)]]
            m.ok(sorted(got) == where_of[int(v)], "indices list every occurrence once", how=tag, value=int(v), got=got)


@scenario(quick=350, thorough=8000)
def dense(m, rng, i):
    shape = [(1, 1), (1, 7), (7, 1), (3, 4), (5, 2), (grow(rng, 20, 400, 0.2), 6), (2, grow(rng, 30, 1100, 0.2))][i % 7]
    a, kind = ints(rng, shape[0] * shape[1])
    a = a.reshape(shape)
    if kind != "big" and kind != "wide" and rng.random() < 0.4:
        a = a.astype(np.int32)
    m.note(a=a)
    m.feat(f"shape{shape}", "values:" + kind, "dtype:" + str(a.dtype))
    # every combination of type and layout is compiled separately
    x = layout(rng, a, None if a.dtype == np.int64 else "C")
    fr = Frozen(x=x)
    where_of = {int(v): sorted(map(tuple, np.argwhere(a == v).tolist())) for v in np.unique(a)}
    for tag, fn, arg in [
        ("unique2d", unique2d, x),
        ("unique2d of a jagged array", unique2d, JaggedArray(x)),
        ("np.unique of a jagged array", np.unique, JaggedArray(x)),
        ("JaggedArray.unique", lambda j, **kw: j.unique(**kw), JaggedArray(x)),
    ]:
        out = call(fn, arg, rng, m)
        if "inverse" in out:
            m.ok(np.shape(out["inverse"]) == shape, "shape of the inverse", how=tag)
        judge(m, out, a.flatten(), where_of, lambda v: np.asarray(v).flatten(), tag)
        fr.check(m)


@scenario(quick=250, thorough=6000)
def jagged(m, rng, i):
    w, wk = widths(rng, i)
    if w.sum() == 0:
        w[-1] = 2
    flat, kind = ints(rng, w.sum())
    m.note(w=w, flat=flat)
    m.feat("rows:" + wk, "values:" + kind)
    a = ak.unflatten(flat, w)
    fr = Frozen(flat=flat)
    J = JaggedArray(flat, cuts=w)
    jag = J.is_jagged()
    for tag, fn, arg in [
        ("awkward", unique2d, a),
        ("jagged", unique2d, J),
        ("np.unique", np.unique, J),
        ("method", lambda j, **kw: j.unique(**kw), J),
    ]:
        out = call(fn, arg, rng, m)
        if tag == "awkward" or jag:
            where_of = {int(v): [(int(k),) for k in np.where(flat == v)[0]] for v in np.unique(flat)}
            if "inverse" in out:
                m.equal([len(r) for r in out["inverse"]], w, "the inverse has the rows of the array", how=tag)
            judge(m, out, flat, where_of, lambda v: np.asarray(ak.flatten(v)), tag)
        else:
            D = flat.reshape(len(w), -1)
            where_of = {int(v): sorted(map(tuple, np.argwhere(D == v).tolist())) for v in np.unique(flat)}
            judge(m, out, flat, where_of, lambda v: np.asarray(v).flatten(), tag)
        fr.check(m)
    m.raises(TypeError, lambda: unique2d(flat.tolist()), "invalid input")


@scenario(quick=400, thorough=8000)
def equal_rows(m, rng, i):
    nx, ny = [(1, 1), (4, 4), (4, 7), (7, 4), (1, 6), (12, 12), (grow(rng, 30, 270, 0.3), grow(rng, 11, 130, 0.3)), (6, 1)][i % 8]
    d = int(pick(rng, [1, 2, 3, 5]))
    integer = rng.random() < 0.5
    kind = pick(rng, ["sub", "dups", "none", "permuted", "neg"])
    x = rng.integers(-3, 4, size=(nx, d)) if kind in ("dups", "neg") else rng.integers(-1000, 1000, size=(nx, d))
    wide = rng.random() < 0.15
    if wide:
        # numbers that agree in their lower halves
        x = x % 8 * 2**34
        integer = True
        m.feat("wide integers")
    if kind == "none":
        y = x.max() + 1 + rng.integers(0, 5, size=(ny, d))
    elif kind == "permuted":
        y = x[rng.integers(nx, size=ny)][:, ::-1].copy()
    elif kind == "neg":
        y = -x[rng.integers(nx, size=ny)]
    else:
        y = x[rng.integers(nx, size=ny)].copy()
    # differences that cancel in a sum
    if d > 1 and rng.random() < 0.5:
        k = int(rng.integers(ny))
        y[k, 0] += 1
        y[k, 1] -= 1
    tol = 1e-12
    kw = {}
    eq = np.abs(x[:, None] - y[None]).sum(-1) == 0
    if not integer:
        s = float(pick(rng, [1.0, 0.125, 2.0**-20]))
        x = x * s
        y = y * s
        near = rng.random()
        if near < 0.2:
            # almost equal rows that are not equal
            y = y + rng.integers(0, 2, y.shape) * float(pick(rng, [5e-12, 4e-11, 1e-9]))
            m.feat("almost equal")
        elif near < 0.6:
            # perturbed below or above the tolerance
            tol = float(pick(rng, [1e-3, 1e-6, 0.3]))
            kw = {"tol": tol}
            if rng.random() < 0.5:
                y = y + rng.uniform(-2, 2, y.shape) * tol
        dist = np.abs(x[:, None] - y[None]).sum(-1)
        if np.any((dist > tol * 0.999) & (dist < tol * 1.001)):
            return
        eq = dist <= tol
    m.note(x=x, y=y, tol=tol)
    m.feat("rows:" + kind, "integer" if integer else "float", "square" if nx == ny else "not square")
    if integer and not wide and rng.random() < 0.3:
        x = x.astype(np.int32)
    elif rng.random() < 0.5:
        k = pick(rng, ["F", "strided"])
        x, y = layout(rng, x, k), layout(rng, y, k)
    fr = Frozen(x=x, y=y)
    a, b = indices_of_equal_rows(x, y, **kw)
    got = sorted(zip(a.tolist(), b.tolist()))
    ref = sorted(map(tuple, np.argwhere(eq).tolist()))
    m.ok(got == ref, "pairs of equal rows", got=got, expected=ref)
    fr.check(m)
    m.raises(AssertionError, lambda: indices_of_equal_rows(x, np.zeros((ny, d + 1))), "different number of columns")


@scenario(quick=200, thorough=4000)
def find(m, rng, i):
    n = int(pick(rng, [1, 2, 5, 40, 300]))
    space = rng.permutation(np.arange(n) * 3 - 20)
    shape = pick(rng, [(1,), (7,), (50,), (3, 4), (1, 9), (8, 1), (30, 3)])
    pos = rng.integers(n, size=shape)
    if rng.random() < 0.3:
        space = space + 0.5
    arr = space[pos]
    m.note(space=space, arr=arr)
    m.feat(f"dim{len(shape)}", f"space{n}")
    x, s = arr, space
    if rng.random() < 0.5:
        x, s = layout(rng, arr, "strided"), layout(rng, space, "strided")
    fr = Frozen(x=x, s=s)
    got = find1d(x, s) if len(shape) == 1 else find2d(x, s)
    m.equal(got.astype(int), pos, "positions of the values")
    fr.check(m)
