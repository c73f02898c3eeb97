"""C13: jagged arrays and CSR matrices."""

import awkward as ak
import numba
import numpy as np
import scipy.sparse as sp

from mon.core import Frozen, grow, layout, pick, scenario, values

from sigmaepsilon.math.linalg import JaggedArray
from sigmaepsilon.math.linalg.sparse import csr_matrix
from sigmaepsilon.math.linalg.sparse.utils import count_cols, get_shape_sp, lower_spdata, upper_spdata
from sigmaepsilon.math.utils import count_cols as count_cols2, count_cols_csr


@numba.njit
def nb_rows(csr, i):
    return csr.row(i), csr.irow(i)


@numba.njit
def nb_parts(csr):
    return csr.data, csr.indices, csr.indptr, csr.shape


@numba.njit
def nb_walk(csr, x):
    """Matrix-vector product in compiled code."""
    n = csr.shape[0]
    res = np.zeros(n)
    for i in range(n):
        r, c = csr.row(i), csr.irow(i)
        for j in range(len(r)):
            res[i] += r[j] * x[c[j]]
    return res


@numba.njit
def nb_same(csr):
    return csr


def widths(rng, i):
    kind = ["any", "equal", "empty first", "empty last", "mostly empty", "one row", "long", "all empty", "any", "two values", "wide"][i % 11]
    n = int(pick(rng, [1, 2, 3, 5, 8, 13]))
    if kind == "any":
        w = rng.integers(0, 6, n)
    elif kind == "equal":
        w = np.full(n, rng.integers(1, 6))
    elif kind == "empty first":
        w = rng.integers(1, 6, n + 1)
        w[0] = 0
    elif kind == "empty last":
        w = rng.integers(1, 6, n + 1)
        w[-1] = 0
    elif kind == "mostly empty":
        w = rng.integers(1, 4, n + 2) * (rng.random(n + 2) < 0.3)
    elif kind == "one row":
        w = rng.integers(1, 9, 1)
    elif kind == "long":
        w = rng.integers(0, 8, grow(rng, 200, 1500, 0.15))
    elif kind == "all empty":
        w = np.zeros(n, dtype=int)
    elif kind == "two values":
        w = rng.choice(rng.choice(6, 2, replace=False), n)
    else:
        w = rng.integers(0, 60, 4)
    return w.astype(int), kind


def draw(rng, n, dt):
    if dt == "int":
        return rng.integers(-9, 99, n)
    if dt == "int32":
        return rng.integers(-9, 99, n).astype(np.int32)
    if dt == "zeros":
        return rng.normal(size=n) * (rng.random(n) < 0.5)
    if dt == "float32":
        return rng.normal(size=n).astype(np.float32)
    return rng.normal(size=n)


def split(flat, w):
    e = np.cumsum(w)
    return [flat[b - k:b] for b, k in zip(e, w)]


def dense(rows):
    n = max([len(r) for r in rows]) if rows else 0
    res = np.zeros((len(rows), n))
    for i, r in enumerate(rows):
        res[i, :len(r)] = r
    return res


def check_jagged(m, J, rows, tag):
    w = np.array([len(r) for r in rows], dtype=int)
    flat = np.concatenate(rows) if rows else np.zeros(0)
    m.equal(len(J), len(rows), "number of rows", how=tag)
    m.equal(J.widths(), w, "widths", how=tag)
    m.equal(J.size, w.sum(), "size", how=tag)
    m.ok(J.is_jagged() == (len(set(w.tolist())) > 1), "jaggedness", how=tag, got=J.is_jagged(), widths=w)
    for k, r in enumerate(rows):
        m.equal(np.asarray(J[k]), r, "row", how=tag, k=k)
    m.equal(J.flatten(), flat, "flattened", how=tag)
    c, f = J.flatten(return_cuts=True)
    m.equal(f, flat, "flattened with cuts", how=tag)
    m.equal(c, w, "cuts", how=tag)
    L = J.to_list()
    m.ok(L == [r.tolist() for r in rows], "list form", how=tag, got=L)
    s = J.shape
    m.ok(len(s) == 2 and s[0] == len(rows), "shape", how=tag, got=s)
    m.equal(np.broadcast_to(s[1], w.shape), w, "columns in the shape", how=tag)
    m.ok(ak.to_list(J.to_ak()) == L, "awkward form", how=tag)
    m.ok(ak.to_list(J.to_array()) == L, "array form", how=tag)
    D = dense(rows)
    if len(flat) or w.max() == 0:
        m.equal(J.to_numpy().astype(float), D, "dense form", how=tag)
        S = J.to_scipy()
        m.ok(sp.issparse(S) and S.format == "csr", "type of the SciPy form", how=tag)
        m.equal(S.toarray(), D, "SciPy form", how=tag)
        m.ok(S.nnz == w.sum(), "the SciPy form stores every value", how=tag)
        C = J.to_csr()
        check_csr(m, C, rows, [np.arange(k) for k in w], D.shape, "to_csr of " + tag)


def check_csr(m, C, rows, cols, shape, tag, quick=False):
    m.ok(tuple(C.shape) == tuple(shape), "shape of the CSR matrix", how=tag, got=C.shape, expected=shape)
    D = np.zeros(shape)
    for i, (r, c) in enumerate(zip(rows, cols)):
        np.add.at(D[i], c, r)
    m.close(C.to_numpy(), D, "the CSR matrix is the matrix it was created from", how=tag)
    m.close(C.to_scipy().toarray(), D, "SciPy form of the CSR matrix", how=tag)
    n = len(rows)
    for i in range(n) if n < 20 else [0, n // 2, n - 1]:
        m.equal(C.row(i), rows[i], "values of a row", how=tag, row=i)
        m.equal(C.irow(i), cols[i], "column indices of a row", how=tag, row=i)
        v, k = nb_rows(C, i)
        m.equal(v, rows[i], "values of a row in compiled code", how=tag, row=i)
        m.equal(k, cols[i], "column indices of a row in compiled code", how=tag, row=i)
    if quick:
        return
    d, ind, ptr, s = nb_parts(C)
    m.equal(d, np.concatenate(rows) if n else d, "stored values in compiled code", how=tag)
    m.equal(ind, np.concatenate(cols) if n else ind, "stored indices in compiled code", how=tag)
    m.equal(ptr, np.concatenate([[0], np.cumsum([len(r) for r in rows])]), "row boundaries in compiled code", how=tag)
    m.ok(tuple(s) == tuple(shape), "shape in compiled code", how=tag, got=s)
    x = np.cos(np.arange(shape[1]) + 1.0)
    m.close(nb_walk(C, x), D @ x, "walk over the rows in compiled code", how=tag)
    B = nb_same(C)
    m.ok(type(B) is csr_matrix and tuple(B.shape) == tuple(shape), "matrix returned from compiled code", how=tag)
    m.close(B.to_numpy(), D, "values of a matrix returned from compiled code", how=tag)
    m.ok(f"{shape[0]}x{shape[1]} " in repr(C) and str(len(d)) in repr(C), "representation", how=tag, got=repr(C))
    m.equal(count_cols_csr(C.indptr, C.indices), [len(r) for r in rows], "columns per row", how=tag)


def own(m, rng, make, sources, tag):
    """The values are the matrix's own: a later change of the source isn't seen."""
    C = make()
    before = np.array(C.to_numpy())
    for s in sources:
        s[...] = s * 2 + 1.25
    m.equal(C.to_numpy(), before, "a CSR matrix has its own values", how=tag)
    kept = [np.array(s) for s in sources]
    C.data[...] = -7.5
    for s, k in zip(sources, kept):
        m.equal(s, k, "a change of a CSR matrix isn't seen by its source", how=tag)
    m.feat("own " + tag)


@scenario(quick=220, thorough=4000)
def jagged(m, rng, i):
    w, kind = widths(rng, i)
    dt = pick(rng, ["int", "int", "float", "zeros", "int32", "float32"])
    flat = draw(rng, w.sum(), dt)
    rows = split(flat, w)
    m.note(widths=w, flat=flat)
    m.feat("rows:" + kind, "data:" + dt)
    fr = Frozen(flat=flat, w=w)
    force = bool(rng.random() < 0.7)
    cuts = pick(rng, [w, list(w), tuple(int(k) for k in w), w.astype(np.int32)])
    x = layout(rng, flat, "strided") if rng.random() < 0.3 else flat
    ways = {"data and cuts": lambda: JaggedArray(x, cuts=cuts, force_numpy=force)}
    if len(flat):
        ways["lists"] = lambda: JaggedArray([r.tolist() for r in rows], force_numpy=force)
        ways["awkward"] = lambda: JaggedArray(ak.Array([r.tolist() for r in rows]), force_numpy=force)
        if w.min() > 0:
            ways["list of rows"] = lambda: JaggedArray([np.array(r) for r in rows], force_numpy=force)
    ways["awkward from cuts"] = lambda: JaggedArray(ak.unflatten(flat, w), force_numpy=force)
    if len(set(w.tolist())) == 1:
        ways["array"] = lambda: JaggedArray(layout(rng, flat.reshape(len(w), -1)), force_numpy=force)
    for tag, f in ways.items():
        if tag in ("lists", "list of rows", "awkward") and dt == "float32":
            continue
        J = f()
        m.feat("from:" + tag, "wraps:" + type(J.to_array()).__name__)
        check_jagged(m, J, rows, tag)
        fr.check(m)
    if len(set(w.tolist())) == 1 and force:
        m.ok(isinstance(ways["data and cuts"]().to_array(), np.ndarray), "regular input is stored as a NumPy array")
    m.equal(count_cols(ak.unflatten(flat, w)), w, "count_cols of an awkward array")
    m.equal(count_cols2(ak.unflatten(flat, w)), w, "count_cols of an awkward array")


@scenario(quick=220, thorough=4000)
def stacked(m, rng, i):
    n = int(pick(rng, [1, 2, 2, 3, 5]))
    rows, parts = [], []
    for k in range(n):
        w, kind = widths(rng, i + k * int(rng.integers(11)))
        if rng.random() < 0.3 and parts:
            w = np.full(len(w), len(rows[-1]))
        flat = draw(rng, w.sum(), pick(rng, ["int", "float"]))
        m.note(**{f"widths{k}": w, f"flat{k}": flat})
        r = split(flat, w)
        rows += r
        parts.append(JaggedArray(flat, cuts=w, force_numpy=bool(rng.random() < 0.7)))
    before = [p.to_list() for p in parts]
    for fn in (np.vstack, np.concatenate):
        J = fn(parts if rng.random() < 0.5 else tuple(parts))
        m.ok(type(J) is JaggedArray, "type of the stacked array")
        check_jagged(m, J, rows, fn.__name__)
    m.ok(before == [p.to_list() for p in parts], "stacking leaves the parts alone")
    m.feat(f"parts{n}")
    m.raises(TypeError, lambda: np.vstack([parts[0], np.zeros((2, 3))]), "stacking with something else")


@scenario(quick=300, thorough=6000)
def csr(m, rng, i):
    way = ["dense", "csr", "csc", "coo", "lil", "dok", "bsr", "dia", "raw", "raw unsorted", "raw inferred", "awkward"][i % 12]
    nR, nC = int(pick(rng, [1, 2, 3, 5, 9])), int(pick(rng, [1, 2, 3, 4, 8]))
    D = values(rng, (nR, nC), pick(rng, ["normal", "int", "sparse", "sparse"]))
    kind = pick(rng, ["plain", "sparse", "empty row", "empty last column", "empty first", "zero"])
    if kind == "sparse":
        D *= rng.random(D.shape) < 0.3
    elif kind == "empty row":
        D[rng.integers(nR)] = 0
    elif kind == "empty last column":
        D[:, -1] = 0
    elif kind == "empty first":
        D[0] = 0
        D[:, 0] = 0
    elif kind == "zero":
        D[...] = 0
    m.note(D=D, way=way)
    m.feat("from:" + way, "matrix:" + kind)
    nz = [np.where(r != 0)[0] for r in D]
    vals = [r[k] for r, k in zip(D, nz)]
    if way == "dense":
        dt = pick(rng, [float, float, np.float32, int])
        A = layout(rng, D).astype(dt) if rng.random() < 0.5 else layout(rng, D.astype(dt))
        fr = Frozen(A=A)
        C = csr_matrix(A)
        A2 = np.array(A, dtype=float)
        own(m, rng, lambda: csr_matrix(A2), [A2], way)
        check_csr(m, C, [r.astype(float) for r in np.asarray(A)], [np.arange(nC)] * nR, (nR, nC), way)
        fr.check(m)
    elif way in ("csr", "csc", "coo", "lil", "dok", "bsr", "dia"):
        S = sp.csr_matrix(D).asformat(way)
        if way == "coo" and rng.random() < 0.6 and nR * nC > 1:
            # duplicates
            k = int(rng.integers(1, 20))
            r, c, v = rng.integers(nR, size=k), rng.integers(nC, size=k), rng.normal(size=k)
            S = sp.coo_matrix((v, (r, c)), shape=(nR, nC))
            D = np.zeros((nR, nC))
            np.add.at(D, (r, c), v)
            m.note(D2=D)
            m.feat("duplicates")
        if way == "csr" and rng.random() < 0.6:
            # stored as SciPy allows it: unsorted, with repeated entries and zeros
            w = rng.integers(0, 5, nR)
            k = int(w.sum())
            r, c, v = np.repeat(np.arange(nR), w), rng.integers(nC, size=k), rng.integers(-3, 4, k) * 0.5
            S = sp.csr_matrix((v, c, np.concatenate([[0], np.cumsum(w)])), shape=(nR, nC))
            D = np.zeros((nR, nC))
            np.add.at(D, (r, c), v)
            m.note(D2=D, indices=c, values=v)
            m.feat("not canonical")
        if rng.random() < 0.3 and way in ("csr", "csc", "coo"):
            S = S.astype(np.float32) if rng.random() < 0.5 else S
            D = S.toarray().astype(float)
        stored = [np.array(getattr(S, k)) for k in ("data", "indices", "indptr") if way in ("csr", "csc")]
        C = csr_matrix(S)
        for k, b in zip(("data", "indices", "indptr"), stored):
            m.equal(getattr(S, k), b, "the stored values of the source are left alone", part=k)
        R = S.tocsr()
        rows = [R.data[R.indptr[k]:R.indptr[k + 1]] for k in range(nR)]
        cols = [R.indices[R.indptr[k]:R.indptr[k + 1]] for k in range(nR)]
        m.close(C.to_numpy(), D, "dense form of the CSR matrix", atol=1e-6)
        check_csr(m, C, rows, cols, (nR, nC), way)
        m.close(S.toarray(), D, "the source is left alone", atol=1e-6)
        if way in ("csr", "csc", "coo", "bsr", "dia"):
            S2 = S.copy()
            own(m, rng, lambda: csr_matrix(S2), [S2.data], way)
    elif way.startswith("raw"):
        if way == "raw unsorted":
            p = [rng.permutation(len(k)) for k in nz]
            nz = [k[q] for k, q in zip(nz, p)]
            vals = [k[q] for k, q in zip(vals, p)]
        data, ind = np.concatenate(vals), np.concatenate(nz)
        ptr = np.concatenate([[0], np.cumsum([len(k) for k in nz])])
        fr = Frozen(data=data, ind=ind, ptr=ptr)
        if way == "raw inferred":
            C = csr_matrix(data, ind, ptr)
            shape = (nR, int(ind.max()) + 1 if len(ind) else 0)
        else:
            shape = (nR, nC)
            C = csr_matrix(data, indices=ind, indptr=ptr, shape=shape)
        check_csr(m, C, vals, nz, shape, way)
        fr.check(m)
        d2, i2, p2 = data.copy(), ind.copy(), ptr.copy()
        own(m, rng, lambda: csr_matrix(d2, indices=i2, indptr=p2, shape=(nR, nC)), [d2], way)
        rows = np.repeat(np.arange(nR), [len(k) for k in nz])
        for fn, keep in ((lower_spdata, rows >= ind), (upper_spdata, rows <= ind)):
            for t in (np.int64, pick(rng, [np.int32, np.int8, np.uint8, np.uint32, np.uint64])):
                if nR > 100 or nC > 100:
                    t = np.int64
                R, I = rows.astype(t), ind.astype(t)
                k = rng.permutation(len(R)) if rng.random() < 0.5 else np.arange(len(R))
                fr = Frozen(data=data, R=R, I=I)
                d, r, c = fn(data[k], R[k], I[k])
                m.equal(d, data[k][keep[k]], "triangular part: values", dtype=t.__name__)
                m.equal(r, R[k][keep[k]], "triangular part: rows", dtype=t.__name__)
                m.equal(c, I[k][keep[k]], "triangular part: columns", dtype=t.__name__)
                fr.check(m)
        n, w = get_shape_sp(ptr)
        m.ok(n == nR and w == max(len(k) for k in nz), "shape from the boundaries of rows", got=(n, w))
    else:
        w, _ = widths(rng, int(rng.integers(7)))
        if w.sum() == 0:
            w[-1] = 2
        flat = rng.normal(size=w.sum())
        m.note(w=w, flat=flat)
        C = csr_matrix(ak.unflatten(flat, w))
        check_csr(m, C, split(flat, w), [np.arange(k) for k in w], (len(w), w.max()), way)
    n = int(rng.integers(1, 12))
    E = csr_matrix.eye(n)
    check_csr(m, E, [np.ones(1)] * n, [np.array([k]) for k in range(n)], (n, n), "eye", quick=True)
