"""C10: matrix and vector kernels compute what their names say."""

import itertools

import numpy as np
import sympy as sy

from mon.core import Frozen, grow, layout, pick, scenario, values

from sigmaepsilon.math.linalg import (
    Gram, adj3x3, det2x2, det3x3, dual_frame, generalized_inverse, generalized_left_inverse,
    generalized_right_inverse, inv, inv2x2, inv2x2u, inv3x3, inv3x3_bulk, inv3x3_bulk2, inv3x3u,
    inv_sym_3x3, is_pos_def, linspace, linspace1d, norm, norm2d, normalize, normalize2d,
    normalize_frame, permutation_tensor, random_pos_semidef_matrix, random_posdef_matrix,
    unit_basis_vector, vpath,
)
from sigmaepsilon.math.linalg.utils import ATB, ATBA, ATBAw, linsolve, matmul, matmulw


def adjugate(A):
    n = A.shape[-1]
    out = np.zeros_like(A)
    for i in range(n):
        for j in range(n):
            M = np.delete(np.delete(A, i, -2), j, -1)
            out[..., j, i] = (-1) ** (i + j) * np.linalg.det(M)
    return out


def matrices(rng, n, stack, cond=1e4):
    """Invertible matrices of every kind, possibly far from symmetric."""
    def one():
        for _ in range(200):
            k = pick(rng, ["normal", "int", "sparse", "big", "small", "perm", "tri", "rot", "neg"])
            if k == "perm":
                a = np.eye(n)[rng.permutation(n)] * rng.uniform(0.5, 2, n)
            elif k == "tri":
                a = np.triu(rng.normal(size=(n, n))) + 2 * np.eye(n)
                a = a if rng.random() < 0.5 else a.T
            elif k == "rot":
                a = np.linalg.qr(rng.normal(size=(n, n)))[0]
            else:
                a = values(rng, (n, n), k)
            if np.linalg.cond(a) < cond:
                return a
    if stack is None:
        return one()
    return np.stack([one() for _ in range(int(np.prod(stack)))]).reshape(tuple(stack) + (n, n)) if np.prod(stack) else np.zeros(tuple(stack) + (n, n))


def close_inv(m, got, A, what):
    m.ok(got.shape == A.shape, what + " (shape)", got=got.shape)
    if A.size == 0:
        return
    ref = np.linalg.inv(A)
    for idx in np.ndindex(*A.shape[:-2]):
        c = np.linalg.cond(A[idx])
        m.close(got[idx], ref[idx], what, rtol=1e-12 * c + 1e-10, atol=0, A=A[idx])


def each(m, got, ref, A, what):
    """Item by item, relative to the size of the matrix."""
    m.ok(np.shape(got) == np.shape(ref), what + " (shape)", got=np.shape(got))
    n = A.shape[-1]
    for idx in np.ndindex(*A.shape[:-2]):
        s = float(np.abs(A[idx]).max()) ** (n if np.ndim(ref) == A.ndim - 2 else n - 1)
        m.close(got[idx], ref[idx], what, rtol=1e-11, atol=0, scale=s * 6, A=A[idx])


@scenario(quick=300, thorough=6000)
def small_matrices(m, rng, i):
    n = [2, 3][i % 2]
    stack = [None, (1,), (3,), (17,), (2, 3), (0,), (2, 1, 2), (grow(rng, 130, 1500, 0.3),)][(i // 2) % 8]
    A = matrices(rng, n, stack)
    lay = pick(rng, ["C", "F", "strided", "view"])
    A = layout(rng, A, lay)
    m.note(A=A)
    m.feat(f"{n}x{n}", f"stack{stack}", "layout:" + lay)
    fr = Frozen(A=A)
    det = np.linalg.det(A)
    if n == 2:
        each(m, np.asarray(det2x2(A)), det, A, "det2x2")
        close_inv(m, inv2x2u(A), A, "inv2x2u")
        if stack is None:
            close_inv(m, inv2x2(A), A, "inv2x2")
    else:
        each(m, np.asarray(det3x3(A)), det, A, "det3x3")
        each(m, adj3x3(A), adjugate(np.array(A)), A, "adj3x3")
        close_inv(m, inv3x3u(A), A, "inv3x3u")
        if stack is None:
            close_inv(m, inv3x3(A), A, "inv3x3")
        elif len(stack) == 1:
            close_inv(m, inv3x3_bulk(A), A, "inv3x3_bulk")
            close_inv(m, inv3x3_bulk2(A), A, "inv3x3_bulk2")
    fr.check(m)


@scenario(quick=120, thorough=2500)
def singular_and_adjugate(m, rng, i):
    """Determinants and adjugates do not require regular matrices."""
    A = values(rng, (3, 3), pick(rng, ["normal", "int", "sparse"]))
    if i % 3 == 0:
        A[2] = A[0] * 2 - A[1]
    if i % 5 == 0:
        A[1] = 0
    B = values(rng, (2, 2), pick(rng, ["normal", "int", "sparse"]))
    if i % 3 == 1:
        B[1] = -3 * B[0]
    m.note(A=A, B=B)
    each(m, np.asarray(det3x3(A)), np.linalg.det(A), A, "det3x3")
    each(m, adj3x3(A), adjugate(A), A, "adj3x3")
    each(m, np.asarray(det2x2(B)), np.linalg.det(B), B, "det2x2")
    m.close(adj3x3(A) @ A, det3x3(A) * np.eye(3), "the adjugate times the matrix is the determinant", rtol=1e-10, atol=1e-12, scale=np.abs(A).max() ** 3 * 10)


@scenario(quick=6, thorough=30, modes=("py",))
def symbolic(m, rng, i):
    A = matrices(rng, 3, None).round(3)
    if abs(np.linalg.det(A)) < 1e-2:
        A = A + 3 * np.eye(3)
    if abs(np.linalg.det(A)) < 1e-2:
        A = np.eye(3) * 2 + np.arange(9).reshape(3, 3) * 0.1
    m.note(A=A)
    S = sy.Matrix([[sy.Symbol(f"a{r}{c}") for c in range(3)] for r in range(3)])
    sub = {S[r, c]: A[r, c] for r in range(3) for c in range(3)}
    num = lambda X: np.array(X.subs(sub).evalf()).astype(float)
    m.close(num(inv_sym_3x3(S)), np.linalg.inv(A), "symbolic inverse", rtol=1e-8)
    d, adj = inv_sym_3x3(S, as_adj_det=True)
    m.close(float(d.subs(sub)), np.linalg.det(A), "symbolic determinant", rtol=1e-8)
    m.close(num(adj), adjugate(A), "symbolic adjugate", rtol=1e-8)
    B = sy.Matrix(A.tolist())
    m.close(np.array(inv_sym_3x3(B).evalf()).astype(float), np.linalg.inv(A), "inverse of a symbolic matrix of numbers", rtol=1e-8)


@scenario(quick=200, thorough=4000)
def products(m, rng, i):
    a, b, c = [int(x) for x in rng.integers(1, 7, 3)]
    A, B = values(rng, (a, b), "normal"), values(rng, (b, c), "normal")
    C = values(rng, (a, a), "normal")
    w = float(rng.normal())
    fr = Frozen(A=A, B=B, C=C)
    m.note(A=A, B=B, w=w)
    m.close(matmul(A, B), A @ B, "matmul", rtol=1e-11)
    m.close(matmulw(A, B, w), w * (A @ B), "matmulw", rtol=1e-11)
    m.close(ATB(A, C), A.T @ C, "ATB", rtol=1e-11)
    m.close(ATBA(A, C), A.T @ C @ A, "ATBA", rtol=1e-11, scale=30)
    m.close(ATBAw(A, C, w), w * (A.T @ C @ A), "ATBAw", rtol=1e-11, scale=30 + 30 * abs(w))
    n = int(rng.integers(1, 7))
    S = matrices(rng, n, None)
    close_inv(m, inv(S), S, "inv")
    rhs = values(rng, (n,), "normal")
    m.close(S @ linsolve(S, rhs), rhs, "linsolve", rtol=1e-9 * np.linalg.cond(S), atol=1e-12 * np.linalg.cond(S))
    fr.check(m)


@scenario(quick=200, thorough=4000)
def norms(m, rng, i):
    n, d = int(pick(rng, [1, 2, 3, 8, 65])), int(pick(rng, [1, 2, 3, 4, 7]))
    A = values(rng, (n, d))
    A[np.abs(A).sum(axis=1) == 0] = 1.0
    A = layout(rng, A, pick(rng, ["C", "F", "strided", "view"]) )
    A_c = np.ascontiguousarray(A)
    m.note(A=A)
    fr = Frozen(A=A)
    ref = np.sqrt((A_c**2).sum(axis=1))
    m.close(norm2d(A), ref, "norms of the rows", rtol=1e-11)
    for k in range(min(n, 3)):
        m.close(float(norm(A_c[k])), ref[k], "norm of a vector", rtol=1e-11, atol=0)
        m.close(normalize(A_c[k]), A_c[k] / ref[k], "normalized vector", rtol=1e-11)
    N = normalize2d(A)
    m.close(N, A_c / ref[:, None], "normalized rows", rtol=1e-11)
    fr.check(m)
    B = values(rng, (d, d), "normal")
    fr = Frozen(B=B)
    m.close(normalize_frame(B), B / np.linalg.norm(B, axis=1)[:, None], "normalized frame", rtol=1e-11)
    m.close(Gram(B), B @ B.T, "Gram matrix", rtol=1e-11)
    fr.check(m)


@scenario(quick=200, thorough=4000)
def segments(m, rng, i):
    d = int(pick(rng, [1, 2, 3, 5]))
    N = int(pick(rng, [2, 3, 4, 10, 57, 300]))
    p, q = values(rng, (d,)), values(rng, (d,))
    if i % 9 == 0:
        q = p.copy()
    if i % 9 == 1:
        q = p + 1e-3 * rng.normal(size=d)
    m.note(p=p, q=q, N=N)
    m.feat(f"N{N}", f"dim{d}")
    fr = Frozen(p=p, q=q)
    ref = p + np.linspace(0, 1, N)[:, None] * (q - p)
    s = np.abs(p).max() + np.abs(q).max() + 1e-30
    for name, got in (("linspace", linspace(p, q, N)), ("vpath", vpath(p, q, N))):
        m.close(got, ref, name + " of points", rtol=1e-11, atol=0, scale=s)
        m.close(got[0], p, name + " starts at the first end", rtol=1e-13, atol=0, scale=s)
        m.close(got[-1], q, name + " stops at the second end", rtol=1e-11, atol=0, scale=s)
    fr.check(m)
    a, b = float(p[0]), float(q[0])
    s = abs(a) + abs(b) + 1e-30
    m.close(linspace(a, b, N), np.linspace(a, b, N), "linspace of numbers", rtol=1e-11, atol=0, scale=s)
    m.close(linspace1d(a, b, N), np.linspace(a, b, N), "linspace1d", rtol=1e-11, atol=0, scale=s)
    m.close(linspace(2, 7, N), np.linspace(2, 7, N), "linspace of integers", rtol=1e-11)


@scenario(quick=260, thorough=5000, modes=("py",))
def generalized(m, rng, i):
    r, c = int(rng.integers(1, 7)), int(rng.integers(1, 7))
    k = min(r, c)
    for _ in range(100):
        A = values(rng, (r, c), pick(rng, ["normal", "int", "sparse", "uniform"]))
        sv = np.linalg.svd(A, compute_uv=False)
        if sv[-1] > 1e-2 * sv[0]:
            break
    else:
        A = np.eye(r, c)
    m.feat("square" if r == c else "tall" if r > c else "wide")
    if i % 2:
        # other units, and badly conditioned as far as double precision allows
        sc = 10.0 ** float(rng.uniform(-7, 7))
        lc = float(rng.uniform(0, 10 if r == c else 5))
        U, _, V = np.linalg.svd(A)
        D = np.zeros((r, c))
        D[np.arange(k), np.arange(k)] = 10.0 ** -np.linspace(0, lc if k > 1 else 0, k)
        E = U @ D @ V
        m.note(E=E, sc=sc)
        E = E * sc
        fr = Frozen(E=E)
        G = generalized_inverse(E)
        tol = 1e-13 * 10.0 ** (lc if r == c else 2 * lc) + 1e-10
        if r >= c:
            m.close(G @ E, np.eye(c), "inverse from the left", atol=tol, rtol=0, lc=lc, sc=sc)
        if r <= c:
            m.close(E @ G, np.eye(r), "inverse from the right", atol=tol, rtol=0, lc=lc, sc=sc)
        fr.check(m)
        m.feat("bad condition" if lc > 6 else "fair condition")
    m.note(A=A)
    fr = Frozen(A=A)
    G = generalized_inverse(A)
    m.close(G, np.linalg.pinv(A), "generalized inverse", rtol=1e-7)
    if r >= c:
        m.close(G @ A, np.eye(c), "inverse from the left", atol=1e-7)
        m.close(generalized_left_inverse(A), np.linalg.pinv(A), "left inverse", rtol=1e-7)
    if r <= c:
        m.close(A @ G, np.eye(r), "inverse from the right", atol=1e-7)
        m.close(generalized_right_inverse(A), np.linalg.pinv(A), "right inverse", rtol=1e-7)
    fr.check(m)
    # without full rank there is no such inverse
    B = A.copy()
    if k == 1:
        B[...] = 0.0
    elif r <= c:
        B[0] = 2 * B[-1]
    else:
        B[:, 0] = -B[:, -1]
    m.raises(Exception, lambda: generalized_inverse(B), "no inverse without full rank", B=B)
    m.raises(Exception, lambda: generalized_inverse(np.ones(3)), "no inverse of a vector")
    m.raises(Exception, lambda: generalized_inverse(np.ones((2, 2, 2))), "no inverse of a stack")


@scenario(quick=60, thorough=300, modes=("py",))
def constants(m, rng, i):
    d = [1, 2, 3, 4, 5, 6][i % 6]
    e = permutation_tensor(d)
    m.note(d=d, i=i)
    ref = np.zeros((d,) * d)
    for p in itertools.permutations(range(d)):
        ref[p] = (-1) ** sum(p[a] > p[b] for a in range(d) for b in range(a + 1, d))
    m.equal(e, ref, "permutation tensor")
    e[...] = 7
    m.equal(permutation_tensor(d), ref, "asked again, the same permutation tensor")
    n = int(rng.integers(1, 9))
    k = int(rng.integers(0, n))
    v = float(rng.normal())
    r = np.zeros(n)
    r[k] = v
    m.close(unit_basis_vector(n, k, v), r, "unit basis vector")
    r[k] = 1
    u = unit_basis_vector(n, k)
    m.close(u, r, "unit basis vector")
    u[...] = 7
    m.close(unit_basis_vector(n, k), r, "asked again, the same unit basis vector")
    m.close(unit_basis_vector(n)[0], 1.0, "unit basis vector")
    m.ok(np.count_nonzero(unit_basis_vector(n)) == 1, "unit basis vector")
    np.random.seed(int(rng.integers(2**31)))
    S = random_pos_semidef_matrix(n)
    ev = np.linalg.eigvalsh(S)
    m.close(S, S.T, "random matrices are symmetric")
    m.ok(S.shape == (n, n) and ev[0] > -1e-10, "random positive semidefinite matrix", ev=ev)
    alpha = float(pick(rng, [1e-3, 0.5, 2.0]))
    P = random_posdef_matrix(n, alpha)
    ev = np.linalg.eigvalsh(P)
    m.close(P, P.T, "random matrices are symmetric")
    m.ok(P.shape == (n, n) and ev[0] > alpha * (1 - 1e-6) - 1e-12 * ev[-1], "random positive definite matrix", ev=ev, alpha=alpha)


@scenario(quick=60, thorough=900)
def types(m, rng, i):
    """Integers and single precision: the same values, or an exception."""
    dt = [np.int64, np.int32, np.float32][i % 3]
    tol = 1e-4 if dt is np.float32 else 1e-10
    for _ in range(200):
        A2, A3 = rng.integers(-6, 7, (2, 2)), rng.integers(-6, 7, (3, 3))
        if 0.9 < abs(np.linalg.det(A2)) and 0.9 < abs(np.linalg.det(A3)) and max(np.linalg.cond(A2), np.linalg.cond(A3)) < 50:
            break
    else:
        A2, A3 = np.array([[2, 1], [1, 3]]), np.array([[2, 1, 0], [1, 3, 1], [0, 1, 4]])
    V = rng.integers(-9, 10, (4, 3))
    V[np.abs(V).sum(axis=1) == 0] = 1
    N = int(pick(rng, [2, 3, 4, 8]))
    a2, a3, v = A2.astype(dt), A3.astype(dt), V.astype(dt)
    S, T = np.stack([A3, -A3, 2 * A3]).astype(dt), np.stack([A3, -A3, 2 * A3]).astype(float)
    F = V.astype(float)
    nr = np.sqrt((F**2).sum(axis=1))
    inv2, inv3 = np.linalg.inv(A2.astype(float)), np.linalg.inv(A3.astype(float))
    m.note(dtype=np.dtype(dt).name, A2=A2, A3=A3, V=V, N=N)
    m.feat(np.dtype(dt).name)
    fr = Frozen(a2=a2, a3=a3, v=v, S=S)
    catalogue = [
        (det2x2, (a2,), np.linalg.det(A2)), (det3x3, (a3,), np.linalg.det(A3)), (adj3x3, (a3,), adjugate(A3.astype(float))),
        (inv2x2, (a2,), inv2), (inv2x2u, (a2,), inv2), (inv3x3, (a3,), inv3), (inv3x3u, (a3,), inv3), (inv, (a3,), inv3),
        (inv3x3_bulk, (S,), np.linalg.inv(T)), (inv3x3_bulk2, (S,), np.linalg.inv(T)),
        (norm, (v[0],), nr[0]), (norm2d, (v,), nr), (normalize, (v[0],), F[0] / nr[0]), (normalize2d, (v,), F / nr[:, None]),
        (normalize_frame, (a3,), A3 / np.linalg.norm(A3, axis=1)[:, None]), (Gram, (a3,), A3 @ A3.T), (dual_frame, (a3,), inv3.T),
        (vpath, (v[0], v[1], N), np.linspace(F[0], F[1], N)), (linspace, (v[0], v[1], N), np.linspace(F[0], F[1], N)),
        (linspace1d, (v[0, 0], v[1, 0], N), np.linspace(F[0, 0], F[1, 0], N)),
        (generalized_inverse, (a3,), inv3), (generalized_left_inverse, (a3,), inv3), (generalized_right_inverse, (a3,), inv3),
    ]
    for fn, args, ref in catalogue:
        name = getattr(fn, "__name__", str(fn))
        try:
            r = fn(*args)
        except Exception:
            m.feat("refused:" + name)
            continue
        m.close(np.asarray(r, dtype=float), ref, name + " of " + np.dtype(dt).name, rtol=tol, atol=0, scale=max(1.0, np.abs(ref).max()) if dt is np.float32 else np.abs(ref).max())
    fr.check(m)
