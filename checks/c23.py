"""C23: linear programs."""

import itertools

import numpy as np
import sympy as sy
from scipy.optimize import linprog

from mon.core import pick, scenario

from sigmaepsilon.math.function import Equality, Function, InEquality, Relation
from sigmaepsilon.math.optimize import LinearProgrammingProblem as LPP

NAMES = ["x", "y", "z", "x1", "x2", "x10", "a", "b", "w", "u", "x3", "x11", "A", "alpha", "t"]
TOL = 1e-6


def fmt(c):
    c = float(c)
    return str(int(c)) if c == int(c) else repr(c)


class Row:
    """sum a_v v  (op)  b, written in one of many ways."""

    def __init__(self, a, op, b):
        self.a, self.op, self.b = a, op, b

    def value(self, x):
        return float(self.a @ x - self.b)

    def holds(self, x, tol=TOL):
        r = self.value(x)
        s = tol * (1 + np.abs(self.a) @ np.minimum(1 + np.abs(x), 1e9) + abs(self.b)) if tol < TOL else tol * (1 + np.abs(self.a) @ np.abs(x) + abs(self.b))
        return {"=": abs(r) <= s, "<=": r <= s, "<": r <= s, ">=": r >= -s, ">": r >= -s}[self.op]


def expr_text(rng, names, a, const=0.0):
    terms = [(float(c), v) for c, v in zip(a, names) if c != 0]
    terms = [terms[k] for k in rng.permutation(len(terms))]
    if terms and rng.random() < 0.2:
        # a term in two pieces
        c, v = terms[0]
        u = 1.0 if abs(c) > 1e-3 else c / 2  # no cancellation
        terms = [(c - u, v), (u, v)] + terms[1:]
        terms = [t for t in terms if t[0] != 0]
    if const != 0 or not terms:
        terms.insert(int(rng.integers(len(terms) + 1)), (float(const), None))
    s = ""
    for c, v in terms:
        sgn = "-" if c < 0 else "+"
        t = fmt(abs(c)) if v is None else (v if abs(c) == 1 and rng.random() < 0.5 else f"{fmt(abs(c))}*{v}")
        s = s + f" {sgn} {t}" if s else (f"-{t}" if c < 0 else t)
    return s


def expr_sym(rng, S, names, a, const=0.0, irrational=True):
    if irrational and rng.random() < 0.15:
        # irrational numbers, in every term or in front of all of them
        f = pick(rng, [sy.sqrt(2), sy.pi, 1 + sy.sqrt(5), sy.Rational(1, 3) * sy.E])
        a, const = np.asarray(a) / float(f), const / float(f)
        e = sum((float(a[k]) * S[names[k]] for k in rng.permutation(len(names)) if a[k] != 0), sy.Float(const) if const else sy.Integer(0))
        return f * e if rng.random() < 0.5 else sy.expand(f * e)
    e = sy.Float(const) if const != int(const) else sy.Integer(int(const))
    for k in rng.permutation(len(names)):
        c = float(a[k])
        if c != 0:
            e = e + (sy.Integer(int(c)) if c == int(c) else c) * S[names[k]]
    return e


def only_used(m, rng, vs, names, *coefficients):
    """The variables that do appear (relations need not mention all of them)."""
    used = {n for a in coefficients for n, c in zip(names, a) if c != 0}
    some = [v for v in vs if str(v) in used]
    if not some or len(some) == len(vs):
        return vs
    m.feat("some of the variables only")
    return some


def build_row(m, rng, row, names, S, some=False, irrational=True):
    order = [names[k] for k in rng.permutation(len(names))]
    vs = [S[v] for v in order]
    style = pick(rng, ["text", "text", "sym", "cls"])
    # constants and terms on both sides
    shift = rng.integers(-3, 4, size=len(names)).astype(float) * (rng.random(len(names)) < 0.3)
    shift = shift * np.where((np.abs(row.a) > 0) & (np.abs(row.a) < 1e-1), np.abs(row.a), 1.0)  # no cancellation
    k = float(rng.integers(-3, 4)) if rng.random() < 0.3 else 0.0
    m.feat("style " + style, "op " + row.op)
    if some:
        vs = only_used(m, rng, vs, names, row.a, *([row.a + shift, shift] if style == "text" else []))
    if style == "text":
        left = expr_text(rng, names, row.a + shift, k)
        right = expr_text(rng, names, shift, row.b + k)
        if irrational and rng.random() < 0.15:
            f = pick(rng, ["sqrt(2)", "pi", "(1 + sqrt(3))"])
            left, right = f"{f}*({left})", f"({right})*{f}"
            m.feat("irrational")
        text = f"{left} {row.op} {right}"
        # the same variables appear in the text with their assumptions
        return pick(rng, [Relation, Equality if row.op == "=" else InEquality])(text, variables=vs), text
    e = expr_sym(rng, S, names, row.a, -row.b, irrational)
    if style == "sym":
        return Relation(e, op=row.op, variables=vs), str(e) + row.op
    if row.op == "=":
        return Equality(e, variables=vs), str(e) + "="
    return InEquality(e, op=row.op, variables=vs), str(e) + row.op


def build(m, rng, names, c, const, rows, assumptions=None, irrational=True):
    assumptions = assumptions or {}
    S = {v: sy.Symbol(v, **assumptions.get(v, {})) for v in names}
    order = [names[k] for k in rng.permutation(len(names))]
    how = pick(rng, ["sym", "text"]) if not assumptions else "sym"
    # either the constraints or the objective may leave out variables
    sparing = pick(rng, ["none", "constraints", "objective"]) if rows else "none"
    vs = [S[v] for v in order]
    if sparing == "objective":
        vs = only_used(m, rng, vs, names, c)
    if how == "sym":
        obj = Function(expr_sym(rng, S, names, c, const, irrational), variables=vs)
    else:
        obj = Function(expr_text(rng, names, c, const), variables=vs)
    m.feat("objective " + how)
    cons, texts = [], []
    for r in rows:
        q, t = build_row(m, rng, r, names, S, sparing == "constraints", irrational)
        cons.append(q)
        texts.append(t)
    m.note(objective=str(obj.expr), constraints=texts, order=order)
    return obj, cons, S


def references(c, rows, bounds, maximize, orders, unit):
    """The reference outcome, or None when the solver itself does not agree
    about the same problem put to it in other orders, forms and units."""
    n = len(c)
    out = []
    for order in [np.arange(n), *orders]:
        rs = [Row(r.a[order], r.op, r.b) for r in rows]
        bs = [bounds[k] for k in order]
        for method in ("highs", "highs-ds", "highs-ipm"):
            out.append(reference(c[order], rs, bs, maximize, method=method))
    out.append(reference(c, rows, bounds, maximize, sparse=True))
    if not np.all(unit == 1):
        rs = [Row(r.a / unit, r.op, r.b) for r in rows]
        bs = [tuple(None if b is None else b * u for b in p) for p, u in zip(bounds, unit)]
        out.append(reference(c / unit, rs, bs, maximize))
    if len({r.status for r in out}) > 1 or out[0].status not in (0, 2, 3):
        return None
    if out[0].success:
        f = [r.fun for r in out]
        if max(f) - min(f) > 1e-7 * (1 + max(abs(v) for v in f)):
            return None
    return out[0]


def solver_says(c, rows, bounds, maximize):
    """Statuses and values reported by the solver for the same problem with its variables
    and constraints in other orders: HiGHS (1.8) takes some unbounded problems
    for infeasible ones, depending on the order of the rows and columns, and has
    absolute tolerances that matter if the variables are in different units."""
    rows = [Row(r.a if r.op in ("=", "<=", "<") else -r.a, "=" if r.op == "=" else "<=", r.b if r.op in ("=", "<=", "<") else -r.b) for r in rows]
    out = set()
    n = len(c)
    cols = itertools.islice(itertools.permutations(range(n)), 24)
    for order in cols:
        order = np.array(order)
        rws = itertools.islice(itertools.permutations(range(len(rows))), 24) if len(rows) < 5 else [np.random.default_rng(k).permutation(len(rows)) for k in range(24)]
        for rw in rws:
            rs = [Row(rows[k].a[order], rows[k].op, rows[k].b) for k in rw]
            for method in ("highs", "highs-ds", "highs-ipm"):
                r = reference(c[order], rs, [bounds[k] for k in order], maximize, method=method)
                out.add((r.status, (-r.fun if maximize else r.fun) if r.success else None))
    return out


def reference(c, rows, bounds, maximize, integrality=None, method="highs", sparse=False):
    """The optimum of the generated data, assembled independently."""
    A_ub, b_ub, A_eq, b_eq = [], [], [], []
    for r in rows:
        if r.op == "=":
            A_eq.append(r.a)
            b_eq.append(r.b)
        elif r.op in ("<=", "<"):
            A_ub.append(r.a)
            b_ub.append(r.b)
        else:
            A_ub.append(-r.a)
            b_ub.append(-r.b)
    kw = {}
    if A_ub:
        kw.update(A_ub=np.array(A_ub), b_ub=np.array(b_ub))
    if A_eq:
        kw.update(A_eq=np.array(A_eq), b_eq=np.array(b_eq))
    if integrality is not None:
        kw["integrality"] = integrality
    if sparse:
        from scipy.sparse import csr_matrix

        kw.update({k: csr_matrix(kw[k]) for k in ("A_ub", "A_eq") if k in kw})
    return linprog(-c if maximize else c, bounds=bounds, method=method, **kw)


def coef(rng, n, frac=True):
    a = rng.integers(-6, 7, size=n).astype(float)
    if frac and rng.random() < 0.4:
        a = a / float(pick(rng, [2, 4, 8]))
    if rng.random() < 0.3:
        a = a * (rng.random(n) < 0.6)
    return a


def random_rows(rng, n, x0, anyop=True):
    """Constraints, satisfied by x0."""
    rows = []
    for _ in range(int(rng.integers(1, 6))):
        a = coef(rng, n)
        if not a.any():
            a[int(rng.integers(n))] = 1.0
        op = pick(rng, ["<=", ">=", "<=", ">=", "<", ">", "="])
        s = float(a @ x0)
        slack = float(rng.integers(0, 5))
        if op in ("<", ">"):
            slack += 1
        b = s if op == "=" else (s + slack if op in ("<=", "<") else s - slack)
        rows.append(Row(a, op, b))
    return rows


def var_bounds(rng, n):
    kind = pick(rng, ["default", "default", "nonneg", "free", "box", "list", "mixed"])
    if kind == "default":
        return kind, None, [(0, None)] * n
    if kind == "nonneg":
        return kind, (0, None), [(0, None)] * n
    if kind == "free":
        return kind, (None, None), [(None, None)] * n
    if kind == "box":
        lo, hi = -float(rng.integers(0, 5)), float(rng.integers(5, 12))
        return kind, (lo, hi), [(lo, hi)] * n
    out = []
    for _ in range(n):
        out.append(pick(rng, [(0, None), (None, None), (-2.0, 7.0), (0, 6.0), (None, 9.0), (1.0, None)]))
    return kind, out, out


def make_point(rng, bounds):
    x = []
    for lo, hi in bounds:
        l = -4.0 if lo is None else lo
        h = l + 6.0 if hi is None else hi
        x.append(float(np.round(rng.uniform(l, h) * 4) / 4))
        x[-1] = min(max(x[-1], l), h)
    return np.array(x)


def judge(m, problem, kw, res, ref, names, c, const, rows, bounds, maximize, integrality=None):
    if integrality is None and res.status != ref.status:
        if res.status in {k for k, _ in solver_says(c, rows, bounds, maximize)}:
            m.feat("reference undecided")
            return
    m.ok(res.status == ref.status, "outcome: optimal, infeasible or unbounded", got=(res.status, res.message), expected=(ref.status, ref.message))
    m.ok(bool(res.success) == bool(ref.success), "success")
    m.feat(f"status{res.status}")
    if not ref.success:
        return
    x = np.asarray(res.x)
    m.ok(x.shape == (len(names),), "one value per variable", got=x.shape)
    for r in rows:
        m.ok(r.holds(x), "the solution satisfies the constraints", a=r.a, op=r.op, b=r.b, x=x, residual=r.value(x))
    for v, (lo, hi) in zip(x, bounds):
        m.ok((lo is None or v >= lo - TOL) and (hi is None or v <= hi + TOL), "the solution is within the bounds", x=x, bounds=(lo, hi))
    if integrality is not None:
        for v, k in zip(x, integrality):
            if k:
                m.ok(abs(v - round(v)) < 1e-5, "integer variables", x=x)
    best = (-ref.fun if maximize else ref.fun) + const
    val = float(c @ x + const)
    sc = 1 + abs(best) + float(np.abs(c) @ np.abs(x))
    if integrality is None and abs(val - best) > TOL * sc:
        if any(f is not None and abs(f + const - val) <= TOL * sc for _, f in solver_says(c, rows, bounds, maximize)):
            m.feat("reference undecided")
            return
    m.close(val, best, "no feasible point is better", rtol=0, atol=TOL * sc, maximize=maximize, x=x, reference=ref.x)
    m.close(float(np.squeeze(res.fun)), val, "the reported value is the objective at the solution", rtol=0, atol=1e-7 * sc, x=x)


@scenario(quick=200, thorough=6000, modes=("py", "interp"))
def optimum(m, rng, i):
    n = int(rng.integers(1, 6)) if i % 25 else int(rng.integers(8, 14))
    names = [str(v) for v in rng.permutation(NAMES)[:n]]
    c = coef(rng, n)
    const = float(pick(rng, [0, 0, 3, -2.5]))
    kind, given, bounds = var_bounds(rng, n)
    x0 = make_point(rng, bounds)
    mode = pick(rng, ["feasible", "feasible", "feasible", "any", "closed"])
    if mode == "any":
        rows = random_rows(rng, n, make_point(rng, [(-9, 9)] * n) * 3)
        for r in rows:
            r.b = r.b + float(rng.integers(-9, 10))
    else:
        rows = random_rows(rng, n, x0)
    if mode == "closed":
        rows.append(Row(np.ones(n), "<=", float(np.ceil(x0.sum() + 5))))
        rows.append(Row(np.ones(n), ">=", float(np.floor(x0.sum() - 5))))
    maximize = bool(rng.random() < 0.5)
    unit = np.ones(n)
    if rng.random() < 0.3:
        # some variables in other units
        unit = np.array([float(pick(rng, [1.0, 1.0, 2.0**10, 2.0**-10, 2.0**20, 2.0**-20])) for _ in range(n)])
        c = c * unit
        for r in rows:
            r.a = r.a * unit
        bounds = [tuple(None if b is None else b / u for b in p) for p, u in zip(bounds, unit)]
        given = None if given is None else bounds
        m.feat("units")
    obj, cons, S = build(m, rng, names, c, const, rows)
    order = rng.permutation(n)
    vs = [S[names[k]] for k in order]
    kw = {}
    if given is not None:
        kw["bounds"] = given if isinstance(given, tuple) else [given[k] for k in order]
    if rng.random() < 0.5:
        kw["sparsify"] = bool(rng.random() < 0.5)
    m.note(bounds=given, maximize=maximize, problem_order=[str(v) for v in vs])
    m.feat("bounds " + kind, f"variables{n}", "max" if maximize else "min", f"sparsify={kw.get('sparsify')}", mode)
    P = LPP(obj, cons, variables=pick(rng, [vs, tuple(vs)]), **kw)
    m.ok(list(P.variables) == vs, "variables of the problem")
    perm = np.argsort(order)

    def solve(P, perm, mx, **k):
        res = P.solve(maximize=mx, **k)
        if res.success:
            res.x = np.asarray(res.x)[perm]
        return res

    order2 = rng.permutation(n)
    orders = [order, order2]
    ref = references(c, rows, bounds, maximize, orders, unit)
    if ref is None:
        m.feat("reference undecided")
        return
    method = {} if rng.random() < 0.7 else {"method": pick(rng, ["highs-ds", "highs-ipm", "highs"])}
    res = solve(P, perm, maximize, **method)
    if res.status == 4 or ref.status == 4:
        # the solver gave up, or cannot tell infeasible from unbounded
        m.feat("undecided")
        return
    judge(m, P, kw, res, ref, names, c, const, rows, bounds, maximize)
    # the opposite sense, then again: solving leaves the problem alone
    ref2 = references(c, rows, bounds, not maximize, orders, unit)
    res2 = solve(P, perm, not maximize)
    if ref2 is not None and res2.status != 4:
        judge(m, P, kw, res2, ref2, names, c, const, rows, bounds, not maximize)
    res3 = solve(P, perm, maximize, **method)
    m.ok(res3.status == res.status, "solving again gives the same outcome")
    if res.success:
        m.close(float(np.squeeze(res3.fun)), float(np.squeeze(res.fun)), "solving again gives the same value", rtol=1e-9)
        m.close(res3.x, res.x, "solving again gives the same solution", rtol=1e-9)
        if n == 1 or mode == "closed":
            brute(m, rng, c, const, rows, bounds, maximize, float(np.squeeze(res.fun)))
    # another order of variables and constraints, written differently
    m.case_notes.pop("history", None)
    names2 = list(names)
    obj2, cons2, S2 = build(m, rng, names2, c, const, rows)
    p = rng.permutation(len(cons2))
    kw2 = dict(kw)
    if isinstance(kw2.get("bounds"), list):
        kw2["bounds"] = [given[k] for k in order2]
    P2 = LPP(obj2, [cons2[k] for k in p], variables=[S2[names[k]] for k in order2], **kw2)
    res4 = solve(P2, np.argsort(order2), maximize)
    if res4.status != 4:
        judge(m, P2, kw2, res4, ref, names, c, const, rows, bounds, maximize)


def brute(m, rng, c, const, rows, bounds, maximize, fun):
    """Vertices and random points: none of the feasible ones is better."""
    n = len(c)
    planes = [(r.a, r.b) for r in rows]
    for k, (lo, hi) in enumerate(bounds):
        e = np.eye(n)[k]
        for b in (lo, hi):
            if b is not None:
                planes.append((e, b))
    best = None
    cnt = 0
    for sel in itertools.islice(itertools.combinations(range(len(planes)), n), 400):
        A = np.array([planes[k][0] for k in sel])
        A = A / np.maximum(np.abs(A).max(0), 1e-30)
        if abs(np.linalg.det(A)) < 1e-9:
            continue
        A = np.array([planes[k][0] for k in sel])
        x = np.linalg.solve(A, np.array([planes[k][1] for k in sel], dtype=float))
        if all(r.holds(x, 1e-9) for r in rows) and all((lo is None or v >= lo - 1e-9) and (hi is None or v <= hi + 1e-9) for v, (lo, hi) in zip(x, bounds)):
            cnt += 1
            v = float(c @ x + const)
            best = v if best is None else (max(best, v) if maximize else min(best, v))
    if best is not None:
        m.feat("vertices enumerated")
        s = 1e-6 * (1 + abs(best))
        m.ok(fun >= best - s if maximize else fun <= best + s, "no vertex is better than the solution", vertex=best, solution=fun)


@scenario(quick=40, thorough=1500, modes=("py", "interp"))
def integers(m, rng, i):
    n = int(rng.integers(1, 4))
    names = [str(v) for v in rng.permutation(NAMES)[:n]]
    c = rng.integers(-6, 7, size=n).astype(float)
    const = float(pick(rng, [0, 2]))
    lo, hi = 0, int(rng.integers(3, 6))
    x0 = rng.integers(lo, hi + 1, size=n).astype(float)
    rows = []
    for _ in range(int(rng.integers(1, 4))):
        a = rng.integers(-4, 5, size=n).astype(float)
        if not a.any():
            a[0] = 2.0
        op = pick(rng, ["<=", ">="])
        b = float(a @ x0) + (float(rng.integers(0, 3)) + 0.5) * (1 if op == "<=" else -1)
        rows.append(Row(a, op, b))
    flags = np.array([int(v) for v in rng.random(n) < 0.7])
    if not flags.any():
        flags[0] = 1
    maximize = bool(rng.random() < 0.5)
    how = pick(rng, ["argument", "assumption"])
    m.feat(how, f"variables{n}")
    ass = {v: {"integer": True} for v, f in zip(names, flags) if f} if how == "assumption" else None
    # NOTE SciPy's integer solver misses optimums if rows are scaled by irrational numbers
    obj, cons, S = build(m, rng, names, c, const, rows, ass, irrational=False)
    order = rng.permutation(n)
    kw = dict(bounds=(lo, hi), sparsify=bool(rng.random() < 0.5))
    if how == "argument":
        kw["integrality"] = [int(flags[k]) for k in order]
    m.note(flags=flags, maximize=maximize, how=how)
    P = LPP(obj, cons, variables=[S[names[k]] for k in order], **kw)
    for _ in range(2):
        res = P.solve(maximize=maximize)
        if res.success:
            res.x = np.asarray(res.x)[np.argsort(order)]
        ref = reference(c, rows, [(lo, hi)] * n, maximize, flags)
        judge(m, P, kw, res, ref, names, c, const, rows, [(lo, hi)] * n, maximize, flags)
    if flags.all() and res.success:
        best = None
        for p in itertools.product(range(lo, hi + 1), repeat=n):
            x = np.array(p, dtype=float)
            if all(r.holds(x, 1e-9) for r in rows):
                v = float(c @ x + const)
                best = v if best is None else (max(best, v) if maximize else min(best, v))
        m.feat("lattice enumerated")
        m.close(float(np.squeeze(res.fun)), best, "best of all lattice points", rtol=1e-6, atol=1e-6)


@scenario(quick=60, thorough=1000, modes=("py", "interp"))
def no_solution(m, rng, i):
    """Infeasible and unbounded by construction."""
    n = int(rng.integers(1, 5))
    names = [str(v) for v in rng.permutation(NAMES)[:n]]
    x0 = make_point(rng, [(0, 6)] * n)
    rows = [r for r in random_rows(rng, n, x0) if r.op != "="]
    kind = pick(rng, ["infeasible", "infeasible equality", "unbounded"])
    maximize = bool(rng.random() < 0.5)
    m.feat(kind)
    c = coef(rng, n)
    bounds = (0, None)
    a = coef(rng, n)
    a[int(rng.integers(n))] = 2.0
    if kind == "infeasible":
        b = float(rng.integers(-3, 9))
        rows += [Row(a, "<=", b), Row(a.copy(), ">=", b + 1 + float(rng.integers(0, 4)))]
    elif kind == "infeasible equality":
        b = float(rng.integers(-3, 9))
        rows += [Row(a, "=", b), Row(2 * a, "=", 2 * b + 1)]
    else:
        # along d every constraint keeps holding, and the objective improves
        k = int(rng.integers(n))
        for r in rows:
            r.a[k] = -abs(r.a[k]) if r.op in ("<=", "<") else abs(r.a[k])
        rows = [r for r in rows if r.a.any()]
        rows = [r for r in rows if r.holds(np.zeros(n) + 0.0) or r.a[k] != 0] or [Row(np.eye(n)[k] * -1.0, "<=", 1.0)]
        c[k] = 2.0 if maximize else -2.0
        # make sure that it is feasible
        for r in rows:
            s = float(r.a @ x0)
            r.b = s + 1 if r.op in ("<=", "<") else s - 1
    m.note(maximize=maximize, kind=kind)
    obj, cons, S = build(m, rng, names, c, 0.0, [rows[k] for k in rng.permutation(len(rows))])
    P = LPP(obj, cons, variables=[S[names[k]] for k in rng.permutation(n)], bounds=bounds, sparsify=bool(rng.random() < 0.5))
    res = P.solve(maximize=maximize)
    m.ok(not res.success, "a problem without a solution is not solved", got=res.x)
    exp = (2, 4) if kind != "unbounded" else (3, 4)
    if kind == "unbounded" and res.status == 2:
        exp += tuple(k for k, _ in solver_says(c, rows, [bounds] * n, maximize))
    m.ok(res.status in exp, "reported as infeasible or unbounded", got=(res.status, res.message), kind=kind)
    m.ok(bool(res.message), "says why")


@scenario(quick=20, thorough=100, modes=("py",))
def refusal(m, rng, i):
    x, y = sy.symbols("x y")
    obj = Function(x + y, variables=[x, y])
    con = Relation("x + y >= 2", variables=[x, y])
    m.raises(ValueError, lambda: LPP(obj, [con]), "variables are needed")
    m.raises(TypeError, lambda: LPP(obj, [con], variables=["x", "y"]), "variables are symbols")
    m.raises(TypeError, lambda: LPP(x + y, [con], variables=[x, y]), "the objective is a function")
    m.raises(TypeError, lambda: LPP(obj, [x + y], variables=[x, y]), "constraints are relations")
    m.raises(ValueError, lambda: LPP(obj, [con], variables=[x, sy.Symbol("q")]), "foreign variables")
    m.raises(ValueError, lambda: LPP(obj, [con], variables=[x]), "all of the variables")
    m.raises(ValueError, lambda: LPP(obj, [Relation("x + y + q >= 2", variables=list(sy.symbols("x y q")))], variables=[x, y]), "variables of the constraints")
    m.raises(ValueError, lambda: LPP(Function(lambda z: z[0]), [con], variables=[x, y]), "symbolic objective")
    m.raises(ValueError, lambda: LPP(obj, [Relation(lambda z: z[0], op="=")], variables=[x, y]), "symbolic constraints")
    m.raises((TypeError, ValueError), lambda: LPP(obj, [Relation(x - y, op=lambda a, b: True, variables=[x, y])], variables=[x, y]).solve(), "constraints are equalities or inequalities")
