"""C21: functions, derivatives, substitution and coefficients."""

import numpy as np
import sympy as sy

from mon.core import Frozen, pick, scenario

from sigmaepsilon.math.function import Function
from sigmaepsilon.math.function import functions as standard_functions
from sigmaepsilon.math.function.testfunction import TestFunction, TestMaxFunction, TestMinFunction
from sigmaepsilon.math.function.symutils import coefficients, decode, generate_symbols, substitute

NAMES = ["x", "y", "z", "x1", "x2", "x10", "a", "b", "t", "q"]


def draw_vars(rng, n):
    names = [str(v) for v in rng.permutation(NAMES)[:n]]
    assume = pick(rng, [{}, {}, {"positive": True}, {"real": True}])
    return names, sy.symbols(names, **assume), assume


def number(rng):
    k = rng.random()
    if k < 0.6:
        return sy.Integer(int(pick(rng, [-4, -3, -2, -1, 1, 2, 3, 5])))
    if k < 0.8:
        return sy.Rational(int(rng.integers(-7, 8)) or 1, 4)
    if k < 0.88:
        return pick(rng, [sy.sqrt(2), -sy.pi, sy.E / 2, 1 + sy.sqrt(3), sy.sqrt(5) - 3])
    return sy.Float(float(np.round(rng.uniform(-3, 3), 3)) or 0.5)


def expression(rng, kind, S):
    n = len(S)
    if kind == "constant":
        return number(rng)
    if kind == "linear":
        e = sum((number(rng) * s for s in S if rng.random() < 0.8), sy.Integer(0))
        e = e + (number(rng) if rng.random() < 0.6 else 0)
        return e * number(rng) if rng.random() < 0.2 else e
    if kind == "polynomial":
        e = sy.Integer(0)
        for _ in range(int(rng.integers(1, 5))):
            t = number(rng)
            for s in S:
                t *= s ** int(rng.integers(0, 4))
            e += t
        return e
    if kind == "unexpanded":
        a = sum((number(rng) * s for s in S), number(rng))
        b = sum((number(rng) * s for s in S if rng.random() < 0.6), number(rng))
        return a * b + number(rng) * S[0]
    u, v = S[int(rng.integers(n))], S[int(rng.integers(n))]
    return number(rng) * pick(rng, [sy.sin(u) * v, sy.exp(-u * v / 4), sy.sqrt(1 + u**2) + v, sy.cos(u - 2 * v), u * v * sy.exp(-(v**2))]) + number(rng) * S[0]


def value(e, S, x):
    """Value of an expression at a point (symbols are matched by name)."""
    e = sy.sympify(e)
    at = {str(s): t for s, t in zip(S, x)}
    return float(e.subs({s: sy.Float(at[str(s)], 30) for s in e.free_symbols}).evalf(25))


def judge(m, rng, f, e, S, tag, order=2):
    """The function against the expression; S in the order of the arguments."""
    n = len(S)
    m.ok(f.dimension == n, "dimension", how=tag, got=f.dimension)
    m.ok([str(v) for v in f.variables] == [str(v) for v in S], "variables", how=tag, got=f.variables)
    P = rng.uniform(0.1, 2.0, (3, n)) * np.where(rng.random((3, n)) < 0.5, 1, -1) if rng.random() < 0.7 else rng.integers(-3, 4, (3, n)).astype(float)
    grads = [sy.diff(e, s) for s in S]
    for k, p in enumerate(P):
        arg = pick(rng, [p, p.tolist(), tuple(p.tolist())])
        v = value(e, S, p)
        m.close(float(f(arg)), v, "value", how=tag, x=p, rtol=1e-9)
        m.close(float(f.f(arg)), v, "value by f", how=tag, rtol=1e-9)
        m.close(float(f.f0(arg)), v, "value by f0", how=tag, rtol=1e-9)
        if k == 0 or order > 1:
            g = np.array([value(d, S, p) for d in grads])
            m.close(np.asarray(f.g(arg), float), g, "gradient", how=tag, x=p, rtol=1e-9)
        if k == 0:
            H = np.array([[value(sy.diff(d, s), S, p) for s in S] for d in grads])
            m.close(np.asarray(f.G(arg), float), H, "Hessian", how=tag, x=p, rtol=1e-9)
    # several points at once
    cols = [np.ascontiguousarray(P[:, k]) for k in range(n)]
    m.close(np.broadcast_to(np.asarray(f(cols), float), (3,)), [value(e, S, p) for p in P], "values at several points", how=tag, rtol=1e-9)
    if rng.random() < 0.1:
        Q = rng.uniform(0.1, 2.0, (1200, n))
        got = np.broadcast_to(np.asarray(f([np.ascontiguousarray(Q[:, k]) for k in range(n)]), float), (1200,))
        at = rng.integers(1200, size=12).tolist() + [0, 1199]
        m.close(got[at], [value(e, S, Q[k]) for k in at], "values at many points", how=tag, rtol=1e-9)


@scenario(quick=200, thorough=4000, modes=("py", "interp"))
def symbolic(m, rng, i):
    kind = ["linear", "polynomial", "smooth", "unexpanded", "linear", "constant"][i % 6]
    n = int(rng.integers(1, 5))
    names, S, assume = draw_vars(rng, n)
    e = expression(rng, kind, S)
    how = pick(rng, ["expression", "string", "string and symbols", "expression, no variables", "string, no variables", "extra variable", "expression and names"])
    if kind == "constant" and "no variables" in how:
        how = "string"
    if kind == "smooth" and not e.free_symbols and "no variables" in how:
        how = "string"
    order = [S[int(k)] for k in rng.permutation(n)]
    kw = {}
    if rng.random() < 0.25:
        kw["simplify"] = False
    m.note(e=str(e), how=how, variables=str(order), assume=str(assume), kw=kw)
    m.feat("expression:" + kind, "from " + how, f"variables{n}")
    if how == "expression":
        f = Function(e, variables=order, **kw)
    elif how == "string":
        f = Function(str(e), variables=[str(s) for s in order], **kw)
    elif how == "string and symbols":
        f = Function(str(e), variables=order, **kw)
    elif how == "expression and names":
        e = e.subs({s: sy.Symbol(str(s)) for s in S}, simultaneous=True)
        order = [sy.Symbol(str(s)) for s in order]
        f = Function(e, variables=[str(s) for s in order], **kw)
    elif how == "expression, no variables":
        if not e.free_symbols:
            e = e + S[0]
        f = Function(e, **kw)
        order = list(f.variables)
        m.ok({str(s) for s in order} == {str(s) for s in e.free_symbols}, "variables of the expression", got=order)
        m.ok([str(s) for s in order] == sorted(str(s) for s in order), "order of the variables of the expression", got=order)
    elif how == "string, no variables":
        if not e.free_symbols:
            e = e + S[0]
        f = Function(str(e), **kw)
        order = [next(s for s in S if str(s) == str(v)) for v in f.variables]
        m.ok({str(s) for s in order} == {str(s) for s in e.free_symbols}, "variables of the expression", got=order)
        m.ok([str(s) for s in order] == sorted(str(s) for s in order), "order of the variables of the expression", got=order)
    else:
        extra = sy.Symbol("w", **assume)
        order.insert(int(rng.integers(len(order) + 1)), extra)
        f = Function(e, variables=tuple(order), **kw)
    m.ok(f.is_symbolic and f.symbolic, "symbolic function")
    judge(m, rng, f, e, order, how)
    if len(order) > 1 and rng.random() < 0.4:
        # the same expression with another order of variables, both of them alive
        order2 = [order[int(k)] for k in rng.permutation(len(order))]
        f2 = Function(e, variables=order2, **kw) if how not in ("string", "string, no variables") else Function(str(e), variables=[str(s) for s in order2], **kw)
        judge(m, rng, f2, e, order2, "the same expression again, in another order", order=0)
        judge(m, rng, f, e, order, "after another function of the same expression", order=0)
        m.feat("same expression again")
    point = rng.uniform(0.2, 2.0, len(order))

    m.ok(f.to_latex() == sy.latex(f.expr), "LaTeX form", got=f.to_latex())
    # linearity and coefficients
    if kind in ("linear", "constant"):
        m.ok(f.is_linear and f.linear, "linear expressions are reported as linear", got=f.is_linear)
    elif kind in ("polynomial", "unexpanded"):
        E = sy.expand(e)
        if any(sy.degree(E, s) > 1 for s in order):
            m.ok(not f.is_linear, "nonlinear expressions are not reported as linear", e=str(E))
            m.feat("nonlinear")
    if kind != "smooth":
        for norm in (False, True):
            for fn in (f.coefficients, lambda normalize: coefficients(f.expr, f.variables, normalize=normalize)):
                d = fn(normalize=norm)
                got = sum((value(k, order, point) * float(c) for k, c in d.items()), 0.0)
                m.close(got, value(e, order, point), "coefficients reassemble the expression", rtol=1e-9, normalize=norm)
                m.ok(all(any(str(k) == str(v) for k in d) for v in order), "every variable has a coefficient", got=d)
                if norm:
                    m.ok(all(k == 1 for k in d if not k.free_symbols), "the constant term belongs to one", got=d)
    if kind == "linear":
        d = f.linear_coefficients(normalize=True)
        E = sy.expand(e)
        for v in order:
            got = [float(c) for k, c in d.items() if str(k) == str(v)]
            m.close(got, [float(E.coeff(v))] if v in E.free_symbols else [0.0], "coefficient of a variable", variable=str(v))
        const = sum(float(c) for k, c in d.items() if not k.free_symbols)
        m.close(const, value(e, order, np.zeros(len(order))), "constant term", atol=1e-9)
    # simplification keeps the values
    if rng.random() < 0.3:
        f.simplify()
        m.close(value(f.expr, order, point), value(e, order, point), "simplification keeps the expression", rtol=1e-9)
        judge(m, rng, f, e, order, "after simplification", order=0)


@scenario(quick=140, thorough=3000, modes=("py", "interp"))
def substitution(m, rng, i):
    kind = ["linear", "polynomial", "smooth", "unexpanded"][i % 4]
    n = int(rng.integers(1, 5))
    names, S, assume = draw_vars(rng, n)
    e = expression(rng, kind, S)
    order = [S[int(k)] for k in rng.permutation(n)]
    text = bool(rng.random() < 0.5)
    f = Function(str(e) if text else e, variables=order)
    which = pick(rng, ["all", "all reordered", "some", "default", "one"])
    if which == "all":
        sub = list(order)
    elif which == "all reordered":
        sub = [order[int(k)] for k in rng.permutation(n)]
    elif which == "default":
        sub = list(order)
    elif which == "one":
        sub = [order[int(rng.integers(n))]]
    else:
        sub = [order[int(k)] for k in rng.permutation(n)[: int(rng.integers(1, n + 1))]]
    vals = [float(v) for v in rng.uniform(0.3, 2.0, len(sub))] if rng.random() < 0.6 else [int(v) for v in rng.integers(1, 5, len(sub))]
    arg = None if which == "default" else pick(rng, [sub, [str(s) for s in sub], tuple(sub)])
    m.note(e=str(e), text=text, variables=str(order), substituted=str(sub), values=vals, assume=str(assume))
    m.feat("substitute:" + which, "expression:" + kind, "text" if text else "expression")
    rest = [s for s in order if s not in sub]
    ref = e.subs({s: sy.sympify(v) for s, v in zip(sub, vals)}, simultaneous=True)
    inplace = bool(rng.random() < 0.4)
    kw = {"inplace": True} if inplace else {}
    g = f.subs(vals, **kw) if arg is None else f.subs(vals, arg, **kw)
    if inplace:
        m.ok(g is f, "substitution in place returns the function")
    else:
        judge(m, rng, f, e, order, "the original after a substitution", order=0)
    if rest:
        judge(m, rng, g, ref, rest, "restricted function")
    else:
        p = rng.normal(size=n)
        v = value(ref, [], [])
        m.close(float(g(p)), v, "value after substitution of all variables", rtol=1e-9)
        m.close(value(g.expr, [], []), v, "expression after substitution of all variables", rtol=1e-9)
        m.ok(not g.expr.free_symbols, "nothing remains after substitution of all variables", got=g.expr)
    # the plain helpers
    h = substitute(e, vals, sub)
    m.close(value(h, rest, np.ones(len(rest))), value(ref, rest, np.ones(len(rest))), "substitute", rtol=1e-9)
    d, v = decode(str_expr=str(e), variables=[str(s) for s in order])
    p = rng.uniform(0.2, 1.5, n)
    m.close(value(d, order, p), value(e, order, p), "decode", rtol=1e-9)
    m.ok([str(s) for s in v] == [str(s) for s in order], "variables of decode", got=v)


@scenario(quick=60, thorough=1500, modes=("py", "interp"))
def change_of_variables(m, rng, i):
    """The values may be expressions of the variables: all of them refer to the old ones."""
    kind = ["polynomial", "linear", "smooth"][i % 3]
    n = int(rng.integers(2, 5))
    names, S, assume = draw_vars(rng, n)
    e = expression(rng, kind, S)
    order = [S[int(k)] for k in rng.permutation(n)]
    f = Function(e, variables=order)
    if rng.random() < 0.5:
        vals = [order[int(k)] for k in rng.permutation(n)]
    else:
        vals = [int(rng.integers(1, 3)) * order[int(rng.integers(n))] + order[int(rng.integers(n))] for _ in range(n)]
    m.note(e=str(e), variables=str(order), values=str(vals), assume=str(assume))
    ref = e.subs(dict(zip(order, vals)), simultaneous=True)
    arg = pick(rng, [None, order, [str(s) for s in order]])
    g = f.subs(vals) if arg is None else f.subs(vals, arg)
    m.feat("change of variables:" + kind)
    p = rng.uniform(0.2, 1.5, n)
    m.close(value(g.expr, order, p), value(ref, order, p), "expression after a change of variables", rtol=1e-9)
    m.close(float(g(p)), value(ref, order, p), "value after a change of variables", rtol=1e-9)
    h = substitute(e, vals, order)
    m.close(value(h, order, p), value(ref, order, p), "substitute", rtol=1e-9)
    judge(m, rng, f, e, order, "the original after a substitution", order=0)


STANDARD = {
    "Rosenbrock": (lambda x, y, a=1, b=100: (a - x) ** 2 + b * (y - x**2) ** 2, 0.0),
    "Himmelblau": (lambda x, y: (x**2 + y - 11) ** 2 + (x + y**2 - 7) ** 2, 0.0),
    "GoldsteinPrice": (lambda x, y: (1 + (x + y + 1) ** 2 * (19 - 14 * x + 3 * x**2 - 14 * y + 6 * x * y + 3 * y**2))
                       * (30 + (2 * x - 3 * y) ** 2 * (18 - 32 * x + 12 * x**2 + 48 * y - 36 * x * y + 27 * y**2)), 3.0),
    "Beale": (lambda x, y: (1.5 - x + x * y) ** 2 + (2.25 - x + x * y**2) ** 2 + (2.625 - x + x * y**3) ** 2, 0.0),
    "Matyas": (lambda x, y: 0.26 * (x**2 + y**2) - 0.48 * x * y, 0.0),
}


@scenario(quick=40, thorough=800, modes=("py", "interp"))
def standard(m, rng, i):
    """The predefined functions and their optimums."""
    name = list(STANDARD)[i % 5]
    ref, low = STANDARD[name]
    kw = {}
    if name == "Rosenbrock" and rng.random() < 0.7:
        kw = {"a": float(rng.uniform(-2, 3)) if rng.random() < 0.5 else int(rng.integers(-2, 4)), "b": float(rng.uniform(0.5, 50))}
    m.note(name=name, **kw)
    m.feat("standard:" + name)
    f = getattr(standard_functions, name)(**kw)
    m.ok(f.is_symbolic and f.dimension == 2 and f.optText == "min", "kind of the function")
    P = rng.uniform(-3, 3, size=(int(rng.integers(1, 9)), 2))
    m.note(points=P)
    v = np.array([ref(*p, **kw) for p in P])
    m.close(np.array([float(f(p)) for p in P]), v, "value of a predefined function", rtol=1e-9, atol=1e-6)
    m.close(np.asarray(f(P.T), dtype=float), v, "values of a predefined function", rtol=1e-9, atol=1e-6)
    h = 1e-4
    for p in P[:2]:
        g = np.array([(8 * (ref(*(p + h * e), **kw) - ref(*(p - h * e), **kw)) - ref(*(p + 2 * h * e), **kw) + ref(*(p - 2 * h * e), **kw)) / (12 * h) for e in np.eye(2)])
        m.close(np.asarray(f.g(p), dtype=float), g, "gradient of a predefined function", rtol=1e-5, atol=1e-5 * (1 + np.abs(g).max()))
    m.ok(len(f.optimums) == (4 if name == "Himmelblau" else 1), "number of optimums")
    for o in f.optimums:
        m.close(float(f(o)), low, "value at the optimum", atol=1e-9 if name != "Himmelblau" else 1e-8)
        m.close(np.asarray(f.g(o), dtype=float), np.zeros(2), "gradient at the optimum", atol=1e-3)
        near = np.asarray(o) + rng.normal(size=(20, 2)) * 0.05
        m.ok(all(float(f(q)) >= low - 1e-9 for q in near), "no point near the optimum is better")
    m.ok(bool(np.all(np.asarray(f(P.T)) >= low - 1e-9)), "no point is better than the optimum")
    # user defined ones
    opt = [tuple(rng.normal(size=2)) for _ in range(int(rng.integers(1, 3)))]
    cls, text = [(TestFunction, "opt"), (TestMinFunction, "min"), (TestMaxFunction, "max")][i % 3]
    extra = {"optText": "best"} if cls is TestFunction and rng.random() < 0.5 else {}
    t = cls("x - 2*y", **extra, optimums=opt, variables=["x", "y"])
    m.ok(t.optimums == opt and t.optText == extra.get("optText", text), "optimums of a test function", got=(t.optimums, t.optText))
    m.close(float(t(P[0])), P[0][0] - 2 * P[0][1], "value of a test function", rtol=1e-12, atol=1e-12)


@scenario(quick=120, thorough=2000, modes=("py", "interp"))
def numeric(m, rng, i):
    n = int(rng.integers(1, 4))
    A = rng.normal(size=(n, n))
    A = A + A.T
    b = rng.normal(size=n)
    style = pick(rng, ["iterable", "scalars"])
    if style == "iterable":
        f0 = lambda x: 0.5 * np.asarray(x) @ A @ np.asarray(x) + b @ np.asarray(x)
        f1 = lambda x: A @ np.asarray(x) + b
        f2 = lambda x: A
    else:
        f0 = lambda *x: 0.5 * np.asarray(x) @ A @ np.asarray(x) + b @ np.asarray(x)
        f1 = lambda *x: A @ np.asarray(x) + b
        f2 = lambda *x: A
    hess = rng.random() < 0.7
    m.note(A=A, b=b, style=style, hess=bool(hess))
    m.feat("callable:" + style)
    key = pick(rng, ["d", "dim", "dimension"])
    way = pick(rng, ["positional", "keyword", "subclass"])
    if way == "positional":
        f = Function(f0, f1, f2 if hess else None, **{key: n})
    elif way == "keyword":
        f = Function(value=f0, gradient=f1, Hessian=f2 if hess else None, **{key: n})
    else:
        class Mine(Function):
            def value(self, *x):
                return f0(*x)

            def gradient(self, *x):
                return f1(*x)

            def Hessian(self, *x):
                return f2(*x)

        f = Mine(**{key: n})
        hess = True
    m.feat("given as " + way)
    m.ok(f.dimension == n, "dimension")
    m.ok(not f.is_symbolic and not f.symbolic, "a callable is not symbolic")
    if way != "subclass":
        m.ok(f.is_linear == (not hess), "linear if it has no Hessian")
    for _ in range(3):
        p = rng.normal(size=n)
        arg = (p,) if style == "iterable" else tuple(p)
        m.close(f(*arg), f0(*arg), "value of the callable")
        m.close(f.f(*arg), f0(*arg), "value of the callable")
        m.close(f.g(*arg), f1(*arg), "gradient of the callable")
        if hess:
            m.close(f.G(*arg), A, "Hessian of the callable")
    for fn in (f.coefficients, f.linear_coefficients, f.simplify, f.to_latex, lambda: f.subs([1.0] * n)):
        m.raises(TypeError, fn, "only for symbolic functions")
    ids = [int(k) for k in rng.permutation(9)[: int(rng.integers(2, 5))]]
    g = generate_symbols("u_{}", ids, positive=True)
    m.ok([str(s) for s in g] == [f"u_{k}" for k in ids] and all(s.is_positive for s in g), "generated symbols", got=g)


@scenario(quick=80, thorough=1500, modes=("py", "interp"))
def parameters(m, rng, i):
    """Expressions with symbols besides the variables, which are given values later."""
    kind = ["linear", "polynomial", "smooth", "unexpanded"][i % 4]
    n = int(rng.integers(2, 5))
    names, S, assume = draw_vars(rng, n)
    for _ in range(50):
        e = expression(rng, kind, S)
        if len(e.free_symbols) > 1:
            break
    else:
        e = e + S[0] * S[1]
    order = [S[int(k)] for k in rng.permutation(n)]
    k = int(rng.integers(1, n))
    pars, order = order[:k], order[k:]
    text = bool(rng.random() < 0.5)
    if text:
        f = Function(str(e), variables=pick(rng, [order, [str(s) for s in order]]))
    else:
        f = Function(e, variables=tuple(order))
    vals = [float(v) for v in rng.uniform(0.3, 2.0, k)] if rng.random() < 0.6 else [int(v) for v in rng.integers(1, 5, k)]
    m.note(e=str(e), variables=str(order), parameters=str(pars), values=vals, text=text, assume=str(assume))
    m.feat("parameters:" + kind, f"variables{len(order)}", "text" if text else "expression")
    m.ok([str(v) for v in f.variables] == [str(v) for v in order], "variables are the given ones", got=f.variables)
    m.ok(f.dimension == len(order), "dimension is the number of the given variables", got=f.dimension)
    ref = e.subs({s: sy.sympify(v) for s, v in zip(pars, vals)}, simultaneous=True)
    inplace = bool(rng.random() < 0.4)
    # text has plain symbols
    arg = [sy.Symbol(str(s)) for s in pars] if text else list(pars)
    if text and rng.random() < 0.5:
        arg = [str(s) for s in pars]
    g = f.subs(vals, arg, **({"inplace": True} if inplace else {}))
    m.ok((g is f) == inplace, "substitution in place returns the function, otherwise a new one")
    judge(m, rng, g, ref, order, "after the parameters are given values")
