"""C22: relations."""

import operator as op
from fractions import Fraction

import numpy as np
import sympy as sy

from mon.core import pick, scenario

from sigmaepsilon.math.function import Equality, Function, InEquality, Relation
from sigmaepsilon.math.function.relation import Relations
from sigmaepsilon.math.function.utils import has_operator, parse_expression

OPS = {"=": op.eq, "<": op.lt, ">": op.gt, "<=": op.le, ">=": op.ge}
NAMES = ["x", "y", "z", "x1", "x2", "x10", "a", "b"]


class Poly:
    """Polynomial with dyadic coefficients, evaluated exactly."""

    def __init__(self, rng, names, deg, zero=0.0):
        self.terms = []
        if rng.random() < zero:
            return
        for _ in range(int(rng.integers(1, 4))):
            c = Fraction(int(pick(rng, [-3, -2, -1, 1, 2, 4, 5])), int(pick(rng, [1, 1, 1, 2, 4])))
            e = {}
            for v in names:
                if rng.random() < 0.6:
                    k = int(rng.integers(0, deg + 1))
                    if k:
                        e[v] = k
            if sum(e.values()) > 3:
                e = dict(list(e.items())[:1])
            self.terms.append((c, e))

    def names(self):
        return {v for c, e in self.terms for v in e}

    def __call__(self, at):
        r = Fraction(0)
        for c, e in self.terms:
            for v, k in e.items():
                c = c * at[v] ** k
            r += c
        return r

    def text(self, rng):
        if not self.terms:
            return "0"
        s = ""
        for c, e in self.terms:
            t = "*".join([str(abs(c)) if abs(c).denominator == 1 else f"({abs(c)})"] + [v if k == 1 else f"{v}**{k}" for v, k in e.items()])
            if rng.random() < 0.3 and e:
                t = f"({t})"
            sgn = "-" if c < 0 else "+"
            s = (s + f" {sgn} " + t) if s else ("-" + t if c < 0 else t)
        return s

    def sympy(self, S):
        return sum((sy.Rational(c.numerator, c.denominator) * sy.prod([S[v] ** k for v, k in e.items()]) for c, e in self.terms), sy.Integer(0))


def points(rng, names, L, R):
    """Points, among them ones where both sides are equal."""
    out = []
    for _ in range(8):
        out.append({v: Fraction(int(rng.integers(-8, 9)), int(pick(rng, [1, 2, 4]))) for v in names})
    # solve for a variable which occurs linearly on one side
    for _ in range(6):
        at = {v: Fraction(int(rng.integers(-4, 5))) for v in names}
        v = pick(rng, sorted(names))
        a0, a1, a2 = [L({**at, v: Fraction(k)}) - R({**at, v: Fraction(k)}) for k in (0, 1, 2)]
        if a2 - a1 == a1 - a0 and a1 != a0:
            x = -a0 / (a1 - a0)
            # exactly representable
            if x.denominator & (x.denominator - 1) == 0 and abs(x) < 2**20 and x.denominator < 2**12:
                out.append({**at, v: x})
    return out


def judge(m, rng, r, o, L, R, names, order, tag):
    for at in points(rng, names, L, R):
        l, h = L(at), R(at)
        p = [float(at[v]) for v in order]
        if all(x == int(x) for x in p) and rng.random() < 0.5:
            p = [int(x) for x in p]
        arg = pick(rng, [p, tuple(p), np.array(p)])
        got = r.relate(arg)
        m.ok(bool(got) == OPS[o](l, h), "the relation is satisfied exactly where it holds", how=tag, operator=o, x=p, sides=(str(l), str(h)), got=got)
        m.ok(float(r(arg)) == float(l - h), "difference of the two sides", how=tag, x=p, got=r(arg), expected=float(l - h))
        if l == h:
            m.feat("boundary")


TEX = {"=": "=", "<": "<", "<=": r"\leq", ">": ">", ">=": r"\geq"}


@scenario(quick=260, thorough=5000, modes=("py", "interp"))
def text(m, rng, i):
    o = list(OPS)[i % 5]
    n = int(rng.integers(1, 4))
    names = [str(v) for v in rng.permutation(NAMES)[:n]]
    deg = int(pick(rng, [1, 1, 2]))
    for _ in range(50):
        L, R = Poly(rng, names, deg), Poly(rng, names, deg, zero=0.4)
        if (L.names() | R.names()) == set(names):
            break
    else:
        return
    sp = pick(rng, [" ", "", "  "])
    s = f"{L.text(rng)}{sp}{o}{sp}{R.text(rng)}"
    m.note(text=s)
    m.feat("operator " + o, f"variables{n}", f"degree{deg}")
    order = [str(v) for v in rng.permutation(names)]
    given = rng.random() < 0.7
    kw = {"variables": pick(rng, [order, sy.symbols(order), sy.symbols(order, real=True)])} if given else {}
    cls = pick(rng, [Relation, Relation, Equality if o == "=" else InEquality])
    r = cls(s, **kw)
    m.ok(type(r) is (Equality if o == "=" else InEquality), "class of the relation", got=type(r).__name__)
    m.ok(isinstance(r, Relation) and isinstance(r, Function), "base classes")
    m.ok(r.operator == Relations(o) and r.op_str == o, "operator of the relation", got=r.operator)
    m.ok(r.to_latex() == f"{sy.latex(r.expr)} {TEX[o]} 0", "LaTeX form of the relation", got=r.to_latex())
    if not given:
        order = [str(v) for v in r.variables]
        m.ok(order == sorted(order), "order of the variables of the relation", got=order)
        # terms may cancel, then the variable is not there
        if set(order) != set(names):
            D = sy.expand(L.sympy({v: sy.Symbol(v) for v in names}) - R.sympy({v: sy.Symbol(v) for v in names}))
            m.ok({str(v) for v in D.free_symbols} <= set(order) <= set(names), "variables of the relation", got=order)
            m.feat("cancelled")
    judge(m, rng, r, o, L, R, names, order, cls.__name__)
    l, oo, h = parse_expression(s)
    m.ok(oo == o and has_operator(s), "parsed operator", got=oo)
    m.ok(l == L.text(np.random.default_rng(0)).strip() or l == s.split(o)[0].strip(), "parsed left side", got=l)
    m.ok(h == s.split(o, 1)[1].strip(), "parsed right side", got=h)
    wrong = InEquality if o == "=" else Equality
    m.raises(AssertionError, lambda: wrong(s, **kw), "the operator does not fit the class")
    bad = pick(rng, [f"{L.text(rng)} {o} {R.text(rng)} {pick(rng, list(OPS))} 1", f"{L.text(rng)} == 1", f"{L.text(rng)} => 1", f"{L.text(rng)} {o}", f"{o} 2", f"{L.text(rng)} != 3", f"{L.text(rng)} <> 3", f"{L.text(rng)} =< 3"])
    m.raises(ValueError, lambda: Relation(bad), "malformed relations are rejected", text=bad)
    m.raises(ValueError, lambda: parse_expression(bad), "malformed text is rejected", text=bad)
    m.raises(ValueError, lambda: parse_expression(L.text(rng)), "text without an operator is rejected")
    m.ok(not has_operator(L.text(rng)), "no operator")


@scenario(quick=260, thorough=5000, modes=("py", "interp"))
def expression(m, rng, i):
    o = list(OPS)[i % 5]
    n = int(rng.integers(1, 4))
    names = [str(v) for v in rng.permutation(NAMES)[:n]]
    deg = int(pick(rng, [1, 1, 2]))
    L = Poly(rng, names, deg)
    if not L.names():
        L.terms.append((Fraction(1), {names[0]: 1}))
    order = [str(v) for v in rng.permutation(names)]
    S = dict(zip(names, sy.symbols(names, **pick(rng, [{}, {"real": True}]))))
    source = pick(rng, ["text", "sympy", "callable"])
    style = pick(rng, ["op", "operator", "enum", "function", "function and text", "op_str"])
    if style == "op_str" and source == "text":
        style = "op"
    kw = {}
    if style in ("op", "operator"):
        kw[style] = o
    elif style == "enum":
        kw["op"] = Relations(o)
    elif style == "function":
        kw["op"] = OPS[o]
    elif style == "function and text":
        kw["op"] = lambda a, b: OPS[o](a, b)
        kw["op_str"] = o
    else:
        kw["op_str"] = o
    m.note(L=str(L.sympy(S)), o=o, style=style, source=source, order=order)
    m.feat("operator " + o, "from " + source, "operator as " + style)
    if source == "text":
        args = (L.text(rng),)
        kw["variables"] = order
    elif source == "sympy":
        args = (L.sympy(S),)
        kw["variables"] = [S[v] for v in order]
    else:
        args = (lambda x: float(L({v: Fraction(float(t)) for v, t in zip(order, x)})),)
        kw["d"] = n
    zero = Poly(rng, [], 1, zero=1.0)
    good, wrong = (Equality, InEquality) if o == "=" else (InEquality, Equality)
    for cls in (Relation, good):
        r = cls(*args, **kw)
        if cls is good or style != "function":
            m.ok(type(r) is good, "class of the relation", got=type(r).__name__, how=cls.__name__)
        judge(m, rng, r, o, L, zero, names, order, cls.__name__)
    if style not in ("function", "function and text"):
        m.raises(AssertionError, lambda: wrong(*args, **kw), "the operator does not fit the class")
    bad = pick(rng, ["!=", "==", "=<", "=>", "lt", "<>", "~"])
    k2 = {k: v for k, v in kw.items() if k not in ("op", "operator", "op_str")}
    m.raises(ValueError, lambda: pick(rng, [Relation, Equality, InEquality])(*args, op=bad, **k2), "unknown operators are rejected", operator=bad)
    r = Relation(*args, **k2)
    m.ok(type(r) is Equality, "an equality if there is no operator", got=type(r).__name__)
    judge(m, rng, r, "=", L, zero, names, order, "no operator")


@scenario(quick=200, thorough=4000, modes=("py", "interp"))
def boundary(m, rng, i):
    """Points as close to the boundary as floating point numbers get; the
    difference of the two sides is exact there."""
    o = list(OPS)[i % 5]
    kind = pick(rng, ["constant", "zero", "scaled", "pair", "reversed"])
    x, y = sy.symbols("x y", **pick(rng, [{}, {"real": True}]))
    c = Fraction(int(rng.integers(-40, 41)), int(pick(rng, [1, 1, 2, 8])))
    if kind == "zero":
        c = Fraction(0)
    k = int(pick(rng, [-4, -2, -1, 1, 2, 8]))
    cs = str(c) if c.denominator == 1 else f"({c})"
    R = sy.Rational(c.numerator, c.denominator)
    text, e, vs = {
        "constant": (f"x {o} {cs}", x - R, [x]),
        "zero": (f"x {o} 0", x, [x]),
        "scaled": (f"{k}*x {o} {k}*{cs}", k * x - k * R, [x]),
        "pair": (f"x {o} y", x - y, [x, y]),
        "reversed": (f"{cs} {o} x", R - x, [x]),
    }[kind]
    form = pick(rng, ["text", "text, no variables", "expression"])
    if form == "text":
        r = Relation(text, variables=vs)
    elif form == "expression":
        r = Relation(e, op=o, variables=vs)
    else:
        r = Relation(text)
        vs = list(r.variables)
    m.note(text=text, form=form)
    m.feat("operator " + o, "kind " + kind, form)
    base = float(c) if kind != "pair" else float(rng.normal())
    near = [base, np.nextafter(base, np.inf), np.nextafter(base, -np.inf)]
    for p in (-50, -44, -40, -34, -30, -27, -20):
        near += [base + 2.0**p, base - 2.0**p]
    if kind == "zero":
        near += [s * t for s in (1, -1) for t in (5e-324, 1e-310, 1e-200, 1e-30, 1e-16, 1e-13, 1e-9, 1e200)]
    for v in near:
        v = float(v)
        F = Fraction(v)
        lhs, rhs = {"constant": (F, c), "zero": (F, c), "scaled": (k * F, k * c), "pair": (F, Fraction(base)), "reversed": (c, F)}[kind]
        at = {"x": v, "y": base}
        p = [at[str(s)] for s in vs]
        got = r.relate(pick(rng, [p, np.array(p)]))
        m.ok(bool(got) == OPS[o](lhs, rhs), "exact next to the boundary", operator=o, x=p, got=got, difference=float(lhs - rhs))
