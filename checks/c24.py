"""C24: the champion of the genetic algorithm."""

import math

import numpy as np
import sympy as sy

from mon.core import grow, pick, scenario

from sigmaepsilon.math.function import Function
from sigmaepsilon.math.optimize import BinaryGeneticAlgorithm as BGA
from sigmaepsilon.math.optimize.ga import Genom


class Recorder:
    """An objective, which logs every evaluation."""

    def __init__(self, f):
        self.f = f
        self.log = []

    def __call__(self, x):
        x = np.array(x, dtype=float)
        v = float(self.f(x))
        self.log.append((x, v))
        return v


def objective(rng, dim):
    kind = pick(rng, ["sphere", "linear", "rosen", "wave", "steps", "flat", "negative", "huge", "wall"])
    # plain Python arithmetic: the same value for the same point, wherever it is stored
    a = [float(v) for v in rng.normal(size=dim)]
    fs = {
        "sphere": lambda x: math.fsum((p - q) ** 2 for p, q in zip(x, a)),
        "linear": lambda x: math.fsum(p * q for p, q in zip(x, a)),
        "rosen": lambda x: math.fsum([(1 - p) ** 2 for p in x] + [100 * (q - p**2) ** 2 for p, q in zip(x, x[1:])]),
        "wave": lambda x: math.fsum(math.sin(3 * p + q) + 0.1 * p for p, q in zip(x, a)),
        "steps": lambda x: float(math.floor(math.fsum(x) / 2)),  # many ties
        "flat": lambda x: 1.5,
        "negative": lambda x: -10.0 - math.fsum(abs(p - q) for p, q in zip(x, a)),
        "wall": lambda x: wall if x[0] > a[0] else math.fsum(x),  # penalty
        "huge": lambda x: 1e9 * math.prod(math.cos(p + q) for p, q in zip(x, a)),
    }
    wall = math.inf if rng.random() < 0.5 else -math.inf
    g = fs[kind]
    f = lambda x: float(g([float(p) for p in x]))
    return kind, f


def ranges_of(rng, dim):
    out = []
    for _ in range(dim):
        k = pick(rng, ["sym", "pos", "neg", "int", "tiny", "big"])
        if k == "sym":
            h = float(rng.uniform(0.5, 10))
            out.append([-h, h])
        elif k == "pos":
            l = float(rng.uniform(0.1, 3))
            out.append([l, l + float(rng.uniform(0.5, 5))])
        elif k == "neg":
            h = -float(rng.uniform(0.1, 3))
            out.append([h - float(rng.uniform(0.5, 5)), h])
        elif k == "int":
            l = int(rng.integers(-9, 5))
            out.append([l, l + int(rng.integers(1, 9))])
        elif k == "tiny":
            l = float(rng.normal())
            out.append([l, l + 1e-3])
        else:
            out.append([-1e4, 1e5])
    if rng.random() < 0.4:
        out = [[int(np.floor(l)), int(np.floor(l)) + int(rng.integers(1, 9))] for l, h in out]
    return out


def reals(rng):
    """Settings with which the algorithm can run."""
    dim = int(rng.integers(1, 5))
    length = int(pick(rng, [1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 33]))
    if dim * length < 3:
        length = 3
    nPop = grow(rng, pick(rng, [4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 20, 31]), 150, 0.03)
    real_pop = nPop + (-nPop % 4)
    el = [None, 1, 1, 2, 0.25, 0.5, 0.1, 0.01]
    if real_pop >= 8:
        el += [3, 4]
    return dict(
        dim=dim, length=length, nPop=nPop, pop=real_pop,
        elitism=pick(rng, el), p_c=float(pick(rng, [1, 1, 0.9, 0.5, 0.0])), p_m=float(pick(rng, [0.2, 0.05, 0.0, 0.5, 1.0])),
        minimize=bool(rng.random() < 0.5),
    )


def make(m, rng, fnc, s, ranges, **kw):
    m.note(settings={k: v for k, v in s.items()}, ranges=ranges, kw=kw)
    return BGA(fnc, pick(rng, [ranges, np.array(ranges), tuple(map(tuple, ranges))]), length=s["length"], nPop=s["nPop"], elitism=s["elitism"], p_c=s["p_c"], p_m=s["p_m"], minimize=s["minimize"], **kw)


def population(m, g, s, ranges, f=None):
    G = np.asarray(g.genotypes)
    m.ok(G.shape == (s["pop"], s["dim"] * s["length"]), "the population keeps its size", got=G.shape)
    m.ok(np.isin(G, (0, 1)).all(), "genotypes are bits", got=G)
    X = np.asarray(g.phenotypes)
    R = np.array(ranges, dtype=float)
    span = 2 ** s["length"] - 1
    bits = G.reshape(s["pop"], s["dim"], s["length"]).astype(float)
    k = (bits * 2.0 ** np.arange(s["length"])).sum(axis=2)
    ref = R[:, 0] + k * (R[:, 1] - R[:, 0]) / span
    m.close(X, ref, "phenotypes are the decoded genotypes", rtol=1e-12, atol=1e-12)
    tol = 1e-12 * np.abs(R).max()
    m.ok((X >= R[:, 0] - tol).all() and (X <= R[:, 1] + tol).all(), "points are inside the ranges", got=X, ranges=R)
    if f is not None:
        F = np.asarray(g.fitness)
        m.equal(F, np.array([f(x) for x in X]), "fitness of the population")
    return G, X


def champion(m, g, s, ranges, f, log, c=None):
    c = g.champion if c is None else c
    R = np.array(ranges, dtype=float)
    x = np.array(c.phenotype)
    tol = 1e-12 * np.abs(R).max()
    m.ok(x.shape == (s["dim"],) and (x >= R[:, 0] - tol).all() and (x <= R[:, 1] + tol).all(), "the champion is inside the ranges", x=x, ranges=R)
    m.equal(float(c.fitness), f(x), "the fitness of the champion is the objective at its point")
    vals = np.array([v for _, v in log])
    best = vals.min() if s["minimize"] else vals.max()
    m.equal(float(c.fitness), best, "the champion is the best point evaluated so far", minimize=s["minimize"])
    m.ok(any(np.array_equal(x, p) for p, v in log if v == best), "the champion is one of the points evaluated", x=x)
    k = (np.array(c.genotype).reshape(s["dim"], s["length"]) * 2.0 ** np.arange(s["length"])).sum(axis=1)
    m.close(x, R[:, 0] + k * (R[:, 1] - R[:, 0]) / (2 ** s["length"] - 1), "the champion's point is that of its genotype", rtol=1e-12, atol=1e-12)
    m.equal(float(g.state.fun), float(c.fitness), "value in the state")
    m.equal(np.array(g.state.x), x, "point in the state")


def better(s, a, b):
    return a <= b if s["minimize"] else a >= b


def elite(s):
    if s["elitism"] is None:
        return 0
    return int(s["pop"] * s["elitism"]) if s["elitism"] < 1 else int(s["elitism"])


@scenario(quick=500, thorough=20000, modes=("py", "interp"))
def evolving(m, rng, i):
    s = reals(rng)
    kind, f = objective(rng, s["dim"])
    ranges = ranges_of(rng, s["dim"])
    rec = Recorder(f)
    np.random.seed(int(rng.integers(2**31)))
    g = make(m, rng, rec, s, ranges)
    m.note(objective=kind)
    m.feat(kind, f"elitism {s['elitism']}", f"pop{s['pop']}", f"dim{s['dim']}", "min" if s["minimize"] else "max", f"p_c {s['p_c']}", f"p_m {s['p_m']}")
    m.ok(g.nPop == s["pop"], "size of the population", got=g.nPop)
    prev = None
    prevbest = None
    prevG = None
    for k in range(int(rng.integers(2, 9))):
        cycles = int(pick(rng, [1, 1, 1, 2]))
        out = g.evolve(cycles)
        m.equal(np.asarray(out), np.asarray(g.genotypes), "evolve returns the genotypes")
        G, X = population(m, g, s, ranges, f)
        champion(m, g, s, ranges, f, rec.log)
        b = g.best_candidate()
        F = np.array([f(x) for x in X])
        ext = F.min() if s["minimize"] else F.max()
        m.equal(float(b.fitness), ext, "best candidate of the population")
        m.equal(f(np.array(b.phenotype)), ext, "point of the best candidate")
        m.equal(np.array(g.best_phenotype()), np.array(b.phenotype), "best phenotype")
        m.equal(np.array(b.phenotype), X[b.index], "index of the best candidate")
        m.equal(np.array(b.genotype), G[b.index], "genotype of the best candidate")
        fit = float(g.champion.fitness)
        if prev is not None:
            m.ok(better(s, fit, prev), "the champion never gets worse", got=fit, before=prev)
            if elite(s) >= 1:
                m.ok(better(s, ext, prevbest), "with elitism the population never gets worse", got=ext, before=prevbest)
                if cycles == 1:
                    e = elite(s)
                    order = np.sort(prevF) if s["minimize"] else np.sort(prevF)[::-1]
                    now = np.sort(F) if s["minimize"] else np.sort(F)[::-1]
                    # members of the elite survive: the k-th best is at least as good as before
                    ee = min(e, s["pop"])
                    m.ok(all(better(s, now[j], order[j]) for j in range(ee)), "the elite survives", before=order[:ee], after=now[:ee], elite=e)
                    m.feat("elite survival")
        prev, prevbest, prevG, prevF = fit, ext, G, F
        m.step((cycles, fit))
    # divide: a partition, with the best ones in front
    F = np.asarray(g.fitness)
    el, oth = g.divide()
    el, oth = np.asarray(el, dtype=int), np.asarray(oth, dtype=int)
    m.equal(np.sort(np.concatenate([el, oth])), np.arange(s["pop"]), "elite and others are a partition of the population")
    m.ok(len(el) == elite(s), "size of the elite", got=len(el), expected=elite(s))
    if len(el) and len(oth):
        m.ok(better(s, F[el].max() if s["minimize"] else F[el].min(), F[oth].min() if s["minimize"] else F[oth].max()), "nobody is better than the elite")
    sel = np.asarray(g.select())
    m.ok(len(sel) == max(s["pop"] // 2, len(el)), "number of survivors", got=len(sel))
    pool = {tuple(int(v) for v in r) for r in np.asarray(g.genotypes)}
    m.ok(all(tuple(int(v) for v in r) in pool for r in sel), "survivors are members of the population")
    have = [tuple(int(v) for v in r) for r in sel]
    for r in np.asarray(g.genotypes)[el]:
        m.ok(tuple(int(v) for v in r) in have, "the elite is selected")
    # the others are winners of tournaments: at least two of the others are not better than them
    geno = [tuple(int(v) for v in r) for r in np.asarray(g.genotypes)]
    winners = {geno[j] for j in el}
    for w in oth:
        if sum(better(s, F[w], F[j]) for j in oth if j != w) >= 2:
            winners.add(geno[w])
    m.ok(all(r in winners for r in have), "survivors are the elite and winners of tournaments of three", fitness=F)


@scenario(quick=400, thorough=15000, modes=("py", "interp"))
def solving(m, rng, i):
    """Several runs with the same optimiser: nothing is left from the previous one."""
    s = reals(rng)
    kind, f = objective(rng, s["dim"])
    ranges = ranges_of(rng, s["dim"])
    rec = Recorder(f)
    np.random.seed(int(rng.integers(2**31)))
    maxiter = int(rng.integers(1, 15))
    g = make(m, rng, rec, s, ranges, maxiter=maxiter, maxage=int(rng.integers(1, 6)))
    m.note(objective=kind)
    for k in range(3):
        rec.log.clear()
        how = pick(rng, ["solve", "solve", "recycle", "flip", "reset-evolve"]) if k else "solve"
        m.step(how)
        m.feat(how)
        old = None if g.champion is None else float(g.champion.fitness)
        if how == "solve":
            c = g.solve()
        elif how == "flip":
            s["minimize"] = not s["minimize"]
            c = g.solve(minimize=s["minimize"])
        elif how == "recycle":
            c = g.solve(recycle=True)
            m.ok(better(s, float(c.fitness), old), "a recycled run is at least as good", before=old, after=c.fitness)
        else:
            g.reset()
            m.ok(g.champion is None, "no champion after a reset")
            g.evolve(3)
            c = g.champion
        if how != "recycle":
            champion(m, g, s, ranges, f, rec.log, c)
        else:
            vals = [v for _, v in rec.log] + [old]
            m.equal(float(c.fitness), min(vals) if s["minimize"] else max(vals), "a recycled run keeps the best of both")
            m.equal(float(c.fitness), f(np.array(c.phenotype)), "fitness of the champion of the recycled run")
        m.ok(c is g.champion or c == g.champion, "the champion is returned")
        population(m, g, s, ranges, f)


@scenario(quick=80, thorough=2000, modes=("py", "interp"))
def symbolic(m, rng, i):
    """Symbolic objectives are evaluated for the whole population at once."""
    s = reals(rng)
    n = s["dim"]
    v = sy.symbols(f"x1:{n + 1}")
    a = [int(k) for k in rng.integers(-4, 5, size=n)]
    e = sum((x - k) ** 2 for x, k in zip(v, a)) + v[0] * v[-1]
    ref = lambda x: float(sum((x[k] - a[k]) ** 2 for k in range(n)) + x[0] * x[-1])
    kind = pick(rng, ["symbolic", "symbolic", "symbolic", "constant", "callable"])
    m.feat(kind)
    fn = Function(e, variables=v)
    if kind == "constant":
        fn = Function(sy.Integer(a[0]), variables=v)
        ref = lambda x: float(a[0])
    elif kind == "callable":
        fn = Function(ref)
    ranges = ranges_of(rng, n)
    np.random.seed(int(rng.integers(2**31)))
    g = make(m, rng, fn, s, ranges, maxiter=6)
    best = None
    for _ in range(5):
        g.evolve()
        X = np.asarray(g.phenotypes)
        F = np.array([ref(x) for x in X])
        sc = np.abs(F).max()
        m.close(np.asarray(g.fitness), F, "fitness of the population", rtol=1e-9, scale=sc)
        ext = F.min() if s["minimize"] else F.max()
        best = ext if best is None else (min(best, ext) if s["minimize"] else max(best, ext))
        m.close(float(g.champion.fitness), best, "the champion is the best so far", rtol=1e-9, scale=sc)
        m.close(ref(np.array(g.champion.phenotype)), best, "point of the champion", rtol=1e-9, scale=sc)
    population(m, g, s, ranges)


@scenario(quick=400, thorough=15000, modes=("py", "interp"))
def operators(m, rng, i):
    """Decoding, crossover, mutation and mating."""
    s = reals(rng)
    ranges = ranges_of(rng, s["dim"])
    np.random.seed(int(rng.integers(2**31)))
    g = make(m, rng, lambda x: 0.0, s, ranges)
    D = s["dim"] * s["length"]
    R = np.array(ranges, dtype=float)
    for val, ref in ((0, R[:, 0]), (1, R[:, 1])):
        for dt in (int, float):
            X = g.decode(np.full((s["pop"], D), val, dtype=dt))
            m.close(X, np.tile(ref, (s["pop"], 1)), "both ends of the ranges are reached", rtol=1e-12, atol=1e-12)
    # the grid: all codes of short chromosomes
    if s["length"] <= 5:
        n = 2 ** s["length"]
        codes = np.array([[(k >> j) & 1 for j in range(s["length"])] for k in range(n)])
        got = []
        for k0 in range(0, n, s["pop"]):
            block = codes[np.minimum(np.arange(k0, k0 + s["pop"]), n - 1)]
            got.append(g.decode(np.hstack([block] * s["dim"])))
        got = np.vstack(got)[:n]
        for d in range(s["dim"]):
            h = (R[d, 1] - R[d, 0]) / (n - 1)
            m.close(np.sort(got[:, d]), R[d, 0] + h * np.arange(n), "the grid of the range", rtol=1e-12, atol=1e-12)
        m.feat("whole grid")
    # crossover only exchanges bits
    g.set_solution_params(p_m=0.0, p_c=float(pick(rng, [1.0, 0.5, 0.0])))
    for _ in range(4):
        p1, p2 = rng.integers(0, 2, size=(2, D))
        if rng.random() < 0.3:
            p1, p2 = np.zeros(D, dtype=int), np.ones(D, dtype=int)
        q1, q2 = p1.copy(), p2.copy()
        nCut = None if rng.random() < 0.5 else int(rng.integers(1, D - 1))
        c1, c2 = (g.crossover(p1, p2) if nCut is None else g.crossover(p1, p2, nCut))
        c1, c2 = np.asarray(c1), np.asarray(c2)
        m.ok(c1.shape == c2.shape == (D,), "children are whole", got=(c1.shape, c2.shape))
        m.equal(c1 + c2, q1 + q2, "crossover keeps the bits of the parents at every position", cuts=nCut)
        m.ok(((c1 == q1) | (c1 == q2)).all(), "bits come from the parents")
        m.equal(p1, q1, "parents are left as they were")
        m.equal(p2, q2, "parents are left as they were")
    child = rng.integers(0, 2, size=D)
    keep = child.copy()
    m.equal(g.mutate(child), keep, "no mutation without probability")
    g.set_solution_params(p_m=1.0)
    m.equal(g.mutate(child), 1 - keep, "all bits mutate with certainty")
    g.set_solution_params(p_m=0.4)
    mu = np.asarray(g.mutate(child))
    m.ok(np.isin(mu, (0, 1)).all() and mu.shape == (D,), "mutants are bits")
    m.equal(child, keep, "mutation leaves the child as it was")
    # mating: everybody exactly once
    n = 2 * int(rng.integers(1, 8))
    pool = np.arange(n)[:, None] * np.ones((1, 3), dtype=int)
    used = []
    for a, b in BGA.random_parents_generator(pool):
        used += [int(a[0]), int(b[0])]
    m.equal(np.sort(used), np.arange(n), "every parent mates exactly once")
    new = np.asarray(g.populate())
    m.ok(new.shape == (s["pop"], D) and np.isin(new, (0, 1)).all(), "a new population", got=new.shape)
    half = np.asarray(g.populate(new[: s["pop"] // 2]))
    m.equal(half[: s["pop"] // 2], new[: s["pop"] // 2], "parents stay in the population")
    m.ok(half.shape == new.shape, "the population is filled up", got=half.shape)
    # comparison of members
    a, b = Genom(phenotype=[0.0], genotype=[0, 1], fitness=1.0), Genom(phenotype=[0.0], genotype=[1, 1], fitness=float(pick(rng, [0.5, 1.0, 2.0])))
    m.ok((a < b) == (a.fitness < b.fitness) and (a > b) == (a.fitness > b.fitness) and (a <= b) == (a.fitness <= b.fitness) and (a >= b) == (a.fitness >= b.fitness), "members compare by fitness")
    m.ok(a != b and a == Genom(phenotype=[1.0], genotype=[0, 1], fitness=9.0), "members are identified by their genotype")
    m.ok(hash(a) == hash(Genom(phenotype=[1.0], genotype=[0, 1], fitness=9.0)), "hash of a member")
