"""C25: the lifecycle of the optimiser."""

import numpy as np
from scipy.optimize import OptimizeResult

from mon.core import core_scenarios_reset, grow, pick, scenario

from checks.c24 import better, objective, ranges_of, reals

from sigmaepsilon.math.optimize import BinaryGeneticAlgorithm as BGA, OptimizerState

core_scenarios_reset(__name__)

MAXITER, CONVERGED, ERROR = 1, 2, -1


class Fault(Exception):
    pass


class Probe:
    """An objective that watches the state of the optimiser, and raises on demand."""

    def __init__(self, m, f, pop, s=None):
        self.s = s  # the settings at hand
        self.m, self.f, self.pop = m, f, pop
        self.calls = 0  # since the start of the run
        self.vals = []
        self.fail_at = None
        self.exc = None
        self.g = None
        self.watch = False
        self.base = 0  # evaluations and generations before the run
        self.base_iter = 0

    def start(self, base=0, base_iter=0):
        self.calls = 0
        self.vals = []
        self.base, self.base_iter = base, base_iter

    def __call__(self, x):
        if self.watch:
            gens = self.calls // self.pop
            st = self.g.state
            self.m.ok(st.n_iter == self.base_iter + gens, "generations reported during the run", got=st.n_iter, expected=gens)
            self.m.ok(self.base + gens * self.pop <= st.n_fev <= self.base + self.calls, "evaluations reported during the run", got=st.n_fev, expected=(gens * self.pop, self.calls))
            if gens and not self.base:
                done = self.vals[: gens * self.pop]
                best = min(done) if self.s["minimize"] else max(done)
                self.m.equal(float(st.fun), best, "best value reported during the run")
        if self.fail_at is not None and self.calls == self.fail_at:
            raise self.exc
        self.calls += 1
        v = self.f([float(p) for p in x])
        self.vals.append(v)
        return v


def expected_generations(vals, pop, minimize, maxage, miniter, maxiter):
    """When a run with this history of evaluations has to end, and why."""
    best = None
    age = 0
    n = 0
    for k in range(0, len(vals), pop):
        gen = vals[k : k + pop]
        b = min(gen) if minimize else max(gen)
        if best is None or (b < best if minimize else b > best):
            best, age = b, 0
        age += 1
        n += 1
        old = age > maxage
        if (old or n >= maxiter) and n >= miniter:
            return n, (MAXITER if n >= maxiter else CONVERGED)
    return None, None


def limits(rng):
    maxiter = grow(rng, pick(rng, [1, 2, 3, 5, 8, 12, 20, 40]), 260, 0.03)
    return dict(maxiter=maxiter, miniter=int(pick(rng, [0, 0, 1, maxiter, maxiter // 2])), maxage=int(pick(rng, [0, 1, 2, 3, 5, 8])))


def setup(m, rng):
    s = reals(rng)
    kind, f = objective(rng, s["dim"])
    ranges = ranges_of(rng, s["dim"])
    lim = limits(rng)
    p = Probe(m, f, s["pop"], s)
    m.note(settings=dict(s), objective=kind, ranges=ranges, limits=dict(lim))
    seed = int(rng.integers(2**31))
    np.random.seed(seed)
    kw = dict(length=s["length"], nPop=s["nPop"], elitism=s["elitism"], p_c=s["p_c"], p_m=s["p_m"], minimize=s["minimize"])
    make = lambda q, **k: BGA(q, ranges, **{**kw, **k})
    g = make(p, **lim)
    p.g = g
    return s, f, ranges, lim, p, g, make


def clean(m, g, p):
    st = g.state
    m.ok(isinstance(st, OptimizerState), "type of the state")
    m.ok(st.n_iter == 0 and st.n_fev == 0 and st.n_jev == 0 and st.n_hev == 0, "nothing is counted before the run", got=st)
    m.ok(st.x is None and st.fun is None and st.message == "", "nothing is reported before the run", got=st)
    m.ok(g.champion is None, "no champion before the run")


def succeeded(m, g, p, s, lim, c, fresh=True):
    st = g.state
    gens = p.calls // p.pop
    m.ok(p.calls % p.pop == 0, "whole generations are evaluated", calls=p.calls, pop=p.pop)
    m.ok(st.n_fev == p.base + p.calls, "number of evaluations", got=st.n_fev, expected=p.base + p.calls)
    m.ok(st.n_iter == p.base_iter + gens, "number of generations", got=st.n_iter, expected=p.base_iter + gens)
    m.ok(st.n_jev == 0 and st.n_hev == 0, "no derivatives are evaluated")
    m.ok(st.success is True, "the run has succeeded", got=st)
    m.ok(st.x is not None and np.array_equal(st.x, c.phenotype) and st.fun == c.fitness, "the solution is in the state")
    if fresh:
        m.ok(st.message == "" or "rror" not in st.message, "no error message", got=st.message)
        n, why = expected_generations(p.vals, p.pop, s["minimize"], lim["maxage"], lim["miniter"], lim["maxiter"])
        m.ok(gens == n, "a run ends when it has to", got=gens, expected=n, limits=lim)
        m.ok(st.stage == why, "reason of the termination", got=st.stage, expected=why)
        m.ok(lim["miniter"] <= st.n_iter <= lim["maxiter"] or lim["maxiter"] < 1, "number of generations is within the limits", got=st.n_iter, limits=lim)
        m.feat(f"stage{why}")
        best = min(p.vals) if s["minimize"] else max(p.vals)
        m.equal(float(st.fun), best, "best value in the state")
    r = st.to_scipy()
    m.ok(isinstance(r, OptimizeResult) and np.array_equal(r.x, st.x) and r.fun == st.fun and r.nfev == st.n_fev and r.nit == st.n_iter and r.success == st.success and r.status == st.stage and r.message == st.message and r.njev == 0 and r.nhev == 0, "SciPy form of the state", got=r)


def failed(m, g, p, e):
    st = g.state
    chain, x = [], e
    while x is not None and len(chain) < 10:
        chain.append(x)
        x = x.__cause__ or x.__context__
    m.ok(any(y is p.exc for y in chain), "the exception of the objective reaches the caller", got=chain)
    m.ok(st.success is False, "the state reports the failure", got=st)
    m.ok(st.stage == ERROR, "status of a failed run", got=st.stage)
    m.ok(bool(st.message), "the state tells what happened", got=st.message)
    gens = p.calls // p.pop
    m.ok(st.n_iter == p.base_iter + gens, "generations before the failure", got=st.n_iter, expected=gens)
    m.ok(p.base + gens * p.pop <= st.n_fev <= p.base + p.calls + 1, "evaluations before the failure", got=st.n_fev, calls=p.calls)
    if not p.base_iter and p.base == 0:
        if gens:
            done = p.vals[: gens * p.pop]
            best = min(done) if p.s["minimize"] else max(done)
            m.ok(st.fun is not None and better({"minimize": p.s["minimize"]}, st.fun, best) and p.f(st.x) == st.fun, "best point before the failure", got=st.fun, expected=best)
        else:
            m.ok(st.fun is None or st.fun in p.vals, "nothing was found before the failure", got=st.fun)
    r = st.to_scipy()
    m.ok(r.success is False and r.status == ERROR and r.message == st.message, "SciPy form of the state")
    m.feat("failed in generation %s" % ("0" if gens == 0 else "k"))


@scenario(quick=400, thorough=15000, modes=("py", "interp"))
def history(m, rng, i):
    s, f, ranges, lim, p, g, make = setup(m, rng)
    clean(m, g, p)
    m.ok(p.calls == 0, "nothing is evaluated before the run")
    broken = False
    for k in range(int(rng.integers(2, 6))):
        ops = ["solve", "solve", "solve", "fail", "fail", "reset", "evolve", "evolve-fail", "settings", "rejected"]
        if not broken and g.champion is not None:
            ops += ["recycle", "recycle"]
        op = pick(rng, ops)
        m.step(op)
        m.feat(op)
        if op in ("solve", "settings"):
            p.fail_at = None
            p.start()
            p.watch = True
            kw = {}
            if op == "settings":
                lim.update(limits(rng))
                kw = dict(lim)
                if rng.random() < 0.5:
                    s["minimize"] = not s["minimize"]
                    kw["minimize"] = s["minimize"]
                if rng.random() < 0.5:
                    kw["p_m"] = 0.3
            c = g.solve(**kw)
            broken = False
            m.ok(c is not None and c == g.champion and c.fitness == g.champion.fitness, "the champion is returned")
            succeeded(m, g, p, s, lim, c)
        elif op == "recycle":
            p.fail_at = None
            p.start(g.state.n_fev, g.state.n_iter)
            p.watch = True
            old = g.champion.fitness
            c = g.solve(recycle=True)
            m.ok(p.calls >= 0 and better(s, c.fitness, old), "a recycled run goes on from the previous one")
            succeeded(m, g, p, s, lim, c, fresh=False)
        elif op == "fail":
            p.start()
            p.watch = True
            p.fail_at = int(pick(rng, [0, 1, p.pop - 1, p.pop, p.pop + 1, 2 * p.pop + 3, int(rng.integers(0, 4 * p.pop))]))
            p.exc = pick(rng, [Fault, ValueError, ZeroDivisionError, KeyError, RuntimeError, FloatingPointError, OverflowError, AssertionError, TypeError])("injected %d" % k)
            err = None
            try:
                c = g.solve()
            except Exception as e:
                err = e
            if p.calls < p.fail_at or (err is None and p.calls == p.fail_at):
                # the run was over before the fault
                m.ok(err is None, "no exception without a fault", error=err)
                succeeded(m, g, p, s, lim, g.champion)
                broken = False
                m.feat("fault not reached")
            else:
                m.ok(err is not None, "the exception is not swallowed", state=g.state)
                failed(m, g, p, err)
                broken = True
            p.fail_at = None
        elif op == "reset":
            m.ok(g.reset() is g, "reset returns the object")
            clean(m, g, p)
            m.ok(g.state.success is True and g.state.stage is None, "nothing has failed after a reset", got=g.state)
            broken = False
        elif op == "evolve":
            g.reset()
            p.watch = False
            p.fail_at = None
            p.start()
            n = int(rng.integers(0, 5))
            g.evolve(n)
            m.ok(p.calls == n * p.pop, "evaluations of the cycles", got=p.calls, expected=n * p.pop)
            m.ok(g.state.n_fev == p.calls, "evaluations are counted", got=g.state.n_fev, expected=p.calls)
            # looking at the results costs nothing
            if n:
                g.fitness, g.phenotypes, g.best_candidate(), g.best_phenotype(), g.champion, g.divide()
            m.ok(n == 0 or p.calls == n * p.pop == g.state.n_fev, "looking does not evaluate anything", got=p.calls)
            if rng.random() < 0.4:
                # points other than the population
                extra = int(rng.integers(1, 7))
                before = p.calls
                P = np.array([[rng.uniform(lo, hi) for lo, hi in np.asarray(ranges)[:, [0, -1]]] for _ in range(extra)])
                nv = len(p.vals)
                got = g.evaluate(P)
                m.equal(np.asarray(got, float), np.array(p.vals[nv:]), "values at other points")
                del p.vals[nv:]
                m.ok(p.calls == before + extra and g.state.n_fev == p.calls, "evaluations of other points are counted", got=g.state.n_fev, expected=before + extra)
                m.feat("other points")
            broken = n == 0
            if n:
                best = min(p.vals) if s["minimize"] else max(p.vals)
                m.equal(float(g.state.fun), best, "best value so far")
        elif op == "evolve-fail":
            g.reset()
            p.watch = False
            p.start()
            p.fail_at = int(rng.integers(0, 3 * p.pop))
            p.exc = Fault("in evolve")
            err = None
            try:
                g.evolve(3)
            except Exception as e:
                err = e
            chain, x = [], err
            while x is not None and len(chain) < 10:
                chain.append(x)
                x = x.__cause__ or x.__context__
            m.ok(any(y is p.exc for y in chain), "the exception of the objective reaches the caller of evolve", got=chain)
            m.ok((p.calls // p.pop) * p.pop <= g.state.n_fev <= p.calls + 1, "evaluations before the failure", got=g.state.n_fev)
            p.fail_at = None
            broken = True
        else:
            bad = pick(rng, [dict(miniter=g.maxiter + 1), dict(elitism=0), dict(elitism=-1), dict(elitism=g.nPop), dict(elitism=1.5), dict(elitism=-0.2)])
            if "maxiter" in bad:
                continue
            q = make(p, **lim)
            before = p.calls
            m.raises(ValueError, lambda: q.set_solution_params(**bad), "invalid settings are rejected", settings=bad)
            m.raises(ValueError, lambda: make(p, **{**lim, **bad}), "invalid settings are rejected at creation", settings=bad)
            m.ok(p.calls == before, "nothing is evaluated with invalid settings")


@scenario(quick=150, thorough=4000, modes=("py", "interp"))
def as_new(m, rng, i):
    """After any history, a run is the same as that of a new object."""
    s, f, ranges, lim, p, g, make = setup(m, rng)
    what = pick(rng, ["solve", "fail", "evolve", "recycle", "flip", "genotypes"])
    m.step(what)
    m.feat(what)
    if what == "fail":
        p.fail_at = int(rng.integers(0, 2 * p.pop))
        p.exc = Fault("x")
        try:
            g.solve()
        except Exception:
            pass
        if rng.random() < 0.5:
            # once more, from the broken state
            p.fail_at = p.calls + int(rng.integers(0, 2))
            try:
                g.solve(recycle=True)
            except Exception:
                pass
        p.fail_at = None
    elif what == "evolve":
        g.evolve(int(rng.integers(1, 4)))
    elif what == "genotypes":
        g.genotypes = np.ones_like(np.asarray(g.genotypes))
    else:
        g.solve()
        if what == "recycle":
            g.solve(recycle=True)
        if what == "flip":
            g.solve(minimize=not s["minimize"])
            g.set_solution_params(minimize=s["minimize"])
    seed = int(rng.integers(2**31))
    how = pick(rng, ["solve", "reset", "reset-evolve"])
    m.feat("then " + how)
    runs = []
    for new in (False, True):
        q = Probe(m, f, s["pop"], s)
        np.random.seed(seed)
        if new:
            h = make(q, **lim)
            if how == "solve":
                # solve starts with a reset
                np.random.seed(seed)
        else:
            h = g
            h.fnc = q
            if how != "solve":
                h.reset()
        q.g = h
        q.start()
        if how == "reset-evolve":
            h.evolve(3)
        elif how == "reset":
            h.solve(recycle=True)
        else:
            h.solve()
        runs.append((q, h))
    (q1, a), (q2, b) = runs
    m.equal(np.array(q1.vals), np.array(q2.vals), "the same evaluations as with a new object", how=how)
    m.ok(a.champion.genotype == b.champion.genotype and a.champion.fitness == b.champion.fitness and a.champion.age == b.champion.age, "the same champion as with a new object", got=a.champion, expected=b.champion)
    m.ok(a.state == b.state, "the same state as with a new object", got=a.state, expected=b.state)
    m.equal(np.asarray(a.genotypes), np.asarray(b.genotypes), "the same population as with a new object")


@scenario(quick=40, thorough=500, modes=("py",))
def independent(m, rng, i):
    """Optimisers do not share their states."""
    s, f, ranges, lim, p, g, make = setup(m, rng)
    q = Probe(m, f, s["pop"], s)
    h = make(q, **lim)
    q.g = h
    g.solve()
    clean(m, h, q)
    keep = g.state.model_copy(deep=True)
    c = (g.champion.fitness, list(g.champion.phenotype), g.champion.age)
    h.solve()
    m.ok(g.state == keep, "another optimiser leaves the state alone", got=g.state, expected=keep)
    m.ok(c == (g.champion.fitness, list(g.champion.phenotype), g.champion.age), "another optimiser leaves the champion alone")
    st = OptimizerState()
    r = st.to_scipy()
    m.ok(r.x is None and r.fun is None and r.nfev == 0 and r.nit == 0, "empty state")
