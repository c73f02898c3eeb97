"""
Monitor core.

A check is a module in /verif/checks that registers *scenarios*.  A scenario is
a function ``f(m, rng, i)``: it drives the real library through its public API
with a workload drawn from ``rng`` (seeded by VERIF_SEED, the property, the
scenario and the case index ``i``) and reports what it observes to the monitor
``m``.  The oracles are the methods of the monitor; each of them counts an
observation, and raises ``Violated`` if the observation refutes the property.
"""

import gc
import hashlib
import json
import math
import time
import traceback
import zlib

import numpy as np


class Violated(Exception):
    """An observation refutes the property."""


class HarnessProblem(Exception):
    """The harness could not set up an observation (inconclusive)."""


SCENARIOS = []


class Scenario:
    def __init__(self, fn, quick, thorough, modes):
        self.fn = fn
        self.name = fn.__name__
        self.quick = quick
        self.thorough = thorough
        self.modes = modes

    def count(self, tier):
        return self.quick if tier == "quick" else self.thorough


def scenario(quick=100, thorough=1000, modes=("jit", "bounds")):
    def deco(fn):
        SCENARIOS.append(Scenario(fn, quick, thorough, modes))
        return fn

    return deco


def core_scenarios_reset(name):
    """A check that borrows helpers from another one drops its scenarios."""
    SCENARIOS[:] = [s for s in SCENARIOS if s.fn.__module__ == name]


def short(x, limit=1200):
    if isinstance(x, np.ndarray):
        s = np.array2string(x, threshold=60, precision=17, separator=",")
        s = f"{x.dtype}{x.shape} {s}"
    else:
        s = repr(x)
    s = " ".join(s.split())
    return s if len(s) <= limit else s[:limit] + "..."


class Monitor:
    def __init__(self):
        self.observations = 0
        self.by_oracle = {}
        self.features = {}
        self.case_notes = {}
        self.case_obs = 0
        self.case_key = None

    # -- bookkeeping ---------------------------------------------------------
    def begin(self):
        self.case_notes = {}
        self.case_obs = 0
        self.case_key = hashlib.sha1()

    def note(self, **kw):
        """Describe the case; the description makes cases distinct."""
        for k, v in kw.items():
            if isinstance(v, np.ndarray):
                self.case_key.update(k.encode())
                self.case_key.update(str((v.dtype, v.shape)).encode())
                self.case_key.update(np.ascontiguousarray(v).tobytes())
            else:
                self.case_key.update(f"{k}={v!r}".encode())
            self.case_notes[k] = v

    def step(self, what):
        """Record an event of a history."""
        self.case_notes.setdefault("history", []).append(what)
        self.case_key.update(repr(what).encode())

    def feat(self, *names):
        for n in names:
            self.features[n] = self.features.get(n, 0) + 1

    def _seen(self, what):
        self.observations += 1
        self.case_obs += 1
        self.by_oracle[what] = self.by_oracle.get(what, 0) + 1

    # -- oracles -------------------------------------------------------------
    def ok(self, cond, what, **ctx):
        self._seen(what)
        if not bool(cond):
            self.fail(what, **ctx)

    def fail(self, what, **ctx):
        det = "; ".join(f"{k}={short(v)}" for k, v in ctx.items())
        raise Violated(f"{what}: {det}" if det else what)

    def close(self, got, ref, what, rtol=1e-8, atol=1e-10, scale=None, **ctx):
        """The shapes are equal, and the values agree up to roundoff."""
        self._seen(what)
        g = np.asarray(got)
        r = np.asarray(ref)
        if g.shape != r.shape:
            self.fail(what + " (shape)", got=g, expected=r, **ctx)
        if g.size == 0:
            return
        if g.dtype == object or r.dtype == object:
            g = g.astype(float)
            r = r.astype(float)
        nan_r = np.isnan(r)
        nan_g = np.isnan(g)
        if not np.array_equal(nan_r, nan_g):
            self.fail(what + " (nan)", got=g, expected=r, **ctx)
        inf_r = np.isinf(r)
        if not np.array_equal(inf_r, np.isinf(g)) or not np.array_equal(
            g[inf_r], r[inf_r]
        ):
            self.fail(what + " (inf)", got=g, expected=r, **ctx)
        fin = ~(nan_r | inf_r)
        if not fin.any():
            return
        g = g[fin]
        r = r[fin]
        s = float(np.max(np.abs(r))) if scale is None else float(scale)
        err = float(np.max(np.abs(g - r)))
        if not err <= rtol * s + atol:
            self.fail(what, got=np.asarray(got), expected=np.asarray(ref), err=err, **ctx)

    def equal(self, got, ref, what, **ctx):
        """Exact equality of shapes and values (nan equals nan)."""
        self._seen(what)
        g = np.asarray(got)
        r = np.asarray(ref)
        same = g.shape == r.shape
        if same:
            try:
                same = np.array_equal(g, r, equal_nan=True)
            except TypeError:
                same = np.array_equal(g, r)
        if not same:
            self.fail(what, got=g, expected=r, **ctx)

    def raises(self, exc, fn, what, **ctx):
        """The call is rejected with an exception of the given kind(s)."""
        self._seen(what)
        try:
            res = fn()
        except exc as e:
            return e
        except Exception as e:
            self.fail(what + " (other exception)", got=e, expected=exc, **ctx)
        self.fail(what + " (accepted)", got=res, expected=exc, **ctx)

    def call(self, fn, what, *args, **kwargs):
        """A legal call must not raise."""
        self._seen(what)
        try:
            return fn(*args, **kwargs)
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            self.fail(what + " raised", error=e, at=where(e))


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return " <- ".join(f"{f.filename}:{f.lineno}" for f in reversed(tb[-4:]))


class Frozen:
    """Remembers inputs, to tell afterwards whether a call has changed them."""

    def __init__(self, **arrays):
        self.arrays = arrays
        self.copies = {k: np.array(v, copy=True) for k, v in arrays.items()}

    def check(self, m, what="inputs are left as they were"):
        for k, v in self.arrays.items():
            m.equal(np.asarray(v), self.copies[k], what, name=k)


def case_rng(seed, pid, name, i):
    return np.random.default_rng([seed, zlib.crc32(f"{pid}/{name}".encode()), i])


# -- generators shared by the checks ------------------------------------------
def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def grow(rng, usual, large, p=0.05):
    """A size that is large every now and then."""
    return int(large) if rng.random() < p else int(usual)


def values(rng, shape, kind=None):
    """Hostile but finite component arrays."""
    kind = kind or pick(
        rng, ["normal", "normal", "uniform", "int", "sparse", "big", "small", "neg", "mixed"]
    )
    if kind == "normal":
        a = rng.normal(size=shape)
    elif kind == "uniform":
        a = rng.random(shape)
    elif kind == "int":
        a = rng.integers(-5, 6, size=shape).astype(float)
    elif kind == "sparse":
        a = rng.normal(size=shape) * (rng.random(shape) < 0.35)
    elif kind == "big":
        a = rng.normal(size=shape) * 1e5
    elif kind == "small":
        a = rng.normal(size=shape) * 1e-4
    elif kind == "neg":
        a = -np.abs(rng.normal(size=shape)) - 0.1
    else:
        a = rng.normal(size=shape) * 10.0 ** rng.integers(-3, 4, size=shape)
    return np.asarray(a, dtype=float)


def rotation(rng, d):
    q, r = np.linalg.qr(rng.normal(size=(d, d)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return np.ascontiguousarray(q)


def axes(rng, d, kind=None, cond=30.0):
    """Linearly independent, well conditioned base vectors (in the rows)."""
    kind = kind or pick(
        rng,
        ["eye", "rot", "refl", "perm", "rect", "leftrect", "skew", "skew", "skew", "scaled", "tri", "sym"],
    )
    for _ in range(200):
        if kind == "eye":
            a = np.eye(d)
        elif kind == "rot":
            a = rotation(rng, d)
        elif kind == "refl":
            a = rotation(rng, d)
            a[-1] *= -1
        elif kind == "perm":
            a = np.eye(d)[rng.permutation(d)]
        elif kind == "rect":
            a = rng.uniform(0.3, 3.0, d)[:, None] * rotation(rng, d)
        elif kind == "leftrect":
            a = rng.uniform(0.3, 3.0, d)[:, None] * rotation(rng, d)
            a[0] *= -1
        elif kind == "skew":
            a = rng.normal(size=(d, d))
        elif kind == "scaled":
            a = rng.normal(size=(d, d)) * 10.0 ** rng.integers(-2, 3)
        elif kind == "tri":
            a = np.tril(rng.normal(size=(d, d))) + np.eye(d) * 1.5
        elif kind == "sym":
            a = rng.normal(size=(d, d))
            a = a @ a.T + np.eye(d)
        else:
            raise HarnessProblem(kind)
        if np.linalg.cond(a) < cond:
            return np.ascontiguousarray(a, dtype=float)
    # random matrices of higher dimensions are rarely well conditioned
    s = np.exp(rng.uniform(0, np.log(0.9 * cond), d))
    a = (rotation(rng, d) * s) @ rotation(rng, d)
    return np.ascontiguousarray(a / np.sqrt(s.max()), dtype=float)


def layout(rng, a, kind=None):
    """The same values in another memory layout."""
    kind = kind or pick(rng, ["C", "F", "strided", "view"])
    if kind == "F":
        return np.array(a, order="F")
    if kind == "strided":
        b = np.empty(tuple(2 * s for s in a.shape), dtype=a.dtype)
        b[...] = 77
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if kind == "view":
        b = np.full((a.shape[0] + 2,) + a.shape[1:], 55, dtype=a.dtype)
        v = b[1:-1]
        v[...] = a
        return v
    return np.array(a, order="C")


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x[:40]]
    if isinstance(x, (str, bool)) or x is None:
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x) if math.isfinite(x) else repr(x)
    return short(x, 400)
