"""Concrete twin of SymCtx: runs a harness on given input values (used for replay on the real libs)."""
import math
from fractions import Fraction


class AssumeFailed(BaseException):
    pass


class ConcreteCtx:
    symbolic = False
    TOL = 1e-6

    def __init__(self, inputs, rng=None):
        self.vals = inputs
        self.rng = rng
        self.failures = []
        self.nchecks = 0
        self.obs = []
        self.covered = set()

    def _get(self, name, default=0):
        return self.vals.get(name, default)

    def _auto(self, name, kind, lo, hi):
        """draw a value for an input that is not given (fallback runs only)."""
        if self.rng is None or name in self.vals:
            return
        lo = -6 if lo is None or lo < -100 else lo
        hi = 6 if hi is None or hi > 100 else hi
        if kind == "f":
            a, b = math.ceil(lo * 4), math.floor(hi * 4)
            self.vals[name] = "%d/4" % self.rng.randint(a, max(a, min(b, a + 60)))
        else:
            a, b = math.ceil(lo), math.floor(hi)
            self.vals[name] = self.rng.randint(a, max(a, min(b, a + 20)))

    def real(self, name, lo=-1000, hi=1000):
        self._auto(name, "f", lo, hi)
        v = self._get(name)
        return float(Fraction(v))

    def complex(self, name, lo=-1000, hi=1000):
        return complex(self.real(name + ".re", lo, hi), self.real(name + ".im", lo, hi))

    def int(self, name, lo=-1000, hi=1000):
        self._auto(name, "i", lo, hi)
        v = int(Fraction(self._get(name, lo if lo is not None and lo > 0 else 0)))
        return v

    def bit(self, name, kind="i"):
        self._auto(name, "i", 0, 1)
        v = int(self._get(name))
        return v if kind == "i" else float(v)

    def bool(self, name):
        self._auto(name, "i", 0, 1)
        return bool(int(self._get(name)))

    def choice(self, name, options):
        self._auto(name, "i", 0, len(options) - 1)
        return options[int(self._get(name))]

    def nonzero(self, *vs):
        for v in vs:
            self.assume(v != 0)
        return vs

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, label, c):
        self.nchecks += 1
        if not c:
            self.failures.append(label)

    def _close(self, a, b):
        try:
            a, b = complex(a), complex(b)
        except (TypeError, ValueError):
            return bool(a == b)
        if math.isnan(a.real) or math.isnan(b.real):
            return False
        if a == b:
            return True
        return abs(a - b) <= self.TOL * (1 + max(abs(a), abs(b)))

    def eq(self, label, a, b):
        self.obs.append((label, _f(a), _f(b)))
        self.nchecks += 1
        if not self._close(a, b):
            self.failures.append("%s (got %s, expected %s)" % (label, _s(a), _s(b)))

    def le(self, label, a, b):
        self.nchecks += 1
        if not (a <= b or self._close(a, b)):
            self.failures.append("%s (%s > %s)" % (label, _s(a), _s(b)))

    def fail(self, label):
        self.check(label, False)

    def cover(self, label):
        self.covered.add(label)

    def And(self, *cs):
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        return any(bool(c) for c in cs)

    def Not(self, c):
        return not c

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def If(self, c, a, b):
        return a if c else b

    def close(self, a, b):
        return self._close(a, b)


def _s(v):
    return repr(v)[:80]


def _f(v):
    try:
        return float(v)
    except (TypeError, ValueError):
        return None


def auto(body, kwargs, seed, n, budget=60):
    """fallback when a unit could not be decided symbolically: concrete runs of the same harness."""
    import random
    import time

    t0 = time.time()
    done = 0
    for k in range(n * 5):
        if done >= n or time.time() - t0 > budget:
            break
        vals = {}
        r = run(body, kwargs, vals, random.Random("%s/%d" % (seed, k)))
        if r["status"] == "violated":
            r["inputs"] = vals
            return r
        if r["status"] == "ok":
            done += 1
    return {"status": "ok", "failures": [], "runs": done, "inputs": None}


def run(body, kwargs, inputs, rng=None):
    """-> dict(status=ok|violated|skipped|error, failures=[...])"""
    import traceback

    ctx = ConcreteCtx(inputs, rng)
    try:
        body(ctx, **kwargs)
    except AssumeFailed:
        if not ctx.failures:
            return {"status": "skipped", "failures": [], "nchecks": ctx.nchecks}
    except Exception as ex:  # noqa
        ctx.failures.append("unexpected %s: %s" % (type(ex).__name__, str(ex)[:160]))
        tb = traceback.format_exc()[-1500:]
        return {"status": "violated", "failures": ctx.failures, "tb": tb, "nchecks": ctx.nchecks}
    st = "violated" if ctx.failures else "ok"
    return {"status": st, "failures": ctx.failures, "nchecks": ctx.nchecks, "obs": ctx.obs,
            "covered": sorted(ctx.covered)}
