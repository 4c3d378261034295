"""Forking symbolic executor for plain Python code.

Inputs are `SymNum` proxies that wrap a z3 Int/Real term.  The real source code runs on them;
every branch on a symbolic condition (`SymBool.__bool__`) asks z3 which outcomes are feasible under
the current path condition and forks (depth first, by re-execution with a decision prefix).  The
assertions a harness makes are collected per path and decided by z3 for *all* values of the inputs.

Numbers are modelled as mathematical integers / reals.  Floating point rounding is outside the claim.
"""
import math
import numbers
import time
from fractions import Fraction

import numpy as np
import z3


class Unsupported(BaseException):
    """The code under execution needs something the encoding does not provide."""


class PathAbort(BaseException):
    """The current path became infeasible (a failed assume)."""


class BoundExceeded(BaseException):
    """A stated bound (paths, decisions, wall time) was hit."""


class HarnessStop(BaseException):
    """Used by a harness to end a path early."""


_CUR = None  # current SymCtx


def cur():
    if _CUR is None:
        raise Unsupported("symbolic value used outside an exploration")
    return _CUR


def set_cur(ctx):
    global _CUR
    _CUR = ctx


def frac(v):
    """exact rational for a concrete python/numpy number (floats are snapped to a simple rational
    that rounds to the same double, so that e.g. 1/3 computed concretely is 1/3)."""
    if isinstance(v, Fraction):
        return v
    if isinstance(v, (bool, np.bool_)):
        return Fraction(int(v))
    if isinstance(v, (int, np.integer)):
        return Fraction(int(v))
    v = float(v)
    if v.is_integer():
        return Fraction(int(v))
    f = Fraction(v)
    if f.denominator <= 1 << 20:
        return f
    g = f.limit_denominator(10 ** 6)
    if float(g) == v:
        return g
    g = Fraction(repr(v))
    return g


def is_sym(v):
    return type(v) in (SymNum, SymBool)


def _any_sym(v):
    return is_sym(v) or hasattr(type(v), "symbolic_complex")


def has_sym(v):
    """does a container / array hold a symbolic element (shallow recursive)."""
    if _any_sym(v):
        return True
    if isinstance(v, np.ndarray):
        return v.dtype == object and any(_any_sym(e) for e in v.flat)
    if isinstance(v, (list, tuple)):
        return any(has_sym(e) for e in v)
    return False


def _const(f, kind):
    if kind == "i":
        return z3.IntVal(int(f))
    return z3.RealVal(f)


def lift(v):
    """concrete or symbolic number -> (term, kind, bit) or None."""
    t = type(v)
    if t is SymNum:
        return v.t, v.kind, v.bit
    if t is SymBool:
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0)), "i", v.t
    if t is int or t is bool or isinstance(v, (np.integer, np.bool_)):
        return z3.IntVal(int(v)), "i", None
    if isinstance(v, (float, np.floating, Fraction)):
        fv = float(v)
        if math.isinf(fv) or math.isnan(fv):
            return None
        return z3.RealVal(frac(v)), "f", None
    if isinstance(v, (complex, np.complexfloating)):
        if v.imag == 0:
            return z3.RealVal(frac(v.real)), "f", None
        return None
    if isinstance(v, np.ndarray) and v.shape == ():
        return lift(v.item())
    return None


def to_real(t):
    if t.is_int():
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    return t


def _is_const(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)


def const_value(t):
    """Fraction when the simplified term is a numeral else None."""
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def mk(t, kind, bit=None):
    """build a SymNum - or a plain python number if the term is a numeral."""
    c = const_value(t)
    if c is not None:
        if kind == "i":
            return int(c)
        if c.denominator == 1 or float(c) == c:
            return float(c)
        return SymNum(t, kind)
    return SymNum(t, kind, bit)


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return cur().decide(self.t)

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return "<symbool>"

    def _num(self):
        return SymNum(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)), "i", self.t)

    def __and__(self, o):
        if type(o) is SymBool:
            return mkb(z3.And(self.t, o.t))
        if isinstance(o, (bool, np.bool_)):
            return self if o else False
        return self._num() & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is SymBool:
            return mkb(z3.Or(self.t, o.t))
        if isinstance(o, (bool, np.bool_)):
            return True if o else self
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) is SymBool:
            return mkb(z3.Xor(self.t, o.t))
        if isinstance(o, (bool, np.bool_)):
            return mkb(z3.Not(self.t)) if o else self
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        raise Unsupported("~ on a symbolic bool")

    def logical_not(self):
        return mkb(z3.Not(self.t))

    def __eq__(self, o):
        if type(o) is SymBool:
            return mkb(self.t == o.t)
        if isinstance(o, (bool, np.bool_)):
            return self if o else mkb(z3.Not(self.t))
        return self._num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if type(r) is SymBool:
            return mkb(z3.Not(r.t))
        return not r

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))


def _delegate(name):
    def op(self, *a):
        return getattr(self._num(), name)(*a)

    op.__name__ = name
    return op


for _n in (
    "__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __rtruediv__ __neg__ __pos__ "
    "__lt__ __le__ __gt__ __ge__ __abs__ __pow__"
).split():
    setattr(SymBool, _n, _delegate(_n))


def mkb(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


class SymNum:
    """symbolic int ('i', z3 Int sort) or float ('f', z3 Real sort)."""

    __slots__ = ("t", "kind", "bit", "sq")

    def __init__(self, t, kind, bit=None):
        self.sq = None  # the square, for square roots
        self.t = t
        self.kind = kind
        self.bit = bit

    @property
    def __class__(self):
        return int if self.kind == "i" else float

    def __hash__(self):
        return hash(cur().concretise(self, "hash"))

    def __repr__(self):
        return "<sym>"

    def __format__(self, spec):
        return "<sym>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    # conversions -------------------------------------------------------------------------
    def __float__(self):
        c = const_value(z3.simplify(self.t))
        if c is not None:
            return float(c)
        v = cur().unique_value(self.t)
        if v is not None:
            return float(v)
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        return cur().concretise(trunc(self), "int")

    def __index__(self):
        if self.kind != "i":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return cur().concretise(self, "index")

    def __bool__(self):
        if self.bit is not None:
            return cur().decide(self.bit)
        return cur().decide(self.t != 0)

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")

    def is_integer(self):
        if self.kind == "i":
            return True
        return mkb(z3.IsInt(self.t))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    def item(self):
        return self

    def tolist(self):
        return self

    @property
    def shape(self):
        raise AttributeError("shape")

    # arithmetic --------------------------------------------------------------------------
    def _bin(self, o, f):
        l = lift(o)
        if l is None:
            return None
        ot, ok, _ = l
        k = "i" if self.kind == "i" and ok == "i" else "f"
        a, b = self.t, ot
        if k == "f":
            a, b = to_real(a), to_real(b)
        return mk(z3.simplify(f(a, b)), k)

    def __add__(self, o):
        if _isinf(o):
            return float(o)
        r = self._bin(o, lambda a, b: a + b)
        return NotImplemented if r is None else r

    def __radd__(self, o):
        if _isinf(o):
            return float(o)
        r = self._bin(o, lambda a, b: b + a)
        return NotImplemented if r is None else r

    def __sub__(self, o):
        if _isinf(o):
            return -float(o)
        r = self._bin(o, lambda a, b: a - b)
        return NotImplemented if r is None else r

    def __rsub__(self, o):
        if _isinf(o):
            return float(o)
        r = self._bin(o, lambda a, b: b - a)
        return NotImplemented if r is None else r

    def __mul__(self, o):
        if o is self and self.sq is not None:
            return self.sq
        l = lift(o)
        if l is None:
            if _isinf(o):
                raise Unsupported("inf * symbolic")
            return NotImplemented
        ot, ok, ob = l
        k = "i" if self.kind == "i" and ok == "i" else "f"
        zero = z3.IntVal(0) if k == "i" else z3.RealVal(0)
        if self.bit is not None and ob is not None:
            b = z3.simplify(z3.And(self.bit, ob))
            one = z3.IntVal(1) if k == "i" else z3.RealVal(1)
            return mk(z3.simplify(z3.If(b, one, zero)), k, b)
        if self.bit is not None:
            t = ot if k == "i" else to_real(ot)
            return mk(z3.simplify(z3.If(self.bit, t, zero)), k)
        if ob is not None:
            t = self.t if k == "i" else to_real(self.t)
            return mk(z3.simplify(z3.If(ob, t, zero)), k)
        a, b = self.t, ot
        if k == "f":
            a, b = to_real(a), to_real(b)
        # distribute a constant/bit over If-valued bit products is left to z3
        return mk(z3.simplify(a * b), k)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if _isinf(o):
            return 0.0
        l = lift(o)
        if l is None:
            return NotImplemented
        ot = to_real(l[0])
        if const_value(ot) is None:
            if cur().decide(ot == 0):
                raise ZeroDivisionError("division by zero")
        elif const_value(ot) == 0:
            raise ZeroDivisionError("division by zero")
        return mk(z3.simplify(to_real(self.t) / ot), "f")

    def __rtruediv__(self, o):
        l = lift(o)
        if l is None:
            if _isinf(o):
                raise Unsupported("inf / symbolic")
            return NotImplemented
        if cur().decide(self.t == 0):
            raise ZeroDivisionError("division by zero")
        return mk(z3.simplify(to_real(l[0]) / to_real(self.t)), "f")

    def __floordiv__(self, o):
        l = lift(o)
        if l is None:
            return NotImplemented
        return _floordiv((self.t, self.kind), l)

    def __rfloordiv__(self, o):
        l = lift(o)
        if l is None:
            return NotImplemented
        return _floordiv(l, (self.t, self.kind))

    def __mod__(self, o):
        l = lift(o)
        if l is None:
            return NotImplemented
        return self - (self // o) * o

    def __rmod__(self, o):
        if lift(o) is None:
            return NotImplemented
        return o - (o // self) * self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        if is_sym(o):
            if o.kind == "i" if type(o) is SymNum else False:
                o = cur().concretise(o, "exponent")
            else:
                raise Unsupported("symbolic exponent")
        if isinstance(o, (float, np.floating)) and float(o).is_integer():
            r = self ** int(o)
            return _tofloat(r)
        if isinstance(o, (int, np.integer)):
            o = int(o)
            if o >= 0:
                if self.bit is not None and o >= 1:
                    return self
                if o == 2 and self.sq is not None:
                    return self.sq
                r = 1
                for _ in range(o):
                    r = self * r
                return r if self.kind == "i" else _tofloat(r)
            return 1.0 / (self ** (-o))
        if isinstance(o, float) and o == 0.5:
            return self.sqrt()
        raise Unsupported("power %r" % (o,))

    def __rpow__(self, o):
        e = cur().concretise(self, "exponent") if self.kind == "i" else None
        if e is None:
            raise Unsupported("symbolic real exponent")
        return o ** e

    def __neg__(self):
        return mk(z3.simplify(-self.t), self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.bit is not None or self.sq is not None:
            return self
        return mk(z3.simplify(z3.If(self.t >= 0, self.t, -self.t)), self.kind)

    fabs = __abs__

    def __round__(self, n=None):
        if n is None:
            return rint(self, "i")
        if self.kind == "i" and n >= 0:
            return self
        if n == 0:
            return rint(self, "f")
        s = 10 ** n
        return rint(self * s, "f") / s

    def __floor__(self):
        if self.kind == "i":
            return self
        return mk(z3.simplify(z3.ToInt(self.t)), "i")

    def __ceil__(self):
        if self.kind == "i":
            return self
        return mk(z3.simplify(-z3.ToInt(-self.t)), "i")

    def __trunc__(self):
        return trunc(self)

    # numpy object-array ufunc hooks
    def floor(self):
        return _tofloat(self.__floor__())

    def ceil(self):
        return _tofloat(self.__ceil__())

    def rint(self):
        return rint(self, "f")

    def sqrt(self):
        if cur().decide(self.t < 0):
            raise Unsupported("sqrt of a negative symbolic value")
        return cur().sqrt(self)

    def log2(self):
        """forks over the integer part; the fractional part stays symbolic."""
        c = cur()
        t = to_real(self.t)
        if c.decide(t <= 0):
            if c.decide(t == 0):
                return float("-inf")
            raise Unsupported("log2 of a negative symbolic value")
        if c.decide(t >= 1):
            for k in range(0, 120):
                if c.decide(t < 2 ** (k + 1)):
                    break
        else:
            for k in range(-1, -120, -1):
                if c.decide(t * 2 ** (-k) >= 1):
                    break
        r = c.fresh("log2", "f")
        c._add(z3.And(r >= k, r < k + 1))
        p = z3.RealVal(Fraction(2) ** k)
        c._add((r == k) == (t == p))
        return SymNum(r, "f")

    # comparisons -------------------------------------------------------------------------
    def _cmp(self, o, f, inf):
        l = lift(o)
        if l is None:
            if _isinf(o):
                return inf(0.0, float(o))
            return NotImplemented
        ot, ok, _ = l
        a, b = self.t, ot
        if a.sort() != b.sort():
            a, b = to_real(a), to_real(b)
        return mkb(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is self:
            return True
        return self._cmp(o, lambda a, b: a == b, lambda a, b: False)

    def __ne__(self, o):
        if o is self:
            return False
        return self._cmp(o, lambda a, b: a != b, lambda a, b: True)

    # bit operations on 0/1 proxies
    def __and__(self, o):
        l = lift(o)
        if l is not None and self.bit is not None and l[2] is not None:
            return self * o
        raise Unsupported("bitwise and")

    __rand__ = __and__

    def __or__(self, o):
        raise Unsupported("bitwise or")

    __ror__ = __or__

    def __xor__(self, o):
        l = lift(o)
        if l is None or self.kind != "i":
            return NotImplemented
        c = const_value(l[0])
        if self.bit is not None and c is not None and c in (0, 1):
            return self if c == 0 else mk(z3.If(self.bit, z3.IntVal(0), z3.IntVal(1)), "i",
                                          z3.Not(self.bit))
        raise Unsupported("bitwise xor")

    __rxor__ = __xor__

    def __lshift__(self, o):
        return self * (2 ** int(o))

    def __rshift__(self, o):
        return self // (2 ** int(o))

    def bit_length(self):
        return cur().concretise(self, "bit_length").bit_length()


def _isinf(o):
    return isinstance(o, (float, np.floating)) and not is_sym(o) and math.isinf(o)


def _tofloat(v):
    if type(v) is SymNum:
        if v.kind == "f":
            return v
        return SymNum(to_real(v.t), "f", v.bit)
    if type(v) is SymBool:
        return _tofloat(v._num())
    return float(v)


def _floordiv(l, r):
    at, ak = l[0], l[1]
    bt, bk = r[0], r[1]
    c = const_value(bt)
    if c == 0:
        raise ZeroDivisionError("division by zero")
    if c is None and cur().decide(bt == 0):
        raise ZeroDivisionError("division by zero")
    k = "i" if ak == "i" and bk == "i" else "f"
    if k == "i" and c is not None and c > 0:
        return mk(z3.simplify(at / bt), "i")  # z3 Int division floors for positive divisors
    q = z3.ToInt(to_real(at) / to_real(bt))
    return mk(z3.simplify(q), "i") if k == "i" else mk(z3.simplify(z3.ToReal(q)), "f")


def trunc(v):
    """python int(): truncation toward zero."""
    if not is_sym(v):
        return int(v)
    if type(v) is SymBool:
        return v._num()
    if v.kind == "i":
        return v
    if v.bit is not None:
        return SymNum(z3.If(v.bit, z3.IntVal(1), z3.IntVal(0)), "i", v.bit)
    t = v.t
    return mk(z3.simplify(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))), "i")


def rint(v, kind):
    """round half to even."""
    if not is_sym(v):
        r = round(v)
        return r if kind == "i" else float(r)
    if type(v) is SymBool:
        v = v._num()
    if v.kind == "i":
        return v if kind == "i" else _tofloat(v)
    t = v.t
    f = z3.ToInt(t)
    d = t - z3.ToReal(f)
    half = z3.RealVal("1/2")
    r = z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))
    r = mk(z3.simplify(r), "i")
    return r if kind == "i" else _tofloat(r)


numbers.Number.register(SymNum)
numbers.Real.register(SymNum)


# ---------------------------------------------------------------------------------------------
def ite(c, a, b):
    """merge two numbers under a condition without forking."""
    if not is_sym(c):
        return a if c else b
    if type(c) is SymNum:
        c = c != 0
        if not is_sym(c):
            return a if c else b
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        return a if c else b
    if la[1] == "i" and lb[1] == "i":
        return mk(z3.simplify(z3.If(c.t, la[0], lb[0])), "i")
    return mk(z3.simplify(z3.If(c.t, to_real(la[0]), to_real(lb[0]))), "f")


class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.decisions = 0


def _nice_value(rng, lo, hi, integer):
    lo = -6 if lo is None or lo < -100 else lo
    hi = 6 if hi is None or hi > 100 else hi
    lo, hi = max(Fraction(lo), Fraction(-1000)), min(Fraction(hi), Fraction(1000))
    if lo > hi:
        return None
    if integer:
        a, b = math.ceil(lo), math.floor(hi)
        a, b = max(a, -9) if b >= -9 else a, b
        b = min(b, a + 20)
        if a > b:
            return None
        return Fraction(rng.randint(a, b))
    a = math.ceil(lo * 4)
    b = min(math.floor(hi * 4), a + 60)
    if a > b:
        return None
    return Fraction(rng.randint(a, b), 4)


class SymCtx:
    """one exploration of one harness configuration."""

    symbolic = True

    def __init__(self, timeout_ms=20000, max_paths=4000, deadline=None, max_decisions=4000):
        self.stats = Stats()
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.deadline = deadline
        self.covered = set()

    # ---- per path ------------------------------------------------------------------------
    def begin(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []  # decisions taken at real forks
        self.pc = []
        self.dec_cache = {}
        self.inputs = {}  # name -> (term, meta)
        self.checks = []  # (label, z3 bool, pc length)
        self.obs = []
        self.aux = 0
        self.forks = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.known = {}

    def _check(self, *extra):
        if self.deadline is not None and time.time() > self.deadline:
            raise BoundExceeded("wall clock budget")
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def _add(self, t):
        self.pc.append(t)
        self.solver.add(t)

    def decide(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        key = t.get_id()
        if key in self.known:
            return self.known[key][1]
        self.stats.decisions += 1
        if len(self.trace) > self.max_decisions:
            raise BoundExceeded("decision bound")
        if self.pos < len(self.prefix):
            v, forced = self.prefix[self.pos]
            self.pos += 1
            if not forced:
                self._add(t if v else z3.Not(t))
            self.trace.append((v, forced))
            self.known[key] = (t, v)
            return v
        can_t = self._check(t) != z3.unsat
        can_f = self._check(z3.Not(t)) != z3.unsat
        if not can_t and not can_f:
            raise PathAbort()
        if can_t and can_f:
            self.forks.append(self.trace + [(False, False)])
            v = True
            self._add(t)
            self.trace.append((True, False))
        else:
            v = can_t
            self.trace.append((v, True))
        self.pos += 1
        self.known[key] = (t, v)
        return v

    def unique_value(self, t):
        """value of the term if the path condition determines it."""
        if self._check() != z3.sat:
            return None
        c = const_value(z3.simplify(self.solver.model().eval(t, model_completion=True)))
        if c is None:
            return None
        if self._check(t != _const(c, "i" if t.is_int() else "f")) == z3.unsat:
            return c
        return None

    def concretise(self, v, why=""):
        """fork over all feasible integer values."""
        if type(v) is SymBool:
            return int(bool(v))
        if not is_sym(v):
            return v
        if v.bit is not None:
            return (1 if v.kind == "i" else 1.0) if bool(v) else (0 if v.kind == "i" else 0.0)
        if v.kind != "i":
            u = self.unique_value(v.t)
            if u is not None:
                return float(u)
            raise Unsupported("concretising a symbolic real (%s)" % why)
        for _ in range(200):
            if self.pos < len(self.prefix):
                # replay: candidate values must be generated deterministically
                pass
            if self._check() != z3.sat:
                raise PathAbort()
            # smallest |value| first, deterministic: ask for min via model walk
            c = self._min_value(v.t)
            if self.decide(v.t == c):
                return c
        raise BoundExceeded("concretising an unbounded integer (%s)" % why)

    def _min_value(self, t):
        m = self.solver.model()
        best = const_value(z3.simplify(m.eval(t, model_completion=True)))
        best = int(best)
        lo = -(1 << 12)
        if self._check(t < lo) != z3.unsat:
            return best
        # binary search for the minimum
        hi = best
        while lo < hi:
            mid = (lo + hi) // 2
            if self._check(t <= mid) == z3.sat:
                hi = mid
            else:
                lo = mid + 1
        return lo

    def fresh(self, base, sort):
        self.aux += 1
        n = "%s!%d" % (base, self.aux)
        return z3.Real(n) if sort == "f" else z3.Int(n)

    def sqrt(self, v):
        s = self.fresh("sqrt", "f")
        self._add(s >= 0)
        self._add(s * s == to_real(v.t))
        r = SymNum(s, "f")
        r.sq = _tofloat(v)
        return r

    # ---- harness API -----------------------------------------------------------------------
    def _input(self, name, term, kind, lo, hi):
        if name in self.inputs:
            raise RuntimeError("duplicate input " + name)
        self.inputs[name] = (term, kind, lo, hi)
        if kind != "b":
            if lo is not None:
                self._add(term >= _const(frac(lo), "i" if kind == "i" else "f"))
            if hi is not None:
                self._add(term <= _const(frac(hi), "i" if kind == "i" else "f"))

    def real(self, name, lo=-1000, hi=1000):
        t = z3.Real(name)
        self._input(name, t, "f", lo, hi)
        return SymNum(t, "f")

    def complex(self, name, lo=-1000, hi=1000):
        from .cplx import SymComplex

        return SymComplex(self.real(name + ".re", lo, hi), self.real(name + ".im", lo, hi))

    def int(self, name, lo=-1000, hi=1000):
        t = z3.Int(name)
        self._input(name, t, "i", lo, hi)
        return SymNum(t, "i")

    def bit(self, name, kind="i"):
        b = z3.Bool(name)
        self._input(name, b, "b", 0, 1)
        one, zero = (z3.IntVal(1), z3.IntVal(0)) if kind == "i" else (z3.RealVal(1), z3.RealVal(0))
        return SymNum(z3.If(b, one, zero), kind, b)

    def bool(self, name):
        b = z3.Bool(name)
        self._input(name, b, "b", 0, 1)
        return SymBool(b)

    def choice(self, name, options):
        """a concrete choice, forked."""
        i = self.int(name, 0, len(options) - 1)
        for k in range(len(options) - 1):
            if self.decide(i.t == k):
                return options[k]
        return options[-1]

    def nonzero(self, *vs):
        for v in vs:
            self.assume(v != 0)
        return vs

    def assume(self, c):
        if not is_sym(c):
            if not c:
                raise PathAbort()
            return
        if type(c) is SymNum:
            c = c != 0
            if not is_sym(c):
                return self.assume(c)
        self._add(c.t)
        if self.pos >= len(self.prefix) and self._check() == z3.unsat:
            raise PathAbort()

    def check(self, label, c):
        if is_sym(c):
            if type(c) is SymNum:
                c = c != 0
                t = c.t if is_sym(c) else z3.BoolVal(bool(c))
            else:
                t = c.t
        else:
            t = z3.BoolVal(bool(c))
        self.checks.append((label, t, len(self.pc)))

    def eq(self, label, a, b):
        self.obs.append((label, a, b))
        la, lb = lift(a), lift(b)
        if la is None or lb is None:
            if la is None and lb is None:
                self.check(label, (a == b) is True or a == b)
            else:
                self.check(label, False)
            return
        x, y = la[0], lb[0]
        if x.sort() != y.sort():
            x, y = to_real(x), to_real(y)
        if x.eq(y):
            return
        self.checks.append((label, x == y, len(self.pc)))

    def le(self, label, a, b):
        self.check(label, a <= b)

    def fail(self, label):
        self.check(label, False)

    def cover(self, label):
        self.covered.add(label)

    # logical helpers that do not fork
    def And(self, *cs):
        ts = [c.t if is_sym(c) else z3.BoolVal(bool(c)) for c in cs]
        return mkb(z3.And(*ts)) if ts else True

    def Or(self, *cs):
        ts = [c.t if is_sym(c) else z3.BoolVal(bool(c)) for c in cs]
        return mkb(z3.Or(*ts)) if ts else False

    def Not(self, c):
        return mkb(z3.Not(c.t)) if is_sym(c) else (not c)

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        ta = a.t if is_sym(a) else z3.BoolVal(bool(a))
        tb = b.t if is_sym(b) else z3.BoolVal(bool(b))
        return mkb(ta == tb)

    def If(self, c, a, b):
        return ite(c, a, b)

    def close(self, a, b):
        return a == b

    # ---- solving -----------------------------------------------------------------------------
    def model_inputs(self, m):
        out = {}
        for n, (t, kind, lo, hi) in self.inputs.items():
            v = m.eval(t, model_completion=True)
            if kind == "b":
                out[n] = 1 if z3.is_true(v) else 0
                continue
            c = const_value(v)
            if c is None:
                if z3.is_algebraic_value(v):
                    a = v.approx(20)
                    c = Fraction(a.numerator_as_long(), a.denominator_as_long())
                else:
                    c = Fraction(0)
            out[n] = int(c) if kind == "i" else "%d/%d" % (c.numerator, c.denominator)
        return out

    def nice_constraints(self, denom=4, rad=8):
        cs = []
        for n, (t, kind, lo, hi) in self.inputs.items():
            if kind == "f":
                k = z3.Int("nice!" + n)
                cs.append(t == z3.ToReal(k) / denom)
                if lo is None or lo < -rad:
                    cs.append(k >= -rad * denom)
                if hi is None or hi > rad:
                    cs.append(k <= rad * denom)
            elif kind == "i":
                if (lo is None or lo < -rad) and not (hi is not None and hi < -rad):
                    cs.append(t >= -rad)
                if (hi is None or hi > rad) and not (lo is not None and lo > rad):
                    cs.append(t <= rad)
        return cs

    def _solve(self, cs, timeout=None, first_only=False):
        """sat/unsat/unknown + model for a conjunction, trying a few strategies."""
        timeout = timeout or self.timeout_ms
        if self.deadline is not None and time.time() > self.deadline:
            raise BoundExceeded("wall clock budget")
        t0 = time.time()
        try:
            simp = [z3.simplify(c, som=True) for c in cs]
            if any(z3.is_false(c) for c in simp):
                self.stats.queries += 1
                return z3.unsat, None
            mks = (
                lambda: z3.Solver(),
                lambda: z3.Then("simplify", "solve-eqs", "purify-arith", "qfnra-nlsat").solver(),
                lambda: z3.Then(z3.With("simplify", som=True), "propagate-values", "solve-eqs",
                                "smt").solver(),
            )
            for mkr in mks[:1] if first_only else mks:
                s = mkr()
                s.set("timeout", timeout)
                s.add(*simp)
                self.stats.queries += 1
                try:
                    r = s.check()
                except z3.Z3Exception:
                    continue
                if r == z3.unsat:
                    return r, None
                if r == z3.sat:
                    return r, s.model()
            self.stats.unknown += 1
            return z3.unknown, None
        finally:
            self.stats.solver_s += time.time() - t0

    def _cubes(self, limit):
        """inputs with a small finite domain, smallest domains first, up to `limit` combinations."""
        dom = []
        for n, (t, kind, lo, hi) in self.inputs.items():
            if kind == "b":
                dom.append((2, 0, t, [z3.BoolVal(False), z3.BoolVal(True)]))
            elif kind == "i" and lo is not None and hi is not None and hi - lo <= 12:
                vals = [z3.IntVal(v) for v in range(math.ceil(lo), math.floor(hi) + 1)]
                dom.append((len(vals), 1, t, vals))
        dom.sort(key=lambda d: d[:2])
        out, size = [], 1
        for k, _, t, vals in dom:
            if size * k > limit:
                break
            size *= k
            out.append((t, vals))
        return out, size

    def _solve_cubes(self, pc, s, limit=600, timeout=4000):
        """decide pc & s by exhaustive case distinction over the small finite inputs."""
        dims, size = self._cubes(limit)
        if not dims:
            return z3.unknown, None
        fs = [z3.simplify(c) for c in pc] + [s]

        def rec(i, fs, fixed):
            fs = [f for f in fs if not z3.is_true(f)]
            if any(z3.is_false(f) for f in fs):
                return z3.unsat, None
            if i == len(dims) or (i and i % 3 == 0):
                r, m = self._solve(fs, timeout=min(400, timeout) if i < len(dims) else timeout,
                                   first_only=i < len(dims))
                if r == z3.unsat:
                    return r, None
                if r == z3.sat or i == len(dims):
                    if r == z3.sat:
                        r2, m2 = self._solve(list(fs) + [a == v for a, v in fixed], timeout=timeout)
                        return r2, m2
                    return r, m
            t, vals = dims[i]
            worst = z3.unsat
            for v in vals:
                sub = [z3.simplify(z3.substitute(f, (t, v)), som=True) for f in fs]
                r, m = rec(i + 1, sub, fixed + [(t, v)])
                if r == z3.sat:
                    return r, m
                if r == z3.unknown:
                    worst = r
                    return worst, None
            return worst, None

        return rec(0, fs, [])

    def decide_checks(self, maxcex=4):
        """returns list of (label, status, inputs)  status in holds|cex|unknown"""
        out = []
        groups = {}
        for lab, t, n in self.checks:
            groups.setdefault(n, []).append((lab, t))
        for n, items in groups.items():
            pc = self.pc[:n]
            neg = []
            live = []
            for lab, t in items:
                s = z3.simplify(z3.Not(t), som=True)
                if not z3.is_false(s):
                    live.append((lab, t, s))
                    neg.append(s)
            self.stats.queries += 1
            if not live:
                continue
            r, m = self._solve(pc + [z3.Or(*neg) if len(neg) > 1 else neg[0]], timeout=min(2500, self.timeout_ms),
                               first_only=True)
            if r == z3.unsat:
                continue
            if r == z3.unknown or len(live) > 1:
                lemmas = []  # assertions already shown to follow from pc
                for lab, t, s in live:
                    r1, m1 = self._solve(pc + [s], timeout=min(1500, self.timeout_ms), first_only=True)
                    if r1 == z3.unknown and lemmas:
                        r1, m1 = self._solve(pc + lemmas + [s], timeout=min(3000, self.timeout_ms))
                    if r1 == z3.unknown:
                        r1, m1 = self._solve_cubes(pc, s)
                    if r1 == z3.unknown:
                        r1, m1 = self._solve(pc + [s])
                    if r1 == z3.unsat:
                        lemmas.append(t)
                        continue
                    if r1 == z3.unknown:
                        out.append((lab, "unknown", None))
                    elif len([o for o in out if o[1] == "cex"]) < maxcex:
                        out.append((lab, "cex", self._nice_models(pc, t, s, m1)))
            else:
                lab, t, s = live[0]
                out.append((lab, "cex", self._nice_models(pc, t, s, m)))
        return out

    def _nice_models(self, pc, t, s, m):
        """candidate counterexample inputs: prefer small dyadic values and a visible margin."""
        cands = []
        margin = []
        if z3.is_eq(t) and z3.is_arith(t.arg(0)):
            a, b = t.arg(0), t.arg(1)
            margin = [z3.Or(a - b >= 1, b - a >= 1)]
        tries = [(4, 8, True), (1, 8, True), (4, 64, False)]
        for den, rad, mg in tries:
            r, mm = self._solve(
                pc + [s] + self.nice_constraints(den, rad) + (margin if mg else []), timeout=5000
            )
            if r == z3.sat:
                cands.append(self.model_inputs(mm))
        if margin:
            r, mm = self._solve(pc + [s] + margin, timeout=5000)
            if r == z3.sat:
                cands.append(self.model_inputs(mm))
        cands.append(self.model_inputs(m))
        return cands

    def witness(self, rng, generic=True):
        """a concrete input reaching the end of this path, as generic as possible."""
        r = self._check()
        if r != z3.sat:
            return None
        m = self.solver.model()
        if generic:
            s = z3.Solver()
            s.set("timeout", 2000)
            s.add(*self.pc)
            if s.check() == z3.sat:
                m = s.model()
                pend = []
                names = list(self.inputs)
                rng.shuffle(names)
                vals = {}
                for n in names:
                    t, kind, lo, hi = self.inputs[n]
                    if kind == "b":
                        vals[n] = t if rng.random() < 0.5 else z3.Not(t)
                    else:
                        v = _nice_value(rng, lo, hi, kind == "i")
                        if v is not None:
                            vals[n] = t == _const(v, kind)
                s.push()
                s.add(*vals.values())
                if s.check() == z3.sat:
                    m = s.model()
                else:
                    s.pop()
                    nice = self.nice_constraints()
                    s.push()
                    s.add(*nice)
                    if s.check() != z3.sat:
                        s.pop()
                    else:
                        m = s.model()
                    for n in names:
                        if n not in vals:
                            continue
                        s.push()
                        s.add(vals[n])
                        if s.check() == z3.sat:
                            m = s.model()
                        else:
                            s.pop()
        return self.model_inputs(m), m

    def eval_obs(self, m):
        out = []
        for lab, a, b in self.obs:
            row = [lab]
            for v in (a, b):
                l = lift(v)
                if l is None:
                    row.append(None)
                else:
                    c = const_value(z3.simplify(m.eval(l[0], model_completion=True)))
                    row.append(None if c is None else float(c))
            out.append(row)
        return out
