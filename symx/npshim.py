"""numpy / math / builtins stand-ins handed to the code under execution.

Everything not listed delegates to the real module; object arrays carry the symbolic elements."""
import builtins
import math
import types

import numpy as np
import z3

from .engine import (SymBool, SymNum, Unsupported, cur, has_sym, is_sym, ite, lift, mkb, rint,
                     to_real, trunc, _tofloat)


class SymArray(np.ndarray):
    """object array that remembers the numeric dtype it stands for ('f' or 'i')."""

    kind = None

    def __array_finalize__(self, obj):
        self.kind = getattr(obj, "kind", None)

    def __setitem__(self, key, value):
        if self.kind == "i":
            value = _coerce_int(value)
        np.ndarray.__setitem__(self, key, value)


def _coerce_int(v):
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return np.array([trunc(e) for e in v.flat], dtype=object).reshape(v.shape)
        return v.astype(int)
    if isinstance(v, (list, tuple)):
        return [_coerce_int(e) for e in v]
    return trunc(v)


def _kind(dtype, default="f"):
    if dtype is None:
        return default
    if dtype is builtins.float:
        return "f"
    if dtype is builtins.int:
        return "i"
    k = np.dtype(dtype).kind
    if k == "f":
        return "f"
    if k in "iu":
        return "i"
    return None


def _mkarr(shape, fill, kind):
    a = np.empty(shape, dtype=object).view(SymArray)
    np.ndarray.fill(a, fill)
    a.kind = kind
    return a


def obj1(values):
    a = np.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        a[i] = v
    return a


def _elementwise(fn):
    def f(*args):
        arrs = [a for a in args if isinstance(a, (np.ndarray, list, tuple))]
        if not arrs:
            return fn(*args)
        bc = np.broadcast_arrays(*[np.asarray(a, dtype=object) for a in args], subok=False)
        out = np.empty(bc[0].shape, dtype=object)
        for idx in np.ndindex(out.shape):
            out[idx] = fn(*[b[idx] for b in bc])
        return out

    return f


class _NS(types.ModuleType):
    def __init__(self, base):
        super().__init__(base.__name__)
        self.__dict__["_base"] = base

    def __getattr__(self, n):
        return getattr(self.__dict__["_base"], n)


class Angle:
    """times * phi, for an angle phi given by its sine and cosine."""

    def __init__(self, sin, cos, times):
        self.sin, self.cos, self.times = sin, cos, times

    def __mul__(self, f):
        return Angle(self.sin, self.cos, self.times * f)

    __rmul__ = __mul__

    def __truediv__(self, f):
        return Angle(self.sin, self.cos, self.times / f)

    def __neg__(self):
        return self * -1

    def sincos(self, part=1.0):
        """sine and cosine of part * this angle."""
        k = self.times * part
        if k != int(k) or abs(k) > 4:
            raise Unsupported("fraction of a symbolic angle")
        s, c = 0.0, 1.0
        for _ in range(abs(int(k))):
            s, c = s * self.cos + c * self.sin, c * self.cos - s * self.sin
        return (s, c) if k >= 0 else (-s, c)


def make_numpy():
    ns = _NS(np)

    def zeros(shape, dtype=None, order="C", **kw):
        k = _kind(dtype)
        if k == "f":
            return _mkarr(shape, 0.0, "f")
        if k == "i":
            return _mkarr(shape, 0, "i")
        return np.zeros(shape, dtype=dtype, order=order)

    def ones(shape, dtype=None, order="C", **kw):
        k = _kind(dtype)
        if k == "f":
            return _mkarr(shape, 1.0, "f")
        if k == "i":
            return _mkarr(shape, 1, "i")
        return np.ones(shape, dtype=dtype, order=order)

    def empty(shape, dtype=None, order="C", **kw):
        k = _kind(dtype)
        if k in ("f", "i"):
            return _mkarr(shape, 0.0 if k == "f" else 0, k)
        return np.empty(shape, dtype=dtype, order=order)

    def full(shape, fill_value, dtype=None, order="C", **kw):
        if dtype is None:
            l = lift(fill_value)
            k = l[1] if l is not None else None
        else:
            k = _kind(dtype)
        if k in ("f", "i"):
            return _mkarr(shape, trunc(fill_value) if k == "i" else _tofloat(fill_value), k)
        return np.full(shape, fill_value, dtype=dtype, order=order)

    def eye(n, m=None, k=0, dtype=float, **kw):
        a = zeros((n, m or n), dtype)
        one = 1 if _kind(dtype) == "i" else 1.0
        for i in range(n):
            if 0 <= i + k < (m or n):
                a[i, i + k] = one
        return a

    def _like(fn):
        def f(a, dtype=None, **kw):
            if dtype is None:
                dt = getattr(a, "dtype", None)
                if isinstance(a, SymArray):
                    dtype = int if a.kind == "i" else float
                elif dt is not None and dt != object:
                    dtype = dt
                else:
                    dtype = float
            return fn(np.shape(a), dtype)
        return f

    def array(obj, dtype=None, **kw):
        if has_sym(obj) or isinstance(obj, SymArray):
            k = _kind(dtype, None)
            a = np.array(obj, dtype=object, **{x: y for x, y in kw.items() if x != "subok"})
            if k == "i":
                a = _coerce_int(a)
            elif k == "f":
                a = np.array([_tofloat(e) for e in a.flat], dtype=object).reshape(a.shape)
            elif dtype not in (None, object):
                raise Unsupported("array dtype %r" % (dtype,))
            return a
        return np.array(obj, dtype=dtype, **kw)

    def asarray(obj, dtype=None, **kw):
        if isinstance(obj, np.ndarray) and dtype is None:
            return np.asarray(obj)
        if has_sym(obj) or isinstance(obj, SymArray):
            return array(obj, dtype)
        return np.asarray(obj, dtype=dtype, **kw)

    def fromiter(it, dtype=None, count=-1, **kw):
        lst = list(it)
        if count is not None and count >= 0:
            lst = lst[:count]
        if has_sym(lst):
            k = _kind(dtype)
            return obj1([trunc(e) if k == "i" else e for e in lst])
        return np.fromiter(lst, dtype=dtype)

    def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if not has_sym(a) and not has_sym(b) and not isinstance(a, SymArray) \
                and not isinstance(b, SymArray):
            return np.isclose(a, b, rtol, atol, equal_nan)
        return _elementwise(lambda x, y: abs(x - y) <= atol + rtol * abs(y))(a, b)

    def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        r = isclose(a, b, rtol, atol)
        return sall(r)

    def sall(r, axis=None, **kw):
        if not has_sym(r) and not isinstance(r, SymArray):
            return np.all(r, axis=axis, **kw)
        return cur().And(*[_b(e) for e in np.asarray(r, dtype=object).flat])

    def sany(r, axis=None, **kw):
        if not has_sym(r) and not isinstance(r, SymArray):
            return np.any(r, axis=axis, **kw)
        return cur().Or(*[_b(e) for e in np.asarray(r, dtype=object).flat])

    def _b(e):
        if type(e) is SymNum:
            return e != 0
        return e

    def norm(x, ord=None, axis=None, keepdims=False):
        if not has_sym(x) and not isinstance(x, SymArray):
            return np.linalg.norm(x, ord, axis, keepdims)
        if axis is not None:
            raise Unsupported("norm axis")
        fl = list(np.asarray(x, dtype=object).flat)
        if ord in (None, 2):
            s = 0.0
            for e in fl:
                s = s + e * e
            return s.sqrt() if is_sym(s) else math.sqrt(s)
        if ord == 1:
            return sum(abs(e) for e in fl)
        if ord == np.inf:
            return smax(*[abs(e) for e in fl])
        raise Unsupported("norm ord")

    def unary(name):
        real = getattr(np, name)

        def f(x, *a, **kw):
            if isinstance(x, SymArray) or has_sym(x):
                def one(e):
                    if is_sym(e):
                        return getattr(e, name)()
                    return real(e)
                return _elementwise(one)(x)
            return real(x, *a, **kw)
        return f

    def finite(val):
        real = getattr(np, val)

        def f(x, *a, **kw):
            if isinstance(x, SymArray) or has_sym(x):
                return _elementwise(lambda e: (val == "isfinite") if is_sym(e) else bool(real(e)))(x)
            return real(x, *a, **kw)
        return f

    def rnd(x, decimals=0, out=None):
        if isinstance(x, SymArray) or has_sym(x):
            return _elementwise(
                lambda e: e.__round__(decimals) if is_sym(e) and decimals
                else (rint(e, "i" if lift(e)[1] == "i" else "f")))(x)
        return np.round(x, decimals)

    def logical_not(x, *a, **kw):
        if has_sym(x):
            return _elementwise(lambda e: cur().Not(_b(e)) if is_sym(e) else (not e))(x)
        return np.logical_not(x, *a, **kw)

    def maximum(a, b, **kw):
        if has_sym(a) or has_sym(b):
            return _elementwise(smax)(a, b)
        return np.maximum(a, b, **kw)

    def minimum(a, b, **kw):
        if has_sym(a) or has_sym(b):
            return _elementwise(smin)(a, b)
        return np.minimum(a, b, **kw)

    def clip(a, lo, hi, **kw):
        if has_sym(a):
            return _elementwise(lambda e: smin(smax(e, lo), hi))(a)
        return np.clip(a, lo, hi, **kw)

    def count_nonzero(a, axis=None, **kw):
        if has_sym(a) and axis is None:
            s = 0
            for e in np.asarray(a, dtype=object).flat:
                s = s + (1 if (e != 0) else 0)
            return s
        return np.count_nonzero(a, axis=axis, **kw)

    def scalar(cls, conv):
        class M(type):
            def __instancecheck__(c, x):
                return isinstance(x, cls)

            def __subclasscheck__(c, x):
                return issubclass(x, cls)

            def __call__(c, x=0, *a):
                return conv(x) if is_sym(x) else cls(x, *a)

            def __eq__(c, o):
                return o is cls or o is c

            def __hash__(c):
                return hash(cls)

        return M(cls.__name__, (), {"dtype": np.dtype(cls)})

    ns.zeros, ns.ones, ns.empty, ns.full, ns.eye = zeros, ones, empty, full, eye
    ns.identity = lambda n, dtype=float: eye(n, dtype=dtype)
    ns.zeros_like, ns.ones_like, ns.empty_like = _like(zeros), _like(ones), _like(empty)
    ns.array, ns.asarray, ns.asanyarray, ns.fromiter = array, asarray, asarray, fromiter
    ns.isclose, ns.allclose, ns.all, ns.any = isclose, allclose, sall, sany
    for n in ("sqrt", "floor", "ceil", "rint", "log2"):
        setattr(ns, n, unary(n))
    for n in ("isfinite", "isnan", "isinf"):
        setattr(ns, n, finite(n))
    ns.abs = ns.absolute = lambda x, *a, **k: (
        x.__abs__() if hasattr(x, "tocoo") and not a and not k else np.abs(x, *a, **k))

    def hypot(x, y):
        if is_sym(x) or is_sym(y):
            s = x * x + y * y
            return s.sqrt() if is_sym(s) else math.sqrt(s)
        return np.hypot(x, y)

    ns.hypot = hypot

    def inverse(which):
        real = getattr(np, which)

        def f(x, *a, **kw):
            if is_sym(x):
                o = (1 - x * x)
                o = o.sqrt() if is_sym(o) else math.sqrt(o)
                return Angle(x, o, 1) if which == "arcsin" else Angle(o, x, 1)
            return real(x, *a, **kw)
        return f

    def result_type(*a):
        return np.result_type(*[(np.dtype(int) if lift(e)[1] == "i" else np.dtype(float)) if is_sym(e) else
                                (np.dtype(int) if e.kind == "i" else np.dtype(float)) if isinstance(e, SymArray) else e
                                for e in a])

    ns.result_type = result_type
    ns.arcsin, ns.arccos = inverse("arcsin"), inverse("arccos")
    ns.round = ns.around = ns.round_ = rnd
    ns.logical_not = logical_not
    ns.maximum, ns.minimum, ns.clip = maximum, minimum, clip
    ns.count_nonzero = count_nonzero
    lin = _NS(np.linalg)
    lin.norm = norm

    def plain(fn):
        # numeric routines refuse object arrays; one that holds no symbolic value is a plain array
        def f(a, *r, **kw):
            if isinstance(a, np.ndarray) and a.dtype == object and not has_sym(a.ravel().tolist()):
                a = a.astype(complex if any(isinstance(e, complex) for e in a.flat) else float)
            return fn(a, *r, **kw)
        return f

    for n in ("cholesky", "eigh", "eigvalsh", "eig", "eigvals", "qr", "svd", "inv", "det", "matrix_rank"):
        setattr(lin, n, plain(getattr(np.linalg, n)))
    ns.linalg = lin
    return ns


# ---- builtins --------------------------------------------------------------------------------
def _mm(real, lt):
    def f(*args, key=None, **kw):
        if key is not None:
            return real(*args, key=key, **kw)
        seq = list(args[0]) if len(args) == 1 else list(args)
        if not seq:
            return real(seq, **kw)
        if not any(is_sym(e) for e in seq) or not all(lift(e) is not None for e in seq):
            return real(seq)
        r = seq[0]
        for e in seq[1:]:
            r = ite(lt(e, r), e, r)
        return r

    return f


smin = _mm(builtins.min, lambda a, b: a < b)
smax = _mm(builtins.max, lambda a, b: a > b)


def sx_int(*a):
    if len(a) == 1 and is_sym(a[0]):
        return trunc(a[0])
    return builtins.int(*a)


def sx_float(*a):
    if len(a) == 1 and is_sym(a[0]):
        return _tofloat(a[0])
    return builtins.float(*a)


def sx_bool(*a):
    if len(a) == 1 and type(a[0]) is SymBool:
        return a[0]
    if len(a) == 1 and type(a[0]) is SymNum:
        return a[0] != 0
    return builtins.bool(*a)


class SymSet:
    """a set some of whose elements are symbolic numbers: equality is decided instead of hashing."""

    def __init__(self, it=()):
        self.items = []
        self.update(it)

    def add(self, v):
        if v not in self:
            self.items.append(v)

    def update(self, *its):
        for it in its:
            for v in it:
                self.add(v)

    def __contains__(self, v):
        return any(v is e or bool(_eq(v, e)) for e in self.items)

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def discard(self, v):
        self.items = [e for e in self.items if not (v is e or bool(_eq(v, e)))]

    def remove(self, v):
        if v not in self:
            raise KeyError(v)
        self.discard(v)

    def copy(self):
        r = SymSet()
        r.items = list(self.items)
        return r

    def union(self, *o):
        r = self.copy()
        r.update(*o)
        return r

    def intersection(self, o):
        o = SymSet(o)
        return SymSet(v for v in self.items if v in o)

    def difference(self, o):
        o = SymSet(o)
        return SymSet(v for v in self.items if v not in o)

    __or__ = __ror__ = union
    __and__ = __rand__ = intersection
    __sub__ = difference

    def issubset(self, o):
        o = SymSet(o)
        return all(v in o for v in self.items)

    __le__ = issubset

    def __eq__(self, o):
        return isinstance(o, (set, frozenset, SymSet)) and len(self) == len(o) and self.issubset(o)

    __hash__ = None


def _eq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(bool(_eq(x, y)) for x, y in zip(a, b))
    return a == b


def sx_set(*a):
    if a:
        items = list(a[0])
        if has_sym([e for v in items for e in (v if isinstance(v, tuple) else (v,))]):
            return SymSet(items)
        return builtins.set(items)
    return builtins.set()


def sx_not(x):
    """`not x` that keeps a symbolic bool symbolic."""
    if type(x) is SymBool:
        return mkb(z3.Not(x.t))
    return not x


def make_math():
    ns = _NS(math)

    def misclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
        if not is_sym(a) and not is_sym(b):
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        return abs(a - b) <= smax(rel_tol * smax(abs(a), abs(b)), abs_tol)

    def fsum(it):
        lst = list(it)
        if not has_sym(lst):
            return math.fsum(lst)
        s = 0.0
        for e in lst:
            s = s + e
        return s

    ns.isclose, ns.fsum = misclose, fsum
    ns.floor = lambda x: x.__floor__() if is_sym(x) else math.floor(x)
    ns.ceil = lambda x: x.__ceil__() if is_sym(x) else math.ceil(x)
    ns.sqrt = lambda x: x.sqrt() if is_sym(x) else math.sqrt(x)
    ns.fabs = lambda x: _tofloat(abs(x)) if is_sym(x) else math.fabs(x)
    ns.trunc = lambda x: trunc(x)
    ns.isnan = lambda x: False if is_sym(x) else math.isnan(x)
    ns.isinf = lambda x: False if is_sym(x) else math.isinf(x)
    ns.isfinite = lambda x: True if is_sym(x) else math.isfinite(x)
    ns.log2 = lambda x: x.log2() if is_sym(x) else math.log2(x)

    def prod(it, *, start=1):
        r = start
        for e in it:
            r = r * e
        return r

    ns.prod = prod
    return ns
