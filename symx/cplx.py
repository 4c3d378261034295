"""symbolic complex numbers (pairs of symbolic reals) and arrays of them."""
import numpy as np
import z3

from .engine import SymNum, SymBool, Unsupported, is_sym, lift, mk, to_real


def parts(v):
    if type(v) is SymComplex:
        return v.re, v.im
    if isinstance(v, (complex, np.complexfloating)):
        return float(v.real), float(v.imag)
    if is_sym(v) or isinstance(v, (int, float, np.number)):
        return v, 0
    return None


def _norm(v):
    if is_sym(v):
        t = z3.simplify(to_real(lift(v)[0]), som=True)
        return mk(t, "f")
    return v


def make(re, im):
    """collapses to a real number if the imaginary part vanishes."""
    im = _norm(im)
    if not is_sym(im) and im == 0:
        return re
    return SymComplex(re, im)


class SymComplex:
    __slots__ = ("re", "im")
    symbolic_complex = True

    def __init__(self, re, im):
        self.re, self.im = re, im

    @property
    def __class__(self):
        return complex

    def __repr__(self):
        return "<symc>"

    def __format__(self, spec):
        return "<symc>"

    def __hash__(self):
        raise Unsupported("hash of a symbolic complex value")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return SymComplex(self.re, -self.im)

    conj = conjugate

    def item(self):
        return self

    def __add__(self, o):
        p = parts(o)
        return NotImplemented if p is None else make(self.re + p[0], self.im + p[1])

    __radd__ = __add__

    def __sub__(self, o):
        p = parts(o)
        return NotImplemented if p is None else make(self.re - p[0], self.im - p[1])

    def __rsub__(self, o):
        p = parts(o)
        return NotImplemented if p is None else make(p[0] - self.re, p[1] - self.im)

    def __mul__(self, o):
        p = parts(o)
        if p is None:
            return NotImplemented
        return make(self.re * p[0] - self.im * p[1], self.re * p[1] + self.im * p[0])

    __rmul__ = __mul__

    def __truediv__(self, o):
        p = parts(o)
        if p is None:
            return NotImplemented
        if not is_sym(p[1]) and p[1] == 0:
            return make(self.re / p[0], self.im / p[0])
        n = p[0] * p[0] + p[1] * p[1]
        q = self * SymComplex(p[0], -p[1])
        a, b = parts(q)
        return make(a / n, b / n)

    def __rtruediv__(self, o):
        p = parts(o)
        return NotImplemented if p is None else SymComplex(p[0], p[1]) / self

    def __neg__(self):
        return SymComplex(-self.re, -self.im)

    def __pos__(self):
        return self

    def __abs__(self):
        s = self.re * self.re + self.im * self.im
        return s.sqrt() if is_sym(s) else float(s) ** 0.5

    def __pow__(self, o):
        if isinstance(o, (int, float, np.integer, np.floating)) and float(o).is_integer() and 0 <= o <= 8:
            r = 1
            for _ in range(int(o)):
                r = self * r
            return r
        raise Unsupported("power of a symbolic complex value")

    def __eq__(self, o):
        p = parts(o)
        if p is None:
            return NotImplemented
        a, b = self.re == p[0], self.im == p[1]
        if a is False or b is False:
            return False
        if a is True:
            return b
        return a if b is True else SymBool(z3.And(a.t, b.t))

    def __ne__(self, o):
        e = self.__eq__(o)
        if e is NotImplemented or isinstance(e, bool) and type(e) is bool:
            return e if e is NotImplemented else not e
        return SymBool(z3.Not(e.t))

    def __bool__(self):
        return bool(self != 0)

    def _no(self, *a):
        raise TypeError("ordering of complex numbers")

    __lt__ = __le__ = __gt__ = __ge__ = _no

    def __float__(self):
        raise TypeError("can't convert complex to float")

    __int__ = __float__

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")


class ComplexArray(np.ndarray):
    """object array with complex entries: real, imag and conj look at the entries."""

    def _each(self, f):
        out = np.empty(self.shape, dtype=object)
        for i in np.ndindex(*self.shape):
            out[i] = f(np.ndarray.__getitem__(self, i))
        return out

    @property
    def real(self):
        return self._each(lambda e: e.real)

    @property
    def imag(self):
        return self._each(lambda e: e.imag)


def carray(values):
    a = np.empty(len(values), dtype=object).view(ComplexArray)
    for i, v in enumerate(values):
        np.ndarray.__setitem__(a, i, v)
    return a
