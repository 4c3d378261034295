"""Pure python model of the part of scipy.sparse that the code under execution uses.

Entries hold python / numpy / symbolic numbers.  A stored value may be symbolically zero; whether it
is stored at all only becomes observable through iteration / nnz / membership, and is forked there."""
import types

import numpy as np
import scipy.sparse as real_sparse

from .engine import SymNum, Unsupported, has_sym, is_sym, lift, trunc, _tofloat
from .npshim import SymArray, _mkarr, obj1


def _kind_of(v):
    l = lift(v)
    if l is None:
        raise Unsupported("sparse element %r" % (v,))
    return l[1]


def _dt(kind):
    return np.dtype("int64") if kind == "i" else np.dtype("float64")


def _zero(kind):
    return 0 if kind == "i" else 0.0


class spmatrix:
    __array_ufunc__ = None
    __array_priority__ = 10.1
    format = "dok"
    ndim = 2

    def __init__(self, arg1, shape=None, dtype=None, copy=False):
        self._d, self._e = {}, {}
        self.kind = "f" if dtype is None else {"f": "f", "i": "i", "u": "i", "b": "i"}.get(
            np.dtype(dtype).kind)
        if self.kind is None:
            raise Unsupported("sparse dtype %r" % (dtype,))
        if isinstance(arg1, spmatrix):
            self.shape = arg1.shape
            self.kind = arg1.kind if dtype is None else self.kind
            self._d, self._e = dict(arg1._d), dict(arg1._e)
            if dtype is not None:
                self._d = {k: self._cast(v) for k, v in self._d.items()}
        elif real_sparse.issparse(arg1):
            a = arg1.todok()
            self.shape = a.shape
            if dtype is None:
                self.kind = "i" if a.dtype.kind in "iub" else "f"
            for k, v in a.items():
                self._d[k] = self._cast(v)
        elif isinstance(arg1, tuple) and len(arg1) == 2 and all(
                isinstance(e, (int, np.integer)) for e in arg1):
            self.shape = (int(arg1[0]), int(arg1[1]))
        elif isinstance(arg1, tuple) and len(arg1) == 2 and isinstance(arg1[1], tuple):
            data, (rows, cols) = arg1
            data, rows, cols = list(data), [int(r) for r in rows], [int(c) for c in cols]
            if dtype is None and data:
                self.kind = "i" if all(_kind_of(v) == "i" for v in data) else "f"
            if shape is None:
                shape = (max(rows) + 1, max(cols) + 1)
            self.shape = tuple(int(s) for s in shape)
            for v, r, c in zip(data, rows, cols):
                k = (r, c)
                v = self._cast(v)
                self._put(k, self._d[k] + v if k in self._d else v)
        elif isinstance(arg1, tuple):
            raise Unsupported("sparse constructor %r" % (arg1,))
        else:
            arr = arg1 if isinstance(arg1, np.ndarray) else np.asarray(arg1)
            if arr.ndim == 1:
                arr = arr.reshape(1, -1)
            if arr.ndim == 0:
                arr = arr.reshape(1, 1)
            if arr.ndim != 2:
                raise TypeError("Expected rank <=2 dense array or matrix.")
            self.shape = arr.shape
            if dtype is None:
                if arr.dtype == object:
                    if isinstance(arr, SymArray) and arr.kind:
                        self.kind = arr.kind
                    else:
                        self.kind = "i" if arr.size and all(
                            _kind_of(v) == "i" for v in arr.flat) else "f"
                else:
                    self.kind = "i" if arr.dtype.kind in "iub" else "f"
                    if arr.dtype.kind == "c":
                        raise Unsupported("complex sparse")
            for (i, j), v in np.ndenumerate(arr):
                self._put((int(i), int(j)), self._cast(v))

    # -- helpers
    def _cast(self, v):
        if isinstance(v, np.ndarray):
            v = v.item()
        if isinstance(v, np.generic):
            v = v.item()
        if lift(v) is None:
            if isinstance(v, (float,)):
                raise Unsupported("non-finite sparse element")
            raise TypeError("float() argument must be a string or a real number, not %r" % type(v).__name__)
        return trunc(v) if self.kind == "i" else _tofloat(v)

    def _put(self, k, v):
        self._e.pop(k, None)
        if not is_sym(v) and v == 0:
            self._d.pop(k, None)
        else:
            self._d[k] = v
            self._e.pop(k, None)

    def _settle(self):
        """decide which stored entries are really non-zero (forks)."""
        for k in list(self._d):
            v = self._d[k]
            if is_sym(v) and not (v != 0):
                if k in self._e and any(w != 0 for w in self._e[k]):
                    self._d[k], self._e[k] = _zero(self.kind), (1,)  # an explicit zero
                else:
                    del self._d[k]
                    self._e.pop(k, None)

    @classmethod
    def _new(cls, shape, kind, d, e=None):
        """e: entries that are stored as zeros if they are zero, provided that one of the given numbers is not."""
        m = cls.__new__(cls)
        m.shape, m.kind, m._d, m._e = shape, kind, {}, {}
        for k, v in d.items():
            if e and k in e:
                w = tuple(x for x in e[k] if is_sym(x) or x != 0)
                if not is_sym(v) and v == 0:
                    if not w:
                        continue
                    # stored or not: the value is a symbolic zero only if that is still open
                    if all(is_sym(x) for x in w) and not any(bool(x != 0) for x in w):
                        continue
                    w = (1,)
                m._d[k] = v
                if w:
                    m._e[k] = w
            else:
                m._put(k, v)
        return m

    def _present(self, k):
        """numbers of which one is not zero exactly if the entry is stored."""
        return self._e.get(k, ()) + (self._d[k],)

    @property
    def dtype(self):
        return _dt(self.kind)

    # -- conversions
    def _conv(self, cls, copy):
        if type(self) is cls and not copy:
            return self
        return cls._new(self.shape, self.kind, self._d, self._e)

    def todok(self, copy=False):
        return self._conv(dok_matrix, copy)

    def tocsr(self, copy=False):
        return self._conv(csr_matrix, copy)

    def tocsc(self, copy=False):
        return self._conv(csc_matrix, copy)

    def tocoo(self, copy=True):
        return self._conv(coo_matrix, copy)

    def tolil(self, copy=False):
        return self._conv(lil_matrix, copy)

    def asformat(self, fmt, copy=False):
        if fmt is None or fmt == self.format:
            return self.copy() if copy else self
        return getattr(self, "to" + fmt)(copy=copy)

    def astype(self, dtype, casting="unsafe", copy=True):
        return type(self)(self, dtype=dtype)

    def copy(self):
        return type(self)._new(self.shape, self.kind, self._d, self._e)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def toarray(self, order=None, out=None):
        a = _mkarr(self.shape, _zero(self.kind), self.kind)
        for k, v in self._d.items():
            np.ndarray.__setitem__(a, k, v)
        return a

    def todense(self, order=None, out=None):
        return self.toarray()

    @property
    def A(self):
        return self.toarray()

    # -- dict interface (dok)
    def items(self):
        self._settle()
        return list(self._d.items())

    def keys(self):
        self._settle()
        return list(self._d.keys())

    def values(self):
        self._settle()
        return list(self._d.values())

    def get(self, key, default=0.0):
        i, j = key
        if not (0 <= i < self.shape[0] and 0 <= j < self.shape[1]):
            raise IndexError("Index out of bounds.")
        if key in self:
            return self._d[key]
        return default

    def __contains__(self, key):
        key = tuple(int(k) for k in key)
        if key not in self._d:
            return False
        return any(bool(v != 0) for v in self._present(key)[::-1])

    @property
    def nnz(self):
        self._settle()
        return len(self._d)

    def getnnz(self, axis=None):
        if axis is not None:
            raise Unsupported("getnnz(axis)")
        return self.nnz

    def count_nonzero(self):
        self._settle()
        return sum(1 for v in self._d.values() if is_sym(v) or v != 0)

    def __len__(self):
        if self.format == "dok":
            return self.nnz
        raise TypeError("sparse matrix length is ambiguous; use getnnz()")

    def __bool__(self):
        if self.shape == (1, 1):
            return bool(self.nnz != 0)
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __iter__(self):
        for r in range(self.shape[0]):
            yield self[r, :]

    def nonzero(self):
        self._settle()
        ks = sorted(k for k, v in self._d.items() if is_sym(v) or v != 0)
        return (np.array([k[0] for k in ks], dtype=int), np.array([k[1] for k in ks], dtype=int))

    # coo/csr attributes
    @property
    def row(self):
        self._settle()
        return np.array([k[0] for k in self._d], dtype=int)

    @property
    def col(self):
        self._settle()
        return np.array([k[1] for k in self._d], dtype=int)

    @property
    def data(self):
        self._settle()
        if self.format in ("csr",):
            return obj1([self._d[k] for k in sorted(self._d)])
        if self.format in ("csc",):
            return obj1([self._d[k] for k in sorted(self._d, key=lambda k: k[::-1])])
        return obj1(list(self._d.values()))

    @property
    def indices(self):
        self._settle()
        if self.format == "csr":
            return np.array([k[1] for k in sorted(self._d)], dtype=int)
        if self.format == "csc":
            return np.array([k[0] for k in sorted(self._d, key=lambda k: k[::-1])], dtype=int)
        raise AttributeError("indices")

    @property
    def indptr(self):
        self._settle()
        ax = {"csr": 0, "csc": 1}.get(self.format)
        if ax is None:
            raise AttributeError("indptr")
        cnt = np.zeros(self.shape[ax] + 1, dtype=int)
        for k in self._d:
            cnt[k[ax] + 1] += 1
        return np.cumsum(cnt)

    def eliminate_zeros(self):
        self._settle()
        for k in [k for k, v in self._d.items() if not is_sym(v) and v == 0]:
            self._put(k, 0)
        self._e = {}

    def sum_duplicates(self):
        pass

    # -- indexing
    def _index(self, key):
        if not isinstance(key, tuple):
            key = (key, slice(None))
        if len(key) != 2:
            raise IndexError("invalid index")
        out = []
        for k, n in zip(key, self.shape):
            if isinstance(k, slice):
                out.append(range(*k.indices(n)))
            elif isinstance(k, (int, np.integer)) or is_sym(k):
                k = k.__index__()
                if not -n <= k < n:
                    raise IndexError("index (%d) out of range" % k)
                out.append(k % n)
            elif isinstance(k, (list, np.ndarray)):
                out.append([int(e) for e in k])
            else:
                raise IndexError("only integers, slices supported: %r" % (k,))
        return out

    def __getitem__(self, key):
        i, j = self._index(key)
        if isinstance(i, int) and isinstance(j, int):
            return self._d.get((i, j), _zero(self.kind))
        ri = [i] if isinstance(i, int) else list(i)
        rj = [j] if isinstance(j, int) else list(j)
        d = {}
        for a, x in enumerate(ri):
            for b, y in enumerate(rj):
                if (x, y) in self._d:
                    d[a, b] = self._d[x, y]
        return type(self)._new((len(ri), len(rj)), self.kind, d)

    def __setitem__(self, key, value):
        i, j = self._index(key)
        if isinstance(i, int) and isinstance(j, int):
            self._put((i, j), self._cast(value))
            return
        ri = [i] if isinstance(i, int) else list(i)
        rj = [j] if isinstance(j, int) else list(j)
        if isinstance(value, spmatrix):
            value = value.toarray()
        arr = np.broadcast_to(np.asarray(value, dtype=object), (len(ri), len(rj)))
        for a, x in enumerate(ri):
            for b, y in enumerate(rj):
                self._put((x, y), self._cast(arr[a, b]))

    def __delitem__(self, key):
        del self._d[key]
        self._e.pop(key, None)

    def update(self, *a):
        raise NotImplementedError("Direct modification to dok_matrix element is not allowed.")

    def _update(self, data):
        for k, v in (data.items() if hasattr(data, "items") else data):
            self._d[k] = v
            self._e.pop(k, None)

    def setdefault(self, *a):
        raise Unsupported("setdefault")

    # -- algebra
    def transpose(self, axes=None, copy=False):
        return type(self)._new((self.shape[1], self.shape[0]), self.kind,
                               {(j, i): v for (i, j), v in self._d.items()}, {(j, i): w for (i, j), w in self._e.items()})

    @property
    def T(self):
        return self.transpose()

    def _outcls(self):
        return csr_matrix

    def _addsub(self, o, sign):
        if isinstance(o, spmatrix):
            if o.shape != self.shape:
                raise ValueError("inconsistent shapes")
            kind = "i" if self.kind == "i" and o.kind == "i" else "f"
            d = dict(self._d)
            for k, v in o._d.items():
                d[k] = (d[k] + sign * v) if k in d else sign * v
            if sign > 0 and self.format == o.format == "dok":  # scipy's dok + dok keeps sums that are zero
                e = {k: (self._present(k) if k in self._d else ()) + (o._present(k) if k in o._d else ()) for k in d
                     if k in self._d and k in o._d or k in self._e or k in o._e}
                return dok_matrix._new(self.shape, kind, d, e)
            return self._outcls()._new(self.shape, kind, d)
        if isinstance(o, np.ndarray):
            return self.toarray() + o if sign > 0 else self.toarray() - o
        if not is_sym(o) and np.isscalar(o) and o == 0:
            return self.copy()
        return NotImplemented

    def __add__(self, o):
        return self._addsub(o, 1)

    def __radd__(self, o):
        return self._addsub(o, 1)

    def __sub__(self, o):
        return self._addsub(o, -1)

    def __rsub__(self, o):
        if isinstance(o, np.ndarray):
            return o - self.toarray()
        if not is_sym(o) and np.isscalar(o) and o == 0:
            return -self
        return NotImplemented

    def __neg__(self):
        return type(self)._new(self.shape, self.kind, {k: -v for k, v in self._d.items()}, self._e)

    def __abs__(self):
        return csr_matrix._new(self.shape, self.kind, {k: abs(v) for k, v in self._d.items()})

    def _scale(self, s):
        kind = "i" if self.kind == "i" and _kind_of(s) == "i" else "f"
        e = {k: self._present(k) for k in self._d} if is_sym(s) or s == 0 else self._e
        return type(self)._new(self.shape, kind, {k: v * s for k, v in self._d.items()}, e)

    def __mul__(self, o):
        if lift(o) is not None:
            return self._scale(o)
        return self.__matmul__(o)

    def __rmul__(self, o):
        if lift(o) is not None:
            return self._scale(o)
        return self.__rmatmul__(o)

    def __truediv__(self, o):
        l = lift(o)
        if l is not None:
            if self.format == "dok" and self.kind == "i" and l[1] == "i":
                # scipy's dok keeps the integer type here; the values get truncated on conversion
                return type(self)._new(self.shape, "i", {k: trunc(v / o) for k, v in self._d.items()})
            return type(self)._new(self.shape, "f", {k: v / o for k, v in self._d.items()}, self._e)
        return NotImplemented

    def multiply(self, o):
        if lift(o) is not None:
            return self._scale(o)
        if isinstance(o, spmatrix):
            kind = "i" if self.kind == "i" and o.kind == "i" else "f"
            return csr_matrix._new(self.shape, kind, {
                k: v * o._d[k] for k, v in self._d.items() if k in o._d})
        arr = np.broadcast_to(np.asarray(o, dtype=object), self.shape)
        return coo_matrix._new(self.shape, "f", {k: v * arr[k] for k, v in self._d.items()})

    def __matmul__(self, o):
        if isinstance(o, spmatrix):
            if self.shape[1] != o.shape[0]:
                raise ValueError("dimension mismatch")
            kind = "i" if self.kind == "i" and o.kind == "i" else "f"
            d = {}
            for (i, k), v in self._d.items():
                for (k2, j), w in o._d.items():
                    if k == k2:
                        d[i, j] = d[i, j] + v * w if (i, j) in d else v * w
            return self._outcls()._new((self.shape[0], o.shape[1]), kind, d)
        if isinstance(o, (list, tuple)):
            o = np.asarray(o)
        if isinstance(o, np.ndarray):
            if o.ndim == 1:
                if o.shape[0] != self.shape[1]:
                    raise ValueError("dimension mismatch")
                r = [_zero(self.kind)] * self.shape[0]
                for (i, j), v in self._d.items():
                    r[i] = r[i] + v * o[j]
                return obj1(r)
            if o.ndim == 2:
                if o.shape[0] != self.shape[1]:
                    raise ValueError("dimension mismatch")
                r = _mkarr((self.shape[0], o.shape[1]), _zero(self.kind), None)
                for (i, j), v in self._d.items():
                    for c in range(o.shape[1]):
                        r[i, c] = r[i, c] + v * o[j, c]
                return r
        if lift(o) is not None:
            raise ValueError("Scalar operands are not allowed, use '*' instead")
        return NotImplemented

    def dot(self, o):
        if lift(o) is not None:
            return self._scale(o)
        return self @ o

    def __rmatmul__(self, o):
        if isinstance(o, (list, tuple)):
            o = np.asarray(o)
        if isinstance(o, np.ndarray):
            if o.ndim == 1:
                return self.transpose() @ o
            return (self.transpose() @ o.T).T
        return NotImplemented

    def sum(self, axis=None, dtype=None, out=None):
        if axis is None:
            s = _zero(self.kind)
            for v in self._d.values():
                s = s + v
            return s
        if axis in (0, -2):
            r = _mkarr((1, self.shape[1]), _zero(self.kind), None)
            for (i, j), v in self._d.items():
                r[0, j] = r[0, j] + v
            return r
        r = _mkarr((self.shape[0], 1), _zero(self.kind), None)
        for (i, j), v in self._d.items():
            r[i, 0] = r[i, 0] + v
        return r

    def diagonal(self, k=0):
        n = min(self.shape[0], self.shape[1])
        return obj1([self._d.get((i, i + k), _zero(self.kind)) for i in range(n)
                     if 0 <= i + k < self.shape[1]])

    def setdiag(self, values, k=0):
        n = min(self.shape)
        vals = np.broadcast_to(np.asarray(values, dtype=object), (n,))
        for i in range(n):
            self._put((i, i + k), self._cast(vals[i]))

    def reshape(self, *a, **k):
        raise Unsupported("sparse reshape")

    def max(self, axis=None):
        raise Unsupported("sparse max")

    def min(self, axis=None):
        raise Unsupported("sparse min")

    def __eq__(self, o):
        raise Unsupported("sparse comparison")

    def __ne__(self, o):
        if isinstance(o, spmatrix) and o.shape == self.shape:
            d = self - o
            return csr_matrix._new(self.shape, "i", {k: 1 for k, v in d.items()})
        raise Unsupported("sparse comparison")

    __hash__ = None

    def __repr__(self):
        return "<%s model %r>" % (self.format, self.shape)


class dok_matrix(spmatrix):
    format = "dok"


class csr_matrix(spmatrix):
    format = "csr"


class csc_matrix(spmatrix):
    format = "csc"


class coo_matrix(spmatrix):
    format = "coo"


class lil_matrix(spmatrix):
    format = "lil"


def _wrap(A):
    return A if isinstance(A, spmatrix) else coo_matrix(A)


def tril(A, k=0, format=None):
    A = _wrap(A)
    r = coo_matrix._new(A.shape, A.kind, {(i, j): v for (i, j), v in A._d.items() if j - i <= k}, A._e)
    return r.asformat(format)


def triu(A, k=0, format=None):
    A = _wrap(A)
    r = coo_matrix._new(A.shape, A.kind, {(i, j): v for (i, j), v in A._d.items() if j - i >= k}, A._e)
    return r.asformat(format)


def issparse(x):
    return isinstance(x, spmatrix) or real_sparse.issparse(x)


def _fmt(fmt):
    return {"dok": dok_matrix, "csr": csr_matrix, "csc": csc_matrix, "coo": coo_matrix,
            "lil": lil_matrix}[fmt or "csr"]


def eye(m, n=None, k=0, dtype=float, format=None):
    n = m if n is None else n
    kind = "i" if np.dtype(dtype).kind in "iu" else "f"
    return _fmt(format)._new((m, n), kind, {(i, i + k): (1 if kind == "i" else 1.0)
                                            for i in range(m) if 0 <= i + k < n})


def diags(*a, **k):
    raise Unsupported("sparse.diags")


def make_module():
    m = types.ModuleType("scipy.sparse")
    for k, v in globals().items():
        if k in ("spmatrix dok_matrix csr_matrix csc_matrix coo_matrix lil_matrix tril triu issparse "
                 "eye diags").split():
            setattr(m, k, v)
    m.isspmatrix = issparse
    m.identity = lambda n, dtype="d", format=None: eye(n, dtype=dtype, format=format)
    m.isspmatrix_dok = lambda x: isinstance(x, dok_matrix)
    m.isspmatrix_csr = lambda x: isinstance(x, csr_matrix)
    # array flavours / anything else: not modelled

    def __getattr__(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("scipy.sparse.%s is not modelled" % name)

    m.__getattr__ = __getattr__
    return m
