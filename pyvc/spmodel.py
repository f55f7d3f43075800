"""pyvc.spmodel - scipy.sparse matrices as (value, stored) functions of (row, column); trusted contracts of scipy.sparse"""
import types
import z3
from .core import *
from .core import E
from . import rt
from .rt import VSeq, VList, slice_bounds, smax, is_symseq, iter_
from .npmodel import (Arr, NZ, NZPair, as_arr, as_dtype, cast, float64, int64, int32, promote, sel, sum_over, check_bounds, wrap_index, isscalar, need_same_shape,
                      matmul, as_index, is_one, broadcast_to, npdiv, DType, np, cellfn)


class Buf:
    """the stored values: mutable, shared between matrices that share memory"""

    def __init__(self, val, stored):
        self.val, self.stored = val, stored
        self.memo = {}
        self.stamp, self.mut = next(E.counter), -1


class SpM:
    """sparse matrix; cell (i, j) is val(i, j) where stored(i, j), else 0"""
    is_model = True
    is_sparse = True
    __array_ufunc__ = None
    __array_priority__ = 1e7
    __hash__ = object.__hash__
    ndim = 2

    def __init__(self, shape, val, stored, fmt="csr", dtype=float64, buf=None):
        self.shape = tuple(shape)
        self.buf = buf if buf is not None else Buf(val, stored)
        self.fmt, self.dtype = fmt, dtype
        self.sorted = False

    @property
    def format(self):
        return self.fmt

    def stored(self, i, j):
        i, j = (SInt(x) if z3.is_expr(x) else x for x in (i, j))
        return self.buf.stored(i, j)

    def at(self, i, j):
        return self.snapshot()(i, j)

    def snapshot(self):
        buf = self.buf
        if E.since:
            rt.fresh_read(buf)
        val, stored, memo = buf.val, buf.stored, buf.memo
        zero = 0.0 if self.dtype.kind_ == "f" else 0

        def read(i, j):
            i, j = (SInt(x) if z3.is_expr(x) else x for x in (i, j))
            key = (term(i).get_id(), term(j).get_id())
            if key in memo:
                return memo[key][0]
            v = sel(stored(i, j), val(i, j), zero)
            if not E.sub:
                memo[key] = (v, i, j)
            return v
        return read

    def raw(self):
        b = self.buf
        return b.val, b.stored

    def v_isinstance(self, t):
        if isinstance(t, SpClass):
            return t.fmt is None or t.fmt == self.fmt
        return t is object

    # ---- conversions
    def _new(self, val, stored, shape=None, fmt=None, dtype=None):
        return SpM(shape or self.shape, val, stored, fmt or self.fmt, dtype or self.dtype)

    def copy(self):
        v, s = self.raw()
        return self._new(v, s)

    def _to(self, fmt, copy=False):
        if fmt == self.fmt and not copy:
            return self
        v, s = self.raw()
        return self._new(v, s, fmt=fmt)

    def tocsr(self, copy=False): return self._to("csr", copy)
    def tocsc(self, copy=False): return self._to("csc", copy)
    def tocoo(self, copy=False): return self._to("coo", copy)
    def tolil(self, copy=False): return self._to("lil", copy)
    def asformat(self, f, copy=False): return self._to(f, copy)

    def astype(self, dt, copy=True, **k):
        dt = as_dtype(dt)
        v, s = self.raw()
        d0 = self.dtype
        if d0.name == dt.name and not copy:
            return self
        return self._new(lambda i, j: cast(v(i, j), dt, d0), s, dtype=dt)

    def toarray(self, *a, **k):
        f = self.snapshot()
        return Arr(self.shape, f, self.dtype)

    def todense(self, *a, **k):
        r = self.toarray()
        r.npmatrix = True       # numpy.matrix: * is the matrix product, rows stay two-dimensional
        return r

    @property
    def A(self):
        return self.toarray()

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *a, **k):
        v, s = self.raw()
        buf = SpTBuf(self.buf)
        return SpM((self.shape[1], self.shape[0]), None, None, {"csr": "csc", "csc": "csr"}.get(self.fmt, self.fmt), self.dtype, buf=buf)

    def sort_indices(self):
        pass

    def sorted_indices(self):
        return self.copy()

    def sum_duplicates(self):
        pass

    def eliminate_zeros(self):
        v, s = self.raw()
        self.buf.stored = lambda i, j: z3.And(bterm(s(i, j)), z3.Not(same(v(i, j), 0.0)))
        self.buf.memo = {}; self.buf.mut = next(E.counter)

    @property
    def has_sorted_indices(self):
        return True

    @property
    def nnz(self):
        if not hasattr(self.buf, "nnz"):
            _, s = self.raw()
            c = E.agg(((z3.IntVal(0), term(self.shape[0])), (z3.IntVal(0), term(self.shape[1]))), lambda i, j: z3.RealVal(1), lambda i, j: bterm(s(SInt(i), SInt(j))))
            n = E.int("nnz", lo=0)
            E.fact(z3.ToReal(n.t) == c.t)
            self.buf.nnz = n
        return self.buf.nnz

    def getnnz(self, axis=None):
        if axis is None:
            return self.nnz
        return self._count(0 if axis in (1, -1) else 1)

    def _count(self, axis):
        """number of stored entries of every row (axis 0) / column (axis 1)"""
        _, s = self.raw()
        m = self.shape[1 - axis]

        def at(k):
            c = E.agg(((z3.IntVal(0), term(m)),), lambda j: z3.RealVal(1), lambda j: bterm(s(k, SInt(j)) if axis == 0 else s(SInt(j), k)))
            return mkint(z3.ToInt(c.t))
        return Arr((self.shape[axis],), at, int32)

    # ---- stored values
    @property
    def data(self):
        return SpVec(self, self.buf.val, live=True)

    @data.setter
    def data(self, v):
        if isinstance(v, SpVec):
            if not v.same_structure(self):
                unsupported("data of another structure")
            self.buf = Buf(v.f, self.buf.stored)
        elif isscalar(v) or isinstance(v, Arr):
            if isinstance(v, Arr) and not v.const_like():
                unsupported("data from an array")
            unsupported("data assignment")
        else:
            unsupported("data assignment")

    def _axisvec(self, axis):
        return SpVec(self, (lambda i, j: i) if axis == 0 else (lambda i, j: j), dtype=int64)

    @property
    def indices(self):
        return self._axisvec(1 if self.fmt == "csr" else 0)

    @property
    def row(self):
        return self._axisvec(0)

    @property
    def col(self):
        return self._axisvec(1)

    @property
    def indptr(self):
        if self.fmt not in ("csr", "csc"):
            raise AttributeError("indptr")
        return IndPtr(self, 0 if self.fmt == "csr" else 1, 0)

    def nonzero(self):
        f = self.snapshot()
        return entries(self, lambda i, j: z3.Not(same(f(i, j), 0.0 if self.dtype.kind_ == "f" else 0))).pair()

    # ---- indexing
    def _rows(self, k):
        n = self.shape[0]
        if isinstance(k, slice):
            if k.step not in (None, 1):
                unsupported("slice step")
            if k.start is None and k.stop is None:
                return n, lambda i: i
            lo, hi = slice_bounds(k, n)
            return smax(hi - lo, 0), lambda i: lo + i
        if isinstance(k, (int, SInt)):
            r = Arr._norm_index(None, k, n, 0)
            return 1, lambda i: r
        k = as_index(k)
        if isinstance(k, Arr) and k.ndim == 1:
            if k.dtype.kind_ == "b":
                unsupported("boolean row selection")
            check_bounds(k, n)
            s = k.snapshot()
            return k.shape[0], lambda i: wrap_index(s(i), n)
        unsupported("sparse row index")

    def _cols(self, k):
        t = SpM((self.shape[1], 1), None, None)
        return SpM._rows(types.SimpleNamespace(shape=(self.shape[1],)), k)

    def __getitem__(self, key):
        if self.fmt == "coo":
            raise TypeError("'coo_matrix' object is not subscriptable")
        if isinstance(key, tuple) and len(key) == 2:
            if isinstance(key[0], (int, SInt)) and isinstance(key[1], (int, SInt)):
                _, r = self._rows(key[0]); _, c = self._cols(key[1])
                return self.at(r(0), c(0))
            if not isinstance(key[0], slice) and not isinstance(key[1], slice) and not isinstance(key[0], (int, SInt)) and not isinstance(key[1], (int, SInt)):
                unsupported("pointwise sparse index")
            n, r = self._rows(key[0]); m, c = self._cols(key[1])
        else:
            n, r = self._rows(key)
            m, c = self.shape[1], lambda j: j
        v, s = self.raw()
        return SpM((n, m), lambda i, j: v(r(i), c(j)), lambda i, j: s(r(i), c(j)), self.fmt, self.dtype)

    def getrow(self, i):
        return self[i]

    def __setitem__(self, key, val):
        unsupported("sparse item assignment")

    def viter(self):
        return VSeq(self.shape[0], lambda k: self[k], "gen")

    symbolic_iter = True

    @property
    def n(self):
        return self.shape[0]

    def vlen(self):
        raise TypeError("sparse matrix length is ambiguous; use getnnz()")

    # ---- arithmetic
    def dot(self, o):
        if isscalar(o):
            return self * o
        if getattr(o, "is_sparse", False):
            d = matmul(self, o)
            f = d.snapshot()
            fmt = self.fmt
            # structure of a sparse product: unknown superset of its nonzeros
            st = E.func("prod_stored", "int", "int", "bool")

            def stored(i, j):
                E.fact(z3.Implies(z3.Not(st(term(i), term(j))), same(f(i, j), 0.0)))
                return mkbool(st(term(i), term(j)))
            return SpM(d.shape, f, stored, "csr" if fmt != "csc" else "csc", d.dtype)
        return matmul(self, o)

    def __matmul__(self, o):
        return self.dot(o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __mul__(self, o):
        if isscalar(o):
            v, s = self.raw()
            return self._new(lambda i, j: v(i, j) * o, s, dtype=promote(self.dtype, o))
        return self.dot(o)

    def __rmul__(self, o):
        if isscalar(o):
            return self * o
        return matmul(o, self)

    def __truediv__(self, o):
        if isscalar(o):
            v, s = self.raw()
            return self._new(lambda i, j: npdiv(v(i, j), o), s, dtype=float64)
        unsupported("sparse division")

    def __neg__(self):
        v, s = self.raw()
        return self._new(lambda i, j: -v(i, j), s)

    def __abs__(self):
        v, s = self.raw()
        return self._new(lambda i, j: abs(v(i, j)), s)

    def __add__(self, o):
        if getattr(o, "is_sparse", False):
            need_same(self, o)
            a, b = self.snapshot(), o.snapshot()
            sa, sb = self.raw()[1], o.raw()[1]
            return self._new(lambda i, j: a(i, j) + b(i, j), lambda i, j: mkbool(z3.Or(bterm(sa(i, j)), bterm(sb(i, j)))), dtype=promote(self.dtype, o.dtype))
        if isinstance(o, Arr):
            return self.toarray() + o
        unsupported("sparse addition")

    def __radd__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return self
        return self + o

    def __sub__(self, o):
        if getattr(o, "is_sparse", False):
            return self + (-o)
        if isinstance(o, Arr):
            return self.toarray() - o
        unsupported("sparse subtraction")

    def multiply(self, o):
        if isscalar(o):
            return self * o
        f = self.snapshot()
        st = self.raw()[1]
        if getattr(o, "is_sparse", False) or isinstance(o, Arr):
            g = broadcast_to(o if isinstance(o, Arr) else Arr(o.shape, o.snapshot(), o.dtype), self.shape)
            return self._new(lambda i, j: f(i, j) * g(i, j), st, dtype=promote(self.dtype, o.dtype))
        unsupported("multiply")

    def _cmpz(self, o, f):
        if not isscalar(o):
            unsupported("sparse comparison")
        g = self.snapshot()
        return SpM(self.shape, lambda i, j: f(g(i, j)), lambda i, j: True, self.fmt, as_dtype("bool"))

    def __ne__(self, o): return self._cmpz(o, lambda v: snot(v == o))
    def __eq__(self, o): return self._cmpz(o, lambda v: v == o)
    def __gt__(self, o): return self._cmpz(o, lambda v: v > o)
    def __lt__(self, o): return self._cmpz(o, lambda v: v < o)
    def __ge__(self, o): return self._cmpz(o, lambda v: v >= o)

    def sum(self, axis=None, dtype=None, **k):
        f = self.snapshot()
        if axis in (1, -1):
            return Arr((self.shape[0], 1), lambda i, _j: sum_over(self.shape[1], lambda k: f(i, k)), self.dtype)
        if axis in (0, -2):
            return Arr((1, self.shape[1]), lambda _i, j: sum_over(self.shape[0], lambda k: f(k, j)), self.dtype)
        return Arr(self.shape, f, self.dtype).sum()

    def diagonal(self, k=0):
        f = self.snapshot()
        return Arr((rt.smin(self.shape[0], self.shape[1]),), lambda i: f(i, i), self.dtype)

    def setdiag(self, v):
        f, s = self.raw()
        if not isscalar(v):
            unsupported("setdiag")
        self.buf.val = lambda i, j: sel(term(i) == term(j), cast(v, self.dtype), f(i, j))
        self.buf.stored = lambda i, j: mkbool(z3.Or(term(i) == term(j), bterm(s(i, j))))
        self.buf.memo = {}; self.buf.mut = next(E.counter)

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __len__(self):
        raise TypeError("sparse matrix length is ambiguous; use getnnz()")

    def __iter__(self):
        unsupported("native iteration over sparse matrix")


def entries(mat, pred):
    """enumeration, in storage order, of the stored cells satisfying pred; one enumeration per set of cells"""
    E.use("scipy.sparse nonzero() and data[mask] list the selected stored entries of a matrix without duplicate entries in the same (storage) order, each once")
    l = mat.buf.__dict__.setdefault("nzs", [])
    i, j = SInt(z3.Int(E.fresh_name("i"))), SInt(z3.Int(E.fresh_name("j")))
    inr = z3.And(i.t >= 0, i.t < term(mat.shape[0]), j.t >= 0, j.t < term(mat.shape[1]))
    p = bterm(pred(i, j))
    for nz in l:
        if E.valid(z3.Implies(inr, bterm(nz.pred(i, j)) == p)):
            return nz
    nz = NZ(mat.shape, pred)
    E.nzs.append(nz)
    l.append(nz)
    return nz


class SpTBuf(Buf):
    """transposed view sharing its values"""

    def __init__(self, b):
        self.b = b
        self.memo_ = {}

    @property
    def val(self):
        v = self.b.val
        return lambda i, j: v(j, i)

    @val.setter
    def val(self, f):
        self.b.val = lambda i, j: f(j, i)
        self.b.memo = {}

    @property
    def stored(self):
        s = self.b.stored
        return lambda i, j: s(j, i)

    @stored.setter
    def stored(self, f):
        self.b.stored = lambda i, j: f(j, i)
        self.b.memo = {}

    @property
    def memo(self):
        return {}

    @memo.setter
    def memo(self, v):
        pass


def need_same(a, b):
    for x, y in zip(a.shape, b.shape):
        if E.decide(term(x) != term(y)):
            raise ValueError("inconsistent shapes")


class SpVec:
    """a vector aligned with the stored entries of a matrix (its .data, .indices, ...)"""
    is_model = True
    __array_ufunc__ = None
    __array_priority__ = 1e7
    ndim = 1

    def __init__(self, mat, f, live=False, dtype=None):
        self.mat, self.f_, self.live = mat, f, live
        self.buf = mat.buf
        self.dtype = dtype or mat.dtype

    @property
    def f(self):
        return self.buf.val if self.live else self.f_

    @property
    def shape(self):
        return (self.mat.nnz,)

    @property
    def size(self):
        return self.mat.nnz

    def vlen(self):
        return self.mat.nnz

    def to_arr(self):
        f, st = self.f, self.mat.raw()[1]
        comp = entries(self.mat, lambda i, j: bterm(st(i, j))).pair()
        return Arr((comp[0].n,), lambda q: f(comp[0].at(q), comp[1].at(q)), self.dtype)

    def viter(self):
        return self.to_arr().viter()

    def same_structure(self, m):
        return self.buf is m.buf or self.mat.buf.stored is m.buf.stored

    def _bin(self, o, g, rev=False):
        f = self.f
        h = (lambda a, b: g(b, a)) if rev else g
        if isscalar(o):
            return SpVec(self.mat, lambda i, j: h(f(i, j), o), dtype=promote(self.dtype, o))
        if isinstance(o, SpVec):
            if not (o.buf is self.buf or o.mat.buf.stored is self.mat.buf.stored):
                unsupported("vectors of different sparsity structures")
            f2 = o.f
            return SpVec(self.mat, lambda i, j: h(f(i, j), f2(i, j)), dtype=promote(self.dtype, o.dtype))
        unsupported("stored-value arithmetic with %s" % type(o).__name__)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __truediv__(self, o): return self._bin(o, npdiv)
    def __rtruediv__(self, o): return self._bin(o, npdiv, True)
    def __pow__(self, o): return self._bin(o, lambda a, b: a ** b)

    def elementwise(self, g, dt=None):
        f = self.f
        return SpVec(self.mat, lambda i, j: g(f(i, j)), dtype=dt or self.dtype)

    def _iop(self, r):
        if not self.live:
            self.f_ = r.f
            return self
        self.buf.val = (lambda g, dt: lambda i, j: cast(g(i, j), dt))(r.f, self.mat.dtype)
        self.buf.memo = {}; self.buf.mut = next(E.counter)
        return self

    def __iadd__(self, o): return self._iop(self + o)
    def __imul__(self, o): return self._iop(self * o)
    def __itruediv__(self, o): return self._iop(self / o)
    def __isub__(self, o): return self._iop(self - o)

    def __setitem__(self, k, v):
        if not (isinstance(k, slice) and k.start is None and k.stop is None and k.step is None) and k is not Ellipsis:
            unsupported("partial store to stored values")
        self._iop(SpVec(self.mat, (lambda i, j: v) if isscalar(v) else v.f))

    def __getitem__(self, k):
        if isinstance(k, slice) and k.start is None and k.stop is None:
            return self
        if isinstance(k, SpVec) and k.dtype.kind_ == "b":
            if not (k.buf is self.buf or k.mat.buf.stored is self.mat.buf.stored):
                unsupported("mask of another sparsity structure")
            f, g, st = self.f, k.f, self.mat.raw()[1]
            comp = entries(self.mat, lambda i, j: z3.And(bterm(st(i, j)), bterm(g(i, j)))).pair()
            return Arr((comp[0].n,), lambda q: f(comp[0].at(q), comp[1].at(q)), self.dtype)
        unsupported("index of stored values")

    def copy(self):
        return SpVec(self.mat, self.f, dtype=self.dtype)

    def astype(self, dt, **k):
        dt = as_dtype(dt)
        f, d0 = self.f, self.dtype
        return SpVec(self.mat, lambda i, j: cast(f(i, j), dt, d0), dtype=dt)

    def sum(self, *a, **k):
        f, s = self.f, self.mat.raw()[1]
        return E.agg(((z3.IntVal(0), term(self.mat.shape[0])), (z3.IntVal(0), term(self.mat.shape[1]))), lambda i, j: flift(tofloat(f(SInt(i), SInt(j)))).t, lambda i, j: bterm(s(SInt(i), SInt(j))))

    def _cmp(self, o, g):
        r = self._bin(o, g)
        r.dtype = as_dtype("bool")
        return r

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: snot(a == b))
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    __hash__ = object.__hash__


# dense[SpVec] -> SpVec
_old_get = Arr.__getitem__


def _get(self, key):
    if isinstance(key, SpVec):
        if self.ndim != 1:
            unsupported("matrix indexed by stored indices")
        s, f = self.snapshot(), key.f
        return SpVec(key.mat, lambda i, j: s(f(i, j)), dtype=self.dtype)
    return _old_get(self, key)


Arr.__getitem__ = _get


class SpClass:
    """csr_matrix / csc_matrix / ..."""

    def __init__(self, fmt):
        self.fmt = fmt
        self.__name__ = "%s_matrix" % fmt

    def __call__(self, x, shape=None, dtype=None, copy=False):
        E.use("scipy.sparse constructors: cell (i,j) is the sum of the given values at (i,j); conversions keep every cell; a constructor from the same format shares memory")
        if getattr(x, "is_sparse", False):
            r = x._to(self.fmt)
            if r is x:
                r = SpM(x.shape, None, None, x.fmt, x.dtype, buf=x.buf)
            if copy:
                r = r.copy()
            return r if dtype is None else r.astype(dtype, copy=False)
        if isinstance(x, tuple) and len(x) == 2 and all(isinstance(s, (int, SInt)) for s in x):
            dt = as_dtype(dtype) if dtype is not None else float64
            return SpM(x, lambda i, j: 0.0, lambda i, j: False, self.fmt, dt)
        if isinstance(x, tuple) and len(x) == 2:
            data, (row, col) = x[0], rt.unpack(x[1], 2)
            if hasattr(data, "coo_matrix") or hasattr(row, "coo_matrix"):
                return (row if hasattr(row, "coo_matrix") else data).coo_matrix(data, row, col, shape, self.fmt)
            return coo(data, row, col, shape, self.fmt, dtype)
        if isinstance(x, tuple) and len(x) == 3:
            h = getattr(E, "csr_from_parts", None)
            if h is not None:
                return h(x, shape, self.fmt)
            return compressed(x, shape, self.fmt, dtype)
        if isinstance(x, Arr) or isinstance(x, (list, VSeq)):
            a = as_arr(x)
            if a.ndim == 1:
                a = a[None, :]
            s = a.snapshot()
            r = SpM(a.shape, s, lambda i, j: z3.Not(same(s(i, j), 0.0)), self.fmt, a.dtype)
            return r if dtype is None else r.astype(dtype)
        unsupported("sparse matrix from %s" % type(x).__name__)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def __or__(self, o):
        return object

    __ror__ = __or__

    def __getitem__(self, k):
        return self


def coo(data, row, col, shape, fmt, dtype=None):
    """general (data, (row, col)) constructor: cells are sums over the entries"""
    data = data if isscalar(data) else as_arr(data)
    row, col = as_arr(row), as_arr(col)
    n = row.shape[0]
    for x in (col, data):
        if not isscalar(x) and E.decide(term(x.shape[0]) != term(n)):
            raise ValueError("row, column, and data array must all be the same length")
    if shape is None:
        unsupported("constructor without shape")
    d, r, c = data.snapshot() if not isscalar(data) else (lambda k: data), row.snapshot(), col.snapshot()
    if E.choose(2, "coordinate out of range") == 1:
        k = E.int("k", lo=0, hi=n)
        E.assume(z3.Or(term(r(k)) < 0, term(r(k)) >= term(shape[0]), term(c(k)) < 0, term(c(k)) >= term(shape[1])))
        raise ValueError("row index exceeds matrix dimensions")
    guard = lambda i, j: (lambda k: z3.And(term(r(SInt(k))) == term(i), term(c(SInt(k))) == term(j)))
    val = lambda i, j: E.agg(((z3.IntVal(0), term(n)),), lambda k: flift(tofloat(d(SInt(k)))).t, guard(i, j))
    wit = E.func("entry", "int", "int", "int")
    st = E.func("coo_stored", "int", "int", "bool")

    def stored(i, j):
        w = SInt(wit(term(i), term(j)))
        s = st(term(i), term(j))
        E.fact(z3.Implies(s, z3.And(w.t >= 0, w.t < term(n), term(r(w)) == term(i), term(c(w)) == term(j))))
        for h in E.hints:
            E.fact(z3.Implies(z3.And(term(h) >= 0, term(h) < term(n), term(r(h)) == term(i), term(c(h)) == term(j)), s))
        E.fact(z3.Implies(z3.Not(s), real(val(i, j)) == 0))
        return mkbool(s)
    memo = {}

    def val_(i, j):
        key = (term(i).get_id(), term(j).get_id())
        if key not in memo:
            memo[key] = (val(i, j), i, j)
        return memo[key][0]
    return SpM(shape, val_, stored, fmt, as_dtype(dtype) if dtype is not None else (data.dtype if not isscalar(data) else float64))


def compressed(parts, shape, fmt, dtype=None):
    """csr matrix from (data, indices, indptr): row i has the entries indptr[i] <= t < indptr[i+1]"""
    if fmt != "csr" or shape is None:
        unsupported("constructor from (data, indices, indptr)")
    E.use("scipy.sparse csr_matrix((data, indices, indptr)): row i has the entries indptr[i] <= t < indptr[i+1]; cells are sums of their entries")
    data, ind, ptr = [x.seq() if isinstance(x, rt.Filtered) else x for x in parts]
    if any(not hasattr(x, "at") for x in (data, ind, ptr)):
        unsupported("constructor from (data, indices, indptr)")
    if E.decide(term(rt.length(ptr)) != term(shape[0]) + 1):
        raise ValueError("index pointer size should be rows + 1")
    if E.decide(term(rt.length(data)) != term(rt.length(ind))):
        raise ValueError("indices and data should have the same size")
    memo = {}
    sym = lambda s: s.sym if isinstance(s, rt.VList) and s.sym is not None else s

    def seg(i):
        """(low, high, column at t, value at t) of row i"""
        key = i if isinstance(i, int) else ("t", term(i).get_id())
        if key in memo:
            return memo[key][0]
        a, b = ptr.at(i), ptr.at(i + 1)
        di, ii = sym(data), sym(ind)
        if isinstance(ii, rt.Concat) and isinstance(di, rt.Concat) and ii.off is di.off:
            ii.off.step(i)
            if not E.valid(z3.Implies(z3.And(term(i) >= 0, term(i) < term(shape[0])), z3.And(term(a) == term(ii.off.at(i)), term(b) == term(ii.off.at(i + 1))))):
                unsupported("index pointers do not match the concatenated rows")
            c, d = ii.seg(i), di.seg(i)
            r = (0, rt.length(c), c, d)
        else:
            r = (a, b, ii, di)
        if not E.sub:
            memo[key] = (r, i)
        return r
    if E.choose(2, "column out of range") == 1:
        i = E.int("i", lo=0, hi=shape[0])
        lo, hi, c, d = seg(i)
        t = E.int("t", lo=lo, hi=hi)
        x = c.at(t)
        E.assume(z3.Or(term(x) < 0, term(x) >= term(shape[1])))
        raise ValueError("column index exceeds matrix dimensions")
    vals, wit, st = {}, E.func("entry", "int", "int", "int"), E.func("csr_stored", "int", "int", "bool")

    def val(i, j):
        key = (term(i).get_id(), term(j).get_id())
        if key not in vals:
            lo, hi, c, d = seg(i)
            vals[key] = (E.agg(((term(lo), term(hi)),), lambda t: flift(tofloat(d.at(SInt(t)))).t, lambda t: term(c.at(SInt(t))) == term(j)), i, j)
        return vals[key][0]

    def stored(i, j):
        lo, hi, c, d = seg(i)
        w = SInt(wit(term(i), term(j)))
        s = st(term(i), term(j))
        hit = lambda t: z3.And(term(t) >= term(lo), term(t) < term(hi), term(c.at(t)) == term(j))
        E.fact(z3.Implies(s, hit(w)))
        E.fact(z3.Implies(z3.Not(s), real(val(i, j)) == 0))
        for h in E.rowhints:
            E.fact(z3.Implies(hit(h), s))
        return mkbool(s)
    r = SpM(shape, val, stored, fmt, as_dtype(dtype) if dtype is not None else float64)
    r.seg = seg
    return r


def vstack(blocks, format=None, dtype=None):
    bs = [b if getattr(b, "is_sparse", False) else csr_matrix(b) for b in blocks]
    return stack(bs, 0, format)


def hstack(blocks, format=None, dtype=None):
    bs = [b if getattr(b, "is_sparse", False) else csr_matrix(b) for b in blocks]
    return stack(bs, 1, format)


def stack(bs, axis, fmt):
    if not bs:
        raise ValueError("blocks must not be empty")
    for b in bs[1:]:
        if E.decide(term(b.shape[1 - axis]) != term(bs[0].shape[1 - axis])):
            raise ValueError("incompatible dimensions")
    offs = [0]
    dt = bs[0].dtype
    for b in bs:
        offs.append(offs[-1] + b.shape[axis])
        dt = promote(dt, b.dtype)
    raws = [b.raw() for b in bs]

    def pick(which):
        def f(i, j):
            x = (i, j)[axis]
            v = None
            for r, o in reversed(list(zip(raws, offs))):
                ix = [i, j]
                ix[axis] = x - o
                c = r[which](*ix)
                v = c if v is None else sel(z3.Not(bterm(x >= nxt)), c, v)
                nxt = o
            return v
        return f
    sh = list(bs[0].shape)
    sh[axis] = offs[-1]
    f0 = bs[0].fmt if all(b.fmt == bs[0].fmt for b in bs) else "coo"
    return SpM(sh, pick(0), pick(1), fmt or (f0 if f0 in ("csr", "csc") and (f0 == "csr") == (axis == 0) or f0 == "csr" else "coo"), dt)


def issparse(x):
    return bool(getattr(x, "is_sparse", False))


csr_matrix, csc_matrix, coo_matrix, lil_matrix = SpClass("csr"), SpClass("csc"), SpClass("coo"), SpClass("lil")
spmatrix = SpClass(None)


def identity(n, dtype=None, format=None):
    return SpM((n, n), lambda i, j: 1.0, lambda i, j: mkbool(term(i) == term(j)), format or "csr", float64)


def diags(d, offsets=0, format=None, **k):
    d = as_arr(d)
    if d.ndim != 1 or offsets != 0:
        unsupported("diags")
    s = d.snapshot()
    return SpM((d.shape[0], d.shape[0]), lambda i, j: s(i), lambda i, j: mkbool(term(i) == term(j)), format or "dia", d.dtype)


class Mod(types.SimpleNamespace):
    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        unsupported("scipy.%s" % a)


sparse = Mod(csr_matrix=csr_matrix, csc_matrix=csc_matrix, coo_matrix=coo_matrix, lil_matrix=lil_matrix, spmatrix=spmatrix, csr_array=csr_matrix, csc_array=csc_matrix, coo_array=coo_matrix,
             issparse=issparse, isspmatrix=issparse, vstack=vstack, hstack=hstack, identity=identity, eye=identity, diags=diags, isspmatrix_csr=lambda x: issparse(x) and x.fmt == "csr")
linalg = Mod()
scipy = Mod(sparse=sparse, linalg=linalg, stats=Mod())
MODULES = {"scipy": scipy, "scipy.sparse": sparse, "scipy.linalg": linalg, "scipy.sparse.linalg": Mod(), "scipy.stats": scipy.stats}


def sym_sparse(hint, shape, fmt="csr", dtype=float64, stored_zero=True):
    """arbitrary sparse matrix"""
    f = E.func(hint, "int", "int", "real")
    s = E.func(hint + "_stored", "int", "int", "bool")

    def val(i, j):
        return SFloat(f(term(i), term(j)))
    return SpM(shape, val, lambda i, j: mkbool(s(term(i), term(j))), fmt, dtype)


class IndPtr(Arr):
    """indptr: differences of neighbouring elements are the numbers of stored entries"""

    def __init__(self, mat, axis, shift, whole=True):
        n = mat.shape[axis]
        super().__init__((n + 1 if whole else n,), lambda k: unsupported("indptr values"), int32)
        self.of, self.axis, self.shift, self.whole = mat, axis, shift, whole
        self.counts = mat._count(axis)

    def __getitem__(self, k):
        if self.whole and isinstance(k, slice) and k.step is None:
            if isinstance(k.start, int) and k.start == 1 and k.stop is None:
                return self._half(1)
            if k.start in (None, 0) and isinstance(k.stop, int) and k.stop == -1:
                return self._half(0)
        return super().__getitem__(k)

    def _half(self, shift):
        r = IndPtr(self.of, self.axis, shift, False)
        r.counts = self.counts
        return r

    def __sub__(self, o):
        if isinstance(o, IndPtr) and not self.whole and not o.whole and o.of is self.of and o.axis == self.axis and self.shift != o.shift:
            c = self.counts
            return c if self.shift == 1 else Arr(c.shape, lambda k: -c.at(k), c.dtype)
        return super().__sub__(o)

    def _diff(self):
        return self.counts if self.whole else unsupported("diff")
