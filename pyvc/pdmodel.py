"""pyvc.pdmodel - pandas frames as relations over a row space (trusted contracts of pandas).

A row space `Rows` is a subset (predicate `member`) of the row numbers [0, N) of a root table, each member occurring once, in an order
given by a position function.  Columns are functions of the root row number; filtering, sorting and duplicate removal change
only the row space.  RowArr is a numpy array aligned with a row space.
"""
import types
import z3
from .core import *
from .core import E
from . import rt
from .rt import VSeq, VList, VDict, IdSeq, is_symseq, iter_, smax, slice_bounds
from . import npmodel
from .npmodel import Arr, as_arr, as_dtype, cast, sel, isscalar, float64, int64, bool_, object_, promote, broadcast_to


# ---------------------------------------------------------------- row spaces
class Rows:
    def __init__(self, N, member, n=None, pos=None, rowat=None, hint="rows"):
        self.N, self._member = N, member
        self.root = None
        self.n_ = n
        self.hint = hint
        self._pos, self._rowat = pos, rowat
        self.filters = {}
        self.order_facts = []
        self.asked = []
        self.cnt = {}
        self.distincts = []

    def member(self, r):
        r = SInt(r) if z3.is_expr(r) else r
        return z3.And(term(r) >= 0, term(r) < term(self.N), bterm(self._member(r)))

    @property
    def n(self):
        if self.n_ is None:
            self.n_ = E.int("n_" + self.hint, lo=0)
            c = E.agg(((z3.IntVal(0), term(self.N)),), lambda r: z3.RealVal(1), lambda r: self.member(r))
            E.fact(z3.ToReal(self.n_.t) == c.t)
            E.fact(term(self.n_) <= term(self.N))
        return self.n_

    def top(self):
        return self if self.root is None else self.root.top()

    def _order(self):
        if self._pos is None:
            p, q = E.func(self.hint + "_pos", "int", "int"), E.func(self.hint + "_row", "int", "int")
            self._pos, self._rowat = (lambda r: p(term(r))), (lambda k: q(term(k)))

    def pos(self, r):
        self._order()
        p = z3.IntVal(self._pos(r)) if isinstance(self._pos(r), int) else term(self._pos(r))
        E.fact(z3.Implies(self.member(r), z3.And(p >= 0, p < term(self.n), term(self._rowat(SInt(p))) == term(r))))
        self.ask(r)
        return SInt(p)

    def rowat(self, k):
        self._order()
        r = term(self._rowat(k))
        E.fact(z3.Implies(z3.And(term(k) >= 0, term(k) < term(self.n)), z3.And(self.member(SInt(r)), term(self._pos(SInt(r))) == term(k))))
        for d in self.distincts:
            d.touch(r)
        return SInt(r)

    def ask(self, r):
        """order facts between the asked rows"""
        if any(term(x).eq(term(r)) for x in self.asked):
            return
        for x in self.asked:
            for f in self.order_facts:
                for a, b in ((x, r), (r, x)):
                    E.fact(z3.Implies(z3.And(self.member(a), self.member(b), term(self._pos(a)) < term(self._pos(b))), f(a, b)))
        self.asked.append(r)

    def filter(self, key, pred):
        """the members satisfying pred, in the same order; `key` identifies the predicate"""
        if key in self.filters:
            return self.filters[key][0]
        new = Rows(self.N, lambda r: z3.And(self.member(r), bterm(pred(r))), hint="rows")
        parent = self
        new.order_facts.append(lambda a, b: term(parent.pos(a)) < term(parent.pos(b)))
        new.root = self
        self.filters[key] = (new, key, pred)
        return new

    def count(self, key, f):
        """x -> number of member rows with f(row) == x (key: identity of the column)"""
        if key not in self.cnt:
            self.cnt[key] = (E.func("count", "int", "int"), f, {})
        c, f, done = self.cnt[key]

        def count(x, define=False):
            t = c(x.t)
            E.fact(t >= 0)
            if define and x.t.get_id() not in done:
                a = E.agg(((z3.IntVal(0), term(self.N)),), lambda r: z3.RealVal(1), lambda r: z3.And(self.member(r), f(SInt(r)).t == x.t))
                done[x.t.get_id()] = (x, a)
                E.fact(z3.ToReal(t) == a.t)
            return SInt(t)
        count.agg = lambda x: (count(x, define=True), done[x.t.get_id()][1])[1]
        return count


def root_rows(N, hint="rows"):
    return Rows(N, lambda r: z3.BoolVal(True), n=N, pos=lambda r: term(r), rowat=lambda k: term(k), hint=hint)


class RowArr(Arr):
    """1-d array aligned with a row space: value at root row r is f(r)"""
    rowspace = True
    series = False

    def __init__(self, rows, f, dtype=float64, name=None, key=None):
        self.rows, self.f_ = rows, f
        self.name = name
        self.key = key if key is not None else object()
        super().__init__((None,), None, dtype)
        self._at = lambda k: self.f(self.rows.rowat(k))

    @property
    def shape(self):
        return (self.rows.n,)

    @shape.setter
    def shape(self, v):
        pass

    def f(self, r):
        return self.f_(SInt(r) if z3.is_expr(r) else r)

    def like(self, f, dtype=None, series=None):
        r = (Series if (self.series if series is None else series) else RowArr)(self.rows, f, dtype or self.dtype)
        return r

    def snapshot(self):
        f, rows = self.f_, self.rows
        return lambda k: f(rows.rowat(SInt(k) if z3.is_expr(k) else k))

    def _other(self, o):
        if isinstance(o, RowArr):
            if o.rows is not self.rows:
                unsupported("operation on arrays of different row sets")
            g = o.f_
            return g
        o = as_arr(o)
        if E.decide(term(o.shape[0]) != term(self.rows.n)):
            raise ValueError("operands could not be broadcast together / lengths must match")
        s = o.snapshot()
        return lambda r: s(self.rows.pos(r))

    def _bin(self, o, g, dt=None, rev=False):
        if isinstance(o, str) and self.dtype.kind_ != "O":
            return NotImplemented
        f = self.f_
        h = (lambda a, b: g(b, a)) if rev else g
        if isscalar(o):
            return self.like(lambda r: h(f(r), o), dt or promote(self.dtype, o))
        if not isinstance(o, Arr) and not is_symseq(o) and not isinstance(o, (list, tuple)):
            return NotImplemented
        q = self._other(o)
        return self.like(lambda r: h(f(r), q(r)), dt or promote(self.dtype, as_arr(o).dtype), series=self.series or getattr(o, "series", False))

    def elementwise(self, g, dt=None):
        f = self.f_
        return self.like(lambda r: g(f(r)), dt)

    def __invert__(self):
        if self.dtype.kind_ != "b":
            unsupported("~ of non-boolean")
        return self.elementwise(snot)

    def __neg__(self):
        return self.elementwise(lambda x: -x)

    def __abs__(self):
        return self.elementwise(abs)

    def astype(self, dt, copy=True, **k):
        dt = as_dtype(dt)
        if dt.kind_ == "O" or dt.name == self.dtype.name:
            return self.like(self.f_, dt)
        f, d0 = self.f_, self.dtype
        return self.like(lambda r: cast(f(r), dt, d0), dt)

    def copy(self, *a, **k):
        r = self.like(self.f_)
        r.key, r.name = self.key, self.name
        return r

    def _update(self, cond, val):
        f, rows, dt = self.f_, self.rows, self.dtype
        if E.recording and E.recorder(self) is not None:
            unsupported("array store in a summarised loop")
        if E.loops_active:
            rt.note_write(self)
        self.f_ = lambda r: sel(cond(rows.pos(r)), cast(val(rows.pos(r)), dt), f(r))
        self.key = object()
        self.memo = {}

    def at(self, k):
        return self.f(self.rows.rowat(SInt(k) if z3.is_expr(k) else k))

    def nonzero(self):
        f = self.f_
        p = (lambda r: bterm(f(r))) if self.dtype.kind_ == "b" else (lambda r: z3.Not(same(f(r), 0.0 if self.dtype.kind_ == "f" else 0)))
        return (PosIdx(self.rows, p, self.key),)

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 1:
            key = key[0]
        if isinstance(key, PosIdx):
            if key.rows is not self.rows:
                unsupported("positions of another row set")
            r = self.like(self.f_)
            r.rows = key.sub
            return r
        if isinstance(key, (RowArr, Arr)) and key.dtype.kind_ == "b":
            sub = mask_rows(self.rows, key)
            r = self.like(self.f_)
            r.rows = sub
            return r
        return Arr.__getitem__(self, key)

    def __setitem__(self, key, val):
        if isinstance(key, tuple) and len(key) == 1:
            key = key[0]
        if isinstance(key, PosIdx) or (isinstance(key, RowArr) and key.dtype.kind_ == "b"):
            rows = self.rows
            if key.rows is not rows:
                unsupported("positions of another row set")
            p = key.pred if isinstance(key, PosIdx) else (lambda r, g=key.f_: bterm(g(r)))
            if not isscalar(val):
                unsupported("mask store of an array")
            f, dt = self.f_, self.dtype
            self.f_ = lambda r: sel(p(r), cast(val, dt), f(r))
            self.key = object()
            return
        Arr.__setitem__(self, key, val)

    # numpy / pandas common
    @property
    def values(self):
        r = RowArr(self.rows, self.f_, self.dtype, self.name, self.key)
        return r

    def to_numpy(self, *a, **k):
        return self.values

    @property
    def array(self):
        return self.values

    def to_list(self):
        return self.tolist()

    def tolist(self):
        s = self.snapshot()
        v = VSeq(self.rows.n, s)
        v.rowarr = self
        return v

    def viter(self):
        v = VSeq(self.rows.n, self.snapshot(), "gen")
        v.rowarr = self
        return v

    def vdistinct(self, order):
        """the distinct values as an id sequence"""
        return distinct(self.rows, self.f_, self.key, order, self.dtype)

    def coo_matrix(self, data, row, col, shape, fmt):
        return row_coo(self.rows, data, row, col, shape, fmt)

    def sum(self, axis=None, **k):
        f, rows = self.f_, self.rows
        a = E.agg(((z3.IntVal(0), term(rows.N)),), lambda r: real(f(SInt(r))), lambda r: rows.member(r))
        return a if self.dtype.kind_ == "f" else mkint(z3.ToInt(a.t))

    def v_isinstance(self, t):
        if t is PD.Series or t is Series:
            return self.series
        return t is object or (not self.series and t is npmodel.ndarray)


class PosIdx:
    """np.where(mask)[0] on a row-aligned mask: positions of the rows satisfying it, in order"""
    is_model = True

    def __init__(self, rows, pred, key):
        self.rows, self.pred, self.key = rows, pred, key

    @property
    def sub(self):
        return self.rows.filter(self.key, self.pred)

    @property
    def shape(self):
        return (self.sub.n,)

    @property
    def size(self):
        return self.sub.n

    def vlen(self):
        return self.sub.n


def mask_rows(rows, m):
    if isinstance(m, RowArr):
        if m.rows is not rows:
            unsupported("mask of another row set (index alignment)")
        g = m.f_
        return rows.filter(m.key, lambda r: bterm(g(r)))
    if E.decide(term(m.shape[0]) != term(rows.n)):
        raise IndexError("Boolean index has wrong length")
    s = m.snapshot()
    return rows.filter(id(m), lambda r: bterm(s(rows.pos(r))))


def row_coo(rows, data, row, col, shape, fmt):
    """sparse matrix from row-aligned coordinates: cells are sums over the member rows"""
    from .spmodel import SpM
    E.use("scipy.sparse (data, (row, col)) constructor: cell (i, j) is the sum of the data at (i, j); coordinates out of range raise")
    fs = []
    for x in (data, row, col):
        if isscalar(x):
            fs.append(lambda r, x=x: x)
        elif isinstance(x, RowArr):
            if x.rows is not rows:
                unsupported("coordinates of different row sets")
            fs.append(x.f_)
        else:
            a = as_arr(x)
            if E.decide(term(a.shape[0]) != term(rows.n)):
                raise ValueError("row, column, and data array must all be the same length")
            s = a.snapshot()
            k = E.int("k", lo=0)
            fs.append((lambda r, s=s: s(0)) if a.ndim == 1 and getattr(a, "const", False) else (lambda r, s=s: s(rows.pos(r))))
    d, rf, cf = fs
    if shape is None:
        unsupported("constructor without shape")
    inr = lambda r: z3.And(term(rf(r)) >= 0, term(rf(r)) < term(shape[0]), term(cf(r)) >= 0, term(cf(r)) < term(shape[1]))
    if E.choose(2, "coordinate out of range") == 1:
        r = E.int("badrow", lo=0, hi=rows.N)
        E.assume(rows.member(r))
        E.assume(z3.Not(inr(r)))
        raise ValueError("row index exceeds matrix dimensions")
    E.row_in_range.append((rows, inr))
    memo = {}

    def val(i, j):
        key = (term(i).get_id(), term(j).get_id())
        if key not in memo:
            memo[key] = (E.agg(((z3.IntVal(0), term(rows.N)),), lambda r: flift(tofloat(d(SInt(r)))).t,
                               lambda r: z3.And(rows.member(r), term(rf(SInt(r))) == term(i), term(cf(SInt(r))) == term(j))), i, j)
        return memo[key][0]
    wit, st = E.func("entry", "int", "int", "int"), E.func("coo_stored", "int", "int", "bool")

    E.coo_witnesses.append(lambda i, j: SInt(wit(term(i), term(j))))

    def stored(i, j):
        w = SInt(wit(term(i), term(j)))
        s = st(term(i), term(j))
        hit = lambda r: z3.And(rows.member(r), term(rf(r)) == term(i), term(cf(r)) == term(j))
        E.fact(z3.Implies(s, hit(w)))
        E.fact(z3.Implies(z3.Not(s), val(i, j).t == 0))
        for h in E.rowhints:
            E.fact(z3.Implies(hit(h), s))
        return mkbool(s)
    dt = data.dtype if hasattr(data, "dtype") else float64
    return SpM(shape, val, stored, fmt, dt)


# ---------------------------------------------------------------- id sequences derived from columns
class Distinct(IdSeq):
    """the distinct values of a column: every value is the value of some member row and every member row's value occurs once"""
    siblings = ()

    def __init__(self, rows, f, order, hint="distinct"):
        super().__init__(None, hint, True)
        self.rows, self.col = rows, f
        self.order = order
        self.wit = E.func(hint + "_witness", "int", "int")
        self.asked = []
        E.fact((term(rows.n) == 0) == (term(self.n) == 0))
        E.fact(term(self.n) <= term(rows.n))

    def touch(self, r):
        """row r's value is listed"""
        x = self.col(SInt(r) if z3.is_expr(r) else r)
        E.fact(z3.Implies(self.rows.member(r), self.mem(x.t)))
        self._facts(x.t)

    def _facts(self, x):
        super()._facts(x)
        w = SInt(self.wit(x))
        for d in self.siblings:
            E.fact(self.mem(x) == d.mem(x))
        E.fact(z3.Implies(self.mem(x), z3.And(self.rows.member(w), self.col(w).t == x)))

    def cross(self, x):
        """the row that shows x to be a value of this column, seen by the other sequences of distinct values of the table"""
        self._facts(x)
        w = SInt(self.wit(x))
        for d, *_ in list(E.ghostmem.get(_distinct, {}).values()):
            if d is not self and d.rows is not self.rows and d.rows.top() is self.rows.top():
                E.fact(z3.Implies(z3.And(self.mem(x), d.rows.member(w), d.col(w).t == x), d.mem(x)))

    def at(self, j):
        v = super().at(j)
        if self.order == "ascending" and not any(term(x).eq(term(j)) for x, _ in self.asked):
            n = term(self.n)
            for i, u in self.asked:
                both = z3.And(term(i) >= 0, term(i) < n, term(j) >= 0, term(j) < n)
                E.fact(z3.Implies(z3.And(both, term(i) < term(j)), u.t < v.t))
                E.fact(z3.Implies(z3.And(both, term(j) < term(i)), v.t < u.t))
            self.asked.append((j, v))
        for h in E.rowhints:
            self.touch(h)
        return v

    def member(self, x):
        for h in E.rowhints:
            self.touch(h)
        return super().member(x)


class UnionIds(IdSeq):
    """the values of either of two sequences, each once"""

    def __init__(self, a, b):
        super().__init__(None, "union", True)
        self.a, self.b = a, b

    def _facts(self, x):
        super()._facts(x)
        E.fact(self.mem(x) == z3.Or(bterm(self.a.member(SId(x))), bterm(self.b.member(SId(x)))))


class PermSeq(IdSeq):
    """the same ids in another (arbitrary) order"""

    def __init__(self, base, hint="shuffled"):
        super().__init__(base.n, hint, True)
        self.base = base

    def _facts(self, x):
        super()._facts(x)
        E.fact(self.mem(x) == bterm(self.base.member(SId(x))))


class Window(IdSeq):
    """ids[lo:hi] of a duplicate-free sequence"""

    def __init__(self, base, lo, hi):
        self.base, self.lo = base, lo
        self.n = smax(hi - lo, 0)
        E.windows.append(self)
        self.distinct, self.kind = True, "list"

    def at(self, j):
        return self.base.at(self.lo + j)

    def member(self, x):
        if not isinstance(x, SId):
            return False
        p = self.base.position(x)
        return mkbool(z3.And(bterm(self.base.member(x)), term(p) >= term(self.lo), term(p) < term(self.lo) + term(self.n)))

    def position(self, x):
        return self.base.position(x) - self.lo


class IdVec(Arr):
    """1-d array of distinct ids (result of unique() and the like); slices are views"""

    def __init__(self, ids, base=None, kind="ndarray"):
        self.ids = ids
        self.parent = base
        self.views = []
        self.kind = kind
        super().__init__((ids.n,), lambda k: self.ids_().at(k), object_)

    def ids_(self):
        if self.ids is None:
            unsupported("array shuffled through an overlapping view")
        return self.ids

    def at(self, k):
        return self.ids_().at(SInt(k) if z3.is_expr(k) else k)

    def snapshot(self):
        ids = self.ids_()
        return lambda k: ids.at(SInt(k) if z3.is_expr(k) else k)

    def member(self, x):
        return self.ids_().member(x)

    def position(self, x):
        return self.ids_().position(x)

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step in (None, 1):
            lo, hi = slice_bounds(k, self.ids_().n)
            v = IdVec(Window(self.ids_(), lo, hi), self, self.kind)
            v.window = (lo, hi)
            self.views.append(v)
            return v
        if isinstance(k, (int, SInt)):
            return self.at(self._norm_index(k, self.shape[0], 0))
        return Arr.__getitem__(self, k)

    def shuffle(self):
        new = PermSeq(self.ids_())
        if self.kind == "ndarray" and self.parent is not None:
            p = self.parent
            while p is not None:
                p.ids = None
                for v in p.views:
                    if v is not self and v is not p and not (hasattr(v, "window") and hasattr(self, "window") and E.valid(z3.Or(term(v.window[1]) <= term(self.window[0]), term(self.window[1]) <= term(v.window[0])))):
                        v.ids = None
                p = p.parent
        for v in self.views:
            v.ids = None
        self.ids = new

    def copy(self, *a, **k):
        return IdVec(self.ids_(), None, self.kind)

    def tolist(self):
        r = VList()
        r.sym = self.ids_()
        return r

    def to_list(self):
        return self.tolist()

    @property
    def values(self):
        return self

    def viter(self):
        return self.ids_()

    def get_loc(self, x):
        if not self.member(x):
            raise KeyError(x)
        return self.position(x)

    def get_indexer(self, target):
        t = target if isinstance(target, RowArr) else unsupported("get_indexer")
        ids = self.ids_()
        return codes_of(t, ids)

    def isin(self, ids):
        ids = as_ids(ids)
        return Arr(self.shape, lambda k: ids.member(self.at(k)), bool_)

    def v_isinstance(self, t):
        return t is object or (t is npmodel.ndarray and self.kind == "ndarray")

    def astype(self, dt, **k):
        return self


_distinct = "distinct"


def distinct(rows, f, key, order, dtype=None):
    memo = E.ghostmem.setdefault(_distinct, {})
    k = (id(rows), id(key), order)
    if k not in memo:
        d = Distinct(rows, f, order)
        d.siblings = [x for (a, b, o), (x, *_) in memo.items() if a == id(rows) and b == id(key)]
        for x in d.siblings:
            x.siblings = x.siblings + [d]
            E.fact(term(x.n) == term(d.n))
        memo[k] = (d, rows, key)
        rows.distincts = rows.distincts + [d]
    return memo[k][0]


def as_ids(x):
    """an object with member(id)"""
    if hasattr(x, "member"):
        return x
    if isinstance(x, VList):
        if x.sym is not None:
            return as_ids(x.sym)
        items = list(x)
        return types.SimpleNamespace(member=lambda v: sor(*[v == y for y in items]) if items else False, n=len(items))
    if isinstance(x, list):
        items = list(x)
        return types.SimpleNamespace(member=lambda v: sor(*[v == y for y in items]) if items else False, n=len(items))
    if isinstance(x, RowArr):
        return distinct(x.rows, x.f_, x.key, "first")
    if isinstance(x, rt.VSet):
        return x
    if isinstance(x, VSeq) and hasattr(x, "rowarr"):
        return as_ids(x.rowarr)
    unsupported("ids from %s" % type(x).__name__)


def codes_of(col, ids):
    f = col.f_

    def code(r):
        x = f(r)
        if isinstance(ids, Distinct):
            ids.touch(r)
        m = bterm(ids.member(x))
        return mkint(z3.If(m, term(ids.position(x)), z3.IntVal(-1)))
    return RowArr(col.rows, code, int64)


class Categorical:
    """pd.Categorical(values, categories)"""

    def __init__(self, values, categories=None, ordered=None, dtype=None):
        E.use("pandas.Categorical: codes are positions in the categories (-1 if absent); without categories these are the distinct values ascending")
        if not isinstance(values, RowArr):
            unsupported("Categorical of %s" % type(values).__name__)
        if categories is None:
            ids = distinct(values.rows, values.f_, values.key, "ascending")
        else:
            ids = as_id_seq(categories)
        self.categories = IdVec(ids, kind="index")
        self.codes = codes_of(values, ids)


def as_id_seq(x):
    if isinstance(x, IdSeq):
        return x
    if isinstance(x, IdVec):
        return x.ids_()
    if isinstance(x, VList) and isinstance(x.sym, IdSeq):
        return x.sym
    if isinstance(x, VList) and x.sym is None and list.__len__(x) == 0:
        return EmptyIds()
    if isinstance(x, VSeq) and getattr(x, "ids_src", None) is not None:
        return as_id_seq(x.ids_src)
    unsupported("categories from %s" % type(x).__name__)


class EmptyIds(IdSeq):
    def __init__(self):
        self.n, self.distinct, self.kind = 0, True, "list"

    def at(self, j):
        raise Infeasible()

    def member(self, x):
        return False

    def position(self, x):
        return E.int("nowhere")


# ---------------------------------------------------------------- series and frames
class Series(RowArr):
    series = True

    def isin(self, ids):
        E.use("pandas isin: membership of the value")
        ids = as_ids(ids)
        f = self.f_
        return self.like(lambda r: ids.member(f(r)), bool_)

    def unique(self):
        E.use("pandas unique: the distinct values in order of appearance")
        return IdVec(distinct(self.rows, self.f_, self.key, "first"))

    def drop_duplicates(self):
        return IdVec(distinct(self.rows, self.f_, self.key, "first"), kind="index")

    def nunique(self):
        return distinct(self.rows, self.f_, self.key, "first").n

    def value_counts(self, **k):
        E.use("pandas value_counts().reindex / map: the number of rows with that value")
        return Counts(self)

    def factorize(self, sort=False, **k):
        E.use("pandas factorize: codes are positions in the distinct values (ascending with sort=True)")
        ids = distinct(self.rows, self.f_, self.key, "ascending" if sort else "first")
        return codes_of(self, ids), IdVec(ids, kind="index")

    def map(self, m):
        f = self.f_
        if isinstance(m, Counts):
            return self.like(lambda r: m.get(f(r)), int64)
        if isinstance(m, rt.VMap):
            return self.like(lambda r: m[f(r)], object_)
        if callable(m):
            return self.like(lambda r: m(f(r)), object_)
        unsupported("Series.map")

    def fillna(self, v):
        return self

    @property
    def index(self):
        return RowIndex(self.rows)

    @property
    def str(self):
        unsupported("Series.str")

    @property
    def iloc(self):
        return ILoc(self)

    @property
    def loc(self):
        return Loc(self)

    def reset_index(self, drop=False):
        return self

    def groupby(self, by, **k):
        if isinstance(by, RowArr) and by.rows is self.rows:
            return GroupBy(Frame(self.rows, VDict({"_v": self})), by)
        unsupported("Series.groupby")

    def to_frame(self, *a):
        unsupported("to_frame")


class Counts:
    """value_counts: id -> number of rows"""

    def __init__(self, s):
        self.s = s
        self.count = s.rows.count(id(s.key), s.f_)

    def get(self, x):
        return self.count(x)

    def reindex(self, target):
        if not isinstance(target, RowArr):
            unsupported("reindex")
        s, g = self.s, target.f_
        ids = distinct(s.rows, s.f_, s.key, "first")

        def at(r):
            x = g(r)
            if target.rows is s.rows and target.key is s.key:
                c = self.count(x)
                E.fact(z3.Implies(s.rows.member(r), c.t >= 1))
                return tofloat(c)
            m = ids.member(x)
            v = flift(tofloat(self.count(x)))
            return SFloat(v.t, z3.If(bterm(m), z3.IntVal(0), z3.IntVal(2)))
        return Series(target.rows, at, float64)

    def __getitem__(self, target):
        return self.reindex(target)

    loc = property(lambda self: self)


class RowIndex:
    def __init__(self, rows):
        self.rows = rows

    def vlen(self):
        return self.rows.n

    @property
    def shape(self):
        return (self.rows.n,)

    @property
    def size(self):
        return self.rows.n


class ILoc:
    def __init__(self, o):
        self.o = o

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 1:
            key = key[0]
        if isinstance(key, PosIdx):
            if key.rows is not self.o.rows:
                unsupported("positions of another row set")
            return self.o._sub(key.sub)
        if isinstance(key, Arr) and key.dtype.kind_ == "b":
            return self.o._sub(mask_rows(self.o.rows, key))
        unsupported("iloc")


class Loc(ILoc):
    def __getitem__(self, key):
        if isinstance(key, Arr) and key.dtype.kind_ == "b":
            return self.o._sub(mask_rows(self.o.rows, key))
        if isinstance(key, tuple) and len(key) == 2 and isinstance(key[0], Arr) and key[0].dtype.kind_ == "b":
            f = self.o._sub(mask_rows(self.o.rows, key[0]))
            return f if isinstance(key[1], slice) else f[key[1]]
        unsupported("loc")


def _series_sub(self, rows):
    r = self.like(self.f_)
    r.rows, r.key, r.name = rows, self.key, self.name
    return r


RowArr._sub = _series_sub


class Frame:
    is_model = True

    def __init__(self, rows, cols):
        self.rows, self.cols = rows, cols       # name -> Series-like (f_, dtype, key)
        self.writes = []

    def _sub(self, rows):
        return Frame(rows, VDict(self.cols))

    def col(self, name):
        c = self.cols[name]
        s = Series(self.rows, c.f_, c.dtype, name, c.key)
        return s

    def __getitem__(self, key):
        if isinstance(key, str):
            if key not in self.cols:
                raise KeyError(key)
            return self.col(key)
        if isinstance(key, (list,)) and not (isinstance(key, VList) and key.sym is not None):
            names = list(key)
            if len(set(names)) != len(names):
                unsupported("repeated column selection")
            for n in names:
                if n not in self.cols:
                    raise KeyError(n)
            return Frame(self.rows, VDict((n, self.cols[n]) for n in names))
        if isinstance(key, Arr) and key.dtype.kind_ == "b":
            E.use("pandas boolean selection keeps exactly the rows satisfying the mask, in order")
            return self._sub(mask_rows(self.rows, key))
        unsupported("frame index %s" % type(key).__name__)

    def __setitem__(self, name, v):
        if isinstance(v, RowArr):
            if v.rows is not self.rows:
                unsupported("column from another row set (index alignment)")
            s = Series(self.rows, v.f_, v.dtype, name, v.key)
        elif isscalar(v):
            s = Series(self.rows, lambda r: v, object_ if isinstance(v, (str, SId, Token)) else as_arr(v).dtype, name)
        else:
            a = as_arr(v)
            if E.decide(term(a.shape[0]) != term(self.rows.n)):
                raise ValueError("Length of values does not match length of index")
            f, rows = a.snapshot(), self.rows
            s = Series(self.rows, lambda r: f(rows.pos(r)), a.dtype, name)
        self.writes.append(name)
        dict.__setitem__(self.cols, name, s)

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        cols = self.__dict__.get("cols", {})
        if a in cols:
            return self.col(a)
        unsupported("DataFrame.%s" % a)

    def v_isinstance(self, t):
        return t is PD.DataFrame or t is object

    @property
    def columns(self):
        return VList(list(self.cols.keys()))

    @property
    def shape(self):
        return (self.rows.n, len(self.cols))

    @property
    def empty(self):
        return mkbool(term(self.rows.n) == 0)

    def vlen(self):
        return self.rows.n

    @property
    def index(self):
        return RowIndex(self.rows)

    def copy(self, *a, **k):
        return Frame(self.rows, VDict(self.cols))

    def reset_index(self, drop=False, **k):
        if not drop:
            unsupported("reset_index keeping the index")
        return self.copy()

    def rename(self, columns=None, **k):
        return Frame(self.rows, VDict((columns.get(n, n), c) for n, c in self.cols.items()))

    def drop(self, columns=None, axis=None, **k):
        cs = columns if columns is not None else unsupported("drop")
        cs = [cs] if isinstance(cs, str) else list(cs)
        return Frame(self.rows, VDict((n, c) for n, c in self.cols.items() if n not in cs))

    def assign(self, **k):
        r = self.copy()
        for n, v in k.items():
            r[n] = v(r) if callable(v) else v
        return r

    @property
    def iloc(self):
        return ILoc(self)

    @property
    def loc(self):
        return Loc(self)

    def sort_values(self, by, ascending=True, kind="quicksort", ignore_index=False, **k):
        E.use("pandas sort_values: a permutation of the rows, ascending in the keys lexicographically (stable only when requested)")
        by = [by] if isinstance(by, str) else list(by)
        asc = [ascending] * len(by) if isinstance(ascending, bool) else list(ascending)
        cols = [self.cols[b] if b in self.cols else _raise(KeyError(b)) for b in by]
        new = Rows(self.rows.N, lambda r: self.rows.member(r), n=self.rows.n, hint="sorted")
        new.root = self.rows
        old = self.rows

        def le(a, b):
            """keys of row a are not after the keys of row b"""
            t = z3.BoolVal(True)
            if kind in ("stable", "mergesort"):
                t = term(old.pos(a)) < term(old.pos(b))
            for c, up in zip(reversed(cols), reversed(asc)):
                x, y = c.f(a), c.f(b)
                lt = bterm(x < y) if up else bterm(y < x)
                t = z3.Or(lt, z3.And(bterm(x == y), t))
            return t
        new.order_facts.append(le)
        return Frame(new, VDict(self.cols))

    def groupby(self, by, sort=True, **k):
        if isinstance(by, (list,)) and len(by) == 1:
            by = by[0]
        if not isinstance(by, str):
            if isinstance(by, RowArr) and by.rows is self.rows:
                return GroupBy(self, by)
            unsupported("groupby of several columns")
        return GroupBy(self, self[by])

    def drop_duplicates(self, subset=None, keep="first", **k):
        E.use("pandas drop_duplicates: keeps the first row of every distinct key")
        names = list(self.cols) if subset is None else [subset] if isinstance(subset, str) else list(subset)
        cols = [self[n] for n in names]
        if keep not in ("first", "last"):
            unsupported("drop_duplicates keep")
        rows = self.rows
        rep = E.func("rep", "int", "int")
        asked = []

        def same_key(a, b):
            return z3.And(*[bterm(c.f(a) == c.f(b)) for c in cols])

        def ask(r):
            if any(term(x).eq(term(r)) for x in asked):
                return
            p = rep(term(r))
            first = term(rows.pos(SInt(p))) <= term(rows.pos(r)) if keep == "first" else term(rows.pos(SInt(p))) >= term(rows.pos(r))
            E.fact(z3.Implies(rows.member(r), z3.And(rows.member(SInt(p)), same_key(SInt(p), r), rep(p) == p, first)))
            asked.append(r)
            for x in asked:
                if x is not r:
                    E.fact(z3.Implies(z3.And(rows.member(r), rows.member(x), same_key(r, x)), rep(term(r)) == rep(term(x))))

        def kept(r):
            for h in E.rowhints:
                ask(h)
            ask(r)
            return rep(term(r)) == term(r)
        f = Frame(rows.filter(object(), kept), VDict(self.cols))
        E.dedups.append(types.SimpleNamespace(rep=lambda r: SInt(rep(term(r))), ask=ask, rows=rows, cols=cols))
        return f

    def duplicated(self, subset=None, keep="first"):
        unsupported("duplicated")

    def to_csv(self, *a, **k):
        unsupported("to_csv")


def _raise(e):
    raise e


class GroupBy:
    def __init__(self, df, key):
        self.df, self.key = df, key

    def cumcount(self, ascending=True):
        E.use("pandas groupby.cumcount: the number of rows of the same group before (after, when descending) each row")
        E.note("group keys are not missing")
        rows, f = self.df.rows, self.key.f_
        c = E.func("cumcount", "int", "int")
        cnt = rows.count(id(self.key.key), f)
        asked = []

        def at(r):
            t = c(term(r))
            if not any(term(x).eq(term(r)) for x in asked):
                E.fact(z3.Implies(rows.member(r), z3.And(t >= 0, t < cnt(f(r)).t)))
                for x in asked:
                    both = z3.And(rows.member(r), rows.member(x), f(r).t == f(x).t)
                    pr, px = term(rows.pos(r)), term(rows.pos(x))
                    before = (pr < px) if ascending else (px < pr)
                    E.fact(z3.Implies(z3.And(both, term(r) != term(x)), z3.And(before == (t < c(term(x))), t != c(term(x)))))
                asked.append(r)
            return SInt(t)
        E.cumcounts.append(types.SimpleNamespace(rows=rows, key=f, at=at, cnt=cnt))
        return Series(rows, at, int64)

    def size(self):
        return Counts(self.key)

    def __getitem__(self, name):
        return GroupBy(self.df[[name]] if isinstance(name, str) else self.df[name], self.key)

    def transform(self, what):
        if what in ("size", "count"):
            cnt = self.df.rows.count(id(self.key.key), self.key.f_)
            return Series(self.df.rows, lambda r: cnt(self.key.f(r)), int64)
        unsupported("groupby.transform")

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return lambda *x, **k: unsupported("groupby.%s" % a)


class Rank:
    """LEMMA (proofs/Rank.lean): in a group of N rows with distinct ranks 0..N-1 exactly max(0, min(N, ceil(t))) ranks are below t"""

    @staticmethod
    def apply(c, u, t):
        N = c.cnt(u, define=True)
        t = flift(tofloat(t)).t
        ct = -z3.ToInt(-t)
        a = E.agg(((z3.IntVal(0), term(c.rows.N)),), lambda r: z3.RealVal(1),
                  lambda r: z3.And(c.rows.member(r), c.key(SInt(r)).t == u.t, z3.ToReal(term(c.at(SInt(r)))) < t))
        E.lemma("Rank", "of N distinct ranks 0..N-1 exactly max(0, min(N, ceil(t))) are below t")
        E.fact(a.t == z3.ToReal(z3.If(ct < 0, z3.IntVal(0), z3.If(ct < N.t, ct, N.t))))
        return a


def same_size(a, b, hints=lambda x: None):
    """LEMMA (proofs/SameSize.lean): duplicate-free sequences with the same members have the same length"""
    x = E.id("x")
    hints(x)
    if E.valid(bterm(a.member(x)) == bterm(b.member(x)), timeout=E.timeout_ms):
        E.lemma("SameSize", "duplicate-free sequences with the same members have the same length")
        E.fact(term(a.n) == term(b.n))
        return True
    return False


def concat(frames, ignore_index=False, axis=0, **k):
    E.use("pandas.concat: the rows of all parts, each once")
    fs = [f for f in frames]
    if not all(isinstance(f, Frame) for f in fs):
        unsupported("concat of %s" % [type(f).__name__ for f in fs])
    N = fs[0].rows.N
    names = list(fs[0].cols)
    for f in fs[1:]:
        if list(f.cols) != names or not term(f.rows.N).eq(term(N)) or any(f.cols[n].key is not fs[0].cols[n].key for n in names):
            unsupported("concat of unrelated frames")
    r = E.int("r", lo=0, hi=N)
    for i in range(len(fs)):
        for j in range(i):
            if not E.valid(z3.Not(z3.And(fs[i].rows.member(r), fs[j].rows.member(r)))):
                unsupported("concat of possibly overlapping parts")
    new = Rows(N, lambda r: z3.Or(*[f.rows.member(r) for f in fs]), hint="concat")
    return Frame(new, VDict(fs[0].cols))


class PD:
    DataFrame = None
    Series = Series
    Categorical = Categorical

    def __init__(self):
        self.api = types.SimpleNamespace(types=types.SimpleNamespace())

    def concat(self, frames, **k):
        return concat(frames, **k)

    def unique(self, s):
        return s.unique()

    def factorize(self, s, sort=False, **k):
        return Series(s.rows, s.f_, s.dtype, None, s.key).factorize(sort=sort)

    def Index(self, x):
        return IdVec(as_id_seq(x), kind="index")

    def isna(self, x):
        return x.elementwise(lambda v: False, bool_) if isinstance(x, RowArr) else unsupported("isna")

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return lambda *x, **k: unsupported("pandas.%s" % a)


class FrameMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Frame)


class DataFrame(metaclass=FrameMeta):
    """pd.DataFrame(...)"""

    def __new__(cls, data=None, columns=None, index=None, **k):
        if isinstance(data, dict) and data:
            cols = [(n, v) for n, v in data.items()]
            ra = [v for _, v in cols if isinstance(v, RowArr)]
            if ra:
                f = Frame(ra[0].rows, VDict())
                for n, v in cols:
                    f[n] = v
                return f
            arrs = [(n, None if isscalar(v) else v) for n, v in cols]
            first = [v for _, v in arrs if v is not None][0]
            N = rt.length(first) if not hasattr(first, "shape") else first.shape[0]
            f = Frame(root_rows(N, "frame"), VDict())
            for n, v in cols:
                f[n] = as_column(v)
            return f
        unsupported("DataFrame constructor")


def as_column(v):
    if isscalar(v) or isinstance(v, Arr):
        return v
    return as_arr(v)


PD.DataFrame = DataFrame


def np_unique(a, return_inverse=False, return_index=False, return_counts=False, **k):
    E.use("numpy.unique: the distinct values ascending; the inverse holds each element's position")
    if return_index or return_counts:
        unsupported("np.unique extras")
    if isinstance(a, RowArr):
        ids = distinct(a.rows, a.f_, a.key, "ascending")
        v = IdVec(ids)
        return (v, codes_of(a, ids)) if return_inverse else v
    unsupported("np.unique of %s" % type(a).__name__)


npmodel.np.unique = np_unique


def rand_shuffle(x):
    E.use("RandomState.shuffle: an arbitrary permutation in place")
    if isinstance(x, IdVec):
        x.shuffle()
    elif isinstance(x, VList) and isinstance(x.sym, IdSeq):
        x.sym = PermSeq(x.sym)
    elif isinstance(x, VList) and x.sym is None and list.__len__(x) <= 1:
        pass
    else:
        unsupported("shuffle of %s" % type(x).__name__)


class RandomState:
    def __init__(self, seed=None):
        self.seed = seed
        self.log, self.drawn = [], []

    def shuffle(self, x):
        self.log.append("shuffle")
        rand_shuffle(x)

    def randint(self, lo, hi=None, size=None, dtype=None):
        if size is not None:
            unsupported("randint array")
        r = E.int("rand")
        E.fact(sand(r >= (0 if hi is None else lo), r < (lo if hi is None else hi)))
        self.log.append("randint")
        self.drawn.append(r)
        return r

    def permutation(self, x):
        if isinstance(x, IdVec):
            return IdVec(PermSeq(x.ids_()))
        if isinstance(x, (int, SInt)):
            return npmodel.Perm(x)
        unsupported("permutation")


npmodel.Random.RandomState = RandomState
PDM = PD()
MODULES = {"pandas": PDM}


def sym_frame(N, cols, hint="df"):
    """arbitrary table: cols name -> 'id' | 'real' | 'int'"""
    rows = root_rows(N, hint)
    out = VDict()
    for n, kind in cols.items():
        f = E.func("%s_%s" % (hint, n), "int", "real" if kind == "real" else "int")
        mk = {"id": SId, "real": SFloat, "int": SInt}[kind]
        dict.__setitem__(out, n, Series(rows, lambda r, f=f, mk=mk: mk(f(term(r))), object_ if kind == "id" else float64 if kind == "real" else int64, n))
    return Frame(rows, out)
