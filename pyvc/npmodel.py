"""pyvc.npmodel - numpy arrays as functions of their indices (trusted contracts of numpy).

An Arr has a shape (python ints / SInt) and a cell function; basic slices are views onto their base, everything else copies.
"""
import types, math
import z3
from .core import *
from .core import E
from . import rt
from .rt import VSeq, VList, slice_bounds, smax, smin, is_symseq, length, iter_


def sel(c, a, b):
    """if c then a else b on scalars"""
    c = z3.simplify(bterm(c))
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, (SFloat, float)) or isinstance(b, (SFloat, float)):
        a, b = flift(tofloat(a)), flift(tofloat(b))
        k = a.k if a.k.eq(b.k) else z3.If(c, a.k, b.k)
        return SFloat(z3.If(c, a.t, b.t), z3.simplify(k))
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return mkbool(z3.If(c, bterm(a), bterm(b)))
    if isinstance(a, SId) and isinstance(b, SId):
        return SId(z3.If(c, a.t, b.t))
    if isinstance(a, (SInt, int, SBool)) and isinstance(b, (SInt, int, SBool)):
        return mkint(z3.If(c, to_int_term(a), to_int_term(b)))
    return a if E.decide(c) else b


# ---------------------------------------------------------------- dtypes
class DType:
    def __init__(self, name, kind):
        self.name, self.kind_ = name, kind
        self.is_int_type = kind == "i"
        d = "".join(c for c in name if c.isdigit())
        self.bits_ = int(d) if d else 64
        self.is_float_type = kind == "f"
        self.kind = {"i": "i", "f": "f", "b": "b", "O": "O"}[kind]

    def __call__(self, x=0):
        return cast(x, self)

    def __repr__(self):
        return self.name

    @property
    def type(self):
        return self

    def __eq__(self, o):
        try:
            return as_dtype(o).name == self.name
        except Exception:
            return False

    def __hash__(self):
        return hash(self.name)


float64, float32 = DType("float64", "f"), DType("float32", "f")
int64, int32, int8, int16 = DType("int64", "i"), DType("int32", "i"), DType("int8", "i"), DType("int16", "i")
bool_ = DType("bool", "b")
object_ = DType("object", "O")


class AnyDType(DType):
    """an arbitrary numeric element type (tagged)"""

    def __init__(self, name="anytype"):
        super().__init__(name, "f")


def as_dtype(d):
    if isinstance(d, DType):
        return d
    d = rt.REAL.get(d, d) if not isinstance(d, str) else d
    t = {float: float64, int: int64, bool: bool_, object: object_, "float64": float64, "float32": float32, "int64": int64, "int32": int32, "float": float64, "int": int64, "bool": bool_, "object": object_, str: object_,
         "i": int32, "f": float32, "d": float64, "l": int64, "f8": float64, "f4": float32, "i8": int64, "i4": int32}.get(d)
    if t is None:
        unsupported("dtype %r" % (d,))
    return t


def wrap_int(x, bits, unsigned=False):
    """two's-complement truncation to `bits` bits"""
    m, lim = 1 << bits, 1 << (bits - 1)
    t = term(x)
    if unsigned:
        return mkint(z3.simplify(t % m))
    return mkint(z3.If(z3.And(t >= -lim, t < lim), t, ((t + lim) % m) - lim))


def cast(x, dt, src=None):
    """value of x converted to dt"""
    if src is not None and src.name == dt.name:
        return x
    if dt.kind_ == "f":
        if isinstance(x, (SId,)):
            unsupported("cast of an opaque id to a number")
        v = tofloat(x)
        if dt.name == "float64":
            return v
        if E.exact:
            E.note("floating-point numbers, narrow ones included, are treated as exact real numbers")
            return v
        if isinstance(v, float):
            if v in (0.0, 1.0, -1.0) or v != v or math.isinf(v):
                return v
        v = flift(v)
        E.note("casts to types narrower than float64 are treated as arbitrary but fixed roundings")
        f = z3.Function("round_" + dt.name, z3.RealSort(), z3.RealSort())
        r = f(v.t)
        # 0 and the sign class are preserved by every rounding; small integers exactly
        E.fact(z3.Implies(v.t == 0, r == 0))
        return SFloat(r, v.k)
    if dt.kind_ == "i":
        if isinstance(x, (SInt, int)) and not isinstance(x, bool):
            if dt.bits_ < 64:
                if dt.bits_ < 32:
                    lim = 1 << (dt.bits_ - 1)
                    if isinstance(x, int) and -lim <= x < lim:
                        return x
                    return wrap_int(x, dt.bits_, dt.name.startswith("u"))
                E.note("integers fit their element type (32 bits or more)")
            return x
        if isinstance(x, (SBool, bool)):
            return x.as_int() if isinstance(x, SBool) else int(x)
        v = flift(tofloat(x))
        if not v.fin:
            unsupported("cast of possibly infinite value to int")
        return v.__trunc__()
    if dt.kind_ == "b":
        if isinstance(x, (bool, SBool)):
            return x
        return x != 0
    return x


# ---------------------------------------------------------------- arrays
def idx_eq(a, b):
    return term(a) == term(b)


class Arr:
    is_model = True
    symbolic_iter = True
    __array_ufunc__ = None
    __hash__ = object.__hash__

    def __init__(self, shape, at, dtype=float64, base=None, fwd=None, inv=None):
        self.shape = tuple(shape)
        self._at = at
        self.dtype = dtype
        self.base, self.fwd, self.inv = base, fwd, inv
        self.memo = {}
        self.stamp, self.mut = (next(E.counter), -1) if E._e is not None else (-1, -1)

    # views: fwd: view idx tuple -> base idx tuple; inv: base idx tuple -> (cond, view idx tuple)
    def at(self, *idx):
        if len(idx) != len(self.shape):
            unsupported("wrong number of indices")
        idx = tuple(SInt(i) if z3.is_expr(i) else i for i in idx)
        if self.base is not None:
            return self.base.at(*self.fwd(idx))
        if E.since:
            rt.fresh_read(self)
        if E.recording:
            self.read_in_loop()
        key = tuple(term(i).get_id() for i in idx)
        if key in self.memo:
            return self.memo[key][0]
        v = self._at(*idx)
        if not E.sub:
            self.memo[key] = (v, idx)
        return v

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = r * s
        return r

    @property
    def n(self):
        return self.shape[0]

    def vlen(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def __len__(self):
        return rt.builtins.int(self.shape[0]) if isinstance(self.shape[0], int) else unsupported("native len of array")

    def viter(self):
        return VSeq(self.shape[0], lambda k: self.at(k) if self.ndim == 1 else self[k], "gen")

    def __iter__(self):
        if isinstance(self.shape[0], int):
            return iter([self[k] for k in range(self.shape[0])])
        unsupported("native iteration over array")

    def v_isinstance(self, t):
        return t is ndarray or t is object

    @property
    def T(self):
        if self.ndim == 1:
            return self
        return Arr((self.shape[1], self.shape[0]), None, self.dtype, base=self, fwd=lambda ix: (ix[1], ix[0]), inv=lambda ix: (z3.BoolVal(True), (ix[1], ix[0])))

    def transpose(self, *a):
        return self.T

    @property
    def flags(self):
        a = self

        class F:
            writeable = True

            @property
            def c_contiguous(f):
                """the memory layout is not tracked: either is possible"""
                if getattr(a, "ccontig", None) is None:
                    a.ccontig = E.choose(2, "memory layout") == 0
                return a.ccontig
        return F()

    @property
    def nbytes(self):
        return self.size

    @property
    def A1(self):
        return self.ravel()

    @property
    def A(self):
        return self

    @property
    def values(self):
        return self

    def to_numpy(self, *a, **k):
        return self

    def ravel(self, *a):
        if self.ndim == 1:
            return self
        if self.ndim == 2 and is_one(self.shape[1]):
            return Arr((self.shape[0],), lambda i: self.at(i, 0), self.dtype)
        if self.ndim == 2 and is_one(self.shape[0]):
            return Arr((self.shape[1],), lambda i: self.at(0, i), self.dtype)
        unsupported("ravel")

    flatten = ravel
    squeeze = ravel

    def reshape(self, *sh):
        sh = sh[0] if len(sh) == 1 and isinstance(sh[0], tuple) else sh
        if self.ndim == 1:
            if len(sh) == 1:
                return self
            if sh == (-1, 1) or (len(sh) == 2 and is_one(sh[1])):
                return self[:, None]
            if sh == (1, -1) or (len(sh) == 2 and is_one(sh[0])):
                return self[None, :]
        if self.ndim == 2 and len(sh) == 1:
            return self.ravel()
        if self.ndim == 2 and len(sh) == 2 and all(E.valid(term(a) == term(b)) for a, b in zip(sh, self.shape) if a != -1):
            return self
        unsupported("reshape")

    def copy(self, *a, **k):
        snap = self.snapshot()
        return Arr(self.shape, snap, self.dtype)

    def read_in_loop(self):
        rec = E.recorder(self)
        if rec is not None and hasattr(rec, "info"):
            rec.info.read[id(self)] = self

    def snapshot(self):
        """cell function of the current contents (later writes not seen)"""
        if self.base is not None:
            b, f = self.base.snapshot(), self.fwd
            return lambda *idx: b(*f(idx))
        if E.since:
            rt.fresh_read(self)
        if E.recording:
            self.read_in_loop()
        at, memo = self._at, self.memo

        def read(*idx):
            idx = tuple(SInt(i) if z3.is_expr(i) else i for i in idx)
            key = tuple(term(i).get_id() for i in idx)
            if key in memo:
                return memo[key][0]
            v = at(*idx)
            if not E.sub:
                memo[key] = (v, idx)
            return v
        return read

    def astype(self, dt, copy=True, **k):
        dt = as_dtype(dt)
        if not copy and dt.name == self.dtype.name:
            return self
        s, d0 = self.snapshot(), self.dtype
        return Arr(self.shape, lambda *i: cast(s(*i), dt, d0), dt)

    def tolist(self):
        if self.ndim == 1:
            s = self.snapshot()
            r = VSeq(self.shape[0], lambda k: s(k))
            return r
        if self.ndim == 2:
            s = self.snapshot()
            return VSeq(self.shape[0], lambda k: VSeq(self.shape[1], lambda j: s(k, j)))
        unsupported("tolist")

    def item(self):
        return self.at(*([0] * self.ndim))

    def toarray(self):
        return self

    def fill(self, v):
        self._update(lambda *i: z3.BoolVal(True), lambda *i: v)

    # ---- reading
    def _norm_index(self, k, n, axis):
        """integer index -> in-range term, raising IndexError"""
        if isinstance(k, int) and isinstance(n, int):
            if not -n <= k < n:
                raise IndexError("index %d is out of bounds" % k)
            return k + n if k < 0 else k
        if E.decide(z3.Or(term(k) < -term(n), term(k) >= term(n))):
            raise IndexError("index out of bounds")
        return mkint(z3.If(term(k) < 0, term(k) + term(n), term(k)))

    def __getitem__(self, key):
        if isinstance(key, NZPair):
            key = tuple(key)
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        if Ellipsis in [k for k in key if not isinstance(k, (Sym, Arr, NZComp))]:
            j = [i for i, k in enumerate(key) if k is Ellipsis][0]
            fill = self.ndim - (len([k for k in key if k is not None]) - 1)
            key[j:j + 1] = [slice(None)] * fill
        while len([k for k in key if k is not None]) < self.ndim:
            key.append(slice(None))
        if getattr(self, "npmatrix", False) and any(isinstance(k, (int, SInt)) or k is None for k in key):
            unsupported("row or column of a numpy.matrix")
        if any(isinstance(k, NZComp) for k in key):
            return self._get_nz(key)
        key = [as_index(k) for k in key]
        if len([k for k in key if k is not None]) != self.ndim:
            if len(key) == 2 and isinstance(key[0], Arr) and key[0].ndim == 2 and key[0].dtype.kind_ == "b":
                unsupported("2-d boolean mask read")
            raise IndexError("too many indices for array")
        # plan: per output axis a function from output index to base index
        fancy = [k for k in key if isinstance(k, Arr)]
        if any(k.dtype.kind_ == "b" for k in fancy):
            return self._get_mask(key)
        if len(fancy) > 1:
            return self._get_fancy2(key)
        out_shape, plan, axis = [], [], 0
        basic = not fancy
        for k in key:
            if k is None:
                out_shape.append(1)
                plan.append(("new",))
                continue
            n = self.shape[axis]
            if isinstance(k, slice):
                if k.step not in (None, 1):
                    if k.step == -1 and k.start is None and k.stop is None:
                        out_shape.append(n)
                        plan.append(("rev", n))
                        axis += 1
                        continue
                    unsupported("slice step")
                lo, hi = slice_bounds(k, n)
                out_shape.append(n if k.start is None and k.stop is None else smax(hi - lo, 0))
                plan.append(("slice", lo))
            elif isinstance(k, Arr):
                if k.ndim != 1:
                    unsupported("fancy index of dimension %d" % k.ndim)
                check_bounds(k, n)
                out_shape.append(k.shape[0])
                plan.append(("fancy", k.snapshot(), n))
            else:
                plan.append(("int", self._norm_index(k, n, axis)))
            axis += 1

        def fwd(ix):
            ix = list(ix)
            out = []
            for p in plan:
                if p[0] == "new":
                    ix.pop(0)
                elif p[0] == "slice":
                    out.append(p[1] + ix.pop(0))
                elif p[0] == "rev":
                    out.append(p[1] - 1 - ix.pop(0))
                elif p[0] == "fancy":
                    out.append(wrap_index(p[1](ix.pop(0)), p[2]))
                else:
                    out.append(p[1])
            return tuple(out)

        if not out_shape:
            return self.at(*fwd(()))
        if basic:
            def inv(bx):
                cond, vx, bi = [], [], 0
                oi = 0
                for p in plan:
                    if p[0] == "new":
                        vx.append(0)
                        oi += 1
                    elif p[0] == "slice":
                        v = bx[bi] - p[1]
                        cond.append(z3.And(term(v) >= 0, term(v) < term(out_shape[oi])))
                        vx.append(v)
                        bi += 1; oi += 1
                    elif p[0] == "rev":
                        vx.append(p[1] - 1 - bx[bi])
                        bi += 1; oi += 1
                    else:
                        cond.append(term(bx[bi]) == term(p[1]))
                        bi += 1
                return z3.And(*cond) if cond else z3.BoolVal(True), tuple(vx)
            return Arr(out_shape, None, self.dtype, base=self, fwd=fwd, inv=inv)
        s = self.snapshot()
        return Arr(out_shape, lambda *ix: s(*fwd(ix)), self.dtype)

    def _get_mask(self, key):
        unsupported("boolean mask read")

    def _pair(self, key):
        """two index arrays of one dimension and the same length"""
        if self.ndim != 2 or len(key) != 2 or not all(isinstance(k, Arr) and k.ndim == 1 and k.dtype.kind_ == "i" for k in key):
            unsupported("several index arrays")
        need_same_shape(key[0].shape, key[1].shape)
        for k, n in zip(key, self.shape):
            check_bounds(k, n)

    def _get_fancy2(self, key):
        self._pair(key)
        a, b, s, sh = key[0].snapshot(), key[1].snapshot(), self.snapshot(), self.shape
        return Arr(key[0].shape, lambda i: s(wrap_index(a(i), sh[0]), wrap_index(b(i), sh[1])), self.dtype)

    def _set_fancy2(self, key, val):
        self._pair(key)
        v = (lambda i: val) if isscalar(val) else broadcast_to(as_arr(val), key[0].shape)
        n = key[0].shape[0]
        for x in (0, 1):
            # one of the index arrays counts 0, 1, 2, ...: that index is the position in the arrays
            q = E.int("q", lo=0, hi=n)
            if E.valid(z3.Implies(z3.And(q.t >= 0, q.t < term(n)), term(key[x].at(q)) == q.t)):
                o, so = key[1 - x].snapshot(), self.shape[1 - x]
                return self._update(lambda i, j: (lambda p, r: z3.And(term(p) >= 0, term(p) < term(n), term(wrap_index(o(p), so)) == term(r)))(*((i, j) if x == 0 else (j, i))), lambda i, j: v((i, j)[x]))
        unsupported("store at arbitrary pairs of positions")

    def _get_nz(self, key):
        ks = [k for k in key if k is not None]
        if not all(isinstance(k, NZComp) for k in ks) or len(ks) != self.ndim:
            if self.ndim == 1 or sum(isinstance(k, NZComp) for k in ks) == 1:
                return self[tuple(as_arr(k) if isinstance(k, NZComp) else k for k in key)]
            unsupported("read at nonzero positions")
        s = self.snapshot()
        if len(ks) == 2 and ks[0].nz is not ks[1].nz:
            unsupported("positions of different enumerations")
        for k, n in zip(ks, self.shape):
            check_bounds(as_arr(k), n)
        return Arr((ks[0].n,), lambda i: s(*[wrap_index(k.at(i), n) for k, n in zip(ks, self.shape)]), self.dtype)

    # ---- writing
    def _update(self, cond, val):
        """cells satisfying cond(idx) get val(idx)"""
        if E.loops_active:
            rt.note_write(self.root())
        if self.base is not None:
            b, inv = self.base, self.inv
            b._update(lambda *bx: z3.And(inv(bx)[0], bterm(cond(*inv(bx)[1]))), lambda *bx: val(*inv(bx)[1]))
            return
        old, dt = self._at, self.dtype
        rec = E.recorder(self) if E.recording else None
        if rec is not None:
            if not hasattr(rec, "info"):
                unsupported("array store in a summarised loop")
            rec.append((self, "store", (cond, val)))
            return
        self._at = lambda *ix: sel(cond(*ix), cast(val(*ix), dt), old(*ix))
        self.memo = {}
        self.mut = next(E.counter)

    def absorb_loop(self, it, mine, ops, counts):
        """stores of a loop whose iteration k writes only to row (or column) k"""
        if ops != {"store"} or E.recorder(self) is not None:
            unsupported("array store in a summarised loop")
        last = getattr(mine, "last", it.n)

        def own(ax):
            def one():
                k = E.int("k", lo=0, hi=last)
                ix = [E.int("ix", lo=0, hi=n) for n in self.shape]
                return all(E.valid(z3.Implies(bterm(c(*ix)), ix[ax].t == k.t)) for _, _, (c, v) in mine(k))
            return all(E.subexplore(one))
        ax = next((a for a in range(self.ndim) if own(a)), None)
        if ax is None:
            unsupported("array cells stored by several iterations")
        old, dt, memo = self._at, self.dtype, {}

        def at(*ix):
            k = ix[ax]
            if not E.decide(z3.And(term(k) >= 0, term(k) < term(last))):
                return old(*ix)
            t = z3.simplify(term(k))
            if t.get_id() not in memo:
                es = mine(k)
                if not E.sub:
                    memo[t.get_id()] = (t, es)
            else:
                es = memo[t.get_id()][1]
            v = old(*ix)
            for _, _, (c, f) in es:
                v = sel(c(*ix), cast(f(*ix), dt), v)
            return v
        rt.note_write(self)
        self._at, self.memo, self.mut = at, {}, next(E.counter)

    def root(self):
        return self if self.base is None else self.base.root()

    def __setitem__(self, key, val):
        if isinstance(key, NZPair):
            key = tuple(key)
        if isinstance(key, tuple) and any(isinstance(k, NZComp) for k in key):
            return self._set_nz(key, val)
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        key = [k if k is Ellipsis else as_index(k) for k in key]
        if len(key) == 1 and isinstance(key[0], Arr) and key[0].dtype.kind_ == "b":
            m = key[0]
            if m.ndim != self.ndim:
                if m.ndim == 1 and self.ndim == 2 and isscalar(val):
                    s = m.snapshot()
                    return self._update(lambda i, j: bterm(s(i)), lambda i, j: val)
                unsupported("mask of other dimension")
            need_same_shape(m.shape, self.shape)
            if not isscalar(val):
                unsupported("mask store of an array")
            s = m.snapshot()
            return self._update(lambda *ix: bterm(s(*ix)), lambda *ix: val)
        if any(isinstance(k, Arr) for k in key):
            fs = [k for k in key if isinstance(k, Arr)]
            if len(fs) == 1 and fs[0].ndim == 1 and fs[0].dtype.kind_ == "i":
                return self._set_fancy(key, val)
            if len(fs) == 2:
                return self._set_fancy2(key, val)
            unsupported("fancy store %r" % ([(type(k).__name__, getattr(k, "dtype", None), getattr(k, "shape", None)) for k in key],))
        view = self[tuple(key)] if not all(isinstance(k, (int, SInt)) for k in key) or len(key) < self.ndim else None
        if view is None:
            ix0 = [self._norm_index(k, n, 0) for k, n in zip(key, self.shape)]
            return self._update(lambda *ix: z3.And(*[term(a) == term(b) for a, b in zip(ix, ix0)]), lambda *ix: val)
        if not isinstance(view, Arr):
            unsupported("store")
        v = as_arr(val) if not isscalar(val) else None
        if v is None:
            view._update(lambda *ix: z3.BoolVal(True), lambda *ix: val)
        else:
            f = broadcast_to(v, view.shape)
            view._update(lambda *ix: z3.BoolVal(True), lambda *ix: f(*ix))

    def _set_fancy(self, key, val):
        if not isscalar(val):
            unsupported("fancy store of an array")
        while len(key) < self.ndim:
            key.append(slice(None))
        ax = [i for i, k in enumerate(key) if isinstance(k, Arr)][0]
        k = key[ax]
        check_bounds(k, self.shape[ax])
        others = []
        for i, (q, n) in enumerate(zip(key, self.shape)):
            if i == ax:
                others.append(None)
            elif isinstance(q, slice):
                others.append(("s",) + slice_bounds(q, n))
            else:
                others.append(("i", self._norm_index(q, n, i)))
        hit = member_fn(k, self.shape[ax])

        def cond(*ix):
            c = [bterm(hit(ix[ax]))]
            for i, o in enumerate(others):
                if o is None:
                    continue
                if o[0] == "s":
                    c.append(z3.And(term(ix[i]) >= term(o[1]), term(ix[i]) < term(o[2])))
                else:
                    c.append(term(ix[i]) == term(o[1]))
            return z3.And(*c)
        self._update(cond, lambda *ix: val)

    def _set_nz(self, key, val):
        if not isscalar(val) or len(key) != 2 or self.ndim != 2:
            unsupported("store at nonzero positions")
        a, b = key
        if isinstance(a, NZComp) and isinstance(b, NZComp) and a.nz is b.nz and {a.axis, b.axis} == {0, 1}:
            pass
        else:
            unsupported("store at mixed positions")
        nz = a.nz
        # position (i, j) of this array is hit iff (i - a.shift, j - b.shift) (in the right order) is a nonzero of nz
        src_shape = nz.shape

        def hit(i, j):
            p, q = i - a.shift, j - b.shift
            r, c = (p, q) if a.axis == 0 else (q, p)
            inr = z3.And(term(r) >= 0, term(r) < term(src_shape[0]), term(c) >= 0, term(c) < term(src_shape[1]))
            return z3.And(inr, bterm(nz.pred(r, c)))
        # out-of-range positions raise (negative ones wrap, not modelled)
        dims = (self.shape[0], self.shape[1])
        srcd = (src_shape[a.axis], src_shape[b.axis])
        fits = z3.And(*[z3.And(term(x.shift) >= 0, term(d) + term(x.shift) <= term(n)) for x, d, n in ((a, srcd[0], dims[0]), (b, srcd[1], dims[1]))])
        if not E.valid(fits):
            if E.choose(2, "nonzero position out of range") == 1:
                r, c = E.int("nzr", lo=0, hi=src_shape[0]), E.int("nzc", lo=0, hi=src_shape[1])
                E.assume(nz.pred(r, c))
                p = (r, c) if a.axis == 0 else (c, r)
                E.assume(z3.Or(term(p[0] + a.shift) >= term(dims[0]), term(p[1] + b.shift) >= term(dims[1])))
                raise IndexError("index out of bounds")
            if not E.valid(z3.And(term(a.shift) >= 0, term(b.shift) >= 0)):
                unsupported("possibly negative positions")
        self._update(hit, lambda i, j: val)

    # ---- arithmetic
    def _bin(self, o, f, dt=None, rev=False):
        if o is NotImplemented or isinstance(o, (str,)):
            return NotImplemented
        if getattr(o, "is_sparse", False):
            return NotImplemented
        if not isinstance(o, Arr) and not isscalar(o) and not is_symseq(o) and not isinstance(o, (list, tuple)):
            return NotImplemented
        if getattr(o, "rowspace", False) and not getattr(self, "rowspace", False) and self.ndim == 1:
            return o._bin(self, f, dt, not rev)
        g = (lambda a, b: f(b, a)) if rev else f
        s = self.snapshot()
        if isscalar(o):
            return Arr(self.shape, lambda *i: g(s(*i), o), dt or promote(self.dtype, o))
        o = as_arr(o)
        sh = broadcast_shape(self.shape, o.shape)
        fa, fb = broadcast_to(self, sh), broadcast_to(o, sh)
        return Arr(sh, lambda *i: g(fa(*i), fb(*i)), dt or promote(self.dtype, o.dtype))

    def __add__(self, o): return self._bin(o, npop(lambda a, b: a + b))
    def __radd__(self, o): return self._bin(o, npop(lambda a, b: a + b), rev=True)
    def __sub__(self, o): return self._bin(o, npop(lambda a, b: a - b))
    def __rsub__(self, o): return self._bin(o, npop(lambda a, b: a - b), rev=True)
    def __mul__(self, o):
        if not isscalar(o) and (getattr(self, "npmatrix", False) or getattr(o, "npmatrix", False)):
            unsupported("product of numpy.matrix objects")
        return self._bin(o, npop(lambda a, b: a * b))

    def __rmul__(self, o): return self._bin(o, npop(lambda a, b: a * b), rev=True)
    def __truediv__(self, o): return self._bin(o, npdiv, float64)
    def __rtruediv__(self, o): return self._bin(o, npdiv, float64, rev=True)
    def __pow__(self, o): return self._bin(o, npop(lambda a, b: a ** b))
    def __rpow__(self, o): return self._bin(o, npop(lambda a, b: a ** b), rev=True)
    def __floordiv__(self, o): return self._bin(o, npop(lambda a, b: a // b))
    def __mod__(self, o): return self._bin(o, npop(lambda a, b: a % b))
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b, bool_)
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b, bool_)
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b, bool_)
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b, bool_)
    def __eq__(self, o): return self._bin(o, lambda a, b: a == b, bool_)
    def __ne__(self, o): return self._bin(o, lambda a, b: snot(a == b), bool_)
    def __and__(self, o): return self._bin(o, lambda a, b: a & b, bool_)
    def __or__(self, o): return self._bin(o, lambda a, b: a | b, bool_)
    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        s = self.snapshot()
        if self.dtype.kind_ != "b":
            unsupported("~ of non-boolean array")
        return Arr(self.shape, lambda *i: snot(s(*i)), bool_)

    def __neg__(self):
        s = self.snapshot()
        return Arr(self.shape, lambda *i: -s(*i), self.dtype)

    def __abs__(self):
        s = self.snapshot()
        return Arr(self.shape, lambda *i: abs(s(*i)), self.dtype)

    def _iop(self, r):
        if r is NotImplemented:
            return r
        sh = r.shape
        need_same_shape(sh, self.shape)
        s = r.snapshot()
        self._update(lambda *i: z3.BoolVal(True), lambda *i: s(*i))
        return self

    def __iadd__(self, o): return self._iop(self + o)
    def __isub__(self, o): return self._iop(self - o)
    def __imul__(self, o): return self._iop(self * o)
    def __itruediv__(self, o): return self._iop(self / o)
    def __iand__(self, o): return self._iop(self & o)
    def __ior__(self, o): return self._iop(self | o)

    def __bool__(self):
        if all(isinstance(s, int) and s == 1 for s in self.shape):
            return bool(self.item())
        unsupported("truth value of an array")

    def dot(self, o):
        return matmul(self, o)

    __matmul__ = dot

    def __rmatmul__(self, o):
        return matmul(o, self)

    # ---- reductions
    def sum(self, axis=None, dtype=None, keepdims=False, **k):
        return reduce_sum(self, axis, keepdims)

    def mean(self, axis=None):
        unsupported("mean")

    def any(self, axis=None):
        unsupported("any of an array")

    def all(self, axis=None):
        unsupported("all of an array")

    def max(self, *a, **k):
        unsupported("max of an array")

    min = max

    def nonzero(self):
        if self.ndim == 2:
            s = self.snapshot()
            return NZ(self.shape, lambda i, j: bterm(s(i, j)) if self.dtype.kind_ == "b" else z3.Not(same(s(i, j), 0.0 if self.dtype.kind_ == "f" else 0))).pair()
        if self.ndim == 1:
            s = self.snapshot()
            return (WhereIdx(self.shape[0], lambda i: bterm(s(i)) if self.dtype.kind_ == "b" else z3.Not(same(s(i), 0))),)
        unsupported("nonzero")

    def argsort(self, *a, **k):
        return argsort(self, *a, **k)

    def repeat(self, *a, **k):
        unsupported("repeat")

    def sort(self, *a, **k):
        unsupported("in-place sort")

    def setflags(self, **k):
        pass

    # ---- loop support
    def v_shape(self):
        return ("opaque", "Arr")


ndarray = Arr


class WhereIdx:
    """np.where(mask)[0] / mask.nonzero()[0]: the increasing positions satisfying a predicate"""

    def __init__(self, n, pred):
        self.n_, self.pred = n, pred


def npop(f):
    return f


def npdiv(a, b):
    old, E.numpy_div = E.numpy_div, True
    try:
        return fdiv(tofloat(a), tofloat(b))
    finally:
        E.numpy_div = old


def isscalar(x):
    return isinstance(x, (Sym, int, float, bool)) or x is None or isinstance(x, (str, Token))


def is_one(x):
    return isinstance(x, int) and x == 1 or (isinstance(x, SInt) and E.valid(x.t == 1))


def promote(d, o):
    if isinstance(o, DType):
        k = {"O": 3, "f": 2, "i": 1, "b": 0}
        if d.name == o.name:
            return d
        if d.kind_ == "f" and o.kind_ == "f":
            return float64 if "float64" in (d.name, o.name) else d
        return d if k[d.kind_] >= k[o.kind_] else o
    if isinstance(o, (float, SFloat)) and d.kind_ != "f":
        return float64
    if isinstance(o, (int, SInt)) and d.kind_ == "b" and not isinstance(o, bool):
        return int64
    return d


def need_same_shape(a, b):
    if len(a) != len(b):
        raise ValueError("shape mismatch")
    for x, y in zip(a, b):
        if E.decide(term(x) != term(y)):
            raise ValueError("shape mismatch")


def broadcast_shape(a, b):
    n = max(len(a), len(b))
    a = (1,) * (n - len(a)) + tuple(a)
    b = (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if is_one(x):
            out.append(y)
        elif is_one(y):
            out.append(x)
        else:
            if E.decide(term(x) != term(y)):
                if E.decide(z3.Or(term(x) == 1, term(y) == 1)):
                    out.append(y if E.decide(term(x) == 1) else x)
                    continue
                raise ValueError("operands could not be broadcast together")
            out.append(x)
    return tuple(out)


def broadcast_to(v, shape):
    """cell function of v broadcast to shape"""
    s = v.snapshot()
    off = len(shape) - len(v.shape)
    if off < 0:
        if all(is_one(x) for x in v.shape[:-off]):
            k = -off
            return lambda *ix: s(*([0] * k + list(ix)))
        raise ValueError("could not broadcast")
    ones = []
    for x, y in zip(v.shape, shape[off:]):
        one = is_one(x) and not is_one(y)
        if not one and E.decide(term(x) != term(y)):
            if E.decide(term(x) == 1):
                one = True
            else:
                raise ValueError("could not broadcast")
        ones.append(one)
    return lambda *ix: s(*[0 if o else i for o, i in zip(ones, ix[off:])])


def as_index(k):
    if k is None or isinstance(k, (slice, int, SInt, Arr)) and not isinstance(k, bool):
        return k
    if isinstance(k, SBool) or isinstance(k, bool):
        unsupported("boolean scalar index")
    if is_symseq(k) or isinstance(k, (list,)):
        q = k.sym if isinstance(k, VList) and k.sym is not None else k
        if hasattr(q, "viter") and not isinstance(q, (VSeq, list)):
            q = q.viter()
        if isinstance(q, VSeq) and not isinstance(q, rt.IdSeq) and guess(q, int64) is int64 or isinstance(q, list) and len(q) == 0:
            return as_arr(q, int64)     # an empty list is a valid index
        return as_arr(k)
    if isinstance(k, WhereIdx) or hasattr(k, "as_index_arr"):
        unsupported("index by positions")
    unsupported("index of type %s" % type(k).__name__)


def wrap_index(v, n):
    """numpy's negative index wrap"""
    if isinstance(v, int) and v >= 0:
        return v
    return mkint(z3.If(term(v) < 0, term(v) + term(n), term(v)))


def check_bounds(k, n):
    """every entry of the index array in [-n, n): explore the raising case, remember the fact otherwise"""
    j = E.int("bi", lo=0, hi=k.shape[0])
    v = k.at(j)
    bad = z3.Or(term(v) < -term(n), term(v) >= term(n))
    if E.valid(z3.Not(bad)):
        return
    if E.choose(2, "index array out of bounds") == 1:
        E.assume(bad)
        raise IndexError("index out of bounds")
    if k.base is None:
        at = k._at
        nt = n

        def at2(i):
            x = at(i)
            E.fact(z3.Implies(z3.And(term(i) >= 0, term(i) < term(k.shape[0])), z3.And(term(x) >= -term(nt), term(x) < term(nt))))
            return x
        k._at = at2
        k.memo = {}


def member_fn(k, n):
    """i -> 'i occurs in the index array k' (skolemised both ways through a position function)"""
    if hasattr(k, "hit"):
        return k.hit
    pos = E.func("occ", "int", "int")
    mem = E.func("occurs", "int", "bool")
    s = k.snapshot()
    old = k._at

    def hit(i):
        p = SInt(pos(term(i)))
        hints = list(E.hints)
        if getattr(getattr(k, "src_seq", None), "filtered", None) is not None and E.member_hint is not None:
            # only positions of the array have elements
            hints += [h for h in [E.member_hint(k.src_seq.filtered, i)] if h is not None]
            if E.decide(mem(term(i))):
                E.fact(z3.And(p.t >= 0, p.t < term(k.shape[0])))
                E.fact(term(wrap_index(s(p), n)) == term(i))
                return True
        else:
            v = wrap_index(s(p), n)
            E.fact(z3.Implies(mem(term(i)), z3.And(p.t >= 0, p.t < term(k.shape[0]), term(v) == term(i))))
        for h in hints:
            w = wrap_index(s(h), n)
            E.fact(z3.Implies(z3.And(term(h) >= 0, term(h) < term(k.shape[0])), mem(term(w))))
        return mkbool(mem(term(i)))
    return hit


class NZ:
    """the nonzero positions of a matrix, as returned by .nonzero()"""

    def __init__(self, shape, pred):
        self.shape, self.pred = shape, pred

    def pair(self):
        return NZPair((NZComp(self, 0), NZComp(self, 1)))


class NZPair(tuple):
    pass


class NZComp:
    """rows (axis 0) or columns (axis 1) of the nonzero positions, in their common order"""
    is_model = True
    symbolic_iter = True
    __array_ufunc__ = None

    def __init__(self, nz, axis, shift=0):
        self.nz, self.axis, self.shift = nz, axis, shift

    def __add__(self, o):
        return NZComp(self.nz, self.axis, self.shift + o) if isinstance(o, (int, SInt)) else unsupported("arithmetic on positions")

    __radd__ = __add__

    def __sub__(self, o):
        return NZComp(self.nz, self.axis, self.shift - o) if isinstance(o, (int, SInt)) else unsupported("arithmetic on positions")

    def _seq(self):
        nz = self.nz
        if not hasattr(nz, "enum"):
            n = E.int("nnz", lo=0)
            nz.enum = (n, E.func("nzrow", "int", "int"), E.func("nzcol", "int", "int"), E.func("nzpos", "int", "int", "int"))
            nz.asked = []
        return nz.enum

    @property
    def n(self):
        return self._seq()[0]

    def vlen(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    def find(self, r, c):
        """position of cell (r, c) if it is nonzero, else None"""
        n, fr, fc, pos = self._seq()
        nz = self.nz
        r, c = SInt(term(r)), SInt(term(c))
        if not E.decide(z3.And(r.t >= 0, r.t < term(nz.shape[0]), c.t >= 0, c.t < term(nz.shape[1]), bterm(nz.pred(r, c)))):
            return None
        k = pos(r.t, c.t)
        E.fact(z3.And(k >= 0, k < n.t, fr(k) == r.t, fc(k) == c.t))
        return SInt(k)

    def at(self, k):
        n, fr, fc, pos = self._seq()
        r, c = fr(term(k)), fc(term(k))
        nz = self.nz
        E.fact(z3.Implies(z3.And(term(k) >= 0, term(k) < n.t), z3.And(r >= 0, r < term(nz.shape[0]), c >= 0, c < term(nz.shape[1]), bterm(nz.pred(SInt(r), SInt(c))), pos(r, c) == term(k))))
        return mkint((r if self.axis == 0 else c) + term(self.shift))

    def position(self, i, j):
        """position in the enumeration of nonzero cell (i, j)"""
        n, fr, fc, pos = self._seq()
        p = pos(term(i), term(j))
        inr = z3.And(term(i) >= 0, term(i) < term(self.nz.shape[0]), term(j) >= 0, term(j) < term(self.nz.shape[1]))
        E.fact(z3.Implies(z3.And(inr, bterm(self.nz.pred(i, j))), z3.And(p >= 0, p < n.t, fr(p) == term(i), fc(p) == term(j))))
        return SInt(p)

    def viter(self):
        s = VSeq(self.n, self.at, "gen")
        s.src = self
        return s

    def tolist(self):
        s = VSeq(self.n, self.at)
        s.src = self
        return s

    def __getitem__(self, k):
        if isinstance(k, (int, SInt)):
            return self.at(k)
        unsupported("index of positions")

    def astype(self, *a, **k):
        return self

    def __iter__(self):
        unsupported("native iteration over positions")


def as_arr(x, dtype=None):
    if isinstance(x, Arr):
        return x if dtype is None or as_dtype(dtype).name == x.dtype.name else x.astype(dtype)
    if getattr(x, "is_sparse", False):
        unsupported("np.asarray of a sparse matrix")
    if isinstance(x, NZComp):
        return Arr((x.n,), lambda i: x.at(i), int64)
    if hasattr(x, "to_arr"):
        x = x.to_arr()
        return x if dtype is None else x.astype(dtype)
    if isinstance(x, VList) and x.sym is not None:
        x = x.sym
    if isinstance(x, rt.IdSeq) or isinstance(getattr(x, "ids_src", None), rt.IdSeq):
        from .pdmodel import IdVec
        if dtype is None or as_dtype(dtype).kind_ == "O":
            return IdVec(x if isinstance(x, rt.IdSeq) else x.ids_src)
    if hasattr(x, "viter") and not isinstance(x, VSeq):
        x = x.viter()
    if isinstance(x, VSeq):
        dt = as_dtype(dtype) if dtype is not None else guess(x)
        probe = None
        src = x
        if dt.kind_ == "O":
            return Arr((x.n,), lambda i: src.at(i), dt)
        a = Arr((x.n,), lambda i: cast(src.at(i), dt), dt)
        a.src_seq = src
        return a
    if isinstance(x, range):
        x = list(x)
    if isinstance(x, (list, tuple)):
        items = list(x)
        if items and all(isinstance(y, (list, tuple, Arr)) for y in items):
            rows = [as_arr(y) for y in items]
            w = rows[0].shape[0]
            for r in rows[1:]:
                need_same_shape(r.shape, rows[0].shape)
            dt = as_dtype(dtype) if dtype is not None else rows[0].dtype
            fs = [r.snapshot() for r in rows]

            def at(i, j):
                if isinstance(i, int):
                    return cast(fs[i](j), dt)
                v = fs[-1](j)
                for q in range(len(fs) - 2, -1, -1):
                    v = sel(i.t == q, fs[q](j), v)
                return cast(v, dt)
            return Arr((len(rows), w), at, dt)
        if dtype is not None:
            dt = as_dtype(dtype)
        elif any(isinstance(y, (float, SFloat)) for y in items) or not items:
            dt = float64
        elif items and isinstance(items[0], (SId, str, Token)):
            dt = object_
        elif all(isinstance(y, (bool, SBool)) for y in items):
            dt = bool_
        else:
            dt = int64

        def at1(i):
            if isinstance(i, int):
                return cast(items[i], dt)
            v = items[-1]
            for q in range(len(items) - 2, -1, -1):
                v = sel(i.t == q, items[q], v)
            return cast(v, dt)
        return Arr((len(items),), at1, dt)
    if isscalar(x):
        dt = as_dtype(dtype) if dtype is not None else float64 if isinstance(x, (float, SFloat)) else bool_ if isinstance(x, (bool, SBool)) else int64
        return Arr((), lambda: cast(x, dt), dt)
    unsupported("array from %s" % type(x).__name__)


def guess(x, empty=None):
    k = E.int("g", lo=0, hi=x.n)
    try:
        v = x.at(k) if E.possible(bterm(x.n > 0)) else None
    except Infeasible:
        v = None
    if v is None:       # no element: an empty list
        return empty or float64
    if isinstance(v, (SId, str, Token)):
        return object_
    if isinstance(v, (SFloat, float)):
        return float64
    if isinstance(v, (SBool, bool)):
        return bool_
    return int64


# ---------------------------------------------------------------- sums and products
def sum_over(n, f, memo=None, key=None):
    """sum of f(k), k in [0, n)"""
    if isinstance(n, int) and n <= 8:
        r = 0.0
        for k in range(n):
            r = r + f(k)
        return r

    def body(k):
        v = f(SInt(k))
        v = flift(tofloat(v))
        if not v.fin:
            unsupported("sum of possibly infinite values")
        return v.t
    return E.agg(((z3.IntVal(0), term(n)),), body, lambda k: z3.BoolVal(True))


def reduce_sum(a, axis, keepdims=False):
    s = a.snapshot()
    dt = a.dtype if a.dtype.kind_ != "b" else int64
    fix = (lambda v: v) if dt.kind_ == "f" else (lambda v: mkint(z3.ToInt(real(v))) if isinstance(v, SFloat) else int(v) if isinstance(v, float) else v)
    if a.ndim == 1 and axis in (None, 0, -1):
        return fix(sum_over(a.shape[0], lambda k: s(k)))
    if a.ndim == 2:
        if axis in (1, -1):
            r = Arr((a.shape[0],), lambda i: fix(sum_over(a.shape[1], lambda k: s(i, k))), dt)
            return r if not keepdims else r[:, None]
        if axis in (0, -2):
            r = Arr((a.shape[1],), lambda j: fix(sum_over(a.shape[0], lambda k: s(k, j))), dt)
            return r if not keepdims else r[None, :]
        if axis is None:
            f = lambda k, l: flift(tofloat(s(SInt(k), SInt(l)))).t
            return fix(E.agg(((z3.IntVal(0), term(a.shape[0])), (z3.IntVal(0), term(a.shape[1]))), f, lambda k, l: z3.BoolVal(True)))
    unsupported("sum")


def cellfn(x):
    return x.snapshot()


def matmul(a, b):
    """matrix product as the defining sums"""
    a = a if hasattr(a, "shape") else as_arr(a)
    b = b if hasattr(b, "shape") else as_arr(b)
    sa, sb = cellfn(a), cellfn(b)
    ka, kb = a.shape[-1], b.shape[0] if len(b.shape) == 1 else b.shape[-2]
    if E.decide(term(ka) != term(kb)):
        raise ValueError("matmul: dimension mismatch")
    dt = promote(a.dtype, b.dtype)
    if len(a.shape) == 2 and len(b.shape) == 2:
        return Arr((a.shape[0], b.shape[1]), lambda i, j: sum_over(ka, lambda k: sa(i, k) * sb(k, j)), dt)
    if len(a.shape) == 2 and len(b.shape) == 1:
        return Arr((a.shape[0],), lambda i: sum_over(ka, lambda k: sa(i, k) * sb(k)), dt)
    if len(a.shape) == 1 and len(b.shape) == 2:
        return Arr((b.shape[1],), lambda j: sum_over(ka, lambda k: sa(k) * sb(k, j)), dt)
    if len(a.shape) == 1 and len(b.shape) == 1:
        return sum_over(ka, lambda k: sa(k) * sb(k))
    unsupported("matmul")


class Perm(Arr):
    """a permutation of range(n): p injective with inverse q"""

    def __init__(self, n, hint="perm"):
        self.p, self.q = E.func(hint, "int", "int"), E.func(hint + "_inv", "int", "int")
        n_ = n

        def at(i):
            v = self.p(term(i))
            inr = z3.And(term(i) >= 0, term(i) < term(n_))
            E.fact(z3.Implies(inr, z3.And(v >= 0, v < term(n_), self.q(v) == term(i))))
            return SInt(v)
        super().__init__((n,), at, int64)
        E.perms.append(self)

    def inverse(self, v):
        i = self.q(term(v))
        E.fact(z3.Implies(z3.And(term(v) >= 0, term(v) < term(self.shape[0])), z3.And(i >= 0, i < term(self.shape[0]), self.p(i) == term(v))))
        return SInt(i)


def argsort(a, axis=-1, kind=None, order=None, stable=None):
    """sorting permutation: ascending cells; pairwise facts are instantiated for asked positions (stable when requested)"""
    if a.ndim != 1:
        unsupported("argsort of a matrix")
    E.use("numpy.argsort: a permutation that sorts ascending (stable only when requested)")
    P = Perm(a.shape[0], "argsort")
    s = a.snapshot()
    n = a.shape[0]
    st = bool(stable) or kind in ("stable", "mergesort")
    seen = []
    base = P._at

    def at(i):
        v = base(i)
        for (j, w) in seen:
            x, y = s(v), s(w)
            le = bterm(x <= y) if st is False else bterm(sor(x < y, sand(x == y, v <= w)))
            ge = bterm(y <= x) if st is False else bterm(sor(y < x, sand(x == y, w <= v)))
            both = z3.And(term(i) >= 0, term(i) < term(n), term(j) >= 0, term(j) < term(n))
            E.fact(z3.Implies(z3.And(both, term(i) <= term(j)), le))
            E.fact(z3.Implies(z3.And(both, term(j) <= term(i)), ge))
        if not E.sub and not any(term(j).eq(term(i)) for j, _ in seen):
            seen.append((i, v))
        return v
    P._at = at
    P.sort_of = a
    return P


# ---------------------------------------------------------------- module functions
def elementwise(f, dt=None):
    def g(x, *a, **k):
        if isinstance(x, Arr) and not hasattr(x, "elementwise"):
            s = x.snapshot()
            return Arr(x.shape, lambda *i: f(s(*i)), dt or x.dtype)
        if hasattr(x, "elementwise"):
            return x.elementwise(f, dt)
        if isscalar(x):
            return f(x)
        return g(as_arr(x))
    return g


def _kind(x, ks):
    if isinstance(x, (int, SInt, bool, SBool)):
        return False
    v = flift(x)
    return mkbool(z3.Or(*[v.k == k for k in ks]))


def np_log(x):
    v = flift(tofloat(x))
    r = ufun("log", v)
    E.use("log: an uninterpreted function with log(1) = 0")
    E.fact(z3.Implies(v.t == 1, r.t == 0))
    return r


def np_sqrt(x):
    v = flift(tofloat(x))
    return ufun("sqrt", v)


class NP:
    ndarray = Arr
    inf = math.inf
    nan = math.nan
    newaxis = None
    float64, float32, int64, int32, int8, int16 = float64, float32, int64, int32, int8, int16
    bool_ = bool_
    object_ = object_
    integer = types.SimpleNamespace(is_int_type=True)
    floating = types.SimpleNamespace(is_float_type=True)
    pi = math.pi
    uint8 = DType("uint8", "i")

    def __init__(self):
        self.random = Random()
        self.linalg = Linalg()

    def dtype(self, x):
        return as_dtype(x)

    def iinfo(self, d):
        d = as_dtype(d)
        b = {"int64": 63, "int32": 31, "int16": 15, "int8": 7}[d.name]
        return types.SimpleNamespace(max=2 ** b - 1, min=-2 ** b)

    def finfo(self, d):
        unsupported("finfo")

    def asarray(self, x, dtype=None, **k):
        return as_arr(x, dtype)

    asanyarray = asarray

    def array(self, x, dtype=None, copy=True, **k):
        r = as_arr(x, dtype)
        return r.copy() if r is x else r

    def ascontiguousarray(self, x, dtype=None):
        y = as_arr(x, dtype)
        if y is x and not x.flags.c_contiguous:
            y = x.copy()
        y.ccontig = True
        return y

    def _shape(self, sh):
        return tuple(sh) if isinstance(sh, (tuple, list)) else (sh,)

    def full(self, sh, v, dtype=None, **k):
        dt = as_dtype(dtype) if dtype is not None else float64 if isinstance(v, (float, SFloat)) else bool_ if isinstance(v, (bool, SBool)) else int64
        return Arr(self._shape(sh), lambda *i: cast(v, dt), dt)

    def ones(self, sh, dtype=None, **k):
        dt = as_dtype(dtype) if dtype is not None else float64
        return Arr(self._shape(sh), lambda *i: 1.0 if dt.kind_ == "f" else True if dt.kind_ == "b" else 1, dt)

    def zeros(self, sh, dtype=None, **k):
        dt = as_dtype(dtype) if dtype is not None else float64
        return Arr(self._shape(sh), lambda *i: 0.0 if dt.kind_ == "f" else False if dt.kind_ == "b" else 0, dt)

    def empty(self, sh, dtype=None, **k):
        dt = as_dtype(dtype) if dtype is not None else float64
        f = E.func("empty", *(["int"] * len(self._shape(sh)) + ["real" if dt.kind_ == "f" else "int"]))
        return Arr(self._shape(sh), lambda *i: (SFloat if dt.kind_ == "f" else SInt)(f(*[term(x) for x in i])), dt)

    def zeros_like(self, a, dtype=None): return self.zeros(a.shape, dtype or a.dtype)
    def ones_like(self, a, dtype=None): return self.ones(a.shape, dtype or a.dtype)
    def full_like(self, a, v, dtype=None): return self.full(a.shape, v, dtype or a.dtype)
    def empty_like(self, a, dtype=None): return self.empty(a.shape, dtype or a.dtype)

    def arange(self, *a, dtype=None):
        r = rt.v_range(*a)
        dt = as_dtype(dtype) if dtype is not None else int64
        if isinstance(r, range):
            return Arr((len(r),), lambda i: r.start + i * r.step, dt)
        return Arr((r.n,), lambda i: r.at(i), dt)

    def where(self, c, *ab):
        if getattr(c, "rowspace", False) and len(ab) == 2 and all(isscalar(x) for x in ab):
            return c.elementwise(lambda v: sel(v, ab[0], ab[1]), as_arr(ab[0]).dtype)
        if not ab:
            if isinstance(c, Arr):
                return c.nonzero()
            if hasattr(c, "where1"):
                return c.where1()
            unsupported("where")
        a, b = ab
        c = as_arr(c)
        sh = c.shape
        A = as_arr(a) if not isscalar(a) else None
        B = as_arr(b) if not isscalar(b) else None
        for x in (A, B):
            if x is not None:
                sh = broadcast_shape(sh, x.shape)
        fc = broadcast_to(c, sh)
        fa = broadcast_to(A, sh) if A is not None else lambda *i: a
        fb = broadcast_to(B, sh) if B is not None else lambda *i: b
        dt = float64 if any(isinstance(x, (float, SFloat)) or (isinstance(x, Arr) and x.dtype.kind_ == "f") for x in (a, b)) else (A or B).dtype if (A is not None or B is not None) else int64
        return Arr(sh, lambda *i: sel(fc(*i), fa(*i), fb(*i)), dt)

    def nonzero(self, a):
        return a.nonzero()

    def concatenate(self, xs, axis=0, **k):
        xs = iter_(xs)
        if is_symseq(xs):
            unsupported("concatenate of a symbolic list")
        return concat([as_arr(x) for x in xs], axis)

    def hstack(self, xs):
        xs = [as_arr(x) for x in xs]
        return concat(xs, 1 if xs[0].ndim == 2 else 0)

    def vstack(self, xs):
        xs = [as_arr(x) for x in xs]
        return concat([x if x.ndim == 2 else x[None, :] for x in xs], 0)

    def diag(self, a):
        s = a.snapshot()
        if a.ndim == 2:
            need_same_shape((a.shape[0],), (a.shape[1],))
            return Arr((a.shape[0],), lambda i: s(i, i), a.dtype)
        z = 0.0 if a.dtype.kind_ == "f" else 0
        return Arr((a.shape[0], a.shape[0]), lambda i, j: sel(term(i) == term(j), s(i), z), a.dtype)

    def diagonal(self, a):
        return self.diag(a)

    def fill_diagonal(self, a, v):
        if isscalar(v):
            a._update(lambda i, j: term(i) == term(j), lambda i, j: v)
        else:
            s = as_arr(v).snapshot()
            a._update(lambda i, j: term(i) == term(j), lambda i, j: s(i))

    def eye(self, n, m=None, dtype=None):
        return Arr((n, n if m is None else m), lambda i, j: sel(term(i) == term(j), 1.0, 0.0), float64)

    identity = eye

    def diag_indices(self, n, ndim=2):
        return DiagIdx(n)

    def dot(self, a, b): return a.dot(b)
    def matmul(self, a, b): return a @ b
    def sum(self, a, axis=None, **k): return a.sum(axis=axis)
    def abs(self, a): return abs(a)
    absolute = abs

    isneginf = staticmethod(elementwise(lambda x: _kind(x, [-1]), bool_))
    isposinf = staticmethod(elementwise(lambda x: _kind(x, [1]), bool_))
    isinf = staticmethod(elementwise(lambda x: _kind(x, [1, -1]), bool_))
    isnan = staticmethod(elementwise(lambda x: _kind(x, [2]), bool_))
    isfinite = staticmethod(elementwise(lambda x: snot(_kind(x, [1, -1, 2])), bool_))
    floor = staticmethod(elementwise(lambda x: tofloat(x.__floor__()) if isinstance(x, Sym) else float(math.floor(x)), float64))
    ceil = staticmethod(elementwise(lambda x: tofloat(x.__ceil__()) if isinstance(x, Sym) else float(math.ceil(x)), float64))
    log = staticmethod(elementwise(np_log, float64))
    diff = staticmethod(lambda a: a._diff() if hasattr(a, "_diff") else a[1:] - a[:-1])
    log1p = staticmethod(elementwise(lambda x: np_log(x + 1.0), float64))
    sqrt = staticmethod(elementwise(np_sqrt, float64))
    logical_not = staticmethod(elementwise(lambda x: snot(x), bool_))

    def logical_and(self, a, b): return a & b
    def logical_or(self, a, b): return a | b
    def minimum(self, a, b): return self.where(a <= b, a, b) if not (isscalar(a) and isscalar(b)) else rt.v_min(a, b)
    def maximum(self, a, b): return self.where(a >= b, a, b) if not (isscalar(a) and isscalar(b)) else rt.v_max(a, b)
    def argsort(self, a, **k): return a.argsort(**k) if hasattr(a, "argsort") else as_arr(a).argsort(**k)
    def negative(self, a): return -a
    def isscalar(self, x): return isscalar(x)
    def ravel(self, a): return a.ravel()
    def copy(self, a): return a.copy()
    def issubdtype(self, a, b): return (getattr(b, "is_int_type", False) and as_dtype(a).kind_ == "i") or (getattr(b, "is_float_type", False) and as_dtype(a).kind_ == "f")
    def shape(self, a): return a.shape

    def unique(self, a, **k):
        if hasattr(a, "unique_sorted"):
            return a.unique_sorted(**k)
        unsupported("np.unique")

    def repeat(self, a, reps, axis=None):
        """np.repeat with a scalar count"""
        a = as_arr(a)
        if not isinstance(reps, (int, SInt)):
            unsupported("repeat with counts per element")
        if E.decide(term(reps) < 0):
            raise ValueError("repeats may not contain negative values.")
        s = a.snapshot()
        if axis is None and a.ndim == 1:
            axis = 0
        if axis is None:
            unsupported("repeat of a flattened matrix")
        axis = axis % a.ndim

        def src(i):
            n = a.shape[axis]
            if isinstance(n, int) and n == 1:
                return 0
            return i // reps
        sh = list(a.shape)
        sh[axis] = sh[axis] * reps
        return Arr(sh, lambda *ix: s(*[src(x) if q == axis else x for q, x in enumerate(ix)]), a.dtype)

    def tile(self, a, reps):
        a = as_arr(a)
        if isinstance(reps, tuple) and len(reps) == 2 and is_one(reps[1]) and a.ndim <= 2:
            b = a[None, :] if a.ndim == 1 else a
            if is_one(b.shape[0]):
                s = b.snapshot()
                return Arr((reps[0], b.shape[1]), lambda i, j: s(0, j), a.dtype)
        unsupported("tile")

    def broadcast_to(self, a, shape):
        a = as_arr(a)
        f = broadcast_to(a, shape)
        return Arr(shape, f, a.dtype)

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        unsupported("numpy.%s" % a)


class DiagIdx:
    def __init__(self, n):
        self.n = n


def concat(xs, axis):
    if len(xs) == 1:
        return xs[0].copy()
    nd = xs[0].ndim
    for x in xs[1:]:
        if x.ndim != nd:
            raise ValueError("concatenate: dimension mismatch")
        for d in range(nd):
            if d != axis and E.decide(term(x.shape[d]) != term(xs[0].shape[d])):
                raise ValueError("concatenate: shape mismatch")
    offs = [0]
    for x in xs:
        offs.append(offs[-1] + x.shape[axis])
    fs = [x.snapshot() for x in xs]
    dt = xs[0].dtype
    for x in xs[1:]:
        dt = promote(dt, x.dtype)

    def at(*ix):
        i = ix[axis]
        v = None
        for f, o in reversed(list(zip(fs, offs))):
            jx = list(ix)
            jx[axis] = i - o
            c = f(*jx)
            v = c if v is None else sel(z3.Not(bterm(i >= nxt)), c, v)
            nxt = o
        return v
    sh = list(xs[0].shape)
    sh[axis] = offs[-1]
    return Arr(sh, at, dt)


class Linalg:
    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return lambda *x, **k: unsupported("linalg.%s" % a)


class Random:
    class RandomState:
        def __init__(self, seed=None):
            self.seed = seed

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return lambda *x, **k: unsupported("numpy.random.%s" % a)


np = NP()
np.random_ = np.random
MODULES = {"numpy": np, "numpy.random": np.random, "numpy.linalg": np.linalg}


def sym_matrix(hint, shape, kind="f", extended=False, nan=False):
    """arbitrary dense matrix"""
    f = E.func(hint, *(["int"] * len(shape) + ["real" if kind == "f" else "int"]))
    if extended:
        g = E.func(hint + "_k", *(["int"] * len(shape) + ["int"]))

        def at(*i):
            i = [term(x) for x in i]
            k = g(*i)
            E.fact(z3.And(k >= -1, k <= (2 if nan else 1)))
            return SFloat(f(*i), k)
        return Arr(shape, at, float64)
    return Arr(shape, lambda *i: (SFloat if kind == "f" else SInt)(f(*[term(x) for x in i])), float64 if kind == "f" else int64)
