"""pyvc.cxx - what the translated C++ code calls: the standard library and Eigen, as contracts

Vectors, pairs, sets, atomics, sorting and sparse rows are given by their documented behaviour (trusted); machine integers are mathematical
integers (a subtraction or conversion that cannot be shown to stay non-negative is refused), floating-point numbers extended reals."""
import math, re
import z3
from .core import *
from .core import E
from . import rt
from .rt import VList, VSeq, Lazy, Effects, smin, smax, length


def no(msg):
    unsupported("C++ construct outside the subset: " + msg)


class Obj:
    def __init__(self):
        E.stamp(self)


def make(cls, ctor, *a):
    o = cls.__new__(cls)
    E.stamp(o)
    ctor(o, *a)
    return o


# ---------------------------------------------------------------- numbers
def to_float(x):
    return tofloat(x)


def trunc(x):
    return math.trunc(x)


def fdiv(a, b):
    a, b = tofloat(a), tofloat(b)
    if E.total_div:
        return SFloat(flift(a).t / flift(b).t)
    if isinstance(a, float) and isinstance(b, float) and b != 0 and a == 1.0 and b == 1.0:
        return 1.0
    a, b = flift(a), flift(b)
    if a.fin and b.fin and E.valid(b.t != 0):
        return SFloat(a.t / b.t)
    return a / b


def nonneg(x):
    return not isinstance(x, Sym) and x >= 0 or isinstance(x, Sym) and E.valid(term(x) >= 0)


def idiv(a, b):
    if not nonneg(a) or not nonneg(b):
        unsupported("integer division of possibly negative numbers")
    if isinstance(b, Sym) and not E.valid(b.t != 0) or not isinstance(b, Sym) and b == 0:
        unsupported("possible division by zero")
    return a // b


def imod(a, b):
    idiv(a, b)
    return a % b


def usub(a, b):
    r = a - b
    if not nonneg(r):
        unsupported("unsigned subtraction not shown to stay non-negative")
    return r


def unsigned(x):
    if not E.no_range and not nonneg(x):
        unsupported("conversion to unsigned of a number not shown to be non-negative")
    return x


def std_min(a, b, *k):
    if k:
        no("min with a comparator")
    if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
        return smin(a, b)
    return rt.v_min(a, b)


def std_max(a, b, *k):
    if k:
        no("max with a comparator")
    if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
        return smax(a, b)
    return rt.v_max(a, b)


def std_log(x):
    return ufun("log", x)


def std_log2(x):
    """log2(2) = 1, log2 does not decrease: at least 1 from 2 on"""
    r = ufun("log2", x)
    t = real(x)
    E.fact(z3.Implies(t == 2, r.t == 1))
    E.fact(z3.Implies(t >= 2, r.t >= 1))
    return r


def std_pow(x, y):
    return ufun("pow", x, y)


def std_sqrt(x):
    return ufun("sqrt", x)


def std_floor(x):
    return tofloat(math.floor(flift(x)))


def std_ceil(x):
    return tofloat(math.ceil(flift(x)))


def std_abs(x):
    return abs(x)


std_fabs = std_abs


def limit_infinity(t):
    return math.inf


def limit_max(t):
    no("numeric_limits::max")


limit_min = limit_lowest = limit_epsilon = limit_quiet_NaN = limit_max


# ---------------------------------------------------------------- pairs, sets, atomics
class Pair:
    def __init__(self, first, second):
        self.first, self.second = first, second


class Triplet:
    def __init__(self, r, c, v):
        self.r, self.c, self.v = r, c, v

    def row(self): return self.r
    def col(self): return self.c
    def value(self): return self.v


def bundle(a):
    return a[0] if len(a) == 1 else Pair(*a) if len(a) == 2 else Triplet(*a) if len(a) == 3 else unsupported("emplace of %d values" % len(a))


def less(a, b):
    if isinstance(a, Pair):
        return sor(less(a.first, b.first), sand(snot(less(b.first, a.first)), less(a.second, b.second)))
    return a < b


class SetIter:
    def __init__(self, s, x):
        self.s, self.x = s, x

    def __eq__(self, o):
        if not isinstance(o, SetIter) or o.s is not self.s:
            no("comparison of set iterators")
        if o.x is None:
            return snot(self.s.member(self.x)) if self.x is not None else True
        if self.x is None:
            return o == self
        no("comparison of set iterators")

    def __ne__(self, o):
        return snot(self == o)

    __hash__ = None


class ASet:
    """a set of integers that is not changed: n elements, membership function"""

    def __init__(self, n, member):
        self.n, self.member = n, member

    def size(self): return self.n
    def empty(self): return self.n == 0
    def find(self, x): return SetIter(self, x)
    def end(self): return SetIter(self, None)
    cend = end
    def count(self, x): return mkint(z3.If(bterm(self.member(x)), z3.IntVal(1), z3.IntVal(0)))


class SetBuild(Effects):
    """a set being filled: .log holds ("clear", None), ("insert", x), ("insert_all", condition on elements...), ("loop", event)"""

    def __init__(self):
        super().__init__()

    def clear(self): self.effect("clear", None)
    def insert(self, *a):
        if len(a) == 2 and isinstance(a[0], It):
            return self.effect("insert_all", between(*a))
        return self.effect("insert", a[-1])
    emplace = insert
    def reserve(self, n): pass
    def begin(self): return SetIter(self, None)
    end = begin


class Atomic(Effects):
    def __init__(self, v=0):
        super().__init__()
        self.first = v

    def fetch_add(self, n):
        v = E.int("fetched", lo=self.first)
        self.effect("fetch_add", (v, n))
        return v


class Future:
    def __init__(self, fn):
        self.fn = fn

    def get(self):
        if E.future_value is not None:
            return E.future_value(self.fn)
        return self.fn()

    def wait(self): pass
    join = wait


def std_async(*a):
    if len(a) == 2 and a[0] == "async":
        a = a[1:]
    if len(a) != 1:
        no("std::async")
    E.use("std::async runs the given function once, in another thread, before its future is released")
    E.futures.append(a[0])
    return Future(a[0])


def enum(n):
    return n


# ---------------------------------------------------------------- vectors and iterators
class It:
    """an iterator / pointer: position i of the sequence owner"""

    def __init__(self, o, i):
        self.o, self.i = o, i

    def __add__(self, k): return It(self.o, self.i + k)
    __radd__ = __add__

    def __sub__(self, k):
        if isinstance(k, It):
            if k.o is not self.o:
                no("difference of unrelated iterators")
            return self.i - k.i
        return It(self.o, self.i - k)

    def _c(self, k):
        if not isinstance(k, It) or k.o is not self.o:
            no("comparison of unrelated iterators")
        return k.i

    def __eq__(self, k): return self.i == self._c(k)
    def __ne__(self, k): return self.i != self._c(k)
    def __lt__(self, k): return self.i < self._c(k)
    __hash__ = None

    def iterators(self, hi):
        """the iterators from here to hi"""
        n = self._c(hi) - self.i
        if not nonneg(n):
            unsupported("iterator loop not shown to terminate")
        return VSeq(n, lambda k: It(self.o, self.i + k))

    def __getitem__(self, k): return self.o.get(self.i + k)
    def __setitem__(self, k, v): self.o[self.i + k] = v


class Ptr:
    """pointer into a row-major matrix: element (row, col); the column offset stays within the row or the read is refused"""

    def __init__(self, m, row=0, col=0):
        self.m, self.row, self.col = m, row, col

    def __add__(self, k):
        if isinstance(k, int) and not isinstance(k, bool):
            return Ptr(self.m, self.row, self.col + k)
        c = self.m.ncol
        t = z3.simplify(term(k))
        if z3.is_mul(t) and t.num_args() == 2 and isinstance(c, SInt):
            a = [t.arg(0), t.arg(1)]
            for i in (0, 1):
                if a[i].eq(z3.simplify(c.t)):
                    return Ptr(self.m, self.row + SInt(a[1 - i]), self.col)
        return Ptr(self.m, self.row, self.col + k)
    __radd__ = __add__

    def __getitem__(self, k):
        p = self + k
        if not E.valid(z3.And(term(p.row) >= 0, term(p.row) < term(self.m.nrow), term(p.col) >= 0, term(p.col) < term(self.m.ncol))):
            unsupported("pointer not shown to stay inside its row")
        return self.m.get(p.row, p.col)


def deref(p):
    if isinstance(p, (It, Ptr)):
        return p[0]
    if hasattr(p, "deref"):
        return p.deref()
    no("dereference of %s" % type(p).__name__)


def store(p, v):
    if isinstance(p, It):
        p[0] = v
        return
    no("store through a pointer")


def between(a, b):
    """the sequence [a, b)"""
    if not isinstance(a, It) or not isinstance(b, It) or a.o is not b.o:
        no("iterator range")
    s = snapshot(a.o)
    lo, hi = a.i, b.i
    if isinstance(lo, int) and lo == 0 and not isinstance(hi, Sym) and not isinstance(s.n, Sym) and hi == s.n or isinstance(lo, int) and lo == 0 and E.valid(term(hi) == term(s.n)):
        return s
    if not E.valid(z3.And(term(lo) >= 0, term(lo) <= term(hi), term(hi) <= term(s.n))):
        unsupported("iterator range not shown to lie inside its sequence")
    return VSeq(hi - lo, lambda k: s.at(lo + k))


def snapshot(o):
    if isinstance(o, VList):
        o._r()
        if o.sym is not None:
            return o.sym
        items = list(list.__iter__(o))
        return VSeq(len(items), lambda k: rt.pick(items, k))
    if hasattr(o, "snapshot"):
        return o.snapshot()
    return o


class Vec(VList):
    """std::vector"""

    def __init__(self, *a):
        super().__init__(*a)
        self.default = None

    def get(self, k):
        n = self.n
        if not E.valid(z3.And(term(k) >= 0, term(k) < term(n))):
            unsupported("vector index not shown to be in range")
        return VList.at(self, k)

    def __getitem__(self, k): return self.get(k)

    def at(self, k):
        return VList.at(self, k)

    def __setitem__(self, k, v):
        if not E.valid(z3.And(term(k) >= 0, term(k) < term(self.n))):
            unsupported("vector index not shown to be in range")
        rec = E.recorder(self)
        if rec is not None:
            rec.append((self, "set", (k, v)))
            return
        s, n = snapshot(self), self.n
        self._w()
        list.clear(self)
        self.sym = VSeq(n, lambda j: v if (j == k if not isinstance(j == k, Sym) else E.decide(bterm(j == k))) else s.at(j))

    def absorb_loop(self, it, mine, ops, counts):
        if ops != {"set"} or counts != {1}:
            unsupported("loop effects %s on a vector" % (ops,))
        k = E.int("k", lo=0, hi=it.n)
        n0 = self.n
        s0 = snapshot(self)
        off = mine(k)[0][2][0] - k
        if isinstance(off, Sym):
            if not E.valid(off.t == 0):
                unsupported("vector elements set by a loop")
        elif off != 0:
            unsupported("vector elements set by a loop")
        s = Lazy(VSeq(it.n, lambda k: k), lambda k: mine(k)[0][2][1], "list")
        outer = E.recorder(self)
        if outer is not None:
            unsupported("vector elements set by a nested loop")
        whole = E.valid(term(it.n) == term(n0))
        self._w()
        list.clear(self)
        self.sym = s if whole else VSeq(n0, lambda j: s.at(j) if E.decide(bterm(j < it.n)) else s0.at(j))

    def forget(self):
        self._w()
        list.clear(self)
        self.sym = VSeq(E.int("size", lo=0), lambda k: unsupported("contents of a vector left by an earlier iteration"))
        self.fresh = True

    def size(self): return self.n
    def empty(self): return self.n == 0
    def push_back(self, x): self.append(x)
    def emplace_back(self, *a): self.append(bundle(a))
    def reserve(self, n): pass
    def shrink_to_fit(self): pass

    def clear(self):
        if E.recorder(self) is not None:
            unsupported("vector cleared in a summarised loop")
        self._w()
        list.clear(self)
        self.sym = None

    def resize(self, n, v=None):
        if E.recorder(self) is not None or not (self.sym is None and list.__len__(self) == 0):
            unsupported("resize of a non-empty vector")
        self._w()
        d = self.default if v is None else v
        self.sym = VSeq(n, lambda k: d)

    def assign(self, o, v=None):
        if E.recorder(self) is not None:
            unsupported("vector assigned in a summarised loop")
        s = snapshot(o) if v is None else VSeq(o, lambda k: v)
        self._w()
        list.clear(self)
        self.sym = s

    def begin(self): return It(self, 0)
    def end(self): return It(self, self.n)
    cbegin, cend = begin, end
    def data(self): return It(self, 0)
    def back(self): return self.get(self.n - 1)
    def front(self): return self.get(0)

    def insert(self, pos, *a):
        if len(a) == 2 and isinstance(pos, It) and pos.o is self and E.valid(term(pos.i) == term(self.n)):
            self.extend(between(*a))
            return
        no("vector::insert")

    def sub(self, lo, hi, s):
        """replace [lo, hi) by the sequence s"""
        if E.recorder(self) is not None:
            unsupported("vector rearranged in a summarised loop")
        old = snapshot(self)
        n = self.n
        whole = isinstance(lo, int) and lo == 0 and E.valid(term(hi) == term(n))
        self._w()
        list.clear(self)
        self.sym = s if whole else VSeq(n, lambda k: s.at(k - lo) if E.decide(z3.And(term(k) >= term(lo), term(k) < term(hi))) else old.at(k))

    def _cp(self):
        r = type(self)()
        r.default = self.default
        r.sym = snapshot(self)
        return r


def merged(f):
    """the truth value of f() as one formula"""
    n0 = len(E.pc)

    def one():
        v = bterm(f())
        return z3.And(*E.pc[n0:], v)
    return z3.Or(*E.subexplore(one))


def refill(v, n, f):
    """a vector of the size of v whose first n elements are f(0), ..., f(n - 1); the others are unknown"""
    if not E.valid(z3.And(term(n) <= term(v.n))):
        unsupported("vector index not shown to be in range")
    n = smax(n, 0) if not E.valid(term(n) >= 0) else n
    r = Vec()
    stale = E.func("stale", "int", "int")

    def at(k):
        x = f(k)
        if not isinstance(x, (int, SInt)):
            unsupported("vector of another type refilled")
        return mkint(z3.If(term(k) < term(n), term(x), stale(term(k))))
    r.sym = VSeq(v.n, at)
    return r


class Sorted(VSeq):
    """a rearrangement of src: at(k) = src.at(p(k)), p a permutation; the order is guaranteed by kind: "all" sorted, "partial" the first m sorted and
    none of the others before any of them, "nth" none of the elements from m on before any of the first m, "none" any order"""

    def __init__(self, src, cmp, kind, m=None, hint="sorted"):
        self.src, self.n, self.cmp, self.kind_, self.m, self.kind = src, src.n, cmp or less, kind, m, "list"
        self.p, self.q = E.func(hint + "_pos", "int", "int"), E.func(hint + "_inv", "int", "int")
        self.asked = []
        E.ghost_sorts.append(self)

    def at(self, k):
        t = z3.simplify(term(k))
        for u, v in self.asked:
            if u.eq(t):
                return v
        inr = z3.And(t >= 0, t < term(self.n))
        i = self.p(t)
        E.fact(z3.Implies(inr, z3.And(i >= 0, i < term(self.n), self.q(i) == t)))
        v = self.src.at(SInt(i))
        for u, w in list(self.asked):
            self.order(u, w, t, v)
            self.order(t, v, u, w)
        if not E.sub:
            self.asked.append((t, v))
        return v

    def order(self, a, x, b, y):
        """a is before b: y does not precede x"""
        if self.kind_ == "none":
            return
        g = [a >= 0, a < b, b < term(self.n)]
        if self.kind_ == "partial":
            g.append(a < term(self.m))
        elif self.kind_ == "nth":
            g += [a < term(self.m), b >= term(self.m)]
        g = z3.And(*g)
        if E.valid(z3.Not(g)):
            return
        E.no_range += 1
        try:
            c = merged(lambda: self.cmp(y, x))
        finally:
            E.no_range -= 1
        E.fact(z3.Implies(g, z3.Not(c)))

    def where(self, i):
        """the position of source element i"""
        t = z3.simplify(term(i))
        j = self.q(t)
        E.fact(z3.Implies(z3.And(t >= 0, t < term(self.n)), z3.And(j >= 0, j < term(self.n), self.p(j) == t)))
        self.at(SInt(j))
        return SInt(j)


def _range(a, b):
    if not isinstance(a, It) or not isinstance(b, It) or a.o is not b.o:
        no("iterator range")
    return a.o, a.i, b.i


def std_sort(a, b, cmp=None):
    E.use("std::sort: a rearrangement in the order of the comparison")
    o, lo, hi = _range(a, b)
    o.sub(lo, hi, Sorted(between(a, b), cmp, "all"))


def std_stable_sort(a, b, cmp=None):
    no("stable_sort")


def std_partial_sort(a, m, b, cmp=None):
    E.use("std::partial_sort: a rearrangement; the first elements are the first in the order of the comparison, sorted")
    o, lo, hi = _range(a, b)
    if not E.valid(z3.And(term(m.i) >= term(lo), term(m.i) <= term(hi))):
        unsupported("partial_sort position not shown to be in range")
    o.sub(lo, hi, Sorted(between(a, b), cmp, "partial", m.i - lo))


def std_nth_element(a, m, b, cmp=None):
    E.use("std::nth_element: a rearrangement; no element from the given position on precedes an earlier one")
    o, lo, hi = _range(a, b)
    if not E.valid(z3.And(term(m.i) >= term(lo), term(m.i) <= term(hi))):
        unsupported("nth_element position not shown to be in range")
    o.sub(lo, hi, Sorted(between(a, b), cmp, "nth", m.i - lo))


class Rng(Effects):
    def __init__(self, seed):
        super().__init__()
        self.seed = seed
        E.rngs.append(self)


def std_shuffle(a, b, g):
    E.use("std::shuffle: a rearrangement that depends only on the length and the state of the generator")
    o, lo, hi = _range(a, b)
    if not isinstance(g, Rng):
        no("random generator")
    g.effect("shuffle", hi - lo)
    s = Sorted(between(a, b), None, "none", hint="shuffled")
    o.sub(lo, hi, s)


class Accum:
    """the running totals of a sequence of numbers: f(0) = 0, f(k+1) = f(k) + at(k)"""

    def __init__(self, at, hint="total"):
        self.term_at = at
        self.f = E.func(hint, "int", "real")
        E.fact(self.f(z3.IntVal(0)) == 0)

    def at(self, k):
        return SFloat(self.f(z3.simplify(term(k))))

    def step(self, k):
        t = z3.simplify(term(k))
        v = flift(tofloat(self.term_at(k)))
        E.fact(z3.Implies(t >= 0, self.f(z3.simplify(t + 1)) == self.f(t) + v.t))


def std_accumulate(a, b, init, *f):
    if f:
        no("accumulate with a function")
    s = between(a, b)
    src = snapshot(a.o)
    f = E.accum_of
    if f is None:
        unsupported("std::accumulate")
    E.use("std::accumulate: the initial value plus the sum of the range")
    return tofloat(init) + f(a, b, src)


class Inserter:
    def __init__(self, t):
        self.t = t


def std_inserter(t, pos):
    return Inserter(t)


def std_back_inserter(t):
    return Inserter(t)


def std_set_intersection(a, b, c, d, out):
    """requires both ranges sorted"""
    E.use("std::set_intersection: of two sorted ranges, the elements that occur in both")
    s, t = between(a, b), between(c, d)
    for q in (s, t):
        if not ascending(q):
            unsupported("set_intersection of a range not shown to be sorted")
    out.t.effect("insert_all", ("both", s, t))


def ascending(q):
    if hasattr(q, "ascending"):
        return q.ascending()
    if not E.decide(term(q.n) >= 2):
        return True
    i, j = E.int("i", lo=0), E.int("j", lo=0)
    E.assume(z3.And(i.t < j.t, j.t < term(q.n)))
    x, y = q.at(i), q.at(j)
    return E.valid(z3.Not(bterm(less(y, x))))


# ---------------------------------------------------------------- Eigen
class FnState:
    """the contents of a dense vector, as a value"""

    def __init__(self, fn):
        self.fn = fn

    def v_shape(self):
        return ("model", fresh_contents)


def fresh_contents(hint):
    f = E.func("contents", "int", "int")
    return FnState(lambda i: SInt(f(term(i))))


class DVec:
    """dense Eigen vector"""
    is_model = True

    def __init__(self, n, fn=None):
        self.n = n
        self.fn = fn or (lambda i: unsupported("uninitialised vector element"))
        self.stamp = next(E.counter)
        self.mut = -1
        E.eigs.append(self)

    def v_state(self): return FnState(self.fn)
    def v_set_state(self, v): self.fn = v.fn
    def rows(self): return self.n
    size = rows
    def cols(self): return 1

    def get(self, i):
        rec = E.recorder(self)
        if rec is not None and id(self) in getattr(rec.info, "acc", ()):
            x = E.float("cur")
            rec.curs = getattr(rec, "curs", []) + [(self, i, x)]
            return x
        rt.fresh_read(self)
        if not E.no_range and not E.valid(z3.And(term(i) >= 0, term(i) < term(self.n))):
            unsupported("vector index not shown to be in range")
        return self.fn(i)
    __call__ = __getitem__ = get

    def at(self, i):
        return self.fn(i)

    def _set(self, fn):
        if E.recorder(self) is not None:
            unsupported("dense vector written in a summarised loop")
        rt.note_write(self)
        self.mut = next(E.counter)
        self.fn = fn

    def __setitem__(self, i, v):
        if not E.no_range and not E.valid(z3.And(term(i) >= 0, term(i) < term(self.n))):
            unsupported("vector index not shown to be in range")
        rec = E.recorder(self)
        if rec is not None and hasattr(rec.info, "acc") and id(self) in rec.info.acc:
            cs = [c for c in getattr(rec, "curs", []) if c[0] is self]
            d = z3.simplify(flift(tofloat(v)).t - cs[-1][2].t) if len(cs) == 1 else None
            if d is None or not (term(cs[0][1]).eq(term(i)) or E.valid(term(cs[0][1]) == term(i))) or "cur!" in str(d):
                unsupported("vector element changed otherwise than by an addition")
            rec.append((self, "add", (i, SFloat(d))))
            return
        if rec is not None:
            rec.append((self, "set", (i, v)))
            return
        f = self.fn

        def g(j):
            x, y = v, f(j)
            c = bterm(i == j)
            if z3.is_true(z3.simplify(c)):
                return x
            if isinstance(x, (SFloat, float)) or isinstance(y, (SFloat, float)):
                x, y = flift(tofloat(x)), flift(tofloat(y))
                return SFloat(z3.If(c, x.t, y.t), z3.simplify(z3.If(c, x.k, y.k)))
            return mkint(z3.If(c, term(x), term(y)))
        self._set(g)

    def absorb_loop(self, it, mine, ops, counts):
        if ops == {"lineadd"}:
            from .eig import absorb_adds
            return absorb_adds(self, it, mine)
        if ops != {"set"} or counts != {1}:
            unsupported("loop effects %s on a dense vector" % (ops,))
        k = E.int("k", lo=0, hi=it.n)
        off = mine(k)[0][2][0] - k
        if not (E.valid(off.t == 0) if isinstance(off, Sym) else off == 0) or not E.valid(term(it.n) == term(self.n)):
            unsupported("vector elements set by a loop")
        s = Lazy(VSeq(it.n, lambda k: k), lambda k: mine(k)[0][2][1], "list")
        self._set(s.at)

    def array(self): return self
    def matrix(self): return self

    def assign(self, o):
        if isinstance(o, DVec):
            f = o.fn
            self._set(f)
        elif isnum(o):
            self._set(lambda i: o)
        else:
            no("assignment to a dense vector")

    def setZero(self): self._set(lambda i: 0)
    def fill(self, x): self._set(lambda i: x)

    def elementwise(self, o, f):
        g = self.fn
        if isinstance(o, DVec):
            if not E.valid(term(o.n) == term(self.n)):
                unsupported("vectors of different sizes")
            h = o.fn
            return DVec(self.n, lambda i: f(g(i), h(i)))
        if isnum(o):
            return DVec(self.n, lambda i: f(g(i), o))
        no("vector arithmetic")

    def __add__(self, o): return self.elementwise(o, lambda a, b: a + b)
    def __sub__(self, o): return self.elementwise(o, lambda a, b: a - b)
    def __mul__(self, o): return self.elementwise(o, lambda a, b: a * b)
    def __truediv__(self, o): return self.elementwise(o, fdiv)
    def __radd__(self, o): return self.elementwise(o, lambda a, b: b + a)
    def __rmul__(self, o): return self.elementwise(o, lambda a, b: b * a)
    def __rtruediv__(self, o): return self.elementwise(o, lambda a, b: fdiv(b, a))
    def log(self): return self.elementwise(0, lambda a, b: std_log(a))
    def pow(self, p): return self.elementwise(p, lambda a, b: std_pow(a, b))
    def sqrt(self): return self.elementwise(0, lambda a, b: std_sqrt(a))
    def iadd_(self, o): self.assign(self + o)
    def isub_(self, o): self.assign(self - o)
    def imul_(self, o): self.assign(self * o)
    def idiv_(self, o): self.assign(self / o)

    def sum(self):
        f = E.vector_sum
        if f is None:
            unsupported("sum of a vector")
        E.use("Eigen: sum of a vector is the sum of its elements")
        return f(self)

    def data(self): return It(self, 0)
    def snapshot(self): return VSeq(self.n, self.fn)

    def sub(self, lo, hi, s):
        if not (isinstance(lo, int) and lo == 0 and E.valid(term(hi) == term(self.n))):
            unsupported("part of a vector rearranged")
        self._set(s.at)

    def _cp(self):
        rt.fresh_read(self)
        return DVec(self.n, self.fn)


class DMat:
    """dense row-major matrix, read only"""
    is_model = True

    def __init__(self, nrow, ncol, fn):
        self.nrow, self.ncol, self.fn = nrow, ncol, fn

    def rows(self): return self.nrow
    def cols(self): return self.ncol
    def get(self, i, j): return self.fn(i, j)

    def __call__(self, i, j):
        if not E.valid(z3.And(term(i) >= 0, term(i) < term(self.nrow), term(j) >= 0, term(j) < term(self.ncol))):
            unsupported("matrix index not shown to be in range")
        return self.fn(i, j)
    coeff = __call__
    def data(self): return Ptr(self)


class Csr:
    """sparse row-major matrix, compressed: row u has nnz(u) stored entries with strictly increasing columns; mem(u, c) whether (u, c) is stored"""
    is_model = True

    def __init__(self, nrow, ncol, val=None, hint="X"):
        self.nrow, self.ncol = nrow, ncol
        self.nnz_ = E.func(hint + "_nnz", "int", "int")
        self.col_ = E.func(hint + "_col", "int", "int", "int")
        self.pos_ = E.func(hint + "_pos", "int", "int", "int")
        self.mem_ = E.func(hint + "_stored", "int", "int", "bool")
        v = E.func(hint + "_val", "int", "int", "real")
        self.val = val or (lambda u, c: SFloat(v(term(u), term(c))))
        self.asked = []

    def rows(self): return self.nrow
    def cols(self): return self.ncol
    outerSize = rows
    innerSize = cols
    def makeCompressed(self): pass
    def prune(self, *a): no("prune")

    def nnz(self, u):
        r = self.nnz_(term(u))
        E.fact(z3.And(r >= 0, r <= term(self.ncol)))
        return SInt(r)

    def col(self, u, t):
        a, b = z3.simplify(term(u)), z3.simplify(term(t))
        c = self.col_(a, b)
        inr = z3.And(b >= 0, b < self.nnz_(a))
        E.fact(z3.Implies(inr, z3.And(c >= 0, c < term(self.ncol), self.mem_(a, c), self.pos_(a, c) == b)))
        if not any(a.eq(x) and b.eq(y) for x, y in self.asked):
            for x, y in self.asked:
                if x.eq(a) or not z3.is_false(z3.simplify(x == a)):
                    E.fact(z3.Implies(z3.And(x == a, y >= 0, b >= 0, y < self.nnz_(a), b < self.nnz_(a)), z3.And((y < b) == (self.col_(x, y) < c), (y == b) == (self.col_(x, y) == c))))
            if not E.sub:
                self.asked.append((a, b))
        return SInt(c)

    def stored(self, u, c):
        a, b = term(u), term(c)
        p = self.pos_(a, b)
        E.fact(z3.Implies(self.mem_(a, b), z3.And(p >= 0, p < self.nnz_(a), self.col_(a, p) == b, b >= 0, b < term(self.ncol))))
        return SBool(self.mem_(a, b))

    def position(self, u, c):
        self.stored(u, c)
        return SInt(self.pos_(term(u), term(c)))

    def row_iter(self, u):
        return VSeq(self.nnz(u), lambda t: Entry(self, u, t))

    def _cp(self):
        return self


class Entry:
    def __init__(self, m, u, t):
        self.m, self.u, self.t = m, u, t
        self.c = m.col(u, t)

    def row(self): return self.u
    def col(self): return self.c
    index = col
    def value(self): return self.m.val(self.u, self.c)
    valueRef = value
    def assign_valueRef(self, v): self.m.set_entry(self, v)


class FromTriplets:
    """a sparse matrix that is filled from a sequence of triplets"""
    is_model = True

    def __init__(self, nrow, ncol):
        self.nrow, self.ncol, self.seq = nrow, ncol, None
        self.stamp = next(E.counter)

    def rows(self): return self.nrow
    def cols(self): return self.ncol
    def makeCompressed(self): pass

    def setFromTriplets(self, a, b, dup=None):
        if E.recorder(self) is not None:
            unsupported("matrix filled in a summarised loop")
        E.use("Eigen setFromTriplets: the stored cells are those of the triplets; a cell named once has the value of its triplet")
        self.seq = between(a, b)

    def _cp(self): return self


def inner(m, u):
    if not hasattr(m, "row_iter"):
        no("sparse iteration")
    return m.row_iter(u)


# ---------------------------------------------------------------- construction
EXC = {"invalid_argument": ValueError, "runtime_error": RuntimeError, "out_of_range": IndexError, "logic_error": RuntimeError, "domain_error": ValueError}


def new(t, *a):
    head = re.sub(r"<.*", "", t).split("::")[-1]
    if head in EXC:
        return EXC[head](*a)
    if head == "basic_string" or t == "std::string":
        return a[0] if a else ""
    if head == "vector":
        el = t[t.index("<") + 1:].rsplit(">", 1)[0]
        return vector(el, *a)
    if head in ("unordered_set", "set"):
        r = SetBuild()
        if len(a) == 2 and isinstance(a[0], It):
            r.insert(*a)
        elif a:
            no("set constructor")
        return r
    if head in ("map", "unordered_map"):
        return rt.VDict()
    if head == "atomic":
        return Atomic(*a)
    if head == "pair":
        return Pair(*a)
    if head == "Triplet":
        return Triplet(*a)
    if head == "mersenne_twister_engine":
        return Rng(*a)
    if head in ("thread",):
        return Future(*a)
    if head == "SparseMatrix" and len(a) == 1:
        from .eig import SMat
        if isinstance(a[0], SMat):
            r = a[0]._cp()
            r.by = "row" if re.search(r", 1(, |>)", t) else "col"
            return r
    if head == "basic_stringstream":
        return Text()
    if head == "Matrix" and re.search(r", -1, 1>$|, -1, 1,", t):
        if len(a) == 1 and (isinstance(a[0], (int, SInt))):
            return DVec(a[0])
        if len(a) == 1 and isinstance(a[0], DVec):
            return a[0]._cp()
    if head == "SparseMatrix" and len(a) == 2 and E.triplets:
        return FromTriplets(*a)
    f = E.cxx_new
    if f is not None:
        r = f(head, t, a)
        if r is not None:
            return r
    if "iterator" in head:
        return None
    no("object of type " + t)


def vector(el, *a):
    if re.match(r"(std::)?(vector|unordered_set|set)\b", el):
        if len(a) == 1 and isinstance(a[0], (int, SInt)):
            r = Rows(el)
            r.resize(a[0])
            return r
        if not a and re.match(r"(std::)?(unordered_set|set)\b", el):
            return Rows(el)
        if not a:
            return Rows(el)
    v = Vec()
    v.default = 0.0 if el in ("double", "float") else 0 if re.match(r"(unsigned |signed )?(long|int|short|char)\b", el) else None
    if len(a) == 2 and isinstance(a[0], It):
        v.sym = between(*a)
    elif len(a) in (1, 2) and isinstance(a[0], (int, SInt)):
        d = v.default if len(a) == 1 else a[1]
        n = a[0]
        if not isinstance(n, int) or n:
            v.sym = VSeq(n, lambda k: d)
    elif len(a) == 1 and isinstance(a[0], (VSeq, VList)):
        v.sym = snapshot(a[0])
    elif a:
        no("vector constructor")
    return v


class Rows(Effects):
    """a vector of vectors or sets being filled: all empty at first; the changes are recorded: ("row", (k, op, value))"""

    def __init__(self, el):
        super().__init__()
        self.el, self.n = el, 0

    def resize(self, n):
        if not (isinstance(self.n, int) and self.n == 0):
            no("resize")
        self.effect("resize", n)
        self.n = n

    def size(self): return self.n
    def empty(self): return self.n == 0

    def get(self, k):
        if not E.valid(z3.And(term(k) >= 0, term(k) < term(self.n))):
            unsupported("index not shown to be in range")
        return RowRef(self, k)
    at = __getitem__ = get


class RowRef:
    def __init__(self, o, k):
        self.o, self.k = o, k

    def effect(self, op, v): self.o.effect("row", (self.k, op, v))
    def clear(self): self.effect("clear", None)
    def push_back(self, x): self.effect("append", x)
    def emplace_back(self, *a): self.effect("append", bundle(a))
    def insert(self, *a):
        if len(a) == 2 and isinstance(a[0], It):
            return self.effect("insert_all", between(*a))
        self.effect("insert", a[-1])
    emplace = insert
    def reserve(self, n): pass
    def begin(self): return None
    end = begin


def uninit(t):
    if re.search(r"[<:]", t):
        return new(t)
    return None


def init(t, *a):
    head = re.sub(r"<.*", "", t).split("::")[-1]
    if head == "pair":
        return Pair(*a)
    if head == "Triplet":
        return Triplet(*a)
    no("initialiser list for " + t)


def copy(x):
    if hasattr(x, "_cp"):
        return x._cp()
    if isinstance(x, (Pair, Triplet, It, Ptr, str)) or callable(x) or isinstance(x, (Sym, int, float, bool)):
        return x
    no("copy of %s" % type(x).__name__)


def convert(x, op):
    no("conversion " + op)


class Text:
    """a string being composed"""

    def str(self): return "message"


def shl(a, b):
    return a


def as_exc(x):
    return x


# ---------------------------------------------------------------- loops
def range(lo, hi):
    n = hi - lo
    if not isinstance(n, Sym):
        n = max(n, 0)
        if n <= 0:
            return VSeq(0, lambda k: lo + k)
    elif not E.valid(n.t >= 0):
        n = smax(n, 0)
    return VSeq(n, lambda k: lo + k)


def range_ne(lo, hi):
    if not nonneg(hi - lo):
        unsupported("loop with != not shown to terminate")
    return range(lo, hi)


def each(x):
    if isinstance(x, VList):
        return snapshot(x)
    if hasattr(x, "viter"):
        return x.viter()
    if isinstance(x, VSeq):
        return x
    no("range-based for over %s" % type(x).__name__)


each_copy = each


def numbered(s):
    s = rt.iter_(s)
    return VSeq(s.n, lambda k: (k, s.at(k)))


def count(s):
    return s.n


def started_worker():
    """the function of a worker that is started on this path, None if none is shown to be"""
    for it, last, inst in list(E.done_loops):
        if E.decide(term(last) >= 1):
            n0 = len(E.futures)
            inst(0)
            if len(E.futures) > n0:
                return E.futures[-1]
    return None
