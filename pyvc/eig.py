"""Eigen sparse matrices as cell functions, for code that computes with all entries: loops over the stored entries of every row (or column) that change
the entries or add to the elements of dense vectors"""
import z3
from . import rt
from .core import *
from .core import E
from .rt import Rec, LoopSum, Thunk, Control


def world():
    """the contents of the matrices and vectors now"""
    return [(o, o.fn, o.mut) for o in E.eigs]


class At:
    """a function run with the contents that matrices and vectors had"""

    def __init__(self, f, w):
        self.f, self.w = f, w

    def __call__(self, *a):
        now = [(o, o.fn, o.mut) for o, _, _ in self.w]
        for o, fn, mut in self.w:
            o.fn, o.mut = fn, mut
        try:
            return self.f(*a)
        finally:
            for o, fn, mut in now:
                o.fn, o.mut = fn, mut


def zero(c, v):
    v = flift(tofloat(v))
    return SFloat(z3.If(c, v.t, z3.RealVal(0)))


class SMat:
    """sparse matrix: stored(i, j) (a z3 formula), fn(i, j) the value of a stored cell; by: "row" or "col" major"""
    is_model = True

    def __init__(self, nrow, ncol, fn, stored, by="row", at=None):
        self.nrow, self.ncol, self.fn, self.stored, self.by = nrow, ncol, fn, stored, by
        self.stamp, self.mut = next(E.counter), -1
        E.eigs.append(self)

    def rows(self): return self.nrow
    def cols(self): return self.ncol
    def outerSize(self): return self.nrow if self.by == "row" else self.ncol
    def innerSize(self): return self.ncol if self.by == "row" else self.nrow
    def makeCompressed(self): pass

    def snap(self):
        rt.fresh_read(self)
        rec = E.recorder(self)
        if rec is not None:
            rec.info.read[id(self)] = self
        fn, st = self.fn, self.stored
        return lambda i, j: zero(st(i, j), fn(i, j))

    def at(self, i, j):
        return zero(self.stored(i, j), self.fn(i, j))

    def _cp(self):
        self.snap()
        return SMat(self.nrow, self.ncol, self.fn, self.stored, self.by)

    def transpose(self):
        self.snap()
        fn, st = self.fn, self.stored
        return SMat(self.ncol, self.nrow, lambda i, j: fn(j, i), lambda i, j: st(j, i), "col" if self.by == "row" else "row")

    def middleRows(self, s, n):
        self.snap()
        if not E.valid(z3.And(term(s) >= 0, term(n) >= 0, term(s) + term(n) <= term(self.nrow))):
            unsupported("rows not shown to be in range")
        fn, st = self.fn, self.stored
        return SMat(n, self.ncol, lambda i, j: fn(s + i, j), lambda i, j: st(s + i, j), self.by)

    def row(self, i):
        f = self.snap()
        self._in(i, self.nrow)
        return Line(self.ncol, lambda j: f(i, j))

    def col(self, j):
        f = self.snap()
        self._in(j, self.ncol)
        return Line(self.nrow, lambda i: f(i, j))

    def _in(self, i, n):
        if not E.no_range and not E.valid(z3.And(term(i) >= 0, term(i) < term(n))):
            unsupported("index not shown to be in range")

    def __mul__(self, o):
        if not isinstance(o, SMat):
            unsupported("product with %s" % type(o).__name__)
        if not E.valid(term(self.ncol) == term(o.nrow)):
            unsupported("sizes of a product not shown to agree")
        E.use("Eigen sparse product: the sums of products; cells that are not stored are 0")
        a, b, n = self.snap(), o.snap(), self.ncol
        st = E.func("product_stored", "int", "int", "bool")
        memo = {}

        def val(i, j):
            key = (z3.simplify(term(i)), z3.simplify(term(j)))
            for k, v in memo.items():
                if k[0].eq(key[0]) and k[1].eq(key[1]):
                    return v
            i, j = mkint(key[0]), mkint(key[1])
            v = E.agg(((z3.IntVal(0), term(n)),), lambda k: a(i, SInt(k)).t * b(SInt(k), j).t, lambda k: z3.BoolVal(True))
            E.fact(z3.Implies(z3.Not(st(*key)), v.t == 0))
            memo[key] = v
            return v
        return SMat(self.nrow, o.ncol, val, lambda i, j: st(z3.simplify(term(i)), z3.simplify(term(j))), "row")

    def row_iter(self, u):
        return Cells(self, u)

    def absorb_loop(self, it, mine, ops, counts):
        if ops != {"line"} or E.recorder(self) is not None:
            unsupported("loop effects %s on a sparse matrix" % (ops,))
        own(it, mine, self)
        old = self.fn

        def fn(i, j):
            u, v = (i, j) if self.by == "row" else (j, i)
            x = At(lambda: [e[2][1](v) for e in safe(mine, u)], [(self, old, -1)])()
            return x[-1] if x else old(i, j)
        rt.note_write(self)
        self.fn, self.mut = fn, next(E.counter)


def safe(mine, u):
    E.no_range += 1
    try:
        return mine(u)
    finally:
        E.no_range -= 1


def own(it, mine, m):
    """iteration k of the loop is about line k of m, and all lines are visited"""
    if not E.valid(term(it.n) == term(m.outerSize())):
        unsupported("loop over a part of a sparse matrix")

    def one():
        k = E.int("k", lo=0, hi=it.n)
        return all(E.valid(term(e[2][0]) == k.t) for e in mine(k))
    if not all(E.subexplore(one)):
        unsupported("loop over lines of a sparse matrix in another order")


class Line:
    """a row or a column"""
    is_model = True

    def __init__(self, n, f):
        self.n, self.f = n, f

    def total(self, g):
        f = self.f
        return E.agg(((z3.IntVal(0), term(self.n)),), lambda k: g(f(SInt(k)).t), lambda k: z3.BoolVal(True))

    def sum(self): return self.total(lambda t: t)
    def squaredNorm(self): return self.total(lambda t: t * t)
    def norm(self): return ufun("sqrt", self.squaredNorm())


class Entry:
    def __init__(self, m, u, v):
        self.m, self.u, self.v, self.cur = m, u, v, None

    def row(self): return self.u if self.m.by == "row" else self.v
    def col(self): return self.v if self.m.by == "row" else self.u
    def index(self): return self.v

    def value(self):
        return self.cur if self.cur is not None else self.m.fn(self.row(), self.col())
    valueRef = value

    def assign_valueRef(self, x):
        rec = E.recorder(self.m)
        if rec is None or not isinstance(E.recording[-1][0].info, CellSum):
            unsupported("entry stored outside a loop over the entries")
        rec.append((self.m, "entry", tofloat(x)))
        self.cur = flift(tofloat(x))


class CellSum(LoopSum):
    def __init__(self):
        super().__init__(0)
        self.acc = {}


class Cells:
    """the stored entries of line u"""
    symbolic_iter = True
    is_model = True

    def __init__(self, m, u):
        self.m, self.u = m, u

    def cell_loop(self, body, breaks):
        if breaks:
            unsupported("loop over entries left early")
        m, u = self.m, self.u
        body = At(Thunk(body), world())
        info = CellSum()
        raised = []

        def run(v):
            rec = Rec(v, info)
            E.recording.append((rec, next(E.counter)))
            try:
                body(Entry(m, u, v))
            except Control:
                raise
            except BaseException as e:
                raised.append(e)
                raise Infeasible()
            finally:
                E.recording.pop()
            return rec

        def any_():
            v = E.int("j", lo=0, hi=m.innerSize())
            rc = (u, v) if m.by == "row" else (v, u)
            E.assume(mkbool(m.stored(*rc)))
            return run(v), v
        for rnd in range(2):
            seen = E.subexplore(any_)
            for rec, v in seen:
                for o, op, x in rec:
                    if op == "set":
                        info.acc[id(o)] = o
        if raised:
            unsupported("exception in a loop over entries")
        objs = []
        for rec, v in seen:
            for o, op, x in rec:
                if not any(o is y for y in objs):
                    objs.append(o)
        if any(o is x for x in info.read.values() for o in objs):
            unsupported("loop over entries reads what it changes")
        for o in objs:
            ops = {op for rec, v in seen for (p, op, x) in rec if p is o}
            outer = E.recorder(o)
            if outer is None:
                unsupported("entries of one line changed")
            if o is m and ops == {"entry"}:
                def line(v):
                    E.no_range += 1
                    try:
                        xs = [x for (p, op, x) in run(v) if p is m]
                    finally:
                        E.no_range -= 1
                    rc = (u, v) if m.by == "row" else (v, u)
                    x = flift(xs[-1]) if xs else flift(m.fn(*rc))
                    if "cur!" in str(x.t):
                        unsupported("entry computed from a running total")
                    return x
                outer.append((o, "line", (u, At(line, world()))))
            elif ops == {"add"}:
                if len(seen) != 1 or sum(1 for (p, op, x) in seen[0][0] if p is o) != 1:
                    unsupported("conditional additions")

                def add(v, o=o):
                    E.no_range += 1
                    try:
                        return [x for (p, op, x) in run(v) if p is o][0]
                    finally:
                        E.no_range -= 1
                outer.append((o, "lineadd", (u, m, At(add, world()))))
            else:
                unsupported("loop over entries with effects %s" % (ops,))


def absorb_adds(d, it, mine):
    """d[k] = d[k] + amount, once for every stored entry"""
    def one():
        k = E.int("k", lo=0, hi=it.n)
        es = mine(k)
        if len(es) != 1:
            return None
        u, m, add = es[0][2]
        v = E.int("j", lo=0, hi=m.innerSize())
        i, x = add(v)
        return m, "in" if E.valid(term(i) == v.t) else "out" if E.valid(term(i) == term(u)) else None
    r = E.subexplore(one)
    if not r or any(x is None or x[1] is None or x[1] != r[0][1] or x[0] is not r[0][0] for x in r):
        unsupported("additions to a vector of another form")
    m, kind = r[0]
    own(it, mine, m)
    if not E.valid(term(d.n) == term(m.innerSize() if kind == "in" else m.outerSize())):
        unsupported("vector of another size")
    old, st = d.fn, m.stored
    amount = lambda u, v: flift(tofloat(safe(mine, u)[0][2][2](v)[1])).t
    where = lambda u, v: st(u, v) if m.by == "row" else st(v, u)
    memo = {}

    def fn(c):
        t = z3.simplify(term(c))
        if t.get_id() not in memo:
            c = mkint(t)
            n = m.outerSize() if kind == "in" else m.innerSize()
            f = (lambda k: (SInt(k), c)) if kind == "in" else (lambda k: (c, SInt(k)))
            s = E.agg(((z3.IntVal(0), term(n)),), lambda k: amount(*f(k)), lambda k: where(*f(k)))
            memo[t.get_id()] = (t, SFloat(flift(tofloat(old(c))).t + s.t))
        return memo[t.get_id()][1]
    d._set(fn)
