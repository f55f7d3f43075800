"""P20: the similarity computers (cpp_source/knn/knn.hpp, similarities.hpp) and the feature weightings (cpp_source/util.hpp)"""
import z3
from pyvc.core import *
from pyvc import rt, cxx
from pyvc.eig import SMat, zero
from pyvc.spmodel import sym_sparse

KNN = "cpp_source/knn/similarities.hpp:"
UTIL = "cpp_source/util.hpp:"
NOTE = "matrix elements, parameters and intermediate values are finite real numbers computed without rounding; the denominators in the formulas are not 0"


def matrix(E, name, r, c, nonneg=True, by="row"):
    v, s = E.func(name, "int", "int", "real"), E.func(name + "_stored", "int", "int", "bool")

    def val(i, j):
        if nonneg:
            E.fact(v(term(i), term(j)) >= 0)
        return SFloat(v(term(i), term(j)))
    return SMat(r, c, val, lambda i, j: s(term(i), term(j)), by)


def total(E, n, f, g=None):
    return E.agg(((z3.IntVal(0), term(n)),), lambda k: f(SInt(k)).t, lambda k: g(SInt(k)) if g else z3.BoolVal(True))


def pow_(x, p):
    return flift(cxx.std_pow(x, p))


def run(V):
    m = V.cpp("knn", "knn/wrapper.cpp", "KNN")
    a = V.cpp("argcheck", "knn/wrapper.cpp", "irspack")
    u = V.cpp("util", "util.cpp", "irspack")

    def start(E):
        E.total_div = True
        E.note(NOTE)
        for f in ("check_arg_lower_bounded", "check_arg_upper_bounded", "check_arg_doubly_bounded"):
            if hasattr(a, f):
                setattr(cxx, "std_" + f, getattr(a, f))

    def make(E, cls, X, *args):
        try:
            return cxx.make(getattr(m, cls), getattr(m, cls + "__ctor_0"), X, *args)
        except ValueError:
            return None

    def similarity(cls, params, valid, want, norms=False):
        def spec(E):
            start(E)
            n, f, t = E.int("n_rows", lo=0), E.int("n_features", lo=0), E.int("n_targets", lo=0)
            X, T = matrix(E, "X", n, f), matrix(E, "T", t, f)
            ps = [E.bool(p) if p == "normalize" else E.float(p) for p in params]
            th, ch = E.int("n_threads", lo=0), E.int("max_chunk_size", lo=0)
            o = make(E, cls, X, *ps, th, ch)
            P = dict(zip(params, ps))
            ok = mkbool(z3.And(bterm(th >= 1), bterm(ch >= 1), *[bterm(x) for x in valid(P)]))
            E.prove("parameters are accepted exactly when they are in their range", ok if o is not None else snot(ok))
            if o is None:
                return
            s, e = E.int("start", lo=0), E.int("end", lo=0)
            E.assume(s <= e), E.assume(e <= t)
            R = o.compute_similarity_imple(T, s, e)
            E.reach("similarity computed")
            E.prove("a block has its rows and one column per row of X", mkbool(z3.And(term(R.rows()) == term(e - s), term(R.cols()) == n.t)))
            i, j = E.int("i", lo=0), E.int("j", lo=0, hi=n)
            E.assume(i < e - s)
            w, den = want(E, P, X, T, f, s + i, j)
            if den is not None:
                E.assume(mkbool(den.t != 0))
                w = SFloat(w.t / den.t)
            E.prove("every cell of a block equals the similarity formula", mkbool(R.at(i, j).t == w.t))
        return spec

    one = lambda M: (lambda i, j: zero(M.stored(i, j), 1.0))
    eps = 1e-6

    def F(x):
        return flift(tofloat(x))

    def dot(E, A, B, f, i, j):
        return total(E, f, lambda k: SFloat(A(i, k).t * B(j, k).t))

    def cosine(E, P, X, T, f, i, j):
        p = dot(E, T.at, X.at, f, i, j)
        sq = lambda M, r: ufun("sqrt", total(E, f, lambda k: SFloat(M.at(r, k).t * M.at(r, k).t)))
        if not E.branch(P["normalize"].t):
            return p, None
        return p, F(sq(X, j) * sq(T, i) + P["shrinkage"] + eps)

    def asym(E, P, X, T, f, i, j):
        p = dot(E, T.at, X.at, f, i, j)
        sq = lambda M, r: total(E, f, lambda k: SFloat(M.at(r, k).t * M.at(r, k).t))
        return p, F(pow_(sq(X, j), 1 - P["alpha"]) * pow_(sq(T, i), P["alpha"]) + P["shrinkage"] + eps)

    def counts(E, X, T, f, i, j):
        both = dot(E, one(T), one(X), f, i, j)
        nt, nx = total(E, f, lambda k: one(T)(i, k)), total(E, f, lambda k: one(X)(j, k))
        return both, nt, nx

    def jaccard(E, P, X, T, f, i, j):
        both, nt, nx = counts(E, X, T, f, i, j)
        return both, F(nx + nt - both + P["shrinkage"] + eps)

    def tversky(E, P, X, T, f, i, j):
        both, nt, nx = counts(E, X, T, f, i, j)
        return both, F(both + P["alpha"] * (nt - both) + P["beta"] * (nx - both) + P["shrinkage"] + eps)
    pos = lambda *ps: (lambda P: [P[p] >= 0 for p in ps])
    V.explore(KNN + "CosineSimilarityComputer", similarity("CosineSimilarityComputer", ["shrinkage", "normalize"], pos("shrinkage"), cosine))
    V.explore(KNN + "AsymmetricCosineSimilarityComputer", similarity("AsymmetricCosineSimilarityComputer", ["shrinkage", "alpha"], lambda P: [P["shrinkage"] >= 0, P["alpha"] >= 0, P["alpha"] <= 1], asym))
    V.explore(KNN + "JaccardSimilarityComputer", similarity("JaccardSimilarityComputer", ["shrinkage"], pos("shrinkage"), jaccard))
    V.explore(KNN + "TverskyIndexComputer", similarity("TverskyIndexComputer", ["shrinkage", "alpha", "beta"], pos("shrinkage", "alpha", "beta"), tversky))

    def walk(cls, params):
        def spec(E):
            start(E)
            n, f = E.int("n_items", lo=0), E.int("n_users", lo=0)
            # both matrices are the items x users matrix and its transpose
            X, T = matrix(E, "X", f, n), matrix(E, "T", n, f)
            ps = [E.float(p) for p in params]
            P = dict(zip(params, ps))
            th, ch = E.int("n_threads", lo=0), E.int("max_chunk_size", lo=0)
            o = make(E, cls, T, *ps, th, ch)
            ok = mkbool(z3.And(bterm(th >= 1), bterm(ch >= 1), *[bterm(x >= 0) for x in ps]))
            E.prove("parameters are accepted exactly when they are in their range", ok if o is not None else snot(ok))
            if o is None:
                return
            got = []

            def similar(target, top_k):
                got.append(target)
                return SMat(n, n, lambda i, j: 0.0, lambda i, j: z3.BoolVal(False))
            o.compute_similarity = similar
            k = E.int("top_k", lo=0)
            A = matrix(E, "A", n, f)
            o.compute_W(A, k)
            E.reach("weights computed")
            al = P["alpha"]
            i, c = E.int("i", lo=0, hi=n), E.int("c", lo=0, hi=f)
            col = lambda c: total(E, n, lambda r: pow_(A.fn(r, c), al), lambda r: A.stored(r, c))
            den = col(c)
            if "beta" in P:
                den = den * pow_(total(E, f, lambda x: A.fn(i, x), lambda x: A.stored(i, x)), P["beta"])
            E.assume(mkbool(F(den).t != 0))
            w = zero(A.stored(i, c), SFloat(pow_(A.fn(i, c), al).t / F(den).t))
            s, e = E.int("start", lo=0), E.int("end", lo=0)
            E.assume(s <= e), E.assume(e <= n)
            R = o.compute_similarity_imple(A, s, e)
            r, j = E.int("r", lo=0), E.int("j", lo=0, hi=n)
            E.assume(r < e - s)
            row = total(E, f, lambda k: pow_(T.fn(j, k), al), lambda k: T.stored(j, k))
            E.assume(mkbool(row.t != 0))
            p = total(E, f, lambda k: SFloat(A.at(s + r, k).t * zero(T.stored(j, k), SFloat(pow_(T.fn(j, k), al).t / row.t)).t))
            E.prove("the walk from items to users has the documented weights, and a block is the product of the two", mkbool(R.at(r, j).t == p.t))
            E.prove("the walk from users to items has the documented weights", len(got) == 1 and mkbool(got[0].at(i, c).t == w.t))
        return spec
    V.explore(KNN + "P3alphaComputer", walk("P3alphaComputer", ["alpha"]))
    V.explore(KNN + "RP3betaComputer", walk("RP3betaComputer", ["alpha", "beta"]))

    def weighting(name, build):
        def spec(E):
            start(E)
            n, c = E.int("n_rows", lo=1), E.int("n_cols", lo=0)
            X = matrix(E, "X", n, c, nonneg=name != "remove_diagonal")
            i, j = E.int("i", lo=0, hi=n), E.int("j", lo=0, hi=c)
            build(E, X, n, c, i, j)
        V.explore(UTIL + name, spec)

    def bm25(E, X, n, c, i, j):
        k1, b = E.float("k1"), E.float("b")
        length = lambda r: total(E, c, lambda x: X.fn(r, x), lambda x: X.stored(r, x))
        E.vector_sum = lambda d: total(E, d.n, lambda r: F(d.fn(r)))
        out = E.attempt(u.okapi_BM_25_weight, X, k1, b)
        E.prove("BM25 weighting returns", out.returned)
        E.reach("weighted")
        df = total(E, n, lambda r: SFloat(z3.RealVal(1)), lambda r: X.stored(r, j))
        idf = F(cxx.std_log(cxx.fdiv(n, df + 1.0) + 1.0))
        avg = SFloat(total(E, n, length).t / F(n).t)
        reg = k1 * (1.0 - b + SFloat((b * length(i)).t / avg.t))
        x = F(X.fn(i, j))
        den = x + reg
        E.assume(mkbool(z3.And(avg.t != 0, den.t != 0)))
        w = zero(X.stored(i, j), SFloat((idf * x * (k1 + 1.0)).t / den.t))
        E.prove("every cell is weighted by the BM25 formula", mkbool(out.value.at(i, j).t == w.t))
        E.prove("the shape is kept", mkbool(z3.And(term(out.value.rows()) == n.t, term(out.value.cols()) == c.t)))
        E.prove("the matrix given is not changed", mkbool(X.at(i, j).t == zero(X.stored(i, j), x).t))
    weighting("okapi_BM_25_weight", bm25)

    def tfidf(E, X, n, c, i, j):
        smooth = E.bool("smooth")
        out = E.attempt(u.tf_idf_weight, X, smooth)
        E.prove("TF-IDF weighting returns", out.returned)
        E.reach("weighted")
        df = total(E, n, lambda r: SFloat(z3.RealVal(1)), lambda r: X.stored(r, j))
        s = z3.If(smooth.t, z3.RealVal(1), z3.RealVal(0))
        E.assume(mkbool(df.t + s != 0))
        idf = F(cxx.std_log(SFloat(F(n).t / (df.t + s))))
        w = zero(X.stored(i, j), SFloat(F(X.fn(i, j)).t * idf.t))
        E.prove("every cell is multiplied by the inverse document frequency", mkbool(out.value.at(i, j).t == w.t))
        E.prove("the shape is kept", mkbool(z3.And(term(out.value.rows()) == n.t, term(out.value.cols()) == c.t)))
    weighting("tf_idf_weight", tfidf)

    def diagonal(E, X, n, c, i, j):
        out = E.attempt(u.remove_diagonal, X)
        if not out.returned:
            E.prove("only a matrix that is not square is refused, with a ValueError", sand(out.raised(ValueError), mkbool(n.t != c.t)))
            return
        E.reach("diagonal removed")
        E.prove("the diagonal is 0 and every other cell is kept", mkbool(out.value.at(i, j).t == z3.If(i.t == j.t, z3.RealVal(0), X.at(i, j).t)))
    weighting("remove_diagonal", diagonal)

    models(V)
    topk(V, m)


class Entries:
    """the stored entries of the rows of the whole similarity matrix, by row and number"""

    def __init__(self, E, N):
        self.N = N
        self.cnt, self.colf, self.slotf = E.func("count", "int", "int"), E.func("column", "int", "int", "int"), E.func("slot", "int", "int", "int")
        self.st, self.v = E.func("stored", "int", "int", "bool"), E.func("value", "int", "int", "real")

    def nnz(self, R):
        n = self.cnt(z3.simplify(term(R)))
        E.fact(z3.And(n >= 0, n <= term(self.N)))
        return SInt(n)

    def col(self, R, t):
        R, t = z3.simplify(term(R)), z3.simplify(term(t))
        c = self.colf(R, t)
        E.fact(z3.Implies(z3.And(t >= 0, t < self.nnz(SInt(R)).t), z3.And(c >= 0, c < term(self.N), self.st(R, c), self.slotf(R, c) == t)))
        return SInt(c)

    def slot(self, R, c):
        R, c = z3.simplify(term(R)), z3.simplify(term(c))
        t = self.slotf(R, c)
        E.fact(z3.Implies(self.st(R, c), z3.And(t >= 0, t < self.nnz(SInt(R)).t, self.colf(R, t) == c)))
        return SInt(t)

    def val(self, R, c):
        return SFloat(self.v(z3.simplify(term(R)), z3.simplify(term(c))))


class Block:
    """the compressed storage of rows s, ..., e - 1"""
    is_model = True

    def __init__(self, X, s, e):
        self.X, self.s, self.e = X, s, e
        self.off = E.func("outer", "int", "int")

    def rows(self): return self.e - self.s
    def cols(self): return self.X.N
    def makeCompressed(self): pass
    def valuePtr(self): return BPtr(self, "value")
    def innerIndexPtr(self): return BPtr(self, "col")
    def outerIndexPtr(self): return Outer(self)
    def _cp(self): return self


class Outer:
    def __init__(self, b):
        self.b = b

    def __getitem__(self, i):
        b, t = self.b, z3.simplify(term(i))
        if not E.valid(z3.And(t >= 0, t <= term(b.rows()))):
            unsupported("row index not shown to be in range")
        for k in (t, z3.simplify(t - 1)):
            E.fact(z3.Implies(z3.And(k >= 0, k < term(b.rows())), b.off(z3.simplify(k + 1)) == b.off(k) + b.X.nnz(b.s + SInt(k)).t))
        return SInt(b.off(t))


class BPtr:
    """the entries of a row"""

    def __init__(self, b, kind, row=None):
        self.b, self.kind, self.row = b, kind, row

    def __add__(self, o):
        t = term(o)
        if self.row is not None or not (z3.is_app(t) and t.decl().eq(self.b.off)):
            unsupported("pointer arithmetic of another form")
        return BPtr(self.b, self.kind, SInt(t.arg(0)))
    __radd__ = __add__

    def __getitem__(self, k):
        if self.row is None:
            unsupported("pointer arithmetic of another form")
        R = self.b.s + self.row
        X = self.b.X
        if not E.no_range and not E.valid(z3.And(term(k) >= 0, term(k) < X.nnz(R).t)):
            unsupported("entry not shown to be in its row")
        c = X.col(R, k)
        return c if self.kind == "col" else X.val(R, c)


def topk(V, m):
    TRIPLE, SIM = "cpp_source/knn/knn.hpp:KNNComputer::compute_similarity_triple", "cpp_source/knn/knn.hpp:KNNComputer::compute_similarity"

    def computer(E, N, F=None):
        o = m.KNNComputer.__new__(m.KNNComputer)
        E.stamp(o)
        o.N, o.n_features, o.shrinkage = N, F, E.float("shrinkage")
        o.n_threads, o.max_chunk_size = E.int("n_threads", lo=1), E.int("max_chunk_size", lo=1)
        return o

    def triple(E):
        E.triplets = True
        E.use("Eigen compressed storage: the entries of row r are those from outer[r] to outer[r + 1], with different columns")
        E.note("similarities are real numbers (not nan); the entries stored for a row by the sparse product depend on that row only")
        N, rows = E.int("N", lo=0), E.int("n_targets", lo=0)
        o = computer(E, N)
        X = Entries(E, N)
        target = object()
        s, e, k = E.int("start", lo=0), E.int("end", lo=0), E.int("top_k", lo=0)
        E.assume(sand(s <= e, e <= rows))

        def block(t, a, b):
            if t is not target or not E.valid(z3.And(term(a) >= s.t, term(a) <= term(b), term(b) <= e.t)):
                unsupported("block not shown to be a part of the rows asked for")
            return Block(X, a, b)
        o.compute_sim_block = block
        out = E.attempt(o.compute_similarity_triple, target, s, e, k)
        E.prove("the entries of a range of rows are computed", out.returned)
        if not out.returned:
            return
        T = cxx.snapshot(out.value)
        R = E.int("R", lo=0)
        E.assume(sand(R >= s, R < e))
        if not isinstance(T, rt.Concat):
            unsupported("entries collected in another way")
        S = E.done_strides
        if len(S) != 1 or not E.valid(term(T.m) == term(S[0].n)):
            unsupported("rows visited in another way")
        S = S[0]

        def row(k, r):
            c = T.seg(k)
            if not isinstance(c, rt.Concat):
                unsupported("entries collected in another way")
            n0 = len(E.ghost_sorts)
            L = c.seg(r)
            sorts[:] = E.ghost_sorts[n0:]
            return c, L
        sorts = []
        c = S.find(R)
        p = S.at(c)
        ch, L = row(c, R - p)
        E.reach("a row")
        E.prove("every row is in one of the chunks", sand(R - p >= 0, R - p < ch.m))
        n = X.nnz(R)
        E.prove("the smaller of the number of entries and top_k is kept of a row", L.n == smin_(n, k))
        q = E.choose(3, "question")
        j = E.int("j", lo=0)
        if q == 0:
            E.assume(j.t < term(L.n))
            x = L.at(j)
            E.reach("an entry")
            E.prove("an entry kept is an entry of its row", sand(x.row() == R, SBool(X.st(R.t, term(x.col()))), mkbool(same(x.value(), X.val(R, x.col())))))
            i = E.int("i", lo=0)
            E.assume(z3.And(i.t < term(L.n), i.t != j.t))
            E.prove("no entry is kept twice", L.at(i).col() != x.col())
        elif q == 1:
            E.assume(j.t < term(L.n))
            x = L.at(j)
            col = E.int("c", lo=0, hi=N)
            E.assume(SBool(X.st(R.t, col.t)))
            t = X.slot(R, col)
            where = [t]
            for s_ in sorts:
                where += [s_.where(w) for w in list(where) if E.possible(z3.And(term(w) >= 0, term(w) < term(s_.n)))]
            for w in where:
                if E.decide(z3.And(term(w) >= 0, term(w) < term(L.n))) and E.valid(L.at(w).col().t == col.t):
                    return
            E.reach("an entry left out")
            v, w = X.val(R, x.col()), X.val(R, col)
            E.prove("an entry left out is not more similar than one kept; of equal ones the lower index is kept", mkbool(z3.Or(v.t > w.t, z3.And(v.t == w.t, term(x.col()) < col.t))))
        else:
            # another place of the result holds another row
            k2, r2 = E.int("k2", lo=0), E.int("r2", lo=0)
            E.assume(k2.t < term(T.m))
            p2 = S.at(k2)
            c2 = T.seg(k2)
            E.assume(r2.t < term(c2.m))
            c2, L2 = row(k2, r2)
            E.assume(j.t < term(L2.n))
            x = L2.at(j)
            E.reach("any place of the result")
            E.prove("the result holds rows of the range asked for only", sand(x.row() >= s, x.row() < e))
            E.assume(x.row() == R)
            E.prove("all entries of a row are at one place", sand(k2 == c, r2 == R - p))
    V.explore(TRIPLE, triple)

    def whole(E):
        E.triplets = True
        N, F, rows, cols = E.int("N", lo=0), E.int("n_features", lo=0), E.int("n_targets", lo=0), E.int("n_columns", lo=0)
        o = computer(E, N, F)
        target = Target(rows, cols)
        k = E.int("top_k", lo=0)
        cnt = E.func("entries", "int", "int", "int")

        def entries(t, s, e, tk):
            r = cxx.Vec()
            n = cnt(term(s), term(e))
            E.fact(n >= 0)
            r.sym = Part(SInt(n), s, e, tk, t is target)
            return r
        o.compute_similarity_triple = entries
        out = E.attempt(o.compute_similarity, target, k)
        if not E.decide(cols.t == F.t):
            E.reach("another number of features")
            E.prove("another number of features raises ValueError", out.raised(ValueError))
            return
        E.prove("the similarity matrix is computed", out.returned)
        if not out.returned:
            return
        M = out.value
        if not isinstance(M, cxx.FromTriplets):
            unsupported("matrix built in another way")
        E.prove("one row per target, one column per row of X", sand(M.nrow == rows, M.ncol == N))
        E.reach("computed")
        q = M.seq
        if isinstance(q, Part):
            E.prove("one thread computes all rows, with the top_k asked for", sand(q.ok, q.s == 0, q.e == rows, q.k == k))
            return
        if not isinstance(q, rt.Concat):
            unsupported("entries collected in another way")
        E.reach("several threads")
        E.prove("there is a job", q.m >= 1)
        i = E.int("i", lo=0)
        E.assume(i.t < term(q.m))
        part = lambda x: x if isinstance(x, Part) else unsupported("entries collected in another way")
        a, z = part(q.seg(i)), part(q.seg(0))
        E.prove("every job is for the target and the top_k asked for", sand(a.ok, a.k == k))
        E.prove("the first job starts at the first row", z.s == 0)
        # where job i starts, by induction
        th = o.n_threads
        d, r = rows // th, rows % th
        G = lambda x: mkint(term(x) * d.t + z3.If(term(x) < r.t, term(x), r.t))
        if E.valid(z3.Implies(bterm(a.s == G(i)), bterm(sand(a.e == G(i + 1), a.s <= a.e)))):
            E.assume(a.s == G(i))
        elif "prefix!" in str(term(a.s)):
            unsupported("rows divided among the threads in another way")
        E.prove("no job ends before it starts", a.s <= a.e)
        if E.decide(i.t + 1 < term(q.m)):
            E.reach("the next job")
            E.prove("every job starts where the one before ends", part(q.seg(i + 1)).s == a.e)
        else:
            E.prove("the last job ends after the last row", a.e == rows)
    V.explore(SIM, whole)


class Target:
    is_model = True

    def __init__(self, r, c):
        self.r, self.c = r, c

    def rows(self): return self.r
    def cols(self): return self.c


class Part(rt.VSeq):
    """the entries of rows s, ..., e - 1"""

    def __init__(self, n, s, e, k, ok):
        self.s, self.e, self.k, self.ok = s, e, k, ok
        super().__init__(n, lambda k: unsupported("an entry read"))


def smin_(a, b):
    return mkint(z3.If(term(a) < term(b), term(a), term(b)))


class Native:
    """the compiled module recommenders._knn and the weightings of utils, by their contracts: what they are given is recorded"""

    class Computer:
        def __init__(self, made, cls, X, named):
            self.cls, self.X, self.named = cls, X, named
            made.append(self)

        def compute_similarity(self, X, top_k):
            return Native.result(self, X, top_k, "similarity")

        def compute_W(self, X, top_k):
            return Native.result(self, X, top_k, "W")

    @staticmethod
    def result(c, X, top_k, kind):
        r = sym_sparse("S", (X.shape[0], X.shape[0]), fmt="csr")
        E.ghost.setdefault("results", []).append((r, c, X, X.snapshot(), top_k, kind))
        return r

    @staticmethod
    def module():
        import types
        mod = types.SimpleNamespace(__name__="irspack.recommenders._knn")
        D = {"n_threads": 1, "max_chunk_size": 128}
        for cls, ps in (("CosineSimilarityComputer", ["shrinkage", "normalize"]), ("AsymmetricSimilarityComputer", ["shrinkage", "alpha"]), ("JaccardSimilarityComputer", ["shrinkage"]),
                        ("TverskyIndexComputer", ["shrinkage", "alpha", "beta"]), ("P3alphaComputer", ["alpha"]), ("RP3betaComputer", ["alpha", "beta"])):
            def make(*a, cls=cls, names=["X"] + ps + ["n_threads", "max_chunk_size"], **kw):
                d = {**D, **({"alpha": 0, "beta": 0} if "P3" in cls else {}), **dict(zip(names, a)), **kw}
                if set(d) - {"beta", "alpha"} - set(names) or any(x not in d for x in names):
                    raise TypeError("arguments")
                return Native.Computer(E.ghost.setdefault("made", []), cls, d.pop("X"), d)
            setattr(mod, cls, make)
        return mod


MODS = "irspack.recommenders."


def models(V):
    L = V.loader({"irspack.recommenders._knn": Native.module()})
    L.load(MODS + "base")
    ut = L.load("irspack.utils")
    kn, us, p3, rp = (L.load(MODS + x) for x in ("knn", "user_knn", "p3", "rp3"))
    E.use("nanobind: the compiled computers take their arguments in the declared order with the declared defaults")

    def weight(kind):
        def f(X, *a):
            r = sym_sparse("weighted", X.shape, fmt="csr")
            E.ghost.setdefault("weighted", []).append((r, kind, X, X.snapshot(), a))
            return r
        return f

    def remove_diagonal(X):
        r = sym_sparse("nodiag", X.shape, fmt="csr")
        E.ghost.setdefault("nodiag", []).append((r, X))
        return r

    def l1(X):
        r = sym_sparse("normalised", X.shape, fmt="csc")
        E.ghost.setdefault("l1", []).append((r, X))
        return r
    for mod in (kn, us, p3, rp):
        for nm, f in (("tf_idf_weight", weight("TF_IDF")), ("okapi_BM_25_weight", weight("BM_25")), ("remove_diagonal", remove_diagonal), ("l1_normalize_row", l1)):
            if hasattr(mod, nm):
                setattr(mod, nm, f)

    def equal_cells(E, A, B, tr=False):
        """A equals B (or its transpose) cell by cell; B a snapshot with its shape"""
        f, sh = B
        i, j = E.int("i", lo=0), E.int("j", lo=0)
        E.assume(sand(i < A.shape[0], j < A.shape[1]))
        return sand(A.shape[0] == sh[1 if tr else 0], A.shape[1] == sh[0 if tr else 1], mkbool(same(A.at(i, j), f(j, i) if tr else f(i, j))))

    def learn(E, mod, cls, comp, params, byuser, walk=False, weighted=True):
        E.exact = True
        n, m = E.int("n_users", lo=1), E.int("n_items", lo=1)
        X = sym_sparse("X", (n, m), fmt="csr")
        xs = X.snapshot()
        kw = {p: E.bool(p) if p == "normalize" else E.float(p) for p in params}
        scheme = "NONE"
        if weighted:
            scheme = ("NONE", "TF_IDF", "BM_25")[E.choose(3, "weighting")]
            kw.update(feature_weighting=scheme, bm25_k1=E.float("k1"), bm25_b=E.float("b"))
        k = E.int("top_k", lo=0)
        if not walk or E.choose(2, "top_k"):
            kw["top_k"] = k
        else:
            kw["top_k"], k = None, m
        norm = False
        if walk:
            norm = kw["normalize_weight"] = bool(E.choose(2, "normalize_weight"))
        kw["n_threads"] = th = E.int("n_threads", lo=1)
        rec = getattr(mod, cls)(X, **kw)
        for a in ("made", "weighted", "results", "nodiag", "l1"):
            E.ghost.pop(a, None)
        out = E.attempt(rec.learn)
        E.prove("training returns", out.returned)
        if not out.returned:
            return
        E.reach("trained")
        W = rec.U if byuser else rec.W
        got = E.ghost
        if norm:
            l = [a for r, a in got.get("l1", []) if r is W]
            E.prove("the weights are normalised when asked", len(l) == 1)
            if not l:
                return
            W = l[0]
        if not walk:
            d = [(r, a) for r, a in got.get("nodiag", []) if W is r or E.valid(bterm(equal_cells(E, W, (r.snapshot(), r.shape))))]
            E.prove("the diagonal is removed from the similarities", len(d) == 1)
            if not d:
                return
            W = d[0][1]
        s = [x for x in got.get("results", []) if W is x[0] or E.valid(bterm(equal_cells(E, W, (x[0].snapshot(), x[0].shape))))]
        E.prove("the weights are computed by one similarity computer", len(s) == 1 and s[0][1].cls == comp and s[0][5] == ("W" if walk else "similarity"))
        if not s:
            return
        _, c, T, snap, tk, _ = s[0]
        E.prove("the computer gets the parameters of the model", sand(*[mkbool(same(tofloat(c.named[p]), tofloat(kw[p]))) if p != "normalize" else mkbool(bterm(c.named[p]) == bterm(kw[p])) for p in params]))
        E.prove("the computer gets the thread count of the model", c.named["n_threads"] == th)
        E.prove("the limit on neighbours is the top_k of the model, or the number of items", tk == k)
        E.prove("the similarities are asked for the training matrix, one row for each item or user", equal_cells(E, T, (xs, X.shape), tr=not byuser))
        if scheme == "NONE":
            E.prove("without weighting the features are those of the training matrix", equal_cells(E, c.X, (xs, X.shape), tr=not byuser))
        else:
            w = got.get("weighted", [])
            ok = len(w) == 1 and w[0][1] == scheme
            E.prove("the weighting chosen is applied once", ok)
            if not ok:
                return
            r, kind, _, wsnap, a = w[0]
            from types import SimpleNamespace
            i, j = E.int("i", lo=0, hi=n), E.int("j", lo=0, hi=m)
            E.prove("the weighting is applied to the training matrix", mkbool(same(wsnap(i, j), xs(i, j))))
            E.prove("the features are the weighted training matrix", equal_cells(E, c.X, (r.snapshot(), r.shape), tr=not byuser))
            if scheme == "BM_25":
                E.prove("the weighting gets the BM25 parameters of the model", len(a) == 2 and sand(mkbool(same(a[0], kw["bm25_k1"])), mkbool(same(a[1], kw["bm25_b"]))))
    for mod, cls, comp, params, byuser, opt in (
            (kn, "CosineKNNRecommender", "CosineSimilarityComputer", ["shrinkage", "normalize"], False, {}),
            (kn, "AsymmetricCosineKNNRecommender", "AsymmetricSimilarityComputer", ["shrinkage", "alpha"], False, {}),
            (kn, "JaccardKNNRecommender", "JaccardSimilarityComputer", ["shrinkage"], False, dict(weighted=False)),
            (kn, "TverskyIndexKNNRecommender", "TverskyIndexComputer", ["shrinkage", "alpha", "beta"], False, dict(weighted=False)),
            (us, "CosineUserKNNRecommender", "CosineSimilarityComputer", ["shrinkage", "normalize"], True, {}),
            (us, "AsymmetricCosineUserKNNRecommender", "AsymmetricSimilarityComputer", ["shrinkage", "alpha"], True, {}),
            (p3, "P3alphaRecommender", "P3alphaComputer", ["alpha"], False, dict(walk=True, weighted=False)),
            (rp, "RP3betaRecommender", "RP3betaComputer", ["alpha", "beta"], False, dict(walk=True, weighted=False))):
        V.explore(MODS + "%s.%s._learn" % (mod.__name__.split(".")[-1], cls), lambda E, a=(mod, cls, comp, params, byuser), o=opt: learn(E, *a, **o))
