"""P02: the row-wise split puts every stored entry into exactly one part, the required number of each row into the second"""
import z3
from pyvc import cxx, rt
from pyvc.core import *
from pyvc.core import E
from pyvc.cxx import Csr, FromTriplets
from pyvc.spmodel import SpM
from pyvc.npmodel import float64, float32, int64, int32
from pyvc.pdmodel import RandomState
from contracts.cppsplit import SplitModel

SRC = "cpp_source/util.hpp: SplitFunction::split_imple"


def at(s, k):
    return s.at(k)


def cell(x, i, c):
    return sand(x.row() == i, x.col() == c)


def find(a, b, p, N, i, c):
    """entry number p of the row, of column c, is in part a or in part b"""
    cands = [s.where(p) for s in E.ghost_sorts if E.valid(term(s.n) == N.t)] + [p]
    for q in cands:
        for s, w in ((b, q), (a, q - b.n), (a, q), (b, q - a.n)):
            if E.decide(z3.And(term(w) >= 0, term(w) < term(s.n))) and E.valid(bterm(cell(s.at(w), i, c))):
                return True
    return False


BOUND = {}


def within(kind):
    """floor(N * r) and ceil(N * r) lie in [0, N] for 0 <= r <= 1, on their own"""
    if kind not in BOUND:
        N, r, s = z3.Int("N"), z3.Real("r"), z3.Solver()
        s.set("timeout", 20000)
        w = need(kind, N, r)
        s.add(N >= 0, r >= 0, r <= 1, z3.Not(z3.And(w >= 0, w <= N)))
        BOUND[kind] = s.check() == z3.unsat
    return BOUND[kind]


def need(kind, N, r):
    return z3.ToInt(z3.ToReal(N) * r) if kind == 0 else -z3.ToInt(-(z3.ToReal(N) * r))


def run_cpp(V):
    m = V.cpp("util", "util.cpp", "irspack")

    def spec(E):
        E.triplets = True
        E.note("seed >= 0; number of entries times ratio is computed exactly (machine floating point as real arithmetic); instantiation for double matrices")
        nr, nc, seed = E.int("rows", lo=0), E.int("cols", lo=0), E.int("seed", lo=0)
        X = Csr(nr, nc)
        kind = E.choose(3, "kind")
        tag = ", " + ["floor of a ratio", "ceil of a ratio", "a fixed number"][kind]
        if kind < 2:
            ratio = E.float("ratio")
            out = E.attempt(m.SplitByRatioFunction.split, X, seed, ratio, kind == 1)
            if not E.decide(bterm(sand(ratio >= 0, ratio <= 1))):
                E.reach("ratio outside [0, 1]")
                E.prove("a ratio outside [0, 1] raises ValueError", out.raised(ValueError))
                return
        else:
            n = E.int("n", lo=0)
            out = E.attempt(m.SplitFixedN.split, X, seed, n)
        E.prove("the split returns" + tag, out.returned)
        if not out.returned:
            return
        r = out.value
        tr, te = r.first, r.second
        if not isinstance(tr, FromTriplets) or not isinstance(te, FromTriplets) or tr is te:
            unsupported("parts of another form")
        E.reach("split" + tag)
        E.prove("both parts have the shape of the input" + tag, sand(tr.nrow == nr, tr.ncol == nc, te.nrow == nr, te.ncol == nc))
        if tr.seq is None or te.seq is None:
            E.prove("both parts are filled" + tag, False)
            return
        E.prove("the random numbers come from a generator with the given seed" + tag, all(E.valid(term(g.seed) == seed.t) for g in E.rngs))
        if not isinstance(tr.seq, rt.Concat) or not isinstance(te.seq, rt.Concat):
            unsupported("entries collected in another way")
        E.prove("every row is split" + tag, sand(tr.seq.m == nr, te.seq.m == nr))
        i = E.int("i", lo=0)
        if not E.decide(i.t < nr.t):
            return
        E.reach("a row" + tag)
        b, a = te.seq.seg(i), tr.seq.seg(i)
        N = X.nnz(i)
        if kind < 2:
            want = need(kind, N.t, ratio.t)
            if within(kind):
                E.fact(z3.And(want >= 0, want <= N.t))
        else:
            want = z3.If(n.t < N.t, n.t, N.t)
        a, b = rt.cut_at(a, mkint(want)), rt.cut_at(b, mkint(want))
        if any(getattr(x, "filtered", None) is not None for x in (a, b)):
            unsupported("entries filtered in another way")
        E.prove("the required number of entries of the row goes to the second part" + tag, mkbool(term(b.n) == want))
        E.prove("the others go to the first part" + tag, a.n + b.n == N)
        # entries of the parts
        q = E.choose(4, "question")
        if q < 2:
            name, s = (("first", a), ("second", b))[q]
            j, k = E.int("j", lo=0), E.int("k", lo=0)
            E.assume(j.t < term(s.n))
            x = s.at(j)
            E.reach("an entry of the %s part" % name + tag)
            E.prove("entries of the %s part are entries of the input, in their row" % name + tag, sand(x.row() == i, X.stored(i, x.col()), x.value() == X.val(i, x.col())))
            E.assume(z3.And(k.t < term(s.n), k.t != j.t))
            E.prove("no entry of the %s part is repeated" % name + tag, s.at(k).col() != x.col())
        elif q == 2:
            j, k = E.int("j", lo=0), E.int("k", lo=0)
            E.assume(z3.And(j.t < term(a.n), k.t < term(b.n)))
            x, y = a.at(j), b.at(k)
            E.reach("two parts" + tag)
            E.prove("no cell is in both parts" + tag, y.col() != x.col())
        else:
            c = E.int("c", lo=0)
            E.assume(X.stored(i, c))
            p = X.position(i, c)
            X.col(i, p)
            E.reach("a stored entry" + tag)
            E.prove("every entry of the input is in one of the parts" + tag, find(a, b, p, N, i, c))
    V.explore(SRC, spec)


MOD = "irspack.utils"
FN = MOD + ".rowwise_train_test_split"


def run_py(V):
    L = V.loader({"irspack.utils._util_cpp": SplitModel("irspack.utils._util_cpp")})
    m = L.load(MOD)

    def spec(E):
        E.note("C++ split: its contract is proved above; conversions between number types keep the values (integers below 2**53)")
        nr, nc = E.int("rows", lo=0), E.int("cols", lo=0)
        dt = (float64, float32, int64, int32)[E.choose(4, "dtype")]
        fmt = ("csr", "csc")[E.choose(2, "format")]
        f, st = E.func("X", "int", "int", "int" if dt.kind_ == "i" else "real"), E.func("stored", "int", "int", "bool")

        def val(i, j):
            # the numbers of X are numbers of its type
            v = f(term(i), term(j))
            if dt.kind_ == "i":
                E.fact(z3.And(v >= -2 ** (dt.bits_ - 1), v < 2 ** (dt.bits_ - 1)))
                return SInt(v)
            if dt.name != "float64":
                E.fact(z3.Function("round_" + dt.name, z3.RealSort(), z3.RealSort())(v) == v)
            return SFloat(v)
        X = SpM((nr, nc), val, lambda i, j: mkbool(st(term(i), term(j))), fmt, dt)
        fixed = E.choose(2, "fixed number")
        ratio, ceil = E.float("ratio"), E.bool("ceil")
        n = E.int("n", lo=0) if fixed else None
        how = E.choose(2, "random state")
        rns = RandomState(0) if how == 0 else 17
        made = []
        init = RandomState.__init__

        def note(self, seed=None):
            init(self, seed)
            made.append(self)
        RandomState.__init__ = note
        try:
            out = E.attempt(m.rowwise_train_test_split, X, test_ratio=ratio, n_test=n, ceil_n_heldout=ceil, random_state=rns)
        finally:
            RandomState.__init__ = init
        tag = ", a fixed number" if fixed else ", a ratio"
        calls = E.ghost.get("split_calls", [])
        if not fixed and not E.decide(bterm(sand(ratio >= 0, ratio <= 1))):
            E.reach("ratio outside [0, 1]")
            E.prove("a ratio outside [0, 1] raises ValueError", out.raised(ValueError))
            return
        E.prove("the split returns" + tag, out.returned)
        if not out.returned:
            return
        if len(calls) != 1:
            unsupported("split otherwise")
        E.reach("split" + tag)
        kind, _, seed, amount, up = calls[0]
        given = n if fixed else ratio
        E.prove("split by the requested number or ratio" + tag, sand(kind == ("fixed" if fixed else "ratio"), mkbool(same(amount, given)), True if fixed else mkbool(bterm(up) == bterm(ceil))))
        gens = [rns] if how == 0 else made
        E.prove("the seed is drawn from the random state" + tag, len(gens) == 1 and any(isinstance(seed, int) or seed is x or isinstance(x, Sym) and isinstance(seed, Sym) and E.valid(term(seed) == term(x)) for x in gens[0].drawn) and (how == 0 or gens[0].seed == 17) and (how == 1 or not made))
        tr, te = out.value
        for name, p in (("first", tr), ("second", te)):
            E.prove("the %s part has the shape and number type of the input" % name + tag, isinstance(p, SpM) and p.dtype.name == dt.name and sand(mkbool(same(p.shape[0], nr)), mkbool(same(p.shape[1], nc))))
        if not isinstance(tr, SpM) or not isinstance(te, SpM):
            return
        i, j = E.int("i", lo=0), E.int("j", lo=0)
        E.assume(z3.And(i.t < nr.t, j.t < nc.t))
        a, b = bterm(tr.raw()[1](i, j)), bterm(te.raw()[1](i, j))
        E.prove("no cell is stored in both parts" + tag, mkbool(z3.Not(z3.And(a, b))))
        E.prove("a cell is stored in one of the parts if and only if it is stored in the input" + tag, mkbool(z3.Or(a, b) == st(i.t, j.t)))
        E.prove("the parts add up to the input" + tag, mkbool(same(tr.at(i, j) + te.at(i, j), X.at(i, j))))
        S = E.splits[-1]
        E.prove("the second part is the held out one" + tag, mkbool(b == bterm(S.test.raw()[1](i, j))))
    V.explore(FN, spec)


def run(V):
    run_cpp(V)
    run_py(V)
