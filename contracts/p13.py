"""P13: EvaluatorCore (cpp_source/evaluator.cpp): constructor, cached ground-truth sets, ranked lists, argument checks"""
import z3
from pyvc.core import *
from pyvc import rt, cxx
from pyvc.rt import VSeq, Effects, LoopEvent
from pyvc.cxx import DMat, ASet, Vec, Csr, Atomic, Sorted, It

SRC = "cpp_source/evaluator.cpp:EvaluatorCore"


class GivenRow(VSeq):
    """one recommendable list as given: any order"""

    def __init__(self, o, k):
        self.o, self.k, self.kind = o, k, "list"
        nf, f = o.nf, o.f
        E.fact(nf(term(k)) >= 0)
        self.n = SInt(nf(term(k)))
        self.cur = VSeq(self.n, lambda i: self.elem(i))

    def elem(self, i):
        t = self.o.f(term(self.k), term(i))
        E.fact(t >= 0)
        if self.o.valid:
            inr = z3.And(term(i) >= 0, term(i) < self.n.t)
            E.fact(z3.Implies(inr, z3.And(t < term(self.o.ncol), self.o.pos(term(self.k), t) == term(i))))
        return SInt(t)

    def at(self, i): return self.cur.at(i)

    def __getitem__(self, i):
        if not E.valid(z3.And(term(i) >= 0, term(i) < self.n.t)):
            unsupported("index not shown to be in range")
        return self.cur.at(i)
    get = __getitem__
    def size(self): return self.n
    def empty(self): return self.n == 0
    def back(self): return self[self.n - 1]
    def front(self): return self[0]
    def begin(self): return It(self, 0)
    def end(self): return It(self, self.n)
    cbegin, cend = begin, end
    def snapshot(self): return self.cur
    def viter(self): return self.cur

    def sub(self, lo, hi, s):
        if not (isinstance(lo, int) and lo == 0 and E.valid(term(hi) == self.n.t)):
            unsupported("part of a list rearranged")
        self.cur = s
        E.row = self
        self.o.effect("row", (self.k, self))


class Given(Effects):
    """vector<vector<size_t>>: L lists; valid: each without repetition and below ncol"""

    def __init__(self, L, ncol, valid=False):
        super().__init__()
        self.L, self.ncol, self.valid = L, ncol, valid
        self.nf, self.f, self.pos = E.func("rec_n", "int", "int"), E.func("rec_item", "int", "int", "int"), E.func("rec_pos", "int", "int", "int")

    def size(self): return self.L
    def empty(self): return self.L == 0
    def viter(self): return VSeq(self.L, lambda k: GivenRow(self, k))

    def __getitem__(self, k):
        if not E.valid(z3.And(term(k) >= 0, term(k) < term(self.L))):
            unsupported("index not shown to be in range")
        return GivenRow(self, k)
    at = __getitem__
    def _cp(self): return self


class Ranked(VSeq):
    """a recommendable list as kept by the constructor: ascending, below ncol"""

    def __init__(self, o, k):
        self.o, self.k, self.kind = o, k, "list"
        E.fact(o.nf(term(k)) >= 0)
        self.n = SInt(o.nf(term(k)))

    def at(self, i):
        o, a, b = self.o, term(self.k), z3.simplify(term(i))
        t = o.f(a, b)
        inr = lambda x: z3.And(x >= 0, x < self.n.t)
        E.fact(z3.Implies(inr(b), z3.And(t >= 0, t < term(o.ncol), o.pos(a, t) == b, o.mem(a, t))))
        for (x, y) in o.asked:
            E.fact(z3.Implies(z3.And(x == a, inr(b), inr(y)), z3.And((y < b) == (o.f(x, y) < t), (y == b) == (o.f(x, y) == t))))
        if not E.sub:
            o.asked.append((a, b))
        return SInt(t)

    def member(self, x):
        o, a, b = self.o, term(self.k), term(x)
        p = o.pos(a, b)
        E.fact(z3.Implies(o.mem(a, b), z3.And(p >= 0, p < self.n.t, o.f(a, p) == b)))
        return SBool(o.mem(a, b))

    def position(self, x):
        self.member(x)
        return SInt(self.o.pos(term(self.k), term(x)))

    def __getitem__(self, i):
        if not E.valid(z3.And(term(i) >= 0, term(i) < self.n.t)):
            unsupported("index not shown to be in range")
        return self.at(i)
    get = __getitem__
    def size(self): return self.n
    def empty(self): return self.n == 0
    def begin(self): return It(self, 0)
    def end(self): return It(self, self.n)
    cbegin, cend = begin, end
    def snapshot(self): return self
    def ascending(self): return True


class Lists:
    def __init__(self, L, ncol):
        self.L, self.ncol, self.asked, self.rows = L, ncol, [], {}
        self.nf, self.f, self.pos, self.mem = E.func("rec_n", "int", "int"), E.func("rec_item", "int", "int", "int"), E.func("rec_pos", "int", "int", "int"), E.func("rec_mem", "int", "int", "bool")

    def size(self): return self.L
    def empty(self): return self.L == 0

    def __getitem__(self, k):
        if not E.valid(z3.And(term(k) >= 0, term(k) < term(self.L))):
            unsupported("index not shown to be in range")
        t = z3.simplify(term(k))
        if t.get_id() not in self.rows:
            self.rows[t.get_id()] = (t, Ranked(self, k))
        return self.rows[t.get_id()][1]
    at = __getitem__
    def viter(self): return VSeq(self.L, lambda k: Ranked(self, k))


class LogMetrics(Effects):
    def __init__(self, n):
        super().__init__()
        self.n_item = n

    def increment_total_user(self): self.effect("total", None)
    def update(self, lst, gt, flag): self.effect("update", (cxx.snapshot(lst), gt, flag))
    def merge(self, o): self.effect("merge", o)


def make_log(m):
    """the functions under contract see Metrics through its own contract (P12): calls are recorded"""
    m.Metrics = LogMetrics
    m.Metrics__ctor_1 = lambda o, n: LogMetrics.__init__(o, n)
    m.Metrics__ctor_0 = lambda o: LogMetrics.__init__(o, 0)


def core(m, E, nu, ni, shape, X=None):
    c = m.EvaluatorCore.__new__(m.EvaluatorCore)
    E.stamp(c)
    c.n_users, c.n_items = nu, ni
    c.X_ = X
    c.recommendable_items = Lists([0, 1, nu][shape], ni)
    return c


SHAPE = ["all items recommendable", "one common list", "a list per user"]


def run(V):
    m = V.cpp("evaluator", "evaluator.cpp", "irspack")
    make_log(m)

    # ---- constructor
    def ctor(E, good):
        nu, ni, L = E.int("n_users", lo=1), E.int("n_items", lo=1), E.int("n_lists", lo=0)
        X = Csr(nu, ni)
        G = Given(L, ni, valid=good)
        ok = z3.Or(L.t == 0, L.t == 1, L.t == nu.t)
        a = E.int("a", lo=1)
        E.strict_pins = True
        E.row = None

        def cand(c):
            row = getattr(E, "row", None)
            if row is None or not isinstance(row.cur, Sorted) or c.it is None:
                return
            S, k = row.cur, c.k
            for v, x in c.vars.items():
                if isinstance(x, (SInt, int)) and not isinstance(x, bool):
                    yield "pin:%s:previous element" % v, x == S.at(k)
            yield "ascending so far", mkbool(z3.Implies(z3.And(a.t <= term(k), a.t < row.n.t), S.at(a - 1).t < S.at(a).t))
        E.loop_candidates = [cand]

        def step(lp):
            row = getattr(E, "row", None)
            if row is not None and isinstance(row.cur, Sorted):
                row.cur.at(lp.k), row.cur.at(lp.k + 1)
        E.on_iteration = step
        if good:
            E.assume(ok)
        out = E.attempt(cxx.make, m.EvaluatorCore, m.EvaluatorCore__ctor_0, X, G)
        if good:
            E.reach("valid recommendable lists")
            E.prove("recommendable lists of distinct indices below n_items are accepted", out.returned)
            return
        if out.raised(ValueError):
            E.reach("rejected lists")
        if not out.returned:
            E.prove("bad lists raise ValueError", out.raised(ValueError))
            return
        E.prove("the number of lists is 0, 1 or the number of users", ok)
        c = out.value
        E.prove("the sizes of the matrix are kept", sand(c.n_users == nu, c.n_items == ni, c.X_ is X))
        if c.recommendable_items is not G:
            unsupported("recommendable lists kept elsewhere")
        if E.decide(L.t == 0):
            return
        k0 = E.int("k0", lo=0, hi=L)
        d0 = len(E.done_loops)
        rows = [e for op, v in G.log if op == "loop" for e in v.at(k0)]
        if len(G.log) != 1 or len(rows) != 1 or rows[0][0] != "row" or not E.valid(term(rows[0][1][0]) == k0.t):
            unsupported("lists are not sorted one by one")
        row = rows[0][1][1]
        if not isinstance(row.cur, Sorted) or row.cur.kind_ != "all":
            unsupported("lists are not sorted")
        i = E.int("i", lo=0, hi=row.n)
        if not E.possible(True):
            return
        E.reach("an accepted list")
        x = row.at(i)
        last = row.at(row.n - 1)
        # instances of the checking loop
        for it, n, inst in E.done_loops[d0:]:
            for j in (a - 1, a):
                if E.decide(z3.And(term(j) >= 0, term(j) < term(n), a.t < row.n.t)):
                    inst(j)
        E.prove("an accepted list holds only indices below n_items", x < ni)
        if E.decide(a.t < row.n.t):
            E.prove("an accepted list is kept in ascending order without repetition", row.at(a - 1) < row.at(a))
    V.explore(SRC, lambda E: ctor(E, False))
    V.explore(SRC, lambda E: ctor(E, True))

    # ---- ground-truth sets
    def cache(E):
        E.note("rows of the ground-truth matrix are stored with ascending columns (the binding sorts them)")
        nu, ni = E.int("n_users", lo=1), E.int("n_items", lo=1)
        shape = E.choose(3, "recommendable")
        X = Csr(nu, ni)
        c = core(m, E, nu, ni, shape, X)
        nt = E.int("n_threads", lo=0)
        c.X_as_set = cxx.Rows("std::unordered_set<unsigned long>")
        filled = E.choose(2, "already cached")
        if filled:
            c.X_as_set.n = nu
        out = E.attempt(c.cache_X_map, nt)
        if E.decide(nt.t == 0):
            E.reach("no thread")
            E.prove("zero threads are rejected", out.raised(ValueError))
            return
        E.prove("caching returns", out.returned)
        if not out.returned:
            return
        log = c.X_as_set.log
        if filled:
            E.prove("cached sets are kept", not log and not E.futures)
            return
        E.prove("one set per row", len(log) == 1 and log[0][0] == "resize" and c.X_as_set.n == nu)
        if not E.futures:
            unsupported("no worker")
        fn = cxx.started_worker()
        E.prove("a worker is started", fn is not None)
        if fn is None:
            return
        log.clear()
        w = E.int("w", lo=0, hi=ni)
        cur = []

        def check(ctx):
            if ctx.it is not None:
                return
            E.reach("a row, " + SHAPE[shape])
            if len(E.fetched.log) != 1:
                unsupported("more than one index per iteration")
            u = E.fetched.log[0][1][0]
            rec = True if shape == 0 else Ranked(c.recommendable_items, 0 if shape == 1 else u).member(w)
            want = sand(X.stored(u, w), rec)
            got, seen = members(E, log, u, w, X)
            E.prove("every stored recommendable item of the row enters its set, " + SHAPE[shape], simplies(want, got))
            for x, f in seen:
                x = x if isinstance(x, SInt) else SInt(term(x))
                r = True if shape == 0 else Ranked(c.recommendable_items, 0 if shape == 1 else u).member(x)
                E.prove("only stored recommendable items of the row enter its set, " + SHAPE[shape], simplies(f, sand(X.stored(u, x), r)))
        E.iter_checks = check
        fa = Atomic.fetch_add

        def fetch(self, n):
            E.fetched = self
            if not isinstance(n, int) or n != 1:
                unsupported("chunked cursor")
            return fa(self, n)
        Atomic.fetch_add = fetch
        try:
            fn()
        finally:
            Atomic.fetch_add = fa
        E.reach("worker ends, " + SHAPE[shape])
        E.prove("a worker stops only behind the last row", E.fetched.log[-1][1][0] >= nu)

    def members(E, log, u, w, X):
        """(whether w enters row u, [(element, when)] inserted at generic positions)"""
        got, seen = False, []
        for op, v in log:
            if op == "loop":
                if isinstance(v.n, Sym) or v.n > 0:
                    t = E.int("t", lo=0, hi=v.n)
                    for o2, v2 in (v.at(t) if E.possible(True) else []):
                        if o2 != "row" or not E.valid(term(v2[0]) == term(u)) or v2[1] != "insert":
                            E.fail("only the row's own set changes", "%s %s" % (o2, v2[1]))
                            continue
                        seen.append((v2[2], True))
                    p = X.position(u, w)
                    if E.decide(z3.And(X.stored(u, w).t, p.t >= 0, p.t < term(v.n))):
                        for o2, v2 in v.at(p):
                            if v2[1] == "insert":
                                got = sor(got, v2[2] == w)
                continue
            if op != "row" or not E.valid(term(v[0]) == term(u)):
                E.fail("only the row's own set changes", op)
                continue
            if v[1] == "clear":
                got, seen = False, []
            elif v[1] == "insert":
                got = sor(got, v[2] == w)
                seen.append((v[2], True))
            elif v[1] == "insert_all" and isinstance(v[2], tuple) and v[2][0] == "both":
                s, r = v[2][1:]
                if not isinstance(r, Ranked) and isinstance(s, Ranked):
                    s, r = r, s
                if not isinstance(r, Ranked):
                    unsupported("intersection of other lists")
                t = E.int("t", lo=0, hi=s.n)
                x = s.at(t)
                seen.append((x, r.member(x)))
                p = X.position(u, w)
                if E.decide(z3.And(X.stored(u, w).t, p.t >= 0, p.t < term(s.n))):
                    got = sor(got, sand(s.at(p) == w, r.member(w)))
            else:
                unsupported("set operation " + v[1])
        return got, seen
    V.explore(SRC + "::cache_X_map", cache)

    # ---- ranked list of a user
    def local(E):
        E.strict_pins = True
        E.note("scores are not NaN; the score matrix has n_items columns (checked by the caller)")
        nu, ni = E.int("n_users", lo=1), E.int("n_items", lo=1)
        shape = E.choose(3, "recommendable")
        tag = ", " + SHAPE[shape]
        c = core(m, E, nu, ni, shape)
        rows, off, cut = E.int("rows", lo=0), E.int("offset", lo=0), E.int("cutoff", lo=1)
        E.assume(sand(off + rows <= nu, cut <= ni))
        sv, sk = E.func("score", "int", "int", "real"), E.func("score_k", "int", "int", "int")

        def sc(u, i):
            a, b = term(u), term(i)
            E.fact(z3.And(sk(a, b) >= -1, sk(a, b) <= 1))
            return SFloat(sv(a, b), sk(a, b))
        scores = DMat(rows, ni, sc)
        gn, gm = E.func("gt_n", "int", "int"), E.func("gt_mem", "int", "int", "bool")

        class Sets:
            def get(s, u):
                if not E.valid(z3.And(term(u) >= 0, term(u) < nu.t)):
                    raise IndexError("vector::at")
                E.fact(gn(term(u)) >= 0)
                g = ASet(SInt(gn(term(u))), lambda x: SBool(gm(term(u), term(x))))
                g.user = u
                return g
            at = __getitem__ = get
            def size(s): return nu
            def empty(s): return False
        c.X_as_set = Sets()
        flag = E.bool("recall_with_cutoff")
        cursor = Atomic(0)
        box = []
        old = LogMetrics.__init__

        class Loc(LogMetrics):
            def __init__(s, n):
                super().__init__(n)
                box.append(s)
        m.Metrics, m.Metrics__ctor_1 = Loc, lambda o, n: Loc.__init__(o, n)

        def check(ctx):
            if ctx.it is not None:
                return
            if len(cursor.log) != 1 or cursor.log[0][1][1] != 1 or len(box) != 1:
                unsupported("worker of another form")
            u = cursor.log[0][1][0]
            log = box[0].log
            uo = u + off
            ng = SInt(gn(term(uo)))
            E.prove("every user counts once in total" + tag, sum(1 for e in log if e[0] == "total") == 1)
            ups = [v for op, v in log if op == "update"]
            if any(op not in ("total", "update") for op, v in log):
                unsupported("statistics changed otherwise")
            if E.decide(ng.t == 0):
                E.reach("no ground truth" + tag)
                E.prove("a user without ground truth counts only in total" + tag, not ups)
                return
            E.prove("a user with ground truth is evaluated once" + tag, len(ups) == 1)
            if len(ups) != 1:
                return
            lst, gt, fl = ups[0]
            E.prove("with the ground truth of that user and the given recall variant" + tag, sand(getattr(gt, "user", None) is not None and gt.user == uo, mkbool(same(fl, flag))))
            E.reach("a ranked list" + tag)
            N = lst.n
            rk = None if shape == 0 else Ranked(c.recommendable_items, 0 if shape == 1 else uo)
            elig = lambda x: sand(mkbool(sk(term(u), term(x)) != -1), x >= 0, x < ni, True if rk is None else rk.member(x))
            before = lambda x, y: cxx.less(cxx.Pair(-sc(u, x), x), cxx.Pair(-sc(u, y), y))
            mode = E.choose(2, "obligation")
            # instances of the loop that copies the list: its last element, and the one at the cutoff
            if not E.decide(term(N) >= 1) and mode == 0:
                return
            if E.decide(term(N) > cut.t):
                lst.at(cut - 1)
            if E.decide(term(N) >= 1):
                lst.at(N - 1)
            if mode == 0:
                E.prove("at most cutoff items" + tag, N <= cut)
                i, j = E.int("i", lo=0, hi=N), E.int("j", lo=0, hi=N)
                x, y = lst.at(i), lst.at(j)
                E.prove("listed items are recommendable and not minus infinity" + tag, elig(x))
                E.prove("best score first, ties to the lower index, no item twice" + tag, simplies(i < j, before(x, y)))
                return
            w = E.int("w", lo=0, hi=ni)
            E.assume(elig(w))
            if not E.filters or not E.ghost_sorts:
                unsupported("list of another form")
            r = E.filters[-1].complete(w if rk is None else rk.position(w))
            if r is None:
                E.fail("every recommendable item is ranked" + tag, "filtered out")
                return
            S = E.ghost_sorts[-1]
            t = S.where(r)
            E.reach("a recommendable item" + tag)
            if E.decide(t.t < term(N)):
                E.prove("a recommendable item is listed or the list is full with better ones" + tag, lst.at(t) == w)
                return
            E.prove("a recommendable item is listed or the list is full with better ones" + tag, N >= cut)
            i = E.int("i", lo=0, hi=N)
            E.prove("no item left out is better than a listed one" + tag, before(lst.at(i), w))
        E.iter_checks = check
        out = E.attempt(c.get_metrics_local, scores, cursor, cut, off, flag)
        make_log(m)
        E.prove("a worker returns", out.returned)
        if out.returned:
            E.reach("worker ends" + tag)
            E.prove("a worker stops only behind the last row and returns its statistics", sand(cursor.log[-1][1][0] >= rows, box and out.value is box[0] and box[0].n_item == ni))
    V.explore(SRC + "::get_metrics_local", local)

    # ---- all workers
    def allw(E):
        E.note("each index of a block is fetched by exactly one worker (atomic increment)")
        nu, ni = E.int("n_users", lo=1), E.int("n_items", lo=1)
        c = core(m, E, nu, ni, 0)
        rows, off, cut, nt = E.int("rows", lo=0), E.int("offset", lo=0), E.int("cutoff", lo=0), E.int("n_threads", lo=0)
        scores = DMat(rows, ni, lambda u, i: SFloat(z3.RealVal(0)))
        flag = E.bool("recall_with_cutoff")
        calls = []

        def loc(scores_, idx, cut_, off_, flag_):
            p = ("local", scores_, idx, cut_, off_, flag_)
            return p
        c.get_metrics_local = loc
        cached = []
        c.cache_X_map = lambda n: cached.append(n)
        ok = z3.And(nt.t > 0, off.t < nu.t, off.t + rows.t <= nu.t, cut.t > 0, cut.t <= ni.t)
        out = E.attempt(c.get_metrics, scores, cut, off, nt, flag)
        if not E.decide(ok):
            E.reach("bad arguments")
            E.prove("invalid cutoffs, offsets and thread counts raise ValueError", out.raised(ValueError))
            return
        E.reach("good arguments")
        E.prove("valid arguments are accepted", out.returned)
        if not out.returned:
            return
        E.prove("the ground-truth sets are prepared", len(cached) == 1)
        o = out.value
        if not isinstance(o, LogMetrics) or len(o.log) != 1 or o.log[0][0] != "loop":
            unsupported("statistics of another form")
        E.prove("statistics over all items", o.n_item == ni)
        ev = o.log[0][1]
        E.prove("every worker's statistics are merged", ev.n == nt)
        k = E.int("k", lo=0, hi=nt)
        es = ev.at(k)
        if len(es) != 1 or es[0][0] != "merge" or not isinstance(es[0][1], tuple):
            unsupported("merge of another form")
        _, s_, idx, c_, o_, f_ = es[0][1]
        E.prove("every worker gets the scores, the common cursor, cutoff, offset and recall variant", sand(s_ is scores, isinstance(idx, Atomic) and idx.first == 0, c_ == cut, o_ == off, mkbool(same(f_, flag))))
    V.explore(SRC + "::get_metrics", allw)
