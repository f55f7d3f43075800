"""P09: retrieve_recommend_from_score (cpp_source/util.hpp) and ItemIDMapper.score_to_recommended_items_batch"""
import math
import z3
from pyvc.core import *
from pyvc import rt, cxx
from pyvc.rt import VSeq, VList, IdSeq, Effects
from pyvc.npmodel import Arr, float64
from pyvc.cxx import DMat, Atomic, It
from contracts.p22 import Row, ListOfLists

SRC = "cpp_source/util.hpp:retrieve_recommend_from_score"
SHAPE = ["all items allowed", "one common list", "a list per user"]


class AllowedRow(Row):
    """an allowed list: any order, no item twice, any integers"""

    def at(self, i):
        a, b = term(self.k), z3.simplify(term(i))
        t = self.o.f(a, b)
        E.fact(z3.Implies(z3.And(b >= 0, b < self.n.t), z3.And(self.o.pos(a, t) == b, self.o.mem(a, t))))
        return SInt(t)

    def member(self, x):
        a, b = term(self.k), term(x)
        p = self.o.pos(a, b)
        E.fact(z3.Implies(self.o.mem(a, b), z3.And(p >= 0, p < self.n.t, self.o.f(a, p) == b)))
        return SBool(self.o.mem(a, b))

    def position(self, x):
        self.member(x)
        return SInt(self.o.pos(term(self.k), term(x)))


class Allowed(ListOfLists):
    def __init__(self, n):
        super().__init__("allowed", n)
        self.pos, self.mem = E.func("allowed_pos", "int", "int", "int"), E.func("allowed_mem", "int", "int", "bool")

    def __getitem__(self, k):
        if not E.valid(z3.And(term(k) >= 0, term(k) < term(self.n))):
            unsupported("index not shown to be in range")
        t = z3.simplify(term(k))
        if t.get_id() not in self.rows:
            self.rows[t.get_id()] = (t, AllowedRow(self, k))
        return self.rows[t.get_id()][1]
    at = get = __getitem__


def run_cpp(V):
    m = V.cpp("util", "util.cpp", "irspack")

    def spec(E):
        E.strict_pins = True
        E.note("scores are not NaN; std::async starts the worker (default launch policy of libstdc++)")
        nu, ni, nt, cut, L = E.int("n_users", lo=0), E.int("n_items", lo=0), E.int("n_threads", lo=0), E.int("cutoff", lo=0), E.int("n_allowed", lo=0)
        sv, sk = E.func("score", "int", "int", "real"), E.func("score_k", "int", "int", "int")

        def sc(u, i):
            a, b = term(u), term(i)
            E.fact(z3.And(sk(a, b) >= -1, sk(a, b) <= 1))
            return SFloat(sv(a, b), sk(a, b))
        scores = DMat(nu, ni, sc)
        allowed = Allowed(L)
        out = E.attempt(m.retrieve_recommend_from_score, scores, allowed, cut, nt)
        ok = z3.And(nt.t > 0, z3.Or(L.t == 0, L.t == 1, L.t == nu.t))
        if not E.decide(ok):
            E.reach("bad arguments")
            E.prove("no thread, or a wrong number of allowed lists, raises ValueError", out.raised(ValueError))
            return
        E.prove("valid arguments are accepted", out.returned)
        if not out.returned:
            return
        res = out.value
        if not isinstance(res, cxx.Rows):
            unsupported("result of another form")
        E.prove("one list per user", res.n == nu)
        if not E.decide(nu.t > 0):
            return
        if not E.futures:
            unsupported("no worker")
        fn = cxx.started_worker()
        E.prove("a worker is started", fn is not None)
        if fn is None:
            return
        E.reach("workers")
        log = res.log
        del log[:]
        shape = 0 if E.decide(L.t == 0) else 1 if E.decide(L.t == 1) else 2
        tag = ", " + SHAPE[shape]
        cursors = []
        fa = Atomic.fetch_add

        def fetch(self, n):
            cursors.append(self)
            if not isinstance(n, int) or n != 1:
                unsupported("chunked cursor")
            return fa(self, n)

        def check(ctx):
            if ctx.it is not None:
                return
            if not cursors or len(cursors[-1].log) != 1:
                unsupported("worker of another form")
            u = cursors[-1].log[0][1][0]
            al = None if shape == 0 else allowed[0 if shape == 1 else u]
            if any(op != "loop" for op, v in log) or len(log) > 1:
                unsupported("list filled otherwise")
            ev = log[0][1] if log else None

            def entry(k):
                r = ev.at(k)
                if len(r) == 0:
                    return None
                if len(r) != 1 or r[0][0] != "row" or r[0][1][1] != "append":
                    unsupported("list filled otherwise")
                E.prove("only the user's own list changes" + tag, r[0][1][0] == u)
                return r[0][1][2]
            N = 0
            if ev is not None and E.decide(term(ev.n) >= 1):
                N = ev.n if entry(ev.n - 1) is not None else ev.n - 1
                # the instance of the loop at the cutoff
                if E.decide(term(N) > cut.t):
                    ev.at(cut)
            E.prove("at most cutoff items" + tag, N <= cut)
            elig = lambda x: sand(x >= 0, x < ni, mkbool(sk(term(u), term(x)) != -1), True if al is None else al.member(x))
            mode = E.choose(2, "obligation")
            if mode == 0:
                i, j = E.int("i", lo=0), E.int("j", lo=0)
                if ev is None or not E.decide(z3.And(i.t < j.t, j.t < term(N))):
                    if ev is None or not E.decide(i.t < term(N)):
                        return
                    x = entry(i)
                    E.prove("every entry of a list is used" + tag, x is not None)
                    if x is not None:
                        E.reach("a listed item" + tag)
                        E.prove("a listed item is allowed, not minus infinity" + tag, elig(x.first))
                        E.prove("a listed item comes with its score" + tag, mkbool(same(x.second, sc(u, x.first))))
                    return
                x, y = entry(i), entry(j)
                E.prove("every entry of a list is used" + tag, x is not None and y is not None)
                if x is not None and y is not None:
                    E.prove("descending scores, no item twice" + tag, sand(snot(sc(u, x.first) < sc(u, y.first)), x.first != y.first))
                return
            w = E.int("w", lo=0)
            if not E.decide(w.t < ni.t):
                return
            E.assume(elig(w))
            if not E.ghost_sorts:
                unsupported("list of another form")
            S = E.ghost_sorts[-1]
            r = w if al is None else al.position(w)
            if E.filters and al is not None:
                r = E.filters[-1].complete(r)
                if r is None:
                    E.fail("every allowed item is ranked" + tag, "filtered out")
                    return
            t = S.where(r)
            E.reach("an allowed item" + tag)
            if E.decide(t.t < term(N)):
                x = entry(t)
                E.prove("an allowed item is listed or the list is full with items of no lower score" + tag, x is not None and x.first == w)
                return
            if ev is not None and isinstance(N, Sym) and E.decide(z3.And(term(N) < term(S.n), term(N) < term(ev.n))):
                ev.at(N)
            E.prove("an allowed item is listed or the list is full with items of no lower score" + tag, N >= cut)
            i = E.int("i", lo=0)
            if E.decide(i.t < term(N)):
                x = entry(i)
                E.prove("no item left out scores higher than a listed one" + tag, x is None or snot(sc(u, x.first) < sc(u, w)))
        E.iter_checks = check
        Atomic.fetch_add = fetch
        try:
            o2 = E.attempt(fn)
        finally:
            Atomic.fetch_add = fa
        E.prove("a worker returns", o2.returned)
        if o2.returned:
            E.reach("worker ends" + tag)
            E.prove("a worker stops only behind the last user", cursors[-1].log[-1][1][0] >= nu)
            E.prove("the workers share one cursor that starts at the first user", cursors[-1].first == 0)
    V.explore(SRC, spec)



MOD = "irspack.utils.id_mapping"
FN = MOD + ".ItemIDMapper.score_to_recommended_items_batch"


class IdLists(VSeq):
    """one list of ids per user"""

    def __init__(self, n, hint, distinct):
        self.n, self.kind, self.hint, self.d = n, "list", hint, distinct
        self.ln, self.f = E.func(hint + "_n", "int", "int"), E.func(hint, "int", "int", "int")
        self.pos, self.mem = E.func(hint + "_pos", "int", "int", "int"), E.func(hint + "_mem", "int", "int", "bool")
        self.memo = {}

    def at(self, k):
        t = z3.simplify(term(k))
        if t.get_id() not in self.memo:
            self.memo[t.get_id()] = (t, OneList(self, t))
        return self.memo[t.get_id()][1]


class OneList(IdSeq):
    def __init__(self, o, k):
        E.fact(o.ln(k) >= 0)
        self.n, self.distinct, self.kind = SInt(o.ln(k)), o.d, "list"
        self.f = lambda j: o.f(k, j)
        self.pos = lambda x: o.pos(k, x)
        self.mem = lambda x: o.mem(k, x)
        E.idseqs.append(self)


def run_py(V):
    calls = []
    L = V.loader()
    m = L.load(MOD)

    def spec(E):
        E.note("retrieve_recommend_from_score: its contract is proved above; item ids are distinct, allowed lists without repetitions; get_n_threads: P18")
        del calls[:]
        n, nu, cut = E.int("n_items", lo=0), E.int("n_users", lo=0), E.int("cutoff", lo=0)
        items = IdSeq(n, hint="items")
        sv, sk = E.func("score", "int", "int", "real"), E.func("score_k", "int", "int", "int")

        def sc(u, i):
            a, b = term(u), term(i)
            E.fact(z3.And(sk(a, b) >= -1, sk(a, b) <= 1))
            return SFloat(sv(a, b), sk(a, b))
        score = Arr((nu, n), sc, float64)
        rn, ri, rs = E.func("raw_n", "int", "int"), E.func("raw_item", "int", "int", "int"), E.func("raw_score", "int", "int", "real")

        def raw(k):
            E.fact(rn(term(k)) >= 0)

            def at(t):
                i = ri(term(k), term(t))
                E.fact(z3.Implies(z3.And(term(t) >= 0, term(t) < rn(term(k))), z3.And(i >= 0, i < n.t)))
                return (SInt(i), SFloat(rs(term(k), term(t))))
            return VSeq(SInt(rn(term(k))), at)

        def retrieve(score, allowed, cutoff, n_threads=None):
            calls.append((score.snapshot(), score.shape, allowed, cutoff, n_threads))
            v = VList()
            v.sym = VSeq(nu, raw)
            return v
        m.retrieve_recommend_from_score = retrieve
        th = E.int("threads", lo=1)
        m.get_n_threads = lambda n_threads=None: th
        ga, gf = E.choose(3, "allowed"), E.choose(2, "forbidden given")
        allowed = IdSeq(hint="allowed") if ga == 1 else None
        per = IdLists(nu, "user_allowed", True) if ga == 2 else None
        forb = IdLists(nu, "forbidden", False) if gf else None
        tag = ", " + ["all items allowed", "a common list", "a list per user"][ga] + ("" if not gf else ", forbidden ids")
        mapper = m.ItemIDMapper(items)

        def hint(fl, i):
            q = fl.src
            while not isinstance(q, IdSeq) and hasattr(q, "src"):
                q = q.src
            if not isinstance(q, IdSeq):
                return None
            y = items.at(i)
            if not E.decide(bterm(q.member(y))):
                return None
            p = q.position(y)
            q.at(p)
            return fl.complete(p)
        E.member_hint = hint
        out = E.attempt(mapper.score_to_recommended_items_batch, score, cut, allowed_item_ids=allowed, per_user_allowed_item_ids=per, forbidden_item_ids=forb, n_threads=th)
        E.prove("the batch returns", out.returned)
        if not out.returned:
            return
        if len(calls) != 1:
            unsupported("ranked otherwise")
        s1, shp, al, c1, t1 = calls[0]
        E.reach("a batch" + tag)
        E.prove("ranked with the cutoff, over all users and items", sand(c1 == cut, mkbool(same(shp[0], nu)), mkbool(same(shp[1], n))))
        u, i = E.int("u", lo=0), E.int("i", lo=0)
        if not E.decide(z3.And(u.t < nu.t, i.t < n.t)):
            return
        x = items.at(i)
        f = forb.at(u).member(x) if gf else False
        E.prove("forbidden items of the user are ranked as minus infinity" + tag, simplies(f, mkbool(same(s1(u, i), -math.inf))))
        E.prove("other items keep the user's own score" + tag, simplies(snot(f), mkbool(same(s1(u, i), sc(u, i)))))
        # allowed lists
        la = al.sym if isinstance(al, VList) and al.sym is not None else al
        nl = rt.length(al)
        if ga == 0:
            E.prove("without allowed ids no list is given", nl == 0)
        else:
            E.prove("one common list, or one per user" + tag, nl == (1 if ga == 1 else nu))
            lst = la[0] if ga == 1 and not isinstance(la, VSeq) else la.at(0 if ga == 1 else u)
            q = lst.sym if isinstance(lst, VList) and lst.sym is not None else lst
            fl = q if isinstance(q, rt.Filtered) else getattr(q, "filtered", None)
            src = allowed if ga == 1 else per.at(u)
            if fl is None:
                unsupported("allowed indices of another form")
            a, b = E.int("a", lo=0), E.int("b", lo=0)
            if E.decide(z3.And(a.t < term(rt.length(lst)), b.t < term(rt.length(lst)))):
                ia, ib = q.at(a), q.at(b)
                E.reach("an allowed index" + tag)
                E.prove("allowed indices are those of allowed items" + tag, sand(ia >= 0, ia < n, src.member(items.at(ia))))
                E.prove("no allowed index twice" + tag, simplies(a != b, ia != ib))
            if E.decide(bterm(src.member(x))):
                p = src.position(x)
                src.at(p)
                r = fl.complete(p)
                E.prove("every known allowed item has its index in the list" + tag, r is not None and q.at(r) == i)
        # ids of the result
        R = out.value
        E.prove("one list per user", rt.length(R) == nu)
        R = R.sym if isinstance(R, VList) and R.sym is not None else R
        l = R.at(u)
        E.prove("list k is the k-th user's", rt.length(l) == SInt(rn(u.t)))
        t = E.int("t", lo=0)
        l = l.sym if isinstance(l, VList) and l.sym is not None else l
        if E.decide(t.t < rn(u.t)):
            y, v = l.at(t)
            E.prove("entries are the ids of the ranked items, with their scores", sand(mkbool(same(y, items.at(SInt(ri(u.t, t.t))))), mkbool(same(v, SFloat(rs(u.t, t.t))))))
    V.explore(FN, spec)


def run(V):
    run_cpp(V)
    run_py(V)
