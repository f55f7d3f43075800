"""P12: Metrics::update, merge, as_dict, constructors (cpp_source/evaluator.cpp)"""
import z3
from pyvc.core import *
from pyvc import rt, cxx
from pyvc.rt import VSeq
from pyvc.cxx import DVec, ASet, Vec, Accum

SRC = "cpp_source/evaluator.cpp:Metrics"
SUMS = ["hit", "recall", "ndcg", "precision", "map"]


def discount(i):
    return cxx.fdiv(1, cxx.std_log2(2 + i))


def metrics(E, m, N, hint):
    """an arbitrary Metrics over N items"""
    o = m.Metrics.__new__(m.Metrics)
    E.stamp(o)
    o.valid_user, o.total_user = E.int(hint + "_valid", lo=0), E.int(hint + "_total", lo=0)
    for a in SUMS:
        setattr(o, a, E.float(hint + "_" + a))
    o.n_item = N
    f = E.func(hint + "_count", "int", "int")

    def cnt(i):
        E.fact(f(term(i)) >= 0)
        return SInt(f(term(i)))
    o.item_cnt = DVec(N, cnt)
    o.dcg_discount = Vec()
    o.dcg_discount.sym = VSeq(N, discount)
    E.register(o.item_cnt, hint + "_item_cnt")
    E.register(o, hint)
    o.f0 = {a: getattr(o, a) for a in SUMS + ["valid_user", "total_user"]}
    o.cnt0 = cnt
    return o


def If(c, a, b):
    a, b = flift(tofloat(a)), flift(tofloat(b))
    return SFloat(z3.If(bterm(c), a.t, b.t))


def run(V):
    m = V.cpp("evaluator", "evaluator.cpp", "irspack")

    def update(E):
        E.numpy_div, E.strict_pins = True, True
        E.note("Metrics::update: recommended and ground-truth indices are below n_items, the ground truth is not empty; sums of floating-point numbers are exact")
        N = E.int("n_items", lo=1)
        o = metrics(E, m, N, "m")
        n, g = E.int("n_rec", lo=0), E.int("n_gt", lo=1)
        E.assume(g <= N)
        rf, mem = E.func("rec", "int", "int"), E.func("relevant", "int", "bool")

        def rec(i):
            E.fact(z3.And(rf(term(i)) >= 0, rf(term(i)) < N.t))
            return SInt(rf(term(i)))
        lst = Vec()
        lst.sym = VSeq(n, rec)
        gt = ASet(g, lambda x: SBool(mem(term(x))))
        rwc = E.bool("recall_with_cutoff")
        w = E.int("w", lo=0, hi=N)
        H, D, A, O = E.func("hits", "int", "int"), E.func("dcg", "int", "real"), E.func("ap", "int", "real"), E.func("occurrences", "int", "int")
        ideal = Accum(discount, "ideal")
        for f in (H, D, A, O):
            E.fact(f(z3.IntVal(0)) == 0)
        ideal.step(0)
        E.lemma("PrefixSum", "running totals of non-negative amounts never decrease")

        def idealsum(k):
            r = ideal.at(k)
            E.fact(z3.Implies(term(k) >= 1, r.t >= ideal.f(z3.IntVal(1))))
            return r

        def step(k):
            t = z3.simplify(term(k))
            x = rec(k)
            h = mem(x.t)
            H1 = H(t) + z3.If(h, 1, 0)
            E.fact(z3.Implies(t >= 0, z3.And(H(t + 1) == H1, O(t + 1) == O(t) + z3.If(x.t == w.t, 1, 0))))
            E.fact(z3.Implies(t >= 0, D(t + 1) == D(t) + z3.If(h, flift(discount(k)).t, z3.RealVal(0))))
            E.fact(z3.Implies(t >= 0, A(t + 1) == A(t) + z3.If(h, cxx.fdiv(tofloat(SInt(H(t + 1))), tofloat(k + 1)).t, z3.RealVal(0))))
            ideal.step(k)
        E.on_iteration = lambda lp: step(lp.k)

        def accum_of(a, b, src):
            if src is not o.dcg_discount.sym or not E.valid(term(a.i) == 0):
                unsupported("sum over another range")
            return idealsum(b.i)
        E.accum_of = accum_of

        def cand(c):
            t = z3.simplify(term(c.k))
            for v, x in c.vars.items():
                if isinstance(x, (SFloat, float)):
                    x = flift(x)
                    for nm, f in (("dcg", D), ("ap", A), ("ideal", ideal.f)):
                        yield "pin:%s:%s" % (v, nm), mkbool(z3.And(x.k == 0, x.t == f(t)))
                    yield "pin:%s:hits as float" % v, mkbool(z3.And(x.k == 0, x.t == z3.ToReal(H(t))))
                elif isinstance(x, (SInt, int)) and not isinstance(x, bool):
                    yield "pin:%s:hits" % v, mkbool(term(x) == H(t))
                elif isinstance(x, (SBool, bool)):
                    yield "pin:%s:any hit" % v, mkbool(bterm(x) == (H(t) > 0))
            for loc, x in c.heap.items():
                if isinstance(x, cxx.FnState):
                    yield "pin:%r:occurrences" % (loc,), x.fn(w) == o.cnt0(w) + SInt(O(t))
            yield "hits non-negative", mkbool(H(t) >= 0)
        E.loop_candidates = [cand]
        out = E.attempt(o.update, lst, gt, rwc)
        E.prove("update returns", out.returned)
        if not out.returned:
            return
        f0 = o.f0
        E.prove("one more user with ground truth", sand(o.valid_user == f0["valid_user"] + 1, o.total_user == f0["total_user"]))
        if E.decide(n.t == 0):
            E.reach("empty list")
            for a in SUMS:
                E.prove("an empty list contributes 0 to " + a, mkbool(same(getattr(o, a), f0[a])))
            E.prove("an empty list counts no item", o.item_cnt.at(w) == o.cnt0(w))
            return
        E.reach("non-empty list")
        h = SInt(H(n.t))
        E.prove("hit: 1 if the list holds a ground-truth item", mkbool(same(o.hit, f0["hit"] + If(h > 0, 1.0, 0.0))))
        E.prove("precision: hits over list length", mkbool(same(o.precision, f0["precision"] + cxx.fdiv(tofloat(h), tofloat(n)))))
        den = SInt(z3.If(z3.And(rwc.t, n.t < g.t), n.t, g.t))
        E.prove("recall: hits over the number of ground-truth items, or the smaller of that and the list length", mkbool(same(o.recall, f0["recall"] + cxx.fdiv(tofloat(h), tofloat(den)))))
        mn = SInt(z3.If(n.t < g.t, n.t, g.t))
        E.prove("ndcg: discounted gain over that of the ideal list", mkbool(same(o.ndcg, f0["ndcg"] + cxx.fdiv(SFloat(D(n.t)), idealsum(mn)))))
        E.prove("average precision over the number of ground-truth items", mkbool(same(o.map, f0["map"] + cxx.fdiv(SFloat(A(n.t)), tofloat(g)))))
        E.prove("item counts grow by the occurrences in the list", o.item_cnt.at(w) == o.cnt0(w) + SInt(O(n.t)))
        E.prove("the discounts are kept", o.dcg_discount.n == N)

    V.explore(SRC + "::update", update)

    def merge(E):
        E.numpy_div = True
        N = E.int("n_items", lo=0)
        a, b = metrics(E, m, N, "a"), metrics(E, m, N, "b")
        out = E.attempt(a.merge, b)
        E.prove("merge returns", out.returned)
        if not out.returned:
            return
        E.reach("merged")
        for x in SUMS + ["valid_user", "total_user"]:
            E.prove("merging adds %s" % x, sand(mkbool(same(getattr(a, x), a.f0[x] + b.f0[x])), mkbool(same(getattr(b, x), b.f0[x]))))
        w = E.int("w", lo=0, hi=N)
        E.prove("merging adds the item counts", sand(a.item_cnt.at(w) == a.cnt0(w) + b.cnt0(w), b.item_cnt.at(w) == b.cnt0(w)))
    V.explore(SRC + "::merge", merge)

    def total(E):
        N = E.int("n_items", lo=0)
        a = metrics(E, m, N, "a")
        out = E.attempt(a.increment_total_user)
        E.prove("one more user in total", sand(out.returned, a.total_user == a.f0["total_user"] + 1, a.valid_user == a.f0["valid_user"]))
    V.explore(SRC + "::increment_total_user", total)

    def ctor(E):
        E.numpy_div = True
        N = E.int("n_items", lo=0)
        which = E.choose(2, "constructor")
        if which == 0:
            out = E.attempt(cxx.make, m.Metrics, m.Metrics__ctor_1, N)
            want = {x: 0 for x in SUMS + ["valid_user", "total_user"]}
            cnt = lambda i: 0
        else:
            src = metrics(E, m, N, "a")
            if not hasattr(m, "Metrics__ctor_2"):
                unsupported("no copy constructor")
            out = E.attempt(cxx.make, m.Metrics, m.Metrics__ctor_2, src)
            want, cnt = src.f0, src.cnt0
        E.prove("construction succeeds", out.returned)
        if not out.returned:
            return
        o = out.value
        E.reach("constructor %d" % which)
        nm = ["fresh statistics", "copied statistics"][which]
        for x in want:
            E.prove("%s: %s" % (nm, x), mkbool(same(flift(tofloat(getattr(o, x))), flift(tofloat(want[x])))))
        w = E.int("w", lo=0, hi=N)
        E.prove(nm + ": item counts", sand(o.item_cnt.rows() == N, o.item_cnt.at(w) == cnt(w)))
        E.prove(nm + ": discount i is 1/log2(i+2)", sand(o.dcg_discount.n == N, mkbool(same(o.dcg_discount.at(w), discount(w)))))
        E.prove(nm + ": number of items", o.n_item == N)
    V.explore(SRC + "::Metrics", ctor)

    def as_dict(E):
        E.numpy_div, E.strict_pins = True, True
        E.note("the total of the item counts is at least each of them (they are non-negative); sums over the sorted counts equal sums over the counts (a rearrangement)")
        N = E.int("n_items", lo=0)
        o = metrics(E, m, N, "m")
        T = E.int("total_count", lo=0)
        f0 = o.cnt0

        def cnt(i):
            r = f0(i)
            E.fact(z3.Implies(z3.And(term(i) >= 0, term(i) < N.t), r.t <= T.t))
            return r
        o.item_cnt.fn = cnt
        E.vector_sum = lambda v: T if v is o.item_cnt or v.fn is cnt else unsupported("sum of another vector")
        P, H, G = E.func("appeared", "int", "real"), E.func("entropy", "int", "real"), E.func("gini", "int", "real")
        for f in (P, H, G):
            E.fact(f(z3.IntVal(0)) == 0)

        def step(k):
            if not E.ghost_sorts:
                return
            s = E.ghost_sorts[-1].at(k)
            t = z3.simplify(term(k))
            nz = s.t != 0
            E.fact(z3.Implies(t >= 0, P(t + 1) == P(t) + z3.If(nz, 1, 0)))
            E.fact(z3.Implies(t >= 0, G(t + 1) == G(t) + z3.If(nz, z3.ToReal(((2 * k - N + 1) * s).t), z3.RealVal(0))))
            p = SFloat(z3.ToReal(s.t) / z3.ToReal(T.t))
            E.fact(z3.Implies(t >= 0, H(t + 1) == H(t) + z3.If(nz, (-ufun("log", p) * p).t, z3.RealVal(0))))
            E.fact(z3.Implies(z3.And(t >= 0, T.t == 0), s.t == 0))
        E.on_iteration = lambda lp: step(lp.k)

        def cand(c):
            t = z3.simplify(term(c.k))
            for v, x in c.vars.items():
                if isinstance(x, (SFloat, float)):
                    x = flift(x)
                    for nm, f in (("appeared", P), ("entropy", H), ("gini", G)):
                        yield "pin:%s:%s" % (v, nm), mkbool(z3.And(x.k == 0, x.t == f(t)))
                    yield "%s zero without counts" % v, mkbool(z3.Implies(T.t == 0, z3.And(x.k == 0, x.t == 0)))
                elif isinstance(x, (SInt, int)) and not isinstance(x, bool):
                    yield "pin:%s:appeared" % v, mkbool(z3.ToReal(term(x)) == P(t))
                    yield "pin:%s:gini" % v, mkbool(z3.ToReal(term(x)) == G(t))
        E.loop_candidates = [cand]
        out = E.attempt(o.as_dict)
        E.prove("as_dict returns", out.returned)
        if not out.returned:
            return
        E.reach("report")
        d = out.value
        den = tofloat(SInt(z3.If(o.valid_user.t > 0, o.valid_user.t, 1)))

        def key(k, name, v):
            E.prove(name, mkbool(same(flift(tofloat(d[k])), flift(tofloat(v)))) if dict.__contains__(d, k) else False)
        for x in SUMS:
            key(x, "%s: the sum over users divided by the number of users with ground truth (1 if none)" % x, cxx.fdiv(o.f0[x], den))
        key("total_user", "number of users", o.f0["total_user"])
        key("valid_user", "number of users with ground truth", o.f0["valid_user"])
        key("appeared_item", "appeared items: items with a non-zero count", SFloat(P(N.t)))
        if E.decide(T.t > 0):
            E.reach("some item counted")
            key("entropy", "entropy of the counts", SFloat(H(N.t)))
            key("gini_index", "Gini index of the counts", cxx.fdiv(SFloat(G(N.t)), tofloat(N) * tofloat(T)))
        else:
            key("entropy", "entropy 0 without counts", 0.0)
            key("gini_index", "Gini index 0 without counts", 0.0)
        w = E.int("w", lo=0, hi=N)
        E.prove("reporting changes no statistics", sand(o.item_cnt.at(w) == f0(w), *[mkbool(same(getattr(o, x), o.f0[x])) for x in SUMS]))
    V.explore(SRC + "::as_dict", as_dict)
