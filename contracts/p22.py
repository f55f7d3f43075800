"""P22: evaluate_list_vs_list (cpp_source/evaluator.cpp) and evaluate_recommendation_df"""
import z3
from pyvc.core import *
from pyvc import rt, cxx
from pyvc.rt import VSeq, Effects, LoopEvent
from pyvc.cxx import ASet, Vec, Atomic, SetBuild, It
from pyvc.pdmodel import sym_frame, PermSeq
from contracts.p13 import LogMetrics, make_log

SRC = "cpp_source/evaluator.cpp:evaluate_list_vs_list"


class Row(VSeq):
    def __init__(self, o, k):
        self.o, self.k, self.kind = o, k, "list"
        E.fact(o.nf(term(k)) >= 0)
        self.n = SInt(o.nf(term(k)))

    def at(self, i):
        t = self.o.f(term(self.k), term(i))
        E.fact(t >= 0)
        if self.o.valid is not None:
            E.fact(z3.Implies(z3.And(term(i) >= 0, term(i) < self.n.t), t < term(self.o.valid)))
        return SInt(t)

    def __getitem__(self, i):
        if not E.valid(z3.And(term(i) >= 0, term(i) < self.n.t)):
            unsupported("index not shown to be in range")
        return self.at(i)
    get = __getitem__
    def size(self): return self.n
    def empty(self): return self.n == 0
    def begin(self): return It(self, 0)
    def end(self): return It(self, self.n)
    cbegin, cend = begin, end
    def snapshot(self): return self
    def viter(self): return self


class ListOfLists:
    def __init__(self, hint, n, valid=None):
        self.n, self.valid, self.rows = n, valid, {}
        self.nf, self.f = E.func(hint + "_n", "int", "int"), E.func(hint, "int", "int", "int")

    def size(self): return self.n
    def empty(self): return self.n == 0

    def __getitem__(self, k):
        if not E.valid(z3.And(term(k) >= 0, term(k) < term(self.n))):
            unsupported("index not shown to be in range")
        t = z3.simplify(term(k))
        if t.get_id() not in self.rows:
            self.rows[t.get_id()] = (t, Row(self, k))
        return self.rows[t.get_id()][1]
    at = get = __getitem__
    def viter(self): return VSeq(self.n, lambda k: self[k])
    def begin(self): return It(self, 0)
    def end(self): return It(self, self.n)


def run_cpp(V):
    m = V.cpp("evaluator", "evaluator.cpp", "irspack")
    make_log(m)

    def outer(E):
        nu, ng, ni, nt = E.int("n_lists", lo=0), E.int("n_truths", lo=0), E.int("n_items", lo=0), E.int("n_threads", lo=1)
        good = E.choose(2, "valid lists")
        rec = ListOfLists("rec", nu, ni if good else None)
        gts = ListOfLists("truth", ng, ni if good else None)
        if good:
            E.assume(nu == ng)
        E.strict_pins = True

        def cand(c):
            if good and c.it is not None:
                for v, x in c.vars.items():
                    if isinstance(x, (SInt, int)) and not isinstance(x, bool):
                        yield "pin:%s:a statistic of the lists, not used" % v, mkbool(z3.BoolVal(True))
        E.loop_candidates = [cand]
        E.future_value = lambda fn: ("local", fn)
        out = E.attempt(m.evaluate_list_vs_list, rec, gts, ni, nt)
        if not good:
            if out.returned:
                E.prove("as many truth lists as recommendation lists", nu == ng)
            else:
                E.reach("rejected")
                E.prove("bad lists raise ValueError", out.raised(ValueError))
            return
        E.prove("valid lists are accepted", out.returned)
        if not out.returned:
            return
        E.reach("accepted")
        o = out.value
        if not isinstance(o, LogMetrics) or len(o.log) != 1 or o.log[0][0] != "loop":
            unsupported("statistics of another form")
        E.prove("statistics over the given number of items", o.n_item == ni)
        ev = o.log[0][1]
        E.prove("every worker's statistics are merged", ev.n == nt)
        k = E.int("k", lo=0, hi=nt)
        es = ev.at(k)
        if len(es) != 1 or es[0][0] != "merge" or not isinstance(es[0][1], tuple):
            unsupported("merge of another form")
        worker(es[0][1][1], rec, gts, nu, ni)

    def worker(fn, rec, gts, nu, ni):
        E.note("each list is fetched by exactly one worker (atomic increment)")
        box, cursors = [], []

        class Loc(LogMetrics):
            def __init__(s, n):
                super().__init__(n)
                box.append(s)
        m.Metrics, m.Metrics__ctor_1 = Loc, lambda o, n: Loc.__init__(o, n)
        fa = Atomic.fetch_add

        def fetch(self, n):
            cursors.append(self)
            if not isinstance(n, int) or n != 1:
                unsupported("chunked cursor")
            return fa(self, n)
        w = E.int("w", lo=0)

        def check(ctx):
            if ctx.it is not None:
                return
            if len(box) != 1 or not cursors or len(cursors[-1].log) != 1:
                unsupported("worker of another form")
            u = cursors[-1].log[0][1][0]
            log = box[0].log
            if any(op not in ("total", "update") for op, v in log):
                unsupported("statistics changed otherwise")
            E.reach("a list")
            E.prove("every user counts once in total", sum(1 for e in log if e[0] == "total") == 1)
            ups = [v for op, v in log if op == "update"]
            E.prove("every user is evaluated once", len(ups) == 1)
            if len(ups) != 1:
                return
            lst, gt, fl = ups[0]
            R, G = rec[u], gts[u]
            E.prove("with all its recommendations", lst.n == R.n)
            i = E.int("i", lo=0)
            if E.decide(z3.And(i.t < term(lst.n), i.t < R.n.t)):
                E.prove("in the given order", lst.at(i) == R.at(i))
            E.prove("recall is over the whole truth", fl is False or fl == False)
            if not isinstance(gt, SetBuild):
                unsupported("truth set of another form")
            got, p = False, E.int("p", lo=0)
            for op, v in gt.log:
                if op == "clear":
                    got = False
                elif op == "insert":
                    got = sor(got, v == w)
                    E.prove("the truth set holds only that user's items", sand(G.n >= 1, any_eq(G, v)))
                elif op == "loop":
                    q = E.int("q", lo=0)
                    if E.decide(q.t < term(v.n)):
                        for o2, x in v.at(q):
                            if o2 != "insert":
                                unsupported("set operation " + o2)
                            E.prove("the truth set holds only that user's items", sand(q < G.n, x == G.at(q)))
                    if E.decide(p.t < term(v.n)):
                        for o2, x in v.at(p):
                            if o2 == "insert":
                                got = sor(got, x == w)
                elif op == "insert_all" and isinstance(v, VSeq):
                    q = E.int("q", lo=0)
                    if E.decide(q.t < term(v.n)):
                        E.prove("the truth set holds only that user's items", sand(q < G.n, v.at(q) == G.at(q)))
                    if E.decide(p.t < term(v.n)):
                        got = sor(got, v.at(p) == w)
                else:
                    unsupported("set operation " + op)
            if E.decide(p.t < G.n.t):
                E.reach("a truth item")
                E.prove("every truth item of that user enters its set", simplies(G.at(p) == w, got))

        def any_eq(G, v):
            unsupported("single insertion")
        E.iter_checks = check
        Atomic.fetch_add = fetch
        try:
            out = E.attempt(fn)
        finally:
            Atomic.fetch_add = fa
            make_log(m)
        E.prove("a worker returns", out.returned)
        if out.returned:
            E.reach("worker ends")
            E.prove("a worker stops only behind the last list and returns its statistics", sand(cursors[-1].log[-1][1][0] >= nu, box and out.value is box[0] and box[0].n_item == ni))
            E.prove("the workers share one cursor that starts at the first list", cursors[-1].first == 0 and cursors[-1].stamp < box[0].stamp)
    V.explore(SRC, outer)



MOD = "irspack.evaluation.evaluate_df_to_df"


def run_py(V):
    import types
    calls = []

    class Result:
        def as_dict(self):
            return ("metrics", self)

    def lists(rec, gt, n, threads):
        r = Result()
        calls.append((rec, gt, n, threads, r))
        return r
    L = V.loader({"irspack.evaluation._core_evaluator": types.SimpleNamespace(evaluate_list_vs_list=lists, __name__="irspack.evaluation._core_evaluator")})
    m = L.load(MOD)

    def spec(E):
        E.note("evaluate_list_vs_list: its contract is proved above; ids are not missing; get_n_threads: P18")
        del calls[:]
        m.get_n_threads = lambda n: E.int("threads", lo=1)
        NR, NT = E.int("n_rec", lo=0), E.int("n_truth", lo=0)
        R = sym_frame(NR, {"user": "id", "item": "id"}, "rec")
        T = sym_frame(NT, {"user": "id", "item": "id"}, "truth")
        RU, RI, TU, TI = R.cols["user"], R.cols["item"], T.cols["user"], T.cols["item"]
        cols0 = dict(R.cols), dict(T.cols)
        def hint(G, x):
            # the users behind an index, and a row of each table with that user
            for S in [q for q in E.idseqs if isinstance(q, PermSeq)]:
                u = S.at(x)
                for d, *_ in list(E.ghostmem.get("distinct", {}).values()):
                    if d.rows in (T.rows, R.rows):
                        d.member(u)
                        for F, own in ((R, d.rows is R.rows), (T, d.rows is T.rows)):
                            if own:
                                for f in F.rows.filters.values():
                                    if E.valid(term(f[0].n) == term(G.n)):
                                        w = SInt(d.wit(u.t))
                                        k = f[0].pos(w)
                                        f[0].rowat(k)
                                        G.of(k)
        E.group_hint = hint
        out = E.attempt(m.evaluate_recommendation_df, R, T, "user", "item", 1)
        E.prove("the evaluation returns", out.returned)
        if not out.returned:
            return
        if len(calls) != 1:
            unsupported("evaluated otherwise")
        rec, gt, n_items, th, res = calls[0]
        E.prove("the metrics of the lists are returned", isinstance(out.value, tuple) and out.value[1] is res)
        E.prove("the caller's tables are not modified", not R.writes and not T.writes and all(a[k] is F.cols[k] for a, F in zip(cols0, (R, T)) for k in a))
        seq = lambda v: v.sym if isinstance(v, rt.VList) and v.sym is not None else v
        rec, gt = seq(rec), seq(gt)
        if len(E.groupings) != 2:
            unsupported("grouped otherwise")
        GR, GT = E.groupings
        E.prove("one truth list per recommendation list", rt.length(rec) == rt.length(gt))
        flt = [list(F.rows.filters.values()) for F in (R, T)]
        if any(len(f) != 1 for f in flt):
            unsupported("tables restricted otherwise")
        RF, TF = flt[0][0][0], flt[1][0][0]
        r, s = E.int("r", lo=0, hi=NR), E.int("s", lo=0, hi=NT)
        lst = lambda v: v.sym if isinstance(v, rt.VList) and v.sym is not None else v
        NG = rt.length(rec)

        def entries(seq, rows, t, user, what, fr):
            """the row behind entry t of a list"""
            f = getattr(seq, "filtered", None)
            if f is None:
                unsupported("list of another form")
            v = seq.at(t)
            k = f.index.pos(t)
            return v, rows.rowat(k)

        def user_of(g):
            return RU.f(RF.rowat(GR.rep(g)))
        mode = E.choose(6, "obligation")
        if mode == 0:      # a user in both tables, a row of it
            E.rowhints.append(r)
            E.rowhints.append(s)
            E.assume(RU.f(r).t == TU.f(s).t)
            for d, *_ in list(E.ghostmem.get("distinct", {}).values()):
                d.member(RU.f(r)), d.member(TU.f(s)), d.touch(r), d.touch(s)
            E.reach("a user in both tables")
            E.prove("the rows of a user in both tables are used", z3.And(RF.member(r), TF.member(s)))
            k, l = RF.pos(r), TF.pos(s)
            RF.rowat(k), TF.rowat(l)
            g = GR.of(k)
            GT.of(l)
            E.prove("a user in both tables has a list", sand(g >= 0, g < NG, mkbool(user_of(g).t == RU.f(r).t)))
            L, G = lst(rec.at(g)), lst(gt.at(g))
            if getattr(L, "filtered", None) is None:
                unsupported("list of another form")
            t = L.filtered.complete(k)
            E.prove("every recommendation of a user in both tables is in its list", t is not None)
            if getattr(G, "filtered", None) is None:
                E.fail("every truth item of a user in both tables is in its truth", "no truth list")
                return
            q = G.filtered.complete(l)
            E.prove("every truth item of a user in both tables is in its truth", q is not None)
            return
        g = E.int("g", lo=0)
        if not E.decide(g.t < term(NG)):
            return
        L, G = lst(rec.at(g)), lst(gt.at(g))
        t, t2 = E.int("t", lo=0), E.int("t2", lo=0)
        if mode == 1:
            if not E.decide(z3.And(t.t < term(L.n), t2.t < term(L.n))):
                return
            v, r1 = entries(L, RF, t, None, None, None)
            v2, r2 = entries(L, RF, t2, None, None, None)
            E.reach("a listed recommendation")
            E.prove("a list holds recommendations of one user", sand(mkbool(RU.f(r1).t == user_of(g).t), mkbool(RF.member(r1))))
            RF.pos(r1), RF.pos(r2)
            R.rows.pos(r1), R.rows.pos(r2)
            E.prove("in table order, each row once", simplies(t < t2, r1 < r2))
            E.prove("indices of items are below the number of items", sand(v >= 0, v < n_items))
            E.prove("equal indices are equal items", mkbool((term(v) == term(v2)) == (RI.f(r1).t == RI.f(r2).t)))
            ws = [SInt(d.wit(RU.f(r1).t)) for d, *_ in list(E.ghostmem.get("distinct", {}).values()) if d.rows is T.rows]
            E.prove("a listed user is in the truth table", z3.Or(*[z3.And(w.t >= 0, w.t < NT.t, TU.f(w).t == RU.f(r1).t) for w in ws]))
        elif mode == 2:
            if isinstance(G, rt.VList) and G.sym is None:
                if list.__len__(G):
                    unsupported("truth of another form")
                return
            if not E.decide(z3.And(t.t < term(G.n), t2.t < term(G.n))):
                return
            v, s1 = entries(G, TF, t, None, None, None)
            v2, s2 = entries(G, TF, t2, None, None, None)
            E.reach("a truth item of a list")
            E.prove("the truth of a list is that of the same user", mkbool(TU.f(s1).t == user_of(g).t))
            E.prove("indices of truth items are below the number of items", sand(v >= 0, v < n_items))
            E.prove("equal indices are equal truth items", mkbool((term(v) == term(v2)) == (TI.f(s1).t == TI.f(s2).t)))
        elif mode == 3:
            if isinstance(G, rt.VList) and G.sym is None:
                return
            if not E.decide(z3.And(t.t < term(L.n), t2.t < term(G.n))):
                return
            v, r1 = entries(L, RF, t, None, None, None)
            v2, s2 = entries(G, TF, t2, None, None, None)
            E.reach("a recommendation and a truth item")
            E.prove("a recommendation and a truth item have equal indices exactly when they are the same item", mkbool((term(v) == term(v2)) == (RI.f(r1).t == TI.f(s2).t)))
        elif mode == 4:
            g2 = E.int("g2", lo=0)
            if not E.decide(z3.And(g2.t < term(NG), g2.t != g.t)):
                return
            E.reach("two lists")
            E.prove("two lists are of different users", mkbool(user_of(g).t != user_of(g2).t))
        elif mode == 5:
            from pyvc.pdmodel import UnionIds
            us = [u for u in E.idseqs if isinstance(u, UnionIds) and E.valid(term(u.n) == term(n_items))]
            if not us:
                unsupported("items counted otherwise")
            U = us[-1]
            k, l, j = E.int("k", lo=0), E.int("l", lo=0), E.int("j", lo=0)
            if E.decide(k.t < term(RF.n)):
                E.prove("recommended items count", U.member(RI.f(RF.rowat(k))))
            if E.decide(l.t < term(TF.n)):
                E.prove("truth items count", U.member(TI.f(TF.rowat(l))))
            if E.decide(j.t < term(n_items)):
                E.reach("an item")
                x = U.at(j)
                ds = [(d, d.wit(x.t)) for d, *_ in list(E.ghostmem.get("distinct", {}).values())]
                ok = [z3.And(RF.member(SInt(w)), RI.f(SInt(w)).t == x.t) for d, w in ds if d.rows is RF] + [z3.And(TF.member(SInt(w)), TI.f(SInt(w)).t == x.t) for d, w in ds if d.rows is TF]
                E.prove("only items of the used rows count, each once", z3.Or(*ok))
    V.explore(MOD + ".evaluate_recommendation_df", spec)


def run(V):
    run_cpp(V)
    run_py(V)
