"""P14: Evaluator.get_score(s), get_target_score, get_score(s)_from_score_matrix, get_score(s)_from_score_chunks, _metrics_as_dict, __init__"""
import z3
from pyvc.core import *
from pyvc import rt
from pyvc.rt import VList, VSeq, VDict, IdSeq
from pyvc.npmodel import Arr, float64
from pyvc.spmodel import sym_sparse
from contracts import evalmodel as M

MOD = "irspack.evaluation.evaluator"
METRICS = ["hit", "recall", "ndcg", "map", "precision", "gini_index", "entropy", "appeared_item", "catalog_coverage"]
TARGETS = ["ndcg", "recall", "hit", "map", "precision"]


class Table(dict):
    """the metrics at the cutoff of index k"""

    def __init__(self, fs, k):
        super().__init__({n: SFloat(f(term(k))) for n, f in fs.items()})


def run(V):
    L = V.loader({"irspack.evaluation._core_evaluator": M.module()})
    m = L.load(MOD)
    E.note("Metrics.as_dict (C++): contract P12; the lists of metrics are those of _get_scores*_as_list (contract P11)")

    def make(E, **kw):
        n_users, n_items = E.int("n_users", lo=0), E.int("n_items", lo=0)
        out = E.attempt(m.Evaluator, sym_sparse("truth", (n_users, n_items), fmt="csr"), n_threads=1, **kw)
        E.prove("the evaluator is built", out.returned)
        if not out.returned:
            raise PathDone()
        return out.value, n_users, n_items

    FNS = [("get_scores", "get_score", "_get_scores_as_list"),
           ("get_scores_from_score_matrix", "get_score_from_score_matrix", "_get_scores_from_score_matrix_as_list"),
           ("get_scores_from_score_chunks", "get_score_from_score_chunks", "_get_scores_from_score_chunks_as_list")]

    def stub(E, ev, name, got):
        """the list of metric dictionaries, one per cutoff: values are a function of the cutoff's index"""
        fs = {n: E.func("metric_" + n, "int", "real") for n in M.NAMES + ["catalog_coverage"]}

        def f(model, cutoffs):
            got.append((model, cutoffs))
            if isinstance(cutoffs, list) and not (isinstance(cutoffs, VList) and cutoffs.sym is not None):
                return VList([Table(fs, k) for k in range(len(cutoffs))])
            return VSeq(rt.length(cutoffs), lambda k: Table(fs, k), "list")
        object.__setattr__(ev, name, f)
        return fs

    def several(name, lname):
        def spec(E):
            ev, n_users, n_items = make(E)
            got = []
            fs = stub(E, ev, lname, got)
            fc = E.func("cutoff", "int", "int")
            cuts = VSeq(E.int("n_cutoffs", lo=0), lambda i: mkint(fc(term(i))), "list")
            tok = Token("scored")
            out = E.attempt(getattr(ev, name), tok, cuts)
            E.prove("returns", out.returned)
            if not out.returned:
                return
            E.prove("the given scores are evaluated at the given cutoffs", sand(len(got) == 1, got[0][0] is tok, got[0][1] is cuts) if got else False)
            R = out.value
            if not isinstance(R, VDict):
                unsupported("result is not a dictionary")
            if R.events is None:
                if E.valid(term(cuts.n) == 0):
                    return
                unsupported("result dictionary not filled by a loop over the cutoffs")
            ev_ = R.events
            if len(ev_) != 1 or ev_[0][0] != "loop" or not E.valid(term(ev_[0][1].n) == term(cuts.n)):
                unsupported("result dictionary not filled by one loop over the cutoffs")
            if not E.decide(term(cuts.n) > 0):
                return
            k = E.int("k", lo=0, hi=cuts.n)
            E.reach("a cutoff")
            sets = ev_[0][1].at(k)
            if any(op != "setitem" for op, v in sets):
                unsupported("nested loops over symbolic sequences")
            for n in METRICS:
                key = rt.SStr([n + "@", (cuts.at(k), -1, "")])
                vals = [v for op, (q, v) in sets if isinstance(q, rt.SStr) and q == key]
                E.prove("%s@cutoff is the value computed at that cutoff" % n, sand(len(vals) == 1, mkbool(same(vals[0], SFloat(fs[n](k.t))))) if len(vals) == 1 else False)
        V.explore(MOD + ".Evaluator." + name, spec)

    def single(name, lname):
        def spec(E):
            cutoff = E.int("cutoff", lo=1)
            ev, n_users, n_items = make(E, cutoff=cutoff)
            got = []
            fs = stub(E, ev, lname, got)
            tok = Token("scored")
            out = E.attempt(getattr(ev, name), tok)
            E.reach("single cutoff")
            E.prove("returns", out.returned)
            if not out.returned:
                return
            ok = len(got) == 1 and got[0][0] is tok and isinstance(got[0][1], list) and len(got[0][1]) == 1
            E.prove("the given scores are evaluated at the default cutoff", sand(ok, got[0][1][0] == cutoff) if ok else False)
            E.prove("its metrics are returned", isinstance(out.value, Table) and all(out.value[n].t.eq(fs[n](z3.IntVal(0))) for n in fs))
        V.explore(MOD + ".Evaluator." + name, spec)

    for several_, single_, l in FNS:
        several(several_, l)
        single(single_, l)

    def target(E):
        t = TARGETS[E.choose(len(TARGETS), "target")]
        cutoff = E.int("cutoff", lo=1)
        ev, n_users, n_items = make(E, cutoff=cutoff, target_metric=t)
        got = []
        fs = stub(E, ev, "_get_scores_as_list", got)
        tok = Token("model")
        out = E.attempt(ev.get_target_score, tok)
        E.reach("target metric")
        E.prove("returns", out.returned)
        if not out.returned:
            return
        ok = len(got) == 1 and got[0][0] is tok and rt.length(got[0][1]) == 1
        E.prove("the model is evaluated at the default cutoff", sand(ok, rt.iter_(got[0][1])[0] == cutoff) if ok else False)
        E.prove("the tuning target is the configured metric", mkbool(same(out.value, SFloat(fs[t](z3.IntVal(0))))))
    V.explore(MOD + ".Evaluator.get_target_score", target)

    def badtarget(E):
        out = E.attempt(m.Evaluator, sym_sparse("truth", (E.int("u", lo=0), E.int("i", lo=0)), fmt="csr"), n_threads=1, target_metric="nonsense")
        E.reach("unknown target")
        E.prove("an unknown target metric raises", not out.returned)
    V.explore(MOD + ".Evaluator.__init__", badtarget)

    def coverage(E):
        case = E.choose(4, "recommendable items")
        tag = (", all items", ", common list", ", lists per user", ", sparse lists per user")[case]
        kw = {}
        E.use("set comprehension / set(): its size is the number of distinct elements; EvaluatorCore rejects a common list with repeated items (contract P13)")
        if case == 1:
            items = VSeq(E.int("n_recommendable", lo=0), (lambda f: lambda j: mkint(f(term(j))))(E.func("recommendable", "int", "int")), "list")
            kw["recommendable_items"] = items
        n_users, n_items = E.int("n_users", lo=0), E.int("n_items", lo=0)
        gt = sym_sparse("truth", (n_users, n_items), fmt="csr")
        if case == 2:
            ln, el = E.func("n_recommendable", "int", "int"), E.func("recommendable", "int", "int", "int")

            def per(u):
                E.fact(ln(term(u)) >= 0)
                return VSeq(mkint(ln(term(u))), lambda j: mkint(el(term(u), term(j))), "list")
            rows = E.int("n_lists", lo=0)
            kw["per_user_recommendable_items"] = VSeq(rows, per, "list")
        if case == 3:
            rows = E.int("n_lists", lo=0)
            R = sym_sparse("recommendable", (rows, n_items), fmt="csr")
            kw["per_user_recommendable_items"] = R
        out = E.attempt(m.Evaluator, gt, n_threads=1, **kw)
        if case >= 2 and E.decide(term(rows) != n_users.t):
            E.reach("another number of lists")
            E.prove("another number of lists than users raises" + tag, not out.returned)
            return
        E.prove("the evaluator is built" + tag, out.returned)
        if not out.returned:
            return
        ev = out.value
        if case == 0:
            E.prove("without restriction all items count", ev.n_recommendable_items == n_items)
        elif case == 1:
            E.prove("with a common list its items count", ev.n_recommendable_items == items.n)
        else:
            n = ev.n_recommendable_items
            if E.decide(term(rows) == 0):
                return
            sets = [s for s in E.flatsets if s.size_.t.eq(term(n))]
            if not sets:
                if case == 2 and E.decide(term(rows) == 1):
                    E.note("a single user's list has no repeated item")
                    E.prove("the items of the only list count", term(n) == ln(z3.IntVal(0)))
                    return
                if case == 3 and E.decide(term(rows) == 1):
                    return
                unsupported("number of recommendable items is not the size of a set")
            S = sets[0]
            E.prove("all lists are collected" + tag, S.outer.n == rows)
            i = E.int("i", lo=0, hi=rows)
            inner = S.inner(i)
            E.reach("recommendable items collected" + tag)
            if case == 2:
                E.prove("all items of a list are collected" + tag, rt.length(inner) == mkint(ln(i.t)))
                j = E.int("j", lo=0, hi=mkint(ln(i.t)))
                E.prove("the collected items are the listed ones" + tag, rt.iter_(inner).at(j) == mkint(el(i.t, j.t)))
            else:
                j = E.int("j", lo=0, hi=rt.length(inner))
                x = rt.iter_(inner).at(j)
                E.prove("the collected items are those with a non-zero entry" + tag, z3.Not(same(R.at(i, x), 0.0)))
                src = inner
                while src is not None and not hasattr(src, "find"):
                    src = getattr(src, "sym", None) or getattr(src, "src", None)
                if E.choose(2, "completeness"):
                    if not hasattr(src, "find"):
                        unsupported("items are not enumerated from the non-zero entries")
                    c = E.int("c", lo=0, hi=n_items)
                    E.assume(z3.Not(same(R.at(i, c), 0.0)))
                    E.reach("a recommendable item" + tag)
                    t = src.find(0, c)
                    if t is None:
                        E.fail("every non-zero entry is collected" + tag, "not enumerated")
                        return
                    E.prove("every non-zero entry is collected" + tag, sand(t >= 0, t < rt.length(inner), inner.at(t) == c))
                    return
        # the coverage of a set of statistics
        st = M.Metrics(n_items)
        res = E.attempt(ev._metrics_as_dict, st)
        E.prove("the metrics are returned" + tag, res.returned)
        if not res.returned:
            return
        d = res.value
        n = ev.n_recommendable_items
        app = M.value(st, "appeared_item")
        if E.decide(term(n) == 0):
            E.reach("no recommendable item" + tag)
            c = d["catalog_coverage"]
            E.prove("coverage is not a number without recommendable items" + tag, c != c if isinstance(c, float) else mkbool(flift(c).k == 2) if isinstance(c, SFloat) and c.k is not None else False)
        else:
            E.reach("coverage" + tag)
            E.prove("coverage is the number of appeared items over the number of recommendable ones" + tag, z3.Implies(term(n) > 0, flift(tofloat(d["catalog_coverage"])).t * z3.ToReal(term(n)) == app.t))
        E.prove("other metrics are unchanged" + tag, sand(*[mkbool(same(d[x], M.value(st, x))) for x in M.NAMES]))
    V.explore(MOD + ".Evaluator._metrics_as_dict", coverage)
