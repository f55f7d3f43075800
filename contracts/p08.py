"""P08: ItemIDMapper.score_to_recommended_items"""
import z3
from pyvc.core import *
from pyvc import rt
from pyvc.rt import IdSeq, VList, VSeq
from pyvc.npmodel import Arr, float64, float32

MOD = "irspack.utils.id_mapping"
FN = MOD + ".ItemIDMapper.score_to_recommended_items"


def run(V):
    L = V.loader()
    m = L.load(MOD)

    def spec(E):
        E.note("cutoff >= 1; item ids are distinct, allowed ids are distinct; scores are not NaN")
        n = E.int("n_items", lo=0)
        items = IdSeq(n, hint="items")
        sv, sk = E.func("score", "int", "real"), E.func("score_k", "int", "int")

        def sc(i):
            E.fact(z3.And(sk(term(i)) >= -1, sk(term(i)) <= 1))
            return SFloat(sv(term(i)), sk(term(i)))
        score = Arr((n,), sc, float64)
        given_a, given_f = E.choose(2, "allowed given"), E.choose(2, "forbidden given")
        allowed = IdSeq(hint="allowed") if given_a else None
        forb = IdSeq(hint="forbidden", distinct=False) if given_f else None
        cutoff = E.int("cutoff", lo=1)
        mapper = m.ItemIDMapper(items)
        out = E.attempt(mapper.score_to_recommended_items, score, cutoff, allowed_item_ids=allowed, forbidden_item_ids=forb)
        E.prove("returns", out.returned)
        if not out.returned:
            return
        tag = "%s, %s" % ("allowed ids given" if given_a else "all items allowed", "forbidden ids given" if given_f else "nothing forbidden")
        E.reach("recommendation list, " + tag)
        R = out.value
        seq = R.sym if isinstance(R, VList) and R.sym is not None else R
        N = rt.length(R)
        if not isinstance(seq, (VSeq, VList)):
            unsupported("result is not a list")
        eligible = lambda i, x: sand(sk(term(i)) > -1, allowed.member(x) if given_a else True, snot(forb.member(x)) if given_f else True)

        def elem(j):
            x, s = seq.at(j)
            return x, flift(tofloat(s))
        last = E.decide(term(N) >= 2)
        if last:
            elem(N - 2)
        if E.decide(term(N) >= 1):
            elem(N - 1)
        if E.decide(term(N) >= term(cutoff)):
            elem(cutoff - 1)
        if E.decide(term(N) == term(cutoff)):
            E.reach("a full list, " + tag)
        E.prove("at most cutoff entries", N <= cutoff)
        j, j2 = E.int("j", lo=0, hi=N), E.int("j2", lo=0, hi=N)
        if E.possible(True):
            x, s = elem(j)
            i = items.position(x)
            E.prove("every entry is a known item with its own score", sand(items.member(x), mkbool(same(s, sc(i)))))
            E.prove("every entry is allowed, not forbidden and not minus infinity", eligible(i, x))
            x2, s2 = elem(j2)
            E.prove("descending scores", z3.Implies(term(j) < term(j2), bterm(s >= s2)))
            E.prove("no item twice", z3.Implies(term(j) < term(j2), x.t != x2.t))

    def complete(E):
        n = E.int("n_items", lo=0)
        items = IdSeq(n, hint="items")
        sv, sk = E.func("score", "int", "real"), E.func("score_k", "int", "int")

        def sc(i):
            E.fact(z3.And(sk(term(i)) >= -1, sk(term(i)) <= 1))
            return SFloat(sv(term(i)), sk(term(i)))
        score = Arr((n,), sc, float64)
        given_a, given_f = E.choose(2, "allowed given"), E.choose(2, "forbidden given")
        allowed = IdSeq(hint="allowed") if given_a else None
        forb = IdSeq(hint="forbidden", distinct=False) if given_f else None
        cutoff = E.int("cutoff", lo=1)
        mapper = m.ItemIDMapper(items)
        out = E.attempt(mapper.score_to_recommended_items, score, cutoff, allowed_item_ids=allowed, forbidden_item_ids=forb)
        if not out.returned:
            return
        R = out.value
        N = rt.length(R)
        seq = R.sym if isinstance(R, VList) and R.sym is not None else R
        # an eligible item i0: it is listed, or the list is full and all its scores are at least i0's
        i0 = E.int("i0", lo=0, hi=n)
        x0 = items.at(i0)
        E.assume(sand(sk(i0.t) > -1, allowed.member(x0) if given_a else True, snot(forb.member(x0)) if given_f else True))
        F = getattr(seq, "filtered", None)
        if F is None or not E.perms or not isinstance(seq, (VSeq, VList)):
            unsupported("result list is not a selection of a sorted sequence")
        P = E.perms[-1]
        r = i0
        if given_a:
            fs = [f for f in E.filters if f is not F]
            if not fs:
                unsupported("allowed ids not mapped by a filter")
            r = fs[-1].complete(allowed.position(x0))
            if r is None:
                E.fail("every allowed known item is considered", "dropped by the id filter")
                return
        # the iteration at which the loop meets this item
        seq_it = getattr(F, "it", None)
        if seq_it is None:
            unsupported("result list is not built by a loop over a sorted sequence")
        t = P.inverse(r)
        P.at(t)
        for it in (P.shape[0] - 1 - t, t):
            P.at(it)
            P.at(P.shape[0] - 1 - it)
            if E.valid(z3.And(term(it) >= 0, term(it) < term(seq_it.n), term(seq_it.at(it)) == term(i0))):
                break
        else:
            if E.valid(z3.BoolVal(False)):
                return
            unsupported("no position of the item in the sorted sequence")
        E.reach("an eligible item")
        if E.decide(term(it) < term(F.src.n)):
            pos = F.complete(it)
            if pos is None:
                E.fail("an eligible item within the inspected prefix is listed", "skipped")
                return
            E.prove("an eligible item within the inspected prefix is listed", sand(pos >= 0, pos < N, seq.at(pos)[0] == x0))
        else:
            E.prove("the list is full when eligible items are left out", N >= cutoff)
            j = E.int("j", lo=0, hi=N)
            E.prove("no left-out eligible item scores higher than a listed one", flift(tofloat(seq.at(j)[1])) >= sc(i0))

    V.explore(FN, spec)
    V.explore(FN, complete)

    def bad(E):
        n, n2 = E.int("n_items", lo=0), E.int("n_scores", lo=0)
        E.assume(n != n2)
        out = E.attempt(m.ItemIDMapper(IdSeq(n, hint="items")).score_to_recommended_items, Arr((n2,), lambda i: 0.0, float64), 5)
        E.reach("wrong number of scores")
        E.prove("a score vector of another length raises ValueError", out.raised(ValueError))
    V.explore(FN, bad)
