"""P15: EvaluatorWithColdUser.__init__, _get_score_matrix_mask, _get_scores_as_list"""
import z3
from pyvc.core import *
from pyvc import rt
from pyvc.npmodel import Arr, as_arr, float64, float32, sel
from pyvc.spmodel import sym_sparse
from contracts import evalmodel as M
from contracts.p11 import Cutoffs, result_of, block_ok, cover, masked, NINF

MOD = "irspack.evaluation.evaluator"


class Profile:
    """what a model may do with profiles: scores of row i depend on that row (probed at an arbitrary column)"""

    def __init__(self, E, n_warm, n_cold, kind=0):
        self.n_items, self.n_cold = n_warm, n_cold
        self.probe = E.int("probe", lo=0, hi=n_warm)
        self.F, self.K = E.func("F", "int", "int", "real", "real"), E.func("FK", "int", "int", "real", "int")
        self.dtype = (float64, float32)[E.choose(2, "score type")] if kind == 0 else float64
        self.mode = E.choose(3, "feature scorer") if n_cold is not None else 0      # 0: none, 1: raises when called, 2: works
        self.asked = []

    def cell(self, with_features, x, j):
        a = (z3.IntVal(int(with_features)), term(j), flift(tofloat(x)).t)
        E.fact(z3.And(self.K(*a) >= -1, self.K(*a) <= 2))
        return SFloat(self.F(*a), self.K(*a))

    def out(self, X, n, w):
        s = X.snapshot()
        if not E.valid(term(X.shape[1]) == term(self.n_items)):
            raise ValueError("profile of another width")
        return Arr((X.shape[0], n), lambda i, j: self.cell(w, s(i, self.probe), j), self.dtype)

    def get_score_cold_user(self, X):
        return self.out(X, self.n_items, False)

    def _create_cold_user_with_item_features_scorer(self, f):
        self.asked.append(f)
        if self.mode == 0:
            raise NotImplementedError()
        return self.scorer

    def scorer(self, X):
        if self.mode == 1:
            raise NotImplementedError()
        return self.out(X, self.n_items + self.n_cold, True)


def run(V):
    L = V.loader({"irspack.evaluation._core_evaluator": M.module()})
    m = L.load(MOD)
    E.note("EvaluatorCore and Metrics (C++): contracts P12, P13; mb_size >= 1")
    E.note("a model scores every profile row by itself: the scores of a row are an arbitrary function of that row's entry in an arbitrary column")

    def build(E, feats, fmt="csr"):
        n, w = E.int("n_users", lo=0), E.int("n_warm", lo=1)
        P = sym_sparse("profile", (n, w), fmt=fmt)
        k = E.int("n_cold", lo=0) if feats else None
        f = sym_sparse("features", (k, E.int("n_features", lo=0)), fmt="csr") if feats else None
        return n, w, P, k, f

    def evaluate(E):
        feats = E.choose(2, "features") == 1
        n, w, P, k, f = build(E, feats)
        total = w + k if feats else w
        gt = sym_sparse("truth", (n, total), fmt="csr")
        kind = E.choose(3 if feats else 2, "mask")
        mk = None if kind == 0 else sym_sparse("mask", (n, w if kind == 1 else total), fmt="csr")
        Ps, ms = P.snapshot(), mk.snapshot() if mk is not None else None
        nt, mb = E.int("n_threads", lo=1), E.int("mb_size", lo=1)
        kw = {"cold_item_features": f} if feats else {}
        out = E.attempt(m.EvaluatorWithColdUser, P, gt, masked_interactions=mk, n_threads=nt, mb_size=mb, **kw)
        tag = ", %s, %s" % ("feature-only items" if feats else "training items only", ["profile masked", "given mask", "given mask over all items"][kind])
        E.prove("an evaluator is built from matching shapes" + tag, out.returned)
        if not out.returned:
            return
        ev = out.value
        gi, gj = E.int("gi", lo=0, hi=n), E.int("gj", lo=0, hi=total)
        E.prove("the ground truth is evaluated" + tag, mkbool(same(ev.core.ground_truth.at(gi, gj), gt.at(gi, gj))))
        mod = Profile(E, w, k, kind)
        cuts = Cutoffs(E)
        out = E.attempt(ev._get_scores_as_list, mod, cuts)
        E.prove("a matching model is evaluated" + tag, out.returned)
        if not out.returned:
            return
        E.prove("the profile is not modified" + tag, mkbool(same(P.at(gi, mod.probe), Ps(gi, mod.probe))))
        if feats:
            E.prove("the model is given the features" + tag, all(x is f for x in mod.asked))
        if not E.decide(term(cuts.n) > 0):
            E.prove("no cutoff, no result", rt.length(out.value) == 0)
            return
        i0 = E.int("i0", lo=0, hi=cuts.n)
        of = result_of(E, out.value, cuts, i0)
        N, g = M.parts(of, i0, cuts.n)
        E.prove("users are evaluated if there are any" + tag, z3.Implies(n.t > 0, term(N) > 0))
        if not E.decide(term(N) > 0):
            return
        p = cover(E, N, g, n, tag)
        if p is None:
            return
        E.reach("a block" + tag)
        block_ok(E, ev, p, i0, cuts, tag)
        r, j = E.int("r", lo=0, hi=p.rows), E.int("j", lo=0, hi=total)
        u = p.begin + r
        warm = E.decide(j.t < w.t)
        x = Ps(u, mod.probe)
        s = mod.cell(feats and mod.mode == 2, x, j) if (warm or mod.mode == 2) else NINF
        src = ms if ms is not None else Ps
        if warm or kind == 2:
            s = masked(src, u, j, s)
        if not warm:
            E.reach("a feature-only item" + tag)
        what = "training items" if warm else "feature-only items" + (" the model can score" if mod.mode == 2 else " the model cannot score")
        E.prove("scores of %s come from the user's own profile and mask" % what + tag, mkbool(same(p.score(r, j), s)))
    V.explore(MOD + ".EvaluatorWithColdUser._get_scores_as_list", evaluate)

    def wrong(E):
        """another number of items in the model"""
        feats = E.choose(2, "features") == 1
        n, w, P, k, f = build(E, feats)
        total = w + k if feats else w
        ev = m.EvaluatorWithColdUser(P, sym_sparse("truth", (n, total), fmt="csr"), n_threads=1, **({"cold_item_features": f} if feats else {}))
        mod = Profile(E, E.int("model_items", lo=1), k)
        E.assume(term(mod.n_items) != w.t)
        E.reach("model of another size")
        out = E.attempt(ev._get_scores_as_list, mod, Cutoffs(E))
        E.prove("a model of another number of training items raises", out.raised(ValueError))
    V.explore(MOD + ".EvaluatorWithColdUser._get_scores_as_list", wrong)

    def shapes(E):
        feats = E.choose(2, "features") == 1
        n, w, P, k, f = build(E, feats)
        total = w + k if feats else w
        a, b = E.int("truth_rows", lo=0), E.int("truth_cols", lo=0)
        what = E.choose(3, "what")
        kw = {"cold_item_features": f} if feats else {}
        if what == 0:
            E.assume(a.t != n.t)
            name = "ground truth of another number of users raises"
        elif what == 1:
            E.assume(z3.And(a.t == n.t, b.t != term(total)))
            if not feats:
                return
            name = "ground truth of another number of items raises"
        else:
            E.assume(z3.And(a.t == n.t, b.t == term(total)))
            c, d = E.int("mask_rows", lo=0), E.int("mask_cols", lo=0)
            E.assume(z3.Or(c.t != n.t, z3.And(d.t != term(total), d.t != w.t)))
            kw["masked_interactions"] = sym_sparse("mask", (c, d), fmt="csr")
            name = "a mask of another shape raises"
        E.reach(name)
        out = E.attempt(m.EvaluatorWithColdUser, P, sym_sparse("truth", (a, b), fmt="csr"), n_threads=1, **kw)
        E.prove(name + (", with features" if feats else ""), out.raised(ValueError))
    V.explore(MOD + ".EvaluatorWithColdUser.__init__", shapes)
