from evalcommon import *

class Cold(B.BaseRecommender, register_class=False):
    """style: plain (no feature scoring), scorer (hook), direct (documented method), late (hook exists, scoring fails)"""
    def __init__(self, X, W, F, style, dtype=np.float64, order="C"):
        super().__init__(X); self.Wm, self.F, self.style, self.dt, self.order, self.calls = W, F, style, dtype, order, []
    def _learn(self): pass
    def get_score(self, ui): raise AssertionError("known-user scores used for unseen users")
    def get_score_block(self, b, e): raise AssertionError("known-user scores used for unseen users")
    def _o(self, a): return np.array(a, dtype=self.dt, order=self.order)
    def get_score_cold_user(self, X): return self._o(X.dot(self.Wm))
    def get_score_cold_user_with_item_features(self, X, item_features):
        if self.style in ("plain", "late"): raise NotImplementedError("no features")
        return self._o(np.hstack([X.dot(self.Wm), X.dot(self.F.dot(item_features.T.toarray() if sps.issparse(item_features) else item_features.T))]))

class ColdHook(Cold, register_class=False):
    def _create_cold_user_with_item_features_scorer(self, item_features):
        if self.style == "nohook": raise NotImplementedError("no hook")
        return lambda X: self.get_score_cold_user_with_item_features(X, item_features)

def case(c):
    n, m = c.integer(1, 8), c.integer(1, 5)
    k = c.pick([0, 1, 2, 3])
    f = c.integer(1, 3)
    P = c.sparse(n, m, values="pos", explicit_zero=c.chance(0.2))
    feats = c.sparse(k, f, density=0.7, values="any") if k and c.chance(0.5) else (c.rng.randn(k, f) if k else (None if c.chance(0.7) else np.zeros((0, f))))
    T = m + k
    G = c.sparse(n, T, density=c.pick([0.2, 0.5]))
    W = c.rng.randn(m, m); F = c.rng.randn(m, f)
    dt = c.pick([np.float64, np.float64, np.float32]); order = c.pick(["C", "C", "C", "F"])
    style = c.pick(["plain", "ok", "late", "nohook", "okhook", "latehook"])
    X = c.sparse(c.integer(1, 4), m)
    mod = (ColdHook(X, W, F, "late" if style == "latehook" else style, dt, order) if "hook" in style else Cold(X, W, F, style, dt, order))
    can = style in ("ok", "okhook")
    mask = None; M = np.hstack([P.toarray(), np.zeros((n, k))])
    mode = c.pick(["none", "narrow", "wide"])
    if mode == "narrow":
        mask = c.sparse(n, m); M = np.hstack([mask.toarray(), np.zeros((n, k))])
    elif mode == "wide":
        mask = c.sparse(n, T); M = mask.toarray()
    kw, al = recommendable(c, n, T) if c.chance(0.3) else ({}, None)
    cuts = [c.integer(1, T) for _ in range(c.integer(1, 2))]
    rwc = c.chance(0.3)
    c.note(P=P, G=G, features=feats, W=W, F=F, style=style, mask=mask, cutoffs=cuts, recommendable=al, order=order, dtype=str(dt))
    S = np.asarray(P.dot(W)).astype(dt).astype(float)
    if k:
        ext = (P.dot(F.dot(feats.T.toarray() if sps.issparse(feats) else feats.T))).astype(dt).astype(float) if can else np.full((n, k), -np.inf)
        S = np.hstack([S, ext])
    sc = fill_masked(S, M)
    P0 = P.toarray().copy()
    for mb in {c.pick([1, 2, 3]), c.pick([n, n + 3, 1024, max(1, n - 1)])}:
        ev = EvaluatorWithColdUser(P, G, cutoff=cuts[0], masked_interactions=mask, n_threads=c.pick([1, 2]), recall_with_cutoff=rwc, mb_size=mb, cold_item_features=feats, **kw)
        got = ev.get_scores(mod, cuts)
        for q in cuts: cmp_metrics(c, got, ref_evaluate(sc, gt_sets(G), q, al, rwc), "cold users, minibatch %d" % mb, "@%d" % q)
        cmp_metrics(c, ev.get_score(mod), ref_evaluate(sc, gt_sets(G), cuts[0], al, rwc), "cold users, minibatch %d" % mb, names=ALL)
    c.equal(P.toarray(), P0, "profiles modified")
    # raw score matrices use the same mask
    R = tied_scores(c, n, T)
    R0 = R.copy()
    cmp_metrics(c, ev.get_score_from_score_matrix(R), ref_evaluate(fill_masked(R, M), gt_sets(G), cuts[0], al, rwc), "score matrix", names=ALL)
    c.equal(R, R0, "caller's score matrix modified")

def errors(c):
    n, m, k = c.integer(1, 4), c.integer(1, 4), c.integer(1, 3)
    P = c.sparse(n, m)
    with c.raises("ground truth with other rows accepted"): EvaluatorWithColdUser(P, c.sparse(n + 1, m))
    with c.raises("ground truth with other rows accepted"): EvaluatorWithColdUser(P, c.sparse(n + 1, m + k), cold_item_features=np.zeros((k, 2)))
    with c.raises("ground truth without the feature-only columns accepted"): EvaluatorWithColdUser(P, c.sparse(n, m), cold_item_features=np.zeros((k, 2)))
    with c.raises("ground truth with too many columns accepted"): EvaluatorWithColdUser(P, c.sparse(n, m + k + 1), cold_item_features=np.zeros((k, 2)))
    with c.raises("mask of another shape accepted"): EvaluatorWithColdUser(P, c.sparse(n, m + k), masked_interactions=c.sparse(n, m + k + 1), cold_item_features=np.zeros((k, 2)))
    with c.raises("mask of another shape accepted"): EvaluatorWithColdUser(P, c.sparse(n, m), masked_interactions=c.sparse(n + 1, m))
    for d in (-1, 1, k):
        if m + d >= 1 and d:
            mod = Cold(c.sparse(2, m + d), c.rng.randn(m, m), c.rng.randn(m, 2), "ok")
            for kw, T in (({}, m), (dict(cold_item_features=np.zeros((k, 2))), m + k)):
                ev = EvaluatorWithColdUser(P, c.sparse(n, T, density=0.5), cutoff=1, n_threads=1, **kw)
                with c.raises("model trained on %d items accepted for %d-item profiles" % (m + d, m)): ev.get_score(mod)

CASES = [case, case, case, errors]
MAXN = dict(quick=3000, thorough=60000)
