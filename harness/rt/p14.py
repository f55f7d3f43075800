from evalcommon import *

def keys(c):
    n, m = c.integer(1, 6), c.integer(1, 8)
    G = c.sparse(n, m, density=c.pick([0.1, 0.5])); X = c.sparse(n, m)
    S = tied_scores(c, n, m)
    kw, al = recommendable(c, n, m)
    cuts = [int(x) for x in c.rng.permutation(m)[: c.integer(0, m)] + 1]
    if cuts and c.chance(0.2): cuts = cuts + [cuts[0]]
    target = c.pick(["ndcg", "recall", "hit", "map", "precision"])
    cutoff = c.integer(1, m)
    cold = c.chance(0.3)
    ekw = dict(cutoff=cutoff, target_metric=target, n_threads=1, mb_size=c.pick([1, 3, 100]), **kw)
    c.note(G=G, X=X, S=S, cutoffs=cuts, cutoff=cutoff, target=target, recommendable=al, cold=cold)
    if cold:
        ev = EvaluatorWithColdUser(X, G, **ekw)
        pos = {tuple(r): None for r in X.toarray()}
        W = c.rng.randn(m, m)
        mod = Model(X, S, cold=lambda P: np.asarray(P.dot(W)))
        sc = fill_masked(np.asarray(X.dot(W)), X.toarray())
    else:
        ev = Evaluator(G, **ekw); mod = Model(X, S); sc = fill_masked(S, X.toarray())
    g = gt_sets(G)
    got = ev.get_scores(mod, cuts)
    want = {"%s@%d" % (k, q) for k in NAMES for q in cuts}
    c.expect(set(got) == want, "keys %r, expected %r" % (sorted(got), sorted(want)))
    for q in cuts: cmp_metrics(c, got, ref_evaluate(sc, g, q, al), "get_scores", "@%d" % q)
    exp = ref_evaluate(sc, g, cutoff, al)
    d = ev.get_score(mod)
    cmp_metrics(c, d, exp, "get_score")
    t = ev.get_target_score(mod)
    c.close(t, exp[target], "target score is not %s@%d" % (target, cutoff))
    ms = ev.get_scores_from_score_matrix(S, cuts)
    c.expect(set(ms) == want, "keys %r from a score matrix" % sorted(ms))
    cs = ev.get_scores_from_score_chunks([S], cuts)
    c.expect(set(cs) == want, "keys %r from score chunks" % sorted(cs))
    sm = fill_masked(S, X.toarray()) if cold else S.astype(float)
    for q in cuts:
        e = ref_evaluate(sm, g, q, al)
        cmp_metrics(c, ms, e, "matrix", "@%d" % q); cmp_metrics(c, cs, e, "chunks", "@%d" % q)
    e = ref_evaluate(sm, g, cutoff, al)
    cmp_metrics(c, ev.get_score_from_score_matrix(S), e, "matrix default"); cmp_metrics(c, ev.get_score_from_score_chunks([S]), e, "chunks default")

def coverage(c):
    n, m = c.integer(1, 7), c.integer(1, 8)
    G = c.sparse(n, m, density=0.5); S = tied_scores(c, n, m)
    kw, al = recommendable(c, n, m); cutoff = c.integer(1, m)
    d = Evaluator(G, cutoff=cutoff, n_threads=2, **kw).get_score_from_score_matrix(S)
    nrec = m if al is None else len({i for x in al for i in x})
    c.note(G=G, S=S, recommendable=al, cutoff=cutoff)
    if nrec == 0:
        c.expect(d["catalog_coverage"] != d["catalog_coverage"], "coverage %r with nothing recommendable" % d["catalog_coverage"])
    else:
        e = ref_evaluate(S.astype(float), gt_sets(G), cutoff, al)
        c.close(d["catalog_coverage"], e["appeared_item"] / nrec, "catalog coverage")

def bad_target(c):
    with c.raises("unknown target metric accepted"): Evaluator(c.sparse(2, 3), target_metric=c.pick(["nope", "gini_index", "NDCG", ""]))

CASES = [keys, keys, keys, coverage, coverage, bad_target]
MAXN = dict(quick=4000, thorough=60000)
