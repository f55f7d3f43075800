from evalcommon import *

def setup(c, n=None, m=None):
    n = n or c.integer(1, 9); m = m or c.integer(1, 7)
    G = c.sparse(n, m, values="pos", density=c.pick([0.15, 0.4, 0.8]))
    mask = c.sparse(n, m, values="pos", explicit_zero=c.chance(0.2)) if c.chance() else None
    kw, al = recommendable(c, n, m) if c.chance(0.4) else ({}, None)
    cuts = [c.integer(1, m) for _ in range(c.integer(1, 3))]
    mb = c.pick([1, 2, 3, 4, n, n + 1, 100, max(1, n - 1)])
    rwc = c.chance(0.3)
    c.note(G=G, mask=mask, recommendable=al, cutoffs=cuts, mb_size=mb, recall_with_cutoff=rwc)
    return n, m, G, mask, kw, al, cuts, mb, rwc

def model_case(c):
    n, m, G, mask, kw, al, cuts, mb, rwc = setup(c)
    off = c.pick([0, 0, 1, 2, 5]); extra = c.pick([0, 0, 1, 3])
    N = off + n + extra
    X = c.sparse(N, m, values="pos", explicit_zero=c.chance(0.2))
    S = tied_scores(c, N, m, ninf=c.chance(0.3))
    c.note(offset=off, X=X, S=S)
    mod = Model(X, S, block=c.chance())
    ev = Evaluator(G, offset=off, cutoff=cuts[0], masked_interactions=mask, n_threads=c.pick([1, 2, 3]), recall_with_cutoff=rwc, mb_size=mb, **kw)
    X0 = X.toarray().copy()
    M = X.toarray()[off:off + n] if mask is None else mask.toarray()
    sc = fill_masked(S[off:off + n], M)
    got = ev.get_scores(mod, cuts)
    for k in cuts:
        cmp_metrics(c, got, ref_evaluate(sc, gt_sets(G), k, al, rwc), "model", "@%d" % k)
    one = ev.get_score(mod)
    cmp_metrics(c, one, ref_evaluate(sc, gt_sets(G), cuts[0], al, rwc), "model (default cutoff)", names=ALL)
    c.equal(X.toarray(), X0, "training matrix modified")

def matrix_case(c):
    n, m, G, mask, kw, al, cuts, mb, rwc = setup(c)
    ev = Evaluator(G, offset=c.pick([0, 3]), cutoff=cuts[0], masked_interactions=mask, n_threads=c.pick([1, 2, 3]), recall_with_cutoff=rwc, mb_size=mb, **kw)
    S = tied_scores(c, n, m, ninf=c.chance(0.3))
    if c.chance(0.2): S = np.asfortranarray(S)
    S0 = S.copy()
    c.note(S=S)
    sc = fill_masked(S, np.zeros((n, m)) if mask is None else mask.toarray())
    exp = {k: ref_evaluate(sc, gt_sets(G), k, al, rwc) for k in cuts}
    got = ev.get_scores_from_score_matrix(S, cuts)
    for k in cuts: cmp_metrics(c, got, exp[k], "score matrix", "@%d" % k)
    cmp_metrics(c, ev.get_score_from_score_matrix(S), exp[cuts[0]], "score matrix (default cutoff)", names=ALL)
    c.equal(S, S0, "caller's score matrix modified")
    # chunk stream
    chunks = []; pos = 0
    while pos < n:
        k = min(n - pos, c.pick([0, 1, 1, 2, 3, n])); chunks.append(S[pos:pos + k] if c.chance(0.8) else S[pos:pos + k].copy()); pos += k
    if c.chance(0.3): chunks.append(S[:0])
    if c.chance(0.3): chunks.insert(0, S[:0])
    c.note(chunks=[x.shape[0] for x in chunks])
    mk = (lambda: iter(chunks)) if c.chance() else (lambda: chunks)
    got = ev.get_scores_from_score_chunks(mk(), cuts)
    for k in cuts: cmp_metrics(c, got, exp[k], "score chunks", "@%d" % k)
    cmp_metrics(c, ev.get_score_from_score_chunks(mk()), exp[cuts[0]], "score chunks (default cutoff)", names=ALL)
    c.equal(S, S0, "caller's score chunks modified")

def errors(c):
    n, m = c.integer(1, 6), c.integer(1, 5)
    G = c.sparse(n, m, density=0.5)
    ev = Evaluator(G, cutoff=1, n_threads=1, mb_size=c.pick([1, 2, 64]))
    S = c.rng.randn(n, m)
    f1 = lambda x: ev.get_score_from_score_chunks(x)
    f2 = lambda x: ev.get_scores_from_score_chunks(x, [1])
    for f in (f1, f2):
        with c.raises("stream with too few rows accepted"): f([S[:n - 1]] if n > 1 else [])
        with c.raises("stream with too many rows accepted"): f([S, S[:1]])
        with c.raises("stream with too many rows accepted"): f([np.vstack([S, S[:1]])])
        with c.raises("chunk with too many columns accepted"): f([np.hstack([S, S[:, :1]])])
        with c.raises("chunk with too few columns accepted"): f([S[:, :m - 1]])
        with c.raises("integer chunk accepted"): f([np.zeros((n, m), dtype=np.int64)])
        with c.raises("1-d chunk accepted"): f([S[0]])
        with c.raises("nested list accepted as a chunk"): f([S.tolist()])
        with c.raises("late bad chunk accepted"): f([S[:1], S[1:].astype(np.int32)] if n > 1 else [S.astype(np.int32)])
        with c.raises("empty chunk of wrong width accepted"): f([S, np.zeros((0, m + 1))])
    for g in (lambda x: ev.get_score_from_score_matrix(x), lambda x: ev.get_scores_from_score_matrix(x, [1])):
        with c.raises("matrix with too few rows accepted"): g(S[:n - 1])
        with c.raises("matrix with too many rows accepted"): g(np.vstack([S, S[:1]]))
        with c.raises("matrix with wrong width accepted"): g(np.hstack([S, S[:, :1]]))
        with c.raises("integer matrix accepted"): g(np.zeros((n, m), dtype=np.int64))
        with c.raises("half precision matrix accepted"): g(S.astype(np.float16))
    with c.raises("mask of another shape accepted"): Evaluator(G, masked_interactions=c.sparse(n + 1, m))
    with c.raises("mask of another shape accepted"): Evaluator(G, masked_interactions=c.sparse(n, m + 1))
    off = c.integer(0, 3)
    e2 = Evaluator(G, offset=off, cutoff=1, n_threads=1)
    with c.raises("model with too few users accepted"): e2.get_score(Model(c.sparse(max(off + n - 1, 1), m), np.zeros((max(off + n - 1, 1), m)))) if off + n > 1 else (_ for _ in ()).throw(ValueError())
    with c.raises("model with other items accepted"): e2.get_score(Model(c.sparse(off + n, m + 1), np.zeros((off + n, m + 1))))
    with c.raises("model with other items accepted"): e2.get_scores(Model(c.sparse(off + n, m + 1), np.zeros((off + n, m + 1))), [1])

def large(c):
    n = c.integer(120, 300); m = c.integer(3, 12)
    G = c.sparse(n, m, density=0.2); X = c.sparse(n, m, density=0.2)
    S = tied_scores(c, n, m)
    ev = Evaluator(G, cutoff=min(3, m), n_threads=2) if c.chance() else Evaluator(G, cutoff=min(3, m), n_threads=2, mb_size=c.integer(50, 130))
    c.note(n=n, m=m)
    e = ref_evaluate(fill_masked(S, X.toarray()), gt_sets(G), min(3, m))
    cmp_metrics(c, ev.get_score(Model(X, S)), e, "model", names=ALL)
    cmp_metrics(c, ev.get_score_from_score_matrix(S), ref_evaluate(S.astype(float), gt_sets(G), min(3, m)), "matrix", names=ALL)

CASES = [model_case, model_case, model_case, matrix_case, matrix_case, errors, large]
MAXN = dict(quick=3000, thorough=60000)
