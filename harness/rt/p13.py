from evalcommon import *
from irspack.evaluation._core_evaluator import EvaluatorCore

def ranking(c):
    n, m = c.integer(1, 6), c.integer(1, 8)
    S = tied_scores(c, n, m)
    G = c.sparse(n, m, density=c.pick([0.1, 0.4, 0.9]), explicit_zero=False)
    kw, al = recommendable(c, n, m)
    cutoff = c.integer(1, m)
    ths = [1, c.pick([2, 3, 4, 7])]
    c.note(S=S, G=G, recommendable=al, cutoff=cutoff, dtype=str(S.dtype))
    exp = ref_evaluate(S.astype(float), gt_sets(G), cutoff, al)
    for th in ths:
        ev = Evaluator(G, cutoff=cutoff, n_threads=th, **kw)
        cmp_metrics(c, ev.get_score_from_score_matrix(S), exp, "%d threads" % th, names=ALL)

def probe_list(c):
    """one user; the truth {i} alone reveals whether and where item i is listed"""
    m = c.integer(1, 8)
    S = tied_scores(c, 1, m)
    kw, al = recommendable(c, 1, m)
    cutoff = c.integer(1, m)
    allowed = range(m) if al is None else sorted(al[0])
    L = ref_rank(S[0].astype(float), allowed, cutoff)
    c.note(S=S, recommendable=al, cutoff=cutoff, expected_list=L)
    for i in range(m):
        G = np.zeros((1, m)); G[0, i] = 1
        d = Evaluator(sps.csr_matrix(G), cutoff=cutoff, n_threads=1, **kw).get_score_from_score_matrix(S)
        if i not in allowed:
            c.expect(d["valid_user"] == 0 and d["total_user"] == 1, "truth outside the recommendable items counted", got=d)
            continue
        c.expect(d["valid_user"] == 1, "user with truth not counted", got=d)
        c.expect((d["hit"] == 1) == (i in L), "item %d: listed=%r, expected list %r" % (i, d["hit"] == 1, L), got=d)
        if i in L:
            c.close(d["map"], 1 / (L.index(i) + 1), "item %d at the wrong position of %r" % (i, L))
        c.expect(d["appeared_item"] == len(L), "%r items listed, expected %d" % (d["appeared_item"], len(L)))

def offsets(c):
    n, m = c.integer(2, 7), c.integer(1, 6)
    G = c.sparse(n, m, density=0.5).tocsr().astype(np.float64)
    kw, al = recommendable(c, n, m)
    rec = [] if al is None else ([al[0]] if "recommendable_items" in kw else al)
    core = EvaluatorCore(G, [list(x) for x in rec])
    a = c.integer(0, n - 1); b = c.integer(a, n)
    S = tied_scores(c, b - a, m)
    f = core.get_metrics_f64 if S.dtype == np.float64 else core.get_metrics_f32
    cutoff = c.integer(1, m)
    c.note(G=G, offset=a, rows=b - a, S=S, recommendable=al, cutoff=cutoff)
    exp = ref_evaluate(S.astype(float), gt_sets(G)[a:b], cutoff, None if al is None else al[a:b])
    names = [k for k in ALL if k != "catalog_coverage"]
    cmp_metrics(c, f(S, cutoff, a, c.pick([1, 2, 5]), False).as_dict(), exp, "block", names=names)
    cmp_metrics(c, f(S, cutoff, a, 1, False).as_dict(), exp, "block again", names=names)

def rejected(c):
    n, m = c.integer(1, 5), c.integer(1, 5)
    G = c.sparse(n, m, density=0.5).tocsr().astype(np.float64)
    S = np.zeros((n, m))
    core = EvaluatorCore(G, [])
    for dt, A in (("f64", S), ("f32", S.astype(np.float32))):
        f = getattr(core, "get_metrics_" + dt)
        with c.raises("cutoff 0 accepted"): f(A, 0, 0, 1, False)
        with c.raises("cutoff above the number of items accepted"): f(A, m + 1, 0, 1, False)
        with c.raises("offset beyond the users accepted"): f(A[:0], 1, n, 1, False)
        with c.raises("rows beyond the users accepted"): f(A, 1, 1, 1, False)
        with c.raises("0 threads accepted"): f(A, 1, 0, 0, False)
        f(A, m, 0, 1, False)
    if True:
        with c.raises("item index out of range accepted"): EvaluatorCore(G, [[m]])
        with c.raises("duplicate recommendable items accepted"): EvaluatorCore(G, [[0, 0]])
        with c.raises("duplicate recommendable items accepted"): Evaluator(G, cutoff=1, recommendable_items=[m - 1, 0, m - 1])
        with c.raises("wrong number of recommendable lists accepted"): EvaluatorCore(G, [[0]] * (n + 1)) if n + 1 != 1 else None
        if n > 2:
            with c.raises("wrong number of recommendable lists accepted"): EvaluatorCore(G, [[0]] * (n - 1))
        with c.raises("wrong number of recommendable lists accepted"): Evaluator(G, per_user_recommendable_items=[[0]] * (n + 1))
        if n > 1:
            with c.raises("wrong number of recommendable lists accepted"): Evaluator(G, per_user_recommendable_items=[[0]])
            per = [[0] for _ in range(n)]; per[c.integer(0, n - 1)] = [m + c.integer(0, 2)]
            with c.raises("item index out of range accepted"): Evaluator(G, per_user_recommendable_items=per)
    with c.raises("cutoff above items accepted"): Evaluator(G, cutoff=m + 1, n_threads=1).get_score_from_score_matrix(S)

def many(c):
    n, m = c.integer(40, 120), c.integer(5, 30)
    S = tied_scores(c, n, m); G = c.sparse(n, m, density=0.2)
    kw, al = recommendable(c, n, m); cutoff = c.integer(1, m)
    exp = ref_evaluate(S.astype(float), gt_sets(G), cutoff, al)
    c.note(n=n, m=m, cutoff=cutoff)
    for th in (1, c.pick([2, 4, 8])):
        cmp_metrics(c, Evaluator(G, cutoff=cutoff, n_threads=th, **kw).get_score_from_score_matrix(S), exp, "%d threads" % th, names=ALL)

CASES = [ranking, probe_list, offsets, rejected, many]
MAXN = dict(quick=6000, thorough=100000)
