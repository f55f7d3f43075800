from evalcommon import *
from irspack.evaluation._core_evaluator import EvaluatorCore, Metrics

def direct(c):
    """lists are prescribed through the scores: user u's list is exactly rec[u]"""
    n, m = c.integer(1, 6), c.integer(1, 9)
    recs, S = [], np.full((n, m), -np.inf)
    for u in range(n):
        L = [int(x) for x in c.rng.permutation(m)[: c.integer(0, m)]]
        for r, i in enumerate(L): S[u, i] = 100 - r
        recs.append(L)
    G = c.sparse(n, m, density=c.pick([0.1, 0.4, 0.9])).tocsr().astype(np.float64)
    cutoff = c.integer(1, m); rwc = c.chance()
    core = EvaluatorCore(G, [])
    g = gt_sets(G)
    dt = c.pick(["f64", "f32"])
    A = S.astype(np.float64 if dt == "f64" else np.float32)
    c.note(S=S, G=G, cutoff=cutoff, recall_with_cutoff=rwc)
    met = lambda a, b: getattr(core, "get_metrics_" + dt)(np.ascontiguousarray(A[a:b]), cutoff, a, c.pick([1, 2]), rwc)
    exp = ref_aggregate([(recs[u][:cutoff], g[u]) for u in range(n) if g[u]], m, n, rwc)
    names = [k for k in ALL if k != "catalog_coverage"]
    whole = met(0, n).as_dict()
    cmp_metrics(c, whole, exp, "metrics", names=names)
    # merging any partition in any order equals the union
    cutsp = sorted(set([0, n] + [c.integer(0, n) for _ in range(2)]))
    parts = [met(a, b) for a, b in zip(cutsp, cutsp[1:])]
    order = c.rng.permutation(len(parts))
    tot = Metrics(m)
    for k in order: tot.merge(parts[k])
    cmp_metrics(c, tot.as_dict(), exp, "merged metrics", names=names)
    empty = Metrics(m).as_dict()
    cmp_metrics(c, empty, ref_aggregate([], m, 0), "empty metrics", names=names)

def single_user(c):
    m = c.integer(1, 12)
    L = [int(x) for x in c.rng.permutation(m)]
    gset = set(int(x) for x in c.rng.permutation(m)[: c.integer(1, m)])
    cutoff = c.integer(1, m); rwc = c.chance()
    S = np.zeros((1, m)); 
    for r, i in enumerate(L): S[0, i] = -r
    G = np.zeros((1, m)); G[0, list(gset)] = 1
    ev = Evaluator(sps.csr_matrix(G), cutoff=cutoff, n_threads=1, recall_with_cutoff=rwc)
    c.note(ranking=L, truth=sorted(gset), cutoff=cutoff, recall_with_cutoff=rwc)
    cmp_metrics(c, ev.get_score_from_score_matrix(S), ref_evaluate(S, [gset], cutoff, None, rwc), "one user", names=ALL)

def counts(c):
    """item statistics with many users so that counts vary"""
    n, m = c.integer(10, 60), c.integer(2, 10)
    S = c.rng.randn(n, m) + c.rng.randn(m) * c.pick([0, 1, 5])
    G = c.sparse(n, m, density=0.5)
    ev = Evaluator(G, cutoff=c.integer(1, m), n_threads=c.pick([1, 2, 4]))
    c.note(S=S, G=G, cutoff=ev.cutoff)
    cmp_metrics(c, ev.get_score_from_score_matrix(S), ref_evaluate(S, gt_sets(G), ev.cutoff), "metrics", names=ALL)

CASES = [direct, direct, single_user, counts]
MAXN = dict(quick=6000, thorough=100000)
