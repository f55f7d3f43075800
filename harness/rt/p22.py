import numpy as np, pandas as pd
from core import ref_aggregate
try:
    from irspack.evaluation import evaluate_recommendation_df
except ImportError:
    from irspack.evaluation.evaluate_df_to_df import evaluate_recommendation_df
from irspack.evaluation._core_evaluator import evaluate_list_vs_list

NM = ["hit", "recall", "ndcg", "map", "precision", "gini_index", "entropy", "appeared_item", "valid_user", "total_user", "n_items"]
def compare(c, got, exp):
    for k in NM:
        c.expect(k in got, "metric %s missing" % k, got=dict(got))
        c.expect(abs(got[k] - exp[k]) <= 1e-9 * max(1, abs(exp[k])), "%s = %r, definition gives %r" % (k, got[k], exp[k]), got=dict(got))

def frames(c):
    nu, ni = c.integer(1, 6), c.integer(1, 7)
    users, items = c.ids(nu), c.ids(ni)
    rec, gt = [], []
    for u in users:
        if c.chance(0.8): rec += [(u, items[j]) for j in c.rng.permutation(ni)[: c.integer(0, ni)]]
        if c.chance(0.8): gt += [(u, items[j]) for j in c.rng.permutation(ni)[: c.integer(0, ni)]]
    if c.chance(0.3) and gt: gt.append(gt[0])
    if c.chance(0.3) and rec:
        for _ in range(c.integer(1, 3)): rec.insert(c.integer(0, len(rec)), rec[c.integer(0, len(rec) - 1)])
    def interleave(rows):
        by = {}
        for r in rows: by.setdefault(r[0], []).append(r)
        q = [r[0] for r in rows]; c.rng.shuffle(q); out = []
        for u in q: out.append(by[u].pop(0))
        return out
    if c.chance(0.7): rec = interleave(rec)
    if c.chance(0.7): c.rng.shuffle(gt); gt = [tuple(x) for x in gt] if not gt or isinstance(gt[0], tuple) else gt
    uc, ic = c.pick([("user", "item"), ("userId", "i"), ("a", "b"), ("user id", "item-id"), ("_u", "class")])
    mk = lambda rows: pd.DataFrame({uc: pd.Series([r[0] for r in rows], dtype=object if isinstance(users[0], str) else "int64"), ic: pd.Series([r[1] for r in rows], dtype=object if isinstance(items[0], str) else "int64")})
    A, B = mk(rec), mk(gt)
    if c.chance(0.4): A["extra"] = np.arange(len(A)); A = A[[ic, "extra", uc]]
    if c.chance(0.3): B["rating"] = 1.0
    if c.chance(0.3): A.index = c.rng.permutation(len(A)) + 5
    if c.chance(0.2) and len(A): A.index = [0] * len(A)
    c.note(recommendation=A, truth=B, columns=(uc, ic))
    both = [u for u in users if any(r[0] == u for r in rec) and any(g[0] == u for g in gt)]
    A0, B0 = A.copy(), B.copy()
    got = evaluate_recommendation_df(A, B, uc, ic, n_threads=c.pick([1, 2, 4]))
    used = {r[1] for r in rec if r[0] in both} | {g[1] for g in gt if g[0] in both}
    pos = {x: k for k, x in enumerate(sorted(used))}
    pairs = [([pos[r[1]] for r in rec if r[0] == u], {pos[g[1]] for g in gt if g[0] == u}) for u in both]
    compare(c, got, ref_aggregate(pairs, len(used), len(both)))
    c.expect(A.equals(A0) and B.equals(B0), "input table modified")

def lists(c):
    m, n = c.integer(1, 6), c.integer(0, 8)
    rec = [[int(x) for x in c.rng.permutation(m)[: c.integer(0, m)]] for _ in range(n)]
    gt = [[int(x) for x in c.rng.permutation(m)[: c.integer(1, m)]] for _ in range(n)]
    c.note(rec=rec, gt=gt, n_items=m)
    for th in (1, c.integer(2, 5)):
        compare(c, evaluate_list_vs_list(rec, gt, m, th).as_dict(), ref_aggregate([(r, set(g)) for r, g in zip(rec, gt)], m, n))
    with c.raises("lists of different length accepted"): evaluate_list_vs_list(rec + [[0]], gt, m, 1)
    with c.raises("recommended index out of range accepted"): evaluate_list_vs_list(rec + [[m]], gt + [[0]], m, 1)
    with c.raises("truth index out of range accepted"): evaluate_list_vs_list(rec + [[0]], gt + [[m]], m, 1)

CASES = [frames, frames, frames, lists]
MAXN = dict(quick=2500, thorough=40000)
