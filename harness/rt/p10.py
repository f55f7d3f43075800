import numpy as np, scipy.sparse as sps
from irspack.recommenders import base as B
from irspack.utils.id_mapping import ItemIDMapper, IDMapper
from core import NINF
from p08 import check_list, idlist, draw_cutoff

class Fake(B.BaseRecommender, register_class=False):
    def __init__(self, X, S, W):
        super().__init__(X); self.S, self.Wm = S, W
    def _learn(self): pass
    def get_score(self, ui): return self.S[ui].copy()
    def get_score_block(self, b, e): return self.S[b:e].copy()
    def get_score_cold_user(self, X): return np.asarray(sps.csr_matrix(X).dot(self.Wm)) + self.bias
    bias = 0.0

def make(c, n, m):
    X = c.sparse(n, m, values="pos")
    S = c.rng.permutation(n * m).reshape(n, m).astype(c.pick([np.float64, np.float32])) + 0.5
    W = c.rng.randn(m, m)
    r = Fake(X, S, W); r.bias = c.rng.randn(m)
    return r, X, S, W

def masked(S, X):
    R = np.array(S, dtype=S.dtype, copy=True); R[X != 0] = NINF
    return R

def opts(c, ids, n):
    al = idlist(c, ids, False) if c.chance(0.4) else None
    pu = [idlist(c, ids, False) for _ in range(n)] if c.chance(0.4) else None
    fb = [idlist(c, ids, True) for _ in range(n)] if c.chance(0.4) else None
    return al, pu, fb

def known(c):
    n, m = c.integer(1, 6), c.integer(1, 6)
    rec, X, S, W = make(c, n, m)
    uids, iids = c.ids(n), c.ids(m)
    mp = IDMapper(list(uids), list(iids))
    M = masked(S, X.toarray())
    cutoff = draw_cutoff(c, m)
    c.note(user_ids=uids, item_ids=iids, X=X, S=S, cutoff=cutoff)
    u = c.integer(0, n - 1)
    al, _, fb = opts(c, iids, 1)
    kw = dict(cutoff=cutoff) if c.chance(0.8) else {}
    got = mp.recommend_for_known_user_id(rec, uids[u], allowed_item_ids=al, forbidden_item_ids=fb and fb[0], **kw)
    check_list(c, got, M[u], iids, kw.get("cutoff", 20), al, fb and fb[0], "known user %r" % (uids[u],))
    k = c.integer(1, n + 2)
    ix = c.rng.randint(0, n, k)
    al, pu, fb = opts(c, iids, k)
    c.note(batch=[uids[j] for j in ix], allowed=al, per_user=pu, forbidden=fb)
    got = mp.recommend_for_known_user_batch(rec, [uids[j] for j in ix], allowed_item_ids=al, per_user_allowed_item_ids=pu, forbidden_item_ids=fb, n_threads=c.pick([1, 2, 3]), **kw)
    c.expect(len(got) == k, "%d lists for %d users" % (len(got), k))
    for j, u in enumerate(ix):
        check_list(c, got[j], M[u], iids, kw.get("cutoff", 20), pu[j] if pu else al, fb[j] if fb else None, "batch position %d (user %r)" % (j, uids[u]))

def profile(c, iids):
    ids = idlist(c, iids, False)
    if c.chance():
        return ids
    return {i: c.pick([1, 2.5, 0.25, 5, -1.0, 3]) for i in ids}

def to_row(p, iids):
    row = np.zeros(len(iids)); seen = np.zeros(len(iids), bool)
    for j, i in enumerate(iids):
        if isinstance(p, dict):
            if i in p: row[j] = p[i]; seen[j] = True
        elif i in p:
            row[j] = 1.0; seen[j] = True
    return row

def close_list(c, got, row, iids, cutoff, al, fb, what):
    pos = {x: k for k, x in enumerate(iids)}
    # replace the listed scores by the reference ones where they agree to rounding
    fixed = []
    for i, s in got:
        if i in pos and abs(s - row[pos[i]]) <= 1e-9 * max(1, abs(row[pos[i]])): s = row[pos[i]]
        fixed.append((i, s))
    check_list(c, fixed, row, iids, cutoff, al, fb, what)

def new(c):
    n, m = c.integer(1, 5), c.integer(1, 7)
    rec, X, S, W = make(c, n, m)
    iids = c.ids(m)
    mp = ItemIDMapper(list(iids)) if c.chance() else IDMapper(c.ids(n), list(iids))
    k = c.integer(1, 5)
    ps = [profile(c, iids) for _ in range(k)]
    R = np.array([to_row(p, iids) for p in ps]).reshape(k, m)
    c.note(item_ids=iids, profiles=ps, W=W)
    mat = mp.list_of_user_profile_to_matrix(ps)
    c.equal(sps.csr_matrix(mat).toarray(), R, "profile matrix", got_shape=mat.shape)
    sc = R.dot(W) + rec.bias
    M = masked(sc, R)
    cutoff = draw_cutoff(c, m)
    al, pu, fb = opts(c, iids, k)
    c.note(cutoff=cutoff, allowed=al, per_user=pu, forbidden=fb)
    got = mp.recommend_for_new_user_batch(rec, ps, cutoff=cutoff, allowed_item_ids=al, per_user_allowed_item_ids=pu, forbidden_item_ids=fb, n_threads=c.pick([1, 2]))
    c.expect(len(got) == k, "%d lists for %d profiles" % (len(got), k))
    for j in range(k):
        close_list(c, got[j], M[j], iids, cutoff, pu[j] if pu else al, fb[j] if fb else None, "profile %d" % j)
        one = mp.recommend_for_new_user(rec, ps[j], cutoff=cutoff, allowed_item_ids=al, forbidden_item_ids=fb[j] if fb else None)
        close_list(c, one, M[j], iids, cutoff, al, fb[j] if fb else None, "single profile %d" % j)

def errors(c):
    n, m = c.integer(1, 5), c.integer(1, 5)
    rec, X, S, W = make(c, n, m)
    uids, iids = c.ids(n), c.ids(m)
    with c.raises("duplicate item ids accepted"): ItemIDMapper(iids + [iids[0]])
    with c.raises("duplicate item ids accepted"): IDMapper(uids, iids + [iids[-1]])
    with c.raises("duplicate user ids accepted"): IDMapper(uids + [uids[c.integer(0, n - 1)]], iids)
    mp = IDMapper(list(uids), list(iids))
    bad = "nobody" if isinstance(uids[0], str) else -10**7
    with c.raises("unknown user id accepted"): mp.recommend_for_known_user_id(rec, bad)
    with c.raises("unknown user id accepted in a batch"): mp.recommend_for_known_user_batch(rec, [uids[0], bad], n_threads=1)
    for d in (-1, 1):
        if n + d >= 1:
            r2 = make(c, n + d, m)[0]
            with c.raises("model with %d users accepted for %d user ids" % (n + d, n)): mp.recommend_for_known_user_id(r2, uids[0])
            with c.raises("model with %d users accepted for %d user ids" % (n + d, n)): mp.recommend_for_known_user_batch(r2, [uids[0]], n_threads=1)
        if m + d >= 1:
            r2 = make(c, n, m + d)[0]
            with c.raises("model with %d items accepted for %d item ids" % (m + d, m)): mp.recommend_for_new_user(r2, [iids[0]])
            with c.raises("model with %d items accepted for %d item ids" % (m + d, m)): mp.recommend_for_new_user_batch(r2, [[iids[0]]], n_threads=1)
            with c.raises("model with %d items accepted for %d item ids" % (m + d, m)): mp.recommend_for_known_user_id(r2, uids[0])
            with c.raises("model with %d items accepted for %d item ids" % (m + d, m)): mp.recommend_for_known_user_batch(r2, [uids[0]], n_threads=1)

CASES = [known, known, new, new, errors]
MAXN = dict(quick=4000, thorough=80000)
