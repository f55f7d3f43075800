import numpy as np, scipy.sparse as sps
from core import *
from irspack.recommenders import base as B
from irspack.evaluation import Evaluator, EvaluatorWithColdUser

class Model(B.BaseRecommender, register_class=False):
    """A recommender whose scores are a given matrix."""
    def __init__(self, X, S, block=True, cold=None):
        super().__init__(X); self.S, self.block, self.cold = S, block, cold
    def _learn(self): pass
    def get_score(self, ui): return np.ascontiguousarray(self.S[ui].copy())
    def get_score_block(self, b, e):
        if not self.block: raise NotImplementedError()
        return self.S[b:e].copy()
    def get_score_cold_user(self, X): return self.cold(X)

def gt_sets(G):
    G = sps.csr_matrix(G)
    return [set(int(j) for j in G.indices[G.indptr[u]:G.indptr[u + 1]]) for u in range(G.shape[0])]

def tied_scores(c, n, m, dtype=None, ninf=True):
    dtype = dtype or c.pick([np.float64, np.float32])
    k = c.integer(0, 3)
    if k == 0: S = c.rng.randint(-2, 3, (n, m)).astype(dtype)
    elif k == 1: S = c.rng.randn(n, m).astype(dtype)
    elif k == 2: S = c.rng.permutation(n * m).reshape(n, m).astype(dtype)
    else: S = np.zeros((n, m), dtype)
    if ninf and c.chance(0.5): S[c.rng.rand(n, m) < c.pick([0.2, 0.6, 0.95])] = -np.inf
    return S

def recommendable(c, n, m, valid_only=True):
    """-> (kwargs for Evaluator, allowed per user or None)"""
    mode = c.pick(["none", "none", "common", "per", "permat", "both"])
    draw = lambda: [int(x) for x in c.rng.permutation(m)[: c.integer(0, m)]]
    if mode == "none" : return {}, None
    if mode == "common":
        r = draw(); return dict(recommendable_items=r), [r] * n
    if mode == "per":
        r = [draw() for _ in range(n)]; return dict(per_user_recommendable_items=r), r
    if mode == "permat":
        M = c.sparse(n, m, values="pos"); return dict(per_user_recommendable_items=M), [[int(j) for j in np.nonzero(row)[0]] for row in M.toarray()]
    r = draw(); return dict(recommendable_items=r, per_user_recommendable_items=[draw() for _ in range(n)]), [r] * n

def fill_masked(S, M):
    R = S.astype(np.float64).copy(); R[np.asarray(M) != 0] = -np.inf
    return R

ALL = NAMES + ["valid_user", "total_user", "n_items"]
