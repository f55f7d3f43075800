import numpy as np, scipy.sparse as sps
from irspack.recommenders import base as B
from irspack import (TopPopRecommender, P3alphaRecommender, CosineKNNRecommender, DenseSLIMRecommender, CosineUserKNNRecommender, RP3betaRecommender, SLIMRecommender,
    JaccardKNNRecommender, TverskyIndexKNNRecommender, AsymmetricCosineKNNRecommender, AsymmetricCosineUserKNNRecommender, EDLAERecommender)

class Item(B.BaseSimilarityRecommender, register_class=False):
    def __init__(self, X, W): super().__init__(X); self.given = W
    def _learn(self): self._W = self.given
class User(B.BaseUserSimilarityRecommender, register_class=False):
    def __init__(self, X, U): super().__init__(X); self.given = U
    def _learn(self): self.U_ = self.given

def dn(x): return x.toarray() if sps.issparse(x) else np.asarray(x)
def tol(c, a, b, what, **kw):
    a = dn(a)
    c.expect(isinstance(a, np.ndarray) and a.shape == b.shape, "%s: shape %r, expected %r" % (what, a.shape, b.shape), **kw)
    c.close(a, b, what, rtol=1e-6, atol=1e-9 * max(1.0, float(np.abs(b).max()) if b.size else 1.0), **kw)

def idx(c, n):
    return c.rng.randint(0, n, c.integer(1, n + 2))

def block(c, n):
    a = c.integer(0, n); return a, c.integer(a, n)

def item_checks(c, rec, Xd, W, n, m):
    ui = idx(c, n); a, b = block(c, n)
    c.note(users=ui, block=(a, b))
    tol(c, rec.get_score(ui), Xd[ui].dot(W), "scores of known users")
    tol(c, rec.get_score_block(a, b), Xd[a:b].dot(W), "scores of a user block")
    P = c.sparse(c.integer(1, 4), m, values="any")
    c.note(profiles=P)
    tol(c, rec.get_score_cold_user(P), P.toarray().dot(W), "scores of new users")

def user_checks(c, rec, Xd, U, n, m):
    ui = idx(c, n); a, b = block(c, n)
    c.note(users=ui, block=(a, b))
    tol(c, rec.get_score(ui), U[ui].dot(Xd), "scores of known users")
    tol(c, rec.get_score_block(a, b), U[a:b].dot(Xd), "scores of a user block")

def item(c):
    n, m = c.integer(1, 6), c.integer(1, 6)
    X = c.sparse(n, m, values="any"); W = c.rng.randn(m, m); W[c.rng.rand(m, m) < 0.4] = 0
    f = c.pick([lambda w: w, sps.csr_matrix, sps.csc_matrix])
    rec = Item(X, f(W)).learn()
    c.note(X=X, W=W, weights=type(rec.W).__name__)
    item_checks(c, rec, X.toarray(), W, n, m)

def user(c):
    n, m = c.integer(1, 6), c.integer(1, 6)
    X = c.sparse(n, m, values="any"); U = c.rng.randn(n, n); U[c.rng.rand(n, n) < 0.4] = 0
    rec = User(X, sps.csr_matrix(U)).learn()
    c.note(X=X, U=U)
    user_checks(c, rec, X.toarray(), U, n, m)

def toppop(c):
    n, m = c.integer(1, 6), c.integer(1, 6)
    X = c.sparse(n, m, values=c.pick(["bin", "pos", "any"]))
    rec = TopPopRecommender(X)
    with c.raises("scores before training"): rec.get_score(np.arange(1))
    with c.raises("new-user scores before training"): rec.get_score_cold_user(X)
    rec.learn()
    s = X.toarray().sum(axis=0)
    ui = idx(c, n); P = c.sparse(c.integer(1, 4), m)
    c.note(X=X, users=ui)
    tol(c, rec.get_score(ui), np.tile(s, (len(ui), 1)), "popularity scores of known users")
    tol(c, rec.get_score_cold_user(P), np.tile(s, (P.shape[0], 1)), "popularity scores of new users")

MODELS = [(P3alphaRecommender, {}), (CosineKNNRecommender, {}), (DenseSLIMRecommender, None), (RP3betaRecommender, {}), (SLIMRecommender, {}), (JaccardKNNRecommender, {}),
          (TverskyIndexKNNRecommender, {}), (AsymmetricCosineKNNRecommender, {}), (EDLAERecommender, None), (CosineUserKNNRecommender, {}), (AsymmetricCosineUserKNNRecommender, {})]

def real(c):
    n, m = c.integer(2, 8), c.integer(2, 6)
    X = c.sparse(n, m, density=0.5, values=c.pick(["bin", "pos"]))
    K, kw = MODELS[c.round % len(MODELS)]
    rec = K(X, n_threads=c.pick([1, 2])) if kw is not None else K(X)
    c.note(X=X, model=K.__name__)
    isuser = isinstance(rec, B.BaseUserSimilarityRecommender)
    with c.raises("scores before training"): rec.get_score(np.arange(1))
    with c.raises("block scores before training"): rec.get_score_block(0, 1)
    with c.raises("weights before training"): (rec.U if isuser else rec.W)
    if not isuser:
        with c.raises("new-user scores before training"): rec.get_score_cold_user(X)
    c.expect(rec.learn() is rec, "learn() does not return the model")
    if isuser: user_checks(c, rec, X.toarray(), dn(rec.U), n, m)
    else: item_checks(c, rec, X.toarray(), dn(rec.W).astype(float), n, m)

CASES = [item, user, toppop, real]
MAXN = dict(quick=4000, thorough=60000)
