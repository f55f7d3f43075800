import numpy as np, scipy.sparse as sps
from irspack.recommenders import base as B
from irspack import (TopPopRecommender, P3alphaRecommender, CosineKNNRecommender, DenseSLIMRecommender, IALSRecommender, CosineUserKNNRecommender, RP3betaRecommender, SLIMRecommender)

class Fake(B.BaseRecommender, register_class=False):
    def __init__(self, X, S, W, style):
        super().__init__(X); self.S, self.Wm, self.style = S, W, style
    def _learn(self): pass
    def get_score(self, ui):
        r = self.S[ui].copy()
        return sps.csr_matrix(r) if self.style == "sparse" else r
    def get_score_block(self, b, e):
        r = self.S[b:e].copy()
        return sps.csc_matrix(r) if self.style == "sparse" else r
    def get_score_cold_user(self, X):
        return np.asarray(X.dot(self.Wm))

def dense(x):
    return x.toarray() if sps.issparse(x) else np.asarray(x)

def compare(c, masked, raw, seen, what):
    masked, raw = dense(masked), dense(raw)
    c.expect(masked.shape == raw.shape, "%s: shape %r vs %r" % (what, masked.shape, raw.shape))
    for r in range(raw.shape[0]):
        for k in range(raw.shape[1]):
            if seen[r, k] != 0:
                c.expect(masked[r, k] == -np.inf, "%s: seen item %d of row %d has score %r" % (what, k, r, masked[r, k]), got=masked, unmasked=raw, seen=seen)
            else:
                ok = masked[r, k] == raw[r, k] or abs(masked[r, k] - raw[r, k]) <= 1e-6 * abs(raw[r, k]) or (raw[r, k] != raw[r, k] and masked[r, k] != masked[r, k])
                c.expect(ok, "%s: unseen item %d of row %d has score %r, unmasked %r" % (what, k, r, masked[r, k], raw[r, k]), got=masked, unmasked=raw, seen=seen)

def exercise(c, rec, X, n, m, what):
    Xd = X.toarray()
    ui = c.rng.randint(0, n, c.integer(0, n + 2)) if n else np.zeros(0, int)
    if ui.size or n:
        c.note(users=ui)
        compare(c, rec.get_score_remove_seen(ui), rec.get_score(ui), Xd[ui], what + " known users")
    a = c.integer(0, n); b = c.integer(a, n)
    try:
        raw = rec.get_score_block(a, b)
    except NotImplementedError:
        raw = None
    if raw is not None:
        raw = dense(raw).copy()
        c.note(block=(a, b))
        compare(c, rec.get_score_remove_seen_block(a, b), raw, Xd[a:b], what + " block")
    P = c.sparse(c.integer(1, 4), m, values="pos", explicit_zero=c.chance(0.3))
    try:
        raw = rec.get_score_cold_user(P)
    except NotImplementedError:
        return
    raw = dense(raw).copy()
    P0 = P.toarray().copy()
    c.note(profiles=P)
    compare(c, rec.get_score_cold_user_remove_seen(P), raw, P0, what + " new users")
    c.equal(P.toarray(), P0, "profiles modified")
    c.equal(rec.X_train_all.toarray(), Xd, "training matrix modified")

def fake(c):
    n, m = c.integer(1, 6), c.integer(1, 6)
    X = c.sparse(n, m, values="any", explicit_zero=c.chance(0.4))
    S = c.rng.randn(n, m); S[c.rng.rand(n, m) < 0.2] = 0.0
    style = c.pick(["dense", "sparse"])
    c.note(X=X, S=S, style=style)
    exercise(c, Fake(X, S, c.rng.randn(m, m), style), X, n, m, "model")

def real(c):
    n, m = c.integer(2, 8), c.integer(2, 6)
    X = c.sparse(n, m, density=0.5, values=c.pick(["bin", "pos"]))
    k = c.round % 8
    cls, kw = [(TopPopRecommender, {}), (P3alphaRecommender, dict(n_threads=1)), (CosineKNNRecommender, dict(n_threads=2)), (DenseSLIMRecommender, {}),
               (IALSRecommender, dict(n_components=2, train_epochs=1, n_threads=1)), (CosineUserKNNRecommender, dict(n_threads=1)), (RP3betaRecommender, dict(n_threads=1)), (SLIMRecommender, dict(n_threads=1))][k]
    c.note(X=X, model=cls.__name__)
    rec = cls(X, **kw); rec.learn()
    if cls is IALSRecommender:  # iterative solver: repeated calls agree, compare to float32 precision
        pass
    exercise(c, rec, X, n, m, cls.__name__)

CASES = [fake, fake, real]
MAXN = dict(quick=3000, thorough=40000)
