import numpy as np, scipy.sparse as sps
from irspack import DenseSLIMRecommender, EDLAERecommender
from irspack.utils import l1_normalize_row

def ref(X, reg, p):
    G = X.T.dot(X)
    P = np.linalg.inv(G + np.diag(np.full(len(G), reg) + p / (1 - p) * np.diag(G)))
    W = -P / np.diag(P)[None, :]
    np.fill_diagonal(W, 0)
    return W

def linear(c):
    n, m = c.integer(1, 12), c.integer(1, 8)
    X = c.sparse(n, m, density=c.pick([0.2, 0.5, 0.9]), values=c.pick(["bin", "pos"]))
    reg = c.pick([0.5, 1, 3.0, 20.0, 500.0]); p = c.pick([0.0, 0.1, 0.5, 0.9])
    ed = c.chance()
    kw = dict(reg=reg) if c.chance(0.85) else {}
    if ed and c.chance(0.85): kw["dropout_p"] = p
    c.note(X=X, edlae=ed, **kw)
    rec = (EDLAERecommender if ed else DenseSLIMRecommender)(X, **kw).learn()
    W = np.asarray(rec.W)
    Xd = X.toarray().astype(float)
    E = ref(Xd, kw.get("reg", 1.0), kw.get("dropout_p", 0.1) if ed else 0.0)
    c.expect(W.shape == (m, m), "weights have shape %r" % (W.shape,))
    c.expect(not np.any(np.diag(W)), "diagonal is %r" % np.diag(W))
    c.close(W, E, "weights", rtol=2e-3, atol=2e-4)
    c.equal(rec.X_train_all.toarray(), Xd, "training matrix modified")

def l1(c):
    n, m = c.integer(1, 7), c.integer(1, 7)
    X = c.sparse(n, m, values="pos", fmt="csc", dtype=c.pick([np.float64, np.float32]))
    if c.chance(0.2): X.data = np.ceil(X.data); X = X.astype(np.int64)
    elif c.chance(0.4):
        X.data *= c.rng.choice([-1, 1], size=X.data.shape[0])
        D = X.toarray().astype(float)
        r = np.abs(D.sum(1)) < 0.05 * np.abs(D).sum(1)      # rows without a usable sum
        X = sps.csc_matrix(sps.diags([np.where(r, 0.0, 1.0)], [0]).dot(X), dtype=X.dtype); X.eliminate_zeros()
    Xd = X.toarray().astype(float).copy()
    s = Xd.sum(1, keepdims=True); s[s == 0] = 1
    c.note(X=X)
    R = l1_normalize_row(X)
    c.close(R.toarray(), Xd / s, "row-normalised matrix", rtol=1e-6)
    c.expect(R.nnz == X.nnz, "stored entries changed"); c.equal(X.toarray().astype(float), Xd, "input modified")

CASES = [linear, linear, l1]
MAXN = dict(quick=4000, thorough=60000)
