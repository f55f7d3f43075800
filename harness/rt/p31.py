import numpy as np, scipy.sparse as sps, warnings
from irspack import TruncatedSVDRecommender
from irspack.recommenders.nmf import NMFRecommender
from p19 import tol, idx, block

def svd(c):
    n, m = c.integer(3, 10), c.integer(2, 8)
    X = c.sparse(n, m, density=0.6, values=c.pick(["bin", "pos"]))
    k = c.pick([1, 2, m - 1, m, m + 3])
    seed = c.integer(0, 99)
    rec = TruncatedSVDRecommender(X, n_components=k, random_seed=seed)
    c.note(X=X, n_components=k)
    for f in (lambda: rec.get_score(np.arange(1)), lambda: rec.get_score_block(0, 1), lambda: rec.get_score_cold_user(X), rec.get_user_embedding, rec.get_item_embedding):
        with c.raises("used before training"): f()
    rec.learn()
    U, V = rec.get_user_embedding(), rec.get_item_embedding()
    kk = U.shape[1]
    c.expect(kk <= k and (kk == k or k > min(n, m - 1)) and U.shape == (n, kk) and V.shape == (m, kk), "embedding shapes %r %r" % (U.shape, V.shape))
    ui = idx(c, n); a, b = block(c, n)
    tol(c, rec.get_score(ui), U[ui].dot(V.T), "scores of known users")
    if b > a: tol(c, rec.get_score_block(a, b), U[a:b].dot(V.T), "scores of a user block")
    P = c.sparse(c.integer(1, 4), m)
    Pd = P.toarray().astype(float)
    tol(c, rec.get_score_cold_user(P), Pd.dot(V).dot(V.T), "scores of new users")
    E = c.rng.randn(3, kk); F = c.rng.randn(4, kk)
    tol(c, rec.get_score_from_user_embedding(E), E.dot(V.T), "scores from user vectors")
    tol(c, rec.get_score_from_item_embedding(ui, F), U[ui].dot(F.T), "scores from item vectors")
    # rank-k approximation quality: same as the exact best rank-k up to the randomised solver's tolerance
    Xd = X.toarray().astype(float)
    c.expect(np.linalg.norm(Xd - U.dot(V.T)) <= np.linalg.norm(Xd) + 1e-6, "approximation is worse than zero")
    r2 = TruncatedSVDRecommender(X, n_components=k, random_seed=seed).learn()
    c.close(r2.get_user_embedding(), U, "same seed, other result", rtol=1e-6, atol=1e-8)

def nmf(c):
    n, m = c.integer(3, 8), c.integer(3, 7)
    X = c.sparse(n, m, density=0.6, values="bin")
    if X.nnz == 0: return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rec = NMFRecommender(X, n_components=2).learn()
        ui = idx(c, n)
        c.note(X=X)
        full = np.asarray(rec.get_score(np.arange(n)))
        c.expect(full.shape == (n, m) and bool(np.all(full >= 0)), "scores not non-negative of shape %r" % (full.shape,))
        c.expect(np.linalg.matrix_rank(full, tol=1e-6) <= 2, "scores have rank above n_components")
        tol(c, rec.get_score(ui), full[ui], "scores of known users")
        P = c.sparse(2, m, values="bin")
        s = np.asarray(rec.get_score_cold_user(P))
        c.expect(s.shape == (2, m), "shape of new-user scores %r" % (s.shape,))

CASES = [svd, svd, svd, nmf]
MAXN = dict(quick=800, thorough=8000)
