import numpy as np, scipy.sparse as sps
from irspack import (P3alphaRecommender, CosineKNNRecommender, CosineUserKNNRecommender, RP3betaRecommender,
    JaccardKNNRecommender, TverskyIndexKNNRecommender, AsymmetricCosineKNNRecommender, AsymmetricCosineUserKNNRecommender)
from irspack.recommenders import _knn
from irspack.utils import tf_idf_weight, okapi_BM_25_weight, remove_diagonal, sparse_mm_threaded

def weight(X, scheme, k1, b):
    X = X.astype(float); N = X.shape[0]
    if scheme == "NONE": return X
    df = (X != 0).sum(axis=0)
    if scheme == "TF_IDF": return X * np.log(N / (df + 1.0))
    idf = np.log(N / (df + 1.0) + 1.0)
    dl = X.sum(axis=1); av = dl.sum() / N
    reg = k1 * (1 - b + b * dl / av) if av else np.full(N, k1)
    out = np.zeros_like(X); nz = X != 0
    full = idf[None, :] * (X * (k1 + 1)) / (X + reg[:, None])
    out[nz] = full[nz]
    return out

def sim(kind, T, Y, sh, **p):
    """rows of T against rows of Y"""
    if kind in ("cosine", "asym"):
        d = T.dot(Y.T)
        if kind == "cosine":
            if not p["normalize"]: return d
            return d / (np.sqrt((T**2).sum(1))[:, None] * np.sqrt((Y**2).sum(1))[None, :] + sh + 1e-6)
        a = p["alpha"]
        return d / (((T**2).sum(1) ** a)[:, None] * ((Y**2).sum(1) ** (1 - a))[None, :] + sh + 1e-6)
    Tb, Yb = (T != 0).astype(float), (Y != 0).astype(float)
    i = Tb.dot(Yb.T); nt = Tb.sum(1)[:, None]; ny = Yb.sum(1)[None, :]
    if kind == "jaccard": return i / (nt + ny - i + sh + 1e-6)
    return i / (i + p["alpha"] * (nt - i) + p["beta"] * (ny - i) + sh + 1e-6)

def check_topk(c, got, full, stored, k, what, diag, exact=False, rtol=1e-5):
    """got/full: rows; stored: structurally present entries; per row the k best stored entries are kept, then the diagonal is dropped"""
    for r in range(full.shape[0]):
        g = got[r]; f = full[r]
        scale = max(1e-12, np.abs(f).max()) if f.size else 1
        cand = [j for j in range(len(f)) if stored[r, j]]
        order = sorted(cand, key=lambda j: (-f[j], j))
        eps = 0 if exact else rtol * scale
        kth = f[order[k - 1]] if k <= len(order) and k > 0 else -np.inf
        for j in range(len(f)):
            if diag and j == r:
                c.expect(g[j] == 0, "%s: diagonal entry %d is %r" % (what, j, g[j])); continue
            must = j in order[:k] if exact else (stored[r, j] and (len(order) <= k or (k > 0 and f[j] > kth + eps)))
            may = j in order[:k] if exact else (stored[r, j] and k > 0 and f[j] >= kth - eps)
            if g[j] != 0:
                c.expect(may, "%s: entry (%d,%d)=%r is not among the %d best of %r" % (what, r, j, g[j], k, f.tolist()), row=g)
                c.expect(abs(g[j] - f[j]) <= rtol * abs(f[j]) + 1e-9 * scale, "%s: entry (%d,%d)=%r, formula gives %r" % (what, r, j, g[j], f[j]))
            else:
                c.expect(not must or abs(f[j]) <= 1e-12 * scale, "%s: entry (%d,%d)=%r of the %d best is missing" % (what, r, j, f[j], k), row=g, formula=f)
        kept = sum(1 for j in range(len(f)) if g[j] != 0)
        c.expect(kept <= k, "%s: row %d keeps %d > %d entries" % (what, r, kept, k))
        if not exact and len(order) > k and all(abs(f[j]) > eps for j in cand):
            want = k - (1 if diag and r in order[:k] and f[r] > kth + eps else 0)
            if not (diag and stored[r, r] and abs(f[r] - kth) <= eps):
                c.expect(kept >= want, "%s: row %d keeps %d entries, expected %d" % (what, r, kept, want), row=g, formula=f)

def params(c, kind):
    sh = c.pick([0.0, 0.0, 1.0, 7.5]); p = {}
    if kind == "cosine": p["normalize"] = c.chance()
    if kind == "asym": p["alpha"] = c.pick([0.0, 0.3, 0.5, 1.0])
    if kind == "tversky": p.update(alpha=c.pick([0.0, 0.5, 2.0]), beta=c.pick([0.0, 0.3, 1.5]))
    return sh, p

def knn(c):
    n, m = c.integer(1, 8), c.integer(1, 8)
    X = c.sparse(n, m, density=c.pick([0.3, 0.6]), values=c.pick(["bin", "pos", "pos"]))
    user = c.chance(0.35)
    kind = c.pick(["cosine", "asym"]) if user else c.pick(["cosine", "asym", "jaccard", "tversky"])
    K = {("cosine", 0): CosineKNNRecommender, ("asym", 0): AsymmetricCosineKNNRecommender, ("jaccard", 0): JaccardKNNRecommender, ("tversky", 0): TverskyIndexKNNRecommender,
         ("cosine", 1): CosineUserKNNRecommender, ("asym", 1): AsymmetricCosineUserKNNRecommender}[(kind, int(user))]
    sh, p = params(c, kind)
    kw = dict(p)
    scheme, k1, b = "NONE", 1.2, 0.75
    if kind in ("cosine", "asym") and c.chance(0.5):
        scheme = c.pick(["TF_IDF", "BM_25"]); kw["feature_weighting"] = scheme
        if scheme == "BM_25" and c.chance(): k1, b = c.pick([0.5, 2.0]), c.pick([0.1, 0.9]); kw.update(bm25_k1=k1, bm25_b=b)
    R = n if user else m
    top = c.pick([1, 2, 3, R, R + 2, c.integer(1, R + 1)])
    ths = [1, c.pick([2, 3, 5])]
    c.note(X=X, model=K.__name__, shrinkage=sh, top_k=top, threads=ths, **kw)
    Xd = X.toarray().astype(float)
    Xw = weight(Xd, scheme, k1, b)
    full = sim(kind, Xd, Xw, sh, **p) if user else sim(kind, Xd.T, Xw.T, sh, **p)
    st = (Xd != 0).astype(float).dot((Xd != 0).T.astype(float)) > 0 if user else (Xd != 0).T.astype(float).dot((Xd != 0).astype(float)) > 0
    outs = []
    for th in ths:
        rec = K(X, shrinkage=sh, top_k=top, n_threads=th, **kw).learn()
        W = (rec.U if user else rec.W)
        c.expect(W.shape == (R, R), "weights have shape %r" % (W.shape,))
        outs.append(W.toarray())
    exact = kind == "cosine" and not p["normalize"] and scheme == "NONE" and np.all(Xd == np.round(Xd))
    check_topk(c, outs[0], full, st, top, K.__name__, True, exact=exact)
    c.equal(outs[0], outs[1], "weights depend on the number of threads")
    c.equal(X.toarray(), Xd, "training matrix modified")

def walks(c):
    n, m = c.integer(1, 8), c.integer(1, 8)
    X = c.sparse(n, m, density=c.pick([0.3, 0.6]), values=c.pick(["bin", "pos"]))
    rp = c.chance(); al = c.pick([0.0, 0.5, 1, 2.0]); be = c.pick([0.0, 0.3, 0.6, 1.0])
    top = c.pick([None, 1, 2, m, m + 1]); norm = c.chance(0.3)
    c.note(X=X, rp3=rp, alpha=al, beta=be, top_k=top, normalize=norm)
    Xd = X.toarray().astype(float); nz = Xd != 0
    A = np.where(nz, np.power(np.where(nz, Xd, 1), al), 0)
    with np.errstate(all="ignore"):
        itu = np.where(nz, A / A.sum(0)[None, :], 0)       # user given item
        uti = np.where(nz, A / A.sum(1)[:, None], 0)       # item given user
        if rp: uti = np.where(nz, uti / (Xd.sum(0)[None, :] ** be), 0)
    full = itu.T.dot(uti)                                    # W[j, i]
    st = nz.T.astype(float).dot(nz.astype(float)) > 0
    outs = []
    for th in (1, c.pick([2, 3])):
        rec = RP3betaRecommender(X, alpha=al, beta=be, top_k=top, normalize_weight=norm, n_threads=th) if rp else P3alphaRecommender(X, alpha=al, top_k=top, normalize_weight=norm, n_threads=th)
        outs.append(rec.learn().W.toarray())
    c.equal(outs[0], outs[1], "weights depend on the number of threads")
    k = m if top is None else top
    if not norm:
        check_topk(c, outs[0].T, full.T, st.T, k, "random walk weights (per target item)", False)
    else:
        base = (RP3betaRecommender(X, alpha=al, beta=be, top_k=top, n_threads=1) if rp else P3alphaRecommender(X, alpha=al, top_k=top, n_threads=1)).learn().W.toarray()
        check_topk(c, base.T, full.T, st.T, k, "random walk weights (per target item)", False)
        s = base.sum(1, keepdims=True); s[s == 0] = 1
        c.close(outs[0], base / s, "normalised weights", rtol=1e-9)

def chunks(c):
    """the similarity computers: any chunk size and thread count give the same, rectangular targets included"""
    n, t, f = c.integer(1, 12), c.integer(1, 12), c.integer(1, 6)
    Y = c.sparse(n, f, density=0.5, values="pos", fmt="csr").astype(float); T = c.sparse(t, f, density=0.5, values="pos", fmt="csr").astype(float)
    kind = c.pick(["cosine", "asym", "jaccard", "tversky"])
    sh, p = params(c, kind)
    mk = {"cosine": lambda th, ch: _knn.CosineSimilarityComputer(Y, sh, p["normalize"], th, ch), "asym": lambda th, ch: _knn.AsymmetricSimilarityComputer(Y, sh, p["alpha"], th, ch),
          "jaccard": lambda th, ch: _knn.JaccardSimilarityComputer(Y, sh, th, ch), "tversky": lambda th, ch: _knn.TverskyIndexComputer(Y, sh, p["alpha"], p["beta"], th, ch)}[kind]
    top = c.pick([1, 2, n, n + 1])
    c.note(Y=Y, T=T, kind=kind, shrinkage=sh, top_k=top, **p)
    base = mk(1, 128).compute_similarity(T, top).toarray()
    full = sim(kind, T.toarray(), Y.toarray(), sh, **p)
    st = (T.toarray() != 0).astype(float).dot((Y.toarray() != 0).T.astype(float)) > 0
    check_topk(c, base, full, st, top, kind, False)
    for th, ch in ((1, 1), (1, c.integer(1, 5)), (c.integer(2, 5), c.integer(1, 5)), (t + 3, 128)):
        c.equal(mk(th, ch).compute_similarity(T, top).toarray(), base, "result depends on threads (%d) or chunk size (%d)" % (th, ch))
    with c.raises("target with another number of features accepted"): mk(1, 128).compute_similarity(c.sparse(2, f + 1, fmt="csr").astype(float), 1)

def weights(c):
    n, m = c.integer(1, 6), c.integer(1, 6)
    X = c.sparse(n, m, density=c.pick([0.4, 0.8]), values="pos", fmt="csr").astype(float)
    if X.nnz == 0: return
    Xd = X.toarray().copy()
    c.note(X=X)
    c.close(tf_idf_weight(X).toarray(), weight(Xd, "TF_IDF", 0, 0), "tf-idf")
    df = (Xd != 0).sum(0)
    with np.errstate(all="ignore"):
        e = np.where(Xd != 0, Xd * np.log(n / df.astype(float)), 0)
    c.close(tf_idf_weight(X, False).toarray(), e, "unsmoothed tf-idf")
    k1, b = c.pick([(1.2, 0.75), (0.3, 0.2), (3.0, 1.0)])
    c.close(okapi_BM_25_weight(X, k1, b).toarray(), weight(Xd, "BM_25", k1, b), "BM25")
    c.close(okapi_BM_25_weight(X).toarray(), weight(Xd, "BM_25", 1.2, 0.75), "BM25 defaults")
    S = c.sparse(m, m, values="any", fmt="csr").astype(float); Sd = S.toarray()
    e = Sd.copy(); np.fill_diagonal(e, 0)
    c.equal(remove_diagonal(S).toarray(), e, "remove_diagonal")
    c.equal(S.toarray(), Sd, "input of remove_diagonal modified"); c.equal(X.toarray(), Xd, "input modified")
    with c.raises("non-square matrix accepted"): remove_diagonal(c.sparse(2, 3, fmt="csr").astype(float))
    A = c.sparse(c.pick([1, 5, 17, 40]), m, values="any", fmt="csr").astype(float); B = c.sparse(m, c.integer(1, 6), values="any", fmt="csc").astype(float)
    for th in (1, c.integer(2, 6)):
        c.close(sparse_mm_threaded(A, B, th), A.toarray().dot(B.toarray()), "threaded product with %d threads" % th, rtol=1e-9, atol=1e-9)
    with c.raises("0 threads accepted"): sparse_mm_threaded(A, B, 0)

def rejected(c):
    X = c.sparse(3, 4, density=0.7, fmt="csr").astype(float)
    bad = [lambda: CosineKNNRecommender(X, shrinkage=-0.1, n_threads=1).learn(), lambda: JaccardKNNRecommender(X, shrinkage=-1, n_threads=1).learn(),
           lambda: AsymmetricCosineKNNRecommender(X, alpha=-0.01, n_threads=1).learn(), lambda: AsymmetricCosineKNNRecommender(X, alpha=1.01, n_threads=1).learn(),
           lambda: TverskyIndexKNNRecommender(X, alpha=-0.1, n_threads=1).learn(), lambda: TverskyIndexKNNRecommender(X, beta=-0.1, n_threads=1).learn(),
           lambda: P3alphaRecommender(X, alpha=-0.1, n_threads=1).learn(), lambda: RP3betaRecommender(X, alpha=-0.1, n_threads=1).learn(), lambda: RP3betaRecommender(X, beta=-0.1, n_threads=1).learn(),
           lambda: CosineKNNRecommender(X, n_threads=0).learn(), lambda: CosineUserKNNRecommender(X, shrinkage=-2.0, n_threads=1).learn(), lambda: AsymmetricCosineUserKNNRecommender(X, alpha=1.5, n_threads=1).learn(),
           lambda: CosineKNNRecommender(X, feature_weighting="XX", n_threads=1), lambda: CosineUserKNNRecommender(X, feature_weighting="XX", n_threads=1),
           lambda: _knn.CosineSimilarityComputer(X, 0.0, True, 1, 0), lambda: _knn.JaccardSimilarityComputer(X, 0.0, 0, 1)]
    for k, f in enumerate(bad):
        with c.raises("invalid parameters accepted (case %d)" % k): f()

def many(c):
    """more rows than the internal chunk"""
    n, m = c.integer(4, 10), c.integer(130, 300)
    X = c.sparse(n, m, density=0.2, values=c.pick(["bin", "pos"]))
    top = c.pick([1, 5, 50, 400])
    c.note(n=n, m=m, top_k=top)
    Xd = X.toarray().astype(float)
    outs = [CosineKNNRecommender(X, normalize=True, top_k=top, n_threads=th).learn().W.toarray() for th in (1, 3)]
    c.equal(outs[0], outs[1], "weights depend on the number of threads")
    full = sim("cosine", Xd.T, Xd.T, 0.0, normalize=True)
    st = (Xd != 0).T.astype(float).dot((Xd != 0).astype(float)) > 0
    g = outs[0]
    kept = g != 0
    c.expect(bool(np.all(kept.sum(1) <= top)), "more than %d entries kept" % top)
    c.expect(bool(np.allclose(g[kept], full[kept], rtol=1e-5)), "kept entries differ from the formula")
    F = np.where(st, full, -1.0); F2 = -np.sort(-F, axis=1)
    kth = F2[:, min(top, m) - 1]
    must = st & (F > kth[:, None] + 1e-7); np.fill_diagonal(must, False)
    may = st & (F >= kth[:, None] - 1e-7)
    c.expect(not np.any(must & ~kept), "one of the best entries is missing"); c.expect(not np.any(kept & ~may), "an entry below the best is kept")
    c.expect(not np.any(np.diag(g)), "non-zero diagonal")

CASES = [knn, knn, knn, walks, chunks, weights, rejected, many]
MAXN = dict(quick=4000, thorough=60000)
