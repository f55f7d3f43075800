import numpy as np
from irspack import SLIMRecommender

def fit(X, **kw): return SLIMRecommender(X, **kw).learn().W.toarray().astype(float)

def topk(c):
    n, m = c.integer(2, 12), c.integer(1, 14)
    X = c.sparse(n, m, density=c.pick([0.3, 0.6]), values=c.pick(["bin", "pos"]))
    kw = dict(alpha=c.pick([1e-3, 0.05, 0.5]), l1_ratio=c.pick([0.0, 0.01, 0.3]), positive_only=c.chance(), n_iter=c.pick([1, 5, 50]), n_threads=1)
    k = c.pick([1, 2, 3, m, m + 2])
    c.note(X=X, top_k=k, **kw)
    full = fit(X, **kw)
    c.expect(full.shape == (m, m), "shape %r" % (full.shape,))
    c.expect(not np.any(np.diag(full)), "non-zero diagonal %r" % np.diag(full))
    if kw["positive_only"]: c.expect(bool(np.all(full >= 0)), "negative weight", W=full)
    W = fit(X, top_k=k, **kw)
    for j in range(m):
        f, g = full[:, j], W[:, j]
        nz = [i for i in range(m) if f[i] != 0]
        kept = [i for i in range(m) if g[i] != 0]
        c.expect(len(kept) == min(k, len(nz)), "item %d keeps %d coefficients of %d with top_k=%d" % (j, len(kept), len(nz), k), W=W, unrestricted=full)
        for i in kept: c.expect(g[i] == f[i], "coefficient (%d,%d)=%r, solution has %r" % (i, j, g[i], f[i]), W=W, unrestricted=full)
        if kept:
            lo = min(f[i] for i in kept)
            for i in nz:
                if i not in kept: c.expect(f[i] <= lo, "larger coefficient (%d,%d)=%r dropped" % (i, j, f[i]), W=W, unrestricted=full)

def kkt(c):
    """the converged positive-only solution satisfies the optimality conditions of the documented loss"""
    n, m = c.integer(3, 12), c.integer(2, 10)
    X = c.sparse(n, m, density=0.5, values="bin")
    a, r, pos = c.pick([0.01, 0.1]), c.pick([0.0, 0.05, 0.5]), c.chance()
    W = fit(X, alpha=a, l1_ratio=r, positive_only=pos, n_iter=3000, tol=1e-9, n_threads=c.pick([1, 2, 3]))
    Xd = X.toarray().astype(float); G = Xd.T.dot(Xd); l2 = n * a * (1 - r); l1 = n * a * r
    c.note(X=X, alpha=a, l1_ratio=r, positive_only=pos)
    R = np.zeros((m, m))
    for _ in range(4000):
        old = R.copy()
        for i in range(m):
            rest = G[i] - G[i].dot(R) + G[i, i] * R[i]
            v = np.sign(rest) * np.maximum(np.abs(rest) - l1, 0) / (G[i, i] + l2)
            if pos: v = np.maximum(v, 0)
            v[i] = 0; R[i] = v
        if np.abs(R - old).max() < 1e-13: break
    def loss(w, j):
        return 0.5 * (G[j, j] - 2 * G[j].dot(w) + w.dot(G).dot(w)) + 0.5 * l2 * w.dot(w) + l1 * np.abs(w).sum()
    for j in range(m):
        c.expect(W[j, j] == 0, "non-zero diagonal")
        if pos: c.expect(bool(np.all(W[:, j] >= 0)), "negative weight")
        a_, b_ = loss(W[:, j], j), loss(R[:, j], j)
        c.expect(a_ <= b_ + 1e-4 * (1 + b_), "weights of item %d have loss %r, the optimum is %r" % (j, a_, b_), W=W, optimum=R)

def threads(c):
    """every target item is solved exactly once whatever the thread count (to solver tolerance)"""
    n, m = c.integer(5, 15), c.integer(5, 40)
    X = c.sparse(n, m, density=0.4, values="bin")
    kw = dict(alpha=0.1, l1_ratio=0.01, positive_only=c.chance(), n_iter=2000, tol=1e-8)
    c.note(X=X, **kw)
    A = fit(X, n_threads=1, **kw); B = fit(X, n_threads=c.integer(2, 8), **kw)
    c.close(A, B, "weights depend on the number of threads", rtol=1e-2, atol=2e-3)

def rejected(c):
    X = c.sparse(4, 4, density=0.5)
    for kw in (dict(alpha=-1.0), dict(alpha=1.0, l1_ratio=1.5), dict(alpha=1.0, l1_ratio=-0.5), dict(n_iter=0), dict(n_threads=0)):
        d = dict(n_threads=1); d.update(kw)
        with c.raises("invalid parameters %r accepted" % kw): fit(X, **d)

CASES = [topk, topk, kkt, threads, rejected]
MAXN = dict(quick=1500, thorough=20000)
