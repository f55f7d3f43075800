import numpy as np, scipy.sparse as sps
from irspack.recommenders._ials_core import IALSModelConfigBuilder, IALSSolverConfigBuilder, IALSTrainer as Core, LossType, SolverType

SOL = dict(CG=SolverType.CG, CHOLESKY=SolverType.CHOLESKY, IALSPP=SolverType.IALSPP)

def cfg(s):
    return (IALSModelConfigBuilder().set_K(s["K"]).set_init_stdev(s["std"]).set_alpha0(s["alpha0"]).set_reg(s["reg"]).set_nu(s["nu"])
            .set_loss_type(getattr(LossType, s["loss"])).set_random_seed(s["seed"]).set_lambda_user_feature(s.get("lu", 0.0))
            .set_lambda_item_feature(s.get("li", 0.0)).set_feature_warmup_epochs(s.get("warm", 0)).build())

def sol(kind, threads=1, cg=0, it=1, sub=2):
    return (IALSSolverConfigBuilder().set_n_threads(threads).set_solver_type(SOL[kind]).set_max_cg_steps(cg).set_ialspp_iteration(it).set_ialspp_subspace_dimension(sub).build())

COND = [1.0]

def regs(X, s): return s["reg"] * (s["alpha0"] * X.shape[1] + (X != 0).sum(1)) ** s["nu"]

def solve(X, V, s, prior=None):
    """argmin over the rows' vectors of the documented loss with the other side V fixed"""
    bias = 0.0 if s["loss"] == "IALSPP" else s["alpha0"]
    r = regs(X, s)
    out = np.zeros((X.shape[0], V.shape[1])); cond = 1.0
    for u in range(X.shape[0]):
        S = np.nonzero(X[u])[0]
        A = s["alpha0"] * V.T.dot(V) + (V[S].T * X[u, S]).dot(V[S]) + r[u] * np.eye(V.shape[1])
        b = V[S].T.dot(X[u, S] + bias)
        if prior is not None: b = b + r[u] * prior[u]
        out[u] = np.linalg.solve(A, b); cond = max(cond, np.linalg.cond(A))
    COND[0] = cond
    return out

def loss(X, U, V, s, pu=None, pv=None, wu=None, wv=None):
    bias = 0.0 if s["loss"] == "IALSPP" else s["alpha0"]
    P = U.dot(V.T); S = X != 0
    l = (np.where(S, X * P * P - 2 * (X + bias) * P + X + bias, 0)).sum() + s["alpha0"] * (P * P).sum()
    l += (regs(X, s)[:, None] * (U - (0 if pu is None else pu)) ** 2).sum() + (regs(X.T, s)[:, None] * (V - (0 if pv is None else pv)) ** 2).sum()
    if wu is not None: l += s["lu"] * (wu ** 2).sum()
    if wv is not None: l += s["li"] * (wv ** 2).sum()
    return l / 2

def draw(c, big=False):
    n, m = c.integer(1, 9), c.integer(1, 9)
    if big or c.chance(0.1): m = c.integer(60, 150)
    X = c.sparse(n, m, density=c.pick([0.2, 0.5, 0.95]), values=c.pick(["bin", "pos"]), fmt="csr").astype(np.float32)
    s = dict(K=c.integer(1, 5), std=c.pick([0.1, 0.6]), alpha0=c.pick([0.1, 0.4, 1.0]), reg=c.pick([0.1, 0.5, 1.3]), nu=c.pick([0.0, 0.5, 1.0]), loss=c.pick(["IALSPP", "ORIGINAL"]), seed=c.integer(0, 99))
    if c.chance(): X = X.T.tocsr()
    return X, X.toarray().astype(float), s

def near(c, got, exp, what, f=1.0):
    got, exp = np.asarray(got, dtype=float), np.asarray(exp, dtype=float)
    f = f * max(1.0, COND[0] / 50)  # rounding is amplified by the conditioning of the normal equations
    c.close(got, exp, what, rtol=2e-3, atol=f * 3e-4 * max(1.0, np.abs(exp).max() if exp.size else 1))

def exact(c):
    X, Xd, s = draw(c)
    th = c.pick([1, 2, 5])
    c.note(X=X, threads=th, **s)
    t = Core(cfg(s), X)
    for k in range(c.integer(1, 3)):
        V0 = np.array(t.item, dtype=float)
        t.step(sol("CHOLESKY", th))
        U = np.array(t.user, dtype=float)
        near(c, U, solve(Xd, V0, s), "user vectors after exact step %d" % k)
        near(c, t.item, solve(Xd.T, U, s), "item vectors after exact step %d" % k)
    near(c, t.compute_loss(sol("CHOLESKY", th)), loss(Xd, np.array(t.user, float), np.array(t.item, float), s), "loss value")

def iterative(c):
    X, Xd, s = draw(c)
    kind = c.pick(["CG", "IALSPP"]); th = c.pick([1, 3]); sub = c.pick([1, 2, 3, 8])
    c.note(X=X, solver=kind, threads=th, sub=sub, **s)
    t = Core(cfg(s), X)
    V0 = np.array(t.item, float)
    many = sol(kind, th, cg=25, it=200, sub=sub)
    def conv(D, got, other, what):
        got = np.array(got, dtype=float)
        c.expect(got.shape == (D.shape[0], s["K"]), "%s: shape %r" % (what, got.shape))
        a, b = loss(D, got, other, s), loss(D, solve(D, other, s), other, s)
        if COND[0] > 60: return  # iterative solvers need more rounds than run here
        c.expect(a <= b + 2e-3 * (1 + abs(b)), "%s (%s): loss %r, the optimum is %r" % (what, kind, a, b), got=got, optimum=solve(D, other, s))
    conv(Xd, t.transform_user(X, many), V0, "new-user vectors")
    conv(Xd.T, t.transform_item(X, many), np.array(t.user, float), "new-item vectors")
    t.step(many)
    conv(Xd, t.user, V0, "user vectors of a step")
    conv(Xd.T, t.item, np.array(t.user, float), "item vectors of a step")

def descent(c):
    X, Xd, s = draw(c)
    kind = c.pick(["CG", "IALSPP", "CHOLESKY"]); sub = c.pick([1, 2, 7])
    sc = sol(kind, c.pick([1, 2]), cg=c.integer(1, 3), it=1, sub=sub)
    c.note(X=X, solver=kind, sub=sub, **s)
    t = Core(cfg(s), X)
    prev = None
    for k in range(5):
        l = loss(Xd, np.array(t.user, float), np.array(t.item, float), s)
        c.expect(abs(t.compute_loss(sc) - l) <= 2e-3 * (1 + abs(l)), "loss reported %r, documented formula gives %r" % (t.compute_loss(sc), l))
        if prev is not None: c.expect(l <= prev * (1 + 1e-3) + 1e-3, "a %s step raised the loss from %r to %r" % (kind, prev, l))
        prev = l
        t.step(sc)

def feature(c):
    X, Xd, s = draw(c)
    n, m = Xd.shape
    fu, fi = c.integer(0, 3), c.integer(0, 3)
    mk = lambda r, k: (lambda F: F.astype(np.float32) if c.chance() else sps.csr_matrix(F.astype(np.float32)))(np.round(c.rng.randn(r, k), 2) * (c.rng.rand(r, k) < 0.7))
    F, G = mk(n, fu), mk(m, fi)
    s.update(lu=c.pick([0.3, 1.0]), li=c.pick([0.4, 2.0]), warm=c.pick([0, 0, 1]))
    kind = c.pick(["CHOLESKY", "CG"]); th = c.pick([1, 2])
    c.note(X=X, user_features=F, item_features=G, solver=kind, **s)
    t = Core(cfg(s), X, F, G)
    den = lambda M: np.asarray(M.toarray() if sps.issparse(M) else M, dtype=float)
    Fd, Gd = den(F), den(G)
    sc = sol(kind, th, cg=25)
    W = lambda: (np.array(t.user_feature_weight, float).reshape(fu, s["K"]), np.array(t.item_feature_weight, float).reshape(fi, s["K"]))
    for k in range(3):
        V0 = np.array(t.item, float); wu, wv = W()
        t.step(sc)
        U = np.array(t.user, float); nu_, nv_ = W()
        act = k >= s["warm"]
        near(c, U, solve(Xd, V0, s, Fd.dot(wu) if act and fu else None), "user vectors with features, step %d" % k, 3)
        near(c, t.item, solve(Xd.T, U, s, Gd.dot(wv) if act and fi else None), "item vectors with features, step %d" % k, 3)
        for D, Fm, M, w, lam, nm in ((Xd, Fd, U, nu_, s["lu"], "user"), (Xd.T, Gd, np.array(t.item, float), nv_, s["li"], "item")):
            if Fm.shape[1] == 0: continue
            r = regs(D, s)
            e = np.linalg.solve((Fm.T * r).dot(Fm) + lam * np.eye(Fm.shape[1]), (Fm.T * r).dot(M)) if act else np.zeros_like(w)
            near(c, w, e, "%s feature weights, step %d" % (nm, k), 3)
    wu, wv = W()
    l = loss(Xd, np.array(t.user, float), np.array(t.item, float), s, Fd.dot(wu) if fu else None, Gd.dot(wv) if fi else None, wu if fu else None, wv if fi else None)
    c.expect(abs(t.compute_loss(sc) - l) <= 2e-3 * (1 + abs(l)), "loss with features %r, formula gives %r" % (t.compute_loss(sc), l))

def blocks(c):
    X, Xd, s = draw(c)
    n = Xd.shape[0]
    t = Core(cfg(s), X); t.step(sol("CHOLESKY"))
    a = c.integer(0, n); b = c.integer(a, n); th = c.pick([1, 2, 7])
    c.note(X=X, begin=a, end=b, threads=th)
    near(c, t.user_scores(a, b, sol("CHOLESKY", th)), np.array(t.user, float)[a:b].dot(np.array(t.item, float).T), "scores of users %d..%d" % (a, b))
    with c.raises("block beyond the users accepted"): t.user_scores(0, n + 1, sol("CHOLESKY"))
    with c.raises("profile of wrong width accepted"): t.transform_user(sps.csr_matrix((2, Xd.shape[1] + 1), dtype=np.float32), sol("CHOLESKY"))

CASES = [exact, iterative, descent, feature, blocks]
MAXN = dict(quick=3000, thorough=40000)
