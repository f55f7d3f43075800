import io, warnings
import numpy as np, scipy.sparse as sps
from irspack import IALSRecommender
from irspack.recommenders import ials as I
from irspack.recommenders._ials_core import IALSModelConfigBuilder, IALSSolverConfigBuilder, IALSTrainer as Core, LossType, SolverType
from p19 import idx, block

def core_of(t):
    return next(v for v in vars(t).values() if isinstance(v, Core))

def spread(f):
    """reference value and its sensitivity to rounding of the inputs (f takes a relative perturbation)"""
    r = np.asarray(f(0.0), dtype=float)
    d = max((np.abs(np.asarray(f(e), dtype=float) - r).max() if r.size else 0.0) for e in (2e-7, -3e-7, 1e-6))
    return r, 30 * d

def close(c, a, b, what, extra=0.0):
    if not np.isfinite(extra): return
    if isinstance(b, tuple): b, e2 = b; extra = max(extra, e2)
    if not np.isfinite(extra) or extra > 0.05: return
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    c.close(a, b, what, rtol=1e-4, atol=1e-5 * max(1.0, np.abs(b).max() if b.size else 0) + extra)

def freq(Xd, a0, nu):
    U, M = Xd.shape
    nz = Xd != 0
    return float(((nz.sum(1) + a0 * M) ** nu).sum() + ((nz.sum(0) + a0 * U) ** nu).sum())

def settings(c):
    kw = dict(n_components=c.integer(1, 5), alpha0=c.pick([0.05, 0.3, 1.0]), reg=c.pick([1e-3, 0.05, 0.7]), nu=c.pick([0.0, 0.5, 1.0]),
              init_std=c.pick([0.1, 0.5]), solver_type=c.pick(["CG", "CHOLESKY", "IALSPP"]), max_cg_steps=c.integer(1, 4), ialspp_subspace_dimension=c.integer(1, 6),
              loss_type=c.pick(["IALSPP", "ORIGINAL"]), random_seed=c.integer(0, 99), n_threads=1, train_epochs=c.integer(1, 3),
              prediction_time_max_cg_steps=c.integer(1, 5), prediction_time_ialspp_iteration=c.integer(1, 4), confidence_scaling=c.pick(["none", "log"]), epsilon=c.pick([0.1, 1.0, 5.0]))
    if c.chance(0.4): kw["nu_star"] = c.pick([0.0, 1.0, 0.3])
    for k in list(kw):
        if k not in ("n_threads", "alpha0") and c.chance(0.1): kw.pop(k)
    return kw

DEF = dict(n_components=20, alpha0=0.0, reg=1e-3, nu=1.0, confidence_scaling="none", epsilon=1.0, init_std=0.1, solver_type="CG", max_cg_steps=3, ialspp_subspace_dimension=64,
           loss_type="IALSPP", nu_star=None, random_seed=42, train_epochs=16, prediction_time_max_cg_steps=5, prediction_time_ialspp_iteration=7,
           lambda_user_feature=0.0, lambda_item_feature=0.0, feature_warmup_epochs=0)

def scale(X, s, eps=0.0):
    X = sps.csr_matrix(X).astype(np.float64).copy()
    if eps: X.data = X.data * (1 + eps * np.cos(np.arange(X.nnz)))
    if s["confidence_scaling"] == "log": X.data = np.log(1 + X.data / s["epsilon"])
    return X.astype(np.float32)

def solver(s, pred):
    return (IALSSolverConfigBuilder().set_n_threads(s["n_threads"]).set_solver_type(getattr(SolverType, s["solver_type"]))
            .set_max_cg_steps(s["prediction_time_max_cg_steps"] if pred else s["max_cg_steps"])
            .set_ialspp_iteration(s["prediction_time_ialspp_iteration"] if pred else 1)
            .set_ialspp_subspace_dimension(s["ialspp_subspace_dimension"]).build())

def features(c, n, d, dense=None):
    F = np.round(c.rng.randn(n, d), 2)
    return F if (c.chance() if dense is None else dense) else sps.csr_matrix(F)

def fit(c):
    n, m = c.integer(2, 7), c.integer(2, 7)
    X = c.sparse(n, m, density=0.5, values=c.pick(["bin", "pos"]), fmt=c.pick(["csr", "csc"]))
    kw = settings(c)
    uf = itf = None
    if c.chance(0.4):
        du, di = c.integer(1, 3), c.integer(1, 3)
        if kw.get("solver_type", "CG") == "IALSPP": kw["solver_type"] = "CG"
        if c.chance(0.7): uf = features(c, n, du)
        if c.chance(0.7): itf = features(c, m, di)
        kw.update(lambda_user_feature=c.pick([0.1, 1.0]), lambda_item_feature=c.pick([0.2, 2.0]), feature_warmup_epochs=c.pick([0, 1]))
    X0 = X.copy()
    c.note(X=X, settings=kw, user_features=uf, item_features=itf)
    rec = IALSRecommender(X, user_features=uf, item_features=itf, **kw)
    for f in (rec.get_user_embedding, rec.get_item_embedding, lambda: rec.get_score(np.arange(1)), lambda: rec.get_score_block(0, 1), lambda: rec.get_score_cold_user(X)):
        with c.raises("used before training"): f()
    rec.learn()
    s = dict(DEF); s.update(kw)
    Xd = X.toarray().astype(float)
    reg = s["reg"]
    if s["nu_star"] is not None: reg = reg * freq(Xd, s["alpha0"], s["nu_star"]) / freq(Xd, s["alpha0"], s["nu"])
    cfg = (IALSModelConfigBuilder().set_K(s["n_components"]).set_init_stdev(s["init_std"]).set_alpha0(s["alpha0"]).set_reg(reg).set_nu(s["nu"])
           .set_loss_type(getattr(LossType, s["loss_type"])).set_random_seed(s["random_seed"]).set_lambda_user_feature(s["lambda_user_feature"])
           .set_lambda_item_feature(s["lambda_item_feature"]).set_feature_warmup_epochs(s["feature_warmup_epochs"]).build())
    f32 = lambda F, k: sps.csr_matrix((k, 0), dtype=np.float32) if F is None else (sps.csr_matrix(F, dtype=np.float32) if sps.issparse(F) else np.asarray(F, dtype=np.float32, order="C"))
    sc = solver(s, False)
    def train(eps):
        Xs = scale(X, s, eps)
        core = Core(cfg, Xs) if uf is None and itf is None else Core(cfg, Xs, f32(uf, n), f32(itf, m))
        for _ in range(s["train_epochs"]): core.step(sc)
        return core
    core = train(0.0)
    sens = spread(lambda e: np.vstack([train(e).user, train(e).item]))[1]
    U, V = np.array(rec.get_user_embedding()), np.array(rec.get_item_embedding())
    if not (np.isfinite(U).all() and np.isfinite(V).all()): return
    close(c, U, core.user, "user vectors (settings not passed on unchanged)", sens)
    close(c, V, core.item, "item vectors (settings not passed on unchanged)", sens)
    core = core_of(rec.trainer)  # the trained core itself from here on
    c.equal(rec.X_train_all.toarray().astype(float), Xd, "training matrix altered"); c.equal(X.toarray(), X0.toarray(), "caller's matrix altered")
    # scores are products
    ui = idx(c, n); a, b = block(c, n)
    close(c, rec.get_score(ui), U[ui].dot(V.T), "scores of known users")
    if b > a: close(c, rec.get_score_block(a, b), U[a:b].dot(V.T), "scores of a block")
    k = c.integer(1, 4)
    P = c.sparse(k, m, values=c.pick(["bin", "pos"]))
    Q = c.sparse(n, k, values=c.pick(["bin", "pos"]))
    P0, Q0 = P.copy(), Q.copy()
    sp = solver(s, True)
    eu, su = spread(lambda e: core.transform_user(scale(P, s, e), sp))
    close(c, rec.compute_user_embedding(P), eu, "new-user vectors", su)
    close(c, rec.get_score_cold_user(P), np.asarray(eu).dot(V.T), "scores of new users", su * 10)
    ei, si = spread(lambda e: core.transform_item(scale(Q, s, e), sp))
    close(c, rec.compute_item_embedding(Q), ei, "new-item vectors", si)
    close(c, rec.get_score_from_item_embedding(ui, np.asarray(ei)), U[ui].dot(np.asarray(ei).T), "scores of new items")
    E = c.rng.randn(2, s["n_components"]).astype(np.float32)
    close(c, rec.get_score_from_user_embedding(E), E.dot(V.T), "scores from user vectors")
    if uf is not None:
        F = features(c, k, uf.shape[1])
        ef, sf = spread(lambda e: core.transform_user_with_feature(scale(P, s, e), f32(F, k), sp))
        close(c, rec.compute_user_embedding(P, user_features=F), ef, "new-user vectors with features", sf)
        close(c, rec.get_score_cold_user(P, user_features=F), ef.dot(V.T), "new-user scores with features", sf * 10)
        e0 = np.asarray(core.transform_user_with_feature(sps.csr_matrix((k, m), dtype=np.float32), f32(F, k), sp))
        close(c, rec.get_score_cold_user_from_features(F), e0.dot(V.T), "feature-only user scores")
    if itf is not None:
        F = features(c, k, itf.shape[1])
        e0 = np.asarray(core.transform_item_with_feature(sps.csr_matrix((n, k), dtype=np.float32), f32(F, k), sp))
        close(c, rec.compute_item_embedding_from_features(F), e0, "feature-only item vectors")
        close(c, rec.get_score_from_item_features(ui, F), U[ui].dot(e0.T), "feature-only item scores")
        close(c, rec.get_score_cold_user_with_item_features(P, F), np.hstack([np.asarray(eu).dot(V.T), np.asarray(eu).dot(e0.T)]), "scores with additional items", su * 10)
        close(c, rec.get_score_cold_user_with_item_features(P, F[:0]), np.asarray(eu).dot(V.T), "scores with no additional item", su * 10)
    else:
        with c.raises("additional items scored by a model without item features", NotImplementedError): rec.get_score_cold_user_with_item_features(P, np.ones((1, 1)))
    c.equal(P.toarray(), P0.toarray(), "profile altered"); c.equal(Q.toarray(), Q0.toarray(), "item history altered")

def state(c):
    n, m = c.integer(2, 6), c.integer(2, 6)
    X = c.sparse(n, m, density=0.5, values="pos")
    kw = settings(c); kw["train_epochs"] = 1
    feat = c.chance()
    if feat and kw.get("solver_type", "CG") == "IALSPP": kw["solver_type"] = "CHOLESKY"
    fk = dict(user_features=features(c, n, 2), item_features=features(c, m, 3), lambda_user_feature=0.3, lambda_item_feature=0.4) if feat else {}
    c.note(X=X, settings=kw, features=feat)
    tr = IALSRecommender(X, **kw, **fk)._create_trainer()
    for _ in range(c.integer(0, 2)): tr.run_epoch()
    names = ["user", "item"] + (["user_feature_weight", "item_feature_weight"] if feat else [])
    want = {k: np.array(getattr(core_of(tr), k)) for k in names}
    buf = io.BytesIO(); tr.save_state(buf)
    for _ in range(c.integer(1, 2)): tr.run_epoch()
    other = IALSRecommender(X, **{**kw, "random_seed": 12345}, **fk)._create_trainer()
    for t, what in ((tr, "the same trainer"), (other, "a new trainer")):
        buf.seek(0); t.load_state(buf)
        for k in names: c.equal(np.array(getattr(core_of(t), k)), want[k], "%s not recovered in %s" % (k, what))

def rejected(c):
    X = c.sparse(3, 3, density=0.6)
    for kw in (dict(solver_type="XX"), dict(loss_type="XX"), dict(confidence_scaling="sqrt"), dict(solver_type="IALSPP", user_features=np.ones((3, 1))), dict(solver_type="IALSPP", item_features=np.ones((3, 1)))):
        with c.raises("%r accepted" % sorted(kw)): IALSRecommender(X, **kw)

CASES = [fit, fit, fit, fit, state, rejected]
MAXN = dict(quick=1500, thorough=20000)
