"""P26: IALSTrainer and IALSRecommender (everything but the C++ core and the tuning functions)"""
import types
import z3
from pyvc.core import *
from pyvc import rt
from pyvc.npmodel import sym_matrix, Arr, as_arr, int64, float32, sum_over
from pyvc.spmodel import sym_sparse

MOD = "irspack.recommenders.ials"


class Config:
    """what the builders were told"""

    def __init__(self, kind, d):
        self.kind, self.d = kind, dict(d)


class Builder:
    kind = None

    def __init__(self):
        self.d = {}

    def build(self):
        return Config(self.kind, self.d)

    def __getattr__(self, n):
        if not n.startswith("set_"):
            raise AttributeError(n)

        def put(v):
            self.d[n[4:]] = v
            return self
        return put


class ModelBuilder(Builder):
    kind = "model"


class SolverBuilder(Builder):
    kind = "solver"


def table(x):
    return (x.shape, x.snapshot())


class Core:
    """IALSTrainer of the C++ core: two embeddings; every call is recorded"""

    def __init__(self, config, X, uf=None, itf=None):
        self.config, self.X = config, table(X)
        self.uf, self.itf = (None if uf is None else (uf, table(uf))), (None if itf is None else (itf, table(itf)))
        K = config.d["K"]
        self.user, self.item = sym_matrix("user", (X.shape[0], K)), sym_matrix("item", (X.shape[1], K))
        self.user_feature_weight, self.item_feature_weight = sym_matrix("uw", (0 if uf is None else uf.shape[1], K)), sym_matrix("iw", (0 if itf is None else itf.shape[1], K))
        self.K, self.calls, self.steps = K, [], []

    def step(self, cfg):
        self.steps.append(cfg)

    def user_scores(self, b, e, cfg):
        self.calls.append(("user_scores", cfg))
        return self.user[b:e].dot(self.item.T)

    def _embed(self, what, n, X, F, cfg):
        r = sym_matrix(what, (n, self.K))
        self.calls.append((what, cfg, None if X is None else table(X), None if F is None else (F, table(F)), r))
        return r

    def transform_user(self, X, cfg):
        return self._embed("transform_user", X.shape[0], X, None, cfg)

    def transform_item(self, X, cfg):
        return self._embed("transform_item", X.shape[1], X, None, cfg)

    def transform_user_with_feature(self, X, F, cfg):
        return self._embed("transform_user_with_feature", X.shape[0], X, F, cfg)

    def transform_item_with_feature(self, X, F, cfg):
        return self._embed("transform_item_with_feature", X.shape[1], X, F, cfg)


class Pickle:
    HIGHEST_PROTOCOL = 5
    __name__ = "pickle"

    def dump(self, obj, f, protocol=None):
        f.append(rt.VDict({k: v.copy() for k, v in obj.items()}))

    def load(self, f):
        return f.pop(0)


SOLVERS, LOSSES = ["CG", "CHOLESKY", "IALSPP"], ["IALSPP", "ORIGINAL"]
VALUES = dict(n_components="int", alpha0="float", reg="float", nu="float", init_std="float", max_cg_steps="int", ialspp_subspace_dimension="int", random_seed="int", prediction_time_max_cg_steps="int",
              prediction_time_ialspp_iteration="int", lambda_user_feature="float", lambda_item_feature="float", feature_warmup_epochs="int", epsilon="float")


def run(V):
    core = types.SimpleNamespace(IALSModelConfigBuilder=ModelBuilder, IALSSolverConfigBuilder=SolverBuilder, IALSTrainer=Core,
                                 LossType=types.SimpleNamespace(**{x: x for x in LOSSES}), SolverType=types.SimpleNamespace(**{x: x for x in SOLVERS}), __name__="irspack.recommenders._ials_core")
    import typing
    L = V.loader({"irspack.recommenders._ials_core": core, "typing_extensions": typing, "pickle": Pickle()})
    m = L.load(MOD)
    E.use("pickle: load returns what dump was given")
    E.note("C++ training core (contract P28): keeps the configuration and matrices it is given, user_scores(b, e) = user[b:e] . item^T")
    E.note("learn() creates the trainer by _create_trainer and runs its epochs (contract P16)")

    def given(E, features):
        E.exact = True
        n, q = E.int("n_users", lo=1), E.int("n_items", lo=1)
        X = sym_sparse("X", (n, q), fmt=("csr", "csc")[E.choose(2, "format")] if not features else "csr")
        kw = {k: getattr(E, t)(k) for k, t in VALUES.items()}
        E.assume(kw["n_components"] >= 1)
        kw["n_threads"] = E.int("n_threads", lo=1)
        kw["confidence_scaling"] = ("none", "log")[E.choose(2, "scaling")]
        return n, q, X, kw

    log = lambda E, v: v

    def scaled(E, kw, v):
        """the documented scaling of a stored value"""
        if kw["confidence_scaling"] == "none":
            return v
        return ufun("log", SFloat(1 + flift(tofloat(v)).t / kw["epsilon"].t))

    def same_scaled(E, kw, src, got, i, j, name):
        """src: symbolic sparse before, got: (shape, snapshot) handed over"""
        E.prove(name + ": shape", sand(got[0][0] == src.shape[0], got[0][1] == src.shape[1]))
        v, st = src.raw()
        if E.decide(bterm(st(i, j))):
            E.prove(name + ": stored values", mkbool(same(tofloat(got[1](i, j)), tofloat(scaled(E, kw, v(i, j))))))
        else:
            E.prove(name + ": nothing else is stored", mkbool(same(tofloat(got[1](i, j)), 0.0)))

    def solver_ok(E, cfg, kw, solver, pred):
        d = cfg.d
        is_ = lambda k, v: k in d and mkbool(same(d[k], v))
        return sand(cfg.kind == "solver", is_("n_threads", kw["n_threads"]), d.get("solver_type") == solver, is_("max_cg_steps", kw["prediction_time_max_cg_steps" if pred else "max_cg_steps"]),
                    is_("ialspp_iteration", kw["prediction_time_ialspp_iteration"] if pred else 1), is_("ialspp_subspace_dimension", kw["ialspp_subspace_dimension"]))

    def positive(E, kw):
        E.assume(kw["epsilon"] > 0)

    def settings(E):
        n, q, X, kw = given(E, False)
        positive(E, kw)
        xs = X.snapshot()
        solver, loss = SOLVERS[E.choose(3, "solver")], LOSSES[E.choose(2, "loss")]
        out = E.attempt(m.IALSRecommender, X, solver_type=solver if E.choose(2, "case") else solver.lower(), loss_type=loss, **kw)
        E.prove("the settings are accepted", out.returned)
        if not out.returned:
            return
        rec = out.value
        for f in (rec.get_user_embedding, rec.get_item_embedding):
            E.prove("embeddings before training raise", E.attempt(f).raised(RuntimeError))
        t = rec._create_trainer()
        c = t.core_trainer
        d = c.config.d
        E.reach("settings")
        want = dict(K="n_components", init_stdev="init_std", alpha0="alpha0", reg="reg", nu="nu", random_seed="random_seed", lambda_user_feature="lambda_user_feature", lambda_item_feature="lambda_item_feature", feature_warmup_epochs="feature_warmup_epochs")
        for k, w in want.items():
            E.prove("setting %s reaches the core" % w, k in d and mkbool(same(d[k], kw[w])))
        E.prove("setting loss_type reaches the core", d.get("loss_type") == loss)
        t.run_epoch()
        E.prove("training uses the training-time solver settings", len(c.steps) == 1 and solver_ok(E, c.steps[0], kw, solver, False))
        i, j = E.int("i", lo=0, hi=n), E.int("j", lo=0, hi=q)
        same_scaled(E, kw, X, c.X, i, j, "interactions reach the core" + (" log-scaled" if kw["confidence_scaling"] == "log" else " as they are"))
        E.prove("no features reach the core", c.uf is None and c.itf is None)
        E.prove("the training matrix is not altered", sand(mkbool(same(X.at(i, j), xs(i, j))), mkbool(same(rec.X_train_all.at(i, j), xs(i, j)))))
    V.explore(MOD + ".IALSRecommender._create_trainer", settings)

    def feats(E, hint, n, dense):
        d = E.int("n_" + hint, lo=1)
        return sym_matrix(hint, (n, d)) if dense else sym_sparse(hint, (n, d), fmt="csr")

    def same_table(E, name, src, got):
        i, j = E.int("fi", lo=0, hi=src.shape[0]), E.int("fj", lo=0, hi=src.shape[1])
        E.prove(name, sand(got[0][0] == src.shape[0], got[0][1] == src.shape[1], mkbool(same(tofloat(got[1](i, j)), tofloat(src.at(i, j))))))

    def features(E):
        n, q, X, kw = given(E, True)
        positive(E, kw)
        which = E.choose(3, "features")
        uf = feats(E, "user_features", n, E.choose(2, "dense")) if which != 1 else None
        itf = feats(E, "item_features", q, E.choose(2, "dense items")) if which != 0 else None
        solver = SOLVERS[E.choose(3, "solver")]
        out = E.attempt(m.IALSRecommender, X, solver_type=solver, user_features=uf, item_features=itf, **kw)
        if solver == "IALSPP":
            E.reach("unsupported solver")
            E.prove("features with the IALSPP solver raise", out.raised(ValueError))
            return
        E.prove("features are accepted", out.returned)
        if not out.returned:
            return
        rec = out.value
        c = rec._create_trainer().core_trainer
        E.reach("features")
        for f, got, k, who in ((uf, c.uf, n, "user"), (itf, c.itf, q, "item")):
            if f is None:
                E.prove("without %s features an empty table is handed over" % who, got is not None and sand(got[1][0][0] == k, got[1][0][1] == 0))
            else:
                E.prove("%s features are handed over" % who, got is not None)
                if got is not None:
                    same_table(E, "%s features reach the core unchanged" % who, f, got[1])
    V.explore(MOD + ".IALSTrainer.__init__", features)

    def trained(E, feature=0):
        n, q, X, kw = given(E, True)
        positive(E, kw)
        fk = {}
        if feature & 1:
            fk["user_features"] = feats(E, "user_features", n, 1)
        if feature & 2:
            fk["item_features"] = feats(E, "item_features", q, 1)
        rec = m.IALSRecommender(X, solver_type="CG", **fk, **kw)
        t = rec.trainer = rec._create_trainer()
        return n, q, rec, t, t.core_trainer, kw

    def users(E, n):
        nr, uf = E.int("n_req", lo=0), E.func("u", "int", "int")

        def at(k):
            E.fact(z3.And(uf(term(k)) >= 0, uf(term(k)) < n.t))
            return SInt(uf(term(k)))
        return nr, Arr((nr,), at, int64)

    def prod(E, what, out, rows, cols, K, f):
        E.prove("%s: returns" % what, out.returned)
        if not out.returned:
            return
        S = out.value
        ok = isinstance(S, Arr) and S.ndim == 2
        E.prove("%s: one row per user, one column per item" % what, sand(S.shape[0] == rows, S.shape[1] == cols) if ok else False)
        if not ok:
            return
        E.reach(what)
        i, j = E.int("i", lo=0, hi=rows), E.int("j", lo=0, hi=cols)
        E.prove("%s: the product of the user and item embeddings" % what, mkbool(same(S.at(i, j), sum_over(K, lambda k: f(i, k, j)))))

    def known(E):
        n, q, rec, t, c, kw = trained(E)
        U, Vv, K = c.user.snapshot(), c.item.snapshot(), c.K
        k = E.choose(4, "scores")
        nr, us = users(E, n)
        r = E.int("rows", lo=0)
        vec = sym_matrix("vec", (r, K))
        if k == 0:
            prod(E, "get_score", E.attempt(rec.get_score, us), nr, q, K, lambda i, x, j: U(us.at(i), x) * Vv(j, x))
        elif k == 1:
            b, e = E.int("begin", lo=0), E.int("end")
            E.assume(sand(b <= e, e <= n))
            prod(E, "get_score_block", E.attempt(rec.get_score_block, b, e), e - b, q, K, lambda i, x, j: U(b + i, x) * Vv(j, x))
        elif k == 2:
            prod(E, "get_score_from_user_embedding", E.attempt(rec.get_score_from_user_embedding, vec), r, q, K, lambda i, x, j: vec.at(i, x) * Vv(j, x))
        else:
            prod(E, "get_score_from_item_embedding", E.attempt(rec.get_score_from_item_embedding, us, vec), nr, r, K, lambda i, x, j: U(us.at(i), x) * vec.at(j, x))
        a, x = E.int("a", lo=0, hi=n), E.int("x", lo=0, hi=K)
        E.prove("get_user_embedding: the core's", mkbool(same(rec.get_user_embedding().at(a, x), U(a, x))))
        a = E.int("a", lo=0, hi=q)
        E.prove("get_item_embedding: the core's", mkbool(same(rec.get_item_embedding().at(a, x), Vv(a, x))))
    V.explore(MOD + ".IALSRecommender.get_score", known)

    def embedded(E, c, kw, name, what, X, F):
        """the last call of the core embeds X (scaled) with features F -> embedding"""
        calls = [x for x in c.calls if x[0].startswith("transform")]
        E.prove("%s: embedded by one call of the core" % name, len(calls) == 1 and calls[0][0] == what + ("_with_feature" if F is not None else ""))
        if len(calls) != 1:
            raise PathDone()
        _, cfg, xt, ft, r = calls[0]
        E.prove("%s: with the prediction-time solver settings" % name, solver_ok(E, cfg, kw, "CG", True))
        i, j = E.int("pi", lo=0, hi=X.shape[0]), E.int("pj", lo=0, hi=X.shape[1])
        same_scaled(E, kw, X, xt, i, j, "%s: profile" % name)
        if F is not None:
            same_table(E, "%s: features" % name, F, ft[1])
        return r.snapshot()

    def sym_empty(r, q):
        from pyvc.spmodel import SpM
        from pyvc.npmodel import float64
        return SpM((r, q), lambda i, j: 0.0, lambda i, j: z3.BoolVal(False), "csr", float64)

    def cold(E):
        with_f = E.choose(2, "user features")
        n, q, rec, t, c, kw = trained(E, 1 if with_f else 0)
        Vv, K = c.item.snapshot(), c.K
        r = E.int("rows", lo=0)
        P = sym_sparse("profile", (r, q), fmt=("csr", "csc")[E.choose(2, "profile format")])
        ps = P.snapshot()
        F = feats(E, "new_features", r, E.choose(2, "dense")) if with_f else None
        kind = E.choose(3 if with_f else 2, "call")
        tag = " with features" if with_f else ""
        if kind == 0:
            out = E.attempt(rec.get_score_cold_user, P, **({"user_features": F} if with_f else {}))
            e = embedded(E, c, kw, "get_score_cold_user" + tag, "transform_user", P, F) if out.returned else None
            prod(E, "get_score_cold_user" + tag, out, r, q, K, lambda i, x, j: e(i, x) * Vv(j, x))
        elif kind == 1:
            out = E.attempt(rec.compute_user_embedding, P, **({"user_features": F} if with_f else {}))
            E.prove("compute_user_embedding: returns" + tag, out.returned)
            if not out.returned:
                return
            e = embedded(E, c, kw, "compute_user_embedding" + tag, "transform_user", P, F)
            a, x = E.int("a", lo=0, hi=r), E.int("x", lo=0, hi=K)
            E.prove("compute_user_embedding: the embedding is returned" + tag, mkbool(same(out.value.at(a, x), e(a, x))))
        else:
            out = E.attempt(rec.get_score_cold_user_from_features, F)
            e = embedded(E, c, kw, "get_score_cold_user_from_features", "transform_user", sym_empty(r, q), F) if out.returned else None
            prod(E, "get_score_cold_user_from_features", out, r, q, K, lambda i, x, j: e(i, x) * Vv(j, x))
        a, b = E.int("a", lo=0, hi=r), E.int("b", lo=0, hi=q)
        E.prove("the caller's profile is not altered", mkbool(same(P.at(a, b), ps(a, b))))
    V.explore(MOD + ".IALSRecommender.get_score_cold_user", cold)

    def items(E):
        with_f = E.choose(2, "item features")
        n, q, rec, t, c, kw = trained(E, 2 if with_f else 0)
        U, Vv, K = c.user.snapshot(), c.item.snapshot(), c.K
        r = E.int("rows", lo=0)
        H = sym_sparse("history", (n, r), fmt="csr")
        F = feats(E, "new_features", r, E.choose(2, "dense")) if with_f else None
        kind = E.choose(3 if with_f else 1, "call")
        tag = " with features" if with_f else ""
        if kind == 0:
            out = E.attempt(rec.compute_item_embedding, H, **({"item_features": F} if with_f else {}))
            E.prove("compute_item_embedding: returns" + tag, out.returned)
            if not out.returned:
                return
            e = embedded(E, c, kw, "compute_item_embedding" + tag, "transform_item", H, F)
            a, x = E.int("a", lo=0, hi=r), E.int("x", lo=0, hi=K)
            E.prove("compute_item_embedding: the embedding is returned" + tag, mkbool(same(out.value.at(a, x), e(a, x))))
        elif kind == 1:
            nr, us = users(E, n)
            out = E.attempt(rec.get_score_from_item_features, us, F)
            e = embedded(E, c, kw, "get_score_from_item_features", "transform_item", sym_empty(n, r), F) if out.returned else None
            prod(E, "get_score_from_item_features", out, nr, r, K, lambda i, x, j: U(us.at(i), x) * e(j, x))
        else:
            k = E.int("n_new_users", lo=0)
            P = sym_sparse("profile", (k, q), fmt="csr")
            out = E.attempt(rec.get_score_cold_user_with_item_features, P, F)
            E.prove("get_score_cold_user_with_item_features: returns", out.returned)
            if not out.returned:
                return
            S = out.value
            E.prove("get_score_cold_user_with_item_features: training items, then the additional ones", sand(S.shape[0] == k, S.shape[1] == q + r))
            calls = {x[0]: x for x in c.calls}
            E.prove("get_score_cold_user_with_item_features: users embedded once", len([x for x in c.calls if x[0] == "transform_user"]) == 1 and len(c.calls) <= 2)
            if "transform_user" not in calls:
                return
            cu = calls["transform_user"]
            eu = cu[4].snapshot()
            i, j = E.int("pi", lo=0, hi=k), E.int("pj", lo=0, hi=q)
            same_scaled(E, kw, P, cu[2], i, j, "get_score_cold_user_with_item_features: profile")
            E.prove("get_score_cold_user_with_item_features: prediction-time solver settings", solver_ok(E, cu[1], kw, "CG", True))
            i, j = E.int("i", lo=0, hi=k), E.int("j", lo=0, hi=q + r)
            if E.decide(j.t < q.t):
                E.reach("training items of new users")
                E.prove("get_score_cold_user_with_item_features: training items", mkbool(same(S.at(i, j), sum_over(K, lambda x: eu(i, x) * Vv(j, x)))))
            else:
                E.prove("get_score_cold_user_with_item_features: additional items are embedded from their features", "transform_item_with_feature" in calls)
                if "transform_item_with_feature" not in calls:
                    return
                ci = calls["transform_item_with_feature"]
                E.reach("additional items of new users")
                same_table(E, "get_score_cold_user_with_item_features: features", F, ci[3][1])
                a, b = E.int("a", lo=0, hi=n), E.int("b", lo=0, hi=r)
                E.prove("get_score_cold_user_with_item_features: no history of additional items", mkbool(same(tofloat(ci[2][1](a, b)), 0.0)))
                ei = ci[4].snapshot()
                E.prove("get_score_cold_user_with_item_features: additional items", mkbool(same(S.at(i, j), sum_over(K, lambda x: eu(i, x) * ei(j - q, x)))))
    V.explore(MOD + ".IALSRecommender.get_score_from_item_features", items)

    def nofeat(E):
        n, q, rec, t, c, kw = trained(E, E.choose(2, "user features"))
        r = E.int("rows", lo=0)
        E.reach("no item features")
        E.prove("additional items without item features at training raise NotImplementedError", E.attempt(rec.get_score_cold_user_with_item_features, sym_sparse("profile", (r, q), fmt="csr"), feats(E, "f", E.int("k", lo=0), 1)).raised(NotImplementedError))
    V.explore(MOD + ".IALSRecommender._create_cold_user_with_item_features_scorer", nofeat)

    def state(E):
        feature = 3 * E.choose(2, "features")
        n, q, rec, t, c, kw = trained(E, feature)
        names = ["user", "item"] + (["user_feature_weight", "item_feature_weight"] if feature else [])
        old = {k: (getattr(c, k), getattr(c, k).snapshot()) for k in names}
        f = []
        out = E.attempt(t.save_state, f)
        E.prove("a state is saved", out.returned and len(f) == 1)
        if not out.returned:
            return
        u = rec._create_trainer() if E.choose(2, "other trainer") else t
        for k in names:                     # training goes on
            setattr(u.core_trainer, k, sym_matrix("later_" + k, old[k][0].shape))
        out = E.attempt(u.load_state, f)
        E.prove("a state is loaded", out.returned)
        if not out.returned:
            return
        E.reach("state")
        for k in names:
            M = getattr(u.core_trainer, k)
            i, j = E.int("i", lo=0, hi=old[k][0].shape[0]), E.int("j", lo=0, hi=old[k][0].shape[1])
            E.prove("restoring recovers " + k, sand(M.shape[0] == old[k][0].shape[0], M.shape[1] == old[k][0].shape[1], mkbool(same(M.at(i, j), old[k][1](i, j)))))
    V.explore(MOD + ".IALSTrainer.save_state", state)

    def regscale(E):
        n, q, X, kw = given(E, True)
        ns = E.float("nu_star")
        out = E.attempt(m.IALSRecommender, X, nu_star=ns, **kw)
        if out.raised(ZeroDivisionError):
            E.note("powers of positive numbers are positive, so that the frequency sums are not 0")
            return
        E.prove("a reference exponent is accepted", out.returned)
        if not out.returned:
            return
        d = out.value._create_trainer().core_trainer.config.d
        E.reach("reference exponent")

        def freq(nu):
            rows, cols = X.getnnz(axis=1), X.getnnz(axis=0)
            return sum_over(n, lambda u: power(rows.at(u) + kw["alpha0"] * q, nu)) + sum_over(q, lambda i: power(cols.at(i) + kw["alpha0"] * n, nu))
        a, b = freq(ns), freq(kw["nu"])
        E.prove("the regularisation is rescaled by the ratio of the frequency sums", mkbool(same(d["reg"], SFloat(kw["reg"].t * a.t / b.t))))
    V.explore(MOD + ".compute_reg_scale", regscale)

    def wrong(E):
        X = sym_sparse("X", (E.int("n", lo=1), E.int("m", lo=1)), fmt="csr")
        bad = (dict(solver_type="XX"), dict(loss_type="XX"), dict(confidence_scaling="sqrt"))[E.choose(3, "setting")]
        E.reach("unknown setting")
        E.prove("an unknown %s raises" % list(bad)[0], not E.attempt(m.IALSRecommender, X, n_threads=1, **bad).returned)
    V.explore(MOD + ".IALSRecommender.__init__", wrong)


def power(a, b):
    return a ** b


def sel_int(c):
    return mkint(z3.If(bterm(c), z3.IntVal(1), z3.IntVal(0)))
