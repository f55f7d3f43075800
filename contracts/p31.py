"""P31: TruncatedSVDRecommender, NMFRecommender"""
import types
import z3
from pyvc.core import *
from pyvc import rt
from pyvc.npmodel import sym_matrix, Arr, int64, float64, sum_over
from pyvc.spmodel import sym_sparse

MOD = "irspack.recommenders."


class Decomposer:
    """a fitted decomposition: embeddings of the given rows, and component vectors"""

    def __init__(self, n_components=2, **k):
        self.kw, self.fits = dict(k, n_components=n_components), 0
        E.ghost.setdefault("made", []).append(self)

    def _fit(self, X):
        self.fits += 1
        n, m = X.shape
        # at most as many components as asked for
        self.k = E.int("rank", lo=1)
        self.X, self.seen = X, X.snapshot()
        self.components_ = self.mat("H", (self.k, m))
        self.n_features = m

    def mat(self, hint, shape):
        M = sym_matrix(hint, shape)
        return M if not self.nonneg else Arr(shape, lambda i, j: self.pos(M.at(i, j)), float64)

    @staticmethod
    def pos(v):
        E.fact(flift(v).t >= 0)
        return v

    def fit(self, X):
        self._fit(X)
        return self

    def fit_transform(self, X):
        self._fit(X)
        self.Z = self.mat("Z", (X.shape[0], self.k))
        return self.Z

    def need(self, X):
        if not hasattr(self, "components_"):
            raise RuntimeError("not fitted")
        if not E.decide(term(X.shape[1]) == term(self.n_features)):
            raise ValueError("other number of columns")


class TruncatedSVD(Decomposer):
    nonneg = False

    def transform(self, X):
        self.need(X)
        return X.dot(self.components_.T)


class NMF(Decomposer):
    nonneg = True

    def transform(self, X):
        self.need(X)
        self.T = self.mat("T", (X.shape[0], self.k))
        self.transformed = X
        return self.T


def determined(v, *of):
    """v is a number that depends on nothing but `of`"""
    if isinstance(v, int):
        return True
    if not isinstance(v, SInt):
        return False
    todo, allowed = [v.t], [x.t for x in of]
    while todo:
        t = todo.pop()
        if any(t.eq(a) for a in allowed) or z3.is_int_value(t):
            continue
        if t.num_args() == 0:
            return False
        todo.extend(t.children())
    return True


def run(V):
    sk = types.SimpleNamespace(__version__="1.9.0", __name__="sklearn")
    dec = types.SimpleNamespace(TruncatedSVD=TruncatedSVD, NMF=NMF, __name__="sklearn.decomposition")
    import packaging, packaging.version
    L = V.loader({"sklearn": sk, "sklearn.decomposition": dec, "packaging": packaging, "packaging.version": packaging.version})
    svd, nmf = L.load(MOD + "truncsvd"), L.load(MOD + "nmf")
    E.note("matrix products are sums over the reals (floating-point rounding is not modelled)")
    E.use("sklearn TruncatedSVD: fit_transform embeds the given rows, transform multiplies by the transposed components; the same input, number of components and random_state give the same result")
    E.use("sklearn NMF: embeddings and components are non-negative")

    def start(E):
        n, m = E.int("n_users", lo=1), E.int("n_items", lo=2)
        X = sym_sparse("X", (n, m), fmt=("csr", "csc")[E.choose(2, "format")])
        return n, m, X

    def users(E, n):
        nr, uf = E.int("n_req", lo=0), E.func("u", "int", "int")

        def at(k):
            E.fact(z3.And(uf(term(k)) >= 0, uf(term(k)) < n.t))
            return SInt(uf(term(k)))
        return nr, Arr((nr,), at, int64)

    def prod(E, what, out, rows, cols, k, f):
        E.prove("%s: returns" % what, out.returned)
        if not out.returned:
            return
        S = out.value
        ok = isinstance(S, Arr) and S.ndim == 2
        E.prove("%s: one row per user and one column per item" % what, sand(S.shape[0] == rows, S.shape[1] == cols) if ok else False)
        if not ok:
            return
        E.reach(what)
        i, j = E.int("i", lo=0, hi=rows), E.int("j", lo=0, hi=cols)
        E.prove("%s: the product of the embeddings" % what, mkbool(same(S.at(i, j), sum_over(k, lambda q: f(i, q, j)))))

    def block(E, n):
        b, e = E.int("begin", lo=0), E.int("end")
        E.assume(sand(b <= e, e <= n))
        return b, e

    def tsvd(E, which):
        n, m, X = start(E)
        nc, seed = E.int("n_components", lo=1), E.int("seed", lo=0)
        out = E.attempt(svd.TruncatedSVDRecommender, X, n_components=nc, random_seed=seed)
        E.prove("TruncatedSVDRecommender: accepts a matrix of at least two items", out.returned)
        if not out.returned:
            return
        rec = out.value
        nr, us = users(E, n)
        b, e = block(E, n)
        P = sym_sparse("profile", (E.int("n_cold", lo=0), m), fmt=("csr", "csc")[E.choose(2, "profile format")])
        r = E.int("rows", lo=0)
        vec = lambda: sym_matrix("vec", (r, d().k))
        d = lambda: E.ghost["made"][-1]
        calls = dict(get_score=lambda: rec.get_score(us), get_score_block=lambda: rec.get_score_block(b, e), get_score_cold_user=lambda: rec.get_score_cold_user(P), get_user_embedding=rec.get_user_embedding,
                     get_item_embedding=rec.get_item_embedding)
        if which in calls:
            E.prove("%s: before training an error is raised" % which, not E.attempt(calls[which]).returned)
        l = E.attempt(rec.learn)
        E.prove("TruncatedSVDRecommender.learn: returns the model", l.returned and l.value is rec)
        if not l.returned:
            return
        D = E.ghost["made"]
        E.prove("TruncatedSVDRecommender.learn: a decomposition", len(D) >= 1 and D[0].fits >= 1)
        D = D[-1]
        k = mkint(term(D.kw.get("n_components", 2)))
        E.prove("TruncatedSVDRecommender.learn: decomposes into the configured number of components if there are more items, else at most as many as items", sand(k >= 1, k <= m, z3.Implies(nc.t < m.t, term(k) == nc.t)))
        E.prove("TruncatedSVDRecommender.learn: the seed of the decomposition is determined by the configured seed", determined(D.kw.get("random_state"), seed))
        gi, gj = E.int("gi", lo=0, hi=n), E.int("gj", lo=0, hi=m)
        E.prove("TruncatedSVDRecommender.learn: the training matrix is decomposed", sand(D.X.shape[0] == n, D.X.shape[1] == m, mkbool(same(D.seen(gi, gj), X.at(gi, gj)))))
        Z, H = D.Z, D.components_
        if which == "get_score":
            prod(E, which, E.attempt(calls[which]), nr, m, D.k, lambda i, q, j: Z.at(us.at(i), q) * H.at(q, j))
        elif which == "get_score_block":
            prod(E, which, E.attempt(calls[which]), e - b, m, D.k, lambda i, q, j: Z.at(b + i, q) * H.at(q, j))
        elif which == "get_score_cold_user":
            prod(E, which, E.attempt(calls[which]), P.shape[0], m, D.k, lambda i, q, j: sum_over(m, lambda c: P.at(i, c) * H.at(q, c)) * H.at(q, j))
        elif which == "get_user_embedding":
            o = E.attempt(calls[which])
            i, q = E.int("i", lo=0, hi=n), E.int("q", lo=0, hi=D.k)
            E.prove("get_user_embedding: one row per user", sand(o.returned, o.value.shape[0] == n, o.value.shape[1] == D.k) if o.returned else False)
            E.prove("get_user_embedding: the users' embeddings", mkbool(same(o.value.at(i, q), Z.at(i, q))) if o.returned else False)
        elif which == "get_item_embedding":
            o = E.attempt(calls[which])
            j, q = E.int("j", lo=0, hi=m), E.int("q", lo=0, hi=D.k)
            E.prove("get_item_embedding: one row per item", sand(o.returned, o.value.shape[0] == m, o.value.shape[1] == D.k) if o.returned else False)
            E.prove("get_item_embedding: the items' embeddings", mkbool(same(o.value.at(j, q), H.at(q, j))) if o.returned else False)
        elif which == "get_score_from_user_embedding":
            v = vec()
            prod(E, which, E.attempt(rec.get_score_from_user_embedding, v), r, m, D.k, lambda i, q, j: v.at(i, q) * H.at(q, j))
        else:
            v = vec()
            prod(E, which, E.attempt(rec.get_score_from_item_embedding, us, v), nr, r, D.k, lambda i, q, j: Z.at(us.at(i), q) * v.at(j, q))

    for w in ("get_score", "get_score_block", "get_score_cold_user", "get_user_embedding", "get_item_embedding", "get_score_from_user_embedding", "get_score_from_item_embedding"):
        V.explore(MOD + "truncsvd.TruncatedSVDRecommender." + w, lambda E, w=w: tsvd(E, w))

    def narrow(E):
        """one item: no decomposition exists"""
        X = sym_sparse("X", (E.int("n_users", lo=1), 1), fmt="csr")
        E.reach("one item")
        E.prove("TruncatedSVDRecommender: a matrix of one item is refused", not E.attempt(svd.TruncatedSVDRecommender, X).returned)
    V.explore(MOD + "truncsvd.TruncatedSVDRecommender.__init__", narrow)

    def nm(E, which):
        n, m, X = start(E)
        nc, al, l1 = E.int("n_components", lo=1), E.float("alpha"), E.float("l1_ratio")
        rec = nmf.NMFRecommender(X, n_components=nc, alpha=al, l1_ratio=l1)
        nr, us = users(E, n)
        P = sym_sparse("profile", (E.int("n_cold", lo=0), m), fmt="csr")
        call = dict(get_score=lambda: rec.get_score(us), get_score_cold_user=lambda: rec.get_score_cold_user(P))[which]
        E.prove("NMF %s: before training an error is raised" % which, not E.attempt(call).returned)
        l = E.attempt(rec.learn)
        E.prove("NMF learn: returns the model", l.returned and l.value is rec)
        if not l.returned:
            return
        D = E.ghost["made"][-1]
        kw = D.kw
        E.prove("NMF learn: configured number of components, fixed seed", sand(mkint(term(kw.get("n_components", -1))) == nc, determined(kw.get("random_state"))))
        gi, gj = E.int("gi", lo=0, hi=n), E.int("gj", lo=0, hi=m)
        E.prove("NMF learn: the training matrix is decomposed", sand(D.X.shape[0] == n, D.X.shape[1] == m, mkbool(same(D.seen(gi, gj), X.at(gi, gj)))))
        H = D.components_
        E.lemma("NonNegRank", "a product of non-negative matrices is non-negative and of rank at most the inner dimension")
        out = E.attempt(call)
        if which == "get_score":
            prod(E, "NMF get_score", out, nr, m, D.k, lambda i, q, j: D.Z.at(us.at(i), q) * H.at(q, j))
        else:
            E.prove("NMF get_score_cold_user: the given profiles are embedded", getattr(D, "transformed", None) is P)
            if getattr(D, "transformed", None) is P:
                prod(E, "NMF get_score_cold_user", out, P.shape[0], m, D.k, lambda i, q, j: D.T.at(i, q) * H.at(q, j))
        i, q, j = E.int("i", lo=0, hi=n), E.int("q", lo=0, hi=D.k), E.int("j", lo=0, hi=m)
        E.prove("NMF: embeddings and components are non-negative", sand(D.Z.at(i, q) >= 0, H.at(q, j) >= 0))
    for w in ("get_score", "get_score_cold_user"):
        V.explore(MOD + "nmf.NMFRecommender." + w, lambda E, w=w: nm(E, w))
