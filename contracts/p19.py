"""P19: BaseSimilarityRecommender, BaseUserSimilarityRecommender, TopPopRecommender scores"""
import z3
from pyvc.core import *
from pyvc import rt
from pyvc.npmodel import sym_matrix, Arr, int64, sum_over
from pyvc.spmodel import sym_sparse

MOD = "irspack.recommenders.base"


def run(V):
    L = V.loader()
    m = L.load(MOD)
    tp = L.load("irspack.recommenders.toppop")

    def base(E):
        E.use("numpy / scipy.sparse matrix product (exact sums), row selection and slicing, column sums, toarray")
        E.note("matrix products are sums over the reals (floating-point rounding is not modelled)")
        n_users, n_items = E.int("n_users", lo=1), E.int("n_items", lo=1)
        X = sym_sparse("X", (n_users, n_items), fmt=("csr", "csc")[E.choose(2, "format")])
        return n_users, n_items, X

    def weights(E, hint, n, dense):
        k = E.choose(3 if dense else 2, "weights")
        return sym_matrix(hint, (n, n)) if k == 2 else sym_sparse(hint, (n, n), fmt=("csr", "csc")[k])

    def req(E, n_users):
        n = E.int("n_req", lo=0)
        uf = E.func("u", "int", "int")

        def at(k):
            E.fact(z3.And(uf(term(k)) >= 0, uf(term(k)) < n_users.t))
            return SInt(uf(term(k)))
        return n, Arr((n,), at, int64)

    def blk(E, n_users):
        b, e = E.int("begin", lo=0), E.int("end")
        E.assume(sand(b <= e, e <= n_users))
        return b, e

    def shape(E, f, res, n, m_):
        E.prove("%s: returns" % f, res.returned)
        if not res.returned:
            return None
        S = res.value
        E.prove("%s: a dense array, one row per user and one column per item" % f, isinstance(S, Arr) and sand(mkbool(same(S.shape[0], n)), mkbool(same(S.shape[1], m_))))
        if not isinstance(S, Arr):
            return None
        E.reach(f)
        return S, E.int("i", lo=0, hi=n), E.int("j", lo=0, hi=m_)

    def item_sim(E, which):
        n_users, n_items, X = base(E)

        class Rec(m.BaseSimilarityRecommender, register_class=False):
            def _learn(self):
                self._W = W
        W = weights(E, "W", n_items, True)
        rec = Rec(X)
        b, e = blk(E, n_users)
        n, users = req(E, n_users)
        nc = E.int("n_cold", lo=0)
        P = sym_sparse("profile", (nc, n_items), fmt=("csr", "csc")[E.choose(2, "format")])
        call = {"get_score": lambda: rec.get_score(users), "get_score_block": lambda: rec.get_score_block(b, e), "get_score_cold_user": lambda: rec.get_score_cold_user(P)}[which]
        f = "BaseSimilarityRecommender." + which
        E.prove("%s: before training an error is raised" % f, E.attempt(call).raised(RuntimeError))
        E.prove("BaseSimilarityRecommender.W: before training an error is raised", E.attempt(lambda: rec.W).raised(RuntimeError))
        l = E.attempt(rec.learn)
        E.prove("learn: returns the model", l.returned and l.value is rec)
        E.prove("BaseSimilarityRecommender.W: the learnt weights", rec.W is W)
        rows = {"get_score": n, "get_score_block": e - b, "get_score_cold_user": nc}[which]
        row = {"get_score": lambda i, k: X.at(users.at(i), k), "get_score_block": lambda i, k: X.at(b + i, k), "get_score_cold_user": lambda i, k: P.at(i, k)}[which]
        s = shape(E, f, E.attempt(call), rows, n_items)
        if s:
            S, i, j = s
            E.prove("%s: the product of the user's interaction row with the weights" % f, same(S.at(i, j), sum_over(n_items, lambda k: row(i, k) * W.at(k, j))))

    def user_sim(E, which):
        n_users, n_items, X = base(E)

        class Rec(m.BaseUserSimilarityRecommender, register_class=False):
            def _learn(self):
                self.U_ = U
        U = weights(E, "U", n_users, False)
        rec = Rec(X)
        b, e = blk(E, n_users)
        n, users = req(E, n_users)
        call = {"get_score": lambda: rec.get_score(users), "get_score_block": lambda: rec.get_score_block(b, e)}[which]
        f = "BaseUserSimilarityRecommender." + which
        E.prove("%s: before training an error is raised" % f, E.attempt(call).raised(RuntimeError))
        rec.learn()
        E.prove("BaseUserSimilarityRecommender.U: the learnt similarities", rec.U is U)
        rows = {"get_score": n, "get_score_block": e - b}[which]
        row = {"get_score": lambda i, k: U.at(users.at(i), k), "get_score_block": lambda i, k: U.at(b + i, k)}[which]
        s = shape(E, f, E.attempt(call), rows, n_items)
        if s:
            S, i, j = s
            E.prove("%s: the product of the user's similarity row with the training interactions" % f, same(S.at(i, j), sum_over(n_users, lambda k: row(i, k) * X.at(k, j))))

    def toppop(E, which):
        n_users, n_items, X = base(E)
        rec = tp.TopPopRecommender(X)
        n, users = req(E, n_users)
        nc = E.int("n_cold", lo=0)
        P = sym_sparse("profile", (nc, n_items))
        call = {"get_score": lambda: rec.get_score(users), "get_score_cold_user": lambda: rec.get_score_cold_user(P)}[which]
        f = "TopPopRecommender." + which
        E.prove("%s: before training an error is raised" % f, E.attempt(call).raised(RuntimeError))
        l = E.attempt(rec.learn)
        E.prove("TopPopRecommender.learn: returns", l.returned)
        s = shape(E, f, E.attempt(call), n if which == "get_score" else nc, n_items)
        if s:
            S, i, j = s
            E.prove("%s: every user gets the column sums of the training matrix" % f, same(S.at(i, j), sum_over(n_users, lambda k: X.at(k, j))))

    for w in ("get_score", "get_score_block", "get_score_cold_user"):
        V.explore(MOD + ".BaseSimilarityRecommender." + w, lambda E, w=w: item_sim(E, w))
    for w in ("get_score", "get_score_block"):
        V.explore(MOD + ".BaseUserSimilarityRecommender." + w, lambda E, w=w: user_sim(E, w))
    for w in ("get_score", "get_score_cold_user"):
        V.explore("irspack.recommenders.toppop.TopPopRecommender." + w, lambda E, w=w: toppop(E, w))
