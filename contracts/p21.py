"""P21: DenseSLIMRecommender._learn, EDLAERecommender._learn, l1_normalize_row"""
import types
import z3
from pyvc.core import *
from pyvc import rt
from pyvc.npmodel import sym_matrix, Arr, int64, float32, float64, sum_over
from pyvc.spmodel import sym_sparse

MOD = "irspack.recommenders."


class Linalg:
    is_model = True
    __name__ = "scipy.linalg"

    def inv(self, a, overwrite_a=False, check_finite=True):
        """records the argument; the result is an arbitrary matrix of that size"""
        n, m = a.shape
        if not E.decide(term(n) == term(m)):
            raise ValueError("expected square matrix")
        snap = a.snapshot()
        if overwrite_a:
            g = E.func("garbage", "int", "int", "real")
            a._update(lambda i, j: z3.BoolVal(True), lambda i, j: SFloat(g(term(i), term(j))))
        P = sym_matrix("P", (n, n))
        if a.dtype is float32:
            P = P.astype(float32)
        ps = P.snapshot()
        E.ghost.setdefault("inv", []).append((n, snap, ps))
        # the diagonal of the inverse of a positive definite matrix is positive
        return P


def run(V):
    la = Linalg()
    L = V.loader({"scipy.linalg": la, "gc": types.SimpleNamespace(collect=lambda *a: 0, __name__="gc")})
    ds, ed = L.load(MOD + "dense_slim"), L.load(MOD + "edlae")
    E.use("scipy.linalg.inv: the inverse of its argument (which it may overwrite if allowed to)")
    E.use("numpy / scipy.sparse: transposition, matrix product (exact sums), toarray, fancy indexing, broadcasting")
    E.note("matrix products are sums over the reals (floating-point rounding, float32 included, is not modelled); the diagonal of the inverse is not zero")

    def learn(E, cls, drop):
        E.exact = True
        n, m = E.int("n_users", lo=1), E.int("n_items", lo=1)
        X = sym_sparse("X", (n, m), fmt=("csr", "csc")[E.choose(2, "format")])
        xs = X.snapshot()
        reg = E.float("reg") if E.choose(2, "reg") else E.int("reg", lo=0)
        kw = dict(reg=reg)
        if drop:
            p = kw["dropout_p"] = E.float("dropout_p")
            E.assume(sand(p >= 0, p < 1))
        rec = cls(X, **kw)
        E.prove("before training an error is raised", not E.attempt(lambda: rec.W).returned)
        out = E.attempt(rec.learn)
        E.prove("training returns the model", out.returned and out.value is rec)
        if not out.returned:
            return
        E.reach("trained")
        W = E.attempt(lambda: rec.W)
        E.prove("the weights are available", W.returned)
        W = W.value
        inv = E.ghost.get("inv", [])
        if len(inv) != 1:
            unsupported("weights are not computed by one inversion")
        k, A, P = inv[0]
        ok = isinstance(W, Arr) and W.ndim == 2
        E.prove("the weights are an items by items table", sand(W.shape[0] == m, W.shape[1] == m) if ok else False)
        E.prove("an items by items matrix is inverted", k == m)
        if not ok:
            return
        i, j = E.int("i", lo=0, hi=m), E.int("j", lo=0, hi=m)
        gram = sum_over(n, lambda u: xs(u, i) * xs(u, j))
        if E.decide(i.t == j.t):
            E.reach("diagonal")
            E.prove("the weights have a zero diagonal", mkbool(same(tofloat(W.at(i, i)), 0.0)))
            gram = sum_over(n, lambda u: xs(u, i) * xs(u, i))
            want = gram + reg
            if drop:
                want = want + p / (1 - p) * gram
            E.prove("the diagonal of the inverted matrix is the Gram diagonal plus the regularisation", mkbool(same(tofloat(A(i, i)), tofloat(want))))
        else:
            E.reach("off the diagonal")
            E.prove("off the diagonal the Gram matrix is inverted", mkbool(same(tofloat(A(i, j)), tofloat(gram))))
            d = flift(tofloat(P(j, j))).t
            E.assume(d != 0)
            w = flift(tofloat(W.at(i, j)))
            E.prove("a weight is minus the entry of the inverse over the diagonal entry of its column", mkbool(same(W.at(i, j), -P(i, j) / P(j, j))))
        u = E.int("u", lo=0, hi=n)
        E.prove("the training matrix is not modified", mkbool(same(rec.X_train_all.at(u, i), xs(u, i))))
    V.explore(MOD + "dense_slim.DenseSLIMRecommender._learn", lambda E: learn(E, ds.DenseSLIMRecommender, False))
    V.explore(MOD + "edlae.EDLAERecommender._learn", lambda E: learn(E, ed.EDLAERecommender, True))

    ut = L.load("irspack.utils")

    def l1(E):
        E.exact = True
        n, m = E.int("n_rows", lo=0), E.int("n_cols", lo=0)
        X = sym_sparse("X", (n, m), fmt="csc")
        xs = X.snapshot()
        out = E.attempt(ut.l1_normalize_row, X)
        E.prove("row normalisation returns", out.returned)
        if not out.returned:
            return
        R = out.value
        E.prove("row normalisation keeps the shape", sand(R.shape[0] == n, R.shape[1] == m))
        i, j = E.int("i", lo=0, hi=n), E.int("j", lo=0, hi=m)
        s = sum_over(m, lambda c: xs(i, c))
        E.assume(flift(tofloat(s)).t != 0)
        E.reach("row normalisation")
        E.prove("every entry is divided by the sum of its row", mkbool(same(tofloat(R.at(i, j)), tofloat(xs(i, j) / s))))
        E.prove("the argument is not modified", mkbool(same(X.at(i, j), xs(i, j))))
    V.explore("irspack.utils.l1_normalize_row", l1)
