"""P07: BaseRecommender.get_score_remove_seen, get_score_remove_seen_block, get_score_cold_user_remove_seen (and __init__)"""
import z3
from pyvc.core import *
from pyvc import rt
from pyvc.npmodel import sym_matrix, Arr, int64, as_arr, sel
from pyvc.spmodel import sym_sparse, SpM

MOD = "irspack.recommenders.base"
NINF = -float("inf")


def run(V):
    L = V.loader()
    m = L.load(MOD)

    def model(E):
        E.use("numpy / scipy.sparse row selection, slicing, nonzero() (stored zeros excluded), indexed assignment, toarray")
        n_users, n_items = E.int("n_users", lo=1), E.int("n_items", lo=1)
        X = sym_sparse("X", (n_users, n_items), fmt=("csr", "csc")[E.choose(2, "format")])
        F = E.func("F", "int", "int", "real")
        FK = E.func("FK", "int", "int", "int")
        G = E.func("G", "int", "int", "real")

        def cell(u, j):
            E.fact(z3.And(FK(term(u), term(j)) >= -1, FK(term(u), term(j)) <= 2))
            return SFloat(F(term(u), term(j)), FK(term(u), term(j)))
        kind = E.choose(2, "score array kind")

        st = E.func("score_stored", "int", "int", "bool")

        def expected(u, j):
            """the model's unmasked score of user u"""
            if kind == 0:
                return cell(u, j)
            E.note("sparse score matrices hold finite values")
            return sel(st(term(u), term(j)), SFloat(F(term(u), term(j))), 0.0)

        def out(rows, user):
            if kind == 0:
                return Arr((rows, n_items), lambda i, j: cell(user(i), j))
            return SpM((rows, n_items), lambda i, j: SFloat(F(term(user(i)), term(j))), lambda i, j: mkbool(st(term(user(i)), term(j))), "csr")

        class Rec(m.BaseRecommender, register_class=False):
            def _learn(self):
                pass

            def get_score(self, users):
                users = as_arr(users)
                return out(users.shape[0], lambda i: users.at(i))

            def get_score_block(self, begin, end):
                return out(end - begin, lambda i: begin + i)

            def get_score_cold_user(self, P):
                self.asked = P
                return Arr((P.shape[0], n_items), lambda i, j: SFloat(G(term(i), term(j))))
        made = E.attempt(Rec, X)
        E.prove("BaseRecommender.__init__: accepts a sparse matrix", made.returned)
        rec = made.value
        E.prove("BaseRecommender.__init__: shape attributes are those of the matrix", sand(mkbool(same(rec.n_users, n_users)), mkbool(same(rec.n_items, n_items))))
        i, j = E.int("i0", lo=0, hi=n_users), E.int("j0", lo=0, hi=n_items)
        E.prove("BaseRecommender.__init__: the training matrix keeps every value", same(rec.X_train_all.at(i, j), X.at(i, j)))
        return rec, X, n_users, n_items, expected, G

    def known(E):
        rec, X, n_users, n_items, cell, G = model(E)
        n = E.int("n_req", lo=0)
        uf = E.func("u", "int", "int")

        def at(k):
            E.fact(z3.And(uf(term(k)) >= 0, uf(term(k)) < n_users.t))
            return SInt(uf(term(k)))
        users = Arr((n,), at, int64)
        res = E.attempt(rec.get_score_remove_seen, users)
        check(E, "get_score_remove_seen", res, n, n_items, X, lambda k: users.at(k), lambda k, j: cell(users.at(k), j))

    def check(E, f, res, n, n_items, X, row, want):
        E.prove("%s: returns" % f, res.returned)
        if not res.returned:
            return
        S = res.value
        E.prove("%s: a dense array is returned" % f, isinstance(S, Arr))
        if not isinstance(S, Arr):
            return
        E.prove("%s: one row per user, one column per item" % f, sand(mkbool(same(S.shape[0], n)), mkbool(same(S.shape[1], n_items))))
        i, j = E.int("i", lo=0, hi=n), E.int("j", lo=0, hi=n_items)
        E.reach(f)
        seen = z3.Not(same(X.at(row(i), j), 0.0))
        E.prove("%s: the user's own non-zero items are masked to minus infinity" % f, z3.Implies(seen, same(S.at(i, j), NINF)))
        E.prove("%s: every other cell is that user's unmasked score" % f, z3.Implies(z3.Not(seen), same(S.at(i, j), want(i, j))))

    def block(E):
        rec, X, n_users, n_items, cell, G = model(E)
        b = E.int("begin", lo=0)
        e = E.int("end")
        E.assume(sand(b <= e, e <= n_users))
        res = E.attempt(rec.get_score_remove_seen_block, b, e)
        check(E, "get_score_remove_seen_block", res, e - b, n_items, X, lambda k: b + k, lambda k, j: cell(b + k, j))

    def cold(E):
        rec, X, n_users, n_items, cell, G = model(E)
        n = E.int("n_cold", lo=0)
        P = sym_sparse("profile", (n, n_items), fmt=("csr", "csc")[E.choose(2, "format")]) if E.choose(2, "dense profile") == 0 else sym_matrix("profile", (n, n_items))
        res = E.attempt(rec.get_score_cold_user_remove_seen, P)
        check(E, "get_score_cold_user_remove_seen", res, n, n_items, P, lambda k: k, lambda k, j: SFloat(G(term(k), term(j))))
        if res.returned:
            a, i, j = rec.asked, E.int("i", lo=0, hi=n), E.int("j", lo=0, hi=n_items)
            E.prove("get_score_cold_user_remove_seen: the given profiles are scored", sand(mkbool(same(a.shape[0], n)), mkbool(same(a.shape[1], n_items)), mkbool(same(a.at(i, j), P.at(i, j)))))

    V.explore(MOD + ".BaseRecommender.get_score_remove_seen", known)
    V.explore(MOD + ".BaseRecommender.get_score_remove_seen_block", block)
    V.explore(MOD + ".BaseRecommender.get_score_cold_user_remove_seen", cold)
