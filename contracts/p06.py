"""P06: UserTrainTestInteractionPair"""
import z3
from pyvc.core import *
from pyvc import rt
from pyvc.rt import IdSeq
from pyvc.pdmodel import Frame
from pyvc.spmodel import sym_sparse, SpM

MOD = "irspack.split.userwise"
FN = MOD + ".UserTrainTestInteractionPair"


def run(V):
    L = V.loader()
    m = L.load(MOD)
    C = m.UserTrainTestInteractionPair

    def make(E, tag="", items=None, n_items=None, ids=None):
        n = E.int("n_users" + tag, lo=0)
        ni = n_items if n_items is not None else E.int("n_items", lo=0)
        u = IdSeq(n=n, hint="uid" + tag)
        fmt = ("csr", "csc")[E.choose(2, "format")]
        X = sym_sparse("train" + tag, (n, ni), fmt=fmt)
        T = sym_sparse("test" + tag, (n, ni), fmt=fmt) if E.choose(2, "test part") else None
        return n, ni, u, X, T

    def init(E):
        n, ni, u, X, T = make(E)
        iids = IdSeq(n=ni, hint="iid") if E.choose(2, "item ids") else None
        out = E.attempt(C, u, X, T, iids)
        E.prove("constructor: matching sizes are accepted", out.returned)
        if not out.returned:
            return
        d = out.value
        E.reach("constructor")
        i, j = E.int("i", lo=0, hi=n), E.int("j", lo=0, hi=ni)
        for name, M_ in (("X_train", d.X_train), ("X_test", d.X_test), ("X_all", d.X_all)):
            E.prove("constructor: %s is a csr matrix with one row per user and one column per item" % name, isinstance(M_, SpM) and M_.fmt == "csr" and sand(mkbool(same(M_.shape[0], n)), mkbool(same(M_.shape[1], ni))))
        E.prove("constructor: sizes are exposed", sand(d.n_users == n, d.n_items == ni))
        E.prove("constructor: user ids are kept in order", sand(mkbool(same(rt.length(d.user_ids), n)), d.user_ids[i] == u.at(i)))
        E.prove("constructor: the train part is kept", same(d.X_train.at(i, j), X.at(i, j)))
        E.prove("constructor: the test part is kept (empty if not given)", same(d.X_test.at(i, j), T.at(i, j) if T is not None else 0.0))
        E.prove("constructor: the full interactions are the sum of train and test", same(d.X_all.at(i, j), X.at(i, j) + (T.at(i, j) if T is not None else 0.0)))
        E.prove("constructor: item ids are kept", (d.item_ids is None) if iids is None else sand(mkbool(same(rt.length(d.item_ids), ni)), d.item_ids[j] == iids.at(j)))

    def reject(E):
        n, ni = E.int("n_users", lo=0), E.int("n_items", lo=0)
        nu, nt, nti, nii = E.int("nu", lo=0), E.int("nt", lo=0), E.int("nti", lo=0), E.int("nii", lo=0)
        which = E.choose(3, "mismatch")
        if which == 0:
            E.assume(nu != n)
        if which == 1:
            E.assume(z3.Or(nt.t != n.t, nti.t != ni.t))
        if which == 2:
            E.assume(nii != ni)
        u = IdSeq(n=nu if which == 0 else n, hint="uid")
        X = sym_sparse("train", (n, ni))
        T = sym_sparse("test", (nt, nti) if which == 1 else (n, ni)) if which == 1 or E.choose(2, "test part") else None
        iids = IdSeq(n=nii if which == 2 else ni, hint="iid") if which == 2 or E.choose(2, "item ids") else None
        out = E.attempt(C, u, X, T, iids)
        E.reach("mismatch %d" % which)
        E.prove("constructor: %s raise ValueError" % ("too few or too many user ids", "train and test of different shapes", "too few or too many item ids")[which], out.raised(ValueError))

    def table(E):
        n, ni, u, X, T = make(E)
        which = ("df_train", "df_test")[E.choose(2, "which")]
        has = E.choose(2, "item ids")
        iids = IdSeq(n=ni, hint="iid") if has else None
        out = E.attempt(C, u, X, T, iids)
        if not out.returned:
            return
        d = out.value
        M_ = d.X_train if which == "df_train" else d.X_test
        src = X if which == "df_train" else T
        want = (lambda i, j: src.at(i, j)) if src is not None else (lambda i, j: 0.0)
        r = E.attempt(getattr(d, which))
        if not has:
            E.prove("%s: without item ids an error is raised" % which, r.raised(RuntimeError))
            return
        E.prove("%s: returns" % which, r.returned)
        if not r.returned:
            return
        F = r.value
        if not isinstance(F, Frame):
            unsupported("result is not a table")
        E.reach(which)
        E.prove("%s: the documented columns" % which, list(F.cols) == ["user_id", "item_id", "rating"])
        K = F.rows.n
        k, k2 = E.int("k", lo=0, hi=K), E.int("k2", lo=0, hi=K)
        get = lambda c, k: F.cols[c].f(F.rows.rowat(k))
        U, I, R = get("user_id", k), get("item_id", k), get("rating", k)
        U2, I2 = get("user_id", k2), get("item_id", k2)
        i, j = u.position(U), iids.position(I)
        E.prove("%s: every row is a non-zero cell with its user id, item id and value" % which,
                sand(u.member(U), iids.member(I), mkbool(same(R, want(i, j))), mkbool(z3.Not(same(R, 0.0)))))
        u.position(U2), iids.position(I2)
        E.prove("%s: no cell is listed twice" % which, z3.Implies(z3.And(U.t == U2.t, I.t == I2.t), k.t == k2.t))
        a, b = E.int("a", lo=0, hi=n), E.int("b", lo=0, hi=ni)
        E.assume(z3.Not(same(want(a, b), 0.0)))
        goals = []
        for nz in E.nzs:
            p = nz.pair()[0].position(a, b)
            row = F.rows.rowat(p)
            goals.append(z3.And(p.t >= 0, p.t < term(K), F.cols["user_id"].f(row).t == u.at(a).t, F.cols["item_id"].f(row).t == iids.at(b).t))
        if not goals:
            unsupported("no enumeration of the cells to take the witness from")
        E.prove("%s: every non-zero cell is listed" % which, z3.Or(*goals))

    def concat(E):
        n1, ni, u1, X1, T1 = make(E, "1")
        n2, ni2, u2, X2, T2 = make(E, "2", n_items=ni if E.choose(2, "same number of items") else None)
        if ni2 is not ni:
            E.assume(ni2 != ni)
        a, b = E.attempt(C, u1, X1, T1), E.attempt(C, u2, X2, T2)
        if not (a.returned and b.returned):
            return
        out = E.attempt(a.value.concat, b.value)
        if ni2 is not ni:
            E.prove("concat: different numbers of items are rejected", out.raised(ValueError))
            return
        E.prove("concat: returns", out.returned)
        if not out.returned:
            return
        d = out.value
        E.reach("concat")
        i, j = E.int("i", lo=0, hi=n1 + n2), E.int("j", lo=0, hi=ni)
        first = E.decide(i.t < n1.t)
        src = (u1, X1, T1, i) if first else (u2, X2, T2, i - n1)
        E.prove("concat: one row per user of both", sand(mkbool(same(rt.length(d.user_ids), n1 + n2)), *[mkbool(same(x.shape[0], n1 + n2)) for x in (d.X_train, d.X_test, d.X_all)], *[mkbool(same(x.shape[1], ni)) for x in (d.X_train, d.X_test, d.X_all)]))
        tag = "first" if first else "second"
        E.prove("concat: user ids of the first, then of the second (%s)" % tag, d.user_ids[i] == src[0].at(src[3]))
        E.prove("concat: each user's own train row (%s)" % tag, same(d.X_train.at(i, j), src[1].at(src[3], j)))
        t = src[2].at(src[3], j) if src[2] is not None else 0.0
        E.prove("concat: each user's own test row (%s)" % tag, same(d.X_test.at(i, j), t))
        E.prove("concat: full interactions stay the sum (%s)" % tag, same(d.X_all.at(i, j), src[1].at(src[3], j) + t))

    V.explore(FN + ".__init__", init)
    V.explore(FN + ".__init__", reject)
    V.explore(FN + ".df_train/df_test/_X_to_df", table)
    V.explore(FN + ".concat", concat)
