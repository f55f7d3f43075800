"""P04: split_dataframe_partial_user_holdout against the contracts of its two helpers, and the helpers split_train_test_userwise_random / _time
(df_to_sparse, split_last_n_interaction_df, rowwise_train_test_split inlined)"""
import inspect
import types
import z3
from pyvc.core import *
from pyvc import rt
from pyvc.rt import IdSeq
from pyvc.pdmodel import sym_frame, as_id_seq, RandomState, Rank, same_size, Distinct, Frame, EmptyIds
from contracts.cppsplit import SplitModel

MOD = "irspack.split.userwise"
MODES = ("fixed number", "ratio rounded down", "ratio rounded up")
NAMES = ("train", "val", "test")


def stored(X, i, j):
    return bterm(X.stored(i, j))


def run(V):
    L = V.loader({"irspack.utils._util_cpp": SplitModel("irspack.utils._util_cpp")})
    m = L.load(MOD)

    def helper(E, time):
        """contract of the helpers: a table with one row per (user, item) pair, whose items are all in item_ids"""
        E.note("helpers are called on tables with one row per (user, item) pair and all of its items listed (established by the caller); ratio in [0, 1], number >= 0; ids, times and ratings are not missing; products computed without rounding")
        fn = m.split_train_test_userwise_time if time else m.split_train_test_userwise_random
        N = E.int("n_rows", lo=0)
        df = sym_frame(N, {"user": "id", "item": "id", "time": "real", "rating": "real"})
        its = IdSeq(hint="items")
        rowof = E.func("row_of_pair", "int", "int", "int")
        u0, i0 = df.cols["user"].f_, df.cols["item"].f_

        def facts(r):
            a, b = u0(r), i0(r)
            inr = z3.And(term(r) >= 0, term(r) < N.t)
            E.fact(z3.Implies(inr, z3.And(rowof(a.t, b.t) == term(r), bterm(its.member(b)))))
        busy = []

        def hook(f):
            def g(r):
                if not busy:
                    busy.append(1)
                    try:
                        facts(r)
                    finally:
                        busy.pop()
                return f(r)
            return g
        df.cols["user"].f_, df.cols["item"].f_ = hook(u0), hook(i0)
        cols0 = dict(df.cols)
        U, I, T, R = (df.cols[c] for c in ("user", "item", "time", "rating"))
        mode = E.choose(3, "mode")
        rated = E.choose(2, "rating column") == 1
        ratio = E.float("ratio")
        E.assume(sand(ratio >= 0, ratio <= 1))
        n = E.int("n_heldout", lo=0) if mode == 0 else None
        kw = dict(df_=df, user_column="user", item_column="item", item_ids=its, heldout_ratio=ratio, n_heldout=n, rating_column="rating" if rated else None, ceil_n_heldout=mode == 2)
        kw.update(dict(time_column="time") if time else dict(rns=RandomState(0)))
        out = E.attempt(fn, **kw)
        tag = "%s, %s" % ("by time" if time else "at random", MODES[mode])
        E.prove("%s: returns" % tag, out.returned)
        if not out.returned:
            return
        d = out.value
        E.reach("held-out split " + tag)
        A, B, ids = d.X_train, d.X_test, as_id_seq(d.user_ids)
        E.prove("%s: one row per user, one column per item" % tag, sand(*[sand(mkbool(same(X.shape[0], ids.n)), mkbool(same(X.shape[1], its.n))) for X in (A, B)]))
        E.prove("%s: the caller's table is not modified" % tag, not df.writes and all(df.cols[k] is v for k, v in cols0.items()))
        r = E.int("r", lo=0, hi=N)
        E.rowhints.append(r)
        u, it = U.f(r), I.f(r)
        E.prove("%s: every user of the table has a row" % tag, ids.member(u))
        a, b = ids.position(u), its.position(it)
        va, vb = A.at(a, b), B.at(a, b)
        sa, sb = stored(A, a, b), stored(B, a, b)
        E.prove("%s: every pair is in exactly one matrix" % tag, z3.Xor(sa, sb))
        E.prove("%s: every pair has its rating (or 1)" % tag, z3.If(sa, z3.And(bterm(same(va, R.f(r) if rated else 1.0)), bterm(same(vb, 0.0))), z3.And(bterm(same(vb, R.f(r) if rated else 1.0)), bterm(same(va, 0.0)))))
        i, j = E.int("i", lo=0, hi=ids.n), E.int("j", lo=0, hi=its.n)
        x, y = ids.at(i), its.at(j)
        ta, tb = stored(A, i, j), stored(B, i, j)
        ws = [w(i, j) for w in E.coo_witnesses]
        E.prove("%s: no other cell is set" % tag, z3.Implies(z3.Or(ta, tb), z3.Or(*[z3.And(term(w) >= 0, term(w) < N.t, U.f(w).t == x.t, I.f(w).t == y.t) for w in ws])))
        size = lambda Nn: z3.If(n.t < Nn, n.t, Nn) if mode == 0 else z3.ToInt(ratio.t * Nn) if mode == 1 else -z3.ToInt(-(ratio.t * Nn))
        Nu = E.int("N_u", lo=0)
        if time:
            space = ((z3.IntVal(0), term(N)),)
            s = E.int("s", lo=0, hi=N)
            E.rowhints.append(s)
            E.prove("%s: no kept item is later than a held-out item of the same user" % tag,
                    z3.Implies(z3.And(U.f(s).t == u.t, sa, stored(B, a, its.position(I.f(s)))), bterm(T.f(r) <= T.f(s))))

            def inB(k):
                E.rowhints.append(SInt(k))
                ids.member(U.f(SInt(k))), its.member(I.f(SInt(k)))
                g = stored(B, ids.position(U.f(SInt(k))), its.position(I.f(SInt(k))))
                E.rowhints.pop()
                return g
            tot = E.agg(space, lambda k: z3.RealVal(1), lambda k: U.f(SInt(k)).t == x.t)
            ho = E.agg(space, lambda k: z3.RealVal(1), lambda k: z3.And(U.f(SInt(k)).t == x.t, inB(k)))
            E.fact(z3.ToReal(Nu.t) == tot.t)
            for c in E.cumcounts:
                E.relate(tot, c.cnt.agg(x))
                E.relate(ho, Rank.apply(c, x, n if mode == 0 else SInt(size(Nu.t))))
        else:
            space = ((z3.IntVal(0), term(its.n)),)
            tot = E.agg(space, lambda k: z3.RealVal(1), lambda k: z3.Or(stored(A, i, SInt(k)), stored(B, i, SInt(k))))
            ho = E.agg(space, lambda k: z3.RealVal(1), lambda k: stored(B, i, SInt(k)))
            E.fact(z3.ToReal(Nu.t) == tot.t)
            for q in E.splits:
                q.row(i)
        E.prove("%s: exactly the stated number of each user's items is held out" % tag, ho.t == z3.ToReal(size(Nu.t)))

    V.explore(MOD + ".split_train_test_userwise_random", lambda E: helper(E, False))
    V.explore(MOD + ".split_train_test_userwise_time", lambda E: helper(E, True))

    calls = []

    def stub(name, time):
        real_fn = getattr(m, name)
        names = [a for a in inspect.signature(getattr(real_fn, "__wrapped__", real_fn)).parameters]

        def f(*a, **k):
            args = dict(zip(names, a), **k)
            df = args.get("df_")
            if not isinstance(df, Frame):
                unsupported("helper called without a table")
            res = types.SimpleNamespace(args=args, time=time, df=df, user_ids=Distinct(df.rows, df.cols["user"].f, None, "helper_users"))
            calls.append(res)
            return res
        return f
    for name, time in (("split_train_test_userwise_random", False), ("split_train_test_userwise_time", True)):
        if hasattr(m, name):
            setattr(m, name, stub(name, time))

    def spec(E, counts):
        E.note("the table is not empty; requested numbers of users are >= 0, ratios in [0, 1]")
        del calls[:]
        N = E.int("n_rows", lo=1)
        df = sym_frame(N, {"user": "id", "item": "id", "time": "real", "rating": "real"})
        cols0 = dict(df.cols)
        U, I, T, R = (df.cols[c] for c in ("user", "item", "time", "rating"))
        # covering array of (time column, rating column, fixed numbers, ceil): every pair of settings
        time, rated, fixed, ceil = ((0, 0, 0, 0), (0, 1, 1, 1), (1, 0, 1, 0), (1, 1, 0, 1), (1, 0, 0, 1), (0, 1, 0, 0), (0, 0, 1, 0))[E.choose(4 if V.tier == "quick" else 7, "settings")]
        time, rated, fixed, ceil = bool(time), bool(rated), bool(fixed), bool(ceil)
        kw = dict(rating_column="rating" if rated else None, random_state=RandomState(0), ceil_n_heldout=ceil)
        if time:
            kw["time_column"] = "time"
        ratio = {n: E.float("ratio_" + n) for n in NAMES[1:]}
        num = {n: E.int("num_" + n, lo=0) if fixed else None for n in NAMES[1:]}
        for n in NAMES[1:]:
            kw["heldout_ratio_" + n], kw["n_heldout_" + n] = ratio[n], num[n]
        req = {}
        for n, given in zip(NAMES[1:], counts):
            if given:
                req[n] = kw["n_%s_user" % n] = E.int("n_%s_user" % n, lo=0)
            else:
                req[n] = kw[n + "_user_ratio"] = E.float(n + "_user_ratio")
                E.assume(sand(req[n] >= 0, req[n] <= 1))
        out = E.attempt(m.split_dataframe_partial_user_holdout, df, "user", "item", **kw)
        alls = df["user"].unique().ids_()
        nall = alls.n
        want = {n: term(req[n]) if g else z3.ToInt(req[n].t * z3.ToReal(term(nall))) for n, g in zip(NAMES[1:], counts)}
        if E.decide(want["val"] + want["test"] > term(nall)):
            E.prove("more held-out users than exist raise ValueError", out.raised(ValueError))
            return
        E.prove("returns", out.returned)
        if not out.returned:
            return
        data, items = out.value
        E.reach("partial user holdout, numbers of users " + "/".join("given" if c else "by ratio" for c in counts))
        E.prove("train, val and test datasets", sorted(data) == sorted(NAMES))
        its = as_id_seq(items)
        res = {n: data[n] for n in NAMES[1:]}
        if not all(any(r is c for c in calls) for r in res.values()):
            unsupported("validation/test data not built by the contracted helpers")
        for n in NAMES[1:]:
            a = res[n].args
            ok = res[n].time == time and same_arg(a.get("user_column"), "user") and same_arg(a.get("item_column"), "item") and same_arg(a.get("rating_column"), kw["rating_column"]) \
                and (not time or same_arg(a.get("time_column"), "time"))
            E.prove("%s: the table's own columns and the requested kind of split are used" % n, ok)
            E.prove("%s: its own held-out number, ratio and rounding are used" % n,
                    sand(mkbool(same(a["heldout_ratio"], ratio[n])), (mkbool(same(a["n_heldout"], num[n])) if fixed else a["n_heldout"] is None), True if fixed else a.get("ceil_n_heldout", False) == ceil))
            E.prove("%s: columns are the returned items" % n, as_id_seq(a["item_ids"]) is its or a["item_ids"] is items)
        ids = as_id_seq(data["train"].user_ids)
        Fr = {n: res[n].df for n in res}
        r = E.int("r", lo=0, hi=N)
        p = SInt(z3.Int(E.fresh_name("first_row")))
        key = lambda a, b: z3.And(U.f(a).t == U.f(b).t, I.f(a).t == I.f(b).t)
        E.assume(z3.And(p.t >= 0, p.t <= r.t, key(p, r)))
        minimal = lambda s: E.fact(z3.Implies(z3.And(s.t >= 0, s.t < N.t, key(s, r)), p.t <= s.t))
        E.rowhints.append(r)
        E.rowhints.append(p)
        minimal(r)
        for d in E.dedups:
            for row in (r, p):
                d.ask(row)
                minimal(d.rep(row))
        u, it = U.f(r), I.f(r)
        tr = bterm(ids.member(u))
        inF = {n: Fr[n].rows.member(p) for n in Fr}
        E.prove("every item of the table has a column", its.member(it))
        E.prove("every user is in exactly one of train, validation and test", z3.And(z3.Or(tr, *inF.values()), z3.Not(z3.And(tr, inF["val"])), z3.Not(z3.And(tr, inF["test"])), z3.Not(z3.And(inF["val"], inF["test"]))))
        for n in Fr:
            E.prove("%s: only first-listed rows of a pair, unchanged" % n, z3.And(z3.Implies(Fr[n].rows.member(r), r.t == p.t), *[bterm(same(Fr[n].cols[c].f(r), v.f(r))) for c, v in cols0.items() if c in Fr[n].cols]))
            E.prove("%s: a pair's first-listed row is there exactly if its user is" % n, z3.Implies(inF[n], bterm(res[n].user_ids.member(u))))
            w = SInt(res[n].user_ids.wit(u.t))
            E.rowhints.append(w)
            E.prove("%s: all pairs of its users are there" % n, z3.Implies(bterm(res[n].user_ids.member(u)), inF[n]))
            E.rowhints.pop()

        def wit(x):
            hr = SInt(alls.wit(x.t))
            E.rowhints.append(hr)
            for d in E.dedups:
                d.ask(hr)
                E.rowhints.append(d.rep(hr))
        for n in NAMES[1:]:
            # the helper's user list and a window of the shuffled ids have the same members, hence the same size
            k0 = len(E.rowhints)
            for w in list(E.windows) + [EmptyIds()]:
                if E.valid(term(w.n) == want[n]) and same_size(res[n].user_ids, w, wit):
                    break
            del E.rowhints[k0:]
            E.prove("%s: exactly the requested number of users" % n, term(res[n].user_ids.n) == want[n])
        X = data["train"].X_train
        E.prove("train: one row per user, one column per item", sand(*[sand(mkbool(same(Y.shape[0], ids.n)), mkbool(same(Y.shape[1], its.n))) for Y in (X, data["train"].X_test)]))
        a, b = ids.position(u), its.position(it)
        E.prove("train: every pair of its users is there, with the rating of its first-listed row", z3.Implies(tr, z3.And(stored(X, a, b), bterm(same(X.at(a, b), R.f(p) if rated else 1.0)))))
        i, j = E.int("i", lo=0, hi=ids.n), E.int("j", lo=0, hi=its.n)
        x, y = ids.at(i), its.at(j)
        ws = [w(i, j) for w in E.coo_witnesses]
        E.prove("train: no other cell is set", z3.Implies(stored(X, i, j), z3.Or(*[z3.And(term(w) >= 0, term(w) < N.t, U.f(w).t == x.t, I.f(w).t == y.t) for w in ws])))
        E.prove("train: nothing is held out", z3.Not(stored(data["train"].X_test, i, j)))
        E.prove("the caller's table is not modified", not df.writes and all(df.cols[k] is v for k, v in cols0.items()))

    for counts in ((1, 1), (0, 0), (1, 0), (0, 1)):
        V.explore(MOD + ".split_dataframe_partial_user_holdout", lambda E, c=counts: spec(E, c))


def same_arg(a, b):
    return a is None and b is None or (isinstance(a, str) and a == b)
