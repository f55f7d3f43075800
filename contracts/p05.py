"""P05: irspack.split.specified.holdout_specific_interactions"""
import z3
from pyvc.core import *
from pyvc import rt
from pyvc.npmodel import Arr, bool_
from pyvc.pdmodel import sym_frame, as_id_seq, Distinct, RandomState
from pyvc.spmodel import SpM

MOD = "irspack.split.specified"
FN = MOD + ".holdout_specific_interactions"


def run(V):
    L = V.loader()
    m = L.load(MOD)

    def spec(E):
        E.note("the indicator is a boolean mask over the rows (index arrays: bounded); ids are not missing; ratios are in [0, 1] and computed without rounding")
        N = E.int("n_rows", lo=0)
        df = sym_frame(N, {"user": "id", "item": "id", "other": "real"})
        cols0 = dict(df.cols)
        U, I = df.cols["user"], df.cols["item"]
        ff = E.func("specified", "int", "bool")
        flag = Arr((N,), lambda k: mkbool(ff(term(k))), bool_)
        rv, rt_ = E.float("ratio_val"), E.float("ratio_test")
        E.assume(sand(rv >= 0, rt_ >= 0, rv <= 1, rt_ <= 1))
        out = E.attempt(m.holdout_specific_interactions, df, "user", "item", flag, rv, rt_, RandomState(0))
        if E.decide(rv.t + rt_.t > z3.RealVal("1.0001")):
            E.prove("ratios adding up to more than 1 are rejected", out.raised(ValueError))
            return
        if E.decide(rv.t + rt_.t > 1):
            return
        E.prove("returns", out.returned)
        if not out.returned:
            return
        items, data = out.value
        E.prove("train, val and test datasets", sorted(data) == ["test", "train", "val"])
        E.reach("holdout of specified interactions")
        its = as_id_seq(items)
        names = ("train", "val", "test")
        ids = {n: as_id_seq(data[n].user_ids) for n in names}
        r = E.int("r", lo=0, hi=N)
        E.rowhints.append(r)
        u = U.f(r)
        mem = {n: bterm(ids[n].member(u)) for n in names}
        E.prove("every user is in exactly one of train, validation and test", z3.And(z3.Or(*mem.values()), *[z3.Not(z3.And(mem[a], mem[b])) for a, b in (("train", "val"), ("train", "test"), ("val", "test"))]))
        E.prove("every item of the table has a column", its.member(I.f(r)))
        witnesses = lambda x: [d.wit(x.t) for d, *_ in list(E.ghostmem.get("distinct", {}).values())]
        for n in names:
            d = data[n]
            M = (d.X_train, d.X_test)
            E.prove("%s: one row per user, one column per item" % n, sand(*[sand(mkbool(same(X.shape[0], ids[n].n)), mkbool(same(X.shape[1], its.n))) for X in M]))
            i, j, i2 = E.int("i", lo=0, hi=ids[n].n), E.int("j", lo=0, hi=its.n), E.int("i2", lo=0, hi=ids[n].n)
            a, b, a2 = ids[n].at(i), its.at(j), ids[n].at(i2)
            E.prove("%s: no user is listed twice" % n, z3.Implies(a.t == a2.t, i.t == i2.t))
            E.prove("%s: every listed user is in the table" % n, z3.Or(*[z3.And(w >= 0, w < N.t, U.f(SInt(w)).t == a.t) for w in witnesses(a)]))
            if n != "train":
                ids[n].member(a)
                E.prove("%s: every user has a specified interaction" % n, z3.Or(*[z3.And(w >= 0, w < N.t, U.f(SInt(w)).t == a.t, ff(w)) for w in witnesses(a)]))
            space = ((z3.IntVal(0), term(N)),)
            for part, X, keep in (("train", M[0], (lambda k: z3.Not(ff(k))) if n != "train" else (lambda k: z3.BoolVal(True))), ("held-out", M[1], (lambda k: ff(k)) if n != "train" else (lambda k: z3.BoolVal(False)))):
                want = E.agg(space, lambda k: z3.RealVal(1), lambda k: z3.And(U.f(SInt(k)).t == a.t, I.f(SInt(k)).t == b.t, keep(k)))
                E.prove("%s: each cell of the %s matrix counts exactly its rows" % (n, part), same(X.at(i, j), want))
        E.prove("the caller's table is not modified", not df.writes and all(df.cols[k] is v for k, v in cols0.items()))

    V.explore(FN, spec)
