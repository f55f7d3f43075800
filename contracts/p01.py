"""P01: irspack.utils.df_to_sparse"""
import z3
from pyvc.core import *
from pyvc import rt
from pyvc.rt import IdSeq
from pyvc.pdmodel import sym_frame, IdVec
from pyvc.spmodel import SpM

MOD = "irspack.utils"


def run(V):
    L = V.loader()
    m = L.load(MOD, skip_init=False) if False else L.load(MOD)

    def spec(E):
        E.note("values are real numbers (float64 rounding of the sums is not modelled); ids are not missing; supplied ids are distinct")
        N = E.int("n_rows", lo=0)
        df = sym_frame(N, {"user": "id", "item": "id", "rating": "real", "other": "real"})
        given_u, given_i, rated = E.choose(2, "user ids given"), E.choose(2, "item ids given"), E.choose(2, "rating column")
        uids = IdSeq(hint="uids") if given_u else None
        iids = IdSeq(hint="iids") if given_i else None
        cols0 = dict(df.cols)
        out = E.attempt(m.df_to_sparse, df, "user", "item", uids, iids, "rating" if rated else None)
        E.prove("df_to_sparse: returns", out.returned)
        if not out.returned:
            return
        X, ru, ri = out.value
        U, I = df.cols["user"], df.cols["item"]
        tag = "%s user ids, %s item ids%s" % ("supplied" if given_u else "own", "supplied" if given_i else "own", ", ratings" if rated else "")
        E.reach("df_to_sparse " + tag)
        keep = lambda r: sand(uids.member(U.f(r)) if given_u else True, iids.member(I.f(r)) if given_i else True)
        for side, given, got, col, ax in (("user", uids, ru, U, 0), ("item", iids, ri, I, 1)):
            E.prove("df_to_sparse: %s ids label the axis (length)" % side, same(rt.length(got), X.shape[ax]))
            j = E.int("j", lo=0, hi=X.shape[ax])
            if given is not None:
                E.prove("df_to_sparse: supplied %s ids are kept in the given order" % side, sand(mkbool(same(X.shape[ax], given.n)), got.at(j) == given.at(j)))
            else:
                j2 = E.int("j2", lo=0, hi=X.shape[ax])
                E.prove("df_to_sparse: own %s ids are ascending" % side, z3.Implies(term(j) < term(j2), bterm(got.at(j) < got.at(j2))))
                # every listed id is in a kept row: its own witness; every kept row's id is listed
                r = E.int("r", lo=0, hi=N)
                E.rowhints.append(r)
                E.assume(keep(r))
                E.prove("df_to_sparse: every %s id of a kept row is listed" % side, sand(got.member(col.f(r)), mkbool(same(got.at(got.position(col.f(r))), col.f(r)))))
                w = got.ids_().wit(got.at(j).t) if isinstance(got, IdVec) and hasattr(got.ids_(), "wit") else None
                if w is None:
                    unsupported("ids without a witness row")
                E.prove("df_to_sparse: every listed %s id is in a kept row" % side, z3.And(w >= 0, w < N.t, bterm(keep(SInt(w))), col.f(SInt(w)).t == got.at(j).t))
        i, j = E.int("i", lo=0, hi=X.shape[0]), E.int("j", lo=0, hi=X.shape[1])
        E.prove("df_to_sparse: the result is a csr matrix", isinstance(X, SpM) and X.fmt == "csr")
        a, b = ru.at(i), ri.at(j)
        val = (lambda r: df.cols["rating"].f(r).t) if rated else (lambda r: z3.RealVal(1))
        want = E.agg(((z3.IntVal(0), term(N)),), lambda r: val(SInt(r)), lambda r: z3.And(U.f(SInt(r)).t == a.t, I.f(SInt(r)).t == b.t))
        E.prove("df_to_sparse: each cell is the sum of the values of exactly its rows", same(X.at(i, j), want))
        E.prove("df_to_sparse: the caller's table is not modified", not df.writes and all(df.cols[k] is v for k, v in cols0.items()))

    V.explore(MOD + ".df_to_sparse", spec)
