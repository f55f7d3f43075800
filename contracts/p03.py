"""P03: irspack.split.time.split_last_n_interaction_df"""
import z3
from pyvc.core import *
from pyvc.pdmodel import sym_frame, Frame, Rank

MOD = "irspack.split.time"
FN = MOD + ".split_last_n_interaction_df"
CASES = ("fixed n", "ratio, rounded down", "ratio, rounded up")


def run(V):
    L = V.loader()
    m = L.load(MOD)

    def spec(E):
        E.note("0 <= heldout_ratio <= 1, n_heldout >= 0; user ids and times are not missing; ratio*N is computed without rounding")
        N = E.int("n_rows", lo=0)
        df = sym_frame(N, {"user": "id", "time": "real", "other": "real"})
        cols0 = dict(df.cols)
        U, T = df.cols["user"], df.cols["time"]
        case = E.choose(3, "mode")
        tag = CASES[case]
        ratio = E.float("ratio")
        E.assume(sand(ratio >= 0, ratio <= 1))
        n = E.int("n_heldout", lo=0) if case == 0 else None
        kw = {}
        if case == 2:
            kw["ceil_n_heldout"] = True
        out = E.attempt(m.split_last_n_interaction_df, df, "user", "time", n, ratio, **kw)
        E.prove("%s: returns two tables" % tag, out.returned and len(out.value) == 2)
        if not out.returned:
            return
        A, B = out.value
        if not (isinstance(A, Frame) and isinstance(B, Frame)):
            unsupported("result is not a table")
        E.reach("time split, " + tag)
        r = E.int("r", lo=0, hi=N)
        s = E.int("s", lo=0, hi=N)
        E.rowhints.extend([r, s])
        E.prove("%s: the tables have the input's columns" % tag, list(A.cols) == list(cols0) == list(B.cols))
        E.prove("%s: every row is in exactly one of the tables" % tag, z3.Xor(A.rows.member(r), B.rows.member(r)))
        E.prove("%s: rows are unchanged" % tag, sand(*[mkbool(same(F.cols[c].f(r), v.f(r))) for F in (A, B) for c, v in cols0.items() if c in F.cols]))
        E.prove("%s: no row of a user in the first table is later than one in the second" % tag,
                z3.Implies(z3.And(A.rows.member(r), B.rows.member(s), U.f(r).t == U.f(s).t), bterm(T.f(r) <= T.f(s))))
        u = E.id("u")
        space = ((z3.IntVal(0), term(N)),)
        nu = E.agg(space, lambda k: z3.RealVal(1), lambda k: U.f(SInt(k)).t == u.t)
        held = E.agg(space, lambda k: z3.RealVal(1), lambda k: z3.And(B.rows.member(k), U.f(SInt(k)).t == u.t))
        Nu = E.int("N_u", lo=0)
        E.fact(z3.ToReal(Nu.t) == nu.t)
        want = z3.If(n.t < Nu.t, n.t, Nu.t) if case == 0 else z3.ToInt(ratio.t * Nu.t) if case == 1 else -z3.ToInt(-(ratio.t * Nu.t))
        for c in E.cumcounts:
            c.cnt(u, define=True)
            t = n if case == 0 else SInt(want)
            Rank.apply(c, u, t)
        E.prove("%s: each user has exactly the stated number of rows in the second table" % tag, held.t == z3.ToReal(want))
        E.prove("%s: the caller's table is not modified" % tag, not df.writes and all(df.cols[k] is v for k, v in cols0.items()))

    V.explore(FN, spec)
