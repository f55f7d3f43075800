"""P11: Evaluator._get_scores_as_list, _get_scores_from_score_matrix_as_list, _get_scores_from_score_chunks_as_list, _get_metrics, __init__"""
import z3
from pyvc.core import *
from pyvc import rt
from pyvc.rt import VList, VSeq
from pyvc.npmodel import Arr, as_arr, float64, float32, int64, sel
from pyvc.spmodel import sym_sparse
from contracts import evalmodel as M

MOD = "irspack.evaluation.evaluator"
NINF = -float("inf")


def masked(mask, i, j, s):
    return sel(z3.Not(same(mask(i, j), 0.0)), NINF, s) if mask is not None else s


def seq_of(v):
    return v.sym if isinstance(v, VList) and v.sym is not None else v


class Cutoffs(VSeq):
    def __init__(self, E):
        f = E.func("cutoffs", "int", "int")
        VSeq.__init__(self, E.int("n_cutoffs", lo=0), lambda i: mkint(f(term(i))), "list")


def result_of(E, R, cuts, i0):
    """the statistics behind entry i0 of the returned list"""
    E.prove("one result per cutoff", rt.length(R) == cuts.n)
    r = seq_of(R).at(i0)
    if not isinstance(r, M.Report):
        unsupported("result is not a metric dictionary")
    of = r.of
    if not hasattr(of, "k"):
        unsupported("statistics are not those of a list over the cutoffs")
    E.prove("result k is made of the statistics of cutoff k", of.k == i0)
    return of


def block_ok(E, ev, p, i0, cuts, tag):
    E.prove("scores are handed over as float32 or float64 tables of all items" + tag, sand(p.ok, p.cols == ev.n_items) if p.ok else False)
    E.prove("every block is scored at the requested cutoff" + tag, p.cutoff == cuts.at(i0))
    E.prove("recall variant, threads and ground truth are the evaluator's" + tag, sand(p.rwc is ev.recall_with_cutoff, p.n_threads is ev.n_threads, p.core is ev.core))


def cover(E, n, f, n_users, tag, extra=None):
    """the blocks are consecutive row ranges from 0 to n_users: every user is in exactly one of them (induction on k)"""
    k = E.int("k", lo=0, hi=n)
    ps = f(k)
    E.prove("one block per step" + tag, len(ps) == 1)
    if len(ps) != 1:
        return None
    p = ps[0]
    E.prove("blocks are not empty" + tag, p.rows >= 1)
    E.prove("the first block starts at the first user" + tag, z3.Implies(k.t == 0, term(p.begin) == 0))
    E.prove("the last block ends at the last user" + tag, z3.Implies(k.t + 1 == term(n), term(p.begin) + term(p.rows) == term(n_users)))
    if E.choose(2, "consecutive blocks"):
        if E.decide(k.t + 1 < term(n)):
            q = f(k + 1)
            if len(q) == 1:
                E.reach("consecutive blocks" + tag)
                E.prove("the next block starts where the previous ends" + tag, q[0].begin == p.begin + p.rows)
        return None
    return p


def run(V):
    L = V.loader({"irspack.evaluation._core_evaluator": M.module()})
    m = L.load(MOD)
    E.note("EvaluatorCore and Metrics (C++): contracts P12, P13; mb_size >= 1, offset >= 0")
    E.note("consecutive row ranges starting at 0, each beginning where the previous ends, the last ending at n_users contain every row exactly once (induction)")

    def evaluator(E, cls=None, **kw):
        n_users, n_items = E.int("n_users", lo=0), E.int("n_items", lo=0)
        gt = sym_sparse("truth", (n_users, n_items), fmt="csr")
        given = E.choose(2, "mask given")
        mask = sym_sparse("mask", (n_users, n_items), fmt=("csr", "csc")[E.choose(2, "mask format")]) if given else None
        out = E.attempt(m.Evaluator, gt, masked_interactions=mask, n_threads=E.int("n_threads", lo=1), mb_size=E.int("mb_size", lo=1), **kw)
        E.prove("Evaluator.__init__: accepts a ground truth and a mask of its shape", out.returned)
        if not out.returned:
            raise PathDone()
        ev = out.value
        E.prove("Evaluator.__init__: the ground truth is evaluated", sand(*[mkbool(same(ev.core.ground_truth.at(a, b), gt.at(a, b))) for a, b in [(E.int("gi", lo=0, hi=n_users), E.int("gj", lo=0, hi=n_items))]]))
        return ev, (mask.snapshot() if given else None), n_users, n_items

    class Model:
        def __init__(self, E, n_items):
            self.n_users, self.n_items = E.int("model_users", lo=0), n_items
            self.X_train_all = sym_sparse("X", (self.n_users, n_items), fmt="csr")
            F, K = E.func("F", "int", "int", "real"), E.func("FK", "int", "int", "int")

            def cell(u, j):
                E.fact(z3.And(K(term(u), term(j)) >= -1, K(term(u), term(j)) <= 2))
                return SFloat(F(term(u), term(j)), K(term(u), term(j)))
            self.cell = cell
            self.block = E.choose(2, "block scores implemented")
            self.dtype = (float64, float32)[E.choose(2, "score type")]

        def get_score_block(self, b, e):
            if not self.block:
                raise NotImplementedError()
            return Arr((e - b, self.n_items), lambda i, j: self.cell(b + i, j), self.dtype)

        def get_score(self, users):
            users = as_arr(users)
            s = users.snapshot()
            return Arr((users.shape[0], self.n_items), lambda i, j: self.cell(s(i), j), self.dtype)

    def known(E):
        offset = E.int("offset", lo=0)
        ev, mask, n_users, n_items = evaluator(E, offset=offset)
        mod = Model(E, E.int("model_items", lo=0) if E.choose(2, "model width") else n_items)
        cuts = Cutoffs(E)
        out = E.attempt(ev._get_scores_as_list, mod, cuts)
        if E.decide(z3.Or(term(mod.n_items) != term(n_items), offset.t + n_users.t > term(mod.n_users))):
            E.reach("mismatching model")
            E.prove("a model of other size raises", not out.returned)
            return
        E.prove("a matching model is evaluated", out.returned)
        if not out.returned:
            return
        if not E.decide(term(cuts.n) > 0):
            E.prove("no cutoff, no result", rt.length(out.value) == 0)
            return
        tag = ", %s" % ("given mask" if mask else "training interactions masked")
        i0 = E.int("i0", lo=0, hi=cuts.n)
        of = result_of(E, out.value, cuts, i0)
        n, f = M.parts(of, i0, cuts.n)
        E.reach("model evaluated" + tag)
        E.prove("users are evaluated if there are any" + tag, z3.Implies(n_users.t > 0, term(n) > 0))
        if not E.decide(term(n) > 0):
            return
        p = cover(E, n, f, n_users, tag)
        if p is None:
            return
        E.reach("a block" + tag)
        block_ok(E, ev, p, i0, cuts, tag)
        r, j = E.int("r", lo=0, hi=p.rows), E.int("j", lo=0, hi=n_items)
        u = p.begin + r
        X = mod.X_train_all.snapshot()
        want = masked(mask, u, j, mod.cell(u + offset, j)) if mask else masked(X, u + offset, j, mod.cell(u + offset, j))
        E.prove("scores are the user's, minus infinity at the user's masked entries" + tag, mkbool(same(p.score(r, j), want)))
    V.explore(MOD + ".Evaluator._get_scores_as_list", known)

    class Stream(VSeq):
        """arbitrary score blocks, well-formed or not"""

        def __init__(self, E, n_items):
            self.n, self.kind, self.n_items = E.int("n_chunks", lo=0), "gen", n_items
            self.rows, self.cols, self.what = E.func("rows", "int", "int"), E.func("cols", "int", "int"), E.func("what", "int", "int")
            self.F, self.K = E.func("F", "int", "int", "int", "real"), E.func("FK", "int", "int", "int", "int")
            self.made, self.last, self.wellformed = [], None, False

        def cell(self, k, i, j):
            a = (term(k), term(i), term(j))
            E.fact(z3.And(self.K(*a) >= -1, self.K(*a) <= 2))
            return SFloat(self.F(*a), self.K(*a))

        def good(self, k):
            return z3.And(self.what(term(k)) <= 1, self.cols(term(k)) == term(self.n_items))

        def at(self, k):
            w = self.what(term(k))
            self.last = k
            if self.wellformed:
                E.fact(self.good(k))
            E.fact(z3.And(w >= 0, w <= 4, self.rows(term(k)) >= 0, self.cols(term(k)) >= 0))
            r, c = mkint(self.rows(term(k))), mkint(self.cols(term(k)))
            dt = float64
            if E.decide(w <= 1):
                dt = float64 if E.decide(w == 0) else float32
            elif E.decide(w == 2):
                dt = int64
            elif E.decide(w == 3):
                return self.keep(Arr((r,), lambda i: self.cell(k, i, 0), dt))
            else:
                return VList([[0.0]])
            return self.keep(Arr((r, c), lambda i, j: self.cell(k, i, j), dt))

        def keep(self, a):
            self.made.append(a)
            return a

    def stream(E):
        ev, mask, n_users, n_items = evaluator(E)
        S = Stream(E, n_items)
        cuts = Cutoffs(E)
        out = E.attempt(ev._get_scores_from_score_chunks_as_list, S, cuts)
        E.prove("the caller's blocks are not modified", all(a.mut < 0 for a in S.made))
        acc = [a for a in E.accs]
        if not out.returned:
            E.reach("stream rejected")
            return
        tag = ", %s" % ("given mask" if mask else "no mask")
        if not E.decide(term(S.n) > 0):
            E.prove("an empty stream is accepted only without users", n_users == 0)
            return
        # rows before block k: P(0) = 0, P(k+1) = P(k) + rows(k)
        k = E.int("k", lo=0, hi=S.n)
        starts = [a for a in acc if E.valid(term(a.entry) == 0)]
        if len(starts) != 1:
            unsupported("rows are not counted by one running total")
        P = starts[0]
        E.prove("every block is well-formed" + tag, S.good(k)) if P.delta(k) is not None else None
        P.step(k)
        E.prove("the running total grows by the rows of every block" + tag, term(P.at(k + 1)) == term(P.at(k)) + S.rows(k.t))
        E.prove("the rows add up to the number of users" + tag, P.at(S.n) == n_users)
        if not E.decide(term(cuts.n) > 0):
            return
        i0 = E.int("i0", lo=0, hi=cuts.n)
        of = result_of(E, out.value, cuts, i0)
        n, f = M.parts(of, i0, cuts.n)
        E.prove("one step per block" + tag, n == S.n)
        ps = f(k)
        if E.decide(S.rows(k.t) == 0):
            E.prove("empty blocks count nothing" + tag, all(E.valid(term(p.rows) == 0) for p in ps))
            return
        E.reach("a block of a stream" + tag)
        E.prove("every non-empty block is scored once" + tag, len(ps) == 1)
        if len(ps) != 1:
            return
        p = ps[0]
        block_ok(E, ev, p, i0, cuts, tag)
        E.prove("all rows of the block are scored" + tag, p.rows == mkint(S.rows(k.t)))
        E.prove("a block is scored against the users after the preceding rows" + tag, p.begin == P.at(k))
        r, j = E.int("r", lo=0, hi=p.rows), E.int("j", lo=0, hi=n_items)
        E.prove("scores are the block's, minus infinity at the users' masked entries" + tag, mkbool(same(p.score(r, j), masked(mask, P.at(k) + r, j, S.cell(k, r, j)))))
    V.explore(MOD + ".Evaluator._get_scores_from_score_chunks_as_list", stream)

    def accepted(E):
        """a well-formed stream with as many rows as users is evaluated"""
        ev, mask, n_users, n_items = evaluator(E)
        S = Stream(E, n_items)
        S.wellformed = True
        cuts = Cutoffs(E)
        Q = E.func("rows_before", "int", "int")
        E.fact(z3.And(Q(z3.IntVal(0)) == 0, Q(term(S.n)) == n_users.t))
        E.lemma("PrefixSum", "running totals of non-negative amounts never decrease")
        out = E.attempt(ev._get_scores_from_score_chunks_as_list, S, cuts)
        # two running totals of the same amounts (obligation "the running total grows by the rows of every block") agree as far as both go
        for a in E.accs:
            if E.valid(term(a.entry) == 0):
                E.fact(term(a.at(S.n)) == Q(term(S.n)))
                if S.last is not None:
                    E.fact(z3.Implies(z3.And(term(S.last) >= 0, term(S.last) < term(S.n)), term(a.at(S.last)) == Q(term(S.last))))
        if S.last is not None:
            k = term(S.last)
            E.fact(z3.Implies(z3.And(k >= 0, k < term(S.n)), z3.And(Q(k) >= 0, Q(k + 1) == Q(k) + S.rows(k), Q(k + 1) <= Q(term(S.n)))))
        E.reach("well-formed stream")
        E.prove("a well-formed stream with one row per user is evaluated", out.returned)
    V.explore(MOD + ".Evaluator._get_scores_from_score_chunks_as_list", accepted)

    def matrix(E):
        ev, mask, n_users, n_items = evaluator(E)
        rows, cols = E.int("rows", lo=0), E.int("cols", lo=0)
        dt = (float64, float32, int64)[E.choose(3, "type")]
        F = E.func("F", "int", "int", "real")
        S = Arr((rows, cols), lambda i, j: SFloat(F(term(i), term(j))) if dt is not int64 else mkint(z3.ToInt(F(term(i), term(j)))), dt) if E.choose(2, "two-dimensional") else Arr((rows,), lambda i: SFloat(F(term(i), z3.IntVal(0))), dt)
        cuts = Cutoffs(E)
        got = []

        def chunks(score_chunks, cutoffs):
            got.append((rt.iter_(score_chunks), cutoffs))
            return "result"
        object.__setattr__(ev, "_get_scores_from_score_chunks_as_list", chunks)
        out = E.attempt(ev._get_scores_from_score_matrix_as_list, S, cuts)
        bad = S.ndim != 2 or dt is int64 or E.decide(z3.Or(rows.t != n_users.t, cols.t != n_items.t))
        E.prove("the caller's scores are not modified", S.mut < 0)
        if bad:
            E.reach("unusable scores")
            E.prove("scores of another shape or type raise", not out.returned)
            return
        E.prove("a score table is evaluated as a stream of blocks", sand(out.returned, len(got) == 1) if out.returned else False)
        if not out.returned or len(got) != 1:
            return
        E.prove("the stream's result is returned, at the same cutoffs", sand(out.value == "result", got[0][1] is cuts))
        C = got[0][0]
        E.prove("there are blocks if there are users", z3.Implies(n_users.t > 0, term(C.n) > 0))
        if not E.decide(term(C.n) > 0):
            return
        E.reach("blocks of a score table")
        k = E.int("k", lo=0, hi=C.n)
        # the start of block k is proved through the running total: P(k+1) = P(k) + rows(k), P = k * mb_size while blocks are full
        c = as_arr(C.at(k))
        E.prove("blocks are not empty and have all items", sand(c.shape[0] >= 1, c.shape[1] == n_items) if c.ndim == 2 else False)
        E.prove("all blocks but the last have the same number of rows", z3.Implies(k.t + 1 < term(C.n), term(c.shape[0]) == term(ev.mb_size)))
        E.prove("the last block ends at the last row", z3.Implies(k.t + 1 == term(C.n), k.t * term(ev.mb_size) + term(c.shape[0]) == n_users.t))
        r, j = E.int("r", lo=0, hi=c.shape[0]), E.int("j", lo=0, hi=n_items)
        E.prove("row r of block k is row k*mb_size + r of the table", mkbool(same(c.at(r, j), S.at(k * ev.mb_size + r, j))))
    V.explore(MOD + ".Evaluator._get_scores_from_score_matrix_as_list", matrix)

    def badmask(E):
        n_users, n_items = E.int("n_users", lo=0), E.int("n_items", lo=0)
        a, b = E.int("mask_rows", lo=0), E.int("mask_cols", lo=0)
        E.assume(z3.Or(a.t != n_users.t, b.t != n_items.t))
        E.reach("mask of another shape")
        out = E.attempt(m.Evaluator, sym_sparse("truth", (n_users, n_items), fmt="csr"), masked_interactions=sym_sparse("mask", (a, b), fmt="csr"), n_threads=1)
        E.prove("a mask of another shape raises", out.raised(ValueError))
    V.explore(MOD + ".Evaluator.__init__", badmask)

    def dtype(E):
        """_get_metrics: scores of another type raise"""
        ev, mask, n_users, n_items = evaluator(E)
        s = Arr((n_users, n_items), lambda i, j: 0, int64)
        out = E.attempt(ev._get_metrics, s, 5, 0)
        E.reach("scores of another type")
        E.prove("scores of another type raise", not out.returned)
    V.explore(MOD + ".Evaluator._get_metrics", dtype)
