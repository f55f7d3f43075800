"""contract of the C++ row-wise split (proved under P02)"""
import types
import z3
from pyvc.core import *
from pyvc.core import E
from pyvc.models import Stub
from pyvc.spmodel import SpM, float64


def _split(X, size):
    """two parts of the stored cells: disjoint, together all of them; row i has size(number of stored cells of row i) in the second"""
    if not isinstance(X, SpM):
        unsupported("split of %s" % type(X).__name__)
    v, st = X.raw()
    t = E.func("in_test", "int", "int", "bool")
    test = lambda i, j: t(term(i), term(j))
    tr = SpM(X.shape, v, lambda i, j: mkbool(z3.And(bterm(st(i, j)), z3.Not(test(i, j)))), "csr", X.dtype)
    te = SpM(X.shape, v, lambda i, j: mkbool(z3.And(bterm(st(i, j)), test(i, j))), "csr", X.dtype)
    space = ((z3.IntVal(0), term(X.shape[1])),)
    done = []

    def row(i):
        if any(term(x).eq(term(i)) for x in done):
            return
        done.append(i)
        n = E.int("nnz_row", lo=0)
        al = E.agg(space, lambda k: z3.RealVal(1), lambda k: bterm(st(i, SInt(k))))
        he = E.agg(space, lambda k: z3.RealVal(1), lambda k: z3.And(bterm(st(i, SInt(k))), test(i, SInt(k))))
        E.fact(z3.ToReal(n.t) == al.t)
        E.fact(he.t == z3.ToReal(size(n.t)))
    E.splits.append(types.SimpleNamespace(row=row, X=X, train=tr, test=te))
    return tr, te


class SplitModel(Stub):
    def rowwise_train_test_split_by_ratio(self, X, seed, ratio, ceil):
        E.use("C++ rowwise_train_test_split_by_ratio (its contract is proved under P02): disjoint parts adding up to X, floor/ceil(ratio*N) stored entries of each row in the second; ratio outside [0, 1] raises ValueError")
        E.ghost.setdefault("split_calls", []).append(("ratio", X, seed, ratio, ceil))
        if E.decide(bterm(sor(ratio < 0, ratio > 1))):
            raise ValueError("test_ratio must be within [0, 1]")
        up = E.decide(bterm(ceil)) if not isinstance(ceil, bool) else ceil
        return _split(X, (lambda n: -z3.ToInt(-(real(ratio) * n))) if up else (lambda n: z3.ToInt(real(ratio) * n)))

    def rowwise_train_test_split_by_fixed_n(self, X, seed, n):
        E.use("C++ rowwise_train_test_split_by_fixed_n (its contract is proved under P02): disjoint parts adding up to X, min(N, n) stored entries of each row in the second")
        E.ghost.setdefault("split_calls", []).append(("fixed", X, seed, n, None))
        if E.decide(term(n) < 0):
            raise ValueError("n_held_out must be non-negative")
        return _split(X, lambda k: z3.If(term(n) < k, term(n), k))
