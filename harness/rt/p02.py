import math
import numpy as np, scipy.sparse as sps
from irspack.utils import rowwise_train_test_split

def split_case(c):
    n, m = c.integer(0, 6), c.integer(1, 12)
    dtype = c.pick([np.float64, np.float64, np.float32, np.int64, np.int32])
    X = c.sparse(n, m, dtype=dtype, values=c.pick(["bin", "pos", "any"]) if dtype in (np.float64, np.float32) else "bin")
    if dtype in (np.int64, np.int32) and X.nnz:
        X.data = (X.data * c.rng.randint(1, 9, X.nnz)).astype(dtype)
    ratio = c.pick([0.0, 1.0, 0.5, 0.1, 0.3, 0.25, 0.9, float(c.rng.rand()), 1 / 3, 0.7])
    n_test = c.pick([None, None, 0, 1, 2, 3, 100])
    ceil = c.chance()
    seed = c.integer(0, 10**6)
    c.note(X=X, ratio=ratio, n_test=n_test, ceil=ceil, seed=seed, dtype=str(np.dtype(dtype)))
    X0 = X.copy()
    f = lambda rs: rowwise_train_test_split(X, test_ratio=ratio, n_test=n_test, ceil_n_heldout=ceil, random_state=rs)
    tr, te = f(seed)
    for nm, p in (("train", tr), ("test", te)):
        c.expect(p.shape == X.shape, "%s part has shape %r" % (nm, p.shape))
        c.expect(p.dtype == X.dtype, "%s part has element type %s" % (nm, p.dtype))
    c.equal(tr.toarray() + te.toarray(), X.toarray(), "the two parts do not add up to the input")
    c.equal(X.toarray(), X0.toarray(), "the input was modified")
    a = set(zip(*[x.tolist() for x in tr.tocoo().coords])) if hasattr(tr.tocoo(), "coords") else set(zip(tr.tocoo().row.tolist(), tr.tocoo().col.tolist()))
    t = te.tocoo(); b = set(zip(t.row.tolist(), t.col.tolist()))
    t = tr.tocoo(); a = set(zip(t.row.tolist(), t.col.tolist()))
    c.expect(not (a & b), "parts share a stored cell")
    Xr = X.tocsr()
    for r in range(n):
        N = int(Xr.indptr[r + 1] - Xr.indptr[r])
        want = min(N, n_test) if n_test is not None else int(math.ceil(N * ratio) if ceil else math.floor(N * ratio))
        c.expect(len([1 for (x, y) in b if x == r]) == want, "row %d with %d entries has %d test entries, expected %d" % (r, N, len([1 for (x, y) in b if x == r]), want))
    tr2, te2 = f(seed)
    c.equal(te2.toarray(), te.toarray(), "same seed gave a different split")
    tr3, te3 = f(np.random.RandomState(seed))
    c.equal(te3.toarray(), te.toarray(), "RandomState(seed) and seed give different splits")

def wide_rows(c):
    m = c.pick([50, 200, 1000])
    X = sps.csr_matrix((c.rng.rand(3, m) < 0.7) * (c.rng.rand(3, m) + 0.25))
    ratio = float(c.rng.rand()); ceil = c.chance()
    c.note(ratio=ratio, m=m, ceil=ceil)
    tr, te = rowwise_train_test_split(X, ratio, None, ceil, c.integer(0, 99))
    c.equal((tr + te).toarray(), X.toarray(), "parts do not add up")
    for r in range(3):
        N = X[r].nnz
        c.expect(te[r].nnz == int(math.ceil(N * ratio) if ceil else math.floor(N * ratio)), "row %d: %d of %d" % (r, te[r].nnz, N))
        c.expect(tr[r].nnz + te[r].nnz == N, "row %d loses entries" % r)

def bad_ratio(c):
    X = c.sparse(3, 4, density=0.5)
    for r in (-0.1, 1.1, float(2 + c.rng.rand())):
        c.note(ratio=r)
        with c.raises("ratio %r accepted" % r):
            rowwise_train_test_split(X, r, random_state=0)

CASES = [split_case, split_case, split_case, wide_rows, bad_ratio]
MAXN = dict(quick=6000, thorough=100000)
