import numpy as np, pandas as pd, scipy.sparse as sps
from irspack.split import UserTrainTestInteractionPair as Pair

def mk(c, n, m, test=True):
    ids = c.ids(n)
    A = c.sparse(n, m, values=c.pick(["bin", "pos", "any"]), explicit_zero=c.chance(0.3), dtype=c.pick([np.float64, np.float32]))
    B = c.sparse(n, m, values=c.pick(["bin", "pos", "any"]), explicit_zero=c.chance(0.3), dtype=A.dtype) if test else None
    if c.chance(0.3) and A.nnz:
        A.has_sorted_indices = False
    return ids, A, B

def build(c):
    n, m = c.integer(0, 5), c.integer(1, 6)
    ids, A, B = mk(c, n, m, c.chance(0.7))
    items = c.ids(m) if c.chance(0.8) else None
    c.note(ids=ids, A=A, B=B, items=items)
    Ad = A.toarray().copy(); Bd = np.zeros((n, m), dtype=A.dtype) if B is None else B.toarray().copy()
    p = Pair(c.pick([list, np.asarray])(ids) if ids else ids, A, B, items if items is None or c.chance() else np.asarray(items))
    c.expect(list(p.user_ids) == ids, "user ids %r" % (p.user_ids,))
    c.equal(p.X_train.toarray(), Ad, "X_train"); c.equal(p.X_test.toarray(), Bd, "X_test")
    c.equal(p.X_all.toarray(), Ad + Bd, "X_all is not train + test")
    c.expect(p.n_users == n and p.n_items == m, "n_users / n_items")
    if items is None:
        for f in (p.df_train, p.df_test):
            with c.raises("table view without item ids"):
                f()
        return
    for nm, f, M in (("train", p.df_train, Ad), ("test", p.df_test, Bd)):
        d = f()
        got = sorted((str(u), str(i), float(v)) for u, i, v in zip(d["user_id"], d["item_id"], d["rating"]))
        want = sorted((str(ids[r]), str(items[k]), float(M[r, k])) for r in range(n) for k in range(m) if M[r, k] != 0)
        c.expect(got == want, "%s table lists %r, expected %r" % (nm, got, want))
    c.equal(p.X_train.toarray(), Ad, "X_train changed by the table view")

def mismatch(c):
    n, m = c.integer(1, 4), c.integer(1, 4)
    ids, A, B = mk(c, n, m)
    c.note(n=n, m=m)
    for args in ((ids + ["x"], A, B, None), (ids[:-1], A, B, None), (ids, A, sps.csr_matrix((n + 1, m)), None), (ids, A, sps.csr_matrix((n, m + 1)), None),
                 (ids, A, B, list(range(m + 1))), (ids, A, None, list(range(m + 1))), (ids, A, B, list(range(m))[:-1])):
        with c.raises("mismatching sizes accepted"):
            Pair(*args)
    q = Pair(ids, A, B)
    with c.raises("concat with other n_items accepted"):
        q.concat(Pair(ids, sps.csr_matrix((n, m + 1)), None))

def concat(c):
    m = c.integer(1, 5); n1, n2 = c.integer(0, 4), c.integer(0, 4)
    a = mk(c, n1, m, c.chance(0.7)); b = mk(c, n2, m, c.chance(0.7))
    c.note(a=a, b=b)
    pa, pb = Pair(*a), Pair(*b)
    r = pa.concat(pb)
    c.expect(list(r.user_ids) == a[0] + b[0], "user ids %r" % (r.user_ids,))
    z = lambda x, n: np.zeros((n, m)) if x is None else x.toarray()
    c.close(r.X_train.toarray(), np.vstack([a[1].toarray(), b[1].toarray()]), "concatenated train rows", rtol=1e-6)
    c.close(r.X_test.toarray(), np.vstack([z(a[2], n1), z(b[2], n2)]), "concatenated test rows", rtol=1e-6)
    c.close(r.X_all.toarray(), np.vstack([a[1].toarray() + z(a[2], n1), b[1].toarray() + z(b[2], n2)]), "concatenated full rows", rtol=1e-6)
    c.expect(list(pa.user_ids) == a[0] and list(pb.user_ids) == b[0], "operands modified")

CASES = [build, build, mismatch, concat]
MAXN = dict(quick=4000, thorough=60000)
