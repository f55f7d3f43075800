import numpy as np, pandas as pd
from irspack.utils import df_to_sparse

def table(c, n_rows=None, n_u=None, n_i=None, ratings=True):
    n_u = n_u or c.integer(1, 7); n_i = n_i or c.integer(1, 7)
    uids = c.ids(n_u); iids = c.ids(n_i)
    n_rows = c.integer(0, 14) if n_rows is None else n_rows
    u = [c.pick(uids) for _ in range(n_rows)]; i = [c.pick(iids) for _ in range(n_rows)]
    r = [round(float(x), 3) for x in c.rng.randn(n_rows) * 3]
    df = pd.DataFrame({"user": pd.Series(u, dtype=None if n_rows else type(uids[0])), "item": pd.Series(i, dtype=None if n_rows else type(iids[0])), "r": np.asarray(r, dtype=float)})
    if c.chance(0.3) and n_rows:
        df.index = c.rng.randint(0, 5, n_rows)
    return df, uids, iids

def check(c, df, user_ids, item_ids, rating, got):
    X, ru, ri = got
    us = list(df["user"]); it = list(df["item"])
    eu = list(user_ids) if user_ids is not None else None
    ei = list(item_ids) if item_ids is not None else None
    keep = [k for k in range(len(us)) if (eu is None or us[k] in eu) and (ei is None or it[k] in ei)]
    # an unsupplied side is labelled by the distinct ids of the rows that were kept
    if eu is None:
        eu = sorted({us[k] for k in keep})
    if ei is None:
        ei = sorted({it[k] for k in keep})
    ru = list(ru); ri = list(ri)
    c.expect(ru == eu, "row ids are %r, expected %r" % (ru, eu))
    c.expect(ri == ei, "column ids are %r, expected %r" % (ri, ei))
    c.expect(tuple(X.shape) == (len(eu), len(ei)), "shape %r" % (X.shape,))
    E = np.zeros((len(eu), len(ei)))
    pu = {x: k for k, x in enumerate(eu)}; pi = {x: k for k, x in enumerate(ei)}
    rv = np.ones(len(us)) if rating is None else np.asarray(df[rating], dtype=float)
    for k in keep:
        E[pu[us[k]], pi[it[k]]] += rv[k]
    c.close(X.toarray(), E, "cell values differ from the sums of the table's rows", rtol=1e-9, atol=1e-9)

def supplied(c, ids, side):
    mode = c.pick(["none", "all", "part", "extra", "array"])
    if mode == "none":
        return None
    xs = list(ids); c.rng.shuffle(xs)
    if mode == "part":
        xs = xs[:c.integer(0, len(xs))]
    if mode == "extra":
        more = ["zz%d" % k for k in range(3)] if isinstance(xs[0], str) else [10**6 + k for k in range(3)]
        xs = xs[:c.integer(0, len(xs))] + more
        c.rng.shuffle(xs)
    if mode == "array" and xs:
        return np.asarray(xs)
    return xs

def random_tables(c):
    df, u, i = table(c)
    su, si = supplied(c, u, "user"), supplied(c, i, "item")
    rating = c.pick([None, "r"])
    c.note(df=df, user_ids=su, item_ids=si, rating=rating)
    before = df.copy()
    got = df_to_sparse(df, "user", "item", su, si, rating)
    check(c, df, su, si, rating, got)
    c.expect(df.equals(before), "the caller's table was modified")

def many_ids(c):
    n = c.pick([126, 127, 128, 129, 255, 256, 257, 300] + ([32767, 32768, 40000, 66000] if c.tier == "thorough" else [33000] if c.round < 4 else []))
    side = c.chance()
    ids = list(range(n)); c.rng.shuffle(ids)
    other = c.ids(3)
    rows = ids if n < 1000 else ids[:]
    df = pd.DataFrame({"user": rows, "item": [c.pick(other) for _ in rows], "r": c.rng.randn(len(rows))})
    if side:
        df = df.rename(columns={"user": "item", "item": "user"})
    su = supplied(c, ids if not side else other, "u"); si = supplied(c, other if not side else ids, "i")
    rating = c.pick([None, "r"])
    c.note(n=n, side=side, rating=rating)
    X, ru, ri = df_to_sparse(df, "user", "item", su, si, rating)
    if n < 1000:
        check(c, df, su, si, rating, (X, ru, ri))
    else:
        eu = {x: k for k, x in enumerate(ru)}; ei = {x: k for k, x in enumerate(ri)}
        d = {}
        rv = np.ones(len(df)) if rating is None else df["r"].values
        for u, i, r in zip(df["user"], df["item"], rv):
            if u in eu and i in ei:
                d[eu[u], ei[i]] = d.get((eu[u], ei[i]), 0) + r
        X = X.tocoo()
        c.expect(len(d) == X.nnz, "wrong number of cells")
        for r_, c_, v in zip(X.row, X.col, X.data):
            c.expect(abs(d.get((r_, c_), 1e300) - v) < 1e-9, "cell (%d,%d) is %r" % (r_, c_, v))

def small_exhaustive(c):
    # all tables with <= 3 rows over 2 users x 2 items, by index
    k = c.round % (4 ** 3 * 4)
    n = k % 4; k //= 4
    rows = []
    for _ in range(n):
        rows.append((k % 2, k // 2 % 2)); k //= 4
    df = pd.DataFrame({"user": np.array([a for a, b in rows], dtype=int), "item": np.array([b for a, b in rows], dtype=int), "r": np.arange(1., n + 1)})
    for su in (None, [0], [1], [1, 0], [2, 1]):
        for si in (None, [0], [1, 0], [1, 3]):
            for rating in (None, "r"):
                c.note(df=df, user_ids=su, item_ids=si, rating=rating)
                check(c, df, su, si, rating, df_to_sparse(df, "user", "item", su, si, rating))

CASES = [random_tables, random_tables, small_exhaustive, many_ids]
MAXN = dict(quick=3000, thorough=60000)
