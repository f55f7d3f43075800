import math
import numpy as np, pandas as pd
from irspack.split.time import split_last_n_interaction_df

def go(c, df, n, ratio, ceil):
    c.note(df=df, n=n, ratio=ratio, ceil=ceil)
    d0 = df.copy()
    a, b = split_last_n_interaction_df(df, "user", "ts", n_heldout=n, heldout_ratio=ratio, ceil_n_heldout=ceil)
    c.expect(df.equals(d0), "the input table was modified")
    cols = list(df.columns)
    c.expect(list(a.columns) == cols and list(b.columns) == cols, "columns changed: %r %r" % (list(a.columns), list(b.columns)))
    rows = lambda d: sorted([tuple(map(str, r)) for r in d[cols].itertuples(index=True, name=None)])
    c.expect(rows(a) + rows(b) and sorted(rows(a) + rows(b)) == rows(df) or (len(df) == 0 and len(a) + len(b) == 0), "the two tables do not contain every row once, unchanged", first=a, second=b)
    for u in set(df["user"]):
        N = int((df["user"] == u).sum())
        want = min(N, n) if n is not None else int(math.ceil(N * ratio) if ceil else math.floor(N * ratio))
        ta, tb = list(a[a["user"] == u]["ts"]), list(b[b["user"] == u]["ts"])
        c.expect(len(tb) == want, "user %r with %d rows has %d held out, expected %d" % (u, N, len(tb), want), first=a, second=b)
        if ta and tb:
            c.expect(max(ta) <= min(tb), "user %r: a kept row is later than a held-out one" % (u,), first=a, second=b)

def rand(c):
    rows = c.integer(0, 16); uids = c.ids(c.integer(1, 5))
    ts = c.rng.randint(0, 6, rows) if c.chance() else c.rng.permutation(rows)
    df = pd.DataFrame({"x": np.arange(rows), "user": [c.pick(uids) for _ in range(rows)], "ts": ts, "item": c.rng.randint(0, 4, rows)})
    if c.chance(0.3):
        df["ts"] = pd.to_datetime(df["ts"], unit="s")
    elif c.chance(0.3):
        df["ts"] = df["ts"] * 0.5 - 1
    if c.chance(0.4) and rows:
        df.index = c.rng.randint(0, 4, rows)
    if rows == 0:
        df["user"] = df["user"].astype(type(uids[0]))
    n = c.pick([None, None, None, 0, 1, 2, 3, 50])
    ratio = c.pick([0.0, 0.1, 0.5, 1.0, 1 / 3, 0.3, float(c.rng.rand()), 0.9])
    go(c, df, n, ratio, c.chance())

def long_users(c):
    k = c.integer(10, 60)
    df = pd.DataFrame({"x": np.arange(2 * k), "user": c.rng.permutation([0] * k + [1] * k), "ts": c.rng.permutation(2 * k)})
    go(c, df, c.pick([None, k // 2, k, k - 1]), c.pick([0.1, 0.7, 0.29, 1.0]), c.chance())

CASES = [rand, rand, rand, long_users]
MAXN = dict(quick=3000, thorough=40000)
