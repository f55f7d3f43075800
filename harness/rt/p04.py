import math
import numpy as np, pandas as pd
from irspack.split import split_dataframe_partial_user_holdout

def table(c, rows=None, maxu=12):
    uids = c.ids(c.integer(1, maxu)); iids = c.ids(c.integer(1, 6))
    rows = c.integer(1, 40) if rows is None else rows
    df = pd.DataFrame({"user": [c.pick(uids) for _ in range(rows)], "item": [c.pick(iids) for _ in range(rows)],
                       "r": np.round(c.rng.rand(rows) * 4 + 0.25, 3), "ts": c.rng.randint(0, 8, rows)})
    if c.chance(0.3):
        df = df.rename(columns={"r": "stars"})
        return df, "stars"
    return df, "r"

def n_held(N, ratio, n, ceil):
    return min(N, n) if n is not None else int(math.ceil(N * ratio) if ceil else math.floor(N * ratio))

def case(c):
    df, rcol = table(c)
    rating = c.pick([None, rcol]); tcol = c.pick([None, "ts"])
    users = list(dict.fromkeys(df["user"])); nu = len(users)
    kw = dict(time_column=tcol, rating_column=rating, ceil_n_heldout=c.chance(), random_state=c.integer(0, 1000))
    exp = {}
    for nm in ("val", "test"):
        if c.chance():
            r = c.pick([0.0, 0.1, 0.3, 0.5, 1.0, 1 / 3, round(float(c.rng.rand()), 2)])
            kw["%s_user_ratio" % nm] = r
            exp[nm] = int(math.floor(nu * r))
        elif c.chance(0.8):
            k = c.integer(0, nu + (1 if c.chance(0.2) else 0))
            kw["n_%s_user" % nm] = k
            exp[nm] = k
        else:
            exp[nm] = int(math.floor(nu * 0.1))
        if c.chance():
            kw["heldout_ratio_" + nm] = c.pick([0.0, 0.3, 0.5, 1.0, 0.75])
        if c.chance(0.3):
            kw["n_heldout_" + nm] = c.pick([0, 1, 2, 50])
    c.note(df=df, **kw)
    d0 = df.copy()
    call = lambda: split_dataframe_partial_user_holdout(df, "user", "item", **kw)
    if exp["val"] + exp["test"] > nu:
        with c.raises("no error although %d+%d of %d users are requested" % (exp["val"], exp["test"], nu)):
            call()
        return
    data, items = call()
    c.expect(df.equals(d0), "the input table was modified")
    c.expect(set(data) == {"train", "val", "test"}, "keys %r" % list(data))
    items = list(items)
    c.expect(len(set(items)) == len(items) and set(items) == set(df["item"]), "item id list %r" % (items,))
    ids = {k: list(v.user_ids) for k, v in data.items()}
    alls = sum(ids.values(), [])
    c.expect(len(alls) == len(set(alls)) and set(alls) == set(users), "users are not partitioned", ids=ids)
    for nm in ("val", "test"):
        c.expect(len(ids[nm]) == exp[nm], "%d %s users, expected %d" % (len(ids[nm]), nm, exp[nm]), ids=ids)
    first = {}
    for k in range(len(df)):
        key = (df["user"].iloc[k], df["item"].iloc[k])
        first.setdefault(key, (1.0 if rating is None else float(df[rating].iloc[k]), df["ts"].iloc[k]))
    ci = {x: k for k, x in enumerate(items)}
    for nm, d in data.items():
        A, B = d.X_train.toarray(), d.X_test.toarray()
        c.expect(A.shape == (len(ids[nm]), len(items)) and B.shape == A.shape, "%s matrices have shapes %r %r" % (nm, A.shape, B.shape))
        for r, u in enumerate(ids[nm]):
            mine = {i: v for (uu, i), v in first.items() if uu == u}
            for i in items:
                a, b = A[r, ci[i]], B[r, ci[i]]
                if i in mine:
                    ok = (a == mine[i][0] and b == 0) or (b == mine[i][0] and a == 0)
                    c.expect(ok, "%s user %r item %r: train %r held-out %r, rating %r" % (nm, u, i, a, b, mine[i][0]))
                else:
                    c.expect(a == 0 and b == 0, "%s user %r item %r set without interaction" % (nm, u, i))
            nh = int((B[r] != 0).sum())
            want = 0 if nm == "train" else n_held(len(mine), kw.get("heldout_ratio_" + nm, 0.5), kw.get("n_heldout_" + nm), kw["ceil_n_heldout"])
            c.expect(nh == want, "%s user %r has %d of %d held out, expected %d" % (nm, u, nh, len(mine), want))
            if tcol and nm != "train":
                ta = [mine[i][1] for i in mine if A[r, ci[i]]]; tb = [mine[i][1] for i in mine if B[r, ci[i]]]
                c.expect(not ta or not tb or max(ta) <= min(tb), "%s user %r: a kept interaction is later than a held-out one" % (nm, u))
    data2, items2 = call()
    for nm in data:
        c.expect(list(data2[nm].user_ids) == ids[nm] and (data2[nm].X_test.shape == data[nm].X_test.shape) and list(items2) == items
                 and (data2[nm].X_test != data[nm].X_test).nnz == 0, "same seed gave a different result for %s" % nm)

CASES = [case]
MAXN = dict(quick=2500, thorough=30000)
