import numpy as np, pandas as pd
from irspack.split import holdout_specific_interactions

def case(c):
    uids = c.ids(c.integer(1, 10)); iids = c.ids(c.integer(1, 6)); rows = c.integer(1, 30)
    df = pd.DataFrame({"user": [c.pick(uids) for _ in range(rows)], "item": [c.pick(iids) for _ in range(rows)], "z": np.arange(rows)})
    if c.chance(0.3):
        df.index = c.rng.randint(0, 5, rows)
    p = c.pick([0.0, 0.1, 0.5, 0.9, 1.0])
    flag = c.rng.rand(rows) < p
    ind = flag if c.chance(0.7) else np.where(flag)[0]
    rv, rt = c.pick([(0.2, 0.2), (0.5, 0.5), (0.0, 1.0), (1.0, 0.0), (0.3, 0.7), (0.0, 0.0), (0.1, 0.0), (0.0, 0.4), (0.9, 0.1), (0.6, 0.6), (1.0, 0.2), (0.25, 0.25), (1 / 3, 1 / 3)])
    seed = c.integer(0, 1000)
    c.note(df=df, indicator=ind, ratios=(rv, rt), seed=seed)
    d0 = df.copy(); i0 = ind.copy()
    call = lambda: holdout_specific_interactions(df, "user", "item", ind, rv, rt, seed)
    if rv + rt > 1.0001:
        with c.raises("ratios %r accepted" % ((rv, rt),)):
            call()
        return
    items, data = call()
    c.expect(df.equals(d0) and np.array_equal(ind, i0), "inputs modified")
    items = list(items)
    c.expect(set(items) == set(df["item"]) and len(items) == len(set(items)), "item ids %r" % (items,))
    ids = {k: list(v.user_ids) for k, v in data.items()}
    c.expect(set(ids) == {"train", "val", "test"}, "keys")
    alls = sum(ids.values(), [])
    c.expect(len(alls) == len(set(alls)) and set(alls) == set(df["user"]), "users are not partitioned", ids=ids)
    us = list(df["user"]); it = list(df["item"])
    spec = {u for u, f in zip(us, flag) if f}
    c.expect(set(ids["val"]) <= spec and set(ids["test"]) <= spec, "a user without specified interactions is held out", ids=ids)
    nv = len(spec)
    if rv == 0:
        c.expect(not ids["val"], "validation users although the ratio is 0")
    if rt == 0 and rv > 0:
        pass
    ci = {x: k for k, x in enumerate(items)}
    for nm, d in data.items():
        A, B = d.X_train.toarray(), d.X_test.toarray()
        EA, EB = np.zeros((len(ids[nm]), len(items))), np.zeros((len(ids[nm]), len(items)))
        pos = {u: k for k, u in enumerate(ids[nm])}
        for u, i, f in zip(us, it, flag):
            if u in pos:
                (EB if (f and nm != "train") else EA)[pos[u], ci[i]] += 1
        c.equal(A, EA, "%s: train matrix differs" % nm, ids=ids[nm])
        c.equal(B, EB, "%s: held-out matrix differs" % nm, ids=ids[nm])
    items2, data2 = call()
    for nm in data:
        c.expect(list(data2[nm].user_ids) == ids[nm], "same seed gave different users")

CASES = [case]
MAXN = dict(quick=2500, thorough=30000)
