import numpy as np
from core import NINF
from irspack.utils.id_mapping import ItemIDMapper, IDMapper

def check_list(c, rec, row, ids, cutoff, allowed, forbidden, what, exact=True):
    """the single-list guarantee"""
    pos = {x: k for k, x in enumerate(ids)}
    row = np.asarray(row, dtype=float)
    al = ids if allowed is None else [a for a in allowed if a in pos]
    fb = set(forbidden or [])
    elig = {a for a in al if a not in fb and row[pos[a]] != NINF}
    c.expect(len(rec) == min(cutoff, len(elig)), "%s: %d entries, cutoff %d, %d eligible items" % (what, len(rec), cutoff, len(elig)), got=rec)
    seen = set()
    for j, ent in enumerate(rec):
        i, s = ent
        c.expect(i in pos, "%s: unknown item %r" % (what, i), got=rec)
        c.expect(i in elig, "%s: item %r is not eligible" % (what, i), got=rec)
        c.expect(i not in seen, "%s: item %r listed twice" % (what, i), got=rec)
        seen.add(i)
        c.expect(float(s) == row[pos[i]], "%s: item %r listed with score %r, its score is %r" % (what, i, s, row[pos[i]]), got=rec)
        if j:
            c.expect(rec[j - 1][1] >= s, "%s: not in descending score" % what, got=rec)
    if rec:
        lo = row[pos[rec[-1][0]]]
        for e in elig - seen:
            c.expect(row[pos[e]] <= lo, "%s: eligible item %r (score %r) left out below %r" % (what, e, row[pos[e]], lo), got=rec)

def scores(c, shape, dtype=None):
    dtype = dtype or c.pick([np.float64, np.float32])
    k = c.integer(0, 4)
    if k == 0: s = c.rng.randint(-2, 3, shape).astype(dtype)
    elif k == 1: s = (c.rng.randn(*shape) * 1e3).astype(dtype)
    elif k == 2: s = -np.abs(c.rng.randn(*shape)).astype(dtype) - 1
    elif k == 3: s = (1.0 + c.rng.randint(0, 4, shape) * 1e-12).astype(dtype)
    else: s = c.rng.permutation(int(np.prod(shape))).reshape(shape).astype(dtype)
    s[c.rng.rand(*shape) < c.pick([0, 0, 0.3, 1.0] if c.chance(0.9) else [1.0])] = -np.inf
    return s

def idlist(c, ids, repeats):
    """some known ids and some unknown ones"""
    unk = [("zz%d" % j if isinstance(ids[0], str) else -10**6 - j) for j in range(3)] if ids else []
    pool = list(ids) + unk
    n = c.integer(0, len(pool))
    ix = c.rng.permutation(len(pool))[:n]
    out = [pool[j] for j in ix]
    if repeats and out and c.chance(0.3):
        out = out + [out[0]]
    return out

def draw_cutoff(c, m):
    return c.pick([1, 2, 3, max(1, m - 1), m, m + 1, m + 7, c.integer(1, m + 3)])

def single(c):
    m = c.integer(1, 9)
    ids = c.ids(m)
    s = scores(c, (m,))
    cutoff = draw_cutoff(c, m)
    al = idlist(c, ids, False) if c.chance() else None
    fb = idlist(c, ids, True) if c.chance() else None
    mp = ItemIDMapper(list(ids)) if c.chance() else IDMapper(["u"], list(ids))
    s0 = s.copy()
    c.note(ids=ids, score=s, cutoff=cutoff, allowed=al, forbidden=fb, dtype=str(s.dtype))
    rec = mp.score_to_recommended_items(s, cutoff, allowed_item_ids=al, forbidden_item_ids=fb)
    check_list(c, rec, s0, ids, cutoff, al, fb, "list")

def shapes(c):
    m = c.integer(1, 6)
    mp = ItemIDMapper(c.ids(m))
    for k in (m - 1, m + 1):
        with c.raises("score vector of %d entries accepted for %d items" % (k, m)):
            mp.score_to_recommended_items(np.zeros(k), 1)

def large(c):
    m = c.integer(30, 300)
    ids = c.ids(m)
    s = scores(c, (m,))
    cutoff = c.pick([1, 10, 20, m // 2, m, m + 1])
    al = idlist(c, ids, False) if c.chance() else None
    fb = idlist(c, ids, True) if c.chance() else None
    c.note(ids=ids, score=s, cutoff=cutoff, allowed=al, forbidden=fb)
    check_list(c, ItemIDMapper(ids).score_to_recommended_items(s.copy(), cutoff, allowed_item_ids=al, forbidden_item_ids=fb), s, ids, cutoff, al, fb, "list")

CASES = [single, single, single, shapes, large]
MAXN = dict(quick=8000, thorough=200000)
