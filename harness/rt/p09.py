import numpy as np
from irspack.utils.id_mapping import ItemIDMapper, IDMapper
from p08 import check_list, scores, idlist, draw_cutoff

def run(c, n, m, nth):
    ids = c.ids(m)
    s = scores(c, (n, m))
    cutoff = draw_cutoff(c, m)
    mode = c.pick(["none", "common", "per", "both"])
    al = idlist(c, ids, False) if mode in ("common", "both") else None
    pu = [idlist(c, ids, False) for _ in range(n)] if mode in ("per", "both") else None
    if pu is not None and not pu:
        pu = None
    fb = [idlist(c, ids, True) for _ in range(n)] if c.chance() else None
    c.note(ids=ids, score=s, cutoff=cutoff, allowed=al, per_user=pu, forbidden=fb, threads=nth, dtype=str(s.dtype))
    mp = ItemIDMapper(list(ids))
    got = mp.score_to_recommended_items_batch(s.copy(), cutoff, allowed_item_ids=al, per_user_allowed_item_ids=pu, forbidden_item_ids=fb, n_threads=nth)
    c.expect(len(got) == n, "%d lists for %d users" % (len(got), n))
    for u in range(n):
        check_list(c, got[u], s[u], ids, cutoff, pu[u] if pu is not None else al, fb[u] if fb is not None else None, "user %d" % u)

def small(c):
    run(c, c.integer(1, 6), c.integer(1, 8), c.pick([1, 2, 3, 4, 8]))

def many(c):
    run(c, c.integer(20, 60), c.integer(5, 40), c.pick([1, 2, 4, 8]))

def lengths(c):
    n, m = c.integer(1, 4), c.integer(1, 4)
    ids = c.ids(m); mp = ItemIDMapper(ids)
    s = np.zeros((n, m))
    k = c.pick([n - 1, n + 1])
    with c.raises("forbidden lists for %d users accepted with %d score rows" % (k, n)):
        mp.score_to_recommended_items_batch(s, 1, forbidden_item_ids=[[] for _ in range(k)], n_threads=1)
    with c.raises("allowed lists for %d users accepted with %d score rows" % (k, n)):
        mp.score_to_recommended_items_batch(s, 1, per_user_allowed_item_ids=[list(ids) for _ in range(k)], n_threads=1)
    with c.raises("scores with a wrong number of items accepted"):
        mp.score_to_recommended_items_batch(np.zeros((n, m + 1)), 1, n_threads=1)
    with c.raises("integer scores accepted"):
        mp.score_to_recommended_items_batch(np.zeros((n, m), dtype=np.int64), 1, n_threads=1)

CASES = [small, small, small, many, lengths]
MAXN = dict(quick=6000, thorough=100000)
