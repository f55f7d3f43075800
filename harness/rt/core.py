"""Runtime-contract harness: every property module defines CASES, a list of
case functions f(c) where c is a Case (rng, tier, note(), expect(), raises()).
A case is reproducible from (property, seed, index)."""
import contextlib, os, sys
import numpy as np

class Violation(Exception):
    pass

class Skip(Exception):
    pass

class Case:
    def __init__(self, prop, seed, idx, tier):
        self.prop, self.seed, self.idx, self.tier = prop, seed, idx, tier
        self.rng = np.random.RandomState((seed * 1000003 + idx * 7919 + sum(map(ord, prop)) * 101) % (2**31 - 1))
        self.notes = {}
        self.evals = 0
    # -- recording
    def note(self, **kw):
        for k, v in kw.items():
            try:
                self.notes[k] = show(v)
            except Exception as e:  # never let reporting break a case
                self.notes[k] = "<unprintable %s>" % e
    def expect(self, cond, msg, **kw):
        self.evals += 1
        if not cond:
            self.note(**kw)
            raise Violation(msg)
    def close(self, a, b, msg, rtol=1e-9, atol=1e-12, **kw):
        self.evals += 1
        a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
        ok = a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        if not ok:
            self.note(got=a, expected=b, **kw)
            raise Violation(msg)
    def equal(self, a, b, msg, **kw):
        self.evals += 1
        a = np.asarray(a); b = np.asarray(b)
        if not (a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))):
            self.note(got=a, expected=b, **kw)
            raise Violation(msg)
    @contextlib.contextmanager
    def raises(self, msg, types=Exception, **kw):
        self.evals += 1
        try:
            yield
        except types:
            return
        self.note(**kw)
        raise Violation(msg)
    # -- drawing
    def integer(self, lo, hi):
        return int(self.rng.randint(lo, hi + 1))
    def chance(self, p=0.5):
        return bool(self.rng.rand() < p)
    def pick(self, xs):
        return xs[int(self.rng.randint(len(xs)))]
    def ids(self, n, kind=None):
        kind = kind or self.pick(["int", "str", "neg", "big"])
        if kind == "int":
            xs = list(range(n))
        elif kind == "neg":
            xs = [int(x) for x in self.rng.choice(np.arange(-3 * n - 3, 3 * n + 3), n, replace=False)]
        elif kind == "big":
            xs = [10**9 + 7 * i for i in range(n)]
        else:
            xs = ["i%d" % i for i in range(n)]
        self.rng.shuffle(xs)
        return xs
    def sparse(self, n, m, density=None, dtype=np.float64, values="pos", fmt=None, explicit_zero=False):
        import scipy.sparse as sps
        d = self.pick([0.0, 0.2, 0.5, 0.9]) if density is None else density
        mask = self.rng.rand(n, m) < d
        if values == "bin":
            v = np.ones((n, m))
        elif values == "pos":
            v = self.rng.randint(1, 6, (n, m)).astype(float) if self.chance() else np.round(self.rng.rand(n, m) * 4 + 0.1, 3)
        elif values == "any":
            v = np.round(self.rng.randn(n, m) * 3, 3); v[v == 0] = 1.0
        r, c = np.nonzero(mask)
        data = v[r, c]
        X = sps.csr_matrix((data, (r, c)), shape=(n, m)).astype(dtype)
        if explicit_zero and X.nnz:
            X.data[self.rng.rand(X.nnz) < 0.3] = 0
        fmt = fmt or self.pick(["csr", "csc"])
        return X.asformat(fmt)

def show(v):
    import scipy.sparse as sps
    if sps.issparse(v):
        return {"sparse": v.format, "dense": show(v.toarray())}
    if isinstance(v, np.ndarray):
        return v.tolist() if v.size <= 400 else "array%s" % (v.shape,)
    try:
        import pandas as pd
        if isinstance(v, pd.DataFrame):
            return v.to_dict("list") if len(v) <= 60 else "frame%s" % (v.shape,)
    except ImportError:
        pass
    if isinstance(v, dict):
        return {str(k): show(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [show(x) for x in v][:200]
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.floating,)):
        return repr(float(v))
    if isinstance(v, (int, str, bool)) or v is None:
        return v
    return repr(v)[:300]

# ---- reference metric definitions -------------------------------------------------
NINF = float("-inf")

def ref_rank(row, allowed, cutoff):
    cand = [i for i in allowed if row[i] != NINF]
    cand.sort(key=lambda i: (-row[i], i))
    return cand[:cutoff]

def ref_user(rec, gt, recall_with_cutoff):
    n = len(rec)
    hits = [1 if r in gt else 0 for r in rec]
    if n == 0:
        return dict(hit=0., precision=0., recall=0., ndcg=0., map=0.)
    disc = [1 / np.log2(2 + i) for i in range(n)]
    cum = 0; ap = 0.
    for i, h in enumerate(hits):
        if h:
            cum += 1; ap += cum / (i + 1)
    return dict(hit=float(cum > 0), precision=cum / n,
                recall=cum / (min(n, len(gt)) if recall_with_cutoff else len(gt)),
                ndcg=sum(d for d, h in zip(disc, hits) if h) / sum(disc[:min(n, len(gt))]),
                map=ap / len(gt))

def ref_aggregate(recs_gts, n_items, total, rwc=False):
    """recs_gts: list of (list, set) for users with ground truth."""
    s = dict(hit=0., precision=0., recall=0., ndcg=0., map=0.)
    cnt = [0] * n_items
    for rec, gt in recs_gts:
        u = ref_user(rec, gt, rwc)
        for k in s:
            s[k] += u[k]
        for r in rec:
            cnt[r] += 1
    den = max(1, len(recs_gts))
    out = {k: v / den for k, v in s.items()}
    tot = sum(cnt)
    p = [c / tot for c in cnt if c]
    out["appeared_item"] = float(len(p))
    out["entropy"] = float(-sum(x * np.log(x) for x in p)) if p else 0.
    sc = sorted(cnt); n = n_items
    out["gini_index"] = sum((2 * i - n + 1) * x for i, x in enumerate(sc)) / (n * tot) if tot else 0.
    out["valid_user"] = float(len(recs_gts)); out["total_user"] = float(total); out["n_items"] = float(n_items)
    return out

def ref_evaluate(scores, gt_sets, cutoff, allowed_per_user=None, rwc=False):
    """scores: dense (already masked); gt_sets: list of sets; allowed_per_user None or list of lists."""
    n_users, n_items = scores.shape
    pairs = []
    union = set()
    for u in range(n_users):
        al = range(n_items) if allowed_per_user is None else sorted(allowed_per_user[u])
        g = gt_sets[u] if allowed_per_user is None else gt_sets[u] & set(al)
        if not g:
            continue
        pairs.append((ref_rank(scores[u], al, cutoff), g))
    out = ref_aggregate(pairs, n_items, n_users, rwc)
    if allowed_per_user is None:
        nrec = n_items
    else:
        nrec = len({i for x in allowed_per_user for i in x})
    out["catalog_coverage"] = out["appeared_item"] / nrec if nrec else float("nan")
    return out

NAMES = ["hit", "recall", "ndcg", "map", "precision", "gini_index", "entropy", "appeared_item", "catalog_coverage"]

def cmp_metrics(c, got, exp, what, suffix="", names=NAMES, **kw):
    for k in names:
        c.expect(k + suffix in got, "%s: metric %s%s missing" % (what, k, suffix), got=dict(got), **kw)
        a, b = got[k + suffix], exp[k]
        ok = (a != a and b != b) or abs(a - b) <= 1e-9 * max(1, abs(b))
        c.expect(ok, "%s: %s%s = %r, definition gives %r" % (what, k, suffix, a, b), metric=k, **kw)
