import numpy as np, pandas as pd, scipy.sparse as sps
import optuna, logging
from irspack import IALSRecommender, Evaluator
optuna.logging.set_verbosity(optuna.logging.ERROR)

def bind(args, kw):
    names = ["data", "evaluator", "study", "n_trials"]
    d = dict(zip(names, args)); d.update(kw); return d

def doubling(c):
    d0 = c.integer(1, 9); dmax = c.pick([d0, 2 * d0, 2 * d0 - 1 or 1, 4 * d0, 4 * d0 + 1, 8 * d0, 3 * d0, d0 * 16])
    dmax = max(d0, dmax)
    dims = []
    x = d0
    while x <= dmax: dims.append(x); x *= 2
    a = dict(n_trials_initial=c.integer(1, 5), n_trials_following=c.integer(1, 4), n_startup_trials_initial=c.integer(1, 9), n_startup_trials_following=c.integer(1, 9),
             max_epoch=c.integer(1, 30), validate_epoch=c.integer(1, 5), score_degradation_max=c.integer(1, 6), neighborhood_scale=c.pick([1.5, 2.0, 3.0, 10.0]))
    for k in list(a):
        if c.chance(0.15) and k not in ("neighborhood_scale",): a.pop(k)
    full = dict(n_trials_initial=40, n_trials_following=20, n_startup_trials_initial=10, n_startup_trials_following=5, max_epoch=16, validate_epoch=1, score_degradation_max=3, neighborhood_scale=3.0); full.update(a)
    seed = c.pick([None, 0, 7, 123])
    sug = object() if c.chance() else None
    vals = {d: [-float(c.integer(0, 3)) for _ in range(c.integer(1, 4))] for d in dims}
    calls = []
    X = sps.csr_matrix(np.eye(3)); ev = Evaluator(X)
    prefix = c.pick([None, "p%d" % c.integer(0, 99)])
    c.note(initial=d0, maximal=dmax, values=vals, seed=seed, prefix=prefix, **a)

    class K(IALSRecommender):
        @classmethod
        def tune(cls, *args, **kw):
            b = bind(args, kw)
            d = b["n_components"]
            st = b["study"]
            calls.append(b)
            c.expect(cls is K, "tuned another class")
            prev = None
            if len(calls) > 1: prev = calls[-2]["best"]
            f = b.get("parameter_suggest_function")
            rows = []
            for k, v in enumerate(vals[d]):
                t = st.ask()
                if prev is None:
                    c.expect(f is sug, "first dimension does not use the given suggestion function")
                    t.suggest_float("alpha0", 1e-3, 1, log=True); t.suggest_float("reg", 1e-4, 1e-1, log=True)
                    t.suggest_int("max_cg_steps", 1, 4); t.suggest_categorical("loss_type", ["IALSPP", "ORIGINAL"])
                else:
                    got = f(t)
                    want = {q: w for q, w in prev.items() if isinstance(w, float)}
                    c.expect(set(got) == set(want) == set(t.params), "following dimension suggests %r, previous best has %r" % (sorted(got), sorted(want)))
                    for q, w in want.items():
                        D = t.distributions[q]
                        c.expect(abs(D.low - w / full["neighborhood_scale"]) <= 1e-12 * abs(D.low) and abs(D.high - w * full["neighborhood_scale"]) <= 1e-12 * abs(D.high) and D.log,
                                 "%s searched in [%r, %r] (log=%r) around the previous best %r" % (q, D.low, D.high, D.log, w))
                        c.expect(got[q] == t.params[q], "suggestion function returns another value")
                st.tell(t, v)
                rows.append(dict(number=k, value=v, **t.params))
            b["best"] = dict(st.best_params)
            bp = dict(tag="d%d" % d, **st.best_params)
            b["bp"] = dict(bp)
            return bp, pd.DataFrame(rows)
    kw = dict(a)
    if seed is not None: kw["random_seed"] = seed
    if sug is not None: kw["suggest_function_initial"] = sug
    if prefix is not None: kw["study_name_prefix"] = prefix
    samplers = []
    o = optuna.samplers.TPESampler
    class S(o):
        def __init__(self, *aa, **kk): samplers.append(kk.get("seed", aa[0] if aa else None)); o.__init__(self, *aa, **kk)
    prs = []
    op = optuna.pruners.MedianPruner
    class Pr(op):
        def __init__(self, *aa, **kk): prs.append(kk.get("n_startup_trials", aa[0] if aa else 5)); op.__init__(self, *aa, **kk)
    optuna.samplers.TPESampler, optuna.pruners.MedianPruner = S, Pr
    try:
        bp, df = K.tune_doubling_dimension(X, ev, d0, dmax, **kw)
    finally:
        optuna.samplers.TPESampler, optuna.pruners.MedianPruner = o, op
    c.expect([b["n_components"] for b in calls] == dims, "dimensions tried %r, expected %r" % ([b["n_components"] for b in calls], dims))
    for k, b in enumerate(calls):
        c.expect(b["data"] is X and b["evaluator"] is ev, "other data or evaluator")
        c.expect(b["n_trials"] == full["n_trials_initial" if k == 0 else "n_trials_following"], "dimension %d uses %r trials" % (dims[k], b["n_trials"]))
        for q in ("max_epoch", "validate_epoch", "score_degradation_max"): c.expect(b[q] == full[q], "%s is %r" % (q, b[q]))
        if prefix is not None: c.expect(b["study"].study_name == "%s_%d" % (prefix, dims[k]), "study named %r" % b["study"].study_name)
        if prs: c.expect(prs[k] == full["n_startup_trials_initial" if k == 0 else "n_startup_trials_following"], "pruner start-up %r" % prs)
        if samplers and seed is not None: c.expect(samplers[k] is not None, "sampler unseeded")
    if samplers and seed is not None: c.expect(len(set(samplers)) == len(dims), "the same seed for several dimensions %r" % samplers)
    best = min(min(v) for v in vals.values())
    ok = [d for d in dims if min(vals[d]) == best]
    c.expect(bp.get("n_components") in ok, "returned dimension %r, lowest value at %r" % (bp.get("n_components"), ok), best=bp)
    b = calls[dims.index(bp["n_components"])]
    c.expect({k: v for k, v in bp.items() if k != "n_components"} == b["bp"], "returned parameters are not those of dimension %d" % bp["n_components"], got=bp, expected=b["bp"])
    c.expect(len(df) == sum(map(len, vals.values())), "history has %d rows" % len(df))
    c.expect(sorted(zip(df["n_components"], df["value"])) == sorted((d, v) for d in dims for v in vals[d]), "history rows differ from the trials")

CASES = [doubling]
MAXN = dict(quick=1500, thorough=20000)
