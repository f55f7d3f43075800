import itertools, pickle
import numpy as np, scipy.sparse as sps
from core import NINF
from irspack.recommenders.base_earlystop import BaseRecommenderWithEarlyStopping, TrainerBase
from irspack.evaluation import Evaluator
from irspack import IALSRecommender
from optuna.exceptions import TrialPruned

class Tr(TrainerBase):
    def __init__(self, log):
        self.epoch = 0; self.param = "init"; self.log = log
    def load_state(self, ifs):
        self.param = pickle.load(ifs)["param"]; self.log.append(("load", self.param))
    def save_state(self, ofs):
        pickle.dump(dict(param=self.param), ofs)
    def run_epoch(self):
        self.epoch += 1; self.param = "epoch%d" % self.epoch; self.log.append(("epoch", self.epoch))

class Rec(BaseRecommenderWithEarlyStopping, register_class=False):
    trainer_class = Tr
    def __init__(self, X, log, **kw):
        super().__init__(X, **kw); self.log = log
    def _create_trainer(self): return Tr(self.log)
    def get_score(self, ui): return np.zeros((len(ui), self.n_items))

class Ev(Evaluator):
    def __init__(self, X, fn, log):
        super().__init__(X, cutoff=1, n_threads=1); self.fn, self.log2, self.k = fn, log, 0
    def get_target_score(self, model):
        s = self.fn(self.k, model.trainer.epoch); self.log2.append(("val", model.trainer.epoch, s)); self.k += 1
        return s

class FT:
    """records reports; prunes after the p-th report"""
    def __init__(self, p, log): self.p, self.log, self.n = p, log, 0
    def report(self, v, step): self.n += 1; self.log.append(("report", float(v), step))
    def should_prune(self): return self.p is not None and self.n == self.p
    number = 0

X = sps.csr_matrix(np.eye(3))

def reference(scores, max_epoch, ve, deg, prune):
    """-> (events, outcome, best_epoch)"""
    ev = []; best = NINF; be = None; bad = 0; nrep = 0; k = 0
    for e in range(1, max_epoch + 1):
        ev.append(("epoch", e))
        if e % ve: continue
        s = scores[k]; k += 1
        ev.append(("val", e, s))
        if s > best: best, be, bad = s, e, 0
        else:
            bad += 1
            if bad >= deg:
                return ev, "done", be
        if prune is not False:
            nrep += 1; ev.append(("report", -s, e - 1))
            if prune is not None and nrep == prune: return ev, "pruned", be
    return ev, "done", be

def run(c, scores, max_epoch, ve, deg, prune):
    log = []
    rec = Rec(X, log)
    ev = Ev(X, lambda k, e: scores[k] if k < len(scores) else 0.0, log)
    tr = None if prune is False else FT(prune, log)
    c.note(scores=list(scores), max_epoch=max_epoch, validate_epoch=ve, score_degradation_max=deg, prune_at=prune)
    exp, outcome, be = reference(list(scores) + [0.0] * max_epoch, max_epoch, ve, deg, prune)
    if be is None and outcome == "done": return  # nothing finite was validated: outside the property
    try:
        rec.learn_with_optimizer(ev, tr, max_epoch=max_epoch, validate_epoch=ve, score_degradation_max=deg)
        got = "done"
    except TrialPruned:
        got = "pruned"
    c.expect(got == outcome, "training ended as %r, expected %r" % (got, outcome), log=log)
    ran = [x for x in log if x[0] != "load"]
    c.expect(ran == exp, "events %r, expected %r" % (ran, exp))
    if outcome == "done":
        c.expect(rec.trainer.param == "epoch%d" % be, "parameters are those of %r, best epoch is %d" % (rec.trainer.param, be), log=log)
        c.expect(rec.learnt_config.get("train_epochs") == be, "learnt epochs %r, best epoch is %d" % (rec.learnt_config, be), log=log)
        i = max(k for k, x in enumerate(log) if x[0] == "load")
        c.expect(i == len(log) - 1, "training went on after restoring", log=log)

POOL = [0.0, 1.0, 2.0]
ALLH = [h for L in range(1, 6) for h in itertools.product(POOL, repeat=L)]

def exhaustive(c):
    h = ALLH[c.round % len(ALLH)]
    for deg in (1, 2, 3):
        for ve in (1, 2):
            run(c, h, len(h) * ve + (c.round % ve), ve, deg, False)
        for pr in (None, 1, 2, len(h)):
            run(c, h, len(h), 1, deg, pr)

def random_hist(c):
    ve = c.integer(1, 6); me = c.integer(ve, 40)
    sc = [c.pick([c.rng.rand(), 0.5, -1.0, 0.0, c.rng.randn() * 1e-9, c.rng.randn() * 1e6]) for _ in range(me)]
    if c.chance(0.2): sc[c.integer(0, len(sc) - 1)] = NINF
    if c.chance(0.3): sc = sorted(sc, reverse=c.chance())
    run(c, [float(x) for x in sc], me, ve, c.integer(1, 7), c.pick([False, None, None, c.integer(1, 6)]))

def no_evaluator(c):
    log = []; n = c.integer(0, 12)
    rec = Rec(X, log, train_epochs=n)
    if c.chance():
        rec.learn()
    else:
        rec.learn_with_optimizer(None, None if c.chance() else FT(1, log), max_epoch=n, validate_epoch=c.integer(1, 4), score_degradation_max=c.integer(1, 3))
    c.expect([x for x in log] == [("epoch", e) for e in range(1, n + 1)], "events %r for %d epochs without evaluator" % (log, n))
    c.expect(rec.trainer.param == ("epoch%d" % n if n else "init"), "parameters %r after %d epochs" % (rec.trainer.param, n))

def defaults(c):
    """default frequencies: 128 epochs, every 5th validated, 5 degradations"""
    log = []
    n = c.integer(1, 4); sc = [float(k) for k in range(n)] + [0.0] * 30
    rec = Rec(X, log)
    exp, out, be = reference(sc + [0.0] * 200, 128, 5, 5, False)
    rec.learn_with_optimizer(Ev(X, lambda k, e: (sc + [0.0] * 200)[k], log), None)
    c.expect([x for x in log if x[0] != "load"] == exp, "default schedule differs")
    c.expect(rec.trainer.param == "epoch%d" % be, "best epoch not restored")

def unstarted(c):
    rec = Rec(X, [])
    for f in (rec.run_epoch, rec.save_state, rec.load_state):
        with c.raises("%s before start accepted" % f.__name__): f()
    rec.start_learning()
    with c.raises("load_state without a saved state accepted"): rec.load_state()

def real_ials(c):
    """a real model: scripted scores, embeddings of the best epoch are restored"""
    A = c.sparse(8, 6, density=0.5, values="bin")
    me = c.integer(1, 5)
    sc = [float(c.pick([0, 1, 2])) for _ in range(me)]
    snaps = {}
    rec = IALSRecommender(A, n_components=2, n_threads=1, random_seed=c.integer(0, 99))
    class E2(Evaluator):
        k = 0
        def get_target_score(s, model):
            s.k += 1; snaps[s.k] = (model.get_user_embedding().copy(), model.get_item_embedding().copy()); return sc[s.k - 1]
    deg = c.integer(1, 3)
    _, out, be = reference(sc, me, 1, deg, False)
    rec.learn_with_optimizer(E2(A, cutoff=1, n_threads=1), None, max_epoch=me, validate_epoch=1, score_degradation_max=deg)
    c.note(scores=sc, best=be, X=A)
    c.equal(rec.get_user_embedding(), snaps[be][0], "user embedding is not that of the best epoch")
    c.equal(rec.get_item_embedding(), snaps[be][1], "item embedding is not that of the best epoch")
    c.expect(rec.learnt_config["train_epochs"] == be, "learnt epochs %r, best %d" % (rec.learnt_config, be))

CASES = [exhaustive, random_hist, random_hist, no_evaluator, defaults, unstarted, real_ials]
MAXN = dict(quick=2600, thorough=20000)
