"""P16: BaseRecommenderWithEarlyStopping.learn_with_optimizer, save_state, load_state, run_epoch, start_learning, _learn

The trainer, evaluator and trial are the environment: a ghost monitor holds the documented protocol (which call may come next, the
best score so far, the consecutive failures) and the loop invariant links the code's variables to it."""
import types
import z3
from pyvc.core import *
from pyvc import rt
from pyvc.models import TrialPruned

MOD = "irspack.recommenders.base_earlystop"


class Blob:
    """the bytes written by save_state: a function of the parameters (identified with the epoch that produced them)"""

    def __init__(self, p):
        self.p = p

    @staticmethod
    def fresh(hint):
        return Blob(E.int(hint))

    def v_shape(self):
        return ("model", Blob.fresh)

    def __bool__(self):
        return True

    def __len__(self):
        return 1


class BytesIO:
    """io.BytesIO holding at most one saved state"""

    def __init__(self, init=None):
        self.content = init

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def write(self, b):
        self.content = b

    def getvalue(self):
        return self.content

    def read(self, *a):
        return self.content

    def getbuffer(self):
        return self.content

    def seek(self, *a):
        return 0

    def close(self):
        pass


def run(V):
    L = V.loader({"io": types.SimpleNamespace(BytesIO=BytesIO)})
    base = L.load("irspack.recommenders.base")
    m = L.load(MOD)

    def ite(c, a, b):
        return mkint(z3.If(bterm(c), term(a), term(b)))

    def fite(c, a, b):
        a, b = flift(a), flift(b)
        return SFloat(z3.If(bterm(c), a.t, b.t), z3.simplify(z3.If(bterm(c), a.k, b.k)))

    def bite(c, a, b):
        return mkbool(z3.If(bterm(c), bterm(a), bterm(b)))

    def setup(E, with_eval, with_trial, via_learn=False):
        E.use("io.BytesIO: getvalue() returns what was written; TrainerBase.load_state restores what save_state wrote")
        E.use("optuna.Trial.report / should_prune only record and answer")
        E.note("validate_epoch >= 1, score_degradation_max >= 1; validation scores are real numbers or infinite (not nan)")
        E.no_map = True
        sf = E.func("score", "int", "real")
        sk = E.func("score_kind", "int", "int")
        pf = E.func("prune", "int", "bool")
        g = E.ghost
        g.update(epochs=0, param=0, best=-float("inf"), bestep=0, bad=0, pend_val=False, pend_rep=False, pend_ask=False, pruned=False, loaded=False, created=False)
        max_epoch, ve, deg = E.int("max_epoch", lo=0), E.int("validate_epoch", lo=1), E.int("score_degradation_max", lo=1)
        S = lambda e: SFloat(sf(term(e)), sk(term(e)))

        def score(e):
            E.fact(z3.And(sk(term(e)) >= -1, sk(term(e)) <= 1))
            return S(e)

        class Trainer:
            def run_epoch(self):
                E.prove("an epoch is run only while training should go on (below max_epoch, not degraded, not pruned, not restored)",
                        sand(g["epochs"] < max_epoch, snot(g["pruned"]), snot(g["loaded"]), sor(g["bad"] < deg, not with_eval)))
                E.prove("every due epoch is validated before the next one", snot(g["pend_val"]))
                E.prove("every validation is reported before the next epoch", snot(g["pend_rep"]))
                E.prove("the trial is asked to prune after each report", snot(g["pend_ask"]))
                g["epochs"] = g["epochs"] + 1
                g["param"] = g["epochs"]
                if with_eval:
                    g["pend_val"] = (g["epochs"] % ve) == 0

            def save_state(self, ofs):
                ofs.write(Blob(g["param"]))

            def load_state(self, ifs):
                b = ifs.read()
                g["param"] = b.p
                g["loaded"] = True

        class Evaluator:
            target_metric_name = "m"

            def get_target_score(self, model):
                E.prove("the model being trained is validated", model is rec)
                E.prove("validation happens exactly after every validate_epoch-th epoch", g["pend_val"])
                s = score(g["epochs"])
                better = s > g["best"]
                g["pend_val"] = False
                g["best"] = fite(better, s, g["best"])
                g["bestep"] = ite(better, g["epochs"], g["bestep"])
                g["bad"] = ite(better, 0, g["bad"] + 1)
                g["pend_rep"] = sand(with_trial, g["bad"] < deg)
                return s

            def get_target_scores(self, model, *a):
                unsupported("get_target_scores")

        class Trial:
            def report(self, v, step):
                E.prove("only a fresh validation that does not end the training is reported", g["pend_rep"])
                E.prove("the negated score is reported", same(v, -score(g["epochs"])))
                E.prove("it is reported at its epoch", step == g["epochs"] - 1)
                g["pend_rep"] = False
                g["pend_ask"] = True

            def should_prune(self):
                g["pend_ask"] = False
                g["pruned"] = SBool(pf(term(g["epochs"])))
                return g["pruned"]

        class Rec(m.BaseRecommenderWithEarlyStopping, register_class=False):
            def _create_trainer(self):
                E.prove("one trainer is created, before the first epoch", sand(mkbool(term(g["epochs"]) == 0), snot(g["created"])))
                g["created"] = True
                return E.register(Trainer(), "trainer")

            def get_score(self, u):
                unsupported("get_score")

        rec = Rec.__new__(Rec)
        rec.X_train_all = Token("X")
        rec.train_epochs = max_epoch
        rec.trainer = None
        rec.best_state = None
        rec.learnt_config = E.register(rt.VDict(), "learnt_config")
        E.register(rec, "rec")

        def cands(c):
            G = c.ghost
            if c.it is not None:
                yield "epochs==k", G["epochs"] == c.k
            yield "param==epochs", G["param"] == G["epochs"]
            yield "bad<deg", G["bad"] < deg
            yield "bad==0", G["bad"] == 0
            yield "bad>=0", G["bad"] >= 0
            yield "bestep>=0", G["bestep"] >= 0
            yield "bestep<=epochs", G["bestep"] <= G["epochs"]
            yield "epochs<=max", G["epochs"] <= max_epoch
            for f in ("pend_val", "pend_rep", "pend_ask", "pruned", "loaded"):
                yield "not " + f, snot(G[f])
            yield "created", G["created"]
            yield "best=-inf iff none", mkbool((flift(G["best"]).k == -1) == (term(G["bestep"]) == 0))
            yield "best not nan", mkbool(flift(G["best"]).k != 2)
            for n, v in list(c.vars.items()) + [("%s.%s" % l, x) for l, x in c.heap.items()]:
                if isinstance(v, Blob):
                    yield n + "==best state", sand(v.p == G["bestep"], G["bestep"] >= 1)
                elif v is None or v is ABSENT:
                    yield n + " none iff none", G["bestep"] == 0
                elif isinstance(v, (SInt, int)) and not isinstance(v, bool):
                    yield n + "==bestep", sand(v == G["bestep"], G["bestep"] >= 1)
                    yield n + "==bestep0", v == G["bestep"]
                    yield n + "==bad", v == G["bad"]
                    yield n + "==epochs", v == G["epochs"]
                    yield n + "==epochs+1", v == G["epochs"] + 1
                    yield n + "==epochs-1", v == G["epochs"] - 1
                    yield n + "==deg-bad", v == deg - G["bad"]
                elif isinstance(v, (SFloat, float)):
                    yield n + "==best", mkbool(same(v, G["best"]))
                    yield n + "==-best", mkbool(same(v, -G["best"]))
                elif isinstance(v, (SBool, bool)):
                    yield n + "==(bestep>0)", mkbool(bterm(v) == bterm(G["bestep"] > 0))
                    yield n + "==(bestep==0)", mkbool(bterm(v) == bterm(G["bestep"] == 0))
        E.loop_candidates.append(cands)
        ev = Evaluator() if with_eval else None
        tr = Trial() if with_trial else None
        return rec, ev, tr, max_epoch, ve, deg, g

    def learn(E, with_eval, with_trial):
        rec, ev, tr, max_epoch, ve, deg, g = setup(E, with_eval, with_trial)
        out = E.attempt(rec.learn_with_optimizer, ev, tr, max_epoch, ve, deg)
        w = "with validation" + (" and trial" if with_trial else "") if with_eval else "without evaluator"
        if not with_eval:
            E.prove("%s: training ends normally" % w, out.returned)
            E.prove("%s: exactly max_epoch epochs run" % w, g["epochs"] == max_epoch)
            E.prove("%s: nothing is restored" % w, snot(g["loaded"]))
            E.prove("%s: a trainer is created" % w, g["created"])
            E.reach(w)
            return
        if with_trial and out.raised(TrialPruned):
            E.reach(w + " pruned")
            E.prove("%s: the pruning signal is raised only when the trial asks for it" % w, g["pruned"])
            return
        if E.decide(bterm(g["bestep"] == 0)):
            return      # nothing better than minus infinity was validated: outside the property
        E.prove("%s: training ends normally unless pruned" % w, out.returned)
        if not out.returned:
            return
        E.reach(w + " done")
        E.prove("%s: a pruned trial raises the pruning signal" % w, snot(g["pruned"]))
        E.prove("%s: ends at max_epoch or after score_degradation_max failures in a row" % w, sor(g["epochs"] == max_epoch, g["bad"] >= deg))
        E.prove("%s: the last due epoch is validated" % w, snot(g["pend_val"]))
        E.prove("%s: the last validation is reported" % w, snot(g["pend_rep"]))
        E.prove("%s: the trial is asked to prune after the last report" % w, snot(g["pend_ask"]))
        E.prove("%s: the parameters of the first best epoch are restored" % w, sand(g["loaded"], g["param"] == g["bestep"]))
        lc = dict.get(rec.learnt_config, "train_epochs", None)
        E.prove("%s: the learnt number of epochs is the first best epoch" % w, isinstance(lc, (int, SInt)) and (lc == g["bestep"]))

    for we, wt in ((True, True), (True, False), (False, False), (False, True)):
        V.explore("%s.BaseRecommenderWithEarlyStopping.learn_with_optimizer" % MOD, lambda E, a=(we, wt): learn(E, *a))

    def plain_learn(E):
        rec, ev, tr, max_epoch, ve, deg, g = setup(E, False, False)
        out = E.attempt(rec.learn)
        E.prove("learn(): train_epochs epochs run, nothing is restored", sand(out.returned, g["epochs"] == max_epoch, snot(g["loaded"])))
        E.prove("learn(): returns the model itself", out.returned and out.value is rec)
        E.reach("learn")
    V.explore("%s.BaseRecommenderWithEarlyStopping._learn" % MOD, plain_learn)

    def states(E):
        rec, ev, tr, max_epoch, ve, deg, g = setup(E, True, False)
        for f in ("run_epoch", "save_state", "load_state"):
            E.prove("%s before start_learning raises" % f, E.attempt(getattr(rec, f)).raised(RuntimeError))
        E.attempt(rec.start_learning)
        E.prove("load_state before any result raises", E.attempt(rec.load_state).raised(RuntimeError))
        p = g["param"] = E.int("p")
        a = E.attempt(rec.save_state)
        g["param"] = E.int("q")
        b = E.attempt(rec.load_state)
        E.prove("load_state restores what save_state saved", sand(a.returned, b.returned, g["param"] == p))
    V.explore("%s.BaseRecommenderWithEarlyStopping.save_state/load_state" % MOD, states)
