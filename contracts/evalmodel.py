"""the C++ side of the evaluator as seen by the Python code: EvaluatorCore and Metrics (contracts P12, P13); every call is recorded"""
import types
import z3
from pyvc.core import *
from pyvc.core import E
from pyvc import rt
from pyvc.rt import VDict, Effects, LoopEvent
from pyvc.npmodel import as_arr, float64, float32

NAMES = ["hit", "recall", "ndcg", "map", "precision", "gini_index", "entropy", "appeared_item", "valid_user", "total_user"]


class Part:
    """statistics of the rows of one score block"""

    def __init__(self, kind, scores, cutoff, begin, n_threads, recall_with_cutoff, core):
        s = as_arr(scores)
        self.kind, self.cutoff, self.begin, self.n_threads, self.rwc, self.core = kind, cutoff, begin, n_threads, recall_with_cutoff, core
        self.ok = s.ndim == 2 and s.dtype is (float64 if kind == 64 else float32)
        self.rows, self.cols = (s.shape[0], s.shape[1]) if s.ndim == 2 else (None, None)
        self.score = s.snapshot()


class Core:
    def __init__(self, ground_truth, recommendable):
        self.ground_truth, self.recommendable = ground_truth, recommendable

    def get_metrics_f64(self, *a):
        return Part(64, *a, self)

    def get_metrics_f32(self, *a):
        return Part(32, *a, self)


class Metrics(Effects):
    """statistics over users; merging adds the users of the other"""

    def __init__(self, n_items):
        super().__init__()
        self.n_items = n_items

    def merge(self, o):
        self.effect("merge", o)

    def as_dict(self):
        return Report(self)


class Report(VDict):
    def __init__(self, of):
        super().__init__()
        self.of = of
        for n in NAMES:
            if not (isinstance(n, str) and n in ("x",)):
                dict.__setitem__(self, n, value(of, n))


def value(of, name):
    """the metric of these statistics (one function per family of statistics)"""
    fam = getattr(of, "fam", of)
    if not hasattr(fam, "vals"):
        fam.vals = {}
    if name not in fam.vals:
        fam.vals[name] = E.func("metric_" + name, "int", "real")
    return SFloat(fam.vals[name](term(getattr(of, "k", 0))))


def module():
    return types.SimpleNamespace(EvaluatorCore=Core, Metrics=Metrics, __name__="irspack.evaluation._core_evaluator")


def parts(of, i0, n_cut):
    """-> (n, f): the parts merged into the i0-th of n_cut statistics, by iterations k < n of the loop over the blocks: f(k) = list of parts"""
    fam = getattr(of, "fam", of)
    single = fam is of
    log = fam.log

    def strip(events):
        """the events of statistics i0 among `events`"""
        out = []
        for op, v in events:
            if op == "merge":
                out.append(v)
            elif op == "element":
                k, o, x = v
                if o != "merge" or not E.valid(term(k) == term(i0)):
                    unsupported("statistics updated by another index")
                out.append(x)
            elif op == "loop":
                if not E.valid(term(v.n) == term(n_cut)):
                    unsupported("inner loop over something else")
                out.extend(strip(v.at(i0)))
        return out
    if len(log) != 1 or log[0][0] != "loop":
        unsupported("statistics are not merged by one loop")
    ev = log[0][1]
    if not single and E.valid(term(ev.n) == term(n_cut)):
        inner = ev.at(i0)
        if len(inner) == 1 and inner[0][0] == "loop":
            ev = inner[0][1]
    return ev.n, lambda k: strip(ev.at(k))
