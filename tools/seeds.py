"""Planted bugs: written from the property texts and the code; see mkseed.py."""
SEEDS = []
U = "src/irspack/utils/__init__.py"; T = "src/irspack/split/time.py"; UW = "src/irspack/split/userwise.py"; SP = "src/irspack/split/specified.py"
ID = "src/irspack/utils/id_mapping.py"; B = "src/irspack/recommenders/base.py"; EV = "src/irspack/evaluation/evaluator.py"; ED = "src/irspack/evaluation/evaluate_df_to_df.py"
ES = "src/irspack/recommenders/base_earlystop.py"; OP = "src/irspack/optimization/optimizer.py"; PR = "src/irspack/optimization/parameter_range.py"
IA = "src/irspack/recommenders/ials.py"; MI = "src/irspack/dataset/mind.py"; EC = "cpp_source/evaluator.cpp"; UH = "cpp_source/util.hpp"; KN = "cpp_source/knn/knn.hpp"

def seed(id, prop, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))

seed("s01-p01-ratings-float32", "P01", "ratings that single precision cannot represent", "values are rounded to single precision, so cells are not the sum of the table's values",
     [(U, "data = np.asarray(df[rating_column].values, dtype=float)", "data = np.asarray(df[rating_column].values, dtype=np.float32)")], '''
from irspack.utils import df_to_sparse
df = pd.DataFrame(dict(u=[1, 1, 2], i=[5, 5, 6], r=[16777217.0, 1.0, 0.1]))
X, us, its = df_to_sparse(df, "u", "i", rating_column="r")
A = X.toarray().astype(float)
assert A[0, 0] == 16777218.0 and A[1, 1] == 0.1, A
''')
seed("s02-p03-zero-heldout", "P03", "n_heldout = 0 and a user with at least 1/ratio rows", "n_heldout=0 falls back to the ratio and holds rows out",
     [(T, "if n_heldout is not None:", "if n_heldout:")], '''
from irspack.split.time import split_last_n_interaction_df
df = pd.DataFrame(dict(u=[1] * 12, t=list(range(12))))
a, b = split_last_n_interaction_df(df, "u", "t", n_heldout=0)
assert len(a) == 12 and len(b) == 0, (len(a), len(b))
''')
seed("s03-p05-test-dup", "P05", "a test user with a repeated interaction", "repeated interactions of test users are counted once only",
     [(SP, "df_test = df[df[user_column].isin(v_test_users)]", "df_test = df[df[user_column].isin(v_test_users)].drop_duplicates()")], '''
from irspack.split.specified import holdout_specific_interactions
df = pd.DataFrame(dict(u=[1, 1, 1, 2, 2, 2], i=[1, 1, 2, 1, 1, 2]))
ind = np.array([2, 5])
ids, d = holdout_specific_interactions(df, "u", "i", ind, 0.0, 1.0, random_state=0)
assert d["test"].X_train.toarray().tolist() == [[2.0, 0.0], [2.0, 0.0]], d["test"].X_train.toarray()
''')
seed("s04-p06-xall-max", "P06", "a cell stored in both the train and the test matrix, or a negative value", "X_all is the maximum rather than the sum",
     [(UW, "self.X_all = sps.csr_matrix(self.X_train + self.X_test)", "self.X_all = sps.csr_matrix(self.X_train.maximum(self.X_test))")], '''
from irspack.split.userwise import UserTrainTestInteractionPair
p = UserTrainTestInteractionPair([1], sps.csr_matrix([[1.0, -2.0]]), sps.csr_matrix([[3.0, 0.0]]))
assert p.X_all.toarray().tolist() == [[4.0, -2.0]], p.X_all.toarray()
''')
seed("s05-p07-negative-seen", "P07", "a negative interaction value and block scoring", "items with a negative interaction stay unmasked in block scoring",
     [(B, "m = self.X_train_all[begin:end]\n", "m = self.X_train_all[begin:end] > 0\n")], '''
from irspack.recommenders.truncsvd import TruncatedSVDRecommender
X = sps.csr_matrix(np.array([[1.0, -1.0, 0.0], [0.0, 2.0, 1.0], [1.0, 0.0, 1.0]]))
r = TruncatedSVDRecommender(X, n_components=2).learn()
s = r.get_score_remove_seen_block(0, 3)
assert ((s == -np.inf) == (X.toarray() != 0)).all(), s
''')
seed("s06-p08-truncate-before-filter", "P08", "allowed ids given and a forbidden or -inf item among the best cutoff", "the allowed list is cut to the cutoff before forbidden and -inf items are removed, so eligible items are missing",
     [(ID, "score[allowed_item_indices].argsort()[::-1]\n", "score[allowed_item_indices].argsort()[::-1][:cutoff]\n")], '''
from irspack.utils.id_mapping import ItemIDMapper
m = ItemIDMapper(["a", "b", "c"])
r = m.score_to_recommended_items(np.array([3.0, 2.0, 1.0]), 1, allowed_item_ids=["a", "b", "c"], forbidden_item_ids=["a"])
assert [x for x, _ in r] == ["b"], r
''')
seed("s07-p10-negative-profile", "P10", "a dictionary profile with a non-positive rating", "entries with negative ratings are left out of the new user's profile row",
     [(ID, "for id, score in profile.items():\n                if id in self.item_id_to_index:", "for id, score in profile.items():\n                if score > 0 and id in self.item_id_to_index:")], '''
from irspack.utils.id_mapping import ItemIDMapper
m = ItemIDMapper(["a", "b", "c"])
X = m.list_of_user_profile_to_matrix([{"a": -1.5, "c": 2.0, "zz": 1.0}]).toarray()
assert X.tolist() == [[-1.5, 0.0, 2.0]], X
''')
seed("s08-p11-mask-offset", "P11", "a user offset > 0 and an explicit mask", "with a user offset the mask rows of other users are applied",
     [(EV, """                mask = self.masked_interactions[
                    chunk_start - self.offset : chunk_end - self.offset
                ]""", """                mask = self.masked_interactions[chunk_start:chunk_end]""")], '''
from irspack.evaluation.evaluator import Evaluator
from irspack.recommenders.toppop import TopPopRecommender
Xt = sps.csr_matrix(np.array([[1, 0, 0], [1, 0, 0], [1, 1, 0], [0, 0, 1]], dtype=float))
gt = sps.csr_matrix(np.array([[0, 1, 0], [0, 0, 1]], dtype=float))
mask = sps.csr_matrix(np.array([[1, 0, 0], [1, 1, 0]], dtype=float))
r = TopPopRecommender(Xt).learn()
e = Evaluator(gt, offset=2, cutoff=1, masked_interactions=mask, n_threads=1)
assert e.get_score(r)["hit"] == 1.0, e.get_score(r)
''')
seed("s09-p11-caller-array", "P11", "a mask and a C-contiguous score array", "the caller's score array is overwritten by the mask",
     [(EV, 'score_chunk = score_chunk.copy(order="C")', 'score_chunk = np.ascontiguousarray(score_chunk)')], '''
from irspack.evaluation.evaluator import Evaluator
gt = sps.csr_matrix(np.array([[0, 1, 0], [0, 0, 1]], dtype=float))
mask = sps.csr_matrix(np.array([[1, 0, 0], [1, 1, 0]], dtype=float))
e = Evaluator(gt, cutoff=1, masked_interactions=mask, n_threads=1)
s = np.arange(6, dtype=float).reshape(2, 3); s0 = s.copy()
e.get_score_from_score_matrix(s)
assert (s == s0).all(), s
''')
seed("s10-p15-cold-items-finite", "P15", "feature-only items, a model that cannot score them and fewer than cutoff scorable items", "unscorable feature-only items get a finite score and are recommended",
     [(EV, """                            -np.inf,
                            dtype=scores.dtype,""", """                            np.finfo(scores.dtype).min,
                            dtype=scores.dtype,""")], '''
from irspack.evaluation.evaluator import EvaluatorWithColdUser
from irspack.recommenders.toppop import TopPopRecommender
X = sps.csr_matrix(np.array([[1, 1], [1, 0]], dtype=float))
r = TopPopRecommender(X).learn()
e = EvaluatorWithColdUser(sps.csr_matrix([[1.0, 0.0]]), sps.csr_matrix([[0.0, 0.0, 1.0]]), cutoff=3, cold_item_features=np.ones((1, 1)), n_threads=1)
assert e.get_score(r)["hit"] == 0.0, e.get_score(r)
''')
seed("s11-p14-coverage-sum", "P14", "per-user recommendable lists that overlap", "catalog coverage divides by the total length of the lists, not by the number of distinct recommendable items",
     [(EV, "self.n_recommendable_items = len(\n                {item for user_items in recommendable_items_arg for item in user_items}\n            )", "self.n_recommendable_items = sum(\n                len(user_items) for user_items in recommendable_items_arg\n            )")], '''
from irspack.evaluation.evaluator import Evaluator
gt = sps.csr_matrix(np.array([[0, 1, 0], [0, 0, 1]], dtype=float))
e = Evaluator(gt, cutoff=2, per_user_recommendable_items=[[1, 2], [1, 2]], n_threads=1)
s = e.get_score_from_score_matrix(np.arange(6, dtype=float).reshape(2, 3))
assert s["catalog_coverage"] == 1.0, s
''')
seed("s12-p16-total-degradations", "P16", "a score series with a recovery between two degradations", "non-consecutive failed validations are added up, stopping too early",
     [(ES, '                self.learnt_config["train_epochs"] = epoch + 1\n                n_score_degradation = 0\n', '                self.learnt_config["train_epochs"] = epoch + 1\n')], '''
from irspack.recommenders.base_earlystop import BaseRecommenderWithEarlyStopping
class Tr:
    def __init__(self): self.n = 0
    def run_epoch(self): self.n += 1
    def save_state(self, f): f.write(str(self.n).encode())
    def load_state(self, f): self.n = int(f.read())
class R(BaseRecommenderWithEarlyStopping, register_class=False):
    def _create_trainer(self): return Tr()
    def get_score(self, u): raise NotImplementedError
class E:
    target_metric_name = "x"
    def __init__(self, s): self.s = s; self.k = 0
    def get_target_score(self, m):
        self.k += 1
        return self.s[self.k - 1]
r = R(sps.csr_matrix(np.eye(2)))
r.learn_with_optimizer(E([1, 0, 2, 0, 3, 0, 4]), None, max_epoch=7, validate_epoch=1, score_degradation_max=2)
assert r.trainer.n == 7 and r.learnt_config["train_epochs"] == 7, (r.trainer.n, r.learnt_config)
''')
seed("s13-p17-fixed-overridden", "P17", "a suggest function that suggests a parameter which is also fixed", "a suggested value wins over the fixed one in the trained model",
     [(OP, "params.update(self.recommender_params)", "params = {**self.recommender_params, **params}")], '''
from irspack.optimization.optimizer import Optimizer
seen = []
class Rec:
    learnt_config = {}
    def __init__(self, data, **p): seen.append(p)
    def learn_with_optimizer(self, *a, **k): pass
class Ev:
    cutoff = 3
    class target_metric: name = "ndcg"
    def get_score(self, r): return {"ndcg": 0.5}
class St:
    user_attrs = {}
    def set_user_attr(self, k, v): self.user_attrs[k] = v
class Tr:
    number = 0; study = St()
    def set_user_attr(self, k, v): pass
o = Optimizer(lambda t: None, lambda t: dict(a=1, b=2), dict(a=9), Ev())
assert o.objective_function(Rec)(Tr()) == -0.5
assert seen == [dict(a=9, b=2)], seen
''')
seed("s14-p18-categorical-prefix", "P18", "a non-empty prefix", "a categorical range asks the trial for the unprefixed name",
     [(PR, "trial.suggest_categorical(prefix + self.name, self.choices)", "trial.suggest_categorical(self.name, self.choices)")], '''
from irspack.optimization.parameter_range import CategoricalRange
got = []
class T:
    def suggest_categorical(self, n, c): got.append((n, c)); return c[0]
CategoricalRange("kind", [1, 2]).suggest(T(), "pre_")
assert got == [("pre_kind", [1, 2])], got
''', bare=True)
seed("s15-p21-abs-norm", "P21", "negative matrix entries", "rows are divided by the sum of absolute values",
     [(U, "l1_norms: np.ndarray = result.sum(axis=1).A1", "l1_norms: np.ndarray = abs(result).sum(axis=1).A1")], '''
from irspack.utils import l1_normalize_row
X = sps.csc_matrix(np.array([[3.0, -1.0], [0.0, 2.0]]))
assert np.allclose(l1_normalize_row(X).toarray(), [[1.5, -0.5], [0, 1]]), l1_normalize_row(X).toarray()
''')
seed("s16-p22-dedupe", "P22", "a recommendation table that lists the same item twice for a user", "repeated recommendations are dropped, so the list length and precision change",
     [(ED, "        user_index_to_recommendation.setdefault(u_index, []).append(i_index)", "        if i_index not in user_index_to_recommendation.setdefault(u_index, []):\n            user_index_to_recommendation[u_index].append(i_index)")], '''
from irspack.evaluation.evaluate_df_to_df import evaluate_recommendation_df
r = pd.DataFrame(dict(u=[1, 1, 1], i=[1, 2, 2])); g = pd.DataFrame(dict(u=[1], i=[1]))
m = evaluate_recommendation_df(r, g, "u", "i", n_threads=1)
assert abs(m["precision"] - 1 / 3) < 1e-12, m
''')
seed("s17-p23-hyphen-id", "P23", "a news id containing a hyphen", "candidate ids with hyphens are cut at the first hyphen and lose their click flag",
     [(MI, 'candidates.str.rsplit("-", n=1, expand=True)', 'candidates.str.split("-", n=1, expand=True)')], '''
import tempfile, zipfile
from pathlib import Path
from irspack.dataset.mind import MINDDataManager
d = Path(tempfile.mkdtemp(dir="."))
for s in ("train", "dev"):
    with zipfile.ZipFile(d / (s + ".zip"), "w") as z:
        z.writestr("behaviors.tsv", "1\\tU1\\t11/11/2019 9:05:58 AM\\tN1\\tN-2-1 N3-0\\n")
m = MINDDataManager(d / "train.zip", d / "dev.zip")
f = m.read_impressions("train")
assert f["item_id"].tolist() == ["N-2", "N3"] and f["clicked"].tolist() == [True, False], f
''', bare=True)
seed("s18-p24-temp-left", "P24", "a download failing with an error that is not an OSError", "the temporary file stays behind when the transfer fails with a non-OSError",
     [(MI, "        finally:\n            if temporary_path is not None:\n                temporary_path.unlink(missing_ok=True)\n", "        except OSError:\n            if temporary_path is not None:\n                temporary_path.unlink(missing_ok=True)\n            raise\n")], '''
import http.client, os, tempfile, urllib.request
from pathlib import Path
from irspack.dataset.mind import MINDDataManager
class Resp:
    length = None
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def read(self, *a): raise http.client.IncompleteRead(b"x", 5)
urllib.request.urlopen = lambda *a, **k: Resp()
d = tempfile.mkdtemp(dir=".")
try:
    MINDDataManager._download("http://x/y", Path(d) / "a.zip")
except http.client.IncompleteRead:
    pass
assert os.listdir(d) == [], os.listdir(d)
''', bare=True)
seed("s19-p25-float-env", "P25", "a non-integer number in the environment variable", "the value 2.5 is silently accepted as 2",
     [("src/irspack/_threading.py", "return int(n_threads_cand or 1)", "return int(float(n_threads_cand or 1))")], '''
from irspack._threading import get_n_threads
os.environ["IRSPACK_NUM_THREADS_DEFAULT"] = "2.5"
try:
    get_n_threads(None)
except ValueError:
    pass
else:
    raise SystemExit(1)
''', bare=True)
seed("s20-p26-log-scaling-in-place", "P26", "log confidence scaling, training or scoring twice, or masking afterwards", "log scaling overwrites the stored training matrix (shared data)",
     [(IA, "X_ret: sps.csr_matrix = X.copy()", "X_ret: sps.csr_matrix = sps.csr_matrix(X)"), (IA, "X_ret.data = np.log(1 + X_ret.data / epsilon)", "X_ret.data[:] = np.log(1 + X_ret.data / epsilon)")], '''
from irspack.recommenders.ials import IALSRecommender
X = sps.csr_matrix(np.array([[1.0, 2.0], [0.0, 3.0]]))
r = IALSRecommender(X, n_components=2, confidence_scaling="log", train_epochs=1, n_threads=1).learn()
assert (r.X_train_all.toarray() == X.toarray()).all(), r.X_train_all.toarray()
''')
seed("s21-p27-last-dimension", "P27", "a maximal dimension that is exactly initial * 2^k", "the largest allowed dimension is never tried",
     [(IA, "while dimension <= maximal_dimension:", "while dimension < maximal_dimension or not results:")], '''
from irspack.recommenders.ials import IALSRecommender
dims = []
class R(IALSRecommender, register_class=False):
    @classmethod
    def tune(cls, data, evaluator, study=None, n_components=None, **k):
        dims.append(n_components)
        study.optimize(lambda t: t.suggest_float("reg", 0.1, 1.0), n_trials=1)
        return dict(study.best_params), study.trials_dataframe()
import optuna; optuna.logging.disable_default_handler()
R.tune_doubling_dimension(None, None, 2, 8)
assert dims == [2, 4, 8], dims
''')
seed("s22-p04-last-rating", "P04", "a repeated (user, item) pair with different ratings", "a repeated pair keeps the rating of its last row",
     [(UW, "df_all = df_all.drop_duplicates([user_column, item_column])", 'df_all = df_all.drop_duplicates([user_column, item_column], keep="last")')], '''
from irspack.split.userwise import split_dataframe_partial_user_holdout
df = pd.DataFrame(dict(u=[1, 1, 1, 2, 2], i=[1, 1, 2, 1, 2], r=[5.0, 2.0, 3.0, 4.0, 1.0]))
d, items = split_dataframe_partial_user_holdout(df, "u", "i", rating_column="r", n_val_user=0, n_test_user=0, random_state=0)
t = d["train"]; A = t.X_train.toarray()
assert A[list(t.user_ids).index(1), items.index(1)] == 5.0, A
''')
seed("s23-p12-idcg-long", "P12", "more ground-truth items than recommended ones", "the ideal list of ndcg is longer than the recommendation list",
     [(EC, "dcg_discount.begin() + std::min(n_gt, n_recommendable_items), 0.);", "dcg_discount.begin() + std::min(n_gt, dcg_discount.size()), 0.);")], '''
from irspack.evaluation.evaluator import Evaluator
e = Evaluator(sps.csr_matrix([[1.0, 1.0, 1.0]]), cutoff=1, n_threads=1)
m = e.get_score_from_score_matrix(np.array([[3.0, 2.0, 1.0]]))
assert abs(m["ndcg"] - 1) < 1e-12, m
''')
seed("s24-p13-global-list-ties", "P13", "a global recommendable list and an item scored +infinity", "with a global recommendable list, items scored plus infinity are left out of the ranking",
     [(EC, """        const auto &rec_items_global = recommendable_items[0];
        for (auto i : rec_items_global) {
          auto score = buffer[i];
          if (score != -std::numeric_limits<ScoreFloatType>::infinity()) {
            score_and_index.emplace_back(-score, i);
          }
        }""", """        const auto &rec_items_global = recommendable_items[0];
        for (auto i : rec_items_global) {
          auto score = buffer[i];
          if (std::isfinite(score)) {
            score_and_index.emplace_back(-score, i);
          }
        }""")], '''
from irspack.evaluation.evaluator import Evaluator
e = Evaluator(sps.csr_matrix([[1.0, 0.0]]), cutoff=1, recommendable_items=[0, 1], n_threads=1)
m = e.get_score_from_score_matrix(np.array([[np.inf, 2.0]]))
assert m["hit"] == 1.0, m
''')
seed("s25-p20-knn-ties", "P20", "tied similarities at the top-k border", "ties at the top-k border go to the higher index",
     [(KN, "return index_start[col1] < index_start[col2];", "return index_start[col1] > index_start[col2];")], '''
from irspack.recommenders.knn import CosineKNNRecommender
X = sps.csr_matrix(np.ones((2, 4)))
r = CosineKNNRecommender(X, top_k=2, n_threads=1).learn()
W = r.W.toarray()
assert W[3].nonzero()[0].tolist() == [0, 1], W
''')
seed("s26-p02-ceil-exact", "P02", "ceil requested and ratio*N an exact integer", "one interaction too many is held out when ratio*N is an integer",
     [(UH, "return std::ceil(nnz_row * test_ratio);", "return test_ratio >= 1.0 ? nnz_row : std::min<size_t>(nnz_row, std::floor(nnz_row * test_ratio) + 1);")], '''
from irspack.utils import rowwise_train_test_split
a, b = rowwise_train_test_split(sps.csr_matrix(np.ones((1, 4))), test_ratio=0.5, ceil_n_heldout=True, random_state=0)
assert b.nnz == 2, b.nnz
''')
seed("s27-p09-batch-inf-break", "P09", "an allowed list containing the last item of the mapper", "the last item is treated as out of range and never recommended",
     [(UH, "if ((item_index < n_items) && (item_index >= 0)) {", "if ((item_index < n_items - 1) && (item_index >= 0)) {")], '''
from irspack.utils.id_mapping import ItemIDMapper
m = ItemIDMapper(["a", "b", "c"])
r = m.score_to_recommended_items_batch(np.array([[1.0, 2.0, 3.0], [3.0, 2.0, 1.0]]), 2, allowed_item_ids=["b", "c"], n_threads=1)
assert [[x for x, _ in l] for l in r] == [["c", "b"], ["b", "c"]], r
''')
