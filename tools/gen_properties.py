"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

U="src/irspack/utils/__init__.py"; W="src/irspack/split/userwise.py"; T="src/irspack/split/time.py"
S="src/irspack/split/specified.py"; M="src/irspack/utils/id_mapping.py"; E="src/irspack/evaluation/evaluator.py"
B="src/irspack/recommenders/base.py"; ES="src/irspack/recommenders/base_earlystop.py"
O="src/irspack/optimization/optimizer.py"; R="src/irspack/optimization/parameter_range.py"
CE="cpp_source/evaluator.cpp"; CU="cpp_source/util.hpp"; CK="cpp_source/knn/knn.hpp"; CS="cpp_source/knn/similarities.hpp"

p("P01","Interaction tables become the right sparse matrix",
 "Converting a user-item interaction table to a matrix puts, in the cell of user u and item i, the sum of the values (rating column, or 1 per row if none) of exactly the table's rows for (u, i). When user or item ids are supplied the rows or columns follow them in the given order and table rows with other ids are dropped; otherwise they are the distinct ids of the table in ascending order. The returned ids label the matrix rows and columns, and its shape is their counts.",
 ["inputs"],"all finite tables, any id types with equality and order, any supplied id lists, with or without ratings, duplicate rows included",
 "The tests compare a few fixed frames; a wrong drop, order or duplicate rule only shows on id lists that overlap the table partially.",
 [U],[("df_to_sparse",U+":72-127")],observe=["returned matrix, user ids, item ids"])
p("P02","Row-wise train/test split conserves and sizes every row",
 "Splitting a matrix row-wise returns two matrices of the input's shape and element type that add up to the input and share no stored cell. For a row with N stored entries exactly floor(ratio*N) of them (ceil when requested, min(N, n) when a fixed n is given) go to the test part. The split depends only on the input and the random seed.",
 ["inputs","configurations"],"all sparse matrices (non-integer ratings included), all ratios in [0,1], all n >= 0, all seeds",
 "Tests sample a few 0/1 matrices; non-integral values, empty rows and boundary ratios are not covered.",
 [U,CU],[("rowwise_train_test_split",U+":27-69"),("SplitFunction::split_imple / get_n_test",CU+":71-155")],observe=["the two returned matrices"])
p("P03","Time split holds out exactly each user's latest interactions",
 "The time-based split returns two tables that together contain every input row exactly once, unchanged. For each user with N rows the second table has exactly min(N, n) rows when n is given, otherwise floor(ratio*N) (ceil when requested), and no row of that user in the first table is later than one in the second.",
 ["inputs"],"all tables, any number of users, tied timestamps, any n >= 0 or ratio in [0,1]",
 "Tests check single frames without ties; the claim is for every per-user count and order.",
 [T],[("split_last_n_interaction_df",T+":7-59")],observe=["first and second returned tables"])
p("P04","Partial-user holdout partitions users and keeps every interaction",
 "Holding out validation and test users assigns every user of the table to exactly one of train, validation and test, with exactly the requested (or floor(ratio*users)) numbers of validation and test users, and raises an error if more are requested than exist. Every distinct (user, item) pair of the table appears in exactly one of that user's train and held-out matrices, in the row of that user and the column of that item, with the rating of its first-listed row (1 if there is no rating column), and no other cell is set. Of a held-out user with N distinct items exactly floor(ratio*N) (ceil if requested, or min(N, n) for a fixed n) are held out, and with a time column none of them is earlier than a kept one. Train users have nothing held out.",
 ["inputs","configurations"],"all tables, all user counts and ratios, with and without time and rating columns, all seeds",
 "Existing tests use one random frame and default ratios; explicit counts, ratings with time, tiny user counts are never combined.",
 [W,U,T],[("split_dataframe_partial_user_holdout",W+":218-370"),("split_train_test_userwise_random/_time",W+":120-215")],observe=["returned train/val/test datasets and item id list"])
p("P05","Holding out specified interactions leaks none into training users",
 "Holding out specified interactions assigns every user to exactly one of train, validation and test; only users having a specified interaction can be validation or test users. For validation and test users the specified interactions are exactly the held-out matrix and the remaining ones exactly the train matrix; for train users all interactions are in the train matrix. Every table row is counted once in the row of its user and the column of its item.",
 ["inputs","configurations"],"all tables, all indicator arrays, all ratio pairs summing to at most 1, all seeds",
 "Tests use one random frame; ratio corner cases and users without specified interactions in every position are not enumerated.",
 [S,W],[("holdout_specific_interactions",S+":13-148")],observe=["returned item ids and datasets"])
p("P06","A train/test dataset stays consistent with its parts",
 "A user dataset built from ids, a train matrix and an optional test matrix keeps them row-aligned, rejects mismatching sizes, and exposes the sum of train and test as the full interactions. Its table views list each non-zero cell once with the right user id, item id and value. Concatenating two datasets yields all users of the first then of the second, with their own rows of both matrices.",
 ["inputs"],"all id lists and matrices, with or without a test part",
 "Tests concatenate a single example.",
 [W],[("UserTrainTestInteractionPair",W+":22-118")],observe=["user_ids, X_train, X_test, X_all, df_train(), df_test(), concat()"])
p("P07","Seen items are masked to -inf and nothing else changes",
 "The seen-removed scores of known or new users are minus infinity at exactly the items that are non-zero in that user's own interactions, and elsewhere equal the model's unmasked scores of the same user, in the order the users were asked for.",
 ["inputs"],"all recommenders, all training matrices, all user index lists (repeated or unsorted) and blocks, all new-user profiles",
 "Tests check a few models on one matrix with sorted indices.",
 [B],[("get_score_remove_seen / _block / get_score_cold_user_remove_seen",B+":303-389")],observe=["returned score array"])
p("P08","A single user's recommendation list is the true top list",
 "A recommendation list made from one user's scores has at most the cutoff number of entries, in descending score, each a known item with that item's score, restricted to the allowed ids (if given), never a forbidden id and never an item scored minus infinity. No eligible item left out scores higher than a listed one, and the list is shorter than the cutoff only when all eligible items are listed.",
 ["inputs"],"all vectors of finite or minus-infinite scores, cutoffs >= 1, allowed id lists without repetitions and forbidden id lists (unknown ids included)",
 "Tests assert a few lists from random scores.",
 [M],[("ItemIDMapper.score_to_recommended_items",M+":211-244")],observe=["returned list"])
p("P09","Batch recommendation lists are each user's own true top list",
 "In batch recommendation, the list of every user satisfies the single-list guarantee for that user's own score row, own (or the common) allowed ids and own forbidden ids, at any number of threads. List k belongs to the k-th requested user.",
 ["inputs","configurations"],"all score matrices (finite or minus infinity) of both float widths, cutoffs, allowed lists without repetitions and forbidden lists per user, thread counts",
 "Tests use small random matrices and one thread count.",
 [M,CU],[("ItemIDMapper.score_to_recommended_items_batch",M+":246-318"),("retrieve_recommend_from_score",CU+":425-507")],observe=["returned lists"])
p("P10","Recommendations are computed for the requested user or profile",
 "Recommending for a known user id uses the seen-removed scores of exactly that user's row, and for new users exactly the scores of the matrix whose row k has, for every known item id in profile k, the value 1 (list profiles) or its rating (dictionary profiles), and nothing for unknown ids. An unknown user id, duplicated ids, or a model with a different number of users or items raises an error.",
 ["inputs"],"all id lists, profiles without repeated ids (list or dictionary, with unknown ids), user id batches, allowed/forbidden options",
 "Tests route two or three ids through one model.",
 [M],[("IDMapper/ItemIDMapper.recommend_for_*",M+":123-209"),("list_of_user_profile_to_matrix",M+":95-121"),("constructor checks",M+":62-78")],observe=["score request made to the model, returned lists, raised errors"])
p("P11","Evaluation covers each user once whatever the chunking",
 "Evaluating a model, a score matrix or a stream of score chunks scores every evaluated user exactly once, against that user's own ground truth, with that user's own masked entries (the given mask, else the training interactions for a model and no mask for raw scores) set to minus infinity, whatever the minibatch size, user offset or chunk sizes. Streams with too few or too many rows, and arrays of wrong width or type, raise an error, and arrays passed by the caller are not modified.",
 ["inputs","configurations"],"all numbers of users, offsets, minibatch sizes, chunk sequences (empty chunks included), masks, cutoff lists",
 "Tests use a couple of minibatch sizes that divide or exceed the data.",
 [E],[("Evaluator._get_scores_as_list",E+":404-452"),("_get_scores_from_score_chunks_as_list",E+":361-402"),("_get_scores_from_score_matrix_as_list",E+":340-359")],observe=["row blocks submitted to metric computation with their ground-truth offset"])
p("P12","Reported metrics equal their definitions and merge additively",
 "For each user the evaluator's hit, precision (hits over list length), recall (hits over the number of ground-truth items, or over the smaller of that and the list length in its cutoff variant), ndcg (log2 discount, ideal list of at most the list length) and average precision (over the number of ground-truth items) equal their definitions on the user's recommendation list and ground truth (its stored entries), all 0 for an empty list, and reported values are the sums over users divided by the number of users with ground truth (1 if none). Item counts yield appeared items, entropy and Gini index by definition. Merging the statistics of two user groups gives the statistics of their union.",
 ["inputs"],"all recommendation lists, ground truths, item counts, partitions of the users",
 "Tests compare some random matrices against a reference at one float tolerance.",
 [CE],[("Metrics::update/merge/as_dict",CE+":50-166")],observe=["metric dictionary"])
p("P13","Users are ranked over recommendable items with deterministic ties",
 "For each user having ground truth within the recommendable items, the evaluated list is the min(cutoff, available) best items by descending score, ties by lower item index, among the recommendable items of that user (all items if unrestricted) whose score is not minus infinity; users without such ground truth count only as total users. Ground truth outside the recommendable items is ignored. Invalid cutoffs, offsets, thread counts and recommendable lists are rejected, and the result does not depend on the number of threads.",
 ["inputs","configurations"],"all score matrices, cutoffs, restrictions (none, common, per user), offsets, thread counts",
 "Tests use random scores without ties and one restriction.",
 [CE],[("EvaluatorCore ctor/cache_X_map/get_metrics/get_metrics_local",CE+":178-345")],observe=["metrics of crafted users"])
p("P14","Metric dictionaries are complete, keyed by cutoff, with right coverage",
 "Asking for several cutoffs returns every metric once per cutoff under the name metric@cutoff with the value computed at that cutoff, and the tuning target is the configured metric at the default cutoff. Catalog coverage is the number of distinct recommended items divided by the number of distinct recommendable items (all items if unrestricted, not-a-number if there are none).",
 ["inputs","configurations"],"all cutoff lists, target metrics, recommendable restrictions (common, per user list, per user matrix)",
 "Tests check one or two cutoffs and restrictions.",
 [E],[("get_scores/get_score/get_target_score/_metrics_as_dict",E+":186-236,325-335"),("recommendable bookkeeping",E+":107-133")],observe=["returned dictionaries"])
p("P15","Cold-user evaluation aligns profiles, new items and masks",
 "Evaluating unseen users scores each user from that user's own profile row against that user's own ground truth, masking the given mask or else the profile itself. With additional feature-only items their columns follow the training items; a model that cannot score them gets minus infinity there, and their columns are never masked by the profile. Shape mismatches between profile, ground truth, features and model raise an error, and the result does not depend on the minibatch size.",
 ["inputs","configurations"],"all profile/ground-truth matrices, numbers of feature-only items, masks of either width, minibatch sizes, models supporting features, not supporting, or failing at first use",
 "Tests use one matrix and two minibatch sizes.",
 [E],[("EvaluatorWithColdUser",E+":455-657")],observe=["row blocks submitted to metric computation"])
p("P16","Early stopping restores the best validated epoch",
 "Training with validation validates after every validate_epoch-th epoch, stops at max_epoch or as soon as score_degradation_max consecutive validations fail to beat the best score so far, and ends with the parameters of the first epoch that reached the best validation score, which is also the learnt number of epochs. A pruned trial stops with the pruning signal, and every validation that does not itself end the training by degradation is reported to the trial as the negated score at its epoch. Without an evaluator exactly max_epoch epochs run and nothing is restored.",
 ["histories","configurations"],"all sequences of validation scores with at least one finite score, all max_epoch, validate_epoch and degradation limits, with or without a trial, all pruning decisions",
 "Tests train real models whose score histories are a handful of fixed sequences.",
 [ES],[("learn_with_optimizer",ES+":101-149"),("save_state/load_state",ES+":79-96")],state=[("best_state","serialised parameters of the best epoch",ES),("learnt_config","learnt train_epochs",ES)],observe=["calls to run_epoch/evaluator/trial, restored state"])
p("P17","Tuning minimises the negated target and reports the best parameters",
 "Each tuning trial trains a model on the suggested data with the suggested parameters overridden by the fixed ones and the configured epoch limits, and its value is minus the target metric; all metrics at the evaluator's cutoff are recorded for that trial. The best parameters returned are the best trial's suggested ones, replaced or extended by its learnt ones, without the fixed ones, and the history has one row per trial with its scores. With neither data nor a data-suggesting function an error is raised.",
 ["histories","configurations"],"all suggested/fixed parameter sets, metric values, numbers of trials, pruned trials",
 "Tests run a few optuna trials with one recommender.",
 [O,B],[("Optimizer.objective_function/optimize_with_study",O+":112-203"),("BaseRecommender.tune",B+":176-280"),("add_score_to_trial/study_to_dataframe",O+":22-54")],observe=["objective value, trial attributes, returned dict and frame"])
p("P18","Parameter ranges suggest within their declared bounds and kind",
 "Every tunable range asks the trial for its own (prefixed) name with its declared bounds, logarithmic flag, step or choices, and returns the trial's answer. A range with lower bound above upper bound or with a malformed name is rejected. Default suggestion covers every tunable parameter of the model except the fixed ones.",
 ["inputs","configurations"],"all names, prefixes, bounds, steps, choices, fixed-parameter sets",
 "Tests construct a few ranges.",
 [R,B],[("ParameterRange subclasses",R+":20-92"),("default_suggest_parameter",B+":164-174")],observe=["arguments received by the trial, returned value"])
p("P19","Item- and user-similarity scores are the exact matrix products",
 "For item-similarity models the scores of known users, of a user block and of new users are all the product of the respective interaction rows with the model's item-item weights; for user-similarity models (sparse similarities) they are the product of the user's similarity row with the training interactions. The popularity model scores each item by its column sum of the training matrix for every user. Asking for scores before training raises an error.",
 ["inputs"],"all interaction matrices, weights (sparse or dense), user index lists, blocks and profiles",
 "Tests compare a few models on one matrix.",
 [B,"src/irspack/recommenders/toppop.py"],[("BaseSimilarityRecommender/BaseUserSimilarityRecommender",B+":392-447"),("TopPopRecommender","src/irspack/recommenders/toppop.py")],observe=["score arrays"])
p("P20","Neighbourhood similarities follow their formulas and top-k limit",
 "Each neighbourhood model's weights equal its documented similarity formula (cosine, asymmetric cosine, Jaccard, Tversky, with shrinkage and feature weighting) with a zero diagonal, keeping per row only the top-k most similar entries (the item itself counts among them; ties to the lower index); the feature weightings follow TF-IDF and BM25; the random-walk models' weights equal the documented normalised products. The result does not depend on thread count or internal chunk size, and invalid parameters are rejected.",
 ["inputs","configurations"],"all non-negative interaction matrices, parameters, top-k, thread counts",
 "Tests compare some random matrices with numpy references at one thread and chunk configuration.",
 [CK,CS,CU,"src/irspack/recommenders/knn.py","src/irspack/recommenders/user_knn.py","src/irspack/recommenders/p3.py","src/irspack/recommenders/rp3.py"],[("KNNComputer",CK),("similarity computers",CS),("tf_idf/BM25/remove_diagonal",CU+":157-226")],observe=["W / U of the models"])
p("P21","Closed-form linear models solve their regularised problem",
 "The dense linear autoencoders' weights have a zero diagonal and off-diagonal entries -P[i,j]/P[j,j], where P is the inverse of the Gram matrix plus the regularisation (plus, with dropout p, p/(1-p) times the Gram diagonal) on its diagonal. Row normalisation of a column-compressed matrix divides every entry by the sum of its own row and changes nothing else.",
 ["inputs","configurations"],"all interaction matrices, regularisations > 0, dropout rates in [0,1)",
 "Tests check one random matrix.",
 ["src/irspack/recommenders/dense_slim.py","src/irspack/recommenders/edlae.py",U],[("DenseSLIMRecommender._learn","src/irspack/recommenders/dense_slim.py"),("EDLAERecommender._learn","src/irspack/recommenders/edlae.py"),("l1_normalize_row",U+":20-25")],observe=["W"])
p("P22","List-versus-truth table evaluation groups rows per user in order",
 "Evaluating a recommendation table against a ground-truth table scores exactly the users present in both, each with its own recommended items in table order and its own set of ground-truth items, and counts items over the distinct items of the rows of those users.",
 ["inputs"],"all pairs of tables without repeated recommendations per user, users missing on either side, interleaved rows, any id types and column names",
 "Tests use one generated frame.",
 ["src/irspack/evaluation/evaluate_df_to_df.py",CE],[("evaluate_recommendation_df","src/irspack/evaluation/evaluate_df_to_df.py"),("evaluate_list_vs_list",CE+":347-413")],observe=["metric dictionary"])
p("P23","Dataset readers return every record with the right fields",
 "The dataset readers turn every record of a well-formed archive into exactly one row (per interaction or candidate) with the fields in the documented columns and order: leave-one-out test lines give the positive item then each negative item of that user (repeated user-item pairs once, first kept), citation lines give one row per listed item of that line's user, and news impressions give one row per candidate with its zero-based position, click flag and split. Clicked-only and interaction reads return exactly the clicked candidates.",
 ["inputs"],"all well-formed archive contents (at least one negative per test line, unique impression ids per split), any number of lines, users, candidates, splits",
 "The tests parse one or two tiny fixtures.",
 ["src/irspack/dataset/neu_mf.py","src/irspack/dataset/citeulike.py","src/irspack/dataset/mind.py","src/irspack/dataset/movielens/ML100K.py","src/irspack/dataset/movielens/ML1M.py","src/irspack/dataset/movielens/ML20M.py"],[("read_train_test","src/irspack/dataset/neu_mf.py"),("read_interaction","src/irspack/dataset/citeulike.py"),("read_impressions/read_interaction/read_item_info","src/irspack/dataset/mind.py")],observe=["returned frames"])
p("P24","Nothing is downloaded without consent and no partial archive is left",
 "A dataset manager downloads only when its archive is missing and either downloading was forced or the user answered yes (case-insensitively y); otherwise it raises an error, and existing archives are never re-downloaded or prompted for. For the news dataset, whatever fails during a download (a connection closed early included), the final archive path only ever holds a completely received file, no temporary file remains, and for the default source the access token is sent as given or else taken from the documented environment variables in their order.",
 ["inputs","fault_sequences"],"all combinations of existing archives, flags, answers, sources, tokens, and a failure at any step of the download",
 "Tests simulate one failing response.",
 ["src/irspack/dataset/downloader.py","src/irspack/dataset/mind.py"],[("BaseDownloader.__init__","src/irspack/dataset/downloader.py:16-50"),("MINDDataManager.__init__/_download","src/irspack/dataset/mind.py:61-148")],observe=["prompts, download requests, files left on disk"])
p("P25","Thread count follows argument, then environment, then CPU count",
 "The number of worker threads used is the given argument, or else the integer in the documented environment variable, or else the CPU count (1 if unknown), and a non-integer environment value raises an error.",
 ["inputs","configurations"],"all arguments, non-empty environment values and CPU counts",
 "No test sets the environment.",
 ["src/irspack/_threading.py"],[("get_n_threads","src/irspack/_threading.py")],observe=["returned count"])
p("P26","iALS receives its settings and scaled confidences unchanged",
 "The implicit-ALS model passes every user setting to the training core unchanged, with the interaction matrix either as is or as log(1 + x/epsilon) on its stored values without altering the training matrix, and the regularisation rescaled by the ratio of the documented frequency sums when a reference exponent is given. Known-user, block, new-user and feature-only scores are the product of the respective user and item embeddings. Saving and restoring a state recovers embeddings and feature weights.",
 ["inputs","configurations"],"all setting combinations, matrices and embeddings",
 "Tests vary one or two settings on one matrix.",
 ["src/irspack/recommenders/ials.py"],[("IALSTrainer","src/irspack/recommenders/ials.py:60-205"),("IALSRecommender","src/irspack/recommenders/ials.py:238-670")],observe=["arguments received by the core, scores"])
p("P27","Doubling-dimension search returns the best result over all dimensions",
 "The doubling search tries exactly the dimensions d, 2d, 4d, ... not exceeding the maximum with the configured trial counts, seeds and neighbourhood of the previous best parameters, and returns the best parameters (with their dimension) of the dimension with the lowest value, ties included, together with all trial histories.",
 ["histories","configurations"],"all initial and maximal dimensions, result values including ties, suggested parameters",
 "No test covers ties or more than two dimensions.",
 ["src/irspack/recommenders/ials.py"],[("IALSRecommender.tune_doubling_dimension","src/irspack/recommenders/ials.py:672-760")],observe=["returned dict and frame, tune calls"])
p("P28","iALS updates reach the optimum of their least-squares subproblems",
 "Each alternating step of implicit ALS with the exact solver sets every user, then every item vector to the minimiser of the documented loss given the other side (with the feature prior, and then the feature weights to their ridge solution, for feature-aware models), the iterative solvers converge to it with enough iterations, no step raises the loss, and the reported loss is the documented one.",
 ["inputs","configurations"],"all matrices, embeddings, regularisations, solvers",
 "Tests compare one matrix at one tolerance; the claim is about real-number optimality under floating point.",
 ["cpp_source/als/IALSTrainer.hpp"],[("Solver::step","cpp_source/als/IALSTrainer.hpp")],observe=["embeddings"])
p("P29","Parallel computations are free of races for every thread schedule",
 "Every multi-threaded computation (ranking, metrics, similarities, sparse product, factorisation) gives the same result under every interleaving of its worker threads, each work item being processed by exactly one worker.",
 ["schedules"],"all interleavings and thread counts",
 "Tests run whatever schedule the OS picks.",
 [CE,CU,CK,"cpp_source/als/IALSTrainer.hpp"],[("atomic work cursors",CE),("atomic work cursors",CU)],observe=["results"])
p("P30","SLIM weights solve their elastic net and top-k keeps the largest",
 "The sparse linear model's weights have a zero diagonal, are non-negative when requested, and for every item minimise (to the solver tolerance) the documented elastic-net loss of predicting that item's column from the other columns, whatever the thread count. With a top-k limit each item keeps exactly its k largest non-zero coefficients of its own solution, with their values. Negative penalties, mixing ratios outside [0,1] and non-positive iteration or thread counts are rejected.",
 ["inputs","configurations"],"all non-negative interaction matrices, penalties, ratios, top-k, thread counts, numbers of items around the internal block size",
 "Tests compare one matrix against scikit-learn.",
 [CU,"src/irspack/recommenders/slim.py"],[("SLIM",CU+":229-421"),("SLIMRecommender._learn","src/irspack/recommenders/slim.py")],observe=["W"])
p("P31","Factorisation models score by the product of their embeddings",
 "For the truncated-SVD model the scores of known users, of a user block and of given user or item vectors are exactly the products of the corresponding embeddings, and new users are scored through the projection of their profile on the item embedding. The NMF model's scores are non-negative of rank at most the number of components, and rows follow the requested users. Asking before training raises an error, and the same seed gives the same model.",
 ["inputs","configurations"],"all interaction matrices, numbers of components (larger than the matrix included), user index lists, blocks, profiles",
 "Tests use one matrix and one number of components.",
 ["src/irspack/recommenders/truncsvd.py","src/irspack/recommenders/nmf.py"],[("TruncatedSVDRecommender","src/irspack/recommenders/truncsvd.py"),("NMFRecommender","src/irspack/recommenders/nmf.py")],observe=["scores, embeddings"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+"\n")
print(len(P))
