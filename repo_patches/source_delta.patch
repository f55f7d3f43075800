From a7dd7ec6268b3aae315e0265aeff9e349c795c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:53 +0000
Subject: [PATCH 01/16] fix: keep non-integer values in row-wise train/test
 split

The triplets were stored as integers, so ratings such as 1.5 were truncated
and the two parts no longer summed back to the input.
---
 cpp_source/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index a19e162..0cbc3d7 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -76,7 +76,7 @@ struct SplitFunction {
   split_imple(const CSRMatrix<Real> &X, std::int64_t random_seed,
               Args... args) {
     Derived::check_args(args...);
-    using Triplet = Eigen::Triplet<Integer>;
+    using Triplet = Eigen::Triplet<Real>;
     std::mt19937 random_state(random_seed);
     std::vector<Integer> col_buffer;
     std::vector<Real> data_buffer;
@@ -105,7 +105,7 @@ struct SplitFunction {
       }
     }
     CSRMatrix<Real> X_train(X.rows(), X.cols()), X_test(X.rows(), X.cols());
-    auto dupfunction = [](const Integer &a, const Integer &b) { return a + b; };
+    auto dupfunction = [](const Real &a, const Real &b) { return a + b; };
     X_train.setFromTriplets(train_data.begin(), train_data.end(), dupfunction);
     X_test.setFromTriplets(test_data.begin(), test_data.end(), dupfunction);
     X_train.makeCompressed();
-- 
2.43.0


From 86a8917f790852ff405a504f86482d511513ce15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:53 +0000
Subject: [PATCH 02/16] fix: table views of datasets with explicitly stored
 zeros

X.nonzero() skips stored zeros but X.data does not, so df_train()/df_test()
raised a length mismatch.
---
 src/irspack/split/userwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 06608a7..c5a2492 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -84,7 +84,7 @@ class UserTrainTestInteractionPair:
             raise RuntimeError("Setting item_ids is required to use this method.")
         X.sort_indices()
         row, col = X.nonzero()
-        data = X.data
+        data = X.data[X.data != 0]
         return pd.DataFrame(
             dict(
                 user_id=[user_ids[r] for r in row],
-- 
2.43.0


From 84c98ca92740a69e043460f43af97370003c44ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:53 +0000
Subject: [PATCH 03/16] fix: keep the ratings of train users in partial user
 holdout

---
 src/irspack/split/userwise.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index c5a2492..769609f 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -332,7 +332,12 @@ def split_dataframe_partial_user_holdout(
     item_all: List[Any] = list(set(df_all[item_column]))
 
     train_user_interactions, _, __ = df_to_sparse(
-        df_train, user_column, item_column, user_ids=train_uids, item_ids=item_all
+        df_train,
+        user_column,
+        item_column,
+        user_ids=train_uids,
+        item_ids=item_all,
+        rating_column=rating_column,
     )
 
     valid_data: Dict[str, UserTrainTestInteractionPair] = dict(
-- 
2.43.0


From 4979b5276b4db0ff33302036e940039b424be078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:53 +0000
Subject: [PATCH 04/16] fix: keep the rating column in time-based user holdout

---
 src/irspack/split/userwise.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 769609f..a146544 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -190,8 +190,11 @@ def split_train_test_userwise_time(
     ceil_n_heldout: bool = False,
 ) -> UserTrainTestInteractionPair:
     unique_user_ids = np.asarray(list(set(df_[user_column])))
+    columns = [user_column, item_column, time_column]
+    if rating_column is not None and rating_column not in columns:
+        columns.append(rating_column)
     df_train, df_test = split_last_n_interaction_df(
-        df_[[user_column, item_column, time_column]],
+        df_[columns],
         user_column,
         time_column,
         n_heldout=n_heldout,
-- 
2.43.0


From e2691b085b28f20e47f6481de339168ba55b68c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:53 +0000
Subject: [PATCH 05/16] fix: respect an explicit n_test_user in partial user
 holdout

The branch looked at test_user_ratio, so with few users an explicitly given
n_test_user produced no test users (all went to validation).
---
 src/irspack/split/userwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index a146544..f2674ca 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -320,7 +320,7 @@ def split_dataframe_partial_user_holdout(
 
     train_uids, val_test_uids = _split_list(uids, (n_val_user + n_test_user), rns)
 
-    if (test_user_ratio * len(uids)) >= 1:
+    if n_test_user > 0:
         val_uids, test_uids = _split_list(
             val_test_uids,
             n_test_user,
-- 
2.43.0


From 7c816c593bc4c7c6dc5e834b6b95437479c0db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:53 +0000
Subject: [PATCH 06/16] fix: reject holdout ratios that request more users than
 exist

---
 src/irspack/split/userwise.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index f2674ca..dca52ae 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -309,11 +309,8 @@ def split_dataframe_partial_user_holdout(
     if n_test_user is None:
         n_test_user = int(n_users_all * test_user_ratio)
         test_user_ratio = n_test_user / n_users_all
-    else:
-        if (n_test_user + n_val_user) > n_users_all:
-            raise ValueError(
-                "n_val_user + n_test_users exceeds the number of total users."
-            )
+    if (n_test_user + n_val_user) > n_users_all:
+        raise ValueError("n_val_user + n_test_users exceeds the number of total users.")
 
     df_all = df_all.drop_duplicates([user_column, item_column])
     rns = convert_randomstate(random_state)
-- 
2.43.0


From c51de5cb82a48b43af353e511b47ce3673fab8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:13 +0000
Subject: [PATCH 07/16] fix: avoid division by zero when both holdout ratios
 are 0

---
 src/irspack/split/specified.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/irspack/split/specified.py b/src/irspack/split/specified.py
index 0e0fd8c..8459ebe 100644
--- a/src/irspack/split/specified.py
+++ b/src/irspack/split/specified.py
@@ -95,11 +95,12 @@ def holdout_specific_interactions(
             int(v_user_ratio_train * n_validatable_users),
             rns,
         )
-    v_test_users, v_val_users = _split_list(
-        v_val_test_users,
-        int(len(v_val_test_users) * validatable_user_ratio_val / val_test_ratio),
-        rns,
-    )
+    n_val_users = 0
+    if v_val_test_users:
+        n_val_users = int(
+            len(v_val_test_users) * validatable_user_ratio_val / val_test_ratio
+        )
+    v_test_users, v_val_users = _split_list(v_val_test_users, n_val_users, rns)
     df_train = pd.concat(
         [
             df[df[user_column].isin(v_train_users)],
-- 
2.43.0


From 7e0a2182b2bc07d0b3a916bc9f197565d044244a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:29 +0000
Subject: [PATCH 08/16] fix: keep double precision when retrieving
 recommendations from scores

---
 cpp_source/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index 0cbc3d7..1378df0 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -424,12 +424,12 @@ inline CSCMatrix<Real> SLIM(const CSRMatrix<Real> &X, size_t n_threads,
 }
 
 template <typename Real>
-inline std::vector<std::vector<std::pair<int64_t, float>>>
+inline std::vector<std::vector<std::pair<int64_t, Real>>>
 retrieve_recommend_from_score(
     const RowMajorMatrix<Real> &score,
     const std::vector<std::vector<int64_t>> &allowed_indices,
     const size_t cutoff, size_t n_threads) {
-  using score_and_index = std::pair<int64_t, float>;
+  using score_and_index = std::pair<int64_t, Real>;
   check_arg(n_threads > 0, "n_threads must not be 0.");
   check_arg(
       (score.rows() == static_cast<int64_t>(allowed_indices.size())) ||
-- 
2.43.0


From e6ebefa3ba6b5bf14c0fa3b4ddd5ae2132d1804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:35 +0000
Subject: [PATCH 09/16] fix: let learnt parameters replace suggested ones of
 the same name

---
 src/irspack/optimization/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/irspack/optimization/optimizer.py b/src/irspack/optimization/optimizer.py
index 3fd1676..22831ad 100644
--- a/src/irspack/optimization/optimizer.py
+++ b/src/irspack/optimization/optimizer.py
@@ -191,13 +191,13 @@ class Optimizer:
         )
 
         study.optimize(objective_func, n_trials=n_trials, timeout=timeout)
-        best_params = dict(
+        best_params = {
             **study.best_trial.params,
             **{
                 key: val
                 for key, val in study.best_trial.user_attrs.items()
                 if is_valid_param_name(key)
             },
-        )
+        }
         trials_df = study_to_dataframe(study)
         return (best_params, trials_df)
-- 
2.43.0


From 43501a304eb6d137aadb02f8233678716c53623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:35 +0000
Subject: [PATCH 10/16] fix: leave fixed parameters out of the tuned best
 parameters

---
 src/irspack/optimization/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/irspack/optimization/optimizer.py b/src/irspack/optimization/optimizer.py
index 22831ad..845db2d 100644
--- a/src/irspack/optimization/optimizer.py
+++ b/src/irspack/optimization/optimizer.py
@@ -199,5 +199,7 @@ class Optimizer:
                 if is_valid_param_name(key)
             },
         }
+        for fixed_param_name in self.recommender_params:
+            best_params.pop(fixed_param_name, None)
         trials_df = study_to_dataframe(study)
         return (best_params, trials_df)
-- 
2.43.0


From 024fa76b5b1193372b074354626a9d958a8583ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:20 +0000
Subject: [PATCH 11/16] fix: reject MIND downloads whose body is cut off

A connection that closes before Content-Length bytes were received makes
copyfileobj return normally, so a truncated archive was moved to the final path.
---
 src/irspack/dataset/mind.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/irspack/dataset/mind.py b/src/irspack/dataset/mind.py
index 2056cfb..ec28b41 100644
--- a/src/irspack/dataset/mind.py
+++ b/src/irspack/dataset/mind.py
@@ -130,6 +130,11 @@ class MINDDataManager:
                 ) as output:
                     temporary_path = Path(output.name)
                     shutil.copyfileobj(response, output)
+                remaining = getattr(response, "length", None)
+                if isinstance(remaining, int) and remaining > 0:
+                    raise RuntimeError(
+                        f"Download of {url} was cut off {remaining} bytes early."
+                    )
             temporary_path.replace(path)
         except HTTPError as err:
             if err.code in (401, 403):
-- 
2.43.0


From 3a43fae8918ba6fafc1f4c7cd38a322b4be3876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:20 +0000
Subject: [PATCH 12/16] fix: doubling-dimension tuning with tied best values

sorted() on (value, dict, frame) tuples compares the dicts when values tie and raises TypeError.
---
 src/irspack/recommenders/ials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/recommenders/ials.py b/src/irspack/recommenders/ials.py
index c26f3dc..6a4e198 100644
--- a/src/irspack/recommenders/ials.py
+++ b/src/irspack/recommenders/ials.py
@@ -751,7 +751,7 @@ class IALSRecommender(
             prev_params = study.best_params.copy()
             dimension *= 2
         final_result_df = pd.concat([x[2] for x in results])
-        final_bp = sorted(results)[0][1]
+        final_bp = min(results, key=lambda x: x[0])[1]
 
         return final_bp, final_result_df
 
-- 
2.43.0


From e15ed7694afdf3507be5364bcf7c1aa8c06f8818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:20 +0000
Subject: [PATCH 13/16] fix: evaluate tables whose column names are not
 identifiers

itertuples renames such columns, so getattr on the row raised AttributeError.
---
 src/irspack/evaluation/evaluate_df_to_df.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/irspack/evaluation/evaluate_df_to_df.py b/src/irspack/evaluation/evaluate_df_to_df.py
index cb24550..14acc3e 100644
--- a/src/irspack/evaluation/evaluate_df_to_df.py
+++ b/src/irspack/evaluation/evaluate_df_to_df.py
@@ -49,16 +49,12 @@ def evaluate_recommendation_df(
     item_id_to_index: Dict[Any, int] = {iid: i for i, iid in enumerate(item_ids)}
     user_index_to_recommendation: Dict[int, List[int]] = {}
     user_index_to_ground_truth: Dict[int, List[int]] = {}
-    for rec_row in df_recommendation.itertuples():
-        uid = getattr(rec_row, user_column)
-        iid = getattr(rec_row, item_column)
+    for uid, iid in zip(df_recommendation[user_column], df_recommendation[item_column]):
         u_index = user_id_to_index[uid]
         i_index = item_id_to_index[iid]
         user_index_to_recommendation.setdefault(u_index, []).append(i_index)
 
-    for gt_row in df_ground_truth.itertuples():
-        uid = getattr(gt_row, user_column)
-        iid = getattr(gt_row, item_column)
+    for uid, iid in zip(df_ground_truth[user_column], df_ground_truth[item_column]):
         u_index = user_id_to_index[uid]
         i_index = item_id_to_index[iid]
         user_index_to_ground_truth.setdefault(u_index, []).append(i_index)
-- 
2.43.0


From 2b1b4871b38a9fc681e0b714ff201d51bc61aa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:20 +0000
Subject: [PATCH 14/16] fix: SLIM top_k must not pick coefficients of
 previously solved items

The sort covered the whole buffer, including stale entries of other targets.
---
 cpp_source/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index 1378df0..fd317b5 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -392,7 +392,7 @@ inline CSCMatrix<Real> SLIM(const CSRMatrix<Real> &X, size_t n_threads,
             }
             int64_t n_taken_coeffs = nnz;
             if (nnz > top_k) {
-              std::sort(argsort_buffer.begin(), argsort_buffer.end(),
+              std::sort(argsort_buffer.begin(), iter,
                         [](RealAndIndex val1, RealAndIndex val2) {
                           return val1.first > val2.first;
                         });
-- 
2.43.0


From cbf9c00812141bf6b16cbc46d166bbdb07209ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:21 +0000
Subject: [PATCH 15/16] fix: do not drop items scored +inf from a single
 recommendation list

---
 src/irspack/utils/id_mapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/utils/id_mapping.py b/src/irspack/utils/id_mapping.py
index 8d8e47f..d21e685 100644
--- a/src/irspack/utils/id_mapping.py
+++ b/src/irspack/utils/id_mapping.py
@@ -245,7 +245,7 @@ class ItemIDMapper(Generic[ItemIdType]):
             i_int = int(i)
             score_this = score[i_int]
             item_id = self.item_ids[i_int]
-            if np.isinf(score_this):
+            if np.isneginf(score_this):
                 continue
             if forbidden_item_ids is not None:
                 if item_id in forbidden_item_ids:
-- 
2.43.0


From 5b046bec90d94161c40d766dab6d7a8357c469ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:41 +0000
Subject: [PATCH 16/16] fix: ndcg of a recommendation list longer than the
 number of items read out of bounds

---
 cpp_source/evaluator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp_source/evaluator.cpp b/cpp_source/evaluator.cpp
index 795d8e8..2c49a5f 100644
--- a/cpp_source/evaluator.cpp
+++ b/cpp_source/evaluator.cpp
@@ -145,7 +145,9 @@ struct Metrics {
       auto rec_index = score_and_index[i];
       this->item_cnt(rec_index) += 1;
       if (gt_indices.find(rec_index) != gt_indices.cend()) {
-        dcg += dcg_discount[i];
+        // a list with repeated items may be longer than dcg_discount
+        dcg += (i < dcg_discount.size()) ? dcg_discount[i]
+                                         : 1 / std::log2(2 + i);
         cum_hit++;
         average_precision += (static_cast<Real>(cum_hit) / (i + 1));
       }
-- 
2.43.0

