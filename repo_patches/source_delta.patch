From 11f37f4c3b4910524ccb45bada6e347013c7f794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:54 +0000
Subject: [PATCH 01/41] fix: LCMMax.transform(max_length=...) raised KeyError
 when no itemset is frequent

---
 skmine/itemsets/lcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/lcm.py b/skmine/itemsets/lcm.py
index ef198f7..e7d7c47 100644
--- a/skmine/itemsets/lcm.py
+++ b/skmine/itemsets/lcm.py
@@ -365,7 +365,7 @@ class LCMMax(LCM, TransformerMixin):
 
         # keeps only itemsets smaller than max_length
         if self.max_length_ != -1:
-            length_mask = patterns.itemset.apply(lambda x: len(x) <= self.max_length_)
+            length_mask = patterns.itemset.map(len) <= self.max_length_  # boolean, even when there is no itemset
             patterns = patterns[length_mask]
             patterns.reset_index(drop=True, inplace=True)
 
-- 
2.43.0


From b373525af5b896266161b528ee0765fb4afaff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:00 +0000
Subject: [PATCH 02/41] fix: SlimClassifier ignored its pruning parameter

---
 skmine/itemsets/slim_classifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim_classifier.py b/skmine/itemsets/slim_classifier.py
index 5c32764..2903443 100644
--- a/skmine/itemsets/slim_classifier.py
+++ b/skmine/itemsets/slim_classifier.py
@@ -69,7 +69,7 @@ class SlimClassifier(BaseEstimator, ClassifierMixin):
         for c in self.classes_:
             transactions_classes = [transaction for transaction, target in zip(X, y) if target == c]
             self.classes_X_.append(transactions_classes)
-            self.models_.append(SLIM(items=self.items))
+            self.models_.append(SLIM(items=self.items, pruning=self.pruning))
 
         for model, data in zip(self.models_, self.classes_X_):
             model.fit(data)
-- 
2.43.0


From 61c0c58f39a8c5f73b20d8f5710b6fa1833aa090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:05 +0000
Subject: [PATCH 03/41] fix: SLIM refit reused the supports cached by a
 previous fit

---
 skmine/itemsets/slim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 729af50..7535233 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -646,6 +646,7 @@ class SLIM(BaseEstimator, TransformerMixin):
 
         # Build Standard Codetable <class 'pandas.core.series.Series'> in usage descending order :
         self.standard_codetable_ = sct
+        self.get_support.cache_clear()  # supports from a previous fit do not hold on this dataset
 
         if self.items is not None:
             # Adds in the standard codetable, the items that do not appear in the transactions. Useful for
-- 
2.43.0


From 50f8d2a3bded4c5a3065b9eefc1443fa766d18c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:09 +0000
Subject: [PATCH 04/41] fix: SLIM.update with an itemset already in the
 codetable lost its usage

---
 skmine/itemsets/slim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 7535233..e61bdff 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -388,7 +388,8 @@ class SLIM(BaseEstimator, TransformerMixin):
         # Get the id (``idx``) of the insertion of ``candidate`` in codetable w.r.t the standard cover order
         idx = self.codetable_.bisect(candidate)
         ct = list(self.codetable_)
-        ct.insert(idx, candidate)  # Insert the candidate to the CT w.r.t the usage order
+        if candidate not in self.codetable_:  # covering twice with the same itemset would erase its usage
+            ct.insert(idx, candidate)  # Insert the candidate to the CT w.r.t the usage order
         D = {k: v.copy() for k, v in self.standard_codetable_.items()}
         # Get the cover a standard codetable D with CT itemsets
         CTc = cover(D, ct)  # CTc is sorted in Standard Cover Order like D
-- 
2.43.0


From 2eb438cd01f94388884546482cf5e778a62ac28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:13 +0000
Subject: [PATCH 05/41] fix: SLIM.transform(out=...) failed on items that are
 not strings

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index e61bdff..fa095db 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -543,7 +543,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         if self.out_ is not None:
             with open(self.out_, 'w') as f:
                 for i, (itemset, usage) in enumerate(zip(itemsets, iusages)):
-                    line = "(" + str(usage) + ") " + " ".join(itemset) + "\n"
+                    line = "(" + str(usage) + ") " + " ".join(map(str, itemset)) + "\n"
                     if self.return_tids_:
                         line += " ".join(map(str, itids[i])) + "\n"
                     f.write(line)
-- 
2.43.0


From 8a8560771c8f4675ba09af891a417e91b33138e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:18 +0000
Subject: [PATCH 06/41] fix: border_diff failed when the first collection has
 no frequent itemset

---
 skmine/emerging/mbdldorber.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skmine/emerging/mbdldorber.py b/skmine/emerging/mbdldorber.py
index 818ae51..157fd7a 100644
--- a/skmine/emerging/mbdldorber.py
+++ b/skmine/emerging/mbdldorber.py
@@ -39,6 +39,8 @@ def border_diff(U, S):
     See ``BORDER-DIFF`` in section 4.1
     """
     # assert len(R1) < len(U)  # assert we iterate on the smallest ensemble
+    if not S:  # nothing to differentiate from, every subset of U remains
+        return [set()], U
     L2 = [{x} for x in U - S[0]]
     for i in range(1, len(S)):
         _L2 = [X | {x} for x in U - S[i] for X in L2]
-- 
2.43.0


From 775076dbe4f1be216ea58957a890af6626273d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:22 +0000
Subject: [PATCH 07/41] fix: borders_to_patterns listed subsets that no element
 of the left border is included in

---
 skmine/emerging/mbdldorber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/emerging/mbdldorber.py b/skmine/emerging/mbdldorber.py
index 157fd7a..6e68ed9 100644
--- a/skmine/emerging/mbdldorber.py
+++ b/skmine/emerging/mbdldorber.py
@@ -97,7 +97,7 @@ def borders_to_patterns(left, right, min_size=None):
     for size in range(len(right) - 1, min_size - 1, -1):  # bigger patterns first
         combs = combinations(right, size)
         for pat in combs:
-            if any((e.issuperset(set(pat)) for e in left)):
+            if not any((e < set(pat) for e in left)):  # outside of the border
                 continue
             patterns.append(pat)
 
-- 
2.43.0


From 8a56b7433e23831fd216489106f255a6730fe499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:07 +0000
Subject: [PATCH 08/41] fix: SlimClassifier.predict returned the first class
 when all scores underflow

The scores are exp(-0.2 * code length) in single precision, which is zero for every
code longer than some 500 bits, so long transactions went to the first class whatever
their code lengths. Compare the code lengths.
---
 skmine/itemsets/slim_classifier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim_classifier.py b/skmine/itemsets/slim_classifier.py
index 2903443..60eaf89 100644
--- a/skmine/itemsets/slim_classifier.py
+++ b/skmine/itemsets/slim_classifier.py
@@ -90,8 +90,10 @@ class SlimClassifier(BaseEstimator, ClassifierMixin):
         """
         check_is_fitted(self, "classes_")
         self.models_scores = np.vstack([model.decision_function(X).values for model in self.models_]).T
+        # compare the code lengths themselves, scores of long codes underflow to the same zero
+        code_lengths = np.vstack([model.get_code_length(X).values for model in self.models_]).T
 
-        return self.classes_[self.models_scores.argmax(axis=1)]
+        return self.classes_[code_lengths.argmin(axis=1)]
 
     def __copy__(self):
         return SlimClassifier(items=self.items, pruning=self.pruning)
-- 
2.43.0


From 56ce1972ebc8b3c2b1c4809b944cd6d3897ac928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:13 +0000
Subject: [PATCH 09/41] fix: SLIMVectorizer.fit failed with stop_items

The filtered transactions were handed to SLIM.fit as a generator, which it cannot
validate.
---
 skmine/feature_extraction/slim_vectorizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/feature_extraction/slim_vectorizer.py b/skmine/feature_extraction/slim_vectorizer.py
index 4c4ef0d..f7c0feb 100644
--- a/skmine/feature_extraction/slim_vectorizer.py
+++ b/skmine/feature_extraction/slim_vectorizer.py
@@ -81,7 +81,7 @@ class SLIMVectorizer(SLIM):
 
     def fit(self, D, y=None):
         if self.stop_items is not None:
-            D = _filter_stop_items(D, stop_items=self.stop_items)
+            D = list(_filter_stop_items(D, stop_items=self.stop_items))
         return super().fit(D)
 
     def transform(self, newD, y=None, **tsf_params) -> pd.DataFrame:
-- 
2.43.0


From 992238667716dbc1d8e23bbd01cbc3bbb5ae4d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:36 +0000
Subject: [PATCH 10/41] fix: SLIM.get_code_length gave an infinite length to
 transactions covered by a free code

When the code table holds a single itemset its code has length zero, and transactions it
covers were taken for transactions nothing covers.
---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index fa095db..5225f8d 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -237,7 +237,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         code_lengths["code"] = -_log2(code_lengths["usage"] / code_lengths["usage"].sum())
         mapping = {tuple(row['itemset']): row['code'] for _, row in code_lengths.iterrows()}
         codes_length_D = mat.replace(True, mapping).sum(axis=1).astype(np.float32)
-        codes_length_D[codes_length_D == 0] = + np.inf  # zeros would fool a `shortest code wins` strategy
+        codes_length_D[~mat.any(axis=1)] = + np.inf  # nothing covered, zeros would fool a `shortest code wins` strategy
 
         return codes_length_D
 
-- 
2.43.0


From d79651a543f4a712b0318646af752e48bee7faf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:30 +0000
Subject: [PATCH 11/41] fix: PeriodicPatternMiner.fit failed when two different
 events happen at the same time

---
 skmine/periodic/cycles.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 2dcb750..64e06e2 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -123,11 +123,9 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         if serie.index.duplicated().any():  # there are potentially duplicates, i.e. occurrences that happened at the
             # same time AND with the same event. At this line, the second condition is not yet verified.
             len_S = len(serie)
-            serie = serie.groupby(by=serie.index).apply(lambda x: x.drop_duplicates())
-            # if same time and same event,  create Multi inde names =[timestamp, timestamp]
+            serie = serie.groupby(by=serie.index, group_keys=False).apply(lambda x: x.drop_duplicates())
             diff = len_S - len(serie)
             if diff:
-                serie = serie.reset_index(level=0, drop=True)
                 warnings.warn(f"found {diff} duplicates in the input sequence, they have been removed.")
 
         S_times_nano = serie.index.astype("int64")
-- 
2.43.0


From cf5e48c33ffc2803e3b76c64d18ba01e9dc56d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:30 +0000
Subject: [PATCH 12/41] fix: PeriodicPatternMiner.reconstruct and get_residuals
 failed when there is nothing to return

---
 skmine/periodic/cycles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 64e06e2..9c7aead 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -344,7 +344,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
                 reconstruct_list.append(dict_)
 
-        reconstruct_pd = pd.DataFrame(reconstruct_list)
+        reconstruct_pd = pd.DataFrame(reconstruct_list, columns=["time", "event"])
 
         if self.is_datetime_:
             reconstruct_pd['time'] = reconstruct_pd['time'].astype("datetime64[ns]")
@@ -400,7 +400,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             dict_ = {"time": time0, "event": map_ev[res[1]]}
             residuals_transf_list.append(dict_)
 
-        residuals_transf_pd = pd.DataFrame(residuals_transf_list)
+        residuals_transf_pd = pd.DataFrame(residuals_transf_list, columns=["time", "event"])
 
         if self.auto_time_scale and self.is_datetime_:
             residuals_transf_pd['time'] = residuals_transf_pd['time'].astype("datetime64[ns]")
-- 
2.43.0


From 48c1c4a1be2e4ef683914ef8c1ef2d684c9ab63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:30 +0000
Subject: [PATCH 13/41] fix: PeriodicPatternMiner.get_residuals(patterns_id)
 did not return the complement of the selected patterns

---
 skmine/periodic/cycles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 9c7aead..1ba24c0 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -409,7 +409,8 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         reconstruct_ = self.reconstruct(patterns_id)
         reconstruct_all = self.reconstruct()
-        complementary_reconstruct = reconstruct_all[~reconstruct_all.isin(reconstruct_)].dropna()
+        selected = pd.MultiIndex.from_frame(reconstruct_)
+        complementary_reconstruct = reconstruct_all[~pd.MultiIndex.from_frame(reconstruct_all).isin(selected)]
 
         if pd.merge(reconstruct_all, residuals_transf_pd, how='inner').empty:
             residuals_transf_pd = pd.concat([residuals_transf_pd, complementary_reconstruct], ignore_index=True)
-- 
2.43.0


From 7926d09a9798ebbcdf7d4fb61de426c574642176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:30 +0000
Subject: [PATCH 14/41] fix: PeriodicPatternMiner(auto_time_scale=False) failed
 in transform and get_residuals

---
 skmine/periodic/cycles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 1ba24c0..dbc58d1 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -140,6 +140,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         else:
             serie.index = S_times_nano
             resolution = "nano-second"
+            self.n_zeros_ = 0
             self.div_nb_sec_ = 1
 
         # TODO : merge self.div_nb_sec_ and self.n_zeros_ to just one number, by which nano-seconds are divided
@@ -402,7 +403,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         residuals_transf_pd = pd.DataFrame(residuals_transf_list, columns=["time", "event"])
 
-        if self.auto_time_scale and self.is_datetime_:
+        if self.is_datetime_:
             residuals_transf_pd['time'] = residuals_transf_pd['time'].astype("datetime64[ns]")
         else:
             residuals_transf_pd['time'] = residuals_transf_pd['time'].astype("int64")
-- 
2.43.0


From 4e7824d5a5b3fc4abb4f207101ca08d8fe504a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:30 +0000
Subject: [PATCH 15/41] fix: PeriodicPatternMiner.export_patterns failed or
 wrote stale patterns when none is found

---
 skmine/periodic/cycles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index dbc58d1..aaa512e 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -204,6 +204,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
                                                                                is_datetime=self.is_datetime_)
 
         if not patterns_list_of_dict:
+            self.cycles = pd.DataFrame(columns=["pattern_json_tree"])
             return pd.DataFrame()  # FIXME
 
         self.cycles = pd.DataFrame(patterns_list_of_dict)
-- 
2.43.0


From 173ba69ca2fd259ecccf0003493167b6c422c18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:10 +0000
Subject: [PATCH 16/41] fix: PeriodicPatternMiner.import_patterns mixed up
 events that are not strings

---
 skmine/periodic/cycles.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index aaa512e..0f6d228 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -257,6 +257,10 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             "patterns": big_dict_list
         }
 
+        if not all(isinstance(ev, str) for ev in data_dict):
+            # the keys of a json object are strings: keep the events as they are, their numbering depends on their type
+            big_dict["events"] = list(data_dict)
+
         big_json_str = json.dumps(big_dict)
         with open(file, "w") as f:
             f.write(big_json_str)
@@ -276,7 +280,10 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         self.n_zeros_ = big_dict["n_zeros_"]
         self.div_nb_sec_ = big_dict["div_nb_sec_"]
         self.is_datetime_ = big_dict["is_datetime_"]
-        self.data_details_ = DataSequence(dict(big_dict["data_details"]))
+        data_dict = dict(big_dict["data_details"])
+        if "events" in big_dict:
+            data_dict = dict(zip(big_dict["events"], data_dict.values()))
+        self.data_details_ = DataSequence(data_dict)
         big_dict_list = big_dict["patterns"]
 
         patterns_list = []
-- 
2.43.0


From 5327115ce249126c9888b42be03e0108224af613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:10 +0000
Subject: [PATCH 17/41] fix: PeriodicPatternMiner.fit failed on events that are
 not in chronological order

---
 skmine/periodic/cycles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 0f6d228..9ac5d1f 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -119,7 +119,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             raise TypeError(f"S must have an index with a type amongst {INDEX_TYPES}")
 
         self.is_datetime_ = isinstance(S.index, pd.DatetimeIndex)
-        serie = S.copy(deep=True)
+        serie = S.sort_index(kind="stable")
         if serie.index.duplicated().any():  # there are potentially duplicates, i.e. occurrences that happened at the
             # same time AND with the same event. At this line, the second condition is not yet verified.
             len_S = len(serie)
-- 
2.43.0


From 791192800ef1783109bd306947dcd2e85c11f363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:10 +0000
Subject: [PATCH 18/41] fix: PeriodicPatternMiner took the times of a
 datetime64[s], [ms] or [us] index for nano-seconds

---
 skmine/periodic/cycles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 9ac5d1f..449d635 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -128,6 +128,8 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             if diff:
                 warnings.warn(f"found {diff} duplicates in the input sequence, they have been removed.")
 
+        if self.is_datetime_ and hasattr(serie.index, "as_unit"):
+            serie.index = serie.index.as_unit("ns")  # pandas >= 2 also has indexes in s, ms and us
         S_times_nano = serie.index.astype("int64")
         verbose = False
         if self.auto_time_scale:
-- 
2.43.0


From 2b4eb8940b5109fcc38288c11f08835209dd7abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:10 +0000
Subject: [PATCH 19/41] fix: PeriodicPatternMiner.export_patterns failed after
 import_patterns

---
 skmine/periodic/cycles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 449d635..cc7b55f 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -286,6 +286,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         if "events" in big_dict:
             data_dict = dict(zip(big_dict["events"], data_dict.values()))
         self.data_details_ = DataSequence(data_dict)
+        self.alpha_groups_ = {ev: pd.Index(times) for ev, times in data_dict.items()}
         big_dict_list = big_dict["patterns"]
 
         patterns_list = []
-- 
2.43.0


From 3059163813aecb69a13db86045c209c5d7b20405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:13 +0000
Subject: [PATCH 20/41] fix: periodic patterns built on a concatenation did not
 generate the occurrences they cover

---
 skmine/periodic/run_mine.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/skmine/periodic/run_mine.py b/skmine/periodic/run_mine.py
index d1d6184..82cc192 100644
--- a/skmine/periodic/run_mine.py
+++ b/skmine/periodic/run_mine.py
@@ -162,6 +162,8 @@ def prepare_candidate_concats(cands, p0, r0, first_rs):
     offset = 0
     Pblks_occs = []
     Pblks_errs = []
+    ds = []
+    refs = []  # in the blocks of each candidate, position of the first occurrence of its last child
     for ci, cand in enumerate(cands):
 
         Pblks_occs.append(cand.getBlocksO(first_rs[ci]))
@@ -171,13 +173,18 @@ def prepare_candidate_concats(cands, p0, r0, first_rs):
         offset -= 1
         ch = nodes.pop(nmap[0])["children"]
         if ci > 0:
-            ch[0] = (ch[0][0], Pblks_occs[ci][0][0] - Pblks_occs[ci - 1][0][0])
+            ch[0] = (ch[0][0], Pblks_occs[ci][0][0] - Pblks_occs[ci - 1][0][refs[ci - 1]])
+        ds.append(ch[0][1])
+        if len(ch) > 1:
+            last_child = cand.getPattern().nodes[0]["children"][-1][0]
+            refs.append(len(Pblks_occs[ci][0]) - cand.getPattern().getNbOccs(last_child))
+        else:
+            refs.append(0)
         tree[0]["children"].extend(ch)
         for c in ch:
             nodes[c[0]]["parent"] = 0
         tree.update(nodes)
 
-    ds = [c[1] for c in tree[0]["children"]]
     O = []
     E = []
     for ri in range(r0):
@@ -187,7 +194,7 @@ def prepare_candidate_concats(cands, p0, r0, first_rs):
                 if ri != 0:
                     E.append((Pblks_occs[ei][ri][0] - Pblks_occs[ei][ri - 1][0]) - p0)
             else:
-                E.append((Pblks_occs[ei][ri][0] - Pblks_occs[ei - 1][ri][0]) - ds[ei])
+                E.append((Pblks_occs[ei][ri][0] - Pblks_occs[ei - 1][ri][refs[ei - 1]]) - ds[ei])
             E.extend(Pblks_errs[ei][ri])
     p = Pattern(tree)
     return Candidate(-1, p, O, E)
-- 
2.43.0


From 4b35e501010951b978b423eeb9df67252934367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:24 +0000
Subject: [PATCH 21/41] fix: PeriodicPatternMiner.transform gave E and the
 distances of a pattern on another time scale than t0 and period_major

---
 skmine/periodic/cycles.py  | 5 +++--
 skmine/periodic/pattern.py | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index cc7b55f..b55cbc9 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -212,12 +212,13 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         self.cycles = pd.DataFrame(patterns_list_of_dict)
 
         if self.auto_time_scale:  # restore time in nano-second
-            self.cycles.loc[:, ["t0", "period_major"]] *= (10 ** self.n_zeros_) * self.div_nb_sec_
+            scale = (10 ** self.n_zeros_) * self.div_nb_sec_
+            self.cycles.loc[:, ["t0", "period_major"]] *= scale
+            self.cycles["E"] = self.cycles["E"].apply(lambda E: [e * scale for e in E])
 
             if self.is_datetime_:
                 self.cycles.loc[:, "t0"] = self.cycles.t0.astype("datetime64[ns]")
                 self.cycles.loc[:, "period_major"] = self.cycles.period_major.astype("timedelta64[ns]")
-                self.cycles.loc[:, "E"] = self.cycles.E.map(np.array) * (10 ** self.n_zeros_ * self.div_nb_sec_)
 
                 def to_timedelta(x): return pd.to_timedelta(x, unit='ns')
 
diff --git a/skmine/periodic/pattern.py b/skmine/periodic/pattern.py
index a0eafca..f1ca4a4 100644
--- a/skmine/periodic/pattern.py
+++ b/skmine/periodic/pattern.py
@@ -910,16 +910,17 @@ class Pattern(object):
         if self.isInterm(nid):
             r = self.nodes[nid].get("r", "-")
             p = self.nodes[nid].get("p", "-")
+            scale = 10 ** n_zeros * div_nb_sec
+            if scale != 1:
+                p *= scale  # restore time in nano-second
             if is_datetime:
-                p *= (10 ** n_zeros * div_nb_sec) # restore time in nano-second
                 p = timedelta(microseconds=p / 1000)
             ss = "[r=%s p=%s]" % (r, p)
             sc = ""
             for ni, nn in enumerate(self.nodes[nid]["children"]):
                 if ni > 0:
-                    d = nn[1]
+                    d = nn[1] * scale  # restore time in nano-second
                     if is_datetime:
-                        d *= (10 ** n_zeros * div_nb_sec) # restore time in nano-second
                         d = timedelta(microseconds=d / 1000)
                     sc += " [d=%s] " % d
                 sc += self.__str__(nn[0], map_ev, leaves_first, n_zeros, div_nb_sec, is_datetime)
-- 
2.43.0


From bed045f9dc721952fe8bb84518c0226e8065c55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:46 +0000
Subject: [PATCH 22/41] fix: price triples with the period term of the pattern
 they become

cost_triple bounded the period with deltaT minus the absolute difference of
the two gaps, while the pattern built from the triple has a cumulated shift
of that difference modulo 2. Candidates were priced below their code length,
and mining could return a longer description than the plain event log.
---
 skmine/periodic/class_patterns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/periodic/class_patterns.py b/skmine/periodic/class_patterns.py
index d1df49e..16deb33 100644
--- a/skmine/periodic/class_patterns.py
+++ b/skmine/periodic/class_patterns.py
@@ -120,7 +120,7 @@ def cost_triple(data_details, alpha, dp, deltaE):
         cl_t0 = numpy.log2(data_details["deltaT"] - deltaE - 2. * dp + 1)
     else:
         cl_t0 = numpy.log2(data_details["deltaT"] + 1)
-    return cl_alpha_and_r + cl_t0 + numpy.log2(numpy.floor((data_details["deltaT"] - deltaE) / 2.)) + 4 + numpy.abs(
+    return cl_alpha_and_r + cl_t0 + numpy.log2(numpy.floor((data_details["deltaT"] - deltaE % 2) / 2.)) + 4 + numpy.abs(
         deltaE)
 
 
-- 
2.43.0


From ad109723ffd197ba3da4314103a1b6f6b2ac1ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:26 +0000
Subject: [PATCH 23/41] fix: MDLPDiscretizer cut points overflowed on small
 integer columns

---
 skmine/preprocessing/mdlp_discretizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/preprocessing/mdlp_discretizer.py b/skmine/preprocessing/mdlp_discretizer.py
index 468e419..d61511b 100644
--- a/skmine/preprocessing/mdlp_discretizer.py
+++ b/skmine/preprocessing/mdlp_discretizer.py
@@ -122,8 +122,8 @@ class MDLPVectDiscretizer(MDLOptimizer):
 
             is_better = self.evaluate(y, start, end, k)
             if k == -1 or not is_better:
-                front = -np.inf if start == 0 else (X[start - 1] + X[start]) / 2
-                back = np.inf if end == len(X) else (X[end - 1] + X[end]) / 2
+                front = -np.inf if start == 0 else X[start - 1] / 2 + X[start] / 2
+                back = np.inf if end == len(X) else X[end - 1] / 2 + X[end] / 2
 
                 if front != -np.inf:
                     cut_points.add(front)
-- 
2.43.0


From 234aebc2afd25e03087fbb829e82158222873815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:55 +0000
Subject: [PATCH 24/41] fix: MDLPDiscretizer.transform applied cut points by
 column position and lost the row index

---
 skmine/preprocessing/mdlp_discretizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skmine/preprocessing/mdlp_discretizer.py b/skmine/preprocessing/mdlp_discretizer.py
index d61511b..632dccd 100644
--- a/skmine/preprocessing/mdlp_discretizer.py
+++ b/skmine/preprocessing/mdlp_discretizer.py
@@ -241,17 +241,18 @@ class MDLPDiscretizer(BaseMiner):
         if isinstance(X, pd.DataFrame) and not set(self.cut_points_) == set(X.columns):
             raise ValueError(f"X columns should be {self.cut_points_.keys()}")
         _X = X.values if isinstance(X, pd.DataFrame) else X
+        columns = X.columns if isinstance(X, pd.DataFrame) else self.cut_points_
 
         vects = Parallel(n_jobs=self.n_jobs, prefer="threads")(
-            delayed(np.searchsorted)(cut_points, _X[:, idx])
-            for idx, cut_points in enumerate(self.cut_points_.values())
+            delayed(np.searchsorted)(self.cut_points_[col], _X[:, idx])
+            for idx, col in enumerate(columns)
         )
 
         vects = [v.reshape(len(v), 1) for v in vects]
         _X = np.concatenate(vects, axis=1)
 
         if isinstance(X, pd.DataFrame):
-            _X = pd.DataFrame(_X, columns=X.columns)
+            _X = pd.DataFrame(_X, columns=X.columns, index=X.index)
 
         return _X
 
-- 
2.43.0


From 06f3ad383866e02c4466c05ee248ee2e0dba9f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:15 +0000
Subject: [PATCH 25/41] fix: GraphMDL.fit stops when no remaining candidate
 improves the code table

When the last candidates had already been tested, or left the description
length unchanged, the search neither ended nor made progress (and the
logger was called with arguments it does not take).
---
 skmine/graph/graphmdl/graph_mdl.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 70a4d3b..e829cf6 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -115,6 +115,7 @@ class GraphMDL(BaseMiner):
                     break
             if len(candidates) != 0:
                 b = time.time()
+                improved = False
                 for candidate in candidates:
                     if candidate not in self._already_test:
                         # Add a candidate to a ct, cover and compute description length
@@ -133,26 +134,23 @@ class GraphMDL(BaseMiner):
                         if temp_code_length < self._description_length:
                             self._rewritten_graph = self._code_table.rewritten_graph()
                             self._description_length = temp_code_length
-                            utils.MyLogger.info("New DL ", self._description_length)
+                            utils.MyLogger.info(f"New DL {self._description_length}")
                             utils.MyLogger.info(f"new pattern added: {utils.display_graph(row.pattern())}")
                             utils.MyLogger.info(f"search time = {time.time() - b}")
                             self._compute_pruning_candidates()
                             self._pruning()
-                            break
-                        elif temp_code_length > self._description_length and candidates.index(candidate) == len(
-                                candidates) - 1:
-                            utils.MyLogger.info("None best code table found")
-                            utils.MyLogger.info(f"search time = {time.time() - b}")
-                            self._code_table.remove_row(row)
-                            stop = self._graph_mdl_end()
-                            if self._timeout is not None:
-                                current = self._timeout
+                            improved = True
                             break
                         else:
                             # if the candidate not improve the result, remove it to the code table
                             self._code_table.remove_row(row)
                     else:
-                        utils.MyLogger().debug("Already test")
+                        utils.MyLogger.debug("Already test")
+                if not improved:
+                    # no candidate left that makes the code table better
+                    utils.MyLogger.info("None best code table found")
+                    utils.MyLogger.info(f"search time = {time.time() - b}")
+                    stop = self._graph_mdl_end()
             else:
                 stop = self._graph_mdl_end()
                 if self._timeout is not None:
-- 
2.43.0


From dac8af3cba388f5815c31d94ece804f163a1938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:15 +0000
Subject: [PATCH 26/41] fix: GraphMDL pruning leaves the code table covered

The list of rows to prune was changed while it was iterated, rows already
pruned were removed twice and a rejected pruning left the usages of the
smaller code table behind.
---
 skmine/graph/graphmdl/graph_mdl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index e829cf6..0a9d21d 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -236,7 +236,9 @@ class GraphMDL(BaseMiner):
         utils.MyLogger.info(f"Pruning start ....")
         self._compute_old_usage()  # compute old pattern usage
         self._pruning_rows.sort(key=_order_pruning_rows)  # sort the pruning rows
-        for r in self._pruning_rows:
+        for r in list(self._pruning_rows):
+            if r not in self._code_table.rows():  # already pruned
+                continue
             self._code_table.remove_row(r)
             self._code_table.cover()
             if self._code_table.compute_total_description_length() < self._description_length:
@@ -247,6 +249,7 @@ class GraphMDL(BaseMiner):
                 self._pruning()
             else:
                 self._code_table.add_row(r)
+                self._code_table.cover()
 
         utils.MyLogger.info("Pruning end ....")
 
-- 
2.43.0


From dd59785c7189c14d9812d5ce4b7056d553c3958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:15 +0000
Subject: [PATCH 27/41] fix: labels of a merged GraphMDL node are a tuple, as
 everywhere else

A list is not hashable and could not be used in a further merge.
---
 skmine/graph/graphmdl/candidate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/graph/graphmdl/candidate.py b/skmine/graph/graphmdl/candidate.py
index 83163b4..d340284 100644
--- a/skmine/graph/graphmdl/candidate.py
+++ b/skmine/graph/graphmdl/candidate.py
@@ -156,7 +156,7 @@ class Candidate:
                 for l in first_label:
                     if l not in label:
                         label.append(l)
-                return label
+                return tuple(label)
         else:
             label = list(second_label)
             if type(first_label) is str:
@@ -166,7 +166,7 @@ class Candidate:
                 for l in first_label:
                     if l not in label:
                         label.append(l)
-            return label
+            return tuple(label)
 
     def _is_ports_equals(self, ports):
         """ Check if the candidate ports list are similar to a given ports list
-- 
2.43.0


From 3f302efb62b931717bdeed303c7aceed082180dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:15 +0000
Subject: [PATCH 28/41] fix: a label that equals a node number is not a port of
 the rewritten graph

---
 skmine/graph/graphmdl/code_table.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index ac22bdb..276a329 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -742,8 +742,10 @@ class CodeTable:
         rewritten_node
         data_node : the port node in the initial data graph
         """
-        if str(data_node) in dict(rewritten_graph.nodes(data='label')).values():
-            port_node = utils.get_key_from_value(dict(rewritten_graph.nodes(data='label')), str(data_node))
+        # only the port nodes are named after data nodes, labels may look the same
+        ports = {node: d['label'] for node, d in rewritten_graph.nodes(data=True) if 'is_Pattern' not in d}
+        if str(data_node) in ports.values():
+            port_node = utils.get_key_from_value(ports, str(data_node))
             rewritten_graph.add_edge(rewritten_node, port_node, label=f"v{kwargs['pattern_port']}")
         else:
             last = len(rewritten_graph.nodes())
-- 
2.43.0


From be9b07a3520e852e3405b5802def1a43bcbf5447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:15 +0000
Subject: [PATCH 29/41] fix: the rewritten graph is priced with the usages of
 the ports, not their numbers

---
 skmine/graph/graphmdl/code_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index 276a329..ba1fc17 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -174,7 +174,7 @@ class CodeTable:
                  if 'is_Pattern' not in node[1]])
 
             # edges labels
-            edges_label = [utils.prequential_code([v for v in row.pattern_port_usage().keys()])
+            edges_label = [utils.prequential_code([v for v in row.pattern_port_usage().values()])
                            for row in self._rows if row.pattern_usage() != 0]
             # the code for vertex pattern is zero
             edges_label.extend([utils.prequential_code([v, v]) for v in self._edge_singleton_usage.values()])
-- 
2.43.0


From 2eee3224b066662c5088e99c19072f8d6f8003c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:15 +0000
Subject: [PATCH 30/41] fix: GraphMDL.patterns keeps a pattern whose code
 length is 0

The only used pattern has a code of 0 bits and was left out.
---
 skmine/graph/graphmdl/graph_mdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 0a9d21d..e28fc9e 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -264,7 +264,7 @@ class GraphMDL(BaseMiner):
         self._patterns = set()
         if self._code_table is not None:
             for r in self._code_table.rows():
-                if r.code_length() != 0:
+                if r.pattern_usage() != 0:
                     self._patterns.add(r.pattern())
 
             for s in self._code_table.singleton_code_length().keys():
-- 
2.43.0


From c9d19ad5eeb84d4df20dea71d8d68c77abc0592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:15 +0000
Subject: [PATCH 31/41] fix: CodeTableRow.display_row called a function that
 does not exist

---
 skmine/graph/graphmdl/code_table_row.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/code_table_row.py b/skmine/graph/graphmdl/code_table_row.py
index bedf673..b1277d1 100644
--- a/skmine/graph/graphmdl/code_table_row.py
+++ b/skmine/graph/graphmdl/code_table_row.py
@@ -176,7 +176,7 @@ class CodeTableRow:
         -------
         list
         """
-        return [utils.draw_pattern(self._pattern), self._pattern_usage, self._code_length,
+        return [utils.display_graph(self._pattern), self._pattern_usage, self._code_length,
                 len(self._pattern_port_usage),
                 self._pattern_port_usage, self._port_code_length]
 
-- 
2.43.0


From 6952f600d854759e95dfb21c0dbace0d4a4258fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:15 +0000
Subject: [PATCH 32/41] fix: a node whose other labels are described by other
 patterns is a port

Without the port, nothing links the label to its node and the data graph
cannot be given back from the rewritten graph.
---
 skmine/graph/graphmdl/code_table.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index ba1fc17..bd38346 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -620,7 +620,8 @@ class CodeTable:
         i = 0
         while i <= len(keys) - 1:
             if not self.is_node_edges_marked(graph, keys[i], pattern, values[i]) \
-                    or not self.is_node_all_labels_marked(keys[i], graph, cover_marker):
+                    or not self.is_node_all_labels_marked(keys[i], graph, cover_marker) \
+                    or not self.is_node_labels_in_pattern(graph, keys[i], pattern, values[i]):
                 res.append((keys[i], values[i]))
                 if 'port' not in graph.nodes[keys[i]]:  # if the node is not already marked as port
                     graph.nodes[keys[i]]['port'] = True  # mark it
@@ -658,6 +659,31 @@ class CodeTable:
         else:
             raise ValueError(f"{graph_node} should be a nod of the graph and {pattern_node}, a node of pattern")
 
+    def is_node_labels_in_pattern(self, graph, graph_node, pattern, pattern_node):
+        """ Check if the pattern node has all the labels of the corresponding graph node
+        Parameters
+        ----------
+        graph
+        graph_node
+        pattern
+        pattern_node
+
+        Returns
+        ---------
+        bool
+        """
+        if 'label' not in graph.nodes[graph_node]:
+            return True
+        if 'label' not in pattern.nodes[pattern_node]:
+            return False
+        label = graph.nodes[graph_node]['label']
+        pattern_label = pattern.nodes[pattern_node]['label']
+        if type(pattern_label) is str:
+            pattern_label = (pattern_label,)
+        if type(label) is str:
+            label = (label,)
+        return all(i in pattern_label for i in label)
+
     def is_node_all_labels_marked(self, node_number, graph, cover_marker):
         """ Check if all node labels are marked by the cover_marker
         Parameters
-- 
2.43.0


From 123e074b4c491e4fa21f7c00229ceeb04b0e7a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:49 +0000
Subject: [PATCH 33/41] fix: GraphMDL.fit keeps no time limit from an earlier
 fit

---
 skmine/graph/graphmdl/graph_mdl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index e28fc9e..ca8aabd 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -78,8 +78,8 @@ class GraphMDL(BaseMiner):
             -------
             GraphMDL
         """
-        if timeout is not None and timeout != 0:
-            self._timeout = timeout
+        # no limit is kept from an earlier fit
+        self._timeout = timeout if timeout != 0 else None
         if D is None:
             raise ValueError("You should give a graph")
         else:
-- 
2.43.0


From 887db4455a9b8dde6325b42e0a47a631f7b3f729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:49 +0000
Subject: [PATCH 34/41] fix: GraphMDL.fit leaves the graph it is given as it is

---
 skmine/graph/graphmdl/graph_mdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index ca8aabd..24aa471 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -83,7 +83,7 @@ class GraphMDL(BaseMiner):
         if D is None:
             raise ValueError("You should give a graph")
         else:
-            self._data = D
+            self._data = D.copy()  # the covers mark nodes and edges, the graph given is left as it is
             self._init_graph_mdl()
             self._anytime_graph_mdl_with_timeout()
             return self
-- 
2.43.0


From fc709c4c7790aba02a4fa51935ce18a131074c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:46 +0000
Subject: [PATCH 35/41] fix: the dataset generators take RandomState instances
 as documented

---
 skmine/datasets/_samples_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index 51177f6..02d7941 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -5,6 +5,7 @@ Mainly for benchmarks and experiments
 
 import numpy as np
 import pandas as pd
+from sklearn.utils import check_random_state
 
 
 def make_transactions(
@@ -63,7 +64,7 @@ def make_transactions(
 
     avg_transaction_size = density * n_items
 
-    generator = np.random.RandomState(random_state)  # pylint: disable= no-member
+    generator = check_random_state(random_state)
 
     item_stop = item_start + n_items
     choices = np.arange(start=item_start, stop=item_stop)
-- 
2.43.0


From cf615cf65fde4c4918b927fc91c912f015eec6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:46 +0000
Subject: [PATCH 36/41] fix: make_classification shuffles according to
 random_state

---
 skmine/datasets/_samples_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index 02d7941..56807bf 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -176,6 +176,6 @@ def make_classification(
     df = pd.concat(dfs, axis=0)
 
     if shuffle:
-        df = df.sample(frac=1)
+        df = df.sample(frac=1, random_state=random_state)
 
     return df["transaction"], df["class"]
-- 
2.43.0


From 0e0d9deacad71870291adc38370f20becd68412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:46 +0000
Subject: [PATCH 37/41] fix: make_classification gives as many samples as asked
 for

---
 skmine/datasets/_samples_generator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index 56807bf..e37aaec 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -149,11 +149,15 @@ def make_classification(
     assert 0 <= class_sep <= 1.0
     np.testing.assert_almost_equal(np.sum(weights), 1.0, decimal=2)
 
+    # round the cumulated weights, so that the classes always add up to n_samples
+    bounds = np.round(np.cumsum(weights) / np.sum(weights) * n_samples).astype(int)
+    class_sizes = np.diff(bounds, prepend=0)
+
     res = dict()
 
     padding = 0
     for _class in range(n_classes):
-        _n_samples = int(weights[_class] * n_samples)
+        _n_samples = class_sizes[_class]
         density = densities[_class]
         transactions = make_transactions(
             n_transactions=_n_samples,
-- 
2.43.0


From 7c1a57fe4b5c472fd69fc03288cdfc4e6fc867dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:46 +0000
Subject: [PATCH 38/41] fix: make_classification works when a class gets no
 sample

---
 skmine/datasets/_samples_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index e37aaec..eeb063c 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -73,7 +73,7 @@ def make_transactions(
         p=0.5,  # centered around avg_transaction_size
         size=n_transactions,
     )
-    max_size = t_sizes.max()
+    max_size = t_sizes.max(initial=0)
     if max_size > n_items:
         delta = max_size - n_items
         t_sizes = np.clip(t_sizes, a_min=t_sizes.min() + delta, a_max=n_items)
@@ -174,7 +174,7 @@ def make_classification(
     dfs = list()
     for _class, transactions in res.items():
         df = transactions.to_frame(name="transaction")
-        df.loc[:, "class"] = _class
+        df["class"] = _class
         dfs.append(df)
 
     df = pd.concat(dfs, axis=0)
-- 
2.43.0


From ac62c187244ab287d8d555ee23d5686725634e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:46 +0000
Subject: [PATCH 39/41] fix: no empty items are read from a FIMI file

---
 skmine/datasets/fimi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skmine/datasets/fimi.py b/skmine/datasets/fimi.py
index 2e4b5b5..f5cc7a8 100644
--- a/skmine/datasets/fimi.py
+++ b/skmine/datasets/fimi.py
@@ -45,7 +45,9 @@ def _read_dat(filepath, int_values=True, separator=' ', zip=False):
               f"deleted.")
         raise
 
-    transactions = [[int(item) if int_values else item for item in line.rstrip().split(separator)] for line in lines]
+    # there is no item between two separators or on an empty line
+    transactions = [[int(item) if int_values else item for item in line.rstrip().split(separator) if item]
+                    for line in lines]
 
     return transactions
 
-- 
2.43.0


From edd08b0b07767995d3075c1bc880d2aed74078ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:46 +0000
Subject: [PATCH 40/41] fix: describe_logs works on logs with dates

---
 skmine/datasets/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skmine/datasets/utils.py b/skmine/datasets/utils.py
index 628609f..bec4275 100644
--- a/skmine/datasets/utils.py
+++ b/skmine/datasets/utils.py
@@ -66,11 +66,10 @@ def describe_logs(D):
     'avg_nb_points_per_event': 100.0}
     """
     gb = D.groupby(D.values)
-    a = gb.apply(lambda df: (df.index.max() - df.index.min(), len(df)))
-    avg_nb_points = a.str[1].mean()
+    deltas = gb.apply(lambda df: df.index.max() - df.index.min())
 
     return dict(
         n_events=len(gb),
-        avg_delta_per_event=a.str[0].mean(),
-        avg_nb_points_per_event=avg_nb_points,
+        avg_delta_per_event=deltas.mean(),
+        avg_nb_points_per_event=gb.size().mean(),
     )
-- 
2.43.0


From 76db1af504d81112d3bd007066bf166070496467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:42 +0000
Subject: [PATCH 41/41] fix: GraphMDL covers multigraphs with any edge keys

---
 skmine/graph/graphmdl/code_table.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index bd38346..2f8075d 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -445,7 +445,7 @@ class CodeTable:
                                   for v in graph.get_edge_data(start, end).values()]):
                     edge_index = self._get_edge_index_from_label(graph.get_edge_data(start, end).values(), label)
                     if edge_index is not None:
-                        edge = graph[start][end][edge_index]
+                        edge = list(graph[start][end].values())[edge_index]  # edge keys can be anything
                         return 'cover_mark' in edge and label in edge['cover_mark'] and edge['cover_mark'][
                             label] == cover_marker
                     else:
@@ -478,10 +478,11 @@ class CodeTable:
                 if not (False in ['label' in v
                                   for v in graph.get_edge_data(start, end).values()]):
                     edge_index = self._get_edge_index_from_label(graph.get_edge_data(start, end).values(), label)
-                    if 'cover_mark' in graph[start][end][edge_index]:
-                        graph[start][end][edge_index]['cover_mark'][label] = cover_marker
+                    edge = list(graph[start][end].values())[edge_index]  # edge keys can be anything
+                    if 'cover_mark' in edge:
+                        edge['cover_mark'][label] = cover_marker
                     else:
-                        graph[start][end][edge_index]['cover_mark'] = {label: cover_marker}
+                        edge['cover_mark'] = {label: cover_marker}
                 else:
                     raise ValueError("label shouldn't be empty or none and must be an edge label ")
 
-- 
2.43.0

