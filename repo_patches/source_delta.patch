From 7594a7a30ce213292c5a50396795e5fa743e9056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:54 +0000
Subject: [PATCH 01/34] fix: make model_selection splitters work with current
 scikit-learn

---
 kamrecsys/model_selection/split.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/model_selection/split.py b/kamrecsys/model_selection/split.py
index f9e311c..d43f5c9 100644
--- a/kamrecsys/model_selection/split.py
+++ b/kamrecsys/model_selection/split.py
@@ -24,7 +24,6 @@ import numpy as np
 from sklearn.utils import indexable, check_random_state
 from sklearn.model_selection import (
     BaseCrossValidator, PredefinedSplit, train_test_split, KFold)
-from sklearn.model_selection._split import _validate_shuffle_split_init
 
 # =============================================================================
 # Metadata variables
@@ -86,7 +85,6 @@ class ShuffleSplitWithinGroups(BaseCrossValidator):
 
         super(ShuffleSplitWithinGroups, self).__init__()
 
-        _validate_shuffle_split_init(test_size, train_size)
         self.n_splits = int(n_splits)
         self.test_size = test_size
         self.train_size = train_size
@@ -272,7 +270,9 @@ class KFoldWithinGroups(BaseCrossValidator):
         iters = np.empty(group_indices.shape[0], dtype=object)
 
         # generate iterators
-        cv = KFold(self.n_splits, self.shuffle, rng)
+        cv = KFold(
+            n_splits=self.n_splits, shuffle=self.shuffle,
+            random_state=rng if self.shuffle else None)
         for i, g in enumerate(group_indices):
             group_member = indices[groups == g]
             iters[i] = cv.split(group_member)
-- 
2.43.0


From 8b8ec507b59f1a99bff8308dc6f84b86421722f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:24 +0000
Subject: [PATCH 02/34] fix: honour train_size in ShuffleSplitWithinGroups

---
 kamrecsys/model_selection/split.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/kamrecsys/model_selection/split.py b/kamrecsys/model_selection/split.py
index d43f5c9..195e069 100644
--- a/kamrecsys/model_selection/split.py
+++ b/kamrecsys/model_selection/split.py
@@ -120,11 +120,11 @@ class ShuffleSplitWithinGroups(BaseCrossValidator):
         # check arguments
         X, y, groups = indexable(X, y, groups)
 
-        for train, test in super(
-                ShuffleSplitWithinGroups, self).split(X, y, groups):
-            yield train, test
+        indices = np.arange(X.shape[0], dtype=int)
+        for train_fold, test_fold in self._iter_masks(X, y, groups):
+            yield indices[train_fold], indices[test_fold]
 
-    def _iter_test_masks(self, X, y=None, groups=None):
+    def _iter_masks(self, X, y=None, groups=None):
         # yields mask array for test splits
         n_samples = X.shape[0]
 
@@ -134,20 +134,23 @@ class ShuffleSplitWithinGroups(BaseCrossValidator):
 
         # constants
         indices = np.arange(n_samples, dtype=int)
+        train_fold = np.empty(n_samples, dtype=bool)
         test_fold = np.empty(n_samples, dtype=bool)
         rng = check_random_state(self.random_state)
         group_indices = np.unique(groups)
 
         # generate training and test splits
         for fold in xrange(self.n_splits):
+            train_fold[:] = False
             test_fold[:] = False
             for i, g in enumerate(group_indices):
                 train_i, test_i = train_test_split(
                     indices[groups == g],
                     test_size=self.test_size, train_size=self.train_size,
                     shuffle=self.shuffle, random_state=rng)
+                train_fold[train_i] = True
                 test_fold[test_i] = True
-            yield test_fold
+            yield train_fold, test_fold
 
     def get_n_splits(self, X=None, y=None, groups=None):
         """Returns the number of splitting iterations in the cross-validator
-- 
2.43.0


From 97d798f4490d22eaaef5360172767147c44be791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:25 +0000
Subject: [PATCH 03/34] fix: predict maps every event column through its own
 object type

---
 kamrecsys/base/base.py  | 5 +++--
 kamrecsys/data/event.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index 239450f..82f2e03 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -248,9 +248,10 @@ class BaseEventRecommender(
             predicted scores for given inputs
         """
 
-        eev = check_array(np.atleast_2d(eev), dtype=int)[:, self.event_index]
+        eev = check_array(np.atleast_2d(eev), dtype=int)
+        ev = self.to_iid_event(eev)[:, self.event_index]
 
-        return np.squeeze(self.raw_predict(self.to_iid_event(eev)))
+        return np.squeeze(self.raw_predict(ev))
 
 
 # =============================================================================
diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index 677dcfa..38601d1 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -100,7 +100,7 @@ class EventUtilMixin(with_metaclass(ABCMeta, object)):
             Shape of an input array is illegal
         """
         if missing_values is None:
-            missing_values = self.n_objects[self.event_otypes]
+            missing_values = [len(self.eid[o]) for o in self.event_otypes]
         if ev.ndim == 1 and ev.shape[0] == self.s_event:
             new_ev = np.array(
                 [self.iid[self.event_otypes[e]].get(ev[e], missing_values[e])
-- 
2.43.0


From 3570b721087244b3dfe5f5d433a0914e6c8d463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:20:37 +0000
Subject: [PATCH 04/34] fix: predict accepts external ids of any type, not only
 integers

---
 kamrecsys/base/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index 82f2e03..c1d2143 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -248,7 +248,7 @@ class BaseEventRecommender(
             predicted scores for given inputs
         """
 
-        eev = check_array(np.atleast_2d(eev), dtype=int)
+        eev = check_array(np.atleast_2d(eev), dtype=None)
         ev = self.to_iid_event(eev)[:, self.event_index]
 
         return np.squeeze(self.raw_predict(ev))
-- 
2.43.0


From d7a70174766a3c286d7532dc19de944e7e4fda4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:20:58 +0000
Subject: [PATCH 05/34] fix: implicit rating matrix uses the already selected
 event columns

---
 kamrecsys/item_finder/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/item_finder/base.py b/kamrecsys/item_finder/base.py
index d9c712b..f859332 100644
--- a/kamrecsys/item_finder/base.py
+++ b/kamrecsys/item_finder/base.py
@@ -165,11 +165,11 @@ class BaseImplicitItemFinder(with_metaclass(ABCMeta, BaseEventRecommender)):
             raise TypeError("illegal type of sparse matrices")
 
         # get number of objects
-        n_objects = self.n_objects[self.event_otypes[self.event_index]]
+        n_objects = self.n_objects
 
         # get event data
-        users = self.event[:, self.event_index[0]]
-        items = self.event[:, self.event_index[1]]
+        users = self.event[:, 0]
+        items = self.event[:, 1]
         scores = np.ones_like(users, dtype=int)
 
         # generate array
-- 
2.43.0


From e7b839afacc4be998fa01b2473507d3ad957ff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:00 +0000
Subject: [PATCH 06/34] fix: implicit rating matrix is binary even if events
 are repeated

---
 kamrecsys/item_finder/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/item_finder/base.py b/kamrecsys/item_finder/base.py
index f859332..7dee1c7 100644
--- a/kamrecsys/item_finder/base.py
+++ b/kamrecsys/item_finder/base.py
@@ -167,9 +167,10 @@ class BaseImplicitItemFinder(with_metaclass(ABCMeta, BaseEventRecommender)):
         # get number of objects
         n_objects = self.n_objects
 
-        # get event data
-        users = self.event[:, 0]
-        items = self.event[:, 1]
+        # get event data, repeated events are counted once
+        event = np.unique(self.event[:, :2], axis=0)
+        users = event[:, 0]
+        items = event[:, 1]
         scores = np.ones_like(users, dtype=int)
 
         # generate array
-- 
2.43.0


From f4d98a2fe6348769f567d3f4cad40e92e2425378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:23 +0000
Subject: [PATCH 07/34] fix: score levels and bins agree for strides not exact
 in binary

---
 kamrecsys/data/event_with_score.py   | 3 +--
 kamrecsys/metrics/base.py            | 5 +++--
 kamrecsys/metrics/real.py            | 5 +++--
 kamrecsys/metrics/score_predictor.py | 5 +++--
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/kamrecsys/data/event_with_score.py b/kamrecsys/data/event_with_score.py
index f1340a0..91ff510 100644
--- a/kamrecsys/data/event_with_score.py
+++ b/kamrecsys/data/event_with_score.py
@@ -154,8 +154,7 @@ class EventWithScoreData(EventData, ScoreUtilMixin):
                 np.max(self.score),
                 np.min(np.diff(np.unique(self.score)))]
         self.score_domain = np.asanyarray(score_domain)
-        self.n_score_levels = (
-            int((score_domain[1] - score_domain[0]) / score_domain[2]) + 1)
+        self.n_score_levels = self.generate_score_bins().shape[0] - 1
 
     def digitize_score(self, score=None):
         """
diff --git a/kamrecsys/metrics/base.py b/kamrecsys/metrics/base.py
index 295e58a..3f1c3b6 100644
--- a/kamrecsys/metrics/base.py
+++ b/kamrecsys/metrics/base.py
@@ -57,8 +57,9 @@ def generate_score_bins(score_domain):
         bins of histogram. boundaries of bins are placed at the center of
         adjacent scores.
     """
-    bins = np.arange(score_domain[0], score_domain[1], score_domain[2],
-                     dtype=float)
+    bins = np.arange(score_domain[0],
+                     score_domain[1] - score_domain[2] / 2,
+                     score_domain[2], dtype=float)
     bins = np.hstack([-np.inf, bins + score_domain[2] / 2, np.inf])
 
     return bins
diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index cf53762..7b9eeff 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -161,8 +161,9 @@ def score_histogram(x, score_domain=(1, 5, 1)):
         scores = (bins[1:] + bins[:-1]) / 2
     else:
         scores = np.hstack(
-            [np.arange(score_domain[0], score_domain[1], score_domain[2],
-                       dtype=float),
+            [np.arange(score_domain[0],
+                       score_domain[1] - score_domain[2] / 2,
+                       score_domain[2], dtype=float),
              score_domain[1]])
 
     # return statistics
diff --git a/kamrecsys/metrics/score_predictor.py b/kamrecsys/metrics/score_predictor.py
index 9a85d51..cbfd160 100644
--- a/kamrecsys/metrics/score_predictor.py
+++ b/kamrecsys/metrics/score_predictor.py
@@ -142,8 +142,9 @@ def score_predictor_statistics(y_true, y_pred, score_domain=(1, 5, 1)):
 
     # a list of possible score levels
     stats['score levels'] = np.hstack([
-        np.arange(score_domain[0], score_domain[1], score_domain[2],
-                  dtype=float), score_domain[1]])
+        np.arange(score_domain[0],
+                  score_domain[1] - score_domain[2] / 2,
+                  score_domain[2], dtype=float), score_domain[1]])
 
     # mean absolute error
     mean, stdev = mean_absolute_error(y_true, y_pred)
-- 
2.43.0


From be21fd9985ee754714c1dc74187d023e7045ab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:26 +0000
Subject: [PATCH 08/34] fix: score_histogram accepts a Python int as the number
 of bins

---
 kamrecsys/metrics/real.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index 7b9eeff..9c6599a 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -147,7 +147,7 @@ def score_histogram(x, score_domain=(1, 5, 1)):
 
     # check inputs
     assert_all_finite(x)
-    if isinstance(score_domain, np.integer):
+    if isinstance(score_domain, (int, np.integer)):
         bins = score_domain
     else:
         assert_all_finite(score_domain)
@@ -157,7 +157,7 @@ def score_histogram(x, score_domain=(1, 5, 1)):
     hist, bins = np.histogram(x, bins=bins)
 
     # candidates of possible scores
-    if isinstance(score_domain, np.integer):
+    if isinstance(score_domain, (int, np.integer)):
         scores = (bins[1:] + bins[:-1]) / 2
     else:
         scores = np.hstack(
-- 
2.43.0


From 6857de28dee8feb905b14b59236fbd31ff86acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:28 +0000
Subject: [PATCH 09/34] fix: statistics_mean accepts lists of arguments

---
 kamrecsys/metrics/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kamrecsys/metrics/base.py b/kamrecsys/metrics/base.py
index 3f1c3b6..80bff6f 100644
--- a/kamrecsys/metrics/base.py
+++ b/kamrecsys/metrics/base.py
@@ -93,7 +93,7 @@ def statistics_mean(fun, *arg_list):
             args = [arg[k] for arg in arg_list]
             stats.append(fun(*args))
 
-    elif isinstance(arg_list[0], dict):
+    elif isinstance(arg_list[0], list):
 
         # in a case of list list, collect elements at the same position
         for k in xrange(len(arg_list[0])):
-- 
2.43.0


From 6e676449d85c9f07bf313e33e0d03b2d06bd8ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:52 +0000
Subject: [PATCH 10/34] fix: variance_with_gamma_prior rejects non-finite or
 empty arrays

---
 kamrecsys/metrics/real.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index 9c6599a..98bf13f 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -218,12 +218,13 @@ def variance_with_gamma_prior(
     """
 
     # arrange inputs
+    x = np.asarray(x, dtype=float).ravel()
     if force_all_finite:
-        x = as_float_array(x).ravel()
+        assert_all_finite(x)
     else:
-        x = np.compress(np.isfinite(x), x)
-        if x.size < 1:
-            raise ValueError('Found array with 0 sample.')
+        x = x[np.isfinite(x)]
+    if x.size < 1:
+        raise ValueError('Found array with 0 sample.')
 
     # calc variance
     n = x.size
-- 
2.43.0


From 37394837d9b0b775080a26ee9f2abf81be16619a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:55 +0000
Subject: [PATCH 11/34] fix: dataset loaders accept files of a single line

---
 kamrecsys/datasets/base.py      |  6 ++++--
 kamrecsys/datasets/movielens.py | 16 ++++++++++------
 kamrecsys/datasets/others.py    |  3 ++-
 kamrecsys/datasets/sushi3.py    |  8 +++++---
 4 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/kamrecsys/datasets/base.py b/kamrecsys/datasets/base.py
index 656e128..68fdc1a 100644
--- a/kamrecsys/datasets/base.py
+++ b/kamrecsys/datasets/base.py
@@ -89,7 +89,8 @@ def load_event(infile, n_otypes=2, event_otypes=None, event_dtype=None):
     else:
         dtype = np.dtype([('event', int, s_events),
                           ('event_feature', event_dtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
 
     data = EventData(n_otypes=n_otypes, event_otypes=event_otypes)
     if event_dtype is None:
@@ -141,7 +142,8 @@ def load_event_with_score(
     else:
         dtype = np.dtype([('event', int, s_events), ('score', float),
                           ('event_feature', event_dtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
 
     data = EventWithScoreData(n_otypes=n_otypes, event_otypes=event_otypes)
     if event_dtype is None:
diff --git a/kamrecsys/datasets/movielens.py b/kamrecsys/datasets/movielens.py
index 96725de..75acf27 100644
--- a/kamrecsys/datasets/movielens.py
+++ b/kamrecsys/datasets/movielens.py
@@ -163,7 +163,8 @@ def load_movielens100k(infile=None, event_dtype=event_dtype_timestamp):
     fdtype = np.dtype([('age', int), ('gender', int),
                        ('occupation', int), ('zip', 'U5')])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
     data.set_feature(0, x['eid'], x['feature'])
 
     # load item's feature file
@@ -175,8 +176,9 @@ def load_movielens100k(infile=None, event_dtype=event_dtype_timestamp):
                        ('genre', 'i1', 18),
                        ('imdb', 'U134')])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode})
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
+                      converters={1: np.char.decode}))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
@@ -293,7 +295,8 @@ def load_movielens1m(infile=None, event_dtype=event_dtype_timestamp):
     fdtype = np.dtype([('gender', int), ('age', int),
                        ('occupation', int), ('zip', 'U5')])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
     data.set_feature(0, x['eid'], x['feature'])
 
     # load item's feature file
@@ -302,8 +305,9 @@ def load_movielens1m(infile=None, event_dtype=event_dtype_timestamp):
                        ('year', int),
                        ('genre', 'i1', 18)])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode})
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
+                      converters={1: np.char.decode}))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
diff --git a/kamrecsys/datasets/others.py b/kamrecsys/datasets/others.py
index 3c13766..68fe61f 100644
--- a/kamrecsys/datasets/others.py
+++ b/kamrecsys/datasets/others.py
@@ -78,7 +78,8 @@ def load_pci_sample(infile=None):
     if infile is None:
         infile = os.path.join(SAMPLE_PATH, 'pci.event')
     dtype = np.dtype([('event', 'U18', 2), ('score', float)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
     data = EventWithScoreData(n_otypes=2, event_otypes=np.array([0, 1]))
     data.set_event(x['event'], x['score'], score_domain=(1.0, 5.0, 0.5))
     del x
diff --git a/kamrecsys/datasets/sushi3.py b/kamrecsys/datasets/sushi3.py
index 8bb0d9a..693a4a6 100644
--- a/kamrecsys/datasets/sushi3.py
+++ b/kamrecsys/datasets/sushi3.py
@@ -189,7 +189,8 @@ def load_sushi3b_score(infile=None, event_dtype=None):
         ('current_ew', int),
         ('moved', int)])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
     data.set_feature(0, x['eid'], x['feature'])
 
     # load item's feature file
@@ -204,8 +205,9 @@ def load_sushi3b_score(infile=None, event_dtype=None):
         ('price', float),
         ('supply', float)])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode})
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
+                      converters={1: np.char.decode}))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
-- 
2.43.0


From e3c4363477f321dd4acc65f77241de7634d54649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:57 +0000
Subject: [PATCH 12/34] fix: event loaders keep a column axis for events of a
 single object

---
 kamrecsys/datasets/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kamrecsys/datasets/base.py b/kamrecsys/datasets/base.py
index 68fdc1a..7c85002 100644
--- a/kamrecsys/datasets/base.py
+++ b/kamrecsys/datasets/base.py
@@ -85,9 +85,9 @@ def load_event(infile, n_otypes=2, event_otypes=None, event_dtype=None):
 
     s_events = n_otypes if event_otypes is None else len(event_otypes)
     if event_dtype is None:
-        dtype = np.dtype([('event', int, s_events)])
+        dtype = np.dtype([('event', int, (s_events,))])
     else:
-        dtype = np.dtype([('event', int, s_events),
+        dtype = np.dtype([('event', int, (s_events,)),
                           ('event_feature', event_dtype)])
     x = np.atleast_1d(
         np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
@@ -138,9 +138,9 @@ def load_event_with_score(
 
     s_events = n_otypes if event_otypes is None else len(event_otypes)
     if event_dtype is None:
-        dtype = np.dtype([('event', int, s_events), ('score', float)])
+        dtype = np.dtype([('event', int, (s_events,)), ('score', float)])
     else:
-        dtype = np.dtype([('event', int, s_events), ('score', float),
+        dtype = np.dtype([('event', int, (s_events,)), ('score', float),
                           ('event_feature', event_dtype)])
     x = np.atleast_1d(
         np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
-- 
2.43.0


From 4e41363b1a4165ab601e934a4c45f6b6f4b13aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:44 +0000
Subject: [PATCH 13/34] fix: recommenders do not modify the caller's optimizer
 options

---
 kamrecsys/item_finder/matrix_factorization.py     | 4 ++--
 kamrecsys/score_predictor/matrix_factorization.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index f1e2d48..ea26b98 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -128,7 +128,7 @@ class LogisticPMF(BaseExplicitItemFinder):
         # optimizer parameter
         self.optimizer_kwargs = optimizer_kwargs
         self.optimizer_kwargs['options'] = (
-            self.optimizer_kwargs.get('options', {}))
+            dict(self.optimizer_kwargs.get('options', {})))
         self.optimizer_kwargs['options']['disp'] = (
             self.optimizer_kwargs['options'].get('disp', False))
         opt_maxiter = self.optimizer_kwargs.pop('maxiter', None)
@@ -503,7 +503,7 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
         # optimizer parameter
         self.optimizer_kwargs = optimizer_kwargs
         self.optimizer_kwargs['options'] = (
-            self.optimizer_kwargs.get('options', {}))
+            dict(self.optimizer_kwargs.get('options', {})))
         self.optimizer_kwargs['options']['disp'] = (
             self.optimizer_kwargs['options'].get('disp', False))
         opt_maxiter = self.optimizer_kwargs.pop('maxiter', None)
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index 782474a..88f980e 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -117,7 +117,7 @@ class PMF(BaseScorePredictor):
         # optimizer parameter
         self.optimizer_kwargs = optimizer_kwargs
         self.optimizer_kwargs['options'] = (
-            self.optimizer_kwargs.get('options', {}))
+            dict(self.optimizer_kwargs.get('options', {})))
         self.optimizer_kwargs['options']['disp'] = (
             self.optimizer_kwargs['options'].get('disp', False))
         opt_maxiter = self.optimizer_kwargs.pop('maxiter', None)
-- 
2.43.0


From 29244eb853d359090afd211a04a69b7c73a669fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:11 +0000
Subject: [PATCH 14/34] fix: to_eid rejects negative internal ids

---
 kamrecsys/data/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kamrecsys/data/base.py b/kamrecsys/data/base.py
index 85be1d9..13927e2 100644
--- a/kamrecsys/data/base.py
+++ b/kamrecsys/data/base.py
@@ -89,6 +89,8 @@ class ObjectUtilMixin(object):
         ValueError
             an internal id is out of range
         """
+        if np.any(np.asarray(iid) < 0):
+            raise ValueError("Illegal internal id")
         try:
             return self.eid[otype][iid]
         except IndexError:
-- 
2.43.0


From 7865e16179fa86e0e37824b3a069a18801c5e136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:14 +0000
Subject: [PATCH 15/34] fix: json_decodable keeps numpy booleans as booleans

---
 kamrecsys/utils/kamexputils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kamrecsys/utils/kamexputils.py b/kamrecsys/utils/kamexputils.py
index c49553d..dbe06c6 100644
--- a/kamrecsys/utils/kamexputils.py
+++ b/kamrecsys/utils/kamexputils.py
@@ -72,6 +72,8 @@ def json_decodable(x):
             elif issparse(v):
                 x[k] = v.toarray().tolist()
                 json_decodable(x[k])
+            elif isinstance(v, np.bool_):
+                x[k] = bool(v)
             elif isinstance(v, np.integer):
                 x[k] = int(v)
             elif isinstance(v, np.floating):
@@ -90,6 +92,8 @@ def json_decodable(x):
             elif issparse(v):
                 x[k] = v.toarray().tolist()
                 json_decodable(x[k])
+            elif isinstance(v, np.bool_):
+                x[k] = bool(v)
             elif isinstance(v, np.integer):
                 x[k] = int(v)
             elif isinstance(v, np.floating):
-- 
2.43.0


From 7362c78d76b8a9164b3a6c4b4089f8c7e9f40570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:55 +0000
Subject: [PATCH 16/34] fix: scripts load json results on Python 3.9 and later

---
 scripts/exp_recsys_fold_merge.py | 4 ++--
 scripts/stats_recsys.py          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/exp_recsys_fold_merge.py b/scripts/exp_recsys_fold_merge.py
index 9af0720..a580a72 100644
--- a/scripts/exp_recsys_fold_merge.py
+++ b/scripts/exp_recsys_fold_merge.py
@@ -90,7 +90,7 @@ def first_fold(fp):
     """
 
     # load json file of the target fold
-    cv_info = json.load(fp, encoding='utf-8')
+    cv_info = json.load(fp)
 
     # add container of merged information
     cv_info['condition']['merged'] = True
@@ -121,7 +121,7 @@ def rest_fold(fp, cv_info):
     """
 
     # load json file of the target fold
-    info = json.load(fp, encoding='utf-8')
+    info = json.load(fp)
 
     # get fold number
     fold = next(iter(info['training']['results']))
diff --git a/scripts/stats_recsys.py b/scripts/stats_recsys.py
index d588a1e..8e2eb31 100644
--- a/scripts/stats_recsys.py
+++ b/scripts/stats_recsys.py
@@ -102,7 +102,7 @@ def do_task(opt):
     np.seterr(all='ignore')
 
     # load data
-    info = json.load(opt.infile, encoding='utf-8')
+    info = json.load(opt.infile)
 
     # merge multi-fold data
     if isinstance(info['prediction']['event'], dict):
-- 
2.43.0


From 984a87a1985808768db5fe5a4a6555de567771af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:57 +0000
Subject: [PATCH 17/34] fix: record the end time of a test, not its start time

---
 scripts/exp_recsys_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/exp_recsys_util.py b/scripts/exp_recsys_util.py
index 101a426..ae79374 100644
--- a/scripts/exp_recsys_util.py
+++ b/scripts/exp_recsys_util.py
@@ -134,7 +134,7 @@ def testing(rec, ev):
     # set end and elapsed time
     end_time = datetime.datetime.now()
     end_utime = os.times()[0]
-    res_info['end_time'] = start_time.isoformat()
+    res_info['end_time'] = end_time.isoformat()
     res_info['elapsed_time'] = end_time - start_time
     res_info['elapsed_utime'] = end_utime - start_utime
     logger.info("test_end_time = " + res_info['end_time'])
-- 
2.43.0


From a8661ea9644a604236958a4784e81f4829798fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:59 +0000
Subject: [PATCH 18/34] fix: record the test file, not the training file, in a
 hold-out test

---
 scripts/exp_recsys_util.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scripts/exp_recsys_util.py b/scripts/exp_recsys_util.py
index ae79374..3cf12d1 100644
--- a/scripts/exp_recsys_util.py
+++ b/scripts/exp_recsys_util.py
@@ -175,7 +175,6 @@ def holdout_test(info, load_data):
     info['training']['n_items'] = (
         train_data.n_objects[train_data.event_otypes[1]])
 
-    info['test']['file'] = info['training']['file']
     info['test']['n_events'] = test_data.n_events
     info['test']['n_users'] = (
         test_data.n_objects[test_data.event_otypes[0]])
-- 
2.43.0


From 9b3a94c87195f2c1e112e977149bf90cddc3b33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:01 +0000
Subject: [PATCH 19/34] fix: predictions of a single test event are recorded as
 a list

---
 scripts/exp_recsys_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/exp_recsys_util.py b/scripts/exp_recsys_util.py
index 3cf12d1..61d71b8 100644
--- a/scripts/exp_recsys_util.py
+++ b/scripts/exp_recsys_util.py
@@ -129,7 +129,7 @@ def testing(rec, ev):
     logger.info("test_start_time = " + res_info['start_time'])
 
     # prediction
-    esc = rec.predict(ev)
+    esc = np.atleast_1d(rec.predict(ev))
 
     # set end and elapsed time
     end_time = datetime.datetime.now()
-- 
2.43.0


From 6d2f8c84c8f6eaefa969ccf50a89cf5bc1a6f4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:41 +0000
Subject: [PATCH 20/34] fix: report iterations, loss and status of pLSA at its
 iteration limit

---
 kamrecsys/score_predictor/topic_model.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/kamrecsys/score_predictor/topic_model.py b/kamrecsys/score_predictor/topic_model.py
index 08307b7..9d80817 100644
--- a/kamrecsys/score_predictor/topic_model.py
+++ b/kamrecsys/score_predictor/topic_model.py
@@ -260,9 +260,11 @@ class MultinomialPLSA(BaseScorePredictor):
         tol = self.optimizer_kwargs['tol']
 
         # main loop
-        iter_no = 0
-        cur_loss = np.inf
+        n_iterations = 0
+        cur_loss = pre_loss
+
         for iter_no in xrange(maxiter):
+            n_iterations += 1
 
             # E-Step
 
@@ -287,19 +289,18 @@ class MultinomialPLSA(BaseScorePredictor):
                     " {:.15g}".format(precision))
                 break
             pre_loss = cur_loss
-
-        if iter_no >= maxiter - 1:
+        else:
             self.fit_results_['status'] = 2
             logger.warning(
                 "Exceeded the maximum number of iterations: {:d}".format(
                     maxiter))
 
         logger.info("final: {:.15g}".format(cur_loss))
-        logger.info("nos of iterations: {:d}".format(iter_no + 1))
+        logger.info("nos of iterations: {:d}".format(n_iterations))
 
         # store fitting results
         self.fit_results_['final_loss'] = cur_loss
-        self.fit_results_['n_iterations'] = iter_no + 1
+        self.fit_results_['n_iterations'] = n_iterations
         self.fit_results_['n_users'] = n_objects[0]
         self.fit_results_['n_items'] = n_objects[1]
         self.fit_results_['n_events'] = self.n_events
-- 
2.43.0


From 1f5c314650e613d6c9d3d6ec1ea86efd3fbc2eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:26 +0000
Subject: [PATCH 21/34] fix: set_event does not leave or overwrite tables of
 previous events

---
 kamrecsys/data/event.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index 38601d1..a1366d5 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -205,6 +205,12 @@ class EventData(BaseData, EventUtilMixin):
         event_feature : optional, array_like, shape=(n_events, variable)
             feature of events
         """
+        # tables are newly allocated, because they are shared with recommenders
+        # and features of the previous objects are no longer valid
+        self.n_objects = np.zeros(self.n_otypes, dtype=int)
+        self.eid = np.tile(None, self.n_otypes)
+        self.iid = np.tile(None, self.n_otypes)
+        self.feature = np.tile(None, self.n_otypes)
         for otype in xrange(self.n_otypes):
             self.n_objects[otype], self.eid[otype], self.iid[otype] = (
                 self._gen_id(event[:, self.event_otypes == otype]))
-- 
2.43.0


From 20ee41925fda0d88f5dd5f8d5f63e74b39c0936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:38 +0000
Subject: [PATCH 22/34] fix: to_iid_event accepts one missing value for all
 columns

---
 kamrecsys/data/event.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index a1366d5..6795f77 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -101,6 +101,7 @@ class EventUtilMixin(with_metaclass(ABCMeta, object)):
         """
         if missing_values is None:
             missing_values = [len(self.eid[o]) for o in self.event_otypes]
+        missing_values = np.broadcast_to(missing_values, (self.s_event,))
         if ev.ndim == 1 and ev.shape[0] == self.s_event:
             new_ev = np.array(
                 [self.iid[self.event_otypes[e]].get(ev[e], missing_values[e])
-- 
2.43.0


From 49d9c150aa72dfca24ee6db8dd977b26a002a43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:49 +0000
Subject: [PATCH 23/34] fix: load non-ASCII item names of MovieLens and SUSHI3
 data

genfromtxt opens a file given by its name in a text mode, and so byte
converters failed to decode non-ASCII names, which silently became '???'.
---
 kamrecsys/datasets/movielens.py | 4 ++--
 kamrecsys/datasets/sushi3.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/datasets/movielens.py b/kamrecsys/datasets/movielens.py
index 75acf27..b73d013 100644
--- a/kamrecsys/datasets/movielens.py
+++ b/kamrecsys/datasets/movielens.py
@@ -178,7 +178,7 @@ def load_movielens100k(infile=None, event_dtype=event_dtype_timestamp):
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
     x = np.atleast_1d(
         np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode}))
+                      encoding='utf-8'))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
@@ -307,7 +307,7 @@ def load_movielens1m(infile=None, event_dtype=event_dtype_timestamp):
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
     x = np.atleast_1d(
         np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode}))
+                      encoding='utf-8'))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
diff --git a/kamrecsys/datasets/sushi3.py b/kamrecsys/datasets/sushi3.py
index 693a4a6..a5d62ed 100644
--- a/kamrecsys/datasets/sushi3.py
+++ b/kamrecsys/datasets/sushi3.py
@@ -207,7 +207,7 @@ def load_sushi3b_score(infile=None, event_dtype=None):
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
     x = np.atleast_1d(
         np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode}))
+                      encoding='utf-8'))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
-- 
2.43.0


From 929dc063bfe9af14f84a5cd44bb5dd9c65e84ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:38 +0000
Subject: [PATCH 24/34] fix: fit matrix factorization models to data of a
 single user or item

A field of a structured dtype whose shape is the integer 1 is a scalar, and so
bias terms could not be assigned.
---
 kamrecsys/item_finder/matrix_factorization.py     | 8 ++++----
 kamrecsys/score_predictor/matrix_factorization.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index ea26b98..fa63bc9 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -172,8 +172,8 @@ class LogisticPMF(BaseExplicitItemFinder):
         # define dtype for parameters
         self._dt = np.dtype([
             ('mu', float, (1,)),
-            ('bu', float, n_users),
-            ('bi', float, n_items),
+            ('bu', float, (n_users,)),
+            ('bi', float, (n_items,)),
             ('p', float, (n_users, k)),
             ('q', float, (n_items, k))
         ])
@@ -545,8 +545,8 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
         # define dtype for parameters
         self._dt = np.dtype([
             ('mu', float, (1,)),
-            ('bu', float, n_users),
-            ('bi', float, n_items),
+            ('bu', float, (n_users,)),
+            ('bi', float, (n_items,)),
             ('p', float, (n_users, k)),
             ('q', float, (n_items, k))
         ])
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index 88f980e..ab35b4d 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -161,8 +161,8 @@ class PMF(BaseScorePredictor):
         # define dtype for parameters
         self._dt = np.dtype([
             ('mu', float, (1,)),
-            ('bu', float, n_users),
-            ('bi', float, n_items),
+            ('bu', float, (n_users,)),
+            ('bi', float, (n_items,)),
             ('p', float, (n_users, k)),
             ('q', float, (n_items, k))
         ])
-- 
2.43.0


From de4c5ff8f3f79f76b7099e94f0975e3417acfcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:22 +0000
Subject: [PATCH 25/34] fix: fit with optimizers that do not report the number
 of gradient calls

---
 kamrecsys/item_finder/matrix_factorization.py     | 4 ++--
 kamrecsys/score_predictor/matrix_factorization.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index fa63bc9..30fbe8f 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -383,7 +383,7 @@ class LogisticPMF(BaseExplicitItemFinder):
         self.fit_results_['final_loss'] = res.fun
         self.fit_results_['n_iterations'] = res.nit
         self.fit_results_['func_calls'] = res.nfev
-        self.fit_results_['grad_calls'] = res.njev
+        self.fit_results_['grad_calls'] = res.get('njev')
         self.fit_results_['optimizer_method'] = optimizer_method
         self.fit_results_['optimizer_kwargs'] = optimizer_kwargs
 
@@ -739,7 +739,7 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
         self.fit_results_['final_loss'] = res.fun
         self.fit_results_['n_iterations'] = res.nit
         self.fit_results_['func_calls'] = res.nfev
-        self.fit_results_['grad_calls'] = res.njev
+        self.fit_results_['grad_calls'] = res.get('njev')
         self.fit_results_['optimizer_method'] = optimizer_method
         self.fit_results_['optimizer_kwargs'] = optimizer_kwargs
 
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index ab35b4d..f14e6b1 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -375,7 +375,7 @@ class PMF(BaseScorePredictor):
         self.fit_results_['final_loss'] = res.fun
         self.fit_results_['n_iterations'] = res.nit
         self.fit_results_['func_calls'] = res.nfev
-        self.fit_results_['grad_calls'] = res.njev
+        self.fit_results_['grad_calls'] = res.get('njev')
         self.fit_results_['optimizer_method'] = optimizer_method
         self.fit_results_['optimizer_kwargs'] = optimizer_kwargs
 
-- 
2.43.0


From 5af7b8a687ead00b32469b9020aa7ee295c03028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:08 +0000
Subject: [PATCH 26/34] fix: explicit item finders reject data without scores
 with TypeError

---
 kamrecsys/item_finder/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/item_finder/base.py b/kamrecsys/item_finder/base.py
index 7dee1c7..e8b3b5f 100644
--- a/kamrecsys/item_finder/base.py
+++ b/kamrecsys/item_finder/base.py
@@ -120,6 +120,9 @@ class BaseExplicitItemFinder(
         """
         super(BaseExplicitItemFinder, self).fit(data, event_index)
 
+        # set object information in data
+        self._set_score_info(data)
+
         # check whether scores are binary
         if (
                 (not np.array_equal(data.score_domain, [0, 1, 1])) or
@@ -127,9 +130,6 @@ class BaseExplicitItemFinder(
                 (data.n_score_levels != 2)):
             raise ValueError('Scores are not binary type')
 
-        # set object information in data
-        self._set_score_info(data)
-
 
 class BaseImplicitItemFinder(with_metaclass(ABCMeta, BaseEventRecommender)):
     """
-- 
2.43.0


From cd4869bca4e4d5c576d01942a863dafb54072106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:49 +0000
Subject: [PATCH 27/34] fix: display reports of scores in single precision or
 booleans

---
 kamrecsys/metrics/item_finder.py     | 4 ++--
 kamrecsys/metrics/score_predictor.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/kamrecsys/metrics/item_finder.py b/kamrecsys/metrics/item_finder.py
index cb2feaa..c5e4ef4 100644
--- a/kamrecsys/metrics/item_finder.py
+++ b/kamrecsys/metrics/item_finder.py
@@ -79,9 +79,9 @@ def item_finder_report(y_true, y_pred, disp=True):
     assert_all_finite(y_true)
     if not is_binary_score(y_true):
         raise ValueError('True scores must be binary')
-    y_true = as_float_array(y_true)
+    y_true = np.array(y_true, dtype=float)
     assert_all_finite(y_pred)
-    y_pred = as_float_array(y_pred)
+    y_pred = np.array(y_pred, dtype=float)
     check_consistent_length(y_true, y_pred)
 
     # calc statistics
diff --git a/kamrecsys/metrics/score_predictor.py b/kamrecsys/metrics/score_predictor.py
index cbfd160..024c700 100644
--- a/kamrecsys/metrics/score_predictor.py
+++ b/kamrecsys/metrics/score_predictor.py
@@ -77,9 +77,9 @@ def score_predictor_report(y_true, y_pred, disp=True):
 
     # check inputs
     assert_all_finite(y_true)
-    y_true = as_float_array(y_true)
+    y_true = np.array(y_true, dtype=float)
     assert_all_finite(y_pred)
-    y_pred = as_float_array(y_pred)
+    y_pred = np.array(y_pred, dtype=float)
     check_consistent_length(y_true, y_pred)
 
     # calc statistics
-- 
2.43.0


From 9d9d985ec8823677516a87a95a5e6b46d62a2c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:40 +0000
Subject: [PATCH 28/34] fix: json_decodable converts dictionary-of-keys sparse
 matrices

---
 kamrecsys/utils/kamexputils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/utils/kamexputils.py b/kamrecsys/utils/kamexputils.py
index dbe06c6..86a36e3 100644
--- a/kamrecsys/utils/kamexputils.py
+++ b/kamrecsys/utils/kamexputils.py
@@ -64,7 +64,7 @@ def json_decodable(x):
 
     if isinstance(x, dict):
         for k, v in x.items():
-            if isinstance(v, (dict, list)):
+            if isinstance(v, (dict, list)) and not issparse(v):
                 json_decodable(v)
             elif isinstance(v, np.ndarray):
                 x[k] = v.tolist()
@@ -84,7 +84,7 @@ def json_decodable(x):
                 x[k] = str(v)
     elif isinstance(x, list):
         for k, v in enumerate(x):
-            if isinstance(v, (dict, list)):
+            if isinstance(v, (dict, list)) and not issparse(v):
                 json_decodable(v)
             elif isinstance(v, np.ndarray):
                 x[k] = v.tolist()
-- 
2.43.0


From a697d7191e1c34ac9315a8da14ca46509b6546ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:18:23 +0000
Subject: [PATCH 29/34] fix: fit with optimizers that do not report the number
 of iterations

---
 kamrecsys/item_finder/matrix_factorization.py     | 4 ++--
 kamrecsys/score_predictor/matrix_factorization.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index 30fbe8f..ff16f4a 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -381,7 +381,7 @@ class LogisticPMF(BaseExplicitItemFinder):
         self.fit_results_['status'] = res.status
         self.fit_results_['message'] = res.message
         self.fit_results_['final_loss'] = res.fun
-        self.fit_results_['n_iterations'] = res.nit
+        self.fit_results_['n_iterations'] = res.get('nit')
         self.fit_results_['func_calls'] = res.nfev
         self.fit_results_['grad_calls'] = res.get('njev')
         self.fit_results_['optimizer_method'] = optimizer_method
@@ -737,7 +737,7 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
         self.fit_results_['status'] = res.status
         self.fit_results_['message'] = res.message
         self.fit_results_['final_loss'] = res.fun
-        self.fit_results_['n_iterations'] = res.nit
+        self.fit_results_['n_iterations'] = res.get('nit')
         self.fit_results_['func_calls'] = res.nfev
         self.fit_results_['grad_calls'] = res.get('njev')
         self.fit_results_['optimizer_method'] = optimizer_method
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index f14e6b1..9b6e567 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -373,7 +373,7 @@ class PMF(BaseScorePredictor):
         self.fit_results_['status'] = res.status
         self.fit_results_['message'] = res.message
         self.fit_results_['final_loss'] = res.fun
-        self.fit_results_['n_iterations'] = res.nit
+        self.fit_results_['n_iterations'] = res.get('nit')
         self.fit_results_['func_calls'] = res.nfev
         self.fit_results_['grad_calls'] = res.get('njev')
         self.fit_results_['optimizer_method'] = optimizer_method
-- 
2.43.0


From 10a953961c67f25bbff025da12602de42013a808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:40:03 +0000
Subject: [PATCH 30/34] fix: json_decodable converts zero-dimensional arrays of
 objects and dates

---
 kamrecsys/utils/kamexputils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kamrecsys/utils/kamexputils.py b/kamrecsys/utils/kamexputils.py
index 86a36e3..7985e10 100644
--- a/kamrecsys/utils/kamexputils.py
+++ b/kamrecsys/utils/kamexputils.py
@@ -64,6 +64,8 @@ def json_decodable(x):
 
     if isinstance(x, dict):
         for k, v in x.items():
+            if isinstance(v, np.ndarray) and v.ndim == 0:
+                x[k] = v = v.item()
             if isinstance(v, (dict, list)) and not issparse(v):
                 json_decodable(v)
             elif isinstance(v, np.ndarray):
@@ -84,6 +86,8 @@ def json_decodable(x):
                 x[k] = str(v)
     elif isinstance(x, list):
         for k, v in enumerate(x):
+            if isinstance(v, np.ndarray) and v.ndim == 0:
+                x[k] = v = v.item()
             if isinstance(v, (dict, list)) and not issparse(v):
                 json_decodable(v)
             elif isinstance(v, np.ndarray):
-- 
2.43.0


From 9a1db9962721f5f3843facf8ebe620328de14d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:20:26 +0000
Subject: [PATCH 31/34] fix: containers keep their own copy of the score domain

---
 kamrecsys/data/event_with_score.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kamrecsys/data/event_with_score.py b/kamrecsys/data/event_with_score.py
index 91ff510..ced58d7 100644
--- a/kamrecsys/data/event_with_score.py
+++ b/kamrecsys/data/event_with_score.py
@@ -153,7 +153,7 @@ class EventWithScoreData(EventData, ScoreUtilMixin):
                 np.min(self.score),
                 np.max(self.score),
                 np.min(np.diff(np.unique(self.score)))]
-        self.score_domain = np.asanyarray(score_domain)
+        self.score_domain = np.array(score_domain)
         self.n_score_levels = self.generate_score_bins().shape[0] - 1
 
     def digitize_score(self, score=None):
-- 
2.43.0


From 9424b9e4d7677589667c316888c5599d04a0a0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:20:28 +0000
Subject: [PATCH 32/34] fix: recommenders keep their own copy of event_index

---
 kamrecsys/base/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index c1d2143..8ee49a7 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -209,7 +209,7 @@ class BaseEventRecommender(
         if event_index is None:
             self.event_index = np.arange(self.s_event, dtype=int)
         else:
-            self.event_index = np.asanyarray(event_index, dtype=int)
+            self.event_index = np.array(event_index, dtype=int)
 
         # select information about events used for training
         self.event = self.event.take(self.event_index, axis=1)
-- 
2.43.0


From 97b99f2bb485b2e15a5c1a9b926e16662a93aeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:53:40 +0000
Subject: [PATCH 33/34] fix: score domains of narrow integer and bool scores

---
 kamrecsys/data/event_with_score.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/data/event_with_score.py b/kamrecsys/data/event_with_score.py
index ced58d7..c574f6d 100644
--- a/kamrecsys/data/event_with_score.py
+++ b/kamrecsys/data/event_with_score.py
@@ -152,8 +152,8 @@ class EventWithScoreData(EventData, ScoreUtilMixin):
             score_domain = [
                 np.min(self.score),
                 np.max(self.score),
-                np.min(np.diff(np.unique(self.score)))]
-        self.score_domain = np.array(score_domain)
+                np.min(np.diff(np.unique(self.score).astype(float)))]
+        self.score_domain = np.array(score_domain, dtype=float)
         self.n_score_levels = self.generate_score_bins().shape[0] - 1
 
     def digitize_score(self, score=None):
-- 
2.43.0


From b573f146c58d1f9ecd1d17e55a52082370a1b81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:10:47 +0000
Subject: [PATCH 34/34] fix: start training from means in double precision

---
 kamrecsys/item_finder/matrix_factorization.py     | 1 +
 kamrecsys/score_predictor/matrix_factorization.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index ff16f4a..01e1d4e 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -190,6 +190,7 @@ class LogisticPMF(BaseExplicitItemFinder):
         self.q_ = self._coef.view(self._dt)['q'][0]
 
         # set bias term
+        sc = np.asarray(sc, dtype=float)
         self.mu_[0] = np.sum(sc) / n_events
         for i in xrange(n_users):
             j = np.nonzero(ev[:, 0] == i)[0]
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index 9b6e567..d707ebc 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -179,6 +179,7 @@ class PMF(BaseScorePredictor):
         self.q_ = self._coef.view(self._dt)['q'][0]
 
         # set bias term
+        sc = np.asarray(sc, dtype=float)
         self.mu_[0] = np.sum(sc) / n_events
         for i in xrange(n_users):
             j = np.nonzero(ev[:, 0] == i)[0]
-- 
2.43.0

