From bf899fcdc2e0a6f8f30cc0244b51e76e07dfa6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:02 +0000
Subject: [PATCH 01/86] fix: intersection of two frames with the same end
 includes it only if both do

---
 nilmtk/timeframe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index 08e1035..c978ccc 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -162,7 +162,9 @@ class TimeFrame(object):
                 end = min(self.end, other.end)
 
             # set include_end
-            if end == other.end:
+            if self.end == other.end:
+                include_end = self.include_end and other.include_end
+            elif end == other.end:
                 include_end = other.include_end
             elif end == self.end:
                 include_end = self.include_end
-- 
2.43.0


From 2c1ea72ca348a39b5e8a668a8657e5d63c548468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:02 +0000
Subject: [PATCH 02/86] fix: TimeFrame.slice handles empty and open-ended
 frames

---
 nilmtk/timeframe.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index c978ccc..5b83ec4 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -204,13 +204,18 @@ class TimeFrame(object):
         -------
         frame : sliced frame
         """
-        if not self.empty:
-            if self.include_end:
-                sliced = frame[(frame.index >= self.start) &
-                               (frame.index <= self.end)]
-            else:
-                sliced = frame[(frame.index >= self.start) &
-                               (frame.index < self.end)]
+        if self.empty:
+            sliced = frame.iloc[:0]
+        else:
+            sliced = frame
+            if self.start is not None:
+                sliced = sliced[sliced.index >= self.start]
+            if self.end is not None and self.include_end:
+                sliced = sliced[sliced.index <= self.end]
+            elif self.end is not None:
+                sliced = sliced[sliced.index < self.end]
+            if sliced is frame:
+                sliced = frame.copy()
         sliced.timeframe = self
         return sliced
 
-- 
2.43.0


From 755651d62c02d7dda694966601848dc21201db3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:01 +0000
Subject: [PATCH 03/86] fix: TimeFrame.union handles empty and open-ended
 frames and keeps an inclusive end

---
 nilmtk/timeframe.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index 5b83ec4..1076492 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -120,9 +120,17 @@ class TimeFrame(object):
 
     def union(self, other):
         """Return a single TimeFrame combining self and other."""
-        start = min(self.start, other.start)
-        end = max(self.end, other.end)
-        return TimeFrame(start, end)
+        if self.empty or other.empty:
+            return deepcopy(other if self.empty else self)
+        start = end = None
+        if self.start is not None and other.start is not None:
+            start = min(self.start, other.start)
+        if self.end is not None and other.end is not None:
+            end = max(self.end, other.end)
+        union = TimeFrame(start, end)
+        union.include_end = any(tf.include_end for tf in (self, other)
+                                if tf.end == end)
+        return union
 
     @property
     def timedelta(self):
-- 
2.43.0


From 7e0e6812938a466eed0fc6f9b7d45bc855b092ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:01 +0000
Subject: [PATCH 04/86] fix: TimeFrame.split refuses open-ended frames and
 keeps an inclusive end

---
 nilmtk/timeframe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index 1076492..e1918f3 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -288,7 +288,7 @@ class TimeFrame(object):
         -------
         generator of new TimeFrame objects
         """
-        if not self:
+        if self.start is None or self.end is None:
             raise ValueError("Cannot split a TimeFrame if `start` or `end`"
                              " is None")
 
@@ -306,6 +306,7 @@ class TimeFrame(object):
             else:
                 yield TimeFrame(start=timeframe.start, end=allowed_end)
                 timeframe = TimeFrame(start=allowed_end, end=timeframe.end)
+                timeframe.include_end = self.include_end
 
 
 def split_timeframes(timeframes, duration_threshold):
-- 
2.43.0


From 58098cfce1d5c69da1c399dde78adba91bef706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:01 +0000
Subject: [PATCH 05/86] fix: ordering of two TimeFrames without a start raised
 TypeError

---
 nilmtk/timeframe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index e1918f3..6e65415 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -243,10 +243,10 @@ class TimeFrame(object):
                 (other.empty == self.empty))
 
     def __lt__(self, other):
-        if self.start is None and other.start is not None:
-            return True
-        if other.start is None and self.start is not None:
+        if other.start is None:
             return False
+        if self.start is None:
+            return True
         return self.start < other.start
 
     def __hash__(self):
-- 
2.43.0


From c604a14a6e6502e4e67bbf878d2171fe7363152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 06/86] fix: MeterGroup.load did not skip empty sections on
 Python 3

---
 nilmtk/metergroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 9ba367c..2cd59b3 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -704,7 +704,7 @@ class MeterGroup(Electric):
         verbose = kwargs.get('verbose')
 
         # Check for empty sections
-        sections = [section for section in sections if section]
+        sections = [section for section in sections if not section.empty]
         if not sections:
             print("No sections to load.")
             yield pd.DataFrame(columns=columns)
-- 
2.43.0


From f184b783e5616ae5ad8ec04690c59130bd84f85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 07/86] fix: HDFDataStore could not load a section or window on
 Python 3.12

---
 nilmtk/datastore/hdfdatastore.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 8a5aef2..d73b44b 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -81,7 +81,7 @@ class HDFDataStore(DataStore):
                     continue
             else:
                 try:
-                    coords = self.store.select_as_coordinates(key=key, where=terms)
+                    coords = self.store.select_as_coordinates(key=key, where=' & '.join(terms))
                 except AttributeError as e:
                     if str(e) == ("'NoneType' object has no attribute "
                                   "'read_coordinates'"):
@@ -292,7 +292,7 @@ class HDFDataStore(DataStore):
             nrows = 0
         elif timeframe_intersect:
             terms = timeframe_intersect.query_terms('timeframe_intersect')
-            coords = self.store.select_as_coordinates(key, terms)
+            coords = self.store.select_as_coordinates(key, terms and ' & '.join(terms))
             nrows = len(coords)
         else:
             storer = self._get_storer(key)
-- 
2.43.0


From 16f5926bdd240aad149a2354b9b8ed4b3311b143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:44 +0000
Subject: [PATCH 08/86] fix: np.NaN no longer exists in NumPy 2

---
 nilmtk/electric.py          | 8 ++++----
 nilmtk/metergroup.py        | 8 ++++----
 nilmtk/metrics.py           | 2 +-
 nilmtk/stats/dropoutrate.py | 2 +-
 nilmtk/utils.py             | 4 ++--
 5 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 1406120..b66eff4 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -258,7 +258,7 @@ class Electric(object):
         else:
             td = self.get_timeframe().timedelta
         if not td:
-            return np.NaN
+            return np.nan
         uptime_secs = td.total_seconds()
         periods = uptime_secs / offset_alias_to_seconds(offset_alias)
         energy = self.total_energy(**load_kwargs)
@@ -285,7 +285,7 @@ class Electric(object):
         # TODO test effect of setting `sections` for other
         other_total_energy = other.total_energy(**loader_kwargs)
         if other_total_energy.sum() == 0:
-            return np.NaN
+            return np.nan
 
         total_energy = self.total_energy(**loader_kwargs)
         if total_energy.empty:
@@ -336,11 +336,11 @@ class Electric(object):
 
         x_n, x_sum = sum_and_count(self)
         if x_n <= 1:
-            return np.NaN
+            return np.nan
 
         y_n, y_sum = sum_and_count(other)
         if y_n <= 1:
-            return np.NaN
+            return np.nan
 
         x_bar = x_sum / x_n 
         y_bar = y_sum / y_n
diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 2cd59b3..adcc2a8 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1093,7 +1093,7 @@ class MeterGroup(Electric):
                 print("   {:.2%}".format(prop))
         
         if all_nan:
-            proportion = np.NaN
+            proportion = np.nan
         return proportion
 
     def available_ac_types(self, physical_quantity):
@@ -1718,7 +1718,7 @@ class MeterGroup(Electric):
             series['proportion_uptime'] = (mains_uptime.total_seconds() /
                                            timeframe.timedelta.total_seconds())
         except ZeroDivisionError:
-            series['proportion_uptime'] = np.NaN
+            series['proportion_uptime'] = np.nan
         series['average_mains_energy_per_day'] = self.mains().average_energy_per_period()
 
         return series
@@ -1787,7 +1787,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
     # See http://stackoverflow.com/a/27526721/732596
 
     DTYPE = np.float32
-    cumulator = pd.DataFrame(np.NaN, index=index, columns=columns, dtype=DTYPE)
+    cumulator = pd.DataFrame(np.nan, index=index, columns=columns, dtype=DTYPE)
     cumulator_arr = cumulator.values
     columns_to_average_counter = pd.DataFrame(dtype=np.uint16)
     timeframe = None
@@ -1827,7 +1827,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
             where_both_are_nan = np.isnan(cumulator_col) & np.isnan(aligned)
             np.nansum([cumulator_col, aligned], axis=0, out=cumulator_col, 
                       dtype=DTYPE)
-            cumulator_col[where_both_are_nan] = np.NaN
+            cumulator_col[where_both_are_nan] = np.nan
             del aligned
             del where_both_are_nan
             gc.collect()
diff --git a/nilmtk/metrics.py b/nilmtk/metrics.py
index b2467c1..9e9e5ae 100644
--- a/nilmtk/metrics.py
+++ b/nilmtk/metrics.py
@@ -240,7 +240,7 @@ def f1_score(predictions, ground_truth):
             warn("No aligned samples when calculating F1-score for prediction"
                  " meter {} and ground truth meter {}."
                  .format(pred_meter, ground_truth_meter))
-            avg_score = np.NaN
+            avg_score = np.nan
         f1_scores[pred_meter.instance()] = avg_score
 
     return pd.Series(f1_scores)
diff --git a/nilmtk/stats/dropoutrate.py b/nilmtk/stats/dropoutrate.py
index 817f456..02c1593 100644
--- a/nilmtk/stats/dropoutrate.py
+++ b/nilmtk/stats/dropoutrate.py
@@ -39,7 +39,7 @@ def get_dropout_rate(data, sample_period):
     """
     MIN_N_SAMPLES = 5
     if len(data) < MIN_N_SAMPLES:
-        return np.NaN
+        return np.nan
 
     index = get_index(data)
     assert(index[-1] > index[0])
diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index d481f53..e2cf081 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -334,7 +334,7 @@ def normalise_timestamp(timestamp, freq):
     in the set of timestamps returned by pd.DataFrame.resample(freq=freq)
     """
     timestamp = pd.Timestamp(timestamp)
-    series = pd.Series(np.NaN, index=[timestamp])
+    series = pd.Series(np.nan, index=[timestamp])
     resampled = series.resample(freq).mean()
     return resampled.index[0]
 
@@ -434,7 +434,7 @@ def compute_rmse(ground_truth, predictions, pretty=True):
         if not df_app.empty:
             app_rms_error = np.sqrt(mean_squared_error(df_app['gt'], df_app['pr']))
         else:
-            app_rms_error = np.NaN
+            app_rms_error = np.nan
 
         if pretty:
             app_counts[app_label] += 1
-- 
2.43.0


From 1a8062015e4565dbe3d273b69afdf472cb2795be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:54 +0000
Subject: [PATCH 09/86] fix: HDFDataStore.load lost sections of a single row
 and failed on some chunk sizes

---
 nilmtk/datastore/hdfdatastore.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index d73b44b..6019a5c 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -73,8 +73,8 @@ class HDFDataStore(DataStore):
             terms = window_intersect.query_terms('window_intersect')
             if terms is None:
                 section_start_i = 0
-                section_end_i = self.store.get_storer(key).nrows
-                if section_end_i <= 1:
+                section_end_i = self.store.get_storer(key).nrows - 1
+                if section_end_i < 0:
                     data = pd.DataFrame()
                     data.timeframe = section
                     yield data
@@ -99,7 +99,10 @@ class HDFDataStore(DataStore):
                 section_end_i   = coords[-1]
                 del coords
 
-            slice_starts = range(section_start_i, section_end_i, chunksize)
+            # a section of a single row still needs one chunk
+            slice_starts = range(section_start_i,
+                                 max(section_end_i, section_start_i + 1),
+                                 chunksize)
             n_chunks = int(np.ceil((section_end_i - section_start_i) / chunksize))
 
             if n_chunks > 1:
@@ -334,9 +337,10 @@ def _timeframe_for_chunk(there_are_more_subchunks, chunk_i, window_intersect, in
         start = window_intersect.start
         end = window_intersect.end
 
-    if start is None:
+    # (a single row may leave one side of the timeframe open)
+    if start is None and (end is None or index[0] < end):
         start = index[0]
-    if end is None:
+    if end is None and index[-1] > start:
         end = index[-1]
 
     return TimeFrame(start, end)
-- 
2.43.0


From fc3fc217c3caee1b7addfe9305a04eb403adf999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 10/86] fix: HDFDataStore.save_metadata failed for a building
 without data yet

---
 nilmtk/datastore/hdfdatastore.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 6019a5c..0099a4a 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -1,5 +1,6 @@
 from copy import deepcopy
 from os.path import isfile
+from posixpath import split
 import warnings
 
 import numpy as np
@@ -195,6 +196,10 @@ class HDFDataStore(DataStore):
             node = self.store.root
         else:
             node = self.store.get_node(key)
+            if node is None:
+                parent, name = split('/' + key.strip('/'))
+                node = self.store.root._v_file.create_group(
+                    parent, name, createparents=True)
 
         node._v_attrs.metadata = metadata
         self.store.flush()
-- 
2.43.0


From 50cd95b021f5ac72763f8db593aac9c08df8e528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:04 +0000
Subject: [PATCH 11/86] fix: HDFDataStore.remove was not flushed, unlike every
 other write

---
 nilmtk/datastore/hdfdatastore.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 0099a4a..0ec6bd8 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -179,6 +179,7 @@ class HDFDataStore(DataStore):
     @doc_inherit
     def remove(self, key):
         self.store.remove(key)
+        self.store.flush()
 
     @doc_inherit
     def load_metadata(self, key='/'):
-- 
2.43.0


From 9259cfc868e8e5d6fe2dfc845f9e7e7269b07ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:22 +0000
Subject: [PATCH 12/86] fix: CSVDataStore garbled columns without an AC type
 and the data returned by key

---
 nilmtk/datastore/csvdatastore.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index faac49b..796bbfa 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -39,7 +39,9 @@ class CSVDataStore(DataStore):
     
         file_path = self._key_to_abs_path(key)
         if isfile(file_path):
-            return pd.read_csv(file_path)
+            return _restore_blank_ac_types(
+                pd.read_csv(file_path, index_col=0, header=[0,1],
+                            parse_dates=True))
         else:
             raise KeyError('{} not found'.format(key))
 
@@ -48,7 +50,14 @@ class CSVDataStore(DataStore):
              chunksize=MAX_MEM_ALLOWANCE_IN_BYTES):
              
         file_path = self._key_to_abs_path(key)
-        
+        if not isfile(file_path):
+            raise KeyError('{} not found'.format(key))
+
+        # Replace any Nones with '' in columns:
+        if columns is not None:
+            columns = [('' if pq is None else pq, '' if ac is None else ac)
+                       for pq, ac in columns]
+
         # Set `sections` variable
         sections = [TimeFrame()] if sections is None else sections
         sections = TimeFrameGroup(sections)
@@ -68,7 +77,8 @@ class CSVDataStore(DataStore):
                                             
             # iterate through all chunks in file
             for chunk_idx, chunk in enumerate(text_file_reader):
-                
+                chunk = _restore_blank_ac_types(chunk)
+
                 # filter dataframe by specified columns
                 if columns:
                     chunk = chunk[columns]
@@ -244,3 +254,11 @@ class CSVDataStore(DataStore):
             if key_object.building and key_object.meter:
                 abs_path += '.csv'
         return abs_path
+
+
+def _restore_blank_ac_types(df):
+    """Pandas renames blank header cells, e.g. in ('voltage', '')."""
+    df.columns = pd.MultiIndex.from_tuples(
+        [(pq, '' if ac.startswith('Unnamed:') else ac)
+         for pq, ac in df.columns], names=df.columns.names)
+    return df
-- 
2.43.0


From df4eb5365443f6965fb7a48ad3c7a4d3cd5447db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:22 +0000
Subject: [PATCH 13/86] fix: CSVDataStore.append repeated the header in the
 middle of the file

---
 nilmtk/datastore/csvdatastore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 796bbfa..5e7c05a 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -123,7 +123,7 @@ class CSVDataStore(DataStore):
             makedirs(path)
         value.to_csv(file_path,
                      mode='a',
-                     header=True)
+                     header=not isfile(file_path))
 
     @doc_inherit
     def put(self, key, value):
-- 
2.43.0


From e982f6073e08d6049b721fbd9ed8cfcf01f109c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:22 +0000
Subject: [PATCH 14/86] fix: CSVDataStore.elements_below_key failed below the
 root

---
 nilmtk/datastore/csvdatastore.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 5e7c05a..255d128 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -5,7 +5,7 @@ from copy import deepcopy
 from collections import OrderedDict
 import numpy as np
 import yaml
-from os.path import isdir, isfile, join, exists, dirname
+from os.path import isdir, isfile, join, exists, dirname, splitext
 from os import listdir, makedirs, remove
 from shutil import rmtree
 import re
@@ -204,11 +204,11 @@ class CSVDataStore(DataStore):
                 if isdir(dir_path) and re.match('building[0-9]*', directory):
                     elements += [directory]
         else:
-            relative_path = key[1:]
+            relative_path = key.strip('/')
             dir_path = join(self.filename, relative_path)
             if isdir(dir_path):
                 for element in listdir(dir_path):
-                    elements += [directory]
+                    elements += [splitext(element)[0]]
 
         return elements
 
-- 
2.43.0


From 7d99721e4d04bf7f0fbbf328288d7dbd2cf8f70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:22 +0000
Subject: [PATCH 15/86] fix: CSVDataStore.load lost the row at an inclusive end
 and failed on single rows

---
 nilmtk/datastore/csvdatastore.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 255d128..0a4f3f8 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -87,7 +87,9 @@ class CSVDataStore(DataStore):
                 subchunk_idx = [True]*len(chunk)
                 if window_intersect.start:
                     subchunk_idx = np.logical_and(subchunk_idx, (chunk.index>=window_intersect.start))
-                if window_intersect.end:
+                if window_intersect.end and window_intersect.include_end:
+                    subchunk_idx = np.logical_and(subchunk_idx, (chunk.index<=window_intersect.end))
+                elif window_intersect.end:
                     subchunk_idx = np.logical_and(subchunk_idx, (chunk.index<window_intersect.end))
                 if window_intersect.empty:
                     subchunk_idx = [False]*len(chunk)
@@ -95,7 +97,9 @@ class CSVDataStore(DataStore):
                 
                 if len(subchunk)>0:
                     subchunk_end = np.max(np.nonzero(subchunk_idx))
-                    subchunk.timeframe = TimeFrame(subchunk.index[0], subchunk.index[-1])
+                    subchunk.timeframe = TimeFrame(
+                        subchunk.index[0],
+                        subchunk.index[-1] if len(subchunk) > 1 else None)
                     # Load look ahead if necessary
                     if n_look_ahead_rows > 0:
                         if len(subchunk.index) > 0:
-- 
2.43.0


From c8eb8e8bfa37e6b79f61f065f1ed3d43ea5fbaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:22 +0000
Subject: [PATCH 16/86] fix: CSVDataStore look-ahead skipped a row and had no
 column names

---
 nilmtk/datastore/csvdatastore.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 0a4f3f8..46151e6 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -103,16 +103,20 @@ class CSVDataStore(DataStore):
                     # Load look ahead if necessary
                     if n_look_ahead_rows > 0:
                         if len(subchunk.index) > 0:
-                            rows_to_skip = (len(header_rows)+1)+(chunk_idx*chunksize)+subchunk_end+1
-                            try:
-                                subchunk.look_ahead = pd.read_csv(file_path, 
-                                                index_col=0, 
-                                                header=None, 
-                                                parse_dates=True,
-                                                skiprows=rows_to_skip,
-                                                nrows=n_look_ahead_rows)
-                            except ValueError:
-                                subchunk.look_ahead = pd.DataFrame()
+                            rows_to_skip = (chunk_idx*chunksize)+subchunk_end+1
+                            with pd.read_csv(file_path, index_col=0,
+                                             header=header_rows,
+                                             parse_dates=True,
+                                             nrows=rows_to_skip+n_look_ahead_rows,
+                                             chunksize=rows_to_skip) as reader:
+                                next(reader)
+                                try:
+                                    look_ahead = _restore_blank_ac_types(
+                                        reader.get_chunk(n_look_ahead_rows))
+                                except StopIteration:
+                                    subchunk.look_ahead = pd.DataFrame()
+                                else:
+                                    subchunk.look_ahead = look_ahead[subchunk.columns]
                         else:
                             subchunk.look_ahead = pd.DataFrame()
                     
-- 
2.43.0


From 66ce9a2a304e43a472264129aac8b94db3127ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:22 +0000
Subject: [PATCH 17/86] fix: CSVDataStore.load yielded nothing for a section
 without data

---
 nilmtk/datastore/csvdatastore.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 46151e6..e5d31f8 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -76,6 +76,7 @@ class CSVDataStore(DataStore):
                                             chunksize=chunksize)
                                             
             # iterate through all chunks in file
+            section_has_data = False
             for chunk_idx, chunk in enumerate(text_file_reader):
                 chunk = _restore_blank_ac_types(chunk)
 
@@ -120,8 +121,14 @@ class CSVDataStore(DataStore):
                         else:
                             subchunk.look_ahead = pd.DataFrame()
                     
+                    section_has_data = True
                     yield subchunk
 
+            if not section_has_data:
+                data = pd.DataFrame()
+                data.timeframe = window_intersect
+                yield data
+
     @doc_inherit
     def append(self, key, value):
 
-- 
2.43.0


From d24b352135d02aec5c4e22f2e5a736dd6697aff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:42 +0000
Subject: [PATCH 18/86] fix: converting a meter without data in the window
 wrote an unreadable CSV file

---
 nilmtk/datastore/datastore.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/datastore.py b/nilmtk/datastore/datastore.py
index f6de98f..f3042de 100644
--- a/nilmtk/datastore/datastore.py
+++ b/nilmtk/datastore/datastore.py
@@ -233,6 +233,7 @@ def convert_datastore(input_store, output_store):
                 meter_key = utility_key+'/'+meter
                 # store meter data
                 for df in input_store.load(meter_key):
-                    output_store.append(meter_key, df)
+                    if not df.empty:
+                        output_store.append(meter_key, df)
 
 
-- 
2.43.0


From b5a1171780a6e7549a6c93fd91d58f5622ce2b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:40 +0000
Subject: [PATCH 19/86] fix: GoodSectionsResults.combined changed the stored
 results

Asking a second time gave other sections or failed; a section that began in
a chunk not among the results kept an open start; a section of zero length
at the end raised ValueError.
---
 nilmtk/stats/goodsectionsresults.py | 35 +++++++++++++++++------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/nilmtk/stats/goodsectionsresults.py b/nilmtk/stats/goodsectionsresults.py
index 9c917bb..4d436dd 100644
--- a/nilmtk/stats/goodsectionsresults.py
+++ b/nilmtk/stats/goodsectionsresults.py
@@ -1,4 +1,5 @@
 import pandas as pd
+from copy import deepcopy
 from datetime import timedelta
 import matplotlib.pyplot as plt
 from ..results import Results
@@ -45,8 +46,17 @@ class GoodSectionsResults(Results):
         """
         sections = TimeFrameGroup()
         end_date_of_prev_row = None
+
+        def close_last_section():
+            if sections and sections[-1].end is None:
+                try:
+                    sections[-1].end = end_date_of_prev_row
+                except ValueError: # starts at the very end of the row
+                    sections.pop()
+
         for index, row in self._data.iterrows():
-            row_sections = row['sections']
+            # copy because we must not modify the stored results
+            row_sections = deepcopy(row['sections'])
 
             # Check if first TimeFrame of row_sections needs to be merged with
             # last TimeFrame of previous section
@@ -64,24 +74,21 @@ class GoodSectionsResults(Results):
                 else:
                     # row_sections[0] and sections[-1] were not in adjacent chunks
                     # so check if they are both open-ended and close them...
-                    if sections and sections[-1].end is None:
-                        try:
-                            sections[-1].end = end_date_of_prev_row
-                        except ValueError: # end_date_of_prev_row before sections[-1].start
-                            pass
-                    if row_sections and row_sections[0].start is None:
-                        try:
-                            row_sections[0].start = index
-                        except ValueError:
-                            pass
-                
+                    close_last_section()
+
+            if row_sections and row_sections[0].start is None:
+                # This section started in a chunk which is not adjacent
+                try:
+                    row_sections[0].start = index
+                except ValueError: # ends at the very start of the row
+                    row_sections.pop(0)
+
             end_date_of_prev_row = row['end']
             sections.extend(row_sections)
 
+        close_last_section()
         if sections:
             sections[-1].include_end = True
-            if sections[-1].end is None:
-                sections[-1].end = end_date_of_prev_row
 
         return sections
 
-- 
2.43.0


From 8568c2a81278be08dcf600821937680e69513e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:40 +0000
Subject: [PATCH 20/86] fix: good sections were lost or invented around chunks
 with missing values

Chunks with fewer than two valid samples ended the good section running
through them, a look-ahead of only NaNs raised IndexError, and a section
left open by one chunk was continued in a later, unconnected chunk.
---
 nilmtk/stats/goodsections.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/nilmtk/stats/goodsections.py b/nilmtk/stats/goodsections.py
index e3c1a11..c38db0b 100644
--- a/nilmtk/stats/goodsections.py
+++ b/nilmtk/stats/goodsections.py
@@ -22,6 +22,7 @@ class GoodSections(Node):
         
     def reset(self):
         self.previous_chunk_ended_with_open_ended_good_section = False
+        self._end_of_previous_chunk = None
 
     def process(self):
         metadata = self.upstream.get_metadata()
@@ -61,16 +62,21 @@ class GoodSections(Node):
         look_ahead = getattr(df, 'look_ahead', None)
         timeframe = df.timeframe
 
+        # A good section cannot continue across a gap between chunks
+        if (self._end_of_previous_chunk is not None and
+                timeframe.start > self._end_of_previous_chunk):
+            self.previous_chunk_ended_with_open_ended_good_section = False
+        self._end_of_previous_chunk = timeframe.end
+
         # Process dataframe
         good_sections = get_good_sections(
             df, max_sample_period, look_ahead,
             self.previous_chunk_ended_with_open_ended_good_section)
 
         # Set self.previous_chunk_ended_with_open_ended_good_section
+        self.previous_chunk_ended_with_open_ended_good_section = (
+            bool(good_sections) and good_sections[-1].end is None)
         if good_sections:
-            self.previous_chunk_ended_with_open_ended_good_section = (
-                good_sections[-1].end is None)
-
             # Update self.results
             self.results.append(timeframe, {'sections': [good_sections]})
 
@@ -94,9 +100,14 @@ def get_good_sections(df, max_sample_period, look_ahead=None,
         then the first TimeFrame will have `start=None`.
     """
     index = df.dropna().sort_index().index
+    n_rows = len(df)
     del df
 
-    if len(index) < 2:
+    if len(index) == 0:
+        if n_rows > 0 and previous_chunk_ended_with_open_ended_good_section:
+            # all samples are NaN but look_ahead of the previous chunk
+            # found the next sample to be close enough
+            return [TimeFrame(None, None)]
         return []
 
     timedeltas_sec = timedelta64_to_secs(diff(index.values))
@@ -126,9 +137,11 @@ def get_good_sections(df, max_sample_period, look_ahead=None,
 
     # Use look_ahead to see if we need to append a 
     # good sect start or good sect end.
+    if look_ahead is not None:
+        look_ahead = look_ahead.dropna()
     look_ahead_valid = look_ahead is not None and not look_ahead.empty
     if look_ahead_valid:
-        look_ahead_timedelta = look_ahead.dropna().index[0] - last_index
+        look_ahead_timedelta = look_ahead.index[0] - last_index
         look_ahead_gap = look_ahead_timedelta.total_seconds()
     if last_timedeltas_check: # current chunk ends with a good section
         if not look_ahead_valid or look_ahead_gap > max_sample_period:
-- 
2.43.0


From 82c26fefaeab9bbb0dd9ac1f313f897825068ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:23 +0000
Subject: [PATCH 21/86] fix: Clip ignored the limits of measurements without an
 AC type

---
 nilmtk/preprocessing/clip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/preprocessing/clip.py b/nilmtk/preprocessing/clip.py
index b4cbddc..c9dc737 100644
--- a/nilmtk/preprocessing/clip.py
+++ b/nilmtk/preprocessing/clip.py
@@ -43,7 +43,7 @@ def _find_limits(measurement, measurements):
     lower, upper : numbers
     """
     for m in measurements:
-        if ((m.get('physical_quantity'), m.get('type')) == measurement):
+        if ((m.get('physical_quantity'), m.get('type', '')) == measurement):
             return m.get('lower_limit'), m.get('upper_limit')
 
     warn('No measurement limits for {}.'.format(measurement), RuntimeWarning)
-- 
2.43.0


From fa754f0323ca197c7c2295d1526c67ce62249a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:23 +0000
Subject: [PATCH 22/86] fix: total energy counted 'energy' readings on chunk
 boundaries twice

---
 nilmtk/stats/totalenergy.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/nilmtk/stats/totalenergy.py b/nilmtk/stats/totalenergy.py
index 8971db6..71dadc4 100644
--- a/nilmtk/stats/totalenergy.py
+++ b/nilmtk/stats/totalenergy.py
@@ -22,8 +22,15 @@ class TotalEnergy(Node):
         self.check_requirements()
         metadata = self.upstream.get_metadata()
         max_sample_period = metadata['device']['max_sample_period']
+        end_of_prev_chunk = None
         for chunk in self.upstream.process():
-            energy = get_total_energy(chunk, max_sample_period)
+            # Consecutive chunks share a row
+            first_row_is_repeated = (not chunk.empty and
+                                     chunk.index[0] == end_of_prev_chunk)
+            energy = get_total_energy(chunk, max_sample_period,
+                                      first_row_is_repeated)
+            if not chunk.empty:
+                end_of_prev_chunk = chunk.index[-1]
             self.results.append(chunk.timeframe, energy)
             yield chunk
 
@@ -36,13 +43,16 @@ class TotalEnergy(Node):
                 ['power', 'energy', 'cumulative energy']]
 
 
-def get_total_energy(df, max_sample_period):
+def get_total_energy(df, max_sample_period, first_row_is_repeated=False):
     """Calculate total energy for energy / power data in a dataframe.
 
     Parameters
     ----------
     df : pd.DataFrame
     max_sample_period : float or int
+    first_row_is_repeated : bool
+        If True then the first row of `df` was also the last row of the
+        previous chunk so its 'energy' measurement has been counted already.
 
     Returns
     -------
@@ -72,6 +82,8 @@ def get_total_energy(df, max_sample_period):
         elif physical_quantity == 'cumulative energy':
             energy[ac_type] = series.iloc[-1] - series.iloc[0]
         elif physical_quantity == 'energy':
+            if first_row_is_repeated:
+                series = series.iloc[1:]
             energy[ac_type] = series.sum()
 
     return energy
-- 
2.43.0


From 7097c2ee1eee7754d03dccbac6b53b5fb7dc8025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:18 +0000
Subject: [PATCH 23/86] fix: Results.update kept the overlapping results it
 refused

---
 nilmtk/results.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nilmtk/results.py b/nilmtk/results.py
index f813228..90c154b 100644
--- a/nilmtk/results.py
+++ b/nilmtk/results.py
@@ -105,9 +105,14 @@ class Results(object):
         if new_result._data.empty:
             return
 
+        old_data = self._data
         self._data = pd.concat([self._data, new_result._data], sort=False)
         self._data.sort_index(inplace=True)
-        self.check_for_overlap()
+        try:
+            self.check_for_overlap()
+        except ValueError:
+            self._data = old_data
+            raise
 
     def unify(self, other):
         """Take results from another table of data (another physical meter)
-- 
2.43.0


From 4985a5f9d35d084d0b89a326135b0cba33adffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:45 +0000
Subject: [PATCH 24/86] fix: statistics for some columns were cached as
 statistics for all columns

---
 nilmtk/elecmeter.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 1df5012..96d84a1 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -1,6 +1,7 @@
 from warnings import warn
 from collections import namedtuple
 from copy import deepcopy
+import re
 import numpy as np
 import pandas as pd
 from .preprocessing import Clip
@@ -682,7 +683,13 @@ class ElecMeter(Hashable, Electric):
         sections = [s for s in sections if not s.empty]
 
         # Retrieve usable stats from cache
-        key_for_cached_stat = self.key_for_cached_stat(results_obj.name)
+        name_for_cache = results_obj.name
+        if columns:
+            # Stats for a subset of the columns must not be mixed up with
+            # stats for all columns
+            name_for_cache += "_".join([""] + sorted(
+                re.sub(r'\W', '_', "_".join(col)) for col in columns))
+        key_for_cached_stat = self.key_for_cached_stat(name_for_cache)
         if loader_kwargs.get('preprocessing') is None:
             cached_stat = self.get_cached_stat(key_for_cached_stat)
             results_obj.import_from_cache(cached_stat, sections)
-- 
2.43.0


From 17130a81b291458e458d9d942fa45c053e4985ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:45 +0000
Subject: [PATCH 25/86] fix: statistics of a chunk were cached as statistics of
 a section

---
 nilmtk/elecmeter.py | 10 +++++++---
 nilmtk/results.py   |  7 +++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 96d84a1..372cc74 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -724,14 +724,18 @@ class ElecMeter(Hashable, Electric):
             # Merge cached results with newly computed
             results_obj.update(computed_result.results)
 
-            # Save to disk newly computed stats
-            stat_for_store = computed_result.results.export_to_cache()
+            # Save to disk newly computed stats.  Results for a chunk (which
+            # shares a row with the next chunk) must not be taken for results
+            # for a section with the same start and end.
+            new_results = computed_result.results.for_timeframes(sections_to_compute)
+            stat_for_store = new_results.export_to_cache()
             try:
                 self.cache.append(key_for_cached_stat, stat_for_store)
             except ValueError:
                 # the old table probably had different columns
                 self.cache.remove(key_for_cached_stat)
-                self.cache.put(key_for_cached_stat, results_obj.export_to_cache())
+                self.cache.put(key_for_cached_stat,
+                               results_obj.for_timeframes(sections).export_to_cache())
 
         if full_results:
             return results_obj
diff --git a/nilmtk/results.py b/nilmtk/results.py
index 90c154b..bc06f4e 100644
--- a/nilmtk/results.py
+++ b/nilmtk/results.py
@@ -199,6 +199,13 @@ class Results(object):
         return [TimeFrame(self._data.index[i], self._data.iloc[i]['end'])
                 for i in range(len(self._data))]
 
+    def for_timeframes(self, timeframes):
+        """Returns a copy with only the results for exactly `timeframes`."""
+        results = copy.copy(self)
+        results._data = self._data[[timeframe in timeframes
+                                    for timeframe in self.timeframes()]]
+        return results
+
     def _columns_with_end_removed(self):
         cols = set(self._data.columns)
         if len(cols) > 0:
-- 
2.43.0


From aaa6abf4be6b9b46d6cb5b9247ffc5103b6f912c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:45 +0000
Subject: [PATCH 26/86] fix: statistics of one dataset were returned for the
 same meter of another

---
 nilmtk/elecmeter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 372cc74..6a812f5 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -800,8 +800,11 @@ class ElecMeter(Hashable, Electric):
         else:
             meter_str = "{:d}".format(self.instance())
 
-        return ("building{:d}/elec/cache/meter{}/{:s}"
-                .format(self.building(), meter_str, stat_name))
+        # Different datasets have the same building and meter numbers
+        dataset = re.sub(r'\W', '_', "dataset_{}".format(self.dataset()))
+
+        return ("{}/building{:d}/elec/cache/meter{}/{:s}"
+                .format(dataset, self.building(), meter_str, stat_name))
 
     def clear_cache(self, verbose=False):
         """
-- 
2.43.0


From 5773e6ccce7f1798b1e09284773ea8ca94bbb493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:08 +0000
Subject: [PATCH 27/86] fix: statistics of sections with and without their end
 were mixed up in the cache

---
 nilmtk/elecmeter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 6a812f5..d90586b 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -689,6 +689,10 @@ class ElecMeter(Hashable, Electric):
             # stats for all columns
             name_for_cache += "_".join([""] + sorted(
                 re.sub(r'\W', '_', "_".join(col)) for col in columns))
+        if any(s.include_end for s in sections):
+            # These have the same start and end as sections without their
+            # last row but different stats
+            name_for_cache += "_including_end"
         key_for_cached_stat = self.key_for_cached_stat(name_for_cache)
         if loader_kwargs.get('preprocessing') is None:
             cached_stat = self.get_cached_stat(key_for_cached_stat)
-- 
2.43.0


From 20de25a21231bd4e03b8a595e922d7abdc356f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:56 +0000
Subject: [PATCH 28/86] fix: cached statistics ignored a window set later

---
 nilmtk/elecmeter.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index d90586b..858335b 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -682,6 +682,14 @@ class ElecMeter(Hashable, Electric):
         sections = TimeFrameGroup(sections)
         sections = [s for s in sections if not s.empty]
 
+        # Cached stats are only valid for the part inside the window
+        sections_in_window = [s.intersection(self.store.window)
+                              for s in sections]
+        sections_in_window = [s for s in sections_in_window if not s.empty]
+        use_cache = bool(sections_in_window)
+        if use_cache:
+            sections = sections_in_window
+
         # Retrieve usable stats from cache
         name_for_cache = results_obj.name
         if columns:
@@ -694,7 +702,7 @@ class ElecMeter(Hashable, Electric):
             # last row but different stats
             name_for_cache += "_including_end"
         key_for_cached_stat = self.key_for_cached_stat(name_for_cache)
-        if loader_kwargs.get('preprocessing') is None:
+        if use_cache and loader_kwargs.get('preprocessing') is None:
             cached_stat = self.get_cached_stat(key_for_cached_stat)
             results_obj.import_from_cache(cached_stat, sections)
 
@@ -728,6 +736,7 @@ class ElecMeter(Hashable, Electric):
             # Merge cached results with newly computed
             results_obj.update(computed_result.results)
 
+        if sections_to_compute and use_cache:
             # Save to disk newly computed stats.  Results for a chunk (which
             # shares a row with the next chunk) must not be taken for results
             # for a section with the same start and end.
-- 
2.43.0


From 5cd73e60a90e347296c3e1f0df5774bb312b0846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:37 +0000
Subject: [PATCH 29/86] fix: loading resampled data changed the caller's
 arguments

---
 nilmtk/elecmeter.py |  4 +++-
 nilmtk/electric.py  | 10 +++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 858335b..f6f8b0c 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -421,7 +421,9 @@ class ElecMeter(Hashable, Electric):
 
         if kwargs.get('resample'):
             # Set default key word arguments for resampling.
-            resample_kwargs = kwargs.setdefault('resample_kwargs', {})
+            # Copy it: the caller may use it again for another meter.
+            resample_kwargs = dict(kwargs.get('resample_kwargs') or {})
+            kwargs['resample_kwargs'] = resample_kwargs
             resample_kwargs.setdefault('fill_method', 'ffill')
             resample_kwargs.setdefault('how', 'mean')
             if 'limit' not in resample_kwargs:
diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index b66eff4..9e0f325 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -135,15 +135,15 @@ class Electric(object):
         sample_period = int(round(sample_period))
 
         if resample:
-            if resample_kwargs is None:
-                resample_kwargs = {}
+            resample_kwargs = dict(resample_kwargs or {})
+            resample_kwargs['rule'] = '{:d}S'.format(sample_period)
 
             def resample_func(df):
-                resample_kwargs['rule'] = '{:d}S'.format(sample_period)
                 return safe_resample(df, **resample_kwargs)
 
-            kwargs.setdefault('preprocessing', []).append(
-                Apply(func=resample_func))
+            # Do not change the caller's list.
+            preprocessing = list(kwargs.get('preprocessing') or [])
+            kwargs['preprocessing'] = preprocessing + [Apply(func=resample_func)]
 
         return kwargs
 
-- 
2.43.0


From c9eefc91a1c3364cc8afb04fe897992f38cd77fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:11 +0000
Subject: [PATCH 30/86] fix: no step could follow DropoutRate in a pipeline

---
 nilmtk/stats/dropoutrateresults.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/stats/dropoutrateresults.py b/nilmtk/stats/dropoutrateresults.py
index 4b92bfa..320dd97 100644
--- a/nilmtk/stats/dropoutrateresults.py
+++ b/nilmtk/stats/dropoutrateresults.py
@@ -19,8 +19,10 @@ class DropoutRateResults(Results):
 
         Returns
         -------
-        dropout_rate : float, [0,1]
+        dropout_rate : float, [0,1] (or NaN if there are no results yet)
         """
+        if self._data.empty:
+            return float('nan')
         tot_samples = self._data['n_samples'].sum()
         proportion = self._data['n_samples'] / tot_samples
         dropout_rate = (self._data['dropout_rate'] * proportion).sum()
-- 
2.43.0


From 1af39eed70a40d25b77400218d63ab69715c6e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:22 +0000
Subject: [PATCH 31/86] fix: activity_histogram used an argument which no
 longer exists in pandas 2

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 9e0f325..3d386ce 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -696,7 +696,7 @@ class Electric(object):
             end = resampled_to_period[-1] + 1 * resampled_to_period.freq
 
             # Reindex chunk
-            new_index = pd.date_range(start, end, freq=bin_duration, closed='left')
+            new_index = pd.date_range(start, end, freq=bin_duration, inclusive='left')
             on_chunk = on_chunk.reindex(new_index, fill_value=0, copy=False)
 
             # reshape
-- 
2.43.0


From 0e1cacb48c64b4c8651984d1e5137a79997f89e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:01 +0000
Subject: [PATCH 32/86] fix: activity_histogram with period='W' lost all days
 but Sunday

---
 nilmtk/electric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 3d386ce..fe3f383 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -691,7 +691,8 @@ class Electric(object):
 
             # Trick using resample to 'normalise' start and end dates
             # to natural boundaries of 'period'.
-            resampled_to_period = on_chunk.iloc[[0, -1]].resample(period).mean().index
+            resampled_to_period = on_chunk.iloc[[0, -1]].resample(
+                period, closed='left', label='left').mean().index
             start = resampled_to_period[0]
             end = resampled_to_period[-1] + 1 * resampled_to_period.freq
 
-- 
2.43.0


From d079ca1e3f797bcc0253f018b680397f8390688e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:01 +0000
Subject: [PATCH 33/86] fix: entropy and mutual information of long series
 failed on Python 3

---
 nilmtk/electric.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index fe3f383..f98e840 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -515,7 +515,7 @@ class Electric(object):
             tree = ss.cKDTree(z)
             nn = [tree.query(point, k+1, p=float('inf'))[0][k] for point in z]
             const = digamma(N)-digamma(k) + d*log(2)
-            return (const + d*np.mean(map(log, nn)))/log(base)
+            return (const + d*np.mean(list(map(log, nn))))/log(base)
 
         out = []
         for power in self.power_series():
@@ -524,7 +524,7 @@ class Electric(object):
             x = x.reshape((num_elements, 1))            
             if num_elements > MAX_SIZE_ENTROPY:
 
-                splits = num_elements/MAX_SIZE_ENTROPY + 1
+                splits = num_elements//MAX_SIZE_ENTROPY + 1
                 y = np.array_split(x, splits)
                 for z in y:            
                     out.append(kdtree_entropy(z))                    
@@ -580,7 +580,7 @@ class Electric(object):
             power_x_val = power_x_val.reshape((num_elements, 1))
             power_y_val = power_y_val.reshape((num_elements, 1))            
             if num_elements > MAX_SIZE_ENTROPY:
-                splits = num_elements/MAX_SIZE_ENTROPY + 1
+                splits = num_elements//MAX_SIZE_ENTROPY + 1
                 x_split = np.array_split(power_x_val, splits)
                 y_split = np.array_split(power_y_val, splits)
                 for x, y  in zip(x_split, y_split):
-- 
2.43.0


From e13397a498e68a40486418b5b7b8e5b64ce3a17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:01 +0000
Subject: [PATCH 34/86] fix: plot_spectrum called the module scipy.fft

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index f98e840..be9593e 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -3,7 +3,7 @@ import numpy as np
 from collections import Counter
 from warnings import warn
 import scipy.spatial as ss
-from scipy import fft
+from scipy.fft import fft
 from pandas.plotting import lag_plot, autocorrelation_plot
 from scipy.special import digamma,gamma
 from math import log,pi
-- 
2.43.0


From 6b65de096422b7fd9df60db42980d522f351e6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:37 +0000
Subject: [PATCH 35/86] fix: correlation counted missing values and failed on
 sections without data

---
 nilmtk/electric.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index be9593e..a4c329a 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -330,7 +330,9 @@ class Electric(object):
             n = 0
             cumulator = 0.0
             for power in electric.power_series(**load_kwargs):
-                n += len(power.index)
+                if power.empty:
+                    continue
+                n += power.count()  # (ignores missing values, like sum())
                 cumulator += power.sum()
             return n, cumulator
 
@@ -349,6 +351,8 @@ class Electric(object):
         def stdev(electric, mean, n):
             s_square_sum = 0.0
             for power in electric.power_series(**load_kwargs):
+                if power.empty:
+                    continue
                 s_square_sum += ((power - mean) * (power - mean)).sum()
             s_square = s_square_sum / (n - 1)
             return np.sqrt(s_square)
@@ -359,6 +363,8 @@ class Electric(object):
         numerator = 0.0
         for (x_power, y_power) in zip(self.power_series(**load_kwargs), 
                                        other.power_series(**load_kwargs)):
+            if x_power.empty or y_power.empty:
+                continue
             xi_minus_xbar = x_power - x_bar
             del x_power
             gc.collect()
-- 
2.43.0


From a5bf8bf51770cd1db33b36048eadd659297e70d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:45 +0000
Subject: [PATCH 36/86] fix: mutual information counted the boundary point for
 distances above 8

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index a4c329a..28c8160 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -574,7 +574,7 @@ class Electric(object):
                 dist = dvec[i]
                 #subtlety, we don't include the boundary point, 
                 #but we are implicitly adding 1 to kraskov def bc center point is included
-                num_points = len(tree.query_ball_point(points[i],dist-1e-15,p=float('inf'))) 
+                num_points = len(tree.query_ball_point(points[i],np.nextafter(dist,0),p=float('inf'))) 
                 avg += digamma(num_points)/N
             return avg
 
-- 
2.43.0


From f243f5991fb47c94104ddce096e31e657582a328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:26 +0000
Subject: [PATCH 37/86] fix: loading a MeterGroup failed for time zones without
 a pytz name

---
 nilmtk/metergroup.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index adcc2a8..9360d69 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -714,10 +714,8 @@ class MeterGroup(Electric):
         for section in split_timeframes(sections, duration_threshold):
             kwargs['sections'] = [section]
             start = normalise_timestamp(section.start, freq)
-            tz = None if start.tz is None else start.tz.zone
             index = pd.date_range(
-                start.tz_localize(None), section.end.tz_localize(None), tz=tz,
-                inclusive='left', freq=freq)
+                start, section.end, inclusive='left', freq=freq)
             chunk = combine_chunks_from_generators(
                 index, columns, self.meters, kwargs)
             yield chunk
-- 
2.43.0


From feefa34b700e03e6ccde652375e1f67bf242327b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:26 +0000
Subject: [PATCH 38/86] fix: MeterGroup.load cut sample periods in two between
 chunks

---
 nilmtk/metergroup.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 9360d69..473bdec 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -711,14 +711,19 @@ class MeterGroup(Electric):
             return
 
         # Loop through each section to load
-        for section in split_timeframes(sections, duration_threshold):
-            kwargs['sections'] = [section]
+        for section in sections:
+            # Split where a sample period starts so that none is cut in two
             start = normalise_timestamp(section.start, freq)
-            index = pd.date_range(
-                start, section.end, inclusive='left', freq=freq)
-            chunk = combine_chunks_from_generators(
-                index, columns, self.meters, kwargs)
-            yield chunk
+            end = section.end
+            if section.include_end:
+                end += pd.Timedelta(1, 'ns')
+            for piece in split_timeframes([TimeFrame(start, end)], duration_threshold):
+                index = pd.date_range(piece.start, piece.end, inclusive='left', freq=freq)
+                to_load = piece.intersection(section)
+                kwargs['sections'] = [piece if to_load.empty else to_load]
+                chunk = combine_chunks_from_generators(
+                    index, columns, self.meters, kwargs)
+                yield chunk
 
     def _convert_physical_quantity_and_ac_type_to_cols(self, **kwargs):
         all_columns = set()
-- 
2.43.0


From b3f838addc2da198ea9dae5bdc6a4082e457e372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:26 +0000
Subject: [PATCH 39/86] fix: loading a MeterGroup with measurements to average
 failed, or averaged missing readings

---
 nilmtk/measurement.py |  2 +-
 nilmtk/metergroup.py  | 30 ++++++++++--------------------
 2 files changed, 11 insertions(+), 21 deletions(-)

diff --git a/nilmtk/measurement.py b/nilmtk/measurement.py
index bda9361..073d8f2 100644
--- a/nilmtk/measurement.py
+++ b/nilmtk/measurement.py
@@ -10,7 +10,7 @@ PHYSICAL_QUANTITIES = ['power', 'energy', 'cumulative energy',
                        'voltage', 'current', 'pf', 'frequency', 'power factor', 
                        'state', 'phase angle']
 PHYSICAL_QUANTITIES_WITH_AC_TYPES = ['power', 'energy', 'cumulative energy']
-PHYSICAL_QUANTITIES_TO_AVERAGE = ['voltage', 'pf', 'frequency', 'power factor','phase_angle']
+PHYSICAL_QUANTITIES_TO_AVERAGE = ['voltage', 'pf', 'frequency', 'power factor', 'phase angle', 'phase_angle']
 LEVEL_NAMES = ['physical_quantity', 'type']
 
 def check_ac_type(ac_type):
diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 473bdec..a8d5813 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1779,7 +1779,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
     # Regarding columns (e.g. voltage) that we need to average:
     # The approach is that we first add everything together
     # in the first for-loop, whilst also keeping a 
-    # `columns_to_average_counter` DataFrame
+    # `columns_to_average_counter` matrix
     # which tells us what to divide by in order to compute the 
     # mean for PHYSICAL_QUANTITIES_TO_AVERAGE.
 
@@ -1792,7 +1792,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
     DTYPE = np.float32
     cumulator = pd.DataFrame(np.nan, index=index, columns=columns, dtype=DTYPE)
     cumulator_arr = cumulator.values
-    columns_to_average_counter = pd.DataFrame(dtype=np.uint16)
+    columns_to_average_counter = np.zeros(cumulator.shape, dtype=np.uint16)
     timeframe = None
 
     # Go through each generator to try sum values together
@@ -1831,33 +1831,23 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
             np.nansum([cumulator_col, aligned], axis=0, out=cumulator_col, 
                       dtype=DTYPE)
             cumulator_col[where_both_are_nan] = np.nan
+            # this is necessary so we do not add up columns like 'voltage'
+            # which should be averaged.
+            columns_to_average_counter[:,i] += ~np.isnan(aligned)
             del aligned
             del where_both_are_nan
             gc.collect()
 
-        # Update columns_to_average_counter - this is necessary so we do not
-        # add up columns like 'voltage' which should be averaged.
-        physical_quantities = chunk_from_next_meter.columns.get_level_values('physical_quantity')
-        columns_to_average = (set(PHYSICAL_QUANTITIES_TO_AVERAGE)
-                              .intersection(physical_quantities))
-        if columns_to_average:
-            counter_increment = pd.DataFrame(1, columns=columns_to_average, 
-                                             dtype=np.uint16,
-                                             index=chunk_from_next_meter.index)
-            columns_to_average_counter = columns_to_average_counter.add(
-                counter_increment, fill_value=0)
-            del counter_increment
-
         del chunk_from_next_meter
         gc.collect()
 
-    del cumulator_arr
-    gc.collect()
-
     # Create mean values by dividing any columns which need dividing
-    for column in columns_to_average_counter:
-        cumulator[column] /= columns_to_average_counter[column]
+    for i, (physical_quantity, _) in enumerate(columns):
+        if physical_quantity in PHYSICAL_QUANTITIES_TO_AVERAGE:
+            n = np.maximum(columns_to_average_counter[:,i], 1)
+            cumulator_arr[:,i] /= n
 
+    del cumulator_arr
     del columns_to_average_counter
     gc.collect()
     print()
-- 
2.43.0


From 1be96a6cfb2b11d0cfeb9d489467442935b81084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:26 +0000
Subject: [PATCH 40/86] fix: dataframe_of_meters showed missing readings as
 zero

---
 nilmtk/metergroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index a8d5813..b2f2745 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -980,7 +980,7 @@ class MeterGroup(Electric):
 
                 if not chunk_from_next_meter.empty:
                     ids.append(meter_id)
-                    chunks.append(chunk_from_next_meter.sum(axis=1))
+                    chunks.append(chunk_from_next_meter.sum(axis=1, min_count=1))
 
             if chunks:
                 df = pd.concat(chunks, axis=1)
-- 
2.43.0


From 7b22591157ba19fe664f4cbaa35f387b35d9b0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:03 +0000
Subject: [PATCH 41/86] fix: an appliance or meter lacking a search key hid
 others which match

---
 nilmtk/electric.py   | 26 ++++++++++++++++++++++----
 nilmtk/metergroup.py | 15 ++++++++-------
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 28c8160..7699534 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -26,6 +26,27 @@ from nilmtk.appliance import DEFAULT_ON_POWER_THRESHOLD
 
 MAX_SIZE_ENTROPY = 10000
 
+
+def any_matches(items, key):
+    """Returns True if `key` matches any of the `items`.  An item which
+    does not have one of the keys does not match.
+
+    Raises KeyError if none of the items has all the keys.
+    """
+    exception = None
+    n_exceptions = 0
+    for item in items:
+        try:
+            if item.matches(key):
+                return True
+        except KeyError as e:
+            exception = e
+            n_exceptions += 1
+    if exception is not None and n_exceptions == len(items):
+        raise exception
+    return False
+
+
 class Electric(object):
     """Common implementations of methods shared by ElecMeter and MeterGroup.
     """
@@ -95,10 +116,7 @@ class Electric(object):
         True if all key:value pairs in `key` match any appliance
         in `self.appliances`.
         """
-        for appliance in self.appliances:
-            if appliance.matches(key):
-                return True
-        return False
+        return any_matches(self.appliances, key)
 
     def power_series_all_data(self, **kwargs):
         chunks = []
diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index b2f2745..1c79688 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -26,7 +26,7 @@ from .plots import plot_series
 from .measurement import (select_best_ac_type, AC_TYPES, LEVEL_NAMES,
                           PHYSICAL_QUANTITIES_TO_AVERAGE)
 from nilmtk.exceptions import MeasurementError
-from .electric import Electric
+from .electric import Electric, any_matches
 from .timeframe import TimeFrame, split_timeframes
 from .preprocessing import Apply
 from .datastore import MAX_MEM_ALLOWANCE_IN_BYTES
@@ -260,8 +260,12 @@ class MeterGroup(Electric):
         elif isinstance(key, dict):
             meters = []
             for meter in self.meters:
-                if meter.matches_appliances(key):
-                    meters.append(meter)
+                try:
+                    if meter.matches_appliances(key):
+                        meters.append(meter)
+                except KeyError:
+                    # None of this meter's appliances has all the keys.
+                    pass
             if len(meters) == 1:
                 return meters[0]
             elif len(meters) > 1:
@@ -296,10 +300,7 @@ class MeterGroup(Electric):
             raise TypeError()
 
     def matches(self, key):
-        for meter in self.meters:
-            if meter.matches(key):
-                return True
-        return False
+        return any_matches(self.meters, key)
 
     def select(self, **kwargs):
         """Select a group of meters based on meter metadata.
-- 
2.43.0


From 1c140cc08ca0f749f4898667e8f842a41e7db823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:03 +0000
Subject: [PATCH 42/86] fix: metadata named like a method of a tuple (count,
 index) never matched

---
 nilmtk/appliance.py | 2 +-
 nilmtk/elecmeter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/appliance.py b/nilmtk/appliance.py
index a43508e..4b0f53d 100644
--- a/nilmtk/appliance.py
+++ b/nilmtk/appliance.py
@@ -116,7 +116,7 @@ class Appliance(Hashable):
 
         match = True
         for k, v in key.items():
-            if hasattr(self.identifier, k):
+            if k in self.identifier._fields:
                 if Appliance.allow_synonyms and k == 'type':
                     synonyms = self.type.get('synonyms', [])
                     synonyms.append(self.identifier.type)
diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index f6f8b0c..bb7ae76 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -325,7 +325,7 @@ class ElecMeter(Hashable, Electric):
 
         match = True
         for k, v in key.items():
-            if hasattr(self.identifier, k):
+            if k in self.identifier._fields:
                 if getattr(self.identifier, k) != v:
                     match = False
 
-- 
2.43.0


From 06dfda231185f89a3feafdbe0940027a7397b5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:03 +0000
Subject: [PATCH 43/86] fix: grouping failed on meters without appliances and
 was empty for 'category'

---
 nilmtk/metergroup.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 1c79688..85c471e 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -516,9 +516,14 @@ class MeterGroup(Electric):
             appliances = self.appliances
 
         for appliance in appliances:
+            if appliance is None:  # a meter without appliances
+                continue
             value = appliance.metadata.get(key)
             append_or_extend_list(values, value)
-            value = appliance.type.get(key)
+            if key == 'category':
+                value = appliance.categories()
+            else:
+                value = appliance.type.get(key)
             append_or_extend_list(values, value)
         return list(set(values))
 
-- 
2.43.0


From 48b3ced416e0995095a0a28ea48cc5ccb68cf9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:03 +0000
Subject: [PATCH 44/86] fix: MeterGroup.select with several values returned a
 meter twice

---
 nilmtk/metergroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 85c471e..a739f35 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -366,7 +366,8 @@ class MeterGroup(Electric):
                 else:
                     exception_raised_every_time = False
                     if match:
-                        selected_meters.append(meter)
+                        if not any(m is meter for m in selected_meters):
+                            selected_meters.append(meter)
                         no_match = False
             if no_match:
                 raise KeyError("'No match for {}'".format(_kwargs))
-- 
2.43.0


From 91f771c5a392dd8498014c47546c8353b1a7abf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:12 +0000
Subject: [PATCH 45/86] fix: equal MeterGroups had different hashes

---
 nilmtk/metergroup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index a739f35..4a53acc 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -58,10 +58,10 @@ class MeterGroup(Electric):
     
     def __hash__(self):
         """
-        Provide a hash based on the MeterGroup's name, meters and 
-        disabled_meters
+        Provide a hash based on the MeterGroup's meters, in any order,
+        because groups of the same meters are equal.
         """ 
-        return hash((self.name, tuple(self.meters), tuple(self.disabled_meters)))
+        return hash(frozenset(self.meters))
 
     def import_metadata(self, store, elec_meters, appliances, building_id):
         """
-- 
2.43.0


From a77a8322d14ccf2fbb745bff40d66748f639e007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:38 +0000
Subject: [PATCH 46/86] fix: a dataset's meter devices were replaced by those
 of another with the same model name

---
 nilmtk/elecmeter.py  | 2 +-
 nilmtk/metergroup.py | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index bb7ae76..a2ad9ba 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -160,7 +160,7 @@ class ElecMeter(Hashable, Electric):
         """
         device_model = self.metadata.get('device_model')
         if device_model:
-            return deepcopy(ElecMeter.meter_devices[device_model])
+            return deepcopy(self.meter_devices[device_model])
         else:
             return {}
 
diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 4a53acc..80a000b 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -87,6 +87,9 @@ class MeterGroup(Electric):
 
         # Load static Meter Devices
         ElecMeter.load_meter_devices(store)
+        # Meters keep the devices of their own dataset because another
+        # dataset might use the same model name for a different device.
+        meter_devices = dict(ElecMeter.meter_devices)
 
         # Load each meter
         for meter_i, meter_metadata_dict in elec_meters.items():
@@ -94,6 +97,7 @@ class MeterGroup(Electric):
                                    building=building_id.instance,
                                    dataset=building_id.dataset)
             meter = ElecMeter(store, meter_metadata_dict, meter_id)
+            meter.meter_devices = meter_devices
             self.meters.append(meter)
 
         # Load each appliance
-- 
2.43.0


From 6ee5837540ba9f1fe2c85abc754e614d9810b393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:43 +0000
Subject: [PATCH 47/86] fix: the upstream meter came from another dataset of
 the same name, or was a disabled mains

---
 nilmtk/elecmeter.py  | 23 ++++++++++++++++++++++-
 nilmtk/metergroup.py |  2 ++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index a2ad9ba..534b4a9 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -48,6 +48,9 @@ class ElecMeter(Hashable, Electric):
 
     meter_devices = {}
 
+    #: Weak reference to the MeterGroup of all meters of the building
+    elec_of_building = None
+
     def __init__(self, store=None, metadata=None, meter_id=None):
         # Store and check parameters
         self.appliances = []
@@ -130,11 +133,29 @@ class ElecMeter(Hashable, Electric):
                                      building=self.identifier.building,
                                      dataset=self.identifier.dataset)
 
-        upstream_meter = nilmtk.global_meter_group[id_of_upstream]
+        # Prefer the meters loaded together with this one: another dataset of
+        # the same name (e.g. with another window) might have been opened too.
+        upstream_meter = self._find_in_building(id_of_upstream)
+        if upstream_meter is None:
+            upstream_meter = nilmtk.global_meter_group[id_of_upstream]
         if upstream_meter is None:
             warn("No upstream meter found for '{}'.".format(self.identifier))
         return upstream_meter
 
+    def _find_in_building(self, meter_id):
+        """Returns the meter with `meter_id` among the meters which have been
+        loaded together with this meter, or None.
+        """
+        elec = self.elec_of_building and self.elec_of_building()
+        if elec is None:
+            return
+        if meter_id.instance == 0:
+            return elec.mains()
+        for meter in elec.all_meters():
+            for m in getattr(meter, 'meters', [meter]):  # (nested groups)
+                if m.identifier == meter_id:
+                    return m
+
     @classmethod
     def load_meter_devices(cls, store):
         dataset_metadata = store.load_metadata('/')
diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 80a000b..a775ef2 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1,5 +1,6 @@
 import warnings
 import gc
+import weakref
 from sys import stdout
 from collections import Counter
 from copy import copy, deepcopy
@@ -98,6 +99,7 @@ class MeterGroup(Electric):
                                    dataset=building_id.dataset)
             meter = ElecMeter(store, meter_metadata_dict, meter_id)
             meter.meter_devices = meter_devices
+            meter.elec_of_building = weakref.ref(self)
             self.meters.append(meter)
 
         # Load each appliance
-- 
2.43.0


From 3b9c141cb7ecb033327815b95fa15987436b4c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:14 +0000
Subject: [PATCH 48/86] fix: total energy of a group was NaN if a meter lacked
 an AC type or data

---
 nilmtk/metergroup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index a775ef2..5e04e98 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -885,7 +885,9 @@ class MeterGroup(Electric):
                 if full_results:
                     total_energy_results.unify(meter_energy)
                 else:
-                    total_energy_results += meter_energy
+                    # A meter might not measure all the AC types
+                    total_energy_results = total_energy_results.add(
+                        meter_energy, fill_value=0)
             return total_energy_results
 
     def _collect_stats_on_all_meters(self, load_kwargs, func, full_results):
-- 
2.43.0


From 93ff108a0dbbf5e1aaaf4bde68b76dba5ec1f9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:14 +0000
Subject: [PATCH 49/86] fix: unifying energy failed on or ignored sections and
 AC types only one meter has

---
 nilmtk/results.py                  |  8 ++++++--
 nilmtk/stats/totalenergyresults.py | 10 ++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/nilmtk/results.py b/nilmtk/results.py
index bc06f4e..3d771e1 100644
--- a/nilmtk/results.py
+++ b/nilmtk/results.py
@@ -126,9 +126,13 @@ class Results(object):
             Results calculated from another table of data.
         """
         assert isinstance(other, self.__class__)
+        if len(self._data) != len(other._data):
+            raise RuntimeError("The results we are trying to merge do not"
+                               " have the same number of sections so we"
+                               " cannot merge them.")
         for i, row in self._data.iterrows():
-            if (other._data['end'].loc[i] != row['end'] or
-                i not in other._data.index):
+            if (i not in other._data.index or
+                other._data['end'].loc[i] != row['end']):
                 raise RuntimeError("The sections we are trying to merge"
                                    " do not have the same end times so we"
                                    " cannot merge them.")
diff --git a/nilmtk/stats/totalenergyresults.py b/nilmtk/stats/totalenergyresults.py
index 89e2b2d..d19c78d 100644
--- a/nilmtk/stats/totalenergyresults.py
+++ b/nilmtk/stats/totalenergyresults.py
@@ -27,10 +27,12 @@ class TotalEnergyResults(Results):
 
     def unify(self, other):
         super(TotalEnergyResults, self).unify(other)
-        ac_types = set(self._data.columns) - set(['end'])
-        for i, row in self._data.iterrows():
-            for ac_type in ac_types:
-                self._data[ac_type].loc[i] += other._data[ac_type].loc[i]
+        # A meter might not measure all the AC types
+        for ac_type in set(other._data.columns) - set(['end']):
+            energy = other._data[ac_type]
+            if ac_type in self._data:
+                energy = self._data[ac_type].add(energy, fill_value=0)
+            self._data[ac_type] = energy
 
     def to_dict(self):
         return {'total_energy': self.combined().to_dict()}
-- 
2.43.0


From adcb0f85f9676a0785ef613831fead98735c98b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:32 +0000
Subject: [PATCH 50/86] fix: unifying the dropout rates of more than two meters
 did not give their mean

---
 nilmtk/stats/dropoutrateresults.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/nilmtk/stats/dropoutrateresults.py b/nilmtk/stats/dropoutrateresults.py
index 320dd97..6506521 100644
--- a/nilmtk/stats/dropoutrateresults.py
+++ b/nilmtk/stats/dropoutrateresults.py
@@ -11,8 +11,11 @@ class DropoutRateResults(Results):
         `end` is end date for the whole chunk
         `dropout_rate` is float [0,1]
         `n_samples` is int, used for calculating weighted mean
+    n_meters : int
+        Number of meters whose results have been unified
     """
     name = "dropout_rate"
+    n_meters = 1
     
     def combined(self):
         """Calculates weighted average.
@@ -30,12 +33,13 @@ class DropoutRateResults(Results):
 
     def unify(self, other):
         super(DropoutRateResults, self).unify(other)
-        for i, row in self._data.iterrows():
-            # store mean of dropout rate
-            self._data['dropout_rate'].loc[i] += other._data['dropout_rate'].loc[i]
-            self._data['dropout_rate'].loc[i] /= 2
-            
-            self._data['n_samples'].loc[i] += other._data['n_samples'].loc[i]
+        # store mean of dropout rate of all meters
+        n_meters = self.n_meters + other.n_meters
+        self._data['dropout_rate'] = (
+            self._data['dropout_rate'] * self.n_meters +
+            other._data['dropout_rate'] * other.n_meters) / n_meters
+        self._data['n_samples'] += other._data['n_samples']
+        self.n_meters = n_meters
 
     def to_dict(self):
         return {'statistics': {'dropout_rate': self.combined()}}
-- 
2.43.0


From ea46395821458de2337e3e164f0bb31827bf4829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:32 +0000
Subject: [PATCH 51/86] fix: full results of dropout rates and of nested groups
 raised an error

---
 nilmtk/elecmeter.py  | 4 +++-
 nilmtk/metergroup.py | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 534b4a9..8ae9ccc 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -634,7 +634,9 @@ class ElecMeter(Hashable, Electric):
         """
         nodes = [DropoutRate]
         if ignore_gaps:
-            loader_kwargs['sections'] = self.good_sections(**loader_kwargs)
+            kwargs_for_sections = dict(loader_kwargs)
+            kwargs_for_sections.pop('full_results', None)
+            loader_kwargs['sections'] = self.good_sections(**kwargs_for_sections)
 
         return self._get_stat_from_cache_or_compute(
             nodes, DropoutRate.results_class(), loader_kwargs)
diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 5e04e98..4b26997 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -898,6 +898,7 @@ class MeterGroup(Electric):
                                                **load_kwargs)
             collected_stats.append(single_stat)
             if (full_results and len(self.meters) > 1 and
+                    isinstance(meter, ElecMeter) and
                     not meter.store.all_sections_smaller_than_chunksize):
                 warnings.warn("at least one section requested from '{}' required"
                      " multiple chunks to be loaded into memory. This may cause"
-- 
2.43.0


From 9b9267433c3132b512f920c55b27d8a2375ad85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:32 +0000
Subject: [PATCH 52/86] fix: energy_per_meter with mains used functions which
 no longer exist in pandas

---
 nilmtk/metergroup.py | 8 +++++---
 nilmtk/utils.py      | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 4b26997..15495c2 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1198,11 +1198,13 @@ class MeterGroup(Electric):
 
     def _energy_per_meter_with_remainder(self, energy_per_meter,
                                          mains, per_period, **kwargs):
-        ac_types = energy_per_meter.keys()
+        n_meters = energy_per_meter.notnull().sum(axis=1)
+        ac_types = [ac_type for ac_type, n in n_meters.items()
+                    for _ in range(n)]
         energy_per_meter = energy_per_meter.sum() # Collapse AC_TYPEs into Series
 
         # Find most common ac_type in energy_per_meter:
-        most_common_ac_type = most_common(ac_types)
+        most_common_ac_type = most_common(ac_types) if ac_types else None
         mains_ac_types = mains.available_ac_types(
             ['power', 'energy', 'cumulative energy'])
         if most_common_ac_type in mains_ac_types:
@@ -1609,7 +1611,7 @@ class MeterGroup(Electric):
         energy = self.energy_per_meter(mains=mains, per_period='D',
                                         use_meter_labels=True)
 
-        energy.sort(ascending=False)
+        energy.sort_values(inplace=True, ascending=False)
 
         # Plot
         ax = pd.DataFrame(energy).T.plot(kind='bar', stacked=True, grid=True,
diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index e2cf081..e899771 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -362,7 +362,7 @@ def most_common(lst):
     lst = list(lst)
     counts = {item: lst.count(item) for item in set(lst)}
     counts = pd.Series(counts)
-    counts.sort()
+    counts = counts.sort_values()
     most_common = counts.index[-1]
     return most_common
 
-- 
2.43.0


From bbad44dbe7ec48bbcd26569ae3b53efce441d4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:32 +0000
Subject: [PATCH 53/86] fix: proportion_of_upstream was NaN if only one of the
 meters has the best AC type

---
 nilmtk/electric.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 7699534..3acf86a 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -231,6 +231,10 @@ class Electric(object):
         proportion_of_energy = (self.total_energy(sections=upstream_good_sects) /
                                 upstream.total_energy(sections=upstream_good_sects))
         if isinstance(proportion_of_energy, pd.Series):
+            # Only consider AC types which both meters have
+            proportion_of_energy = proportion_of_energy.dropna()
+            if proportion_of_energy.empty:
+                return np.nan
             best_ac_type = select_best_ac_type(proportion_of_energy.keys())
             return proportion_of_energy[best_ac_type]
         else:
-- 
2.43.0


From 94504396dbdb1a8528814c1661509c919b970961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:32 +0000
Subject: [PATCH 54/86] fix: proportion_of_upstream_total_per_meter failed for
 nested groups

---
 nilmtk/metergroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 15495c2..77bdbc1 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1237,7 +1237,7 @@ class MeterGroup(Electric):
         return energy_per_meter / total_energy
 
     def proportion_of_upstream_total_per_meter(self, **load_kwargs):
-        prop_per_meter = pd.Series(index=self.identifier.meters)
+        prop_per_meter = pd.Series(index=list(self.identifier.meters))
         n_meters = len(self.meters)
         for i, meter in enumerate(self.meters):
             proportion = meter.proportion_of_upstream(**load_kwargs)
-- 
2.43.0


From 576c9103a0008f0740ab6a21c10b1663eefa03c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:50 +0000
Subject: [PATCH 55/86] fix: from_other_metergroup looked for the meters in an
 empty group

---
 nilmtk/metergroup.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 77bdbc1..2403789 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -26,6 +26,7 @@ from .utils import (tree_root, nodes_adjacent_to_root, simplest_type_for,
 from .plots import plot_series
 from .measurement import (select_best_ac_type, AC_TYPES, LEVEL_NAMES,
                           PHYSICAL_QUANTITIES_TO_AVERAGE)
+import nilmtk
 from nilmtk.exceptions import MeasurementError
 from .electric import Electric, any_matches
 from .timeframe import TimeFrame, split_timeframes
@@ -466,21 +467,9 @@ class MeterGroup(Electric):
         -------
         MeterGroup
         """
-        other_identifiers = other.identifier.meters
-        new_identifiers = []
-        for other_id in other_identifiers:
-            new_id = other_id._replace(dataset=dataset)
-            if isinstance(new_id.instance, tuple):
-                nested = []
-                for instance in new_id.instance:
-                    new_nested_id = new_id._replace(instance=instance)
-                    nested.append(new_nested_id)
-                new_identifiers.append(tuple(nested))
-            else:
-                new_identifiers.append(new_id)
-        metergroup = MeterGroup()
-        metergroup.from_list(new_identifiers)
-        return metergroup
+        new_identifiers = [replace_dataset(other_id, dataset)
+                           for other_id in other.identifier.meters]
+        return nilmtk.global_meter_group.from_list(new_identifiers)
 
     def __eq__(self, other):
         if isinstance(other, MeterGroup):
-- 
2.43.0


From 15f10ec093db84bd65097b1587aa187177b36e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:25 +0000
Subject: [PATCH 56/86] fix: Mean counted missing readings and truncated the
 sum of each chunk

---
 nilmtk/disaggregate/mean.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/disaggregate/mean.py b/nilmtk/disaggregate/mean.py
index 08c977b..0999028 100644
--- a/nilmtk/disaggregate/mean.py
+++ b/nilmtk/disaggregate/mean.py
@@ -21,8 +21,8 @@ class Mean(Disaggregator):
             print("Training %s in %s model".format(app_name, self.MODEL_NAME), end="\r")
             power_ = pd.concat(power, axis=0)
             app_dict = self.model.get(app_name, {'sum': 0,'n_elem': 0})
-            app_dict['sum'] += int(np.nansum(power_.values))
-            app_dict['n_elem'] += len(power_[~np.isnan(power_)])
+            app_dict['sum'] += float(np.nansum(power_.values))
+            app_dict['n_elem'] += int(power_.count().sum())
             self.model[app_name] = app_dict
         if self.save_model_path:
             self.save_model(self.save_model_path)
-- 
2.43.0


From 68d2427f3cb90dc5dce9920662778aff15291ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:25 +0000
Subject: [PATCH 57/86] fix: FHMM mapped states with equal means to the same
 state

---
 nilmtk/disaggregate/fhmm_exact.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/nilmtk/disaggregate/fhmm_exact.py b/nilmtk/disaggregate/fhmm_exact.py
index 8a91b59..b5a87c5 100644
--- a/nilmtk/disaggregate/fhmm_exact.py
+++ b/nilmtk/disaggregate/fhmm_exact.py
@@ -128,14 +128,9 @@ def create_combined_hmm(model):
 
 
 def return_sorting_mapping(means):
-    means_copy = deepcopy(means)
-    means_copy = np.sort(means_copy, axis=0)
-
-    # Finding mapping
-    mapping = {}
-    for i, val in enumerate(means_copy):
-        mapping[i] = np.where(val == means)[0][0]
-    return mapping
+    # Stable sort: states with the same mean are each mapped once
+    order = np.argsort(np.asarray(means).flatten(), kind='stable')
+    return {i: int(j) for i, j in enumerate(order)}
 
 
 def decode_hmm(length_sequence, centroids, appliance_list, states):
-- 
2.43.0


From d594ecc8acf6b54216eecd6209fe14ba74138f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:25 +0000
Subject: [PATCH 58/86] fix: predictions of FHMM lacked the times of the mains

---
 nilmtk/disaggregate/fhmm_exact.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/disaggregate/fhmm_exact.py b/nilmtk/disaggregate/fhmm_exact.py
index b5a87c5..bbbeb3f 100644
--- a/nilmtk/disaggregate/fhmm_exact.py
+++ b/nilmtk/disaggregate/fhmm_exact.py
@@ -298,7 +298,9 @@ class FHMMExact(Disaggregator):
                     decoded_states_array.append(decoded_states)
                     decoded_power_array.append(decoded_power)
 
-                appliance_powers = pd.DataFrame(decoded_power_array[0], dtype='float32')
+                appliance_powers = pd.DataFrame(
+                    decoded_power_array[0], dtype='float32')
+                appliance_powers.index = test_mains.index
                 test_prediction_list.append(appliance_powers)
         
         return test_prediction_list
\ No newline at end of file
-- 
2.43.0


From e1d2a26fd686f15f6f50af541e5560aa9e3672af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:25 +0000
Subject: [PATCH 59/86] fix: Hart85 could not import an exported model

---
 nilmtk/disaggregate/hart_85.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 84510c2..14da01e 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -583,8 +583,10 @@ class Hart85(Disaggregator):
         pickle_out.close()
 
     def import_model(self, filename):
-        pickle_in = open(filename)
-        self.model = pickle.load(pickle_in)
+        with open(filename, "rb") as pickle_in:
+            self.model = pickle.load(pickle_in)
+        self.best_matches = self.model['best_matches']
+        self.appliances = list(self.best_matches)
         self.columns = self.model['columns']
         self.state_threshold = self.model['state_threshold']
         self.noise_level = self.model['noise_level']
-- 
2.43.0


From 127c924bd8163597e9ab599c2fc9d07060622382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:25 +0000
Subject: [PATCH 60/86] fix: PairBuffer did not accept a transition given as a
 list

---
 nilmtk/disaggregate/hart_85.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 14da01e..366cc8a 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -79,8 +79,7 @@ class PairBuffer(object):
         # Check that we have both active and reactive powers.
         assert len(transition) == self._num_measurements
         # Convert as appropriate
-        if isinstance(transition, tuple):
-            mtransition = list(transition)
+        mtransition = list(transition)
         # Add transition to List of transitions (set marker as unpaired)
         mtransition.append(False)
         self.transition_list.append(mtransition)
-- 
2.43.0


From 86e1ac2aec268f2b3248ed18f312378ddd2a5f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:06 +0000
Subject: [PATCH 61/86] fix: Hart85 could not assign power, and left out the
 ends of the on-periods

---
 nilmtk/disaggregate/hart_85.py | 59 +++++++---------------------------
 1 file changed, 11 insertions(+), 48 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 366cc8a..cdd9785 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -517,54 +517,17 @@ class Hart85(Disaggregator):
                 power = np.zeros(len(values), dtype=int)
             else:
                 power = np.zeros((len(values), 2), dtype=int)
-            # on = False
-            i = 0
-            while i < len(values) - 1:
-                if values[i] == 1:
-                    # print("A", values[i], i)
-                    on = True
-                    i = i + 1
-                    power[i] = self.centroids.loc[appliance].values
-                    while values[i] != 0 and i < len(values) - 1:
-                        # print("B", values[i], i)
-                        power[i] = self.centroids.loc[appliance].values
-                        i = i + 1
-                elif values[i] == 0:
-                    # print("C", values[i], i)
-                    on = False
-                    i = i + 1
-                    power[i] = 0
-                    while values[i] != 1 and i < len(values) - 1:
-                        # print("D", values[i], i)
-                        if ndim == 1:
-                            power[i] = 0
-                        else:
-                            power[i] = [0, 0]
-                        i = i + 1
-                else:
-                    # print("E", values[i], i)
-                    # Unknown state. If previously we know about this
-                    # appliance's state, we can
-                    # use that. Else, it defaults to 0
-                    if prev[appliance] == -1 or prev[appliance] == 0:
-                        # print("F", values[i], i)
-                        on = False
-                        power[i] = 0
-                        while values[i] != 1 and i < len(values) - 1:
-                            # print("G", values[i], i)
-                            if ndim == 1:
-                                power[i] = 0
-                            else:
-                                power[i] = [0, 0]
-                            i = i + 1
-                    else:
-                        # print("H", values[i], i)
-                        on = True
-                        power[i] = self.centroids.loc[appliance].values
-                        while values[i] != 0 and i < len(values) - 1:
-                            # print("I", values[i], i)
-                            power[i] = self.centroids.loc[appliance].values
-                            i = i + 1
+            level = self.centroids.loc[appliance].values
+            if ndim == 1:
+                level = level[0]
+            # A state holds from its edge until the next one; states before
+            # the first edge are unknown unless `prev` tells.
+            on = prev[appliance] == 1
+            for i, value in enumerate(values):
+                if value != -1:
+                    on = value == 1
+                if on:
+                    power[i] = level
 
             di[appliance] = power
             # print(power.sum())
-- 
2.43.0


From ef102ed9a56014930c64f2a6bc4c23a9e1413de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:26 +0000
Subject: [PATCH 62/86] fix: Hart85 took an appliance turned on at the end for
 on from the start

---
 nilmtk/disaggregate/hart_85.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index cdd9785..1ef0b64 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -308,7 +308,6 @@ class Hart85(Disaggregator):
                 else:
                     # Turned off
                     states.loc[transient_tuple[0]][index_least_delta] = 0
-        prev = states.iloc[-1].to_dict()
         power_chunk_dict = self.assign_power_from_states(states, prev)
         self.power_dict = power_chunk_dict
         self.chunk_index = chunk.index
@@ -450,7 +449,6 @@ class Hart85(Disaggregator):
                     else:
                         # Turned off
                         states.loc[transient_tuple[0]][index_least_delta] = 0
-            prev = states.iloc[-1].to_dict()
             power_chunk_dict = self.assign_power_from_states(states, prev)
             self.power_dict = power_chunk_dict
             self.chunk_index = chunk.index
-- 
2.43.0


From 58137bca86c8d161ba0d060173d78473f64d9a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:26 +0000
Subject: [PATCH 63/86] fix: Hart85 predicted only the last chunk, from the
 edges of the first one

---
 nilmtk/disaggregate/hart_85.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 1ef0b64..91e6b20 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -403,8 +403,8 @@ class Hart85(Disaggregator):
         for chunk in test_mains:
           
             [_, transients] = find_steady_states(
-            test_mains[0],  state_threshold=self.state_threshold,
-            noise_level=self.noise_level)
+                chunk, state_threshold=self.state_threshold,
+                noise_level=self.noise_level)
             #print('Transients:',transients)
             # For now ignoring the first transient
             # transients = transients[1:]
@@ -453,7 +453,7 @@ class Hart85(Disaggregator):
             self.power_dict = power_chunk_dict
             self.chunk_index = chunk.index
             # Check whether 1d data or 2d data and converting dict to dataframe
-            if len(transient_tuple) == 2:
+            if len(self.centroids.columns) == 1:
                 
                 temp_df = pd.DataFrame(power_chunk_dict, index=chunk.index)  
                 
@@ -477,13 +477,13 @@ class Hart85(Disaggregator):
                         for k in range(0, 2):
                             temp_df.iloc[i,j,k] = power_chunk_dict[j,i,k]
          
-        temp_df=temp_df.fillna(0)
+            temp_df=temp_df.fillna(0)
  
-        temp=pd.DataFrame()
-        for appliance in self.appliances:
-            matched_col=self.best_matches[appliance]
-            temp[appliance]=temp_df[matched_col]
-        test_predictions_list.append(temp)    
+            temp=pd.DataFrame(index=chunk.index)
+            for appliance in self.appliances:
+                matched_col=self.best_matches[appliance]
+                temp[appliance]=temp_df[matched_col]
+            test_predictions_list.append(temp)
           
         
         return test_predictions_list
-- 
2.43.0


From 4493e6f39533b9b3a9b7deb5531b36befb72226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:26 +0000
Subject: [PATCH 64/86] fix: finding steady states failed if there are none

---
 nilmtk/feature_detectors/steady_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/feature_detectors/steady_states.py b/nilmtk/feature_detectors/steady_states.py
index e273b8b..b838924 100644
--- a/nilmtk/feature_detectors/steady_states.py
+++ b/nilmtk/feature_detectors/steady_states.py
@@ -161,7 +161,7 @@ def find_steady_states(dataframe, min_n_samples=2, state_threshold=15,
     # than the noise threshold
     #  https://github.com/nilmtk/nilmtk/issues/400
 
-    if np.sum(
+    if len(steady_states) > 0 and np.sum(
             steady_states[0] > noise_level) and index_transitions[0] == index_steady_states[0] == dataframe.iloc[0].name:
         transitions = transitions[1:]
         index_transitions = index_transitions[1:]
-- 
2.43.0


From d552d2a28b01a2cc66852d31ed24c653f7b5beb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:38 +0000
Subject: [PATCH 65/86] fix: align_two_meters stopped at the first short
 section

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 3acf86a..780cdef 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -872,7 +872,7 @@ def align_two_meters(master, slave, func='power_series'):
     master_generator = getattr(master, func)(sections=sections)
     for master_chunk in master_generator:
         if len(master_chunk) < 2:
-            return
+            continue
         chunk_timeframe = TimeFrame(master_chunk.index[0],
                                     master_chunk.index[-1])
         slave_generator = getattr(slave, func)(sections=[chunk_timeframe])
-- 
2.43.0


From 00d8207934e7d79d76c58a084d235ad0cc30c0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:38 +0000
Subject: [PATCH 66/86] fix: align_two_meters left out the last reading of each
 section

---
 nilmtk/electric.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 780cdef..1eba984 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -875,6 +875,7 @@ def align_two_meters(master, slave, func='power_series'):
             continue
         chunk_timeframe = TimeFrame(master_chunk.index[0],
                                     master_chunk.index[-1])
+        chunk_timeframe.include_end = True
         slave_generator = getattr(slave, func)(sections=[chunk_timeframe])
         slave_chunk = next(slave_generator)
 
-- 
2.43.0


From 9ce49fc7a9674bf4fe56f17a0784b171e511a5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:38 +0000
Subject: [PATCH 67/86] fix: compute_rmse compared columns by position and
 labelled meters with methods

---
 nilmtk/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index e899771..448781c 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -425,8 +425,10 @@ def compute_rmse(ground_truth, predictions, pretty=True):
             app_label = app
         
         gt_app = ground_truth.iloc[:, app_idx]
-        pred_app = predictions.iloc[:, app_idx]
-        if pred_app.empty: 
+        if app not in predictions.columns:
+            continue
+        pred_app = predictions[app]
+        if pred_app.dropna().empty:
             continue
             
         df_app = pd.DataFrame({'gt': gt_app, 'pr': pred_app}, index=gt_app.index).dropna()
@@ -454,8 +456,8 @@ def compute_rmse(ground_truth, predictions, pretty=True):
                 app = app_data[0]
                 app_data[1] = '{} ({}, {})'.format(
                     current_label,
-                    app.building,
-                    app.instance
+                    app.building(),
+                    app.instance()
                 )
             
     return pd.Series(dict(
-- 
2.43.0


From 15940a5e359b4b5f8b608215d38e920335fed4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:38 +0000
Subject: [PATCH 68/86] fix: the experiment API compared later buildings with
 the first one's readings

---
 nilmtk/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nilmtk/api.py b/nilmtk/api.py
index 5a24499..3d34042 100644
--- a/nilmtk/api.py
+++ b/nilmtk/api.py
@@ -251,6 +251,7 @@ class API():
                 if self.DROP_ALL_NANS and self.site_only:
                     test_mains, _= self.dropna(test_mains,[])
 
+                self.test_submeters = []
                 if self.site_only != True:
                     appliance_readings=[]
 
-- 
2.43.0


From deb66d6bbd1816c330011ae9d75bce7e684b9b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:50 +0000
Subject: [PATCH 69/86] fix: chunk-wise training passed the epoch as a
 positional argument models do not take

---
 nilmtk/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/api.py b/nilmtk/api.py
index 3d34042..d77d636 100644
--- a/nilmtk/api.py
+++ b/nilmtk/api.py
@@ -148,7 +148,7 @@ class API():
 
                     self.train_mains = [train_df]
                     self.train_submeters = train_appliances
-                    clf.partial_fit(self.train_mains, self.train_submeters, current_epoch)
+                    clf.partial_fit(self.train_mains, self.train_submeters, current_epoch=current_epoch)
                 
 
         print("...............Finished the Training Process ...................")
-- 
2.43.0


From c91185348e56bb755bba9ce36efdb234a734fd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:11 +0000
Subject: [PATCH 70/86] fix: the artificial aggregate did not add appliances of
 different AC types

---
 nilmtk/api.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/nilmtk/api.py b/nilmtk/api.py
index d77d636..1b0693f 100644
--- a/nilmtk/api.py
+++ b/nilmtk/api.py
@@ -138,9 +138,7 @@ class API():
                     
                     if self.artificial_aggregate:
                         print ("Creating an Artificial Aggregate")
-                        train_df = pd.DataFrame(np.zeros(appliance_readings[0].shape),index = appliance_readings[0].index,columns=appliance_readings[0].columns)
-                        for app_reading in appliance_readings:
-                            train_df+=app_reading
+                        train_df = self.sum_of_appliances(appliance_readings)
                     train_appliances = []
 
                     for cnt,i in enumerate(appliance_readings):
@@ -180,9 +178,7 @@ class API():
 
                     if self.artificial_aggregate:
                         print ("Creating an Artificial Aggregate")
-                        test_df = pd.DataFrame(np.zeros(appliance_readings[0].shape),index = appliance_readings[0].index,columns=appliance_readings[0].columns)
-                        for app_reading in appliance_readings:
-                            test_df+=app_reading
+                        test_df = self.sum_of_appliances(appliance_readings)
 
                     test_appliances = []
 
@@ -223,9 +219,7 @@ class API():
 
                 if self.artificial_aggregate:
                     print ("Creating an Artificial Aggregate")
-                    train_df = pd.DataFrame(np.zeros(appliance_readings[0].shape),index = appliance_readings[0].index,columns=appliance_readings[0].columns)
-                    for app_reading in appliance_readings:
-                        train_df+=app_reading
+                    train_df = self.sum_of_appliances(appliance_readings)
 
                 self.train_mains.append(train_df)
                 for i,appliance_name in enumerate(self.appliances):
@@ -264,9 +258,7 @@ class API():
                 
                     if self.artificial_aggregate:
                         print ("Creating an Artificial Aggregate")
-                        test_mains = pd.DataFrame(np.zeros(appliance_readings[0].shape),index = appliance_readings[0].index,columns=appliance_readings[0].columns)
-                        for app_reading in appliance_readings:
-                            test_mains+=app_reading
+                        test_mains = self.sum_of_appliances(appliance_readings)
                     for i, appliance_name in enumerate(self.appliances):
                         self.test_submeters.append((appliance_name,[appliance_readings[i]]))
 
@@ -275,6 +267,18 @@ class API():
                 self.call_predict(self.classifiers, test.metadata["timezone"])
 
 
+    def sum_of_appliances(self, appliance_readings):
+        """
+        Returns the sum of the appliance readings, which may be of different AC types
+        """
+        first = appliance_readings[0]
+        total = pd.DataFrame(np.zeros(first.shape), index=first.index, columns=first.columns)
+        for app_reading in appliance_readings:
+            if len(app_reading.columns) == len(total.columns):
+                app_reading = app_reading.set_axis(total.columns, axis=1)
+            total = total + app_reading
+        return total
+
     def dropna(self,mains_df, appliance_dfs=[]):
         """
         Drops the missing values in the Mains reading and appliance readings and returns consistent data by copmuting the intersection
-- 
2.43.0


From 3e0e95c514540883b4089e2004a90d77fc082a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:24 +0000
Subject: [PATCH 71/86] Revert "fix: the experiment API compared later
 buildings with the first one's readings"

The later readings of an appliance already replaced the earlier ones when the ground truth was put
together, so results were right without it.
---
 nilmtk/api.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nilmtk/api.py b/nilmtk/api.py
index 1b0693f..80ac660 100644
--- a/nilmtk/api.py
+++ b/nilmtk/api.py
@@ -245,7 +245,6 @@ class API():
                 if self.DROP_ALL_NANS and self.site_only:
                     test_mains, _= self.dropna(test_mains,[])
 
-                self.test_submeters = []
                 if self.site_only != True:
                     appliance_readings=[]
 
-- 
2.43.0


From 8f9667f52976b45dfcd14a941bb9e8418cce4942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:11 +0000
Subject: [PATCH 72/86] fix: the AMPds, iAWE and COMBED converters passed the
 axis of drop by position

---
 nilmtk/dataset_converters/ampds/convert_ampds.py   | 2 +-
 nilmtk/dataset_converters/combed/convert_combed.py | 2 +-
 nilmtk/dataset_converters/iawe/convert_iawe.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/dataset_converters/ampds/convert_ampds.py b/nilmtk/dataset_converters/ampds/convert_ampds.py
index e86ca6f..ca5be74 100644
--- a/nilmtk/dataset_converters/ampds/convert_ampds.py
+++ b/nilmtk/dataset_converters/ampds/convert_ampds.py
@@ -67,7 +67,7 @@ def convert_ampds(input_path, output_filename, format='HDF'):
         # Due to fixed width, column names have spaces :(
         df.columns = [x.replace(" ", "") for x in df.columns]
         df.index = pd.to_datetime(df[TIMESTAMP_COLUMN_NAME], unit='s', utc=True)
-        df = df.drop(TIMESTAMP_COLUMN_NAME, 1)
+        df = df.drop(TIMESTAMP_COLUMN_NAME, axis=1)
         df = df.tz_convert(TIMEZONE)
         df.columns = pd.MultiIndex.from_tuples(
             [columnNameMapping[x] for x in df.columns],
diff --git a/nilmtk/dataset_converters/combed/convert_combed.py b/nilmtk/dataset_converters/combed/convert_combed.py
index 4783e2a..c6e59a0 100644
--- a/nilmtk/dataset_converters/combed/convert_combed.py
+++ b/nilmtk/dataset_converters/combed/convert_combed.py
@@ -69,7 +69,7 @@ def convert_combed(combed_path, output_filename, format='HDF'):
                         print(filename_attribute)
                         df = pd.read_csv(filename_attribute, names=["timestamp", attribute])
                         df.index = pd.to_datetime(df["timestamp"], unit='ms')
-                        df = df.drop("timestamp", 1)
+                        df = df.drop("timestamp", axis=1)
                         dfs.append(df)
                     else:
                         exists = False
diff --git a/nilmtk/dataset_converters/iawe/convert_iawe.py b/nilmtk/dataset_converters/iawe/convert_iawe.py
index 9071462..145555e 100644
--- a/nilmtk/dataset_converters/iawe/convert_iawe.py
+++ b/nilmtk/dataset_converters/iawe/convert_iawe.py
@@ -74,7 +74,7 @@ def convert_iawe(iawe_path, output_filename, format="HDF"):
         df.drop_duplicates(subset=["timestamp"], inplace=True)
         df.index = pd.to_datetime(df.timestamp.values, unit='s', utc=True)
         df = df.tz_convert(TIMEZONE)
-        df = df.drop(TIMESTAMP_COLUMN_NAME, 1)
+        df = df.drop(TIMESTAMP_COLUMN_NAME, axis=1)
         df.columns = pd.MultiIndex.from_tuples(
             [column_mapping[x] for x in df.columns],
             names=LEVEL_NAMES
-- 
2.43.0


From 66b680994ac68447aa3ce9c9c52e9f20a6c7570a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:49 +0000
Subject: [PATCH 73/86] fix: the AMPds, iAWE and COMBED converters wrote
 metadata to HDF5 only, COMBED into a file it held open

---
 nilmtk/dataset_converters/ampds/convert_ampds.py   | 6 +++---
 nilmtk/dataset_converters/combed/convert_combed.py | 7 ++++---
 nilmtk/dataset_converters/iawe/convert_iawe.py     | 6 +++---
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/nilmtk/dataset_converters/ampds/convert_ampds.py b/nilmtk/dataset_converters/ampds/convert_ampds.py
index ca5be74..d52fd8d 100644
--- a/nilmtk/dataset_converters/ampds/convert_ampds.py
+++ b/nilmtk/dataset_converters/ampds/convert_ampds.py
@@ -6,7 +6,7 @@ from os import listdir
 from nilmtk.datastore import Key
 from nilmtk.measurement import LEVEL_NAMES
 from nilmtk.utils import check_directory_exists, get_datastore, get_module_directory
-from nilm_metadata import convert_yaml_to_hdf5
+from nilm_metadata import save_yaml_to_datastore
 from sys import getfilesystemencoding
 
 # Column name mapping
@@ -79,7 +79,7 @@ def convert_ampds(input_path, output_filename, format='HDF'):
         store.put(str(key), df)
         print("Done with file #", (i + 1))
         
-    store.close()
     metadata_path = join(get_module_directory(), 'dataset_converters', 'ampds', 'metadata')
     print('Processing metadata...')
-    convert_yaml_to_hdf5(metadata_path, output_filename)
+    save_yaml_to_datastore(metadata_path, store)
+    store.close()
diff --git a/nilmtk/dataset_converters/combed/convert_combed.py b/nilmtk/dataset_converters/combed/convert_combed.py
index c6e59a0..26d4208 100644
--- a/nilmtk/dataset_converters/combed/convert_combed.py
+++ b/nilmtk/dataset_converters/combed/convert_combed.py
@@ -4,7 +4,7 @@ import os
 from sys import getfilesystemencoding
 from collections import OrderedDict
 import pandas as pd
-from nilm_metadata import convert_yaml_to_hdf5
+from nilm_metadata import save_yaml_to_datastore
 from nilmtk.datastore import Key
 from nilmtk.measurement import LEVEL_NAMES
 from nilmtk.utils import check_directory_exists, get_datastore, get_module_directory
@@ -86,9 +86,10 @@ def convert_combed(combed_path, output_filename, format='HDF'):
     if not any_file_converted:
         raise RuntimeError('No files converted, did you specify the correct path?')
                     
-    convert_yaml_to_hdf5(
+    save_yaml_to_datastore(
         join(get_module_directory(), 'dataset_converters', 'combed', 'metadata'),
-        output_filename
+        store
     )
+    store.close()
 
     print("Done converting COMBED to HDF5!")
diff --git a/nilmtk/dataset_converters/iawe/convert_iawe.py b/nilmtk/dataset_converters/iawe/convert_iawe.py
index 145555e..5717e6c 100644
--- a/nilmtk/dataset_converters/iawe/convert_iawe.py
+++ b/nilmtk/dataset_converters/iawe/convert_iawe.py
@@ -4,7 +4,7 @@ from os.path import join
 from nilmtk.datastore import Key
 from nilmtk.measurement import LEVEL_NAMES
 from nilmtk.utils import check_directory_exists, get_datastore, get_module_directory
-from nilm_metadata import convert_yaml_to_hdf5
+from nilm_metadata import save_yaml_to_datastore
 from copy import deepcopy
 
 def reindex_fill_na(df, idx):
@@ -87,10 +87,10 @@ def convert_iawe(iawe_path, output_filename, format="HDF"):
         df = reindex_fill_na(df, idx)
         assert df.isnull().sum().sum() == 0
         store.put(str(key), df)
-    store.close()
     
     metadata_dir = join(get_module_directory(), 'dataset_converters', 'iawe', 'metadata')
-    convert_yaml_to_hdf5(metadata_dir, output_filename)
+    save_yaml_to_datastore(metadata_dir, store)
+    store.close()
 
     print("Done converting iAWE to HDF5!")
 
-- 
2.43.0


From f3798cd96e372801f73cb1da5a9e5ee0cc5054f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:49 +0000
Subject: [PATCH 74/86] fix: the COMBED converter left out meters without a
 Current file

---
 nilmtk/dataset_converters/combed/convert_combed.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/nilmtk/dataset_converters/combed/convert_combed.py b/nilmtk/dataset_converters/combed/convert_combed.py
index 26d4208..96ae10e 100644
--- a/nilmtk/dataset_converters/combed/convert_combed.py
+++ b/nilmtk/dataset_converters/combed/convert_combed.py
@@ -65,16 +65,13 @@ def convert_combed(combed_path, output_filename, format='HDF'):
                         filename_attribute = join(combed_path, 'iiitd', building_name, load_name, load_mapping_path, "%s.csv" %attribute)
                     
                     if os.path.isfile(filename_attribute):
-                        exists = True
                         print(filename_attribute)
                         df = pd.read_csv(filename_attribute, names=["timestamp", attribute])
                         df.index = pd.to_datetime(df["timestamp"], unit='ms')
                         df = df.drop("timestamp", axis=1)
                         dfs.append(df)
-                    else:
-                        exists = False
                         
-                if exists:
+                if dfs:
                     total = pd.concat(dfs, axis=1)
                     total = total.tz_localize('UTC').tz_convert('Asia/Kolkata')
                     total.columns = pd.MultiIndex.from_tuples([column_mapping[x] for x in total.columns])
-- 
2.43.0


From c78eaa1da4aa477e0ead4ed2a5c05d187cfaccf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:49 +0000
Subject: [PATCH 75/86] fix: the HIPE converter only found its metadata from
 its own directory

---
 nilmtk/dataset_converters/hipe/convert_hipe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/dataset_converters/hipe/convert_hipe.py b/nilmtk/dataset_converters/hipe/convert_hipe.py
index 541bf35..c2df69b 100644
--- a/nilmtk/dataset_converters/hipe/convert_hipe.py
+++ b/nilmtk/dataset_converters/hipe/convert_hipe.py
@@ -33,9 +33,9 @@ def convert_hipe(hipe_path, output_filename, format="HDF"):
     datastore = get_datastore(output_filename, format, mode="w")
 
     _convert(hipe_path, datastore,
-             _hipe_measurement_mapping_func, "Europe/Berlin")
+             _hipe_measurement_mapping_func)
 
-    metadata_path = "metadata"
+    metadata_path = join(get_module_directory(), "dataset_converters", "hipe", "metadata")
 
     save_yaml_to_datastore(metadata_path, datastore)
 
-- 
2.43.0


From 0270261e063bd3affca9774f16857843067f2baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:49 +0000
Subject: [PATCH 76/86] fix: the DEDDIAG converter did not import with pandas 2
 and left its store open

---
 nilmtk/dataset_converters/deddiag/convert_deddiag.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nilmtk/dataset_converters/deddiag/convert_deddiag.py b/nilmtk/dataset_converters/deddiag/convert_deddiag.py
index a42020a..d047360 100644
--- a/nilmtk/dataset_converters/deddiag/convert_deddiag.py
+++ b/nilmtk/dataset_converters/deddiag/convert_deddiag.py
@@ -21,8 +21,8 @@ measurements_conf = [['power'], ['active']]
 DEFAULT_TZ = 'Europe/Berlin'
 
 # Analyzed time period
-DEFAULT_START_DATE = Timestamp('2017-10-21 00:00:00', freq='MS')
-DEFAULT_END_DATE = Timestamp('2018-01-18 23:59:59', freq='MS')
+DEFAULT_START_DATE = Timestamp('2017-10-21 00:00:00')
+DEFAULT_END_DATE = Timestamp('2018-01-18 23:59:59')
 
 # channels
 channels = [24, 26, 27, 28, 35, 51, 52, 53, 59]
@@ -62,6 +62,7 @@ def convert_deddiag(connection,
 
     # Add metadata
     save_yaml_to_datastore(path_to_metadata, dest_file)
+    dest_file.close()
 
     print("Done converting DEDDIAG to HDF5!")
 
-- 
2.43.0


From 257c40d0cdb7c05151617d989a94419106286547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:49 +0000
Subject: [PATCH 77/86] fix: the GREEND converter used an option of read_csv
 that pandas 2 does not have

---
 nilmtk/dataset_converters/greend/convert_greend.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nilmtk/dataset_converters/greend/convert_greend.py b/nilmtk/dataset_converters/greend/convert_greend.py
index ace3ef9..d4a8b62 100644
--- a/nilmtk/dataset_converters/greend/convert_greend.py
+++ b/nilmtk/dataset_converters/greend/convert_greend.py
@@ -41,10 +41,11 @@ def _get_blocks(filename):
         block_data.seek(0)
         try:
             # ignore extra fields for some files
-            error_bad_lines = not (
-                ('building5' in filename and 'dataset_2014-02-04.csv' in filename)
+            skip_bad_lines = (
+                'building5' in filename and 'dataset_2014-02-04.csv' in filename
             )
-            df = pd.read_csv(block_data, index_col='timestamp', dtype=dtypes, error_bad_lines=error_bad_lines)
+            df = pd.read_csv(block_data, index_col='timestamp', dtype=dtypes,
+                             on_bad_lines='warn' if skip_bad_lines else 'error')
         except: #(pd.errors.ParserError, ValueError, TypeError):
             print("ERROR", filename)
             raise
-- 
2.43.0


From 9620524c50edbd55e225d493c7a290d6c43c9aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:49 +0000
Subject: [PATCH 78/86] fix: the GREEND converter wrote its metadata into a
 file it held open, and without processes took the days in no order

---
 nilmtk/dataset_converters/greend/convert_greend.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nilmtk/dataset_converters/greend/convert_greend.py b/nilmtk/dataset_converters/greend/convert_greend.py
index d4a8b62..4d86666 100644
--- a/nilmtk/dataset_converters/greend/convert_greend.py
+++ b/nilmtk/dataset_converters/greend/convert_greend.py
@@ -143,7 +143,7 @@ def convert_greend(greend_path, hdf_filename, use_mp=True):
                 house_data_dfs.extend(data)
         else:
             house_data_dfs = []
-            for fn in target_filenames:
+            for fn in sorted(target_filenames):
                 house_data_dfs.extend(_get_blocks(fn)[1])
             
         overall_df = pd.concat(house_data_dfs, sort=False).sort_index()
@@ -174,12 +174,12 @@ def convert_greend(greend_path, hdf_filename, use_mp=True):
             
         h += 1
 
+    # close h5
+    store.close()
+
 	# retrieve the dataset metadata in the metadata subfolder
     metadata_dir = join(get_module_directory(), 'dataset_converters', 'greend', 'metadata')
     convert_yaml_to_hdf5(metadata_dir, hdf_filename)
-    
-    # close h5
-    store.close()
 
 #is only called when this file is the main file... only test purpose
 if __name__ == '__main__':
-- 
2.43.0


From e9766d23f0035b741b8f4ed3ec5629ef2ea588c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:27 +0000
Subject: [PATCH 79/86] fix: the UK-DALE converter could not write CSV

---
 nilmtk/dataset_converters/ukdale/convert_ukdale.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/nilmtk/dataset_converters/ukdale/convert_ukdale.py b/nilmtk/dataset_converters/ukdale/convert_ukdale.py
index 8f402e2..3e65f78 100644
--- a/nilmtk/dataset_converters/ukdale/convert_ukdale.py
+++ b/nilmtk/dataset_converters/ukdale/convert_ukdale.py
@@ -4,7 +4,7 @@ from nilmtk.dataset_converters.redd.convert_redd import (_convert, _load_csv)
 from nilmtk import DataSet
 from nilmtk.utils import get_datastore
 from nilmtk.datastore import Key
-from nilm_metadata import convert_yaml_to_hdf5
+from nilm_metadata import convert_yaml_to_hdf5, save_yaml_to_datastore
 
 
 ONE_SEC_COLUMNS = [('power', 'active'), ('power', 'apparent'), ('voltage', '')]
@@ -42,16 +42,12 @@ def convert_ukdale(ukdale_path, output_filename, format='HDF', drop_duplicates=T
     # Convert 6-second data
     _convert(ukdale_path, store, _ukdale_measurement_mapping_func, TZ,
              sort_index=False, drop_duplicates=drop_duplicates)
-    store.close()
-
-    # Add metadata
-    if format == 'HDF':
-        convert_yaml_to_hdf5(join(ukdale_path, 'metadata'), output_filename)
 
     # Convert 1-second data
-    store.open(mode='a')
     _convert_one_sec_data(ukdale_path, store, ac_type_map, drop_duplicates)
 
+    # Add metadata
+    save_yaml_to_datastore(join(ukdale_path, 'metadata'), store)
     store.close()
     print("Done converting UK-DALE to HDF5!")
 
@@ -103,5 +99,3 @@ def _convert_one_sec_data(ukdale_path, store, ac_type_map, drop_duplicates):
         filename = join(ukdale_path, house_path, 'mains.dat')
         df = _load_csv(filename, ONE_SEC_COLUMNS, TZ, drop_duplicates=drop_duplicates)
         store.put(str(key), df)
-
-    store.close()
-- 
2.43.0


From 7c794f3aa79f36a90cafc399db441d9c0307cda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:06 +0000
Subject: [PATCH 80/86] fix: the GREEND converter left its processes running,
 which held the file

---
 nilmtk/dataset_converters/greend/convert_greend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nilmtk/dataset_converters/greend/convert_greend.py b/nilmtk/dataset_converters/greend/convert_greend.py
index 4d86666..83363c9 100644
--- a/nilmtk/dataset_converters/greend/convert_greend.py
+++ b/nilmtk/dataset_converters/greend/convert_greend.py
@@ -174,6 +174,10 @@ def convert_greend(greend_path, hdf_filename, use_mp=True):
             
         h += 1
 
+    if use_mp:
+        pool.close()
+        pool.join()
+
     # close h5
     store.close()
 
-- 
2.43.0


From 65d4fa57f82658dd3b82c00d45850e41e2065b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:35 +0000
Subject: [PATCH 81/86] fix: the shortest on and off durations ignored an
 appliance's own settings

An appliance's min_on_duration and min_off_duration were taken from its type
even where its own metadata set them, unlike its on_power_threshold.
---
 nilmtk/electric.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 1eba984..85bb042 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -93,10 +93,10 @@ class Electric(object):
                                       from_type_metadata=True):
         attr_values = []
         for a in self.appliances:
-            if from_type_metadata:
+            # The appliance's own setting overrides that of its type
+            attr_value = a.metadata.get(attr)
+            if attr_value is None and from_type_metadata:
                 attr_value = a.type.get(attr)
-            else:
-                attr_value = a.metadata.get(attr)
             if attr_value is not None:
                 attr_values.append(attr_value)
 
-- 
2.43.0


From d75d7addc28adab6bd70a0d4699b7eb213c976e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:17 +0000
Subject: [PATCH 82/86] fix: a measurement with only one limit was not clipped

---
 nilmtk/preprocessing/clip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/preprocessing/clip.py b/nilmtk/preprocessing/clip.py
index c9dc737..f059d55 100644
--- a/nilmtk/preprocessing/clip.py
+++ b/nilmtk/preprocessing/clip.py
@@ -28,7 +28,7 @@ class Clip(Node):
                 lower, upper = _find_limits(measurement, measurements)
                 lower = lower if self.lower is None else self.lower
                 upper = upper if self.upper is None else self.upper
-                if lower is not None and upper is not None:
+                if lower is not None or upper is not None:
                     # We use `chunk.iloc[:,icol]` instead of iterating
                     # through each column so we can to the clipping in place
                     icol = index_of_column_name(chunk, measurement)
-- 
2.43.0


From a89c6ad2b68068f67486faf052b842dc783c67eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:10 +0000
Subject: [PATCH 83/86] fix: no activity script for a data set with a meter
 without appliances

---
 nilmtk/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nilmtk/dataset.py b/nilmtk/dataset.py
index c7bc7f1..e8eb971 100644
--- a/nilmtk/dataset.py
+++ b/nilmtk/dataset.py
@@ -183,6 +183,8 @@ class DataSet(object):
 
             for meter in submeters:
                 appliance = meter.dominant_appliance()
+                if appliance is None:  # a meter without appliances
+                    continue
                 key = '/building{:d}/{:s}__{:d}'.format(
                     building.identifier.instance,
                     appliance.identifier.type.replace(' ', '_'),
-- 
2.43.0


From 22dac19028640e64e2e47aad916c46abfa36fecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:21 +0000
Subject: [PATCH 84/86] fix: a building without submeters could not be
 described

---
 nilmtk/metergroup.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 2403789..51b0901 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1689,6 +1689,8 @@ class MeterGroup(Electric):
     def correlation_of_sum_of_submeters_with_mains(self, **load_kwargs):
         print("Running MeterGroup.correlation_of_sum_of_submeters_with_mains...")
         submeters = self.meters_directly_downstream_of_mains()
+        if not submeters.meters:
+            return np.nan
         return self.mains().correlation(submeters, **load_kwargs)
 
     def all_meters(self):
@@ -1718,7 +1720,9 @@ class MeterGroup(Electric):
                     dropout_rates.max()))
 
         series['mains_sample_period'] = self.mains().sample_period()
-        series['submeter_sample_period'] = self.submeters().sample_period()
+        submeters = self.submeters()
+        series['submeter_sample_period'] = (
+            submeters.sample_period() if submeters.meters else np.nan)
         timeframe = self.get_timeframe()
         series['timeframe'] = "start={}, end={}".format(timeframe.start, timeframe.end)
         series['total_duration'] = str(timeframe.timedelta)
-- 
2.43.0


From 057b4039d6359adbe9362d6349c43f8f44043c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:18 +0000
Subject: [PATCH 85/86] fix: the legacy FHMM mapped states with equal means to
 the same state

---
 nilmtk/legacy/disaggregate/fhmm_exact.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/nilmtk/legacy/disaggregate/fhmm_exact.py b/nilmtk/legacy/disaggregate/fhmm_exact.py
index fd82e0c..ccbce88 100644
--- a/nilmtk/legacy/disaggregate/fhmm_exact.py
+++ b/nilmtk/legacy/disaggregate/fhmm_exact.py
@@ -126,14 +126,9 @@ def create_combined_hmm(model):
 
 
 def return_sorting_mapping(means):
-    means_copy = deepcopy(means)
-    means_copy = np.sort(means_copy, axis=0)
-
-    # Finding mapping
-    mapping = {}
-    for i, val in enumerate(means_copy):
-        mapping[i] = np.where(val == means)[0][0]
-    return mapping
+    # Stable sort: states with the same mean are each mapped once
+    order = np.argsort(np.asarray(means).flatten(), kind='stable')
+    return {i: int(j) for i, j in enumerate(order)}
 
 
 def decode_hmm(length_sequence, centroids, appliance_list, states):
-- 
2.43.0


From e8cc339d93488cca6dc8935e1db13eaab48c6e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:38 +0000
Subject: [PATCH 86/86] fix: legacy models could not be exported because their
 meters hold an open file

---
 nilmtk/elecmeter.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 8ae9ccc..99e7e49 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -66,6 +66,18 @@ class ElecMeter(Hashable, Electric):
             if self not in nilmtk.global_meter_group.meters:
                 nilmtk.global_meter_group.meters.append(self)
 
+    def __getstate__(self):
+        # Neither the cache (an open file) nor the weak reference can be
+        # pickled
+        state = self.__dict__.copy()
+        state.pop('cache', None)
+        state.pop('elec_of_building', None)
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self.cache = nilmtk.STATS_CACHE
+
     @property
     def key(self):
         return self.metadata['data_location']
-- 
2.43.0

