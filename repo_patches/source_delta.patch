From a412a59bf959d0c82f3939feea2bb75ead03af39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 01/73] fix: order features by the multi-output feature their
 slice inputs come from

---
 featuretools/computational_backends/feature_set.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featuretools/computational_backends/feature_set.py b/featuretools/computational_backends/feature_set.py
index 776c5d6..6c4d7ad 100644
--- a/featuretools/computational_backends/feature_set.py
+++ b/featuretools/computational_backends/feature_set.py
@@ -183,6 +183,9 @@ class FeatureSet(object):
             if not f.relationship_path:
                 dependencies = f.get_dependencies()
                 for dep in dependencies:
+                    # a slice is calculated by calculating the feature it is from
+                    if isinstance(dep, FeatureOutputSlice):
+                        dep = dep.base_feature
                     order[dep.unique_name()] = \
                         min(order[f.unique_name()] - 1, order[dep.unique_name()])
                     queue.append(dep)
-- 
2.43.0


From 784bdcf8f7c805cf147da670f3a8902ed709e18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 02/73] fix: aggregate over no rows when no child row is linked
 to an instance

---
 .../computational_backends/feature_set_calculator.py         | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index 88cd33e..65f7508 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -597,6 +597,11 @@ class FeatureSetCalculator(object):
         if where is not None and not base_frame_empty:
             base_frame = base_frame.loc[base_frame[where.get_name()]]
 
+        # rows which are not linked to any instance do not contribute
+        if isinstance(base_frame, pd.DataFrame) and not base_frame.empty:
+            link_var = get_relationship_variable_id(test_feature.relationship_path)
+            base_frame = base_frame[base_frame[link_var].notnull()]
+
         # when no child data, just add all the features to frame with nan
         base_frame_empty = base_frame.empty if isinstance(base_frame, pd.DataFrame) else False
         if base_frame_empty:
-- 
2.43.0


From 3552e057080081858568e9f696abbd5a2f72dd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 03/73] fix: follow one of several relationships between two
 entities when aggregating deeper

---
 featuretools/utils/gen_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/utils/gen_utils.py b/featuretools/utils/gen_utils.py
index 9f35e1b..7ed11bb 100644
--- a/featuretools/utils/gen_utils.py
+++ b/featuretools/utils/gen_utils.py
@@ -26,7 +26,7 @@ def get_relationship_variable_id(path):
     child_link_name = r.child_variable.id
     for _, r in path[1:]:
         parent_link_name = child_link_name
-        child_link_name = '%s.%s' % (r.parent_entity.id,
+        child_link_name = '%s.%s' % (r.parent_name,
                                      parent_link_name)
     return child_link_name
 
-- 
2.43.0


From 1a00909488fa28c8e31d7fa91539a325e22c04f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 04/73] fix: last time indexes take every relationship to a
 child into account

---
 featuretools/entityset/entityset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 18ad9a4..883f93c 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -771,10 +771,10 @@ class EntitySet(object):
         """
         # Generate graph of entities to find leaf entities
         children = defaultdict(list)  # parent --> child mapping
-        child_vars = defaultdict(dict)
+        child_vars = defaultdict(list)  # the variable linking each child
         for r in self.relationships:
             children[r.parent_entity.id].append(r.child_entity)
-            child_vars[r.parent_entity.id][r.child_entity.id] = r.child_variable
+            child_vars[r.parent_entity.id].append(r.child_variable)
 
         updated_entities = updated_entities or []
         if updated_entities:
@@ -843,11 +843,11 @@ class EntitySet(object):
                     continue
 
                 # updated last time from all children
-                for child_e in child_entities:
+                for child_e, child_var in zip(child_entities, child_vars[entity.id]):
                     # TODO: Figure out if Dask code related to indexes is important for Koalas
                     if child_e.last_time_index is None:
                         continue
-                    link_var = child_vars[entity.id][child_e.id].id
+                    link_var = child_var.id
 
                     lti_is_dask = isinstance(child_e.last_time_index, dd.Series)
                     lti_is_koalas = is_instance(child_e.last_time_index, ks, 'Series')
-- 
2.43.0


From f80d7ebaf1143ffe83ebb1a707ec5f4173180439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 05/73] fix: aggregations that are applied when use_previous
 leaves no child row

---
 .../feature_set_calculator.py                 | 44 +++++++++----------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index 65f7508..a7e42d9 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -602,6 +602,27 @@ class FeatureSetCalculator(object):
             link_var = get_relationship_variable_id(test_feature.relationship_path)
             base_frame = base_frame[base_frame[link_var].notnull()]
 
+        # if the use_previous property exists on this feature, include only the
+        # instances from the child entity included in that Timedelta
+        base_frame_empty = base_frame.empty if isinstance(base_frame, pd.DataFrame) else False
+        groupby_var = get_relationship_variable_id(test_feature.relationship_path)
+        use_previous = test_feature.use_previous
+        if use_previous and not base_frame_empty:
+            # Filter by use_previous values
+            time_last = self.time_last
+            if use_previous.has_no_observations():
+                time_first = time_last - use_previous
+                ti = child_entity.time_index
+                if ti is not None:
+                    base_frame = base_frame[base_frame[ti] >= time_first]
+            else:
+                n = use_previous.get_value('o')
+
+                def last_n(df):
+                    return df.iloc[-n:]
+
+                base_frame = base_frame.groupby(groupby_var, observed=True, sort=False).apply(last_n)
+
         # when no child data, just add all the features to frame with nan
         base_frame_empty = base_frame.empty if isinstance(base_frame, pd.DataFrame) else False
         if base_frame_empty:
@@ -611,29 +632,6 @@ class FeatureSetCalculator(object):
                 progress_callback(1 / float(self.num_features))
             frame = update_feature_columns(feature_values, frame)
         else:
-            relationship_path = test_feature.relationship_path
-
-            groupby_var = get_relationship_variable_id(relationship_path)
-
-            # if the use_previous property exists on this feature, include only the
-            # instances from the child entity included in that Timedelta
-            use_previous = test_feature.use_previous
-            if use_previous:
-                # Filter by use_previous values
-                time_last = self.time_last
-                if use_previous.has_no_observations():
-                    time_first = time_last - use_previous
-                    ti = child_entity.time_index
-                    if ti is not None:
-                        base_frame = base_frame[base_frame[ti] >= time_first]
-                else:
-                    n = use_previous.get_value('o')
-
-                    def last_n(df):
-                        return df.iloc[-n:]
-
-                    base_frame = base_frame.groupby(groupby_var, observed=True, sort=False).apply(last_n)
-
             to_agg = {}
             agg_rename = {}
             to_apply = set()
-- 
2.43.0


From 1d0b85bf9c27ca34a84a41b92b554a7f0fd95304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:36 +0000
Subject: [PATCH 06/73] fix: do not group features with different multi-unit
 use_previous

---
 featuretools/computational_backends/feature_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/feature_set.py b/featuretools/computational_backends/feature_set.py
index 6c4d7ad..4ce8c65 100644
--- a/featuretools/computational_backends/feature_set.py
+++ b/featuretools/computational_backends/feature_set.py
@@ -209,7 +209,7 @@ class FeatureSet(object):
 def _get_use_previous(f):  # TODO Sort and group features for DateOffset with two different temporal values
     if isinstance(f, AggregationFeature) and f.use_previous is not None:
         if len(f.use_previous.times.keys()) > 1:
-            return ("", -1)
+            return (f.use_previous.get_name(), -1)
         else:
             unit = list(f.use_previous.times.keys())[0]
             value = f.use_previous.times[unit]
-- 
2.43.0


From 7af6ceca6b7f6939e7274f26dc82f74382a0fd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:22 +0000
Subject: [PATCH 07/73] fix: approximated matrices use each row's own cutoff
 time for everything that is not approximated

---
 .../calculate_feature_matrix.py               | 24 ++++---------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/featuretools/computational_backends/calculate_feature_matrix.py b/featuretools/computational_backends/calculate_feature_matrix.py
index d690bb2..0d4ccca 100644
--- a/featuretools/computational_backends/calculate_feature_matrix.py
+++ b/featuretools/computational_backends/calculate_feature_matrix.py
@@ -336,12 +336,6 @@ def calculate_chunk(cutoff_time, chunk_size, feature_set, entityset, approximate
         feature_set = cloudpickle.loads(feature_set)
 
     feature_matrix = []
-    if no_unapproximated_aggs and approximate is not None:
-        if entityset.time_type == NumericTimeIndex:
-            group_time = np.inf
-        else:
-            group_time = datetime.now()
-
     if isinstance(cutoff_time, tuple):
         update_progress_callback = None
         if progress_bar is not None:
@@ -404,15 +398,11 @@ def calculate_chunk(cutoff_time, chunk_size, feature_set, entityset, approximate
 
                 return matrix
 
-            # if all aggregations have been approximated, can calculate all together
-            if no_unapproximated_aggs and approximate is not None:
-                inner_grouped = [[group_time, group]]
-            else:
-                # if approximated features, set cutoff_time to unbinned time
-                if precalculated_features_trie is not None:
-                    group[cutoff_df_time_var] = group[target_time]
+            # if approximated features, set cutoff_time to unbinned time
+            if precalculated_features_trie is not None:
+                group[cutoff_df_time_var] = group[target_time]
 
-                inner_grouped = group.groupby(cutoff_df_time_var, sort=True)
+            inner_grouped = group.groupby(cutoff_df_time_var, sort=True)
 
             if chunk_size is not None:
                 inner_grouped = _chunk_dataframe_groups(inner_grouped, chunk_size)
@@ -420,16 +410,12 @@ def calculate_chunk(cutoff_time, chunk_size, feature_set, entityset, approximate
             for time_last, group in inner_grouped:
                 # sort group by instance id
                 ids = group['instance_id'].sort_values().values
-                if no_unapproximated_aggs and approximate is not None:
-                    window = None
-                else:
-                    window = training_window
 
                 # calculate values for those instances at time time_last
                 _feature_matrix = calc_results(time_last,
                                                ids,
                                                precalculated_features=precalculated_features_trie,
-                                               training_window=window,
+                                               training_window=training_window,
                                                include_cutoff_time=include_cutoff_time)
 
                 if is_instance(_feature_matrix, (dd, ks), 'DataFrame'):
-- 
2.43.0


From 6d24c5316e75577bc0803e6e2b63babeb8554b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:22 +0000
Subject: [PATCH 08/73] fix: empty approximated features have a column for each
 of their outputs

---
 featuretools/computational_backends/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 0fc4d59..83ac51f 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -110,7 +110,7 @@ def gather_approximate_features(feature_set):
 
 
 def gen_empty_approx_features_df(approx_features):
-    df = pd.DataFrame(columns=[f.get_name() for f in approx_features])
+    df = pd.DataFrame(columns=[name for f in approx_features for name in f.get_feature_names()])
     df.index.name = approx_features[0].entity.index
     return df
 
-- 
2.43.0


From 0ec8591fa9c167d8f127aea60817579e28f879bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:34 +0000
Subject: [PATCH 09/73] fix: read csv entity data with the separator it was
 written with

---
 featuretools/entityset/deserialize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index 901c739..1ae2cb3 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -151,6 +151,7 @@ def read_entity_data(description, path):
     if load_format == 'csv':
         dataframe = lib.read_csv(
             file,
+            sep=kwargs.get('sep', ','),
             engine=kwargs['engine'],
             compression=kwargs['compression'],
             encoding=kwargs['encoding'],
-- 
2.43.0


From 2553c24b5371743f6a2296d2268e0bf45726a6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:56 +0000
Subject: [PATCH 10/73] fix: missing values of text columns stay missing in
 parquet entity data

---
 featuretools/entityset/serialize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/serialize.py b/featuretools/entityset/serialize.py
index dc85e78..cdd5c78 100644
--- a/featuretools/entityset/serialize.py
+++ b/featuretools/entityset/serialize.py
@@ -114,8 +114,10 @@ def write_entity_data(entity, path, format='csv', **kwargs):
         # Columns containing tuples are mapped as dtype object.
         # Issue is resolved by casting columns of dtype object to string.
         df = df.copy()
+        # Missing values stay missing.
         columns = list(df.select_dtypes('object').columns)
-        df[columns] = df[columns].astype(str)
+        for column in columns:
+            df[column] = df[column].astype(str).where(df[column].notnull(), None)
         df.to_parquet(file, **kwargs)
     elif format == 'pickle':
         # Dask currently does not support to_pickle
-- 
2.43.0


From 8f962dc20e2896f4ce8ac51851902fc13a2f87b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:26 +0000
Subject: [PATCH 11/73] fix: interesting values keep their type and value when
 an entity set is read

---
 featuretools/entityset/deserialize.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index 1ae2cb3..ff36731 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -32,8 +32,7 @@ def description_to_variable(description, entity=None):
         variable_class = variable_types.get(variable, variable_types.get('unknown'))
         kwargs = {} if is_type_string else description['type']
         variable = variable_class(description['id'], entity, **kwargs)
-        interesting_values = pd.read_json(description['properties']['interesting_values'], typ='series')
-        variable.interesting_values = interesting_values
+        variable.interesting_values = read_interesting_values(description, variable)
         variable_description = description['properties'].get('description')
         if variable_description is not None and variable_description != 'the "{}"'.format(variable.name):
             variable.description = variable_description
@@ -41,6 +40,26 @@ def description_to_variable(description, entity=None):
     return variable
 
 
+def read_interesting_values(description, variable):
+    '''Deserialize interesting values from variable description.
+
+    Args:
+        description (dict) : Description of :class:`.Variable`.
+        variable (Variable) : Instance of :class:`.Variable` the values belong to.
+
+    Returns:
+        values (list) : Interesting values, of the type of the variable's data.
+    '''
+    values = list(json.loads(description['properties']['interesting_values']).values())
+    kind = getattr(variable.interesting_values.dtype, 'kind', 'O')
+    # pandas writes dates and durations as milliseconds
+    if kind == 'M':
+        values = pd.to_datetime(values, unit='ms')
+    elif kind == 'm':
+        values = pd.to_timedelta(values, unit='ms')
+    return values
+
+
 def description_to_entity(description, entityset, path=None):
     '''Deserialize entity from entity description and add to entityset.
 
@@ -63,9 +82,7 @@ def description_to_entity(description, entityset, path=None):
         secondary_time_index=description['properties'].get('secondary_time_index'),
         variable_types={variable: variable_types[variable][0] for variable in variable_types})
     for variable in es[description['id']].variables:
-        interesting_values = variable_types[variable.id][1]['properties']['interesting_values']
-        interesting_values = pd.read_json(interesting_values, typ="series")
-        variable.interesting_values = interesting_values
+        variable.interesting_values = read_interesting_values(variable_types[variable.id][1], variable)
         variable_description = variable_types[variable.id][1]['properties'].get('description')
         if variable_description is not None and variable_description != 'the "{}"'.format(variable.name):
             variable.description = variable_description
-- 
2.43.0


From abf542dd9910c1b918e3a6f74f28ff9c6cfefe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:44 +0000
Subject: [PATCH 12/73] fix: text columns that look like numbers are read back
 as text from csv

---
 featuretools/entityset/deserialize.py | 1 +
 featuretools/entityset/serialize.py   | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index ff36731..89c8c41 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -165,6 +165,7 @@ def read_entity_data(description, path):
         kwargs['compression'] = str(kwargs['compression'])
     else:
         lib = pd
+        read_kwargs['dtype'] = {column: str for column in description['loading_info'].get('text_columns', [])}
     if load_format == 'csv':
         dataframe = lib.read_csv(
             file,
diff --git a/featuretools/entityset/serialize.py b/featuretools/entityset/serialize.py
index cdd5c78..84e7ca8 100644
--- a/featuretools/entityset/serialize.py
+++ b/featuretools/entityset/serialize.py
@@ -5,6 +5,8 @@ import tarfile
 import tempfile
 
 import dask.dataframe as dd
+import pandas as pd
+from pandas.api.types import infer_dtype
 
 from featuretools.utils.gen_utils import import_or_none, is_instance
 from featuretools.utils.s3_utils import get_transport_params, use_smartopen_es
@@ -96,8 +98,13 @@ def write_entity_data(entity, path, format='csv', **kwargs):
     location = os.path.join('data', basename)
     file = os.path.join(path, location)
     df = entity.df
+    loading_info = {'location': location, 'type': format, 'params': kwargs}
 
     if format == 'csv':
+        if isinstance(df, pd.DataFrame):
+            # text that looks like numbers has to be read as text
+            loading_info['text_columns'] = [column for column in df.select_dtypes('object').columns
+                                            if infer_dtype(df[column], skipna=True) == 'string']
         if is_instance(df, ks, 'DataFrame'):
             df = df.copy()
             columns = list(df.select_dtypes('object').columns)
@@ -129,7 +136,7 @@ def write_entity_data(entity, path, format='csv', **kwargs):
     else:
         error = 'must be one of the following formats: {}'
         raise ValueError(error.format(', '.join(FORMATS)))
-    return {'location': location, 'type': format, 'params': kwargs}
+    return loading_info
 
 
 def write_data_description(entityset, path, profile_name=None, **kwargs):
-- 
2.43.0


From 638a138240cae2a21222ca4647dab093cb96b2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:08 +0000
Subject: [PATCH 13/73] fix: renamed identity features can be calculated

---
 .../computational_backends/feature_set_calculator.py       | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index a7e42d9..393f078 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -424,8 +424,11 @@ class FeatureSetCalculator(object):
 
     def _calculate_identity_features(self, features, df, _df_trie, progress_callback):
         for f in features:
-            assert f.get_name() in df.columns, (
-                'Column "%s" missing frome dataframe' % f.get_name())
+            assert f.variable.id in df.columns, (
+                'Column "%s" missing frome dataframe' % f.variable.id)
+            # a renamed feature
+            if f.get_name() != f.variable.id:
+                df = df.assign(**{f.get_name(): df[f.variable.id]})
 
         progress_callback(len(features) / float(self.num_features))
 
-- 
2.43.0


From 6f17a7558915d0a844c140c5f407e9dc21012c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 14/73] fix: group-by features of their own group-by column are
 read back from files

---
 featuretools/feature_base/feature_base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/featuretools/feature_base/feature_base.py b/featuretools/feature_base/feature_base.py
index 4899143..4a64a35 100644
--- a/featuretools/feature_base/feature_base.py
+++ b/featuretools/feature_base/feature_base.py
@@ -726,11 +726,9 @@ class GroupByTransformFeature(TransformFeature):
 
     def get_arguments(self):
         # Do not include groupby in base_features.
-        feature_names = [feat.unique_name() for feat in self.base_features
-                         if feat.unique_name() != self.groupby.unique_name()]
         return {
             'name': self._name,
-            'base_features': feature_names,
+            'base_features': [feat.unique_name() for feat in self.base_features[:-1]],
             'primitive': serialize_primitive(self.primitive),
             'groupby': self.groupby.unique_name(),
         }
-- 
2.43.0


From 2b3d01436a003f383544311c1a1d1de59876e0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 15/73] fix: group-by features do not add to the list of base
 features they are given

---
 featuretools/feature_base/feature_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/feature_base/feature_base.py b/featuretools/feature_base/feature_base.py
index 4a64a35..f001d5e 100644
--- a/featuretools/feature_base/feature_base.py
+++ b/featuretools/feature_base/feature_base.py
@@ -689,7 +689,7 @@ class GroupByTransformFeature(TransformFeature):
         self.groupby = groupby
 
         if hasattr(base_features, '__iter__'):
-            base_features.append(groupby)
+            base_features = list(base_features) + [groupby]
         else:
             base_features = [base_features, groupby]
 
-- 
2.43.0


From 0df738c6ecbb06208f7c8c59e9a8f3167699f5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:27 +0000
Subject: [PATCH 16/73] fix: the most common value is a value when only one is
 asked for

---
 featuretools/primitives/standard/aggregation_primitives.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featuretools/primitives/standard/aggregation_primitives.py b/featuretools/primitives/standard/aggregation_primitives.py
index 3a64d26..2783285 100644
--- a/featuretools/primitives/standard/aggregation_primitives.py
+++ b/featuretools/primitives/standard/aggregation_primitives.py
@@ -354,7 +354,8 @@ class NMostCommon(AggregationPrimitive):
             if len(array) < self.n:
                 filler = np.full(self.n - len(array), np.nan)
                 array = np.append(array, filler)
-            return array
+            # a feature with one output has a value rather than an array
+            return array if self.n > 1 else array[0]
 
         return n_most_common
 
-- 
2.43.0


From a709fd86efaa1b3b097abf784e442b763a932c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:52 +0000
Subject: [PATCH 17/73] fix: missing values of LatLong columns are replaced
 whatever the index of the dataframe is

---
 featuretools/utils/entity_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/utils/entity_utils.py b/featuretools/utils/entity_utils.py
index 1ef1f6a..d8a846a 100644
--- a/featuretools/utils/entity_utils.py
+++ b/featuretools/utils/entity_utils.py
@@ -225,4 +225,4 @@ def col_is_datetime(col):
 
 def replace_latlong_nan(values):
     """replace a single `NaN` value with a tuple: `(np.nan, np.nan)`"""
-    return values.where(values.notnull(), pd.Series([(np.nan, np.nan)] * len(values)))
+    return values.where(values.notnull(), pd.Series([(np.nan, np.nan)] * len(values), index=values.index))
-- 
2.43.0


From c3f2a75b99b24cfb13ddda914f0940e4d76e41df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:52 +0000
Subject: [PATCH 18/73] fix: time since previous looks at the previous
 instance, requested or not

---
 featuretools/primitives/standard/transform_primitive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featuretools/primitives/standard/transform_primitive.py b/featuretools/primitives/standard/transform_primitive.py
index 5db373e..aca2db1 100644
--- a/featuretools/primitives/standard/transform_primitive.py
+++ b/featuretools/primitives/standard/transform_primitive.py
@@ -86,6 +86,7 @@ class TimeSincePrevious(TransformPrimitive):
     name = "time_since_previous"
     input_types = [DatetimeTimeIndex]
     return_type = Numeric
+    uses_full_entity = True
     description_template = "the time since the previous instance of {}"
 
     def __init__(self, unit="seconds"):
-- 
2.43.0


From 2ae92fa3c0f0574499e052cc35de18f904aea435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 19/73] fix: primitives that exclude what they are the base of
 can be used in DFS

---
 featuretools/synthesis/deep_feature_synthesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index ccf8451..0bd263c 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -852,7 +852,7 @@ def check_stacking(primitive, inputs):
 
     for f in inputs:
         if f.primitive.base_of_exclude is not None:
-            if primitive in f.base_of_exclude:
+            if isinstance(primitive, tuple(f.primitive.base_of_exclude)):
                 return False
 
     for f in inputs:
-- 
2.43.0


From 5dfde72e880a5631b7574c1b70376a54c95732ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 20/73] fix: direct features do not exceed max_depth where
 entities are connected in several ways

---
 .../synthesis/deep_feature_synthesis.py       | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index 0bd263c..ed5d970 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -9,6 +9,7 @@ from featuretools.entityset.relationship import RelationshipPath
 from featuretools.feature_base import (
     AggregationFeature,
     DirectFeature,
+    FeatureOutputSlice,
     GroupByTransformFeature,
     IdentityFeature,
     TransformFeature
@@ -659,10 +660,18 @@ class DeepFeatureSynthesis(object):
             max_depth=max_depth,
             variable_type=variable_types.PandasTypes._all)
 
+        # Features of other entities are checked against the maximum depth when
+        # something is built on them, features of the target entity are final.
+        seed_names = set(f.unique_name() for f in self.seed_features)
+        is_final = max_depth is not None and child_entity.id == self.target_entity_id
+
         for f in features:
             if self._feature_in_relationship_path(relationship_path, f):
                 continue
 
+            if is_final and _input_depth(f, seed_names) >= max_depth:
+                continue
+
             # limits allowing direct features of agg_feats with where clauses
             if isinstance(f, AggregationFeature):
                 deep_base_features = [f] + f.get_dependencies(deep=True)
@@ -959,6 +968,16 @@ def _features_have_same_path(input_features):
     return True
 
 
+def _input_depth(feature, stop_at):
+    """depth of the inputs of a feature, regardless of where clauses and of
+       selecting one output of a multi-output feature"""
+    if isinstance(feature, IdentityFeature) or feature.unique_name() in stop_at:
+        return 0
+    if isinstance(feature, FeatureOutputSlice):
+        return _input_depth(feature.base_feature, stop_at)
+    return 1 + max(_input_depth(f, stop_at) for f in feature.base_features)
+
+
 def _direct_of_entity(feature, parent_entity):
     return isinstance(feature, DirectFeature) \
         and feature.parent_entity.id == parent_entity.id
-- 
2.43.0


From d1eeb319d036b6fcfa65f73547a9a327ea81387a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 21/73] fix: the order of DFS features with a where clause does
 not depend on string hashing

---
 featuretools/synthesis/deep_feature_synthesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index ed5d970..0fc094c 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -715,7 +715,7 @@ class DeepFeatureSynthesis(object):
                                                         feature_filter=feature_filter)
             matching_inputs = filter_matches_by_options(matching_inputs,
                                                         current_options)
-            wheres = list(self.where_clauses[child_entity.id])
+            wheres = sorted(self.where_clauses[child_entity.id], key=lambda f: f.unique_name())
 
             for matching_input in matching_inputs:
                 if not check_stacking(agg_prim, matching_input):
-- 
2.43.0


From cdff7443d7fe37955c13023ac600d066704c9ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:49 +0000
Subject: [PATCH 22/73] fix: aggregated datetimes that are all missing are
 datetimes

---
 .../computational_backends/feature_set_calculator.py      | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index 393f078..c13cb23 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -749,6 +749,14 @@ class FeatureSetCalculator(object):
                     frame[f.get_name()].dtype.name in ['object', 'bool']):
                 frame[f.get_name()] = frame[f.get_name()].astype(float)
 
+        # datetimes that are all missing are still datetimes
+        if isinstance(frame, pd.DataFrame):
+            for f in features:
+                if issubclass(f.variable_type, variable_types.Datetime):
+                    for name in f.get_feature_names():
+                        if frame[name].isnull().all():
+                            frame[name] = pd.to_datetime(frame[name])
+
         return frame
 
     def _necessary_columns(self, entity_id, feature_names):
-- 
2.43.0


From 94bb38ff8a68d2a35fc548e2bde76dbcd6251283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:24 +0000
Subject: [PATCH 23/73] fix: inputs of commutative primitives whose names
 differ in case only have one order

---
 featuretools/synthesis/deep_feature_synthesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index 0fc094c..1b7c65e 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -924,7 +924,7 @@ def match(input_types, features, replace=False, commutative=False, require_direc
             matching_inputs.add(new_match)
 
     if commutative:
-        matching_inputs = {tuple(sorted(s, key=lambda x: x.get_name().lower())) for s in matching_inputs}
+        matching_inputs = {tuple(sorted(s, key=lambda x: (x.get_name().lower(), x.get_name()))) for s in matching_inputs}
 
     return matching_inputs
 
-- 
2.43.0


From f2d3ea68ef96dbad96f833a913eb0e78c5030f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 24/73] fix: children without last time do not hide the last
 time of their siblings

---
 featuretools/entityset/entityset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 883f93c..0f3b4dc 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -874,7 +874,8 @@ class EntitySet(object):
 
                         # sort by time and keep only the most recent
                         lti_df.sort_values(['last_time', entity.index],
-                                           kind="mergesort", inplace=True)
+                                           kind="mergesort", na_position='first',
+                                           inplace=True)
 
                         lti_df.drop_duplicates(entity.index,
                                                keep='last',
-- 
2.43.0


From 0a80ba63f1b950e01ab11133ee27d536f1e5ca32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 25/73] fix: the base time index can be among the copied
 variables of normalize_entity

---
 featuretools/entityset/entityset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 0f3b4dc..46dd808 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -638,9 +638,11 @@ class EntitySet(object):
             assert base_entity.time_index is not None, \
                 "Base entity doesn't have time_index defined"
 
-            if base_time_index not in [v for v in additional_variables]:
-                copy_variables.append(base_time_index)
+            if base_time_index not in additional_variables + copy_variables:
+                copy_variables = copy_variables + [base_time_index]
 
+            # the base time index is renamed to the new time index
+            transfer_types.pop(base_time_index, None)
             transfer_types[new_entity_time_index] = type(base_entity[base_entity.time_index])
         else:
             new_entity_time_index = None
-- 
2.43.0


From d6e6aa65b452dbc5f0ee874553ccb37ea6319c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 26/73] fix: deleted variables are no longer in the secondary
 time index and the metadata

---
 featuretools/entityset/entity.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 1683379..6b32368 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -369,6 +369,13 @@ class Entity(object):
             v = self._get_variable(v_id)
             self.variables.remove(v)
 
+        # secondary time indexes refer to variables that are still there
+        self.secondary_time_index = {
+            time_index: [c for c in columns if c not in variable_ids]
+            for time_index, columns in self.secondary_time_index.items()
+            if time_index not in variable_ids}
+        self.entityset.reset_data_description()
+
     def set_time_index(self, variable_id, already_sorted=False):
         # check time type
         if not isinstance(self.df, pd.DataFrame) or self.df.empty:
-- 
2.43.0


From 36bb02404bf980141287f2fd5ec4b8ee4c77005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 27/73] fix: relationships that are rejected leave the
 variables' types alone

---
 featuretools/entityset/entityset.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 46dd808..fe43b18 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -261,15 +261,6 @@ class EntitySet(object):
             raise ValueError(msg.format(child_v, child_e.id))
         parent_e = relationship.parent_entity
         parent_v = relationship.parent_variable.id
-        if not isinstance(child_e[child_v], vtypes.Id):
-            child_e.convert_variable_type(variable_id=child_v,
-                                          new_type=vtypes.Id,
-                                          convert_data=False)
-
-        if not isinstance(parent_e[parent_v], vtypes.Index):
-            parent_e.convert_variable_type(variable_id=parent_v,
-                                           new_type=vtypes.Index,
-                                           convert_data=False)
         # Empty dataframes (as a result of accessing Entity.metadata)
         # default to object dtypes for discrete variables, but
         # indexes/ids default to ints. In this case, we convert
@@ -287,6 +278,16 @@ class EntitySet(object):
             raise ValueError(msg.format(parent_v, parent_e.id, parent_dtype,
                                         child_v, child_e.id, child_dtype))
 
+        if not isinstance(child_e[child_v], vtypes.Id):
+            child_e.convert_variable_type(variable_id=child_v,
+                                          new_type=vtypes.Id,
+                                          convert_data=False)
+
+        if not isinstance(parent_e[parent_v], vtypes.Index):
+            parent_e.convert_variable_type(variable_id=parent_v,
+                                           new_type=vtypes.Index,
+                                           convert_data=False)
+
         self.relationships.append(relationship)
         self.reset_data_description()
         return self
-- 
2.43.0


From 7642a4faf413278623dcb424832a07d3a453071e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 28/73] fix: entities that are rejected do not set the time
 type of the entity set

---
 featuretools/entityset/entityset.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index fe43b18..0f47b88 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -512,16 +512,22 @@ class EntitySet(object):
                                  "Cannot add entity of type {} to an entityset with existing entities "
                                  "of type {}".format(type(dataframe), type(self.entities[0].df)))
 
-        entity = Entity(
-            entity_id,
-            dataframe,
-            self,
-            variable_types=variable_types,
-            index=index,
-            time_index=time_index,
-            secondary_time_index=secondary_time_index,
-            already_sorted=already_sorted,
-            make_index=make_index)
+        time_type = self.time_type
+        try:
+            entity = Entity(
+                entity_id,
+                dataframe,
+                self,
+                variable_types=variable_types,
+                index=index,
+                time_index=time_index,
+                secondary_time_index=secondary_time_index,
+                already_sorted=already_sorted,
+                make_index=make_index)
+        except Exception:
+            # an entity that is rejected does not decide the kind of time
+            self.time_type = time_type
+            raise
         self.entity_dict[entity.id] = entity
         self.reset_data_description()
         return self
-- 
2.43.0


From adc01dcd7c5f61e3c2044ac31760fafd8eade8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 29/73] fix: concat does not add last time indexes where
 neither entity set has them

---
 featuretools/entityset/entityset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 0f47b88..5b8a798 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -762,7 +762,8 @@ class EntitySet(object):
             combined_es[entity.id].update_data(df=combined_df,
                                                recalculate_last_time_indexes=False)
 
-        combined_es.add_last_time_indexes(updated_entities=has_last_time_index)
+        if has_last_time_index:
+            combined_es.add_last_time_indexes(updated_entities=has_last_time_index)
         self.reset_data_description()
         return combined_es
 
-- 
2.43.0


From d1a93e286b44b606311fdc05efc327a920f2f883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:27 +0000
Subject: [PATCH 30/73] fix: deep equality of entity sets compares the data

---
 featuretools/utils/wrangle.py | 58 +++++++++++++----------------------
 1 file changed, 21 insertions(+), 37 deletions(-)

diff --git a/featuretools/utils/wrangle.py b/featuretools/utils/wrangle.py
index 7166a70..effd02e 100644
--- a/featuretools/utils/wrangle.py
+++ b/featuretools/utils/wrangle.py
@@ -113,48 +113,32 @@ def _check_time_type(time):
 
 
 def _dataframes_equal(df1, df2):
-    # ^ means XOR
-    df1_empty = bool(len(df1))
-    df2_empty = bool(len(df2))
-    if df1_empty ^ df2_empty:
+    if (len(df1) == 0) != (len(df2) == 0):
         return False
-    elif not df1_empty and not df2_empty:
-        if not set(df1.columns) == set(df2.columns):
-            return False
+    elif not isinstance(df1, pd.DataFrame) or not isinstance(df2, pd.DataFrame):
+        # the values of Dask and Koalas dataframes are not compared
+        return True
 
-        for c in df1:
-            df1c = df1[c]
-            df2c = df2[c]
-            if df1c.dtype == object:
-                df1c = df1c.astype('unicode')
-            if df2c.dtype == object:
-                df2c = df2c.astype('unicode')
-
-            normal_compare = True
-            if df1c.dtype == object:
-                dropped = df1c.dropna()
-                if not dropped.empty:
-                    if isinstance(dropped.iloc[0], tuple):
-                        dropped2 = df2[c].dropna()
-                        normal_compare = False
-                        for i in range(len(dropped.iloc[0])):
-                            try:
-                                equal = dropped.apply(lambda x: x[i]).equals(
-                                    dropped2.apply(lambda x: x[i]))
-                            except IndexError:
-                                raise IndexError("If column data are tuples, they must all be the same length")
-                            if not equal:
-                                return False
-            if normal_compare:
-                # handle nan equality correctly
-                # This way is much faster than df1.equals(df2)
-                result = df1c == df2c
-                result[pd.isnull(df1c) == pd.isnull(df2c)] = True
-                if not result.all():
-                    return False
+    if set(df1.columns) != set(df2.columns) or not df1.index.equals(df2.index):
+        return False
+    for c in df1:
+        # missing values are equal, however they are represented
+        null = df1[c].isnull()
+        if not null.equals(df2[c].isnull()):
+            return False
+        pairs = zip(df1[c][~null].astype(object), df2[c][~null].astype(object))
+        if not all(_values_equal(x, y) for x, y in pairs):
+            return False
     return True
 
 
+def _values_equal(x, y):
+    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
+        return len(x) == len(y) and all(a == b or (pd.isnull(a) and pd.isnull(b))
+                                        for a, b in zip(x, y))
+    return x == y
+
+
 def _is_s3(string):
     '''
     Checks if the given string is a s3 path.
-- 
2.43.0


From 5560f4259d7c7128fe0f93557fbae2f7a83d6903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:27 +0000
Subject: [PATCH 31/73] fix: entity sets with other relationships are not equal

---
 featuretools/entityset/entityset.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 5b8a798..92ce62d 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -117,10 +117,7 @@ class EntitySet(object):
                 return False
             if not e.__eq__(other[eid], deep=deep):
                 return False
-        for r in self.relationships:
-            if r not in other.relationships:
-                return False
-        return True
+        return set(self.relationships) == set(other.relationships)
 
     def __ne__(self, other, deep=False):
         return not self.__eq__(other, deep=deep)
-- 
2.43.0


From 62206134fea032fecc240fa6c5eef7e861b50785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:27 +0000
Subject: [PATCH 32/73] fix: variables of different types are not equal

---
 featuretools/variable_types/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/variable_types/variable.py b/featuretools/variable_types/variable.py
index 6668ae1..d6bf7f1 100644
--- a/featuretools/variable_types/variable.py
+++ b/featuretools/variable_types/variable.py
@@ -57,7 +57,7 @@ class Variable(object):
         return self.entity.entityset
 
     def __eq__(self, other, deep=False):
-        shallow_eq = isinstance(other, self.__class__) and \
+        shallow_eq = type(self) is type(other) and \
             self.id == other.id and \
             self.entity_id == other.entity_id
         if not deep:
-- 
2.43.0


From 7120df110f7bd8713e7a3cc108c96955429db0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 33/73] fix: entities do not add or convert columns of the
 dataframe they are made from

---
 featuretools/entityset/entity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 6b32368..9402518 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -61,6 +61,9 @@ class Entity(object):
                 Otherwise, assume index exists in dataframe.
         """
         _validate_entity_params(id, df, time_index)
+        if isinstance(df, (pd.DataFrame, dd.DataFrame)):
+            # columns are added and converted below, but not in the caller's dataframe
+            df = df.copy(deep=False)
         created_index, index, df = _create_index(index, make_index, df)
 
         self.id = id
-- 
2.43.0


From 9e8fe92eaf93c1f14939aa61cc158cbaba799c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 34/73] fix: secondary time indexes are not added to the
 caller's lists

---
 featuretools/entityset/entity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 9402518..0eff611 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -432,6 +432,9 @@ class Entity(object):
         self.index = variable_id
 
     def set_secondary_time_index(self, secondary_time_index):
+        # the caller's lists are not extended below
+        secondary_time_index = {time_index: list(columns)
+                                for time_index, columns in secondary_time_index.items()}
         for time_index, columns in secondary_time_index.items():
             if is_instance(self.df, (dd, ks), 'DataFrame') or self.df.empty:
                 time_to_check = vtypes.DEFAULT_DTYPE_VALUES[self[time_index]._default_pandas_dtype]
-- 
2.43.0


From 89f7d28ecf286883988533974c036ef24b123120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 35/73] fix: features with any condition can be described

---
 .../feature_base/feature_descriptions.py       | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/featuretools/feature_base/feature_descriptions.py b/featuretools/feature_base/feature_descriptions.py
index e2dbe46..cdc3850 100644
--- a/featuretools/feature_base/feature_descriptions.py
+++ b/featuretools/feature_base/feature_descriptions.py
@@ -100,10 +100,7 @@ def generate_description(feature, feature_descriptions, primitive_templates):
     # Generate where phrase
     where = ''
     if hasattr(feature, 'where') and feature.where:
-        where_col = generate_description(feature.where.base_features[0],
-                                         feature_descriptions,
-                                         primitive_templates)
-        where = 'where {} is {}'.format(where_col, feature.where.primitive.value)
+        where = get_where_description(feature.where, feature_descriptions, primitive_templates)
 
     # Join all parts of template
     description_template = [primitive_description, entity_description, where, groupby]
@@ -112,6 +109,19 @@ def generate_description(feature, feature_descriptions, primitive_templates):
     return description
 
 
+def get_where_description(where, feature_descriptions, primitive_templates):
+    if isinstance(where.primitive, ft.primitives.EqualScalar):
+        where_col = generate_description(where.base_features[0],
+                                         feature_descriptions,
+                                         primitive_templates)
+        return 'where {} is {}'.format(where_col, where.primitive.value)
+
+    condition = generate_description(where, feature_descriptions, primitive_templates)
+    if condition.startswith('whether '):
+        return 'where {}'.format(condition[len('whether '):])
+    return 'where {} is True'.format(condition)
+
+
 def get_direct_description(feature):
     direct_description = ' the instance of "{}" associated with this ' \
         'instance of "{}"'.format(feature.relationship_path[-1][1].parent_entity.id,
-- 
2.43.0


From 28233a62e91c4937b3dd634982c41a371b972f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 36/73] fix: slices of multi-output features can be calculated

---
 featuretools/computational_backends/feature_set.py       | 3 +++
 .../computational_backends/feature_set_calculator.py     | 6 ++++++
 featuretools/computational_backends/utils.py             | 9 ++++++++-
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/feature_set.py b/featuretools/computational_backends/feature_set.py
index 4ce8c65..66bb4e7 100644
--- a/featuretools/computational_backends/feature_set.py
+++ b/featuretools/computational_backends/feature_set.py
@@ -90,6 +90,9 @@ class FeatureSet(object):
                             path_constructor=RelationshipPath)
 
         for f in self.target_features:
+            # a slice is calculated by calculating the feature it is from
+            if isinstance(f, FeatureOutputSlice):
+                f = f.base_feature
             self._add_feature_to_trie(feature_trie,
                                       f,
                                       self.approximate_feature_trie)
diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index c13cb23..f3f593f 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -12,6 +12,7 @@ from featuretools.exceptions import UnknownFeature
 from featuretools.feature_base import (
     AggregationFeature,
     DirectFeature,
+    FeatureOutputSlice,
     GroupByTransformFeature,
     IdentityFeature,
     TransformFeature
@@ -122,6 +123,11 @@ class FeatureSetCalculator(object):
         # df_trie.
         df = df_trie.value
 
+        # Columns of features which are slices are named after the feature they are from
+        for feat in self.feature_set.target_features:
+            if isinstance(feat, FeatureOutputSlice) and feat.get_name() not in df.columns:
+                df = df.assign(**{feat.get_name(): df[feat.generate_name()]})
+
         # Fill in empty rows with default values. This only works for pandas dataframes
         # and is not currently supported for Dask dataframes.
         if isinstance(df, pd.DataFrame):
diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 83ac51f..eb43b59 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -8,7 +8,11 @@ import pandas as pd
 import psutil
 
 from featuretools.entityset.relationship import RelationshipPath
-from featuretools.feature_base import AggregationFeature, DirectFeature
+from featuretools.feature_base import (
+    AggregationFeature,
+    DirectFeature,
+    FeatureOutputSlice
+)
 from featuretools.utils import Trie
 from featuretools.utils.wrangle import _check_time_type, _check_timedelta
 from featuretools.variable_types import (
@@ -94,6 +98,9 @@ def gather_approximate_features(feature_set):
         if feature_set.uses_full_entity(feature, check_dependents=True):
             continue
 
+        if isinstance(feature, FeatureOutputSlice):
+            feature = feature.base_feature
+
         if isinstance(feature, DirectFeature):
             path = feature.relationship_path
             base_feature = feature.base_features[0]
-- 
2.43.0


From 0b8f836f3a2baf8cfdfb0a803edfda3eb6f84fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 37/73] fix: low information selection keeps the multi-output
 features of kept columns

---
 featuretools/selection/selection.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/featuretools/selection/selection.py b/featuretools/selection/selection.py
index 0f287e7..6f4265b 100644
--- a/featuretools/selection/selection.py
+++ b/featuretools/selection/selection.py
@@ -15,12 +15,7 @@ def remove_low_information_features(feature_matrix, features=None):
     keep = [c for c in feature_matrix
             if (feature_matrix[c].nunique(dropna=False) > 1 and
                 feature_matrix[c].dropna().shape[0] > 0)]
-    feature_matrix = feature_matrix[keep]
-    if features is not None:
-        features = [f for f in features
-                    if f.get_name() in feature_matrix.columns]
-        return feature_matrix, features
-    return feature_matrix
+    return _apply_feature_selection(keep, feature_matrix, features)
 
 
 def remove_highly_null_features(feature_matrix, features=None, pct_null_threshold=0.95):
-- 
2.43.0


From 50a9670d8318f0d4baaf1bf55d35bfdf293c2595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 38/73] fix: features to select can be given by name

---
 featuretools/selection/selection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/featuretools/selection/selection.py b/featuretools/selection/selection.py
index 6f4265b..cf2b0fe 100644
--- a/featuretools/selection/selection.py
+++ b/featuretools/selection/selection.py
@@ -151,7 +151,10 @@ def _apply_feature_selection(keep, feature_matrix, features=None):
     if features is not None:
         new_features = []
         for f in features:
-            if f.number_output_features > 1:
+            if isinstance(f, str):
+                if f in new_feature_names:
+                    new_features.append(f)
+            elif f.number_output_features > 1:
 
                 slices = [f[i] for i in range(f.number_output_features)
                           if f[i].get_name() in new_feature_names]
-- 
2.43.0


From 4594928fd2fa0c41f07f95bddca112d49df0f537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 39/73] fix: correlated features are compared in the order of
 the feature matrix

---
 featuretools/selection/selection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featuretools/selection/selection.py b/featuretools/selection/selection.py
index cf2b0fe..256f89d 100644
--- a/featuretools/selection/selection.py
+++ b/featuretools/selection/selection.py
@@ -112,6 +112,8 @@ def remove_highly_correlated_features(feature_matrix, features=None, pct_corr_th
     else:
         for f_name in features_to_check:
             assert f_name in feature_matrix.columns, "feature named {} is not in feature matrix".format(f_name)
+        # more complex features are further right in the feature matrix
+        features_to_check = [f_name for f_name in feature_matrix.columns if f_name in features_to_check]
 
     if features_to_keep is None:
         features_to_keep = []
-- 
2.43.0


From 56fa5acbc0acb10e7c8a8e76dfa4ffbcf4e4f975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 40/73] fix: drop_first works with a dictionary of top_n

---
 featuretools/synthesis/encode_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/synthesis/encode_features.py b/featuretools/synthesis/encode_features.py
index 1732978..b4aee78 100644
--- a/featuretools/synthesis/encode_features.py
+++ b/featuretools/synthesis/encode_features.py
@@ -136,7 +136,7 @@ def encode_features(feature_matrix, features, top_n=DEFAULT_TOP_N, include_unkno
         if isinstance(top_n, dict):
             select_n = top_n.get(f.get_name(), DEFAULT_TOP_N)
         if drop_first:
-            select_n = min(len(val_counts), top_n)
+            select_n = min(len(val_counts), select_n)
             select_n = max(select_n - 1, 1)
         unique = val_counts.head(select_n).index.tolist()
         for label in unique:
-- 
2.43.0


From c6b5a77579845f485093a0dcb0d7715fc0cf3eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 41/73] fix: saved progress of one chunk does not overwrite
 another's

---
 featuretools/computational_backends/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index eb43b59..4fc8760 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -1,3 +1,4 @@
+import hashlib
 import logging
 import os
 import warnings
@@ -41,8 +42,12 @@ def save_csv_decorator(save_progress=None):
             if save_progress is None:
                 r = method(*args, **kwargs)
             else:
-                time = args[0].to_pydatetime()
-                file_name = 'ft_' + time.strftime("%Y_%m_%d_%I-%M-%S-%f") + '.csv'
+                time, ids = args[0], args[1]
+                # chunks can have the same time, but not the same time and instances
+                chunk = hashlib.md5(str((time, list(ids))).encode('utf-8')).hexdigest()[:12]
+                if isinstance(time, pd.Timestamp):
+                    time = time.to_pydatetime().strftime("%Y_%m_%d_%H-%M-%S-%f")
+                file_name = 'ft_{}_{}.csv'.format(time, chunk)
                 file_path = os.path.join(save_progress, file_name)
                 temp_dir = os.path.join(save_progress, 'temp')
                 if not os.path.exists(temp_dir):
-- 
2.43.0


From 606d1011b90b3022918711d6db5c0d3b80a35d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 42/73] fix: windows in units of time on a numeric time index
 are rejected with the intended error

---
 featuretools/utils/wrangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/utils/wrangle.py b/featuretools/utils/wrangle.py
index effd02e..96d77d2 100644
--- a/featuretools/utils/wrangle.py
+++ b/featuretools/utils/wrangle.py
@@ -94,7 +94,7 @@ def _check_time_against_column(time, time_column):
     elif isinstance(time, Timedelta):
         return (isinstance(time_column, (variable_types.Datetime, variable_types.DatetimeTimeIndex)) or
                 (isinstance(time_column, (variable_types.Ordinal, variable_types.Numeric, variable_types.TimeIndex)) and
-                 time.unit not in Timedelta._time_units))
+                 not time.has_no_observations()))
     else:
         return False
 
-- 
2.43.0


From 274e9dabd6f58f5daf0895bc4eb1a523ff656c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 43/73] fix: text with fractions is parsed as a timedelta,
 other text is rejected

---
 featuretools/utils/wrangle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featuretools/utils/wrangle.py b/featuretools/utils/wrangle.py
index 96d77d2..c39cb97 100644
--- a/featuretools/utils/wrangle.py
+++ b/featuretools/utils/wrangle.py
@@ -58,8 +58,10 @@ def _check_timedelta(td):
                 times[td_unit] = td_value
         return Timedelta(times, delta_obj=td)
     else:
-        pattern = '([0-9]+) *([a-zA-Z]+)$'
+        pattern = '([0-9]+(?:[.][0-9]+)?) *([a-zA-Z]+)$'
         match = re.match(pattern, td)
+        if match is None:
+            raise ValueError("Unable to parse timedelta: {}".format(td))
         value, unit = match.groups()
         try:
             value = int(value)
-- 
2.43.0


From 9b6e467b0dad1caee9aead81f4ff1f3111a7f490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 44/73] fix: one letter units of timedeltas can have any
 capitalization

---
 featuretools/entityset/timedelta.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/featuretools/entityset/timedelta.py b/featuretools/entityset/timedelta.py
index 5b6f4da..cd57fb9 100644
--- a/featuretools/entityset/timedelta.py
+++ b/featuretools/entityset/timedelta.py
@@ -44,6 +44,7 @@ class Timedelta(object):
     }
 
     _readable_to_unit = {v.lower(): k for k, v in _readable_units.items()}
+    _any_case_to_unit = {k.lower(): k for k in _readable_units}
 
     def __init__(self, value, unit=None, delta_obj=None):
         """
@@ -126,6 +127,9 @@ class Timedelta(object):
             unit = self._check_unit_plural(unit)
             if unit in self._readable_to_unit:
                 unit = self._readable_to_unit[unit]
+            elif unit not in self._readable_units:
+                # units can have any capitalization
+                unit = self._any_case_to_unit.get(unit.lower(), unit)
             fixed_units[unit] = value
         return fixed_units
 
-- 
2.43.0


From 12dc6b3bf903baaad1a942c87b3228fca2accdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 45/73] fix: one millisecond is not named one minute

---
 featuretools/entityset/timedelta.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/featuretools/entityset/timedelta.py b/featuretools/entityset/timedelta.py
index cd57fb9..0d4d27b 100644
--- a/featuretools/entityset/timedelta.py
+++ b/featuretools/entityset/timedelta.py
@@ -146,8 +146,6 @@ class Timedelta(object):
             return "{} {}".format(self.times[all_units[0]], self._readable_units[all_units[0]])
         final_str = ""
         for unit, value in self.times.items():
-            if value == 1:
-                unit = self.make_singular(unit)
             final_str += "{} {} ".format(value, self._readable_units[unit])
         return final_str[:-1]
 
-- 
2.43.0


From 201fc837a44b20e256a6f5ea6155c711cb698962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 46/73] fix: milliseconds can be combined with other units

---
 featuretools/entityset/timedelta.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/featuretools/entityset/timedelta.py b/featuretools/entityset/timedelta.py
index 0d4d27b..c828dd5 100644
--- a/featuretools/entityset/timedelta.py
+++ b/featuretools/entityset/timedelta.py
@@ -136,6 +136,10 @@ class Timedelta(object):
     def lower_readable_times(self):
         readable_times = dict()
         for unit, value in self.times.items():
+            if unit == 'ms':
+                # there are no milliseconds in relativedelta
+                readable_times['microseconds'] = value * 1000
+                continue
             readable_unit = self._readable_units[unit].lower()
             readable_times[readable_unit] = value
         return readable_times
-- 
2.43.0


From 89eedabd33449e726bb8307fb4b2ae6919cd3100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 47/73] fix: numeric cutoff times are rounded down to bins

---
 featuretools/computational_backends/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 4fc8760..0348347 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -28,7 +28,7 @@ logger = logging.getLogger('featuretools.computational_backend')
 def bin_cutoff_times(cutoff_time, bin_size):
     binned_cutoff_time = cutoff_time.copy()
     if type(bin_size) == int:
-        binned_cutoff_time['time'] = binned_cutoff_time['time'].apply(lambda x: x / bin_size * bin_size)
+        binned_cutoff_time['time'] = binned_cutoff_time['time'].apply(lambda x: x // bin_size * bin_size)
     else:
         bin_size = _check_timedelta(bin_size)
         binned_cutoff_time['time'] = datetime_round(binned_cutoff_time['time'], bin_size)
-- 
2.43.0


From 1c9f961b1d6b43d17332a23c1f2d5752a8112770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 48/73] fix: approximation by several units is rejected

---
 featuretools/computational_backends/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 0348347..899195d 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -82,7 +82,7 @@ def datetime_round(dt, freq):
         freq = str(value) + unit
         return dt.dt.floor(freq)
     else:
-        assert "Frequency cannot have multiple temporal parameters"
+        raise ValueError("Frequency cannot have multiple temporal parameters")
 
 
 def gather_approximate_features(feature_set):
-- 
2.43.0


From 1496a154235a207b49793e247835b992488d2642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:27 +0000
Subject: [PATCH 49/73] fix: long units of timedeltas can be in capitals

---
 featuretools/entityset/timedelta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/entityset/timedelta.py b/featuretools/entityset/timedelta.py
index c828dd5..eb59280 100644
--- a/featuretools/entityset/timedelta.py
+++ b/featuretools/entityset/timedelta.py
@@ -84,7 +84,7 @@ class Timedelta(object):
 
     @classmethod
     def _check_unit_plural(cls, s):
-        if len(s) > 2 and not s.endswith('s'):
+        if len(s) > 2 and not s.lower().endswith('s'):
             return (s + 's').lower()
         elif len(s) > 1:
             return s.lower()
-- 
2.43.0


From 56f1ae5657332dc97cf4e9b71710de60e3180d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:33 +0000
Subject: [PATCH 50/73] fix: approximation accepts timedeltas with fractional
 units

---
 featuretools/computational_backends/utils.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 899195d..f7a913c 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -73,14 +73,7 @@ def datetime_round(dt, freq):
     if len(all_units) == 1:
         unit = all_units[0]
         value = freq.times[unit]
-        if unit == 'm':
-            unit = 't'
-        # No support for weeks in datetime.datetime
-        if unit == 'w':
-            unit = 'd'
-            value = value * 7
-        freq = str(value) + unit
-        return dt.dt.floor(freq)
+        return dt.dt.floor(pd.Timedelta(value, unit))
     else:
         raise ValueError("Frequency cannot have multiple temporal parameters")
 
-- 
2.43.0


From faab8bb7b7de1e01558c68015297c17f6d5f47b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 51/73] fix: the copy of a renamed feature has its name

---
 featuretools/feature_base/feature_base.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/featuretools/feature_base/feature_base.py b/featuretools/feature_base/feature_base.py
index f001d5e..df189df 100644
--- a/featuretools/feature_base/feature_base.py
+++ b/featuretools/feature_base/feature_base.py
@@ -361,7 +361,7 @@ class IdentityFeature(FeatureBase):
 
     def copy(self):
         """Return copy of feature"""
-        return IdentityFeature(self.variable)
+        return IdentityFeature(self.variable, name=self._name)
 
     def generate_name(self):
         return self.variable.name
@@ -452,7 +452,7 @@ class DirectFeature(FeatureBase):
         """Return copy of feature"""
         _is_forward, relationship = self.relationship_path[0]
         return DirectFeature(self.base_features[0], self.entity,
-                             relationship=relationship)
+                             relationship=relationship, name=self._name)
 
     @property
     def variable_type(self):
@@ -590,7 +590,8 @@ class AggregationFeature(FeatureBase):
                                   relationship_path=self.relationship_path,
                                   primitive=self.primitive,
                                   use_previous=self.use_previous,
-                                  where=self.where)
+                                  where=self.where,
+                                  name=self._name)
 
     def _where_str(self):
         if self.where is not None:
@@ -665,7 +666,7 @@ class TransformFeature(FeatureBase):
         return cls(base_features=base_features, primitive=primitive, name=arguments['name'])
 
     def copy(self):
-        return TransformFeature(self.base_features, self.primitive)
+        return TransformFeature(self.base_features, self.primitive, name=self._name)
 
     def generate_name(self):
         return self.primitive.generate_name(base_feature_names=[bf.get_name() for bf in self.base_features])
@@ -709,7 +710,8 @@ class GroupByTransformFeature(TransformFeature):
         # so here we separate them again
         return GroupByTransformFeature(self.base_features[:-1],
                                        self.primitive,
-                                       self.groupby)
+                                       self.groupby,
+                                       name=self._name)
 
     def generate_name(self):
         # exclude the groupby feature from base_names since it has a special
@@ -815,7 +817,7 @@ class FeatureOutputSlice(FeatureBase):
         return cls(base_feature=base_feature, n=n, name=name)
 
     def copy(self):
-        return FeatureOutputSlice(self.base_feature, self.n)
+        return FeatureOutputSlice(self.base_feature, self.n, name=self._name)
 
 
 def _check_feature(feature):
-- 
2.43.0


From 278d46153bd2e0dc10cd8239676994b996616dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 52/73] fix: descriptions can be given for equal features
 rather than the same object

---
 .../feature_base/feature_descriptions.py      | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/featuretools/feature_base/feature_descriptions.py b/featuretools/feature_base/feature_descriptions.py
index cdc3850..09bc585 100644
--- a/featuretools/feature_base/feature_descriptions.py
+++ b/featuretools/feature_base/feature_descriptions.py
@@ -26,16 +26,22 @@ def describe_feature(feature, feature_descriptions=None, primitive_templates=Non
         feature_descriptions = {**file_feature_descriptions, **feature_descriptions}
         primitive_templates = {**file_primitive_templates, **primitive_templates}
 
+    # features are compared by their unique names, since == makes a new feature
+    feature_descriptions = {_description_key(key): description
+                            for key, description in feature_descriptions.items()}
+
     description = generate_description(feature, feature_descriptions, primitive_templates)
     return description[:1].upper() + description[1:] + '.'
 
 
+def _description_key(key):
+    return key.unique_name() if isinstance(key, ft.feature_base.FeatureBase) else key
+
+
 def generate_description(feature, feature_descriptions, primitive_templates):
     # Check if feature has custom description
-    if feature in feature_descriptions or feature.unique_name() in feature_descriptions:
-        description = (feature_descriptions.get(feature) or
-                       feature_descriptions.get(feature.unique_name()))
-        return description
+    if feature.unique_name() in feature_descriptions:
+        return feature_descriptions[feature.unique_name()]
 
     # Check if identity feature:
     if isinstance(feature, ft.IdentityFeature):
@@ -144,9 +150,8 @@ def get_aggregation_groupby(feature, feature_descriptions=None):
         feature_descriptions = {}
     groupby_name = feature.entity.index
     groupby = ft.IdentityFeature(feature.entity[groupby_name])
-    if groupby in feature_descriptions or groupby.unique_name() in feature_descriptions:
-        return (feature_descriptions.get(groupby) or
-                feature_descriptions.get(groupby.unique_name()))
+    if groupby.unique_name() in feature_descriptions:
+        return feature_descriptions[groupby.unique_name()]
     else:
         return '"{}" in "{}"'.format(groupby_name, feature.entity.id)
 
-- 
2.43.0


From 899a48aecc10f4f9a831211bef1c2ff43f176b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:32 +0000
Subject: [PATCH 53/73] fix: outputs of direct features are described as direct
 features

---
 .../feature_base/feature_descriptions.py      | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/featuretools/feature_base/feature_descriptions.py b/featuretools/feature_base/feature_descriptions.py
index 09bc585..6e45143 100644
--- a/featuretools/feature_base/feature_descriptions.py
+++ b/featuretools/feature_base/feature_descriptions.py
@@ -48,6 +48,7 @@ def generate_description(feature, feature_descriptions, primitive_templates):
         return feature.variable.description
 
     # Handle direct features
+    feature = get_direct_of_slice(feature)
     if isinstance(feature, ft.DirectFeature):
         base_feature, direct_description = get_direct_description(feature)
         direct_base = generate_description(base_feature,
@@ -115,6 +116,16 @@ def generate_description(feature, feature_descriptions, primitive_templates):
     return description
 
 
+def get_direct_of_slice(feature):
+    '''Turns an output of a direct feature into the direct feature of the output'''
+    if (isinstance(feature, ft.feature_base.FeatureOutputSlice) and
+            isinstance(feature.base_feature, ft.DirectFeature)):
+        direct = feature.base_feature
+        return ft.DirectFeature(direct.base_features[0][feature.n], direct.entity,
+                                relationship=direct.relationship_path[0][1])
+    return feature
+
+
 def get_where_description(where, feature_descriptions, primitive_templates):
     if isinstance(where.primitive, ft.primitives.EqualScalar):
         where_col = generate_description(where.base_features[0],
@@ -132,17 +143,16 @@ def get_direct_description(feature):
     direct_description = ' the instance of "{}" associated with this ' \
         'instance of "{}"'.format(feature.relationship_path[-1][1].parent_entity.id,
                                   feature.entity_id)
-    base_features = feature.base_features
+    base_feat = get_direct_of_slice(feature.base_features[0])
     # shortens stacked direct features to make it easier to understand
-    while isinstance(base_features[0], ft.DirectFeature):
-        base_feat = base_features[0]
+    while isinstance(base_feat, ft.DirectFeature):
         base_feat_description = ' the instance of "{}" associated ' \
             'with'.format(base_feat.relationship_path[-1][1].parent_entity.id)
         direct_description = base_feat_description + direct_description
-        base_features = base_feat.base_features
+        base_feat = get_direct_of_slice(base_feat.base_features[0])
     direct_description = ' for' + direct_description
 
-    return base_features[0], direct_description
+    return base_feat, direct_description
 
 
 def get_aggregation_groupby(feature, feature_descriptions=None):
-- 
2.43.0


From 93f9eff0909c87307fc4f0fe935a3967a957e920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:52 +0000
Subject: [PATCH 54/73] fix: custom descriptions of intermediate features and
 conditions are used

---
 featuretools/feature_base/feature_descriptions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/featuretools/feature_base/feature_descriptions.py b/featuretools/feature_base/feature_descriptions.py
index 6e45143..910612f 100644
--- a/featuretools/feature_base/feature_descriptions.py
+++ b/featuretools/feature_base/feature_descriptions.py
@@ -50,7 +50,7 @@ def generate_description(feature, feature_descriptions, primitive_templates):
     # Handle direct features
     feature = get_direct_of_slice(feature)
     if isinstance(feature, ft.DirectFeature):
-        base_feature, direct_description = get_direct_description(feature)
+        base_feature, direct_description = get_direct_description(feature, feature_descriptions)
         direct_base = generate_description(base_feature,
                                            feature_descriptions,
                                            primitive_templates)
@@ -127,7 +127,8 @@ def get_direct_of_slice(feature):
 
 
 def get_where_description(where, feature_descriptions, primitive_templates):
-    if isinstance(where.primitive, ft.primitives.EqualScalar):
+    if (isinstance(where.primitive, ft.primitives.EqualScalar) and
+            where.unique_name() not in feature_descriptions):
         where_col = generate_description(where.base_features[0],
                                          feature_descriptions,
                                          primitive_templates)
@@ -139,13 +140,14 @@ def get_where_description(where, feature_descriptions, primitive_templates):
     return 'where {} is True'.format(condition)
 
 
-def get_direct_description(feature):
+def get_direct_description(feature, feature_descriptions):
     direct_description = ' the instance of "{}" associated with this ' \
         'instance of "{}"'.format(feature.relationship_path[-1][1].parent_entity.id,
                                   feature.entity_id)
     base_feat = get_direct_of_slice(feature.base_features[0])
     # shortens stacked direct features to make it easier to understand
-    while isinstance(base_feat, ft.DirectFeature):
+    while (isinstance(base_feat, ft.DirectFeature) and
+            base_feat.unique_name() not in feature_descriptions):
         base_feat_description = ' the instance of "{}" associated ' \
             'with'.format(base_feat.relationship_path[-1][1].parent_entity.id)
         direct_description = base_feat_description + direct_description
-- 
2.43.0


From eab7bd20ab1141903b9d6b86eb70c027b156acd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:26 +0000
Subject: [PATCH 55/73] fix: arguments of primitives made from functions are
 part of the feature

---
 .../primitives/base/aggregation_primitive_base.py      |  6 +++++-
 .../primitives/base/transform_primitive_base.py        |  6 +++++-
 featuretools/primitives/base/utils.py                  | 10 ++++++++++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/featuretools/primitives/base/aggregation_primitive_base.py b/featuretools/primitives/base/aggregation_primitive_base.py
index 07e76f7..44de9d8 100755
--- a/featuretools/primitives/base/aggregation_primitive_base.py
+++ b/featuretools/primitives/base/aggregation_primitive_base.py
@@ -3,7 +3,10 @@ import functools
 import inspect
 
 from featuretools.primitives.base.primitive_base import PrimitiveBase
-from featuretools.primitives.base.utils import inspect_function_args
+from featuretools.primitives.base.utils import (
+    get_keyword_arguments,
+    inspect_function_args
+)
 
 
 class AggregationPrimitive(PrimitiveBase):
@@ -142,6 +145,7 @@ def make_agg_primitive(function, input_types, return_type, name=None,
 
         new_class.__init__ = new_class_init
         new_class.get_function = lambda self: self.partial
+        new_class.get_arguments = get_keyword_arguments
     else:
         # creates a lambda function that returns function every time
         new_class.get_function = lambda self, f=function: f
diff --git a/featuretools/primitives/base/transform_primitive_base.py b/featuretools/primitives/base/transform_primitive_base.py
index 4472581..f36577d 100755
--- a/featuretools/primitives/base/transform_primitive_base.py
+++ b/featuretools/primitives/base/transform_primitive_base.py
@@ -3,7 +3,10 @@ import functools
 import inspect
 
 from featuretools.primitives.base.primitive_base import PrimitiveBase
-from featuretools.primitives.base.utils import inspect_function_args
+from featuretools.primitives.base.utils import (
+    get_keyword_arguments,
+    inspect_function_args
+)
 
 
 class TransformPrimitive(PrimitiveBase):
@@ -114,6 +117,7 @@ def make_trans_primitive(function, input_types, return_type, name=None,
 
         new_class.__init__ = new_class_init
         new_class.get_function = lambda self: self.partial
+        new_class.get_arguments = get_keyword_arguments
     else:
         # creates a lambda function that returns function every time
         new_class.get_function = lambda self, f=function: f
diff --git a/featuretools/primitives/base/utils.py b/featuretools/primitives/base/utils.py
index 932743b..8e2c1e6 100644
--- a/featuretools/primitives/base/utils.py
+++ b/featuretools/primitives/base/utils.py
@@ -15,3 +15,13 @@ def inspect_function_args(new_class, function, uses_calc_time):
         if arg.default is not arg.empty:
             kwargs[arg.name] = arg.default
     return new_class, kwargs
+
+
+def get_keyword_arguments(primitive):
+    """Keyword arguments of a primitive made from a function that differ from
+    the defaults of the function"""
+    defaults = primitive.default_kwargs
+    return [(name, value) for name, value in primitive.kwargs.items()
+            if name not in defaults or
+            not isinstance(value, type(defaults[name])) or
+            value != defaults[name]]
-- 
2.43.0


From a218217f4cd71e4263d863c8bafa93e3af6e7313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:07 +0000
Subject: [PATCH 56/73] fix: primitives with several outputs infer no default
 value they cannot have

---
 .../primitives/base/aggregation_primitive_base.py      | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/featuretools/primitives/base/aggregation_primitive_base.py b/featuretools/primitives/base/aggregation_primitive_base.py
index 44de9d8..4ff71e6 100755
--- a/featuretools/primitives/base/aggregation_primitive_base.py
+++ b/featuretools/primitives/base/aggregation_primitive_base.py
@@ -152,10 +152,12 @@ def make_agg_primitive(function, input_types, return_type, name=None,
 
     if default_value is None:
         # infers default_value by passing empty data
-        try:
-            new_class.default_value = function(*[[]] * len(input_types))
-        except Exception:
-            pass
+        # (primitives with several outputs have one default value for all of them)
+        if number_output_features == 1:
+            try:
+                new_class.default_value = function(*[[]] * len(input_types))
+            except Exception:
+                pass
     else:
         # avoiding the inference step
         new_class.default_value = default_value
-- 
2.43.0


From 24b1b8050da967608af5fdb4205747883f8c1d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 57/73] fix: entitysets of the same structure are told apart on
 a persistent cluster

---
 .../computational_backends/calculate_feature_matrix.py    | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/featuretools/computational_backends/calculate_feature_matrix.py b/featuretools/computational_backends/calculate_feature_matrix.py
index 0d4ccca..f973c0d 100644
--- a/featuretools/computational_backends/calculate_feature_matrix.py
+++ b/featuretools/computational_backends/calculate_feature_matrix.py
@@ -586,14 +586,16 @@ def parallel_calculate_chunks(cutoff_time, chunk_size, feature_set, approximate,
         # scatter the entityset
         # denote future with leading underscore
         start = time.time()
-        es_token = "EntitySet-{}".format(tokenize(entityset))
+        # (the token of an entityset does not depend on its data)
+        es_data = [(entity.id, entity.df, entity.last_time_index) for entity in entityset.entities]
+        es_token = "EntitySet-{}".format(tokenize(entityset, es_data))
         if es_token in client.list_datasets():
             msg = "Using EntitySet persisted on the cluster as dataset {}"
             progress_bar.write(msg.format(es_token))
             _es = client.get_dataset(es_token)
         else:
-            _es = client.scatter([entityset])[0]
-            client.publish_dataset(**{_es.key: _es})
+            _es = client.scatter({es_token: entityset})[es_token]
+            client.publish_dataset(**{es_token: _es})
 
         # save features to a tempfile and scatter it
         pickled_feats = cloudpickle.dumps(feature_set)
-- 
2.43.0


From 3eb7554a528f6c37e6933aa03c90d40f58fb2ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 58/73] fix: aggregations of the column they are conditioned on
 get all their inputs

---
 .../computational_backends/feature_set_calculator.py       | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index f3f593f..e2d0ef4 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -782,15 +782,10 @@ class FeatureSetCalculator(object):
 
 def _can_agg(feature):
     assert isinstance(feature, AggregationFeature)
-    base_features = feature.base_features
-    if feature.where is not None:
-        base_features = [bf.get_name() for bf in base_features
-                         if bf.get_name() != feature.where.get_name()]
-
     if feature.primitive.uses_calc_time:
         return False
     single_output = feature.primitive.number_output_features == 1
-    return len(base_features) == 1 and single_output
+    return len(feature.base_features) == 1 and single_output
 
 
 def agg_wrapper(feats, time_last):
-- 
2.43.0


From 0f8e63186062b4607217dcfdf367226c6f3332c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 59/73] fix: the inferred type of an empty column no longer
 depends on the column before it

---
 featuretools/utils/entity_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/utils/entity_utils.py b/featuretools/utils/entity_utils.py
index d8a846a..51ad544 100644
--- a/featuretools/utils/entity_utils.py
+++ b/featuretools/utils/entity_utils.py
@@ -30,8 +30,8 @@ def infer_variable_types(df, link_vars, variable_types, time_index, secondary_ti
     vids_to_assume_datetime = [time_index]
     if len(list(secondary_time_index.keys())):
         vids_to_assume_datetime.append(list(secondary_time_index.keys())[0])
-    inferred_type = vtypes.Unknown
     for variable in df.columns:
+        inferred_type = vtypes.Unknown
         if variable in variable_types:
             continue
         elif isinstance(df, dd.DataFrame):
-- 
2.43.0


From b46303179c7e51cb29d9ea0a61de9c1b78ab7053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 60/73] fix: missing durations stay missing when a column is
 converted to numeric

---
 featuretools/utils/entity_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featuretools/utils/entity_utils.py b/featuretools/utils/entity_utils.py
index 51ad544..9b1361f 100644
--- a/featuretools/utils/entity_utils.py
+++ b/featuretools/utils/entity_utils.py
@@ -154,7 +154,8 @@ def convert_variable_data(df, column_id, new_type, **kwargs):
             df[column_id] = ks.to_numeric(df[column_id])
         else:
             orig_nonnull = df[column_id].dropna().shape[0]
-            df[column_id] = pd.to_numeric(df[column_id], errors='coerce')
+            # missing dates and durations stay missing
+            df[column_id] = pd.to_numeric(df[column_id], errors='coerce').where(df[column_id].notnull())
             # This will convert strings to nans
             # If column contained all strings, then we should
             # just raise an error, because that shouldn't have
-- 
2.43.0


From faace117016bc2d9e211c71ede5695ec74d5c1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 61/73] fix: converting to boolean failed with current numpy
 and made missing values true

---
 featuretools/utils/entity_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/featuretools/utils/entity_utils.py b/featuretools/utils/entity_utils.py
index 9b1361f..f270d42 100644
--- a/featuretools/utils/entity_utils.py
+++ b/featuretools/utils/entity_utils.py
@@ -180,8 +180,10 @@ def convert_variable_data(df, column_id, new_type, **kwargs):
                     kwargs.get("false_val", False): False,
                     True: True,
                     False: False}
-        # TODO: what happens to nans?
-        df[column_id] = df[column_id].map(map_dict).astype(np.bool)
+        df[column_id] = df[column_id].map(map_dict)
+        # values which are neither true nor false are missing
+        if not (isinstance(df, pd.DataFrame) and df[column_id].hasnans):
+            df[column_id] = df[column_id].astype(bool)
     elif not issubclass(new_type, vtypes.Discrete):
         raise Exception("Cannot convert column %s to %s" %
                         (column_id, new_type))
-- 
2.43.0


From 477346dfaf18d7960f9fabf034c3984b48aa96e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 62/73] fix: columns of durations that start with a missing one
 were taken for dates

---
 featuretools/utils/entity_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featuretools/utils/entity_utils.py b/featuretools/utils/entity_utils.py
index f270d42..5ed7a5b 100644
--- a/featuretools/utils/entity_utils.py
+++ b/featuretools/utils/entity_utils.py
@@ -205,6 +205,9 @@ def get_linked_vars(entity):
 def col_is_datetime(col):
     # check if dtype is datetime - use .head() when getting first value
     # in case column is a dask Series
+    if col.dtype.name.startswith('timedelta'):
+        return False
+
     if (col.dtype.name.find('datetime') > -1 or
             (len(col) and isinstance(col.head(1).iloc[0], datetime))):
         return True
-- 
2.43.0


From db197610b39464ca8c2d5ff6282f43ede65308cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 63/73] fix: variables kept no description when their type
 changed or the data was updated

---
 featuretools/variable_types/variable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featuretools/variable_types/variable.py b/featuretools/variable_types/variable.py
index d6bf7f1..3fead8a 100644
--- a/featuretools/variable_types/variable.py
+++ b/featuretools/variable_types/variable.py
@@ -83,6 +83,7 @@ class Variable(object):
 
         """
         v = cls(id=variable.id, name=variable.name, entity=variable.entity)
+        v._description = variable._description
         return v
 
     @property
-- 
2.43.0


From 18eeea2b5b9631a1d79ac780a61ff112a9ea3339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 64/73] fix: categories that do not occur in the data were
 interesting values

---
 featuretools/entityset/entity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 0eff611..bf10a94 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -319,7 +319,9 @@ class Entity(object):
                 if skip:
                     continue
 
+                # categories which do not occur are not interesting
                 counts = self.df[variable.id].value_counts()
+                counts = counts[counts > 0]
 
                 # find how many of each unique value there are; sort by count,
                 # and add interesting values to each variable
-- 
2.43.0


From 0052baec45ff277945b2233c249c76a8240d0453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 65/73] fix: last time indexes of entitysets with numeric times
 were dates

---
 featuretools/entityset/entityset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 92ce62d..38604b2 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -900,6 +900,8 @@ class EntitySet(object):
                             lti_df['last_time_old'] = ks.to_datetime(lti_df['last_time_old'])
                             # TODO: Figure out a workaround for fillna and replace
                             lti_df = lti_df.max(axis=1)
+                        elif self.time_type == vtypes.NumericTimeIndex:
+                            lti_df = lti_df[['last_time', 'last_time_old']].astype('float64').max(axis=1)
                         else:
                             lti_df['last_time'] = lti_df['last_time'].astype('datetime64[ns]')
                             lti_df['last_time_old'] = lti_df['last_time_old'].astype('datetime64[ns]')
-- 
2.43.0


From 9013bdef1de6f6c44e22877b4c5d2390e2cdbf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 66/73] fix: unknown instances keep their id when the index of
 the entity is categorical

---
 .../computational_backends/calculate_feature_matrix.py       | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/featuretools/computational_backends/calculate_feature_matrix.py b/featuretools/computational_backends/calculate_feature_matrix.py
index f973c0d..133bba7 100644
--- a/featuretools/computational_backends/calculate_feature_matrix.py
+++ b/featuretools/computational_backends/calculate_feature_matrix.py
@@ -168,6 +168,11 @@ def calculate_feature_matrix(features, entityset=None, cutoff_time=None, instanc
         # is same as column it references
         target_entity = features[0].entity
         dtype = entityset[target_entity.id].df[target_entity.index].dtype
+        if isinstance(dtype, pd.CategoricalDtype):
+            # instances which are not in the entity are no categories of its index
+            unknown = pd.Index(cutoff_time["instance_id"].astype(object).dropna().unique())
+            unknown = unknown.difference(dtype.categories, sort=False)
+            dtype = pd.CategoricalDtype(dtype.categories.append(unknown), ordered=dtype.ordered)
         cutoff_time["instance_id"] = cutoff_time["instance_id"].astype(dtype)
     else:
         pass_columns = []
-- 
2.43.0


From 5a1e686f68d97dc3c8ebb1804607549b7dc3ef3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 67/73] fix: last time indexes can be added to entities with a
 categorical index

---
 featuretools/entityset/entityset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 38604b2..1515918 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -830,6 +830,7 @@ class EntitySet(object):
                     elif is_instance(entity.df, ks, 'DataFrame'):
                         lti = ks.Series(pd.Series(index=lti.to_list(), name=lti.name))
                     else:
+                        lti = lti.astype(object)
                         lti[:] = None
                 entity.last_time_index = lti
 
-- 
2.43.0


From 8acbe930a628c0dc3de2209baf247916a3f98c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 68/73] fix: encode_features makes no columns of categories
 which do not occur

---
 featuretools/synthesis/encode_features.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featuretools/synthesis/encode_features.py b/featuretools/synthesis/encode_features.py
index b4aee78..9a57e0d 100644
--- a/featuretools/synthesis/encode_features.py
+++ b/featuretools/synthesis/encode_features.py
@@ -121,7 +121,9 @@ def encode_features(feature_matrix, features, top_n=DEFAULT_TOP_N, include_unkno
             new_columns.extend(f.get_feature_names())
             continue
 
-        val_counts = X[f.get_name()].value_counts().to_frame()
+        # categories which do not occur are not encoded
+        val_counts = X[f.get_name()].value_counts()
+        val_counts = val_counts[val_counts > 0].to_frame()
         index_name = val_counts.index.name
         if index_name is None:
             if 'index' in val_counts.columns:
-- 
2.43.0


From 1d9f328c37da48d72ce5df49cee1dfbccd93d0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 69/73] fix: n_most_common gives no categories which do not
 occur

---
 featuretools/primitives/standard/aggregation_primitives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featuretools/primitives/standard/aggregation_primitives.py b/featuretools/primitives/standard/aggregation_primitives.py
index 2783285..8b79ad8 100644
--- a/featuretools/primitives/standard/aggregation_primitives.py
+++ b/featuretools/primitives/standard/aggregation_primitives.py
@@ -350,7 +350,9 @@ class NMostCommon(AggregationPrimitive):
 
     def get_function(self, agg_type=Library.PANDAS):
         def n_most_common(x):
-            array = np.array(x.value_counts().index[:self.n])
+            # categories which do not occur are not common
+            counts = x.value_counts()
+            array = np.array(counts[counts > 0].index[:self.n])
             if len(array) < self.n:
                 filler = np.full(self.n - len(array), np.nan)
                 array = np.append(array, filler)
-- 
2.43.0


From 35867ee1bafc285e5621bece32e5dab82f00c32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 70/73] fix: interesting values which are no category of the
 data are kept

---
 featuretools/variable_types/variable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featuretools/variable_types/variable.py b/featuretools/variable_types/variable.py
index 3fead8a..65bce51 100644
--- a/featuretools/variable_types/variable.py
+++ b/featuretools/variable_types/variable.py
@@ -45,6 +45,9 @@ class Variable(object):
             default_dtype = self._default_pandas_dtype
         else:
             default_dtype = self.entity.df[self.id].dtype
+        if isinstance(default_dtype, pd.CategoricalDtype):
+            # interesting values need not be categories of the data
+            default_dtype = object
         if default_dtype == np.datetime64:
             default_dtype = 'datetime64[ns]'
         if default_dtype == np.timedelta64:
-- 
2.43.0


From 03f96dd18388c39056e1d1ceb453f7dbaf41a6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:15 +0000
Subject: [PATCH 71/73] fix: entitysets with categorical keys can be read from
 csv and parquet files

---
 featuretools/entityset/deserialize.py | 29 +++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index 89c8c41..338a11b 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -114,8 +114,10 @@ def description_to_entityset(description, **kwargs):
         if entity['properties']['last_time_index']:
             last_time_index.append(entity['id'])
 
-    for relationship in description['relationships']:
-        relationship = Relationship.from_dictionary(relationship, entityset)
+    relationships = [Relationship.from_dictionary(relationship, entityset)
+                     for relationship in description['relationships']]
+    share_categories(relationships)
+    for relationship in relationships:
         entityset.add_relationship(relationship)
 
     if len(last_time_index):
@@ -124,6 +126,29 @@ def description_to_entityset(description, **kwargs):
     return entityset
 
 
+def share_categories(relationships):
+    '''Give categorical columns which are linked the same categories. The categories of
+    a column that was read are only the values in it.
+
+    Args:
+        relationships (list[Relationship]) : Relationships between the entities read.
+    '''
+    changed = True
+    while changed:
+        changed = False
+        for relationship in relationships:
+            keys = [(relationship.parent_entity.df, relationship.parent_variable.id),
+                    (relationship.child_entity.df, relationship.child_variable.id)]
+            dtypes = [df[column].dtype for df, column in keys if isinstance(df, pd.DataFrame)]
+            if len(dtypes) < 2 or dtypes[0] == dtypes[1] or \
+                    not all(isinstance(dtype, pd.CategoricalDtype) for dtype in dtypes):
+                continue
+            shared = pd.CategoricalDtype(dtypes[0].categories.union(dtypes[1].categories))
+            for df, column in keys:
+                df[column] = df[column].astype(shared)
+            changed = True
+
+
 def empty_dataframe(description):
     '''Deserialize empty dataframe from entity description.
 
-- 
2.43.0


From c7380777ab872a7b314a05b502cf7f37ce11e715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:15 +0000
Subject: [PATCH 72/73] fix: text categories that look like numbers are read
 from csv as text

---
 featuretools/entityset/serialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featuretools/entityset/serialize.py b/featuretools/entityset/serialize.py
index 84e7ca8..9f9db51 100644
--- a/featuretools/entityset/serialize.py
+++ b/featuretools/entityset/serialize.py
@@ -103,8 +103,8 @@ def write_entity_data(entity, path, format='csv', **kwargs):
     if format == 'csv':
         if isinstance(df, pd.DataFrame):
             # text that looks like numbers has to be read as text
-            loading_info['text_columns'] = [column for column in df.select_dtypes('object').columns
-                                            if infer_dtype(df[column], skipna=True) == 'string']
+            loading_info['text_columns'] = [column for column in df.select_dtypes(['object', 'category']).columns
+                                            if infer_dtype(df[column].astype(object), skipna=True) == 'string']
         if is_instance(df, ks, 'DataFrame'):
             df = df.copy()
             columns = list(df.select_dtypes('object').columns)
-- 
2.43.0


From a172856122221c7a44f7a2b81a5a03799ccf3411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:20 +0000
Subject: [PATCH 73/73] fix: last times before 1800 are calculated like any
 other

---
 featuretools/entityset/entityset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 1515918..5008dcc 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -906,8 +906,11 @@ class EntitySet(object):
                         else:
                             lti_df['last_time'] = lti_df['last_time'].astype('datetime64[ns]')
                             lti_df['last_time_old'] = lti_df['last_time_old'].astype('datetime64[ns]')
-                            lti_df = lti_df.fillna(pd.to_datetime('1800-01-01 00:00')).max(axis=1)
-                            lti_df = lti_df.replace(pd.to_datetime('1800-01-01 00:00'), pd.NaT)
+                            if lti_is_dask:
+                                lti_df = lti_df.fillna(pd.to_datetime('1800-01-01 00:00')).max(axis=1)
+                                lti_df = lti_df.replace(pd.to_datetime('1800-01-01 00:00'), pd.NaT)
+                            else:
+                                lti_df = lti_df.max(axis=1)
                     # lti_df = lti_df.apply(lambda x: x.dropna().max(), axis=1)
 
                     entity.last_time_index = lti_df
-- 
2.43.0

