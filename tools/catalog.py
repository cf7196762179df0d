"""Source of properties.jsonl and MANIFEST.json (python3 tools/catalog.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = 'featuretools/'
P = []


def prop(id, title, statement, text, why, files, mechanism, note, technique, over=('inputs',),
         observe=(), claimed=True, reason=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why,
                  files=[F + f for f in files], mechanism=mechanism, note=note, technique=technique,
                  observe=list(observe), claimed=claimed, reason=reason))


CB = 'computational_backends/'

prop('C01', 'No data from after the cutoff time reaches a feature value',
     'For every row of a feature matrix, the values depend only on data that was known at that row\'s cutoff time: '
     'adding, changing or removing rows whose time index is after the cutoff (or not before it, when cutoff times are '
     'excluded), or the secondary-time-index columns that become known after it, leaves every value of the row unchanged. '
     'This holds for every stack of features, for every entity on the way, with per-row cutoff times, training windows and approximation.',
     'every entity set, feature stack, cutoff dataframe and every edit confined to data later than the cutoff',
     'the tests compare a few fixed features on one fixture; leakage appears only for particular feature stacks, '
     'cutoff mixes and secondary time indexes',
     [CB + 'calculate_feature_matrix.py', CB + 'feature_set_calculator.py', 'entityset/entity.py'],
     [('time filtering of every query', F + 'entityset/entity.py:_handle_time'),
      ('calculation grouped by cutoff time', F + CB + 'calculate_feature_matrix.py:calculate_chunk')],
     'Metamorphic: generated edits of data after the cutoff must not change the matrix; trusts pandas and the generator\'s bounds '
     '(<=4 entities, <=10 rows each, stacks of depth <=3).',
     'property-based testing (metamorphic: edits of later data)')

prop('C02', 'Feature values are what the feature\'s definition says',
     'Every value of a calculated feature matrix equals the value given by the feature\'s definition applied to the rows of the '
     'entity set known at the row\'s cutoff time: identity, direct, aggregation (with where clauses), transform, group-by transform '
     'and multi-output features, arbitrarily stacked, along every relationship path (several hops, several relationships between two '
     'entities, missing links). Instances without children get the primitive\'s default value, and unknown instances the defaults / missing values.',
     'every entity set, relationship graph and stack of features over it, built by hand or by deep feature synthesis',
     'tests evaluate hand-picked features on a handful of fixtures; the set of feature stacks x relationship graphs is unbounded',
     [CB + 'feature_set_calculator.py', CB + 'feature_set.py', 'feature_base/feature_base.py', 'entityset/entity.py'],
     [('feature trie evaluation', F + CB + 'feature_set_calculator.py:FeatureSetCalculator'),
      ('grouping of features by evaluation order', F + CB + 'feature_set.py:FeatureSet')],
     'Differential against an independent pure-Python row-by-row evaluator of feature definitions.',
     'property-based testing (differential against a reference evaluator)')

prop('C03', 'Training windows, use_previous and last time indexes select exact rows',
     'A training window, a use_previous on an aggregation, and the choice to include or exclude data at the cutoff time select exactly the '
     'documented rows: the window is bounded by the cutoff at one end and open at the other, uses last time indexes where they '
     'were added, and use_previous counts back from the cutoff in time or in observations per instance. The values of all stacked features equal '
     'the ones computed from those rows.',
     'every combination of window, use_previous, inclusion flag, last time indexes and cutoff times',
     'tests check a few windows on one fixture; boundary rows and combinations of several windows in one call are sampled thinly',
     ['entityset/entity.py', CB + 'feature_set_calculator.py', 'entityset/timedelta.py', 'entityset/entityset.py'],
     [('window filtering', F + 'entityset/entity.py:_handle_time'),
      ('use_previous', F + CB + 'feature_set_calculator.py:_calculate_agg_features')],
     'Differential against the reference evaluator with explicit window semantics.',
     'property-based testing (differential against a reference evaluator)')

prop('C04', 'A row\'s values do not depend on how the matrix was requested',
     'The value of a feature for an (instance, cutoff time) pair is the same however it is requested: alone or with other features, rows and cutoff times, '
     'in any order of features and cutoff rows, with any chunk size, with a progress callback, verbose, or with extra (pass-through) columns in '
     'the cutoff dataframe.',
     'every permutation, subset and chunking of a calculation',
     'tests compare a few chunk sizes on one fixture',
     [CB + 'calculate_feature_matrix.py', CB + 'feature_set_calculator.py', CB + 'feature_set.py'],
     [('chunking', F + CB + 'calculate_feature_matrix.py:_chunk_dataframe_groups'),
      ('sharing between features', F + CB + 'feature_set.py:FeatureSet')],
     'Metamorphic: the same pairs requested in different shapes must give equal values.',
     'property-based testing (metamorphic relations)')

prop('C05', 'The feature matrix has exactly the requested rows and columns',
     'A calculated matrix has one row per requested (instance, cutoff time) pair, in the requested order, unknown instances included, '
     'indexed by instance id (and by cutoff time when asked for), and its columns are exactly the features\' output names in the order of the features, '
     'followed by the pass-through columns of the cutoff dataframe with their values on the right rows. This holds for every accepted form of '
     'cutoff input (column names and order, frame index, a single time, a list of instances), chunk size and approximation.',
     'every cutoff specification and feature list',
     'tests check the layout for a few hand-written cutoff dataframes',
     [CB + 'calculate_feature_matrix.py', CB + 'utils.py'],
     [('re-ordering and pass-through merge', F + CB + 'calculate_feature_matrix.py:calculate_feature_matrix')],
     'Checks an exact specification of the layout over generated requests.',
     'property-based testing (exact layout specification)')

prop('C06', 'Approximation changes nothing but the cutoff of aggregations on parents',
     'With approximate given, requested direct features of aggregations on parent entities (unless a requested feature that needs '
     'all rows of the target, such as a cumulative sum, is made of them) are computed as of the start of the '
     'bucket (a multiple of the approximation width) that contains the row\'s cutoff time, and every other value is exactly the one computed without '
     'approximation. Rows are neither lost, duplicated, reordered nor re-timed.',
     'every entity set, feature stack, approximation width and cutoff dataframe',
     'tests check two fixed approximations on one fixture',
     [CB + 'calculate_feature_matrix.py', CB + 'utils.py', CB + 'feature_set.py'],
     [('binning', F + CB + 'utils.py:bin_cutoff_times'),
      ('approximation pass', F + CB + 'calculate_feature_matrix.py:approximate_features')],
     'Differential against the reference evaluator with binned cutoffs for approximated features.',
     'property-based testing (differential against a reference evaluator)')

prop('C11', 'An entity set written to disk and read back is the same entity set',
     'Writing an entity set with to_csv, to_parquet or to_pickle (any supported options: separator, encoding, compression, plain '
     'directory or tar archive) and reading it back gives an entity set with the same metadata - entities, variable types, indexes, time and '
     'secondary time indexes, relationships, interesting values, make_index flags - and, cell by cell, the same data, missing values and last time indexes included. '
     'Writing does not change the entity set, and the description (metadata) round-trips through to_dictionary and JSON.',
     'every entity set (all variable types, NaN, unicode, awkward text) and every supported format and option',
     'the tests round-trip the fixtures with default options and compare metadata only',
     ['entityset/serialize.py', 'entityset/deserialize.py', 'entityset/entityset.py', 'variable_types/variable.py'],
     [('description', F + 'entityset/serialize.py:entityset_to_description'),
      ('reading', F + 'entityset/deserialize.py:read_entity_data')],
     'Round trip of generated entity sets over all variable types; text equal to an NA marker in csv is a known finding.',
     'property-based testing (round trip)')

prop('C12', 'Saved feature definitions load as the same features',
     'save_features and load_features (string, file or path; one feature or lists) give back the same features: same names and renames, same '
     'primitives with their parameters (custom keyword arguments included), same base features, where clauses, use_previous, group-bys, slices and relationship paths, in '
     'the same order; the loaded features compute exactly the same feature matrix, and saving them again gives the same text.',
     'every list of feature definitions, including every primitive with any parameters and arbitrary stacks',
     'the tests round-trip a few definitions per feature class',
     ['feature_base/features_serializer.py', 'feature_base/features_deserializer.py', 'feature_base/feature_base.py',
      'primitives/utils.py', 'entityset/timedelta.py'],
     [('serialization', F + 'feature_base/features_serializer.py:FeaturesSerializer'),
      ('dependency-ordered loading', F + 'feature_base/features_deserializer.py:FeaturesDeserializer')],
     'Round trip compared by an independent structural fingerprint and by calculating both lists.',
     'property-based testing (round trip)')

prop('C19', 'Aggregation primitives compute their documented functions',
     'For every group of rows, every built-in aggregation primitive with any of its parameters (units, skipna, n, base, dropna) returns the value that its '
     'documentation defines - missing values ignored or counted as documented, first and last in time order, defaults or missing values for empty and too small groups - in a '
     'feature matrix and when the primitive is called directly, whatever other features are calculated in the same call.',
     'every group of values, ties, missing values, times and parameters',
     'tests check most primitives on one or two short lists',
     ['primitives/standard/aggregation_primitives.py', 'utils/time_utils.py', CB + 'feature_set_calculator.py'],
     [('primitive functions', F + 'primitives/standard/aggregation_primitives.py'),
      ('application to groups', F + CB + 'feature_set_calculator.py:agg_wrapper')],
     'Differential against plain-Python definitions (<=14 rows per case).',
     'property-based testing (differential against reference definitions)')

prop('C20', 'Transform primitives compute their documented functions',
     'For every column, every built-in transform primitive with any of its parameters returns row by row the value that its documentation defines: '
     'calendar parts, arithmetic and comparisons (scalars included), boolean logic, text lengths, coordinates and distances, ages and elapsed times in any unit, '
     'and the cumulative and ranking ones over all the known rows in time order. The value of a row does not depend on which instances are requested or on the frame\'s index.',
     'every column of every type, missing values, zeros and boundary dates included, and all parameters',
     'tests check most primitives on one or two short lists',
     ['primitives/standard/transform_primitive.py', 'primitives/standard/binary_transform.py',
      'primitives/standard/cum_transform_feature.py', 'utils/time_utils.py', 'utils/entity_utils.py'],
     [('primitive functions', F + 'primitives/standard/transform_primitive.py')],
     'Differential against plain-Python definitions (<=8 rows per case).',
     'property-based testing (differential against reference definitions)')

prop('C09', 'DFS features obey every constraint the call was given',
     'Every feature that Deep Feature Synthesis returns is a feature of the target entity within max_depth, is made only of the given primitives '
     '(where conditions only for the where primitives, on interesting values, within the stacking limit; group-by only for the group-by primitives) '
     'with inputs of the right types, respects the stacking rules of primitives, ignored entities and variables, allowed paths and per-primitive options, '
     'has a wanted return type, is not dropped, and appears once; at most max_features are returned, shallow ones first.',
     'every shape of entity set and every combination of arguments of DFS',
     'tests check a constraint at a time on two fixed entity sets',
     ['synthesis/deep_feature_synthesis.py', 'synthesis/dfs.py', 'primitives/options_utils.py'],
     [('construction and filtering', F + 'synthesis/deep_feature_synthesis.py'), ('primitive options', F + 'primitives/options_utils.py')],
     'Invariant over the returned features, each taken apart and checked part by part against the arguments (<=4 entities).',
     'property-based testing (invariants over generated DFS calls)')

prop('C10', 'DFS returns every feature of its rules, reproducibly',
     'Deep Feature Synthesis returns exactly the features its rules derive from the column types: every matching input combination of every primitive, '
     'every direct feature and every where condition on an interesting value within max_depth. Filtering arguments only select from the unfiltered result. '
     'The list and its order do not depend on the order or form of primitive lists, on repetition, on the process or its string hashing, '
     'and dfs() returns the matrix that calculate_feature_matrix gives for the features.',
     'every entity set and call; the order must hold across processes',
     'tests look for single features by name in one process',
     ['synthesis/deep_feature_synthesis.py', 'synthesis/dfs.py', 'primitives/options_utils.py', 'entityset/entityset.py'],
     [('enumeration', F + 'synthesis/deep_feature_synthesis.py'), ('dfs()', F + 'synthesis/dfs.py')],
     'Differential against an independent enumeration on tree-shaped entity sets; metamorphic relations on any shape; '
     'three processes with different string hashing (<=4 entities).',
     'property-based testing (differential and metamorphic)')

prop('C16', 'Last time indexes are the latest time of an instance or its descendants',
     'After last time indexes are added, every instance of every entity has as its last time the latest of its own time and the times of everything '
     'linked to it through child relationships, over every path and however many relationships there are between two entities; missing times and '
     'entities without a time index contribute nothing. It does not depend on the order in which entities and relationships were added, computing '
     'it again changes nothing, and after the data of entities is replaced (automatic or explicit recalculation) it is the value for the new data, '
     'for those entities and everything above them.',
     'every relationship graph without cycles, data and sequence of data updates',
     'tests have one fixture with a chain of entities; missing times, several paths and update histories are unbounded',
     ['entityset/entityset.py', 'entityset/entity.py'],
     [('propagation', F + 'entityset/entityset.py:add_last_time_indexes'), ('updates', F + 'entityset/entity.py:update_data')],
     'Differential against a recursive definition, over histories of 0-4 data updates on <=5 entities.',
     'property-based testing (model-based histories)', over=('inputs', 'histories'))

prop('C13', 'Every sequence of operations leaves an entity set consistent',
     'After any sequence of operations on an entity set (adding entities and relationships, normalizing, replacing data, deleting or converting '
     'variables, adding last time indexes or interesting values, copying, concatenating) its data, variables and their types, indexes, '
     'time indexes, relationships, last times and its metadata view are exactly what the operations imply: instances in time order, columns and '
     'variables in step, nothing stale. An operation that is rejected changes nothing, and changing a copy never changes the original.',
     'every history of valid and invalid operations',
     'tests apply single operations to fixtures; interactions of operations (stale caches, partial failures) need histories',
     ['entityset/entityset.py', 'entityset/entity.py', 'entityset/relationship.py'],
     [('operations', F + 'entityset/entityset.py:EntitySet'), ('data and variables', F + 'entityset/entity.py:Entity'),
      ('metadata view', F + 'entityset/entityset.py:metadata')],
     'Model-based: histories of 4-17 operations (21 kinds of invalid ones) compared with a plain-data model after every step.',
     'model-based property testing (operation histories)', over=('histories', 'inputs'))

prop('C14', 'Normalizing an entity loses nothing and keeps first and last values',
     'Normalizing an entity by a variable creates a parent entity with exactly one instance per value of the variable, holding the values of the '
     'moved and copied variables at the first instance with that value (secondary time index variables: at the last), under the requested time index. '
     'The base entity keeps all its rows and every variable that was not moved, the two are linked by a relationship, so that direct features bring moved '
     'variables that depend on the value back, and no other entity changes.',
     'every entity, choice of index, moved and copied variables, and time index options, repeated',
     'tests normalize a handful of fixtures; options combine (time index, secondary time index, copied or moved time columns)',
     ['entityset/entityset.py', 'entityset/entity.py'],
     [('normalize_entity', F + 'entityset/entityset.py:normalize_entity'), ('delete_variables', F + 'entityset/entity.py:delete_variables')],
     'Differential against a plain-data model; 1-3 successive normalizations, <=8 rows.',
     'property-based testing (model-based differential)')

prop('C17', 'Concatenating entity sets is the union of their instances',
     'Concatenating two entity sets of the same structure gives the instances of both, the first one\'s version where both have an instance, in time order, '
     'with last time indexes recalculated exactly when one of them had them. The inputs are unchanged unless it is done in place, and entity sets of another '
     'structure (entities, variables, types, relationships) are rejected without effect.',
     'every pair of entity sets, overlapping in any way',
     'one test concatenates two halves of one fixture',
     ['entityset/entityset.py'],
     [('concat', F + 'entityset/entityset.py:concat')],
     'Model-based: pairs and triples of versions of an entity set.',
     'property-based testing (model-based)')

prop('C28', 'Equality of entity sets sees every difference and nothing else',
     'Two entity sets are equal exactly when they have the same entities, variables, types, indexes, time indexes, secondary time indexes and relationships, '
     'and deeply equal when in addition their data, interesting values and last time indexes are the same; missing values equal each other. Equality is '
     'symmetric, and does not depend on the order in which things were added; copies are deeply equal.',
     'every pair of entity sets that differ in one thing or nothing',
     'tests compare fixtures with a few differences; a comparison that never looks at some aspect passes them',
     ['entityset/entityset.py', 'entityset/entity.py', 'utils/wrangle.py', 'variable_types/variable.py'],
     [('equality', F + 'entityset/entityset.py:__eq__'), ('data', F + 'utils/wrangle.py:_dataframes_equal')],
     'Generated entity sets with one generated difference (19 kinds); both directions.',
     'property-based testing (metamorphic: single differences)')

prop('C25', 'The library does not change what it is given',
     'Building entity sets, normalizing, updating, concatenating, deep feature synthesis, calculating feature matrices, encoding, selecting, describing, saving '
     'and querying leave the dataframes, lists, dictionaries, cutoff times, features and entity sets passed to them as they were (except the entity set a '
     'method is called on), and later changes of a dataframe do not reach into an entity set made from it.',
     'all arguments of all the public functions named',
     'tests rarely look at the arguments after the call; a column converted or a list sorted in place shows only in the next use',
     ['entityset/entity.py', 'entityset/entityset.py', 'computational_backends/calculate_feature_matrix.py', 'synthesis/dfs.py', 'synthesis/encode_features.py',
      'selection/selection.py'],
     [('construction', F + 'entityset/entity.py:__init__'), ('calculation', F + 'computational_backends/calculate_feature_matrix.py:calculate_feature_matrix')],
     'Generated calls; a deep picture of every argument is compared before and after.',
     'property-based testing (frame invariant over generated calls)')

prop('C21', 'Encoding categorical features gives the columns and features promised',
     'encode_features replaces every discrete single-output feature asked for by one boolean column for each of its most frequent values (top_n in total, or '
     'per feature; one fewer with drop_first, but at least one), in order of frequency, and, unless include_unknown is false, one column that is true for '
     'missing and all other values; everything else - other columns, extra columns, rows, their order - stays. The returned features name the new columns, and '
     'calculating them on the same data and cutoffs, also after saving and loading them, gives the encoded matrix.',
     'all matrices, features and encoding options',
     'tests encode one fixture; values missing, ties, dictionaries of numbers, interplay of options and recalculation are sampled at a few points',
     ['synthesis/encode_features.py', 'primitives/standard/binary_transform.py', 'primitives/standard/transform_primitive.py'],
     [('encoding', F + 'synthesis/encode_features.py:encode_features')],
     'Generated matrices and options against counts in plain Python; recalculation.',
     'property-based testing (reference model and round trip by recalculation)')

prop('C22', 'Selection keeps exactly the informative columns, with their features',
     'Low-information, highly-null, single-value and highly-correlated selection keep exactly the columns their thresholds describe (of two correlated columns '
     'the one further left in the matrix stays, unless the other is to be kept), unchanged and in order, and return the features of the kept columns: a '
     'multi-output feature as a whole when all its columns are kept, otherwise its kept outputs, which can be calculated again with the same values.',
     'all matrices, lists of features, thresholds and options',
     'tests select from a few fixed matrices',
     ['selection/selection.py', 'computational_backends/feature_set.py', 'feature_base/feature_base.py'],
     [('selection', F + 'selection/selection.py:_apply_feature_selection')],
     'Generated matrices against plain Python counts and correlations; recalculation of the features returned.',
     'property-based testing (reference model and round trip by recalculation)')

prop('C07', 'Saved and reported progress is complete and true',
     'With save_progress, a calculation over a dataframe of cutoff times gives the same matrix and leaves in the folder files that together hold every row of '
     'the matrix exactly once; when it is interrupted at any point, the files left are whole and hold true rows, and running it again completes them. The '
     'progress reported to a callback only grows, its updates add up, and it ends at 100 percent.',
     'all calculations, chunk sizes, and points of interruption',
     'tests save one calculation with times that happen to give different file names',
     ['computational_backends/utils.py', 'computational_backends/calculate_feature_matrix.py'],
     [('saving', F + 'computational_backends/utils.py:save_csv_decorator'),
      ('progress', F + 'computational_backends/calculate_feature_matrix.py:update_progress_callback_parameters')],
     'Generated calculations; files are read back and compared with the matrix; the callback raises at a generated call.',
     'property-based testing (differential, fault injection at generated points)', over=('inputs', 'crash_points'))

prop('C23', 'Times, timedeltas and buckets mean what they say',
     'A Timedelta, in any documented spelling, added to or subtracted from a time gives what calendar arithmetic gives, equals its other spellings, its negation '
     'undoes it, and its name and dictionary give it back; windows and buckets in different spellings give the same matrix, numeric times give the same matrix as '
     'timestamps; cutoff times are rounded down to their bucket; make_temporal_cutoffs gives the equally spaced times asked for.',
     'all amounts, units, spellings, times, and their use in calculations',
     'tests use a few amounts and spellings',
     ['entityset/timedelta.py', 'utils/wrangle.py', 'utils/time_utils.py', 'computational_backends/utils.py'],
     [('arithmetic', F + 'entityset/timedelta.py:__rsub__'), ('parsing', F + 'utils/wrangle.py:_check_timedelta'),
      ('buckets', F + 'computational_backends/utils.py:datetime_round'), ('cutoffs', F + 'utils/time_utils.py:make_temporal_cutoffs')],
     'Generated amounts and spellings against calendar arithmetic in plain Python; metamorphic calculations.',
     'property-based testing (reference model, round trip, metamorphic)')

prop('C24', 'Feature definitions are unambiguous, copyable and correctly described',
     'Definitions with different meanings have different names, equal definitions equal names, and dependencies and depth are those of the '
     'definition; copy and rename give the same feature under the same or the new name and leave the original as it was; Python operators on features give what the same '
     'operators give on the values; senseless definitions are refused. describe_feature says in English, from the documented templates and any custom descriptions, '
     'what the definition says.',
     'every feature definition over every entity set: all feature classes stacked, parameters, conditions, windows, several relationships, renames, custom descriptions and templates',
     'the tests name and describe a few dozen definitions on one fixed entity set',
     ['feature_base/feature_base.py', 'feature_base/feature_descriptions.py', 'primitives/base/primitive_base.py',
      'primitives/base/aggregation_primitive_base.py', 'primitives/base/transform_primitive_base.py', 'entityset/relationship.py'],
     [('names', F + 'feature_base/feature_base.py:FeatureBase.get_name'),
      ('descriptions', F + 'feature_base/feature_descriptions.py:describe_feature')],
     'Infix operator names nested in one another are excluded from the comparison of names; the ambiguity is a listed finding.',
     'property-based testing: metamorphic relations between a definition and its variants, structural fingerprints, a reference describer',
     over=('inputs',))

prop('C26', 'Primitives made from functions work like built-in ones',
     'A primitive made from a function with make_agg_primitive or make_trans_primitive gives, wherever it is used, what the function gives on the rows known at the cutoff time, '
     'with the keyword arguments of the instance, the calculation time if it uses it, one column per output, and its default value where there are no rows. Instances '
     'with different arguments are different features with different names, also in deep feature synthesis and after saving and loading.',
     'every argument of every instance, combination of instances in one call, grouping of the data and cutoff time',
     'tests make a handful of primitives, mostly without arguments, and check one or two values',
     ['primitives/base/aggregation_primitive_base.py', 'primitives/base/transform_primitive_base.py', 'primitives/base/utils.py',
      'primitives/base/primitive_base.py', 'primitives/utils.py', 'computational_backends/feature_set_calculator.py'],
     [('construction', F + 'primitives/base/aggregation_primitive_base.py:make_agg_primitive'),
      ('arguments', F + 'primitives/base/utils.py:inspect_function_args')],
     'A fixed catalogue of functions with generated arguments and data; the oracle applies the plain function to plain lists.',
     'property-based testing (reference: the function applied to lists of the known values)')

prop('C08', 'Parallel calculation and Dask entity sets give the same matrix',
     'Calculating a feature matrix with n_jobs or on a given Dask cluster gives the matrix of the calculation in one process: the same rows in the same order, columns, '
     'values and index, for every chunk size, training window and approximation, also when the cluster is kept while the data changes. '
     'An entity set made of Dask dataframes, however partitioned, gives the values the pandas one gives (columns of pandas categories aside) for every instance that exists at its cutoff time.',
     'every entity set, list of supported features, cutoff times, chunk size, number of partitions and order in which workers finish',
     'tests compare a fixed dataset on a fresh cluster; a stale cached entity set, a chunk that comes late or a partition without a group need other inputs and histories',
     ['computational_backends/calculate_feature_matrix.py', 'computational_backends/utils.py', 'computational_backends/feature_set_calculator.py',
      'primitives/standard/aggregation_primitives.py', 'entityset/entity.py'],
     [('parallel', F + 'computational_backends/calculate_feature_matrix.py:parallel_calculate_chunks'),
      ('Dask aggregations', F + 'primitives/standard/aggregation_primitives.py:get_function'),
      ('Dask frames', F + 'computational_backends/feature_set_calculator.py:_calculate_agg_features')],
     'Differential: the serial pandas calculation is the oracle for a kept cluster of two worker processes and for partitioned Dask entity sets.',
     'property-based testing (differential between serial, parallel and Dask calculation)', over=('inputs', 'configurations', 'schedules'))

prop('C15', 'Relationship paths are complete and told apart',
     'For any graph of entities and relationships, the searches for forward and backward paths yield exactly the paths that visit no entity twice, the searches for '
     'reachable entities every entity with every way to it, and different paths between the same entities have different names. A feature built without a path is '
     'built on the only one or refused when there are several; built with a path, it has the value that following the links by hand gives.',
     'every graph of relationships, including several between the same entities, diamonds and cycles',
     'tests look at one or two fixed entity sets with a diamond',
     ['entityset/entityset.py', 'entityset/relationship.py', 'feature_base/feature_base.py'],
     [('searches', F + 'entityset/entityset.py:_forward_entity_paths'), ('names', F + 'entityset/relationship.py:_is_unique'),
      ('features', F + 'feature_base/feature_base.py:_handle_relationship_path')],
     'Reference: exhaustive enumeration of paths on generated graphs; features followed by hand along the links.',
     'property-based testing (reference: enumeration of all paths)', over=('inputs', 'configurations'))
prop('C18', 'Queries return exactly the matching rows known at the time',
     'query_by_values returns exactly the rows of the entity whose variable has one of the given values (missing ones never match), that are known at the given time and, with a '
     'training window, themselves or by their last time inside the window, in the order of the entity, with the requested columns and types, with values of a later secondary '
     'time index missing. However the values are given (one, list, array, Series, DataFrame) the result is the same, and neither they nor the entity set change.',
     'every entity, variable, set and form of values, time, window and choice of columns',
     'tests query a fixed entity set for a few values at one time',
     ['entityset/entityset.py'],
     [('query', F + 'entityset/entityset.py:query_by_values'), ('time filter', F + 'entityset/entityset.py:_handle_time'),
      ('values', F + 'entityset/entityset.py:_vals_to_series')],
     'Reference: a filter over plain rows, for a history of queries against one entity set, and for partitioned Dask dataframes.',
     'property-based testing (reference filter over plain rows)', over=('inputs', 'histories'))
prop('C27', 'Columns get the right types and keep their values',
     'The type inferred for a column follows from its own data and role, whatever the other columns are; given types, names of types and arguments are used; conversion gives the plainly '
     'converted value, keeps missing values missing and is refused when nothing could be converted. Entity sets made from tuples equal those made step by step, and replacing '
     'the data of an entity keeps types, names, descriptions and the order by time.',
     'every dataframe, order of columns and rows, choice of types and later conversion',
     'tests infer types for one fixed dataframe and convert a handful of columns without missing values',
     ['utils/entity_utils.py', 'entityset/entity.py', 'entityset/entityset.py', 'variable_types/variable.py'],
     [('inference', F + 'utils/entity_utils.py:infer_variable_types'), ('conversion', F + 'utils/entity_utils.py:convert_variable_data'),
      ('replacing data', F + 'entityset/entity.py:update_data')],
     'Reference table of types and plain conversions on generated columns; metamorphic on the order and presence of other columns; differential between ways to make an entity set.',
     'property-based testing (reference and metamorphic relations)', over=('inputs', 'configurations'))
prop('C30', 'Interesting values are the frequent values of the data',
     'add_interesting_values gives every discrete variable that is no key its most frequent values, at most as many as asked for, all of which occur in the data, most frequent first '
     '(with 25 or more distinct values, only those between 5 and 95 percent), and nothing else; repeating it changes nothing. Deep feature synthesis makes exactly one conditioned '
     'feature per value, whose value is that of a plain filter.',
     'every column, distribution of values and maximum number of values',
     'tests look at one entity set whose columns have few distinct values',
     ['entityset/entity.py', 'entityset/entityset.py', 'synthesis/deep_feature_synthesis.py'],
     [('counting', F + 'entityset/entity.py:add_interesting_values'), ('conditions', F + 'synthesis/deep_feature_synthesis.py:_build_where_clauses')],
     'Reference: plain counts of the generated columns, compared as multisets of frequencies so that ties may fall either way.',
     'property-based testing (reference: plain counts)')

# APPEND-HERE


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            rec = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                   'quantifier': {'over': p['over'], 'text': p['text']},
                   'why_tests_cant': p['why'],
                   'anchors': {'files': p['files'],
                               'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                               'observe_at': p['observe'], 'hook_needed': None}}
            f.write(json.dumps(rec) + '\n')
    checks = []
    na = []
    for p in P:
        if not p['claimed']:
            na.append({'property': p['id'], 'reason': p['reason']})
            continue
        checks.append({'property': p['id'], 'quick_cmd': './check.sh %s' % p['id'],
                       'thorough_cmd': './check.sh %s --tier thorough' % p['id'],
                       'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
    man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'One program, pbt.run, shards generated cases over worker processes; see DESIGN.md. No hooks in /repo.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
