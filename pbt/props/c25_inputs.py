"""The library does not change what it is given."""
import os
import shutil
import tempfile

import featuretools as ft
import pandas as pd
from featuretools import variable_types as vt
from hypothesis import strategies as st

from pbt import build, dfsgen, esgen, gen
from pbt.common import expected_rows
from pbt.core import Sub, Violation
from pbt.dfsgen import chance
from pbt.gen import ent_of
from pbt.model import lti_model
from pbt.snap import first_diff, snap

ID = 'C25'
RULE = ('Generated calls of the public functions: entity sets from dataframes (with columns that have to be converted, made indexes, '
        'types and secondary time indexes), normalization, data updates; deep feature synthesis with all its list and dict arguments; '
        'calculations with cutoff dataframes, instance lists, windows, approximation; encoding, selection, cutoff utilities, saving, '
        'describing, concatenation. Every argument, the entity set and the features are pictured before and compared after. Non-trivial: a '
        'call that had to convert, add or drop something, or a matrix of at least two features.')


class Watch:
    def __init__(self):
        self.items = []

    def __call__(self, name, obj):
        self.items.append((name, obj, snap(obj)))
        return obj

    def check(self, what):
        for name, obj, before in self.items:
            d = first_diff(before, snap(obj))
            if d:
                raise Violation('%s changed %s at %s' % (what, name, d))


# ---------------------------------------------------------------- construction
@st.composite
def construct_cases(draw):
    n = draw(st.integers(1, 5))
    cols = {'id': draw(st.sampled_from([list(range(n)), [str(i) for i in range(n)]]))}
    for name, vals in draw(st.lists(st.sampled_from([
            ('t', 'date'), ('t2', 'date'), ('num', 'numtext'), ('n', 'int'), ('f', 'float'), ('ll', 'latlong'),
            ('c', 'cat'), ('b', 'bool'), ('k', 'cat'), ('d', 'datetime')]), min_size=3, max_size=8,
            unique_by=lambda x: x[0])):
        el = {'date': st.integers(0, 27).map(lambda d: '2020-01-%02d' % (d + 1)), 'numtext': st.integers(0, 9).map(str),
              'int': st.integers(0, 5), 'float': st.sampled_from([1.5, None, 2.0]),
              'latlong': st.sampled_from([[1, 2], None, [3.5, 4]]), 'cat': st.sampled_from(['a', 'b', 'c']),
              'bool': st.booleans(), 'datetime': st.integers(0, 20)}[vals]
        cols[name] = [vals, draw(st.lists(el, min_size=n, max_size=n))]
    return {'cols': cols, 'make_index': draw(st.booleans()), 'ti': draw(st.booleans()), 'sec': draw(st.booleans()),
            'types': draw(st.sampled_from(['class', 'text', 'none'])), 'via': draw(st.sampled_from(['method', 'init'])),
            'norm': draw(st.booleans()), 'upd': draw(st.booleans()), 'shuffle': draw(st.booleans())}


def frame(cols):
    df = pd.DataFrame({'id': cols['id']})
    for name, v in cols.items():
        if name == 'id':
            continue
        kind, vals = v
        if kind == 'latlong':
            vals = [float('nan') if x is None else tuple(x) for x in vals]
            df[name] = pd.Series(vals, dtype=object)
        elif kind == 'datetime':
            df[name] = [build.ts(x) for x in vals]
        else:
            df[name] = pd.Series(vals, dtype={'float': 'float64'}.get(kind))
    return df


TY = {'date': vt.Datetime, 'numtext': vt.Numeric, 'int': vt.Categorical, 'float': vt.Numeric, 'latlong': vt.LatLong,
      'cat': vt.Categorical, 'bool': vt.Boolean, 'datetime': vt.Datetime}


def run_construct(case, ctx):
    w = Watch()
    cols = case['cols']
    df = frame(cols)
    if case['shuffle']:
        df.index = [i * 3 + 1 for i in range(len(df))][::-1]
    w('the dataframe', df)
    dates = [c for c, v in cols.items() if c != 'id' and v[0] in ('date', 'datetime')]
    types = {c: TY[v[0]] for c, v in cols.items() if c != 'id'}
    if case['types'] == 'text':
        types = {c: t.type_string for c, t in types.items()}
    if case['types'] == 'none':
        types = {c: t for c, t in types.items() if t is vt.LatLong}
    w('variable_types', types)
    ti = dates[0] if dates and case['ti'] else None
    if ti:
        types.pop(ti, None)
        w.items[-1] = ('variable_types', types, snap(types))
    sec = None
    if ti and len(dates) > 1 and case['sec']:
        others = [c for c in cols if c not in ('id', ti, dates[1])]
        sec = w('secondary_time_index', {dates[1]: others[:2]})
    index = 'made' if case['make_index'] else 'id'
    converted = any(v[0] in ('date', 'numtext', 'latlong') for c, v in cols.items() if c != 'id') or case['make_index']
    if case['via'] == 'init' and not sec:
        ents = w('entities', {'e': (df, index, ti, types, case['make_index'])})
        rels = w('relationships', [])
        es = ft.EntitySet('es', ents, rels)
    else:
        es = ft.EntitySet('es')
        es.entity_from_dataframe('e', df, index=index, time_index=ti, variable_types=types, make_index=case['make_index'],
                                 secondary_time_index=sec)
    w.check('making an entity')
    ctx.nt(converted or sec)
    ctx.label('made index', case['make_index'])
    ctx.label('secondary', sec is not None)
    if case['norm'] and ('c' in cols or 'k' in cols):
        key = 'c' if 'c' in cols else 'k'
        rest = [c for c in cols if c not in ('id', key, ti) and not (sec and (c in sec or c in list(sec.values())[0]))]
        add, cp = w('additional_variables', rest[:1]), w('copy_variables', rest[1:2])
        ms = None
        if ti and len(rest) > 3 and cols[rest[2]][0] in ('date', 'datetime'):
            ms = w('make_secondary_time_index', {rest[2]: [rest[3]]})
        es.normalize_entity('e', 'new', key, additional_variables=add, copy_variables=cp, make_secondary_time_index=ms)
        w.check('normalize_entity')
        ctx.label('normalized')
    if case['upd']:
        new = w('the new dataframe', es['e'].df.iloc[::-1].copy()[list(reversed(es['e'].df.columns))])
        es['e'].update_data(new)
        es.add_last_time_indexes()
        es.add_interesting_values()
        w.check('update_data')
    # later changes of the dataframe do not reach into the entity set
    before = snap(es)
    for c in list(df.columns):
        if df[c].dtype.kind in 'ifb':
            df.loc[df.index[0], c] = 1 if df[c].dtype.kind != 'b' else not df[c].iloc[0]
        elif df[c].dtype == object and isinstance(df[c].iloc[0], str):
            df.loc[df.index[0], c] = 'changed'
    d = first_diff(before, snap(es))
    if d:
        raise Violation('changing the dataframe changed the entity set at %s' % d)


# ---------------------------------------------------------------- calculation
@st.composite
def calc_cases(draw):
    spec = draw(gen.es_specs(min_ents=draw(st.sampled_from([1, 2, 3])), max_ents=3, times='mixed', max_rows=6,
                             sec_often=True))
    target = draw(gen.targets(spec))
    co = draw(gen.cutoffs(spec, target))
    return {'spec': spec, 'target': target, 'co': co, 'lti': draw(st.booleans()),
            'feats': draw(gen.feature_lists(spec, target, depth=3, windows=True, min_n=2, max_n=5)),
            'window': draw(st.one_of(st.none(), st.integers(1, 15))),
            'approx': draw(st.one_of(st.none(), st.none(), st.integers(1, 10))),
            'extra': draw(st.booleans()), 'named': draw(st.booleans()),
            'dti': draw(st.booleans()), 'chunk': draw(st.sampled_from([None, 1, 2])),
            'fns': draw(st.lists(st.sampled_from(sorted(FNS)), min_size=2, max_size=4, unique=True))}


def run_calc(case, ctx):
    spec, target = case['spec'], case['target']
    es = build.build_es(spec)
    if case['lti']:
        es.add_last_time_indexes()
    feats = build.build_features(es, spec, case['feats'])
    if case['co']['mode'] == 'none':
        case = dict(case, window=None)
    if not expected_rows(spec, target, case['co'], True, case['window'], lti_model(spec) if case['lti'] else None):
        return
    w = Watch()
    a = build.cutoff_args(spec, target, case['co'])
    kw = {}
    if isinstance(a.get('cutoff_time'), pd.DataFrame):
        df = a['cutoff_time']
        if case['named']:
            df.columns = [ent_of(spec, target)['index'], 'time']
        if case['extra']:
            df['label'] = range(len(df))
        if case['approx']:
            kw['approximate'] = w('approximate', ft.Timedelta(case['approx'], 'h'))
    if case['chunk']:
        kw['chunk_size'] = case['chunk']
    if case['window']:
        kw['training_window'] = w('training_window', ft.Timedelta(case['window'], 'h'))
    for k, v in a.items():
        w(k, v)
    w('the entity set', es)
    w('features', feats)
    fm = ft.calculate_feature_matrix(feats, es, cutoff_time_in_index=case['dti'], **a, **kw)
    w.check('calculate_feature_matrix')
    ctx.nt(len(feats) > 1)
    ctx.label('cutoff dataframe', isinstance(a.get('cutoff_time'), pd.DataFrame))
    if isinstance(fm.index, pd.MultiIndex):
        fm = fm.reset_index('time', drop=True)
    w('the feature matrix', fm)
    tmp = tempfile.mkdtemp(prefix='c25-')
    try:
        for name in case['fns']:
            out = FNS[name](w, es, feats, fm, tmp, target)
            if out is None:
                continue
            w.check(name)
            ctx.label(name)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def encode(w, es, feats, fm, tmp, target):
    top = w('top_n', {f.get_name(): 2 for f in feats[:2]})
    to = w('to_encode', [f.get_name() for f in feats])
    return ft.encode_features(fm, feats, top_n=top, to_encode=to)


def select(w, es, feats, fm, tmp, target):
    from featuretools import selection as s
    single = [f for f in feats if f.number_output_features == 1]
    w('features', single)
    sub = fm[[f.get_name() for f in single]]
    w('the matrix', sub)
    s.remove_low_information_features(sub, single)
    s.remove_highly_null_features(sub, single, 0.5)
    s.remove_single_value_features(sub, single)
    check = w('features_to_check', list(sub.columns))
    keep = w('features_to_keep', list(sub.columns)[:1])
    return s.remove_highly_correlated_features(sub, single, features_to_check=check, features_to_keep=keep)


def save_features(w, es, feats, fm, tmp, target):
    p = os.path.join(tmp, 'f.json')
    ft.save_features(feats, p)
    return ft.load_features(p)


def save_es(w, es, feats, fm, tmp, target):
    es.to_pickle(os.path.join(tmp, 'p'))
    es.to_csv(os.path.join(tmp, 'c'))
    es.metadata
    return ft.read_entityset(os.path.join(tmp, 'c'))


def describe(w, es, feats, fm, tmp, target):
    desc = w('feature_descriptions', {feats[0]: 'the first'})
    tem = w('primitive_templates', {'sum': 'total of {}'})
    return [ft.describe_feature(f, feature_descriptions=desc, primitive_templates=tem) for f in feats] + [repr(es)]


def concat(w, es, feats, fm, tmp, target):
    import copy
    o = w('the other entity set', copy.deepcopy(es))
    for e in o.entities:
        e.update_data(e.df.iloc[:1], recalculate_last_time_indexes=False)
    w.items[-1] = ('the other entity set', o, snap(o))
    return es.concat(o)


def query(w, es, feats, fm, tmp, target):
    e = es[target]
    ids = w('instance_vals', list(e.df.index)[:2])
    cols = w('columns', list(e.df.columns)[:2])
    df = es.query_by_values(target, ids, columns=cols)
    df.iloc[:, 0] = None
    return df


def again(w, es, feats, fm, tmp, target):
    ids = w('instance_ids', list(es[target].df.index)[:2])
    passthrough = w('cutoff_time', pd.DataFrame({'instance_id': ids, 'time': [pd.Timestamp('2020-01-02')] * len(ids)}))
    ft.calculate_feature_matrix(feats, es, instance_ids=ids)
    ft.make_temporal_cutoffs(w('ids', list(ids)), w('cutoffs', list(passthrough['time'])), num_windows=2, window_size='1h')
    return ft.calculate_feature_matrix(feats, es, cutoff_time=passthrough, save_progress=None)


FNS = {'encode_features': encode, 'selection': select, 'save_features': save_features, 'saving the entity set': save_es,
       'describe_feature': describe, 'concat': concat, 'query_by_values': query, 'another calculation': again}


# ------------------------------------------------------------------------ dfs
def run_dfs(case, ctx):
    customs = dfsgen.make_customs(case['o'].get('customs'))
    es = dfsgen.build_es(case)
    w = Watch()
    w('the entity set', es)
    kw = dfsgen.kwargs(case, customs)
    kw.pop('where_stacking_limit', None)
    seeds = dfsgen.seed_features(case, es)
    if seeds:
        kw['seed_features'] = seeds
    rt = dfsgen.rtypes(case)
    if rt is not None:
        kw['return_variable_types'] = rt
    for k, v in kw.items():
        w(k, v)
    with dfsgen.limit(4):
        fs = ft.dfs(entityset=es, target_entity=case['target'], features_only=True, **kw)
    w.check('dfs')
    ctx.nt(len(fs) > 1)
    ctx.label('options', bool(case['o'].get('po')))
    ctx.label('seeds', bool(seeds))


CHECKS = [Sub('construct', construct_cases(), run_construct, quick=700),
          Sub('calculate', calc_cases(), run_calc, quick=250),
          Sub('dfs', st.one_of(dfsgen.cases(options=True), dfsgen.cases(seeds=True)), run_dfs, quick=300)]
