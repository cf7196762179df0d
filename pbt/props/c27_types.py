"""Types of variables, conversion of data, ways to make an entity set."""
import datetime
import warnings

import numpy as np
import pandas as pd

import featuretools as ft
from featuretools import variable_types as vt
from hypothesis import strategies as st

from pbt import build, esgen, gen
from pbt.common import frames_equal, isnull, plain, vals_equal
from pbt.core import Sub, Violation
from pbt.escmp import same_entitysets

ID = 'C27'
RULE = ('inferred: generated columns of many kinds (numbers, flags, dates as values and as text, short and long text, mixed, missing, durations, '
        'categories, no rows) in every order, with and without the others; the type follows from the column alone and values stay what they were. '
        'converted: columns with given types (classes, names, with arguments), and later conversions, against plain conversion functions. forms: '
        'tuples given to EntitySet, dfs and calculate_feature_matrix against entity sets made step by step. replaced: update_data keeps types, names, '
        'descriptions and orders rows. Non-trivial: columns of several kinds; a conversion that changes values; a relationship.')
ASSUMPTIONS = ['text columns are plainly dates or plainly not; durations are numbers of nanoseconds unless typed']

# ---------------------------------------------------------------- inference
LONG = 'some words '


@st.composite
def column(draw, kind, n):
    el = {'int': st.integers(-5, 300), 'int8': st.integers(-5, 100), 'float': st.sampled_from([0.5, -2.0, 7.25]),
          'floatnan': st.sampled_from([0.5, -2.0, None]), 'bool': st.booleans(), 'category': st.sampled_from(['a', 'b', None]),
          'catnum': st.sampled_from([1, 2]), 'dt': st.one_of(st.none(), gen.TIMES), 'tz': gen.TIMES, 'dtobj': st.one_of(gen.TIMES, st.none()),
          'dtstr': st.one_of(gen.TIMES, gen.TIMES, st.none()), 'date': st.integers(0, 400), 'word': st.sampled_from(['tall tree', 'x y z', 'red!', None]),
          'long': st.integers(46, 55), 'mixed': st.sampled_from(['w w', 3, 2.5, None]), 'numstr': st.sampled_from(['1', '2.5', '007']),
          'none': st.none(), 'td': st.one_of(st.none(), st.integers(-5, 90000)), 'objint': st.sampled_from([1, 2, None]),
          'objbool': st.sampled_from([True, False, None]), 'str1': st.sampled_from(['a', 'b'])}[kind]
    v = draw(st.lists(el, min_size=n, max_size=n))
    if kind in ('dtobj', 'dtstr') and v and v[0] is None:
        v[0] = 3
    return v


KINDS = ['int', 'int8', 'float', 'floatnan', 'bool', 'category', 'catnum', 'dt', 'tz', 'dtobj', 'dtstr', 'date', 'word', 'long', 'mixed', 'numstr',
         'none', 'td', 'objint', 'objbool', 'str1']


def series(kind, v):
    if kind in ('int', 'int8', 'bool'):
        return pd.Series(v, dtype={'int': 'int64'}.get(kind, kind))
    if kind in ('float', 'floatnan'):
        return pd.Series(v, dtype='float64')
    if kind in ('category', 'catnum'):
        return pd.Series(v, dtype=object).astype('category')
    if kind == 'dt':
        return pd.Series([build.ts(x) for x in v], dtype='datetime64[ns]')
    if kind == 'tz':
        return pd.Series([build.ts(x) for x in v], dtype='datetime64[ns]').dt.tz_localize('UTC')
    if kind == 'dtobj':
        return pd.Series([None if x is None else build.ts(x).to_pydatetime() for x in v], dtype=object)
    if kind == 'dtstr':
        return pd.Series([None if x is None else str(build.ts(x)) for x in v], dtype=object)
    if kind == 'date':
        return pd.Series([datetime.date(2020, 1, 1) + datetime.timedelta(x) for x in v], dtype=object)
    if kind == 'td':
        return pd.Series([pd.NaT if x is None else pd.Timedelta(seconds=x) for x in v], dtype='timedelta64[ns]')
    if kind == 'long':
        return pd.Series([(LONG * 6)[:x] for x in v], dtype=object)
    return pd.Series(v, dtype=object)


def inferred(kind, v, n):
    if kind in ('int', 'int8', 'float', 'floatnan'):
        return vt.Numeric
    if kind == 'bool':
        return vt.Boolean
    if kind in ('dt', 'tz'):
        return vt.Datetime
    if kind == 'td':
        return vt.Numeric if n else vt.Unknown
    if not n:
        return vt.Categorical
    if kind in ('dtobj', 'dtstr', 'date'):
        return vt.Datetime
    if kind == 'long':
        return vt.NaturalLanguage if sum(v) > 50 * n else vt.Categorical
    return vt.Categorical


def kept(kind, x):
    """what the entity holds for the given value"""
    if x is None:
        return None
    if kind in ('dt', 'dtobj', 'dtstr'):
        return build.ts(x)
    if kind == 'tz':
        return build.ts(x).tz_localize('UTC')
    if kind == 'date':
        return pd.Timestamp('2020-01-01') + pd.Timedelta(days=x)
    if kind == 'td':
        return x * 10 ** 9
    if kind == 'long':
        return (LONG * 6)[:x]
    return x


@st.composite
def infer_cases(draw):
    n = draw(st.integers(0, 6))
    kinds = draw(st.lists(st.sampled_from(KINDS), min_size=1, max_size=5))
    cols = [[k, draw(column(k, n))] for k in kinds]
    return {'n': n, 'cols': cols, 'order': draw(st.permutations(range(len(cols)))), 'ids': draw(st.permutations(range(n))),
            'time': draw(st.sampled_from([None, None, 'dt', 'dtstr', 'num', 'float'])),
            'sec': draw(st.booleans()), 'alone': draw(st.integers(0, len(cols) - 1))}


def infer_df(case, which, order=None):
    n = case['n']
    data = {'id': pd.Series(case['ids'], dtype='int64')}
    for i in which:
        k, v = case['cols'][i]
        data['c%d' % i] = series(k, v)
    t = case['time'] if n else None
    if t:
        tv = [(7 * i) % 5 for i in range(n)]
        data['t'] = {'dt': series('dt', tv), 'dtstr': series('dtstr', tv), 'num': series('int', tv),
                     'float': pd.Series(tv, dtype='float64')}[t]
        if case['sec']:
            data['s'] = data['t'].iloc[::-1].reset_index(drop=True)
    return pd.DataFrame(data)


def make(case, df, **kw):
    es = ft.EntitySet('es')
    args = {'index': 'id'}
    if 't' in df:
        args['time_index'] = 't'
    if 's' in df:
        args['secondary_time_index'] = {'s': ['c%d' % case['order'][0]]} if 'c%d' % case['order'][0] in df else {'s': []}
    args.update(kw)
    es.entity_from_dataframe('a', df, **args)
    return es


def infer_run(case, ctx):
    n = case['n']
    ctx.nt(len({k for k, _ in case['cols']}) > 1)
    every = list(range(len(case['cols'])))
    for which in (every, case['order'], [case['alone']]):
        df = infer_df(case, which)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            es = make(case, df)
        e = es['a']
        types = e.variable_types
        if set(types) != set(df.columns):
            raise Violation('variables %r of the columns %r' % (sorted(types), sorted(df.columns)))
        if types['id'] is not vt.Index or e.variables[0].id != 'id':
            raise Violation('the index is %r; first variable %r' % (types['id'], e.variables[0]))
        if 't' in df:
            want = vt.DatetimeTimeIndex if case['time'].startswith('dt') else vt.NumericTimeIndex
            if types['t'] is not want:
                raise Violation('time index of %s is %r' % (case['time'], types['t']))
            if [v for v in e.df['t']] != sorted(e.df['t']):
                raise Violation('not in order of the time index: %r' % list(e.df['t']))
        if 's' in df and types['s'] is not (vt.Datetime if case['time'].startswith('dt') else vt.Numeric):
            raise Violation('secondary time index of %s is %r' % (case['time'], types['s']))
        if sorted(e.df['id']) != sorted(case['ids']) or list(e.df.index) != list(e.df['id']):
            raise Violation('rows %r of %r' % (list(e.df.index), case['ids']))
        pos = {iid: i for i, iid in enumerate(case['ids'])}
        for i in which:
            kind, v = case['cols'][i]
            ctx.label(kind)
            name = 'c%d' % i
            if types[name] is not inferred(kind, v, n):
                raise Violation('column %r %r is %s, with the columns %r' % (kind, list(df[name]), types[name].__name__, list(df.columns)))
            for iid, got in zip(e.df['id'], e.df[name]):
                exp = kept(kind, v[pos[iid]])
                if not vals_equal(got, exp):
                    raise Violation('%s value %r is held as %r' % (kind, v[pos[iid]], plain(got)))


# --------------------------------------------------------------- conversion
BY_NAME = {c.type_string: c for c in (vt.Numeric, vt.Categorical, vt.Datetime, vt.Boolean, vt.Ordinal, vt.NaturalLanguage, vt.Id, vt.ZIPCode,
                                      vt.URL, vt.Timedelta, vt.Unknown)}
FORMATS = ['%Y/%d/%m %H', '%d.%m.%Y %H:%M', '%m-%d-%Y %H']


@st.composite
def convert_cases(draw):
    n = draw(st.integers(1, 6))
    cols = []
    for i in range(draw(st.integers(1, 4))):
        how = draw(st.sampled_from(['numstr', 'format', 'numeric', 'keep', 'flag', 'dates', 'birth']))
        c = {'how': how, 'late': draw(st.booleans()) or how == 'flag', 'named': draw(st.booleans())}
        if how == 'numstr':
            c['v'] = draw(st.lists(st.sampled_from(['1', '2.5', '-3', 'x', None, '1e2', '']), min_size=n, max_size=n))
        elif how in ('format', 'dates', 'birth'):
            c['v'] = draw(st.lists(st.one_of(st.integers(0, 4000), st.none()), min_size=n, max_size=n))
            c['f'] = draw(st.sampled_from(FORMATS))
        elif how == 'flag':
            t, f = draw(st.sampled_from([['yes', 'no'], ['T', 'F'], ['no', 'yes'], [1, 0], [1, 2]]))
            c['tf'] = [t, f]
            c['v'] = draw(st.lists(st.sampled_from([t, f, f, True, None, 'other'] if isinstance(t, str) else [t, f]), min_size=n, max_size=n))
        elif how == 'numeric':
            c['v'] = draw(st.lists(st.one_of(st.integers(-5, 5), st.none()), min_size=n, max_size=n))
        else:
            c['type'] = draw(st.sampled_from(['categorical', 'ordinal', 'natural_language', 'id', 'zip_code', 'url', 'unknown']))
            c['v'] = draw(st.lists(st.sampled_from(['a', '01', '2020-01-01', None]), min_size=n, max_size=n))
        if how == 'keep':
            c['late'] = False
        cols.append(c)
    return {'n': n, 'cols': cols}


def conv_of(c):
    """(raw series, type, kwargs, expected values or None when it is refused)"""
    v = c['v']
    how = c['how']
    if how == 'numstr':
        exp = [None if x in (None, 'x', '') else float(x) for x in v]
        if all(x is None for x in exp) and any(x is not None for x in v):
            exp = None
        return pd.Series(v, dtype=object), vt.Numeric, {}, exp
    if how in ('format', 'dates', 'birth'):
        f = c['f'] if how == 'format' else '%Y-%m-%d %H:%M:%S'
        raw = pd.Series([None if x is None else build.ts(x).strftime(f) for x in v], dtype=object)
        return raw, vt.DateOfBirth if how == 'birth' else vt.Datetime, {'format': f} if how == 'format' else {}, [None if x is None else build.ts(x) for x in v]
    if how == 'flag':
        t, f = c['tf']
        exp = [True if x in (t, True) else False if x in (f, False) else None for x in v]
        if t == 1 and f == 2:
            exp = [x == 1 for x in v]
        return pd.Series(v, dtype=object), vt.Boolean, {'true_val': t, 'false_val': f}, exp
    if how == 'numeric':
        return pd.Series(v, dtype='float64'), vt.Numeric, {}, v
    return pd.Series(v, dtype=object), BY_NAME[c['type']], {}, v


def convert_run(case, ctx):
    n = case['n']
    info = [conv_of(c) for c in case['cols']]
    ctx.nt(any(c['how'] in ('numstr', 'format', 'flag', 'dates', 'birth') for c in case['cols']))
    # a column that cannot be converted is refused and stays as it was
    bad = [i for i, x in enumerate(info) if x[3] is None]
    data = {'id': list(range(n))}
    types = {}
    for i, (c, (raw, typ, kw, exp)) in enumerate(zip(case['cols'], info)):
        ctx.label(c['how'])
        data['c%d' % i] = raw
        if c['late'] or i in bad:
            types['c%d' % i] = vt.NaturalLanguage
        elif kw:
            types['c%d' % i] = (typ, kw)
        else:
            types['c%d' % i] = typ.type_string if c['named'] else typ
    df = pd.DataFrame(data)
    es = ft.EntitySet('es')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        es.entity_from_dataframe('a', df, index='id', variable_types=types)
        e = es['a']
        for i in bad:
            ctx.label('refused')
            try:
                es['a'].convert_variable_type('c%d' % i, vt.Numeric)
            except TypeError:
                pass
            else:
                raise Violation('text %r was converted to numbers' % list(df['c%d' % i]))
            if e.variable_types['c%d' % i] is not vt.NaturalLanguage:
                raise Violation('refused conversion changed the type to %r' % e.variable_types['c%d' % i])
        for i, (c, (raw, typ, kw, exp)) in enumerate(zip(case['cols'], info)):
            if c['late'] and i not in bad:
                order = [v.id for v in e.variables]
                e.convert_variable_type('c%d' % i, typ, **kw)
                if [v.id for v in e.variables] != order:
                    raise Violation('conversion moved variables: %r' % e.variables)
        for i, (c, (raw, typ, kw, exp)) in enumerate(zip(case['cols'], info)):
            if i in bad:
                continue
            name = 'c%d' % i
            if e.variable_types[name] is not typ:
                raise Violation('%s is %r, given %r' % (name, e.variable_types[name], types[name]))
            if kw.get('format') and not c['late'] and e[name].format != kw['format']:
                raise Violation('format %r, given %r' % (e[name].format, kw['format']))
            for got, x, r in zip(e.df[name], exp, raw):
                if not vals_equal(got, x) or isinstance(x, bool) != isinstance(plain(got), bool):
                    raise Violation('%s: %r became %r, expected %r' % (c['how'], r, plain(got), x))


# -------------------------------------------------------------------- forms
@st.composite
def form_cases(draw):
    spec = draw(gen.es_specs(max_ents=3, max_rows=5, secondary=False))
    return {'spec': spec, 'target': draw(gen.targets(spec)), 'untyped': draw(st.lists(st.sampled_from([e['id'] for e in spec['ents']]), max_size=1)),
            'made': draw(st.booleans()), 'order': draw(st.permutations([e['id'] for e in spec['ents']])),
            'perm': draw(st.booleans())}


def form_run(case, ctx):
    spec = case['spec']
    ents, rels = {}, []
    step = ft.EntitySet('es')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        leaf = spec['ents'][-1]
        for eid in case['order']:
            e = gen.ent_of(spec, eid)
            df, types = build.ent_df(spec, e), build.ent_types(spec, e)
            if eid in case['untyped']:
                # parameters at the end may be left out
                types = None
            made = case['made'] and eid == leaf['id']
            idx = e['index']
            if made:
                df = df.rename(columns={idx: 'old'}) if types is None else df.drop(columns=[idx])
            t = 't' if e['times'] is not None else None
            step.entity_from_dataframe(eid, df, index=idx, time_index=t, variable_types=None if types is None else dict(types), make_index=made)
            tup = (df, idx)
            if made:
                tup += (t, types, True)
            elif types is not None:
                tup += (t, types)
            elif t:
                tup += (t,)
            ents[eid] = tup
        for e in spec['ents']:
            for l in e['links']:
                par = gen.ent_of(spec, l['p'])
                rels.append((l['p'], par['index'], e['id'], l['col']))
        ctx.nt(bool(rels))
        ctx.label('made index', case['made'])
        for p, pv, c, cv in rels:
            step.add_relationship(ft.Relationship(step[p][pv], step[c][cv]))
        es = ft.EntitySet('es', ents, rels)
        same_entitysets(step, es, 'EntitySet(entities, relationships)')
        if list(es.entity_dict) != list(step.entity_dict):
            raise Violation('entities %r, given %r' % (list(es.entity_dict), list(step.entity_dict)))
        kw = dict(target_entity=case['target'], agg_primitives=['count', 'sum'], trans_primitives=['is_null'], max_depth=2)
        a = ft.dfs(entityset=step, features_only=True, **kw)
        b = ft.dfs(entities=ents, relationships=rels, features_only=True, **kw)
        if [f.get_name() for f in a] != [f.get_name() for f in b]:
            raise Violation('dfs from tuples gives %r, from the entity set %r' % (b, a))
        cut = build.ts(13)
        e = gen.ent_of(spec, case['target'])
        if e['times'] is not None and not any(t <= 13 for t in e['times']):
            return
        if a:
            x = ft.calculate_feature_matrix(a, step, cutoff_time=cut)
            y = ft.calculate_feature_matrix(a, None, cutoff_time=cut, entities=ents, relationships=rels)
            frames_equal(x, y, 'calculate_feature_matrix from tuples')
            z, fz = ft.dfs(entities=ents, relationships=rels, cutoff_time=cut, **kw)
            frames_equal(x, z, 'dfs from tuples')


# ----------------------------------------------------------------- replaced
@st.composite
def replace_cases(draw):
    spec = draw(esgen.rich_specs(max_ents=2, max_rows=6))
    e = draw(st.sampled_from(spec['ents']))
    return {'spec': spec, 'e': e['id'], 'keep': draw(st.lists(st.booleans(), min_size=len(e['ids']), max_size=len(e['ids']))),
            'perm': draw(st.permutations(range(len(e['ids'])))), 'cols': draw(st.booleans()), 'sorted': draw(st.integers(0, 3)) == 0,
            'descs': draw(st.lists(st.sampled_from(['an id', 'the "time"', 'x']), min_size=3, max_size=3)),
            'bad': draw(st.sampled_from([None, None, None, 'missing', 'more', 'other']))}


def replace_run(case, ctx):
    spec = case['spec']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        es = build.build_rich(spec)
        e = es[case['e']]
        for v, d in zip(e.variables, case['descs']):
            v.description = d
        if e.time_index:
            e[e.time_index].description = 'when it happened'
        want = [(v.id, type(v), v.name, v.description, list(map(str, v.interesting_values))) for v in e.variables]
        sec = {k: sorted(v) for k, v in e.secondary_time_index.items()}
        old = e.df.copy()
        keep = [i for i in case['perm'] if case['keep'][i]] or [0]
        df = old.iloc[keep].reset_index(drop=True)
        if case['cols']:
            df = df[list(df.columns)[::-1]]
        ctx.nt(len(keep) > 1)
        if case['bad']:
            bad = df.drop(columns=[df.columns[-1]]) if case['bad'] == 'missing' else df.assign(extra=1) if case['bad'] == 'more' \
                else df.rename(columns={df.columns[-1]: 'other name'})
            try:
                e.update_data(bad)
            except ValueError:
                pass
            else:
                raise Violation('a dataframe with the columns %r replaced one with %r' % (list(bad.columns), list(old.columns)))
            frames_equal(old, e.df, 'data after a refused update', rtol=0)
        e.update_data(df, already_sorted=case['sorted'])
    got = [(v.id, type(v), v.name, v.description, list(map(str, v.interesting_values))) for v in e.variables]
    if got != want:
        raise Violation('variables after update_data: %r, before %r' % ([x for x in got if x not in want], [x for x in want if x not in got]))
    if {k: sorted(v) for k, v in e.secondary_time_index.items()} != sec:
        raise Violation('secondary time indexes %r, before %r' % (e.secondary_time_index, sec))
    ids = [old.index[i] for i in keep]
    if e.time_index and not case['sorted']:
        big = pd.Timestamp.max if es.time_type is not vt.NumericTimeIndex else float('inf')
        ids.sort(key=lambda i: ((lambda t: (isnull(t), big if isnull(t) else t))(old[e.time_index].loc[i]), i))
    if list(e.df.index) != ids:
        raise Violation('rows %r after update_data, expected %r' % (list(e.df.index), ids))
    frames_equal(old.loc[ids], e.df, 'data', rtol=0)
    for c in old.columns:
        if old[c].dtype != e.df[c].dtype:
            raise Violation('type of %r %s, was %s' % (c, e.df[c].dtype, old[c].dtype))


CHECKS = [Sub('inferred', infer_cases(), infer_run, quick=500), Sub('converted', convert_cases(), convert_run, quick=500),
          Sub('forms', form_cases(), form_run, quick=120), Sub('replaced', replace_cases(), replace_run, quick=250)]
