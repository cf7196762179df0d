"""query_by_values returns the right rows."""
import datetime
import warnings

import numpy as np
import pandas as pd

import featuretools as ft
from hypothesis import strategies as st

from pbt import build, gen, snap
from pbt.common import isnull, plain, vals_equal
from pbt.core import Sub, Violation

ID = 'C18'
RULE = ('A history of queries against one generated entity set (index, foreign key, text, number, flag, date and time columns; values '
        'given as one value, list, array, Series, DataFrame or not at all; known, unknown, repeated and missing values; time_last, window, '
        'last time indexes, secondary time indexes, chosen columns), each compared with a filter over plain rows; the entity set is the '
        'same afterwards. dask: the same for partitioned Dask dataframes. Non-trivial: a query keeps some rows and drops others.')
ASSUMPTIONS = ['windows need datetime time indexes', 'dask: no windows; the order of rows is not compared']

FORMS = ('list', 'tuple', 'array', 'series', 'frame', 'one')


@st.composite
def queries(draw, spec, dask=False):
    e = draw(st.sampled_from(spec['ents']))
    cols = [[e['index'], 'id']] + [[l['col'], 'fk'] for l in e['links']] + [[c['n'], c['t']] for c in e['cols']]
    if e['times'] is not None:
        cols.append(['t', 'time'])
    q = {'e': e['id'], 'form': draw(st.sampled_from(FORMS)), 'vals': None, 'var': None}
    if draw(st.integers(0, 4)):
        q['var'] = draw(st.sampled_from(cols))
        pool = list(column(spec, e, q['var'][0]))
        more = {'id': [99, 'zz', None], 'fk': [99, 'zz', None], 'cat': ['q', None], 'num': [None, 7.5, 0], 'int': [100, None],
                'bool': [True, False], 'dt': [None, 25], 'time': [25]}[q['var'][1]]
        if pool and isinstance(pool[0], str):
            more = [m for m in more if m is None or isinstance(m, str)]
        elif q['var'][1] in ('id', 'fk'):
            more = [m for m in more if m is None or not isinstance(m, str)]
        el = st.sampled_from(pool + more) if pool else st.sampled_from(more)
        q['vals'] = draw(st.lists(el, max_size=4))
        if q['form'] == 'one':
            q['vals'] = [draw(el)]
            if q['vals'][0] is None:
                q['form'] = 'list'
    q['default_var'] = draw(st.booleans())
    q['last'] = draw(st.one_of(st.none(), gen.TIMES, gen.TIMES, st.just(26)))
    q['window'] = None
    if spec['tt'] == 'dt' and not dask:
        q['window'] = draw(st.sampled_from([None, None, 1, 4, 12])) if q['last'] is not None else None
    q['include'] = draw(st.booleans())
    names = [c[0] for c in cols] + ([e['sec']['n']] if e['sec'] else [])
    q['columns'] = draw(st.one_of(st.none(), st.lists(st.sampled_from(names), min_size=1, max_size=4, unique=True)))
    q['py'] = draw(st.booleans())
    return q


@st.composite
def cases(draw, dask=False):
    spec = draw(gen.es_specs(max_ents=2, max_rows=7, sec_often=True, nat_time=not dask, numeric_time=draw(st.integers(0, 4)) == 0))
    if spec['tt'] == 'num':
        for e in spec['ents']:
            if e['times'] is not None:
                e['times'] = [0 if t is None else t for t in e['times']]
    lti = {}
    if not dask:
        for e in spec['ents']:
            if draw(st.booleans()) and spec['tt'] == 'dt':
                lti[e['id']] = draw(st.lists(st.one_of(st.none(), st.integers(0, 30)), min_size=len(e['ids']), max_size=len(e['ids'])))
    return {'spec': spec, 'lti': lti, 'cats': [] if dask else draw(st.lists(st.sampled_from(['c', 'c2']), unique=True, max_size=2)),
            'qs': draw(st.lists(queries(spec, dask), min_size=1, max_size=2 if dask else 4)), 'parts': draw(st.integers(1, 3))}


def column(spec, e, n):
    if n == e['index']:
        return e['ids']
    if n == 't' and e['times'] is not None:
        return e['times']
    if e['sec'] and n == e['sec']['n']:
        return e['sec']['v']
    for l in e['links']:
        if l['col'] == n:
            return l['v']
    return next(c['v'] for c in e['cols'] if c['n'] == n)


def is_time(spec, e, n):
    if n == 't' and e['times'] is not None:
        return spec['tt'] == 'dt'
    if e['sec'] and n == e['sec']['n']:
        return True
    return any(c['n'] == n and c['t'] == 'dt' for c in e['cols'])


def expected(case, q):
    """[(id, {column: value})] in order, and the names of masked columns"""
    spec = case['spec']
    e = gen.ent_of(spec, q['e'])
    n = len(e['ids'])
    rows = list(range(n))
    if e['times'] is not None:
        rows.sort(key=lambda i: (e['times'][i] is None, e['times'][i] or 0, e['ids'][i]))
    if q['vals'] is not None:
        col = column(spec, e, q['var'][0])
        want = [v for v in q['vals'] if v is not None]
        rows = [i for i in rows if col[i] is not None and col[i] in want]
    last, win = q['last'], q['window']
    if last is not None and e['times'] is not None:
        t = e['times']
        rows = [i for i in rows if t[i] is not None and (t[i] <= last if q['include'] else t[i] < last)]
        if win is not None:
            def inside(x):
                return x is not None and (x > last - win if q['include'] else x >= last - win)
            lti = case['lti'].get(q['e'], [None] * n)
            rows = [i for i in rows if inside(t[i]) or inside(lti[i])]
    names = [c for c in [e['index']] + [l['col'] for l in e['links']] + (['t'] if e['times'] is not None else []) +
             ([e['sec']['n']] if e['sec'] else []) + [c['n'] for c in e['cols']]]
    out = []
    for i in rows:
        r = {c: column(spec, e, c)[i] for c in names}
        if e['sec'] and last is not None:
            sv = e['sec']['v'][i]
            if sv is not None and sv >= last:
                for c in set(e['sec']['cols']) | {e['sec']['n']}:
                    r[c] = None
        out.append((e['ids'][i], {c: conv(spec, e, c, v) for c, v in r.items()}))
    return out


def conv(spec, e, c, v):
    if v is None:
        return None
    return build.ts(v) if is_time(spec, e, c) else v


def vals_of(case, q):
    if q['vals'] is None:
        return None
    spec = case['spec']
    e = gen.ent_of(spec, q['e'])
    name = q['var'][0]
    if is_time(spec, e, name):
        vals = [build.ts(v) for v in q['vals']]
        dtype = 'datetime64[ns]'
    else:
        vals = list(q['vals'])
        dtype = None if vals and None not in vals else object
    f = q['form']
    if f == 'one':
        return vals[0]
    if f == 'tuple':
        return tuple(vals)
    if f == 'array':
        return pd.Series(vals, dtype=dtype).values
    if f == 'series':
        return pd.Series(vals, index=[5 * i for i in range(len(vals))], dtype=dtype, name='other')
    if f == 'frame':
        return pd.DataFrame({'more': [1] * len(vals), name: pd.Series(vals, dtype=dtype)})
    return vals


def args_of(case, q):
    kw = {'entity_id': q['e'], 'instance_vals': vals_of(case, q), 'columns': q['columns'] and list(q['columns']),
          'include_cutoff_time': q['include']}
    e = gen.ent_of(case['spec'], q['e'])
    if q['var'] is not None and not (q['default_var'] and q['var'][0] == e['index']):
        kw['variable_id'] = q['var'][0]
    if q['last'] is not None:
        t = build.ts(q['last'], case['spec']['tt'])
        kw['time_last'] = t.to_pydatetime() if q['py'] and isinstance(t, pd.Timestamp) else t
    if q['window'] is not None:
        kw['training_window'] = '%d hours' % q['window'] if q['py'] else ft.Timedelta(q['window'], 'h')
    return kw


def check(got, exp, q, ordered=True, index=True):
    names = q['columns']
    if names is not None and list(got.columns) != list(names):
        raise Violation('query %r: columns %r' % (q, list(got.columns)))
    if names is None:
        names = list(exp[0][1]) if exp else list(got.columns)
        if sorted(names) != sorted(got.columns):
            raise Violation('query %r: columns %r, expected %r' % (q, list(got.columns), names))
    if len(got) != len(exp):
        raise Violation('query %r: %d rows, expected %r' % (q, len(got), [i for i, _ in exp]))
    if index and [plain(x) for x in got.index] != [i for i, _ in exp]:
        raise Violation('query %r: rows %r, expected %r' % (q, list(got.index), [i for i, _ in exp]))
    a = [[got[c].iloc[k] for c in names] for k in range(len(got))]
    b = [[r[c] for c in names] for _, r in exp]
    if not ordered:
        a, b = sorted(a, key=sort_key), sorted(b, key=sort_key)
    for x, y in zip(a, b):
        for c, p, r in zip(names, x, y):
            if not vals_equal(p, r):
                raise Violation('query %r: %r in column %r, expected %r' % (q, plain(p), c, r))


def sort_key(row):
    return [(1, '') if isnull(v) else (0, '%015.3f' % float(v) if isinstance(v, (int, float, np.number, bool, np.bool_)) else str(v)) for v in row]


def run(case, ctx):
    spec = case['spec']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        es = build.build_es(spec)
        for e in spec['ents']:
            here = [c for c in case['cats'] if any(x['n'] == c for x in e['cols'])]
            if here:
                df = es[e['id']].df.copy()
                for c in here:
                    df[c] = df[c].astype('category')
                es[e['id']].update_data(df)
            if e['id'] in case['lti']:
                es[e['id']].last_time_index = pd.Series([build.ts(v) for v in case['lti'][e['id']]], index=e['ids'], dtype='datetime64[ns]')
        before = snap.snap(es)
        for q in case['qs']:
            e = gen.ent_of(spec, q['e'])
            kw = args_of(case, q)
            vals = kw['instance_vals']
            vb = snap.snap(vals)
            got = es.query_by_values(**kw)
            exp = expected(case, q)
            ctx.nt(0 < len(exp) < len(e['ids']))
            ctx.label(q['form'] if q['vals'] is not None else 'all values')
            ctx.label('window', q['window'] is not None)
            ctx.label('secondary', bool(e['sec']) and q['last'] is not None)
            ctx.label('time', q['last'] is not None and e['times'] is not None)
            check(got, exp, q)
            full = es[q['e']].df
            for c in got.columns:
                if c in case['cats'] and str(full[c].dtype) == 'category' and list(got[c].dtype.categories) != list(full[c].dtype.categories):
                    raise Violation('query %r: categories of %r are %r' % (q, c, got[c].dtype))
                if not (e['sec'] and c in list(e['sec']['cols']) + [e['sec']['n']]) and got[c].dtype != full[c].dtype:
                    raise Violation('query %r: column %r has type %s, %s in the entity' % (q, c, got[c].dtype, full[c].dtype))
            d = snap.first_diff(vb, snap.snap(vals))
            if d:
                raise Violation('query %r changed the given values: %s' % (q, d))
            # what is returned does not belong to the entity set
            if len(got) and got.shape[1]:
                got.iloc[:, :] = np.nan
        d = snap.first_diff(before, snap.snap(es))
        if d:
            raise Violation('the entity set was changed by queries: %s' % d)


def dask_run(case, ctx):
    import dask
    from pbt.props.c08_backends import to_dask
    spec = case['spec']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        es = to_dask(spec, case['parts'])
        for q in case['qs']:
            e = gen.ent_of(spec, q['e'])
            kw = args_of(case, q)
            with dask.config.set(scheduler='synchronous'):
                got = es.query_by_values(**kw)
                got = got.compute() if hasattr(got, 'compute') else got
            exp = expected(case, q)
            ctx.nt(0 < len(exp) < len(e['ids']))
            ctx.label('time', q['last'] is not None and e['times'] is not None)
            check(got, exp, q, ordered=False, index=False)


CHECKS = [Sub('query', cases(), run, quick=1200), Sub('dask', cases(dask=True), dask_run, quick=80)]
