"""Parallel calculation and Dask entity sets give the same matrix."""
import atexit
import contextlib
import io
import shutil
import tempfile

import pandas as pd

import featuretools as ft
from featuretools import variable_types as vt
from hypothesis import strategies as st

from pbt import build, gen
from pbt.common import compute, expected_rows, frames_equal, isnull, plain, vals_equal
from pbt.core import Sub, Violation

ID = 'C08'
RULE = ('parallel: generated entity sets, features and cutoff times (windows, chunk sizes, approximation, extra columns) are calculated in one '
        'process and on a cluster of two worker processes that is kept over all cases, also after the data of the entity set has changed; the '
        'matrices must be equal row by row. dask: the same entity set made of pandas and of partitioned Dask dataframes must give the same values for '
        'every instance that exists at its cutoff time. Non-trivial: several cutoff rows (parallel); a feature other than an identity and a row (dask).')
ASSUMPTIONS = ['dask: supported primitives, no windows or approximation, at least one instance exists (documented limitations)']

_cluster = []


def cluster():
    if not _cluster:
        from distributed import LocalCluster
        d = tempfile.mkdtemp(prefix='pbt_dask_')
        c = LocalCluster(n_workers=2, threads_per_worker=1, processes=True, dashboard_address=None,
                         local_directory=d, silence_logs=50, host='127.0.0.1')
        _cluster.append(c)

        def close():
            try:
                c.close()
            finally:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(close)
    return _cluster[0]


@st.composite
def par_cases(draw):
    spec = draw(gen.es_specs(min_ents=draw(st.sampled_from([2, 2, 3])), max_ents=3, max_rows=6))
    target = draw(gen.targets(spec))
    fs = draw(gen.feature_lists(spec, target, depth=2, windows=True))
    co = draw(gen.cutoffs(spec, target, max_rows=6, modes=('rows', 'rows', 'rows', 'single')))
    changes = []
    e = draw(st.sampled_from(spec['ents']))
    for c in e['cols']:
        if draw(st.booleans()):
            changes.append([e['id'], c['n'], draw(gen.values(c['t'], len(e['ids'])))])
    return {'spec': spec, 'target': target, 'feats': fs, 'co': co, 'include': draw(st.booleans()),
            'window': draw(st.sampled_from([None, None, 3, 10])), 'chunk': draw(st.sampled_from([None, 1, 2, 0.5, 100])),
            'approx': draw(st.sampled_from([None, None, None, '2 hours', '1 day'])), 'extra': draw(st.booleans()),
            'in_index': draw(st.booleans()), 'changes': changes, 'callback': draw(st.booleans())}


def par_args(case, spec):
    kw = {'include_cutoff_time': case['include'], 'chunk_size': case['chunk'], 'cutoff_time_in_index': case['in_index']}
    kw.update(build.cutoff_args(spec, case['target'], case['co']))
    if case['window'] is not None:
        kw['training_window'] = ft.Timedelta(case['window'], 'h')
    if case['co']['mode'] == 'rows':
        if case['approx']:
            kw['approximate'] = case['approx']
        if case['extra']:
            kw['cutoff_time']['extra'] = list(range(len(kw['cutoff_time'])))
            kw['cutoff_time']['label'] = ['l%d' % i for i in range(len(kw['cutoff_time']))]
    return kw


def par_run(case, ctx):
    spec = case['spec']
    if case['co']['mode'] == 'single' and case['co'].get('ids') is None and \
            not expected_rows(spec, case['target'], case['co'], case['include'], case['window']):
        return
    ctx.nt(case['co']['mode'] == 'rows' and len(case['co']['rows']) > 1)
    ctx.label('approximate', bool(case['approx']))
    ctx.label('chunk %s' % case['chunk'])
    specs = [spec]
    if case['changes']:
        new = dict(spec, ents=[dict(e, cols=[dict(c, v=next((v for a, n, v in case['changes'] if a == e['id'] and n == c['n']), c['v']))
                                             for c in e['cols']]) for e in spec['ents']])
        specs += [new, spec]
    ctx.label('changed data', len(specs) > 1)
    for k, s in enumerate(specs):
        es = build.build_es(s)
        feats = build.build_features(es, s, case['feats'])
        one = ft.calculate_feature_matrix(feats, es, **par_args(case, s))
        calls = []
        kw = par_args(case, s)
        if case['callback']:
            kw['progress_callback'] = Callback(calls)
        with contextlib.redirect_stdout(io.StringIO()):
            two = ft.calculate_feature_matrix(feats, es, n_jobs=2, dask_kwargs={'cluster': cluster()}, **kw)
        what = 'parallel calculation' + (' after the data changed' if k else '')
        if one.index.names != two.index.names:
            raise Violation('%s: index %r, expected %r' % (what, two.index.names, one.index.names))
        if one.dtypes.astype(str).to_dict() != two.dtypes.astype(str).to_dict():
            for c in one.columns:
                if str(one[c].dtype) != str(two[c].dtype) and not number_like(one[c].dtype, two[c].dtype):
                    raise Violation('%s: column %r has type %s, expected %s' % (what, c, two[c].dtype, one[c].dtype))
        frames_equal(one, two, what)
        if case['callback'] and (not calls or abs(calls[-1] - 100) > 1e-6):
            raise Violation('%s: progress ended with %r' % (what, calls[-3:]))


def number_like(a, b):
    # the types of a column whose chunks have different types depend on the chunks
    return {a.kind, b.kind} <= set('ifbO')


class Callback(object):
    def __init__(self, calls):
        self.calls = calls

    def __call__(self, update, progress_percent, time_elapsed):
        self.calls.append(progress_percent)


# -------------------------------------------------------------------- dask
DASK_AGG = ('count', 'sum', 'mean', 'min', 'max', 'num_unique', 'num_true', 'percent_true', 'any', 'all')


@st.composite
def dask_cases(draw):
    spec = draw(gen.es_specs(min_ents=draw(st.sampled_from([1, 2, 2, 3])), max_ents=3, max_rows=6, categories=False))
    target = draw(gen.targets(spec))
    fs = draw(gen.feature_lists(spec, target, depth=2, windows=False, full=False, multi=False, aggs=DASK_AGG, no_trs=('plus_minus',)))
    co = draw(gen.cutoffs(spec, target, max_rows=4, unknown=False, modes=('single', 'none', 'rows')))
    return {'spec': spec, 'target': target, 'feats': fs, 'co': co, 'include': draw(st.booleans()),
            'parts': draw(st.integers(1, 3))}


def to_dask(spec, parts, name='es'):
    import dask.dataframe as dd
    es = ft.EntitySet(name)
    for e in spec['ents']:
        types = build.ent_types(spec, e)
        types[e['index']] = vt.Index
        es.entity_from_dataframe(
            entity_id=e['id'], dataframe=dd.from_pandas(build.ent_df(spec, e), npartitions=parts), index=e['index'],
            time_index='t' if e['times'] is not None else None,
            secondary_time_index={e['sec']['n']: list(e['sec']['cols'])} if e['sec'] else None, variable_types=types)
    for e in spec['ents']:
        for l in e['links']:
            par = gen.ent_of(spec, l['p'])
            es.add_relationship(ft.Relationship(es[l['p']][par['index']], es[e['id']][l['col']]))
    return es


def dask_run(case, ctx):
    import dask
    spec = case['spec']
    e = gen.ent_of(spec, case['target'])
    rows = expected_rows(spec, case['target'], case['co'], case['include'])
    # instances that do not exist at the cutoff are not in matrices of Dask entity sets
    when = dict(zip(e['ids'], e['times'])) if e['times'] is not None else {}
    known = [r for r in rows if r[0] in e['ids'] and (not when or r[1] is None or when[r[0]] < r[1] or
                                                      (case['include'] and when[r[0]] == r[1]))]
    if not known:
        return
    # the index is a column of the Dask matrix anyway
    fs = [f for f in case['feats'] if not (f['k'] == 'id' and f['v'] == e['index'])]
    if not fs:
        return
    es = build.build_es(spec)
    des = to_dask(spec, case['parts'])
    feats = build.build_features(es, spec, fs)
    dfeats = build.build_features(des, spec, fs)
    ctx.nt(any(f['k'] != 'id' for f in fs))
    for f in fs:
        for x in gen.walk(f):
            ctx.label(x.get('p') or x['k'])
            ctx.label('where', bool(x.get('where')))
    a = compute(es, spec, case['target'], feats, case['co'], case['include'])
    with dask.config.set(scheduler='synchronous'):
        b = compute(des, spec, case['target'], dfeats, case['co'], case['include']).compute()
    names = [n for f in feats for n in f.get_feature_names()]
    idx = e['index']
    if list(b.columns) != names + [idx]:
        raise Violation('columns %r, expected %r and %r' % (list(b.columns), names, idx))
    exp = {}
    for i, r in enumerate(rows):
        if r in known:
            exp.setdefault(plain(r[0]), []).append([a[n].iloc[i] for n in names])
    got = {}
    for i in range(len(b)):
        got.setdefault(plain(b[idx].iloc[i]), []).append([b[n].iloc[i] for n in names])
    if sorted((str(k), len(v)) for k, v in got.items()) != sorted((str(k), len(v)) for k, v in exp.items()):
        raise Violation('rows of the instances %r, expected %r' % (sorted(got, key=str), sorted(exp, key=str)))
    for k in exp:
        left = list(got[k])
        for row in exp[k]:
            m = next((x for x in left if all(eq(p, q) for p, q in zip(row, x))), None)
            if m is None:
                raise Violation('instance %r: Dask gives %r, pandas %r for %r' % (k, [[plain(v) for v in x] for x in got[k]],
                                                                                  [plain(v) for v in row], names))
            left.pop(next(i for i, x in enumerate(left) if x is m))


def eq(p, q):
    # truth values with missing ones may have another type
    return vals_equal(p, q)


CHECKS = [Sub('parallel', par_cases(), par_run, quick=90, max_shards=4), Sub('dask', dask_cases(), dask_run, quick=120)]
