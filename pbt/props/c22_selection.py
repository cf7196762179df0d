"""Feature selection: which columns stay, and which definitions."""
import math

import featuretools as ft
import pandas as pd
from featuretools import selection
from hypothesis import strategies as st

from pbt import build, gen
from pbt.common import expected_rows, frames_equal, isnull
from pbt.core import Skip, Sub, Violation
from pbt.dfsgen import chance

ID = 'C22'
RULE = ('select: generated matrices (numbers with gaps, booleans, text, constants, empty columns, copies and linear images of other '
        'columns) for single and multi-output features and extra columns; the columns every selection function keeps are compared with '
        'plain Python counts and correlations, the features it returns with the columns. recalculate: matrices calculated from '
        'generated entity sets are selected, the returned features calculated again and compared. Non-trivial: something was removed and '
        'something kept.')
ASSUMPTIONS = ['correlations within 1e-6 of the threshold are not judged']


@st.composite
def column(draw, n, earlier):
    kind = draw(st.sampled_from(['num', 'num', 'int', 'bool', 'cat', 'const', 'constgap', 'null', 'copy', 'linear', 'linear', 'noisy']))
    if kind in ('copy', 'linear', 'noisy') and not [c for c in earlier if c[0] in ('num', 'int', 'bool')]:
        kind = 'num'
    if kind in ('copy', 'linear', 'noisy'):
        k, v = draw(st.sampled_from([c for c in earlier if c[0] in ('num', 'int', 'bool')]))
        if kind == 'copy':
            return [k, list(v)]
        a, b = draw(st.sampled_from([-2, -0.5, 0.5, 3])), draw(st.integers(-3, 3))
        v = [None if x is None else a * x + b for x in v]
        if kind == 'noisy':
            for i in draw(st.lists(st.integers(0, n - 1), max_size=3)):
                v[i] = None if v[i] is None else v[i] + draw(st.integers(-4, 4))
        return ['num', v]
    el = {'num': st.one_of(st.integers(-8, 8).map(lambda x: x / 2), st.none()), 'int': st.integers(-4, 4), 'bool': st.booleans(),
          'cat': st.sampled_from(['a', 'b', None]), 'const': st.just(1), 'constgap': st.sampled_from([1.5, None]), 'null': st.none()}[kind]
    return [{'const': 'int', 'constgap': 'num', 'null': 'num'}.get(kind, kind), draw(st.lists(el, min_size=n, max_size=n))]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 8))
    nf = draw(st.integers(1, 5))
    shapes = [draw(st.sampled_from([1, 1, 2, 3])) for _ in range(nf)]
    cols = []
    for _ in range(sum(shapes) + draw(st.integers(0, 1))):
        cols.append(draw(column(n, cols)))
    m = len(cols)
    fn = draw(st.sampled_from(['low', 'null', 'single', 'corr', 'corr']))
    sub = st.lists(st.integers(0, m - 1), unique=True, max_size=m)
    return {'n': n, 'shapes': shapes, 'cols': cols, 'fn': fn, 'mode': draw(st.sampled_from(['features', 'features', 'names', 'none'])),
            'thr': draw(st.one_of(st.none(), st.sampled_from([0, 1, 0.25, 0.5, 0.75, 0.9, 0.125]), st.integers(0, n).map(lambda k: k / n))),
            'nan': draw(st.booleans()), 'check': draw(st.one_of(st.none(), st.permutations(range(m)).map(list), sub)),
            'keep': draw(st.one_of(st.none(), st.none(), sub)), 'index': draw(st.booleans())}




def features(shapes):
    from featuretools.primitives import make_trans_primitive
    from featuretools.variable_types import Numeric
    three = make_trans_primitive(lambda x: [x, x, x], [Numeric], Numeric, name='three', number_output_features=3)
    es = ft.EntitySet('es')
    df = pd.DataFrame({'id': [0]})
    for i in range(len(shapes)):
        df['v%d' % i] = [0.5]
    es.entity_from_dataframe('e', df, index='id')
    prims = {2: build.PlusMinus, 3: three}
    out = []
    for i, k in enumerate(shapes):
        f = ft.Feature(es['e']['v%d' % i])
        out.append(f if k == 1 else ft.Feature([f], primitive=prims[k]))
    return out


def series(c, index):
    kind, v = c
    return pd.Series(v, dtype={'num': 'float64', 'int': 'int64', 'bool': 'bool', 'cat': object}[kind], index=index)


def pearson(a, b):
    p = [(float(x), float(y)) for x, y in zip(a, b) if x is not None and y is not None]
    if len(p) < 2:
        return None
    mx, my = sum(x for x, _ in p) / len(p), sum(y for _, y in p) / len(p)
    xx, yy = sum((x - mx) ** 2 for x, _ in p), sum((y - my) ** 2 for _, y in p)
    if xx < 1e-18 or yy < 1e-18:
        return None
    return sum((x - mx) * (y - my) for x, y in p) / math.sqrt(xx * yy)


def expected(case, names, given=None):
    n = case['n']
    data = dict(zip(names, case['cols']))
    fn, thr = case['fn'], case['thr']

    def distinct(v):
        return len(set(x for x in v if x is not None))

    if fn == 'low':
        return [c for c in names if any(x is not None for x in data[c][1]) and distinct(data[c][1]) + (None in data[c][1]) > 1]
    if fn == 'single':
        return [c for c in names if distinct(data[c][1]) + (case['nan'] and None in data[c][1]) > 1]
    if fn == 'null':
        t = 0.95 if thr is None else thr
        share = {c: data[c][1].count(None) / n for c in names}
        return [c for c in names if (share[c] < t if t else share[c] == 0)]
    t = 0.95 if thr is None else thr
    look = [c for i, c in enumerate(names) if (case['check'] is None or i in case['check']) and data[c][0] != 'cat']
    dropped = set()
    for i in range(len(look)):
        for j in range(i):
            r = pearson(data[look[i]][1], data[look[j]][1])
            if r is None:
                continue
            if t and abs(abs(r) - t) < 1e-6:
                raise Skip()
            if abs(r) >= t:
                dropped.add(look[i])
    keep = [names[i] for i in case['keep'] or []]
    return [c for c in names if c not in dropped or c in keep]


def call(case, fm, names, feats):
    a = (fm,) if feats is None else (fm, feats)
    kw = {}
    fn = case['fn']
    if fn == 'low':
        return selection.remove_low_information_features(*a)
    if fn == 'single':
        return selection.remove_single_value_features(*a, count_nan_as_value=case['nan'])
    if fn == 'null':
        if case['thr'] is not None:
            kw['pct_null_threshold'] = case['thr']
        return selection.remove_highly_null_features(*a, **kw)
    if case['thr'] is not None:
        kw['pct_corr_threshold'] = case['thr']
    if case['check'] is not None:
        kw['features_to_check'] = [names[i] for i in case['check']]
    if case['keep'] is not None:
        kw['features_to_keep'] = [names[i] for i in case['keep']]
    return selection.remove_highly_correlated_features(*a, **kw)


def expected_features(feats, kept):
    out = []
    for f in feats:
        ns = f.get_feature_names()
        here = [x for x in ns if x in kept]
        out += [tuple(ns)] if here == ns else [(x,) for x in here]
    return out


def shown(fs):
    return [f if isinstance(f, str) else tuple(f.get_feature_names()) for f in fs]


def run(case, ctx):
    feats = features(case['shapes'])
    names = [x for f in feats for x in f.get_feature_names()]
    if len(case['cols']) > len(names):
        names.append('extra')
    idx = [3 * i + 1 for i in range(case['n'])] if case['index'] else list(range(case['n']))
    fm = pd.DataFrame({c: series(v, idx) for c, v in zip(names, case['cols'])}, index=idx)
    want = expected(case, names)
    mode = case['mode']
    given = {'features': feats, 'none': None, 'names': [c for c in names if c != 'extra']}[mode]
    out = call(case, fm, names, given)
    ctx.nt(0 < len(want) < len(names))
    ctx.label(case['fn'], 0 < len(want) < len(names))
    if mode == 'none':
        got = out
    else:
        got, fs = out
        wf = expected_features(feats, want) if mode == 'features' else [c for c in want if c != 'extra']
        ctx.label('slices', mode == 'features' and any(x not in [tuple(f.get_feature_names()) for f in feats] for x in wf))
        if list(got.columns) == want and shown(fs) != wf:
            raise Violation('features %r are returned for the columns %r, expected %r' % (shown(fs), want, wf))
    if list(got.columns) != want:
        raise Violation('%s kept %r, expected %r' % (case['fn'], list(got.columns), want))
    frames_equal(fm[want], got, 'the kept columns')


@st.composite
def calc_cases(draw):
    spec = draw(gen.es_specs(min_ents=draw(st.sampled_from([1, 2, 2])), max_ents=3, max_rows=6, min_rows=draw(st.sampled_from([1, 4]))))
    target = draw(gen.targets(spec))
    return {'spec': spec, 'target': target, 'co': draw(gen.cutoffs(spec, target, modes=('single', 'rows'))),
            'feats': draw(gen.feature_lists(spec, target, depth=2, min_n=2, max_n=5)),
            'fn': draw(st.sampled_from(['low', 'single', 'null', 'corr'])), 'thr': draw(st.sampled_from([0.3, 0.5, 0.9])),
            'nan': draw(st.booleans()), 'check': None, 'keep': None, 'approx': draw(st.one_of(st.none(), st.integers(1, 6))),
            'pick': draw(st.one_of(st.none(), st.lists(st.booleans(), min_size=4, max_size=4)))}


def run_calc(case, ctx):
    spec, target = case['spec'], case['target']
    es = build.build_es(spec)
    feats = build.build_features(es, spec, case['feats'])
    if not expected_rows(spec, target, case['co']):
        return
    a = build.cutoff_args(spec, target, case['co'])
    if case['approx'] and isinstance(a['cutoff_time'], pd.DataFrame):
        a['approximate'] = ft.Timedelta(case['approx'], 'h')
    fm = ft.calculate_feature_matrix(feats, es, **a)
    try:
        got, fs = call(case, fm, list(fm.columns), feats)
    except TypeError as e:
        if 'unhashable' in str(e):
            raise Skip()
        raise
    names = [c for f in fs for c in f.get_feature_names()]
    if names != list(got.columns):
        raise Violation('features %r are returned for the columns %r' % (names, list(got.columns)))
    ctx.nt(0 < len(names) < len(fm.columns))
    if all(f.number_output_features == 1 for f in feats) or case['pick'] is None:
        pass
    else:
        # some of the outputs only, as selection would return them
        fs = []
        for f in feats:
            if f.number_output_features == 1:
                fs += [f] if case['pick'][-1] else []
            else:
                fs += [f[i] for i in range(f.number_output_features) if case['pick'][i]]
        got = fm[[c for f in fs for c in f.get_feature_names()]]
    ctx.label('slices', any(type(f).__name__ == 'FeatureOutputSlice' for f in fs))
    if not fs:
        return
    again = ft.calculate_feature_matrix(fs, es, **a)
    frames_equal(got, again, 'calculating the selected features')


CHECKS = [Sub('select', cases(), run, quick=2000), Sub('recalculate', calc_cases(), run_calc, quick=400)]
