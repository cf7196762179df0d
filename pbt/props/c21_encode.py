"""encode_features: columns, values, and the definitions it returns."""
import featuretools as ft
import pandas as pd
from featuretools.variable_types import Discrete
from hypothesis import strategies as st

from pbt import build, gen
from pbt.common import expected_rows, frames_equal, isnull, vals_equal
from pbt.model import Model
from pbt.core import Skip, Sub, Violation
from pbt.dfsgen import chance

ID = 'C21'
RULE = ('Generated entity sets, features of every variable type (also multi-output), cutoffs and extra cutoff columns; the matrix is '
        'encoded with a generated number of values (one number, or one per feature), a list of features to encode, with and without '
        'the unknown column, drop_first, inplace. Every column is compared with a count of the values in plain Python; the returned '
        'features are calculated again on the same cutoffs, also after saving and loading them, and have to give the encoded matrix. '
        'Non-trivial: a feature with two values at least was encoded.')
ASSUMPTIONS = ['which of equally frequent values are kept is not fixed', 'the recalculation is compared for the instances that exist at their cutoff']


@st.composite
def cases(draw):
    spec = draw(gen.es_specs(min_ents=draw(st.sampled_from([1, 2, 2, 3])), max_ents=3, max_rows=9, min_rows=draw(st.sampled_from([1, 5, 5])),
                             times='mixed'))
    target = draw(gen.targets(spec))
    if chance(draw, 6):
        # more different values than are encoded by default
        spec = draw(gen.es_specs(min_ents=1, max_ents=1, min_rows=12, max_rows=16, force_cols=('c', 'c2')))
        target = 'e0'
        for c in spec['ents'][0]['cols']:
            if c['t'] == 'cat':
                c['v'] = ['v%d' % (i if i < 12 else 0) for i in draw(st.permutations(range(len(c['v']))))]
    co = draw(gen.cutoffs(spec, target, max_rows=9))
    if chance(draw, 2):
        ids = gen.ent_of(spec, target)['ids']
        late = draw(st.lists(st.integers(gen.T_MAX - 6, gen.T_MAX), min_size=len(ids), max_size=len(ids)))
        co = {'mode': 'rows', 'rows': [[i, t] for i, t in zip(draw(st.permutations(ids)), late)]}
    feats = draw(gen.feature_lists(spec, target, depth=2, min_n=1, max_n=5))
    e = gen.ent_of(spec, target)
    disc = [{'k': 'id', 'e': target, 'v': c['n'], 't': c['t']} for c in e['cols'] if c['t'] in ('cat', 'bool')]
    disc += [{'k': 'id', 'e': target, 'v': l['col'], 't': 'fk'} for l in e['links']]
    for d in disc:
        if d not in feats and draw(st.booleans()):
            feats = feats + [d]
    if chance(draw, 2) and disc and disc[0] not in feats:
        feats = feats + disc[:1]
    return {'spec': spec, 'target': target, 'co': co, 'feats': feats,
            'top': draw(st.one_of(st.none(), st.integers(1, 4), st.lists(st.one_of(st.none(), st.integers(1, 4)), min_size=7, max_size=7))),
            'unknown': draw(st.booleans()), 'drop_first': draw(st.booleans()), 'inplace': draw(st.booleans()),
            'only': draw(st.one_of(st.none(), st.none(), st.lists(st.booleans(), min_size=7, max_size=7))),
            'extra': draw(st.booleans()), 'save': chance(draw, 3), 'cti': draw(st.booleans())}


def run(case, ctx):
    spec, target, co = case['spec'], case['target'], case['co']
    es = build.build_es(spec)
    feats = build.build_features(es, spec, case['feats'])
    if not expected_rows(spec, target, co):
        return
    a = build.cutoff_args(spec, target, co)
    extra = isinstance(a.get('cutoff_time'), pd.DataFrame) and case['extra']
    if extra:
        a['cutoff_time']['label'] = ['l%d' % (i % 3) for i in range(len(a['cutoff_time']))]
    fm = ft.calculate_feature_matrix(feats, es, cutoff_time_in_index=case['cti'], **a)
    before = fm.copy()
    names = [f.get_name() for f in feats]
    kw = {'include_unknown': case['unknown'], 'drop_first': case['drop_first']}
    top = case['top']
    tops = dict.fromkeys(names, 10)
    if isinstance(top, int):
        kw['top_n'] = top
        tops = dict.fromkeys(names, top)
    elif top is not None:
        kw['top_n'] = {n: k for n, k in zip(names, top) if k}
        tops.update(kw['top_n'])
    if case['only'] is not None:
        kw['to_encode'] = [n for n, b in zip(names, case['only']) if b]
    if any('%s = %s' % (n, v) in before.columns for n in names if n in before.columns for v in before[n].tolist()):
        raise Skip()
    enc, fenc = ft.encode_features(fm, feats, inplace=case['inplace'], **kw)
    if not case['inplace']:
        frames_equal(before, fm, 'the matrix given to encode_features')
    if len(enc) != len(before) or not enc.index.equals(before.index):
        raise Violation('the rows changed: %r, were %r' % (enc.index, before.index))
    want_cols, interesting = [], False
    for f in feats:
        n = f.get_name()
        one = f.number_output_features == 1
        if not one or not issubclass(f.variable_type, Discrete) or (case['only'] is not None and n not in kw['to_encode']):
            for c in f.get_feature_names():
                same_column(before[c], enc, c)
                want_cols.append(c)
            continue
        vals = before[n].tolist()
        counts = {}
        for v in vals:
            if not isnull(v):
                counts[v] = counts.get(v, 0) + 1
        k = min(tops[n], len(counts))
        if case['drop_first']:
            k = min(max(k - 1, 1), len(counts))
        interesting = interesting or len(counts) > 1
        labels = {'%s = %s' % (n, v): v for v in counts}
        if len(labels) != len(counts) or set(labels) & set(before.columns):
            raise Skip()
        start = len(want_cols)
        cols = [c for c in list(enc.columns)[start:start + k]]
        kept = []
        for c in cols:
            if c not in labels:
                raise Violation('column %d of the encoded matrix is %r, no value of %s %r' % (start, c, n, sorted(map(str, counts))))
            v = labels[c]
            if v in kept:
                raise Violation('%r is encoded twice' % c)
            kept.append(v)
            same_column(pd.Series([not isnull(x) and x == v for x in vals]), enc, c)
        for v in counts:
            if v not in kept and any(counts[v] > counts[u] for u in kept):
                raise Violation('%s: %r (%d times) is left out, %r are encoded of %r' % (n, v, counts[v], kept, counts))
        for u, v in zip(kept, kept[1:]):
            if counts[u] < counts[v]:
                raise Violation('%s: values are not in order of frequency: %r of %r' % (n, kept, counts))
        want_cols += cols
        if case['unknown']:
            c = n + ' is unknown'
            same_column(pd.Series([isnull(x) or x not in kept for x in vals]), enc, c)
            want_cols.append(c)
    rest = want_cols + (['label'] if extra else [])
    if list(enc.columns) != rest:
        raise Violation('columns %r, expected %r' % (list(enc.columns), rest))
    if extra:
        same_column(before['label'], enc, 'label')
    got = [c for f in fenc for c in f.get_feature_names()]
    if got != want_cols:
        raise Violation('features %r do not match the columns %r' % (got, want_cols))
    ctx.nt(interesting)
    ctx.label('encoded', want_cols != [c for f in feats for c in f.get_feature_names()])
    ctx.label('multi-output', any(f.number_output_features > 1 for f in feats))
    # the definitions give the encoded matrix
    if co['mode'] == 'none' or not fenc:
        return
    if case['save']:
        fenc = ft.load_features(ft.save_features(fenc))
        ctx.label('saved')
    again = ft.calculate_feature_matrix(fenc, es, cutoff_time_in_index=case['cti'], **a)
    if list(again.index) != list(enc.index):
        raise Violation('calculating the encoded features: other rows')
    there = {}
    for i, t in expected_rows(spec, target, co):
        there.setdefault(t, Model(spec, t))
    pos = [k for k, (i, t) in enumerate(expected_rows(spec, target, co)) if there[t].row_of(target, i) is not None]
    frames_equal(enc[want_cols].iloc[pos], again[want_cols].iloc[pos], 'calculating the encoded features')
    ctx.label('calculated again')


def same_column(want, enc, c):
    if c not in enc.columns:
        raise Violation('column %r is missing of %r' % (c, list(enc.columns)))
    for i, (x, y) in enumerate(zip(want.tolist(), enc[c].tolist())):
        if not vals_equal(x, y):
            raise Violation('column %r row %d is %r, expected %r' % (c, i, y, x))


CHECKS = [Sub('encode', cases(), run, quick=800)]
