"""One row per request, in request order, with the requested columns."""
import featuretools as ft
import pandas as pd
from hypothesis import strategies as st

from pbt import build, gen
from pbt.build import ts
from pbt.common import check_matrix, expected_rows, plain, vals_equal
from pbt.core import Sub, Violation

ID = 'C05'
RULE = ('Entity set, features and a cutoff-time frame are generated with free choice of row order, repeated '
        'instances, unknown instances, column names (instance_id/time or the target entity\'s own), frame index, '
        'extra columns, chunk size, approximate and cutoff_time_in_index; plus single cutoffs with an id list. '
        'Shape, index, column order, pass-through values and defaults of unknown instances are checked. '
        'Non-trivial: two or more rows, and extra columns, an unknown or repeated instance or an unsorted order.')


@st.composite
def cases(draw):
    spec = draw(gen.es_specs(min_ents=draw(st.sampled_from([1, 2, 2, 3])), max_ents=3, times='mixed', max_rows=5))
    target = draw(gen.targets(spec))
    co = draw(gen.cutoffs(spec, target, modes=('rows', 'rows', 'rows', 'single', 'none'), max_rows=7))
    use_time = co['mode'] != 'none'
    fs = draw(gen.feature_lists(spec, target, depth=2, windows=False, use_time=use_time, min_n=1, max_n=3))
    ent = gen.ent_of(spec, target)
    if co['mode'] == 'single' and ent['times'] and any(t is not None for t in ent['times']) and draw(st.booleans()):
        co = {'mode': 'single', 't': draw(st.sampled_from([t for t in ent['times'] if t is not None])), 'ids': None}
    case = {'spec': spec, 'target': target, 'co': co, 'feats': fs,
            'include': co['mode'] == 'none' or draw(st.booleans()), 'in_index': draw(st.booleans()),
            'chunk': draw(st.one_of(st.none(), st.integers(1, 4), st.just(0.5)))}
    if co['mode'] == 'rows':
        n = len(co['rows'])
        case['id_col'] = draw(st.sampled_from(['instance_id', ent['index']]))
        case['time_col'] = draw(st.sampled_from(['time', 't'])) if ent['times'] is not None else 'time'
        extra = []
        for name in draw(st.lists(st.sampled_from(['label', 'weight', 'B', 'a']), max_size=3, unique=True)):
            el = draw(st.sampled_from(['int', 'str', 'float']))
            v = {'int': st.integers(0, 99), 'str': st.sampled_from(['p', 'q', '']),
                 'float': st.one_of(st.none(), st.sampled_from([0.5, 2.0]))}[el]
            extra.append([name, draw(st.lists(v, min_size=n, max_size=n))])
        case['extra'] = extra
        case['index'] = draw(st.one_of(st.none(), st.permutations(list(range(10, 10 + n)))))
        case['col_order'] = draw(st.permutations(list(range(2 + len(extra)))))
        case['approx'] = draw(st.sampled_from([None, None, 5]))
    return case


def run(case, ctx):
    spec, target, co = case['spec'], case['target'], case['co']
    ent = gen.ent_of(spec, target)
    es = build.build_es(spec)
    feats = build.build_features(es, spec, case['feats'])
    rows = expected_rows(spec, target, co, case['include'])
    if not rows:
        ctx.label('no instance')
        return
    kw = build.cutoff_args(spec, target, co)
    extra = case.get('extra', [])
    if co['mode'] == 'rows':
        df = kw['cutoff_time'].rename(columns={'instance_id': case['id_col'], 'time': case['time_col']})
        for name, v in extra:
            df[name] = v
        df = df[[df.columns[i] for i in case['col_order']]]
        if case['index'] is not None:
            df.index = case['index']
        kw['cutoff_time'] = df
        if case['approx']:
            kw['approximate'] = ft.Timedelta(case['approx'], 'h')
            ctx.label('approximate')
    fm = ft.calculate_feature_matrix(feats, es, cutoff_time_in_index=case['in_index'], chunk_size=case['chunk'],
                                     include_cutoff_time=case['include'], **kw)
    ctx.label(co['mode'])
    ctx.label('cutoff_time_in_index', case['in_index'])
    ids = [r[0] for r in rows]
    ctx.label('unknown instance', any(i not in ent['ids'] for i in ids))
    ctx.nt(len(rows) > 1 and (bool(extra) or any(i not in ent['ids'] for i in ids) or
                              len(set(ids)) < len(ids) or ids != sorted(ids)))
    if len(fm) != len(rows):
        raise Violation('%d rows for %d requests' % (len(fm), len(rows)))
    names = [n for f in feats for n in f.get_feature_names()]
    if list(fm.columns[:len(names)]) != names:
        raise Violation('columns %r, requested features %r' % (list(fm.columns), names))
    if sorted(fm.columns[len(names):]) != sorted(n for n, _ in extra):
        raise Violation('columns after the features %r, pass-through columns %r' % (
            list(fm.columns[len(names):]), [n for n, _ in extra]))
    if case['in_index']:
        if list(fm.index.names) != [ent['index'], 'time']:
            raise Violation('index names %r' % (list(fm.index.names),))
        if co['mode'] != 'none':
            times = list(fm.index.get_level_values(1))
            exp = [ts(r[1], spec['tt']) for r in rows]
            if [pd.Timestamp(t) for t in times] != exp:
                raise Violation('time level %r, requested %r' % (times, exp))
        elif len(set(fm.index.get_level_values(1))) != 1:
            raise Violation('several times without a cutoff')
        fm = fm.reset_index(level=1, drop=True)
    if isinstance(fm.index, pd.MultiIndex) or fm.index.name != ent['index']:
        raise Violation('index name %r, expected %r' % (fm.index.names, ent['index']))
    for name, v in extra:
        for i, (a, b) in enumerate(zip(fm[name].tolist(), v)):
            if not vals_equal(a, b):
                raise Violation('pass-through %s in row %d: %r, given %r' % (name, i, a, b))
    if not case.get('approx'):
        check_matrix(fm, spec, target, case['feats'], feats, rows, case['include'])
    elif [plain(i) for i in fm.index] != ids:
        raise Violation('row index %r, expected %r' % (list(fm.index), ids))


CHECKS = [Sub('layout', cases(), run, quick=1500)]
