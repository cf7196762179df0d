"""A feature value does not depend on what else is requested with it."""
from hypothesis import strategies as st

from pbt import build, gen
from pbt.common import compute, vals_equal, plain
from pbt.core import Sub, Violation

ID = 'C04'
RULE = ('An entity set, features and 1-6 (instance, time) requests are generated. The matrix is computed in one '
        'call and compared cell by cell with: one call per request, a permuted request list, a generated chunk '
        'size (rows or a fraction), and each feature alone. Non-trivial: at least two requests or two features, '
        'and an aggregation or a feature over all rows among them.')


@st.composite
def cases(draw):
    spec = draw(gen.es_specs(min_ents=draw(st.sampled_from([1, 2, 3, 3])), max_ents=4, times='mixed'))
    target = draw(gen.targets(spec))
    co = draw(gen.cutoffs(spec, target, modes=('rows',), max_rows=6))
    fs = draw(st.one_of(gen.feature_lists(spec, target, depth=3, windows=True, min_n=2, max_n=5),
                        gen.sibling_lists(spec, target, depth=2, windows=True)))
    n = len(co['rows'])
    return {'spec': spec, 'target': target, 'co': co, 'feats': fs, 'include': draw(st.booleans()),
            'window': draw(st.one_of(st.none(), st.none(), st.integers(1, 15))),
            'perm': draw(st.permutations(list(range(n)))),
            'chunk': draw(st.one_of(st.integers(1, 7), st.sampled_from([0.1, 0.34, 0.5, 0.99]))),
            'single': draw(st.booleans())}


def cells(fm, rows):
    if len(fm) != len(rows):
        raise Violation('%d rows for %d requests' % (len(fm), len(rows)))
    out = {}
    for pos, r in enumerate(rows):
        if plain(fm.index[pos]) != r[0]:
            raise Violation('row %d is instance %r, requested %r' % (pos, fm.index[pos], r[0]))
        for c in fm.columns:
            out[(r[0], r[1], c)] = fm[c].iloc[pos]
    return out


def compare(base, other, what):
    for k, v in other.items():
        if k not in base:
            raise Violation('%s: unexpected cell %r' % (what, k))
        if not vals_equal(base[k], v):
            raise Violation('%s: feature %s of instance %r at %r is %r, with all requests together it is %r' % (
                what, k[2], k[0], k[1], plain(v), plain(base[k])))


def run(case, ctx):
    spec, target, co = case['spec'], case['target'], case['co']
    es = build.build_es(spec)
    feats = build.build_features(es, spec, case['feats'])
    args = (case['include'], case['window'])
    rows = co['rows']
    base = cells(compute(es, spec, target, feats, co, *args), rows)
    kinds = {x['k'] for f in case['feats'] for x in gen.walk(f)}
    ctx.nt((len(rows) > 1 or len(feats) > 1) and bool(kinds & {'agg', 'gtr'}))
    ctx.label('several times', len({r[1] for r in rows}) > 1)
    ctx.label('one instance twice', len({r[0] for r in rows}) < len(rows))
    ctx.label('several instances at one time', any(
        len([1 for q in rows if q[1] == r[1]]) > 1 for r in rows))
    prows = [rows[i] for i in case['perm']]
    compare(base, cells(compute(es, spec, target, feats, {'mode': 'rows', 'rows': prows}, *args), prows),
            'permuted requests')
    compare(base, cells(compute(es, spec, target, feats, co, *args, chunk_size=case['chunk']), rows),
            'chunk_size=%r' % case['chunk'])
    for r in rows[:4]:
        if case['single']:
            c1 = {'mode': 'single', 't': r[1], 'ids': [r[0]]}
        else:
            c1 = {'mode': 'rows', 'rows': [r]}
        compare(base, cells(compute(es, spec, target, feats, c1, *args), [r]), 'alone')
    if len(feats) > 1:
        for f in feats:
            compare(base, cells(compute(es, spec, target, [f], co, *args), rows), 'feature alone')


CHECKS = [Sub('requests', cases(), run, quick=500)]
