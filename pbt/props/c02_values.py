"""Every cell of a feature matrix equals the feature's definition."""
from hypothesis import strategies as st

from pbt import build, gen
from pbt.common import check_matrix, compute, expected_rows
from pbt.core import Sub

ID = 'C02'
RULE = ('Entity sets of 1-4 entities (any relationship DAG, parallel relationships, dangling and null foreign keys, '
        'time and secondary time indexes), 1-4 features of depth <= 3 over them and cutoff requests are generated; '
        'every cell is compared with the reference evaluator. The second sub-check generates features that share path, '
        'group or base and differ in the rest. Non-trivial: a feature contains an aggregation.')


@st.composite
def cases(draw, times='mixed', windows=False, siblings=False):
    spec = draw(gen.es_specs(min_ents=draw(st.sampled_from([1, 2, 3, 3])), max_ents=4, times=times))
    target = draw(gen.targets(spec))
    co = draw(gen.cutoffs(spec, target))
    use_time = co['mode'] != 'none'
    if siblings:
        fs = draw(gen.sibling_lists(spec, target, windows=windows and use_time, use_time=use_time))
    else:
        fs = draw(gen.feature_lists(spec, target, depth=3, windows=windows and use_time, use_time=use_time))
    return {'spec': spec, 'target': target, 'co': co, 'feats': fs,
            'include': draw(st.booleans()) if use_time else True}


def values(case, ctx):
    spec, target = case['spec'], case['target']
    es = build.build_es(spec)
    feats = build.build_features(es, spec, case['feats'])
    if not expected_rows(spec, target, case['co'], case['include']):
        ctx.label('no instance')
        return
    fm = compute(es, spec, target, feats, case['co'], case['include'])
    rows = expected_rows(spec, target, case['co'], case['include'])
    if not rows:
        return
    for f in case['feats']:
        for x in gen.walk(f):
            ctx.label(x['k'])
            if x.get('where'):
                ctx.label('where')
            if x.get('prev'):
                ctx.label('prev')
            if x['k'] == 'agg' and len(x['path']) > 1:
                ctx.label('deep path')
            if x['k'] == 'agg':
                ctx.nt()
    check_matrix(fm, spec, target, case['feats'], feats, rows, case['include'])


CHECKS = [Sub('values', cases(), values, quick=1700),
          Sub('siblings', cases(siblings=True), values, quick=900)]
