"""Exactly the documented rows are selected by windows."""
from hypothesis import strategies as st

from pbt import build, gen
from pbt.common import check_matrix, compute, expected_rows
from pbt.core import Sub
from pbt.model import lti_model

ID = 'C03'
RULE = ('As C02, with a training window, use_previous on aggregations (hours, days, hours+minutes, observations), '
        'include_cutoff_time on and off, and last time indexes computed or not. Times are hours in a range of 24, so '
        'that rows at exactly the cutoff and at exactly the window\'s start are frequent. Half as often, lists of aggregations over one path that differ in the window (the same number of hours, '
        'minutes, days or observations), the condition or the function only. Non-trivial: a window or a '
        'use_previous applies to an aggregation.')


@st.composite
def cases(draw):
    spec = draw(gen.es_specs(min_ents=draw(st.sampled_from([1, 2, 3, 3])), max_ents=4,
                             times=draw(st.sampled_from(['mixed', 'all']))))
    target = draw(gen.targets(spec))
    co = draw(gen.cutoffs(spec, target, modes=('rows', 'rows', 'single')))
    fs = draw(st.one_of(gen.feature_lists(spec, target, depth=3, windows=True),
                        gen.sibling_lists(spec, target, depth=2, windows=True, max_n=4)))
    if gen.back_links(spec, target) and draw(st.integers(0, 2)):
        f = gen.Gen(draw, spec, windows=True).g_agg(target, draw(st.sampled_from(['num', 'num', 'cat'])), 2)
        if f is not None and f not in fs:
            fs = [f] + fs
    # windows that begin exactly at some row
    T = [r[1] for r in co['rows']] if co['mode'] == 'rows' else [co['t']]
    edges = sorted({t - r for t in T for e in spec['ents'] for r in e['times'] or () if t > r}) or [1]
    return {'spec': spec, 'target': target, 'co': co, 'feats': fs,
            'include': draw(st.booleans()),
            'window': draw(st.one_of(st.none(), st.integers(1, 12), st.sampled_from(edges), st.sampled_from(edges))),
            'lti': draw(st.booleans())}


def run(case, ctx):
    spec, target = case['spec'], case['target']
    es = build.build_es(spec)
    lti = None
    if case['lti']:
        es.add_last_time_indexes()
        lti = lti_model(spec)
    feats = build.build_features(es, spec, case['feats'])
    rows = expected_rows(spec, target, case['co'], case['include'], case['window'], lti)
    if not rows:
        ctx.label('no instance')
        return
    fm = compute(es, spec, target, feats, case['co'], case['include'], case['window'])
    ctx.label('window', case['window'] is not None)
    for f in case['feats']:
        for x in gen.walk(f):
            ctx.label(x['k'])
            if x.get('prev'):
                ctx.label('prev ' + x['prev'][0])
                ctx.nt()
            if x['k'] == 'agg' and case['window']:
                ctx.nt()
    check_matrix(fm, spec, target, case['feats'], feats, rows, case['include'], case['window'], lti)


@st.composite
def alike_cases(draw):
    """aggregations over one path that differ in one thing: the window, the condition or the function"""
    spec = draw(gen.es_specs(min_ents=2, max_ents=draw(st.sampled_from([2, 3])), times='all', min_rows=3, max_rows=9))
    target = draw(st.sampled_from([e['id'] for e in spec['ents'] if gen.back_links(spec, e['id'])] or ['e0']))
    paths = gen.back_paths(spec, target, 2)
    if draw(st.integers(0, 3)):
        gen.ent_of(spec, target).update(times=None, sec=None)   # every instance exists
    g = gen.Gen(draw, spec, windows=True)
    out = []
    times = [0]
    if paths:
        path = draw(st.sampled_from(paths))
        child = path[-1][0]
        times = [t for t in gen.ent_of(spec, child)['times'] if t is not None]
        if draw(st.integers(0, 3)):     # several rows for each instance
            for c, li in path:
                l = gen.ent_of(spec, c)['links'][li]
                l['v'] = draw(st.lists(st.sampled_from(list(gen.ent_of(spec, l['p'])['ids'])[:2]),
                                       min_size=len(l['v']), max_size=len(l['v'])))
        flags = g.identities(child, 'bool')
        wheres = []
        for kind in draw(st.sampled_from(['n', 'n', 'w', 'w', 'nw', 'ww'])):
            w = None if kind == 'n' else draw(st.sampled_from(flags)) if flags and draw(st.booleans()) else g.g_tr(child, 'bool', 1)
            if w not in wheres:
                wheres.append(w)
        prevs = draw(st.one_of(st.sampled_from(gen.SAME_NUMBER),
                               st.lists(st.sampled_from([None] + gen.PREVS), min_size=2, max_size=3)))
        nums = g.identities(child, 'num')
        for p in draw(st.lists(st.sampled_from(['count', 'sum', 'last', 'max']), min_size=1, max_size=2, unique=True)):
            b = draw(st.sampled_from(nums)) if nums and p != 'count' else None
            if b is None:
                p, b = 'count', g.identities(child, 'idx')[0]
            for w in wheres:
                for v in prevs:
                    f = {'k': 'agg', 'p': p, 'e': target, 'b': [b], 't': 'num', 'path': path, 'where': w, 'prev': v}
                    if f not in out:
                        out.append(f)
    out = draw(st.permutations(out))[:8] or [g.identities(target, 'idx')[0]]
    ids = list(gen.ent_of(spec, target)['ids'])
    T = sorted({t + d for t in times for d in (0, 1)}) + [max(times), gen.T_MAX]
    co = draw(st.one_of(
        st.builds(lambda t: {'mode': 'single', 't': t, 'ids': None}, st.sampled_from(T)),
        st.builds(lambda r: {'mode': 'rows', 'rows': [list(x) for x in r]},
                  st.lists(st.tuples(st.sampled_from(ids), st.sampled_from(T)), min_size=1, max_size=4, unique=True))))
    return {'spec': spec, 'target': target, 'co': co, 'feats': out, 'include': draw(st.booleans()),
            'window': draw(st.one_of(st.none(), st.none(), st.integers(1, 24))), 'lti': False}


CHECKS = [Sub('windows', cases(), run, quick=1500), Sub('alike', alike_cases(), run, quick=700)]
