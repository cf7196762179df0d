"""Data from after the cutoff time does not influence any feature value."""
import copy

from hypothesis import strategies as st

from pbt import build, gen
from pbt.common import compute, frames_equal, expected_rows
from pbt.core import Sub, Violation

ID = 'C01'
RULE = ('An entity set (1-4 entities, with secondary time indexes, several relationships), features '
        '(aggregations, direct, transform, group-by, where, use_previous; depth <= 3) and cutoff times are '
        'generated; everything dated after the cutoff of one of the requested rows is then rewritten (values, links, times, rows '
        'removed, rows added) and the matrix recomputed; rows with that cutoff or an earlier one must be identical. Non-trivial: the rewrite changed at least one row or '
        'hidden value of an entity that the features read.')
ASSUMPTIONS = ['last_time_index is not set (a training window with last_time_index admits a row by its later '
               'activity; that is its documented purpose and is covered by C03)']


def is_future(t, T, include):
    return t is not None and (t > T if include else t >= T)


@st.composite
def rewrite_future(draw, spec, T, include):
    new = copy.deepcopy(spec)
    n_changed = []
    lo = T + 1 if include else T
    for e in new['ents']:
        if e['times'] is None:
            continue
        n = len(e['ids'])
        fut = [i for i in range(n) if is_future(e['times'][i], T, include)]
        keep, touched = [], False
        for i in range(n):
            if i not in fut:
                keep.append(i)
                continue
            act = draw(st.sampled_from(['keep', 'drop', 'change', 'change']))
            if act == 'drop':
                touched = True
                continue
            keep.append(i)
            if act == 'change':
                touched = True
                e['times'][i] = draw(st.integers(lo, lo + 10))
                for c in e['cols']:
                    c['v'][i] = draw(gen.values(c['t'], 1))[0]
                for l in e['links']:
                    pool = gen.ent_of(spec, l['p'])['ids']
                    l['v'][i] = draw(st.sampled_from(pool))
                if e['sec']:
                    e['sec']['v'][i] = draw(st.integers(lo, lo + 10))
        for key in ('ids', 'times'):
            e[key] = [e[key][i] for i in keep]
        for c in e['cols'] + e['links'] + ([e['sec']] if e['sec'] else []):
            c['v'] = [c['v'][i] for i in keep]
        for k in range(draw(st.integers(0, 2))):
            touched = True
            pos = draw(st.integers(0, len(e['ids'])))
            e['ids'].insert(pos, 50 + k if e['idtype'] == 'int' else 'new%d' % k)
            e['times'].insert(pos, draw(st.integers(lo, lo + 10)))
            for c in e['cols']:
                c['v'].insert(pos, draw(gen.values(c['t'], 1))[0])
            for l in e['links']:
                l['v'].insert(pos, draw(st.sampled_from(gen.ent_of(spec, l['p'])['ids'])))
            if e['sec']:
                e['sec']['v'].insert(pos, draw(st.integers(lo, lo + 10)))
        # columns that become known after the cutoff
        if e['sec']:
            for i in range(len(e['ids'])):
                if e['sec']['v'][i] is not None and e['sec']['v'][i] >= T and draw(st.integers(0, 3)):
                    touched = True
                    if draw(st.integers(0, 3)):
                        e['sec']['v'][i] = draw(st.integers(T, T + 10))
                    for c in e['cols']:
                        if c['n'] in e['sec']['cols']:
                            c['v'][i] = draw(gen.values(c['t'], 1))[0]
        if touched and e['ids']:
            n_changed.append(e['id'])
    # no entity may become empty
    for i, e in enumerate(new['ents']):
        if not e['ids']:
            new['ents'][i] = copy.deepcopy(spec['ents'][i])
    return new, n_changed


@st.composite
def cases(draw, approx=False):
    spec = draw(gen.es_specs(min_ents=draw(st.sampled_from([1, 2, 3, 3])), max_ents=4, times='mixed', sec_often=draw(st.booleans()),
                             min_time_ents=draw(st.integers(1, 2))))
    target = draw(gen.targets(spec))
    co = draw(gen.cutoffs(spec, target, allow_none=False, unknown=False,
                          modes=('rows',) if approx else ('single', 'rows', 'rows')))
    # cutoffs in the middle of the data
    if co['mode'] == 'rows':
        co['rows'] = [[a, min(b, 16)] for a, b in co['rows']]
        co['rows'] = [list(x) for x in sorted(set(map(tuple, co['rows'])), key=str)]
        T = draw(st.sampled_from([r[1] for r in co['rows']]))
    else:
        co['t'] = min(co['t'], 16)
        co['ids'] = co['ids'] or list(gen.ent_of(spec, target)['ids'][:3])
        T = co['t']
    fs = draw(st.one_of(gen.feature_lists(spec, target, depth=3, windows=True),
                        gen.sibling_lists(spec, target, depth=2, windows=True, max_n=3)))
    if approx:
        extra = direct_of_agg(draw, spec, target)
        if extra is not None:
            fs = fs[:1] + [extra] if fs[0] != extra and draw(st.booleans()) else [extra]
    # columns that become known exactly at the cutoff, or just before or after it
    for e in spec['ents']:
        if e['sec']:
            for i in range(len(e['ids'])):
                if draw(st.booleans()):
                    e['sec']['v'][i] = draw(st.sampled_from([T, T, T - 1, T + 1]))
    if draw(st.booleans()):
        f = draw(gen.sec_feature(spec, target))
        if f is not None and f not in fs:
            fs = fs[:2] + [f]
    include = draw(st.booleans())
    new, changed = draw(rewrite_future(spec, T, include))
    return {'spec': spec, 'new': new, 'changed': changed, 'target': target, 'co': co, 'feats': fs, 'T': T,
            'include': include, 'window': draw(st.one_of(st.none(), st.none(), st.integers(1, 15))),
            'approx': draw(st.integers(1, 12)) if approx else None}


def direct_of_agg(draw, spec, target):
    g = gen.Gen(draw, spec, windows=False, full=False, multi=False)
    links = gen.ent_of(spec, target)['links']
    if not links:
        return None
    li = draw(st.integers(0, len(links) - 1))
    b = g.g_agg(links[li]['p'], draw(st.sampled_from(['num', 'cat'])), 2)
    if b is None:
        return None
    return {'k': 'dir', 'e': target, 'link': li, 'b': b, 't': b['t']}


def read_entities(f):
    out = set()
    for x in gen.walk(f):
        out.add(x['e'])
        if x['k'] == 'agg':
            out.update(c for c, _ in x['path'])
    return out


def run(case, ctx):
    spec, target = case['spec'], case['target']
    out = []
    kw = {}
    if case['approx']:
        import featuretools as ft
        kw['approximate'] = ft.Timedelta(case['approx'], 'h')
        ctx.label('approximate')
    for s in (spec, case['new']):
        es = build.build_es(s)
        feats = build.build_features(es, s, case['feats'])
        out.append(compute(es, s, target, feats, case['co'], case['include'], case['window'], **kw))
    read = set()
    for f in case['feats']:
        read |= read_entities(f)
    ctx.nt(bool(read & set(case['changed'])))
    ctx.label('window', bool(case['window']))
    ctx.label('target itself rewritten', target in case['changed'])
    for f in case['feats']:
        for x in gen.walk(f):
            ctx.label(x['k'])
            ctx.label('use_previous', bool(x.get('prev')))
    if case['co']['mode'] == 'rows':
        # rows of other requests, with later cutoffs, may change
        keep = [i for i, r in enumerate(case['co']['rows']) if r[1] <= case['T']]
        ctx.label('requests with later cutoffs beside', len(keep) < len(case['co']['rows']))
        out = [o.iloc[keep] for o in out]
    frames_equal(out[0], out[1], 'matrix before/after rewriting the future')


CHECKS = [Sub('future', cases(), run, quick=1100),
          Sub('future_approx', cases(approx=True), run, quick=500)]
