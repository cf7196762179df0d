"""Last time indexes: the last time an instance or anything linked to it occurred."""
import copy

import pandas as pd
from hypothesis import strategies as st

from pbt import build, gen
from pbt.core import Sub, Violation
from pbt.gen import ent_of
from pbt.model import lti_model

ID = 'C16'
RULE = ('An entity set with 1-5 entities (several relationships between the same two, missing times, entities '
        'without time index or without rows of their own, unknown parents) gets last time indexes; then its data is '
        'replaced 0-4 times (rows removed, added, re-linked, re-timed), in one entity or several at once, with '
        'automatic or explicit (updated_entities) recalculation. After each step the last time of every instance of '
        'every entity is compared with the definition. Non-trivial: some instance has its last time from a child, '
        'and when data was replaced some last time changed.')


def versions(draw, e, spec):
    """other content for entity e: the same ids in part, new times and links"""
    ids = list(e['ids'])
    keep = draw(st.lists(st.sampled_from(ids), unique=True, max_size=len(ids))) if ids else []
    start = draw(st.integers(20, 22))
    new = ['k%d' % (start + i) if e['idtype'] == 'str' else start + i for i in range(draw(st.integers(0, 2)))]
    out = {'ids': keep + new}
    n = len(out['ids'])
    if n == 0:
        out['ids'] = ids[:1] or (['k0'] if e['idtype'] == 'str' else [0])
        n = 1
    out['times'] = None if e['times'] is None else draw(
        st.lists(st.one_of(gen.TIMES, gen.TIMES, st.none()), min_size=n, max_size=n))
    if out['times'] is not None and out['times'][0] is None:
        out['times'][0] = draw(gen.TIMES)
    if out['times'] is not None and spec['tt'] == 'num':
        out['times'] = [0 if t is None else t for t in out['times']]
    out['links'] = []
    for l in e['links']:
        pe = ent_of(spec, l['p'])
        opts = [st.sampled_from(list(pe['ids']) or [0])] * 3 + [st.just('zz' if pe['idtype'] == 'str' else 99)]
        out['links'].append(draw(st.lists(st.one_of(*opts), min_size=n, max_size=n)))
    out['perm'] = draw(st.permutations(list(range(n))))
    return out


def numeric_times(spec):
    for e in spec['ents']:
        if spec['tt'] == 'num' and e['times']:
            e['times'] = [0 if t is None else t for t in e['times']]


@st.composite
def cases(draw):
    spec = draw(gen.es_specs(min_ents=draw(st.sampled_from([1, 2, 3, 3])), max_ents=5, times='mixed',
                             nat_time=draw(st.booleans()), secondary=False, max_rows=6,
                             numeric_time=draw(st.integers(0, 5)) == 0))
    numeric_times(spec)
    for e in spec['ents']:
        if e['times'] and e['times'][0] is None:   # the kind of a time index is read from its first value
            e['times'] = [0 if t is None and i == 0 else t for i, t in enumerate(e['times'])]
    steps = []
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 3, 4]))):
        ents = draw(st.lists(st.sampled_from([e['id'] for e in spec['ents']]), min_size=1, max_size=3, unique=True))
        steps.append({'how': draw(st.sampled_from(['auto', 'explicit', 'all'])),
                      'sorted': draw(st.booleans()),
                      'ents': [[x, versions(draw, ent_of(spec, x), spec)] for x in ents]})
    return {'spec': spec, 'steps': steps, 'twice': draw(st.booleans())}


def apply_version(e, v):
    n = len(v['ids'])
    old = {i: k for k, i in enumerate(e['ids'])}
    cols = []
    for c in e['cols']:
        vals = [c['v'][old[i]] if i in old else c['v'][0] if c['v'] else 0 for i in v['ids']]
        cols.append(dict(c, v=vals))
    return dict(e, ids=list(v['ids']), times=v['times'], cols=cols,
                links=[dict(l, v=list(x)) for l, x in zip(e['links'], v['links'])])


def check(es, spec, what, ctx):
    m = lti_model(spec)
    childs = False
    for e in spec['ents']:
        got = es[e['id']].last_time_index
        if got is None:
            raise Violation('%s: no last times for %s' % (what, e['id']))
        if len(got) != len(e['ids']) or set(got.index) != set(e['ids']):
            raise Violation('%s: last times of %s are for %r, its instances are %r' % (
                what, e['id'], list(got.index), e['ids']))
        own = dict(zip(e['ids'], e['times'] or [None] * len(e['ids'])))
        for i in e['ids']:
            g = got.loc[i]
            if spec['tt'] == 'num' and isinstance(g, pd.Timestamp):
                raise Violation('%s: last time of %s %r is %r, the times are numbers' % (what, e['id'], i, g))
            g = build.unts(g) if spec['tt'] == 'dt' else None if pd.isnull(g) else g
            if g != m[e['id']][i]:
                raise Violation('%s: last time of %s %r is %r, expected %r' % (
                    what, e['id'], i, g, m[e['id']][i]))
            childs = childs or own[i] != m[e['id']][i]
    return childs, m


def run(case, ctx):
    spec = copy.deepcopy(case['spec'])
    es = build.build_es(spec)
    es.add_last_time_indexes()
    childs, m = check(es, spec, 'first calculation', ctx)
    if case['twice']:
        es.add_last_time_indexes()
        check(es, spec, 'calculated again', ctx)
    changed = not case['steps']
    for k, s in enumerate(case['steps']):
        ids = []
        for eid, v in s['ents']:
            pos = [e['id'] for e in spec['ents']].index(eid)
            spec['ents'][pos] = apply_version(spec['ents'][pos], v)
            e = spec['ents'][pos]
            df = build.ent_df(spec, e).iloc[v['perm']]
            srt = s['sorted'] and e['times'] is None
            es[eid].update_data(df, already_sorted=srt, recalculate_last_time_indexes=s['how'] == 'auto')
            ids.append(eid)
        if s['how'] == 'explicit':
            es.add_last_time_indexes(updated_entities=ids)
        elif s['how'] == 'all':
            es.add_last_time_indexes()
        c2, m2 = check(es, spec, 'after update %d of %s (%s)' % (k, '/'.join(ids), s['how']), ctx)
        childs = childs or c2
        changed = changed or m2 != m
        ctx.label(s['how'])
        m = m2
    ctx.nt(childs and changed)
    ctx.label('two relationships to one child', any(
        len({l['p'] for l in e['links']}) < len(e['links']) for e in spec['ents']))


@st.composite
def late_cases(draw):
    """entities and relationships are added in any order, some after a first calculation"""
    spec = draw(gen.es_specs(min_ents=2, max_ents=4, times='mixed', secondary=False, max_rows=6))
    rels = [[e['id'], k] for e in spec['ents'] for k in range(len(e['links']))]
    return {'spec': spec, 'rels': draw(st.permutations(rels)),
            'ents': draw(st.permutations([e['id'] for e in spec['ents']])),
            'early': draw(st.booleans())}


def run_late(case, ctx):
    import featuretools as ft
    spec = case['spec']
    es = ft.EntitySet('x')
    for eid in case['ents']:
        e = ent_of(spec, eid)
        es.entity_from_dataframe(entity_id=eid, dataframe=build.ent_df(spec, e), index=e['index'],
                                 time_index='t' if e['times'] is not None else None,
                                 variable_types=build.ent_types(spec, e))
    if case['early']:
        es.add_last_time_indexes()
    for c, k in case['rels']:
        l = ent_of(spec, c)['links'][k]
        es.add_relationship(ft.Relationship(es[l['p']][ent_of(spec, l['p'])['index']], es[c][l['col']]))
    es.add_last_time_indexes()
    childs, _ = check(es, spec, 'relationships in another order', ctx)
    ctx.nt(childs and len(case['rels']) > 1)


@st.composite
def subset_cases(draw):
    spec = draw(gen.es_specs(min_ents=draw(st.sampled_from([2, 3])), max_ents=5, times='mixed', secondary=False, max_rows=5))
    ids = [e['id'] for e in spec['ents']]
    return {'spec': spec, 'calls': draw(st.lists(st.lists(st.sampled_from(ids), min_size=1, max_size=2, unique=True),
                                                 min_size=1, max_size=3))}


def run_subset(case, ctx):
    """last times of some entities are asked for before those of any other are known"""
    spec = case['spec']
    es = build.build_es(spec)
    m = lti_model(spec)
    up = {e['id']: {l['p'] for l in e['links']} for e in spec['ents']}
    kids = {x for e in spec['ents'] for x in up[e['id']]}
    need = set()
    for call in case['calls']:
        es.add_last_time_indexes(updated_entities=list(call))
        todo = list(call)
        while todo:
            x = todo.pop()
            if x not in need:
                need.add(x)
                todo += up[x]
        for e in spec['ents']:
            got = es[e['id']].last_time_index
            if got is None:
                if e['id'] in need:
                    raise Violation('no last times for %s after updating %r' % (e['id'], case['calls']))
                continue
            for i in e['ids']:
                g = build.unts(got.loc[i]) if spec['tt'] == 'dt' else got.loc[i]
                g = None if pd.isnull(g) else g
                if g != m[e['id']][i]:
                    raise Violation('updating %r: last time of %s %r is %r, expected %r' % (
                        case['calls'], e['id'], i, g, m[e['id']][i]))
    ctx.nt(any(x in kids for x in need) and len(need) < len(spec['ents']))


@st.composite
def old_cases(draw):
    case = draw(late_cases())
    zero = int((pd.Timestamp('1800-01-01') - build.BASE) / pd.Timedelta(hours=1))
    step = draw(st.sampled_from([1, 24, 24 * 365 * 5]))
    for e in case['spec']['ents']:
        if e['times'] and case['spec']['tt'] == 'dt':
            e['times'] = [None if t is None else zero + (t - 12) * step for t in e['times']]
    return case


CHECKS = [Sub('histories', cases(), run, quick=1200), Sub('any_order', late_cases(), run_late, quick=500),
          Sub('subset', subset_cases(), run_subset, quick=500),
          Sub('centuries', old_cases(), run_late, quick=300)]
