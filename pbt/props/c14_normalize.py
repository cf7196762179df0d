"""Normalizing an entity: a new parent with one row per value, nothing lost."""
import featuretools as ft
import pandas as pd
from hypothesis import strategies as st

from pbt import build, gen
from pbt.common import plain, vals_equal
from pbt.core import Sub, Violation
from pbt.esmodel import MES, check
from pbt.gen import ent_of

ID = 'C14'
RULE = ('An entity set (1-3 entities) and 1-3 successive normalizations of its entities (also of entities made by an '
        'earlier one) with generated index column, moved and copied variables, all choices for the new time index and a '
        'secondary time index. After each the whole entity set (data, variable types, time indexes, relationships, '
        'metadata) is compared with a model in which the new entity has the first (secondary: last) row of every value; '
        'and what was moved is brought back by direct features. Non-trivial: a value occurs several times and a variable is '
        'moved or copied.')


@st.composite
def one(draw, m, k):
    base = draw(st.sampled_from(sorted(m.ents)))
    e = m.ents[base]
    linked = {cv for p, pv, c, cv in m.rels if c == base}
    cand = [c for c in e.data if c != e.index and c != e.time_index]
    keys = [c for c in cand if all(v is not None for v in e.data[c]) and
            all(isinstance(v, (int, str)) and not isinstance(v, bool) for v in e.data[c])]
    if not keys:
        return None
    key = draw(st.sampled_from(sorted(keys)))
    rest = sorted(c for c in cand if c != key)
    how = {c: draw(st.sampled_from(['add', 'copy', 'keep', 'keep'] if c not in linked else ['copy', 'keep']))
           for c in rest}
    add = [c for c in rest if how[c] == 'add']
    cp = [c for c in rest if how[c] == 'copy']
    timelike = 'Datetime' if m.ti_type == 'DatetimeTimeIndex' else 'Numeric'
    dts = [c for c in rest if e.types[c] == timelike and all(v is not None for v in e.data[c])]
    opts = [None, False] + ([True] if e.time_index else []) + [c for c in dts if how[c] != 'keep']
    mti = draw(st.sampled_from(opts))
    if e.time_index and draw(st.integers(0, 3)) == 0:
        cp = cp + [e.time_index]
        if mti is None and draw(st.booleans()):
            mti = e.time_index
    new_ti = draw(st.sampled_from([None, 'when'])) if mti in (None, True) else None
    sec, new_sec = None, None
    timed = mti not in (None, False) or (mti is None and e.time_index)
    keep_dt = [c for c in dts if how[c] == 'keep']
    if timed and draw(st.booleans()):
        cs = keep_dt + ([e.time_index] if e.time_index and e.time_index not in cp else [])
        free = [c for c in rest if how[c] == 'keep' and c not in linked]
        if cs:
            s = draw(st.sampled_from(cs))
            sec = {s: draw(st.lists(st.sampled_from([c for c in free if c != s]), max_size=2, unique=True)) if set(free) - {s} else []}
            new_sec = draw(st.sampled_from([None, 'late']))
            if s == e.time_index and mti not in (None, True):
                sec = None
    return {'base': base, 'new': 'n%d' % k, 'index': key, 'add': add, 'copy': cp, 'mti': mti,
            'new_ti': new_ti, 'sec': sec, 'new_sec': new_sec if sec else None}


def distinct(m, eid):
    e = m.ents[eid]
    return e.time_index is None or len(set(e.data[e.time_index])) == e.n


@st.composite
def cases(draw):
    spec = draw(gen.es_specs(min_ents=1, max_ents=3, times='mixed', force_cols=draw(st.sampled_from(
        [(), ('y',), ('y', 'd'), ('y', 'd', 'x'), ('y', 'd', 'c')])), min_rows=2, max_rows=8,
        null_fk=False, numeric_time=draw(st.integers(0, 3)) == 0))
    for e in spec['ents']:
        n = len(e['ids'])
        if e['times']:
            e['times'] = draw(st.lists(gen.TIMES, min_size=n, max_size=n, unique=True))
        for c in e['cols']:
            if c['n'] == 'd':
                c['v'] = draw(st.lists(gen.TIMES, min_size=n, max_size=n, unique=True))
            if c['n'] == 'y':
                c['v'] = draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))
            if c['n'] in ('c', 'c2') and draw(st.booleans()):
                c['v'] = draw(st.lists(st.sampled_from('abc'), min_size=n, max_size=n))
    m = make(spec)
    steps = []
    for k in range(draw(st.sampled_from([1, 1, 2, 3]))):
        s = draw(one(m, k))
        if s is None:
            break
        apply_model(m, s)
        steps.append(s)
    return {'spec': spec, 'steps': steps}


def make(spec):
    m = MES()
    if spec['tt'] == 'num':
        m.ti_type = 'NumericTimeIndex'
    for e in spec['ents']:
        m.add_spec_entity(spec, e['id'])
    for e in spec['ents']:
        for l in e['links']:
            m.add_rel(l['p'], ent_of(spec, l['p'])['index'], e['id'], l['col'])
    return m


def apply_model(m, s):
    m.normalize(s['base'], s['new'], s['index'], s['add'], s['copy'], s['mti'], s['new_ti'], s['sec'], s['new_sec'])


def run(case, ctx):
    m = make(case['spec'])
    es = build.build_es(case['spec'])
    check(es, m, 'before')
    for s in case['steps']:
        old = m.copy()
        apply_model(m, s)
        r = es.normalize_entity(
            s['base'], s['new'], s['index'], additional_variables=list(s['add']), copy_variables=list(s['copy']),
            make_time_index=s['mti'], make_secondary_time_index={k: list(v) for k, v in s['sec'].items()} if s['sec'] else None,
            new_entity_time_index=s['new_ti'], new_entity_secondary_time_index=s['new_sec'])
        if r is not es:
            raise Violation('normalize_entity returned %r' % (r,))
        check(es, m, 'normalized %s by %s' % (s['base'], s['index']))
        b = old.ents[s['base']]
        vals = b.data[s['index']]
        ctx.nt(len(set(vals)) < len(vals) and (s['add'] or s['copy']))
        # direct features bring back what depends on the new index
        rel = [r for r in es.relationships if r.parent_entity.id == s['new']][0]
        back = [c for c in s['add']
                if len({(k, repr(v)) for k, v in zip(vals, b.data[c])}) == len(set(vals))]
        if back:
            feats = [ft.DirectFeature(ft.IdentityFeature(es[s['new']][c]), es[s['base']], relationship=rel)
                     for c in back]
            fm = ft.calculate_feature_matrix(feats, es, n_jobs=1)
            for f, c in zip(feats, back):
                for k, v in zip(b.data[b.index], b.data[c]):
                    x = fm[f.get_name()].loc[k]
                    if (v is None) != bool(pd.isnull(x)) or (v is not None and not vals_equal(plain(x), v)):
                        raise Violation('%s of %s %r was %r, the direct feature gives %r' % (c, s['base'], k, v, x))
            ctx.label('brought back')
        ctx.label('numeric times', case['spec']['tt'] == 'num')
        ctx.label('secondary', s['sec'] is not None)
        ctx.label('time index %s' % (s['mti'] if not isinstance(s['mti'], str) else 'column'))
        ctx.label('a second normalization', s['new'] != 'n0')


CHECKS = [Sub('normalize', cases(), run, quick=700)]
