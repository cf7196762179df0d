"""Every sequence of operations leaves an entity set consistent."""
import copy
import pickle

import featuretools as ft
import pandas as pd
from featuretools import variable_types as vt
from hypothesis import strategies as st

from pbt import build, esops, gen
from pbt.core import Sub, Violation
from pbt.dfsgen import chance
from pbt.esmodel import MES, check
from pbt.esops import must_raise
from pbt.gen import ent_of
from pbt.props import c14_normalize

ID = 'C13'
RULE = ('4-17 operations on an initially empty entity set: entities and relationships are added in any valid order, '
        'relationships added twice, entities normalized, data replaced, variables deleted or converted, last time indexes and '
        'interesting values added, the set copied (deepcopy, pickle) and concatenated, and invalid operations attempted (which must '
        'be rejected without effect). After each the set is compared with a model: data, order, types, indexes, relationships, last '
        'times, and the metadata view. Non-trivial: at least two kinds of change after the first relationship.')

CONV = {'Numeric': ['Categorical', 'Ordinal', 'Numeric'], 'Categorical': ['ZIPCode', 'CountryCode', 'Categorical'],
        'Boolean': [], 'Datetime': []}


@st.composite
def cases(draw):
    spec = draw(gen.es_specs(min_ents=1, max_ents=4, times='mixed', null_fk=False, max_rows=6, sec_often=True, categories=False))
    m = MES()
    pend_e = list(draw(st.permutations([e['id'] for e in spec['ents']])))
    pend_r = [[e['id'], k] for e in spec['ents'] for k in range(len(e['links']))]
    ops = []
    ahead = draw(st.sampled_from([0, 4, 8, 8]))      # entities and relationships come first
    for step in range(draw(st.integers(4, 9)) + ahead):
        ready = [r for r in pend_r if r[0] in m.ents and ent_of(spec, r[0])['links'][r[1]]['p'] in m.ents]
        kinds = []
        if pend_e:
            kinds += ['add'] * 6
        if ready:
            kinds += ['rel'] * 4
        if m.ents:
            kinds += ['upd', 'upd', 'del', 'conv', 'norm', 'norm', 'lti', 'iv', 'copy', 'bad', 'bad', 'concat']
        if m.rels:
            kinds += ['rel2']
        if step < ahead and (pend_e or ready):
            kinds = [x for x in kinds if x in ('add', 'rel')]
        k = draw(st.sampled_from(kinds))
        op = {'op': k}
        if k == 'add':
            op['e'] = pend_e.pop(0)
            m.add_spec_entity(spec, op['e'])
            # (last times are added again below when they were there)
            m.lti = False
        elif k == 'rel':
            op['r'] = draw(st.sampled_from(ready))
            pend_r.remove(op['r'])
            l = ent_of(spec, op['r'][0])['links'][op['r'][1]]
            cv = l['col']
            if cv not in m.ents[op['r'][0]].data:
                continue
            m.add_rel(l['p'], ent_of(spec, l['p'])['index'], op['r'][0], cv)
            m.lti = False
        elif k == 'rel2':
            op['r'] = list(draw(st.sampled_from(m.rels)))
        elif k == 'upd':
            op = draw(esops.update(m))
            esops.apply_update(m, op)
        elif k == 'del':
            op['e'] = draw(st.sampled_from(sorted(m.ents)))
            pend = {ent_of(spec, c)['links'][j]['col'] for c, j in pend_r if c == op['e']}
            cand = [c for c in esops.removable(m, op['e']) if c not in pend]
            if not cand:
                continue
            op['cols'] = draw(st.lists(st.sampled_from(cand), max_size=2, unique=True))
            m.delete(op['e'], op['cols'])
        elif k == 'conv':
            op['e'] = draw(st.sampled_from(sorted(m.ents)))
            e = m.ents[op['e']]
            cand = [(c, t) for c in esops.removable(m, op['e']) for t in CONV.get(e.types[c] or '', [])]
            if not cand:
                continue
            op['c'], op['t'] = draw(st.sampled_from(cand))
            op['data'] = draw(st.booleans())
            if op['data'] and op['t'] == 'Ordinal':
                op['data'] = False
            e.types[op['c']] = op['t']
        elif k == 'norm':
            s = draw(c14_normalize.one(m, step))
            if s is None or (pend_r and any(r[0] == s['base'] and ent_of(spec, r[0])['links'][r[1]]['col'] in
                                            s['add'] + s['copy'] + [s['index']] for r in pend_r)):
                continue
            op.update(s)
            c14_normalize.apply_model(m, s)
            m.lti = False
        elif k == 'lti':
            m.lti = True
        elif k == 'iv':
            op['n'] = draw(st.integers(1, 6))
        elif k == 'copy':
            op['how'] = draw(st.sampled_from(['deepcopy', 'pickle']))
        elif k == 'concat':
            op['inplace'] = draw(st.booleans())
            op['other'] = draw(st.lists(esops.update(m), max_size=2))
            seen = set()
            op['other'] = [o for o in op['other'] if not (o['e'] in seen or seen.add(o['e']))]
            m2 = m.copy()
            for o in op['other']:
                esops.apply_update(m2, o)
            m = esops.concat_model(m, m2)
        else:
            op['what'] = draw(st.sampled_from(BAD))
            op['e'] = draw(st.sampled_from(sorted(m.ents)))
            op['pick'] = draw(st.integers(0, 5))
        ops.append(op)
    return {'spec': spec, 'ops': ops}


BAD = ['rel_index', 'rel_dtype', 'rel_parent', 'ent_dup_ids', 'ent_time', 'ent_time_kind', 'ent_sec_kind', 'ent_type_missing',
       'ent_make_index', 'ent_dup_cols', 'norm_index', 'norm_time', 'norm_dup', 'norm_mti', 'norm_clash', 'upd_missing',
       'upd_extra', 'conv_all_text', 'no_entity', 'no_variable', 'concat_other']


def bad(es, m, op):
    """attempts something invalid; True when there was something to attempt"""
    eid, what = op['e'], op['what']
    e = m.ents[eid]
    df = pd.DataFrame({'k': [1, 2, 3], 'v': [1., 2., 3.], 's': ['a', 'b', 'c'],
                       'd': pd.to_datetime(['2020-01-01', '2020-01-02', '2020-01-03'])})
    numeric = es.time_type is vt.NumericTimeIndex

    def new(**kw):
        d = kw.pop('df', df)
        if kw.get('index') == 'fresh':
            kw['index'] = 'k'
        return lambda: es.entity_from_dataframe('bad', d, **kw)
    others = sorted(x for x in m.ents if x != eid)
    if what == 'rel_index':
        if not others:
            return False
        o = m.ents[others[op['pick'] % len(others)]]
        must_raise('a relationship whose child variable is the index', lambda: es.add_relationship(
            ft.Relationship(es[o.id][o.index], es[eid][e.index])))
    elif what == 'rel_dtype':
        if not others:
            return False
        o = m.ents[others[op['pick'] % len(others)]]
        cand = [c for c in esops.removable(m, eid)
                if es[eid].df[c].dtype != es[o.id].df[o.index].dtype]
        if not cand:
            return False
        c = cand[op['pick'] % len(cand)]
        must_raise('a relationship between columns of different types', lambda: es.add_relationship(
            ft.Relationship(es[o.id][o.index], es[eid][c])))
    elif what == 'rel_parent':
        if not others:
            return False
        o = m.ents[others[op['pick'] % len(others)]]
        cand = esops.removable(m, o.id)
        mine = esops.removable(m, eid)
        if not cand or not mine:
            return False
        must_raise('a relationship to a variable that is not the index', lambda: es.add_relationship(
            ft.Relationship(es[o.id][cand[0]], es[eid][mine[0]])))
    elif what == 'ent_dup_ids':
        must_raise('an index with duplicates', new(df=df.assign(k=1), index='k'))
    elif what == 'ent_time':
        must_raise('a time index that is not a column', new(index='k', time_index='nope'))
    elif what == 'ent_time_kind':
        if es.time_type is None:
            must_raise('a text time index', new(index='k', time_index='s'))
        else:
            must_raise('a time index of another kind', new(index='k', time_index='d' if numeric else 'v'))
    elif what == 'ent_sec_kind':
        must_raise('a secondary time index of another kind',
                   new(index='k', time_index='d', secondary_time_index={'v': ['s']}))
    elif what == 'ent_type_missing':
        must_raise('a type for a column that does not exist', new(index='k', variable_types={'nope': vt.Numeric}))
    elif what == 'ent_make_index':
        must_raise('making an index that exists', new(index='k', make_index=True))
    elif what == 'ent_dup_cols':
        must_raise('duplicate columns', new(df=pd.concat([df, df[['v']]], axis=1), index='k'))
    elif what == 'norm_index':
        must_raise('normalizing by the index', lambda: es.normalize_entity(eid, 'bad', e.index))
    elif what in ('norm_time', 'norm_dup', 'norm_mti', 'norm_clash'):
        cand = esops.removable(m, eid)
        if len(cand) < 2:
            return False
        a, b = cand[0], cand[1]
        if what == 'norm_time':
            if not e.time_index:
                return False
            kw = {'additional_variables': [e.time_index]}
        elif what == 'norm_dup':
            kw = {'copy_variables' if op['pick'] % 2 else 'additional_variables': [b, b]}
        elif what == 'norm_mti':
            kw = {'make_time_index': b if op['pick'] % 2 else 'nope'}
        else:
            kw = {'copy_variables' if op['pick'] % 2 else 'additional_variables': [a]}
        must_raise('normalize_entity(index=%r, %r)' % (a, kw), lambda: es.normalize_entity(eid, 'bad', a, **kw))
    elif what == 'upd_missing':
        d = es[eid].df
        must_raise('data without a column', lambda: es[eid].update_data(d.rename(columns={d.columns[-1]: 'zz'})))
    elif what == 'upd_extra':
        d = es[eid].df
        must_raise('data with another column', lambda: es[eid].update_data(d.assign(zz=1)))
    elif what == 'conv_all_text':
        cand = [c for c in esops.removable(m, eid) if e.types[c] == 'Categorical' and
                e.n and all(isinstance(v, str) for v in e.data[c])]
        if not cand:
            return False
        # (the conversion is attempted on a copy: the failed conversion is documented to raise, nothing more)
        must_raise('text converted to numbers',
                   lambda: copy.deepcopy(es)[eid].convert_variable_type(cand[0], vt.Numeric))
    elif what == 'no_entity':
        must_raise('an entity that does not exist', lambda: es['nope'])
        must_raise('normalizing an entity that does not exist', lambda: es.normalize_entity('nope', 'x', 'y'))
    elif what == 'no_variable':
        must_raise('a variable that does not exist', lambda: es[eid]['nope'])
        must_raise('deleting a variable that does not exist', lambda: es[eid].delete_variables(['nope']))
        must_raise('normalizing by a variable that does not exist',
                   lambda: es.normalize_entity(eid, 'x', 'nope'))
    else:
        o = ft.EntitySet('o')
        o.entity_from_dataframe('bad', df.copy(), index='k')
        must_raise('concatenation with an unrelated entity set', lambda: es.concat(o))
    return True


def run(case, ctx):
    spec = case['spec']
    m = MES()
    es = ft.EntitySet('s')
    frozen = []
    kinds = set()
    for i, op in enumerate(case['ops']):
        k = op['op']
        what = 'after %d operations, the last %s' % (i + 1, k)
        if k == 'add':
            if m.lti:
                m.lti = False
            r = esops.add_entity(es, spec, op['e'])
            if r is not es:
                raise Violation('entity_from_dataframe returned %r' % (r,))
            m.add_spec_entity(spec, op['e'])
        elif k == 'rel':
            l = ent_of(spec, op['r'][0])['links'][op['r'][1]]
            pi = ent_of(spec, l['p'])['index']
            es.add_relationship(ft.Relationship(es[l['p']][pi], es[op['r'][0]][l['col']]))
            m.add_rel(l['p'], pi, op['r'][0], l['col'])
            m.lti = False
        elif k == 'rel2':
            p, pv, c, cv = op['r']
            es.add_relationship(ft.Relationship(es[p][pv], es[c][cv]))
        elif k == 'upd':
            df = esops.frame(es, m.ents[op['e']], op['rows'], op['extra_cols_order'])
            es[op['e']].update_data(df)
            esops.apply_update(m, op)
        elif k == 'del':
            es[op['e']].delete_variables(list(op['cols']))
            m.delete(op['e'], op['cols'])
        elif k == 'conv':
            es[op['e']].convert_variable_type(op['c'], getattr(vt, op['t']), convert_data=op['data'])
            es.reset_data_description()
            m.ents[op['e']].types[op['c']] = op['t']
        elif k == 'norm':
            es.normalize_entity(
                op['base'], op['new'], op['index'], additional_variables=list(op['add']),
                copy_variables=list(op['copy']), make_time_index=op['mti'],
                make_secondary_time_index={a: list(b) for a, b in op['sec'].items()} if op['sec'] else None,
                new_entity_time_index=op['new_ti'], new_entity_secondary_time_index=op['new_sec'])
            c14_normalize.apply_model(m, op)
            m.lti = False
        elif k == 'lti':
            es.add_last_time_indexes()
            m.lti = True
        elif k == 'iv':
            es.add_interesting_values(max_values=op['n'])
        elif k == 'copy':
            frozen.append((es, m.copy(), what))
            es = copy.deepcopy(es) if op['how'] == 'deepcopy' else pickle.loads(pickle.dumps(es))
        elif k == 'concat':
            other = copy.deepcopy(es)
            mo = m.copy()
            for o in op['other']:
                other[o['e']].update_data(esops.frame(other, mo.ents[o['e']], o['rows'], False))
                esops.apply_update(mo, o)
            before = m.copy()
            old = es
            es = es.concat(other, inplace=op['inplace'])
            if op['inplace'] != (es is old):
                raise Violation('concat(inplace=%r) returned %s' % (op['inplace'], 'the same' if es is old else 'another'))
            m = esops.concat_model(m, mo)
            check(other, mo, what + ': the other entity set')
            if not op['inplace']:
                check(old, before, what + ': the first entity set')
        else:
            if not bad(es, m, op):
                continue
            ctx.label('rejected')
        check(es, m, what)
        for e in m.ents.values():
            if es[e.id].entityset is not es or any(v.entity is not es[e.id] for v in es[e.id].variables):
                raise Violation('%s: %s belongs to another entity set' % (what, e.id))
        if m.rels and k not in ('bad', 'rel2'):
            kinds.add(k)
        ctx.label(k)
    for old, snap, what in frozen:
        check(old, snap, 'copied (%s), then the copy was changed' % what)
    ctx.nt(len(kinds) >= 3)


CHECKS = [Sub('histories', cases(), run, quick=600)]
