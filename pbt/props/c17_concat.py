"""Concatenating two entity sets."""
import copy

import featuretools as ft
from hypothesis import strategies as st

from pbt import build, esops, gen
from pbt.core import Sub, Violation
from pbt.esmodel import check
from pbt.esops import must_raise
from pbt.gen import ent_of
from pbt.props.c14_normalize import make

ID = 'C17'
RULE = ('Two versions of a generated entity set (1-4 entities, each with rows removed, added, re-timed) with or without last time '
        'indexes are concatenated, in place or not, in both orders, with itself, and a third one after that. Result, its last time '
        'indexes and metadata, and the untouched inputs are compared with the model: all instances of both, the first one\'s version of shared ones. '
        'Entity sets of another structure are rejected without effect. Non-trivial: some entity has instances of each alone and of both.')


@st.composite
def cases(draw):
    spec = draw(gen.es_specs(min_ents=draw(st.sampled_from([1, 2, 3])), max_ents=4, times='mixed', null_fk=True,
                             min_rows=2, max_rows=7))
    m = make(spec)
    out = {'spec': spec, 'lti': [draw(st.booleans()) for _ in range(2)], 'inplace': draw(st.booleans()),
           'third': draw(st.booleans()), 'misfit': draw(st.sampled_from(['none', 'column', 'entity', 'rel', 'type'])),
           'meta': draw(st.booleans())}
    for side in ('a', 'b', 'c'):
        ids = draw(st.lists(st.sampled_from(sorted(m.ents)), unique=True, min_size=1))
        out[side] = [draw(esops.update(m, e)) for e in ids]
    return out


def version(base, m0, ups, lti):
    es, m = copy.deepcopy(base), m0.copy()
    for u in ups:
        es[u['e']].update_data(esops.frame(es, m.ents[u['e']], u['rows'], False))
        esops.apply_update(m, u)
    if lti:
        es.add_last_time_indexes()
        m.lti = True
    return es, m


def no_lti(es, what):
    for e in es.entities:
        if e.last_time_index is not None:
            raise Violation('%s: %s has last times that neither entity set had' % (what, e.id))


def run(case, ctx):
    base = build.build_es(case['spec'])
    m0 = make(case['spec'])
    a, ma = version(base, m0, case['a'], case['lti'][0])
    b, mb = version(base, m0, case['b'], case['lti'][1])
    c, mc = version(base, m0, case['c'], False)
    if case['meta']:
        a.metadata, b.metadata
    for e in m0.ents:
        A, B = [set(x.ents[e].data[x.ents[e].index]) for x in (ma, mb)]
        ctx.nt(A & B and A - B and B - A)
    other = b.concat(a)
    check(other, esops.concat_model(mb, ma), 'b.concat(a)')
    check(a, ma, 'b.concat(a): a')
    check(b, mb, 'b.concat(a): b')
    same = a.concat(a)
    check(same, esops.concat_model(ma, ma), 'a.concat(a)')
    ab = esops.concat_model(ma, mb)
    res = a.concat(b, inplace=case['inplace'])
    if (res is a) != case['inplace']:
        raise Violation('concat(inplace=%r) returned %s' % (case['inplace'], 'the same' if res is a else 'another'))
    check(res, ab, 'a.concat(b)')
    check(b, mb, 'a.concat(b): b')
    if not case['inplace']:
        check(a, ma, 'a.concat(b): a')
    if not ab.lti:
        no_lti(res, 'a.concat(b)')
    if case['third']:
        r3 = res.concat(c)
        check(r3, esops.concat_model(ab, mc), 'a.concat(b).concat(c)')
        check(res, ab, 'a.concat(b).concat(c): the first')
        ctx.label('three')
    misfit(case, res, ab, base, ctx)
    ctx.label('last times', ab.lti)
    ctx.label('last times of one only', ma.lti != mb.lti)
    ctx.label('in place', case['inplace'])


def misfit(case, res, ab, base, ctx):
    o = copy.deepcopy(base)
    k = case['misfit']
    if k == 'none':
        return
    e0 = o.entities[0]
    if k == 'column':
        cand = esops.removable(ab, e0.id)
        if not cand:
            return
        e0.delete_variables([cand[0]])
    elif k == 'entity':
        o.entity_from_dataframe('more', e0.df[[e0.index]].reset_index(drop=True), index=e0.index,
                                variable_types={})
    elif k == 'type':
        from featuretools import variable_types as vt
        cand = [c for c in esops.removable(ab, e0.id) if ab.ents[e0.id].types[c] == 'Numeric']
        if not cand:
            return
        e0.convert_variable_type(cand[0], vt.Ordinal, convert_data=False)
    else:
        if not o.relationships:
            return
        o.relationships.pop()
        o.reset_data_description()
    ctx.label('misfit ' + k)
    must_raise('concatenation with an entity set with another %s' % k, lambda: res.concat(o, inplace=True))
    must_raise('concatenation with an entity set with another %s' % k, lambda: o.concat(res))
    check(res, ab, 'after a rejected concatenation')


CHECKS = [Sub('concat', cases(), run, quick=250)]
