"""Equality of entity sets."""
import copy
import pickle

from hypothesis import strategies as st

from pbt import build, esgen, gen
from pbt.core import Skip, Sub, Violation
from pbt.gen import ent_of

ID = 'C28'
RULE = ('A generated entity set (1-4 entities, all kinds of columns, missing values, interesting values) is built twice, with its entities, '
        'columns and relationships added in another order, and copied: all are equal to each other. Then 4-7 times one thing is changed in a fresh one: '
        'a value, a row, an id, a time (equal, but not deeply); a variable, its type, a relationship, an index, a secondary time index, an '
        'entity (not equal). All comparisons are made in both directions. Non-trivial: the change applied, and the entity set has two entities or a '
        'missing value.')
DATA = ['value', 'missing', 'drop', 'id', 'time', 'iv', 'lti', 'link']
STRUCT = ['type', 'column', 'rename', 'rel', 'time_index', 'sec', 'entity', 'entity_id', 'index']


@st.composite
def cases(draw):
    spec = draw(esgen.rich_specs(min_ents=1, max_ents=4, max_rows=6))
    return {'spec': spec, 'muts': draw(st.lists(st.sampled_from(sorted(set(DATA + STRUCT))), min_size=4, max_size=7, unique=True)),
            'e': draw(st.integers(0, 3)), 'c': draw(st.integers(0, 8)), 'r': draw(st.integers(0, 6)),
            'order': draw(st.permutations([e['id'] for e in spec['ents']])),
            'rels': draw(st.permutations([[e['id'], k] for e in spec['ents'] for k in range(len(e['links']))])),
            'how': draw(st.sampled_from(['deepcopy', 'pickle']))}


def build_in_order(spec, order, rels):
    import featuretools as ft
    es = build.build_rich(spec, ents=[ent_of(spec, x) for x in order], rels=False)
    for c, k in rels:
        l = ent_of(spec, c)['links'][k]
        es.add_relationship(ft.Relationship(es[l['p']][ent_of(spec, l['p'])['index']], es[c][l['col']]))
    return es


OTHER = {'num': (-77.5, -78.5), 'int': (-77, -78), 'cat': ('q', 'r'), 'bool': (True, False), 'dt': (500, 501), 'word': ('q;', 'r'),
         'td': (3, 4), 'll': ([1, 2.5], [1, 3.5]), 'category': ('q', 'r')}


def mutate(case, m):
    """the changed description, or None"""
    spec = copy.deepcopy(case['spec'])
    ents = spec['ents']
    e = ents[case['e'] % len(ents)]
    n = len(e['ids'])
    i = case['r'] % n
    c = e['cols'][case['c'] % len(e['cols'])]
    parent = any(l['p'] == e['id'] for x in ents for l in x['links'])
    if m == 'value':
        a, b = OTHER[c['t']]
        c['v'][i] = b if c['v'][i] == a else a
    elif m == 'missing':
        if c['v'][i] is None or c['t'] in ('int', 'bool'):
            return None
        c['v'][i] = None
    elif m == 'drop':
        if n < 2:
            return None
        for v in [e['ids'], e['times'], e['sec'] and e['sec']['v']] + [x['v'] for x in e['cols'] + e['links']]:
            if v:
                del v[i]
    elif m == 'id':
        e['ids'][i] = 'k88' if e['idtype'] == 'str' else 88
    elif m == 'time':
        if not e['times']:
            return None
        e['times'][i] = e['times'][i] + 1
    elif m == 'link':
        if not e['links']:
            return None
        l = e['links'][0]
        new = 'k87' if ent_of(spec, l['p'])['idtype'] == 'str' else 87
        l['v'][i] = new
    elif m == 'iv':
        if c['t'] not in ('num', 'int', 'cat', 'word', 'dt'):
            return None
        c['iv'] = list(c.get('iv') or []) + [OTHER[c['t']][0]]
    elif m == 'lti':
        return spec
    elif m == 'type':
        kinds = [k for k in esgen.KINDS[c['t']] if k != c['vt']]
        if not kinds:
            return None
        c['vt'] = kinds[case['r'] % len(kinds)]
    elif m == 'column':
        e['cols'].append({'n': 'extra', 't': 'int', 'v': [0] * n, 'vt': 'Numeric'})
    elif m == 'rename':
        if e['sec'] and c['n'] in e['sec']['cols']:
            return None
        c['n'] = 'other name'
    elif m == 'rel':
        if not e['links'] or len(e['links']) < 1:
            return None
        return spec
    elif m == 'time_index':
        if not e['times'] or e['sec']:
            return None
        e['cols'].append({'n': 't', 't': 'dt' if spec['tt'] == 'dt' else 'int', 'v': e['times'],
                          'vt': 'Datetime' if spec['tt'] == 'dt' else 'Numeric'})
        e['times'] = None
    elif m == 'sec':
        if not e['sec']:
            return None
        have = e['sec']['cols']
        more = [x['n'] for x in e['cols'] if x['n'] not in have]
        if not more:
            return None
        have.append(more[case['r'] % len(more)])
    elif m == 'entity':
        ents.append({'id': 'more', 'index': 'id', 'idtype': 'int', 'ids': [0, 1], 'times': None, 'sec': None,
                     'links': [], 'cols': [{'n': 'x', 't': 'num', 'v': [1, 2], 'vt': 'Numeric'}]})
    elif m == 'entity_id':
        if parent:
            return None
        e['id'] = 'other'
    elif m == 'index':
        if parent:
            return None
        e['index'] = 'other_id'
    return spec


def eq(a, b, shallow, deep, what):
    for x, y, d in ((a, b, ''), (b, a, ' (the other way round)')):
        for got, want, how in ((x == y, shallow, 'equal'), (x.__eq__(y, deep=True), deep, 'deeply equal'),
                               (not (x != y), shallow, 'equal (by !=)'),
                               (not x.__ne__(y, deep=True), deep, 'deeply equal (by !=)')):
            if bool(got) != want:
                raise Violation('%s%s: %s is %r, expected %r' % (what, d, how, bool(got), want))


def run(case, ctx):
    spec = case['spec']
    a = build.build_rich(spec)
    eq(a, a, True, True, 'itself')
    eq(a, build.build_rich(spec), True, True, 'built again')
    b = build_in_order(spec, case['order'], case['rels'])
    eq(a, b, True, True, 'built in another order')
    cp = copy.deepcopy(a) if case['how'] == 'deepcopy' else pickle.loads(pickle.dumps(a))
    eq(a, cp, True, True, 'copied')
    for m in case['muts']:
        changed(case, m, a, b, ctx)


def changed(case, m, a, b, ctx):
    spec, s2 = case['spec'], mutate(case, m)
    if s2 is None:
        return
    c = build.build_rich(s2)
    if m == 'lti':
        c.add_last_time_indexes()
    if m == 'rel':
        c.relationships.remove(c.relationships[case['r'] % len(c.relationships)])
        c.reset_data_description()
    eq(a, c, m in DATA, False, 'other %s' % m)
    eq(b, c, m in DATA, False, 'built in another order, other %s' % m)
    ctx.label(m)
    missing = any(v is None for e in spec['ents'] for x in e['cols'] for v in x['v'])
    ctx.nt(len(spec['ents']) > 1 or missing)


CHECKS = [Sub('equality', cases(), run, quick=450)]
