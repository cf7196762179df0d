"""Entity set descriptions for the properties about entity sets themselves
(rather than calculations): more column types than pbt.gen."""
from hypothesis import strategies as st

from pbt import gen

# text with separators, or that looks like something else, but not like a
# missing value
WORDS = st.one_of(st.text(alphabet='a,;|"\' \n\tZé日', max_size=5).map(lambda s: 'v' + s + 'w'),
                  st.sampled_from(['01', '1', '1.0', '2020-01-01', 'True', '1e3', '(1, 2)', ' x ']))
KINDS = {
    'num': ['Numeric', 'Ordinal'],
    'int': ['Numeric', 'Ordinal', 'Categorical', 'CountryCode'],
    'cat': ['Categorical', 'ZIPCode', 'SubRegionCode', 'NaturalLanguage', 'Text', 'FullName', 'URL',
            'EmailAddress', 'PhoneNumber', 'IPAddress', 'FilePath'],
    'bool': ['Boolean'],
    'dt': ['Datetime', 'DateOfBirth'],
    'word': ['Categorical', 'NaturalLanguage', 'FilePath', 'FullName'],
    'td': ['Timedelta'],
    'll': ['LatLong'],
    'category': ['Categorical'],
}


@st.composite
def rich_specs(draw, lossless=True, **kw):
    """As gen.es_specs, with 'vt' (variable type name) on every column, extra
    column kinds, interesting values and descriptions."""
    spec = draw(gen.es_specs(times=draw(st.sampled_from(['mixed', 'all', 'none'])),
                             numeric_time=draw(st.sampled_from([False, False, False, True])), **kw))
    if spec['tt'] == 'num':
        for e in spec['ents']:
            e['cols'] = [c for c in e['cols'] if c['t'] != 'dt'] or \
                [{'n': 'y', 't': 'int', 'v': [i for i in range(len(e['ids']))]}]
    for e in spec['ents']:
        n = len(e['ids'])
        for name, t in draw(st.lists(st.sampled_from([
                ('words', 'word'), ('a b', 'word'), ('dur', 'td'), ('place', 'll'), ('kind', 'category'),
                ('é', 'int')]), max_size=3, unique=True)):
            el = {'word': st.one_of(WORDS, WORDS, st.none()), 'td': st.one_of(st.none(), st.integers(-90000, 90000)),
                  'll': st.one_of(st.none(), st.tuples(st.integers(-90, 90), st.sampled_from([0.5, -7.25, 100])).map(list)),
                  'category': st.sampled_from(['a', 'b', None]), 'int': st.integers(0, 3)}[t]
            e['cols'].append({'n': name, 't': t, 'v': draw(st.lists(el, min_size=n, max_size=n))})
        for c in e['cols']:
            c['vt'] = draw(st.sampled_from(KINDS[c['t']]))
            if draw(st.integers(0, 3)) == 0:
                c['iv'] = draw(interesting(c))
            if draw(st.integers(0, 5)) == 0 and c['vt'] not in ('x',):
                c['desc'] = draw(st.sampled_from(['the amount', 'a "quoted" text', 'é']))
    return spec


def interesting(c):
    t = c['t']
    el = {'num': st.sampled_from([0.5, 2.0, -1.5]), 'int': st.sampled_from([1, 2, 0, 100000000, -3]),
          'cat': st.sampled_from(['a', 'b', '01', '2020-01-01', 'true']), 'bool': st.booleans(),
          'dt': st.integers(0, 30), 'word': WORDS, 'td': st.integers(0, 5), 'll': st.nothing(),
          'category': st.sampled_from(['a', 'b'])}[t]
    if t in ('ll', 'td', 'category'):
        return st.just([])
    return st.lists(el, max_size=4, unique=True)


def digit_ids(spec):
    """string ids that look like numbers: '01', '02'"""
    strs = {e['id'] for e in spec['ents'] if e['idtype'] == 'str'}

    def f(v):
        return '0' + v[1:] if isinstance(v, str) and v[0] == 'k' else v
    for e in spec['ents']:
        if e['id'] in strs:
            e['ids'] = [f(v) for v in e['ids']]
        for l in e['links']:
            if l['p'] in strs:
                l['v'] = [f(v) for v in l['v']]
