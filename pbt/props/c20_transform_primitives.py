"""Every built-in transform primitive against a plain-Python definition."""
import datetime
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import featuretools as ft
from featuretools import primitives as P
from featuretools import variable_types as vt

from pbt.common import frames_equal, isnull, plain
from pbt.core import Skip, Sub, Violation

ID = 'C20'
RULE = ('An entity with columns of every type (missing values, ties, zeros, unsorted times, any frame index) is generated; '
        'transform primitives with their parameters are calculated for all instances, for a subset of the instances and by '
        'calling the primitive on the values, and compared with a plain-Python definition of each. Non-trivial: 3 or more '
        'rows with two or more different values in an input.')
ASSUMPTIONS = ['floating point tolerance 1e-9 relative', 'the number of words of a missing text is not specified']
UNITS = {'years': 31540000, 'months': 2628000, 'days': 86400, 'hours': 3600, 'minutes': 60, 'seconds': 1,
         'milliseconds': 1e-3, 'nanoseconds': 1e-9}
NUM2 = [['num', 'num2'], ['num2', 'num'], ['int', 'int2'], ['num', 'int'], ['int', 'num2']]
ANY = ['num', 'int', 'cat', 'bool', 'dt', 'text', 'kind', 'nbool']
CMP2 = NUM2 + [['dt', 'dt2'], ['dt', 't']]
EQ2 = CMP2 + [['cat', 'cat2'], ['kind', 'kind2'], ['bool', 'bool2']]
N1, D1, SC1 = [['num'], ['int']], [['dt'], ['t']], [['num'], ['int'], ['dt'], ['ord']]
PRIMS = {
    'is_null': [[c] for c in ANY], 'absolute': N1, 'negate': N1, 'percentile': N1, 'diff': N1,
    'time_since_previous': [['t']], 'day': D1, 'hour': D1, 'second': D1, 'minute': D1, 'week': D1, 'month': D1, 'year': D1,
    'is_weekend': D1, 'weekday': D1, 'num_characters': [['text']], 'num_words': [['text']], 'time_since': D1,
    'isin': [['num'], ['cat'], ['int'], ['kind']], 'not': [['bool']], 'latitude': [['ll']], 'longitude': [['ll']],
    'haversine': [['ll', 'll2']], 'age': [['dob']],
    'greater_than': CMP2, 'greater_than_equal_to': CMP2, 'less_than': CMP2, 'less_than_equal_to': CMP2,
    'equal': EQ2, 'not_equal': EQ2,
    'greater_than_scalar': SC1, 'greater_than_equal_to_scalar': SC1, 'less_than_scalar': SC1,
    'less_than_equal_to_scalar': SC1, 'equal_scalar': SC1 + [['cat'], ['bool'], ['kind']],
    'not_equal_scalar': SC1 + [['cat'], ['bool'], ['kind']],
    'add_numeric': NUM2, 'subtract_numeric': NUM2, 'multiply_numeric': NUM2, 'divide_numeric': NUM2, 'modulo_numeric': NUM2,
    'add_numeric_scalar': N1, 'subtract_numeric_scalar': N1, 'scalar_subtract_numeric_feature': N1,
    'multiply_numeric_scalar': N1, 'divide_numeric_scalar': N1, 'divide_by_feature': N1, 'modulo_numeric_scalar': N1,
    'modulo_by_feature': N1, 'multiply_boolean': [['bool', 'bool2']], 'and': [['bool', 'bool2']], 'or': [['bool', 'bool2']],
    'cum_sum': N1, 'cum_min': N1, 'cum_max': N1, 'cum_mean': N1, 'cum_count': [['cat'], ['ord']],
}
NAMES = {'isin': 'IsIn', 'is_null': 'IsNull'}
DTYPES = ('dt', 'dt2', 't', 'dob')
TYPES = {'num': vt.Numeric, 'num2': vt.Numeric, 'int': vt.Numeric, 'int2': vt.Numeric, 'ord': vt.Ordinal, 'cat': vt.Categorical,
         'cat2': vt.Categorical, 'kind': vt.Categorical, 'kind2': vt.Categorical, 'bool': vt.Boolean, 'bool2': vt.Boolean,
         'nbool': vt.Boolean, 'text': vt.NaturalLanguage, 'dt': vt.Datetime, 'dt2': vt.Datetime, 't': vt.DatetimeTimeIndex,
         'dob': vt.DateOfBirth, 'll': vt.LatLong, 'll2': vt.LatLong}
EPOCH = datetime.datetime(1970, 1, 1)
SECS = st.one_of(st.integers(-10 ** 9, 4 * 10 ** 9), st.sampled_from([
    1577836799, 1577836800, 1582934400, 1583020800, 1609459199, 1609459200, 1610000000, 951782400, -1]),
    st.integers(1577836800, 1577836800 + 400000))
LL = st.one_of(st.none(), st.tuples(st.sampled_from([0.0, 42.25, -33.5, 90.0, -89.0]),
                                    st.sampled_from([0.0, -71.5, 151.25, 180.0, -179.5])).map(list),
               st.just([None, 1.0]), st.just([None, None]))


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 8]))
    num = st.one_of(st.none(), st.integers(-20, 20).map(lambda i: i / 4.0), st.sampled_from([0.0, 1.0, 2.0]))
    cat = st.sampled_from(['a', 'b', 'c', None])
    text = st.one_of(st.none(), st.text(alphabet='ab é日\n-.', max_size=8), st.sampled_from(['', ' ', 'two words', 'a  b']))
    el = {'num': num, 'num2': num, 'int': st.integers(-5, 5), 'int2': st.integers(-3, 3), 'ord': st.integers(0, 4),
          'cat': cat, 'cat2': cat, 'kind': cat, 'kind2': st.sampled_from(['a', 'b', 'z', None]), 'bool': st.booleans(),
          'bool2': st.booleans(), 'nbool': st.sampled_from([True, False, None]), 'text': text,
          'dt': st.one_of(st.none(), SECS), 'dt2': st.one_of(st.none(), SECS), 't': st.one_of(SECS, SECS, SECS),
          'dob': st.one_of(st.none(), SECS), 'll': LL, 'll2': LL}
    fs = []
    for p in draw(st.lists(st.sampled_from(sorted(PRIMS)), min_size=1, max_size=8, unique=True)):
        b = draw(st.sampled_from(PRIMS[p]))
        a = {}
        if p in ('time_since', 'time_since_previous') and draw(st.booleans()):
            a['unit'] = draw(st.sampled_from(sorted(UNITS) + ['Hours']))
        if p == 'haversine':
            a = draw(st.sampled_from([{}, {'unit': 'kilometers'}, {'unit': 'miles'}]))
        if p == 'isin':
            a['list_of_outputs'] = draw(st.sampled_from([['a', 'zz'], ['c'], []] if b[0] in ('cat', 'kind') else
                                                        [[1, 0, 2.5], [-1], []]))
        if p.endswith('_scalar') or p in ('scalar_subtract_numeric_feature', 'divide_by_feature', 'modulo_by_feature'):
            c = b[0]
            a['value'] = draw({'cat': st.sampled_from(['a', 'b', 'q']), 'kind': st.sampled_from(['a', 'b', 'q']),
                               'bool': st.booleans(), 'dt': SECS}.get(c, st.sampled_from([0, 1, 2, -1, 2.5, -3])))
        fs.append([p, b, a])
    used = sorted(set(c for _, b, _ in fs for c in b) - {'id'}) + ['num']
    cols = {k: draw(st.lists(el[k], min_size=n, max_size=n)) for k in sorted(set(used + ['t']))}
    ids = draw(st.permutations(list(range(n))))
    return {'cols': cols, 'feats': fs, 'ids': ids, 'index': draw(st.sampled_from(['range', 'range', 'shifted', 'same'])),
            'subset': draw(st.lists(st.sampled_from(ids), min_size=1, max_size=n, unique=True)),
            'cut': draw(SECS), 'direct': draw(st.booleans())}


def stamp(s):
    return pd.NaT if s is None else pd.Timestamp(s, unit='s')


def series(c, v):
    if c in DTYPES:
        return pd.Series([stamp(s) for s in v], dtype='datetime64[ns]')
    if c in ('num', 'num2'):
        return pd.Series([np.nan if x is None else x for x in v], dtype='float64')
    if c in ('int', 'int2', 'ord'):
        return pd.Series(v, dtype='int64')
    if c in ('bool', 'bool2'):
        return pd.Series(v, dtype=bool)
    if c in ('kind', 'kind2'):
        return pd.Series(v, dtype='category')
    if c in ('ll', 'll2'):
        return pd.Series([np.nan if x is None else tuple(np.nan if q is None else q for q in x) for x in v], dtype=object)
    return pd.Series(v, dtype=object)


def make(p, b, a):
    cls = getattr(P, NAMES.get(p) or ''.join(w.capitalize() for w in p.split('_')))
    a = dict(a)
    if 'value' in a and b[0] in DTYPES:
        a['value'] = stamp(a['value'])
    return cls(**a)


def run(case, ctx):
    cols, ids = case['cols'], case['ids']
    n = len(ids)
    df = pd.DataFrame(dict({'id': ids}, **{c: series(c, v) for c, v in cols.items()}))
    if case['index'] == 'shifted':
        df.index = [i + 3 for i in range(n)]
    elif case['index'] == 'same':
        df.index = [7] * n
    es = ft.EntitySet('es')
    es.entity_from_dataframe('e', df.copy(), index='id', time_index='t', variable_types={c: TYPES[c] for c in cols})
    prims = [make(p, b, a) for p, b, a in case['feats']]
    feats = [ft.Feature([es['e'][c] for c in b], primitive=pr) for (p, b, a), pr in zip(case['feats'], prims)]
    names = [f.get_name() for f in feats]
    if len(set(names)) < len(names):
        raise Skip()
    cut = case['cut']
    # the rows known at the cutoff, in time order
    order = [i for i in sorted(range(n), key=lambda i: (cols['t'][i], ids[i])) if cols['t'][i] <= cut]
    fm = ft.calculate_feature_matrix(feats, es, cutoff_time=stamp(cut), instance_ids=list(ids))
    known = [i for i in order]
    for p, b, a in case['feats']:
        ctx.label(p)
    ctx.label('some row unknown', len(known) < n)
    ctx.nt(len(known) >= 3 and any(len(set(str(cols[c][i]) for i in known)) > 1 for _, b, _ in case['feats'] for c in b
                                   if c != 'id'))
    allc = dict(cols, id=ids)
    for (p, b, a), f, pr in zip(case['feats'], feats, prims):
        args = [[allc[c][i] for i in known] for c in b]
        want = expect(p, a, args, b, cut)
        got = [fm[f.get_name()].loc[ids[i]] for i in known]
        check(p, want, got, '%s over %r' % (f.get_name(), args))
        for i in range(n):
            if i not in known and not isnull(fm[f.get_name()].loc[ids[i]]):
                raise Violation('%s of an instance that is not known yet: %r' % (f.get_name(), fm[f.get_name()].loc[ids[i]]))
        if case['direct'] and known:
            vals = [series(c, [allc[c][i] for i in known]) for c in b]
            r = list(pr(*vals, **({'time': stamp(cut)} if pr.uses_calc_time else {})))
            check(p, want, r, '%s(%r) called directly' % (p, args))
    sub = case['subset']
    part = ft.calculate_feature_matrix(feats, es, cutoff_time=stamp(cut), instance_ids=list(sub))
    frames_equal(fm.loc[sub], part, 'values for the instances %r alone' % (sub,))


def expect(p, a, args, b, cut):
    n = len(args[0])
    x = args[0]
    v = a.get('value')

    def rw(fn, null=None):
        out = []
        for i in range(n):
            q = [z[i] for z in args]
            out.append(null if any(k is None for k in q) else fn(*q))
        return out

    def both(fn, null):
        # whether two missing values are equal is not specified
        return ['any' if s is None and t is None else r for s, t, r in zip(args[0], args[1], rw(fn, null))]

    def dt(fn):
        return rw(lambda s: fn(EPOCH + datetime.timedelta(seconds=s)))

    def div(s, t):
        s, t = float(s), float(t)
        if t == 0:
            return None if s == 0 else math.copysign(math.inf, s)
        return s / t

    def mod(s, t):
        return None if t == 0 else float(s) % float(t)
    R = {
        'absolute': lambda: rw(abs), 'negate': lambda: rw(lambda s: -s), 'is_null': lambda: [k is None for k in x],
        'day': lambda: dt(lambda d: d.day), 'hour': lambda: dt(lambda d: d.hour), 'second': lambda: dt(lambda d: d.second),
        'minute': lambda: dt(lambda d: d.minute), 'week': lambda: dt(lambda d: d.isocalendar()[1]),
        'month': lambda: dt(lambda d: d.month), 'year': lambda: dt(lambda d: d.year),
        'weekday': lambda: dt(lambda d: d.weekday()),
        'is_weekend': lambda: [False if s is None else (EPOCH + datetime.timedelta(seconds=s)).weekday() > 4 for s in x],
        'num_characters': lambda: [0 if s is None else len(s) for s in x],
        'num_words': lambda: ['any' if s is None else s.count(' ') + 1 for s in x],
        'time_since': lambda: rw(lambda s: (cut - s) / UNITS[a.get('unit', 'seconds').lower()]),
        'isin': lambda: [s is not None and s in a['list_of_outputs'] for s in x],
        'not': lambda: [not s for s in x],
        'latitude': lambda: rw(lambda s: s[0]), 'longitude': lambda: rw(lambda s: s[1]),
        'haversine': lambda: rw(lambda s, t: hav(s, t, a.get('unit', 'miles'))),
        'age': lambda: rw(lambda s: ((cut - s) // 86400) / 365.0),
        'greater_than': lambda: rw(lambda s, t: s > t, False), 'less_than': lambda: rw(lambda s, t: s < t, False),
        'greater_than_equal_to': lambda: rw(lambda s, t: s >= t, False),
        'less_than_equal_to': lambda: rw(lambda s, t: s <= t, False),
        'equal': lambda: both(lambda s, t: s == t, False), 'not_equal': lambda: both(lambda s, t: s != t, True),
        'greater_than_scalar': lambda: rw(lambda s: s > v, False), 'less_than_scalar': lambda: rw(lambda s: s < v, False),
        'greater_than_equal_to_scalar': lambda: rw(lambda s: s >= v, False),
        'less_than_equal_to_scalar': lambda: rw(lambda s: s <= v, False),
        'equal_scalar': lambda: rw(lambda s: s == v, False), 'not_equal_scalar': lambda: rw(lambda s: s != v, True),
        'add_numeric': lambda: rw(lambda s, t: s + t), 'subtract_numeric': lambda: rw(lambda s, t: s - t),
        'multiply_numeric': lambda: rw(lambda s, t: s * t), 'divide_numeric': lambda: rw(div),
        'modulo_numeric': lambda: rw(mod), 'add_numeric_scalar': lambda: rw(lambda s: s + v),
        'subtract_numeric_scalar': lambda: rw(lambda s: s - v),
        'scalar_subtract_numeric_feature': lambda: rw(lambda s: v - s),
        'multiply_numeric_scalar': lambda: rw(lambda s: s * v), 'divide_numeric_scalar': lambda: rw(lambda s: div(s, v)),
        'divide_by_feature': lambda: rw(lambda s: div(v, s)), 'modulo_numeric_scalar': lambda: rw(lambda s: mod(s, v)),
        'modulo_by_feature': lambda: rw(lambda s: mod(v, s)),
        'multiply_boolean': lambda: rw(lambda s, t: s and t), 'and': lambda: rw(lambda s, t: s and t),
        'or': lambda: rw(lambda s, t: s or t),
        'cum_count': lambda: list(range(1, n + 1)),
    }
    if p in R:
        return R[p]()
    if p == 'time_since_previous':
        return [None if i == 0 else (x[i] - x[i - 1]) / UNITS[a.get('unit', 'seconds').lower()] for i in range(n)]
    if p == 'diff':
        return [None if i == 0 or x[i] is None or x[i - 1] is None else x[i] - x[i - 1] for i in range(n)]
    if p == 'percentile':
        ok = [k for k in x if k is not None]
        return [None if k is None else (sum(q < k for q in ok) + (sum(q == k for q in ok) + 1) / 2.0) / len(ok) for k in x]
    out = []
    for i in range(n):
        ok = [k for k in x[:i + 1] if k is not None]
        out.append(None if x[i] is None else {'cum_sum': sum(ok), 'cum_min': min(ok), 'cum_max': max(ok),
                                              'cum_mean': sum(ok) / float(i + 1)}[p])
    return out


def hav(s, t, unit):
    if None in s or None in t:
        return None
    la1, lo1, la2, lo2 = [math.radians(q) for q in s + t]
    h = math.sin((la2 - la1) / 2) ** 2 + math.cos(la1) * math.cos(la2) * math.sin((lo2 - lo1) / 2) ** 2
    return 2 * math.asin(min(1.0, math.sqrt(h))) * (6371.0088 if unit == 'kilometers' else 3958.7613)


def check(p, want, got, what):
    if len(want) != len(got):
        raise Violation('%s: %d values for %d rows' % (what, len(got), len(want)))
    for i, (w, g) in enumerate(zip(want, got)):
        g = plain(g)
        if isinstance(w, str):
            continue
        if w is None:
            good = isnull(g)
        elif isnull(g):
            good = False
        elif isinstance(w, bool):
            good = bool(g) == w and g in (0, 1)
        elif math.isinf(w):
            good = g == w
        else:
            good = abs(float(g) - w) <= (1e-6 if p == 'haversine' else 1e-9) * max(1.0, abs(w))
        if not good:
            raise Violation('%s, row %d: %r, by definition %r' % (what, i, g, w))


CHECKS = [Sub('values', cases(), run, quick=3000)]
