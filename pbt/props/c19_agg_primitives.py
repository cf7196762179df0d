"""Every built-in aggregation primitive against a plain-Python definition."""
import math
from collections import Counter

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import featuretools as ft
from featuretools import primitives as P
from featuretools import variable_types as vt

from pbt.common import isnull, plain
from pbt.core import Skip, Sub, Violation

ID = 'C19'
RULE = ('A parent and a child entity are generated (groups of 0 to 12 rows, missing values, ties, unsorted times of '
        'different granularity); every aggregation primitive with its parameters is calculated for every parent and '
        'also called directly on the values of each group, and compared with a plain-Python definition. '
        'Non-trivial: a group of 3 or more rows and another of at most 1.')
ASSUMPTIONS = ['ties of mode and n_most_common may be broken in any way', 'floating point tolerance 1e-7 relative']
UNITS = {'years': 31540000, 'months': 2628000, 'days': 86400, 'hours': 3600, 'minutes': 60, 'seconds': 1,
         'milliseconds': 1e-3, 'nanoseconds': 1e-9}
PRIMS = [('count', ['id']), ('sum', ['num', 'int']), ('mean', ['num', 'int']), ('min', ['num', 'int']),
         ('max', ['num', 'int']), ('median', ['num', 'int']), ('std', ['num', 'int']), ('skew', ['num', 'int']),
         ('mode', ['cat', 'code']), ('num_unique', ['cat', 'code', 'pid']), ('num_true', ['bool', 'nbool']),
         ('percent_true', ['bool', 'nbool']), ('n_most_common', ['cat', 'code']), ('avg_time_between', ['t']),
         ('first', ['num', 'int', 'cat', 'bool', 'dt', 't']), ('last', ['num', 'int', 'cat', 'bool', 'dt', 't']),
         ('any', ['bool']), ('all', ['bool']), ('time_since_last', ['t']), ('time_since_first', ['t']),
         ('trend', ['num', 'int']), ('entropy', ['cat', 'code'])]


@st.composite
def cases(draw):
    n_p = draw(st.sampled_from([1, 2, 2, 3, 4]))
    n = draw(st.sampled_from([1, 2, 4, 6, 8, 9, 11, 12, 14]))
    big = draw(st.sampled_from([1, 1, 1, 1000]))
    el = {'num': st.one_of(st.none(), st.integers(-40, 40).map(lambda i: i / 4.0 * big),
                           st.sampled_from([0.0, 1.0, -1.0])),
          'int': st.integers(-6, 6).map(lambda i: i * big), 'cat': st.sampled_from(['a', 'b', 'c', 'dd', None]),
          'code': st.integers(0, 3), 'bool': st.booleans(), 'nbool': st.sampled_from([True, False, None]),
          'dt': st.one_of(st.none(), st.integers(0, 50))}
    cols = {k: draw(st.lists(v, min_size=n, max_size=n)) for k, v in el.items()}
    cols['pid'] = draw(st.lists(st.sampled_from(list(range(n_p + 1)) + [0, 0, 0]), min_size=n, max_size=n))
    step = draw(st.sampled_from([1, 60, 3600, 86400]))
    cols['t'] = [step * i for i in draw(st.lists(st.integers(0, 40), min_size=n, max_size=n))]
    fs = []
    for p, inputs in draw(st.lists(st.sampled_from(PRIMS), min_size=1, max_size=8)):
        c = draw(st.sampled_from(inputs))
        a = {}
        if p in ('avg_time_between', 'time_since_last', 'time_since_first') and draw(st.booleans()):
            a['unit'] = draw(st.sampled_from(sorted(UNITS) + ['Hours']))
        if p == 'mean':
            a = draw(st.sampled_from([{}, {'skipna': False}, {'skipna': True}]))
        if p == 'n_most_common':
            a = draw(st.sampled_from([{}, {'n': 1}, {'n': 2}, {'n': 5}]))
        if p == 'entropy':
            a = draw(st.sampled_from([{}, {'dropna': True}, {'base': 2}, {'dropna': True, 'base': 10}]))
        if [p, c, a] not in fs:
            fs.append([p, c, a])
    return {'n_p': n_p, 'cats': draw(st.sampled_from([[], [], [], ['cat'], ['code'], ['cat', 'code']])),
            'turn': draw(st.integers(0, 12)), 'cols': cols, 'feats': fs, 'base': draw(st.sampled_from(
        ['2020-01-01', '2020-01-01 11:45:00', '2019-12-31 23:59:58', '2020-02-28 07:00:00'])),
        'ids': draw(st.permutations(list(range(n)))),
        'cut': draw(st.sampled_from([0, 10, 25, 30, 35, 40, 41, 45])) * step}


def cls(p):
    return getattr(P, ''.join(w.capitalize() for w in p.split('_')))


def run(case, ctx):
    cols = case['cols']
    n = len(case['ids'])
    base = pd.Timestamp(case['base'])
    sec = lambda s: pd.NaT if s is None else base + pd.Timedelta(s, 's')
    df = pd.DataFrame({
        'id': case['ids'], 'pid': cols['pid'], 't': [sec(s) for s in cols['t']],
        'num': pd.Series([np.nan if v is None else v for v in cols['num']], dtype='float64'),
        'int': pd.Series(cols['int'], dtype='int64'), 'cat': pd.Series(cols['cat'], dtype=object),
        'code': pd.Series(cols['code'], dtype='int64'), 'bool': pd.Series(cols['bool'], dtype=bool),
        'nbool': pd.Series(cols['nbool'], dtype=object),
        'dt': pd.Series([sec(None if v is None else v * 1800) for v in cols['dt']], dtype='datetime64[ns]')})
    for c in case['cats']:
        df[c] = df[c].astype('category')
        ctx.label('categories')
    es = ft.EntitySet('es')
    es.entity_from_dataframe('p', pd.DataFrame({'pid': list(range(case['n_p']))}), index='pid')
    es.entity_from_dataframe('c', df, index='id', time_index='t', variable_types={
        'pid': vt.Id, 'num': vt.Numeric, 'int': vt.Numeric, 'cat': vt.Categorical, 'code': vt.Categorical,
        'bool': vt.Boolean, 'nbool': vt.Boolean, 'dt': vt.Datetime, 't': vt.DatetimeTimeIndex})
    es.add_relationship(ft.Relationship(es['p']['pid'], es['c']['pid']))
    cut = base + pd.Timedelta(case['cut'], 's')
    feats = []
    for p, c, a in case['feats']:
        bases = [es['c'][c]] + ([es['c']['t']] if p == 'trend' else [])
        feats.append(ft.Feature(bases, parent_entity=es['p'], primitive=cls(p)(**a)))
        ctx.label(p)
    names = [f.get_name() for f in feats]
    if len(set(names)) < len(names):
        raise Skip()
    fm = ft.calculate_feature_matrix(feats, es, cutoff_time=cut)
    # rows of each group in time order
    order = sorted(range(n), key=lambda i: (cols['t'][i], case['ids'][i]))
    groups = {g: [i for i in order if cols['pid'][i] == g and cols['t'][i] <= case['cut']] for g in range(case['n_p'])}
    sizes = [len(g) for g in groups.values()]
    ctx.nt(max(sizes) >= 3 and min(sizes) <= 1)
    t0 = base.value // 10 ** 9
    allc = dict(cols, id=case['ids'], dt=[None if v is None else t0 + v * 1800 for v in cols['dt']],
                t=[t0 + v for v in cols['t']])
    for (p, c, a), f in zip(case['feats'], feats):
        prim = cls(p)(**a)
        for g, rows in groups.items():
            x = [allc[c][i] for i in rows]
            ts = [allc['t'][i] for i in rows]
            got = [fm[nm].loc[g] for nm in f.get_feature_names()]
            want = expect(p, a, x, ts, t0 + case['cut'])
            check(p, a, x, got, want, '%s for group %r of %s' % (f.get_name(), x, c))
            if not rows or p == 'std':
                continue
            # the primitive called directly
            if p not in ('first', 'last', 'time_since_first', 'time_since_last', 'trend'):
                # (with rows in another order)
                k = case['turn'] % len(rows)
                rows = rows[k:] + rows[:k] if case['turn'] % 2 else rows[k:] + rows[:k][::-1]
            vals = [df[c].iloc[i] for i in rows]
            if c in ('cat', 'nbool'):
                vals = pd.Series(vals, dtype=object)
            kw = {'time': cut} if prim.uses_calc_time else {}
            args = [vals] + ([[df['t'].iloc[i] for i in rows]] if p == 'trend' else [])
            r = prim(*args, **kw)
            got = list(r) if p == 'n_most_common' and a.get('n') != 1 else [r]
            check(p, a, x, got, want, '%s(%r) called directly' % (p, x))


def expect(p, a, x, ts, cut):
    ok = [v for v in x if v is not None]
    f = [float(v) for v in ok] if all(not isinstance(v, str) for v in ok) else None
    n = len(ok)
    if p in ('first', 'last'):
        return x[0 if p == 'first' else -1] if x else None
    if p == 'count':
        return n
    if p == 'sum':
        return math.fsum(f)
    if p == 'mean':
        return None if not n or (a.get('skipna') is False and n < len(x)) else math.fsum(f) / n
    if p in ('min', 'max'):
        return {'min': min, 'max': max}[p](f) if n else None
    if p == 'median':
        s = sorted(f)
        return None if not n else s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2
    if p == 'std':
        if n < 2:
            return None
        m = math.fsum(f) / n
        return math.sqrt(math.fsum((v - m) ** 2 for v in f) / (n - 1))
    if p == 'skew':
        if n < 3:
            return None
        m = math.fsum(f) / n
        m2 = math.fsum((v - m) ** 2 for v in f) / n
        m3 = math.fsum((v - m) ** 3 for v in f) / n
        if len(set(f)) == 1:
            return 0.0
        return math.sqrt(n * (n - 1)) / (n - 2) * m3 / m2 ** 1.5
    if p == 'num_unique':
        return len(set(ok)) if x else None
    if p == 'num_true':
        return sum(1 for v in ok if v)
    if p == 'percent_true':
        return sum(1 for v in ok if v) / float(len(x)) if x else 0
    if p == 'any':
        return any(x) if x else None
    if p == 'all':
        return all(x) if x else None
    if p == 'avg_time_between':
        if n < 2:
            return None
        return (max(ok) - min(ok)) / float(n - 1) / UNITS[a.get('unit', 'seconds').lower()]
    if p in ('time_since_last', 'time_since_first'):
        if not x:
            return None
        return (cut - x[-1 if p == 'time_since_last' else 0]) / UNITS[a.get('unit', 'seconds').lower()]
    if p == 'entropy':
        if not x:
            return None
        cnt = Counter(ok if a.get('dropna') else x)
        tot = float(sum(cnt.values()))
        if not tot:
            return 'zero or missing'
        e = -math.fsum(k / tot * math.log(k / tot) for k in cnt.values())
        return e / math.log(a['base']) if a.get('base') else e
    if p == 'trend':
        pairs = [(t, float(v)) for t, v in zip(ts, x) if v is not None]
        if len(pairs) <= 2:
            return None
        # days, hours, minutes or seconds: the largest that the first time is a whole number of
        unit = [u for u in (86400, 3600, 60, 1) if pairs[0][0] % u == 0][0]
        mx = math.fsum(t for t, _ in pairs) / len(pairs)
        my = math.fsum(v for _, v in pairs) / len(pairs)
        den = math.fsum((t - mx) ** 2 for t, _ in pairs)
        if den == 0:
            return 0.0
        return math.fsum((t - mx) * (v - my) for t, v in pairs) / den * unit
    return None


def check(p, a, x, got, want, what):
    ok = [v for v in x if v is not None]
    if p == 'mode':
        cnt = Counter(ok)
        if not ok:
            good = isnull(got[0])
        else:
            good = not isnull(got[0]) and cnt.get(plain(got[0]), 0) == max(cnt.values())
        if not good:
            raise Violation('%s: %r' % (what, got[0]))
        return
    if p == 'n_most_common':
        k = a.get('n', 3)
        cnt = Counter(ok)
        top = sorted(cnt.values(), reverse=True)[:k]
        vals = [plain(v) for v in got if not isnull(v)]
        vals = [int(float(v)) if ok and isinstance(ok[0], int) else v for v in vals]
        good = len(got) == k and [cnt.get(v, 0) for v in vals] == top and len(set(vals)) == len(vals) and \
            all(isnull(v) for v in got[len(top):])
        if not good:
            raise Violation('%s: %r, counts %r' % (what, got, dict(cnt)))
        return
    g = plain(got[0])
    if want == 'zero or missing':
        good = isnull(g) or abs(float(g)) < 1e-12
    elif want is None:
        good = isnull(g)
    elif isnull(g):
        good = False
    elif isinstance(g, pd.Timestamp):
        good = abs(g.value / 1e9 - want) < 1e-6
    elif isinstance(want, str) or isinstance(g, str):
        good = g == want
    else:
        tol = {'trend': 1e-5, 'skew': 1e-6}.get(p, 1e-7)
        scale = max([1e-9 if p in ('avg_time_between', 'time_since_last', 'time_since_first') else 1.0] +
                    [abs(v) for v in ok if isinstance(v, (int, float)) and p in ('sum', 'mean', 'std')])
        good = abs(float(g) - float(want)) <= tol * max(scale, abs(float(want)))
    if not good:
        raise Violation('%s: %r, by definition %r' % (what, g, want))


CHECKS = [Sub('values', cases(), run, quick=3000)]
