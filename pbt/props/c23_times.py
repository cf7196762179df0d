"""Timedeltas, temporal cutoffs, bins, and time spelled in different ways."""
import calendar
import datetime as dtm
import math

import featuretools as ft
import pandas as pd
from featuretools.computational_backends import bin_cutoff_times
from featuretools.entityset import Timedelta
from featuretools.utils import make_temporal_cutoffs
from featuretools.utils.wrangle import _check_timedelta
from hypothesis import strategies as st

from pbt import build, gen
from pbt.common import compute, expected_rows, frames_equal
from pbt.core import Sub, Violation

ID = 'C23'
RULE = ('timedelta: amounts in every unit and spelling (short, singular, plural, capitals, with or without a space, text or arguments) and in '
        'several units are added to and subtracted from times and compared with calendar arithmetic in plain Python; names, dictionaries, '
        'negation, pandas objects. cutoffs, bins: against plain Python. spelled: calculations whose windows and buckets are spelled in '
        'different ways give the same matrix; numeric: the same data with numeric times gives the same matrix as with timestamps. '
        'Non-trivial: every case of the first three; a matrix of at least one aggregation or a bucket for the others.')
ASSUMPTIONS = ['fractions of months and years are not used', 'negative amounts are given as arguments, not as text']

UNITS = {'ms': ('Millisecond', 0.001), 's': ('Second', 1), 'm': ('Minute', 60), 'h': ('Hour', 3600), 'd': ('Day', 86400),
         'w': ('Week', 7 * 86400), 'mo': ('Month', None), 'Y': ('Year', None)}


def shift(t, times, sign):
    """calendar arithmetic: years and months first, clamped to the month's end; then the rest"""
    months = sign * (12 * times.get('Y', 0) + times.get('mo', 0))
    if months:
        k = t.year * 12 + t.month - 1 + months
        y, m = divmod(k, 12)
        t = t.replace(year=y, month=m + 1, day=min(t.day, calendar.monthrange(y, m + 1)[1]))
    secs = sum(v * UNITS[u][1] for u, v in times.items() if UNITS[u][1])
    return t + dtm.timedelta(microseconds=round(sign * secs * 1e6))


def spell(draw, u, n):
    name = UNITS[u][0]
    forms = [u, u, name, name + 's', name.lower(), name.lower() + 's', name.upper(), (name + 's').upper(), name.swapcase()]
    if u != 'm':      # (M would be ambiguous)
        forms += [u.upper(), u.lower()]
    f = draw(st.sampled_from(forms))
    return ['text', '%s%s%s' % (n, draw(st.sampled_from(['', ' ', '  '])), f)] if draw(st.booleans()) and n >= 0 else ['args', n, f]


@st.composite
def td_cases(draw):
    base = draw(st.one_of(st.datetimes(dtm.datetime(1990, 1, 1), dtm.datetime(2040, 1, 1)),
                          st.sampled_from([dtm.datetime(2020, 2, 29), dtm.datetime(2020, 1, 31, 23, 59), dtm.datetime(2019, 12, 31)])))
    base = base.replace(microsecond=base.microsecond // 1000 * 1000)
    kind = draw(st.sampled_from(['one', 'one', 'many', 'pandas', 'offset']))
    c = {'kind': kind, 'base': base.isoformat()}
    if kind == 'one':
        u = draw(st.sampled_from(sorted(UNITS)))
        n = draw(st.one_of(st.integers(1, 60), st.integers(-20, {'Y': 60, 'mo': 700}.get(u, 2000))))
        if UNITS[u][1] and u != 'ms' and draw(st.booleans()):
            n = n / 4 if n / 4 % 1 else n // 4 + 0.5
        c.update(unit=u, n=n, form=spell(draw, u, n))
    else:
        us = draw(st.lists(st.sampled_from(sorted(UNITS) if kind == 'many' else ['s', 'm', 'h', 'd', 'w', 'mo', 'Y']),
                           min_size=1 if kind != 'many' else 2, max_size=4, unique=True))
        c['times'] = [[u, draw(st.integers(1, 40))] for u in us]
        c['long'] = draw(st.booleans())
        if kind == 'offset':
            c['times'] = [[draw(st.sampled_from(['BDay', 'MonthEnd', 'Week', 'QuarterEnd', 'BMonthBegin'])), draw(st.integers(1, 12))]]
    return c


def near(a, b):
    return abs((pd.Timestamp(a) - pd.Timestamp(b)).total_seconds()) < 1e-5


def run_td(case, ctx):
    base = pd.Timestamp(case['base'])
    plain = base.to_pydatetime()
    ctx.nt(True)
    ctx.label(case['kind'])
    if case['kind'] == 'one':
        u, n, form = case['unit'], case['n'], case['form']
        td = Timedelta(form[1]) if form[0] == 'text' else Timedelta(form[1], form[2])
        ref = Timedelta(n, u)
        times = {u: n}
        if form[0] == 'text':
            td2 = _check_timedelta(form[1])
            if td2 != td:
                raise Violation('%r is %r as an argument of a feature and %r as a Timedelta' % (form[1], td2.times, td.times))
        if td != ref or td.times != {u: n}:
            raise Violation('%r is %r, expected %r' % (form, td.times, times))
        if n >= 0 and Timedelta(td.get_name()) != td:
            raise Violation('the name %r of %r reads as %r' % (td.get_name(), times, Timedelta(td.get_name()).times))
        if Timedelta(n + 1, u) == td:
            raise Violation('%r equals one more of it' % times)
        if td.get_value() != n or td.get_value(u) != n or td.get_units() != [u]:
            raise Violation('value %r units %r of %r' % (td.get_value(), td.get_units(), times))
        if td.is_absolute() != (UNITS[u][1] is not None) or td.has_multiple_units():
            raise Violation('%r is_absolute %r' % (times, td.is_absolute()))
    elif case['kind'] == 'many':
        times = dict(case['times'])
        td = Timedelta({(UNITS[u][0].lower() + 's' if case['long'] else u): v for u, v in times.items()})
        if td.times != times or not td.has_multiple_units() or td.is_absolute() != all(UNITS[u][1] for u in times):
            raise Violation('%r has the times %r' % (times, td.times))
        words = td.get_name().split()
        got = {Timedelta('%s %s' % (v, u)).get_units()[0]: int(v) for v, u in zip(words[::2], words[1::2])}
        if got != times:
            raise Violation('the name of %r is %r' % (times, td.get_name()))
    elif case['kind'] == 'pandas':
        times = dict(case['times'])
        if all(UNITS[u][1] for u in times) and not case['long']:
            obj = pd.Timedelta(seconds=sum(v * UNITS[u][1] for u, v in times.items()))
        else:
            obj = pd.DateOffset(**{UNITS[u][0].lower() + 's': v for u, v in times.items()})
        td = _check_timedelta(obj)
    else:
        obj = getattr(pd.offsets, case['times'][0][0])(case['times'][0][1])
        td = _check_timedelta(obj)
        for sign, got, want in ((1, base + td, base + obj), (-1, base - td, base - obj), (-1, base + (-td), base - obj),
                                (1, base - (-td), base + obj)):
            if got != want:
                raise Violation('%s %+d * %r is %s, pandas gives %s' % (base, sign, obj, got, want))
        return
    for sign, got in ((1, base + td), (-1, base - td), (-1, base + (-td)), (1, base - (-td)), (1, base + (-(-td)))):
        want = shift(plain, times, sign)
        if not near(got, want):
            raise Violation('%s %+d * %r is %s, expected %s' % (base, sign, times, got, want))
    back = Timedelta.from_dictionary(td.get_arguments())
    if back != td or not near(base + back, base + td):
        raise Violation('%r comes back as %r from its dictionary' % (td.times, back.times))
    if td == 1 or not (td == td) or (td != td):
        raise Violation('%r does not equal itself, or equals a number' % td.times)


# -------------------------------------------------------------------- cutoffs
@st.composite
def cutoff_cases(draw):
    n = draw(st.integers(1, 4))
    return {'ids': draw(st.lists(st.integers(0, 9), min_size=n, max_size=n)), 'mode': draw(st.sampled_from(['size', 'start', 'var'])),
            'times': draw(st.lists(st.integers(0, 500), min_size=n, max_size=n)), 'h': draw(st.integers(1, 30)),
            'k': draw(st.lists(st.integers(0, 6), min_size=n, max_size=n)), 'num': draw(st.integers(1, 6)),
            'off': draw(st.lists(st.integers(0, 3), min_size=n, max_size=n)), 'text': draw(st.booleans()),
            'as': draw(st.sampled_from(['list', 'series', 'array']))}


def run_cutoffs(case, ctx):
    t0 = pd.Timestamp('2020-01-01')
    h, ids = case['h'], case['ids']
    cut = [t0 + pd.Timedelta(hours=x) for x in case['times']]
    kw, want = {}, []
    size = '%dh' % h if case['text'] else pd.Timedelta(hours=h)
    if case['mode'] == 'size':
        kw = {'window_size': size, 'num_windows': case['num']}
        for i, t in zip(ids, case['times']):
            want += [(i, t - h * k) for k in range(case['num'] - 1, -1, -1)]
    elif case['mode'] == 'start':
        starts = [t - h * k - o for t, k, o in zip(case['times'], case['k'], case['off'])]
        kw = {'window_size': size, 'start': [t0 + pd.Timedelta(hours=s) for s in starts]}
        for i, t, s in zip(ids, case['times'], starts):
            while s <= t:
                want.append((i, s))
                s += h
    else:
        num = case['num'] + 1
        starts = [t - (num - 1) * (k + 1) for t, k in zip(case['times'], case['k'])]
        kw = {'num_windows': num, 'start': [t0 + pd.Timedelta(hours=s) for s in starts]}
        for i, t, s in zip(ids, case['times'], starts):
            want += [(i, s + (t - s) // (num - 1) * j) for j in range(num)]
    make = {'list': list, 'series': pd.Series, 'array': lambda x: pd.Series(x).values}[case['as']]
    if case['mode'] == 'var' and case['as'] == 'array':
        make = list
    got = make_temporal_cutoffs(make(ids), make(cut), **kw)
    ctx.nt(len(want) > 1)
    ctx.label(case['mode'])
    rows = list(zip(got['instance_id'].tolist(), got['time'].tolist()))
    want = [(i, t0 + pd.Timedelta(hours=x)) for i, x in want]
    if rows != want:
        raise Violation('temporal cutoffs %r, expected %r' % (rows, want))
    if list(got.index) != list(range(len(want))):
        raise Violation('index %r' % list(got.index))


# ----------------------------------------------------------------------- bins
@st.composite
def bin_cases(draw):
    num = draw(st.booleans())
    n = draw(st.integers(1, 6))
    return {'num': num, 'v': draw(st.lists(st.integers(-50, 3000) if num else st.integers(0, 4 * 10 ** 5), min_size=n, max_size=n)),
            'unit': draw(st.sampled_from(['s', 'm', 'h', 'd', 'w'])), 'n': draw(st.integers(1, 100)),
            'float': num and draw(st.booleans())}


def run_bin(case, ctx):
    n = case['n']
    ctx.nt(True)
    if case['num']:
        v = [x / 4 for x in case['v']] if case['float'] else case['v']
        df = pd.DataFrame({'instance_id': range(len(v)), 'time': v})
        got = bin_cutoff_times(df, n)['time'].tolist()
        want = [math.floor(x / n) * n for x in v]
    else:
        t0, epoch = dtm.datetime(2019, 11, 3, 5, 7, 1), dtm.datetime(1970, 1, 1)
        v = [t0 + dtm.timedelta(seconds=x * 7) for x in case['v']]
        df = pd.DataFrame({'instance_id': range(len(v)), 'time': pd.to_datetime(v)})
        size = Timedelta(n, case['unit'])
        got = bin_cutoff_times(df, size)['time'].tolist()
        step = int(n * UNITS[case['unit']][1])
        want = [pd.Timestamp(epoch + dtm.timedelta(seconds=int((x - epoch).total_seconds()) // step * step)) for x in v]
    if got != want:
        raise Violation('%r in bins of %d %s: %r, expected %r' % (df['time'].tolist(), n, '' if case['num'] else case['unit'], got, want))
    if df['time'].tolist() != [x for x in v]:
        raise Violation('the cutoff times were changed')


# ---------------------------------------------------------- spelled calculations
def spellings(h):
    out = ['%dh' % h, '%d hours' % h, '%d Hour' % h, Timedelta(h, 'h'), Timedelta(h, 'Hours'), Timedelta({'h': h}), '%d m' % (60 * h),
           Timedelta(3600 * h, 's'), pd.Timedelta(hours=h), '%.1f H' % h]
    if h % 24 == 0:
        out += ['%dd' % (h // 24), Timedelta(h // 24, 'days')]
    if h % 168 == 0:
        out += ['%d weeks' % (h // 168)]
    return out


@st.composite
def spelled_cases(draw):
    spec = draw(gen.es_specs(min_ents=draw(st.sampled_from([2, 3])), max_ents=3, times='mixed', min_rows=2))
    target = draw(gen.targets(spec))
    return {'spec': spec, 'target': target, 'co': draw(gen.cutoffs(spec, target, modes=('rows',))),
            'feats': draw(gen.feature_lists(spec, target, depth=2, max_n=4)), 'h': draw(st.sampled_from([1, 2, 5, 24, 168])),
            'what': draw(st.sampled_from(['window', 'approx'])), 'a': draw(st.integers(0, 40)), 'b': draw(st.integers(0, 40)),
            'offset': draw(st.booleans())}


def run_spelled(case, ctx):
    spec, target = case['spec'], case['target']
    es = build.build_es(spec)
    feats = build.build_features(es, spec, case['feats'])
    s = spellings(case['h'])
    if case['what'] == 'window':
        s += [pd.DateOffset(hours=case['h']), Timedelta({'h': case['h'] - 1, 'm': 60})]
    x, y = s[case['a'] % len(s)], s[case['b'] % len(s)]
    key = {'window': 'training_window', 'approx': 'approximate'}[case['what']]
    a = build.cutoff_args(spec, target, case['co'])
    one = ft.calculate_feature_matrix(feats, es, **a, **{key: x})
    two = ft.calculate_feature_matrix(feats, es, **a, **{key: y})
    frames_equal(one, two, '%s=%r and %r' % (key, x, y))
    ctx.nt(any(f['k'] == 'agg' for g in case['feats'] for f in gen.walk(g)))
    ctx.label(case['what'])


@st.composite
def numeric_cases(draw):
    spec = draw(gen.es_specs(min_ents=draw(st.sampled_from([1, 2, 3])), max_ents=3, times=draw(st.sampled_from(['mixed', 'all'])),
                             min_rows=2, numeric_time=True))
    target = draw(gen.targets(spec))
    return {'spec': spec, 'target': target, 'co': draw(gen.cutoffs(spec, target, modes=('rows', 'rows', 'single'))),
            'feats': draw(gen.feature_lists(spec, target, depth=2, max_n=4, use_time=False, windows=False)),
            'approx': draw(st.one_of(st.none(), st.sampled_from([1, 2, 3, 4, 6, 8, 12]))), 'include': draw(st.booleans()),
            'chunk': draw(st.one_of(st.none(), st.integers(1, 3)))}


def run_numeric(case, ctx):
    spec, target = case['spec'], case['target']
    if not expected_rows(spec, target, case['co'], case['include']):
        return
    out = []
    for tt in ('num', 'dt'):
        s = dict(spec, tt=tt)
        es = build.build_es(s)
        feats = build.build_features(es, s, case['feats'])
        kw = {}
        if case['approx'] and case['co']['mode'] == 'rows':
            kw['approximate'] = case['approx'] if tt == 'num' else '%d h' % case['approx']
        fm = compute(es, s, target, feats, case['co'], case['include'], chunk_size=case['chunk'], **kw)
        drop = [n for f in feats for n in f.get_feature_names() if any(
            d.get_name() == 't' for d in [f] + f.get_dependencies(deep=True))]
        out.append(fm[[c for c in fm.columns if c not in drop]])
    ctx.nt(any(f['k'] in ('agg', 'dir') for g in case['feats'] for f in gen.walk(g)))
    ctx.label('approximate', bool(case['approx']))
    frames_equal(out[1], out[0], 'timestamps and numeric times')


CHECKS = [Sub('timedelta', td_cases(), run_td, quick=3000), Sub('cutoffs', cutoff_cases(), run_cutoffs, quick=600),
          Sub('bins', bin_cases(), run_bin, quick=600), Sub('spelled', spelled_cases(), run_spelled, quick=250),
          Sub('numeric', numeric_cases(), run_numeric, quick=400)]
