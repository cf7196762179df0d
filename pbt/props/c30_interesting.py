"""Interesting values are frequent values of the data and lead to conditioned features."""
import warnings

import numpy as np
import pandas as pd

import featuretools as ft
from featuretools import variable_types as vt
from hypothesis import strategies as st

from pbt.common import isnull, plain
from pbt.core import Sub, Violation

ID = 'C30'
RULE = ('Generated columns (text, whole numbers, numbers with missing values, pandas categories with unused categories, flags, foreign keys, up to 70 rows '
        'and 40 distinct values) and max_values; the interesting values of every variable are compared with plain counts, for one entity and the whole '
        'entity set, twice. Deep feature synthesis must then make one conditioned feature per value, with the value a plain filter gives. '
        'Non-trivial: a variable with more distinct values than max_values, or 25 or more distinct values.')
ASSUMPTIONS = ['values as frequent as the last one that was chosen could have been chosen instead']

TYPES = {'text': ['Categorical', 'ZIPCode', 'Ordinal'], 'int': ['Categorical', 'Ordinal', 'Numeric'], 'float': ['Categorical', 'Numeric'],
         'category': ['Categorical'], 'flag': ['Boolean', 'Categorical'], 'long': ['NaturalLanguage']}


@st.composite
def cases(draw):
    big = draw(st.booleans())
    n = draw(st.integers(20, 70)) if big else draw(st.integers(1, 12))
    np_ = draw(st.integers(1, 3))
    cols = []
    for i in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(sorted(TYPES)))
        top = draw(st.sampled_from([2, 5, 24, 25, 26, 40])) if big else draw(st.integers(1, 6))
        skew = draw(st.sampled_from([0, 0, 1, 3, 30, 100]))
        # values 0..top, value 0 more often than the others
        v = draw(st.lists(st.integers(0, top + skew), min_size=n, max_size=n))
        v = [x if x <= top else 0 for x in v]
        if big and draw(st.booleans()):
            v = [(i % (top + 1)) if draw(st.integers(0, 3)) else x for i, x in enumerate(v)]
        if big and n > top and draw(st.booleans()):
            # exactly top + 1 different values
            v[:top + 1] = range(top + 1)
        miss = draw(st.lists(st.integers(0, n - 1), max_size=3)) if kind in ('text', 'float', 'category') else []
        cols.append({'kind': kind, 'vt': draw(st.sampled_from(TYPES[kind])), 'v': [None if j in miss else x for j, x in enumerate(v)]})
    return {'cols': cols, 'pid': draw(st.lists(st.integers(0, np_ - 1), min_size=n, max_size=n)), 'np': np_,
            'max': draw(st.sampled_from([5, 5, 1, 2, 3, 0, 100])), 'whole': draw(st.booleans()), 'again': draw(st.booleans()),
            'own': draw(st.booleans())}


def value(kind, x):
    if x is None:
        return None
    return {'text': 'v%s' % x, 'long': 'v%s' % x, 'category': 'k%s' % x, 'flag': x % 2 == 0, 'int': x, 'float': x + 0.5}[kind]


def series(c):
    v = [value(c['kind'], x) for x in c['v']]
    if c['kind'] == 'category':
        return pd.Series(pd.Categorical(v, categories=sorted({x for x in v if x is not None}) + ['unused']))
    return pd.Series(v, dtype={'int': 'int64', 'float': 'float64', 'flag': 'bool'}.get(c['kind'], object))


def make(case):
    es = ft.EntitySet('es')
    n = len(case['pid'])
    es.entity_from_dataframe('p', pd.DataFrame({'id': range(case['np']), 'g': ['g%d' % (i % 2) for i in range(case['np'])]}), index='id',
                             variable_types={'g': vt.Categorical})
    data = {'cid': range(n), 'pid': case['pid']}
    types = {'pid': vt.Id}
    for i, c in enumerate(case['cols']):
        data['c%d' % i] = series(c)
        types['c%d' % i] = getattr(vt, c['vt'])
    es.entity_from_dataframe('c', pd.DataFrame(data), index='cid', variable_types=types)
    es.add_relationship(ft.Relationship(es['p']['id'], es['c']['pid']))
    return es


def counts_of(vals):
    out = {}
    for v in vals:
        if v is not None:
            out[v] = out.get(v, 0) + 1
    return out


def check_values(e, name, vals, discrete, case, ctx):
    got = [plain(x) for x in e[name].interesting_values]
    counts = counts_of(vals)
    if not discrete:
        if got != []:
            raise Violation('%s is no discrete variable but has the interesting values %r' % (name, got))
        return got
    if len(set(got)) < len(got) or any(isnull(x) for x in got):
        raise Violation('interesting values of %s: %r' % (name, got))
    for x in got:
        if x not in counts:
            raise Violation('%r is an interesting value of %s but is not in the data %r' % (x, name, sorted(counts, key=str)))
    have = [counts[x] for x in got]
    top = sorted(counts.values(), reverse=True)
    total = sum(top)
    if len(counts) < 25:
        want = top[:case['max']]
    else:
        want = []
        for k in top[:case['max']]:
            if not 0.05 < k / total < 0.95:
                break
            want.append(k)
    ctx.nt(len(counts) > case['max'] or len(counts) >= 25)
    ctx.label('25 or more values', len(counts) >= 25)
    if have != want:
        raise Violation('interesting values of %s with their counts %r; the most frequent (at most %d) have %r, of %d values'
                        % (name, list(zip(got, have)), case['max'], want, len(counts)))
    return got


def run(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        es = make(case)
        before = {e.id: e.df.copy() for e in es.entities}
        if case['own']:
            # what is there already is replaced
            for v in es['c'].variables:
                if isinstance(v, vt.Categorical) and v.id.startswith('c0') and case['cols'][0]['kind'] in ('text', 'category'):
                    v.interesting_values = [value(case['cols'][0]['kind'], case['cols'][0]['v'][0])] \
                        if case['cols'][0]['v'][0] is not None else []
        first = None
        for k in range(2 if case['again'] else 1):
            if case['whole']:
                es.add_interesting_values(max_values=case['max'])
            else:
                es['c'].add_interesting_values(max_values=case['max'])
            found = {}
            for i, c in enumerate(case['cols']):
                ctx.label(c['kind'])
                vals = [value(c['kind'], x) for x in c['v']]
                disc = issubclass(getattr(vt, c['vt']), vt.Discrete)
                found['c%d' % i] = check_values(es['c'], 'c%d' % i, vals, disc, case, ctx)
            if list(es['c']['pid'].interesting_values) or list(es['p']['id'].interesting_values) or list(es['c']['cid'].interesting_values):
                raise Violation('keys have interesting values')
            g = [plain(x) for x in es['p']['g'].interesting_values]
            if case['whole']:
                check_values(es['p'], 'g', ['g%d' % (i % 2) for i in range(case['np'])], True, case, ctx)
            elif g:
                raise Violation('the other entity got interesting values: %r' % g)
            if first is not None and first != found:
                raise Violation('the second call found %r, the first %r' % (found, first))
            first = found
        for e in es.entities:
            if not e.df.equals(before[e.id]) or list(e.df.dtypes) != list(before[e.id].dtypes):
                raise Violation('the data of %s changed' % e.id)
        feats = ft.dfs(entityset=es, target_entity='p', agg_primitives=['count'], where_primitives=['count'], trans_primitives=[],
                       features_only=True, max_depth=1)
        wheres = [f for f in feats if getattr(f, 'where', None) is not None]
        want = {'COUNT(c WHERE %s = %s)' % (n, x) for n, vs in found.items() for x in vs}
        want |= {'COUNT(c WHERE p.g = %s)' % x for x in [plain(x) for x in es['p']['g'].interesting_values]}
        got = {f.get_name() for f in wheres}
        if got != want:
            raise Violation('conditioned features %r, expected %r' % (sorted(got), sorted(want)))
        if not wheres:
            return
        fm = ft.calculate_feature_matrix(wheres, es)
        for i, c in enumerate(case['cols']):
            for x in found['c%d' % i]:
                for p in range(case['np']):
                    exp = sum(1 for q, v in zip(case['pid'], c['v']) if q == p and v is not None and value(c['kind'], v) == x)
                    act = fm['COUNT(c WHERE c%d = %s)' % (i, x)].loc[p]
                    if act != exp:
                        raise Violation('COUNT(c WHERE c%d = %s) of %d is %r, %d rows' % (i, x, p, act, exp))


CHECKS = [Sub('found', cases(), run, quick=400)]
