"""Turns plain-data descriptions into library objects (public API only)."""
import numpy as np
import pandas as pd

import featuretools as ft
from featuretools import variable_types as vt
from featuretools.entityset.relationship import RelationshipPath
from featuretools.feature_base import (
    AggregationFeature,
    DirectFeature,
    GroupByTransformFeature,
    IdentityFeature,
    TransformFeature
)
from featuretools.primitives import AggregationPrimitive, TransformPrimitive
from featuretools import primitives as P

from .core import Skip
from .gen import ent_of

BASE = pd.Timestamp('2020-01-01')
VT = {'num': vt.Numeric, 'int': vt.Numeric, 'cat': vt.Categorical, 'bool': vt.Boolean, 'dt': vt.Datetime}


def ts(t, tt='dt'):
    if t is None:
        return pd.NaT if tt == 'dt' else np.nan
    return BASE + pd.Timedelta(hours=t) if tt == 'dt' else t


def unts(x):
    if x is None or x is pd.NaT or pd.isnull(x):
        return None
    return (pd.Timestamp(x) - BASE) / pd.Timedelta(hours=1)


def categories(spec, eid):
    # (also the ids that updates and other versions of the data bring)
    vals = ent_of(spec, eid)['ids'] + ['k%d' % i for i in list(range(8)) + list(range(20, 26)) + list(range(50, 60))] + \
        ['zz', 'new0', 'new1']
    for e in spec['ents']:
        for l in e['links']:
            if l['p'] == eid:
                vals += [v for v in l['v'] if v is not None]
    return pd.CategoricalDtype(sorted(set(vals)))


def ent_df(spec, e):
    n = len(e['ids'])
    data = {e['index']: pd.Series(e['ids'], dtype='int64' if e['idtype'] == 'int' else object)}
    for l in e['links']:
        pt = ent_of(spec, l['p'])['idtype']
        data[l['col']] = pd.Series(l['v'], dtype='int64' if pt == 'int' else object)
        if ent_of(spec, l['p']).get('cat'):
            data[l['col']] = data[l['col']].astype(categories(spec, l['p']))
    if e.get('cat'):
        data[e['index']] = data[e['index']].astype(categories(spec, e['id']))
    if e['times'] is not None:
        if spec['tt'] == 'dt':
            data['t'] = pd.Series([ts(t) for t in e['times']], dtype='datetime64[ns]')
        else:
            data['t'] = pd.Series(e['times'], dtype='int64')
    if e['sec']:
        data[e['sec']['n']] = pd.Series([ts(t) for t in e['sec']['v']], dtype='datetime64[ns]')
    for c in e['cols']:
        v = c['v']
        if c['t'] == 'num':
            s = pd.Series([np.nan if x is None else float(x) for x in v], dtype='float64')
        elif c['t'] == 'int':
            s = pd.Series(v, dtype='int64')
        elif c['t'] == 'bool':
            s = pd.Series(v, dtype='bool')
        elif c['t'] == 'cat':
            s = pd.Series([np.nan if x is None else x for x in v], dtype=object)
            if c.get('cat'):
                s = s.astype('category')
        else:
            s = pd.Series([ts(x) for x in v], dtype='datetime64[ns]')
        data[c['n']] = s
    df = pd.DataFrame(data)
    assert len(df) == n
    return df


def ent_types(spec, e):
    out = {c['n']: VT[c['t']] for c in e['cols']}
    for l in e['links']:
        out[l['col']] = vt.Id
    if e['times'] is not None:
        out['t'] = vt.DatetimeTimeIndex if spec['tt'] == 'dt' else vt.NumericTimeIndex
    if e['sec']:
        out[e['sec']['n']] = vt.Datetime
    return out


def build_es(spec, name='es', shuffle_df_index=False):
    es = ft.EntitySet(name)
    for e in spec['ents']:
        es.entity_from_dataframe(
            entity_id=e['id'], dataframe=ent_df(spec, e), index=e['index'],
            time_index='t' if e['times'] is not None else None,
            secondary_time_index={e['sec']['n']: list(e['sec']['cols'])} if e['sec'] else None,
            variable_types=ent_types(spec, e))
    rels = {}
    for e in spec['ents']:
        for k, l in enumerate(e['links']):
            par = ent_of(spec, l['p'])
            r = ft.Relationship(es[l['p']][par['index']], es[e['id']][l['col']])
            es.add_relationship(r)
            rels[(e['id'], k)] = r
    return es


def rel_of(es, spec, child, k):
    l = ent_of(spec, child)['links'][k]
    for r in es.relationships:
        if r.child_entity.id == child and r.child_variable.id == l['col']:
            return r
    raise KeyError((child, k))


# ----------------------------------------------------- custom primitives
class MinMax(AggregationPrimitive):
    name = 'minmax'
    input_types = [vt.Numeric]
    return_type = vt.Numeric
    number_output_features = 2

    def get_function(self):
        def f(x):
            return [x.min(), x.max()]
        return f


class SumProd(AggregationPrimitive):
    name = 'sum_prod'
    input_types = [vt.Numeric, vt.Numeric]
    return_type = vt.Numeric

    def get_function(self):
        def f(x, y):
            return (x * y).sum()
        return f


class TimeSpan(AggregationPrimitive):
    name = 'time_span'
    input_types = [vt.DatetimeTimeIndex]
    return_type = vt.Numeric

    def get_function(self):
        def f(x):
            return (x.max() - x.min()).total_seconds()
        return f


class PlusMinus(TransformPrimitive):
    name = 'plus_minus'
    input_types = [vt.Numeric]
    return_type = vt.Numeric
    number_output_features = 2

    def get_function(self):
        def f(x):
            return x, -x
        return f


class TrPair(TransformPrimitive):
    name = 'tr_pair'
    input_types = [vt.Numeric, vt.Numeric]
    return_type = vt.Numeric

    def get_function(self):
        return lambda x, y: x - 2 * y


class TrComm(TrPair):
    name = 'tr_comm'
    commutative = True

    def get_function(self):
        return lambda x, y: x + y


class TrSame(TrPair):
    name = 'tr_same'
    input_types = [vt.Discrete, vt.Discrete]
    return_type = vt.Boolean
    commutative = True

    def get_function(self):
        return lambda x, y: pd.Series(x).astype(str).values == pd.Series(y).astype(str).values


CUSTOM = {'tr_pair': TrPair, 'tr_comm': TrComm, 'tr_same': TrSame, 'minmax': MinMax, 'sum_prod': SumProd, 'time_span': TimeSpan, 'plus_minus': PlusMinus}
NAMES = {'isin': 'IsIn', 'is_null': 'IsNull'}


def prim(f):
    p = f['p']
    if p in CUSTOM:
        return CUSTOM[p]()
    cls = getattr(P, NAMES.get(p) or ''.join(w.capitalize() for w in p.split('_')))
    if p == 'isin':
        return cls(list_of_outputs=list(f['v']))
    if 'v' in f:
        return cls(f['v'])
    return cls()


def timedelta(prev):
    if prev[0] == 'h':
        return ft.Timedelta(prev[1], 'h')
    if prev[0] == 'm':
        return ft.Timedelta(prev[1], 'm')
    if prev[0] == 'd':
        return ft.Timedelta(prev[1], 'd')
    if prev[0] == 'hm':
        return ft.Timedelta({'h': prev[1], 'm': prev[2]})
    return ft.Timedelta(prev[1], 'observations')


def build_feature(es, spec, f, memo=None):
    k = f['k']
    if k == 'id':
        return IdentityFeature(es[f['e']][f['v']])
    if k == 'dir':
        return DirectFeature(build_feature(es, spec, f['b']), es[f['e']],
                             relationship=rel_of(es, spec, f['e'], f['link']))
    if k == 'sl':
        return build_feature(es, spec, f['b'])[f['i']]
    bases = [build_feature(es, spec, b) for b in f['b']]
    if k == 'tr':
        return TransformFeature(bases, prim(f))
    if k == 'gtr':
        return GroupByTransformFeature(bases, prim(f), build_feature(es, spec, f['g']))
    path = RelationshipPath([(False, rel_of(es, spec, c, i)) for c, i in f['path']])
    return AggregationFeature(
        bases, es[f['e']], prim(f), relationship_path=path,
        where=build_feature(es, spec, f['where']) if f['where'] else None,
        use_previous=timedelta(f['prev']) if f['prev'] else None)


def build_features(es, spec, fspecs):
    feats = [build_feature(es, spec, f) for f in fspecs]
    names = [n for f in feats for n in f.get_feature_names()]
    if len(set(names)) < len(names):
        # the same thing said in two ways, e.g. (a multi-output feature of the
        # parent) and (one output of it), both brought down to the child
        raise Skip()
    return feats


def cutoff_args(spec, target, co):
    """kwargs of calculate_feature_matrix + list of (id, time) rows in order"""
    e = ent_of(spec, target)
    tt = spec['tt']
    if co['mode'] == 'none':
        kw = {}
        if co['ids'] is not None:
            kw['instance_ids'] = list(co['ids'])
        return kw
    if co['mode'] == 'single':
        kw = {'cutoff_time': ts(co['t'], tt)}
        if co['ids'] is not None:
            kw['instance_ids'] = list(co['ids'])
        return kw
    df = pd.DataFrame({
        'instance_id': pd.Series([r[0] for r in co['rows']],
                                 dtype='int64' if e['idtype'] == 'int' else object),
        'time': [ts(r[1], tt) for r in co['rows']]})
    return {'cutoff_time': df}


# ------------------------------------------- entity sets with richer columns
def rich_series(c):
    v = c['v']
    if c['t'] == 'word':
        return pd.Series([np.nan if x is None else x for x in v], dtype=object)
    if c['t'] == 'td':
        return pd.Series([pd.NaT if x is None else pd.Timedelta(x, 's') for x in v], dtype='timedelta64[ns]')
    if c['t'] == 'll':
        return pd.Series([(np.nan, np.nan) if x is None else (float(x[0]), float(x[1])) for x in v], dtype=object)
    if c['t'] == 'category':
        return pd.Series(v, dtype='category')
    return None


def rich_df(spec, e):
    plain = dict(e, cols=[c for c in e['cols'] if rich_series(c) is None])
    df = ent_df(spec, plain)
    for c in e['cols']:
        s = rich_series(c)
        if s is not None:
            df[c['n']] = s
    return df


def rich_types(spec, e):
    out = {}
    for c in e['cols']:
        out[c['n']] = getattr(vt, c.get('vt') or VT[c['t']].__name__)
    for l in e['links']:
        out[l['col']] = vt.Id
    if e['times'] is not None:
        out['t'] = vt.DatetimeTimeIndex if spec['tt'] == 'dt' else vt.NumericTimeIndex
    if e['sec']:
        out[e['sec']['n']] = vt.Datetime
    return out


def build_rich(spec, name='es', ents=None, rels=True, interesting=True):
    es = ft.EntitySet(name)
    for e in (ents or spec['ents']):
        es.entity_from_dataframe(
            entity_id=e['id'], dataframe=rich_df(spec, e), index=e['index'],
            time_index='t' if e['times'] is not None else None,
            secondary_time_index={e['sec']['n']: list(e['sec']['cols'])} if e['sec'] else None,
            variable_types=rich_types(spec, e))
    if rels:
        for e in spec['ents']:
            for k, l in enumerate(e['links']):
                par = ent_of(spec, l['p'])
                es.add_relationship(ft.Relationship(es[l['p']][par['index']], es[e['id']][l['col']]))
    if interesting:
        for e in spec['ents']:
            for c in e['cols']:
                if c.get('iv') is not None:
                    es[e['id']][c['n']].interesting_values = \
                        [ts(x) for x in c['iv']] if c['t'] == 'dt' else list(c['iv'])
                if c.get('desc'):
                    es[e['id']][c['n']].description = c['desc']
    return es
