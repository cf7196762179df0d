"""A plain-data picture of anything that is handed to the library, to tell
whether a call changed it."""
import numpy as np
import pandas as pd

import featuretools as ft
from featuretools.feature_base import FeatureBase
from featuretools.primitives.base import PrimitiveBase

from pbt import featcmp


def scalar(x):
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [scalar(y) for y in x]
    if isinstance(x, np.generic):
        x = x.item()
    return type(x).__name__, repr(x)


def snap(o):
    if isinstance(o, pd.DataFrame):
        return ['df', [repr(c) for c in o.columns], [d.name for d in o.dtypes], type(o.index).__name__, repr(o.index.names),
                [scalar(x) for x in o.index], [[scalar(x) for x in o.iloc[:, i]] for i in range(o.shape[1])]]
    if isinstance(o, pd.Series):
        return ['series', repr(o.name), o.dtype.name, [scalar(x) for x in o.index], [scalar(x) for x in o]]
    if isinstance(o, ft.EntitySet):
        return ['es', o.id, repr(o.time_type), list(o.entity_dict), [featcmp.rel(r) for r in o.relationships],
                [entity(e) for e in o.entities]]
    if isinstance(o, FeatureBase):
        return ['feature', featcmp.fingerprint(o)]
    if isinstance(o, PrimitiveBase):
        return ['primitive', featcmp.prim(o)]
    if isinstance(o, ft.Timedelta):
        return ['td', featcmp.td(o)]
    if isinstance(o, dict):
        return ['dict'] + [[snap(k), snap(v)] for k, v in o.items()]
    if isinstance(o, (list, tuple)):
        return [type(o).__name__] + [snap(x) for x in o]
    if isinstance(o, (set, frozenset)):
        return ['set'] + sorted(repr(snap(x)) for x in o)
    return [type(o).__name__, repr(o)]


def entity(e):
    return [e.id, e.index, e.time_index, sorted((k, list(v)) for k, v in e.secondary_time_index.items()),
            [[v.id, type(v).__name__, v.name, v.description, snap(list(v.interesting_values))] for v in e.variables],
            snap(e.df), None if e.last_time_index is None else snap(e.last_time_index)]


def first_diff(a, b, path=''):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%s: %d parts, then %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, '%s/%d' % (path, i))
            if d:
                return d
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        return featcmp.diff(a, b, path)
    return None if a == b else '%s: %.200r, then %.200r' % (path, a, b)
