"""A structural fingerprint of a feature: everything its meaning consists of."""
from featuretools.feature_base import (
    AggregationFeature,
    DirectFeature,
    FeatureOutputSlice,
    GroupByTransformFeature,
    IdentityFeature,
    TransformFeature
)


def rel(r):
    return (r.parent_entity.id, r.parent_variable.id, r.child_entity.id, r.child_variable.id)


def td(t):
    if t is None:
        return None
    return sorted((str(k), float(v)) for k, v in t.times.items()), str(t.delta_obj)


def prim(p):
    return (type(p).__name__, type(p).__module__, sorted((k, repr(v)) for k, v in p.get_arguments()))


def fingerprint(f, names=True):
    d = {'class': type(f).__name__, 'entity': f.entity_id, 'n': f.number_output_features}
    if names:
        d['name'] = f.get_name()
        d['names'] = list(f.get_feature_names())
    if isinstance(f, FeatureOutputSlice):
        d['i'] = f.n
        d['base'] = [fingerprint(f.base_feature, names)]
        return d
    d['base'] = [fingerprint(b, names) for b in f.base_features]
    d['type'] = f.variable_type.__name__
    d['default'] = repr(f.default_value)
    if isinstance(f, IdentityFeature):
        d['variable'] = f.variable.id
        return d
    d['path'] = [(fw, rel(r)) for fw, r in f.relationship_path]
    if isinstance(f, DirectFeature):
        return d
    d['primitive'] = prim(f.primitive)
    if isinstance(f, AggregationFeature):
        d['where'] = None if f.where is None else fingerprint(f.where, names)
        d['prev'] = td(f.use_previous)
        d['parent'] = f.parent_entity.id
    elif isinstance(f, GroupByTransformFeature):
        d['groupby'] = fingerprint(f.groupby, names)
    else:
        assert isinstance(f, TransformFeature)
    return d


def diff(a, b, path=''):
    """First difference between two fingerprints, or None"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return '%s.%s only in one' % (path, k)
            r = diff(a[k], b[k], path + '.' + k)
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%s: %r != %r' % (path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, '%s[%d]' % (path, i))
            if r:
                return r
        return None
    return None if a == b else '%s: %r != %r' % (path, a, b)
