"""What Deep Feature Synthesis may and must produce, stated independently of
its implementation.

`legal`  : the conditions every returned feature meets, whatever the shape of
           the entity set.
`expect` : the exact set of features when every entity is connected with the
           target by one path (a tree).
"""
import itertools

from featuretools import variable_types as vt
from featuretools.feature_base import (
    AggregationFeature,
    DirectFeature,
    FeatureOutputSlice,
    GroupByTransformFeature,
    IdentityFeature,
    TransformFeature
)
from featuretools.primitives import TransformPrimitive
from featuretools.primitives.base import PrimitiveBase

from . import build, dfsgen
from .gen import ent_of


def rel(r):
    return (r.child_entity.id, r.child_variable.id, r.parent_entity.id, r.parent_variable.id)


def pkey(p):
    return (p.name, tuple(sorted((k, repr(v)) for k, v in p.get_arguments())))


def key(f):
    """A feature as nested tuples (arguments of commutative primitives sorted)"""
    if isinstance(f, FeatureOutputSlice):
        return ('sl', key(f.base_feature), f.n)
    if isinstance(f, IdentityFeature):
        return ('id', f.entity.id, f.variable.id)
    if isinstance(f, DirectFeature):
        return ('dir', rel(f.relationship_path[0][1]), key(f.base_features[0]))
    bases = f.base_features[:-1] if isinstance(f, GroupByTransformFeature) else f.base_features
    bases = [key(b) for b in bases]
    if f.primitive.commutative:
        bases = sorted(bases, key=repr)
    bases = tuple(bases)
    if isinstance(f, AggregationFeature):
        return ('agg', pkey(f.primitive), tuple(rel(r) for _, r in f.relationship_path), bases,
                None if f.where is None else key(f.where))
    if isinstance(f, GroupByTransformFeature):
        return ('gtr', pkey(f.primitive), bases, key(f.groupby))
    return ('tr', pkey(f.primitive), bases)


def kids(f):
    """Direct constituents, the condition of a where excluded"""
    if isinstance(f, FeatureOutputSlice):
        return [f.base_feature]
    out = list(f.base_features)
    if isinstance(f, GroupByTransformFeature) and not any(b is f.groupby for b in out):
        out.append(f.groupby)
    return out


def depth(f, stop):
    """Number of features below f on the longest way down (columns and seed
    features have depth 0; picking one output of a feature is no step)."""
    if f.unique_name() in stop or isinstance(f, IdentityFeature):
        return 0
    if isinstance(f, FeatureOutputSlice):
        return depth(f.base_feature, stop)
    return 1 + max(depth(k, stop) for k in kids(f))


def nodes(f, stop, top=True):
    """f and everything below it, not looking into seed features.  Yields
    (feature, is the condition of a where)"""
    if f.unique_name() in stop:
        return
    yield f
    for k in kids(f):
        for x in nodes(k, stop, False):
            yield x


def leaves(f):
    """All columns that f depends on, conditions included"""
    out = set()
    if isinstance(f, IdentityFeature):
        return {(f.entity.id, f.variable.id)}
    for k in kids(f):
        out |= leaves(k)
    if isinstance(f, AggregationFeature) and f.where is not None:
        out |= leaves(f.where)
    return out


def entities(f):
    out = {f.entity.id}
    for k in kids(f):
        out |= entities(k)
    return out


def unslice(f):
    return f.base_feature if isinstance(f, FeatureOutputSlice) else f


def legal(f, case, stop, customs, es):
    """None, or what is wrong with the feature"""
    o = case['o']
    target = case['target']
    names = {k: set(o.get(k) or []) for k in ('agg', 'trans', 'groupby')}
    where = set(dfsgen.where_primitive_names(case))
    if f.entity.id != target:
        return 'is a feature of %s' % f.entity.id
    if o['depth'] != -1 and depth(f, stop) > o['depth']:
        return 'has depth %d' % depth(f, stop)
    if isinstance(f, IdentityFeature) and f.variable.id == ent_of(case['spec'], target)['index'] and \
            f.unique_name() not in stop:
        return 'is the index'
    lifted_e, lifted_v = set(), set()
    for n, opts in o.get('po') or []:
        for op in (opts if isinstance(opts, list) else [opts]):
            lifted_e |= set(op.get('include_entities', []))
            for e, vs in op.get('include_variables', {}).items():
                lifted_e.add(e)
                lifted_v |= {(e, v) for v in vs}
    n_where = 0
    for x in nodes(f, stop):
        if x.entity.id in set(o.get('ignore_entities') or []) - lifted_e:
            return 'uses the ignored entity %s' % x.entity.id
        if isinstance(x, IdentityFeature):
            v = (x.entity.id, x.variable.id)
            if x.variable.id in (o.get('ignore_variables') or {}).get(x.entity.id, []) and v not in lifted_v:
                return 'uses the ignored variable %s.%s' % v
            continue
        if isinstance(x, (DirectFeature, FeatureOutputSlice)):
            continue
        p = x.primitive
        bases = x.base_features[:-1] if isinstance(x, GroupByTransformFeature) else x.base_features
        kind = 'agg' if isinstance(x, AggregationFeature) else \
            'groupby' if isinstance(x, GroupByTransformFeature) else 'trans'
        if p.name not in names[kind] or type(p) is not dfsgen.cls_of(p.name, customs):
            return 'uses the primitive %s, which was not given as %s primitive' % (p.name, kind)
        r = type_error(p, bases)
        if r:
            return r
        if len(set(b.unique_name() for b in bases)) < len(bases):
            return '%s gets the same input twice' % p.name
        r = options_error(x, kind, bases, case)
        if r:
            return r
        if kind == 'agg':
            r = agg_error(x, case, es, where, stop)
            if r:
                return r
        else:
            for b in bases:
                u = unslice(b)
                if u.unique_name() not in stop and isinstance(u.primitive, TransformPrimitive):
                    return 'applies %s to the transform feature %s' % (p.name, b.get_name())
                if isinstance(u, DirectFeature) and isinstance(unslice(u.base_features[0]).primitive,
                                                               TransformPrimitive) and \
                        u.base_features[0].unique_name() not in stop and u.unique_name() not in stop:
                    return 'applies %s to a direct feature of the transform feature %s' % (p.name, b.get_name())
    for x in nodes(f, stop):
        if isinstance(x, AggregationFeature) and x.where is not None:
            below = sum(1 for b in x.base_features for y in nodes(b, stop)
                        if isinstance(y, AggregationFeature) and y.where is not None)
            if below >= o.get('where_limit', 1) and below > n_where:
                return 'stacks %d conditions' % (below + 1)
    return None


def type_error(p, bases):
    its = p.input_types
    its = its[0] if isinstance(its[0], list) else its
    if len(its) != len(bases):
        return '%s gets %d inputs' % (p.name, len(bases))
    for t, b in zip(its, bases):
        if not issubclass(b.variable_type, t):
            if p.commutative and all(any(issubclass(c.variable_type, s) for c in bases) for s in its):
                continue
            return 'input %s of %s is no %s' % (b.get_name(), p.name, t.__name__)
    return None


def agg_error(x, case, es, where, stop):
    p = x.primitive
    for b in x.base_features:
        u = unslice(b)
        q = u.primitive
        if p.stack_on_self is False and isinstance(q, type(p)):
            return 'stacks %s on itself' % p.name
        if p.stack_on_exclude and isinstance(q, tuple(p.stack_on_exclude)):
            return '%s is stacked on the excluded %s' % (p.name, q.name)
        if q.base_of_exclude and isinstance(p, tuple(q.base_of_exclude)):
            return '%s is the base of the excluded %s' % (q.name, p.name)
        if p.stack_on is not None and not isinstance(q, tuple(p.stack_on)) and q.base_of is not None and \
                type(p) not in q.base_of and not (p.stack_on_self is True and isinstance(q, type(p))):
            return '%s is stacked on %s, against both of their rules' % (p.name, q.name)
        if isinstance(u, DirectFeature) and u.parent_entity.id == x.parent_entity.id and u.unique_name() not in stop:
            return '%s aggregates values of its own entity' % x.get_name()
    if x.where is not None:
        if not any(issubclass(type(p), dfsgen.cls_of(n)) for n in where):
            return 'has a condition, but %s is no where primitive' % p.name
        w = x.where
        if type(w) is not TransformFeature or w.primitive.name != 'equal_scalar' or len(w.base_features) != 1 or \
                not (isinstance(w.base_features[0], IdentityFeature) or w.base_features[0].unique_name() in stop or
                     isinstance(w.base_features[0], DirectFeature)):
            return 'has the condition %s' % w.get_name()
        c = w.base_features[0]
        while isinstance(c, DirectFeature):
            c = c.base_features[0]
        iv = [k.get('iv') for k in ent_of(case['spec'], c.entity.id)['cols'] if k['n'] == c.variable.id]
        if not iv or iv[0] is None or w.primitive.value not in iv[0]:
            return 'has a condition on %r, which is no interesting value' % (w.primitive.value,)
        if any(b.unique_name() == w.base_features[0].unique_name() for b in x.base_features):
            return 'has a condition on the column it aggregates'
    return None


def options_error(x, kind, bases, case):
    opts = [op for n, op in case['o'].get('po') or [] if n == x.primitive.name]
    if not opts:
        return None
    opts = opts[0]
    if isinstance(opts, list):
        if x.primitive.commutative:
            orders = list(itertools.permutations(bases))
        else:
            orders = [bases]
        errs = []
        for order in orders:
            e = None
            for b, op in zip(order, opts):
                e = e or option_error(b, op, case, '')
            errs.append(e)
        if all(errs):
            return errs[0]
        return None
    for b in bases:
        e = option_error(b, opts, case, '')
        if e:
            return e
    if kind == 'groupby':
        return option_error(x.groupby, opts, case, 'groupby_')
    return None


def option_error(b, op, case, g):
    inc_v, ign_v = op.get('include_%svariables' % g, {}), op.get('ignore_%svariables' % g, {})
    inc_e, ign_e = op.get('include_%sentities' % g), op.get('ignore_%sentities' % g, [])
    for e, v in leaves(b):
        if e in inc_v:
            if v not in inc_v[e]:
                return 'uses %s.%s, which its option does not include' % (e, v)
            continue
        if v in ign_v.get(e, []):
            return 'uses %s.%s, which its option ignores' % (e, v)
        if inc_e is not None:
            if e not in inc_e:
                return 'uses %s, which its option does not include' % e
        elif e in ign_e:
            return 'uses %s, which its option ignores' % e
    return None


# ------------------------------------------------------------ exact, on trees
class N(object):
    def __init__(self, k, e, typ, depth, prim=None, base=None, where=False, wheres=0, path=None):
        self.k, self.e, self.typ, self.depth, self.prim = k, e, typ, depth, prim
        self.base, self.where, self.wheres, self.path = base, where, wheres, path


def out_type(prim, bases):
    t = prim.return_type
    if t is not None:
        return t
    t = bases[0].typ
    t = {vt.DatetimeTimeIndex: vt.Datetime, vt.NumericTimeIndex: vt.Numeric, vt.Index: vt.Categorical,
         vt.Id: vt.Categorical}.get(t, t)
    return t


class Expect(object):
    def __init__(self, case):
        self.case, self.spec, self.o = case, case['spec'], case['o']
        o = self.o
        self.prims = {k: [dfsgen.cls_of(n)() for n in (o.get(k) or [])] for k in ('agg', 'trans', 'groupby')}
        self.where = [dfsgen.cls_of(n) for n in dfsgen.where_primitive_names(case)]
        self.ign_e = set(o.get('ignore_entities') or [])
        self.ign_v = o.get('ignore_variables') or {}
        self.allowed = set(tuple(p) for p in o['allowed_paths']) if o.get('allowed_paths') else None
        self.limit = o.get('where_limit', 1)
        self.feats, self.clauses = {}, {}

    def types(self, eid):
        e = ent_of(self.spec, eid)
        t = build.ent_types(self.spec, e)
        t[e['index']] = vt.Index
        return t

    def par(self, l):
        return (l['p'], ent_of(self.spec, l['p'])['index'])

    def rels_back(self, eid):
        return [(e['id'], l['col']) + self.par(l) for e in self.spec['ents'] for l in e['links'] if l['p'] == eid]

    def rels_fwd(self, eid):
        return [(eid, l['col']) + self.par(l) for l in ent_of(self.spec, eid)['links']]

    def deep_back(self, eid):
        for r in self.rels_back(eid):
            yield r[0], (r,)
            for d, p in self.deep_back(r[0]):
                yield d, (r,) + p

    def run(self):
        d = self.o['depth']
        d = None if d == -1 else d
        if len(self.spec['ents']) == 1:
            d = 1
        t = self.case['target']
        self.visit(t, (t,), d)
        out = {}
        r = dfsgen.rtypes(self.case)
        if r is None:
            r = [vt.Numeric, vt.Discrete, vt.Boolean]
        for n in self.feats[t].values():
            if n.k == ('id', t, ent_of(self.spec, t)['index']):
                continue
            if r == 'all' or any(issubclass(n.typ, x) for x in r):
                out[n.k] = n
        return out

    def ok(self, path):
        return self.allowed is None or path in self.allowed

    def add(self, n):
        self.feats[n.e].setdefault(n.k, n)

    def get(self, e, d, keep=None):
        if d is not None and d < 0:
            return []
        return [n for n in self.feats.get(e, {}).values()
                if (d is None or n.depth <= d) and (keep is None or keep(n))]

    def combos(self, prim, feats):
        its = prim.input_types
        its = its[0] if isinstance(its[0], list) else its
        lists = [[n for n in feats if issubclass(n.typ, t)] for t in its]
        seen = set()
        for c in itertools.product(*lists):
            ks = [n.k for n in c]
            if len(set(ks)) < len(ks):
                continue
            k = tuple(sorted(ks, key=repr)) if prim.commutative else tuple(ks)
            if k in seen:
                continue
            seen.add(k)
            yield k, c

    def visit(self, e, path, d):
        if d is not None and d < 0:
            return
        self.feats[e] = {}
        for v, t in self.types(e).items():
            if v not in self.ign_v.get(e, []):
                self.add(N(('id', e, v), e, t, 0, prim=PrimitiveBase()))
        less = None if d is None else d - 1
        for r in self.rels_back(e):
            if r[0] not in self.feats and r[0] not in self.ign_e and self.ok(path + (r[0],)):
                self.visit(r[0], path + (r[0],), less)
        for c, p in self.deep_back(e):
            if c not in self.ign_e and self.ok(path + tuple(r[0] for r in p)):
                self.aggs(e, c, p, less)
        self.trans(e, less, False)
        for r in self.rels_fwd(e):
            if r[2] not in self.feats and r[2] not in self.ign_e and self.ok(path + (r[2],)):
                self.visit(r[2], path + (r[2],), less)
        for r in self.rels_fwd(e):
            if r[2] in self.ign_e or not self.ok(path + (r[2],)):
                continue
            for n in self.get(r[2], d):
                if self.on_path(n, (r,)):
                    continue
                self.add(N(('dir', r, n.k), e, n.typ, n.depth + 1, prim=PrimitiveBase(), base=n, wheres=n.wheres,
                           path=r))
        self.trans(e, less, True)
        iv = {c['n']: c.get('iv') for c in ent_of(self.spec, e)['cols']}
        out = []
        for n in self.feats[e].values():
            c = n
            while c.k[0] == 'dir':
                c = c.base
            if c.k[0] != 'id':
                continue
            civ = [k.get('iv') for k in ent_of(self.spec, c.k[1])['cols'] if k['n'] == c.k[2]]
            for val in (civ[0] or []) if civ else []:
                out.append((n.k, ('tr', ('equal_scalar', (('value', repr(val)),)), (n.k,)), n.depth + 1))
        self.clauses[e] = out

    def on_path(self, n, p):
        if n.k[0] != 'id':
            return False
        return any((r[0], r[1]) == n.k[1:] or (r[2], r[3]) == n.k[1:] for r in p)

    def aggs(self, e, c, p, d):
        for prim in self.prims['agg']:
            feats = self.get(c, d, lambda n: not (n.k[0] == 'dir' and n.base.e == e) and not self.on_path(n, p))
            for ks, c_in in self.combos(prim, feats):
                if not self.stack_ok(prim, c_in):
                    continue
                nw = sum(n.wheres for n in c_in)
                dep = 1 + max(n.depth for n in c_in)
                t = out_type(prim, c_in)
                self.add(N(('agg', pkey(prim), p, ks, None), e, t, dep, prim=prim, wheres=nw))
                if nw >= self.limit or not any(issubclass(type(prim), w) for w in self.where):
                    continue
                for base, w, wd in self.clauses.get(c, []):
                    if base in [n.k for n in c_in]:
                        continue
                    self.add(N(('agg', pkey(prim), p, ks, w), e, t, max(dep, wd + 1), prim=prim, wheres=nw + 1,
                               where=True))

    def stack_ok(self, prim, c_in):
        for n in c_in:
            q = n.prim
            if prim.stack_on_self is False and isinstance(q, type(prim)):
                return False
            if prim.stack_on_exclude is not None and isinstance(q, tuple(prim.stack_on_exclude)):
                return False
        return True

    def trans(self, e, d, direct):
        new = []
        for kind in ('trans', 'groupby'):
            for prim in self.prims[kind]:
                feats = self.get(e, d)
                for ks, c_in in self.combos(prim, feats):
                    if any(self.is_tr(n) for n in c_in):
                        continue
                    alld = all(n.k[0] == 'dir' for n in c_in)
                    same = alld and len(set(n.path for n in c_in)) == 1
                    anyd = any(n.k[0] == 'dir' for n in c_in)
                    if direct and kind == 'trans' and (same or not anyd):
                        continue
                    dep = 1 + max(n.depth for n in c_in)
                    t = out_type(prim, c_in)
                    if kind == 'trans':
                        new.append(N(('tr', pkey(prim), ks), e, t, dep, prim=prim, wheres=sum(n.wheres for n in c_in)))
                        continue
                    for g in feats:
                        if not issubclass(g.typ, vt.Id):
                            continue
                        if not anyd and g.k[0] == 'dir':
                            continue
                        new.append(N(('gtr', pkey(prim), ks, g.k), e, t, max(dep, 1 + g.depth), prim=prim,
                                     wheres=sum(n.wheres for n in c_in)))
        for n in new:
            self.add(n)

    def is_tr(self, n):
        return isinstance(n.prim, TransformPrimitive) or \
            (n.k[0] == 'dir' and isinstance(n.base.prim, TransformPrimitive))
