"""Every feature that Deep Feature Synthesis returns obeys the constraints it
was called with."""
from hypothesis import strategies as st

import featuretools as ft

from pbt import dfsgen, gen, dfsref
from pbt.core import Sub, Violation

ID = 'C09'
RULE = ('Generated entity sets (trees, diamonds, several relationships between two entities) with interesting values, and '
        'generated arguments: primitive lists, max_depth, ignored entities and variables, allowed paths, where primitives '
        'and stacking limit, drop_contains, drop_exact, max_features, return types, seed features, custom primitives with '
        'stacking rules, and options per primitive. Every returned feature is taken apart and each part is checked against '
        'the arguments. paths: few primitives over entities that are connected in several ways, with allowed paths along them. Non-trivial: at least one returned feature that is no plain column.')
ASSUMPTIONS = ['the depth of a feature counts the features below it, seed features and the conditions of where excluded',
               'a variable or entity that the options of one primitive include is no longer ignored globally (documented)']


def unnamed(fs):
    return [f.get_name() for f in fs]


def run(case, ctx):
    o = case['o']
    customs = dfsgen.make_customs(o.get('customs'))
    es = dfsgen.build_es(case)
    seeds = dfsgen.seed_features(case, es)
    stop = set(f.unique_name() for f in seeds)
    fs = dfsgen.synth(case, es, customs)
    ctx.nt(any(f.base_features for f in fs))
    for k in ('po', 'customs', 'ignore_entities', 'ignore_variables', 'allowed_paths', 'max_features', 'drop_contains'):
        ctx.label(k, bool(o.get(k)))
    ctx.label('seeds', bool(seeds))
    ctx.label('many', len(fs) > 20)
    ctx.label('no tree', not dfsgen.tree_ok(case['spec'], case['target']))
    names = [f.unique_name() for f in fs]
    if len(set(names)) < len(names):
        raise Violation('two features of the same name: %r' % sorted(n for n in names if names.count(n) > 1))
    keys = [dfsref.key(f) for f in fs if not any(x.unique_name() in stop for x in [f] + f.get_dependencies(deep=True))]
    if len(set(keys)) < len(keys):
        raise Violation('the same feature twice: %r' % sorted(repr(k) for k in set(keys) if keys.count(k) > 1))
    rts = dfsgen.rtypes(case)
    if rts is None:
        rts = [ft.variable_types.Numeric, ft.variable_types.Discrete, ft.variable_types.Boolean]
    for f in fs:
        w = dfsref.legal(f, case, stop, customs, es)
        if w:
            raise Violation('%s %s' % (f.get_name(), w))
        if rts != 'all' and not any(issubclass(f.variable_type, t) for t in rts):
            raise Violation('%s is a %s' % (f.get_name(), f.variable_type.__name__))
        if any(d in f.get_name() for d in o.get('drop_contains') or []) or f.get_name() in (o.get('drop_exact') or []):
            raise Violation('%s is to be dropped' % f.get_name())
        ctx.label('where', isinstance(f, ft.feature_base.AggregationFeature) and f.where is not None)
        ctx.label('groupby', isinstance(f, ft.feature_base.GroupByTransformFeature))
        ctx.label('depth 3', dfsref.depth(f, stop) >= 3)
    if o.get('max_features') and len(fs) > o['max_features']:
        raise Violation('%d features' % len(fs))
    k = o.get('max_features') or max(1, len(fs) // 2)
    whole = dfsgen.synth(dict(case, o={x: y for x, y in o.items() if x != 'max_features'}), es)
    some = fs if o.get('max_features') else dfsgen.synth(dict(case, o=dict(o, max_features=k)), es)
    if [f.unique_name() for f in some] != [f.unique_name() for f in whole[:k]]:
        raise Violation('max_features=%d gives %r; without it the first %d are %r' % (k, some, k, whole[:k]))
    if o.get('allowed_paths'):
        along(fs, case, stop)
        if dfsgen.tree_ok(case['spec'], case['target']):
            paths(fs, case, stop)
    depths = [f.get_depth() for f in fs]
    if depths != sorted(depths):
        raise Violation('not ordered by depth: %r' % list(zip(unnamed(fs), depths)))


def along(fs, case, stop):
    """Whatever is made on the target itself follows an allowed path"""
    allowed = {tuple(p) for p in case['o']['allowed_paths']}
    for f in fs:
        for x in dfsref.nodes(f, stop):
            if x.entity.id == case['target'] and len(x.relationship_path) and \
                    not isinstance(x, ft.feature_base.DirectFeature) and tuple(x.relationship_path.entities()) not in allowed:
                raise Violation('%s is made along %r, allowed are %r' % (
                    x.get_name(), list(x.relationship_path.entities()), sorted(allowed)))
            if x.entity.id == case['target'] and isinstance(x, ft.feature_base.DirectFeature) and \
                    tuple(x.relationship_path.entities())[:2] not in allowed:
                raise Violation('%s is made along %r, allowed are %r' % (
                    x.get_name(), list(x.relationship_path.entities()), sorted(allowed)))


def paths(fs, case, stop):
    """In a tree, the entities a feature uses are reached along allowed paths"""
    t = case['target']
    ok = {t}
    allowed = [tuple(p) for p in case['o']['allowed_paths']]
    for p in allowed:
        if p[0] == t:
            ok.add(p[-1])
    for f in fs:
        for x in dfsref.nodes(f, stop):
            if x.entity.id not in ok:
                raise Violation('%s uses %s, which no allowed path leads to' % (f.get_name(), x.entity.id))


@st.composite
def path_cases(draw):
    """few primitives, many ways between the entities, some of them allowed"""
    c = draw(dfsgen.cases(where=False))
    spec = draw(gen.es_specs(min_ents=3, max_ents=4, max_rows=2, secondary=False, categories=False))
    target = draw(st.sampled_from(['e0', 'e0'] + [e['id'] for e in spec['ents']]))
    o = {'agg': draw(st.sampled_from([['sum'], ['count'], ['sum', 'count']])), 'trans': [], 'groupby': [], 'where': None,
         'depth': draw(st.sampled_from([1, 2, 3, 3, -1])), 'form': c['o']['form'], 'rtypes': 'all',
         'allowed_paths': draw(dfsgen.walks(spec, target))}
    return dict(c, spec=spec, target=target, o=o)


CHECKS = [
    Sub('paths', path_cases(), run, quick=250, thorough=3000),
    Sub('rules', dfsgen.cases(), run, quick=1100, thorough=12000),
    Sub('options', dfsgen.cases(options=True), run, quick=700, thorough=8000),
    Sub('stacking', dfsgen.cases(customs=True), run, quick=300, thorough=4000),
    Sub('seeds', dfsgen.cases(seeds=True, options=False), run, quick=400, thorough=4000),
]
__all__ = ['st']
