"""Deep Feature Synthesis returns all features of its rules, and its result
depends on nothing but its arguments."""
import atexit
import json
import os
import subprocess
import sys

import featuretools as ft
import pandas as pd
from hypothesis import strategies as st

from pbt import build, dfsgen, dfsref, gen
from pbt.common import frames_equal
from pbt.core import HarnessError, Skip, Sub, Violation

ID = 'C10'
RULE = ('exact: on entity sets in which every entity is connected with the target by one path, the set of features is '
        'compared with an independent enumeration from the column types (depth, matching inputs, where conditions on '
        'interesting values, stacking, transform and direct rules, ignored entities and variables, allowed paths). '
        'relations: with any shape of entity set, every filtering argument (return types, drop_contains, drop_exact, '
        'max_features, ignored variables, left-out primitives) selects from the unfiltered result; the order and the form '
        'of primitive lists and repeating the call change nothing. hashing: the same call in processes with different '
        'string hashing. matrix: dfs() equals calculate_feature_matrix of the features it returns. Non-trivial: a feature '
        'that is no plain column.')
ASSUMPTIONS = ['group-by features whose group-by column is a direct feature are left out of the exact comparison',
               'exact: no multi-output primitives, seed features or primitive options']


def has_dir_groupby(k):
    if isinstance(k, tuple):
        if len(k) == 4 and k[0] == 'gtr' and k[3][0] == 'dir':
            return True
        return any(has_dir_groupby(x) for x in k)
    return False


def exact(case, ctx):
    o = case['o']
    if not dfsgen.tree_ok(case['spec'], case['target']):
        raise Skip()
    for k in ('max_features', 'drop_contains', 'drop_exact'):
        o.pop(k, None)
    fs = dfsgen.synth(case)
    with dfsgen.limit(6):
        want = dfsref.Expect(case).run()
    got = {dfsref.key(f): f for f in fs}
    ctx.nt(len(got) > 1 and any(f.base_features for f in fs))
    ctx.label('where', any(k[0] == 'agg' and k[4] for k in got))
    ctx.label('groupby', any(k[0] == 'gtr' for k in got))
    ctx.label('depth 3', any(n.depth >= 3 for n in want.values()))
    ctx.label('agg', any(k[0] == 'agg' for k in got))
    ctx.label('dir', any(k[0] == 'dir' for k in got))
    ctx.label('deep path', any(k[0] == 'agg' and len(k[2]) > 1 for k in got))
    g = set(k for k in got if not has_dir_groupby(k))
    w = set(k for k in want if not has_dir_groupby(k))
    if w - g:
        raise Violation('%d features are missing, e.g. %r' % (len(w - g), min(w - g, key=repr)))
    if g - w:
        raise Violation('%d unexpected features, e.g. %s' % (len(g - w), got[min(g - w, key=repr)].get_name()))


def names(fs):
    return [f.unique_name() for f in fs]


def same_list(a, b, what):
    if names(a) != names(b):
        x, y = set(names(a)), set(names(b))
        raise Violation('%s: %s' % (what, 'other order' if x == y else 'only in one: %r' % sorted(x ^ y)[:5]))


def same_set(a, b, what):
    x, y = set(names(a)), set(names(b))
    if x != y:
        raise Violation('%s: only in one: %r, only in the other: %r' % (what, sorted(x - y)[:5], sorted(y - x)[:5]))


FILTERS = ['rtypes', 'drop_contains', 'drop_exact', 'max_features', 'ignore_variables']


def prims_of(f):
    out = set()
    for x in [f] + f.get_dependencies(deep=True):
        x = x.base_feature if isinstance(x, ft.feature_base.FeatureOutputSlice) else x
        if isinstance(x, (ft.feature_base.IdentityFeature, ft.feature_base.DirectFeature)):
            continue
        kind = 'agg' if isinstance(x, ft.feature_base.AggregationFeature) else \
            'groupby' if isinstance(x, ft.feature_base.GroupByTransformFeature) else 'trans'
        if kind == 'agg' and x.where is not None:
            out.add(('where', type(x.primitive)))
        out.add((kind, x.primitive.name))
    return out


def relations(case, ctx):
    o = case['o']
    es = dfsgen.build_es(case)
    full = dfsgen.synth(case, es)
    ctx.nt(any(f.base_features for f in full))
    # other ways to say the same
    same_list(full, dfsgen.synth(case, es), 'called twice')
    same_list(full, dfsgen.synth(case, dfsgen.build_es(case)), 'equal entity set')
    same_list(full, dfsgen.synth(case, es, reverse=True), 'primitives in another order')
    for form in ('str', 'cls', 'inst'):
        if form != o['form']:
            same_list(full, dfsgen.synth(case, es, form=form), 'primitives given as %s / %s' % (o['form'], form))
    # filters
    base_o = {k: v for k, v in o.items() if k not in FILTERS}
    base = dfsgen.synth(dict(case, o=dict(base_o, rtypes='all')), es)
    want = base
    ign = set((e, v) for e, vs in (o.get('ignore_variables') or {}).items() for v in vs)
    if ign:
        ctx.label('ignore_variables')
        want = [f for f in want if not (dfsref.leaves(f) & ign)]
    rt = dfsgen.rtypes(case)
    if rt is None:
        rt = [ft.variable_types.Numeric, ft.variable_types.Discrete, ft.variable_types.Boolean]
    if rt != 'all':
        want = [f for f in want if any(issubclass(f.variable_type, t) for t in rt)]
    want = [f for f in want if not any(d in f.get_name() for d in o.get('drop_contains') or []) and
            f.get_name() not in (o.get('drop_exact') or [])]
    ctx.label('drops', bool(o.get('drop_contains') or o.get('drop_exact')))
    if o.get('max_features'):
        ctx.label('max_features', len(want) > o['max_features'])
        want = want[:o['max_features']]
    same_list(full, want, 'filtered afterwards')
    k = max(1, len(full) // 2)
    some = dict(o, max_features=k)
    same_list(dfsgen.synth(dict(case, o=some), es), full[:k], 'max_features=%d' % k)
    # leaving primitives out
    for k in ('agg', 'trans', 'groupby'):
        if len(o.get(k) or []) > 0:
            p = o[k][0]
            less = dfsgen.synth(dict(case, o=dict(base_o, rtypes='all', **{k: o[k][1:]})), es)
            same_set(less, [f for f in base if (k, p) not in prims_of(f)], 'without the %s primitive %s' % (k, p))
    if o.get('where') is not None:
        less = dfsgen.synth(dict(case, o=dict(base_o, rtypes='all', where=[])), es)
        same_set(less, [f for f in base if not any(x[0] == 'where' for x in prims_of(f))], 'without where primitives')


SERVERS = {}


def server(seed):
    if seed not in SERVERS:
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        p = subprocess.Popen([sys.executable, '-m', 'pbt.dfsserver'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, env=env, universal_newlines=True)
        if p.stdout.readline() != 'ready\n':
            raise HarnessError('server does not start')
        SERVERS[seed] = p
        atexit.register(p.kill)
    return SERVERS[seed]


def ask(seed, case):
    p = server(seed)
    p.stdin.write(json.dumps(case) + '\n')
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise HarnessError('server ended')
    return json.loads(line)


def hashing(case, ctx):
    got = [ask(s, case) for s in (1, 2, 3)]
    if any(g is None for g in got):
        raise Skip()
    ctx.nt(len(got[0]) > 3)
    for g in got:
        if isinstance(g, str):
            raise Violation(g)
        if g != got[0]:
            i = [x == y for x, y in zip(g, got[0])].index(False) if len(g) == len(got[0]) else -1
            raise Violation('the features depend on string hashing: %r' % (
                (g[i], got[0][i]) if i >= 0 else sorted(set(g) ^ set(got[0]))[:4],))


@st.composite
def matrix_cases(draw):
    case = draw(dfsgen.cases(small=True))
    spec = case['spec']
    ids = list(gen.ent_of(spec, case['target'])['ids'])
    co = draw(st.sampled_from(['none', 'single', 'df']))
    a = {'co': co, 't': draw(st.integers(0, 24)),
         'ids': draw(st.one_of(st.none(), st.lists(st.sampled_from(ids), min_size=1, max_size=3, unique=True))),
         'rows': [[i, draw(st.integers(0, 24))] for i in draw(st.lists(st.sampled_from(ids), min_size=1, max_size=4))],
         'window': draw(st.sampled_from([None, None, '3h', '12h'])), 'approx': draw(st.sampled_from([None, None, '2h', '6h'])),
         'in_index': draw(st.booleans()), 'incl': draw(st.sampled_from([True, True, False])),
         'chunk': draw(st.sampled_from([None, 1, 2])), 'dict': draw(st.booleans())}
    case['m'] = a
    case['o'].update(agg=[n for n in case['o']['agg'] if n not in ('trend', 'avg_time_between')], depth=min(
        2, case['o']['depth']) if case['o']['depth'] > 0 else 2, form='str')
    case['o'].pop('where_limit', None)
    if co == 'none':
        # the time of the call counts
        a['in_index'] = False
        for k in ('agg', 'trans'):
            case['o'][k] = [n for n in case['o'][k] if not n.startswith('time_since')]
    return case


def matrix(case, ctx):
    spec, m = case['spec'], case['m']
    es = dfsgen.build_es(case)
    a = {'training_window': m['window'], 'approximate': m['approx'] if m['co'] == 'df' else None,
         'cutoff_time_in_index': m['in_index'], 'include_cutoff_time': m['incl'], 'chunk_size': m['chunk']}
    if m['co'] == 'single':
        a['cutoff_time'] = build.ts(m['t'])
        a['instance_ids'] = m['ids'] or list(gen.ent_of(spec, case['target'])['ids'])
    elif m['co'] == 'df':
        rows = sorted(set(map(tuple, m['rows'])), key=repr)
        a['cutoff_time'] = pd.DataFrame({'instance_id': [r[0] for r in rows], 'time': [build.ts(r[1]) for r in rows]})
    else:
        a['instance_ids'] = m['ids']
        a['training_window'] = None
    kw = dfsgen.kwargs(case)
    kw['return_variable_types'] = dfsgen.rtypes(case)
    with dfsgen.limit(4):
        only = ft.dfs(entityset=es, target_entity=case['target'], features_only=True, **kw)
    same_list(only, dfsgen.synth(case, es), 'dfs and DeepFeatureSynthesis')
    if not only:
        raise Skip()
    if len(only) > 60:
        raise Skip()
    ctx.nt(any(f.base_features for f in only))
    cp = {k: (v.copy() if isinstance(v, pd.DataFrame) else v) for k, v in a.items()}
    fm, feats = ft.dfs(entityset=es, target_entity=case['target'], **dict(kw, **a))
    same_list(only, feats, 'features_only')
    fm2 = ft.calculate_feature_matrix(feats, dfsgen.build_es(case), **cp)
    frames_equal(fm2, fm, 'dfs matrix')
    if m['dict'] and spec['tt'] == 'dt':
        # the entity set given in parts
        ents, rels = {}, []
        for e in spec['ents']:
            t = build.ent_types(spec, e)
            ents[e['id']] = (build.ent_df(spec, e), e['index']) + (('t', t) if e['times'] is not None else (None, t))
            for l in e['links']:
                rels.append((l['p'], gen.ent_of(spec, l['p'])['index'], e['id'], l['col']))
        if any(e['sec'] for e in spec['ents']) or any(c.get('iv') for e in spec['ents'] for c in e['cols']):
            return
        ctx.label('given in parts')
        fm3, feats3 = ft.dfs(entities=ents, relationships=rels, target_entity=case['target'], **dict(kw, **cp))
        same_list(only, feats3, 'entities and relationships given in parts')
        frames_equal(fm2, fm3, 'dfs matrix, entity set in parts')


CHECKS = [
    Sub('exact', dfsgen.cases(exact=True, infix=False), exact, quick=1000, thorough=12000),
    Sub('relations', dfsgen.cases(infix=False), relations, quick=350, thorough=4000),
    Sub('hashing', dfsgen.cases(), hashing, quick=300, thorough=4000, max_shards=4),
    Sub('matrix', matrix_cases(), matrix, quick=120, thorough=1500),
]
