"""Generated calls of Deep Feature Synthesis: plain-data cases, and how they
are passed to the library."""
import contextlib
import signal

from hypothesis import strategies as st

import featuretools as ft
from featuretools import primitives as P
from featuretools import variable_types as vt
from featuretools.primitives import AggregationPrimitive, TransformPrimitive
from featuretools.synthesis.deep_feature_synthesis import DeepFeatureSynthesis

from . import build, gen
from .core import Skip
from .gen import ent_of

AGGS = ['count', 'sum', 'mean', 'min', 'max', 'std', 'median', 'num_unique', 'mode', 'first', 'last',
        'percent_true', 'num_true', 'any', 'all', 'skew', 'trend', 'time_since_last', 'entropy',
        'avg_time_between', 'n_most_common', 'sum_prod']
TRANS = ['absolute', 'negate', 'add_numeric', 'subtract_numeric', 'multiply_numeric', 'greater_than', 'equal',
         'not', 'and', 'or', 'day', 'month', 'hour', 'weekday', 'is_null', 'percentile', 'diff', 'cum_sum',
         'cum_count', 'time_since', 'time_since_previous', 'plus_minus', 'add_numeric_scalar',
         'greater_than_scalar']
INFIX = {'add_numeric', 'subtract_numeric', 'multiply_numeric', 'greater_than', 'equal', 'add_numeric_scalar',
         'greater_than_scalar'}  # names like 'a.x + y' are ambiguous
FUNCTIONAL = [n for n in TRANS if n not in INFIX] + ['tr_pair', 'tr_comm', 'tr_same']
TRANS += ['tr_pair', 'tr_comm']
TWO = {'tr_pair', 'tr_comm', 'tr_same', 'add_numeric', 'subtract_numeric', 'multiply_numeric', 'greater_than', 'equal', 'and', 'or', 'trend',
       'sum_prod', 'is_null'}
MULTI = {'n_most_common', 'plus_minus', 'minmax'}
GROUPBY = ['cum_sum', 'cum_count', 'cum_max', 'cum_mean', 'diff', 'absolute', 'percentile', 'negate']
WHERES = ['count', 'sum', 'mean', 'max', 'num_unique', 'percent_true', 'mode', 'any']
RTYPES = ['Numeric', 'Discrete', 'Boolean', 'Datetime', 'Categorical', 'Id', 'Ordinal', 'Index']


def chance(draw, n):
    """True in about one of n cases (not the value that shrinking prefers)"""
    return draw(st.sampled_from([False] * (n // 2) + [True] + [False] * (n - 1 - n // 2)))


def cls_of(name, customs=None):
    if customs and name in customs:
        return customs[name]
    if name in build.CUSTOM:
        return build.CUSTOM[name]
    allp = dict(P.get_aggregation_primitives())
    allp.update(P.get_transform_primitives())
    return allp[name]


def make_customs(defs):
    """aggregation primitive classes with stacking rules"""
    out = {}
    for d in defs or []:
        out[d['name']] = type(str(d['name']), (AggregationPrimitive,), {
            'name': d['name'], 'input_types': [vt.Numeric], 'return_type': vt.Numeric,
            'stack_on_self': d['self'],
            'get_function': lambda self: (lambda x: x.max() - x.min())})
    for d in defs or []:
        for a in ('stack_on', 'stack_on_exclude', 'base_of', 'base_of_exclude'):
            if d.get(a) is not None:
                setattr(out[d['name']], a, [cls_of(n, out) for n in d[a]])
    return out


@st.composite
def pool(draw, names, lo, hi, multi=True, two=1):
    k = draw(st.integers(lo, hi))
    got, n2 = [], 0
    cand = [n for n in names if multi or n not in MULTI]
    for n in draw(st.lists(st.sampled_from(cand), min_size=k, max_size=k, unique=True)):
        if n in TWO:
            n2 += 1
            if n2 > two:
                continue
        got.append(n)
    return got


def variables(spec, eid):
    e = ent_of(spec, eid)
    return [c['n'] for c in e['cols']] + [l['col'] for l in e['links']] + [e['index']] + \
        (['t'] if e['times'] is not None else []) + ([e['sec']['n']] if e['sec'] else [])


@st.composite
def var_dict(draw, spec):
    ids = [e['id'] for e in spec['ents']]
    out = {}
    for eid in draw(st.lists(st.sampled_from(ids), min_size=1, max_size=2, unique=True)):
        out[eid] = draw(st.lists(st.sampled_from(variables(spec, eid)), min_size=1, max_size=3, unique=True))
    return out


@st.composite
def one_option(draw, spec, groupby=False):
    ids = [e['id'] for e in spec['ents']]
    o = {}
    for k in draw(st.lists(st.sampled_from(['ignore_entities', 'include_entities', 'ignore_variables',
                                            'include_variables', 'ignore_variables', 'include_variables'] +
                                           (['ignore_groupby_entities', 'include_groupby_entities',
                                             'ignore_groupby_variables', 'include_groupby_variables'] * 2
                                            if groupby else [])),
                           min_size=1, max_size=2, unique=True)):
        if k.endswith('entities'):
            o[k] = draw(st.lists(st.sampled_from(ids), min_size=1, max_size=2, unique=True))
        else:
            o[k] = draw(var_dict(spec))
    return o


def tree_ok(spec, target):
    """Every entity connected with the target by at most one path."""
    edges = [(e['id'], l['p']) for e in spec['ents'] for l in e['links']]
    seen, stack, used = {target}, [target], set()
    while stack:
        cur = stack.pop()
        for i, (a, b) in enumerate(edges):
            if i in used or cur not in (a, b):
                continue
            used.add(i)
            o = b if cur == a else a
            if o in seen:
                return False
            seen.add(o)
            stack.append(o)
    return True


@st.composite
def walks(draw, spec, target):
    """paths along relationships, with their beginnings"""
    out = []
    for _ in range(draw(st.integers(1, 2))):
        p = [target]
        for _ in range(draw(st.integers(1, 3))):
            near = sorted({l['p'] for l in ent_of(spec, p[-1])['links']} |
                          {e['id'] for e in spec['ents'] for l in e['links'] if l['p'] == p[-1]})
            if not near:
                break
            p = p + [draw(st.sampled_from(near))]
            if p not in out:
                out.append(p)
    return out or [[target]]


@st.composite
def cases(draw, exact=False, options=False, customs=False, seeds=False, small=False, where=True, infix=True):
    spec = draw(gen.es_specs(min_ents=draw(st.sampled_from([1, 2, 2, 3, 3, 3])) if not small else 2,
                             max_ents=4 if not small else 3, max_rows=3, secondary=draw(st.booleans()),
                             multi_links=not exact))
    if chance(draw, 4):
        for e in spec['ents']:
            for c in e['cols']:
                if c['n'] == 'y':
                    c['n'] = 'X'
    target = draw(st.sampled_from([e['id'] for e in spec['ents']]))
    for e in spec['ents']:
        for c in e['cols']:
            if c['t'] in ('cat', 'bool', 'int') and chance(draw, 2):
                c['iv'] = {'cat': ['a', 'b'], 'bool': [True], 'int': [1, 3]}[c['t']][:draw(st.integers(1, 2))]
    where_on = where and draw(st.booleans())
    o = {'agg': draw(pool(WHERES + ['count', 'sum'] if where_on else AGGS, 0 if not customs else 1, 3,
                          multi=not exact)),
         'trans': draw(pool(TRANS if infix else FUNCTIONAL, 0, 3, multi=not exact)),
         'groupby': draw(pool(GROUPBY, 0, 1 if exact else 2)) if draw(st.booleans()) else [],
         'where': draw(pool(WHERES, 0, 2)) if where_on else None,
         'depth': draw(st.sampled_from([1, 2, 3, 2, 3, 2, 3, -1]))}
    if where_on and o['agg'] and not set(o['agg']) & set(o['where']):
        o['where'] = o['where'] + [o['agg'][0]]
    if set(o['agg']) & TWO:
        o['trans'] = [n for n in o['trans'] if n not in TWO]
    if o['depth'] in (3, -1) and (len(o['agg']) + len(o['trans']) + len(o['groupby']) > 3 or
                                  set(o['agg'] + o['trans']) & TWO):
        o['depth'] = 2
    if o['depth'] == -1 and len(spec['ents']) > 3:
        o['depth'] = 3
    o['form'] = draw(st.sampled_from(['str', 'str', 'cls', 'inst']))
    ids = [e['id'] for e in spec['ents']]
    if chance(draw, 4) and len(ids) > 1:
        o['ignore_entities'] = draw(st.lists(st.sampled_from([i for i in ids if i != target]), min_size=1, max_size=2,
                                             unique=True))
    if chance(draw, 4):
        o['ignore_variables'] = draw(var_dict(spec))
    if chance(draw, 4):
        o['rtypes'] = draw(st.one_of(st.just('all'), st.lists(st.sampled_from(RTYPES), min_size=1, max_size=2,
                                                             unique=True)))
    elif draw(st.booleans()):
        o['rtypes'] = 'all'
    if chance(draw, 6):
        o['drop_contains'] = draw(st.lists(st.sampled_from(['x', 'SUM', '(', 'e1', 'WHERE', 'COUNT', 'X', 'MEAN(e']),
                                           min_size=1, max_size=2, unique=True))
    if chance(draw, 6):
        e = ent_of(spec, target)
        o['drop_exact'] = draw(st.lists(st.sampled_from([c['n'] for c in e['cols']] + ['COUNT(e1)', 'COUNT(e2)',
                                                                                      'x', 'SUM(e1.x)']),
                                        min_size=1, max_size=2, unique=True))
    if chance(draw, 8):
        o['max_features'] = draw(st.integers(1, 6))
    if chance(draw, 7) and len(ids) > 1:
        if draw(st.booleans()):
            o['allowed_paths'] = draw(st.lists(st.lists(st.sampled_from(ids), min_size=1, max_size=2).map(
                lambda p: [target] + p), min_size=1, max_size=4))
        else:
            o['allowed_paths'] = draw(walks(spec, target))
    if chance(draw, 6):
        o['where_limit'] = draw(st.sampled_from([0, 2]))
    if customs:
        names = ['ca', 'cb']
        allnames = names + ['sum', 'mean', 'count', 'max']
        lists = st.one_of(st.none(), st.none(), st.lists(st.sampled_from(allnames), max_size=2, unique=True))
        o['customs'] = [{'name': n, 'self': draw(st.booleans()), 'stack_on': draw(lists),
                         'stack_on_exclude': draw(lists), 'base_of': draw(lists), 'base_of_exclude': draw(lists)}
                        for n in names]
        o['agg'] = names + draw(st.lists(st.sampled_from(['sum', 'mean', 'count', 'max']), max_size=1))
        o['trans'] = [n for n in o['trans'][:1] if n not in TWO]
        if o['depth'] == -1:
            o['depth'] = 2
    if options:
        po = []
        for n in draw(st.lists(st.sampled_from(sorted(set(o['agg'] + o['trans'] + o['groupby'])) or ['sum']),
                               min_size=1, max_size=2, unique=True)):
            its = cls_of(n).input_types
            its = its[0] if isinstance(its[0], list) else its
            g = n in o['groupby']
            if len(its) > 1 and draw(st.booleans()):
                po.append([n, [draw(one_option(spec, g)) for _ in its]])
            else:
                po.append([n, draw(one_option(spec, g))])
        o['po'] = po
        o['po_form'] = draw(st.sampled_from(['str', 'cls', 'inst']))
    case = {'spec': spec, 'target': target, 'o': o}
    if seeds:
        fs = []
        for _ in range(draw(st.integers(1, 2))):
            e = draw(st.sampled_from(ids))
            g = gen.Gen(draw, spec, windows=True, full=False)
            f = g.multi_feature(e, 2) if chance(draw, 4) else g.feature(e, 'num', 2, top=True)
            if f is not None and f not in fs:
                fs.append(f)
        case['seeds'] = fs
    return case


def build_es(case):
    es = build.build_es(case['spec'])
    for e in case['spec']['ents']:
        for c in e['cols']:
            if c.get('iv') is not None:
                es[e['id']][c['n']].interesting_values = list(c['iv'])
    return es


def prims(names, form, customs, inst=None):
    out = []
    for n in names:
        c = cls_of(n, customs)
        if form == 'str' and n not in build.CUSTOM and n not in customs:
            out.append(n)
        elif form == 'inst':
            out.append((inst or {}).setdefault(n, c()))
        else:
            out.append(c)
    return out


def kwargs(case, customs=None, reverse=False, form=None):
    o = case['o']
    customs = customs if customs is not None else make_customs(o.get('customs'))
    form = form or o['form']
    inst = {}
    kw = {'max_depth': o['depth']}
    for k, a in (('agg', 'agg_primitives'), ('trans', 'trans_primitives'), ('groupby', 'groupby_trans_primitives'),
                 ('where', 'where_primitives')):
        if o.get(k) is not None:
            names = list(reversed(o[k])) if reverse else list(o[k])
            kw[a] = prims(names, form, customs, inst)
    for k, a in (('ignore_entities', 'ignore_entities'), ('drop_contains', 'drop_contains'),
                 ('drop_exact', 'drop_exact'), ('max_features', 'max_features')):
        if o.get(k) is not None:
            kw[a] = list(o[k]) if isinstance(o[k], list) else o[k]
    if o.get('ignore_variables') is not None:
        kw['ignore_variables'] = {k: list(v) for k, v in o['ignore_variables'].items()}
    if o.get('allowed_paths') is not None:
        kw['allowed_paths'] = [list(p) for p in o['allowed_paths']]
    if o.get('where_limit') is not None:
        kw['where_stacking_limit'] = o['where_limit']
    if o.get('po'):
        d = {}
        for n, opt in o['po']:
            opt = [plain(x) for x in opt] if isinstance(opt, list) else plain(opt)
            if o['po_form'] == 'inst' and form == 'inst' and n in inst:
                d[inst[n]] = opt
            elif o['po_form'] != 'str' or n in build.CUSTOM:
                d[cls_of(n)] = opt
            else:
                d[n] = opt
        kw['primitive_options'] = d
    return kw


def plain(o):
    return {k: (list(v) if isinstance(v, list) else {a: list(b) for a, b in v.items()}) for k, v in o.items()}


def rtypes(case):
    r = case['o'].get('rtypes')
    if r is None or r == 'all':
        return r
    return [getattr(vt, n) for n in r]


def synth(case, es=None, customs=None, **over):
    """The features, straight from the synthesis class"""
    es = es if es is not None else build_es(case)
    form, reverse = over.pop('form', None), over.pop('reverse', False)
    kw = kwargs(case, customs, reverse=reverse, form=form)
    seeds = seed_features(case, es)
    if seeds:
        kw['seed_features'] = seeds
    rt = over.pop('return_variable_types', rtypes(case))
    kw.update(over)
    with limit(4):
        d = DeepFeatureSynthesis(case['target'], es, **kw)
        return d.build_features(return_variable_types=rt)


@contextlib.contextmanager
def limit(seconds):
    """Cases that explode are left alone (counted as skipped)"""
    def stop(*a):
        raise Skip()
    old = signal.signal(signal.SIGVTALRM, stop)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def seed_features(case, es):
    return build.build_features(es, case['spec'], case.get('seeds') or [])


def where_primitive_names(case):
    w = case['o'].get('where')
    return ['count'] if w is None else w


__all__ = ['ft', 'TransformPrimitive']
