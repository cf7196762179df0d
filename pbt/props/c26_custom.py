"""Primitives made from functions behave like primitives."""
import warnings

import numpy as np
import pandas as pd

import featuretools as ft
from featuretools import variable_types as vt
from featuretools.primitives import make_agg_primitive, make_trans_primitive
from hypothesis import strategies as st

from pbt import build
from pbt.common import frames_equal, vals_equal
from pbt.core import Sub, Violation
from pbt.featcmp import diff, fingerprint

ID = 'C26'
RULE = ('Primitives made from functions (keyword arguments, calculation time, several outputs, given and inferred defaults, two inputs) '
        'with generated arguments, over generated parent and child rows and cutoff times. Several instances of one primitive in the same '
        'call; every value equals the function applied to the rows known at the cutoff; names tell instances apart; saved '
        'and loaded features are the same; DFS uses the given instances. Non-trivial: arguments other than the defaults, or a group without rows.')
ASSUMPTIONS = ['arguments are JSON data; the functions are deterministic']


# functions of lists, without missing values; the library gets them wrapped
def scaled_sum(x, factor=1, shift=0):
    return sum(x) * factor + shift


def n_above(x, threshold=0):
    return sum(1 for v in x if v > threshold)


def n_in(x, wanted=('a',)):
    return sum(1 for v in x if v in wanted)


def age_of_last(x, unit='hours', time=None):
    if not len(x):
        return np.nan
    return (time - max(x)) / pd.Timedelta(**{unit: 1})


def ends(x, reverse=False):
    if not len(x):
        return [np.nan, np.nan]
    a = [list(x)[0], list(x)[-1]]
    return a[::-1] if reverse else a


def weighted(x, y, power=1):
    return float(sum(p * q ** power for p, q in zip(x, y)))


def flagged(x, b, factor=1):
    return sum(p for p, q in zip(x, b) if q) * factor


def longest(x):
    return max(x)


AGG = {
    'scaled_sum': (scaled_sum, [vt.Numeric], {'factor': [2, -1, 0.5], 'shift': [3, 10]}, {}),
    'n_above': (n_above, [vt.Numeric], {'threshold': [1, 2.5, -3]}, {}),
    'n_in': (n_in, [vt.Categorical], {'wanted': [['a', 'b'], ['c'], []]}, {}),
    'age_of_last': (age_of_last, [vt.DatetimeTimeIndex], {'unit': ['days', 'minutes']}, {'uses_calc_time': True}),
    'ends': (ends, [vt.Numeric], {'reverse': [True]}, {'number_output_features': 2}),
    'weighted': (weighted, [vt.Numeric, vt.Numeric], {'power': [2, 0]}, {'default_value': -7}),
    'flagged': (flagged, [vt.Numeric, vt.Boolean], {'factor': [3]}, {}),
    'longest': (longest, [vt.Numeric], {}, {'default_value': 99, 'name': 'longest_one'}),
}


def affine(x, a=1, b=0):
    return np.array(list(x)) * a + b


def combine(x, y, how='sum'):
    x, y = np.array(list(x)), np.array(list(y))
    return x + y if how == 'sum' else x - y if how == 'difference' else x * 0 + 5


def time_before(x, time=None, unit='hours'):
    return [(time - v) / pd.Timedelta(**{unit: 1}) for v in x]


def both(x, k=1):
    x = np.array(list(x))
    return x * k, -x * k


def one_of(x, options=None):
    return [v in (options or []) for v in x]


def share(x, power=1):
    x = np.array(list(x), dtype=float) ** power
    return x / x.sum()


TRANS = {
    'affine': (affine, [vt.Numeric], {'a': [2, -0.5], 'b': [7, -1]}, {}),
    'combine': (combine, [vt.Numeric, vt.Numeric], {'how': ['difference', 'five']}, {}),
    'time_before': (time_before, [vt.DatetimeTimeIndex], {'unit': ['days', 'minutes']}, {'uses_calc_time': True}),
    'both': (both, [vt.Numeric], {'k': [3, 10]}, {'number_output_features': 2}),
    'one_of': (one_of, [vt.Categorical], {'options': [['a'], ['b', 'c']]}, {}),
    'share': (share, [vt.Numeric], {'power': [2]}, {'cls_attributes': {'uses_full_entity': True}}),
}
RET = {'one_of': vt.Boolean}
CLS = {}
for _n, (_f, _i, _k, _o) in AGG.items():
    CLS[_n] = make_agg_primitive(_f, _i, vt.Numeric, **_o)
for _n, (_f, _i, _k, _o) in TRANS.items():
    CLS[_n] = make_trans_primitive(_f, _i, RET.get(_n, vt.Numeric), **_o)
ALL = dict(AGG, **TRANS)


@st.composite
def instance(draw, names):
    n = draw(st.sampled_from(sorted(names)))
    kw = {}
    for k, vals in ALL[n][2].items():
        if draw(st.booleans()):
            kw[k] = draw(st.sampled_from(vals))
    return [n, kw]


@st.composite
def cases(draw):
    np_ = draw(st.integers(1, 4))
    nc = draw(st.integers(1, 7))
    ints = st.integers(1, 9)
    c = {'p': {'x': draw(st.lists(ints, min_size=np_, max_size=np_)),
               't': draw(st.lists(st.integers(0, 12), min_size=np_, max_size=np_)),
               'c': draw(st.lists(st.sampled_from('abc'), min_size=np_, max_size=np_))},
         'c': {'pid': draw(st.lists(st.integers(0, np_ - 1), min_size=nc, max_size=nc)),
               'x': draw(st.lists(ints, min_size=nc, max_size=nc)), 'y': draw(st.lists(ints, min_size=nc, max_size=nc)),
               't': sorted(draw(st.lists(st.integers(0, 24), min_size=nc, max_size=nc))),
               'c': draw(st.lists(st.sampled_from('abc'), min_size=nc, max_size=nc)),
               'b': draw(st.lists(st.booleans(), min_size=nc, max_size=nc))},
         'where': draw(st.lists(st.sampled_from([None, None, 'b', 'x']), min_size=5, max_size=5)),
         'cut': draw(st.lists(st.tuples(st.integers(0, np_ - 1), st.integers(12, 26)).map(list), min_size=1, max_size=4,
                              unique_by=lambda r: (r[0], r[1]))),
         'agg': draw(st.lists(instance(AGG), max_size=4)), 'tr': draw(st.lists(instance(TRANS), max_size=3)),
         'stack': draw(st.booleans()), 'save': draw(st.integers(0, 2)) == 0, 'dfs': draw(st.integers(0, 2)) == 0}
    for k in ('agg', 'tr'):
        if c[k] and draw(st.booleans()):
            # another instance of the same primitive
            c[k].append(draw(instance([c[k][0][0]])))
        c[k] = [x for i, x in enumerate(c[k]) if x not in c[k][:i]]
    if not c['agg'] and not c['tr']:
        c['agg'] = [draw(instance(AGG))]
    return c


def make_es(case):
    p, c = case['p'], case['c']
    es = ft.EntitySet('es')
    es.entity_from_dataframe('p', pd.DataFrame({'id': range(len(p['x'])), 'x': p['x'], 'w': [v + 1 for v in p['x']],
                                                't': [build.ts(t) for t in p['t']], 'c': p['c']}),
                             index='id', time_index='t', variable_types={'x': vt.Numeric, 'w': vt.Numeric, 'c': vt.Categorical})
    es.entity_from_dataframe('c', pd.DataFrame({'cid': range(len(c['x'])), 'pid': c['pid'], 'x': c['x'], 'y': c['y'],
                                                't': [build.ts(t) for t in c['t']], 'c': c['c'], 'b': c['b']}),
                             index='cid', time_index='t',
                             variable_types={'b': vt.Boolean, 'x': vt.Numeric, 'y': vt.Numeric, 'c': vt.Categorical, 'pid': vt.Id})
    es.add_relationship(ft.Relationship(es['p']['id'], es['c']['pid']))
    return es


def cols_for(name, ent):
    ins = ALL[name][1]
    if ins[0] is vt.Categorical:
        return ['c']
    if ins[0] is vt.DatetimeTimeIndex:
        return ['t']
    if vt.Boolean in ins:
        return ['x', 'b']
    return ['x', 'y' if ent == 'c' else 'w'][:len(ins)]


def call(name, kw, args, t):
    fn = ALL[name][0]
    kw = dict(kw)
    if ALL[name][3].get('uses_calc_time'):
        kw['time'] = build.ts(t)
    return fn(*args, **kw)


def col(d, ent, name, i):
    if name == 't':
        return build.ts(d['t'][i])
    if name == 'w':
        return d['x'][i] + 1
    return d[name][i]


def agg_value(case, name, kw, pid, t, where=None):
    d = case['c']
    rows = [i for i in range(len(d['x'])) if d['pid'][i] == pid and d['t'][i] <= t and
            (where is None or (d['b'][i] if where == 'b' else d['x'][i] > 4))]
    if not rows:
        o = ALL[name][3]
        if 'default_value' in o:
            return o['default_value']
        if name in ('ends', 'age_of_last'):
            return [np.nan, np.nan] if name == 'ends' else np.nan
        return 0
    return call(name, kw, [[col(d, 'c', c, i) for i in rows] for c in cols_for(name, 'c')], t)


def tr_value(case, name, kw, pid, t, where=None):
    d = case['p']
    rows = [i for i in range(len(d['x'])) if d['t'][i] <= t] if name == 'share' else [pid]
    out = call(name, kw, [[col(d, 'p', c, i) for i in rows] for c in cols_for(name, 'p')], t)
    k = rows.index(pid)
    return [o[k] for o in out] if name == 'both' else out[k]


def run(case, ctx):
    es = make_es(case)
    feats, todo = [], []
    for i, (name, kw) in enumerate(case['agg']):
        w = case['where'][i]
        cond = None if w is None else ft.Feature(es['c']['b']) if w == 'b' else ft.Feature(es['c']['x']) > 4
        f = ft.Feature([es['c'][c] for c in cols_for(name, 'c')], parent_entity=es['p'], primitive=CLS[name](**kw), where=cond)
        feats.append(f)
        todo.append(('agg', name, kw, f, w))
        ctx.label('where', w is not None)
    for name, kw in case['tr']:
        f = ft.Feature([es['p'][c] for c in cols_for(name, 'p')], primitive=CLS[name](**kw))
        feats.append(f)
        todo.append(('tr', name, kw, f, None))
    ctx.nt(any(kw for _, _, kw, _, _ in todo) or (case['agg'] and set(range(len(case['p']['x']))) - set(case['c']['pid'])))
    for _, name, kw, _, _ in todo:
        ctx.label(name)
    ctx.label('same primitive twice', len(set(n for _, n, _, _, _ in todo)) < len(todo))
    names = [n for f in feats for n in f.get_feature_names()]
    if len(set(names)) < len(names):
        raise Violation('different features with the same name: %r' % names)
    stacked = []
    if case['stack']:
        for kind, name, kw, f, _ in list(todo):
            if f.number_output_features == 1 and name != 'one_of':
                g = ft.Feature([f], primitive=CLS['affine'](a=2, b=1))
                stacked.append((f, g))
        feats += [g for _, g in stacked]
    cut = [r for r in case['cut'] if case['p']['t'][r[0]] <= r[1]]
    ct = pd.DataFrame({'instance_id': [r[0] for r in cut], 'time': [build.ts(r[1]) for r in cut]})
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fm = ft.calculate_feature_matrix(feats, es, cutoff_time=ct)
    for kind, name, kw, f, w in todo:
        for i, (pid, t) in enumerate(cut):
            exp = (agg_value if kind == 'agg' else tr_value)(case, name, kw, pid, t, w)
            exp = list(exp) if f.number_output_features > 1 else [exp]
            if len(f.get_feature_names()) != len(exp):
                raise Violation('%s has the columns %r' % (f, f.get_feature_names()))
            for nm, x in zip(f.get_feature_names(), exp):
                act = fm[nm].iloc[i]
                if not vals_equal(act, x):
                    raise Violation('%s of %r at %r is %r, the function gives %r' % (nm, pid, t, act, x))
    for f, g in stacked:
        frames_equal(fm[[f.get_name()]] * 2 + 1, fm[[g.get_name()]].rename(columns={g.get_name(): f.get_name()}), 'stacked')
    if case['save']:
        loaded = ft.load_features(ft.save_features(feats))
        for a, b in zip(feats, loaded):
            d = diff(fingerprint(a), fingerprint(b))
            if d:
                raise Violation('%s is another feature after loading: %s' % (a, d))
        fm2 = ft.calculate_feature_matrix(loaded, es, cutoff_time=ct)
        frames_equal(fm, fm2, 'matrix of loaded features')
    if case['dfs']:
        prims = {}
        for kind, name, kw, f, w in todo:
            prims.setdefault(kind, []).append(CLS[name](**kw))
        got = ft.dfs(entityset=es, target_entity='p', agg_primitives=prims.get('agg', []), trans_primitives=prims.get('tr', []),
                     features_only=True, max_depth=1)
        gn = [f.get_name() for f in got]
        if len(set(gn)) < len(gn):
            raise Violation('DFS returned features with the same name: %r' % gn)
        for kind, name, kw, f, w in todo:
            if w is None and f.get_name() not in gn and not (name == 'combine' and f.get_name().replace('x, w', 'w, x') in gn):
                raise Violation('DFS did not return %r: %r' % (f.get_name(), gn))


def direct_run(case, ctx):
    """An instance called on data gives what the function gives"""
    name, kw = case['inst']
    ctx.nt(bool(kw))
    ctx.label(name)
    p = CLS[name](**kw)
    ins = ALL[name][1]
    if ins[0] is vt.Categorical:
        args = [pd.Series(case['c'])]
    elif ins[0] is vt.DatetimeTimeIndex:
        args = [pd.Series([build.ts(t) for t in case['t']])]
    else:
        args = [pd.Series(case['x']), pd.Series(case['y'])][:len(ins)]
    extra = {'time': build.ts(30)} if ALL[name][3].get('uses_calc_time') else {}
    exp = ALL[name][0](*[list(a) for a in args], **dict(kw, **extra))
    got = p(*args, **extra)
    if not vals_equal(list(got) if isinstance(exp, (list, tuple, np.ndarray)) else got,
                      list(exp) if isinstance(exp, (list, tuple, np.ndarray)) else exp):
        raise Violation('%s%r of %r gives %r, the function gives %r' % (name, kw, args, got, exp))
    other = CLS[name]()
    if dict(other.get_arguments()):
        raise Violation('a primitive without arguments has the arguments %r' % (other.get_arguments(),))
    if dict(p.get_arguments()) != dict(kw):
        raise Violation('arguments %r of %s, made with %r' % (p.get_arguments(), name, kw))
    d = ALL[name][3]
    if p.number_output_features != d.get('number_output_features', 1) or p.name != d.get('name', name) or \
            p.uses_calc_time != d.get('uses_calc_time', False) or p.input_types != ins:
        raise Violation('attributes of %s: %r' % (name, vars(type(p))))
    if p.__class__(**dict(p.get_arguments())).get_args_string() != p.get_args_string():
        raise Violation('arguments of %s are not reproduced' % name)


@st.composite
def direct_cases(draw):
    n = draw(st.integers(1, 5))
    return {'inst': draw(instance(ALL)), 'x': draw(st.lists(st.integers(1, 9), min_size=n, max_size=n)),
            'y': draw(st.lists(st.integers(1, 9), min_size=n, max_size=n)), 't': draw(st.lists(st.integers(0, 20), min_size=n, max_size=n)),
            'c': draw(st.lists(st.sampled_from('abc'), min_size=n, max_size=n))}


CHECKS = [Sub('calculated', cases(), run, quick=400), Sub('direct', direct_cases(), direct_run, quick=500)]
