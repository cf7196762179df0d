"""Feature definitions: names, copies, operators, dependencies, descriptions."""
import json
import os
import tempfile
import warnings

import numpy as np
import pandas as pd

import featuretools as ft
from featuretools.feature_base import FeatureOutputSlice
from featuretools.primitives import NMostCommon
from hypothesis import strategies as st

from pbt import build, gen
from pbt.common import frames_equal, vals_equal
from pbt.core import Skip, Sub, Violation
from pbt.featcmp import diff, fingerprint

ID = 'C24'
RULE = ('Generated feature definitions (all feature classes, stacked up to three deep, over one to three entities with several '
        'relationships between two of them) and variants of them that differ in one part. names: definitions that mean different things '
        'have different names, equal ones the same. graph: dependencies and depth against the description. copies: copy and '
        'rename against a structural fingerprint and the calculated values. operators: Python expressions over features against the '
        'same expressions over the columns. describe: the English description against a reference built from the documented '
        'templates, custom descriptions, templates and metadata files included. refused: definitions that make no sense raise. Non-trivial: a '
        'definition that is not an identity feature.')
ASSUMPTIONS = ['column and entity names are identifiers',
               'infix operators (x + y, x > y) are not nested in one another nor brought down by direct features when names are compared',
               'descriptions: braces do not occur in arguments of primitives']

INFIX = {'add_numeric', 'multiply_numeric', 'add_numeric_scalar', 'greater_than_scalar', 'less_than_equal_to_scalar',
         'greater_than', 'equal_scalar'}


@st.composite
def def_cases(draw, max_rows=2, min_n=1, max_n=3, depth=3):
    spec = draw(gen.es_specs(min_ents=draw(st.sampled_from([1, 2, 3, 3])), max_ents=3, max_rows=max_rows))
    target = draw(gen.targets(spec))
    fs = draw(st.one_of(gen.feature_lists(spec, target, min_n=min_n, max_n=max_n, depth=depth, windows=True),
                        gen.sibling_lists(spec, target, depth=2, windows=True)))
    return {'spec': spec, 'target': target, 'feats': fs}


def is_infix(f):
    return f['k'] == 'tr' and f['p'] in INFIX


def ambiguous(f):
    """whether the name of f could be read in two ways (see ASSUMPTIONS)"""
    for x in gen.walk(f):
        kids = x['b'] if isinstance(x.get('b'), list) else [x['b']] if x.get('b') else []
        if x['k'] in ('dir', 'sl') or is_infix(x):
            stack = list(kids)
            while stack:
                y = stack.pop()
                if is_infix(y) or (y['k'] == 'gtr' and is_infix(x)):
                    return True
                if y['k'] in ('dir', 'sl'):
                    stack.append(y['b'])
    return False


def canon(f):
    """The meaning of a definition as nested tuples.  Outputs of direct features
    are direct features of outputs."""
    k = f['k']
    if k == 'id':
        return ('id', f['e'], f['v'])
    if k == 'dir':
        return ('dir', f['e'], f['link'], canon(f['b']))
    if k == 'sl':
        b = f['b']
        if b['k'] == 'dir':
            return ('dir', b['e'], b['link'], canon({'k': 'sl', 'e': b['b']['e'], 'i': f['i'], 'b': b['b']}))
        return ('sl', f['i'], canon(b))
    args = tuple(f['v']) if isinstance(f.get('v'), list) else f.get('v')
    bases = tuple(canon(b) for b in f['b'])
    if k == 'agg':
        return ('agg', f['p'], f['e'], tuple(map(tuple, f['path'])), bases,
                canon(f['where']) if f['where'] else None, tuple(f['prev']) if f['prev'] else None)
    return (k, f['p'], args, bases, canon(f['g']) if k == 'gtr' else None)


def names_run(case, ctx):
    spec = case['spec']
    es = build.build_es(spec)
    seen = {}
    for f in case['feats']:
        for x in gen.walk(f):
            if ambiguous(x) and not case.get('infix'):
                continue
            feat = build.build_feature(es, spec, x)
            # asking for the outputs' names first must make no difference
            outs = list(build.build_feature(es, spec, x).get_feature_names())
            name = feat.get_name()
            if outs != list(feat.get_feature_names()):
                raise Violation('%r: output names %r and %r' % (name, outs, feat.get_feature_names()))
            if len(outs) != feat.number_output_features or len(set(outs)) != len(outs):
                raise Violation('%r: %d outputs named %r' % (name, feat.number_output_features, outs))
            if len(outs) == 1 and outs != [name]:
                raise Violation('feature %r has a column named %r' % (name, outs))
            if feat.unique_name() != '%s: %s' % (x['e'], name):
                raise Violation('unique name %r of %r of %s' % (feat.unique_name(), name, x['e']))
            if hash(feat) != hash(build.build_feature(es, spec, x)):
                raise Violation('equal features %r have different hashes' % name)
            ctx.nt(x['k'] != 'id')
            ctx.label(x['k'])
            m = len(outs) > 1
            keys = [(name, ('whole', canon(x)) if m else canon(x))]
            if m:
                keys += [(o, canon({'k': 'sl', 'e': x['e'], 'i': i, 'b': x})) for i, o in enumerate(outs)]
                for i, o in enumerate(outs):
                    if feat[i].get_name() != o or feat[i].get_feature_names() != [o]:
                        raise Violation('output %d of %s is called %r' % (i, name, feat[i].get_name()))
            for nm, c in keys:
                other = seen.setdefault((x['e'], nm), c)
                if other != c:
                    raise Violation('two different features of %s are called %r: %r and %r' % (x['e'], nm, other, c))
    back = {}
    for (e, nm), c in seen.items():
        if back.setdefault((e, c), nm) != nm:
            raise Violation('the same definition is called %r and %r' % (nm, back[(e, c)]))


# ------------------------------------------------------------------- graph
def kids(f):
    out = list(f['b']) if isinstance(f.get('b'), list) else ([f['b']] if f.get('b') else [])
    if f['k'] == 'gtr':
        out.append(f['g'])
    if f.get('where'):
        out.append(f['where'])
    return out


def depth_of(f, stop=()):
    if canon(f) in stop or f['k'] == 'id':
        return 0
    return 1 + max([depth_of(k, stop) for k in kids(f)] or [0])


def all_deps(f):
    out = []
    for k in kids(f):
        out.append(k)
        out += all_deps(k)
    return out


def graph_run(case, ctx):
    spec = case['spec']
    es = build.build_es(spec)
    for f in case['feats']:
        feat = build.build_feature(es, spec, f)

        def un(x):
            return build.build_feature(es, spec, x).unique_name()
        ctx.nt(f['k'] != 'id')
        ctx.label(f['k'])
        got = sorted(d.unique_name() for d in feat.get_dependencies())
        exp = sorted(un(x) for x in kids(f))
        if got != exp:
            raise Violation('dependencies of %s: %r, expected %r' % (feat, got, exp))
        got = set(d.unique_name() for d in feat.get_dependencies(deep=True))
        exp = set(un(x) for x in all_deps(f))
        if got != exp:
            raise Violation('deep dependencies of %s: %r, expected %r' % (feat, sorted(got), sorted(exp)))
        if feat.get_depth() != depth_of(f):
            raise Violation('depth of %s is %r, expected %r' % (feat, feat.get_depth(), depth_of(f)))
        if case['stop'] is not None and all_deps(f):
            d = all_deps(f)
            s = d[case['stop'] % len(d)]
            ign = un(s)
            got = set(x.unique_name() for x in feat.get_dependencies(deep=True, ignored={ign}))

            def rec(x):
                out = set()
                for k in kids(x):
                    if un(k) != ign:
                        out.add(un(k))
                        out |= rec(k)
                return out
            if got != rec(f):
                raise Violation('dependencies of %s without %s: %r, expected %r' % (feat, ign, sorted(got), sorted(rec(f))))
        if feat.entity.id != f['e'] or feat.entity_id != f['e']:
            raise Violation('%s is a feature of %s' % (feat, feat.entity_id))


@st.composite
def graph_cases(draw):
    c = draw(def_cases())
    c['stop'] = draw(st.one_of(st.none(), st.integers(0, 5)))
    return c


# ------------------------------------------------------------------ copies
def copy_run(case, ctx):
    spec = case['spec']
    es = build.build_es(spec)
    feats = build.build_features(es, spec, case['feats'])
    extra = []
    for i, (f, feat) in enumerate(zip(case['feats'], feats)):
        before = fingerprint(feat)
        if feat.number_output_features > 1 and case['slice']:
            feat = feat[case['slice'] % feat.number_output_features]
            before = fingerprint(feat)
        ctx.nt(f['k'] != 'id')
        ctx.label(type(feat).__name__)
        c = feat.copy()
        if c is feat or type(c) is not type(feat):
            raise Violation('copy of %r is %r' % (feat, c))
        d = diff(before, fingerprint(c))
        if d:
            raise Violation('copy of %s differs: %s' % (feat, d))
        new = 'new name %d' % i
        r = feat.rename(new)
        d = diff(before, fingerprint(feat))
        if d:
            raise Violation('renaming changed %s itself: %s' % (feat, d))
        a, b = dict(before), dict(fingerprint(r))
        n = r.number_output_features
        names = [new] if n == 1 else ['%s[%d]' % (new, j) for j in range(n)]
        if b['name'] != new or b['names'] != names or repr(r) != '<Feature: %s>' % new:
            raise Violation('%s renamed to %r is called %r, %r' % (feat, new, b['name'], b['names']))
        for x in (a, b):
            del x['name'], x['names']
        d = diff(a, b)
        if d:
            raise Violation('renaming %s changed more than the name: %s' % (feat, d))
        d = diff(fingerprint(r), fingerprint(r.copy()))
        if d:
            raise Violation('copy of renamed %s differs: %s' % (feat, d))
        if n > 1:
            for j in range(n):
                if r[j].get_name() != names[j]:
                    raise Violation('output %d of renamed %s is called %r' % (j, feat, r[j].get_name()))
        if r.unique_name() != '%s: %s' % (f['e'], new):
            raise Violation('unique name of renamed %s: %r' % (feat, r.unique_name()))
        extra.append((feat, r))
    if case['calc']:
        kw = {'cutoff_time': build.ts(12), 'instance_ids': list(gen.ent_of(spec, case['target'])['ids'])}
        a = ft.calculate_feature_matrix([x for x, _ in extra], es, **kw)
        b = ft.calculate_feature_matrix([x for _, x in extra], es, **kw)
        exp = [nm for _, x in extra for nm in x.get_feature_names()]
        if list(b.columns) != exp:
            raise Violation('columns of renamed features: %r, expected %r' % (list(b.columns), exp))
        b.columns = a.columns
        frames_equal(a, b, 'matrix of renamed features')


@st.composite
def copy_cases(draw):
    c = draw(def_cases(max_rows=4))
    c['calc'] = draw(st.integers(0, 2)) == 0
    c['slice'] = draw(st.integers(0, 2))
    return c


# --------------------------------------------------------------- operators
NUM_OPS = ['+', '-', '*', '/', '%']
CMP_OPS = ['==', '!=', '<', '<=', '>', '>=']


@st.composite
def num_expr(draw, depth):
    if depth == 0:
        return draw(st.sampled_from([['col', 'x'], ['col', 'y'], ['col', 'w']]))
    k = draw(st.integers(0, 5))
    if k == 0:
        return [draw(st.sampled_from(['neg', 'abs'])), draw(num_expr(depth - 1))]
    a = draw(num_expr(depth - 1))
    if draw(st.integers(0, 2)) == 0:
        b = draw(num_expr(depth - 1))
        if b == ['col', 'x'] and a == b:
            b = ['col', 'w']
    else:
        b = ['lit', draw(st.sampled_from([1, 2, 3, 0.5, -2, 10]))]
        if draw(st.booleans()):
            a, b = b, a
    return [draw(st.sampled_from(NUM_OPS)), a, b]


@st.composite
def bool_expr(draw, depth):
    k = draw(st.integers(0, 7 if depth else 4))
    if k == 0:
        return ['col', draw(st.sampled_from(['b', 'b2']))]
    if k == 1:
        return [draw(st.sampled_from(['==', '!='])), ['col', 'c'],
                draw(st.sampled_from([['col', 'c2'], ['lit', 'a'], ['lit', 'zz']]))]
    if k == 2:
        return draw(st.sampled_from([['isin', ['col', 'c'], ['a', 'b']], ['isin', ['col', 'y'], [1, 2]],
                                     ['isnull', ['col', 'c']], ['isnull', ['col', 'x']]]))
    if k in (3, 4):
        a, b = draw(num_expr(0)), draw(num_expr(0))
        if draw(st.booleans()):
            b = ['lit', draw(st.sampled_from([0, 1, 2, -1, 0.5]))]
        if draw(st.integers(0, 2)) == 0 and b[0] == 'lit':
            a, b = b, a
        return [draw(st.sampled_from(CMP_OPS)), a, b]
    if k == 5:
        return ['not', draw(bool_expr(depth - 1))]
    return [draw(st.sampled_from(['and', 'or', 'AND', 'OR', 'mul'])), draw(bool_expr(depth - 1)), draw(bool_expr(depth - 1))]


@st.composite
def op_cases(draw):
    n = draw(st.integers(1, 6))
    num = st.one_of(st.integers(-4, 5), st.sampled_from([0.5, 2.5, None]))
    cols = {'x': draw(st.lists(num, min_size=n, max_size=n)),
            'y': draw(st.lists(st.integers(-3, 4), min_size=n, max_size=n)),
            'w': draw(st.lists(st.sampled_from([1, 2, -3, 0.5, 7]), min_size=n, max_size=n)),
            'b': draw(st.lists(st.booleans(), min_size=n, max_size=n)),
            'b2': draw(st.lists(st.booleans(), min_size=n, max_size=n)),
            'c': draw(st.lists(st.sampled_from(['a', 'b', 'c', None]), min_size=n, max_size=n)),
            'c2': draw(st.lists(st.sampled_from(['a', 'b', 'c', None]), min_size=n, max_size=n))}
    depth = draw(st.integers(1, 2))
    e = draw(num_expr(depth) if draw(st.booleans()) else bool_expr(depth))
    return {'cols': cols, 'expr': e, 'alias': draw(st.booleans())}


def apply_op(op, a, b=None):
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        return a / b
    if op == '%':
        return a % b
    if op == '==':
        return a == b
    if op == '!=':
        return a != b
    if op == '<':
        return a < b
    if op == '<=':
        return a <= b
    if op == '>':
        return a > b
    if op == '>=':
        return a >= b
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'neg':
        return -a
    if op == 'abs':
        return abs(a)
    if op == 'not':
        return ~a
    raise KeyError(op)


def feat_of(es, e, alias):
    if e[0] == 'col':
        v = es['e'][e[1]]
        return ft.Feature(v) if alias else ft.IdentityFeature(v)
    if e[0] == 'lit':
        return e[1]
    a = feat_of(es, e[1], alias)
    if e[0] == 'isin':
        return a.isin(list(e[2]))
    if e[0] == 'isnull':
        return a.is_null()
    if e[0] in ('neg', 'abs'):
        return apply_op(e[0], a)
    if e[0] == 'not':
        return ~a if alias else a.NOT()
    b = feat_of(es, e[2], alias)
    if e[0] == 'AND':
        return a.AND(b)
    if e[0] == 'OR':
        return a.OR(b)
    if e[0] == 'mul':
        return a * b
    return apply_op(e[0], a, b)


def val_of(row, e):
    """The value of an expression on one row; UNDEF where arithmetic is undefined"""
    if e[0] == 'col':
        return row[e[1]]
    if e[0] == 'lit':
        return e[1]
    a = val_of(row, e[1])
    if e[0] == 'isin':
        return a is not None and a in e[2]
    if e[0] == 'isnull':
        return a is None
    if e[0] in ('not',):
        return not a
    if e[0] in ('neg', 'abs'):
        return a if a is None or a == 'undef' else apply_op(e[0], a)
    b = val_of(row, e[2])
    if a == 'undef' or b == 'undef':
        return 'undef'
    if e[0] in ('and', 'AND', 'mul'):
        return a and b
    if e[0] in ('or', 'OR'):
        return a or b
    if e[0] in CMP_OPS:
        if a is None or b is None:
            return e[0] == '!='
        return apply_op(e[0], a, b)
    if e[0] in ('/', '%') and b is not None and b == 0:
        return 'undef'
    if a is None or b is None:
        return None
    return apply_op(e[0], a, b)


def undef_in(row, e):
    if not isinstance(e, list) or not e or e[0] in ('col', 'lit'):
        return False
    return val_of(row, e) == 'undef' or any(undef_in(row, x) for x in e[1:] if isinstance(x, list) and x and isinstance(x[0], str)
                                            and e[0] != 'isin')




def op_run(case, ctx):
    n = len(case['cols']['x'])
    df = pd.DataFrame({'id': list(range(n))})
    for k, v in case['cols'].items():
        if k in ('x', 'w'):
            df[k] = np.array([np.nan if z is None else float(z) for z in v])
        elif k == 'y':
            df[k] = np.array(v, dtype='int64')
        elif k in ('b', 'b2'):
            df[k] = np.array(v, dtype=bool)
        else:
            df[k] = pd.Series([np.nan if z is None else z for z in v], dtype=object)
    vt = ft.variable_types
    es = ft.EntitySet('es')
    es.entity_from_dataframe('e', df, index='id', variable_types={
        'x': vt.Numeric, 'y': vt.Numeric, 'w': vt.Numeric, 'b': vt.Boolean, 'b2': vt.Boolean,
        'c': vt.Categorical, 'c2': vt.Categorical})
    e = case['expr']
    f = feat_of(es, e, case['alias'])
    if not isinstance(f, ft.feature_base.FeatureBase):
        raise Violation('%r of features is %r' % (e, f))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fm = ft.calculate_feature_matrix([f], es)
    col = fm[f.get_name()]
    ctx.nt(e[0] != 'col')
    ctx.label(e[0])
    ctx.label('reflected', len(e) > 2 and isinstance(e[1], list) and e[1][0] == 'lit')
    for i in range(n):
        row = {k: v[i] for k, v in case['cols'].items()}
        if undef_in(row, e):
            continue
        exp, act = val_of(row, e), col.iloc[i]
        if not vals_equal(exp, act):
            raise Violation('%s of row %r: %r, the expression gives %r' % (f.get_name(), row, act, exp))


# ---------------------------------------------------------------- describe
TEMPL = {
    'count': 'the number', 'sum': 'the sum of {}', 'mean': 'the average of {}', 'min': 'the minimum of {}',
    'max': 'the maximum of {}', 'median': 'the median of {}', 'num_unique': 'the number of unique elements in {}',
    'mode': 'the most frequently occurring value of {}', 'first': 'the first instance of {}', 'last': 'the last instance of {}',
    'num_true': 'the number of times {} is true', 'percent_true': 'the percentage of true values in {}',
    'any': 'whether any of {} are true', 'all': 'whether all of {} are true',
    'time_since_last': 'the time since the last {}', 'time_since_first': 'the time since the first {}',
    'absolute': 'the absolute value of {}', 'negate': 'the negation of {}', 'add_numeric': 'the sum of {} and {}',
    'multiply_numeric': 'the product of {} and {}', 'is_null': 'whether {} is null', 'not': 'the negation of {}',
    'and': 'whether {} and {} are true', 'or': 'whether {} is true or {} is true',
    'greater_than': 'whether {} is greater than {}', 'hour': 'the hour value of {}',
    'cum_sum': 'the cumulative sum of {}', 'cum_max': 'the cumulative maximum of {}', 'cum_min': 'the cumulative minimum of {}',
    'cum_mean': 'the cumulative mean of {}', 'cum_count': 'the cumulative count of {}', 'percentile': 'the percentile rank of {}',
    'diff': 'the difference from the previous value of {}', 'time_since_previous': 'the time since the previous instance of {}',
}
VALUED = {'add_numeric_scalar': 'the sum of {{}} and {}', 'greater_than_scalar': 'whether {{}} is greater than {}',
          'less_than_equal_to_scalar': 'whether {{}} is less than or equal to {}', 'equal_scalar': 'whether {{}} equals {}'}
GENERIC = {'minmax', 'sum_prod', 'time_span', 'plus_minus'}


class Describer(object):
    def __init__(self, es, spec, custom, templates, var_desc):
        self.es, self.spec, self.custom, self.templates, self.var_desc = es, spec, custom, templates, var_desc

    def un(self, f):
        return build.build_feature(self.es, self.spec, f).unique_name()

    def prim_text(self, f, inputs, i=None):
        p = f['p']
        nth = None if i is None else ['1st', '2nd'][i]
        t = self.templates.get(p)
        if isinstance(t, list):
            if i is None:
                t = t[0]
            elif len(t) == 2:
                t = t[1]
            else:
                t = t[1 + i]
        if t is None:
            if p == 'isin':
                t = 'whether {} is in %s' % ', '.join(f['v'])
            elif p in VALUED:
                t = VALUED[p].format(f['v'])
            elif p in TEMPL:
                t = TEMPL[p]
            elif p == 'time_since':
                t = 'the time from {} to the cutoff time'
            else:
                what = 'the result of applying' if i is None else 'the %s output from applying' % nth
                return '%s %s to %s' % (what, p.upper(), ', '.join(inputs))
        return t.format(*inputs, nth_slice=nth)

    def text(self, f):
        u = self.un(f)
        if u in self.custom:
            return self.custom[u]
        k = f['k']
        if k == 'id':
            return self.var_desc.get((f['e'], f['v'])) or 'the "%s"' % f['v']
        i, whole = None, f
        if k == 'sl' and f['b']['k'] == 'dir':
            b = f['b']
            f = dict(b, b={'k': 'sl', 'e': b['b']['e'], 'i': f['i'], 'b': b['b']})
            k = 'dir'
        if k == 'dir':
            chain, cur = [], f
            while True:
                parent = gen.ent_of(self.spec, cur['e'])['links'][cur['link']]['p']
                chain.append(parent)
                nxt = cur['b']
                if nxt['k'] == 'sl' and nxt['b']['k'] == 'dir' and self.un(nxt) not in self.custom:
                    b = nxt['b']
                    nxt = dict(b, b={'k': 'sl', 'e': b['b']['e'], 'i': nxt['i'], 'b': b['b']})
                if nxt['k'] == 'dir' and self.un(nxt) not in self.custom:
                    cur = nxt
                    continue
                base = nxt
                break
            s = 'this instance of "%s"' % f['e']
            for p in chain:
                s = 'the instance of "%s" associated with %s' % (p, s)
            return '%s for %s' % (self.text(base), s)
        if k == 'sl':
            i, f = f['i'], f['b']
            k = f['k']
        inputs = [self.text(b) for b in f['b']]
        s = self.prim_text(f, inputs, i)
        if k == 'agg':
            child = f['path'][-1][0]
            if f['prev']:
                s += ' of the previous %s of "%s"' % (build.timedelta(f['prev']).get_name().lower(), child)
            else:
                s += ' of all instances of "%s"' % child
            if f['where']:
                s += ' ' + self.where(f['where'])
            e = gen.ent_of(self.spec, f['e'])
            g = self.custom.get('%s: %s' % (f['e'], e['index'])) or '"%s" in "%s"' % (e['index'], f['e'])
            s += ' for each ' + (g[4:] if g.startswith('the ') else g)
        elif k == 'gtr':
            g = self.text(f['g'])
            s += ' for each ' + (g[4:] if g.startswith('the ') else g)
        return s

    def where(self, w):
        if w['k'] == 'tr' and w['p'] == 'equal_scalar' and self.un(w) not in self.custom:
            return 'where %s is %s' % (self.text(w['b'][0]), w['v'])
        s = self.text(w)
        if s.startswith('whether '):
            return 'where ' + s[len('whether '):]
        return 'where %s is True' % s


@st.composite
def describe_cases(draw):
    c = draw(def_cases(max_n=2))
    if draw(st.booleans()):
        # brought down to descendants
        f = c['feats'][0]
        while True:
            down = gen.back_links(c['spec'], f['e'])
            if not down:
                break
            e, k = draw(st.sampled_from(down))
            f = {'k': 'dir', 'e': e, 'link': k, 'b': f, 't': 'other'}
        c['feats'] = [f] + c['feats'][1:]
    c['custom'] = draw(st.lists(st.tuples(st.integers(0, 30), st.sampled_from(['the total', 'A B', 'the foo of it'])).map(list), max_size=3))
    c['how'] = draw(st.sampled_from(['feature', 'name', 'file', 'both']))
    c['templates'] = draw(st.booleans())
    c['desc'] = draw(st.lists(st.tuples(st.integers(0, 5), st.sampled_from(['the size', 'colour of it'])).map(list), max_size=2))
    c['n'] = draw(st.one_of(st.none(), st.integers(2, 5)))
    return c


CUSTOM_T = {'sum': 'the total of {}', 'minmax': ['both ends of {}', 'the {nth_slice} end of {}'],
            'plus_minus': ['both signs of {}', 'plus of {}', 'minus of {}'], 'absolute': 'the size of {}',
            'add_numeric': '{0} with {1}', 'cum_sum': 'sum so far of {}'}


def describe_run(case, ctx):
    spec = case['spec']
    es = build.build_es(spec)
    var_desc = {}
    for n, text in case['desc']:
        e = spec['ents'][n % len(spec['ents'])]
        c = e['cols'][n % len(e['cols'])]['n']
        es[e['id']][c].description = text
        var_desc[(e['id'], c)] = text
    pool = [x for f in case['feats'] for x in gen.walk(f)]
    custom, objs = {}, {}
    for n, text in case['custom']:
        x = pool[n % len(pool)]
        feat = build.build_feature(es, spec, x)
        custom[feat.unique_name()] = text
        objs[feat.unique_name()] = feat
    templates = dict(CUSTOM_T) if case['templates'] else {}
    kw = {}
    path = None
    try:
        if case['how'] in ('file', 'both'):
            fd, path = tempfile.mkstemp(suffix='.json')
            stale = {k: 'not this' for k in custom} if case['how'] == 'both' else custom
            tstale = {k: 'not this' for k in templates} if case['how'] == 'both' else templates
            with os.fdopen(fd, 'w') as fh:
                json.dump({'feature_descriptions': stale, 'primitive_templates': tstale}, fh)
            kw['metadata_file'] = path
        if case['how'] != 'file':
            kw['primitive_templates'] = templates
            kw['feature_descriptions'] = {objs[k]: v for k, v in custom.items()} if case['how'] == 'feature' else custom
        d = Describer(es, spec, custom, templates, var_desc)
        for f in case['feats']:
            feat = build.build_feature(es, spec, f)
            got = ft.describe_feature(feat, **kw)
            exp = d.text(f)
            exp = exp[:1].upper() + exp[1:] + '.'
            ctx.nt(f['k'] != 'id')
            for x in gen.walk(f):
                ctx.label(x['k'])
            ctx.label('where', any(x.get('where') for x in gen.walk(f)))
            ctx.label('custom', bool(custom))
            if got != exp:
                raise Violation('%s is described as %r, expected %r' % (feat, got, exp))
    finally:
        if path:
            os.remove(path)
    if case['n']:
        for e in spec['ents']:
            for l in e['links']:
                f = ft.AggregationFeature(es[e['id']][l['col']], es[l['p']], NMostCommon(n=case['n']),
                                          relationship_path=ft.entityset.relationship.RelationshipPath(
                                              [(False, build.rel_of(es, spec, e['id'], e['links'].index(l)))]))
                base = ' of the "%s" of all instances of "%s" for each "%s" in "%s".' % (
                    l['col'], e['id'], gen.ent_of(spec, l['p'])['index'], l['p'])
                exp = ['The %d most common values' % case['n'] + base, 'The most common value' + base] + \
                    ['The %s most common value%s' % (x, base) for x in ['2nd', '3rd', '4th', '5th'][:case['n'] - 1]]
                got = [ft.describe_feature(f)] + [ft.describe_feature(f[i]) for i in range(case['n'])]
                if got != exp:
                    raise Violation('%s is described as %r, expected %r' % (f, got, exp))
                return


# ----------------------------------------------------------------- refused
@st.composite
def refuse_cases(draw):
    spec = draw(gen.es_specs(min_ents=2, max_ents=4, max_rows=2))
    return {'spec': spec, 'a': draw(st.sampled_from([1, 2, 3, 1, 0])), 'b': draw(st.integers(0, 2))}


def raises(fn):
    try:
        return fn(), None
    except Exception as e:
        return None, e


def refuse_run(case, ctx):
    """Aggregations, direct features, where, use_previous over every pair of entities"""
    spec = case['spec']
    es = build.build_es(spec)
    A = spec['ents'][case['a'] % len(spec['ents'])]['id']
    B = spec['ents'][case['b'] % len(spec['ents'])]['id']
    ea, eb = gen.ent_of(spec, A), gen.ent_of(spec, B)
    ctx.nt(A != B)
    base = ft.IdentityFeature(es[A][ea['index']])
    paths = [p for p in gen.back_paths(spec, B, 9) if p[-1][0] == A]
    f, err = raises(lambda: ft.Feature(base, parent_entity=es[B], primitive=ft.primitives.Count))
    ctx.label('%d paths' % min(len(paths), 2))
    if (f is not None) != (len(paths) == 1):
        raise Violation('counting %s for %s, which are connected by %d paths: %r %r' % (A, B, len(paths), f, err))
    if f is not None:
        got = [(r.child_entity.id, r.child_variable.id) for _, r in f.relationship_path]
        exp = [(c, gen.ent_of(spec, c)['links'][k]['col']) for c, k in paths[0]]
        if got != exp:
            raise Violation('%s goes along %r, the only path is %r' % (f, got, exp))
    links = [l for l in eb['links'] if l['p'] == A]
    d, err = raises(lambda: ft.Feature(base, entity=es[B]))
    if (d is not None) != (len(links) == 1):
        raise Violation('direct feature of %s for %s with %d relationships: %r %r' % (A, B, len(links), d, err))
    if d is not None and d.relationship_path[0][1].child_variable.id != links[0]['col']:
        raise Violation('%s uses the relationship %r' % (d, d.relationship_path))
    if len(paths) == 1:
        u, err = raises(lambda: ft.Feature(base, parent_entity=es[B], primitive=ft.primitives.Count, use_previous='3 days'))
        if (u is not None) != (ea['times'] is not None):
            raise Violation('use_previous over %s (time index %r): %r %r' % (A, es[A].time_index, u, err))
        w, err = raises(lambda: ft.Feature(base, parent_entity=es[B], primitive=ft.primitives.Count,
                                           where=ft.IdentityFeature(es[B][eb['index']]) == 1))
        if w is not None:
            raise Violation('where on the parent accepted: %r' % w)
        x, err = raises(lambda: ft.Feature(base, parent_entity=es[B], primitive=ft.primitives.Sum))
        if x is not None:
            raise Violation('sum of an index accepted: %r' % x)
        for c in ea['cols']:
            v = es[A][c['n']]
            for prim, ok in ((ft.primitives.Sum, c['t'] in ('num', 'int')), (ft.primitives.PercentTrue, c['t'] == 'bool'),
                             (ft.primitives.Mode, c['t'] == 'cat')):
                x, err = raises(lambda: ft.Feature(v, parent_entity=es[B], primitive=prim))
                if (x is not None) != ok:
                    raise Violation('%s of a %s column: %r %r' % (prim.__name__, c['t'], x, err))
    for c in ea['cols']:
        v = es[A][c['n']]
        m, err = raises(lambda: ft.Feature(v, primitive=ft.primitives.Absolute))
        if (m is not None) != (c['t'] in ('num', 'int')):
            raise Violation('absolute value of a %s column: %r %r' % (c['t'], m, err))
        if c['t'] in ('num', 'int'):
            multi = ft.Feature(v, primitive=build.PlusMinus)
            for bad in (lambda: ft.Feature(multi, primitive=ft.primitives.Absolute), lambda: multi[2], lambda: multi[0][0],
                        lambda: ft.Feature(v)[0],
                        lambda: ft.Feature([v, ft.Feature(es[B][eb['index']])], primitive=ft.primitives.AddNumeric)
                        if A != B else 1 / 0):
                x, err = raises(bad)
                if x is not None:
                    raise Violation('accepted: %r' % x)
            for o in ea['cols']:
                g, err = raises(lambda: ft.Feature(v, primitive=ft.primitives.CumSum, groupby=es[A][o['n']]))
                if (g is not None) != (o['t'] == 'cat'):
                    raise Violation('group by a %s column: %r %r' % (o['t'], g, err))
            for l in ea['links']:
                g, err = raises(lambda: ft.Feature(v, primitive=ft.primitives.CumSum, groupby=es[A][l['col']]))
                if g is None:
                    raise Violation('group by a foreign key: %r' % err)


CHECKS = [Sub('names', def_cases(min_n=2), names_run, quick=500), Sub('graph', graph_cases(), graph_run, quick=250),
          Sub('copies', copy_cases(), copy_run, quick=250), Sub('operators', op_cases(), op_run, quick=800),
          Sub('describe', describe_cases(), describe_run, quick=500), Sub('refused', refuse_cases(), refuse_run, quick=200)]
