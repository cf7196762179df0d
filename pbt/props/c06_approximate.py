"""approximate: only direct features of parents' aggregations are taken from the
start of the cutoff's bucket; everything else is exact."""
import featuretools as ft
from hypothesis import strategies as st

from pbt import build, gen
from pbt.common import plain
from pbt.core import Skip, Sub, Violation
from pbt.model import Model, default_of, n_out, same
from pbt.props.c01_no_leak import direct_of_agg

ID = 'C06'
RULE = ('Entity set, cutoff rows and features (with direct features of parent aggregations, chains of them, and '
        'transforms of them) are generated with a bucket width of 1-30 hours or days; every cell is compared with '
        'the reference evaluation in which precisely the approximated aggregations are evaluated at the start of '
        'the bucket. Non-trivial: at least one approximated feature whose bucket start differs from the cutoff.')
EPOCH_H = 18262 * 24  # hours from 1970-01-01 to 2020-01-01


def floor(t, k):
    return (t + EPOCH_H) // k * k - EPOCH_H


@st.composite
def chain(draw, spec, target, hops=2):
    """direct (of direct) of an aggregation"""
    links = gen.ent_of(spec, target)['links']
    if not links:
        return None
    li = draw(st.integers(0, len(links) - 1))
    p = links[li]['p']
    b = None
    if hops > 1 and draw(st.booleans()):
        b = draw(chain(spec, p, hops - 1))
    if b is None:
        g = gen.Gen(draw, spec, windows=draw(st.booleans()), full=False)
        b = g.g_agg(p, draw(st.sampled_from(['num', 'cat', 'multi'])), 2)
    if b is None:
        return None
    return {'k': 'dir', 'e': target, 'link': li, 'b': b, 't': b['t']}


@st.composite
def cases(draw):
    deep = draw(st.integers(0, 3)) == 0
    if deep:
        # a chain of four entities, and a child of one of them
        spec = draw(gen.es_specs(min_ents=5, max_ents=5, max_rows=4, times='mixed', min_time_ents=1, linear=4))
        target = draw(st.sampled_from(['e3', 'e3', 'e2']))
    else:
        spec = draw(gen.es_specs(min_ents=draw(st.sampled_from([2, 3, 3])), max_ents=4, times='mixed',
                                 min_time_ents=1))
        children = [e['id'] for e in spec['ents'] if e['links']]
        target = draw(st.sampled_from(children or ['e0']))
    co = draw(gen.cutoffs(spec, target, modes=('rows',), max_rows=6))
    fs = draw(gen.feature_lists(spec, target, depth=2, windows=True, full=False, min_n=1, max_n=2))
    out = []
    for _ in range(draw(st.integers(1, 2))):
        d = draw(chain(spec, target, 4 if deep else 2))
        if d is not None and d not in out:
            out.append(d)
            if d['t'] == 'num' and draw(st.booleans()):
                out.append({'k': 'tr', 'p': 'negate', 'e': target, 'b': [d], 't': 'num'})
            if d['t'] == 'num' and draw(st.integers(0, 3)) == 0:
                b = draw(st.sampled_from([d, d, out[-1]]))
                out.append({'k': 'tr', 'p': draw(st.sampled_from(['cum_sum', 'cum_max', 'percentile'])), 'e': target,
                            'b': [b], 't': 'num'})
    for f in fs:
        if f not in out:
            out.append(f)
    out = list(draw(st.permutations(out)))
    return {'spec': spec, 'target': target, 'co': co, 'feats': out, 'include': draw(st.booleans()),
            'window': draw(st.one_of(st.none(), st.none(), st.integers(1, 15))),
            'chunk': draw(st.sampled_from([None, None, 1, 2])),
            'approx': draw(st.one_of(st.sampled_from([[1, 'd'], [24, 'h'], [90, 'm'], [1, 'w'], ]),
                                     st.tuples(st.integers(1, 30), st.just('h')).map(list)))}


def approximated(f):
    """(path of links, aggregation) if the requested feature f is approximated"""
    if f['k'] != 'dir':
        return None
    path = []
    while f['k'] == 'dir':
        path.append((f['e'], f['link']))
        f = f['b']
    return (tuple(path), f) if f['k'] == 'agg' else None


def all_rows(x):
    return x['k'] in ('tr', 'gtr') and x['p'] in gen.FULL


def is_exact(f, feats):
    """nothing that needs all the rows can be made of an approximated feature, so
    that these are not approximated"""
    return any(all_rows(x) and f in list(gen.walk(x)) for g in feats for x in gen.walk(g))


def reads(f, path, approx):
    """an approximated aggregation is part of f"""
    if f['k'] == 'agg':
        return (path, f) in approx
    if f['k'] == 'dir':
        return reads(f['b'], path + ((f['e'], f['link']),), approx)
    return any(reads(b, path, approx) for b in (f['b'] if isinstance(f.get('b'), list) else [f['b']] if f.get('b') else []))


class ApproxModel(object):
    def __init__(self, exact, binned, approx):
        self.exact, self.binned, self.approx = exact, binned, approx
        self.used = False

    def value(self, f, iid):
        i = self.exact.row_of(f['e'], iid)
        if i is None:
            return default_of(f)
        return self.at(f, i, ())

    def at(self, f, i, path):
        """value of f for row i, reached from the target through forward links"""
        if f['k'] == 'agg' and (path, f) in self.approx:
            self.used = True
            return self.binned.value(f, gen.ent_of(self.exact.spec, f['e'])['ids'][i])
        if f['k'] == 'dir':
            e = gen.ent_of(self.exact.spec, f['e'])
            p = e['links'][f['link']]['p']
            j = self.exact.row_of(p, e['links'][f['link']]['v'][i])
            if j is None:
                return default_of(f['b'])
            return self.at(f['b'], j, path + ((f['e'], f['link']),))
        if f['k'] == 'sl':
            return self.at(f['b'], i, path)[f['i']]
        if f['k'] == 'tr' and not all_rows(f):
            from pbt.model import apply_tr
            return apply_tr(f, [[self.at(b, i, path)] for b in f['b']], self.exact.time)[0]
        return self.exact.column(f)[i]


def run(case, ctx):
    spec, target, co = case['spec'], case['target'], case['co']
    es = build.build_es(spec)
    feats = build.build_features(es, spec, case['feats'])
    kw = build.cutoff_args(spec, target, co)
    if case['window']:
        kw['training_window'] = ft.Timedelta(case['window'], 'h')
    n, unit = case['approx']
    hours = {'h': n, 'd': 24 * n, 'w': 168 * n, 'm': n / 60.0}[unit]
    fm = ft.calculate_feature_matrix(feats, es, include_cutoff_time=case['include'], chunk_size=case['chunk'],
                                     approximate=ft.Timedelta(n, unit), **kw)
    rows = [tuple(r) for r in co['rows']]
    if [plain(x) for x in fm.index] != [r[0] for r in rows]:
        raise Violation('row index %r, expected %r' % (list(fm.index), [r[0] for r in rows]))
    approx = [a for a in (approximated(f) for f in case['feats'] if not is_exact(f, case['feats'])) if a]
    full = [x for f in case['feats'] for x in gen.walk(f) if all_rows(x) and x['e'] == target]
    if any(reads(x, (), approx) for x in full):
        raise Skip()
    ctx.label('all rows', bool(full))
    ctx.label('kept exact', any(is_exact(f, case['feats']) for f in case['feats'] if approximated(f)))
    ctx.label('approximated', bool(approx))
    ctx.label('chain', any(len(a[0]) > 1 for a in approx))
    ctx.label('long chain', any(len(a[0]) > 2 for a in approx))
    for pos, (iid, t) in enumerate(rows):
        b = floor(t, hours)
        m = ApproxModel(Model(spec, t, case['include'], case['window']),
                        Model(spec, b, case['include'], case['window']), approx)
        ctx.nt(bool(approx) and b != t)
        for f, feat in zip(case['feats'], feats):
            exp = m.value(f, iid)
            names = feat.get_feature_names()
            for nm, x in zip(names, exp if n_out(f) > 1 else (exp,)):
                act = fm[nm].iloc[pos]
                if not same(x, act):
                    raise Violation('approximate=%r %s of instance %r at %r (bucket start %r): got %r, expected %r'
                                    % (case['approx'], nm, iid, t, b, plain(act), x))


@st.composite
def chain_cases(draw):
    """direct features through one to three parents of simple aggregations whose rows have times"""
    spec = draw(gen.es_specs(min_ents=5, max_ents=5, min_rows=2, max_rows=6, times='mixed', min_time_ents=1, linear=4))
    last = gen.ent_of(spec, 'e4')
    n = len(last['ids'])
    top = draw(st.sampled_from(['e0', 'e0', 'e1']))
    last['times'] = draw(st.lists(gen.TIMES, min_size=n, max_size=n))
    last['links'].append({'p': top, 'col': 'up_key', 'v': draw(
        st.lists(st.sampled_from(list(gen.ent_of(spec, top)['ids'])), min_size=n, max_size=n))})
    g = gen.Gen(draw, spec, full=False)
    nums = g.identities('e4', 'num')
    f = {'k': 'agg', 'p': draw(st.sampled_from(['sum', 'max', 'last'])) if nums else 'count', 'e': top,
         'path': [['e4', len(last['links']) - 1]], 'b': [draw(st.sampled_from(nums)) if nums else g.identities('e4', 'idx')[0]],
         'where': None, 'prev': None, 't': 'num'}
    cnt = dict(f, p='count', b=[g.identities('e4', 'idx')[0]])
    at = int(top[1])
    target = 'e%d' % draw(st.sampled_from([3, 3, 3, 2, at + 1]))
    feats = []
    for b in draw(st.sampled_from([[cnt], [cnt, f], [f]])):
        for k in range(at + 1, int(target[1]) + 1):
            up = [i for i, l in enumerate(gen.ent_of(spec, 'e%d' % k)['links']) if l['p'] == 'e%d' % (k - 1)]
            b = {'k': 'dir', 'e': 'e%d' % k, 'link': draw(st.sampled_from(up)), 'b': b, 't': 'num'}
        if b not in feats:
            feats.append(b)
    ids = list(gen.ent_of(spec, target)['ids'])
    T = sorted({t + d for t in last['times'] for d in (0, 1, 3)})
    return {'spec': spec, 'target': target, 'feats': feats, 'include': draw(st.booleans()), 'window': None, 'chunk': None,
            'co': {'mode': 'rows', 'rows': draw(st.lists(st.tuples(st.sampled_from(ids), st.sampled_from(T)).map(list),
                                                         min_size=1, max_size=4, unique_by=tuple))},
            'approx': draw(st.sampled_from([[1, 'd'], [7, 'h'], [3, 'h'], [30, 'h']]))}


CHECKS = [Sub('approximate', cases(), run, quick=1000), Sub('chains', chain_cases(), run, quick=250)]
