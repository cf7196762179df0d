"""Hypothesis strategies for plain-data descriptions of entity sets, features
and cutoff times.  Nothing in here touches the library.

Time is an integer number of hours after 2020-01-01 (or a plain number, when
the entity set's time indexes are numeric).
"""
import copy

from hypothesis import strategies as st

NUMS = st.one_of(st.none(), st.integers(-4, 9), st.sampled_from([0.5, -1.5, 2.25]))
CATS = st.sampled_from(['a', 'b', 'c', None])
BOOLS = st.booleans()
T_MAX = 24
TIMES = st.integers(0, T_MAX)


def values(t, n):
    el = {'num': NUMS, 'int': st.integers(-5, 9), 'cat': CATS, 'bool': BOOLS,
          'dt': st.one_of(st.none(), TIMES)}[t]
    return st.lists(el, min_size=n, max_size=n)


COLS = [('x', 'num'), ('y', 'int'), ('c', 'cat'), ('b', 'bool'), ('d', 'dt'), ('z', 'num'),
        ('c2', 'cat')]


@st.composite
def es_specs(draw, min_ents=1, max_ents=4, max_rows=7, min_rows=1, times='mixed', secondary=True,
             unknown_fk=True, null_fk=True, numeric_time=False, force_cols=(), min_time_ents=0,
             multi_links=True, nat_time=False, sec_often=False, linear=0, categories=True):
    """times: 'mixed' | 'all' | 'none' (which entities have a time index).
    linear: the first so many entities form a chain of parents and children."""
    n_ents = draw(st.integers(min_ents, max_ents))
    ents = []
    for i in range(n_ents):
        eid = 'e%d' % i
        n = draw(st.integers(min_rows, max_rows))
        idtype = draw(st.sampled_from(['int', 'int', 'str']))
        start = draw(st.sampled_from([0, 1, 5]))
        ids = list(range(start, start + n))
        order = draw(st.permutations(ids)) if n <= 8 else ids
        ids = list(order)
        if idtype == 'str':
            ids = ['k%d' % k for k in ids]
        index = draw(st.sampled_from(['id', '%s_id' % eid]))
        ent = {'id': eid, 'index': index, 'idtype': idtype, 'ids': ids, 'times': None,
               'cols': [], 'links': [], 'sec': None}
        if idtype == 'str' and categories and draw(st.integers(0, 5)) == 0:
            ent['cat'] = True  # stored as pandas categories
        has_time = (times == 'all' or (times == 'mixed' and draw(st.booleans())) or
                    i >= n_ents - min_time_ents)
        if times != 'none' and has_time:
            el = st.one_of(TIMES, TIMES, TIMES, st.none()) if nat_time else TIMES
            ent['times'] = draw(st.lists(el, min_size=n, max_size=n))
        k = draw(st.integers(1, 4))
        chosen = [c for c in COLS if c[0] in force_cols]
        rest = [c for c in COLS if c[0] not in force_cols]
        idx = draw(st.lists(st.integers(0, len(rest) - 1), min_size=k, max_size=k, unique=True))
        chosen += [rest[j] for j in sorted(idx)]
        for name, t in chosen:
            ent['cols'].append({'n': name, 't': t, 'v': draw(values(t, n))})
            if t == 'cat' and categories and draw(st.integers(0, 5)) == 0:
                ent['cols'][-1]['cat'] = True
        if secondary and ent['times'] is not None and not numeric_time and (draw(st.integers(0, 3)) == 0 or
                                                                                 (sec_often and draw(st.integers(0, 2)))):
            cands = [c['n'] for c in ent['cols'] if c['t'] in ('num', 'cat')]
            if cands:
                sv = draw(st.lists(st.one_of(TIMES, st.none()), min_size=n, max_size=n))
                ent['sec'] = {'n': 'sec_t', 'v': sv,
                              'cols': draw(st.lists(st.sampled_from(cands), min_size=1, max_size=2,
                                                    unique=True))}
        if i > 0:
            if multi_links:
                n_links = draw(st.sampled_from([1, 1, 1, 1, 2, 2, 0] if i > 1 and not linear else [1, 1, 2]))
            else:
                n_links = 1
            seen = {}
            for li in range(n_links):
                p = i - 1 if li == 0 and i < linear else draw(st.integers(0, i - 1))
                if not multi_links and p in seen:
                    continue
                par = ents[p]
                cnt = seen.get(p, 0)
                seen[p] = cnt + 1
                col = '%s_key' % par['id'] + ('' if cnt == 0 else str(cnt + 1))
                pool = list(par['ids'])
                if draw(st.booleans()):     # several rows for each parent
                    pool = pool[:2]
                opts = [st.sampled_from(pool)] * 4
                if unknown_fk:
                    opts.append(st.just(99 if par['idtype'] == 'int' else 'zz'))
                if null_fk and par['idtype'] == 'str':
                    opts.append(st.none())
                ent['links'].append({'p': par['id'], 'col': col,
                                     'v': draw(st.lists(st.one_of(*opts), min_size=n, max_size=n))})
        ents.append(ent)
    return {'ents': ents, 'tt': 'num' if numeric_time else 'dt'}


def ent_of(spec, eid):
    for e in spec['ents']:
        if e['id'] == eid:
            return e


def back_links(spec, eid):
    """[(child id, link index)]"""
    return [(e['id'], k) for e in spec['ents'] for k, l in enumerate(e['links']) if l['p'] == eid]


def back_paths(spec, eid, max_len=3):
    out = []

    def rec(cur, path):
        for c, k in back_links(spec, cur):
            p = path + [[c, k]]
            out.append(p)
            if len(p) < max_len:
                rec(c, p)
    rec(eid, [])
    return out


# ------------------------------------------------------------------ features
AGG = {  # primitive -> (input types, output type)
    'count': (('idx',), 'num'), 'sum': (('num',), 'num'), 'mean': (('num',), 'num'),
    'min': (('num',), 'num'), 'max': (('num',), 'num'), 'median': (('num',), 'num'),
    'num_unique': (('disc',), 'num'), 'mode': (('cat',), 'cat'), 'first': (('numcat',), 'same'),
    'last': (('numcat',), 'same'), 'num_true': (('bool',), 'num'), 'percent_true': (('bool',), 'num'),
    'any': (('bool',), 'boolx'), 'all': (('bool',), 'boolx'), 'minmax': (('num',), 'multi'),
    'sum_prod': (('num', 'num'), 'num'), 'time_since_last': (('ti',), 'num'),
    'time_since_first': (('ti',), 'num'), 'time_span': (('ti',), 'num'),
}
TR = {  # name -> (input types, output type, row-wise, params)
    'absolute': (('num',), 'num', None), 'negate': (('num',), 'num', None),
    'add_numeric': (('num', 'num'), 'num', None), 'multiply_numeric': (('num', 'num'), 'num', None),
    'add_numeric_scalar': (('num',), 'num', 'v'), 'greater_than_scalar': (('num',), 'bool', 'v'),
    'less_than_equal_to_scalar': (('num',), 'bool', 'v'),
    'greater_than': (('num', 'num'), 'bool', None),
    'is_null': (('any',), 'bool', None), 'equal_scalar': (('cat',), 'bool', 'c'),
    'isin': (('cat',), 'bool', 'cl'), 'not': (('bool',), 'bool', None),
    'and': (('bool', 'bool'), 'bool', None), 'or': (('bool', 'bool'), 'bool', None),
    'time_since': (('dt',), 'num', None), 'hour': (('dt',), 'ordx', None),
    'plus_minus': (('num',), 'multi', None),
}
FULL = {'cum_sum': ('num',), 'cum_max': ('num',), 'cum_min': ('num',), 'cum_count': ('disc',),
        'diff': ('num',), 'percentile': ('num',),
        'time_since_previous': ('ti',)}
PREVS = [['h', 1], ['h', 3], ['h', 8], ['d', 1], ['hm', 2, 30], ['hm', 5, 30], ['o', 1], ['o', 2], ['o', 3],
         ['h', 2.5], ['m', 90], ['m', 3], ['d', 0.5]]
SAME_NUMBER = [[['h', 3], ['o', 3], ['m', 3]], [['h', 1], ['d', 1], ['o', 1]]]  # windows that differ in the unit
GTR = ['cum_sum', 'cum_max', 'cum_min', 'cum_mean', 'cum_count', 'diff', 'absolute', 'negate']


class Gen(object):
    def __init__(self, draw, spec, windows=True, full=True, aggs=None, use_time=True, multi=True,
                 rowwise_only=False, no_where=False, no_agg=False, no_trs=()):
        self.no_trs = no_trs
        self.draw = draw
        self.spec = spec
        self.windows = windows
        self.full = full
        self.aggs = aggs
        self.use_time = use_time
        self.multi = multi
        self.no_where = no_where
        self.no_agg = no_agg

    def pick(self, seq):
        return self.draw(st.sampled_from(list(seq)))

    def identities(self, eid, want):
        e = ent_of(self.spec, eid)
        out = []
        for c in e['cols']:
            if c.get('vt', 'Numeric') not in ('Numeric', 'Categorical', 'Boolean', 'Datetime') or \
                    (c.get('vt') == 'Categorical' and c['t'] == 'int'):
                continue
            t = {'num': 'num', 'int': 'num', 'cat': 'cat', 'bool': 'bool', 'dt': 'dt'}.get(c['t'], 'x')
            if fits(t, want):
                out.append({'k': 'id', 'e': eid, 'v': c['n'], 't': t})
        if e['sec'] and fits('dt', want):
            out.append({'k': 'id', 'e': eid, 'v': e['sec']['n'], 't': 'dt'})
        if fits('idx', want):
            out.append({'k': 'id', 'e': eid, 'v': e['index'], 't': 'idx'})
        if fits('fk', want):
            for l in e['links']:
                out.append({'k': 'id', 'e': eid, 'v': l['col'], 't': 'fk'})
        if e['times'] is not None and fits('ti', want) and (self.spec['tt'] == 'dt' or want == 'out'):
            out.append({'k': 'id', 'e': eid, 'v': 't', 't': 'ti'})
        return out

    def feature(self, eid, want, depth, top=False):
        """A feature spec of entity eid whose type fits want, or None."""
        kinds = []
        ids = self.identities(eid, want)
        if ids:
            kinds.append('id')
        if depth > 0 and want not in ('idx', 'ti', 'fk', 'disc_id'):
            if back_links(self.spec, eid) and not self.no_agg:
                kinds += ['agg'] * 4
            if ent_of(self.spec, eid)['links']:
                kinds += ['dir'] * 2
            kinds += ['tr'] * 2
            if self.full:
                kinds += ['full', 'gtr']
            if self.multi and not top:
                # (slices are inputs of features; they cannot be requested by
                # themselves)
                kinds += ['slice']
        while kinds:
            k = self.pick(kinds)
            f = getattr(self, 'g_' + k)(eid, want, depth)
            if f is not None:
                return f
            kinds = [x for x in kinds if x != k]
        return None

    def g_id(self, eid, want, depth):
        ids = self.identities(eid, want)
        return self.pick(ids) if ids else None

    def g_agg(self, eid, want, depth):
        paths = back_paths(self.spec, eid, 3)
        if not paths:
            return None
        path = self.pick(paths)
        child = path[-1][0]
        cands = []
        for p, (ins, out) in sorted(AGG.items()):
            if self.aggs and p not in self.aggs:
                continue
            if out == 'multi' and want != 'multi':
                continue
            if out == 'same':
                if not (fits('num', want) or fits('cat', want)):
                    continue
            elif not fits(out, want):
                continue
            if not self.use_time and p.startswith('time'):
                continue
            if 'ti' in ins and ent_of(self.spec, child)['times'] is None:
                continue
            cands.append(p)
        if not cands:
            return None
        p = self.pick(cands)
        ins, out = AGG[p]
        bases = []
        for t in ins:
            if t == 'numcat':
                t = 'numcat' if fits('num', want) and fits('cat', want) else \
                    ('num' if fits('num', want) else 'cat')
            if t == 'disc':
                t = self.pick(['cat', 'fk', 'cat'])
            f = self.feature(child, t, depth - 1)
            if f is None and t in ('cat', 'fk'):
                f = self.feature(child, 'fk' if t == 'cat' else 'cat', depth - 1)
            if f is None:
                return None
            bases.append(f)
        if out == 'same':
            out = bases[0]['t']
        if p == 'mode':
            out = 'cat'
        where = None
        if not self.no_where and self.draw(st.integers(0, 2)) == 0:
            where = self.feature(child, 'bool', min(1, depth - 1) if depth > 1 else 0)
            if where is None:
                where = self.g_tr(child, 'bool', 1)
        prev = None
        if self.windows and ent_of(self.spec, child)['times'] is not None and \
                self.draw(st.integers(0, 2)) == 0:
            prev = self.pick(PREVS)
        return {'k': 'agg', 'p': p, 'e': eid, 'path': path, 'b': bases, 'where': where, 'prev': prev,
                't': out}

    def g_dir(self, eid, want, depth):
        links = ent_of(self.spec, eid)['links']
        if not links or want in ('bool',):
            return None
        li = self.draw(st.integers(0, len(links) - 1))
        b = self.feature(links[li]['p'], want if want != 'any' else 'any', depth - 1)
        if b is None:
            return None
        t = b['t']
        if t in ('idx', 'ti', 'fk'):
            t = 'other'
        if t == 'bool':
            t = 'boolx'
        return {'k': 'dir', 'e': eid, 'link': li, 'b': b, 't': t}

    def g_tr(self, eid, want, depth):
        cands = []
        for p, (ins, out, par) in sorted(TR.items()):
            if out == 'multi' and want != 'multi' or p in self.no_trs:
                continue
            if fits(out, want):
                if p == 'time_since' and not self.use_time:
                    continue
                cands.append(p)
        while cands:
            p = self.pick(cands)
            ins, out, par = TR[p]
            bases = []
            for t in ins:
                f = self.feature(eid, t, depth - 1)
                if f is None:
                    break
                bases.append(f)
            if len(bases) == len(ins):
                r = {'k': 'tr', 'p': p, 'e': eid, 'b': bases, 't': out}
                if par == 'v':
                    r['v'] = self.pick([-1, 0, 2, 1.5])
                elif par == 'c':
                    r['v'] = self.pick(['a', 'b'])
                elif par == 'cl':
                    r['v'] = self.pick([['a'], ['a', 'c'], ['b', 'zz']])
                return r
            cands = [x for x in cands if x != p]
        return None

    def g_full(self, eid, want, depth):
        if not fits('num', want):
            return None
        p = self.pick(sorted(FULL))
        t = FULL[p][0]
        if t == 'ti':
            b = self.feature(eid, 'ti', 0)
        elif t == 'disc':
            b = self.feature(eid, 'cat', 0) or self.feature(eid, 'fk', 0)
        else:
            b = self.feature(eid, t, depth - 1)
        if b is None:
            return None
        return {'k': 'tr', 'p': p, 'e': eid, 'b': [b], 't': 'num'}

    def g_gtr(self, eid, want, depth):
        if not fits('num', want):
            return None
        g = self.feature(eid, 'fk', 0)
        g2 = self.feature(eid, 'cat', 0)
        opts = [x for x in (g, g2) if x]
        if not opts:
            return None
        g = self.pick(opts)
        p = self.pick(GTR)
        if p == 'cum_count':
            b = self.pick([x for x in (self.feature(eid, 'cat', 0), self.feature(eid, 'fk', 0)) if x])
        else:
            b = self.feature(eid, 'num', depth - 1)
        if b is None:
            return None
        return {'k': 'gtr', 'p': p, 'e': eid, 'b': [b], 'g': g, 't': 'num'}

    def g_slice(self, eid, want, depth):
        if not fits('num', want):
            return None
        f = self.multi_feature(eid, depth)
        if f is None:
            return None
        return {'k': 'sl', 'e': eid, 'b': f, 'i': self.draw(st.integers(0, 1)), 't': 'num'}

    def variant(self, f):
        """f with one part exchanged: features that are evaluated together with f"""
        f = copy.deepcopy(f)
        node = self.pick(list(walk(f)))
        k = node['k']
        if k == 'id':
            opts = [x for x in self.identities(node['e'], node['t']) if x['v'] != node['v']]
            if not opts:
                return None
            node.update(self.pick(opts))
        elif k == 'agg':
            what = self.pick(['p', 'where', 'prev'])
            ins, out = AGG[node['p']]
            if what == 'p':
                opts = [p for p, (i, o) in sorted(AGG.items())
                        if i == ins and o == out and p != node['p'] and (not self.aggs or p in self.aggs)]
                if not opts:
                    return None
                node['p'] = self.pick(opts)
            elif what == 'where':
                if self.no_where:
                    return None
                node['where'] = self.g_tr(node['path'][-1][0], 'bool', 1) if self.draw(st.booleans()) else None
            else:
                if not self.windows or ent_of(self.spec, node['path'][-1][0])['times'] is None:
                    return None
                node['prev'] = self.pick(PREVS)
        elif k == 'tr':
            if 'v' in node:
                node['v'] = self.pick([['a'], ['c', 'b']] if isinstance(node['v'], list) else
                                      ['a', 'c'] if isinstance(node['v'], str) else [3, 1, 0.5])
            else:
                table = TR if node['p'] in TR else None
                if table is None:
                    opts = [p for p in sorted(FULL) if FULL[p] == FULL[node['p']] and p != node['p']]
                else:
                    opts = [p for p in sorted(TR) if TR[p] == TR[node['p']] and p != node['p']]
                if not opts:
                    return None
                node['p'] = self.pick(opts)
        elif k == 'gtr':
            opts = [p for p in GTR if (p == 'cum_count') == (node['p'] == 'cum_count') and p != node['p']]
            if not opts:
                return None
            node['p'] = self.pick(opts)
        elif k == 'sl':
            node['i'] = 1 - node['i']
        elif k == 'dir':
            opts = [i for i, l in enumerate(ent_of(self.spec, node['e'])['links'])
                    if i != node['link'] and l['p'] == ent_of(self.spec, node['e'])['links'][node['link']]['p']]
            if not opts:
                return None
            node['link'] = self.pick(opts)
        return f

    def multi_feature(self, eid, depth):
        f = None
        opts = ['tr']
        if back_links(self.spec, eid) and not self.no_agg:
            opts += ['agg', 'agg']
        if ent_of(self.spec, eid)['links'] and depth > 1:
            opts.append('dir')
        while opts and f is None:
            o = self.pick(opts)
            opts = [x for x in opts if x != o]
            if o == 'dir':
                li = self.draw(st.integers(0, len(ent_of(self.spec, eid)['links']) - 1))
                b = self.multi_feature(ent_of(self.spec, eid)['links'][li]['p'], depth - 1)
                if b is not None:
                    f = {'k': 'dir', 'e': eid, 'link': li, 'b': b, 't': 'multi'}
            else:
                f = getattr(self, 'g_' + o)(eid, 'multi', depth)
        return f


def fits(t, want):
    if want == 'any':
        return t in ('num', 'cat', 'bool', 'dt', 'boolx')
    if want == 'numcat':
        return t in ('num', 'cat')
    if want == 'out':
        return t in ('num', 'cat', 'bool', 'dt', 'boolx', 'fk', 'ti', 'ordx')
    if want == 'disc':
        return t in ('cat', 'fk')
    if want == 'dt':
        return t in ('dt', 'ti')
    return t == want


@st.composite
def feature_lists(draw, spec, target, min_n=1, max_n=4, depth=3, **kw):
    g = Gen(draw, spec, **kw)
    n = draw(st.integers(min_n, max_n))
    out = []
    for _ in range(n):
        d = draw(st.integers(1, depth))
        want = draw(st.sampled_from(['out', 'num', 'out', 'cat', 'multi' if kw.get('multi', True) else 'num']))
        if want == 'multi':
            f = g.multi_feature(target, d)
        else:
            f = g.feature(target, want, d, top=True)
        if f is not None and f not in out:
            out.append(f)
            while draw(st.integers(0, 2)) == 0:
                v = g.variant(f)
                if v is not None and v not in out:
                    out.append(v)
    if not out:
        out = [{'k': 'id', 'e': target, 'v': ent_of(spec, target)['index'], 't': 'idx'}]
    return out


@st.composite
def sibling_lists(draw, spec, target, depth=2, windows=False, use_time=True, full=True, max_n=5):
    """Features that share their path, group or base, so that the library
    evaluates them together, and that differ in the rest."""
    g = Gen(draw, spec, windows=windows, use_time=use_time, full=full)
    e = ent_of(spec, target)
    paths = back_paths(spec, target, 3)
    kinds = (['agg'] * 3 if paths else []) + (['dir'] * 3 if e['links'] else []) + (['gtr'] if full else []) + ['tr']
    kind = draw(st.sampled_from(kinds))
    n = draw(st.integers(2, max_n))
    out = []
    if kind == 'dir':
        li = draw(st.integers(0, len(e['links']) - 1))
        p = e['links'][li]['p']
        for _ in range(n):
            want = draw(st.sampled_from(['num', 'num', 'cat', 'multi']))
            b = None
            if draw(st.integers(0, 3)) and back_links(spec, p):
                g.aggs = draw(st.sampled_from([None, ('count', 'sum', 'num_true', 'percent_true', 'any', 'all')]))
                b = g.g_agg(p, want, depth)
                g.aggs = None
            b = b or g.feature(p, 'num', depth)
            if b is not None:
                out.append({'k': 'dir', 'e': target, 'link': li, 'b': b,
                            't': b['t'] if b['t'] in ('num', 'cat', 'multi') else 'other'})
    elif kind == 'agg':
        path = draw(st.sampled_from(paths))
        child = path[-1][0]
        wheres = [None] + [g.g_tr(child, 'bool', 1) for _ in range(2)]
        prevs = [None]
        if windows and ent_of(spec, child)['times'] is not None:
            prevs += draw(st.one_of(st.lists(st.sampled_from(PREVS), min_size=1, max_size=2), st.sampled_from(SAME_NUMBER)))
        for _ in range(n):
            f = g.g_agg(target, draw(st.sampled_from(['num', 'num', 'num', 'cat', 'multi'])), depth)
            if f is None or f['path'][-1][0] != child:
                f = {'k': 'agg', 'p': 'count', 'e': target, 'b': [g.identities(child, 'idx')[0]], 't': 'num'}
            f.update(path=path, where=draw(st.sampled_from(wheres)), prev=draw(st.sampled_from(prevs)))
            out.append(f)
    elif kind == 'gtr':
        for _ in range(n):
            f = g.g_gtr(target, 'num', depth)
            if f is not None:
                out.append(f)
    else:
        for _ in range(n):
            f = (g.g_full if full and draw(st.booleans()) else g.g_tr)(target, 'num', depth)
            if f is not None:
                out.append(f)
    out = [f for i, f in enumerate(out) if f not in out[:i]]
    if draw(st.integers(0, 3)) == 0 or not out:
        for f in draw(feature_lists(spec, target, max_n=2, depth=depth, windows=windows, use_time=use_time, full=full)):
            if f not in out:
                out.append(f)
    return list(draw(st.permutations(out)))


@st.composite
def sec_feature(draw, spec, target):
    """A feature that reads a column with a secondary time index, or None"""
    opts = []
    e = ent_of(spec, target)

    def cols(x):
        return [c for c in x['cols'] if x['sec'] and c['n'] in x['sec']['cols']] + \
            ([{'n': x['sec']['n'], 't': 'dt'}] if x['sec'] else [])
    for c in cols(e):
        opts.append({'k': 'id', 'e': target, 'v': c['n'], 't': c['t']})
    for path in back_paths(spec, target, 2):
        for c in cols(ent_of(spec, path[-1][0])):
            if c['t'] == 'dt':
                opts.append({'k': 'agg', 'p': 'max', 'e': target, 'path': path, 'where': None, 'prev': None, 't': 'num',
                             'b': [{'k': 'tr', 'p': 'time_since', 'e': path[-1][0], 't': 'num',
                                    'b': [{'k': 'id', 'e': path[-1][0], 'v': c['n'], 't': 'dt'}]}]})
                continue
            for p in (['sum', 'mean', 'max', 'last'] if c['t'] == 'num' else ['num_unique', 'mode', 'last']):
                opts.append({'k': 'agg', 'p': p, 'e': target, 'path': path, 'where': None, 'prev': None,
                             't': 'cat' if c['t'] == 'cat' and p != 'num_unique' else 'num',
                             'b': [{'k': 'id', 'e': path[-1][0], 'v': c['n'], 't': c['t']}]})
    for i, l in enumerate(e['links']):
        for c in cols(ent_of(spec, l['p'])):
            opts.append({'k': 'dir', 'e': target, 'link': i, 't': c['t'],
                         'b': {'k': 'id', 'e': l['p'], 'v': c['n'], 't': c['t']}})
    if draw(st.integers(0, 3)) == 0:
        opts = [f for f in opts if f['t'] == 'dt' or f['k'] == 'agg' and f['b'][0]['k'] == 'tr'] or opts
    return draw(st.sampled_from(opts)) if opts else None


def walk(f):
    yield f
    for b in f.get('b') if isinstance(f.get('b'), list) else ([f['b']] if f.get('b') else []):
        for x in walk(b):
            yield x
    if f.get('where'):
        for x in walk(f['where']):
            yield x
    if f.get('g'):
        yield f['g']


@st.composite
def cutoffs(draw, spec, target, max_rows=5, allow_none=True, distinct_times=True, unknown=True,
            modes=('none', 'single', 'rows')):
    """{'mode': 'none'} | {'mode':'single','t':..,'ids':[..]|None} | {'mode':'rows','rows':[[id,t]..]}"""
    e = ent_of(spec, target)
    mode = draw(st.sampled_from([m for m in modes if allow_none or m != 'none']))
    pool = list(e['ids'])
    if unknown:
        pool = pool + [77 if e['idtype'] == 'int' else 'k77']
    if mode == 'none':
        ids = draw(st.one_of(st.none(), st.lists(st.sampled_from(pool), min_size=1, max_size=4, unique=True)))
        return {'mode': 'none', 'ids': ids}
    if mode == 'single':
        ids = draw(st.one_of(st.none(), st.lists(st.sampled_from(pool), min_size=1, max_size=4, unique=True)))
        return {'mode': 'single', 't': draw(st.integers(0, T_MAX + 2)), 'ids': ids}
    n = draw(st.integers(1, max_rows))
    rows = draw(st.lists(st.tuples(st.sampled_from(pool), st.integers(0, T_MAX + 2)).map(list),
                         min_size=n, max_size=n, unique_by=lambda r: (r[0], r[1])))
    return {'mode': 'rows', 'rows': rows}


def targets(spec):
    """entities, those that have children more often"""
    out = []
    for e in spec['ents']:
        out += [e['id']] * (5 if back_links(spec, e['id']) else 1)
    return st.sampled_from(out)
