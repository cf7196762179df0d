"""Reference evaluation of feature specs over entity set specs: a direct, slow,
row-at-a-time reading of the documented meaning of each feature.  Pure Python,
no use of the library or of pandas."""
import math

from .gen import back_links, ent_of


def nul(x):
    return x is None or (isinstance(x, float) and math.isnan(x))


def df_order(spec, e):
    """Row positions in the order the entity keeps them: by time, then by id."""
    n = len(e['ids'])
    if e['times'] is None:
        return list(range(n))
    key = lambda i: (e['times'][i] is None, e['times'][i] if e['times'][i] is not None else 0, e['ids'][i])
    return sorted(range(n), key=key)


DEFAULTS = {'count': 0, 'sum': 0, 'num_true': 0, 'percent_true': 0}


class Model(object):
    """time: last usable hour (None: no limit); window in hours or None."""

    def __init__(self, spec, time=None, include=True, window=None, lti=None, unit=3600.0):
        self.spec = spec
        self.time = time
        self.include = include
        self.window = window
        self.lti = lti
        self.memo = {}
        self._vis = {}

    # ---------------------------------------------------------------- rows
    def rows(self, eid):
        """visible rows (positions) in entity order"""
        if eid in self._vis:
            return self._vis[eid]
        e = ent_of(self.spec, eid)
        out = []
        for i in df_order(self.spec, e):
            if e['times'] is not None and self.time is not None:
                t = e['times'][i]
                if t is None:
                    continue
                if self.include:
                    if t > self.time:
                        continue
                elif t >= self.time:
                    continue
                if self.window is not None:
                    start = self.time - self.window
                    ok = t > start if self.include else t >= start
                    l = self.lti.get(eid, {}).get(e['ids'][i]) if self.lti else None
                    if l is not None:
                        ok = ok or (l > start if self.include else l >= start)
                    if not ok:
                        continue
            out.append(i)
        self._vis[eid] = out
        return out

    def row_of(self, eid, iid):
        e = ent_of(self.spec, eid)
        for i in self.rows(eid):
            if e['ids'][i] == iid:
                return i
        return None

    def fk(self, eid, link, i):
        v = ent_of(self.spec, eid)['links'][link]['v'][i]
        return v

    # ------------------------------------------------------------- columns
    def column(self, f):
        """{row position: value} for the visible rows of f's entity; multi-output
        features give tuples."""
        import json
        key = json.dumps(f, sort_keys=True)
        if key not in self.memo:
            self.memo[key] = getattr(self, 'c_' + f['k'])(f)
        return self.memo[key]

    def c_id(self, f):
        e = ent_of(self.spec, f['e'])
        rows = self.rows(f['e'])
        v = f['v']
        if v == e['index']:
            vals = e['ids']
        elif v == 't':
            vals = e['times']
        elif e['sec'] and v == e['sec']['n']:
            vals = e['sec']['v']
        else:
            vals = None
            for l in e['links']:
                if l['col'] == v:
                    vals = l['v']
            for c in e['cols']:
                if c['n'] == v:
                    vals = c['v']
        out = {}
        for i in rows:
            x = vals[i]
            if e['sec'] and v in e['sec']['cols'] + [e['sec']['n']] and self.time is not None:
                # a column that only becomes known after its secondary time (and
                # that time itself)
                s = e['sec']['v'][i]
                if s is not None and s >= self.time:
                    x = None
            out[i] = x
        return out

    def c_dir(self, f):
        e = ent_of(self.spec, f['e'])
        pid = e['links'][f['link']]['p']
        pe = ent_of(self.spec, pid)
        col = self.column(f['b'])
        byid = {pe['ids'][i]: col[i] for i in self.rows(pid)}
        d = default_of(f['b'])
        out = {}
        for i in self.rows(f['e']):
            k = self.fk(f['e'], f['link'], i)
            if k in byid:
                out[i] = byid[k]
            else:
                out[i] = d
        return out

    def c_sl(self, f):
        return {i: v[f['i']] for i, v in self.column(f['b']).items()}

    def c_tr(self, f):
        cols = [self.column(b) for b in f['b']]
        rows = self.rows(f['e'])
        vals = apply_tr(f, [[c[i] for i in rows] for c in cols], self.time)
        return dict(zip(rows, vals))

    def c_gtr(self, f):
        cols = [self.column(b) for b in f['b']]
        g = self.column(f['g'])
        out = {i: None for i in self.rows(f['e'])}
        groups = {}
        for i in self.rows(f['e']):
            if nul(g[i]):
                continue
            groups.setdefault(g[i], []).append(i)
        for rows in groups.values():
            vals = apply_tr(f, [[c[i] for i in rows] for c in cols], self.time)
            out.update(zip(rows, vals))
        return out

    def c_agg(self, f):
        # rows of the last entity of the path, by target row
        e = ent_of(self.spec, f['e'])
        child = f['path'][-1][0]
        # ancestor[child row] = set of parent rows
        cols = [self.column(b) for b in f['b']]
        where = self.column(f['where']) if f['where'] else None
        ce = ent_of(self.spec, child)
        out = {}
        for i in self.rows(f['e']):
            ids = {e['ids'][i]}
            sel = []
            for c, li in f['path']:
                cur = ent_of(self.spec, c)
                sel = [j for j in self.rows(c) if self.fk(c, li, j) in ids]
                ids = {cur['ids'][j] for j in sel}
            if where is not None:
                sel = [j for j in sel if where[j]]
            if f['prev'] and sel:
                if f['prev'][0] == 'o':
                    sel = sel[-f['prev'][1]:]
                else:
                    h = {'h': lambda p: p[1], 'd': lambda p: 24 * p[1], 'm': lambda p: p[1] / 60.0,
                         'hm': lambda p: p[1] + p[2] / 60.0}[f['prev'][0]](f['prev'])
                    sel = [j for j in sel if ce['times'][j] >= self.time - h]
            d = default_of(f)
            if not sel:
                out[i] = d
                continue
            v = apply_agg(f['p'], [[c[j] for j in sel] for c in cols], self.time)
            if not isinstance(v, tuple) and nul(v):
                v = d
            out[i] = v
        return out

    def value(self, f, iid):
        """value of f for an instance; default when the instance is unknown or
        not visible yet"""
        i = self.row_of(f['e'], iid)
        if i is None:
            return default_of(f)
        return self.column(f)[i]


def default_of(f):
    k = f['k']
    if k == 'dir':
        return default_of(f['b'])
    if k == 'agg':
        if f['p'] == 'minmax':
            return (None, None)
        return DEFAULTS.get(f['p'])
    if k == 'tr' and f['p'] == 'plus_minus':
        return (None, None)
    return None


def n_out(f):
    if f['k'] == 'dir':
        return n_out(f['b'])
    if f['k'] in ('agg', 'tr') and f['p'] in ('minmax', 'plus_minus'):
        return 2
    return 1


def num(v):
    return None if nul(v) else float(v)


def apply_agg(p, args, time):
    x = args[0]
    ok = [v for v in x if not nul(v)]
    if p == 'count':
        return len(ok)
    if p == 'sum':
        return sum(float(v) for v in ok)
    if p == 'mean':
        return sum(float(v) for v in ok) / len(ok) if ok else None
    if p == 'min':
        return min(ok) if ok else None
    if p == 'max':
        return max(ok) if ok else None
    if p == 'median':
        if not ok:
            return None
        s = sorted(float(v) for v in ok)
        m = len(s) // 2
        return s[m] if len(s) % 2 else (s[m - 1] + s[m]) / 2
    if p == 'num_unique':
        return len(set(ok))
    if p == 'mode':
        if not ok:
            return None
        cnt = {}
        for v in ok:
            cnt[v] = cnt.get(v, 0) + 1
        top = max(cnt.values())
        return min(v for v in cnt if cnt[v] == top)
    if p == 'first':
        return x[0]
    if p == 'last':
        return x[-1]
    if p == 'num_true':
        return sum(1 for v in x if v)
    if p == 'percent_true':
        return sum(1 for v in x if v) / len(x)
    if p == 'any':
        return any(bool(v) for v in x)
    if p == 'all':
        return all(bool(v) for v in x)
    if p == 'minmax':
        return (min(ok), max(ok)) if ok else (None, None)
    if p == 'sum_prod':
        return sum(float(a) * float(b) for a, b in zip(*args) if not nul(a) and not nul(b))
    if p == 'time_since_last':
        return (time - x[-1]) * 3600.0
    if p == 'time_since_first':
        return (time - x[0]) * 3600.0
    if p == 'time_span':
        return (max(ok) - min(ok)) * 3600.0 if ok else None
    raise KeyError(p)


def apply_tr(f, args, time):
    p = f['p']
    n = len(args[0])
    x = args[0]
    v = f.get('v')

    def rw(fn):
        return [fn(*[a[i] for a in args]) for i in range(n)]

    def nn(fn):
        return rw(lambda *a: None if any(nul(q) for q in a) else fn(*[float(q) for q in a]))

    def cmp(fn):
        return rw(lambda *a: False if any(nul(q) for q in a) else bool(fn(*[float(q) for q in a])))
    if p == 'absolute':
        return nn(abs)
    if p == 'negate':
        return nn(lambda a: -a)
    if p == 'add_numeric':
        return nn(lambda a, b: a + b)
    if p == 'multiply_numeric':
        return nn(lambda a, b: a * b)
    if p == 'add_numeric_scalar':
        return nn(lambda a: a + v)
    if p == 'greater_than_scalar':
        return cmp(lambda a: a > v)
    if p == 'less_than_equal_to_scalar':
        return cmp(lambda a: a <= v)
    if p == 'greater_than':
        return cmp(lambda a, b: a > b)
    if p == 'is_null':
        return rw(nul)
    if p == 'equal_scalar':
        return rw(lambda a: (not nul(a)) and a == v)
    if p == 'isin':
        return rw(lambda a: (not nul(a)) and a in v)
    if p == 'not':
        return rw(lambda a: not a)
    if p == 'and':
        return rw(lambda a, b: bool(a and b))
    if p == 'or':
        return rw(lambda a, b: bool(a or b))
    if p == 'time_since':
        return rw(lambda a: None if nul(a) else (time - a) * 3600.0)
    if p == 'hour':
        return rw(lambda a: None if nul(a) else int(a) % 24)
    if p == 'plus_minus':
        return rw(lambda a: (None, None) if nul(a) else (float(a), -float(a)))
    # the following look at all the (visible) rows, in entity order
    if p in ('cum_sum', 'cum_max', 'cum_min'):
        out, acc = [], None
        for a in x:
            if nul(a):
                out.append(None)
                continue
            a = float(a)
            acc = a if acc is None else {'cum_sum': acc + a, 'cum_max': max(acc, a),
                                         'cum_min': min(acc, a)}[p]
            out.append(acc)
        return out
    if p == 'cum_mean':
        out, s, k = [], 0.0, 0
        for a in x:
            k += 1
            if nul(a):
                out.append(None)
                continue
            s += float(a)
            out.append(s / k)
        return out
    if p == 'cum_count':
        return list(range(1, n + 1))
    if p == 'diff':
        out = []
        for i in range(n):
            if i == 0 or nul(x[i]) or nul(x[i - 1]):
                out.append(None)
            else:
                out.append(float(x[i]) - float(x[i - 1]))
        return out
    if p == 'time_since_previous':
        return [None if i == 0 or nul(x[i]) or nul(x[i - 1]) else (x[i] - x[i - 1]) * 3600.0 for i in range(n)]
    if p == 'percentile':
        ok = sorted(float(a) for a in x if not nul(a))
        out = []
        for a in x:
            if nul(a):
                out.append(None)
                continue
            a = float(a)
            lo = sum(1 for q in ok if q < a)
            eq = sum(1 for q in ok if q == a)
            out.append((lo + (eq + 1) / 2.0) / len(ok))
        return out
    raise KeyError(p)


def same(exp, act, unts=None):
    """expected model value vs a library value"""
    import pandas as pd
    if act is pd.NaT or act is None or (not isinstance(act, (str, bytes)) and pd.isnull(act)):
        return nul(exp)
    if nul(exp):
        return False
    if isinstance(act, pd.Timestamp):
        from .build import unts as u
        return abs(u(act) - float(exp)) < 1e-9
    if isinstance(exp, str) or isinstance(act, str):
        return exp == act
    try:
        a, b = float(exp), float(act)
    except (TypeError, ValueError):
        return exp == act
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def lti_model(spec):
    """Last time index: the latest time at which an instance, or anything linked
    to it through child relationships (transitively), occurs."""
    memo = {}

    def of(eid):
        if eid in memo:
            return memo[eid]
        e = ent_of(spec, eid)
        out = {}
        for i, iid in enumerate(e['ids']):
            out[iid] = e['times'][i] if e['times'] is not None else None
        for c, k in back_links(spec, eid):
            ce = ent_of(spec, c)
            sub = of(c)
            for j, cid in enumerate(ce['ids']):
                p = ce['links'][k]['v'][j]
                if p in out and sub[cid] is not None:
                    out[p] = sub[cid] if out[p] is None else max(out[p], sub[cid])
        memo[eid] = out
        return out
    return {e['id']: of(e['id']) for e in spec['ents']}
