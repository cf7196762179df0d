"""A model of entity sets as plain data, and the operations on it.  Rows are
kept in the order in which the entity holds them: by time, then by id, where
there is a time index, otherwise as given."""
import copy

import pandas as pd

from pbt import build
from pbt.common import plain, vals_equal
from pbt.core import Violation
from pbt.gen import ent_of


class ME:
    def __init__(self, eid, index, data, types, time_index=None, sec=None):
        self.id, self.index, self.data, self.types = eid, index, data, types
        self.time_index, self.sec = time_index, sec or {}

    @property
    def n(self):
        return len(self.data[self.index])

    def take(self, rows):
        self.data = {c: [v[i] for i in rows] for c, v in self.data.items()}

    def sort(self):
        if self.time_index is None:
            return
        t, k = self.data[self.time_index], self.data[self.index]
        self.take(sorted(range(self.n), key=lambda i: (t[i] is None, t[i] if t[i] is not None else 0, k[i])))


def col_values(s):
    return [None if (not isinstance(x, tuple) and pd.isnull(x)) else plain(x) for x in s]


class MES:
    def __init__(self):
        self.ents, self.rels, self.lti = {}, [], False
        self.iv = {}
        self.ti_type = 'DatetimeTimeIndex'

    def copy(self):
        return copy.deepcopy(self)

    def add_spec_entity(self, spec, eid):
        e = ent_of(spec, eid)
        df = build.ent_df(spec, e)
        types = {c: t.__name__ for c, t in build.ent_types(spec, e).items()}
        types[e['index']] = 'Index'
        m = ME(eid, e['index'], {c: col_values(df[c]) for c in df.columns}, types,
               't' if e['times'] is not None else None,
               {e['sec']['n']: sorted(set(e['sec']['cols']) | {e['sec']['n']})} if e['sec'] else {})
        m.sort()
        self.ents[eid] = m

    def add_rel(self, p, pv, c, cv):
        self.ents[c].types[cv] = 'Id'
        if (p, pv, c, cv) not in self.rels:
            self.rels.append((p, pv, c, cv))

    def delete(self, eid, cols):
        e = self.ents[eid]
        for c in cols:
            del e.data[c], e.types[c]
        e.sec = {t: [c for c in v if c not in cols] for t, v in e.sec.items() if t not in cols}

    def normalize(self, base, new, index, add, copy_, mti, new_ti, sec, new_sec):
        b = self.ents[base]
        first, last = {}, {}
        for i, k in enumerate(b.data[index]):
            first.setdefault(k, i)
            last[k] = i
        keys = list(first)
        data, types = {index: keys}, {index: 'Index'}

        def moved(t):
            return {'DatetimeTimeIndex': 'Datetime', 'NumericTimeIndex': 'Numeric'}.get(t, t)
        for c in add + copy_:
            data[c] = [b.data[c][first[k]] for k in keys]
            types[c] = moved(b.types[c])
        ti = None
        if isinstance(mti, str):
            ti = mti
            types[ti] = self.ti_type
        elif mti or (mti is None and b.time_index is not None):
            ti = new_ti or 'first_%s_time' % base
            data.pop(b.time_index, None)
            types.pop(b.time_index, None)
            data[ti] = [b.data[b.time_index][first[k]] for k in keys]
            types[ti] = self.ti_type
        s = {}
        if sec:
            st = list(sec)[0]
            name = new_sec or st
            for c in [st] + list(sec[st]):
                n = name if c == st else c
                data[n] = [b.data[c][last[k]] for k in keys]
                types[n] = None       # inferred
            s = {name: sorted({name if c == st else c for c in sec[st]} | {name})}
        m = ME(new, index, data, types, ti, s)
        if isinstance(mti, str) and mti != b.time_index:
            m.sort()
        self.ents[new] = m
        self.delete(base, add)
        self.add_rel(new, index, base, index)

    # ------------------------------------------------------------ derived
    def last_times(self):
        memo = {}

        def of(eid):
            if eid not in memo:
                e = self.ents[eid]
                out = dict(zip(e.data[e.index], e.data[e.time_index] if e.time_index else [None] * e.n))
                for p, pv, c, cv in self.rels:
                    if p == eid:
                        sub = of(c)
                        ce = self.ents[c]
                        for cid, k in zip(ce.data[ce.index], ce.data[cv]):
                            t = sub[cid]
                            if k in out and t is not None:
                                out[k] = t if out[k] is None else max(out[k], t)
                memo[eid] = out
            return memo[eid]
        return {e: of(e) for e in self.ents}


def structure(es, what, model, data):
    """structure of es (an EntitySet or its metadata) against the model"""
    if sorted(es.entity_dict) != sorted(model.ents):
        raise Violation('%s: entities are %r, expected %r' % (what, sorted(es.entity_dict), sorted(model.ents)))
    rels = [(r.parent_entity.id, r.parent_variable.id, r.child_entity.id, r.child_variable.id)
            for r in es.relationships]
    if sorted(rels) != sorted(model.rels):
        raise Violation('%s: relationships are %r, expected %r' % (what, rels, model.rels))
    for m in model.ents.values():
        e = es[m.id]
        w = '%s: entity %s' % (what, m.id)
        if e.id != m.id or e.index != m.index or e.time_index != m.time_index:
            raise Violation('%s: index %r, time index %r; expected %r, %r' % (
                w, e.index, e.time_index, m.index, m.time_index))
        got = {k: sorted(v) for k, v in e.secondary_time_index.items()}
        if got != {k: sorted(v) for k, v in m.sec.items()}:
            raise Violation('%s: secondary time index %r, expected %r' % (w, got, m.sec))
        types = {v.id: type(v).__name__ for v in e.variables}
        if len(types) != len(e.variables) or set(types) != set(m.types):
            raise Violation('%s: variables %r, expected %r' % (w, [v.id for v in e.variables], sorted(m.types)))
        for c, t in m.types.items():
            if t is not None and types[c] != t:
                raise Violation('%s: %s is %s, expected %s' % (w, c, types[c], t))
        if [v.id for v in e.variables] != list(e.df.columns):
            raise Violation('%s: variables %r but columns %r' % (w, [v.id for v in e.variables], list(e.df.columns)))
        if not data and len(e.df):
            raise Violation('%s: metadata has %d rows' % (w, len(e.df)))


def check(es, model, what, order=True):
    structure(es, what, model, True)
    timed = any(m.time_index for m in model.ents.values())
    if (es.time_type is not None) != timed:
        raise Violation('%s: time type of the entity set is %r' % (what, es.time_type))
    structure(es.metadata, what + ': metadata', model, False)
    for m in model.ents.values():
        e = es[m.id]
        w = '%s: entity %s' % (what, m.id)
        df = e.df
        ids = col_values(df[m.index])
        if [plain(x) for x in df.index] != ids:
            raise Violation('%s: dataframe indexed by %r, ids are %r' % (w, list(df.index), ids))
        want = m.data[m.index]
        if sorted(ids) != sorted(want):
            raise Violation('%s: instances %r, expected %r' % (w, ids, want))
        if order and ids != want:
            raise Violation('%s: instances in order %r, expected %r' % (w, ids, want))
        pos = {k: i for i, k in enumerate(want)}
        for c in m.data:
            for k, x in zip(ids, col_values(df[c])):
                y = m.data[c][pos[k]]
                if not (x is None and y is None) and (x is None or y is None or not vals_equal(x, y)):
                    raise Violation('%s: %s of %r is %r, expected %r' % (w, c, k, x, y))
        if model.lti:
            got = e.last_time_index
            if got is None:
                raise Violation('%s: last times are lost' % w)
            lt = model.last_times()[m.id]
            if {plain(k): (None if pd.isnull(t) else plain(t)) for k, t in got.items()} != lt:
                raise Violation('%s: last times %r, expected %r' % (w, dict(got), lt))
