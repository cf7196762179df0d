"""Operations on entity sets: drawn with the model's state at hand (so that
they are valid, or invalid in a known way), applied to the model and to the
entity set."""
import copy

import featuretools as ft
import pandas as pd
from hypothesis import strategies as st

from pbt import build, gen
from pbt.core import Violation
from pbt.dfsgen import chance
from pbt.gen import ent_of


# ------------------------------------------------------------------ drawing
@st.composite
def update(draw, m, eid=None):
    eid = eid or draw(st.sampled_from(sorted(m.ents)))
    e = m.ents[eid]
    n = e.n
    keep = draw(st.lists(st.integers(0, n - 1), unique=True, min_size=1, max_size=n))
    rows = [[i, None, None] for i in keep]
    strs = isinstance(e.data[e.index][0], str)
    for k in range(draw(st.sampled_from([0, 0, 1, 2]))):
        rows.append([draw(st.integers(0, n - 1)), 'k%d' % (50 + k) if strs else 50 + k, None])
    if e.time_index:
        for r in rows:
            if chance(draw, 2):
                r[2] = draw(gen.TIMES)
    return {'op': 'upd', 'e': eid, 'rows': rows, 'extra_cols_order': draw(st.booleans())}


def updated(e, rows):
    """columns of the entity after the update, in the order given"""
    data = {c: [v[r[0]] for r in rows] for c, v in e.data.items()}
    for k, r in enumerate(rows):
        if r[1] is not None:
            data[e.index][k] = r[1]
        if r[2] is not None:
            data[e.time_index][k] = build.ts(r[2])
    # ids that were taken already by a row that stays
    seen = set()
    keep = []
    for k, i in enumerate(data[e.index]):
        if i not in seen:
            seen.add(i)
            keep.append(k)
    return {c: [v[k] for k in keep] for c, v in data.items()}, keep


def frame(es, e, rows, order):
    """the same as a dataframe"""
    data, keep = updated(e, rows)
    df = es[e.id].df
    pos = {k: i for i, k in enumerate(df[e.index])}
    src = [pos[e.data[e.index][rows[k][0]]] for k in keep]
    out = df.iloc[src].copy()
    out[e.index] = pd.Series(data[e.index], dtype=df[e.index].dtype, index=out.index)
    if e.time_index:
        out[e.time_index] = pd.Series(data[e.time_index], dtype=df[e.time_index].dtype, index=out.index)
    return out[list(reversed(out.columns))] if order else out


def removable(m, eid):
    e = m.ents[eid]
    linked = {cv for p, pv, c, cv in m.rels if c == eid} | {e.index, e.time_index}
    return sorted(c for c in e.data if c not in linked)


def apply_update(m, s):
    e = m.ents[s['e']]
    e.data, _ = updated(e, s['rows'])
    e.sort()


def concat_model(a, b):
    out = a.copy()
    for eid, e in out.ents.items():
        o = b.ents[eid]
        have = set(e.data[e.index])
        new = [i for i, k in enumerate(o.data[o.index]) if k not in have]
        e.data = {c: v + [o.data[c][i] for i in new] for c, v in e.data.items()}
        if e.time_index:
            e.sort()
        else:
            e.take(sorted(range(e.n), key=lambda i: e.data[e.index][i]))
    out.lti = a.lti or b.lti
    return out


def add_entity(es, spec, eid):
    e = ent_of(spec, eid)
    return es.entity_from_dataframe(
        entity_id=eid, dataframe=build.ent_df(spec, e), index=e['index'],
        time_index='t' if e['times'] is not None else None,
        secondary_time_index={e['sec']['n']: list(e['sec']['cols'])} if e['sec'] else None,
        variable_types=build.ent_types(spec, e))


def must_raise(what, fn):
    try:
        fn()
    except Violation:
        raise
    except Exception as ex:
        return ex
    raise Violation('%s was accepted' % what)
