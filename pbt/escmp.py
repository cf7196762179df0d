"""Deep comparison of two entity sets, independent of the library's own."""
import pandas as pd

from pbt.common import frames_equal, plain, vals_equal
from pbt.core import Violation


def rel_key(r):
    return (r.parent_entity.id, r.parent_variable.id, r.child_entity.id, r.child_variable.id)


def same_entitysets(a, b, what, data=True, dtypes=True, order=True, variable_order=True, lti=True):
    if a.id != b.id:
        raise Violation('%s: id %r != %r' % (what, a.id, b.id))
    if sorted(e.id for e in a.entities) != sorted(e.id for e in b.entities):
        raise Violation('%s: entities %r != %r' % (what, [e.id for e in a.entities], [e.id for e in b.entities]))
    ra, rb = [rel_key(r) for r in a.relationships], [rel_key(r) for r in b.relationships]
    if (ra if order else sorted(ra)) != (rb if order else sorted(rb)):
        raise Violation('%s: relationships %r != %r' % (what, ra, rb))
    if a.time_type != b.time_type:
        raise Violation('%s: time type %r != %r' % (what, a.time_type, b.time_type))
    for ea in a.entities:
        eb = b[ea.id]
        w = '%s: entity %s' % (what, ea.id)
        for attr in ('index', 'time_index'):
            if getattr(ea, attr) != getattr(eb, attr):
                raise Violation('%s: %s %r != %r' % (w, attr, getattr(ea, attr), getattr(eb, attr)))
        sa = {k: sorted(v) for k, v in ea.secondary_time_index.items()}
        sb = {k: sorted(v) for k, v in eb.secondary_time_index.items()}
        if sa != sb:
            raise Violation('%s: secondary time index %r != %r' % (w, sa, sb))
        va = [(v.id, type(v).__name__) for v in ea.variables]
        vb = [(v.id, type(v).__name__) for v in eb.variables]
        if (va if variable_order else sorted(va)) != (vb if variable_order else sorted(vb)):
            raise Violation('%s: variables %r != %r' % (w, va, vb))
        for v in ea.variables:
            u = eb[v.id]
            if v.description != u.description:
                raise Violation('%s: description of %s %r != %r' % (w, v.id, v.description, u.description))
            x, y = list(v.interesting_values), list(u.interesting_values)
            if len(x) != len(y) or not all(type(plain(p)) == type(plain(q)) and vals_equal(p, q)
                                           for p, q in zip(x, y)):
                raise Violation('%s: interesting values of %s %r != %r' % (w, v.id, x, y))
        if lti and (ea.last_time_index is None) != (eb.last_time_index is None):
            raise Violation('%s: last_time_index %r != %r' % (w, ea.last_time_index, eb.last_time_index))
        if not data:
            continue
        cols = list(ea.df.columns)
        if sorted(cols) != sorted(eb.df.columns):
            raise Violation('%s: columns %r != %r' % (w, cols, list(eb.df.columns)))
        frames_equal(ea.df, eb.df[cols], w, rtol=0)
        for c in cols:
            if dtypes and ea.df[c].dtype.name != eb.df[c].dtype.name:
                raise Violation('%s: dtype of %s %s != %s' % (w, c, ea.df[c].dtype, eb.df[c].dtype))
            for p, q in zip(ea.df[c], eb.df[c]):
                if dtypes and isinstance(p, (str, bool, tuple)) and type(p) != type(q):
                    raise Violation('%s: column %s %r != %r' % (w, c, p, q))
        if lti and ea.last_time_index is not None:
            x, y = ea.last_time_index, eb.last_time_index
            dx = {plain(k): (None if pd.isnull(t) else t) for k, t in x.items()}
            dy = {plain(k): (None if pd.isnull(t) else t) for k, t in y.items()}
            if dx != dy:
                raise Violation('%s: last time indexes %r != %r' % (w, dx, dy))
