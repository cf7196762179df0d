"""Shared oracles' plumbing: running the library and comparing with the model."""
import numpy as np
import pandas as pd

import featuretools as ft

from . import build
from .core import Violation
from .gen import ent_of
from .model import Model, default_of, n_out, same


def compute(es, spec, target, feats, co, include=True, window=None, **kw):
    a = build.cutoff_args(spec, target, co)
    a.update(kw)
    if window is not None:
        a['training_window'] = ft.Timedelta(window, 'h')
    return ft.calculate_feature_matrix(feats, es, include_cutoff_time=include, **a)


def expected_rows(spec, target, co, include=True, window=None, lti=None):
    """[(id, time or None)] in the documented order"""
    e = ent_of(spec, target)
    if co['mode'] == 'rows':
        return [(r[0], r[1]) for r in co['rows']]
    t = co.get('t')
    if co['ids'] is not None:
        return [(i, t) for i in co['ids']]
    # all the instances that exist at the cutoff
    return [(e['ids'][i], t) for i in Model(spec, t, include, window, lti).rows(target)]


def plain(v):
    if isinstance(v, (np.generic,)):
        v = v.item()
    return v


def check_matrix(fm, spec, target, fspecs, feats, rows, include=True, window=None, lti=None):
    """fm against the reference model, row by row."""
    if list(fm.index) != [r[0] for r in rows]:
        raise Violation('row index %r, expected %r' % (list(fm.index), [r[0] for r in rows]))
    models = {}
    for f, feat in zip(fspecs, feats):
        names = feat.get_feature_names()
        if len(names) != n_out(f):
            raise Violation('%s has %d names' % (feat, len(names)))
        for pos, (iid, t) in enumerate(rows):
            if t not in models:
                models[t] = Model(spec, t, include, window, lti)
            exp = models[t].value(f, iid)
            if n_out(f) == 1:
                exp = (exp,)
            for nm, x in zip(names, exp):
                if nm not in fm.columns:
                    raise Violation('column %r is missing from the matrix %r' % (nm, list(fm.columns)))
                act = fm[nm].iloc[pos]
                if not same(x, act):
                    raise Violation(
                        'feature %s of instance %r at time %r: got %r, the definition gives %r'
                        % (nm, iid, t, plain(act), x))


def frames_equal(a, b, what='', rtol=1e-9, check_index=True, columns=None):
    """Value equality of two frames (NaN equal NaN; numbers numerically)."""
    if list(a.columns) != list(b.columns):
        raise Violation('%s: columns %r != %r' % (what, list(a.columns), list(b.columns)))
    if check_index and [plain(x) for x in a.index] != [plain(x) for x in b.index]:
        raise Violation('%s: index %r != %r' % (what, list(a.index), list(b.index)))
    if len(a) != len(b):
        raise Violation('%s: %d rows != %d rows' % (what, len(a), len(b)))
    for c in a.columns:
        x, y = a[c].tolist(), b[c].tolist()
        for i, (p, q) in enumerate(zip(x, y)):
            if not vals_equal(p, q, rtol):
                raise Violation('%s: column %r row %r: %r != %r' % (what, c, plain(a.index[i]), p, q))


def isnull(p):
    try:
        r = pd.isnull(p)
    except Exception:
        return False
    return bool(r) if isinstance(r, (bool, np.bool_)) else False


def vals_equal(p, q, rtol=1e-9):
    if isnull(p) or isnull(q):
        return isnull(p) and isnull(q)
    if isinstance(p, (tuple, list, np.ndarray)) or isinstance(q, (tuple, list, np.ndarray)):
        try:
            p, q = list(p), list(q)
        except TypeError:
            return False
        return len(p) == len(q) and all(vals_equal(a, b, rtol) for a, b in zip(p, q))
    if isinstance(p, str) or isinstance(q, str):
        return p == q
    if isinstance(p, (bool, int, float, np.number, np.bool_)) and isinstance(q, (bool, int, float, np.number, np.bool_)):
        a, b = float(p), float(q)
        return a == b or abs(a - b) <= rtol * max(1.0, abs(a), abs(b))
    return p == q
