"""Saved feature definitions load as the same features."""
import io
import os
import tempfile

import featuretools as ft
from hypothesis import strategies as st

from pbt import build, gen
from pbt.common import frames_equal
from pbt.core import Skip, Sub, Violation
from pbt.featcmp import diff, fingerprint

ID = 'C12'
RULE = ('Feature lists (all feature classes, primitives with arguments, where, use_previous, group-by, slices of multi-output '
        'features, renamed features at any depth) over generated entity sets are saved to a string, a path or an open file, '
        'loaded, compared structurally with the originals and calculated on the original data. Non-trivial: a feature '
        'other than identity features.')
ASSUMPTIONS = ['arguments of primitives are JSON data']


@st.composite
def cases(draw):
    spec = draw(gen.es_specs(min_ents=draw(st.sampled_from([1, 2, 3, 3])), max_ents=3, max_rows=4))
    target = draw(gen.targets(spec))
    fs = draw(st.one_of(gen.feature_lists(spec, target, depth=3, windows=True),
                        gen.sibling_lists(spec, target, depth=2, windows=True)))
    return {'spec': spec, 'target': target, 'feats': fs, 'how': draw(st.sampled_from(['string', 'path', 'file'])),
            'rename': [draw(st.sampled_from([None, None, None, 'renamed', 'SUM(x)é', 'é "q"'])) for _ in fs],
            'inner': draw(st.integers(0, 3)) == 0, 'depth1': draw(st.booleans()),
            'calc': draw(st.integers(0, 2)) == 0, 'twice': draw(st.integers(0, 2)) == 0}


def run(case, ctx):
    spec = case['spec']
    es = build.build_es(spec)
    feats = build.build_features(es, spec, case['feats'])
    names = [n for n in case['rename'] if n]
    if case['depth1']:
        feats = [f.rename(n + str(i)) if n else f for i, (f, n) in enumerate(zip(feats, case['rename']))]
    if case['inner'] and feats[0].number_output_features == 1 and \
            issubclass(feats[0].variable_type, ft.variable_types.Numeric):
        # a renamed feature below another one
        feats.append(ft.Feature([feats[0].rename('inner name')], primitive=ft.primitives.Absolute))
    by = {}
    for f in feats:
        for g in [f] + f.get_dependencies(deep=True):
            fp = fingerprint(g)
            if by.setdefault(g.unique_name(), fp) != fp:
                raise Skip()
    ctx.nt(any(x['k'] != 'id' for f in case['feats'] for x in gen.walk(f)))
    ctx.label('renamed', bool(names) and case['depth1'])
    for f in case['feats']:
        for x in gen.walk(f):
            ctx.label(x['k'])
            ctx.label('where', bool(x.get('where')))
            ctx.label('use_previous', bool(x.get('prev')))
    before = [fingerprint(f) for f in feats]
    loaded = roundtrip(feats, case['how'])
    if case['twice']:
        loaded = roundtrip(loaded, 'string')
    if [f.get_name() for f in loaded] != [f.get_name() for f in feats]:
        raise Violation('loaded %r, saved %r' % (loaded, feats))
    for b, f, g in zip(before, feats, loaded):
        d = diff(b, fingerprint(f))
        if d:
            raise Violation('saving changed the feature %s: %s' % (f.get_name(), d))
        d = diff(b, fingerprint(g))
        if d:
            raise Violation('feature %s is not the same after loading: %s' % (f.get_name(), d))
    if case['calc']:
        t = build.ts(12)
        ids = list(gen.ent_of(spec, case['target'])['ids'])
        a = ft.calculate_feature_matrix(feats, es, cutoff_time=t, instance_ids=ids)
        b = ft.calculate_feature_matrix(loaded, es, cutoff_time=t, instance_ids=ids)
        frames_equal(a, b, 'matrix of loaded features')


def roundtrip(feats, how):
    if how == 'string':
        return ft.load_features(ft.save_features(feats))
    fd, path = tempfile.mkstemp()
    os.close(fd)
    try:
        if how == 'path':
            ft.save_features(feats, path)
            return ft.load_features(path)
        with open(path, 'w') as f:
            ft.save_features(feats, f)
        with open(path) as f:
            return ft.load_features(f)
    finally:
        os.remove(path)


CHECKS = [Sub('roundtrip', cases(), run, quick=1500)]
