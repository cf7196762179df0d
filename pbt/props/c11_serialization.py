"""Writing and reading an entity set changes nothing."""
import json
import os
import shutil
import tarfile
import tempfile

import featuretools as ft
from hypothesis import strategies as st

from pbt import build, esgen, gen
from pbt.common import frames_equal
from pbt.core import Sub
from pbt.escmp import same_entitysets

ID = 'C11'
RULE = ('Entity sets with all column kinds (numbers, text with separators, quotes and newlines, datetimes, durations, '
        'LatLong, categories, missing values), variable types, interesting values, descriptions, secondary and last '
        'time indexes, numeric or datetime time are written as csv (several separators, encodings, compressions, '
        'engines), pickle or parquet, read back (directory or tar) and compared in depth; features computed on the '
        'copy are compared too. Non-trivial: at least one relationship or interesting value, time index or secondary index.')
ASSUMPTIONS = ['text written as csv is not empty and not one of the markers that csv readers take for missing values, such as NA '
               '(see the listed finding); text columns hold only text, tuples or missing values; interesting values have '
               'millisecond / 10 decimals precision']


@st.composite
def cases(draw):
    spec = draw(esgen.rich_specs(min_ents=draw(st.sampled_from([1, 2, 3])), max_ents=3, max_rows=5))
    fmt = draw(st.sampled_from(['csv', 'csv', 'csv', 'pickle', 'parquet']))
    kw = {}
    if fmt == 'csv':
        kw = {'sep': draw(st.sampled_from([',', ',', ';', '|', '\t'])),
              'encoding': draw(st.sampled_from(['utf-8', 'utf-8', 'latin-1'])),
              'engine': draw(st.sampled_from(['python', 'c'])),
              'compression': draw(st.sampled_from([None, None, 'gzip', 'bz2']))}
    elif fmt == 'pickle':
        kw = {'compression': draw(st.sampled_from([None, 'gzip']))}
    else:
        kw = {'compression': draw(st.sampled_from([None, 'gzip']))}
    if kw.get('encoding') == 'latin-1':
        spec = json.loads(json.dumps(spec, ensure_ascii=False).replace('日', 'é'))
    if draw(st.booleans()):
        esgen.digit_ids(spec)
    if fmt == 'parquet':
        # the installed parquet engine cannot read a categorical column without categories
        for e in spec['ents']:
            for c in e['cols']:
                if (c['t'] == 'category' or c.get('cat')) and set(c['v']) == {None}:
                    c['v'][0] = 'a'
    target = draw(gen.targets(spec))
    return {'spec': spec, 'fmt': fmt, 'kw': kw, 'lti': draw(st.booleans()), 'tar': draw(st.integers(0, 3)) == 0,
            'id': draw(st.sampled_from(['es', 'my set', None])), 'target': target,
            'feats': draw(gen.feature_lists(spec, target, depth=2, windows=False, use_time=False, max_n=2))}


def run(case, ctx):
    spec = case['spec']
    es = build.build_rich(spec, case['id'])
    if case['lti']:
        es.add_last_time_indexes()
    ctx.label(case['fmt'])
    ctx.label('tar', case['tar'])
    ctx.nt(bool(es.relationships) or any(e['times'] or e['sec'] for e in spec['ents']) or
           any(c.get('iv') for e in spec['ents'] for c in e['cols']))
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, 'saved')
        getattr(es, 'to_' + case['fmt'])(path, **case['kw'])
        if case['tar']:
            t = os.path.join(d, 'x.tar')
            with tarfile.open(t, 'w') as tar:
                tar.add(path + '/data_description.json', arcname='/data_description.json')
                tar.add(path + '/data', arcname='/data')
            path = t
        back = ft.read_entityset(path)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    same_entitysets(es, back, case['fmt'])
    if not es.__eq__(back, deep=True) and case['fmt'] == 'pickle':
        from pbt.core import Violation
        raise Violation('the copy is not deeply equal to the original')
    # the metadata (structure without data)
    same_entitysets(es, es.metadata, 'metadata', data=False, lti=False)
    out = []
    for x in (es, back):
        feats = build.build_features(x, spec, case['feats'])
        out.append(ft.calculate_feature_matrix(feats, x))
    frames_equal(out[0], out[1], 'feature matrix of the copy')


CHECKS = [Sub('roundtrip', cases(), run, quick=900)]
