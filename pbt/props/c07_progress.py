"""Saved progress and reported progress."""
import csv
import os
import shutil
import tempfile
from collections import Counter

import featuretools as ft
import pandas as pd
from hypothesis import strategies as st

from pbt import build, gen
from pbt.common import expected_rows, frames_equal
from pbt.core import Sub, Violation
from pbt.dfsgen import chance

ID = 'C07'
RULE = ('Generated calculations with cutoff dataframes (times whole hours apart over a day and more, also numeric times; chunks smaller than '
        'the rows of one time; approximation, windows) are run with and without save_progress and with a progress callback. saved: the '
        'files in the folder have to hold every row of the matrix once. interrupted: the callback raises at a generated call; every file '
        'left has to be whole and hold rows of the full matrix. reported: the updates have to add up to 100. Non-trivial: several chunks.')
ASSUMPTIONS = ['save_progress writes files for cutoff dataframes only']


@st.composite
def cases(draw, interrupt=False):
    numeric = chance(draw, 4)
    spec = draw(gen.es_specs(min_ents=draw(st.sampled_from([1, 2, 2])), max_ents=3, max_rows=6, numeric_time=numeric))
    target = draw(gen.targets(spec))
    co = draw(gen.cutoffs(spec, target, max_rows=8, modes=('rows', 'rows', 'rows', 'single') if not interrupt else ('rows',)))
    if co['mode'] == 'rows' and draw(st.booleans()):
        ids = gen.ent_of(spec, target)['ids']
        ts = draw(st.lists(st.sampled_from([0, 6, 12, 18, 24, 3]), min_size=1, max_size=3, unique=True))
        co = {'mode': 'rows', 'rows': [[i, t] for t in ts for i in draw(st.permutations(ids))]}
    return {'spec': spec, 'target': target, 'co': co,
            'feats': draw(gen.feature_lists(spec, target, depth=2, min_n=1, max_n=4, windows=not numeric, use_time=not numeric)),
            'chunk': draw(st.one_of(st.none(), st.integers(1, 4), st.sampled_from([0.2, 0.5]))),
            'approx': draw(st.one_of(st.none(), st.none(), st.integers(1, 24))),
            'window': draw(st.one_of(st.none(), st.none(), st.integers(1, 20))), 'raise_at': draw(st.integers(1, 40))}


def norm(x):
    if x in ('', 'nan', 'NaN', 'NaT', 'None'):
        return ''
    if x in ('True', 'False'):
        return float(x == 'True')
    try:
        return float('%.9g' % float(x))
    except ValueError:
        return x[:-9] if x.endswith(' 00:00:00') else x


def rows_of(path):
    with open(path, newline='') as f:
        lines = list(csv.reader(f))
    return lines[0], [tuple(norm(x) for x in r) for r in lines[1:]]


class Stop(Exception):
    pass


def setup(case):
    spec, target = case['spec'], case['target']
    es = build.build_es(spec)
    feats = build.build_features(es, spec, case['feats'])
    kw = {'chunk_size': case['chunk']}
    a = build.cutoff_args(spec, target, case['co'])
    if case['approx'] and case['co']['mode'] == 'rows' and spec['tt'] == 'dt':
        kw['approximate'] = ft.Timedelta(case['approx'], 'h')
    if case['window'] and spec['tt'] == 'dt':
        kw['training_window'] = ft.Timedelta(case['window'], 'h')
    return es, feats, a, kw


def matrix_rows(fm, tmp):
    p = os.path.join(tmp, 'matrix.csv')
    fm.to_csv(p)
    return rows_of(p)


def run(case, ctx):
    spec, target = case['spec'], case['target']
    es, feats, a, kw = setup(case)
    window = case['window'] if 'training_window' in kw else None
    if not expected_rows(spec, target, case['co'], True, window):
        return
    calls = []

    def cb(update, percent, seconds):
        calls.append((update, percent, seconds))

    fm = ft.calculate_feature_matrix(feats, es, **a, **kw)
    tmp = tempfile.mkdtemp(prefix='c07-')
    try:
        folder = os.path.join(tmp, 'progress')
        os.mkdir(folder)
        saved = ft.calculate_feature_matrix(feats, es, save_progress=folder, progress_callback=cb, **a, **kw)
        frames_equal(fm, saved, 'the matrix with save_progress')
        if case['co']['mode'] == 'rows':
            found = Counter()
            files = sorted(os.listdir(folder))
            for n in files:
                if not n.endswith('.csv'):
                    raise Violation('%r is left in the folder %r' % (n, files))
                header, rows = rows_of(os.path.join(folder, n))
                found.update(rows)
            whead, want = matrix_rows(fm, tmp)
            if header != whead:
                raise Violation('saved columns %r, expected %r' % (header, whead))
            want = Counter(want)
            if found != want:
                raise Violation('the saved files miss %r and have %r too much (%d files)'
                                % (list((want - found).elements())[:3], list((found - want).elements())[:3], len(files)))
            ctx.nt(len(files) > 1)
            ctx.label('chunks of one time', len(files) > len(set(t for _, t in case['co']['rows'])))
            ctx.label('numeric time', spec['tt'] != 'dt')
            ctx.label('approximate', 'approximate' in kw)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # reported progress
    if not calls:
        raise Violation('the callback was never called')
    last, secs = 0.0, 0.0
    for update, percent, seconds in calls:
        if update < -1e-6 or percent > 100 + 1e-6:
            raise Violation('the progress goes by %r to %r' % (update, percent))
        if abs(last + update - percent) > 1e-6:
            raise Violation('progress %r after %r and an update by %r' % (percent, last, update))
        if seconds < secs:
            raise Violation('the time elapsed goes back from %r to %r' % (secs, seconds))
        last, secs = percent, seconds
    if abs(last - 100) > 1e-6:
        raise Violation('the progress ends at %r' % last)


def run_interrupted(case, ctx):
    spec, target = case['spec'], case['target']
    es, feats, a, kw = setup(case)
    count = [0]

    def cb(update, percent, seconds):
        count[0] += 1
        if count[0] == case['raise_at']:
            raise Stop()

    fm = ft.calculate_feature_matrix(feats, es, **a, **kw)
    tmp = tempfile.mkdtemp(prefix='c07-')
    try:
        folder = os.path.join(tmp, 'progress')
        os.mkdir(folder)
        try:
            ft.calculate_feature_matrix(feats, es, save_progress=folder, progress_callback=cb, **a, **kw)
            stopped = False
        except Stop:
            stopped = True
        whead, want = matrix_rows(fm, tmp)
        want = Counter(want)
        found = Counter()
        n = 0
        for name in sorted(os.listdir(folder)):
            if name == 'temp':
                continue
            n += 1
            header, rows = rows_of(os.path.join(folder, name))
            if header != whead or not rows:
                raise Violation('%r is not whole' % name)
            found.update(rows)
        if found - want:
            raise Violation('after an interruption the files hold %r' % list((found - want).elements())[:3])
        ctx.nt(stopped and n > 0)
        ctx.label('stopped', stopped)
        # a second run into the same folder completes it
        ft.calculate_feature_matrix(feats, es, save_progress=folder, **a, **kw)
        found = Counter()
        for name in sorted(os.listdir(folder)):
            if not name.endswith('.csv'):
                raise Violation('%r is left in the folder' % name)
            found.update(rows_of(os.path.join(folder, name))[1])
        if found != want:
            raise Violation('after a second run the files miss %r and have %r too much'
                            % (list((want - found).elements())[:3], list((found - want).elements())[:3]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


CHECKS = [Sub('saved', cases(), run, quick=500), Sub('interrupted', cases(interrupt=True), run_interrupted, quick=250)]
