"""Relationship paths: complete, unique and told apart."""
import pandas as pd

import featuretools as ft
from featuretools import variable_types as vt
from featuretools.entityset.relationship import RelationshipPath
from featuretools.primitives import Count, Sum
from hypothesis import strategies as st

from pbt.core import Sub, Violation
from pbt.common import vals_equal

ID = 'C15'
RULE = ('Generated graphs of up to 5 entities and 7 relationships (several between the same two, diamonds, and for the searches that exclude them, cycles and '
        'self references), added in any order. All paths are enumerated by hand and compared with the searches, the names of paths and relationships '
        'must tell them apart, and features built without a path must use the only one or be refused; with one, they must give what following that path by '
        'hand gives. Non-trivial: two entities are connected in more than one way.')
ASSUMPTIONS = ['searches for everything reachable (deep) need graphs without cycles']


@st.composite
def cases(draw):
    n = draw(st.integers(2, 5))
    cyclic = draw(st.integers(0, 4)) == 0
    m = draw(st.integers(1, 7 if n > 2 else 3))
    edges = []
    for _ in range(m):
        a, b = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        if not cyclic:
            if a == b:
                continue
            a, b = max(a, b), min(a, b)
        edges.append([a, b])
    rows = draw(st.integers(1, 4))
    links = [draw(st.lists(st.integers(0, rows), min_size=rows, max_size=rows)) for _ in edges]
    return {'n': n, 'edges': edges, 'links': links, 'rows': rows, 'order': draw(st.permutations(range(len(edges)))),
            'names': draw(st.permutations(['a', 'b', 'c', 'a b', 'a.b'][:n]))}


def make(case):
    es = ft.EntitySet('es')
    nm = case['names']
    for i in range(case['n']):
        data = {'id': range(case['rows']), 'x': [float(10 ** i * (k + 1)) for k in range(case['rows'])]}
        types = {'x': vt.Numeric}
        for k, (c, p) in enumerate(case['edges']):
            if c == i:
                data['k%d' % k] = case['links'][k]
                types['k%d' % k] = vt.Id
        es.entity_from_dataframe(nm[i], pd.DataFrame(data), index='id', variable_types=types)
    rels = {}
    for k in case['order']:
        c, p = case['edges'][k]
        rels[k] = ft.Relationship(es[nm[p]]['id'], es[nm[c]]['k%d' % k])
        es.add_relationship(rels[k])
    return es, rels


def all_paths(case, a, b):
    """edge lists of the forward paths from a to b that visit no entity twice"""
    out = []

    def rec(cur, path, seen):
        if cur == b:
            out.append(path)
        for k in case['order']:
            c, p = case['edges'][k]
            if c == cur and p not in seen:
                rec(p, path + [k], seen | {p})
    rec(a, [], {a})
    return out


def deep(case, a, forward):
    out = []
    for k in case['order']:
        c, p = case['edges'][k]
        if (c if forward else p) == a:
            to = p if forward else c
            out.append((to, [k]))
            out += [(t, [k] + path) for t, path in deep(case, to, forward)]
    return out


def cyclic(case):
    for i in range(case['n']):
        seen, todo = set(), [i]
        while todo:
            x = todo.pop()
            for c, p in case['edges']:
                if c == x:
                    if p == i:
                        return True
                    if p not in seen:
                        seen.add(p)
                        todo.append(p)
    return False


def run(case, ctx):
    es, rels = make(case)
    nm = case['names']
    key = {(nm[case['edges'][k][0]], 'k%d' % k): k for k in rels}

    def ks(path):
        return [key[(r.child_entity.id, r.child_variable.id)] for r in path]

    cyc = cyclic(case)
    ctx.label('cycle', cyc)
    many = False
    for a in range(case['n']):
        for b in range(case['n']):
            exp = all_paths(case, a, b)
            many = many or (a != b and len(exp) > 1)
            fw = [ks(p) for p in es.find_forward_paths(nm[a], nm[b])]
            if sorted(fw) != sorted(exp):
                raise Violation('forward paths from %r to %r: %r, expected %r' % (nm[a], nm[b], fw, exp))
            bw = [ks(p) for p in es.find_backward_paths(nm[b], nm[a])]
            if sorted(bw) != sorted(p[::-1] for p in exp):
                raise Violation('backward paths from %r to %r: %r, expected %r reversed' % (nm[b], nm[a], bw, exp))
            if exp:
                u = es.has_unique_forward_path(nm[a], nm[b])
                if bool(u) != (len(exp) == 1):
                    raise Violation('unique path from %r to %r: %r, the paths are %r' % (nm[a], nm[b], u, exp))
            names = []
            for p in exp:
                rp = RelationshipPath([(True, rels[k]) for k in p])
                names.append(rp.name)
                want = [nm[a]] + [nm[case['edges'][k][1]] for k in p]
                if p and list(rp.entities()) != want:
                    raise Violation('entities of the path %r: %r' % (rp, list(rp.entities())))
                back = RelationshipPath([(False, rels[k]) for k in p[::-1]])
                if p and list(back.entities()) != want[::-1]:
                    raise Violation('entities of the path %r: %r' % (back, list(back.entities())))
                for i in range(len(p) + 1):
                    if RelationshipPath(rp[:i]) + RelationshipPath(rp[i:]) != rp:
                        raise Violation('parts of the path %r do not make it up' % rp)
            if len(set(names)) < len(names) and 'a.b' not in nm:
                raise Violation('different paths from %r to %r have the same name: %r' % (nm[a], nm[b], names))
        fwd = [k for k in case['order'] if case['edges'][k][0] == a]
        if ks(es.get_forward_relationships(nm[a])) != fwd:
            raise Violation('forward relationships of %r: %r' % (nm[a], es.get_forward_relationships(nm[a])))
        bwd = [k for k in case['order'] if case['edges'][k][1] == a]
        if ks(es.get_backward_relationships(nm[a])) != bwd:
            raise Violation('backward relationships of %r: %r' % (nm[a], es.get_backward_relationships(nm[a])))
        for k in fwd:
            r = rels[k]
            twins = [j for j in fwd if case['edges'][j] == case['edges'][k]]
            p = nm[case['edges'][k][1]]
            if r.parent_name != (p if len(twins) == 1 else '%s[k%d]' % (p, k)) or \
                    r.child_name != (nm[a] if len(twins) == 1 else '%s[k%d]' % (nm[a], k)):
                raise Violation('%r is called %r / %r' % (r, r.parent_name, r.child_name))
            for j in rels:
                if (r == rels[j]) != (j == k) or (j == k and hash(r) != hash(ft.Relationship(r.parent_variable, r.child_variable))):
                    raise Violation('%r == %r is %r' % (r, rels[j], r == rels[j]))
        for forward, got in ((True, es.get_forward_entities), (False, es.get_backward_entities)):
            one = [(t, p) for t, p in deep(dict(case, edges=case['edges']), a, forward) if len(p) == 1] if not cyc else \
                [(case['edges'][k][1 if forward else 0], [k]) for k in (fwd if forward else bwd)]
            for d in (False, True):
                if d and cyc:
                    continue
                res = [(t, ks([r for _, r in p]), {f for f, _ in p}) for t, p in got(nm[a], deep=d)]
                exp = [(nm[t], p, {forward}) for t, p in (deep(case, a, forward) if d else one)]
                if sorted(res, key=repr) != sorted(exp, key=repr):
                    raise Violation('%s of %r (deep=%r): %r, expected %r' % (got.__name__, nm[a], d, res, exp))
    ctx.nt(many)
    if not cyc:
        feats_run(case, es, rels)


def feats_run(case, es, rels):
    nm = case['names']
    rows = range(case['rows'])
    for b in range(case['n']):
        feats, exp = [], []
        for a in range(case['n']):
            if a == b:
                continue
            paths = all_paths(case, a, b)
            base = ft.Feature(es[nm[a]]['x'])
            try:
                f = ft.Feature(base, parent_entity=es[nm[b]], primitive=Sum)
            except RuntimeError:
                f = None
            if (f is not None) != (len(paths) == 1):
                raise Violation('sum of %r in %r without a path: %r; the paths are %r' % (nm[a], nm[b], f, paths))
            for p in paths:
                g = ft.AggregationFeature(base, es[nm[b]], Sum, relationship_path=RelationshipPath([(False, rels[k]) for k in p[::-1]]))
                if f is not None and (g.relationship_path != f.relationship_path or g.get_name() != f.get_name()):
                    raise Violation('%r differs from %r' % (f, g))
                feats.append(g)
                exp.append([sum(10.0 ** a * (i + 1) for i in rows if follow(case, p, i) == j) for j in rows])
            direct = [k for k in case['order'] if case['edges'][k] == [b, a]]
            try:
                f = ft.Feature(base, entity=es[nm[b]])
            except RuntimeError:
                f = None
            if (f is not None) != (len(direct) == 1):
                raise Violation('feature of %r in %r without a relationship: %r' % (nm[a], nm[b], f))
            for k in direct:
                g = ft.DirectFeature(base, es[nm[b]], relationship=rels[k])
                if f is not None and g.get_name() != f.get_name():
                    raise Violation('%r differs from %r' % (f, g))
                feats.append(g)
                exp.append([10.0 ** a * (case['links'][k][j] + 1) if case['links'][k][j] < case['rows'] else None for j in rows])
        names = [f.get_name() for f in feats]
        if 'a.b' in nm:
            if len(set(names)) < len(names):
                continue
        elif len(set(names)) < len(names):
            raise Violation('different features of %r with the same name: %r' % (nm[b], names))
        if not feats:
            continue
        fm = ft.calculate_feature_matrix(feats, es)
        for f, x in zip(feats, exp):
            got = [fm[f.get_name()].loc[j] for j in rows]
            if not all(vals_equal(p, q) for p, q in zip(got, x)):
                raise Violation('%s of %r is %r, following the path gives %r' % (f.get_name(), nm[b], got, x))


def follow(case, path, i):
    for k in path:
        i = case['links'][k][i]
        if i >= case['rows']:
            return None
    return i


CHECKS = [Sub('paths', cases(), run, quick=600)]
