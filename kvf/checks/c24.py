"""The defects that are reported are those that the mesh has."""
import itertools
from checks import c18
from framework import *
from spec import idx, mk_index
from checks.c23 import Mesh, seq, parallel, numbers, strip, flat, walk, SORTS

EXPLANATION = (
    'The search for defects is interpreted abstractly, through its constructor and accessors, for an enumerated family of small meshes (every pair and a selection of '
    'larger sets of triangles, with repeated corners, repeated points, unused vertices and every orientation); the lists are compared with those that follow from the '
    'definition. The intersection of two faces, the search tree and the degeneracy of a triangle are replaced by enumerated results (they are the subject of C19, C17 '
    'and CGAL).')
ASSUMPTIONS = ['CGAL decides degeneracy exactly', 'C17, C19 and C21 for the search tree, the intersection of faces and the list of points']

K = 'kigumi::'
TM = K + 'Triangle_mesh'
TS = K + 'Triangle_soup'
U = 'defects'


def run(ctx):
    p = ctx.prog(U)
    for f in p.find(K + 'Find_defects::Find_defects'):
        if len(f['params']) == 1 and TS in p.tname(f['params'][0]['t']):
            ctx.guarded('topological defects', f, lambda: topology(ctx, p, f), unit=U)
            ctx.guarded('faces that overlap', f, lambda: overlaps(ctx, p, f), unit=U)
    for f in p.find(K + 'dense_undirected_graph::dense_undirected_graph'):
        if len(f['params']) == 1 and 'dense_undirected_graph' not in p.tname(f['params'][0]['t']):
            ctx.guarded('graph of a vertex', f, lambda: graph(ctx, p, f), unit=U)
    c18.loops(ctx, ('kigumi::Find_defects',))


# ---------------------------------------------------------------- the definition
def merged(points):
    reps, m = [], []
    for q in points:
        if q not in reps:
            reps.append(q)
        m.append(reps.index(q))
    return reps, m


def trivial(f):
    return len(set(f)) < 3


def halfedges(faces):
    h = {}
    for f in faces:
        if not trivial(f):
            for i in range(3):
                e = (f[i], f[(i + 1) % 3])
                h[e] = h.get(e, 0) + 1
    return h


def edges(faces):
    h = halfedges(faces)
    r = {'boundary_edges': [], 'inconsistent_edges': [], 'non_manifold_edges': []}
    for e in sorted({tuple(sorted(x)) for x in h}):
        a, b = h.get(e, 0), h.get(e[::-1], 0)
        if a + b == 1:
            r['boundary_edges'].append(e)
        elif a + b > 2:
            r['non_manifold_edges'].append(e)
        elif a != b:
            r['inconsistent_edges'].append(e)
    return r


def manifold(faces, v):
    links = []
    for f in faces:
        if v in f and not trivial(f):
            i = f.index(v)
            links.append((f[(i + 1) % 3], f[(i + 2) % 3]))
    if not links:
        return True
    return simple_path([frozenset(e) for e in links])


def simple_path(es):
    """Is the graph with these edges a simple path or circle?"""
    if len(set(es)) < len(es) or any(len(e) == 1 for e in es):
        return False
    vs = set().union(*es)
    if any(sum(x in e for e in es) > 2 for x in vs):
        return False
    seen, todo = set(), [min(vs)]
    while todo:
        x = todo.pop()
        seen.add(x)
        todo += [y for e in es if x in e for y in e if y not in seen]
    return seen == vs


def expected(points, faces, flat_tris):
    reps, m = merged(points)
    fs = [tuple(m[x] for x in f) for f in faces]
    r = edges(fs)
    r['isolated_vertices'] = [v for v in range(len(reps)) if not any(v in f for f in fs)]
    r['non_manifold_vertices'] = [v for v in range(len(reps)) if not manifold(fs, v)]
    r['trivial_degenerate_faces'] = [i for i, f in enumerate(fs) if trivial(f)]
    r['non_trivial_degenerate_faces'] = [i for i, f in enumerate(fs) if not trivial(f) and frozenset(reps[x] for x in f) in flat_tris]
    return r, reps, fs


# ---------------------------------------------------------------- meshes
def meshes(thorough):
    tri = list(itertools.permutations(range(3)))
    # the first face is 0 1 2; the second is any triple
    for f in itertools.product(range(5), repeat=3):
        yield 5, [(0, 1, 2), f]
    small = [f for f in itertools.product(range(4), repeat=3) if len(set(f)) == 3] + [(1, 1, 2), (3, 0, 3)]
    n = 0
    for a in small:
        for b in small:
            n += 1
            if thorough or n % 5 == 0:
                yield 4, [(0, 1, 2), a, b]
    closed = [(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3)]
    yield 4, closed
    for i in range(4):
        yield 4, closed[:i] + closed[i + 1:]
        yield 4, [f[::-1] if j == i else f for j, f in enumerate(closed)]
        yield 4, closed + [closed[i]]
        yield 5, closed + [(i, (i + 1) % 4, 4)]
    # fans around a vertex: closed, open, two of them
    fan = [(0, 1 + i, 1 + (i + 1) % 4) for i in range(4)]
    yield 5, fan
    yield 6, fan[:3]
    yield 6, fan[:1] + fan[2:3]
    yield 6, fan + [(0, 1, 5)]
    yield 7, [(0, 1, 2), (0, 2, 3), (0, 3, 1), (0, 4, 5), (0, 5, 6), (0, 6, 4)]
    # three vertices after the first circle, so that a graph begins with a part that is not all of it
    yield 6, [(3, 0, 1), (3, 1, 0), (3, 4, 5)]
    yield 0, []
    yield 3, []


def labels(n, k):
    """Points of the vertices; some are repeated."""
    out = list(range(n))
    if n > 3 and k % 4 == 1:
        out[n - 1] = out[0]
    elif n > 3 and k % 4 == 2:
        out[1] = out[n - 2]
    elif n > 3 and k % 4 == 3:
        out = [3, 2, 1, 0] + out[4:]
    return out


def is_pt(x):
    return isT(x) and x[1] == 'pt'


class Lists:
    """Lists of points, of which the found position of a point is its first if they are checked."""

    def __init__(self):
        self.u, self.l = {}, {}

    def key(self, ai, this):
        v = this if isLV(this) else ai.rval(this)
        return (v[1], v[2])

    def table(self):
        def start(ai, fn, this, args, node):
            self.u[self.key(ai, this)] = True
            return None

        def stop(ai, fn, this, args, node):
            self.u.pop(self.key(ai, this), None)
            return None

        def insert(ai, fn, this, args, node):
            k = self.key(ai, this)
            q = ai.norm(ai.rval(args[0]))
            l = self.l.setdefault(k, [])
            if k in self.u and q in l:
                return l.index(q)
            l.append(q)
            return len(l) - 1

        def size(ai, fn, this, args, node):
            return len(self.l.get(self.key(ai, this), []))
        b = K + 'Point_list::'
        return {b + 'start_uniqueness_check': start, b + 'stop_uniqueness_check': stop, b + 'insert': insert, b + 'size': size}


def explore(ctx, p, f, n, points, faces, flat_tris, extra=None):
    """The lists of one mesh: (outcomes, lists of the accessors)."""
    M = Mesh(ctx, TS)
    ls = Lists()

    def degenerate(ai, fn, this, args, node):
        v = ai.norm(ai.rval(this))
        c = frozenset(x[2] for x in walk(v) if is_pt(x))
        return 1 if len(c) < 3 or c in flat_tris else 0

    ic = {K + 'parallel_do': parallel([]), 'CGAL::Triangle_3::is_degenerate': degenerate,
          'CGAL::is_degenerate': lambda ai, fn, this, args, node: degenerate(ai, fn, args[0], [], node),
          'CGAL::collinear': lambda ai, fn, this, args, node: 1 if frozenset(ai.norm(ai.rval(a))[2] for a in args) in flat_tris or len({ai.norm(ai.rval(a)) for a in args}) < 3 else 0}
    ic.update(ls.table())
    ic.update(SORTS)
    if extra:
        ic.update(extra)
    names = ['boundary_edges', 'inconsistent_edges', 'isolated_vertices', 'non_manifold_edges', 'non_manifold_vertices', 'non_trivial_degenerate_faces',
             'trivial_degenerate_faces', 'overlapping_faces', 'triangle_soup']
    acc = {m: g for m in names for g in p.find(K + 'Find_defects::' + m) if not g['params']}
    ai = ctx.ai(U, intercepts=ic)
    ai.UNROLL = 24
    ai.map_reversed = len(faces) % 2 == 0
    if extra and 'attach' in extra:
        extra['attach'](ai)

    def go():
        ls.u.clear()
        ls.l.clear()
        m = M.make(ai, [T('pt', x) for x in points], faces, [T('atom', 'd')] * len(faces), 'soup')
        d = ai.construct_repo(f, [m], None)
        lv = ('&', ai.newcell('defects', d), ())
        out = {}
        for x in names:
            if x in acc:
                v = ai.call_fn(acc[x], lv, [])
                out[x] = ai.norm(ai.rval(v))
        return ('res', out)
    return ai.explore(go), M


def tree_ic(leaves_of, inter):
    """The tree gives the leaves of the faces near a face; the intersection of two faces is given by their corners."""
    def tree(ai, fn, this, args, node):
        return ('&', ai.newcell('tree', ('R', T('atom', 'tree'), K + 'AABB_tree', ())), ())

    def bbox(ai, fn, this, args, node):
        return T('bbox', idx(ai.rval(args[1])))

    def leaves(ai, fn, this, args, node):
        q = ai.rval(args[-1])
        if not (isT(q) and q[1] == 'bbox'):
            raise Unsupported('query ' + show(q)[:200])
        lv = dict(ai.rval(args[0])[3])['to']
        cs = ai.as_seq(ai.read(lv))
        items = tuple(('1', ('P', ai.newcell('leaf', Rf('leaf', [('n', i)])), ())) for i in leaves_of(q[2]))
        ai.write(lv, ('S', cs[1] + items, cs[2]), node)
        return None

    def face_index(ai, fn, this, args, node):
        return mk_index(dict(ai.rval(this)[3])['n'])

    def fff(ai, fn, this, args, node):
        v = [ai.rval(a) for a in args]
        v = [strip(x) for x in v]
        r = inter(v)
        if r is None:
            raise Unsupported('intersection of ' + show(v)[:200])
        return seq([T('atom', 'region%d' % i) for i in range(r)])
    return {TS + '::aabb_tree': tree, K + 'internal::face_bbox': bbox, K + 'AABB_tree::get_intersecting_leaves': leaves, 'leaf': face_index,
            K + 'Face_face_intersection::operator()': fff,
            K + 'Face_face_intersection::Face_face_intersection': lambda ai, fn, this, args, node: Rf(K + 'Face_face_intersection', [])}


def with_leaf(p, ic):
    h = ic.pop('leaf')
    for x in p.fns.values():
        if x['b'].endswith('::face_index'):
            ic[x['b']] = h
    return ic


def pairs(v):
    """A list of edges."""
    l = flat(v)
    if l is None:
        return None
    out = []
    for e in l:
        x = flat(e) if isS(e) else [y for _, y in e[3]] if isR(e) and len(e[3]) == 2 else None
        if x is None or len(x) != 2:
            return None
        x = [strip(y) for y in x]
        if not all(isinstance(y, int) for y in x):
            return None
        out.append(tuple(x))
    return out


def numbers_of(v):
    l = flat(v)
    if l is None:
        return None
    l = [strip(x) for x in l]
    return l if all(isinstance(x, int) for x in l) else None


def topology(ctx, p, f):
    rule = 'topological defects'
    w = ctx.where(f, unit=U)
    n = 0
    for k, (nv, faces) in enumerate(meshes(ctx.tier == 'thorough')):
        points = labels(nv, k)
        flat_tris = set()
        reps, m = merged(points)
        for i, fc in enumerate(faces):
            if (i + k) % 3 == 0 and k % 2:
                flat_tris.add(frozenset(points[x] for x in fc))
        want, reps, fs = expected(points, faces, flat_tris)
        outs, M = explore(ctx, p, f, nv, points, faces, flat_tris, with_leaf(p, tree_ic(lambda i: [], lambda v: 0)))
        txt = f'for the points {points} and faces {faces}'
        if len(outs) != 1:
            return ctx.und(rule, w, f'{len(outs)} paths {txt}: {[show(t)[:200] for t in list(outs[0].st.dom)[:3]]}')
        o = outs[0]
        if o.kind not in ('norm', 'ret'):
            return (ctx.viol if o.kind == 'throw' else ctx.und)(rule, w, f'{o.kind} {show(o.val)[:200]} {txt}', **({'key': 'throws'} if o.kind == 'throw' else {}))
        got = o.val[1]
        soup = got.get('triangle_soup')
        if soup is not None and isR(soup):
            d = dict(soup[3])
            ps, fl = flat(d.get(M.fp)), flat(d.get(M.ff))
            if ps is not None and fl is not None and all(is_pt(x) for x in ps):
                ps = [x[2] for x in ps]
                fl = [tuple(numbers_of(x) or ()) for x in fl]
                if ps != reps or fl != fs:
                    if len(set(ps)) == len(ps) and set(ps) == set(reps) and len(fl) == len(fs) and all(len(x) == 3 for x in fl) and \
                            [tuple(ps[y] for y in x) for x in fl] == [tuple(reps[y] for y in x) for x in fs]:
                        return ctx.und(rule, w, 'another order of the points')
                    return ctx.viol(rule, w, f'the points become {ps} and the faces {fl} {txt}', key='merge')
            else:
                return ctx.und(rule, w, f'merged mesh {show(soup)[:200]}')
        for x, ex in want.items():
            if x not in got:
                return ctx.und(rule, w, f'no list of {x}')
            if x.endswith('edges'):
                g = pairs(got[x])
                if g is not None:
                    g = [tuple(sorted(e)) for e in g]
            else:
                g = numbers_of(got[x])
            if g is None:
                return ctx.und(rule, w, f'{x}: {show(got[x])[:200]}')
            if sorted(g) != sorted(ex):
                return ctx.viol(rule, w, f'{x.replace("_", " ")}: {sorted(g)} instead of {ex} {txt}', key=x)
        n += 1
    ctx.ok(rule, w)
    ctx.count('meshes', n)
    ctx.analysed.add(w)


def overlaps(ctx, p, f):
    rule = 'faces that overlap'
    w = ctx.where(f, unit=U)
    n = 0
    nv = 9
    base = [(0, 1, 2)]
    second = [(3, 4, 5), (0, 4, 5), (5, 2, 4), (1, 0, 4), (4, 2, 1), (2, 1, 0), (0, 1, 2), (3, 3, 4), (0, 0, 1)]
    cases = []
    for s in second:
        sh = len(set(s) & {0, 1, 2})
        for k in range(0, 5):
            cases.append(([(0, 1, 2), s], {(0, 1): k}, (), sh))
    # three faces: the second pair counts too
    for k1, k2, k3 in itertools.product((0, 1, 3), repeat=3):
        cases.append(([(0, 1, 2), (2, 3, 4), (4, 5, 6)], {(0, 1): k1, (0, 2): k2, (1, 2): k3}, (), None))
        cases.append(([(4, 5, 6), (0, 1, 2), (1, 0, 4)], {(0, 1): k1, (0, 2): k2, (1, 2): k3 + 1}, (), None))
        cases.append(([(0, 1, 2), (3, 4, 5), (6, 7, 8)], {(0, 1): k1, (0, 2): k2, (1, 2): k3}, (), None))
    for z in range(3):
        cases.append(([(0, 1, 2), (2, 3, 4), (4, 5, 6)], {(0, 1): 3, (0, 2): 3, (1, 2): 3}, (z,), None))
    for c, (faces, table, deg, _) in enumerate(cases):
        flat_tris = {frozenset(faces[i]) for i in deg}
        points = list(range(nv))
        corners = {}
        for i, fc in enumerate(faces):
            corners.setdefault(tuple(sorted(fc)), []).append(i)

        def inter(v):
            a, b = corners.get(tuple(sorted(v[:3]))), corners.get(tuple(sorted(v[3:])))
            if a is None or b is None:
                wrong.append(v)
                return 0
            if a == b:
                return table.get((a[0], a[1])) if len(a) == 2 else 6
            i, j = sorted((a[0], b[0]))
            return table.get((i, j), 0)

        def near(i):
            if not isinstance(i, int):
                raise Unsupported('face')
            # faces whose boxes overlap need not intersect
            l = list(range(len(faces)))
            return l if c % 2 else l[::-1]
        bad, wrong = [], []
        dead = {i for i, fc in enumerate(faces) if trivial(fc) or frozenset(fc) in flat_tris}
        for (i, j), k in table.items():
            sh = len(set(faces[i]) & set(faces[j]))
            if i not in dead and j not in dead and (k > 2 or k > sh):
                bad.append((i, j))
        outs, M = explore(ctx, p, f, nv, points, faces, flat_tris, with_leaf(p, tree_ic(near, inter)))
        txt = f'for faces {faces} that intersect in {table} parts'
        ints = [v for v in wrong if len(v) == 6 and all(isinstance(x, int) for x in v)]
        if wrong:
            return (ctx.viol if ints else ctx.und)(rule, w, f'the triangles {(ints or wrong)[0]} are intersected, which are not two faces, {txt}')
        if len(outs) != 1:
            return ctx.und(rule, w, f'{len(outs)} paths {txt}: {[show(t)[:200] for t in list(outs[0].st.dom)[:3]]}')
        o = outs[0]
        if o.kind not in ('norm', 'ret'):
            return ctx.und(rule, w, f'{o.kind} {show(o.val)[:200]} {txt}')
        g = numbers_of(o.val[1].get('overlapping_faces'))
        if g is None:
            return ctx.und(rule, w, show(o.val[1].get('overlapping_faces'))[:200])
        for x in g:
            if not any(x in e for e in bad):
                return ctx.viol(rule, w, f'face {x} is reported {txt}', key='wrong')
        if len(set(g)) < len(g):
            return ctx.viol(rule, w, f'a face is reported twice {txt}', key='twice')
        for e in bad:
            if not set(e) & set(g):
                return ctx.viol(rule, w, f'faces {e[0]} and {e[1]} are not reported {txt}', key='missed')
        n += 1
    ctx.ok(rule, w)
    ctx.count('combinations of intersecting faces', n)
    ctx.analysed.add(w)


def graph(ctx, p, f):
    rule = 'graph of a vertex'
    w = ctx.where(f, unit=U)
    fns = {m: next((g for g in p.find(K + 'dense_undirected_graph::' + m)), None) for m in ('add_edge', 'is_simple', 'is_connected', 'max_degree', 'has_edge', 'degree')}
    if not fns['add_edge']:
        return ctx.und(rule, w, 'no edges')
    n = 0
    for k in (1, 2, 3, 4, 5):
        es = [(i, j) for i in range(k) for j in range(i, k)]
        sets = [list(c) for r in range(0, 4) for c in itertools.combinations_with_replacement(es, r)]
        if k >= 4:
            sets = sets[::7] + [[(i, i + 1) for i in range(k - 1)], [(i, (i + 1) % k) for i in range(k)], [(0, i) for i in range(1, k)]]
        for c, s in enumerate(sets):
            s = [e[::-1] if (c + i) % 2 else e for i, e in enumerate(s)]
            ai = ctx.ai(U)
            ai.UNROLL = 24

            def go():
                lv = ('&', ai.newcell('graph', ai.construct_repo(f, [k], None)), ())
                for i, j in s:
                    ai.call_fn(fns['add_edge'], lv, [i, j])
                r = {}
                for m in ('is_simple', 'is_connected', 'max_degree'):
                    if fns[m]:
                        r[m] = ai.rval(ai.call_fn(fns[m], lv, []))
                if fns['has_edge']:
                    r['has'] = [ai.rval(ai.call_fn(fns['has_edge'], lv, [i, j])) for i in range(k) for j in range(k)]
                if fns['degree']:
                    r['deg'] = [ai.rval(ai.call_fn(fns['degree'], lv, [i])) for i in range(k)]
                return ('res', r)
            outs = ai.explore(go)
            if len(outs) == 1 and outs[0].kind == 'throw':
                return ctx.viol(rule, w, f'{show(outs[0].val)[:100]} for {k} vertices and the edges {s}', key='throws')
            if len(outs) != 1 or outs[0].kind not in ('norm', 'ret'):
                return ctx.und(rule, w, f'{len(outs)} paths {outs[0].kind} {show(outs[0].val)[:100]}')
            fs = [frozenset(e) for e in s]
            deg = [sum(i in e for e in fs) for i in range(k)]
            reach, todo = set(), [0]
            while todo:
                x = todo.pop()
                if x not in reach:
                    reach.add(x)
                    todo += [y for e in fs if x in e for y in e]
            want = {'is_simple': len(set(fs)) == len(fs) and all(len(e) == 2 for e in fs), 'is_connected': len(reach) == k, 'max_degree': max(deg),
                    'has': [frozenset((i, j)) in fs for i in range(k) for j in range(k)], 'deg': deg}
            for m, g in outs[0].val[1].items():
                l, r = (g, want[m]) if isinstance(g, list) else ([g], [want[m]])
                if not all(isinstance(x, (int, bool)) or x in (TRUE, FALSE) for x in l):
                    return ctx.und(rule, w, f'{m}: {show(g)[:100]}')
                if [int(x) for x in l] != [int(x) for x in r]:
                    return ctx.viol(rule, w, f'{m} is {g} instead of {want[m]} for {k} vertices and the edges {s}', key=m)
            n += 1
    ctx.ok(rule, w)
    ctx.count('graphs', n)
    ctx.analysed.add(w)
