"""Every face of the combined mesh is on the right side of the other mesh."""
import itertools
from checks import c18
from framework import *
from spec import idx, mk_index, field_of, soup_fields, flat_events

EXPLANATION = (
    'The classifier at an edge is interpreted abstractly for every arrangement of the faces of two consistently oriented meshes around an edge (up to a number of '
    'directions) and compared with the sides that follow from the arrangement; predicates are evaluated on a representative of the arrangement. Propagation and the '
    'search for components are interpreted for every graph of up to four faces; the classification of a component by a ray, for every combination of the results of '
    'its intersections.')
ASSUMPTIONS = ['the meshes are consistently oriented around an edge', 'CGAL constructs and compares exactly']

K = 'kigumi::'
TM = K + 'Triangle_mesh'
TS = K + 'Triangle_soup'
UNKNOWN, EXTERIOR, INTERIOR, COPLANAR, OPPOSITE = range(5)
NAMES = ['unknown', 'exterior', 'interior', 'coplanar', 'opposite']


def run(ctx):
    p = ctx.prog()
    for f in p.find(K + 'Classify_faces_locally::operator()'):
        ctx.guarded('faces at an edge', f, lambda: local(ctx, p, f))
    for f in p.find(K + 'Propagate_face_tags::operator()'):
        ctx.guarded('tags are passed on', f, lambda: propagate(ctx, p, f))
    for f in p.find(K + 'Classify_faces_globally::operator()'):
        ctx.guarded('components', f, lambda: components(ctx, p, f))
        ctx.guarded('faces without a tag', f, lambda: globally(ctx, p, f))
    for f in p.find(K + 'Side_of_triangle_soup::operator()'):
        ctx.guarded('side of a point', f, lambda: side(ctx, p, f))
    parts(ctx, p)
    for f in p.find(K + 'Find_coplanar_faces::operator()'):
        ctx.guarded('common faces', f, lambda: coplanar(ctx, p, f))
    for f in p.find(K + 'Mix::operator()'):
        ctx.guarded('order of the steps', f, lambda: mix(ctx, p, f))
    c18.loops(ctx, ('kigumi::Find_coplanar_faces', 'kigumi::Mix', 'kigumi::Classify_faces_globally',))


# ---------------------------------------------------------------- a mesh of known size
def seq(xs):
    return ('S', tuple(('1', x) for x in xs), ())


class Mesh:
    def __init__(self, ctx, cls=TM):
        get = lambda m: field_of(ctx, cls, m)
        self.cls = cls
        self.fp, self.ff, self.fd = get('point') or 'points_', get('face') or 'faces_', get('data') or 'face_data_'

    def make(self, ai, points, faces, data, name='m'):
        self.n = len(faces)
        v = Rf(self.cls, [(self.fp, seq(points)), (self.ff, seq([seq([mk_index(x) for x in f]) for f in faces])), (self.fd, seq(data))])
        return ('&', ai.newcell(name, v), ())

    def data(self, ai, lv):
        v = ai.rval(('&', lv[1], lv[2] + (('f', self.fd),)))
        return [ai.rval(('&', lv[1], lv[2] + (('f', self.fd), ('i', i)))) for i in range(self.n)]


def mixed(left, tag, x):
    return Rf(K + 'Mixed_face_data', [('from_left', left), ('tag', tag), ('data', T('atom', 'x%d' % x))])


def tag_of(d):
    return dict(d[3]).get('tag') if isR(d) else None


# ---------------------------------------------------------------- geometry on a representative
class Geo:
    """Evaluates constructions and predicates of CGAL on integers."""

    def __init__(self, pts):
        self.pts = pts

    def ev(self, t):
        if isinstance(t, (bool, int)):
            return int(t)
        if isR(t) and t[1] is not None and not t[3]:
            return self.ev(t[1])
        if not isT(t):
            return None
        if t[1] == 'pt':
            return self.pts.get(t[2])
        if t[1] == 'lin':
            s = t[3]
            for x, k in dict(t[2]).items():
                v = self.ev(x)
                if not isinstance(v, int):
                    return None
                s += v * k
            return s
        if t[1] in ('>0', '==0', '!'):
            v = self.ev(t[2])
            if not isinstance(v, int):
                return None
            return int(v > 0 if t[1] == '>0' else v == 0 if t[1] == '==0' else not v)
        if t[1] in ('?less', '=='):
            a, b = self.ev(t[2]), self.ev(t[3])
            if a is None or b is None:
                return None
            return int(a < b if t[1] == '?less' else a == b)
        if t[1] not in ('app', 'ctor'):
            return None
        n = t[2]
        a = [self.ev(x) for x in t[3:]]
        if any(x is None for x in a):
            return None
        s = n.rsplit('::', 1)[-1]
        if n in ('+', '-') and len(a) == 2:
            f = (lambda x, y: x + y) if n == '+' else (lambda x, y: x - y)
            if isinstance(a[0], tuple) and isinstance(a[1], tuple):
                return tuple(f(x, y) for x, y in zip(*a))
            return f(*a) if not any(isinstance(x, tuple) for x in a) else None
        if n == '-' and len(a) == 1:
            return tuple(-x for x in a[0]) if isinstance(a[0], tuple) else -a[0]
        if n == '*' or s == 'scalar_product':
            if isinstance(a[0], tuple) and isinstance(a[1], tuple):
                return sum(x * y for x, y in zip(*a))
            if isinstance(a[0], tuple) or isinstance(a[1], tuple):
                v, k = (a[0], a[1]) if isinstance(a[0], tuple) else (a[1], a[0])
                return tuple(k * x for x in v)
            return a[0] * a[1]
        if s in ('Vector_2', 'Point_2', 'Vector_3', 'Point_3'):
            if len(a) == 2 and isinstance(a[0], tuple):
                return tuple(y - x for x, y in zip(*a))
            return tuple(a)
        if s == 'Plane_3':
            if len(a) == 2:
                return ('plane', a[1])
            if len(a) == 3:
                return ('plane', cross(vec(a[0], a[1]), vec(a[0], a[2])))
            return None
        if s in ('base1', 'base2', 'orthogonal_vector'):
            n = a[0][1]
            if s == 'orthogonal_vector':
                return n
            b1 = (n[2], 0, -n[0]) if n[0] or n[2] else (1, 0, 0)
            return b1 if s == 'base1' else cross(n, b1)
        if s in ('x', 'y', 'z') and len(a) == 1 and isinstance(a[0], tuple):
            k = 'xyz'.index(s)
            return a[0][k] if k < len(a[0]) else None
        if s == 'cross_product':
            return cross(*a)
        if s in ('sign', 'orientation', 'determinant'):
            return self.pred(s, a)
        return None

    def pred(self, s, a):
        if s == 'sign' and len(a) == 1 and isinstance(a[0], int):
            return sgn(a[0])
        if s in ('orientation', 'determinant'):
            if len(a) == 2 and len(a[0]) == 2:
                r = a[0][0] * a[1][1] - a[0][1] * a[1][0]
            elif len(a) == 3 and len(a[0]) == 2:
                u, v = vec(a[0], a[1]), vec(a[0], a[2])
                r = u[0] * v[1] - u[1] * v[0]
            elif len(a) == 3:
                r = dot(cross(a[0], a[1]), a[2])
            elif len(a) == 4:
                r = dot(cross(vec(a[0], a[1]), vec(a[0], a[2])), vec(a[0], a[3]))
            else:
                return None
            return sgn(r) if s == 'orientation' else r
        return None


def vec(a, b):
    return tuple(y - x for x, y in zip(a, b))


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def sgn(x):
    return (x > 0) - (x < 0)


def attach(ai, geo):
    """The interpreter decides conditions on the representative."""
    old = ai.decide

    def decide(v, *a):
        r = geo.ev(v)
        if isinstance(r, int):
            return bool(r)
        return old(v, *a)
    ai.decide = decide


def geo_ic(geo):
    def pred(name):
        def h(ai, fn, this, args, node):
            a = [geo.ev(ai.key(ai.rval(x))) for x in args]
            r = geo.pred(name, a) if None not in a else None
            return NotImplemented if r is None else r
        return h
    return {'CGAL::sign': pred('sign'), 'CGAL::orientation': pred('orientation')}


def sort_ic(ai, fn, this, args, node):
    """Insertion sort with the comparison of the program."""
    b, e = ai.rval(args[0]), ai.rval(args[1])
    vs = ai.conc(b, e)
    if vs is None:
        return NotImplemented
    out = []
    for x in vs:
        i = len(out)
        while i > 0:
            r = ai.rval(ai.call_value(args[2], [x, out[i - 1]], node)) if len(args) > 2 else ai.less(x, out[i - 1])
            if not ai.truth(r):
                break
            i -= 1
        out.insert(i, x)
    ai.store_range(b, out, node)
    return None


def partial_sort_ic(ai, fn, this, args, node):
    """The elements from the middle on are in the worst order: from the greatest to the least."""
    b, m, e = [ai.rval(x) for x in args[:3]]
    vs, k = ai.conc(b, e), ai.conc(b, m)
    if vs is None or k is None or sort_ic(ai, fn, this, [args[0], args[2]] + list(args[3:]), node) is not None:
        return NotImplemented
    vs = ai.conc(b, e)
    ai.store_range(b, vs[:len(k)] + vs[len(k):][::-1], node)
    return None


SORTS = {'std::sort': sort_ic, 'std::stable_sort': sort_ic, K + 'parallel_sort': sort_ic}


# ---------------------------------------------------------------- around an edge
DIRS = [(1, 0), (2, 1), (1, 2), (0, 1), (-1, 2), (-2, 1), (-1, 0), (-2, -1), (-1, -2), (0, -1), (1, -2), (2, -1)]


def arrangements(k):
    for s in itertools.product('LRB', repeat=k):
        l, r = sum(c != 'R' for c in s), sum(c != 'L' for c in s)
        if l % 2 or r % 2 or not l or not r:
            continue
        for pl in (1, -1):
            for pr in (1, -1):
                yield s, pl, pr


def truth_of(s, pl, pr):
    """[(direction, left?, orientation, tag)] of an arrangement."""
    ori = {'L': pl, 'R': pr}
    # inside before the first face iff it is counterclockwise
    inside = {'L': pl > 0, 'R': pr > 0}
    out = []
    for d, c in enumerate(s):
        if c == 'B':
            tag = COPLANAR if ori['L'] == ori['R'] else OPPOSITE
            out.append((d, True, ori['L'], tag))
            out.append((d, False, ori['R'], tag))
        else:
            o = 'R' if c == 'L' else 'L'
            out.append((d, c == 'L', ori[c], INTERIOR if inside[o] else EXTERIOR))
        for x in 'LR':
            if c in (x, 'B'):
                ori[x] = -ori[x]
                inside[x] = not inside[x]
    return out


def local(ctx, p, f):
    rule = 'faces at an edge'
    w = ctx.where(f)
    M = Mesh(ctx)
    n = 0
    seen_pairs = set()
    # (arrangement, variants)
    todo = []
    for k in (2, 3, 4):
        todo += [(a, (0, 1, 2, 3) if k < 4 else (0, 2) if i % 2 else (1, 3)) for i, a in enumerate(arrangements(k))]
    for i, a in enumerate(arrangements(5)):
        if ctx.tier == 'thorough':
            todo.append((a, (0, 1, 2, 3)))
        elif i % 4 == (i // 4) % 4:
            todo.append((a, ((i // 4) % 4,)))
    if ctx.tier == 'thorough':
        todo += [(a, (i % 4,)) for i, a in enumerate(arrangements(6))]
    for no, ((s, pl, pr), variants) in enumerate(todo):
        k = len(s)
        # which directions
        sel = sorted({(no * 7 + j * (5 if k < 4 else 1) + (no // 12) * j) % 12 for j in range(k)})
        j = 0
        while len(sel) < k:
            if j not in sel:
                sel = sorted(sel + [j])
            j += 1
        faces = truth_of(s, pl, pr)
        dirs = [tuple((1 + (no + d) % 3) * x for x in DIRS[sel[d]]) for d in range(k)]
        # the order of the faces and of their corners
        order = list(range(len(faces)))
        if no % 3 == 1:
            order.reverse()
        elif no % 3 == 2:
            order = order[1::2] + order[::2]
        for var in variants:
            pre = []
            for x, (d, l, o, tag) in enumerate(faces):
                kn = {0: False, 1: tag >= COPLANAR, 2: x == (no + 1) % len(faces), 3: x != no % len(faces)}[var]
                pre.append(tag if kn else UNKNOWN)
            if var == 2:
                # both faces of a pair are tagged
                for x, (d, l, o, tag) in enumerate(faces):
                    if tag >= COPLANAR and any(pre[y] >= COPLANAR and faces[y][0] == d for y in range(len(faces))):
                        pre[x] = tag
            r = one(ctx, p, f, M, rule, w, faces, dirs, order, pre, no)
            if r is not True:
                return r
            n += 1
    m = 0
    for no, (oris, tags) in enumerate(contradictions(ctx.tier == 'thorough')):
        k = len(oris)
        faces = [(d, bool((d + no) % 2), o, t) for d, (o, t) in enumerate(zip(oris, tags))]
        sel = sorted({(no + j * 12 // k) % 12 for j in range(k)})
        # the first face in the order around the edge need not be the first of the list
        r = one(ctx, p, f, M, rule, w, faces, [DIRS[x] for x in sel], list(range(k))[::-1] if no % 2 else list(range(k)), [UNKNOWN] * k, no, False)
        if r is not True:
            return r
        m += 1
    for no in range(4):
        # one of the faces is degenerate: its direction is unknown, no tags can be derived
        faces = [(d, d % 2 == 0, o, UNKNOWN) for d, o in enumerate((1, 1, -1, -1))]
        dirs = [(0, 0) if d == no else DIRS[3 * d + 1] for d in range(4)]
        r = one(ctx, p, f, M, rule, w, faces, dirs, [0, 1, 2, 3], [UNKNOWN] * 4, no, False, True)
        if r is not True:
            return r
    ctx.ok(rule, w)
    ctx.count('arrangements of faces that contradict each other', m)
    ctx.count('arrangements of faces around an edge', n)
    ctx.analysed.add(w)


def contradictions(deep):
    """Orientations of the faces around an edge, no two at the same place, that cannot be those of two closed meshes, with the tags that
    follow from two neighbours; the others stay without a tag."""
    for k in (3, 4, 5, 6) if deep else (3, 4, 5):
        for oris in itertools.product((1, -1), repeat=k):
            tags = [set() for _ in oris]
            for i, o in enumerate(oris):
                if o == oris[(i + 1) % k]:
                    tags[i].add(INTERIOR if o > 0 else EXTERIOR)
                    tags[(i + 1) % k].add(EXTERIOR if o > 0 else INTERIOR)
            if any(len(t) > 1 for t in tags) or not any(tags):
                continue
            start = next(i for i, t in enumerate(tags) if t)
            cur, ok = next(iter(tags[start])), True
            for i in range(start + 1, start + k + 1):
                if oris[i % k] == oris[(i - 1) % k]:
                    cur = INTERIOR if cur == EXTERIOR else EXTERIOR
                if tags[i % k] and tags[i % k] != {cur}:
                    ok = False
            if not ok:
                yield oris, [next(iter(t)) if t else UNKNOWN for t in tags]


def describe(faces, dirs, pre):
    return '; '.join(f'{"left" if l else "right"} at {dirs[d]} {"ccw" if o > 0 else "cw"} {NAMES[pre[i]]}' for i, (d, l, o, t) in enumerate(faces))


def one(ctx, p, f, M, rule, w, faces, dirs, order, pre, no, complete=True, error=False):
    pts = {0: (0, 0, 0), 1: (0, 0, 1)}
    for d, (x, y) in enumerate(dirs):
        pts[2 + d] = (x, y, 3 * d - 4)
    geo = Geo({k: v for k, v in pts.items()})
    fl, data = [], []
    for y in order:
        d, l, o, tag = faces[y]
        c = [0, 1, 2 + d] if o > 0 else [1, 0, 2 + d]
        r = (no + y) % 3
        fl.append(c[r:] + c[:r])
        data.append(mixed(l, pre[y], y))

    def fae(ai, fn, this, args, node):
        e = ai.rval(args[0])
        v = {x if not isR(x) else idx(x) for x in (ai.rval(ai.index(e, i, node, False)) for i in (0, 1))} if False else None
        return seq([mk_index(i) for i in range(len(fl))])

    def prop(ai, fn, this, args, node):
        i = idx(ai.rval(args[2]))
        lv = args[0]
        t = tag_of(M.data(ai, lv)[i]) if isinstance(i, int) else None
        ai.st.ev.append(('seed', i, t, ai.rval(args[1])))
        return T('W', i)
    ic = {TM + '::faces_around_edge': fae, K + 'Propagate_face_tags::operator()': prop}
    ic.update(geo_ic(geo))
    ic.update(SORTS)
    ai = ctx.ai(intercepts=ic)
    ai.UNROLL = 24
    attach(ai, geo)

    def go():
        m = M.make(ai, [T('pt', i) for i in range(2 + len(dirs))], fl, data)
        e = seq([mk_index(0), mk_index(1)])
        r = ai.rval(ai.call_fn(f, sym_this(ai, f), [m, e, T('atom', 'border')]))
        return ('res', r, M.data(ai, m))
    outs = ai.explore(go)
    if len(outs) != 1:
        return ctx.und(rule, w, f'{len(outs)} paths for {describe(faces, dirs, pre)}: {[show(t)[:200] for t in list(outs[0].st.dom)[:2]]}')
    o = outs[0]
    if error:
        return o.kind == 'throw' or ctx.viol(rule, w, f'no error although a face is degenerate: {describe(faces, dirs, pre)}', key='degenerate')
    if o.kind not in ('norm', 'ret'):
        return ctx.viol(rule, w, f'{o.kind} {show(o.val)[:200]} for {describe(faces, dirs, pre)}', key='throws')
    _, r, ds = o.val
    seeds = [e for e in o.ev if e[0] == 'seed']
    new = set()
    for i, y in enumerate(order):
        d, l, ori, tag = faces[y]
        dd = dict(ds[i][3])
        if dd.get('from_left') != l or dd.get('data') != T('atom', 'x%d' % y):
            return ctx.viol(rule, w, 'other data of a face change', key='data')
        t = dd['tag']
        if not isinstance(t, int):
            return ctx.und(rule, w, f'tag {show(t)[:200]}')
        if t != tag and t != UNKNOWN:
            if tag == UNKNOWN:
                return ctx.viol(rule, w, f'the faces contradict each other, yet the {"left" if l else "right"} face at {dirs[d]} becomes {NAMES[t] if t < 5 else t}: {describe(faces, dirs, pre)}', key='contradiction')
            return ctx.viol(rule, w, f'a face that is {NAMES[tag]} becomes {NAMES[t] if t < 5 else t}: the {"left" if l else "right"} face at {dirs[d]} of {describe(faces, dirs, pre)}',
                            key='tag')
        if t == UNKNOWN and tag >= COPLANAR and any(x == UNKNOWN for x in pre):
            return ctx.viol(rule, w, f'a common face gets no tag: {describe(faces, dirs, pre)}', key='common')
        if t == UNKNOWN and pre[y] != UNKNOWN:
            return ctx.viol(rule, w, 'the tag of a face is removed', key='removed')
        if t != pre[y] and tag < COPLANAR:
            new.add(i)
    # two neighbouring faces with the same orientation, none of which is a common face, decide the tags of all
    if complete and any(x == UNKNOWN for x in pre) and decided(faces):
        for i, y in enumerate(order):
            if dict(ds[i][3])['tag'] == UNKNOWN:
                return ctx.viol(rule, w, f'a face that is {NAMES[faces[y][3]]} gets no tag: the {"left" if faces[y][1] else "right"} face at {dirs[faces[y][0]]} of {describe(faces, dirs, pre)}',
                                key='incomplete')
    for e in seeds:
        if e[2] == UNKNOWN:
            return ctx.viol(rule, w, f'a face without a tag is propagated: {describe(faces, dirs, pre)}', key='seed')
        if not isinstance(e[1], int) or e[2] is None:
            return ctx.und(rule, w, 'seed')
        if e[3] != T('atom', 'border'):
            return ctx.viol(rule, w, f'tags are passed on across {show(e[3])[:100]}', key='border')
    if not new <= {e[1] for e in seeds}:
        return ctx.viol(rule, w, f'the new tag of a face is not passed on: {describe(faces, dirs, pre)}', key='propagate')
    ws = {x for x in walk(r) if isT(x) and x[1] == 'W'}
    if {x[2] for x in ws} != {e[1] for e in seeds}:
        return ctx.viol(rule, w, 'warnings are lost', key='warnings')
    return True


def decided(faces):
    for i, (d, l, o, t) in enumerate(faces):
        d2, l2, o2, t2 = faces[(i + 1) % len(faces)]
        if d != d2 and t < COPLANAR and t2 < COPLANAR and o == o2:
            return True
    return False


def walk(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from walk(x)


# ---------------------------------------------------------------- propagation
def graphs(n):
    es = list(itertools.combinations(range(n), 2))
    for m in range(1 << len(es)):
        yield [e for i, e in enumerate(es) if m >> i & 1]


def nbs(n, es, loops=False):
    out = []
    for i in range(n):
        out.append(sorted({b for a, b in es if a == i} | {a for a, b in es if b == i} | ({i} if loops and i % 2 else set())))
    return out


def faf(nb, border, bad):
    def h(ai, fn, this, args, node):
        i = idx(ai.rval(args[0]))
        b = ai.rval(args[1])
        if b != border:
            bad.append(show(b)[:200])
        if not isinstance(i, int) or i >= len(nb):
            return NotImplemented
        return seq([mk_index(x) for x in nb[i]])
    return h


def propagate(ctx, p, f):
    rule = 'tags are passed on'
    w = ctx.where(f)
    M = Mesh(ctx)
    n = 0
    cases = []
    for k in (1, 2, 3):
        for es in graphs(k):
            for tags in itertools.product((UNKNOWN, EXTERIOR, INTERIOR) if k == 3 else range(5), repeat=k - 1):
                for seed in (EXTERIOR, INTERIOR) if k == 3 else (EXTERIOR, INTERIOR, COPLANAR, OPPOSITE):
                    cases.append((k, es, (seed,) + tags))
    for es in graphs(4):
        cases.append((4, es, (INTERIOR, UNKNOWN, UNKNOWN, UNKNOWN)))
    for c, (k, es, tags) in enumerate(cases):
        left = bool(c % 2)
        nb = nbs(k, es, c % 3 == 0)
        s = c % k if k > 1 else 0
        # the seed is not always the first face
        perm = [(i + s) % k for i in range(k)]
        nb2 = [None] * k
        for i in range(k):
            nb2[perm[i]] = sorted(perm[x] for x in nb[i])
        tg = [None] * k
        for i in range(k):
            tg[perm[i]] = tags[i]
        bad = []
        ai = ctx.ai(intercepts={TM + '::faces_around_face': faf(nb2, T('atom', 'border'), bad)})

        def go():
            m = M.make(ai, [], [[0, 1, 2]] * k, [mixed(left, tg[i], i) for i in range(k)])
            this = sym_this(ai, f)
            for x in queues(p, f):
                ai.write(('&', this[1], (('f', x),)), seq([]))
            r = ai.rval(ai.call_fn(f, this, [m, T('atom', 'border'), mk_index(s)]))
            return ('res', r, M.data(ai, m))
        outs = ai.explore(go)
        if len(outs) != 1 or outs[0].kind not in ('norm', 'ret'):
            return ctx.und(rule, w, f'{len(outs)} paths {outs[0].kind} {show(outs[0].val)[:100]}: {[show(t)[:200] for t in list(outs[0].st.dom)[:2]]}')
        if bad:
            return ctx.viol(rule, w, f'neighbours are found with {bad[0]}', key='border')
        _, r, ds = outs[0].val
        reached, todo, warn = {s}, [s], False
        while todo:
            x = todo.pop()
            for y in nb2[x]:
                if y in reached:
                    continue
                if tg[y] == UNKNOWN:
                    reached.add(y)
                    todo.append(y)
                elif tg[y] != tags[0]:
                    warn = True
        for i in range(k):
            t = tag_of(ds[i])
            if not isinstance(t, int):
                return ctx.und(rule, w, show(t)[:200])
            want = tags[0] if i in reached else tg[i]
            if t != want:
                return ctx.viol(rule, w, f'a face that is {NAMES[tg[i]]} and {"" if i in reached else "not "}connected to one that is {NAMES[tags[0]]} becomes {NAMES[t]} '
                                         f'(faces {tg}, neighbours {nb2}, start {s})', key='tag')
        want = (1 if left else 2) if warn else 0
        if r != want:
            if not isinstance(r, int):
                return ctx.und(rule, w, show(r)[:200])
            return ctx.viol(rule, w, f'warning {r} instead of {want} (faces {tg} of the {"first" if left else "second"} mesh, neighbours {nb2}, start {s})', key='warning')
        n += 1
    ctx.ok(rule, w)
    ctx.count('components for propagation', n)
    ctx.analysed.add(w)


def strip(v):
    while isR(v) and len(v[3]) == 1:
        v = v[3][0][1]
    return idx(v) if isR(v) else v


def queues(p, f):
    rec = next((r for r in p.records.values() if r['qn'] == f['cls']), None)
    return [x['n'] for x in rec['fields']] if rec else []


# ---------------------------------------------------------------- components without a tag
def numbers(b, e):
    """The elements of a range whose iterators are records around a number."""
    b, e = strip(b), strip(e)
    if isinstance(b, int) and isinstance(e, int):
        return [mk_index(i) for i in range(b, e)]
    return None


def parallel(bodies):
    """parallel_do(first, last, state, body, post): the body is run for every element, with the state; then post."""
    def h(ai, fn, this, args, node):
        b, e = ai.rval(args[0]), ai.rval(args[1])
        bodies.append((b, e))
        vs = numbers(b, e)
        if vs is None:
            vs = ai.conc(b, e)
        if vs is None:
            return NotImplemented
        if not vs:
            return None
        st = ai.newcell('local', ai.rval(args[2])) if len(args) == 5 else None
        for x in vs:
            c = ('&', ai.newcell('elem', x), ())
            if len(args) == 5:
                ai.call_value(args[3], [c, ('&', st, ())], node)
            else:
                ai.call_value(args[2], [c], node)
        if len(args) == 5:
            ai.call_value(args[4], [('&', st, ())], node)
        return None
    return h


def components(ctx, p, f):
    rule = 'components'
    w = ctx.where(f)
    M = Mesh(ctx)
    n = 0
    cases = []
    for k in (1, 2, 3, 4):
        for es in graphs(k):
            comp = comps(k, es)
            for m in range(1 << len(comp)):
                if k == 4 and (len(es) + m) % 3:
                    continue
                cases.append((k, es, comp, m))
    for c, (k, es, comp, m) in enumerate(cases):
        nb = nbs(k, es, c % 3 == 0)
        tags = [None] * k
        for i, s in enumerate(comp):
            for x in s:
                tags[x] = UNKNOWN if m >> i & 1 else (EXTERIOR, INTERIOR, COPLANAR, OPPOSITE)[(c + i) % 4]
        bad = []

        def soup_side(ai, fn, this, args, node):
            ai.st.ev.append(('side',))
            return 1

        def prop(ai, fn, this, args, node):
            ai.st.ev.append(('seed', idx(ai.rval(args[2]))))
            return 0
        ai = ctx.ai(intercepts={TM + '::faces_around_face': faf(nb, T('atom', 'border'), bad), K + 'parallel_do': parallel([]),
                                K + 'Side_of_triangle_soup::operator()': soup_side, K + 'Propagate_face_tags::operator()': prop,
                                K + 'internal::face_centroid': lambda ai, fn, this, args, node: T('centroid', ai.key(ai.rval(args[1])))})

        def go():
            ms = M.make(ai, [], [[0, 1, 2]] * k, [mixed(i % 2 == 0, tags[i], i) for i in range(k)])
            ai.call_fn(f, sym_this(ai, f), [ms, T('atom', 'border'), soup(ai, 'left'), soup(ai, 'right')])
            return ('res', M.data(ai, ms))
        outs = ai.explore(go)
        if len(outs) == 1 and outs[0].kind == 'throw':
            return ctx.viol(rule, w, f'{show(outs[0].val)[:100]} with tags {tags} and neighbours {nb}', key='error')
        if len(outs) != 1 or outs[0].kind not in ('norm', 'ret'):
            return ctx.und(rule, w, f'{len(outs)} paths {outs[0].kind} {show(outs[0].val)[:100]}: {[show(t)[:200] for t in list(outs[0].st.dom)[:2]]}')
        if bad:
            return ctx.viol(rule, w, f'neighbours are found with {bad[0]}', key='border')
        seeds = [e[1] for e in outs[0].ev if e[0] == 'seed']
        if not all(isinstance(x, int) for x in seeds):
            return ctx.und(rule, w, 'representatives')
        txt = f'(tags {[NAMES[t] for t in tags]}, neighbours {nb}, representatives {seeds})'
        if any(tags[x] != UNKNOWN for x in seeds):
            return ctx.viol(rule, w, f'a component that has a tag is classified again {txt}', key='again')
        for i, s in enumerate(comp):
            if m >> i & 1:
                if not any(x in s for x in seeds):
                    return ctx.viol(rule, w, f'a component without a tag is passed over {txt}', key='passed')
                if sum(x in s for x in seeds) > 1:
                    return ctx.viol(rule, w, f'a component is classified twice at the same time {txt}', key='twice')
        n += 1
    ctx.ok(rule, w)
    ctx.count('sets of components', n)
    ctx.analysed.add(w)


def soup(ai, name):
    return ('&', ai.newcell(name, ('R', T('atom', name), TS, ())), ())


def comps(k, es):
    par = list(range(k))
    for a, b in es:
        pa, pb = par[a], par[b]
        par = [pa if x == pb else x for x in par]
    return [[i for i in range(k) if par[i] == r] for r in sorted(set(par))]


def globally(ctx, p, f):
    rule = 'faces without a tag'
    w = ctx.where(f)
    M = Mesh(ctx)
    for left in (True, False):
        for s in (1, -1, 0):
            def soup_side(ai, fn, this, args, node):
                ai.st.ev.append(('side', ai.rval(args[0]), ai.rval(args[1])))
                return s

            def prop(ai, fn, this, args, node):
                i = idx(ai.rval(args[2]))
                ai.st.ev.append(('seed', i, tag_of(M.data(ai, args[0])[i]), ai.rval(args[1])))
                return T('W', i)
            ai = ctx.ai(intercepts={TM + '::faces_around_face': faf([[], []], T('atom', 'border'), []), K + 'parallel_do': parallel([]),
                                    K + 'Side_of_triangle_soup::operator()': soup_side, K + 'Propagate_face_tags::operator()': prop})

            def go():
                # the second face of the mesh
                ms = M.make(ai, [T('pt', i) for i in range(6)], [[0, 1, 2], [3, 4, 5]], [mixed(not left, INTERIOR, 0), mixed(left, UNKNOWN, 1)])
                r = ai.rval(ai.call_fn(f, sym_this(ai, f), [ms, T('atom', 'border'), soup(ai, 'left'), soup(ai, 'right')]))
                return ('res', r, M.data(ai, ms))
            outs = ai.explore(go)
            if len(outs) != 1:
                return ctx.und(rule, w, f'{len(outs)} paths: {[show(t)[:200] for t in list(outs[0].st.dom)[:2]]}')
            o = outs[0]
            sides = [e for e in o.ev if e[0] == 'side']
            if len(sides) != 1:
                return ctx.und(rule, w, f'{len(sides)} queries')
            who = sides[0][1]
            other = T('atom', 'right' if left else 'left')
            if not (isR(who) and who[1] == other or who == other):
                return ctx.viol(rule, w, f'a face of the {"first" if left else "second"} mesh is compared with {show(who)[:100]}', key='mesh')
            pt = sides[0][2]
            if not (isT(pt) and pt[1] == 'app' and pt[2] == 'CGAL::centroid'):
                return ctx.und(rule, w, f'point {show(pt)[:200]}')
            if sorted(pt[3:], key=str) != sorted([T('pt', 3), T('pt', 4), T('pt', 5)], key=str):
                return ctx.viol(rule, w, f'the point of the face is {show(pt)[:200]}', key='point')
            if s == 0:
                if o.kind != 'throw':
                    return ctx.viol(rule, w, 'a face on the other mesh is classified', key='boundary')
                continue
            if o.kind not in ('norm', 'ret'):
                return ctx.viol(rule, w, f'{o.kind} {show(o.val)[:200]}', key='throws')
            _, r, ds = o.val
            want = EXTERIOR if s == 1 else INTERIOR
            if tag_of(ds[1]) != want or tag_of(ds[0]) != INTERIOR:
                return ctx.viol(rule, w, f'a face on the {"positive" if s > 0 else "negative"} side becomes {show(tag_of(ds[1]))}', key='tag')
            seeds = [e for e in o.ev if e[0] == 'seed']
            if [e[1:] for e in seeds] != [(1, want, T('atom', 'border'))]:
                return ctx.viol(rule, w, f'the tag is not passed on: {[show(x) for e in seeds for x in e[1:]]}', key='propagate')
            if T('W', 1) not in list(walk(r)):
                return ctx.viol(rule, w, 'the warnings are lost', key='warnings')
    ctx.ok(rule, w)
    ctx.analysed.add(w)


# ---------------------------------------------------------------- the side of a point
def side(ctx, p, f):
    rule = 'side of a point'
    w = ctx.where(f)
    M = Mesh(ctx, TS)
    leaf = K + 'Triangle_soup::Leaf'
    n = 0
    # results of an intersection: none, a point at a distance (0: the point itself), a segment (touching the point or not)
    results = [None, ('p', 1), ('p', 2), ('p', 0), ('s', 0), ('s', 1), ('t', 0)]
    few = [None, ('p', 1), ('p', 2), ('s', 1)]
    cases = [([[]], False), ([], False)]
    for r in results:
        cases.append(([[r]], False))
        for r2 in results:
            cases.append(([[r, r2]], False))
    for r in itertools.product([('p', 1), ('p', 2), ('p', 3), ('s', 1)], repeat=3):
        cases.append(([list(r)], False))
    for a in ([('p', 1), ('p', 1)], [('p', 2), ('p', 1), ('p', 1)], [('p', 1), ('p', 1), ('p', 2)]):
        for b in ([('p', 1)], [('p', 2), ('p', 1)], [('p', 1), ('p', 1)], [None], [('p', 0)], [('s', 0)]):
            cases.append(([a, b], False))
        cases.append(([a], True))
    cases.append(([[('p', 1)]], True))
    for c, (targets, same) in enumerate(cases):
        got = simulate(ctx, p, f, M, targets, same, rule, w)
        if got is None:
            return
        want = expect(targets, same)
        txt = f'hits {targets}' + (', the point is a centroid' if same else '')
        if want == 'throw':
            if got != 'throw':
                return ctx.viol(rule, w, f'no error with {txt}: {show(got)}', key='error')
        elif want == 'boundary':
            if got != 0:
                return ctx.viol(rule, w, f'the point is on the surface ({txt}), the result is {show(got)}', key='boundary')
        else:
            if got == 'throw' or got == 0:
                return ctx.viol(rule, w, f'{"an error" if got else "on the surface"} with {txt}', key='result')
            k, lf = want
            wantt = T('side', lf)
            if not any(x == wantt for x in walk(got)):
                return ctx.viol(rule, w, f'the side is that of {show(got)[:200]} instead of face {lf} with {txt}', key='nearest')
            if got != wantt:
                return ctx.und(rule, w, show(got)[:200])
        n += 1
    ctx.ok(rule, w)
    ctx.count('combinations of hits', n)
    ctx.analysed.add(w)
    orientation(ctx, p)


def expect(targets, same):
    if not targets:
        return 'throw'
    for k, hits in enumerate(targets):
        if same:
            return 'boundary'
        if ('p', 0) in hits or any(h and h[0] in 'st' and h[1] == 0 for h in hits):
            return 'boundary'
        ps = sorted((h[1], i) for i, h in enumerate(hits) if h and h[0] == 'p')
        if not ps:
            return 'throw'
        if len(ps) > 1 and ps[0][0] == ps[1][0]:
            continue
        return k, 10 * k + ps[0][1]
    return 'throw'


def simulate(ctx, p, f, M, targets, same, rule, w):
    """Faces 10 k + i are hit by the ray to face k."""
    P = T('atom', 'p')
    cur = []

    def centroid(ai, fn, this, args, node):
        i = idx(ai.rval(args[1]))
        return P if same else T('cen', i)

    def leaves(ai, fn, this, args, node):
        q = ai.rval(args[-1])
        k = [x[2] for x in walk(q) if isT(x) and x[1] == 'cen']
        if not any(x == P for x in walk(q)) or len(k) != 1:
            raise Unsupported('query ' + show(q)[:200])
        # the ray starts at the point
        o = [x for x in walk(q) if x == P or isT(x) and x[1] == 'cen']
        ai.st.ev.append(('query', o[0] == P))
        it = ai.rval(args[0])
        lv = dict(it[3])['to']
        cs = ai.as_seq(ai.read(lv))
        items = tuple(('1', ('P', leafcell(ai, 10 * k[0] + i), ())) for i in range(len(targets[k[0]])))
        ai.write(lv, ('S', cs[1] + items, cs[2]), node)
        return None

    def leafcell(ai, i):
        return ai.newcell('leaf', Rf('leaf', [('n', i)]))

    def face_index(ai, fn, this, args, node):
        return mk_index(dict(ai.rval(this)[3])['n'])

    def triangle(ai, fn, this, args, node):
        return T('tri', idx(ai.rval(args[0])))

    def inter(ai, fn, this, args, node):
        a = [ai.rval(x) for x in args]
        t = [x[2] for v in a for x in walk(v) if isT(x) and x[1] == 'tri']
        if len(t) != 1:
            return NotImplemented
        h = targets[t[0] // 10][t[0] % 10]
        return Rf('opt', [('has', h is not None), ('val', T('hit', t[0]) if h else UNINIT)])

    def get_if(ai, fn, this, args, node):
        v = ai.rval(args[0])
        if isP(v):
            v = ai.rval(('&', v[1], v[2]))
        if not (isT(v) and v[1] == 'hit'):
            return NotImplemented
        h = targets[v[2] // 10][v[2] % 10]
        ta = ai.p.tname(fn['ta'][0]['t']) if fn.get('ta') else ''
        kind = 'p' if 'Point_3' in ta and 'Segment' not in ta else 's' if 'Segment_3' in ta else None
        if kind is None:
            return NotImplemented
        if (h[0] == 'p') != (kind == 'p'):
            return 0
        return ('P', ai.newcell('hit', P if h == ('p', 0) else T('hitp' if kind == 'p' else 'hits', v[2])), ())

    def hold(ai, fn, this, args, node):
        v = ai.rval(args[0])
        r = get_if(ai, fn, this, [v], node)
        return NotImplemented if r is NotImplemented else r != 0

    def seg(which):
        def h(ai, fn, this, args, node):
            v = ai.rval(this)
            if not (isT(v) and v[1] == 'hits'):
                return NotImplemented
            x = targets[v[2] // 10][v[2] % 10]
            if x[1] == 0 and (x[0] == 's') == (which == 'source'):
                return P
            return T('end', v[2], which)
        return h

    def sqd(ai, fn, this, args, node):
        v = [ai.rval(a) for a in args]
        h = [x for x in v if isT(x) and x[1] == 'hitp']
        if len(h) == 1 and P not in v and any(isT(x) and x[1] == 'cen' for x in v):
            # the centroid is beyond all points
            return (10 - targets[h[0][2] // 10][h[0][2] % 10][1]) ** 2
        if len(h) != 1 or P not in v:
            return 0 if v == [P, P] else NotImplemented
        return targets[h[0][2] // 10][h[0][2] % 10][1] ** 2

    def oriented(ai, fn, this, args, node):
        i = idx(ai.rval(args[1]))
        if ai.rval(args[2]) != P:
            return NotImplemented
        return T('side', i)

    def less_distance(ai, fn, this, args, node):
        v = [ai.rval(a) for a in args]
        return NotImplemented

    def eq(ai, x, y):
        return None
    ic = {K + 'internal::face_centroid': centroid, K + 'AABB_tree::get_intersecting_leaves': leaves, K + 'Triangle_soup::triangle': triangle,
          K + 'internal::oriented_side_of_face_supporting_plane': oriented, 'CGAL::intersection': inter, 'std::get_if': get_if, 'std::holds_alternative': hold,
          'CGAL::squared_distance': sqd, 'CGAL::Segment_3::source': seg('source'), 'CGAL::Segment_3::target': seg('target'),
          K + 'Triangle_soup::aabb_tree': lambda ai, fn, this, args, node: ('&', ai.newcell('tree', ('R', T('atom', 'tree'), K + 'AABB_tree', ())), ()),
          'std::partial_sort': partial_sort_ic}
    for x in p.fns.values():
        if x['b'].endswith('::face_index'):
            ic[x['b']] = face_index
    ic.update(SORTS)
    ai = ctx.ai(intercepts=ic)
    # points are equal only if they are the same
    old = ai.decide

    def decide(v, *a):
        if isT(v) and v[1] in ('==', '?eq') and all(isT(x) and (x == P or x[1] in ('cen', 'hitp', 'end')) for x in v[2:4]):
            return v[2] == v[3]
        if isT(v) and v[1] == '==0':
            d, c = lin(v[2])
            if c == 0 and len(d) == 2 and all(x == P or isT(x) and x[1] in ('cen', 'hitp', 'end') for x in d):
                return False
        return old(v, *a)
    ai.decide = decide

    def go():
        m = M.make(ai, [], [[0, 1, 2]] * len(targets), [T('atom', 'd')] * len(targets), 'soup')
        return ai.rval(ai.call_fn(f, sym_this(ai, f), [m, P]))
    outs = ai.explore(go)
    if len(outs) != 1:
        ctx.und(rule, w, f'{len(outs)} paths for {targets}: {[show(t)[:200] for t in list(outs[0].st.dom)[:3]]}')
        return None
    o = outs[0]
    for e in o.ev:
        if e[0] == 'query' and not e[1]:
            ctx.viol(rule, w, 'the ray does not start at the point', key='ray')
            return None
    if o.kind == 'throw':
        return 'throw'
    if o.kind not in ('norm', 'ret'):
        ctx.und(rule, w, o.kind)
        return None
    return o.val


def orientation(ctx, p):
    rule = 'side of a point'
    for f in p.find(K + 'internal::oriented_side_of_face_supporting_plane'):
        w = ctx.where(f)
        M = Mesh(ctx, TS)
        ai = ctx.ai()

        def go():
            m = M.make(ai, [T('pt', i) for i in range(3)], [[2, 0, 1]], [T('atom', 'd')], 'soup')
            return ai.rval(ai.call_fn(f, None, [m, mk_index(0), T('pt', 3)]))
        outs = ai.explore(go)
        for z in (2, -3, 0):
            geo = Geo({0: (0, 0, 0), 1: (1, 0, 0), 2: (0, 1, 0), 3: (5, 7, z)})
            for o in outs:
                if len(outs) != 1:
                    return ctx.und(rule, w, 'paths')
                r = geo.ev(o.val)
                if r is None:
                    return ctx.und(rule, w, show(o.val)[:200])
                if r != sgn(z):
                    return ctx.viol(rule, w, f'a point {"above" if z > 0 else "below" if z < 0 else "in the plane of"} a face is on side {r}', key='orientation')
        ctx.ok(rule, w)
        ctx.analysed.add(w)


def parts(ctx, p):
    """The points of a face that others use: the centroid and the triangle."""
    for nm in (K + 'internal::face_centroid', K + 'Triangle_soup::triangle', K + 'Triangle_mesh::triangle'):
        for f in p.find(nm):
            ctx.guarded('points of a face', f, lambda: points_of(ctx, p, f))


def points_of(ctx, p, f):
    rule = 'points of a face'
    w = ctx.where(f)
    member = f.get('cls') is not None
    cls = TM if 'Triangle_mesh' in (base(f['cls']) if member else p.tname(f['params'][0]['t'])) else TS
    M = Mesh(ctx, cls)
    ai = ctx.ai()

    def go():
        m = M.make(ai, [T('pt', i) for i in range(6)], [[1, 2, 0], [4, 3, 5]], [T('atom', 'd'), T('atom', 'e')], 'soup')
        return ai.rval(ai.call_fn(f, m, [mk_index(1)]) if member else ai.call_fn(f, None, [m, mk_index(1)]))
    outs = ai.explore(go)
    if len(outs) != 1 or outs[0].kind not in ('norm', 'ret'):
        return ctx.und(rule, w, f'{len(outs)} paths, {outs[0].kind} {show(outs[0].val)[:100]}')
    v = outs[0].val
    got = [x for x in walk(v) if isT(x) and x[1] == 'pt']
    if isT(v) and v[1] == 'app' and v[2] == 'CGAL::centroid':
        # the order does not matter
        got = sorted(got, key=str)
    elif f['n'] != 'triangle':
        return ctx.und(rule, w, show(v)[:200])
    want = [T('pt', 4), T('pt', 3), T('pt', 5)]
    if set(got) != set(want) or len(got) != 3:
        return ctx.viol(rule, w, f'the points of the face (4, 3, 5) are {[x[2] for x in got]}', key='points')
    ctx.ok(rule, w)
    ctx.analysed.add(w)


# ---------------------------------------------------------------- common faces
def coplanar(ctx, p, f):
    rule = 'common faces'
    w = ctx.where(f)
    L, R = Mesh(ctx, TS), Mesh(ctx, TS)
    n = 0
    # left vertices i are points 10+.., right vertices j are other numbers of the same points
    lp = [3, 5, 4, 9]
    rp = [9, 4, 3, 5]
    tri = (3, 4, 5)
    perms = list(itertools.permutations(tri))
    other = (3, 4, 9)
    cases = []
    for a in perms:
        for b in perms + [other]:
            cases.append(([a], [b]))
            cases.append(([a, other], [b]))
            cases.append(([a], [other, b]) if b != other else ([a], [b]))
    cases.append(([other], []))
    cases.append(([], [other]))
    for i in range(0, 6):
        cases.append(([perms[i], (9, 5, 4)], [(4, 5, 9), perms[(i * 2 + 1) % 6]]))
    for ls, rs in cases:
        ai = ctx.ai(intercepts={K + 'parallel_do': parallel([])})

        def go():
            l = L.make(ai, [], [[lp.index(x) for x in t] for t in ls], [T('atom', 'd')] * len(ls), 'left')
            r = R.make(ai, [], [[rp.index(x) for x in t] for t in rs], [T('atom', 'd')] * len(rs), 'right')
            v = ai.rval(ai.call_fn(f, sym_this(ai, f), [l, r, ('&', ai.newcell('lp', seq(lp)), ()), ('&', ai.newcell('rp', seq(rp)), ())]))
            return ('res', [ai.rval(x) for _, x in v[3]] if isR(v) else None)
        outs = ai.explore(go)
        if len(outs) != 1:
            return ctx.und(rule, w, f'{len(outs)} paths: {[show(t)[:200] for t in list(outs[0].st.dom)[:3]]}')
        if outs[0].kind not in ('norm', 'ret'):
            return ctx.viol(rule, w, f'{outs[0].kind} for {ls} and {rs}', key='throws')
        tl = outs[0].val[1]
        if tl is None or len(tl) != 2:
            return ctx.und(rule, w, 'result')
        for side, ts, os, v in (('first', ls, rs, tl[0]), ('second', rs, ls, tl[1])):
            got = flat(v)
            if got is None or any(not isinstance(x, int) for x in got):
                return ctx.und(rule, w, show(v)[:200])
            want = [COPLANAR if any(rot(t) == rot(o) for o in os) else OPPOSITE if any(rot(t) == rot((o[0], o[2], o[1])) for o in os) else UNKNOWN for t in ts]
            if got != want:
                return ctx.viol(rule, w, f'faces {ls} and {rs}: those of the {side} mesh are {[NAMES[x] if x < 5 else x for x in got]} instead of {[NAMES[x] for x in want]}', key='tags')
        n += 1
    ctx.ok(rule, w)
    ctx.count('pairs of meshes with common faces', n)
    ctx.analysed.add(w)


def rot(t):
    i = t.index(min(t))
    return tuple(t[i:]) + tuple(t[:i])


def flat(v):
    if not isS(v):
        return None
    out = []
    for s in v[1]:
        if s[0] == '1':
            out.append(s[1])
        elif s[0] == 'r' and isinstance(s[1], int):
            out += [s[2]] * s[1]
        else:
            return None
    for u in v[2]:
        i, x = u[0], u[1]
        if not isinstance(i, int) or i >= len(out):
            return None
        out[i] = x
    return out


# ---------------------------------------------------------------- the steps
def mix(ctx, p, f):
    rule = 'order of the steps'
    w = ctx.where(f)

    def nop(ret):
        return lambda ai, fn, this, args, node: ret

    def corefine(ai, fn, this, args, node):
        return ('R', T('atom', 'corefine'), K + 'Corefine', ())

    def get(ai, fn, this, args, node):
        return tup(UNKNOWN, 0)

    def mesh(ai, fn, this, args, node):
        return ('R', T('atom', 'mesh'), TM, ())

    def event(name, ret=None):
        def h(ai, fn, this, args, node):
            ai.st.ev.append((name,) + tuple(ai.rval(a) for a in args))
            return ret
        return h

    def local(ai, fn, this, args, node):
        ai.st.ev.append(('local',) + tuple(ai.rval(a) for a in args))
        return T('atom', 'lw')

    def par(ai, fn, this, args, node):
        b, e = ai.rval(args[0]), ai.rval(args[1])
        ai.st.ev.append(('range', b, e))
        if len(args) != 5:
            return NotImplemented
        st = ('&', ai.newcell('local', ai.rval(args[2])), ())
        ai.call_value(args[3], [T('atom', 'edge'), st], node)
        ai.call_value(args[4], [st], node)
        return None
    edges = T('atom', 'edges')
    ai = ctx.ai(intercepts={
        K + 'Corefine::Corefine': corefine, K + 'Corefine::get_left_faces': get, K + 'Corefine::get_right_faces': get,
        K + 'Corefine::take_points': nop(T('atom', 'pts')), K + 'Corefine::get_intersecting_edges': nop(('M', edges, ())),
        TM + '::Triangle_mesh': mesh, TM + '::finalize': event('finalize'), TM + '::take_triangle_soup': event('take', T('atom', 'tsoup')),
        K + 'parallel_do': par, K + 'Classify_faces_globally::operator()': event('global', T('atom', 'gw')), K + 'Classify_faces_locally::operator()': local})
    args = sym_args(ai, f)
    names = [ai.norm(ai.rval(a)) for a in args[:2]]
    outs = ai.explore(lambda: ai.rval(ai.call_fn(f, sym_this(ai, f), args)))
    for o in outs:
        if o.kind not in ('norm', 'ret'):
            return ctx.und(rule, w, o.kind)
        ev = [e for e in o.ev if e[0] in ('finalize', 'range', 'local', 'global', 'take')]
        order = [e[0] for e in ev]
        for a, b, txt in (('finalize', 'local', 'edges are classified before the adjacency is known'), ('local', 'global', 'components are classified before the edges'),
                          ('global', 'take', 'the result is taken before the components are classified')):
            if a not in order or b not in order:
                return ctx.viol(rule, w, f'a step is missing: {a if a not in order else b}', key='missing')
            if order.index(a) > order.index(b):
                return ctx.viol(rule, w, txt, key='order')
        loc = next(e for e in ev if e[0] == 'local')
        glo = next(e for e in ev if e[0] == 'global')
        if not isT(loc[2]) or loc[2] != T('atom', 'edge'):
            return ctx.viol(rule, w, f'{show(loc[2])[:100]} is classified', key='edge')
        for e, i in ((loc, 3), (glo, 2)):
            if not any(x == edges for x in walk(e[i])):
                return ctx.viol(rule, w, f'the border edges are {show(e[i])[:200]}', key='border')
        if [ai.norm(x) for x in glo[3:5]] != names:
            return ctx.viol(rule, w, f'components are classified with {[show(x)[:50] for x in glo[3:5]]}', key='meshes')
        rg = next((e for e in ev if e[0] == 'range'), None)
        if rg is not None and isI(rg[1]) and isinstance(rg[1][2], int) and rg[1][2]:
            return ctx.viol(rule, w, f'the first {rg[1][2]} edges are passed over', key='edges')
        if rg is None or not isI(rg[1]) or rg[1][2] != 0:
            return ctx.und(rule, w, 'edges')
        src = o.st.store.get(rg[1][1][1])
        if src == ('S', (), ()):
            return ctx.viol(rule, w, 'no edges are classified', key='edges')
        if not any(x == edges for x in walk(src)):
            return ctx.und(rule, w, f'edges {show(src)[:200]}')
        if rg[2][2] != ai.seq_len(src) and rg[2][2] != T('len', edges):
            return ctx.viol(rule, w, f'only {show(rg[2][2])[:200]} edges are classified', key='edges')
        r = o.val
        for x in ('lw', 'gw'):
            if T('atom', x) not in list(walk(r)):
                return ctx.viol(rule, w, 'warnings are lost', key='warnings')
        if T('atom', 'tsoup') not in list(walk(r)):
            return ctx.und(rule, w, show(r)[:200])
    ctx.ok(rule, w)
    ctx.analysed.add(w)
