"""Intersection points are constructed from what intersects, used under one number, and put into the right triangulations."""
from framework import *
from checks import c18
from absint import Throw
import itertools

EXPLANATION = (
    'Every function between the symbolic intersections and the triangulated faces is explored by abstract interpretation with uninterpreted '
    'points and numbers.  The inserter is tabulated for all pairs of regions; its keys are compared for all orders of the numbers, so that '
    'edges that are given in another direction have the same key and different ones have not.  The triangulation is tabulated for all '
    'regions, the constraints for all numbers of corners that a common part of two triangles can have, and the constructor of the '
    'refinement is explored as a whole, keeping track of which mesh everything belongs to.')
ASSUMPTIONS = ['the constructions and the triangulation of CGAL', 'numbers of the corners of intersecting edges are different']

INS, TRI, COR = 'kigumi::Intersection_point_inserter', 'kigumi::Triangulation', 'kigumi::Corefine'
LEFT, RIGHT = (1, 2, 4, 3, 6, 5, 7), (8, 16, 32, 24, 48, 40, 56)
NAMES = 'abcpqr'


def run(ctx):
    p = ctx.prog()
    f = ctx.fn(INS + '::insert')
    ctx.guarded('points are what the regions have in common', f, lambda: inserter(ctx, p, f))
    f = next((g for g in p.find(TRI + '::insert') if g.get('body')), None)
    if f is None:
        ctx.und('points of a triangulation', TRI, 'not found')
    else:
        ctx.guarded('points of a triangulation', f, lambda: triangulation(ctx, p, f))
    for f in p.find(TRI + '::Triangulation'):
        if f.get('body') and len(f['params']) == 7:
            ctx.guarded('corners of a triangulation', f, lambda: corners(ctx, p, f))
    for f in p.find(TRI + '::get_faces'):
        ctx.guarded('faces of a triangulation', f, lambda: faces(ctx, p, f))
    for f in p.find(COR + '::insert_intersection'):
        ctx.guarded('edges of an intersection', f, lambda: constraints(ctx, p, f))
    for f in p.find(COR + '::get_intersecting_edges'):
        ctx.guarded('edges of an intersection', f, lambda: edges(ctx, p, f))
    for f in p.find(COR + '::Corefine'):
        if f.get('body') and len(f['params']) == 2:
            ctx.guarded('meshes are kept apart', f, lambda: corefine(ctx, p, f))
            ctx.guarded('faces are divided once, by all of their intersections', f, lambda: divided(ctx, p, f))
            break
    c18.loops(ctx, ('kigumi::Corefine',))


def record(name):
    def h(ai, fn, this, args, node):
        a = tuple(ai.rval(x) for x in args)
        ai.st.ev.append(('step', name, a))
        return T('app', name, *a)
    return h


# ---------------------------------------------------------------- the inserter
def bits(m):
    return [i for i in range(6) if m >> i & 1]


def inserter(ctx, p, f):
    rule = 'points are what the regions have in common'
    w = ctx.where(f)
    ids = [T('atom', n) for n in NAMES]
    back = {v: i for i, v in enumerate(ids)}
    tables = {}
    forms = {}
    for l in LEFT:
        for r in RIGHT:
            if l == 7 and r == 56:
                continue
            ai = ctx.ai(intercepts={'kigumi::Point_list::insert': lambda ai, fn, this, args, node: T('inserted', ai.rval(args[0]))})
            outs = ai.explore(lambda: ai.call_fn(f, sym_this(ai, f), [l] + ids[:3] + [r] + ids[3:]))
            what = f'for the regions {l} and {r}'
            corner = [ids[bits(m)[0]] for m in (l, r) if len(bits(m)) == 1]
            rows = []
            for o in outs:
                if o.kind not in ('norm', 'ret'):
                    return ctx.viol(rule, w, f'ends with {o.kind} {what}')
                v = o.val
                if corner:
                    if v not in corner:
                        if v in ids:
                            return ctx.viol(rule, w, f'the corner {show(v)} instead of {show(corner[0])} {what}')
                        if isT(v) and v[1] == 'inserted':
                            return ctx.viol(rule, w, f'another point instead of the corner {show(corner[0])} {what}')
                        return ctx.und(rule, w, f'{show(v)[:200]} {what}')
                    continue
                st = [e for e in o.ev if e[0] == 'w' and e[2] and e[2][-1][0] == 'k']
                ins = [e for e in o.ev if e[0] == 'mapins']
                if isinstance(v, int) and (v < 0 or v >= 1 << 31):
                    return ctx.viol(rule, w, f'no point at all, but the number {v}, {what}')
                if not ins or len(ins) != 1:
                    if v in ids:
                        return ctx.viol(rule, w, f'the corner {show(v)} {what}')
                    return ctx.und(rule, w, f'no table of known points {what}')
                cell, key = ins[0][1], ins[0][2]
                key = elements(key)
                if key is None:
                    return ctx.und(rule, w, f'key {what}')
                if isT(v) and v[1] == 'val':
                    if elements(v[3]) != key:
                        return ctx.viol(rule, w, f'the number of another key {what}')
                    rows.append((o, cell, key, None))
                    continue
                # a new point
                if not (isT(v) and v[1] == 'inserted' and isT(v[2]) and v[2][1] == 'app'):
                    return ctx.und(rule, w, f'{show(v)[:200]} {what}')
                if not any(e[3] == v for e in st):
                    return ctx.viol(rule, w, f'the number of the new point is not kept {what}')
                if any(e[3] != v for e in st):
                    return ctx.viol(rule, w, f'another number is kept for the new point {what}')
                pts = v[2][3:]
                ix = []
                for x in pts:
                    if not (isT(x) and x[1] == 'at' and x[3] in back):
                        return ctx.und(rule, w, f'point from {show(x)[:200]} {what}')
                    ix.append(back[x[3]])
                if len(ix) == 4:
                    groups = {frozenset(ix[:2]), frozenset(ix[2:])}
                    want = {frozenset(bits(l)), frozenset(bits(r))}
                elif len(ix) == 5:
                    groups = (frozenset(ix[:3]), frozenset(ix[3:]))
                    want = tuple(frozenset(bits(m)) for m in sorted((l, r), key=lambda m: -len(bits(m))))
                else:
                    return ctx.und(rule, w, f'{len(ix)} points {what}')
                nm = lambda g: ['/'.join(''.join(NAMES[i] for i in sorted(s)) for s in g)]
                if groups != want:
                    return ctx.viol(rule, w, f'the point is constructed from {nm(sorted(map(sorted, groups)))} instead of {nm(sorted(map(sorted, want)))} {what}')
                miss = [NAMES[i] for i in ix if ids[i] not in key]
                if miss:
                    return ctx.viol(rule, w, f'the key does not contain {miss} {what}')
                forms.setdefault(cell, set()).add(tuple(key.index(ids[i]) for i in ix))
                rows.append((o, cell, key, ix))
            if not corner:
                tables[(l, r)] = rows
    for cell, fs in forms.items():
        # one point per key: every way to construct it means the same lines and planes
        norm = {tuple(sorted(map(lambda g: tuple(sorted(g)), ([x[:2], x[2:]] if len(x) == 4 else [x[:3], x[3:]])))) for x in fs}
        if len(norm) > 1:
            return ctx.viol(rule, w, f'a key stands for several intersections: {sorted(norm)}')
    # the same intersection has the same key, whatever the directions and the order of the edges
    n = 0
    seen = {}
    for perm in itertools.permutations(range(6)):
        num = {t: perm[i] for t, i in back.items()}
        for (l, r), rows in tables.items():
            hit = set()
            for o, cell, key, ix in rows:
                if all(holds(t, d, num) for t, d in o.st.dom.items()):
                    hit.add((cell, tuple(num[k] if k in num else k for k in key)))
            if len(hit) != 1:
                return ctx.und(rule, w, f'{len(hit)} keys for the regions {l} and {r}')
            g = (frozenset(perm[i] for i in bits(l)), frozenset(perm[i] for i in bits(r)))
            n += 1
            k0 = seen.setdefault(g, hit)
            if k0 != hit:
                return ctx.viol(rule, w, f'one intersection has different keys, depending on how its edges are given: {sorted(x[1] for x in k0 | hit)} '
                                         f'for the numbers {sorted(map(sorted, g))}')
    ctx.count('orders of numbers', n)
    ctx.count('pairs of regions', len(LEFT) * len(RIGHT) - 1)
    ctx.analysed.add(w)
    ctx.ok(rule, w)


def elements(k):
    if isS(k) and all(x[0] == '1' for x in k[1]) and not k[2]:
        return [x[1] for x in k[1]]
    if isR(k):
        return [x for _, x in k[3]]
    return None


def holds(t, d, num):
    """Does a condition on numbers hold?  Conditions on anything else do not matter."""
    if isT(t) and t[1] in ('>0', '==0'):
        dd, c = lin(t[2])
        if all(x in num for x in dd):
            s = sum(num[x] * k for x, k in dd.items()) + c
            return (s > 0 if t[1] == '>0' else s == 0) in d
    return True


# ---------------------------------------------------------------- a triangulation
def flag_of(o):
    """The mask of the face that is triangulated on a path."""
    for t, d in o.st.dom.items():
        if isT(t) and t[1] == '.' and t[2] == T('atom', 'this') and len(d) == 1:
            v = next(iter(d))
            if isnum(v):
                return int(v)
    return None


def triangulation(ctx, p, f):
    rule = 'points of a triangulation'
    w = ctx.where(f)
    pt, idn = T('atom', 'p'), T('atom', 'id')
    n = 0
    for face in (7, 56):
        for l in LEFT:
            for r in RIGHT:
                if (l, r) == (7, 56):
                    continue
                ai = ctx.ai()
                outs = ai.explore(lambda: ai.call_fn(f, sym_this(ai, f), [pt, idn, l | r]))
                part = bits((l | r) & face)
                part = [i % 3 for i in part]
                what = f'for the region {l}|{r} of the face {face}'
                for o in outs:
                    fl = flag_of(o)
                    if fl is not None and fl != face:
                        continue
                    n += 1
                    if o.kind not in ('norm', 'ret'):
                        return ctx.viol(rule, w, f'ends with {o.kind} {what}')
                    r_ = point(ctx, rule, w, o, part, pt, idn, what)
                    if r_ is not True:
                        return
    if not n:
        return ctx.und(rule, w, 'no path')
    ctx.count('entries of the table of regions', n)
    ctx.analysed.add(w)
    ctx.ok(rule, w)


def vertex_no(v):
    return v[3] if isT(v) and v[1] == 'at' and isnum(v[3]) and isT(v[2]) and v[2][1] == '.' and v[2][2] == T('atom', 'this') else None


def point(ctx, rule, w, o, part, pt, idn, what):
    v = o.val
    i = vertex_no(v)
    if i is not None:
        if part != [i]:
            return ctx.viol(rule, w, f'the corner {i} instead of {part} {what}')
        return True
    if len(part) == 1:
        if isT(v) and v[1] in ('val', 'app'):
            return ctx.viol(rule, w, f'a new vertex instead of the corner {part} {what}')
        return ctx.und(rule, w, f'{show(v)[:200]} {what}')
    if isT(v) and v[1] == 'val':
        if v[3] != idn:
            return ctx.viol(rule, w, f'the vertex of another number {what}')
        return True
    if not (isT(v) and v[1] == 'app' and str(v[2]).endswith('::insert')):
        return ctx.und(rule, w, f'{show(v)[:200]} {what}')
    args = list(v[5:])
    if pt not in args:
        return ctx.viol(rule, w, f'another point is inserted {what}')
    where = [a for a in args if a != pt and not (isT(a) and a[1] == 'new')]
    loc = [e for e in o.ev if e[0] in ('ext', 'pure') and str(e[1]).endswith(('::is_edge', '::is_face'))]
    if where:
        outs = {a for a in where if isT(a) and a[1] == 'out'}
        known = [(t, d) for t, d in o.st.dom.items() if isT(t) and t[1] == 'app' and str(t[2]).endswith(('::is_edge', '::is_face'))]
        true = [t for t, d in known if d == frozenset((True,))]
        if not true:
            if known:
                return ctx.viol(rule, w, f'the place of the point is used although it is not known {what}')
            return ctx.und(rule, w, f'place {show(where)[:200]} {what}')
        t = true[0]
        vs = [vertex_no(x) for x in t[3:] if vertex_no(x) is not None]
        if sorted(vs) != sorted(part) or str(t[2]).endswith('::is_face') != (len(part) == 3):
            return ctx.viol(rule, w, f'the point is inserted into {t[2].split("::")[-1][3:]} {vs} instead of {part} {what}')
        lt = [a for a in where if isnum(a)]
        if lt and lt[0] != (1 if len(part) == 2 else 2):
            return ctx.viol(rule, w, f'the point is inserted as if it lay elsewhere (locate type {lt[0]}) {what}')
    info = [e for e in o.ev if e[0] == 'ext' and e[1] == 'assign' and mentions(e[2], v)]
    if not info:
        return ctx.viol(rule, w, f'the new vertex has no number {what}')
    if any(tuple(e[3]) != (idn,) for e in info[-1:]):
        return ctx.viol(rule, w, f'the new vertex has the number {show(info[-1][3])[:100]} {what}')
    st = [e for e in o.ev if e[0] == 'w' and e[2] and e[2][-1][0] == 'k']
    mi = [e for e in o.ev if e[0] == 'mapins']
    if not mi:
        return ctx.viol(rule, w, f'the new vertex is not kept {what}') if not st else ctx.und(rule, w, what)
    if mi[0][2] != idn or any(e[2][-1][1] not in (idn, show(idn)) for e in st):
        return ctx.viol(rule, w, f'the new vertex is kept under another number {what}')
    if not (st and st[-1][3] == v or mi[0][3] == v):
        return ctx.viol(rule, w, f'the new vertex is not kept {what}')
    return True


def mentions(v, t):
    if v == t:
        return True
    if isinstance(v, (tuple, frozenset, list)):
        return any(mentions(x, t) for x in v)
    return False


def corners(ctx, p, f):
    rule = 'corners of a triangulation'
    w = ctx.where(f)
    ai = ctx.ai()
    args = [T('atom', x) for x in ('f', 'pa', 'pb', 'pc', 'a', 'b', 'c')]
    outs = ai.explore(lambda: ai.construct_repo(f, list(args), None))
    for o in outs:
        if o.kind not in ('norm', 'ret'):
            return ctx.und(rule, w, f'ends with {o.kind}')
        if isR(o.val) and not any(x == args[0] for _, x in o.val[3]):
            return ctx.viol(rule, w, 'which face is triangulated is not kept')
        for i in range(3):
            hs = [e for e in o.ev if e[0] == 'w' and e[2] and e[2][-1][0] == 'i' and e[2][-1][1] in (i, str(i))]
            if not hs:
                arr = [x for _, x in o.val[3] if isS(x) and len(x[1]) == 3 and not x[2]] if isR(o.val) else []
                at = [e[2][-1][1] for e in o.ev if e[0] == 'w' and e[2] and e[2][-1][0] == 'i']
                if arr and at and all(str(x) in '012' and str(x) != str(i) for x in at):
                    return ctx.viol(rule, w, f'the corner {i} has no vertex')
                return ctx.und(rule, w, f'corner {i}')
            h = hs[-1][3]
            if not (isT(h) and h[1] == 'app'):
                return ctx.und(rule, w, f'corner {i} is {show(h)[:100]}')
            pts = [x for x in h if x in args[1:4]]
            if pts != [args[1 + i]]:
                return ctx.viol(rule, w, f'the corner {i} is the vertex of {show(pts)}')
            info = [e for e in o.ev if e[0] == 'ext' and e[1] == 'assign' and mentions(e[2], h)]
            if not info:
                return ctx.viol(rule, w, f'the corner {i} has no number')
            if tuple(info[-1][3]) != (args[4 + i],):
                return ctx.viol(rule, w, f'the corner {i} has the number {show(info[-1][3])[:100]}')
        nm = [x for e in o.ev for x in terms(e, 'CGAL::normal')] + [x for x in terms((o.val, tuple(o.st.store.values())), 'CGAL::normal')]
        if nm and any(sorted(x[3:], key=okey) != sorted(args[1:4], key=okey) for x in nm):
            return ctx.viol(rule, w, 'the plane is not that of the corners')
        if nm and any(x[3:] not in (tuple(args[1:4]), (args[2], args[3], args[1]), (args[3], args[1], args[2])) for x in nm):
            return ctx.viol(rule, w, 'the plane has the opposite direction')
    ctx.analysed.add(w)
    ctx.ok(rule, w)


def terms(v, nm):
    out = []
    if isT(v) and v[1] == 'app' and v[2] == nm:
        out.append(v)
    if isinstance(v, (tuple, frozenset, list)):
        for x in v:
            out += terms(x, nm)
    elif isinstance(v, dict):
        for x in v.values():
            out += terms(x, nm)
    return out


def faces(ctx, p, f):
    rule = 'faces of a triangulation'
    w = ctx.where(f)
    ai = ctx.ai()
    outs = ai.explore(lambda: ai.call_fn(f, sym_this(ai, f), [('&', ai.newcell('faces', T('atom', 'faces')), ())]))
    n = 0
    for o in outs:
        if o.kind not in ('norm', 'ret'):
            return ctx.und(rule, w, f'ends with {o.kind}')
        loops = [e for e in o.ev if e[0] == 'loop']
        src = [str(e[1]).split('::')[-1] for e in o.ev if e[0] in ('pure', 'ext')]
        if any(s.startswith(('all_faces', 'faces_')) for s in src):
            return ctx.viol(rule, w, 'the infinite faces are included')
        for e in loops:
            for q in e[4]:
                if q['kind'] != 'norm':
                    return ctx.viol(rule, w, f'a face ends the loop ({q["kind"]})')
                em = [x[3] for x in q['ev'] if x[0] == 'w' and elements(x[3]) is not None and len(elements(x[3])) == 3]
                if len(em) != 1:
                    return ctx.viol(rule, w, f'{len(em)} faces are returned for a face') if not em or len(em) > 1 else None
                vs = []
                for x in elements(em[0]):
                    nums = vertex_args(x)
                    if len(nums) != 1:
                        return ctx.und(rule, w, f'corner {show(x)[:200]}')
                    vs.append(nums[0])
                if vs not in ([0, 1, 2], [1, 2, 0], [2, 0, 1]):
                    return ctx.viol(rule, w, f'the corners {vs} of a face are returned')
                n += 1
        if n and not (isT(o.val) and o.val[1] == 'cnt'):
            if isnum(o.val):
                return ctx.viol(rule, w, f'the number of faces is {o.val}')
            return ctx.und(rule, w, f'number of faces {show(o.val)[:200]}')
    if not n:
        return ctx.und(rule, w, 'no faces')
    ctx.analysed.add(w)
    ctx.ok(rule, w)


def vertex_args(x):
    """Numbers of the vertices of a face that a term refers to."""
    out = []
    if isT(x) and x[1] == 'app' and str(x[2]).endswith('::vertex'):
        return [x[-1]]
    if isinstance(x, (tuple, list)):
        for y in x:
            for z in vertex_args(y):
                if z not in out:
                    out.append(z)
    return out


# ---------------------------------------------------------------- edges of an intersection
def info_class(p):
    return next((r for r in p.records.values() if r['b'].startswith(COR + '::') and
                 sum(1 for f in r['fields'] if p.ty(f['t']).get('base', '').endswith('static_vector')) == 2), None)


def fields_of(p):
    """Names of the members of an intersection: faces, symbolic, numbers."""
    r = info_class(p)
    if r is None:
        return None
    sv = [f for f in r['fields'] if p.ty(f['t']).get('base', '').endswith('static_vector')]
    num = [f['n'] for f in sv if 'Triangle_region' not in p.tname(f['t'])]
    sym = [f['n'] for f in sv if 'Triangle_region' in p.tname(f['t'])]
    return (r, sym[0], num[0]) if len(num) == len(sym) == 1 else None


def make_info(p, fl, n, tag=''):
    r, sym, num = fl
    seq = lambda nm: ('S', tuple(('1', T('atom', f'{nm}{i}{tag}')) for i in range(n)), ())
    vals = {sym: seq('s'), num: seq('i')}
    return ('R', None, r['b'], tuple((f['n'], vals.get(f['n'], T('atom', f['n'] + tag))) for f in sorted(r['fields'], key=lambda f: f['n'])))


def constraints(ctx, p, f):
    rule = 'edges of an intersection'
    w = ctx.where(f)
    fl = fields_of(p)
    if fl is None:
        return ctx.und(rule, w, 'no record of an intersection')
    ic = {TRI + '::insert': record('insert'), TRI + '::insert_constraint': record('constrain')}
    for n in range(0, 7):
        ai = ctx.ai(intercepts=dict(ic))
        tri = T('atom', 'tri')

        def go():
            args = []
            for x in f['params']:
                args.append(('&', ai.newcell(x['n'], tri if 'Triangulation' in p.tname(p.deref(x['t'])[0] if False else x['t']) else make_info(p, fl, n)), ()))
            return ai.call_fn(f, sym_this(ai, f), args)
        outs = ai.explore(go)
        good = 0
        for o in outs:
            hs = [T('app', 'insert', *e[2]) for e in o.ev if e[0] == 'step' and e[1] == 'insert']
            if any(isT(t) and t[1] == '==0' and d == frozenset((True,)) and any(h in lin(t[2])[0] for h in hs) and new_handle(t) for t, d in o.st.dom.items()):
                continue   # a vertex is not a null handle
            good += 1
            if o.kind not in ('norm', 'ret'):
                return ctx.viol(rule, w, f'ends with {o.kind} for {n} points')
            if any(e[0] == 'loop' for e in o.ev):
                return ctx.und(rule, w, 'the number of iterations is not known')
            at = {}
            for e in o.ev:
                if e[0] == 'step' and e[1] == 'insert':
                    ns = [i for i in range(n) if mentions(e[2], T('atom', f's{i}'))]
                    ni = [i for i in range(n) if T('atom', f'i{i}') in e[2]]
                    pt = [x for x in e[2] if isT(x) and x[1] == 'at']
                    if len(ns) != 1 or len(ni) != 1 or len(pt) != 1:
                        return ctx.und(rule, w, f'insertion of {show(e[2])[:200]}')
                    if ns != ni or pt[0][3] != T('atom', f'i{ni[0]}'):
                        return ctx.viol(rule, w, f'the point {show(pt[0][3])} is inserted with the number i{ni[0]} and the region s{ns[0]}')
                    at[T('app', 'insert', *e[2])] = ni[0]
            if sorted(at.values()) != list(range(n)):
                return ctx.viol(rule, w, f'{len(at)} of {n} points are inserted')
            got = []
            for e in o.ev:
                if e[0] == 'step' and e[1] == 'constrain':
                    if len(e[2]) != 2 or any(x not in at for x in e[2]):
                        return ctx.und(rule, w, f'constraint {show(e[2])[:200]}')
                    got.append(frozenset(at[x] for x in e[2]))
            want = cycle(n)
            if set(got) != want:
                return ctx.viol(rule, w, f'{n} points: constraints {sorted(map(sorted, set(got)))} instead of {sorted(map(sorted, want))}')
        if not good:
            return ctx.und(rule, w, f'no path for {n} points')
    ctx.analysed.add(w)
    ctx.ok(rule, w)


def new_handle(t):
    return any(isT(x) and x[1] == 'new' for x in lin(t[2])[0])


def cycle(n):
    return {frozenset((i, (i + 1) % n)) for i in range(n)} if n > 2 else {frozenset((0, 1))} if n == 2 else set()


def edges(ctx, p, f):
    rule = 'edges of an intersection'
    w = ctx.where(f)
    fl = fields_of(p)
    if fl is None:
        return ctx.und(rule, w, 'no record of an intersection')
    cls = next(r for r in p.records.values() if r['b'] == COR)
    mem = [x['n'] for x in cls['fields'] if p.ty(x['t']).get('c') == 'rec' and fl[0]['b'].split('::')[-1] in p.tname(x['t'])]
    if len(mem) != 1:
        return ctx.und(rule, w, f'members {mem}')
    for n in range(0, 7):
        for m in (0, 1, 2, 3):
            if n > 3 and m > 0 and (n, m) != (4, 1):
                continue
            ai = ctx.ai(intercepts={'kigumi::make_edge': lambda ai, fn, this, args, node: T('edge', *[ai.norm(ai.rval(a)) for a in args])})

            def go():
                this = sym_this(ai, f)
                ai.write((this[0], this[1], this[2] + (('f', mem[0]),)), ('S', (('1', make_info(p, fl, n, '')), ('1', make_info(p, fl, m, "'"))), ()), None)
                return ai.call_fn(f, this, [])
            outs = ai.explore(go)
            names = {T('atom', f'i{i}' + t): (i, t) for i in range(7) for t in ('', "'")}
            want = {frozenset((i, '') for i in e) for e in cycle(n)} | {frozenset((i, "'") for i in e) for e in cycle(m)}
            for o in outs:
                if o.kind not in ('norm', 'ret'):
                    return ctx.viol(rule, w, f'ends with {o.kind}')
                got = set()
                for e in o.ev:
                    if e[0] == 'loop':
                        return ctx.und(rule, w, 'the number of iterations is not known')
                    if e[0] in ('mapins', 'setins'):
                        x = used(e[2], names)
                        if len(x) != 2:
                            if len(x) == 1:
                                return ctx.viol(rule, w, 'an edge from a point to itself')
                            return ctx.und(rule, w, f'edge {show(e[2])[:200]}')
                        got.add(frozenset(x))
                if got != want:
                    return ctx.viol(rule, w, f'intersections with {n} and {m} points: edges {sorted(map(sorted, got))} instead of {sorted(map(sorted, want))}')
    ctx.analysed.add(w)
    ctx.ok(rule, w)


def used(v, names):
    if isT(v) and v in names:
        return {names[v]}
    out = set()
    if isinstance(v, (tuple, frozenset, list)):
        for x in v:
            out |= used(x, names)
    return out


# ---------------------------------------------------------------- the refinement as a whole
def corner(t):
    """(numbers, mesh, face, corner) of numbers[mesh.face(face)[corner]]."""
    if not (isT(t) and t[1] == 'at'):
        return None
    x = strip(t[3])
    if not (isT(x) and x[1] == 'at' and isnum(x[3])):
        return None
    y = x[2]
    if not (isT(y) and y[1] == 'at' and isT(y[2]) and y[2][1] == '.'):
        return None
    return member(t[2]), member(y[2][2]), strip(y[3]), x[3]


def strip(t):
    return t[2] if isT(t) and t[1] == '.' and t[3] == 'i_' else t


def member(t):
    """Name of a member of this that a term denotes."""
    if isT(t) and t[1] == '.' and t[2] == T('atom', 'this'):
        return t[3]
    if isT(t) and t[1] in ('post', 'hv', 'hvs') and str(t[3]).startswith('this.'):
        return t[3][5:]
    return None


def all_steps(ev, under=()):
    for e in ev:
        if e[0] == 'loop':
            for q in e[4]:
                yield from all_steps(q['ev'], under + ((e, q),))
        else:
            yield e, under


def corefine(ctx, p, f):
    rule = 'meshes are kept apart'
    w = ctx.where(f)
    fl = fields_of(p)
    roots = {}
    for i in f.get('inits') or []:
        for k, x in enumerate(f['params']):
            if i.get('m') and any(n['k'] == 'var' and n['id'] == x['id'] for n in walk(i['e'])):
                roots[i['m']] = k
    if sorted(roots.values()) != [0, 1] or fl is None:
        return ctx.und(rule, w, f'members of the meshes {roots}')
    ic = {'kigumi::Point_list::insert': record('PL'), 'kigumi::Find_coplanar_faces::operator()': record('FC'),
          'kigumi::Find_possibly_intersecting_faces::operator()': record('FP'), 'kigumi::Face_face_intersection::operator()': record('FF'),
          INS + '::insert': record('II'), TRI + '::Triangulation': record('TC'), COR + '::insert_intersection': record('CI')}
    ai = ctx.ai(intercepts=ic)
    ai.MAXPATHS = 400
    holder = {}

    def go():
        holder['t'] = sym_this(ai, f)
        return ai.call_fn(f, holder['t'], [('&', ai.newcell(x['n'], ai.symval(p.deref(x['t'])[0], x['n'])), ()) for x in f['params']])
    outs = [o for o in ai.explore(go) if o.kind in ('norm', 'ret')]
    if not outs:
        return ctx.und(rule, w, 'no path')
    side = dict(roots)
    assoc = None
    for o in outs:
        s = sides(ctx, p, f, rule, w, o, dict(side), fl, ai)
        if s is None:
            return
        assoc = s
    ctx.analysed.add(w)
    ctx.ok(rule, w)
    for nm in ('get_left_faces', 'get_right_faces'):
        for g in p.find(COR + '::' + nm):
            ctx.guarded(rule, g, lambda: returned(ctx, p, g, rule, assoc, 0 if 'left' in nm else 1))
            break
    ctx.guarded('errors about the right mesh', f, lambda: blame(ctx, p, f, ic, roots, assoc))


def sides(ctx, p, f, rule, w, o, side, fl, ai):
    """Goes through what the constructor does, keeping track of the mesh that everything belongs to.  None: reported."""
    bad = lambda m: (ctx.viol(rule, w, m), None)[1]
    und = lambda m: (ctx.und(rule, w, m), None)[1]
    other = lambda s: 'left' if s == 0 else 'right'
    # numbers of the points of a mesh
    for e, under in all_steps(o.ev):
        if e[0] == 'w' and e[2] and e[2][0][0] == 'f' and isS(e[3]) and e[3][1] and e[3][1][-1][0] == '1':
            x = e[3][1][-1][1]
            if isT(x) and x[1] == 'app' and x[2] == 'PL' and isT(x[3]) and x[3][1] == 'at' and isT(x[3][2]) and x[3][2][1] == '.':
                m = member(x[3][2][2])
                if m in side:
                    nm = fname(e[2][0])
                    if side.setdefault(nm, side[m]) != side[m]:
                        return bad(f'{nm} contains numbers of points of both meshes')
    pairs = facefield = None
    infofield = {}
    n = {'FF': 0, 'II': 0, 'TC': 0, 'CI': 0}
    for e, under in all_steps(o.ev):
        if e[0] == 'w' and e[2] and e[2][0][0] == 'f' and isT(e[3]) and e[3][1] == '.' and isT(e[3][2]) and e[3][2][1] == 'app' and e[3][2][2] == 'FC':
            side.setdefault(fname(e[2][0]), which(e[3][2], e[3][3], side))
        if e[0] == 'w':
            # a record about two faces is stored
            v = e[3]
            if isS(v) and v[1] and v[1][-1][0] == '1' and isR(v[1][-1][1]) and v[1][-1][1][2] == fl[0]['b'] and not infofield:
                rec = dict(v[1][-1][1][3])
                for k, x in rec.items():
                    if isT(x) and x[1] == '.' and isT(x[2]) and x[2][1] == 'at':
                        infofield[k] = pairside(x, side)
                    elif k == fl[1]:
                        if not (isT(x) and x[1] == 'app' and x[2] == 'FF' or isS(x)):
                            return und(f'symbolic intersections {show(x)[:100]}')
        if e[0] == 'mapins':
            nm = fname_cell(e[1])
            k = strip_face(e[2])
            if nm and k is not None:
                s = fieldside(k, infofield, side)
                if s is not None and side.setdefault(nm, s) != s:
                    return bad(f'{nm} contains triangulations of faces of both meshes')
        if e[0] != 'step':
            continue
        nm, a = e[1], e[2]
        if nm in ('FC', 'FP'):
            ms = [side.get(member(x)) if member(x) else which(x[2], x[3], side) if isT(x) and x[1] == '.' and isT(x[2]) and x[2][1] == 'app' else None for x in a]
            k = len(a) // 2
            exp = [s for _ in range(k) for s in ms[:2]]
            if None in ms:
                return und(f'arguments of {nm}: {ms}')
            if ms != exp or set(ms[:2]) != {0, 1}:
                return bad(f'the arguments of the search for face pairs belong to the {[other(s) for s in ms]} mesh')
        elif nm in ('FF', 'II'):
            c = list(a) if nm == 'FF' else list(a[1:4]) + list(a[5:8])
            cs = [corner(x) for x in c]
            if len(cs) != 6 or None in cs:
                return und(f'arguments of the intersection: {show(a)[:300]}')
            for h, grp in ((0, cs[:3]), (1, cs[3:])):
                for k, (ids, mesh, face, no) in enumerate(grp):
                    si, sm, sf = side.get(ids), side.get(mesh), pairside(face, side) if nm == 'FF' else fieldside(face, infofield, side)
                    if None in (si, sm, sf):
                        return und(f'corner {k} of face {h}: {ids} {mesh} {show(face)[:100]}')
                    if not si == sm == sf:
                        return bad(f'a corner is taken from the {other(sm)} mesh, with the numbers of the {other(si)} and a face of the {other(sf)}')
                    if sf != h:
                        return bad(f'the faces are exchanged: face {h} belongs to the {other(sf)} mesh')
                    if no != k:
                        return bad(f'the corner {no} of a face is taken for the corner {k}')
            if nm == 'II':
                for h, x, m in ((0, a[0], 7), (1, a[4], 56)):
                    ok = isT(x) and x[1] == 'bop' and x[2] == '&' and m in x[3:]
                    if not ok:
                        if isT(x) and x[1] == 'bop' and any(isnum(y) for y in x[3:]):
                            return bad(f'the region of the {other(h)} face is {show(x)[:200]}')
                        return und(f'region {show(x)[:200]}')
            n[nm] += 1
        elif nm == 'TC':
            h = {7: 0, 56: 1}.get(a[0])
            cs = [corner(x[3]) if isT(x) and x[1] == 'at' else None for x in a[1:4]] + [corner(x) for x in a[4:7]]
            if h is None or len(cs) != 6 or None in cs:
                return und(f'arguments of the triangulation: {show(a)[:300]}')
            for k, (ids, mesh, face, no) in enumerate(cs):
                si, sm, sf = side.get(ids), side.get(mesh), fieldside(face, infofield, side)
                if None in (si, sm, sf):
                    return und(f'corner {k} of the triangulation')
                if not si == sm == sf == h:
                    return bad(f'a corner of a triangulated {other(h)} face is taken from the {other(sm)} mesh, with the numbers of the {other(si)} and a face of the {other(sf)}')
                if no != k % 3:
                    return bad(f'the corner {no} of a face is taken for the corner {k % 3}')
            tc = T('app', 'TC', *a)
            for e2, u2 in all_steps(o.ev):
                if e2[0] == 'w' and e2[2] and e2[2][-1][0] == 'k' and holds_value(e2[3], tc):
                    s = side.setdefault(fname(e2[2][0]), h)
                    if s != h:
                        return bad(f'the triangulation of a {other(h)} face is kept in {fname(e2[2][0])}')
            # faces are grouped by the faces that are triangulated
            r = grouping(ctx, p, rule, w, cs[0][2], infofield, h, ai)
            if r is False:
                return None
            n[nm] += 1
        elif nm == 'CI':
            tc = [x for x in a if isT(x) and x[1] == 'app' and x[2] == 'TC']
            if len(tc) != 1:
                return und(f'intersections are inserted into {show(a)[:200]}')
            n[nm] += 1
    if not all(n.values()):
        return und(f'not all steps were found: {n}')
    if n['TC'] != 2 or n['CI'] != 2:
        h = {x[2][0] for x, u in all_steps(o.ev) if x[0] == 'step' and x[1] == 'TC'}
        if h != {7, 56}:
            return bad(f'only the faces {sorted(h)} are triangulated')
    return side


def fname(c):
    x = c[1]
    return x[0] if isinstance(x, tuple) else x


def fname_cell(lv):
    if isinstance(lv, tuple) and lv and lv[0] == '&' and lv[2] and lv[2][0][0] == 'f':
        return fname(lv[2][0])
    return None


def strip_face(k):
    if isR(k):
        vs = [x for _, x in k[3]]
        return vs[0] if len(vs) == 1 else None
    return strip(k)


def holds_value(v, t):
    return v == t or isR(v) and any(x == t for _, x in v[3])


def which(app, part, side):
    """The mesh to which a part of the result of a search belongs."""
    ms = [side.get(member(x)) for x in app[3:5]]
    return ms[int(part)] if part in ('0', '1', 'first', 'second') and part.isdigit() else None


def pairside(face, side):
    if isT(face) and face[1] == '.' and face[3] in ('0', '1') and isT(face[2]) and face[2][1] == 'at' and isT(face[2][2]) and face[2][2][1] == 'app' \
            and face[2][2][2] == 'FP':
        return which(face[2][2], face[3], side)
    return None


def fieldside(face, infofield, side):
    if isT(face) and face[1] == '.' and face[3] in infofield:
        return infofield[face[3]]
    return pairside(face, side)


def grouping(ctx, p, rule, w, face, infofield, h, ai):
    """The order by which the intersections are grouped compares the faces of the mesh that is triangulated."""
    cmps = []

    def go(t):
        if isT(t) and t[1] == 'cmp':
            cmps.append(t)
        if isinstance(t, tuple):
            for x in t:
                go(x)
    # the outermost order is the one in force
    t = face
    while isT(t) and t[1] != 'sorted':
        t = t[2] if len(t) > 2 and isT(t[2]) else None
    if t is None or len(t) < 4 or not isT(t[3]) or t[3][1] != 'cmp':
        return True
    for fid in t[3][2] if isinstance(t[3][2], tuple) else ():
        g = p.fns.get(fid)
        if g is None or g.get('body') is None:
            continue
        fs = set()
        for x in walk(g['body']):
            if x['k'] == 'member' and x.get('n') in infofield:
                fs.add(infofield[x['n']])
        if fs and fs != {h}:
            ctx.viol(rule, w, f'the intersections are grouped by the faces of the {"left" if 0 in fs else "right"} mesh to triangulate those of the other')
            return False
    return True


def returned(ctx, p, g, rule, side, h):
    w = ctx.where(g)
    ai = ctx.ai(intercepts={TRI + '::get_faces': record('GF')})
    fi = None
    args = []
    outs = ai.explore(lambda: ai.call_fn(g, sym_this(ai, g), [arg(ai, p, x) for x in g['params']]))
    other = lambda s: 'left' if s == 0 else 'right'
    n = 0
    for o in outs:
        if o.kind == 'throw':
            continue
        if o.kind not in ('norm', 'ret'):
            return ctx.und(rule, w, f'ends with {o.kind}')
        ms = set()
        mentioned([e for e in o.ev] + [o.val] + list(o.st.dom), ms)
        wrong = sorted(m for m in ms if m in side and side[m] != h)
        if wrong:
            return ctx.viol(rule, w, f'faces of the {other(h)} mesh are returned with {wrong} of the {other(1 - h)} mesh')
        em = [x[3] for x in o.ev if x[0] == 'w' and elements(x[3]) is not None and len(elements(x[3])) == 3]
        gf = [e for e in o.ev if e[0] == 'step' and e[1] == 'GF']
        if len(em) + len(gf) != 1:
            return ctx.viol(rule, w, f'the faces are returned {len(em) + len(gf)} times')
        n += 1
        if em:
            cs = [corner(strip_face(x)) for x in elements(em[0])]
            if None in cs:
                return ctx.und(rule, w, f'face {show(em[0])[:200]}')
            if [c[3] for c in cs] not in ([0, 1, 2], [1, 2, 0], [2, 0, 1]):
                return ctx.viol(rule, w, f'the corners {[c[3] for c in cs]} of a face are returned')
    if not n:
        return ctx.und(rule, w, 'no path')
    ctx.analysed.add(w)
    ctx.ok(rule, w)


def arg(ai, p, x):
    return ('&', ai.newcell(x['n'], ai.symval(p.deref(x['t'])[0], x['n'])), ()) if p.ty(x['t']).get('c') == 'ref' else ai.symval(x['t'], x['n'])


def mentioned(v, out):
    if isT(v):
        m = member(v)
        if m:
            out.add(m)
    if isinstance(v, (tuple, list, frozenset)):
        if len(v) == 3 and v[0] == '&' and isinstance(v[2], tuple) and v[2] and isinstance(v[2][0], tuple) and v[2][0][0] == 'f':
            out.add(fname(v[2][0]))
        for x in v:
            mentioned(x, out)
    elif isinstance(v, dict):
        for x in v.items():
            mentioned(x, out)


def blame(ctx, p, f, ic, roots, side):
    """The message names the mesh whose intersections cross: not the one that is being triangulated."""
    rule = 'errors about the right mesh'
    w = ctx.where(f)
    handlers = set()
    for x in [x for g in p.fns.values() if base(g.get('cls') or '') == COR and g.get('body') for x in walk(g['body'])]:
        if x['k'] == 'try':
            for h in x['h']:
                if 't' in h:
                    b = base(p.ty(p.deref(h['t'])[0]).get('base', ''))
                    if 'constraints' in b or not b.startswith('std::'):
                        handlers.add(b)
    if not handlers:
        return ctx.viol(rule, w, 'crossing constraints are not reported as self-intersections')
    exc = T('exc', sorted(handlers)[0], 'crossing')

    ic = dict(ic)

    def insert(ai, fn, this, args, node):
        a = tuple(ai.rval(x) for x in args)
        ai.st.ev.append(('step', 'CI', a))
        tc = [x for x in a if isT(x) and x[1] == 'app' and x[2] == 'TC']
        if tc and ai.truth(T('atom', f'crossing in {tc[0][3]}')):
            raise Throw(exc)
        return None
    ic[COR + '::insert_intersection'] = insert
    ai = ctx.ai(intercepts=ic)
    ai.MAXPATHS = 2000
    outs = ai.explore(lambda: ai.call_fn(f, sym_this(ai, f), [('&', ai.newcell(x['n'], ai.symval(p.deref(x['t'])[0], x['n'])), ()) for x in f['params']]))
    seen = set()
    for o in outs:
        if o.kind != 'throw':
            continue
        txt = show(o.val)
        tcs = [e[2][0] for e, u in all_steps(o.ev) if e[0] == 'step' and e[1] == 'TC']
        if not tcs:
            continue
        h = tcs[-1]
        if o.val == exc:
            return ctx.viol(rule, w, f'crossing constraints in the {"left" if h == 7 else "right"} faces are not reported')
        m = 'first' if 'first mesh' in txt else 'second' if 'second mesh' in txt else None
        if m is None:
            return ctx.und(rule, w, f'message {txt[:100]}')
        if (m == 'second') != (h == 7):
            return ctx.viol(rule, w, f'self-intersections are reported for the {m} mesh, but what crosses in the faces of the {"first" if h == 7 else "second"} mesh are intersections with the other')
        seen.add(h)
    if seen != {7, 56}:
        return ctx.und(rule, w, f'paths with crossing constraints: {sorted(seen)}')
    ctx.ok(rule, w)


# ---------------------------------------------------------------- all intersections of a face
def patterns(deep):
    """Pairs of faces that are examined, in all orders, and the numbers of points they have in common."""
    pairs = [(0, 0), (0, 1), (1, 0), (1, 1)]
    out = [((), ())]
    for k in range(1, 5):
        for ps in itertools.permutations(pairs, k):
            for ns in itertools.product((0, 2), repeat=k) if k < 4 or deep else [(1, 2, 3, 6), (3, 1, 0, 2)]:
                out.append((ps, tuple(x and x + i % 3 - 1 for i, x in enumerate(ns)) if k < 4 else ns))
    big = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 0), (2, 2), (2, 1)]
    for i in range(len(big)):
        ps = tuple(big[i:] + big[:i])
        for q in (ps, ps[::-1], ps[::2] + ps[1::2]):
            out.append((q, (1, 2, 3, 4, 5, 6, 1, 2)))
            out.append((q, (2, 0, 1, 3, 0, 1, 4, 2)))
    return out


def divided(ctx, p, f):
    from checks.c23 import Mesh, seq, SORTS, TS, parallel
    rule = 'faces are divided once, by all of their intersections'
    w = ctx.where(f)
    n = 0
    for ps, ns in patterns(ctx.tier == 'thorough'):
        r = divided_one(ctx, p, f, ps, ns, Mesh(ctx, TS), Mesh(ctx, TS), seq, SORTS, parallel)
        if r is not None:
            kind, msg = r
            txt = f'faces {", ".join(f"{a} of the first and {b} of the second mesh ({k} points)" for (a, b), k in zip(ps, ns))}: {msg}'
            return (ctx.viol if kind == 'viol' else ctx.und)(rule, w, txt)
        n += 1
    ctx.count('sets of intersections', n)
    ctx.analysed.add(w)
    ctx.ok(rule, w, f'{n} sets of intersections')


def divided_one(ctx, p, f, ps, ns, L, R, seq, SORTS, parallel):
    from spec import mk_index, idx
    OFF, REG = 50, {}
    # the meshes do not have the same number of vertices
    extra = (1, 0) if len(ps) % 2 else (0, 1)
    for (l, r), k in zip(ps, ns):
        REG[(l, r)] = [(l * 3 + r) * 6 + i + 1 for i in range(k)]
    corner = {0: lambda i: i, 1: lambda i: OFF + i}
    bad, made, used, got, where = [], [], [], [], []

    def pts(ai, fn, this, args, node):
        v = ai.rval(args[0])
        return v[2] if isT(v) and v[1] == 'pv' else NotImplemented

    def ff(ai, fn, this, args, node):
        a = [idx(ai.rval(x)) for x in args]
        if not all(isinstance(x, int) for x in a):
            return NotImplemented
        l, r = a[0] // 3, (a[3] - OFF) // 3
        if a != [corner[0](3 * l + i) for i in range(3)] + [corner[1](3 * r + i) for i in range(3)]:
            bad.append(f'the triangles {a} are intersected')
            return seq([])
        return seq(list(REG.get((l, r), [])))

    def ii(ai, fn, this, args, node):
        a = [idx(ai.rval(x)) for x in args]
        if not (len(a) == 8 and isinstance(a[0], int)):
            return NotImplemented
        count.append(a[0])
        return 1000 + a[0]

    count, at = [], []

    def point(k):
        def h(ai, fn, this, args, node):
            n = 18 + len(count)
            if k == 'size':
                return n
            c = ('&', 'pointcell', ())
            ai.st.store['pointcell'] = seq([T('pt', i) for i in range(n)])
            return ('I', c, n if k == 'end' else 0)
        return h

    def par(ai, fn, this, args, node):
        b, e = ai.rval(args[0]), ai.rval(args[1])
        if isI(b) and isI(e) and isinstance(b[2], int) and isinstance(e[2], int) and b[2] > e[2]:
            bad.append(f'a parallel loop is given the elements {b[2]} to {e[2]}')
            return None
        old = ai.call_value
        k = [0]
        at.append(None)

        def call(fv, a, nd=None):
            if len(at) != depth:
                return old(fv, a, nd)
            k[0] += 1
            at[-1] = (id(node), k[0])
            at.append(None)
            try:
                return old(fv, a, nd)
            finally:
                at.pop()
        depth = len(at)
        ai.call_value = call
        try:
            return parallel([])(ai, fn, this, args, node)
        finally:
            ai.call_value = old
            at.pop()

    def tc(ai, fn, this, args, node):
        a = [idx(ai.rval(x)) for x in args]
        made.append([x for x in a[1:] if isinstance(x, int)])
        here = next((x for x in at if x), None)
        for (k, c) in where:
            if c == made[-1] and here and k and k[0] == here[0] and k[1] != here[1]:
                bad.append(f'the face with the corners {c} is divided by two iterations of a parallel loop')
        where.append((here, made[-1]))
        return T('triangulation', len(made) - 1)

    def ins(ai, fn, this, args, node):
        t, a = ai.rval(this), [idx(ai.rval(x)) for x in args]
        ks = [x for x in a if isinstance(x, int)]
        if not (isT(t) and t[1] == 'triangulation' and len(ks) == 2):
            return NotImplemented
        used.append((t[2],) + tuple(ks))
        return T('vh', t[2], ks[0])

    def con(ai, fn, this, args, node):
        t, a = ai.rval(this), [ai.rval(x) for x in args]
        if not (isT(t) and t[1] == 'triangulation' and len(a) == 2 and all(isT(x) and x[1] == 'vh' for x in a)):
            bad.append('an edge that is not one of two inserted points is inserted')
            return None
        if any(x[2] != t[2] for x in a):
            bad.append('an edge between points of another face is inserted')
            return None
        used.append((t[2], frozenset(x[3] for x in a)))
        return None

    def gf(ai, fn, this, args, node):
        t = ai.rval(this)
        got.append(t)
        return 1

    fp = seq([tup(mk_index(a), mk_index(b)) for a, b in ps])
    ic = {'kigumi::Point_list::insert': pts, 'kigumi::Point_list::at': lambda ai, fn, this, args, node: T('pt', ai.rval(args[0])),
          'kigumi::Find_coplanar_faces::operator()': lambda ai, fn, this, args, node: tup(seq([0] * 3), seq([0] * 3)),
          'kigumi::Find_possibly_intersecting_faces::operator()': lambda ai, fn, this, args, node: fp,
          'kigumi::Face_face_intersection::operator()': ff, INS + '::insert': ii, TRI + '::Triangulation': tc, TRI + '::insert': ins,
          TRI + '::insert_constraint': con, TRI + '::get_faces': gf,
          'kigumi::intersection': lambda ai, fn, this, args, node: ai.rval(args[0]),
          'kigumi::parallel_do': par, 'kigumi::Point_list::begin': point('begin'), 'kigumi::Point_list::end': point('end'),
          'kigumi::Point_list::size': point('size')}
    ic.update(SORTS)
    ai = ctx.ai(intercepts=ic)
    ai.UNROLL = 48
    old = ai.decide

    def decide(v, *a):
        vs = [x for x in subterms(v) if x[1] == 'vh']
        if isT(v) and v[1] == '==0' and len(vs) == 1:
            return False                       # an inserted point and the null handle
        return old(v, *a)
    ai.decide = decide

    def go():
        for x in (made, used, bad, got, where, count, at):
            x.clear()
        fs = [[0, 1, 2], [3, 4, 5], [6, 7, 8]]
        d = [T('atom', 'd')] * 3
        l = L.make(ai, [T('pv', corner[0](i)) for i in range(9)] + [T('pv', 40)] * extra[0], fs, d, 'left')
        r = R.make(ai, [T('pv', corner[1](i)) for i in range(9)] + [T('pv', 90)] * extra[1], fs, d, 'right')
        v = ai.construct_repo(f, [l, r], f.get('rid'))
        o = ('&', ai.newcell('result', ai.rval(v)), ())
        res = {}
        for side, nm in enumerate(('get_left_faces', 'get_right_faces')):
            g = next((g for g in p.find(COR + '::' + nm) if g.get('body')), None)
            if g is None:
                return ('res', None)
            for x in range(3):
                got.clear()
                ai.call_fn(g, o, [mk_index(x), ('&', ai.newcell('out', T('atom', 'out')), ())])
                res[side, x] = list(got)
        return ('res', res)
    outs = ai.explore(go)
    if len(outs) != 1:
        return 'und', f'{len(outs)} paths: {[show(t)[:200] for t in list(outs[0].st.dom)[:3]] if outs else ""}'
    o = outs[0]
    if o.kind == 'throw':
        return 'viol', f'ends with {show(o.val)[:150]}'
    if o.kind not in ('norm', 'ret') or o.val[1] is None:
        return 'und', f'{o.kind} {show(o.val)[:150]}'
    if bad:
        return 'viol', bad[0]
    name = ('first', 'second')
    seen = set()
    for (side, x), ts in o.val[1].items():
        want = [(i, r) for (pr, r) in REG.items() if pr[side] == x and r for i in r]
        face = f'face {x} of the {name[side]} mesh'
        if not want:
            if ts:
                return 'viol', f'{face} is divided although it has nothing in common with the other mesh'
            continue
        if len(ts) != 1:
            return 'viol', f'{face} is not divided'
        t = ts[0]
        if not (isT(t) and t[1] == 'triangulation'):
            return 'und', f'{face} is made of {show(t)[:100]}'
        t = t[2]
        if t in seen:
            return 'viol', f'{face} has the triangulation of another face'
        seen.add(t)
        cs = [corner[side](3 * x + i) for i in range(3)]
        if made[t] not in (cs, cs[1:] + cs[:1], cs[2:] + cs[:2]):
            return 'viol', f'{face} has the corners {made[t]} instead of {cs}'
        pts_ = {u[1:] for u in used if u[0] == t and len(u) == 3}
        lines = {u[1] for u in used if u[0] == t and len(u) == 2}
        wp, wl = set(), set()
        for pr, r in REG.items():
            if pr[side] == x:
                wp |= {(1000 + i, i) for i in r}
                wl |= {frozenset((1000 + r[i], 1000 + r[(i + 1) % len(r)])) for i in range(len(r)) if len(r) > 1}
        for have, need, what in ((pts_, wp, 'points'), (lines, wl, 'edges')):
            if need - have:
                return 'viol', f'{face} is divided without {len(need - have)} of the {len(need)} {what} that it has in common with the other mesh'
            if have - need:
                return 'viol', f'{face} is divided by {len(have - need)} {what} of other faces'
    return None


def subterms(v):
    if isT(v):
        yield v
    if isinstance(v, tuple):
        for x in v:
            yield from subterms(x)
