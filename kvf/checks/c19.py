"""Two triangles are intersected symbolically without an error, in every configuration."""
from framework import *
from fractions import Fraction
from spec import idx

EXPLANATION = (
    'The functions that intersect two triangles are turned into decision tables over the signs of orientation predicates, which are '
    'uninterpreted symbols with the values -1, 0 and 1: one table per function and call, found by partitioned abstract interpretation. Every '
    'table entry is compared with the intersection of an edge with a triangle, for all combinations of signs that points can have '
    '(enumerated on a grid that contains every relative position of an edge and a triangle, in general and in degenerate position). '
    'The cached predicate is shown, by induction over the loops of the sort, to be the orientation of its arguments with the right sign.')
ASSUMPTIONS = ['the triangles are not degenerate', 'the predicates of CGAL are exact', 'both triangles are not the same (such pairs are found before)']

FF = 'kigumi::Face_face_intersection'
NAMES = 'abcpqr'
ATOM = {n: T('atom', n) for n in NAMES}
BACK = {v: k for k, v in ATOM.items()}
REG = {'a': 1, 'b': 2, 'c': 4, 'p': 8, 'q': 16, 'r': 32}


# ---------------------------------------------------------------- orientation predicates
def osign(ai, ids):
    par, l = 1, list(ids)
    for i in range(len(l)):
        for j in range(len(l) - 1 - i):
            if okey(l[j]) > okey(l[j + 1]):
                l[j], l[j + 1] = l[j + 1], l[j]
                par = -par
    if any(l[i] == l[i + 1] for i in range(len(l) - 1)):
        return 0
    t = T('o%d' % len(l), *l)
    ai.tdom[t] = frozenset((-1, 0, 1))
    return t if par == 1 else ai.binop('*', -1, t)


def predicates(p):
    """The functions that take the numbers of points and return a sign."""
    out = []
    for f in p.fns.values():
        if base(f.get('cls') or '') == FF and f.get('body') is not None and not f.get('lambda') and f.get('rt') is not None \
                and p.tname(f['rt']) in ('CGAL::Sign', 'CGAL::Orientation') and len(f['params']) in (2, 3, 4) \
                and all(p.ty(x['t']).get('c') == 'int' for x in f['params']):
            out.append(f)
    return out


def deciding(p, f, preds, seen=None):
    """Does a function evaluate predicates, directly or not?"""
    seen = seen if seen is not None else set()
    if f['id'] in seen:
        return False
    seen.add(f['id'])
    ids = {g['id'] for g in preds}
    for part in [f.get('body')]:
        for n in walk(part):
            if n['k'] == 'call' and isinstance(n.get('fn'), dict):
                i = n['fn'].get('id')
                if i in ids:
                    return True
                g = p.fns.get(i)
                if g is not None and base(g.get('cls') or '') == FF and g.get('body') is not None and deciding(p, g, preds, seen):
                    return True
    for g in f['params']:
        if p.tname(g['t']) in ('CGAL::Sign', 'CGAL::Orientation'):
            return True
    return False


def run(ctx):
    p = ctx.prog()
    f = ctx.fn(FF + '::operator()')
    if f is None:
        ctx.und('anchor', FF, 'not found')
        return
    preds = predicates(p)
    for g in preds:
        ctx.guarded('predicates have the sign of their arguments', g, lambda: predicate(ctx, p, g))
    ctx.guarded('edges against triangles', f, lambda: tables(ctx, p, f, preds))
    ctx.guarded('order of the points', f, lambda: order(ctx, p, f, preds))
    ctx.guarded('corners of the common part', f, lambda: corners(ctx, p, f, preds))
    regions(ctx, p)


# ---------------------------------------------------------------- rule 1
KNOWN = {'CGAL::orientation': 4, 'CGAL::coplanar_orientation': 3, 'CGAL::compare_lexicographically': 2, 'CGAL::compare_xyz': 2}


def predicate(ctx, p, f):
    rule = 'predicates have the sign of their arguments'
    w = ctx.where(f)
    n = len(f['params'])
    ids = [T('atom', x) for x in NAMES[:n]]
    ai = ctx.ai()
    outs = ai.explore(lambda: ai.call_fn(f, sym_this(ai, f), list(ids)))
    ctx.analysed.add(w)
    if not outs:
        return ctx.und(rule, w, 'no path')
    keys = []
    for o in outs:
        if o.kind not in ('norm', 'ret'):
            return ctx.viol(rule, w, f'ends with {o.kind}')
        perms = permutations_kept(o.ev, ids)
        r = sign_of(ai, o.val, ids, perms, n)
        if r is None:
            return ctx.und(rule, w, f'result not understood: {show(o.val)[:200]}')
        if r[0] == 'cached':
            keys.append(('read', r[1], o))
            continue
        if r[0] != 1:
            return ctx.viol(rule, w, f'the result is {r[1]}')
        # what is stored in the cache has to be the predicate of its key
        m = stored(o)
        for key, val in m:
            r = sign_of(ai, val, list(key), {}, n, key)
            if r is None:
                return ctx.und(rule, w, f'stored value not understood: {show(val)[:200]}')
            if r[0] != 1:
                return ctx.viol(rule, w, f'the value that is stored for a key is {r[1]}')
    ctx.ok(rule, w)


def permutations_kept(ev, ids):
    """{(cell, loop): True} for arrays that are a permutation of their initial content with a sign that keeps pace, by induction."""
    out = {}
    for e in ev:
        if e[0] != 'loop':
            continue
        g = transposes(e)
        if g is not None:
            for cell in permuted(e):
                out[(e[2][2] if isT(e[2]) else None, cell)] = None
            for cell, par in g:
                out[(e[2][2] if isT(e[2]) else None, cell)] = par
    return out


def permuted(e):
    out = set()
    for q in e[4]:
        for x in q['ev']:
            if x[0] == 'loop':
                out |= permuted(x)
            elif x[0] == 'w' and x[2] and x[2][-1][0] == 'i':
                out.add(x[1])
    return out


def transposes(e):
    """Every path through the loop swaps elements of one array and changes the sign of one variable once per swap: {(array, sign)}."""
    res = None
    for q in e[4]:
        st = swaps(q['ev'])
        if st is None:
            return None
        if st:
            res = st if res is None else res & st
    return res if res is not None else frozenset()


def swaps(ev):
    """Pairs (array, sign variable) that are kept consistent by a straight sequence of events (None: not understood)."""
    arr, sg, sub = {}, {}, None
    for e in ev:
        if e[0] == 'loop':
            s = transposes(e)
            if s is None:
                return None
            sub = s if sub is None else sub & s
        elif e[0] == 'w':
            if e[2] and e[2][-1][0] == 'i':
                arr.setdefault(e[1], []).append((e[2][-1][1], e[3]))
            elif isT(e[3]) and e[3][1] == 'app' and e[3][2] == '-' and len(e[3]) == 4 or isT(e[3]) and e[3][1] in ('neg',):
                sg[e[1]] = sg.get(e[1], 0) + 1
            elif isT(e[3]) and e[3][1] == 'bop' and e[3][2] == '*' and -1 in e[3][3:]:
                sg[e[1]] = sg.get(e[1], 0) + 1
    if not arr:
        if sub is None:
            return frozenset()
        return sub if not any(s == x[1] for x in sub for s in sg) else None
    if sub:
        return None
    if len(arr) != 1:
        return None
    (a, ws), = arr.items()
    if len(ws) != 2:
        return None
    (i, x), (j, y) = ws
    # x is what was at j and y what was at i
    ok = isT(x) and isT(y) and x[1] == 'at' and y[1] == 'at' and x[2] == y[2] and sub_eq(x[3], j) and sub_eq(y[3], i) and not sub_eq(i, j)
    if not ok:
        return None
    return frozenset((a, s) for s, k in sg.items() if k % 2 == 1)


def sub_eq(a, b):
    d = sub(a, b)
    return isnum(d) and d == 0


def sign_of(ai, v, ids, perms, n, key=None):
    """(1 | -1, text) if v is +- the predicate of the ids; None if unknown; ('cached', key)."""
    v = ai.norm(v) if not isT(v) else v
    s = 1
    factors = []

    def mul(x):
        nonlocal s
        if isT(x) and x[1] in ('bop', 'app', 'op') and x[2] == '*' and len(x) == 5:
            mul(x[3])
            mul(x[4])
        elif isT(x) and (x[1] == 'neg' or x[1] == 'app' and x[2] == '-' and len(x) == 4):
            s = -s
            mul(x[2] if x[1] == 'neg' else x[3])
        elif isnum(x) and x in (1, -1):
            s *= x
        elif isT(x) and x[1] == 'cast':
            mul(x[2])
        else:
            factors.append(x)
    mul(v)
    fs = [x for x in factors if isT(x) and x[1] == 'app' and x[2] in KNOWN]
    cached = [x for x in factors if isT(x) and x[1] == 'val']
    rest = [x for x in factors if x not in fs and x not in cached]
    if len(fs) + len(cached) != 1:
        return None
    if cached:
        k = cached[0][3]
        els, post = elements(k, n)
        if post is None and els is None:
            return None
    else:
        if KNOWN[fs[0][2]] != len(fs[0]) - 3:
            return None
        pts = fs[0][3:]
        if len(pts) != n:
            return (0, f'{fs[0][2]} instead of the predicate of {n} points')
        els, post = [], None
        for x in pts:
            if not (isT(x) and x[1] == 'at'):
                return None
            els.append(x[3])
        srt = [x for x in els if isT(x) and x[1] == 'at' and isT(x[2]) and x[2][1] == 'post' and isnum(x[3])]
        if srt and len({x[2] for x in srt}) == 1:
            ix = [x[3] for x in srt]
            if len(srt) != n or sorted(ix) != list(range(n)):
                return (0, f'the predicate of {[show(x) for x in els]}'[:300])
            post = els[0][2]
            s *= parity(ix)
    if key is not None:
        if list(key) == els:
            return (s, 'correct' if s == 1 and not rest else 'reversed') if not rest else None
        if key[0] == 'arr':
            return (s, 'reversed') if not rest and post == key[1] else None
        if all(x in key for x in els) and len(set(els)) == len(els) and not rest:
            return (s * parity([key.index(x) for x in els]), 'reversed')
        return None
    if post is not None and isT(post) and post[1] == 'post':
        if (post[2], post[3]) not in perms:
            return None
        par = perms[(post[2], post[3])]
        if par is None:
            return (0, 'the predicate of the sorted points, without the sign of the permutation') if not rest else None
        if len(rest) == 1 and isT(rest[0]) and rest[0][1] == 'post' and rest[0][3] == par and rest[0][2] == post[2]:
            return (s, 'reversed') if s != 1 else (1, '')
        if not rest:
            return (0, 'the predicate of the sorted points, without the sign of the permutation')
        return None
    if els is not None and sorted(els, key=okey) == sorted(ids, key=okey):
        if rest:
            return None
        return (s * parity([ids.index(x) for x in els]), 'of the wrong sign')
    if els is not None and all(x in ids for x in els):
        return (0, f'the predicate of {[show(x) for x in els]}')
    return None


def elements(k, n):
    if isS(k) and len(k[1]) == 1 and k[1][0][0] == 's' and not k[2]:
        return None, k[1][0][1]
    if isS(k) and all(x[0] == '1' for x in k[1]):
        return [x[1] for x in k[1]], None
    if isT(k):
        return None, k
    return None, None


def parity(perm):
    s = 1
    for i in range(len(perm)):
        for j in range(i):
            if perm[j] > perm[i]:
                s = -s
    return s


def stored(o):
    """(key, value) of the entries that a path has stored in maps."""
    out = []
    for e in o.ev:
        if e[0] == 'w':
            v = e[3]
            for c in e[2]:
                if c[0] in ('k', 'key') and len(c) > 1:
                    k = c[1]
                    if isS(k):
                        els, post = elements(k, 0)
                        out.append((('arr', post) if els is None else tuple(els), v))
    return out


# ---------------------------------------------------------------- rule 2
class Table:
    def __init__(self, ctx, p, preds, root):
        self.ctx, self.p, self.preds, self.root = ctx, p, preds, root
        self.memo = {}
        self.members = set()
        self.havoc = False
        self.npaths = 0
        self.sides = set()

    def ai(self, depth0=None):
        ic = {}
        pid = {g['id'] for g in self.preds}

        def orient(ai, fn, this, args, node):
            if fn['id'] not in pid:
                return NotImplemented
            return osign(ai, [ai.rval(a) for a in args])
        for g in self.preds:
            ic[g['b']] = orient
        own = [g for g in self.p.fns.values() if base(g.get('cls') or '') == FF and g.get('body') is not None and not g.get('lambda')
               and g['id'] not in pid and g['id'] != self.root['id'] and deciding(self.p, g, self.preds)
               and g.get('rt') is not None and self.p.tname(g['rt']) == 'void']
        ids = {g['id'] for g in own}

        def call(ai, fn, this, args, node):
            if fn['id'] not in ids:
                return NotImplemented
            ai.st.ev.append(('decide', fn['id'], tuple(ai.rval(a) for a in args), (node or {}).get('l')))
            for m in self.members if self.havoc else ():
                lv = (this[0], this[1], this[2] + (('f', m),))
                ai.write(lv, Ssym(T('inters', m)), node)
            return None
        for g in own:
            ic[g['b']] = call
        a = self.ctx.ai(intercepts=ic, steps=20000000)
        a.MAXPATHS = 60000
        return a

    def paths(self, fid, args):
        key = (fid, args)
        if key in self.memo:
            return self.memo[key]
        f = self.p.fns[fid]
        ai = self.ai()
        known = set()
        for a in args:
            atoms(a, known)
        for t in known:
            ai.tdom[t] = frozenset((-1, 0, 1))
        # a helper that calls another one must not itself be replaced: it is entered directly
        out = []
        this = {}

        def go():
            this['v'] = sym_this(ai, f)
            return ai.run_body(f, this['v'], list(args)) if hasattr(ai, 'run_body') else enter(ai, f, this['v'], list(args))
        outs = ai.explore(go)
        self.npaths += len(outs)
        for o in outs:
            if o.kind not in ('norm', 'ret'):
                out.append((dict(o.st.dom), None, [], o))
                continue
            ems = emitted(ai, o, this['v'], self)
            calls = [(e[1], e[2]) for e in o.ev if e[0] == 'decide']
            if any(x[0] == 'decide' for e in o.ev if e[0] == 'loop' for x in flat(e)):
                raise Unsupported('predicates in a loop')
            out.append((dict(o.st.dom), ems, calls, o))
        self.memo[key] = out
        return out

    def evaluate(self, fid, args, sg, depth=0):
        """What is inserted for a combination of signs."""
        if depth > 6:
            raise Unsupported('recursion')
        hit = None
        for dom, ems, calls, o in self.paths(fid, args):
            if all(holds(t, d, sg) for t, d in dom.items()):
                if hit is not None and (ems, calls) != hit:
                    raise Unsupported('ambiguous table')
                hit = (ems, calls)
        if hit is None:
            raise Unsupported('no entry of the table applies')
        ems, calls = hit
        if ems is None:
            return None
        res = list(ems)
        for i, a in calls:
            r = self.evaluate(i, a, sg, depth + 1)
            if r is None:
                return None
            res += r
        return res


def flat(e):
    for q in e[4]:
        for x in q['ev']:
            yield x
            if x[0] == 'loop':
                yield from flat(x)


def enter(ai, f, this, args):
    saved = ai.ic
    h = ai.ic.get(f['b'])
    first = [True]

    def once(a, fn, th, ar, node):
        if first[0] and fn['id'] == f['id']:
            first[0] = False
            return NotImplemented
        return h(a, fn, th, ar, node) if h else NotImplemented
    ai.ic = dict(saved)
    ai.ic[f['b']] = once
    try:
        return ai.call_fn(f, this, args)
    finally:
        ai.ic = saved


def holds(t, d, sg):
    v = value(t, sg)
    if v is None:
        raise Unsupported('condition ' + show(t))
    return v in d


def value(t, sg):
    if isnum(t) or isinstance(t, bool):
        return t
    if isT(t):
        if t[1] in ('o2', 'o3', 'o4'):
            return sg(t)
        if t[1] == 'neg':
            return -value(t[2], sg)
        if t[1] == 'bop' and t[2] == '*':
            return value(t[3], sg) * value(t[4], sg)
        if t[1] == 'cast':
            return value(t[2], sg)
        if t[1] == '!':
            return not value(t[2], sg)
        if t[1] == '==' and len(t) == 4:
            return value(t[2], sg) == value(t[3], sg)
    return None


def emitted(ai, o, this, tab):
    """Masks of the regions that were appended to a member."""
    out = []
    old, ai.st = ai.st, o.st
    try:
        for e in o.ev:
            if e[0] == 'w' and e[1] == this[1] and e[2] and e[2][0][0] == 'f':
                tab.members.add(e[2][0][1])
        for m in sorted(tab.members):
            v = ai.norm(ai.read((this[0], this[1], this[2] + (('f', m),))))
            if not isS(v):
                continue
            for s in v[1]:
                if s[0] == 's':
                    continue
                if s[0] != '1':
                    raise Unsupported('inserted elements')
                out.append(mask(ai, s[1]))
                if isR(s[1]) and len(s[1][3]) == 2:
                    tab.sides.add(tuple('l' if x < 8 else 'r' if not x & 7 else '?' for _, x in sorted(s[1][3], key=lambda y: str(y[0])) if isnum(x)))
    finally:
        ai.st = old
    return out


def mask(ai, v):
    if isnum(v):
        return int(v)
    if isR(v):
        r = 0
        for _, x in v[3]:
            if not isnum(x):
                raise Unsupported('inserted region ' + show(x))
            r |= int(x)
        return r
    raise Unsupported('inserted region ' + show(v))


def det3(u, v, w):
    return (u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0]))


def sgn(x):
    return (x > 0) - (x < 0)


class Signs:
    """The predicates of six given points."""

    def __init__(self, pts):
        self.pts = pts
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            ns = [BACK[x] for x in t[2:]]
            if t[1] == 'o4':
                a, b, c, d = [self.pts[n] for n in ns]
                m = lambda x: tuple(x[i] - a[i] for i in range(3))
                r = sgn(det3(m(b), m(c), m(d)))
            elif t[1] == 'o3':
                a, b, c = [self.pts[n] for n in ns]
                r = 0
                for i, j in ((0, 1), (1, 2), (0, 2)):
                    r = sgn((b[i] - a[i]) * (c[j] - a[j]) - (b[j] - a[j]) * (c[i] - a[i]))
                    if r:
                        break
            else:
                a, b = [self.pts[n] for n in ns]
                r = sgn((a > b) - (a < b))
            self.memo[t] = r
        return r


def order2d(a, b, c):
    return sgn((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]))


TRI = ((0, 0), (3, 0), (0, 3))
GRID = [(x, y) for x in range(-2, 6) for y in range(-2, 6)]
TRANS = [lambda x, y: (x, y), lambda x, y: (y, x), lambda x, y: (-x, y), lambda x, y: (y, -x)]


def location(x, tri):
    """Mask (bits 0..2) of the corners of the smallest face of the triangle that contains x, 0 if outside."""
    p, q, r = tri
    o = order2d(p, q, r)
    s = [o * order2d(q, r, x), o * order2d(r, p, x), o * order2d(p, q, x)]
    if any(v < 0 for v in s):
        return 0
    return sum(1 << i for i in range(3) if s[i] > 0)


def configurations():
    """(points of the edge, corners of the triangle, expected) for all relative positions; the expected value is a list of
    (mask of the edge: 1 first end, 3 interior; mask of the triangle)."""
    out = []
    zs = [(1, -1), (-1, 1), (0, 1), (0, -1), (1, 0), (-1, 0), (1, 2), (-1, -2), (2, 1)]
    for x in GRID:
        for za, zb in zs:
            for dx, dy in ((0, 0), (1, 2), (-2, 1)):
                # the line of the edge meets the plane in x
                a = (x[0] + dx * za, x[1] + dy * za, za)
                b = (x[0] + dx * zb, x[1] + dy * zb, zb)
                exp = []
                if za * zb < 0 or za == 0:
                    loc = location(x, TRI)
                    if loc:
                        exp.append((1 if za == 0 else 3, loc))
                out.append((a, b, exp))
    for a in GRID:
        for b in GRID:
            if a != b:
                out.append(((a[0], a[1], 0), (b[0], b[1], 0), flat_case(a, b)))
    return out


def flat_case(a, b):
    """Edge ab (a included, b not) and the triangle in one plane: the points of ab that are corners of the common part."""
    exp = []
    loc = location(a, TRI)
    if loc:
        exp.append((1, loc))
    # corners of the triangle and crossings with its edges in the interior of ab
    for i in range(3):
        c = TRI[i]
        if order2d(a, b, c) == 0 and min(a, b) < c < max(a, b):
            exp.append((3, 1 << i))
    for i in range(3):
        p, q = TRI[i], TRI[(i + 1) % 3]
        if order2d(a, b, p) * order2d(a, b, q) < 0 and order2d(p, q, a) * order2d(p, q, b) < 0:
            exp.append((3, 1 << i | 1 << (i + 1) % 3))
    return exp


def tables(ctx, p, f, preds):
    rule = 'edges against triangles'
    w = ctx.where(f)
    tab = Table(ctx, p, preds, f)
    ids = [ATOM[n] for n in NAMES]
    ai = tab.ai()
    outs = ai.explore(lambda: ai.call_fn(f, sym_this(ai, f), list(ids)))
    good = [o for o in outs if o.kind in ('norm', 'ret')]
    if len(good) != len(outs) or not good:
        return ctx.und(rule, w, 'the intersection may end abnormally')
    confs = configurations()
    calls_of = []
    for o in good:
        calls_of.append((dict(o.st.dom), [(e[1], e[2]) for e in o.ev if e[0] == 'decide']))
    if not any(c for _, c in calls_of):
        return ctx.und(rule, w, 'no helper that decides about an edge and a triangle')
    edges = [('a', 'b', 'pqr'), ('b', 'c', 'pqr'), ('c', 'a', 'pqr'), ('p', 'q', 'abc'), ('q', 'r', 'abc'), ('r', 'p', 'abc')]
    nconf = 0
    for x, y, tri in edges:
        left = x in 'abc'
        third = next(n for n in ('abc' if left else 'pqr') if n not in (x, y))
        seen = set()
        calls = {}
        for dom, cs in calls_of:
            for c in cs:
                if set(edge_of(c)) == {x, y}:
                    calls.setdefault(c, 0)
        if len(calls) > 1 or not calls and not any(d for d, _ in calls_of):
            if not calls:
                return ctx.viol(rule, w, f'the edge {x}{y} is not intersected with the triangle {tri}')
            return ctx.und(rule, w, f'{len(calls)} helpers decide about the edge {x}{y}')
        if not calls:
            return ctx.und(rule, w, f'the edge {x}{y} is not found')
        (fid, args), = calls
        g = p.fns[fid]
        wg = ctx.where(g)
        ctx.analysed.add(wg)
        for A, B, exp in confs:
            for tr in TRANS:
                def mv(pt):
                    u, v = tr(pt[0], pt[1])
                    return (u, v, pt[2]) if len(pt) > 2 else (u, v, 0)
                for rot in (0, 1):
                    # both orientations of the triangle
                    names = tri if rot == 0 else tri[0] + tri[2] + tri[1]
                    pts = {x: mv(A), y: mv(B)}
                    for i in range(3):
                        pts[names[i]] = mv(TRI[i])
                    pts[third] = tuple(3 * u - v for u, v in zip(mv(A), mv((1, 1)))) if A[2] or B[2] else mv((7, -11))
                    sg = Signs(pts)
                    want = expected(exp, x, y, names, left)
                    vec = (tuple(want), signature(tab, sg, fid, args))
                    if vec in seen:
                        continue
                    seen.add(vec)
                    got = tab.evaluate(fid, args, sg)
                    nconf += 1
                    if got is None:
                        return ctx.viol(rule, wg, f'the intersection ends abnormally: {describe(pts)}')
                    if sorted(got) != sorted(want):
                        r = whole(tab, good, pts, third)
                        if r is None:
                            return ctx.und(rule, wg, f'edge {x}{y} against {tri} when {describe(pts)}: expected {names_of(want)}, found {names_of(got)}, '
                                           'but the result as a whole is correct in the positions that were tried')
                        return ctx.viol(rule, wg, f'edge {x}{y} against {tri} when {describe(r[0])}: the intersection is {names_of(r[1])}, found {names_of(r[2])}')
        # no early exit may leave out the edge when it matters
        for dom, cs in calls_of:
            if (fid, args) not in cs:
                ctx.und(rule, w, f'the edge {x}{y} is left out on a path')
                return
        ctx.ok(rule, f'{wg} edge {x}{y}')
    if len(tab.sides) > 1:
        ctx.viol('parts of a point', w, f'what is inserted is not always ordered in the same way: {sorted(tab.sides)}')
    else:
        ctx.ok('parts of a point', w)
    ctx.count('sign combinations', nconf)
    ctx.count('table entries', tab.npaths)


# ---------------------------------------------------------------- all six edges together
def edge_triangle(a, b, tri):
    """Edge ab (a included, b not) against a triangle in any position: [(1 | 3, mask of the triangle)]."""
    p, q, r = tri
    n = cross(minus(q, p), minus(r, p))
    ax = max(range(3), key=lambda i: abs(n[i]))
    flat2 = lambda x: tuple(x[i] for i in range(3) if i != ax)
    sa, sb = dot(n, minus(a, p)), dot(n, minus(b, p))
    tri2 = tuple(flat2(x) for x in tri)
    if sa == 0 and sb == 0:
        a2, b2 = flat2(a), flat2(b)
        exp = []
        loc = location(a2, tri2)
        if loc:
            exp.append((1, loc))
        for i in range(3):
            c = tri2[i]
            if order2d(a2, b2, c) == 0 and min(a2, b2) < c < max(a2, b2):
                exp.append((3, 1 << i))
            d = tri2[(i + 1) % 3]
            if order2d(a2, b2, c) * order2d(a2, b2, d) < 0 and order2d(c, d, a2) * order2d(c, d, b2) < 0:
                exp.append((3, 1 << i | 1 << (i + 1) % 3))
        return exp
    if sa * sb > 0 or sb == 0:
        return []
    if sa == 0:
        x, m = a, 1
    else:
        t = Fraction(sa, sa - sb)
        x, m = tuple(u + t * (v - u) for u, v in zip(a, b)), 3
    loc = location(flat2(x), tri2)
    return [(m, loc)] if loc else []


def minus(u, v):
    return tuple(a - b for a, b in zip(u, v))


def dot(u, v):
    return sum(a * b for a, b in zip(u, v))


def cross(u, v):
    return (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])


def truth(pts):
    """Masks of all corners of the common part of the triangles abc and pqr."""
    out = set()
    for es, ns in (('ab', 'pqr'), ('bc', 'pqr'), ('ca', 'pqr'), ('pq', 'abc'), ('qr', 'abc'), ('rp', 'abc')):
        for e, t in edge_triangle(pts[es[0]], pts[es[1]], [pts[n] for n in ns]):
            m = REG[es[0]] | (REG[es[1]] if e == 3 else 0)
            out.add(m | sum(REG[ns[i]] for i in range(3) if t >> i & 1))
    return sorted(out)


THIRD = [(7, -11, 0), (7, -11, 3), (-5, 2, 1), (1, 1, 0), (1, 1, -2), (-3, 8, 0), (4, 4, 0), (0, 0, 5), (-6, -6, -3), (2, -5, 0), (5, 1, 2),
         (-2, -3, 0), (1, 9, -4), (0, -3, 0), (3, 3, 1), (-1, -1, -1)]


def whole(tab, good, pts, third):
    """A position of both triangles in which what is found differs from their intersection: (points, expected, found)."""
    others = [n for n in ('abc' if third in 'abc' else 'pqr') if n != third]
    for t in [pts[third]] + THIRD:
        q = dict(pts)
        q[third] = t
        if cross(minus(q[others[0]], t), minus(q[others[1]], t)) == (0, 0, 0):
            continue
        sg = Signs(q)
        for o in good:
            if all(holds(c, d, sg) for c, d in o.st.dom.items()):
                break
        else:
            continue
        got = []
        for e in o.ev:
            if e[0] == 'decide':
                r = tab.evaluate(e[1], e[2], sg)
                if r is None:
                    return q, truth(q), []
                got += r
        want = truth(q)
        if sorted(got) != want:
            return q, want, sorted(got)
    return None


def signature(tab, sg, fid, args):
    """The signs of all predicates that the tables of a call refer to."""
    key = ('sig', fid, args)
    ts = tab.memo.get(key)
    if ts is None:
        ts = set()
        todo, done = [(fid, args)], set()
        while todo:
            c = todo.pop()
            if c in done:
                continue
            done.add(c)
            for dom, ems, calls, o in tab.paths(*c):
                for t in dom:
                    atoms(t, ts)
                todo += calls
        ts = tab.memo[key] = sorted(ts, key=okey)
    return tuple(sg(t) for t in ts)


def atoms(t, out):
    if isT(t):
        if t[1] in ('o2', 'o3', 'o4'):
            out.add(t)
            return
        for x in t[2:]:
            atoms(x, out)


def edge_of(c):
    return [BACK[x] for x in c[1] if isT(x) and x in BACK][:2]


def expected(exp, x, y, names, left):
    out = []
    for e, t in exp:
        de = 0 if e == 1 else 1
        dt = bin(t).count('1') - 1
        # every pair is found once: see the comments at the functions
        if de == 1 and dt == 0 or de == dt and not left:
            continue
        m = REG[x] | (REG[y] if e == 3 else 0)
        for i in range(3):
            if t >> i & 1:
                m |= REG[names[i]]
        out.append(m)
    return out


def describe(pts):
    return ', '.join(f'{n}={v}' for n, v in sorted(pts.items()))


def names_of(ms):
    return [''.join(n for n in 'abcpqr' if m & REG[n]) for m in ms]


# ---------------------------------------------------------------- rule 3
HULL, DIM = 'kigumi::convex_hull', 'kigumi::dimension'


def hull_of(v):
    """(element, i, element, j) of convex_hull(x.i, y.j)."""
    if isT(v) and v[1] == 'app' and v[2] == HULL and len(v) == 5:
        a, b = v[3], v[4]
        if isT(a) and isT(b) and a[1] == '.' and b[1] == '.':
            return a[2], a[3], b[2], b[3]
    return None


def own_hull(v):
    """Is v the hull of the two parts of one intersection?  None: not understood."""
    h = hull_of(v)
    if h is None:
        return None
    return h[0] == h[2] and h[1] != h[3]


def order(ctx, p, f, preds):
    rule = 'order of the points'
    w = ctx.where(f)
    tab = Table(ctx, p, preds, f)
    tab.members = members_of(ctx, p, f, preds)
    if len(tab.members) != 1:
        return ctx.und(rule, w, f'the intersections are kept in {sorted(tab.members)}')
    tab.havoc = True
    ai = tab.ai()
    for nm in (DIM, HULL):
        ai.ic[nm] = lambda ai, fn, this, args, node, nm=nm: T('app', nm, *[ai.rval(a) for a in args])
    ai.MAXPATHS = 2000
    outs = ai.explore(lambda: ai.call_fn(f, sym_this(ai, f), [ATOM[n] for n in NAMES]))
    n = 0
    for o in outs:
        if o.kind not in ('norm', 'ret') or not isS(o.val) or o.val[2]:
            return ctx.und(rule, w, f'result {show(o.val)[:200]}')
        for x in o.val[1]:
            if x[0] == 's':
                continue
            if x[0] == '1':
                r = own_hull(x[1])
            elif x[0] == 'g':
                # generated by a loop: over all intersections, without a condition
                _, kap, dom, fam = x[:4]
                fam = list(fam)
                r = None
                if len(fam) == 1 and not fam[0][0] and len(fam[0][1]) == 1 and isT(dom) and dom[1] == 'len' and isT(dom[2]) and dom[2][1] == 'inters':
                    r = own_hull(fam[0][1][0])
            else:
                r = None
            if r is None:
                return ctx.und(rule, w, f'element of the result {show(x)[:200]}')
            if not r:
                return ctx.viol(rule, w, f'a point of the result is {show(x[1] if x[0] == "1" else fam[0][1][0])[:200]}')
            n += 1
        r = walked(ctx, rule, w, o)
        if r is False:
            return
    if not n:
        return ctx.und(rule, w, 'no points in the result')
    ctx.ok(rule, w)


def members_of(ctx, p, f, preds):
    """The member to which the helpers append what they find."""
    tab = Table(ctx, p, preds, f)
    ai = tab.ai()
    outs = ai.explore(lambda: ai.call_fn(f, sym_this(ai, f), [ATOM[n] for n in NAMES]))
    for o in outs:
        for e in o.ev:
            if e[0] == 'decide':
                for c in tab.paths(e[1], e[2]):
                    if c[1] is None or not c[2]:
                        continue
                    for i, a in c[2]:
                        tab.paths(i, a)
        break
    return {m for m in tab.members if any(isinstance(k, tuple) for k in tab.memo)}


def walked(ctx, rule, w, o):
    """The order in which more than two points are visited."""
    for e in every_loop(o.ev):
        lits = set()
        for q in e[4]:
            for t in q['st'].dom:
                x = near(t)
                if x is not None:
                    lits.add(t)
        if lits:
            r = adjacency(ctx, rule, w, e, lits, o)
            if r is False:
                return False
    steps = set()
    for e in every_loop(o.ev):
        for q in e[4]:
            for x in q['ev']:
                if x[0] == 'w' and not x[2] and isinstance(x[3], tuple):
                    r = step(ctx, rule, w, x, q)
                    if r is False:
                        return False
                    steps.add(r)
    if 'any' in steps:
        if True in steps:
            ctx.viol(rule, w, 'whether the next point has been visited is not always taken into account')
        else:
            ctx.und(rule, w, 'points that have been visited')
        return False
    return True


def every_loop(ev):
    for e in ev:
        if e[0] == 'loop':
            yield e
            for q in e[4]:
                yield from every_loop(q['ev'])


def near(t):
    """(element, element, part) if t states that the parts of two intersections span an edge."""
    if isT(t) and t[1] == '==0':
        d, c = lin(t[2])
        if c in (-1, 1) and len(d) == 1:
            (x, k), = d.items()
            if k == -c and isT(x) and x[1] == 'app' and x[2] == DIM and len(x) == 4:
                return hull_of(x[3]) or ()
    return None


def adjacency(ctx, rule, w, e, lits, o):
    """Which pairs are connected: those that lie on one edge of the left or of the right triangle."""
    info = {}
    for t in lits:
        h = near(t)
        if not h:
            return ctx.und(rule, w, f'condition {show(t)[:200]}') or False
        if h[1] != h[3] or h[0] == h[2]:
            ctx.viol(rule, w, f'the points are connected according to {show(t)[:200]}')
            return False
        info[t] = h
    pairs = {frozenset((h[0], h[2])) for h in info.values()}
    parts = {h[1] for h in info.values()}
    if len(pairs) != 1:
        ctx.und(rule, w, 'the conditions are about several pairs')
        return False
    bad = None
    for q in e[4]:
        if any(near(t) is not None for x in every_loop(q['ev']) for r in x[4] for t in r['st'].dom if t not in q['st'].dom):
            return True
        app = [x for x in q['ev'] if x[0] == 'w' and isS(x[3]) and any(s[0] == '1' for s in x[3][1])]
        some = any(d == frozenset((True,)) for t, d in q['st'].dom.items() if t in info)
        allf = {info[t][1] for t, d in q['st'].dom.items() if t in info and d == frozenset((False,))}
        if some and not app:
            bad = 'two points that lie on one edge of a triangle are not connected'
        elif app and not some:
            bad = 'two points are connected without lying on one edge of a triangle'
        elif not app and not some and len(allf) < 2 and q['kind'] == 'norm':
            bad = f'two points are only connected if they lie on an edge of one of the triangles (part {sorted(map(str, parts))})'
        for x in app:
            v = [s[1] for s in x[3][1] if s[0] == '1'][-1]
            ix = {y[3] for y in next(iter(pairs)) if isT(y) and y[1] == 'at'}
            if isR(v):
                got = {y for _, y in v[3]}
                if len(ix) == 2 and got != ix:
                    ctx.und(rule, w, f'the connection {show(v)[:200]}')
                    return False
    if bad:
        ctx.viol(rule, w, bad)
        return False
    # all pairs
    pr = [x for x in next(iter(pairs)) if isT(x) and x[1] == 'at']
    outer = next((x for x in every_loop(o.ev) if any(y is e for q in x[4] for y in q['ev'])), None)
    if len(pr) == 2 and outer is not None and e[3] is not None and outer[3] is not None and pr[0][2] == pr[1][2]:
        n, k1, k2 = T('len', pr[0][2]), outer[2], e[2]
        lo = [x[3] for x in pr if sub_eq(x[3], k1)]
        hi = [x[3] for x in pr if not sub_eq(x[3], k1)]
        if len(lo) == 1 and len(hi) == 1:
            c = sub(sub(hi[0], k1), k2)
            end = sub(add(add(k1, c), e[3]), n)
            last = sub(outer[3], n)
            if isnum(c) and isnum(end) and isnum(last) and (c != 1 and c != 0 or end != 0 or last < -1):
                ctx.viol(rule, w, f'not all pairs are compared: the second one runs from +{c} to the number of points {end:+}, the first one to {last:+}')
                return False
    return True


def step(ctx, rule, w, x, q):
    """A step from one point to the next one: to the other end of a connection, and not to a point that was visited."""
    new = x[3]
    eqs = []
    for t, d in q['st'].dom.items():
        if isT(t) and t[1] == '==0' and d == frozenset((True,)):
            dd, c = lin(t[2])
            if c == 0 and len(dd) == 2 and sorted(dd.values()) == [-1, 1]:
                hv = [y for y in dd if isT(y) and y[1] == 'hv' and str(y[3]) == str(x[1])]
                if len(hv) == 1:
                    eqs += [y for y in dd if y != hv[0]]
    if not eqs:
        return None
    if not (isT(new) or isinstance(new, tuple)):
        return None
    if new in eqs:
        ctx.viol(rule, w, 'the next point is the point itself')
        return False
    vis = [(t, d) for t, d in q['st'].dom.items() if isT(t) and t[1] == 'at' and isT(t[2]) and t[2][1] == 'hvs']
    if any(t[3] == new and d == frozenset((False,)) for t, d in vis):
        return True
    if any(t[3] == new and d == frozenset((True,)) for t, d in vis):
        ctx.viol(rule, w, 'the next point is one that has been visited')
        return False
    return 'any'


# ---------------------------------------------------------------- rule 4
def positions(limit):
    """Pairs of triangles whose common parts have different sets of corners: in one plane, and not."""
    seen, x = {}, 12345
    pts = [(u, v) for u in range(-2, 7) for v in range(-2, 7)]
    for n in range(6000):
        t = []
        flat = n % 3 != 0
        for i in range(6):
            x = (x * 1103515245 + 12345) & 0x7fffffff
            u, v = pts[(x >> 8) % len(pts)]
            t.append((u, v, 0 if flat else (0, 1, -1, 2)[(x >> 20) % 4]))
        # the projections are not degenerate
        if not order2d(*t[:3]) or not order2d(*t[3:]) or sorted(t[:3]) == sorted(t[3:]):
            continue
        q = dict(zip(NAMES, t))
        want = tuple(truth(q))
        key = (flat, len(want), want)
        if (want or not flat) and key not in seen:
            seen[key] = q
    out, num = [], {}
    for (fl, k, w), q in sorted(seen.items(), key=lambda e: (e[0][0], -e[0][1], e[0][2])):
        num[fl, k] = num.get((fl, k), 0) + 1
        if num[fl, k] <= limit:
            out.append((q, list(w)))
    return out


def corners(ctx, p, f, preds):
    """The function is interpreted with the signs of given points: every corner of the common part once, and in the order of the polygon."""
    rule = 'corners of the common part'
    w = ctx.where(f)
    pid = {g['id'] for g in preds}
    n = 0
    deep = True
    for pts, want in positions(12 if ctx.tier == 'quick' else 60):
        def value(a):
            c = [pts[NAMES[i]] for i in a]
            if len(a) == 4:
                return sgn(det3(minus(c[1], c[0]), minus(c[2], c[0]), minus(c[3], c[0])))
            if len(a) == 3:
                return order2d(*[x[:2] for x in c])
            return (c[0] > c[1]) - (c[0] < c[1])

        def orient(ai, fn, this, args, node):
            a = [ai.rval(x) for x in args]
            if fn['id'] not in pid:
                return NotImplemented
            if not all(isinstance(i, int) and 0 <= i < 6 for i in a):
                raise Unsupported('the points of a predicate')
            return value(a)

        def cgal(n):
            def h(ai, fn, this, args, node):
                a = [ai.key(ai.rval(x)) for x in args]
                a = [x[3] if isT(x) and x[1] == 'at' else None for x in a]
                a = [idx(x) if isR(x) else x for x in a]
                if not all(isinstance(i, int) and 0 <= i < 6 for i in a) or len(a) != n:
                    raise Unsupported('the points of a predicate')
                return value(a)
            return h
        ai = ctx.ai(intercepts={k: cgal(n) for k, n in KNOWN.items()} if deep else {g['b']: orient for g in preds}, steps=2000000)
        try:
            outs = ai.explore(lambda: ai.call_fn(f, sym_this(ai, f), list(range(6))))
        except Unsupported:
            outs = []
        if len(outs) != 1 and deep:
            # the predicates of the program are replaced instead of those of CGAL
            deep = False
            ai = ctx.ai(intercepts={g['b']: orient for g in preds}, steps=2000000)
            outs = ai.explore(lambda: ai.call_fn(f, sym_this(ai, f), list(range(6))))
        if len(outs) != 1:
            return ctx.und(rule, w, f'{len(outs)} paths: {[show(t)[:200] for t in list(outs[0].st.dom)[:2]]}')
        o = outs[0]
        txt = f'when {describe(pts)}'
        if o.kind not in ('norm', 'ret'):
            return ctx.viol(rule, w, f'{o.kind} {show(o.val)[:150]} {txt}', key='error')
        v = o.val
        if not isS(v) or v[2] or not all(x[0] == '1' and isnum(x[1]) for x in v[1]):
            return ctx.und(rule, w, f'result {show(v)[:200]}')
        got = [x[1] for x in v[1]]
        if sorted(got) != sorted(want):
            return ctx.viol(rule, w, f'the corners are {want}, found {got} (masks of the corners of both triangles) {txt}', key='corners')
        if len(got) > 2:
            for a, b in zip(got, got[1:] + got[:1]):
                m = a | b
                if bin(m & 7).count('1') > 2 and bin(m >> 3).count('1') > 2:
                    return ctx.viol(rule, w, f'the corners {got} (masks) are not in the order of the polygon: {a} and {b} do not lie on a common edge {txt}', key='order')
        n += 1
    ctx.ok(rule, w)
    ctx.count('positions of two triangles', n)


# ---------------------------------------------------------------- rule 5
def regions(ctx, p):
    """The functions about regions are tabulated over all values of the enumeration."""
    rule = 'regions of a triangle'
    simplices = [m << s for s in (0, 3) for m in (1, 2, 4, 3, 6, 5, 7)]
    bits = lambda m: frozenset(1 << i for i in range(6) if m >> i & 1)
    dimn = lambda m: bin(m).count('1') - 1
    for nm, dom, want in (
            ('kigumi::dimension', [(m,) for m in simplices], lambda m: dimn(m)),
            ('kigumi::is_left_region', [(m,) for m in simplices], lambda m: m < 8),
            ('kigumi::convex_hull', [(a, b) for a in simplices for b in simplices], lambda a, b: a | b),
            ('kigumi::intersection', [(a, b) for a in simplices for b in simplices], lambda a, b: a & b),
            ('kigumi::edge_vertices', [(m,) for m in simplices if dimn(m) == 1], lambda m: sorted(bits(m))),
            ('kigumi::face_vertices', [(m,) for m in simplices if dimn(m) == 2], lambda m: sorted(bits(m))),
            ('kigumi::face_edges', [(m,) for m in simplices if dimn(m) == 2], lambda m: sorted(m & ~b for b in bits(m)))):
        for f in p.find(nm):
            if not all('Triangle_region' in p.tname(x['t']) for x in f['params']):
                continue
            ctx.guarded(rule, f, lambda: table_of(ctx, p, rule, f, dom, want))


def table_of(ctx, p, rule, f, dom, want):
    w = ctx.where(f)
    ai = ctx.ai()
    for args in dom:
        outs = ai.explore(lambda: ai.call_fn(f, None, list(args)))
        if len(outs) != 1:
            return ctx.und(rule, w, f'value at {args}')
        o = outs[0]
        v = o.val
        if o.kind == 'throw':
            return ctx.viol(rule, w, f'refuses the region {args}')
        if isR(v):
            v = sorted(x for _, x in v[3])
        x = want(*args)
        if not (isnum(v) or isinstance(v, (bool, list))):
            return ctx.und(rule, w, f'value at {args}: {show(v)[:100]}')
        if v != x:
            return ctx.viol(rule, w, f'value at {args}: {v} instead of {x}')
    ctx.analysed.add(w)
    ctx.ok(rule, w)
