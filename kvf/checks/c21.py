"""Soups, meshes, point lists and regions keep what is put into them."""
from framework import *
from spec import idx, mk_index
from checks.c20 import holds

EXPLANATION = (
    'Every member of the containers is explored by abstract interpretation on a symbolic object: the members that hold vertices, faces and data are '
    'identified by the accessors that read them, and the state after each mutator, constructor and assignment is compared with the state before it. '
    'Comparisons of numbers are tabulated over all orders.')
ASSUMPTIONS = ['the containers of the standard library and of boost', 'CGAL refines an approximation to the same interval for equal points']

K = 'kigumi::'


def run(ctx):
    p = ctx.prog()
    for c in ('Triangle_soup', 'Triangle_mesh'):
        for cls in sorted({f['cls'] for f in p.fns.values() if f.get('cls') and base(f['cls']) == K + c}):
            f = method(p, cls, 'point')
            ctx.guarded('what is put in is kept', f or cls, lambda: container(ctx, p, cls, f))
    for r in {r['qn']: r for r in p.records.values()}.values():
        if r['b'].startswith(K):
            for f in [g for g in p.fns.values() if g.get('cls') == r['qn'] and g.get('sp') in ('copyctor', 'movector', 'copyassign', 'moveassign')
                      and (g.get('body') or g.get('inits'))]:
                ctx.guarded('copies are equal', f, lambda: special(ctx, p, r, f))
    for f in p.find(K + 'Triangle_mesh::take_triangle_soup'):
        ctx.guarded('what is taken out is what was put in', f, lambda: take(ctx, p, f))
    for n in ('==', '!=', '<', '<=', '>', '>='):
        for f in p.find(K + 'Index::operator' + n):
            ctx.guarded('numbers are compared and counted', f, lambda: compare(ctx, p, f, n))
    for n in ('++', '--', '+='):
        for f in p.find(K + 'Index::operator' + n):
            ctx.guarded('numbers are compared and counted', f, lambda: step(ctx, p, f, n))
    for f in p.find(K + 'Index::is_valid'):
        ctx.guarded('numbers are compared and counted', f, lambda: valid(ctx, p, f))
    for c in ('Vertex_iterator', 'Face_iterator'):
        f = ctx.fn(K + c + '::dereference')
        ctx.guarded('iterators visit every number once', f, lambda: iterator(ctx, p, c, f))
    f = ctx.fn(K + 'make_edge')
    ctx.guarded('an edge has one name', f, lambda: edge(ctx, p, f))
    for f in p.find(K + 'Point_3_hash::operator()'):
        ctx.guarded('equal points have equal hashes', f, lambda: point_hash(ctx, p, f))
    pl = sorted({f['cls'] for f in p.fns.values() if f.get('cls') and base(f['cls']) == K + 'Point_list'})
    for cls in pl:
        f = method(p, cls, 'at')
        ctx.guarded('a point list numbers points', f or cls, lambda: point_list(ctx, p, cls, f))
    for cls in sorted({f['cls'] for f in p.fns.values() if f.get('cls') and base(f['cls']) == K + 'Region'}):
        f = method(p, cls, 'boundary')
        ctx.guarded('regions', f or cls, lambda: region(ctx, p, cls, f))


def method(p, cls, name, pred=None):
    for f in p.fns.values():
        if f.get('cls') == cls and f['b'].rsplit('::', 1)[-1] == name and (f.get('body') or f.get('inits')) and (pred is None or pred(f)):
            return f
    return None


def strip(v):
    """The number inside an index or an iterator."""
    while isR(v) and len(v[3]) == 1:
        v = v[3][0][1]
    if isR(v):
        return idx(v)
    return v


def field_read(ctx, p, f):
    """The member that an accessor with a number reads: (member, what is used as the number)."""
    ai = ctx.ai()
    n = [T('atom', 'n%d' % i) for i in range(len(f['params']))]
    outs = ai.explore(lambda: ai.call_fn(f, sym_this(ai, f), [mk_index(x) for x in n]))
    if len(outs) != 1 or outs[0].kind not in ('norm', 'ret'):
        return None
    v = outs[0].val
    if isinstance(v, tuple) and v and v[0] == '&' and len(v[2]) == 2 and v[2][0][0] == 'f' and v[2][1][0] == 'i':
        return v[2][0][1], v[2][1][1], n[0]
    if isT(v) and v[1] == 'at' and isT(v[2]) and v[2][1] == '.':
        return v[2][3], v[3], n[0]
    return None


def state(ai, this, fields):
    return {n: ai.rval(('&', this[1], (('f', n),))) for n in fields}


def appended(v, old):
    """The elements that were added at the end of a sequence, None if it is something else."""
    if v == old:
        return []
    if isS(v) and v[1] and v[1][0] == ('s', old) and not v[2] and all(x[0] == '1' for x in v[1][1:]):
        return [x[1] for x in v[1][1:]]
    return None


def container(ctx, p, cls, fpoint):
    short = base(cls).replace(K, '')
    acc = {}
    names = {}
    for n in ('point', 'face', 'data'):
        fs = [f for f in p.fns.values() if f.get('cls') == cls and f['b'].rsplit('::', 1)[-1] == n and f.get('body') and len(f['params']) == 1]
        for f in fs:
            w = ctx.where(f)
            rule = 'what is put in is kept'
            r = field_read(ctx, p, f)
            if r is None:
                return ctx.und(rule, w, 'accessor')
            if r[1] != r[2]:
                return ctx.viol(rule, w, f'{n}(i) reads the element {show(r[1])} of {r[0]}')
            acc.setdefault(n, set()).add(r[0])
            ctx.ok(rule, w)
    if any(len(s) != 1 for s in acc.values()) or len(acc) != 3:
        return ctx.und('what is put in is kept', cls, f'members {acc}')
    names = {n: next(iter(s)) for n, s in acc.items()}
    rec = next((r for r in p.records.values() if r['qn'] == cls), None)
    fields = [x['n'] for x in rec['fields'] if not x.get('mut')] if rec else list(names.values())
    old = {n: T('.', T('atom', 'this'), n) for n in fields}

    # the mutators
    for n, want in (('add_vertex', 'point'), ('add_face', 'face')):
        f = method(p, cls, n)
        rule = 'what is put in is kept'
        w = ctx.where(f)
        if f is None:
            continue
        ai = ctx.ai()

        def go():
            this = sym_this(ai, f)
            a = sym_args(ai, f)
            v = ai.rval(a[0])
            r = ai.rval(ai.call_fn(f, this, a))
            return ('res', strip(r), v, state(ai, this, fields))
        for o in ai.explore(go):
            if o.kind not in ('norm', 'ret'):
                return ctx.viol(rule, w, f'{short}::{n} ends with {o.kind}')
            _, r, v, st = o.val
            new = {x: appended(st[x], old[x]) for x in fields}
            if any(x is None for x in new.values()):
                return ctx.viol(rule, w, f'{short}::{n} changes {[x for x in fields if new[x] is None]} otherwise than by adding an element')
            if len(new[names[want]]) != 1 or new[names[want]][0] not in (v, ai.key(v)) and not copy_of(new[names[want]][0], v):
                return ctx.viol(rule, w, f'{short}::{n}(x) adds {[show(x) for x in new[names[want]]]} to {names[want]}')
            if r != T('len', old[names[want]]):
                return ctx.viol(rule, w, f'{short}::{n} returns {show(r)} instead of the number of the new element')
            nd = len(new[names['data']])
            if want == 'face' and nd != 1:
                return ctx.viol(rule, w, f'{nd} data for a new face')
            extra = [x for x in fields if new[x] and x != names[want] and not (want == 'face' and x == names['data'])]
            if extra:
                return ctx.viol(rule, w, f'{short}::{n} also adds to {extra}')
            if want == 'face' and not fresh(new[names['data']][0]):
                return ctx.viol(rule, w, f'the data of a new face is {show(new[names["data"]][0])[:200]}')
        ctx.ok(rule, w)
        ctx.analysed.add(w)

    # sizes and ranges
    for n, want in (('num_vertices', 'point'), ('num_faces', 'face'), ('vertices', 'point'), ('faces', 'face'), ('vertices_begin', None),
                    ('faces_begin', None), ('vertices_end', 'point'), ('faces_end', 'face')):
        f = method(p, cls, n)
        rule = 'iterators visit every number once'
        if f is None:
            continue
        w = ctx.where(f)
        ai = ctx.ai()
        size = T('len', old[names[want]]) if want else 0
        for o in ai.explore(lambda: ai.call_fn(f, sym_this(ai, f), [])):
            v = o.val
            if isR(v) and v[2] == 'range':
                d = dict(v[3])
                if strip(d['b']) != 0 or strip(d['e']) != size:
                    return ctx.viol(rule, w, f'{short}::{n} goes from {show(strip(d["b"]))} to {show(strip(d["e"]))}')
            elif strip(v) != size:
                return ctx.viol(rule, w, f'{short}::{n} is {show(strip(v))}')
        ctx.ok(rule, w)

    f = method(p, cls, 'triangle')
    if f is not None:
        rule = 'what is put in is kept'
        w = ctx.where(f)
        ai = ctx.ai()
        i = T('atom', 'i')
        corner = lambda k: T('at', old[names['point']], T('.', T('at', T('at', old[names['face']], i), k), 'i_'))
        for o in ai.explore(lambda: ai.call_fn(f, sym_this(ai, f), [mk_index(i)])):
            v = o.val
            a = [x for x in v[2:] if isT(x)] if isT(v) and v[1] == 'ctor' else None
            if a is None or len(a) != 3:
                return ctx.und(rule, w, show(v)[:200])
            want = [corner(k) for k in range(3)]
            if a not in (want, want[1:] + want[:1], want[2:] + want[:2]):
                return ctx.viol(rule, w, f'the corners of the triangle are {[show(x) for x in a]}')
        ctx.ok(rule, w)

    # from three sequences
    for f in p.fns.values():
        if f.get('cls') == cls and f.get('sp') == 'ctor' and len(f['params']) == 3:
            rule = 'what is put in is kept'
            w = ctx.where(f)
            ai = ctx.ai()

            def go():
                a = sym_args(ai, f)
                r = ai.rval(ai.construct_repo(f, a, None))
                return ('res', [ai.rval(x) for x in a], dict(r[3]))
            for o in ai.explore(go):
                _, a, d = o.val
                want = dict(zip((names['point'], names['face'], names['data']), a))
                bad = [x for x in want if d.get(x) != want[x]]
                if bad:
                    return ctx.viol(rule, w, f'{bad[0]} is {show(d.get(bad[0]))[:100]} instead of {show(want[bad[0]])}')
            ctx.ok(rule, w)
    f = method(p, cls, 'bbox')


def copy_of(x, v):
    return isT(x) and x[1] == 'ctor' and len(x) == 4 and x[3] == v


def fresh(v):
    """A value made without anything that exists already."""
    if isR(v):
        return (v[1] is None) and all(fresh(x) for _, x in v[3])
    if isT(v):
        return v[1] in ('new', 'default', 'ctor') and all(not isinstance(x, tuple) or fresh(x) for x in v[2:])
    return isnum(v) or v is None or isinstance(v, (bool, str))


# ---------------------------------------------------------------- copying and moving
def special(ctx, p, r, f):
    rule = 'copies are equal'
    w = ctx.where(f)
    what = {'copyctor': 'copy', 'movector': 'moved object', 'copyassign': 'copy', 'moveassign': 'moved object'}[f['sp']]
    fields = [x for x in r['fields'] if not x.get('mut')]
    names = [x['n'] for x in fields]
    ai = ctx.ai()
    ctor = f['sp'] in ('copyctor', 'movector')

    def go():
        o = ai.newcell('other', R(T('atom', 'other'), base(f['cls'])))
        if ctor:
            v = ai.rval(ai.construct_repo(f, [('&', o, ())], None))
            d = dict(v[3])
            return ('res', None, None, {n: d.get(n, T('.', v[1], n) if v[1] is not None else None) for n in names})
        this = sym_this(ai, f)
        x = ai.call_fn(f, this, [('&', o, ())])
        same = next((d for t, d in ai.st.dom.items() if isT(t) and t[1] == '==' and 'other' in show(t) and 'this' in show(t)), None)
        return ('res', x == this, same == frozenset([True]), state(ai, this, names))
    for o in ai.explore(go):
        if o.kind not in ('norm', 'ret'):
            return ctx.viol(rule, w, f'ends with {o.kind}')
        _, ret, same, st = o.val
        if ret is False:
            return ctx.viol(rule, w, 'an assignment that returns another object')
        for n in names:
            want = T('.', T('atom', 'this' if same else 'other'), n)
            if st[n] != want:
                if same and st[n] == T('.', T('atom', 'other'), n):
                    continue
                if isT(st[n]) and st[n][1] not in ('.', 'new', 'default') and 'other' in show(st[n]):
                    return ctx.und(rule, w, f'{n} = {show(st[n])[:200]}')
                return ctx.viol(rule, w, f'{n} of the {what} is {show(st[n])[:100]}')
    if f['sp'] == 'copyassign':
        ai = ctx.ai()

        def go():
            this = sym_this(ai, f)
            ai.call_fn(f, this, [this])
            return ('res', state(ai, this, names))
        for o in ai.explore(go):
            for n in names:
                if o.val[1][n] != T('.', T('atom', 'this'), n):
                    return ctx.viol(rule, w, f'{n} is {show(o.val[1][n])[:100]} after an object was assigned to itself')
    ctx.ok(rule, w)
    ctx.count('constructors and assignments')
    ctx.analysed.add(w)


def R(sym, cls):
    return ('R', sym, cls, ())


def take(ctx, p, f):
    rule = 'what is taken out is what was put in'
    w = ctx.where(f)
    ai = ctx.ai()
    cls = base(f['cls'])
    src = {n: field_read(ctx, p, next(g for g in p.fns.values() if g.get('cls') == f['cls'] and g['b'] == f'{cls}::{n}' and g.get('body')))
           for n in ('point', 'face', 'data')}
    for o in ai.explore(lambda: ai.rval(ai.call_fn(f, sym_this(ai, f), []))):
        v = o.val
        if not isR(v):
            return ctx.und(rule, w, show(v)[:200])
        targ = next((g for g in p.fns.values() if g.get('cls') and base(g['cls']) == v[2] and g['b'] == v[2] + '::point' and g.get('body')), None)
        d = dict(v[3])
        for n in ('point', 'face', 'data'):
            g = next((g for g in p.fns.values() if g.get('cls') == (targ or {}).get('cls') and g['b'] == f'{v[2]}::{n}' and g.get('body')), None)
            r = field_read(ctx, p, g) if g else None
            if r is None or src[n] is None:
                return ctx.und(rule, w, n)
            want = T('.', T('atom', 'this'), src[n][0])
            if d.get(r[0]) != want:
                return ctx.viol(rule, w, f'{r[0]} is {show(d.get(r[0]))[:100]} instead of {src[n][0]}')
    ctx.ok(rule, w)


# ---------------------------------------------------------------- numbers and iterators
def number_of(p, f):
    return method(p, f['cls'], 'idx')


def compare(ctx, p, f, op):
    rule = 'numbers are compared and counted'
    w = ctx.where(f)
    ai = ctx.ai()
    g = number_of(p, f)

    def go():
        a = sym_this(ai, f)
        b = sym_args(ai, f)
        return ('res', ai.rval(ai.call_fn(g, a, [])), ai.rval(ai.call_fn(g, lv(ai, b[0]), [])), ai.truth(ai.rval(ai.call_fn(f, a, b))))
    outs = ai.explore(go)
    want = {'==': lambda d: d == 0, '!=': lambda d: d != 0, '<': lambda d: d < 0, '<=': lambda d: d <= 0, '>': lambda d: d > 0, '>=': lambda d: d >= 0}[op]
    for d in (-2, -1, 0, 1, 2):
        hit = set()
        for o in outs:
            _, i, j, v = o.val
            if all(holds(t, s, {i: 5 + d, j: 5}) for t, s in o.st.dom.items()):
                hit.add(v)
        if hit != {want(d)}:
            if len(hit) != 1:
                return ctx.und(rule, w, f'{hit}')
            return ctx.viol(rule, w, f'{5 + d} {op} 5 is {next(iter(hit))}')
    ctx.ok(rule, w)


def lv(ai, v):
    return v if isinstance(v, tuple) and v and v[0] == '&' else ('&', ai.newcell('tmp', v), ())


def step(ctx, p, f, op):
    rule = 'numbers are compared and counted'
    w = ctx.where(f)
    ai = ctx.ai()
    g = number_of(p, f)
    post = len(f['params']) == 1 and op in ('++', '--')

    def go():
        a = sym_this(ai, f)
        i = ai.rval(ai.call_fn(g, a, []))
        b = [1] if post else sym_args(ai, f)
        r = ai.rval(ai.call_fn(f, a, b))
        return ('res', i, ai.rval(ai.call_fn(g, a, [])), ai.rval(ai.call_fn(g, lv(ai, r), [])), ai.rval(b[0]) if b else None)
    for o in ai.explore(go):
        _, i, j, r, n = o.val
        d = {'++': 1, '--': -1}.get(op)
        want = sum_of(i, d if d is not None else n)
        if not eq(j, want):
            return ctx.viol(rule, w, f'{op} makes {show(j)} of {show(i)}')
        if not eq(r, i if post else want):
            return ctx.viol(rule, w, f'{op} returns {show(r)}')
    ctx.ok(rule, w)


def sum_of(a, b):
    da, ca = lin(a)
    db, cb = lin(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + v
    return ({k: v for k, v in d.items() if v}, ca + cb)


def eq(a, want):
    w = want if isinstance(want, tuple) and len(want) == 2 and isinstance(want[0], dict) else lin(want)
    d, c = lin(a)
    return ({k: v for k, v in d.items() if v}, c) == ({k: v for k, v in dict(w[0]).items() if v}, w[1])


def valid(ctx, p, f):
    rule = 'numbers are compared and counted'
    w = ctx.where(f)
    ai = ctx.ai()
    g = number_of(p, f)

    def go():
        a = sym_this(ai, f)
        return ('res', ai.rval(ai.call_fn(g, a, [])), ai.truth(ai.rval(ai.call_fn(f, a, []))))
    outs = ai.explore(go)
    top = 2 ** 64 - 1
    for x, want in ((0, True), (1, True), (2 ** 31, True), (2 ** 32 - 1, True), (top - 1, True), (top, False)):
        hit = {o.val[2] for o in outs if all(holds(t, s, {o.val[1]: x}) for t, s in o.st.dom.items())}
        if hit != {want}:
            if len(hit) != 1:
                return ctx.und(rule, w, f'{hit}')
            return ctx.viol(rule, w, f'{x} is {"valid" if not want else "not valid"}')
    ctx.ok(rule, w)


def iterator(ctx, p, c, f):
    rule = 'iterators visit every number once'
    cls = f['cls']
    w = ctx.where(f)
    mk = lambda ai, n: ('&', ai.newcell(n, R(T('atom', n), base(cls))), ())
    at = lambda ai, it: idx(ai.rval(ai.call_fn(f, it, [])))
    for n, args, want in (('increment', (), 1), ('decrement', (), -1), ('advance', ('n',), None)):
        g = method(p, cls, n)
        if g is None:
            continue
        ai = ctx.ai()

        def go():
            it = mk(ai, 'a')
            x = at(ai, it)
            a = [T('atom', y) for y in args]
            ai.call_fn(g, it, a)
            return ('res', x, at(ai, it), a)
        for o in ai.explore(go):
            _, x, y, a = o.val
            if not eq(y, sum_of(x, want if want is not None else a[0])):
                return ctx.viol(rule, ctx.where(g), f'{c}::{n} goes from {show(x)} to {show(y)}')
        ctx.ok(rule, ctx.where(g))
    g = method(p, cls, 'distance_to')
    if g is not None:
        ai = ctx.ai()

        def go():
            a, b = mk(ai, 'a'), mk(ai, 'b')
            return ('res', at(ai, a), at(ai, b), ai.rval(ai.call_fn(g, a, [b])))
        for o in ai.explore(go):
            _, x, y, v = o.val
            if not eq(sum0(x, v), lin(y)):
                return ctx.viol(rule, ctx.where(g), f'the distance from {show(x)} to {show(y)} is {show(v)}')
        ctx.ok(rule, ctx.where(g))
    g = method(p, cls, 'equal')
    if g is not None:
        ai = ctx.ai()

        def go():
            a, b = mk(ai, 'a'), mk(ai, 'b')
            return ('res', at(ai, a), at(ai, b), ai.truth(ai.rval(ai.call_fn(g, a, [b]))))
        outs = ai.explore(go)
        for d in (-1, 0, 1):
            hit = {o.val[3] for o in outs if all(holds(t, s, {o.val[1]: 5 + d, o.val[2]: 5}) for t, s in o.st.dom.items())}
            if hit != {d == 0}:
                if len(hit) != 1:
                    return ctx.und(rule, ctx.where(g), f'{hit}')
                return ctx.viol(rule, ctx.where(g), f'{c}::equal is {hit.pop()} for {5 + d} and 5')
        ctx.ok(rule, ctx.where(g))
    ctx.ok(rule, w)


def sum0(a, b):
    d, c = sum_of(a, b)
    r = c
    from absint import add
    for k, v in d.items():
        for _ in range(abs(v)):
            r = add(r, k if v > 0 else neg(k))
    return r


def neg(k):
    from absint import sub
    return sub(0, k)


def edge(ctx, p, f):
    rule = 'an edge has one name'
    w = ctx.where(f)
    ai = ctx.ai()
    a, b = T('atom', 'a'), T('atom', 'b')
    outs = ai.explore(lambda: ai.rval(ai.call_fn(f, None, [mk_index(a), mk_index(b)])))
    for x, y in ((0, 1), (1, 0), (3, 3)):
        hit = []
        for o in outs:
            if all(holds(t, s, {a: x, b: y}) for t, s in o.st.dom.items()):
                e = [strip(v[1]) for v in o.val[1]] if isS(o.val) else [strip(v) for _, v in o.val[3]]
                hit.append([{a: x, b: y}.get(v, v) for v in e])
        if len(hit) != 1 or any(not isnum(v) for v in hit[0]):
            return ctx.und(rule, w, f'{hit}')
        if hit[0] != sorted((x, y)):
            return ctx.viol(rule, w, f'the edge from {x} to {y} is named {hit[0]}')
    ctx.ok(rule, w)


def point_hash(ctx, p, f):
    rule = 'equal points have equal hashes'
    w = ctx.where(f)
    ai = ctx.ai()
    n = 0
    for o in ai.explore(lambda: ai.call_fn(f, sym_this(ai, f), sym_args(ai, f))):
        exact = False
        point = {t[3] for t, d in o.st.dom.items() if isT(t) and t[1] == 'app' and str(t[2]).endswith('::is_point') and d == frozenset([True])}
        seen = set()
        for e in o.ev:
            if e[0] != 'pure':
                continue
            if e[1].endswith('::exact'):
                exact = True
            elif e[1].rsplit('::', 1)[-1] in ('inf', 'sup', 'lower', 'upper'):
                seen.add(e[2])
                if not exact and e[2] not in point:
                    return ctx.viol(rule, w, f'the hash depends on an approximation: {show(e[2])[-120:]} is neither exact nor a point')
        n += len(seen)
    if not n:
        return ctx.und(rule, w, 'no coordinates')
    ctx.count('uses of coordinates in hashes', n)
    ctx.ok(rule, w)


# ---------------------------------------------------------------- point lists
def point_list(ctx, p, cls, fat):
    rule = 'a point list numbers points'
    r = field_read(ctx, p, fat) if fat else None
    if r is None:
        return ctx.und(rule, cls, 'at')
    ai = ctx.ai()
    i = T('atom', 'i')
    fld = r[0]
    w = ctx.where(fat)
    # at(i) takes a number itself
    outs = ai.explore(lambda: ai.call_fn(fat, sym_this(ai, fat), [i]))
    for o in outs:
        v = o.val
        if not (isinstance(v, tuple) and v[0] == '&' and v[2] == (('f', fld), ('i', i))):
            return ctx.viol(rule, w, f'at(i) is {show(v)[:100]}')
    old = T('.', T('atom', 'this'), fld)
    g = method(p, cls, 'size')
    if g is not None:
        for o in ai.explore(lambda: ai.call_fn(g, sym_this(ai, g), [])):
            if o.val != T('len', old):
                return ctx.viol(rule, ctx.where(g), f'the size is {show(o.val)[:100]}')
    g = method(p, cls, 'take_points')
    if g is not None:
        for o in ai.explore(lambda: ai.rval(ai.call_fn(g, sym_this(ai, g), []))):
            if o.val != old:
                return ctx.viol(rule, ctx.where(g), f'take_points gives {show(o.val)[:100]}')
    rec = next((x for x in p.records.values() if x['qn'] == cls), None)
    flag = next((x['n'] for x in rec['fields'] if p.ty(x['t']).get('s') == 'bool'), None) if rec else None
    for f in p.fns.values():
        if f.get('cls') != cls or f['b'].rsplit('::', 1)[-1] != 'insert' or not f.get('body'):
            continue
        w = ctx.where(f)
        ai = ctx.ai()

        def go():
            this = sym_this(ai, f)
            a = sym_args(ai, f)
            v = ai.rval(a[0])
            return ('res', ai.rval(ai.call_fn(f, this, a)), v, state(ai, this, [fld])[fld])
        kinds = set()
        for o in ai.explore(go):
            if o.kind not in ('norm', 'ret'):
                return ctx.viol(rule, w, f'ends with {o.kind}')
            _, res, v, new = o.val
            add = appended(new, old)
            if add is None:
                return ctx.viol(rule, w, 'known points are changed')
            has = [(t, d) for t, d in o.st.dom.items() if isT(t) and t[1] == '?has']
            known = [d for t, d in has if t[3] == ai.key(v) or t[3] == v]
            if has and not known:
                return ctx.viol(rule, w, f'another point is looked for: {show(has[0][0])[:150]}')
            uniq = next((d for t, d in o.st.dom.items() if t == T('.', T('atom', 'this'), flag)), None)
            if known and known[0] == frozenset([True]):
                kinds.add('known')
                if add or not (isT(res) and res[1] == 'val'):
                    return ctx.viol(rule, w, 'a point that is known gets another number')
                continue
            if len(add) != 1 or add[0] != v and not copy_of(add[0], v):
                return ctx.viol(rule, w, f'{[show(x) for x in add]} is added instead of the point')
            if res != T('len', old):
                return ctx.viol(rule, w, f'the number of a new point is {show(res)[:100]}')
            if known:
                kinds.add('new')
                st = [e for e in o.ev if e[0] in ('mapins', 'w')]
                ins = [e for e in o.ev if e[0] == 'mapins']
                if ins and not any(e[0] == 'w' and isinstance(e[3], tuple) and e[3] and e[3][0] == 'M' and
                                   any(x[0] in (v, ai.key(v)) and x[1] == res for x in e[3][2]) for e in st):
                    return ctx.viol(rule, w, 'the number of a new point is not remembered')
            elif uniq == frozenset([True]):
                return ctx.viol(rule, w, 'points are not compared although they should')
            else:
                kinds.add('unchecked')
        ctx.check({'known', 'new'} <= kinds, rule, w, f'only {sorted(kinds)}')
    for n, want in (('start_uniqueness_check', True), ('stop_uniqueness_check', False)):
        f = method(p, cls, n)
        if f is None or flag is None:
            continue
        ai = ctx.ai()

        def go():
            this = sym_this(ai, f)
            ai.call_fn(f, this, [])
            return ('res', state(ai, this, [flag, fld]))
        for o in ai.explore(go):
            if o.val[1][flag] is not want or o.val[1][fld] != old:
                return ctx.viol(rule, ctx.where(f), f'{n} leaves {flag} = {show(o.val[1][flag])}')
        ctx.ok(rule, ctx.where(f))


# ---------------------------------------------------------------- regions
def region(ctx, p, cls, fb):
    rule = 'regions'
    from spec import enum_vals
    kinds = enum_vals(p, K + 'Region_kind')
    if not kinds or set(kinds) != {'EMPTY', 'FULL', 'BOUNDARY_DEFINED'}:
        return ctx.und(rule, cls, 'kinds')
    side = {}
    ic = {K + 'Side_of_triangle_soup::operator()': lambda ai, fn, this, args, node: T('app', 'side', *[ai.rval(a) for a in args])}
    preds = {n: method(p, cls, n) for n in ('is_empty', 'is_full', 'is_empty_or_full')}
    fside = method(p, cls, 'bounded_side')
    pt = T('atom', 'p')

    def observe(ai, r):
        out = {n: ai.truth(ai.rval(ai.call_fn(g, r, []))) for n, g in preds.items() if g}
        if fside:
            out['side'] = ai.rval(ai.call_fn(fside, r, [pt]))
        b = ai.call_fn(fb, r, [])
        return out, ai.rval(b)
    want = {'empty': dict(is_empty=True, is_full=False, is_empty_or_full=True, side=-1),
            'full': dict(is_empty=False, is_full=True, is_empty_or_full=True, side=1)}
    for n in ('empty', 'full'):
        f = method(p, cls, n)
        if f is None:
            continue
        w = ctx.where(f)
        ai = ctx.ai(intercepts=ic)
        for o in ai.explore(lambda: observe(ai, lv(ai, ai.rval(ai.call_fn(f, None, []))))):
            if o.kind not in ('norm', 'ret'):
                return ctx.viol(rule, w, f'ends with {o.kind}')
            got, b = o.val
            bad = [k for k in got if got[k] != want[n][k]]
            if bad:
                return ctx.viol(rule, w, f'{bad[0]} of the {n} region is {got[bad[0]]}')
            d = dict(b[3]) if isR(b) else {}
            if not isR(b) or b[1] is not None or any(isS(x) and x[1] for x in d.values()):
                return ctx.viol(rule, w, f'the boundary of the {n} region is {show(b)[:100]}')
        ctx.ok(rule, w)
    for f in p.fns.values():
        if f.get('cls') != cls or f.get('sp') != 'ctor' or len(f['params']) != 1 or 'Triangle_soup' not in p.tname(f['params'][0]['t']):
            continue
        w = ctx.where(f)
        ai = ctx.ai(intercepts=ic)

        def go():
            a = sym_args(ai, f)
            src = ai.rval(a[0])
            r = lv(ai, ai.rval(ai.construct_repo(f, a, None)))
            return ('res', src, *observe(ai, r))
        thrown = None
        nf = next(g for g in p.fns.values() if g.get('cls') and base(g['cls']) == K + 'Triangle_soup' and g['b'].endswith('::num_faces'))
        ai2 = ctx.ai()
        size = ai2.explore(lambda: ai2.call_fn(nf, ('&', ai2.newcell('b', R(T('atom', f['params'][0]['n']), K + 'Triangle_soup')), ()), []))[0].val
        for o in ai.explore(go):
            can = {n: all(holds(t, d, {size: n}) for t, d in o.st.dom.items()) for n in (0, 1, 2)}
            empty = True if not (can[1] or can[2]) else False if not can[0] else None
            if o.kind == 'throw':
                thrown = o
                if empty is False:
                    return ctx.viol(rule, w, 'a boundary with faces is refused')
                continue
            if o.kind not in ('norm', 'ret'):
                return ctx.und(rule, w, o.kind)
            if empty is not False:
                return ctx.viol(rule, w, 'a boundary without faces is accepted')
            _, src, got, b = o.val
            if any(got[k] for k in preds if k in got):
                return ctx.viol(rule, w, f'a region with a boundary is {[k for k in preds if got.get(k)]}')
            s = next((next(iter(d)) for t, d in o.st.dom.items() if isT(t) and t[:3] == ('T', 'app', 'side') and len(d) == 1), None)
            call = next((t for t in o.st.dom if isT(t) and t[:3] == ('T', 'app', 'side')), None)
            if 'side' in got:
                if s is None and isinstance(got['side'], int) and call is None:
                    return ctx.viol(rule, ctx.where(fside), f'the side of a point is always {got["side"]}')
                if s is None:
                    return ctx.und(rule, w, 'side of a point')
                if call[4] != pt or ai.key(call[3]) != ai.key(b):
                    return ctx.viol(rule, ctx.where(fside), f'the side is asked for {show(call)[:200]}')
                if got['side'] != -s:
                    return ctx.viol(rule, ctx.where(fside), f'{got["side"]} if the point is on the side {s} of the boundary')
            if not (b == src or isR(b) and isR(src) and b[1] == src[1]):
                return ctx.viol(rule, w, f'the boundary is {show(b)[:100]}')
        ctx.check(thrown is not None, rule, w, 'a boundary without faces is accepted')
