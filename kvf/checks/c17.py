"""The search tree finds every face."""
from framework import *
from checks import c18
from parmodel import *

EXPLANATION = (
    'Building a node of the search tree and searching it are interpreted abstractly in one go for an unknown number of leaves, with the '
    'calls for the children recorded: in every partition the box of the node has to cover its leaves, the children have to cover them '
    'too with nodes of their own, and the search has to visit every child whose box meets the query as what it was built as, with the '
    'number of leaves it was built for. The constructor and the entry of the search are compared in the same way, and so are the '
    'functions that fill the tree and that use it to find pairs of faces.')
ASSUMPTIONS = ['CGAL::do_intersect is true if a box and a query meet; CGAL::Bbox_3::operator+ yields a box around both operands',
               'std::sort and std::nth_element permute']

CLS = 'kigumi::AABB_tree'
RULES = ('box of a node', 'children cover the leaves', 'nodes of the children', 'the order of the leaves is final', 'search visits what was built')


def fns(ctx, name, unit='lib'):
    return [f for f in ctx.prog(unit).fns.values() if f['b'] == CLS + '::' + name and (f.get('body') is not None)]


def run(ctx):
    p = ctx.prog()
    builds = fns(ctx, 'build')
    travs = fns(ctx, 'traverse')
    for name, l in (('build', builds), ('traverse', travs)):
        if not l:
            ctx.und('search tree', CLS + '::' + name, 'not found')
    for f in builds:
        ctx.analysed.add(ctx.where(f))
        for g in travs:
            if cls(p, f) != cls(p, g):
                continue
            ctx.analysed.add(ctx.where(g))
            ctx.guarded('search tree', f, lambda: check_node(ctx, f, g))
    for f in fns(ctx, 'AABB_tree'):
        if len(f['params']) != 1 or f.get('sp') in ('copyctor', 'movector'):
            continue
        for g in fns(ctx, 'get_intersecting_leaves'):
            if cls(p, f) == cls(p, g):
                ctx.analysed.add(ctx.where(f))
                ctx.guarded('root of the tree', f, lambda: check_root(ctx, f, g))
    for f in ctx.prog().fns.values():
        if f['b'] == 'kigumi::Triangle_soup::aabb_tree' and f.get('body') is not None:
            ctx.analysed.add(ctx.where(f))
            ctx.guarded('a leaf for every face', f, lambda: check_fill(ctx, f))
        if f['b'] == 'kigumi::Find_possibly_intersecting_faces::operator()' and f.get('body') is not None and len(f['params']) == 4:
            ctx.analysed.add(ctx.where(f))
            ctx.guarded('pairs of faces', f, lambda: check_pairs(ctx, f))
    c18.loops(ctx, ('kigumi::Find_possibly_intersecting_faces',))


def cls(p, f):
    return f.get('cls')


def pure_box(ai):
    """CGAL boxes are values."""
    def meet(ai, fn, this, args, node):
        return T('?meets', *sorted((ai.norm(ai.rval(a)) for a in args), key=repr))
    ai.ic['CGAL::do_intersect'] = meet

    def extreme(ai, fn, this, args, node):
        a = ai.rval(args[0])
        t = T('extreme', ai.fresh('extreme'))
        ai.nonneg.add(t)
        return ('I', a[1], add(a[2], t)) if isI(a) else NotImplemented
    for n in ('std::max_element', 'std::min_element'):
        ai.ic[n] = extreme


def explore_node(ctx, f, g):
    """Partitions of build and of traverse for n >= 2 leaves from position lo and the node at position b."""
    p = ctx.prog()
    th = Threads(ctx, unit='lib', keep_parallel=False)
    ai = th.ai
    pure_box(ai)
    tree = ('&', ai.newcell('tree', ('R', T('atom', 'tree'), CLS, ())), ())
    nodes = ('&', ai.newcell('nodes', Ssym(T('atom', 'nodes'))), ())
    leaves = ('&', ai.newcell('leaves', Ssym(T('atom', 'leaves'))), ())
    n, b, lo, d = T('atom', 'n'), T('atom', 'b'), T('atom', 'lo'), T('atom', 'depth')
    for t in (n, b, lo, d):
        ai.nonneg.add(t)
    ai.st.nums.append(lin(sub(n, 1)))

    def spawn(args, node):
        a = [ai.rval(x) for x in args]
        if not (a and isT(a[0]) is False and len(a) >= 6):
            raise Unsupported('thread function', node)
        ai.st.ev.append(('rec', tuple(a[2:]), (node or {}).get('l'), True))
        return T('thread', ai.fresh('thread'))
    th.spawn = spawn
    st = {}

    def once(key, what):
        def h(ai, fn, this, args, node):
            if not st.get(key):
                st[key] = True
                return NotImplemented
            ai.st.ev.append((what, tuple(ai.rval(a) for a in args), (node or {}).get('l'), False))
            return None
        return h
    ai.ic[CLS + '::build'] = once('b', 'rec')
    ai.ic[CLS + '::traverse'] = once('t', 'visit')
    query = ('&', ai.newcell('query', T('atom', 'query')), ())
    found = ('&', ai.newcell('found', ('S', (), ())), ())

    def go():
        st.clear()
        ai.call_fn(f, tree, [('I', nodes, b), ('I', leaves, lo), ('I', leaves, add(lo, n)), d])
        ai.st.ev.append(('search',))
        args = []
        for prm in g['params']:
            t = ai.p.tname(prm['t'])
            c = ai.p.deref(prm['t'])[1]
            if 'insert_iterator' in t:
                args.append(out_it(ai, found))
            elif c.get('c') == 'int':
                args.append(n)
            elif 'AABB_node' in t:
                args.append(('P', nodes[1], nodes[2] + (('i', b),)))
            else:
                args.append(query)
        return ai.call_fn(g, tree, args)
    return th, (tree, nodes, leaves, n, b, lo, d), th.explore(go)


def out_it(ai, lv):
    return ('R', T('atom', 'out'), 'out_it', (('to', lv),))


def explore_root(ctx, f, g):
    th = Threads(ctx, unit='lib', keep_parallel=False)
    ai = th.ai
    pure_box(ai)

    def rec(what):
        def h(ai, fn, this, args, node):
            ai.st.ev.append((what, tuple(ai.rval(a) for a in args), (node or {}).get('l'), False))
            return None
        return h
    ai.ic[CLS + '::build'] = rec('rec')
    ai.ic[CLS + '::traverse'] = rec('visit')
    leaves = Ssym(T('atom', 'leaves'))
    size = ai.seq_len(leaves)
    found = ('&', ai.newcell('found', ('S', (), ())), ())
    query = ('&', ai.newcell('query', T('atom', 'query')), ())
    src = ('&', ai.newcell('leaves', leaves), ())

    def go():
        before = set(ai.st.store)
        ai.construct_repo(f, [src], f.get('rid'), ai.p.records.get(f.get('rid')), 'tree')
        cell = next(c for c in ai.st.store if c not in before and c.startswith('tree:'))
        tree = ('&', cell, ())
        ai.st.ev.append(('search', tree))
        args = []
        for prm in g['params']:
            args.append(out_it(ai, found) if 'insert_iterator' in ai.p.tname(prm['t']) else query)
        ai.call_fn(g, tree, args)
        return tree
    return th, (size, found), th.explore(go)


class Bad(Exception):
    def __init__(self, msg, line=None):
        self.msg, self.line = msg, line


class Unknown(Exception):
    pass


class View:
    """One partition: facts about numbers, what was recorded before and after the search began."""

    def __init__(self, th, q):
        self.ai, self.q = th.ai, q
        ev = [e for e, _ in flat(q.ev)]
        i = next((i for i, e in enumerate(ev) if e[0] == 'search'), len(ev))
        self.build, self.search = ev[:i], ev[i + 1:]
        self.inloop = {id(e) for e, _ in flat([x for x in q.ev if x[0] == 'loop'])}
        self.recs = [e for e in self.build if e[0] == 'rec']
        self.visits = [e for e in self.search if e[0] == 'visit']
        if any(id(e) in self.inloop for e in self.recs + self.visits):
            raise Unknown('children are built or visited in a loop')
        strengthen(q.st, self.ai)

    def ge(self, a, b):
        """a >= b?"""
        d = sub(a, b)
        return (d >= 0) if isinstance(d, int) else bool(proven(self.ai, self.q.st, add(d, 1)) or proven(self.ai, self.q.st, mulc(add(d, 1), 2)))

    def eq(self, a, b):
        return a == b or (self.ge(a, b) and self.ge(b, a))

    def ne(self, a, b):
        return self.ge(a, add(b, 1)) or self.ge(b, add(a, 1))

    def read(self, lv):
        old, self.ai.st = self.ai.st, self.q.st
        try:
            return self.ai.norm(self.ai.rval(self.ai.read(lv)))
        finally:
            self.ai.st = old


def strengthen(st, ai):
    """Numbers that are bounded by a value and differ from it are bounded by the next one."""
    todo = [k[2] for k, b in st.dom.items() if isT(k) and k[1] == '==0' and b == frozenset({False})]
    for _ in range(len(todo) + 1):
        for t in list(todo):
            for s in (t, sub(0, t)):
                if proven(ai, st, add(s, 1)):
                    st.nums.append(lin(s))
                    todo.remove(t)
                    break
    old, ai.st = ai.st, st
    for g in list(st.nums):
        for t in g[0]:
            if isT(t) and t[1] == 'op' and t[2] == '/' and isinstance(t[4], int) and t[4] > 0:
                lo = ai.lower(t[3])
                if lo is not None:
                    k = lin(add(sub(t, lo // t[4]), 1))
                    if k not in st.nums:
                        st.nums.append(k)
    ai.st = old


def call_args(e, nodes, leaves):
    """(node index, first leaf, last leaf, other numbers) of a call that builds a subtree."""
    node, ls, rest = None, [], []
    for a in e[1]:
        if isI(a) and a[1][1:] == nodes[1:]:
            node = a[2]
        elif isP(a) and a[1] == nodes[1] and a[2][:-1] == nodes[2] and a[2] and a[2][-1][0] == 'i':
            node = a[2][-1][1]
        elif isI(a) and a[1][1:] == leaves[1:]:
            ls.append(a[2])
        elif isP(a) and a[1] == leaves[1] and a[2][:-1] == leaves[2] and a[2] and a[2][-1][0] == 'i':
            ls.append(a[2][-1][1])
        elif isnum(a) or isT(a):
            rest.append(a)
    if node is None or len(ls) != 2:
        raise Unknown('arguments of the call for a child')
    return node, ls[0], ls[1], rest


def target(v, nodes, leaves):
    """What a pointer points to."""
    if isP(v) and v[2] and v[2][-1][0] == 'i':
        for kind, s in (('node', nodes), ('leaf', leaves)):
            if v[1] == s[1] and v[2][:-1] == s[2]:
                return kind, v[2][-1][1]
    if v is None:
        return None, None
    raise Unknown(f'pointer {show(v)[:60]}')


def chain(view, parts, lo, hi):
    """parts: [(first, last, …)]; a sequence of parts that covers [lo, hi) without gap and overlap, and the rest."""
    left, cur, out = list(parts), lo, []
    while left:
        nx = next((x for x in left if view.eq(x[0], cur)), None)
        if nx is None:
            break
        left.remove(nx)
        out.append(nx)
        cur = nx[1]
    return out, left, cur


def meets_terms(q):
    return {k: v for k, v in q.st.dom.items() if isT(k) and k[1] == '?meets'}


def other_conditions(q, allowed):
    """Conditions of the partition that are neither about numbers nor about tests of boxes."""
    out = []
    for k, v in q.st.dom.items():
        if isT(k) and k[1] in ('?meets', '==0', '>0', '>=0'):
            continue
        out.append(k)
    return out


def parts_of(view, nodes, leaves, ptrs):
    """The children of a node: [(first leaf, last leaf, node index or None)]"""
    parts = []
    rec = {}
    for e in view.recs:
        c, x, y, rest = call_args(e, nodes, leaves)
        parts.append((x, y, c, e))
    for kind, i in ptrs:
        if kind == 'leaf':
            parts.append((i, add(i, 1), None, None))
    return parts


def check_node(ctx, f, g):
    th, env, paths = explore_node(ctx, f, g)
    tree, nodes, leaves, n, b, lo, d = env
    ai = th.ai
    w = ctx.where(f)
    ctx.count('partitions of building and searching a node', len(paths))
    res, und = {}, {}
    for q in paths:
        if q.kind != 'norm':
            res.setdefault(RULES[0], (f'building a node ends with an exception ({q.kind})', None))
            continue
        try:
            v = View(th, q)
        except Unknown as e:
            for r in RULES:
                und[r] = str(e)
            continue
        for r, fn in zip(RULES, (node_box, node_cover, node_nodes, node_order, node_search)):
            try:
                fn(v, env)
            except Unknown as e:
                und.setdefault(r, str(e))
            except Bad as e:
                res.setdefault(r, (e.msg, e.line))
    kind = ai.p.tname(g['params'][-2]['t'])[:60] if len(g['params']) > 1 else ''
    for r in RULES:
        if r in res:
            msg, line = res[r]
            ctx.viol(r, w, msg + (f' (line {line})' if line else ''))
        elif r in und:
            ctx.und(r, w, und[r])
        else:
            ctx.ok(r, w, f'{len(paths)} partitions, {kind}')


def node_box(v, env):
    tree, nodes, leaves, n, b, lo, d = env
    val, before = None, []
    for e in v.build:
        if e[0] == 'rec':
            before.append(e)
        if e[0] == 'w' and e[1] == nodes[1] and e[2] == nodes[2] + (('i', b), ('f', 'bbox_')):
            val = e[3]
    if val is None:
        raise Bad('the box of a node is not set')
    kids = []
    for e in before:
        c, x, y, _ = call_args(e, nodes, leaves)
        kids.append((c, x, y))
    spans = spans_of(v, val, kids)
    spans = [s for s in spans if s is not None]
    cur = lo
    for _ in range(len(spans) + 1):
        if v.ge(cur, add(lo, n)):
            return
        nx = next((s for s in spans if v.ge(cur, s[0]) and v.ge(s[1], add(cur, 1))), None)
        if nx is None:
            break
        spans.remove(nx)
        cur = nx[1]
    raise Bad('the box of a node does not cover all leaves below it: ' + show(val)[:160])


def spans_of(v, val, kids):
    """The intervals of leaves whose boxes are joined by a term."""
    out = []

    def at(t):
        """Box of an element: (sequence, index)."""
        if isT(t) and t[1] == '.' and t[3] == 'bbox_' and isT(t[2]) and t[2][1] == 'at':
            s = t[2][2]
            while isinstance(s, tuple) and s[0] == 'S' and len(s[1]) == 1 and s[1][0][0] == 's' or isT(s) and ('permuted' in s[1] or 'sorted' in s[1]):
                s = s[2] if isT(s) else s[1][0][1]
            if s == T('atom', 'leaves'):
                return 'leaf', t[2][3]
            if s == T('atom', 'nodes'):
                return 'node', t[2][3]
        return None

    def go(t):
        if isT(t) and t[1] == 'fold' and t[2] == '+' and isT(t[4]) and t[4][1] == 'dom':
            go(t[3])
            cnt = t[4][2]
            for guard, bodies in t[5]:
                for x in bodies:
                    p = at(x)
                    if p is None or p[0] != 'leaf':
                        raise Unknown('box of a node: ' + show(x)[:160])
                    if guard:
                        continue
                    a, z = subst(p[1], {T('k'): 0}), subst(p[1], {T('k'): sub(cnt, 1)})
                    if sub(z, a) == sub(cnt, 1):
                        out.append((a, add(a, cnt)))
                    elif sub(a, z) == sub(cnt, 1):
                        out.append((z, add(z, cnt)))
                    else:
                        raise Unknown('box of a node: ' + show(t)[:160])
        elif isT(t) and t[1] == 'app' and t[2] == '+':
            go(t[3])
            go(t[4])
        elif isT(t) and t[1] == 'new' and t[2] == 'CGAL::Bbox_3' and len(t) == 3:
            pass
        else:
            p = at(t)
            if p is None:
                raise Unknown('box of a node: ' + show(t)[:160])
            if p[0] == 'leaf':
                out.append((p[1], add(p[1], 1)))
            else:
                k = next((k for k in kids if v.eq(k[0], p[1])), None)
                if k is None:
                    raise Bad('the box of a node is made from a node that has not been built')
                out.append((k[1], k[2]))
    go(val)
    return out


def pointers(v, env):
    tree, nodes, leaves, n, b, lo, d = env
    out = []
    for m in ('left_', 'right_'):
        x = v.read(('&', nodes[1], nodes[2] + (('i', b), ('f', m))))
        if isT(x):
            continue
        k = target(x, nodes, leaves)
        if k[0] is not None:
            out.append(k)
    return out


def children(v, env):
    """[(first leaf, last leaf, node or None, call or None)]"""
    tree, nodes, leaves, n, b, lo, d = env
    ptrs = pointers(v, env)
    parts, used = [], set()
    for k, i in ptrs:
        if k == 'leaf':
            parts.append((i, add(i, 1), None, None))
            continue
        e = None
        for j, r in enumerate(v.recs):
            if j not in used and v.eq(call_args(r, nodes, leaves)[0], i):
                e, jj = r, j
        if e is None:
            raise Bad('a node points to a child that is not built')
        used.add(jj)
        c, x, y, _ = call_args(e, nodes, leaves)
        parts.append((x, y, c, e))
    if len(used) < len(v.recs):
        r = next(r for j, r in enumerate(v.recs) if j not in used)
        raise Bad('a child is built to which no node points', r[2])
    return parts


def node_cover(v, env):
    tree, nodes, leaves, n, b, lo, d = env
    left, cur = children(v, env), lo
    while left:
        nx = next((x for x in left if v.eq(x[0], cur)), None)
        if nx is None:
            break
        left.remove(nx)
        cur = nx[1]
    if left or not v.eq(cur, add(lo, n)):
        raise Bad('the children of a node do not divide its leaves: ' +
                  ', '.join(f'[{show(x[0])}, {show(x[1])})' for x in children(v, env)) + f' of [{show(lo)}, {show(add(lo, n))})')
    for x, y, c, e in children(v, env):
        if e is not None:
            if not v.ge(sub(y, x), 2):
                raise Bad('a node is built for less than two leaves', e[2])
            if not v.ge(sub(n, 1), sub(y, x)):
                raise Bad('a child has as many leaves as its parent', e[2])


def node_nodes(v, env):
    tree, nodes, leaves, n, b, lo, d = env
    ks = [(c, sub(sub(y, x), 1), e) for x, y, c, e in children(v, env) if e is not None]
    for c, m, e in ks:
        if not v.ge(c, add(b, 1)) or not v.ge(add(b, sub(n, 1)), add(c, m)):
            raise Bad(f'the nodes of a child, [{show(c)}, {show(add(c, m))}), do not lie behind their parent within [{show(b)}, {show(add(b, sub(n, 1)))})', e[2])
    for i in range(len(ks)):
        for j in range(i):
            (c, m, e), (c2, m2, _) = ks[i], ks[j]
            if not (v.ge(c2, add(c, m)) or v.ge(c, add(c2, m2))):
                raise Bad(f'the children share nodes: [{show(c2)}, {show(add(c2, m2))}) and [{show(c)}, {show(add(c, m))})', e[2])


def node_order(v, env):
    tree, nodes, leaves, n, b, lo, d = env
    built = []
    spawned = joined = 0
    for e in v.build:
        if e[0] == 'rec':
            built.append(e)
            spawned += bool(e[3])
        if e[0] == 'join':
            joined += 1
            if id(e) in v.inloop:
                joined = None
                break
        if e[0] == 'sort' and isI(e[2]) and e[2][1][1:] == leaves[1:]:
            if not (v.ge(e[2][2], lo) and v.ge(add(lo, n), e[3][2])):
                raise Bad('leaves of another node are moved')
            if built:
                raise Bad('leaves are moved after a child was built from them')
        elif e[0] == 'w' and e[1] == leaves[1]:
            x = e[3]
            if not (isinstance(x, tuple) and x[0] == 'S' and len(x[1]) == 1 and x[1][0][0] == 's' and isT(x[1][0][1]) and ('permuted' in x[1][0][1][1] or 'sorted' in x[1][0][1][1])):
                raise Unknown('writes to the leaves')
    for e in v.search:
        if e[0] == 'w' and e[1] in (leaves[1], nodes[1]):
            raise Bad('the search changes the tree')
    if joined is not None and spawned > joined:
        raise Bad('a thread that builds a child is not waited for')


def tests(v):
    return {k: True in b and len(b) == 1 for k, b in v.q.st.dom.items() if isT(k) and k[1] == '?meets'}


def others(v):
    return [k for k in v.q.st.dom if isT(k) and k[1] not in ('?meets', '==0', '>0', '>=0')]


def out_items(v, found):
    """What was written to the output: a list of pointers."""
    s = v.read(found)
    if s == ('S', (), ()):
        return []
    if isinstance(s, tuple) and s[0] == 'S' and not s[2]:
        if all(x[0] == '1' for x in s[1]):
            return [x[1] for x in s[1]]
    raise Unknown('output of the search: ' + show(s)[:100])


def skipped(v, boxes):
    """Did a test fail that involves one of the boxes?"""
    return any(not r and any(x in k[2:] for x in boxes) for k, r in tests(v).items())


def node_search(v, env):
    tree, nodes, leaves, n, b, lo, d = env
    own = v.read(('&', nodes[1], nodes[2] + (('i', b), ('f', 'bbox_'))))
    got = []
    for x in out_items(v, ('&', 'found', ())):
        k, i = target(x, nodes, leaves)
        if k != 'leaf':
            raise Bad('the search reports something that is not a leaf')
        got.append(i)
    visits = []
    for e in v.visits:
        node = [a for a in e[1] if isP(a) and a[1] == nodes[1]]
        cnt = [a for a in e[1] if isnum(a) or isT(a) and a != T('atom', 'query') and a[1] in ('lin', 'atom', 'op')]
        cnt = [a for a in cnt if a != T('atom', 'query')]
        bad = [a for a in e[1] if isP(a) and a[1] == leaves[1]]
        if bad:
            raise Bad('a leaf is visited as if it were a node', e[2])
        if len(node) != 1 or len(cnt) != 1:
            raise Unknown('arguments of the search of a child')
        visits.append((node[0][2][-1][1], cnt[0], e))
    for x, y, c, e in children(v, env):
        if e is None:
            box = v.read(('&', leaves[1], leaves[2] + (('i', x), ('f', 'bbox_'))))
            hit = [i for i in got if v.eq(i, x)]
            for i in hit:
                got.remove(i)
        else:
            box = v.read(('&', nodes[1], nodes[2] + (('i', c), ('f', 'bbox_'))))
            hit = [z for z in visits if v.eq(z[0], c)]
            for z in hit:
                visits.remove(z)
                if not v.eq(z[1], sub(y, x)):
                    raise Bad(f'a child with {show(sub(y, x))} leaves is searched as if it had {show(z[1])}', z[2][2])
        if len(hit) > 1:
            raise Bad('a child is visited more than once')
        if not hit and not skipped(v, [box, own]):
            if others(v):
                raise Unknown('conditions of the search: ' + show(others(v)[0])[:80])
            raise Bad(('a leaf' if e is None else 'a node') + ' is not visited although its box may meet the query, if ' + v.q.show_cond()[:200])
    if got or visits:
        raise Bad('the search visits something that is not a child of the node')


def check_root(ctx, f, g):
    th, env, paths = explore_root(ctx, f, g)
    size, found = env
    ai = th.ai
    w = ctx.where(f)
    bad = und = None
    ctx.count('partitions of the constructor and the entry of the search', len(paths))
    for q in paths:
        if q.kind != 'norm':
            bad = bad or 'an exception is thrown'
            continue
        try:
            v = View(th, q)
            root(v, size)
        except Bad as e:
            bad = bad or e.msg + f', if {q.show_cond()[:160]}'
        except Unknown as e:
            und = und or str(e)
    if bad:
        ctx.viol('root of the tree', w, bad)
    elif und:
        ctx.und('root of the tree', w, und)
    else:
        ctx.ok('root of the tree', w, f'{len(paths)} partitions')


def root(v, size):
    ai = v.ai
    cell = v.q.val[1]
    nodes, leaves = ('&', cell, (('f', 'nodes_'),)), ('&', cell, (('f', 'leaves_'),))
    if len(v.recs) > 1:
        raise Bad('the tree is built twice')
    recs = 0
    for e in v.build:
        if e[0] == 'rec':
            recs = 1
        elif recs and e[0] == 'w' and e[1] == cell and e[2] in (nodes[2], leaves[2]):
            raise Bad('nodes or leaves are moved after the tree was built')
    out = [target(x, nodes, leaves) for x in out_items(v, ('&', 'found', ()))]
    if not v.recs:
        if v.visits:
            raise Bad('a tree is searched that has not been built')
        if any(k != 'leaf' for k, i in out):
            raise Bad('the search reports something that is not a leaf')
        for j in range(2):
            if v.ge(j, size):
                break
        else:
            raise Bad('no tree is built')
        for i in range(j):
            box = v.read(('&', cell, leaves[2] + (('i', i), ('f', 'bbox_'))))
            if not any(v.eq(z, i) for _, z in out) and not skipped(v, [box]):
                raise Bad('a leaf is not visited although its box may meet the query')
        if any(not (v.ge(z, 0) and v.ge(sub(size, 1), z)) for _, z in out):
            raise Bad('the search reports a leaf that does not exist')
        return
    c, x, y, rest = call_args(v.recs[0], nodes, leaves)
    if not (v.eq(x, 0) and v.eq(y, size)):
        raise Bad(f'the tree is built from the leaves [{show(x)}, {show(y)})')
    if not v.ge(size, 2):
        raise Bad('nodes are built for less than two leaves')
    num = ai.seq_len(v.read(nodes))
    if not (v.ge(c, 0) and v.ge(num, add(c, sub(size, 1)))):
        raise Bad(f'there are {show(num)} nodes, too few for {show(size)} leaves')
    if out or len(v.visits) != 1:
        box = v.read(('&', cell, nodes[2] + (('i', c), ('f', 'bbox_'))))
        if not (not v.visits and not out and skipped(v, [box])):
            raise Bad('the tree is not searched from its root')
        return
    e = v.visits[0]
    node = [a for a in e[1] if isP(a)]
    cnt = [a for a in e[1] if (isnum(a) or isT(a)) and a != T('atom', 'query')]
    if len(node) != 1 or len(cnt) != 1:
        raise Unknown('arguments of the search')
    if target(node[0], nodes, leaves) != ('node', c):
        raise Bad('the search does not start at the root')
    if not v.eq(cnt[0], size):
        raise Bad(f'the search starts with {show(cnt[0])} leaves')


def explore_fill(ctx, f):
    th = Threads(ctx, unit='lib', keep_parallel=False)
    ai = th.ai
    built = []

    def ctor(ai, fn, this, args, node):
        ai.st.ev.append(('tree', ai.norm(ai.rval(args[0])), (node or {}).get('l')))
        return T('new', CLS)
    ai.ic[CLS + '::AABB_tree'] = ctor
    this = sym_this(ai, f, 'soup')
    return th, this, th.explore(lambda: ai.call_fn(f, this, []))


def queries(ai):
    """The tree of a soup, and the leaves that meet a query, as symbols."""
    def tree(ai, fn, this, args, node):
        return ('&', ai.newcell('tree', T('tree', ai.norm(ai.rval(this)))), ())

    def query(ai, fn, this, args, node):
        t = ai.norm(ai.rval(this))
        box = ai.norm(ai.rval(args[1]))
        out = ai.rval(args[0])
        if not (isR(out) and out[2] == 'out_it'):
            raise Unsupported('output of a query', node)
        lv = dict(out[3])['to']
        ai.write(lv, ai.seq_append(ai.as_seq(ai.read(lv)), Ssym(T('found', t, box))) if hasattr(ai, 'seq_append') else
                 ('S', ai.as_seq(ai.read(lv))[1] + (('s', T('found', t, box)),), ()), node)
        return None
    ai.ic['kigumi::Triangle_soup::aabb_tree'] = tree
    ai.ic[CLS + '::get_intersecting_leaves'] = query


def explore_pairs(ctx, f):
    ai = ctx.ai()
    queries(ai)
    args = sym_args(ai, f)
    this = sym_this(ai, f, 'find')
    return ai, ai.explore(lambda: ai.call_fn(f, this, args))


POINT_FNS = ('bbox', 'approx', 'operator+', '+', 'operator+=', 'exact', 'make_interval')


def corners(t, face, soup):
    """Corners of a face whose points a box was made from; None for unknown constructions.  face: index of the face (a term)."""
    out = set()

    def go(x):
        if isT(x) and x[1] == 'app':
            if x[2].split('::')[-1] not in POINT_FNS:
                raise Unknown('box of a face: ' + x[2])
            for y in x[3:]:
                go(y)
        elif isT(x) and x[1] == 'new' and x[2] == 'CGAL::Bbox_3' and len(x) == 3:
            pass
        elif isT(x) and x[1] == 'at':
            c = corner_of(x, soup)
            if c is None:
                raise Unknown('box of a face: ' + show(x)[:120])
            f, i = c
            if f != face:
                raise Bad('the box of a face is made from another face: ' + show(x)[:120])
            out.add(i)
        else:
            raise Unknown('box of a face: ' + show(x)[:120])
    go(t)
    return out


def corner_of(x, soup):
    """soup.points_[soup.faces_[f][i].i_]: (f, i)"""
    if x[2] != T('.', soup, 'points_'):
        return None
    v = x[3]
    if isT(v) and v[1] == '.' and v[3] == 'i_' and isT(v[2]) and v[2][1] == 'at':
        c = v[2]
        if isT(c[2]) and c[2][1] == 'at' and c[2][2] == T('.', soup, 'faces_'):
            return c[2][3], c[3]
    return None


def box_of_face(t, face, soup):
    c = corners(t, face, soup)
    if c != {0, 1, 2}:
        raise Bad(f'the box of a face covers the corners {sorted(map(str, c))} only')


def conclude(ctx, rule, w, paths, fn, detail=''):
    bad = und = None
    for q in paths:
        try:
            if q.kind != 'norm':
                raise Bad('an exception is thrown')
            fn(q)
        except Bad as e:
            bad = bad or e.msg + (f', if {q.show_cond()[:160]}' if q.st.dom else '')
        except Unknown as e:
            und = und or str(e)
    if bad:
        ctx.viol(rule, w, bad)
    elif und:
        ctx.und(rule, w, und)
    elif not paths:
        ctx.und(rule, w, 'no partitions')
    else:
        ctx.ok(rule, w, detail or f'{len(paths)} partitions')


def generator(v):
    """A sequence with a part for every number below a bound: (index, bound, [(guard, items)])"""
    if isinstance(v, tuple) and v and v[0] == 'S' and len(v[1]) == 1 and not v[2] and v[1][0][0] == 'g':
        g = v[1][0]
        return g[1], g[2], list(g[3])
    return None


def check_fill(ctx, f):
    th, this, paths = explore_fill(ctx, f)
    soup = T('atom', 'soup')
    n = T('len', T('.', soup, 'faces_'))
    seen = []

    def one(q):
        for e, _ in flat(q.ev):
            if e[0] != 'tree':
                continue
            seen.append(e)
            g = generator(e[1])
            if g is None:
                raise Unknown('leaves of the tree: ' + show(e[1])[:120])
            kap, bound, items = g
            if bound != n:
                raise Bad(f'there are leaves for {show(bound)} faces')
            for guard, xs in items:
                if len(xs) != 1:
                    raise Bad(f'{len(xs)} leaves are made for a face' + (f', if {show(sorted(guard, key=repr)[0][0])[:80]}' if guard else ''))
                r = xs[0]
                if not isR(r):
                    raise Unknown('leaf ' + show(r)[:80])
                fd = dict(r[3])
                ids = [x for k, x in fd.items() if isR(x) and x[2] == 'kigumi::Index']
                box = fd.get('bbox_')
                if box is None or len(ids) != 1:
                    raise Unknown('members of a leaf')
                i = dict(ids[0][3]).get('i_')
                a = subst(i, {kap: 0}) if not isnum(i) else i
                if isnum(i) or sub(i, kap) != 0 and sub(add(i, kap), sub(n, 1)) != 0:
                    raise Bad(f'the leaf for face {show(kap)} names face {show(i)}')
                box_of_face(box, i, soup)
    conclude(ctx, 'a leaf for every face', ctx.where(f), paths, one)
    if not seen:
        ctx.und('a leaf for every face', ctx.where(f), 'no tree is built')


def check_pairs(ctx, f):
    ai, paths = explore_pairs(ctx, f)
    names = [T('atom', x['n']) for x in f['params']]
    soups, tags = names[:2], names[2:4]
    ctx.count('partitions of the search for pairs', len(paths))

    def one(q):
        for e in loops(q.ev):
            if isT(e[3]) and e[3][1] == 'len' and isT(e[3][2]) and e[3][2][1] == 'found':
                for x in e[4]:
                    if x['kind'] != 'norm':
                        raise Bad('the search for the pairs of a face ends before all leaves were examined' +
                                  (', if ' + show_guard(x['guard'].items()) if x['guard'] else ''), e[1])
        v = q.val if not isLV(q.val) else read_in(ai, q, q.val)
        if v == ('S', (), ()):
            if not [s for s in soups if ai_known_empty(ai, q, s)]:
                raise Bad('no pairs are found')
            return
        g = generator(v)
        if g is None:
            raise Unknown('result: ' + show(v)[:120])
        kap, bound, items = g
        b = next((s for s in soups if bound == T('len', T('.', s, 'faces_'))), None)
        if b is None:
            raise Bad(f'pairs are searched for {show(bound)[:60]} faces')
        bi = soups.index(b)
        a = soups[1 - bi]

        def known(guard, tag, i):
            """Does a condition exclude that the tag of a face is unknown?"""
            return any(k == T('at', tag, i) and 0 not in dom for k, dom in guard)
        for guard, xs in items:
            if not xs:
                if not known(guard, tags[bi], kap) and not empty_found(guard):
                    raise Bad('a face is skipped' + (', if ' + show_guard(guard) if guard else ''))
                continue
            if len(xs) != 1 or not (isT(xs[0]) and xs[0][1] == 'seg'):
                raise Unknown('pairs of a face: ' + show(xs[0])[:80])
            inner = xs[0][2]
            if inner[0] != 'g':
                raise Unknown('pairs of a face')
            k2, bound2, items2 = inner[1], inner[2], inner[3]
            if not (isT(bound2) and bound2[1] == 'len' and isT(bound2[2]) and bound2[2][1] == 'found'):
                raise Unknown('pairs of a face: ' + show(bound2)[:80])
            fnd = bound2[2]
            if fnd[2] != T('tree', a):
                raise Bad('a face is searched in the tree of its own mesh')
            box_of_face(fnd[3], kap, b)
            for g2, ys in items2:
                el = T('deref', T('at', fnd, k2))
                if not ys:
                    ok = known(guard, tags[bi], kap) or any(0 not in dom and isT(k) and k[1] == 'at' and k[2] == tags[1 - bi] and of_leaf(k[3], el) for k, dom in g2)
                    ok = ok or known(g2, tags[bi], kap)
                    if not ok:
                        raise Bad('a pair of faces is dropped' + (', if ' + show_guard(g2) if g2 else ''))
                    continue
                if len(ys) != 1:
                    raise Bad('a pair of faces is reported more than once')
                y = ys[0]
                if not (isR(y) and y[2] in ('tuple', 'std::pair')):
                    raise Unknown('pair: ' + show(y)[:80])
                fd = [x for _, x in y[3]]
                ids = [leaf_or_index(x, el, kap) for x in fd]
                want = ['leaf', 'index'] if bi == 1 else ['index', 'leaf']
                if None in ids:
                    raise Unknown('pair: ' + show(y)[:120])
                if ids != want:
                    raise Bad('the faces of a pair are swapped' if sorted(ids) == sorted(want) else 'a pair consists of one face twice')
    conclude(ctx, 'pairs of faces', ctx.where(f), paths, one)


def loops(ev):
    for e in ev:
        if e[0] == 'loop':
            yield e
            for q in e[4]:
                yield from loops(q['cev'] + q['ev'])


def ai_known_empty(ai, q, s):
    t = T('len', T('.', s, 'faces_'))
    return proven(ai, q.st, sub(1, t))


def read_in(ai, q, lv):
    old, ai.st = ai.st, q.st
    try:
        return ai.norm(ai.rval(ai.read(lv)))
    finally:
        ai.st = old


def empty_found(guard):
    return any(isT(k) and k[1] == '==0' and isT(k[2]) and k[2][1] == 'len' and isT(k[2][2]) and k[2][2][1] == 'found' and dom == frozenset({True}) for k, dom in guard)


def show_guard(guard):
    return ' and '.join(f'{show(k)[-60:]} in {sorted(map(str, d))}' for k, d in sorted(guard, key=repr))[:200]


def of_leaf(i, el):
    return isT(i) and i[1] == '.' and i[3] == 'i_' and isT(i[2]) and i[2][1] == '.' and i[2][2] == el


def leaf_or_index(x, el, kap):
    if isT(x) and x[1] == '.' and x[2] == el:
        return 'leaf'
    if isR(x) and x[2] == 'kigumi::Index' and dict(x[3]).get('i_') == kap:
        return 'index'
    return None
