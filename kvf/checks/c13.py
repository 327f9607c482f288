"""Iterations of parallel loops do not race."""
from framework import *
from effects import *

EXPLANATION = (
    'Every parallel loop of the library is found. Its body is entered with the element of the loop as a symbol, together with every '
    'function it calls, and all reads and writes of objects that outlive one iteration are collected with the members and indices by which '
    'they were reached, and with the locks that are held. Two accesses of which one is a write have to be ordered by a common lock, or '
    'denote different objects in different iterations. Members that are protected by a mutex are protected wherever const functions use them.')
ASSUMPTIONS = ['const members and const arguments of the standard library, boost and CGAL are only read (CGAL with thread support)',
               'the element of a loop over index iterators is different in every iteration',
               'connected components of different representatives are disjoint']


def run(ctx):
    p = ctx.prog()
    sites(ctx, p)
    guarded(ctx, p)


def enclosing(p):
    """Functions that are not lambdas and contain a parallel loop."""
    out = {}
    for f in p.fns.values():
        if not f.get('repo') and not f.get('f'):
            pass
        if f.get('lambda') or f.get('body') is None:
            continue
        if f['b'].startswith('kigumi::parallel_'):
            continue
        for n in walk(f['body']):
            if n['k'] == 'call' and base(n['fn'].get('qn', '')) == 'kigumi::parallel_do':
                out.setdefault((f.get('f'), f['l']), f)
    return list(out.values())


def sites(ctx, p):
    fs = enclosing(p)
    seen = set()
    for f in fs:
        def go(f=f):
            e = Effects(p)

            def handler(e, n, name, obj, args):
                if name != 'kigumi::parallel_do':
                    return NotImplemented
                loop(ctx, e, e.fnstack[-1] if e.fnstack else f, n, args, seen)
                return V()
            e.handler = handler
            this = V(frozenset([(('this', 'this', 0, None), (), frozenset())]))
            args = [V(frozenset([(('param', x['n'], x['id'], None), (), frozenset())])) for x in f['params']]
            e.enter(f, this, args, None)
        ctx.guarded('data races', f, go)
    ctx.count('parallel loops', len(seen))
    if not seen:
        ctx.und('data races', 'parallel loops', 'no parallel loop was found')


def components(p, e, f, n):
    """Is the range of the loop a list of representatives of connected components?"""
    rng = n['a'][0]
    names = [x for x in walk(rng) if x['k'] == 'var']
    for v in names:
        for d in walk(f['body']):
            if d['k'] == 'decl':
                for x in d['v']:
                    if x['n'] == v['n'] and x.get('init') is not None:
                        for c in walk(x['init']):
                            if c['k'] == 'call' and c['fn'].get('repo'):
                                g = p.fns.get(c['fn']['id'])
                                if g is not None and g.get('body') is not None and traverses(p, g):
                                    return True
    return False


def traverses(p, g, depth=0):
    for y in walk(g['body']):
        if y['k'] != 'call':
            continue
        if y['fn'].get('n') == 'faces_around_face':
            return True
        h = p.fns.get(y['fn'].get('id'))
        if depth < 3 and h is not None and h is not g and h.get('body') is not None and y['fn'].get('repo') and traverses(p, h, depth + 1):
            return True
    return False


def keyed(p, f, n):
    """The member by which the elements of the range were grouped, if the range is a list of groups."""
    line = n['l']
    keys = {}
    for c in walk(f['body']):
        if c['k'] == 'call' and base(c['fn'].get('qn', '')) in ('std::upper_bound', 'std::sort', 'std::stable_sort') and c.get('l', 0) < line:
            cmp = c['a'][-1]
            v = next((x for x in walk(cmp) if x['k'] == 'var'), None)
            ms = None
            lam = next((x for x in walk(cmp) if x['k'] == 'lambda'), None)
            if lam is None and v is not None:
                for d in walk(f['body']):
                    if d['k'] == 'decl':
                        for x in d['v']:
                            if x['n'] == v['n'] and x.get('init') is not None:
                                lam = next((y for y in walk(x['init']) if y['k'] == 'lambda'), None)
            if lam is not None:
                ms = set()
                for i in lam['fns']:
                    g = p.fns.get(i)
                    if g is not None:
                        ms |= {x['n'] for x in walk(g['body']) if x['k'] == 'member'}
            keys[base(c['fn']['qn'])] = ms
    ub, so = keys.get('std::upper_bound'), keys.get('std::sort') or keys.get('std::stable_sort')
    return ub, so


def loop(ctx, e, f, n, args, seen):
    p = ctx.prog()
    w = ctx.where(f, n)
    if w in seen or e.site is not None:
        return
    seen.add(w)
    cl = [a for a in args if a.cl]
    if not cl or len(args) < 3:
        return ctx.und('data races', w, 'the body of the loop is not understood')
    rng = union(args[0], args[1])
    state = len(args) == 5
    el = V(rng.on('E').pl, 'E')
    if state:
        bodies = [(args[3], [el, None], frozenset()), (args[4], [None], frozenset((('post', ()),)))]
    else:
        bodies = [(args[2], [el], frozenset())]
    e.site = n.get('l', 1)
    e.acc = []
    try:
        for rnd in range(3):
            e.acc = []
            for b, a, lk in bodies:
                st = V(frozenset([(('var', 'state', 'state', e.site), (), frozenset())]))
                e.locks = list(lk)
                e.stack.append(('site', n['l']))
                e.call_closure(b.cl, [x if x is not None else st for x in a], n)
                e.stack.pop()
        e.locks = []
    finally:
        e.site = None
    acc = {a.key(): a for a in e.acc}
    acc = list(acc.values())
    ctx.count('accesses', len(acc))
    ctx.count('writes', sum(1 for a in acc if a.w))
    for g in {id(a.fn): a.fn for a in acc if a.fn is not None}.values():
        ctx.analysed.add(ctx.where(g))
    comp = components(p, e, f, n)
    for a in acc:
        if not comp:
            a.path = tuple('*' if x == 'C' else x for x in a.path)
        ks = [x for x in a.path if isinstance(x, tuple)]
        if ks:
            ub, so = keyed(p, f, n)
            def fix(x):
                if not isinstance(x, tuple):
                    return x
                if ub is None or so is None:
                    return ('F?', x[1])
                return x if ub == so == {x[1].split('.')[-1]} else '*'
            a.path = tuple(fix(x) for x in a.path)
    bad = {}
    unknown = None
    for i, a in enumerate(acc):
        if not a.w:
            continue
        for b in acc:
            if a.locks & b.locks:
                continue
            if a.root[0] == 'elemstate':
                continue
            if overlap(a, b):
                if any(isinstance(x, tuple) and x[0] == 'F?' for x in a.path + b.path):
                    unknown = a
                    continue
                bad.setdefault((a.root, a.path), (a, b))
    if bad:
        for (r, pa), (a, b) in sorted(bad.items(), key=lambda x: show_place(*x[0])):
            fa = a.fn['b'].replace('kigumi::', '') if a.fn else '?'
            detail = (f'{show_place(r, pa)} is written at line {a.line} ({fa[:80]}) without a lock that is also held where '
                      f'{"another iteration writes" if b.w else "another iteration reads"} {b.show()} at line {b.line}')
            ctx.viol('data races', w, detail, key=f'race {w.split(":")[0].split("/")[-1]} {last(pa)}')
    elif unknown is not None:
        ctx.und('data races', w, f'cannot tell whether {show_place(unknown.root, unknown.path)} is different in every iteration')
    else:
        ctx.ok('data races', w)


def last(path):
    return next((x for x in reversed(path) if isinstance(x, str) and not index(x) and x not in ('.', '#')), 'itself')


# ---------------------------------------------------------------- members protected by a mutex
def guarded(ctx, p):
    done = set()
    for r in p.records.values():
        mx = [f['n'] for f in r['fields'] if base(p.ty(f['t']).get('base', '')) in ('std::mutex', 'std::shared_mutex', 'std::recursive_mutex')]
        if not mx or r['b'] in done:
            continue
        done.add(r['b'])
        mut = {f['n'] for f in r['fields'] if f.get('mut')} - set(mx)
        if not mut:
            continue
        for f in p.fns.values():
            if base(f.get('cls') or '') == r['b'] and f.get('const') and f.get('body') is not None and not f.get('lambda'):
                uses = [n for n in walk(f['body']) if n['k'] == 'member' and n['n'] in mut]
                if not uses:
                    continue
                ctx.analysed.add(ctx.where(f))
                bad = unlocked(p, f, mut, set(mx))
                ctx.check(bad is None, 'protected members', ctx.where(f), f'{bad[1] if bad else ""} is used at line {bad[0] if bad else 0} without holding the mutex')


def unlocked(p, f, mut, mx):
    """The first use of a protected member in f where no lock is held."""
    def holds(d):
        return any(p.tbase(v['t']) in LOCKS and any(x['k'] == 'member' and x['n'] in mx for x in walk(v.get('init')))
                   and not any(x['k'] == 'var' and 'defer' in x.get('n', '') for x in walk(v.get('init'))) for v in d['v'])

    def manual(s, what):
        return s.get('k') == 'expr' and any(x['k'] == 'call' and x['fn'].get('n') == what and any(
            y['k'] == 'member' and y['n'] in mx for y in walk(x.get('obj'))) for x in walk(s['e']))

    def go(s, held):
        if not isinstance(s, dict):
            return None
        if s.get('k') == 'block':
            h = held
            for x in s['b']:
                if x.get('k') == 'decl' and holds(x):
                    h = True
                    continue
                if manual(x, 'lock'):
                    h = True
                    continue
                if manual(x, 'unlock'):
                    h = False
                    continue
                r = go(x, h)
                if r:
                    return r
            return None
        if s.get('k') in ('if', 'for', 'while', 'rfor', 'try', 'switch', 'do', 'case', 'default'):
            for key, x in s.items():
                for y in x if isinstance(x, list) else [x]:
                    if isinstance(y, dict):
                        r = go(y, held) if y.get('k') in ('block', 'if', 'for', 'while', 'rfor', 'try', 'switch', 'do', 'case', 'default', 'expr', 'decl', 'return') else (None if held else use(y))
                        if r:
                            return r
            return None
        return None if held else use(s)

    def use(x):
        for n in walk(x):
            if n['k'] == 'member' and n['n'] in mut:
                return (n.get('l', 0), n['n'])
        return None
    return go(f['body'], False)
