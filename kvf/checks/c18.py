"""The parts of a parallel loop are put together completely."""
from framework import *
from parmodel import proven, flat

EXPLANATION = (
    'Every parallel loop with a state per thread is found. The function that merges the part of a thread into the result is interpreted '
    'abstractly for an arbitrary result and an arbitrary part: in every partition the new result has to consist of both. The body of the '
    'loop is interpreted for an arbitrary element and an arbitrary state: it may only add to the state, and what it adds may not depend '
    'on what the state contains. The initial state has to be empty.')
ASSUMPTIONS = ['parallel_do does what C14 says']


class Bad(Exception):
    def __init__(self, msg, line=None):
        self.msg, self.line = msg, line


class Unknown(Exception):
    pass


def sites(p):
    out, seen = [], set()
    for f in p.fns.values():
        if f.get('lambda') or f['b'].startswith('kigumi::parallel_'):
            continue
        for part in [f.get('body')] + [i.get('e') for i in f.get('inits', [])]:
            if part is None:
                continue
            for n in walk(part):
                if n['k'] == 'call' and base(n['fn'].get('qn', '')) == 'kigumi::parallel_do' and len(n['a']) == 5:
                    key = (p.where(f, n))
                    if key not in seen:
                        seen.add(key)
                        out.append((f, n))
    return out


def lambda_of(p, f, e):
    """The function of a lambda expression, or of the local variable that holds it."""
    x = next((y for y in walk(e) if y['k'] == 'lambda'), None)
    if x is None:
        v = next((y for y in walk(e) if y['k'] == 'var'), None)
        if v is None:
            return None
        for d in walk(f['body']):
            if d['k'] == 'decl':
                for z in d['v']:
                    if z['id'] == v['id'] and z.get('init') is not None:
                        x = next((y for y in walk(z['init']) if y['k'] == 'lambda'), None)
    if x is None:
        return None
    for i in x['fns']:
        if i in p.fns and p.fns[i].get('body') is not None:
            return p.fns[i]
    return None


def run(ctx):
    loops(ctx)


def loops(ctx, within=None):
    """The rules for every loop (of the classes `within`)."""
    p = ctx.prog()
    ss = [x for x in sites(p) if within is None or any(x[0]['b'].startswith(k + '::') for k in within)]
    ctx.count('parallel loops with a state', len(ss))
    if not ss and within is not None:
        return
    if not ss:
        ctx.und('parts of parallel loops', 'parallel loops', 'none was found')
    for f, n in ss:
        w = ctx.where(f, n)
        ctx.analysed.add(w)
        body, post = lambda_of(p, f, n['a'][3]), lambda_of(p, f, n['a'][4])
        for rule, g, fn in (('a part is merged into the result', post, merge), ('the body adds to the state', body, accumulate)):
            if g is None:
                ctx.und(rule, w, 'no lambda function')
                continue
            ctx.guarded(rule, f, lambda: fn(ctx, f, n, g, rule, w))
        ctx.guarded('the initial state is empty', f, lambda: neutral(ctx, f, n, w))


def environment(ctx, f, g, ai):
    """Symbols for everything the lambda function refers to."""
    own = {x['id'] for x in g['params']}
    for d in walk(g['body']):
        if d['k'] == 'decl':
            for v in d['v']:
                own.add(v['id'])
                for b in v.get('binds') or []:
                    own.add(b['id'] if isinstance(b, dict) else b)
    caps = {}
    for x in walk(g['body']):
        if x['k'] == 'var' and x['id'] not in own and x['id'] not in caps and x.get('t') is not None:
            _, t = ai.p.deref(x['t'])
            v = ai.symval(x['t'], x['n'])
            if t.get('repo') and t.get('c') == 'rec':
                v = ('R', v, base(t['base']), ())
            caps[x['id']] = ('&', ai.newcell(x['n'], v), ())
    return caps, sym_this(ai, f, 'this')


def explore(ctx, f, g, args, ai):
    caps, this = environment(ctx, f, g, ai)
    before = dict(ai.st.store)
    paths = ai.explore(lambda: ai.call_fn(g, this, args, None, caps))
    return paths, before


def mentions(v, t):
    if v == t:
        return True
    if isinstance(v, (tuple, frozenset, list)):
        return any(mentions(x, t) for x in v)
    if isinstance(v, dict):
        return any(mentions(x, t) for x in v.items())
    return False


def changed(ai, q, before):
    """[(cell, path, old value, new value)] of the objects that existed before."""
    locs = set()
    for e in q.ev:
        ai._written(e, _S(before), locs)
    locs = {(c, tuple(x for x in pa)) for c, pa in locs}
    out = []
    for c, pa in sorted(locs, key=repr):
        if any((c, pa[:i]) in locs for i in range(len(pa))):
            continue
        old, ai.st = ai.st, q.st
        try:
            new = ai.norm(ai.read(('&', c, pa)))
            st = dict(q.st.store)
            q.st.store.update({c: before[c]})
            was = ai.norm(ai.read(('&', c, pa)))
            q.st.store.clear()
            q.st.store.update(st)
        finally:
            ai.st = old
        if isinstance(was, tuple) and was[0] == 'S' and len(was[1]) == 1 and was[1][0][0] == 's' and not was[2]:
            was = was[1][0][1]
        out.append((c, pa, was, new))
    return out


class _S:
    def __init__(self, s):
        self.store = s


def heavy(p, g, seen=None):
    """Does a function contain loops, or much code?"""
    seen = seen if seen is not None else set()
    if g['id'] in seen:
        return True
    seen.add(g['id'])
    k = 0
    for n in walk(g['body']):
        k += 1
        if n['k'] in ('for', 'while', 'do', 'rangefor', 'forrange'):
            return True
        if n['k'] == 'call':
            h = p.fns.get(n['fn'].get('id'))
            if h is not None and n['fn'].get('repo') and h.get('body') is not None and heavy(p, h, seen):
                return True
    return k > 300


def stub_heavy(ai, p, g):
    """Calls of functions that compute something, made by the lambda function itself, are opaque unless they are given the state."""
    for n in walk(g['body']):
        if n['k'] != 'call' or not n['fn'].get('repo'):
            continue
        h = p.fns.get(n['fn'].get('id'))
        if h is None or (h.get('body') is not None and not heavy(p, h)):
            continue

        def stub(ai, fn, this, args, node):
            if any(isLV(a) and a[1] == '$part' for a in args):
                return NotImplemented
            r = T('result', fn['b'], ai.norm(ai.rval(this)) if this is not None else None, *(ai.norm(ai.rval(a)) for a in args))
            for a in args:
                o = ai.rval(a)
                if isR(o) and o[2] == 'out_it':
                    lv = dict(o[3])['to']
                    ai.write(lv, ('S', ai.as_seq(ai.read(lv))[1] + (('s', r),), ()), node)
            if node is not None and node.get('t') is not None:
                ai.register(r, node['t'])
            return r
        ai.ic[h['b']] = stub


def components(p, tidx, t):
    """The parts of a state: [(term, kind)]"""
    _, ty = p.deref(tidx)
    b = base(ty.get('base', ''))
    if b in ('std::pair', 'std::tuple'):
        return [c for i, a in enumerate(ty.get('ta', [])) for c in components(p, a['t'], T('.', t, str(i)))]
    if ty.get('repo') and ty.get('c') == 'rec' and ty.get('rec') is not None:
        return []
    return [t]


def seq_parts(v):
    """Parts of a sequence, None if it is not one."""
    if isinstance(v, tuple) and v and v[0] == 'S':
        return None if v[2] else list(v[1])
    return [('s', v)] if isT(v) else None


def terms(v, op):
    if isT(v) and v[1] == 'bop' and v[2] == op:
        return terms(v[3], op) + terms(v[4], op)
    return [v]


def empty(ai, q, t):
    old, ai.st = ai.st, q.st
    try:
        if t in (('S', (), ()), 0, False):
            return True
        d = q.st.dom.get(t)
        if d is not None and d <= frozenset({0, False}):
            return True
        return proven(ai, q.st, sub(1, T('len', t))) or (d is None and proven(ai, q.st, sub(1, t)) and ai.is_nonneg(t))
    finally:
        ai.st = old


def added(ai, q, was, new):
    """What was added to a value: ('seq', parts) | ('num', term) | ('bits', terms) | None; raises Bad if the old value is lost."""
    if isinstance(new, tuple) and new and new[0] == 'S':
        parts = seq_parts(new)
        if parts is None:
            return None
        olds = [x for x in parts if x == ('s', was)]
        rest = [x for x in parts if x != ('s', was)]
        if len(olds) > 1:
            raise Bad('the old contents appear twice')
        if not olds and not empty(ai, q, was):
            if any(mentions(x, was) for x in rest):
                return None
            raise Bad('what was there before is lost')
        return 'seq', rest
    if isT(new) and new[1] == 'bop' and new[2] == '|':
        ts = terms(new, '|')
        if was not in ts and not empty(ai, q, was):
            raise Bad('what was there before is lost')
        return 'bits', [x for x in ts if x != was]
    if isT(new) and new[1] == 'bop' and new[2] in ('&', '^') and mentions(new, was):
        raise Bad(f'flags are combined with {new[2]}')
    d = lin(sub(new, was)) if (isT(new) or isnum(new)) and (isT(was) or isnum(was)) else None
    if d is not None and d[0].get(was, 0) == 0:
        return 'num', sub(new, was)
    if d is not None and not mentions(new, was):
        if empty(ai, q, was):
            return 'seq', [('s', new)]
        raise Bad('what was there before is lost')
    return None


def neutral_value(v):
    if v in (0, False) or v == ('S', (), ()):
        return True
    if isR(v):
        return bool(v[3]) and all(neutral_value(x) for _, x in v[3])
    if isT(v):
        return v[1] in ('new', 'zero') and len(v) == 3
    return False


def of_part(t, part):
    while isT(t) and t[1] == '.':
        if t == part:
            return True
        t = t[2]
    return t == part


def finish(ctx, rule, w, bad, und, n, key=None):
    if bad:
        ctx.viol(rule, w, bad)
    elif und:
        ctx.und(rule, w, und)
    else:
        ctx.ok(rule, w, f'{n} partitions')


def cond(q):
    s = q.show_cond()
    return f', if {s[:160]}' if s else ''


def merge(ctx, f, n, g, rule, w):
    p = ctx.prog()
    ai = ctx.ai()
    part = T('atom', '$part')
    ai.register(part, g['params'][0]['t'])
    lv = ('&', ai.newcell('$part', part), ())
    paths, before = explore(ctx, f, g, [lv], ai)
    comps = components(p, g['params'][0]['t'], part)
    bad = und = None
    for q in paths:
        try:
            if q.kind != 'norm':
                raise Bad('an exception is thrown')
            got = []
            for c, pa, was, new in changed(ai, q, before):
                if c == '$part':
                    continue
                if isT(new) and new[1] == 'post':
                    got += element_loop(q, c, comps)
                    continue
                a = added(ai, q, was, new)
                if a is None:
                    raise Unknown(f'{c}: {show(new)[:120]}')
                kind, what = a
                if kind == 'num':
                    what = [what]
                elif kind == 'seq':
                    what = [y for x in what for y in seq_items(x, comps)]
                got += [x for x in what if of_part(x, part)]
                if any(not of_part(x, part) for x in what):
                    raise Unknown(f'{c}: {show(new)[:120]}')
            for c in comps:
                k = got.count(c)
                if k == 0 and not empty(ai, q, c):
                    raise Bad('the part of a thread is lost')
                if k > 1:
                    raise Bad('the part of a thread is merged twice')
        except Bad as e:
            bad = bad or e.msg + cond(q)
        except Unknown as e:
            und = und or str(e)
    finish(ctx, rule, w, bad, und, len(paths))


def seq_items(x, comps):
    """Components that a part of a sequence consists of."""
    if x[0] == 's':
        if isT(x[1]) and x[1][1] == 'slice' and any(mentions(x[1], c) for c in comps):
            raise Bad('only some elements of the part of a thread are merged')
        return [x[1]]
    if x[0] == 'g':
        kap, bound, items = x[1], x[2], x[3]
        for c in comps:
            if bound == T('len', c):
                for guard, ys in items:
                    if len(ys) != 1:
                        raise Bad('elements of the part of a thread are dropped or repeated')
                    if not mentions(ys[0], T('at', c, kap)):
                        raise Unknown('elements of a part')
                return [c]
    raise Unknown('elements of a part: ' + show(('S', (x,), ()))[:100])


def element_loop(q, cell, comps):
    """A loop over the elements of a part that stores each of them."""
    for e in q.ev:
        if e[0] != 'loop':
            continue
        c = next((c for c in comps if e[3] == T('len', c)), None)
        if c is None:
            continue
        hit = False
        for x in e[4]:
            ws = [y for y in x['ev'] if y[0] == 'w' and y[1] == cell]
            if x['kind'] != 'norm':
                raise Bad('the loop over the part of a thread ends early', e[1])
            if not ws:
                raise Bad('elements of the part of a thread are dropped' + (', if ' + ' and '.join(show(k)[:60] for k in x['guard']) if x['guard'] else ''), e[1])
            for y in ws:
                if not any(z[0] == 'i' for z in y[2]):
                    raise Unknown(f'{cell} is changed in a loop')
                if not (mentions(y[2], T('at', c, e[2])) or mentions(y[3], T('at', c, e[2]))):
                    raise Unknown(f'{cell} is changed in a loop')
            hit = True
        if hit:
            return [c]
    raise Unknown(f'{cell} is changed in a loop')


def accumulate(ctx, f, n, g, rule, w):
    p = ctx.prog()
    ai = ctx.ai()
    stub_heavy(ai, p, g)
    part = T('atom', '$part')
    ai.register(part, g['params'][1]['t'])
    _, pt = p.deref(g['params'][1]['t'])
    lv = ('&', ai.newcell('$part', ('S', (('s', part),), ()) if base(pt.get('base', '')) in ('std::vector', 'std::deque') else part), ())
    el = ai.symval(g['params'][0]['t'], '$element')
    _, t = ai.p.deref(g['params'][0]['t'])
    if t.get('repo') and t.get('c') == 'rec':
        el = ('R', el, base(t['base']), ())
    paths, before = explore(ctx, f, g, [('&', ai.newcell('$element', el), ()), lv], ai)
    bad = und = None
    seen = {}
    for q in paths:
        try:
            if q.kind not in ('norm', 'throw'):
                raise Unknown(q.kind)
            if q.kind == 'throw':
                continue
            adds = []
            for c, pa, was, new in changed(ai, q, before):
                if c != '$part':
                    continue
                if isT(new) and new[1] == 'post':
                    raise Unknown('the state is changed in a loop')
                a = added(ai, q, was, new)
                if a is None:
                    raise Unknown(f'state: {show(new)[:120]}')
                if mentions(a[1], part):
                    raise Bad('what is added to the state depends on the state')
                adds.append((pa, a[0], repr(a[1])))
            other = frozenset((k, d) for k, d in q.st.dom.items() if not mentions(k, part))
            about = [k for k in q.st.dom if mentions(k, part)]
            adds = tuple(adds)
            for o, (a2, ab2) in seen.items():
                if (o <= other or other <= o) and a2 != adds and (about or ab2):
                    raise Bad('what is added to the state depends on the state' + cond(q))
            seen[other] = (adds, about)
        except Bad as e:
            bad = bad or e.msg
        except Unknown as e:
            und = und or str(e)
    finish(ctx, rule, w, bad, und, len(paths))


def neutral(ctx, f, n, w):
    ai = ctx.ai()
    rule = 'the initial state is empty'
    e = n['a'][2]

    def go():
        ai.frames.append({'vars': {}, 'this': sym_this(ai, f, 'this'), 'fn': f})
        try:
            for y in walk(e):
                if y['k'] == 'var':
                    for d in walk(f['body']):
                        if d['k'] == 'decl':
                            for z in d['v']:
                                if z['id'] == y['id']:
                                    ai.declare(z)
            return ai.norm(ai.rval(ai.eval(e)))
        finally:
            ai.frames.pop()
    for q in ai.explore(go):
        if q.kind == 'norm' and neutral_value(q.val):
            ctx.ok(rule, w, show(q.val)[:80])
        elif q.kind == 'norm' and isinstance(q.val, int) or isinstance(q.val, tuple) and q.val and q.val[0] == 'S' and q.val[1]:
            ctx.viol(rule, w, f'each thread starts with {show(q.val)[:80]}')
        else:
            ctx.und(rule, w, f'{q.kind} {show(q.val)[:80]}')
