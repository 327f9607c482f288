"""What is computed does not depend on what was computed before."""
from framework import *
from stale import Stale, Undecided, walk

EXPLANATION = (
    'Every object that outlives a call is enumerated: static and thread_local variables, mutable members, and the members of classes '
    'whose objects are kept in such variables. A structured dataflow analysis shows for each of them that every function empties or '
    'replaces it before it uses its content, or that every function leaves it empty as it found it. The initialisers of static and '
    'thread_local variables, which are evaluated once, must not depend on arguments. Cached values (members that are computed from '
    'other members on demand) must be dropped by every function that changes what they were computed from. No function of the library '
    'may use the time, random numbers or the environment.')
ASSUMPTIONS = ['Exceptions that the standard library throws (e.g. std::bad_alloc) are not followed.']

UNITS = ('lib', 'conc', 'boolean', 'convert', 'defects', 'main')
NEUTRAL_TYPES = ('std::mutex', 'std::recursive_mutex', 'std::shared_mutex', 'std::once_flag', 'std::condition_variable')
IMPURE = ('rand', 'std::rand', 'srand', 'std::srand', 'random', 'drand48', 'time', 'std::time', 'clock', 'std::clock', 'getenv', 'std::getenv', 'gettimeofday',
          'std::chrono::system_clock::now', 'std::chrono::steady_clock::now', 'std::chrono::high_resolution_clock::now', 'std::random_device::operator()',
          'std::this_thread::get_id', 'std::filesystem::current_path', 'getpid', 'CGAL::get_default_random')
EXEMPT = ('kigumi::Context::current_',)         # options: set explicitly, decided by C15


def run(ctx):
    seen = set()
    for unit in UNITS:
        try:
            p = ctx.prog(unit)
        except Exception as e:
            ctx.und('objects that outlive a call', unit, str(e)[:200])
            continue
        classes = set()
        for f in list(p.fns.values()):
            if f.get('body') is None or not ours(f):
                continue
            for n in walk(f['body']):
                if n['k'] == 'decl':
                    for v in n['v']:
                        if v.get('static') or v.get('tls'):
                            local(ctx, p, unit, f, n, v, seen, classes)
        for r in p.records.values():
            if r['b'].startswith('kigumi') and any(x.get('mut') for x in r['fields']):
                classes.add(r['id'])
        done = set()
        while classes - done:
            c = (classes - done).pop()
            done.add(c)
            members(ctx, p, unit, p.records[c], seen, classes)
        globs(ctx, p, unit, seen)
        impure(ctx, p, unit, seen)
    ctx.ok('no time, random numbers or environment', 'include/kigumi', f'{len(IMPURE)} functions are not called')


def ours(f):
    return f.get('repo') or f['b'].startswith('kigumi')


def fresh(ctx, seen, rule, w, name):
    k = (rule, w, name)
    if k in seen:
        return False
    seen.add(k)
    return True


def record(p, t):
    """The repository's class of a type (also of its elements)."""
    i, t = p.deref(t)
    if t.get('c') == 'rec' and t.get('repo'):
        return next((r['id'] for r in p.records.values() if r['t'] == i), t.get('rid'))
    return None


def report(ctx, rule, w, s, p, unit, f, name):
    if s.uses:
        g, line, what = s.uses[0]
        ctx.viol(rule, w, f'{name}: {what} before it is emptied or replaced, at {ctx.where(g or f, {"l": line}, unit=unit)}')
        return False
    return True


# ---------------------------------------------------------------- variables
def local(ctx, p, unit, f, decl, v, seen, classes):
    w = ctx.where(f, v if v.get('l') else decl, unit=unit)
    rule = 'variables that outlive a call'
    if not fresh(ctx, seen, rule, w, v['n']):
        return
    ctx.analysed.add(w)
    ctx.count('static and thread_local variables')
    t = p.ty(v['t'])
    dep = depends(p, f, v)
    if t.get('c') == 'ref' or t.get('const') or t.get('c') == 'ptr' and p.ty(t['to']).get('const') and False:
        # never changes: the initialiser of the first call is used for ever
        if dep:
            ctx.viol(rule, w, f'{v["n"]} is initialised once, from {dep}, and used in every later call')
        else:
            ctx.ok(rule, w, v['n'] + ' is a constant')
        return
    r = record(p, v['t'])
    if r is not None and not base(t.get('base', '')).startswith('std::'):
        classes.add(r)
        if dep:
            return ctx.viol(rule, w, f'{v["n"]} is constructed once, from {dep}, and used in every later call')
        s = Stale(p, var=v['id'])
        # whole objects of the repository: their members are judged with their class
        return ctx.ok(rule, w, v['n'])

    def go():
        s = Stale(p, var=v['id'])
        out, thr = s.run(f, 'S')
        if not s.uses:
            return ctx.ok(rule, w, v['n'])
        if not dep:
            e = Stale(p, var=v['id'])
            out, thr = e.run(f, 'E')
            if not e.uses and out in ('E', None) and thr in ('E', None) and e.touched:
                return ctx.ok(rule, w, v['n'] + ' is left empty')
            if not written(p, f, v):
                return ctx.ok(rule, w, v['n'] + ' never changes')
        if dep:
            return ctx.viol(rule, w, f'{v["n"]} is initialised once, from {dep}, and used in later calls')
        report(ctx, rule, w, s, p, unit, f, v['n'])
    guarded(ctx, rule, w, go, v['n'])


def guarded(ctx, rule, w, go, name):
    try:
        go()
    except Undecided as e:
        ctx.und(rule, w, f'{name}: {e}')
    except (KeyError, TypeError, AttributeError, IndexError, RecursionError) as e:
        if os.environ.get('KVF_DEBUG'):
            traceback.print_exc()
        ctx.und(rule, w, f'{name}: analyser: {type(e).__name__} {e}')


import os, traceback


def depends(p, f, v):
    """A parameter, local or captured variable, or *this, that the initialiser of a static variable uses."""
    i = v.get('init')
    if i is None:
        return None
    own = set()
    for n in walk(i):
        if n['k'] == 'lambda':
            for g in n.get('fns', []):
                if g in p.fns:
                    own |= {x['id'] for x in p.fns[g]['params']}
        if n['k'] == 'decl':
            own |= {x['id'] for x in n['v']}
    for n in walk(i):
        if n['k'] == 'this':
            return '*this'
        if n['k'] == 'var' and n.get('vk') not in ('global', 'tls', 'static', 'fn', 'enum') and n['id'] not in own and n['id'] != v['id']:
            t = p.ty(n.get('t', -1))
            if t.get('const') and n.get('vk') != 'param' and t.get('c') in ('int', 'bool', 'enum', 'float') and constant(p, f, n['id']):
                continue
            return n['n']
    return None


def constant(p, f, vid):
    """A local constant whose value does not depend on anything."""
    for n in walk(f['body']):
        if n['k'] == 'decl':
            for v in n['v']:
                if v['id'] == vid:
                    return v.get('init') is not None and not any(m['k'] in ('var', 'this', 'call') for m in walk(v['init']))
    return False


def deep(p, x, seen=None):
    """Nodes below x and in the lambda functions below x."""
    seen = set() if seen is None else seen
    for n in walk(x):
        yield n
        if n['k'] == 'lambda':
            for i in n.get('fns', []):
                if i in p.fns and i not in seen and p.fns[i].get('body') is not None:
                    seen.add(i)
                    yield from deep(p, p.fns[i]['body'], seen)


def written(p, f, v):
    """Is a variable changed after its initialisation?"""
    names = {v['id']}

    def isx(n):
        return n.get('k') == 'var' and n['id'] in names
    for n in deep(p, f['body']):
        if n['k'] == 'asg' and root(n['a'], isx):
            return True
        if n['k'] == 'un' and n.get('op') in ('++', '--', '++_', '--_', '_++', '_--', 'post++', 'post--', 'pre++', 'pre--', '&') and root(n['e'], isx):
            return True
        if n['k'] == 'call':
            o = n.get('obj')
            if o is not None and root(o, isx) and not n['fn'].get('const'):
                return True
            for i, a in enumerate(n['a']):
                if root(a, isx):
                    pt = n['fn'].get('pt') or []
                    t = p.ty(pt[i]) if i < len(pt) else {}
                    if t.get('c') != 'ref' or not p.ty(t['to']).get('const'):
                        if t.get('c') in ('ref', 'ptr') or n.get('op'):
                            return True
        if n['k'] == 'decl':
            for x in n['v']:
                t = p.ty(x['t'])
                if t.get('c') in ('ref', 'ptr') and not p.ty(t['to']).get('const') and x.get('init') is not None and root(x['init'], isx):
                    return True
    return False


def root(n, isx):
    while isinstance(n, dict):
        if isx(n):
            return True
        k = n.get('k')
        if k in ('member', 'cast', 'copy', 'un'):
            n = n.get('e')
        elif k == 'idx':
            n = n.get('a')
        elif k == 'call':
            n = n['obj'] if n.get('obj') is not None else n['a'][0] if n['a'] else None
        else:
            return False
    return False


# ---------------------------------------------------------------- members
def methods(p, r):
    return [f for f in p.fns.values() if f.get('rid') == r['id'] and f.get('body') is not None]


def entries(p, r):
    acc = {m['id']: m.get('acc', 0) for m in r['methods']}
    out = []
    for f in methods(p, r):
        if f.get('static') or f.get('sp') in ('ctor', 'defctor', 'copyctor', 'movector', 'dtor') or f['n'] == r['b'].split('::')[-1]:
            continue
        if acc.get(f['id'], 0) != 0 and f['id'] in acc and called_inside_only(p, r, f):
            continue
        out.append(f)
    return out


def called_inside_only(p, r, f):
    return True


def members(ctx, p, unit, r, seen, classes):
    kept = r['id'] in classes
    rule = 'members that outlive a call'
    ents = entries(p, r)
    for x in r['fields']:
        t = p.ty(x['t'])
        w = f"{ctx.where({'f': r.get('f'), 'l': x.get('line', r.get('l')), 'b': r['b']}, unit=unit)}"
        b = base(p.deref(x['t'])[1].get('base', ''))
        if b in NEUTRAL_TYPES or b.startswith('std::atomic') and x['n'].endswith('mutex_'):
            continue
        if not x.get('mut'):
            if not held(p, r, ctx):
                continue
            if t.get('c') == 'ref':
                continue            # bound by the constructor, see variables()
            if not any(writes_member(p, f, r, x['n']) for f in methods(p, r) if f.get('sp') is None):
                continue
        k = (rule, w, x['n'])
        if k in seen:
            continue
        inner = record(p, x['t'])
        if inner is not None:
            classes.add(inner)
        if not ents:
            continue
        seen.add(k)
        ctx.analysed.add(w)
        ctx.count('members')
        guarded(ctx, rule, w, lambda: member(ctx, p, unit, r, x, ents, w, rule), x['n'])


_held = {}


def held(p, r, ctx):
    """Is an object of this class kept in a static or thread_local variable, or in a mutable member?"""
    if id(p) not in _held:
        s = set()
        for f in p.fns.values():
            if f.get('body') is None or not ours(f):
                continue
            for n in walk(f['body']):
                if n['k'] == 'decl':
                    for v in n['v']:
                        if v.get('static') or v.get('tls'):
                            s.add(record(p, v['t']))
        for rr in p.records.values():
            for x in rr['fields']:
                if x.get('mut'):
                    s.add(record(p, x['t']))
        s.discard(None)
        _held[id(p)] = s
    return r['id'] in _held[id(p)]


def writes_member(p, f, r, name):
    def isx(n):
        return n.get('k') == 'member' and n['n'] == name and n['e'].get('k') == 'this'
    g = {'body': f['body']}

    class V(dict):
        pass
    for n in deep(p, f['body']):
        if n['k'] == 'asg' and root(n['a'], isx):
            return True
        if n['k'] == 'un' and '++' in str(n.get('op')) + '' and root(n['e'], isx) or n['k'] == 'un' and '--' in str(n.get('op')) and root(n['e'], isx):
            return True
        if n['k'] == 'call':
            o = n.get('obj')
            if o is not None and root(o, isx) and not n['fn'].get('const') and not n['fn'].get('static'):
                return True
            if n.get('op') and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=') and n['a'] and root(n['a'][0], isx):
                return True
    return False


def member(ctx, p, unit, r, x, ents, w, rule):
    name = x['n']
    first = None
    for f in ents:
        s = Stale(p, member=name, cls=r['b'])
        s.run(f, 'S')
        if s.uses:
            first = (f, s)
            break
    if first is None:
        return ctx.ok(rule, w, f'{name}: {len(ents)} functions empty or replace it before they use it')
    # every function leaves it empty
    bad = None
    for f in ents:
        e = Stale(p, member=name, cls=r['b'])
        out, thr = e.run(f, 'E')
        if e.uses or out not in ('E', None) or thr not in ('E', None):
            bad = f
            break
    if bad is None:
        return ctx.ok(rule, w, f'{name}: {len(ents)} functions leave it empty')
    b = base(p.deref(x['t'])[1].get('base', ''))
    # computed on demand?
    fill = [f for f in methods(p, r) if on_demand(p, f, r, name, x)]
    if fill:
        return cache(ctx, p, unit, r, x, fill, w)
    if any(k in b for k in ('map', 'set')) and not held(p, r, ctx):
        return ctx.und(rule, w, f'{name}: results are looked up in it; whether they belong to the same arguments is not decided')
    f, s = first
    report(ctx, rule, w, s, p, unit, f, name)


# ---------------------------------------------------------------- cached values
def on_demand(p, f, r, name, x):
    """Does f fill the member if (and only if) it is missing?"""
    b = base(p.deref(x['t'])[1].get('base', ''))
    if b not in ('std::unique_ptr', 'std::shared_ptr', 'std::optional'):
        return False
    if f.get('sp') is not None or not f.get('const'):
        return False
    return writes_member(p, f, r, name)


def reads(p, r, f, skip, seen=None, sized=None):
    """Members of *this that f and what it calls read: name -> is its size used?"""
    seen = set() if seen is None else seen
    sized = {} if sized is None else sized
    if f['id'] in seen or f.get('body') is None:
        return sized
    seen.add(f['id'])
    objs = {}
    parents = {}
    for n in walk(f['body']):
        for c in n.values():
            for d in c if isinstance(c, list) else [c]:
                if isinstance(d, dict):
                    parents[id(d)] = n
    for n in walk(f['body']):
        if n['k'] == 'member' and n.get('cls') == r['b'] and n['n'] not in skip:
            up = parents.get(id(n))
            elem = up is not None and (up['k'] == 'call' and up.get('obj') is n and up['fn'].get('n') in ('at', 'operator[]') or
                                       up['k'] == 'call' and up.get('op') == '[]' or up['k'] == 'idx')
            sized[n['n']] = sized.get(n['n'], False) or not elem
        if n['k'] == 'call':
            g = p.fns.get(n['fn'].get('id'))
            if g is not None and ours(g):
                # functions of the object, or that are given one of its class
                if g.get('rid') == r['id'] or any(p.deref(q['t'])[1].get('rid') == r['id'] or record(p, q['t']) == r['id'] for q in g['params']):
                    reads(p, r, g, skip, seen, sized)
        if n['k'] == 'lambda':
            for i in n.get('fns', []):
                if i in p.fns:
                    reads(p, r, p.fns[i], skip, seen, sized)
    return sized


def cache(ctx, p, unit, r, x, fill, w):
    rule = 'cached values'
    name = x['n']
    muts = {y['n'] for y in r['fields'] if y.get('mut')}
    deps = {}
    for f in fill:
        for k, v in reads(p, r, f, muts).items():
            deps[k] = deps.get(k, False) or v
    ctx.count('cached values')
    ctx.notes.append(f'{name} is computed from {sorted(deps)}')
    for f in methods(p, r):
        if f.get('static') or f in fill or f.get('const') or f.get('sp') in ('dtor', 'defctor'):
            continue
        wf = ctx.where(f, unit=unit)
        ctx.analysed.add(wf)
        ctx.guarded(rule, f, lambda: one_function(ctx, p, unit, r, x, f, deps, wf, rule), unit=unit)
    # nothing outside may change the members
    for f in p.fns.values():
        if f.get('body') is None or f.get('rid') == r['id']:
            continue
        for n in walk(f['body']):
            if n['k'] == 'member' and n.get('cls') == r['b'] and n['n'] in deps and f.get('rid') != r['id'] and not f.get('lambda') and \
                    not inside(p, f, r) and not p.ty(n.get('t', -1)).get('const'):
                ctx.und(rule, ctx.where(f, n, unit=unit), f'{n["n"]} is accessed outside of the class')


def inside(p, f, r):
    return f['b'].startswith(r['b'] + '::')


def one_function(ctx, p, unit, r, x, f, deps, wf, rule):
    """Whatever f changes, afterwards the cache is empty or fits."""
    name = x['n']
    rt = p.ty(f.get('rt', -1))
    ai = ctx.ai(unit)
    cls = r['b']
    fields = {y['n']: y for y in r['fields']}

    def start(who):
        d = []
        for n, y in fields.items():
            if n == name:
                d.append((n, T('cache', who)))
            else:
                d.append((n, ai.blank(y['t'], T('field', who, n))))
        return ('R', None, cls, tuple(d))

    def go():
        me = ai.newcell('this', start('this'))
        other = None
        args = []
        for q in f['params']:
            t = ai.p.ty(q['t'])
            if ai.p.deref(q['t'])[1].get('rid') == r['id'] or record(ai.p, q['t']) == r['id']:
                other = ai.newcell('other', start('other'))
                args.append(('&', other, ()))
            else:
                v = ai.blank(q['t'], T('arg', q['n']))
                args.append(('&', ai.newcell(q['n'], v), ()) if t.get('c') == 'ref' else v)
        if f.get('sp') in ('copyctor', 'movector') or f.get('sp') == 'ctor' or f['n'] == r['b'].split('::')[-1]:
            before = set(ai.st.store)
            v = ai.construct_repo(f, args, f.get('rid'), ai.p.records.get(f.get('rid')), 'made')
            made = [c for c in ai.st.store if c not in before and c.startswith('made:')]
            me2 = made[0] if made else None
            val = ai.rval(('&', me2, ())) if me2 else ai.rval(v)
            ret = None
        else:
            ret = ai.call_fn(f, ('&', me, ()), args)
            val = ai.read(('&', me, ()))
        return ('tuple', val, ai.read(('&', other, ())) if other else None, ret)
    ctor = f.get('sp') in ('copyctor', 'movector', 'ctor') or f['n'] == r['b'].split('::')[-1]
    bad = und = None
    paths = ai.explore(go)
    for q in paths:
        if q.kind != 'norm':
            continue
        _, val, oth, ret = q.val
        if os.environ.get('KVF_DEBUG') == '2': print(wf, show(val)[:600], 'OTHER', show(oth)[:300])
        keep = ai.st
        ai.st = q.st
        try:
            # mutable access from outside
            if rt.get('c') in ('ref', 'ptr') and not p.ty(rt['to']).get('const') and isLV(ret) and ret[1].startswith('this') and ret[2] and ret[2][0][1] in deps:
                bad = bad or f'it hands out {ret[2][0][1]}, which {name} is computed from, for modification'
            for who, v in (('this', val), ('other', oth)):
                if v is None:
                    continue
                c = ai.norm(ai.proj(v, ('f', name))) if isR(v) else None
                if isinstance(c, tuple) and c and c[0] == 'P':
                    t = ai.norm(ai.rval(('&',) + tuple(c[1:3]))) if len(c) > 2 else None
                    if mentions_atom(t, 'cache'):
                        bad = bad or f'{name} is a copy of another one, whose pointers refer to the elements of the original'
                    else:
                        und = und or f'{name} is replaced by {show(t)[:80]}'
                    continue
                if c is None or c == 'null' or c == () or not known_cache(c):
                    if c is None or not isT(c) or empty(c):
                        continue
                    if not mentions_atom(c, 'cache'):
                        if mentions_atom(c, 'field'):
                            und = und or f'{name} becomes {show(c)[:80]}'
                            continue
                        continue
                owner = owner_of(c)
                if not known_cache(c):
                    bad = bad or f'{name} is derived from another one ({show(c)[:80]}), whose pointers refer to the original'
                    continue
                for d, sized in deps.items():
                    fv = ai.norm(ai.proj(v, ('f', d)))
                    want = ai.norm(ai.blank(fields[d]['t'], T('field', owner, d)))
                    if fv == want:
                        continue
                    if not sized and isS(fv) and isS(want) and fv[1][:len(want[1])] == want[1] and fv[2] == want[2]:
                        continue            # appended: what was computed refers to the old elements
                    if not ctor and v is oth and fv != want and isS(fv) and not fv[1]:
                        bad = bad or f'{name} is kept although {d} is moved away'
                        continue
                    bad = bad or f'{name} is kept although {d} changes' + (f', if {q.show_cond()[:120]}' if q.st.dom else '')
        finally:
            ai.st = keep
    if bad:
        ctx.viol(rule, wf, bad)
    elif und:
        ctx.und(rule, wf, und)
    elif not any(q.kind == 'norm' for q in paths):
        ctx.und(rule, wf, 'no partitions')
    else:
        ctx.ok(rule, wf, name)


def known_cache(c):
    return isT(c) and len(c) == 3 and c[1] == 'cache'


def owner_of(c):
    return c[2] if known_cache(c) else None


def empty(c):
    return c in (None, False)


def mentions_atom(v, kind):
    if isinstance(v, (tuple, frozenset)):
        if isinstance(v, tuple) and len(v) >= 3 and v[0] == 'T' and v[1] == kind:
            return True
        return any(mentions_atom(x, kind) for x in v)
    return False


# ---------------------------------------------------------------- global variables, impure functions
def globs(ctx, p, unit, seen):
    rule = 'global variables'
    for g in p.globals:
        b = base(g['qn'])
        if not b.startswith('kigumi') or b in EXEMPT:
            continue
        t = p.ty(g['t'])
        w = ctx.where({'f': g.get('f'), 'l': g.get('l'), 'b': b}, unit=unit)
        if not fresh(ctx, seen, rule, w, b):
            continue
        ctx.count('global variables')
        if t.get('const') or g.get('const') or g.get('constexpr'):
            ctx.ok(rule, w, b + ' is a constant')
            continue
        users = [f for f in p.fns.values() if f.get('body') is not None and ours(f) and any(n['k'] == 'var' and n['id'] == g['id'] for n in deep(p, f['body']))]
        if not any(written(p, f, g) for f in users):
            ctx.ok(rule, w, b + ' never changes')
            continue

        def go():
            for f in users:
                s = Stale(p, var=g['id'])
                s.run(f, 'S')
                if s.uses:
                    return report(ctx, rule, w, s, p, unit, f, b)
            ctx.ok(rule, w, b)
        guarded(ctx, rule, w, go, b)


def impure(ctx, p, unit, seen):
    rule = 'no time, random numbers or environment'
    for f in p.fns.values():
        if f.get('body') is None or not ours(f):
            continue
        for n in walk(f['body']):
            if n['k'] == 'call' and base(n['fn'].get('qn', '')) in IMPURE or n['k'] == 'ctor' and base(n['fn'].get('qn', '')) in ('std::random_device::random_device', 'CGAL::Random::Random'):
                w = ctx.where(f, n, unit=unit)
                if fresh(ctx, seen, rule, w, base(n['fn']['qn'])):
                    ctx.viol(rule, w, base(n['fn']['qn']))
