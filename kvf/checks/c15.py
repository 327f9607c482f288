"""No parallel step uses more threads than the options allow."""
from framework import *
from parmodel import *
from checks import c14, c17

EXPLANATION = (
    'The options are interpreted abstractly: the stored number of threads is between one and the number of processors for every number '
    'that is asked for, and a context installs options and restores the previous ones. parallel_do, parallel_sort and the building of '
    'the search tree are interpreted with models of threads: the number of threads that each starts is compared with the option, and '
    'each thread of parallel_do has to install the options of its creator before it runs the body, since the body may start further '
    'parallel work. No other function of the library and of the tool may start threads.')
ASSUMPTIONS = ['std::log2 and the conversion to int yield at most the binary logarithm', 'the limit holds for each parallel step: steps that are nested in '
               'the iterations of another one may each use as many threads']

HW = 'std::thread::hardware_concurrency'
OPT = 'kigumi::Threading_options'
CUR = 'current_'


class Bad(Exception):
    def __init__(self, msg, line=None):
        self.msg, self.line = msg, line


class NestedThreads(Exception):
    pass


class Unknown(Exception):
    pass


def run(ctx):
    p = ctx.prog('conc')
    covered = set()
    options(ctx, p)
    context(ctx, p)
    dos = [f for f in p.fns.values() if f['b'] == 'kigumi::parallel_do' and f.get('body') is not None and len(f['params']) in (3, 5) and
           any('kvf_conc' in p.tname(x['t']) for x in f['params'][2:])]
    if not dos:
        ctx.und('threads of parallel_do', 'parallel_do', 'not found')
    for f in dos:
        ctx.analysed.add(ctx.where(f, unit='conc'))
        ctx.guarded('threads of parallel_do', f, lambda: check_do(ctx, f, covered), unit='conc')
    for f in p.fns.values():
        if f['b'] == 'kigumi::parallel_sort' and f.get('body') is not None and len(f['params']) == 3:
            ctx.analysed.add(ctx.where(f, unit='conc'))
            for n in range(1, 10 if ctx.tier == 'quick' else 66):
                ctx.guarded(f'threads of parallel_sort with {n} threads', f, lambda: check_sort(ctx, f, n, covered), unit='conc')
    lib = ctx.prog()
    for f in c17.fns(ctx, 'build'):
        for g in c17.fns(ctx, 'traverse')[:1]:
            ctx.analysed.add(ctx.where(f))
            ctx.guarded('threads that build the search tree', f, lambda: check_build(ctx, f, g, covered))
    for f in c17.fns(ctx, 'AABB_tree'):
        if len(f['params']) == 1 and f.get('sp') not in ('copyctor', 'movector'):
            ctx.guarded('depth limit of the search tree', f, lambda: check_limit(ctx, f))
    others(ctx, covered)


# ---------------------------------------------------------------- options
def decide(ctx, rule, w, paths, one):
    bad = und = None
    for q in paths:
        try:
            one(q)
        except Bad as e:
            bad = bad or e.msg + (f', if {q.show_cond()[:160]}' if q.st.dom else '')
        except Unknown as e:
            und = und or str(e)
    if bad:
        ctx.viol(rule, w, bad)
    elif und or not paths:
        ctx.und(rule, w, und or 'no partitions')
    else:
        ctx.ok(rule, w, f'{len(paths)} partitions')


def hw_ai(ctx):
    ai = ctx.ai('conc')
    hw = T('atom', 'processors')
    ai.nonneg.add(hw)
    ai.ic[HW] = lambda ai, fn, this, args, node: hw
    return ai, hw


def ge(ai, q, a, b):
    d = sub(a, b)
    return d >= 0 if isinstance(d, int) else bool(proven(ai, q.st, add(d, 1)))


def options(ctx, p):
    fs = {f['b'].split('::')[-1]: f for f in p.fns.values() if f['b'].startswith(OPT + '::') and f.get('body') is not None}
    setter, getter = fs.get('set_num_threads'), fs.get('num_threads')
    if setter is None or getter is None:
        return ctx.und('number of threads', OPT, 'not found')

    def range_of(rule, f, start):
        ai, hw = hw_ai(ctx)
        n = T('atom', 'n')
        ai.nonneg.add(n)

        def go():
            o = ('&', ai.newcell('options', start(ai)), ())
            if f is setter:
                ai.call_fn(setter, o, [n])
            return ai.rval(ai.call_fn(getter, o, []))

        def one(q):
            if q.kind != 'norm':
                raise Bad('an exception is thrown')
            v = q.val
            if not (isT(v) or isnum(v)):
                raise Unknown(show(v)[:80])
            if not ge(ai, q, v, 1):
                raise Bad(f'the number of threads may be {show(v)}, which may be zero')
            # at most max(1, processors)
            if not (ge(ai, q, hw, v) or ge(ai, q, 1, v) or ge(ai, q, 0, hw) and ge(ai, q, 1, v)):
                raise Bad(f'the number of threads may be {show(v)}, which is not bounded by the number of processors')
            if f is setter and v != n and not (ge(ai, q, 0, n) and v == 1 or ge(ai, q, n, v)):
                raise Bad(f'{show(n)} threads are asked for, the number becomes {show(v)}')
            if f is setter and v != n and ge(ai, q, n, 1) and ge(ai, q, hw, n) and not ge(ai, q, v, n):
                raise Bad(f'{show(n)} threads are asked for, the number becomes {show(v)}')
        w = ctx.where(f, unit='conc')
        ctx.analysed.add(w)
        ctx.guarded(rule, f, lambda: decide(ctx, rule, w, ai.explore(go), one), unit='conc')
    range_of('number of threads that is set', setter, lambda ai: ('R', T('atom', 'options'), OPT, ()))
    t = next((x['t'] for f in p.fns.values() for x in f['params'] if p.tname(x['t']) == OPT), None)
    if t is None:
        t = next((i for i, x in enumerate(p.units[0]['types']) if isinstance(x, dict) and base(x.get('base', '')) == OPT), None)
    range_of('default number of threads', getter, lambda ai: ai.default(t))


def context(ctx, p):
    rule = 'a context restores the options'
    ct = next((f for f in p.fns.values() if f['b'].endswith('Context::Context') and len(f['params']) == 1 and f.get('sp') not in ('copyctor', 'movector')), None)
    dt = next((f for f in p.fns.values() if f['b'].endswith('Context::~Context') and f.get('body') is not None), None)
    cur = next((f for f in p.fns.values() if f['b'].endswith('Context::current') and f.get('body') is not None), None)
    if ct is None or cur is None:
        return ctx.und(rule, 'Context', 'not found')
    ai = ctx.ai('conc')
    given = ('R', T('atom', 'given'), OPT, ())

    def go():
        a = ai.norm(ai.rval(ai.call_fn(cur, None, [])))
        cell = ('&', ai.newcell('given', given), ())
        before = set(ai.st.store)
        ai.construct_repo(ct, [cell], ct.get('rid'), ai.p.records.get(ct.get('rid')), 'context')
        c = next(x for x in ai.st.store if x not in before and x.startswith('context:'))
        b = ai.norm(ai.rval(ai.call_fn(cur, None, [])))
        if dt is not None:
            ai.call_fn(dt, ('&', c, ()), [])
        return ('tuple', a, b, ai.norm(ai.rval(ai.call_fn(cur, None, []))))

    def one(q):
        if q.kind != 'norm':
            raise Bad('an exception is thrown')
        _, a, b, c = q.val
        if not same(b, T('atom', 'given')):
            raise Bad('the options of a context are not installed')
        if not same(c, a):
            raise Bad('the end of a context does not restore the previous options')
    w = ctx.where(ct, unit='conc')
    ctx.analysed.add(w)
    ctx.guarded(rule, ct, lambda: decide(ctx, rule, w, ai.explore(go), one), unit='conc')
    # each thread has options of its own
    rule = 'each thread has options of its own'
    vs = [n for n in walk(cur['body']) if n['k'] == 'var' and n.get('vk') in ('tls', 'global')]
    if not vs:
        ctx.und(rule, ctx.where(cur, unit='conc'), 'the current options are not found')
    elif any(v['vk'] != 'tls' for v in vs):
        ctx.viol(rule, ctx.where(cur, unit='conc'), 'the current options are shared by all threads, which replace them at the same time')
    else:
        ctx.ok(rule, ctx.where(cur, unit='conc'))


def same(a, b):
    def n(x):
        return x[1] if isR(x) and x[1] is not None and not x[3] else x
    return n(a) == n(b)


# ---------------------------------------------------------------- helpers
def spawns(evs, loops=()):
    """Threads that are started, with the bounds of the loops around."""
    for e in evs:
        if e[0] == 'spawn':
            yield e, loops
        if e[0] == 'loop':
            for q in e[4]:
                yield from spawns(q['cev'] + q['ev'], loops + (e,))


def check_do(ctx, f, covered):
    th, seq, size, paths = c14.explore_do(ctx, f)
    ai = th.ai
    covered |= ai.called
    w = ctx.where(f, unit='conc')
    n = [0]

    def limit(q):
        for e, loops in spawns(q.ev):
            n[0] += 1
            if len(loops) != 1:
                if loops:
                    raise Unknown('threads are started in nested loops')
                continue
            b = loops[0][3]
            if ai.nt is None:
                raise Bad('threads are started whatever the options say')
            if b is None:
                raise Unknown('number of threads')
            if not ge(ai, q, ai.nt, b):
                raise Bad(f'{show(b)} threads are started where the options allow {show(ai.nt)}')
        single = [e for e, loops in spawns(q.ev) if not loops]
        if single and not ge(ai, q, ai.nt if ai.nt is not None else 0, len(single)):
            raise Bad(f'{len(single)} threads are started whatever the options say')

    def options_of(q):
        for e, loops in spawns(q.ev):
            own = e[2]
            for x in e[1]:
                cur = None
                for y, held in flat(x.ev):
                    if y[0] == 'w' and y[1].startswith('global:') and y[1].endswith(CUR):
                        cur = y[3]
                    if y[0] in ('body', 'post'):
                        if cur is None:
                            raise Bad('a thread runs the body with options of its own, not those of its creator', y[-1])
                        if mentions(cur, 'threadlocal') or not mentions(cur, 'global'):
                            raise Bad('a thread runs the body with other options than its creator: ' + show(cur)[:100], y[-1])
    decide(ctx, 'threads of parallel_do', w, paths, limit)
    decide(ctx, 'threads inherit the options', w, paths, options_of)
    if not n[0]:
        ctx.und('threads of parallel_do', w, 'no threads are started')


def mentions(v, kind):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'T' and v[1] == kind:
            return True
        return any(mentions(x, kind) for x in v)
    return False


def check_sort(ctx, f, n, covered):
    w = ctx.where(f, unit='conc')
    rule = f'threads of parallel_sort with {n} threads'

    def nothing(ai, fn, this, args, node):
        return T('token', ai.fresh('token')) if fn.get('b', fn.get('qn', '')).endswith('arrive') else None
    th = Threads(ctx, intercepts={c14.NT: lambda ai, fn, this, args, node: n, **{k: nothing for k in (
        'std::sort', 'std::stable_sort', 'std::inplace_merge', 'std::barrier::arrive_and_wait', 'std::barrier::arrive_and_drop')}})
    ai = th.ai
    ai.UNROLL = n + 3
    make1 = ai.make
    ai.make = lambda tidx, args, node=None: T('new', 'std::barrier') if tb(ai, tidx) == 'std::barrier' else make1(tidx, args, node)
    th.spawn0 = th.spawn

    def spawn(args, node):
        a = [ai.rval(x) for x in args]
        if a and isT(a[0]) and a[0][1] == 'thread':
            return a[0]
        if nested[0]:
            raise NestedThreads((node or {}).get('l'))
        t = T('thread', ai.fresh('thread'))
        th.ev('spawn', (), None, (node or {}).get('l'), ai.loopdepth, t)
        if a and isL(a[0]):
            nested[0] = 1
            try:
                ai.call_value(args[0], list(args[1:]), node)
            finally:
                nested[0] = 0
        return t
    nested = [0]
    th.spawn = spawn
    seq = ('&', ai.newcell('range', Ssym(T('atom', 'range'))), ())
    size = ai.seq_len(ai.read(seq))
    args = [('I', seq, 0), ('I', seq, size)]
    for prm in f['params'][2:]:
        args.append(('&', ai.newcell('comp', ai.symval(prm['t'], prm['n'])), ()))
    ai.st.nums.append(lin(sub(size, 1024 * n)))     # enough elements for all threads
    try:
        paths = th.explore(lambda: ai.call_fn(f, None, args))
    except NestedThreads as e:
        return ctx.viol(rule, ctx.where(f, {'l': e.args[0]}, unit='conc'), 'a thread of parallel_sort starts another thread')
    covered |= ai.called

    def one(q):
        k = 0
        for e, loops in spawns(q.ev):
            if any(not isnum(x[3]) for x in loops):
                if not all(ge(ai, q, n, x[3]) for x in loops):
                    raise Bad(f'{show(loops[-1][3])} threads are started where {n} are allowed')
                k = n
            k += 1
        if k > n:
            raise Bad(f'{k} threads are started where {n} are allowed')
    decide(ctx, rule, w, paths, one)


def check_build(ctx, f, g, covered):
    rule = 'threads that build the search tree'
    th, env, paths = c17.explore_node(ctx, f, g)
    ai = th.ai
    covered |= ai.called
    tree, nodes, leaves, n, b, lo, d = env
    lim = T('.', T('atom', 'tree'), 'concurrency_depth_limit_')
    some = [0]

    def one(q):
        v = c17.View(th, q)
        started = [e for e in v.recs if e[3]]
        some[0] += bool(started)
        # work that is done while threads run
        running = live = 0
        busy = 0
        for e in v.build:
            if e[0] == 'rec':
                if e[3]:
                    live += 1
                    running = max(running, live + busy)
                elif live:
                    busy = 1
                    running = max(running, live + busy)
            if e[0] == 'join':
                live -= 1
        for e in v.recs:
            c, x, y, rest = c17.call_args(e, nodes, leaves)
            if len(rest) != 1:
                raise Unknown('depth of a child')
            if started and not v.ge(rest[0], add(d, 1)):
                raise Bad(f'threads are started without counting them: the depth of a child is {show(rest[0])}', e[2])
            if not v.ge(rest[0], d):
                raise Bad(f'the depth of a child is {show(rest[0])}', e[2])
        if running > 2:
            raise Bad(f'{running} threads are started for a node')
        if started and not v.ge(lim, add(d, 1)):
            raise Bad('threads are started below the depth limit', started[0][2])
    decide(ctx, rule, ctx.where(f), paths, one)


def check_limit(ctx, f):
    """2 ^ limit <= number of threads, and the root has depth zero."""
    rule = 'depth limit of the search tree'
    th = Threads(ctx, unit='lib', keep_parallel=False)
    ai = th.ai
    nt = T('atom', 'threads')
    ai.nonneg.add(nt)
    ai.ic[c14.NT] = lambda ai, fn, this, args, node: nt
    for k in ('std::log2', 'log2'):
        ai.ic[k] = lambda ai, fn, this, args, node: T('app', 'log2', ai.rval(args[0]))

    def rec(ai, fn, this, args, node):
        ai.st.ev.append(('rec', tuple(ai.rval(a) for a in args), ai.norm(ai.rval(this))))
        return None
    ai.ic[c17.CLS + '::build'] = rec
    src = ('&', ai.newcell('leaves', Ssym(T('atom', 'leaves'))), ())

    def go():
        return ai.construct_repo(f, [src], f.get('rid'), ai.p.records.get(f.get('rid')), 'tree')

    def one(q):
        for e in q.ev:
            if e[0] != 'rec':
                continue
            depth = [a for a in e[1] if isnum(a) or isT(a)]
            lim = dict(e[2][3]).get('concurrency_depth_limit_') if isR(e[2]) else None
            if len(depth) != 1 or not isnum(depth[0]):
                raise Unknown('depth of the root')
            if lim is None:
                raise Unknown('depth limit')
            left = sub(lim, depth[0])
            x = strip(left)
            if isnum(x):
                if x > 0:
                    raise Bad(f'threads are started down to depth {x} whatever the options say')
            elif x != T('app', 'log2', nt):
                d, c = lin(x)
                inner = [k for k in d if strip(k) == T('app', 'log2', nt)]
                if len(d) == 1 and inner and d[inner[0]] == 1:
                    if c > 0:
                        raise Bad(f'up to {2 ** c} times as many threads as allowed are started')
                elif len(d) == 1 and inner:
                    raise Bad(f'the depth limit is {show(lim)}')
                elif isT(x) and x[1:3] == ('app', '+') and isinstance(x[3], (int, float)) and strip(x[4]) == T('app', 'log2', nt):
                    if x[3] >= 1:
                        raise Bad(f'up to {2 ** x[3]:g} times as many threads as allowed are started')
                    raise Unknown(f'depth limit {show(lim)[:100]}')
                elif isT(x) and x[1] == 'app' and x[2] in ROUND and strip(x[3]) == T('app', 'log2', nt):
                    raise Bad('the binary logarithm of the number of threads is rounded up, so that more threads than allowed are started')
                elif mentions2(x, HW):
                    raise Bad('the depth limit depends on the number of processors, not on the options')
                elif x == nt:
                    raise Bad('the depth limit is the number of threads, so that 2 to the power of it threads are started')
                else:
                    raise Unknown(f'depth limit {show(lim)[:100]}')
    decide(ctx, rule, ctx.where(f), th.explore(go), one)


ROUND = {p + n for p in ('', 'std::') for n in ('ceil', 'round', 'lround', 'llround', 'rint', 'lrint', 'llrint', 'nearbyint')}


def strip(x):
    """Without conversions."""
    while isT(x) and x[1] in ('cast', 'trunc', 'toint', 'int', 'floor', 'conv'):
        x = x[-1] if isT(x[-1]) else x[2] if isT(x[2]) else next((y for y in x[2:] if isT(y)), x[2])
    if isT(x) and x[1] == 'app' and x[2] in ('std::floor', 'floor', 'std::trunc', 'toint', 'cast'):
        return strip(x[3])
    if isT(x) and x[1] == 'app' and x[2] in ('log2', 'std::log2'):
        return T('app', 'log2', strip(x[3]))
    return x


def mentions2(v, name):
    if v == name:
        return True
    return isinstance(v, (tuple, frozenset)) and any(mentions2(x, name) for x in v)


# ---------------------------------------------------------------- everything else
STARTERS = ('std::thread::thread', 'std::jthread::jthread', 'std::async', 'pthread_create', 'std::thread')


def others(ctx, covered):
    rule = 'threads are started by the parallel helpers only'
    places = set()
    ok = 0
    names = {}
    for unit in ('conc', 'lib', 'boolean', 'convert', 'defects', 'main'):
        try:
            p = ctx.prog(unit)
        except Exception as e:
            ctx.und(rule, unit, str(e)[:100])
            continue
        for f in p.fns.values():
            if f.get('body') is None or not (f.get('repo') or 'kigumi' in f['b'] or f['b'] in ('main',)):
                continue
            for part in [f['body']] + [i['e'] for i in f.get('inits', []) if i.get('e') is not None]:
                for n in walk(part):
                    s = starts(p, n)
                    if s is None:
                        continue
                    w = ctx.where(f, n, unit=unit)
                    if helper(f['b']):
                        ok += 1
                        continue
                    if w not in places:
                        places.add(w)
                        ctx.viol(rule, w, f'{s}: the options are not considered')
    ctx.count('constructs that start threads', ok + len(places))
    if not places:
        if ok:
            ctx.ok(rule, 'include/kigumi, cli', f'{ok} constructs, all in functions whose threads are counted')
        else:
            ctx.und(rule, 'include/kigumi', 'no construct that starts a thread was found')


def helper(b):
    """Functions whose threads are counted above (with the lambda functions in them)."""
    return b.startswith(('kigumi::parallel_do', 'kigumi::parallel_sort', c17.CLS + '::'))


def starts(p, n):
    if n['k'] == 'ctor' and n.get('a'):
        b = base(p.deref(n['t'])[1].get('base', ''))
        sp = n['fn'].get('sp')
        if b in ('std::thread', 'std::jthread') and sp not in ('copyctor', 'movector', 'defctor'):
            return 'a thread is started'
    if n['k'] == 'call':
        q = base(n['fn'].get('qn', ''))
        if q in ('std::async', 'pthread_create'):
            return q
        if q.startswith('std::') and any('std::execution::' in p.tname(a['t']) for a in n['a'] if a.get('t') is not None):
            return q + ' with an execution policy'
        if q in ('std::vector::emplace_back', 'std::vector::push_back') and n.get('obj') is not None:
            t = p.deref(n['obj']['t'])[1]
            if t.get('ta') and 't' in t['ta'][0] and base(p.deref(t['ta'][0]['t'])[1].get('base', '')) in ('std::thread', 'std::jthread'):
                return 'a thread is started'
    return None
