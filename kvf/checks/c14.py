"""The parallel helpers do what their sequential counterparts do."""
from framework import *
from parmodel import *

EXPLANATION = (
    'parallel_do and parallel_sort are instantiated with a body, a state, a post-processing step and a comparison that are opaque to the '
    'analyser. parallel_do is interpreted abstractly for every number of elements and threads: each partition of the thread function is '
    'checked for what it does with the number it draws from the shared counter, with its state, with locks and with exceptions, and each '
    'partition of the function itself for the threads it waits for. parallel_sort is interpreted for each number of threads up to a bound '
    'with a symbolic number of elements: the ranges that are sorted and merged in each phase are compared with the order of the phases.')
ASSUMPTIONS = ['std::thread can start a thread', 'atomics, locks, barriers and algorithms of the standard library do what the standard says',
               'the number of threads in Threading_options is at least one (C15)']

NT = 'kigumi::Threading_options::num_threads'


def run(ctx):
    p = ctx.prog('conc')
    fs = [f for f in p.fns.values() if f['b'] == 'kigumi::parallel_do' and f.get('body') is not None]
    main = [f for f in fs if len(f['params']) in (3, 5) and any('kvf_conc' in p.tname(x['t']) for x in f['params'][2:])]
    if not main:
        ctx.und('parallel_do', 'parallel_do', 'not found')
    for f in main:
        ctx.analysed.add(ctx.where(f, unit='conc'))
        ctx.guarded('parallel_do', f, lambda: check_do(ctx, f), unit='conc')
    f = next((f for f in p.fns.values() if f['b'] == 'kigumi::parallel_sort' and f.get('body') is not None and len(f['params']) == 3), None)
    if f is None:
        ctx.und('parallel_sort', 'parallel_sort', 'not found')
    else:
        ctx.analysed.add(ctx.where(f, unit='conc'))
        for n in range(0, 66 if ctx.tier == 'quick' else 300):
            ctx.guarded(f'parallel_sort with {n} threads', f, lambda: check_sort(ctx, f, n), unit='conc')


# ---------------------------------------------------------------- parallel_do
def explore_do(ctx, f):
    th = Threads(ctx, throwing={'kvf_conc::Body::operator()': 'body', 'kvf_conc::Body2::operator()': 'body', 'kvf_conc::Post::operator()': 'post'},
                 copies=('kvf_conc::State',))
    ai = th.ai
    ai.nt = None

    def num_threads(ai, fn, this, args, node):
        v = ai.field(this, 'num_threads_') if isLV(this) else None
        if v is not None:
            ai.nt = ai.rval(v)
            ai.nonneg.add(ai.nt)
            k = ({ai.nt: 1}, 0)
            if k not in ai.st.nums:
                ai.st.nums.append(k)
        return NotImplemented
    ai.ic[NT] = num_threads
    seq = ('&', ai.newcell('range', Ssym(T('atom', 'range'))), ())
    size = ai.seq_len(ai.read(seq))
    args = [('I', seq, 0), ('I', seq, size)]
    for prm in f['params'][2:]:
        args.append(('&', ai.newcell(prm['n'], ai.symval(prm['t'], prm['n'])), ()))
    return th, seq, size, th.explore(lambda: ai.call_fn(f, None, args))


class Bad(Exception):
    def __init__(self, msg, line=0):
        self.msg, self.line = msg, line


class Unknown(Exception):
    pass


def check_do(ctx, f):
    th, seq, size, paths = explore_do(ctx, f)
    ai = th.ai
    stateful = len(f['params']) == 5
    w = ctx.where(f, unit='conc')
    ctx.count('partitions of parallel_do', len(paths))
    rules = ('every element once', 'state of the threads', 'threads are waited for', 'exceptions', 'shared objects')
    res = {r: None for r in rules}
    und = {}

    def run_rule(r, thunk):
        try:
            thunk()
        except Bad as e:
            res[r] = res[r] or f'{e.msg} (line {e.line})'
        except Unknown as e:
            und[r] = str(e)
    seen = 0
    for q in paths:
        spawns = [e for e, _ in flat(q.ev) if e[0] == 'spawn']
        own = [e for e in q.ev if e[0] == 'loop' and any(x[0] == 'body' for y in e[4] for x in y['ev'])]
        bodies = [e for e, _ in flat(q.ev) if e[0] == 'body']
        if not spawns and not bodies:
            seen += 1
            z = proven(ai, q.st, sub(1, size))
            run_rule('every element once', lambda: z or bad('no element is processed although there are some', f['l']))
            continue
        if spawns and own:
            raise Unsupported('elements are processed by the calling thread and by others')
        if spawns:
            seen += 1
            for s in spawns:
                ctx.count('partitions of thread functions', len(s[1]))
                run_rule('every element once', lambda: elements(th, s, seq, size))
                run_rule('state of the threads', lambda: state(th, s, stateful))
                run_rule('exceptions', lambda: exceptions(th, s))
                run_rule('shared objects', lambda: shared(th, s))
            run_rule('threads are waited for', lambda: waits(th, q, spawns))
            run_rule('exceptions', lambda: rethrows(th, q, spawns))
        else:
            seen += 1
            run_rule('every element once', lambda: serial(th, q, seq, size))
            run_rule('state of the threads', lambda: serial_state(th, q, stateful))
    pend = [q for q in paths if q.kind == 'throw' and any(e[0] == 'rethrow' for e in q.ev)]
    anyspawn = any(e[0] == 'spawn' for q in paths for e, _ in flat(q.ev))
    if anyspawn and not pend:
        res['exceptions'] = res['exceptions'] or 'an exception of a thread is not rethrown in the calling thread'
    for r in rules:
        if res[r]:
            ctx.viol(r, w, res[r])
        elif r in und:
            ctx.und(r, w, und[r])
        else:
            ctx.ok(r, w)
    if not seen:
        ctx.und('parallel_do', w, 'no partition')


def bad(msg, line=0):
    raise Bad(msg, line)


def flagged(th, dom, evs):
    """A flag that threads set when they record an exception is known to be set."""
    for e in evs:
        if e[0] == 'flag':
            d = dom.get(e[1])
            if d is not None and len(d) == 1 and e[2][1] in th.atomics:
                v = next(iter(d))
                if v != th.ai.read0(('&', e[2][1], ())) if e[2][1] in th.ai.st.store else v is True:
                    return True
    return False


def index_of(seq, lv):
    if isLV(lv) and lv[1] == seq[1] and len(lv[2]) == 1 and lv[2][0][0] == 'i':
        return lv[2][0][1]
    return None


def elements(th, s, seq, size):
    """Each number drawn from the shared counter is used for exactly one call of the body, up to the number of elements."""
    ai = th.ai
    def elem_loops(w):
        return [e for e in w.ev if e[0] == 'loop' and any(x[0] in ('body', 'ticket') for q in e[4] for x, _ in flat(q['cev'] + q['ev']))]
    loops = max((elem_loops(w) for w in s[1]), key=len)
    if len(loops) != 1:
        if any(x[0] == 'body' for q in s[1] for x, _ in flat(q.ev)):
            raise Unknown('the thread function does not have one loop over the elements')
        bad('the thread function does not process any element', s[3])
    lp = loops[0]
    ws = [w for w in s[1] if elem_loops(w)]
    for w in s[1]:
        if not elem_loops(w) and clean_exit(th, w):
            bad('a thread may end without looking for elements', s[3])
    pre = {e[1] for w in ws for e in w.ev[:w.ev.index(next(x for x in w.ev if x[0] == 'loop' and x[1] == lp[1]))] if e[0] == 'ticket'}
    alltickets = [e for w in s[1] for e, _ in flat(w.ev) if e[0] == 'ticket']
    for e in alltickets:
        cell = e[3]
        if e[4] != 1:
            direct = [x for q in lp[4] for x in q['cev'] + q['ev'] if x[0] == 'body']
            if isnum(e[4]) and e[4] != 1 and direct and not any(x[0] == 'loop' for q in lp[4] for x in q['ev']):
                bad(f'the shared counter is advanced by {e[4]} for one call of the body', e[5])
            raise Unknown('the shared counter is not incremented by one')
        if th.atomics.get(cell[1], 99) >= s[4] and s[4] > 0 and th.atomics.get(cell[1], 99) != 0:
            bad('every thread has its own counter', e[5])
        if len(cell[2]) or cell[1] not in s[2]:
            bad('every thread has its own counter', e[5])
        init = s[2][cell[1]]
        if not isnum(init):
            raise Unknown('initial value of the counter')
        if add(init, e[2]) != 0:
            bad('the first element that is drawn is not the first of the range', e[5])
    if len({e[3][1] for e in alltickets}) > 1:
        raise Unknown('several counters')
    carried = {}
    for loc, (e0, h) in lp[6].items():
        if isT(e0) and e0 in pre:
            carried[loc] = h
    for q in lp[4]:
        evs = q['cev'] + q['ev']
        toks = list(carried.values()) + [e[1] for e in evs if e[0] == 'ticket']
        if any(e[0] == 'loop' for e in evs if any(x[0] == 'body' for x, _ in flat([e]))):
            raise Unknown('nested loops over elements')
        bodies = [e for e in evs if e[0] == 'body']
        out = []
        if q['kind'] == 'norm':
            for (c, pa) in carried:
                v = ai.proj_st(q['st'], c, pa) if hasattr(ai, 'proj_st') else readst(ai, q['st'], c, pa)
                if v in toks:
                    out.append(v)
                else:
                    raise Unknown('the number drawn is modified')
        fl = flagged(th, q['st'].dom, evs)
        used = []
        for b in bodies:
            i = index_of(seq, b[1][0])
            if i is None:
                raise Unknown('argument of the body')
            if i not in toks:
                if any(contains(i, t) for t in toks):
                    bad('the body is called for another element than the one that was drawn', b[2])
                if 'load' in show(i) or not any(contains(i, t) for t in toks):
                    c = [x for x in th.shared if x not in th.atomics]
                    bad('the body is called for an element that was not drawn atomically from a shared counter', b[2])
            if i in used:
                bad('the body is called twice for the same element', b[2])
            used.append(i)
            if not proven(ai, q['st'], sub(size, i)):
                bad('the body may be called for an element behind the end of the range', b[2])
        ended = False
        for t in toks:
            if t in out or t in used:
                continue
            if proven(ai, q['st'], add(sub(t, size), 1)):
                ended = True
                continue
            if q['kind'] != 'norm' and fl:
                continue
            if q['kind'] == 'throw':
                continue
            bad('an element that was drawn is not processed', q['line'] or lp[1])
        if q['kind'] in ('break', 'ret') and not ended and not fl:
            bad('a thread stops although elements may be left', q['line'] or lp[1])
        if q['kind'] == 'norm' and ended:
            bad('a thread goes on after the end of the range', lp[1])
    # the loop may also end by its condition
    for w in ws:
        i = next(i for i, x in enumerate(w.ev) if x[0] == 'loop' and x[1] == lp[1])
        tail = [x for x in w.ev[i + 1:]]
        kinds = [q['kind'] for q in lp[4]]
        ex = {t: d for t, d in w.st.dom.items() if isT(t) and t[1] == 'ex' and d == frozenset((True,))}
        if not ex and not any(e[0] == 'catch' for e in tail):
            # normal exit: the condition of the loop failed
            toks = list(carried.values())
            last = [readst(ai, w.st, c, pa) for c, pa in carried]
            drawn = [e[1] for e in tail if e[0] == 'ticket'] + last
            if not any(proven(ai, w.st, add(sub(t, size), 1)) for t in drawn) and not flagged(th, w.st.dom, w.ev):
                if not cond_ended(ai, lp, carried, size):
                    bad('a thread stops although elements may be left', lp[1])


def cond_ended(ai, lp, carried, size):
    """The loop goes on as long as the carried number is smaller than the number of elements (or no exception is pending)."""
    for q in lp[4]:
        for t in list(carried.values()) + [e[1] for e in q['cev'] if e[0] == 'ticket']:
            k = T('>0', sub(size, t))
            if q['st'].dom.get(k) == frozenset((True,)) and k not in q['guard']:
                return True
            k = T('>0', add(sub(t, size), 1))
            if q['st'].dom.get(k) == frozenset((False,)) and k not in q['guard']:
                return True
    return False


def positive(ai, st, b):
    """b > 0 for a number of elements or threads (of which there is at least one)."""
    if proven(ai, st, b):
        return True
    return isT(b) and (st.dom.get(T('==0', b)) == frozenset((False,)) or b == threads_option(ai))


def threads_option(ai):
    return next((t for t in [ai.nt] if t is not None), None)


def readst(ai, st, c, pa):
    old = ai.st
    ai.st = st
    try:
        return ai.read0(('&', c, pa)) if hasattr(ai, 'read0') else type(ai).read(ai, ('&', c, pa))
    finally:
        ai.st = old


def clean_exit(th, w):
    """The thread function ends because there are no elements left."""
    return w.kind in ('norm', 'ret') and not any(e[0] == 'catch' for e in w.ev) and not flagged(th, w.st.dom, w.ev)


def state(th, s, stateful):
    if not stateful:
        return
    cells = set()
    for w in s[1]:
        for e, held in flat(w.ev):
            if e[0] == 'body':
                if len(e[1]) < 2 or not isLV(e[1][1]):
                    raise Unknown('state of the body')
                c = e[1][1][1]
                if c in s[2]:
                    bad('the threads share one state', e[2])
                cells.add((c, e[1][1][2]))
    if len(cells) > 1:
        raise Unknown('several states')
    for w in s[1]:
        loop = next((i for i, x in enumerate(w.ev) if x[0] == 'loop'), None)
        posts = [(i, e) for i, e in enumerate(w.ev) if e[0] == 'post']
        inner = [e for x in w.ev if x[0] == 'loop' for e, _ in flat([x]) if e[0] == 'post']
        if inner:
            bad('the state of a thread is handed over more than once', inner[0][2])
        for e, held in flat(w.ev):
            if e[0] == 'post' and not held:
                bad('the states of two threads may be handed over at the same time', e[2])
            if e[0] == 'post' and cells and isLV(e[1][0]) and (e[1][0][1], e[1][0][2]) not in cells:
                bad('what is handed over is not the state that the body has used', e[2])
            if e[0] == 'post' and not all(h[1] in s[2] for h in held if isLV(h)):
                bad('the lock that is held while a state is handed over belongs to one thread only', e[2])
        if len(posts) > 1:
            bad('the state of a thread is handed over more than once', posts[1][1][2])
        if clean_exit(th, w) and len(posts) != 1:
            bad('the state of a thread is not handed over', s[3])
    cps = [e for w in s[1] for e in w.ev if e[0] == 'copy']
    if not cps:
        raise Unknown('the state is not copied')


def exceptions(th, s):
    flags = set()
    for w in s[1]:
        if w.kind == 'throw':
            what = w.val[2] if isT(w.val) and w.val[1] == 'thrown' else '?'
            bad(f'an exception ({ {"body": "of the body", "post": "of the post-processing step", "copy": "of the copy of the state"}.get(what, what) }) '
                'leaves the thread function and ends the program', w.line or s[3])
        if any(e[0] == 'catch' for e in w.ev):
            pend = any(e[0] == 'excload' and w.st.dom.get(e[1]) == frozenset((True,)) for e in w.ev)
            sto = [e for e in w.ev if e[0] == 'w' and isT(e[3]) and e[3][1] in ('excptr',) and e[1] in s[2]]
            if not pend and not sto:
                bad('an exception is lost', next(e[1] for e in w.ev if e[0] == 'catch'))
        else:
            for e, _ in flat(w.ev):
                if e[0] == 'w' and e[1] in th.atomics and isinstance(e[3], bool) and e[3] != s[2].get(e[1]):
                    if not any(x[0] == 'catch' for x in w.ev):
                        bad('a thread asks the others to stop without an exception', e[4] if len(e) > 4 else s[3])


def shared(th, s):
    """Everything the threads share and write is atomic or only used under a lock."""
    for w in s[1]:
        for e, held in flat(w.ev):
            if e[0] == 'w' and e[1] in s[2] and e[1] not in th.atomics and not held and not e[1].startswith('global:'):
                bad(f'{e[1]} is written without a lock', e[4] if len(e) > 4 else s[3])
            if e[0] == 'r' and e[1] in s[2] and not held:
                bad(f'{e[1]} is read without a lock although threads write it', s[3])
            if e[0] == 'excload' and e[2][1] in s[2] and not held:
                bad(f'{e[2][1]} is read without a lock although threads write it', e[3])
            if e[0] == 'lock' and any(isLV(h) and isLV(e[1]) and h[1] == e[1][1] for h in held):
                bad('a mutex is locked by a thread that holds it', e[2])


def waits(th, q, spawns):
    """Every thread that is started is joined before the function returns."""
    ai = th.ai
    ls = [(i, e) for i, e in enumerate(q.ev) if e[0] == 'loop' and any(x[0] == 'spawn' for x, _ in flat([e]))]
    if len(ls) != 1:
        raise Unknown('threads are not started by one loop')
    si, sp = ls[0]
    if sp[3] is None:
        raise Unknown('number of threads')
    if any(y['kind'] != 'norm' for y in sp[4]):
        raise Unknown('the loop that starts threads ends early')
    if not positive(ai, q.st, sp[3]):
        raise Unknown(f'number of threads {show(sp[3])}')
    js = [e for e in q.ev[si + 1:] if e[0] == 'loop' and any(x[0] == 'join' for x, _ in flat([e]))]
    if not js:
        if any(x[0] == 'join' for x, _ in flat([sp])):
            return    # each thread is joined before the next one starts: slow, but all are joined
        bad('threads are not joined', spawns[0][3])
    if len(js) != 1:
        raise Unknown('several loops join threads')
    j = js[0]
    for y in j[4]:
        if y['kind'] != 'norm':
            bad('the loop that joins threads may end early', j[1])
        jj = [x for x in y['ev'] if x[0] == 'join']
        if len(jj) != 1:
            bad('a thread is not joined exactly once', j[1])
        pa = jj[0][1][2]
        if not pa or pa[-1][0] != 'i' or pa[-1][1] != j[2]:
            d, c = lin(pa[-1][1]) if pa else ({}, 0)
            if d.get(j[2]) == 1 and c > 0:
                bad('the first thread is not joined', j[1])
            raise Unknown('which threads are joined')
    if j[3] is None or j[3] != sp[3]:
        if j[3] is None:
            raise Unknown('number of threads that are joined')
        bad(f'{show(sp[3])} threads are started, {show(j[3])} are joined', j[1])


def rethrows(th, q, spawns):
    """After the threads have ended, the calling thread throws the exception that one of them has stored."""
    cells = {e[1] for s in spawns for w in s[1] for e in w.ev if e[0] == 'w' and isT(e[3]) and e[3][1] == 'excptr'}
    if not cells:
        return
    ji = max([i for i, e in enumerate(q.ev) if e[0] == 'loop' and any(x[0] == 'join' for x, _ in flat([e]))] or [-1])
    after = q.ev[ji + 1:]
    loads = [e for e in after if e[0] == 'excload' and e[2][1] in cells]
    early = [e for e in q.ev[:max(ji, 0)] if e[0] == 'excload' and e[2][1] in cells]
    flags = [e for e in after if e[0] == 'flag']
    if not loads and not flags:
        if early:
            bad('the exception is looked for before the threads have ended', early[0][3])
        bad('an exception of a thread is not rethrown in the calling thread', spawns[0][3])
    known = [q.st.dom.get(e[1]) for e in loads] + [q.st.dom.get(e[1]) for e in flags]
    pending = frozenset((True,)) in known
    if pending:
        if q.kind != 'throw':
            bad('an exception of a thread is not rethrown in the calling thread', spawns[0][3])
        r = [e for e in after if e[0] == 'rethrow']
        if not r:
            bad('another exception than that of the thread is thrown', spawns[0][3])
        if isLV(r[0][1]) and r[0][1][1] not in cells:
            bad('another exception than that of the thread is thrown', r[0][2])
    elif q.kind == 'throw':
        bad('an exception is thrown although no thread has stored one', spawns[0][3])


def serial(th, q, seq, size):
    ai = th.ai
    loops = [e for e in q.ev if e[0] == 'loop' and any(x[0] == 'body' for x, _ in flat([e]))]
    if len(loops) != 1:
        raise Unknown('the elements are not processed by one loop')
    lp = loops[0]
    if lp[3] is None:
        raise Unknown('bounds of the sequential loop')
    if lp[3] != size:
        d = sub(size, lp[3])
        old = ai.st
        if isnum(d) and d != 0:
            bad(f'the sequential loop processes {show(lp[3])} of {show(size)} elements', lp[1])
        if not (proven(ai, q.st, add(d, 1)) and proven(ai, q.st, sub(1, d))):
            raise Unknown(f'the sequential loop has {show(lp[3])} iterations')
    for y in lp[4]:
        bs = [e for e in y['ev'] if e[0] == 'body']
        if y['kind'] in ('break', 'ret'):
            bad('the sequential loop ends early', y['line'] or lp[1])
        if y['kind'] == 'norm':
            if len(bs) != 1:
                bad('the body is not called exactly once for an element', lp[1])
        for b in bs:
            i = index_of(seq, b[1][0])
            if i is None or i not in (lp[2], sub(sub(size, 1), lp[2])):
                if i is not None and lin(i)[0].get(lp[2]) == 1:
                    bad('the sequential loop starts at another element than the first', b[2])
                raise Unknown('element of the sequential loop')


def serial_state(th, q, stateful):
    if not stateful or q.kind == 'throw':
        return
    cells = {(e[1][1][1], e[1][1][2]) for e, _ in flat(q.ev) if e[0] == 'body' and len(e[1]) > 1 and isLV(e[1][1])}
    posts = [e for e in q.ev if e[0] == 'post']
    inner = [e for x in q.ev if x[0] == 'loop' for e, _ in flat([x]) if e[0] == 'post']
    if inner or len(posts) > 1:
        bad('the state is handed over more than once', (inner + posts)[0][2])
    if not posts:
        bad('the state is not handed over', 0)
    if isLV(posts[0][1][0]) and cells and (posts[0][1][0][1], posts[0][1][0][2]) not in cells:
        bad('what is handed over is not the state that the body has used', posts[0][2])
    li = next((i for i, e in enumerate(q.ev) if e[0] == 'loop'), 0)
    if q.ev.index(posts[0]) < li:
        bad('the state is handed over before the elements are processed', posts[0][2])


# ---------------------------------------------------------------- parallel_sort
def check_sort(ctx, f, n):
    """The ranges that are sorted and merged, for n threads and any number of elements that occupies n threads."""
    w = ctx.where(f, unit='conc')
    rule = f'parallel_sort with {n} threads'
    events = []

    def ev(kind):
        def h(ai, fn, this, args, node):
            ai.st.ev.append((kind, tuple(ai.rval(a) for a in args), node.get('l')))
            if kind == 'sort' or kind == 'merge':
                for a in args:
                    if isLV(a) and a[1] == 'comp':
                        pass
            return T('token', ai.fresh('token')) if kind == 'arrive' else None
        return h
    th = Threads(ctx, intercepts={
        NT: lambda ai, fn, this, args, node: n or 4,
        'std::sort': ev('sort'), 'std::stable_sort': ev('sort'), 'std::inplace_merge': ev('merge'), 'std::merge': ev('othermerge'),
        'std::barrier::arrive_and_wait': ev('barrier'), 'std::barrier::arrive_and_drop': ev('drop')})
    ai = th.ai
    ai.UNROLL = n + 3
    bars = {}
    make1 = ai.make

    def make(tidx, args, node=None):
        if tb(ai, tidx) == 'std::barrier':
            ai.st.ev.append(('newbarrier', ai.rval(args[0]), (node or {}).get('l')))
            return T('new', 'std::barrier')
        return make1(tidx, args, node)
    ai.make = make
    seq = ('&', ai.newcell('range', Ssym(T('atom', 'range')) if n else S()), ())
    size = ai.seq_len(ai.read(seq))
    if n:
        ai.st.nums.append(lin(sub(size, 1024 * (n - 1))))
    args = [('I', seq, 0), ('I', seq, size)]
    for prm in f['params'][2:]:
        args.append(('&', ai.newcell('comp', ai.symval(prm['t'], prm['n'])), ()))
    try:
        paths = th.explore(lambda: ai.call_fn(f, None, args))
    except Unsupported as e:
        if n == 0 and 'division by zero' in str(e):
            return ctx.viol('parallel_sort of an empty range', w, 'division by zero')
        raise
    if n == 0:
        return ctx.ok('parallel_sort of an empty range', w)
    decided = 0
    for q in paths:
        ctx.count('partitions of parallel_sort')
        spawns = [e for e, _ in flat(q.ev) if e[0] == 'spawn']
        top = [e for e in q.ev if e[0] == 'spawn']
        sorts = [e for e in q.ev if e[0] in ('sort', 'merge')]
        msg = None
        if len(top) != len(spawns):
            continue            # fewer elements than needed for n threads: the case of another n
        if not spawns:
            if not sorts:
                if not (proven(ai, q.st, sub(1, size)) or q.st.dom.get(T('==0', size)) == frozenset((True,))):
                    msg = 'nothing is sorted although there are elements'
            elif not (len(sorts) == 1 and sorts[0][1][0] == args[0] and sorts[0][1][1] == args[1]):
                msg = 'the whole range is not sorted'
            elif len(sorts[0][1]) < 3:
                msg = 'the elements are sorted by another order than the given one'
        else:
            msg = phases(th, q, top, seq, size, n)
        if msg is None:
            decided += 1
        elif msg.startswith('?'):
            return ctx.und(rule, w, msg[1:])
        else:
            return ctx.viol(rule, w, msg)
    if decided:
        ctx.ok(rule, w)
    else:
        ctx.und(rule, w, 'no partition with this number of threads')


def phases(th, q, spawns, seq, size, n):
    ai = th.ai
    joins = [e for e in q.ev if e[0] == 'join']
    loops = [e for e in q.ev if e[0] == 'loop']
    if loops:
        return '?a loop is not understood'
    if len(joins) < len(spawns):
        return f'{len(spawns)} threads are started, {len(joins)} are joined'
    if len({e[1] for e in joins}) != len(joins):
        return 'a thread is joined twice'
    nb = [e for e in q.ev if e[0] == 'newbarrier']
    work = []
    for s in spawns:
        ws = s[1]
        if len(ws) != 1 or ws[0].kind not in ('norm', 'ret'):
            # partitions that only differ in the order of boundaries are not expected here
            return '?the work of a thread depends on the elements'
        ph = [[]]
        for e, held in flat(ws[0].ev):
            if e[0] == 'barrier':
                ph.append([])
            elif e[0] in ('sort', 'merge'):
                ph[-1].append(e)
            elif e[0] in ('othermerge', 'ext', 'drop', 'loop'):
                return f'?{e[0]} {e[1]} in a thread'
        work.append(ph)
    if len({len(x) for x in work}) > 1:
        return 'the threads do not wait for each other the same number of times: some wait for ever'
    if len(work[0]) > 1:
        if len(nb) != 1:
            return '?barriers'
        if nb[0][1] != len(spawns):
            return f'the barrier waits for {show(nb[0][1])} of {len(spawns)} threads'
    # boundaries of the ranges, as positions
    pos = {0: 0}

    def bound(it):
        if not isI(it) or it[1] != seq:
            raise Unsupported('range')
        return it[2]
    cuts = {bound(x) for ph in work for p in ph for e in p for x in e[1] if isI(x)} | {0, size}

    def le(a, b):
        d = sub(b, a)
        if isnum(d):
            return d >= 0
        if proven(ai, q.st, add(d, 1)):
            return True
        # multiples of size / k, k threads
        dd, c = lin(d)
        qs = {t: x for t, x in dd.items() if isT(t) and t[1] == '/' and t[2] == size and isnum(t[3])}
        if len(qs) == 1:
            t, x = next(iter(qs.items()))
            rest = {u: y for u, y in dd.items() if u != t}
            if not rest and x >= 0 and c >= 0:
                return True
            if set(rest) == set(lin(size)[0]) and all(y == 1 for y in rest.values()) and x < 0 and -x <= t[3] and c >= 0:
                return True
        return False
    order = []
    for c in cuts:
        i = 0
        while i < len(order) and le(order[i], c) and order[i] != c:
            i += 1
        if i < len(order) and not le(c, order[i]):
            return f'?the order of {show(c)} and {show(order[i])}'
        order.insert(i, c)
    rank = {c: i for i, c in enumerate(order)}
    if order[0] != 0 or order[-1] != size:
        return 'a range outside of the given one is sorted'
    runs = []       # sorted ranges, as ranks

    def is_run(a, b):
        return a == b or any(x <= a and b <= y for x, y in runs)
    for k in range(len(work[0])):
        used = []
        new = []
        for tid, ph in enumerate(work):
            mine = []
            for e in ph[k]:
                it = [rank[bound(x)] for x in e[1] if isI(x)]
                if len(e[1]) <= len(it):
                    return 'the elements are sorted by another order than the given one'
                a, b = it[0], it[-1]
                if a > b:
                    return 'a range ends before it begins'
                for x, y, t2 in used:
                    if t2 != tid and a < y and x < b:
                        return f'two threads rearrange the same elements at the same time (line {e[2]})'
                used.append((a, b, tid))
                if e[0] == 'merge':
                    m = it[1]
                    ok = lambda x, y: is_run(x, y) or x == y or any(u <= x and y <= v for u, v in mine)
                    if not a <= m <= b:
                        return f'the middle of a merge is outside of its range (line {e[2]})'
                    if not (ok(a, m) and ok(m, b)):
                        return f'ranges are merged that are not sorted yet (line {e[2]})'
                mine.append((a, b))
            new += mine
        keep = [(x, y) for x, y in runs if not any(a < y and x < b for a, b, _ in used)]
        runs = keep + new
    if not is_run(0, len(order) - 1):
        return 'the whole range is not sorted in the end'
    return None
