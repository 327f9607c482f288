"""Abstract interpretation of code that starts threads: every started thread is an event that carries the partitions of its function."""
from framework import *

LOCKS = {'std::lock_guard', 'std::unique_lock', 'std::scoped_lock'}
THREADS = {'std::thread', 'std::jthread'}


def tb(ai, tidx):
    _, t = ai.p.deref(tidx)
    return base(t.get('base', ''))


class Threads:
    """Interpreter with a model of threads, locks, atomics and exception pointers.  `throwing`: functions whose calls are events
    and may throw.  What threads share is unknown to each of them: `shared` holds the cells that some thread writes."""

    def __init__(self, ctx, unit='conc', throwing=None, copies=(), intercepts=None, keep_parallel=True):
        self.ctx = ctx
        ai = self.ai = ctx.ai(unit)
        if keep_parallel:
            for k in ('kigumi::parallel_do', 'kigumi::parallel_sort'):
                ai.ic.pop(k, None)
        self.shared = set()
        self.atomics = {}
        self.exc = set()
        self.depth = 0
        self.copies = copies
        fr = ai.fresh

        def rmw(what):
            def h(ai, fn, this, args, n):
                d, post = what(n, args)
                t = T('ticket', fr('ticket'))
                ai.nonneg.add(t)
                v = t if post else add(t, d)
                self.ev('ticket', v, 0 if post else d, this, d, n.get('l'))
                return v
            return h

        def incdec(n, args):
            return (1 if '++' in (n.get('op') or '') else -1), bool(args)

        def load(ai, fn, this, args, n):
            if n.get('t') is not None and ai.p.deref(n['t'])[1].get('c') == 'bool':
                t = T('?flag', fr('flag'))
            else:
                t = T('load', fr('load'))
            self.ev('flag', t, this, n.get('l'))
            return t

        def store(ai, fn, this, args, n):
            self.ev('w', this[1], this[2], ai.rval(args[0]), n.get('l'))
            return None

        def excbool(ai, fn, this, args, n):
            t = T('?pending', fr('pending'))
            self.ev('excload', t, this, n.get('l'))
            return t

        def exccmp(eq):
            def h(ai, fn, this, args, n):
                a = next((x for x in [this] + list(args) if isLV(x) and x[1] in ai.st.store and x[1] in self.exc), None)
                if a is None:
                    return NotImplemented
                t = excbool(ai, fn, a, args, n)
                return ai.neg(t) if eq else t
            return h

        def rethrow(ai, fn, this, args, n):
            self.ev('rethrow', args[0], n.get('l'))
            raise Throw(T('rethrown'), n.get('l', 0))

        def push(ai, fn, this, args, n):
            o = n.get('obj')
            t = ai.p.deref(o['t'])[1]
            et = t['ta'][0]['t'] if t.get('ta') else None
            if et is None or tb(ai, et) not in THREADS:
                return NotImplemented
            h = self.spawn(args, n)
            ai.write(this, ai.seq_push(ai.as_seq(ai.read(this), o['t']), h), n)
            return None

        def join(ai, fn, this, args, n):
            self.ev('join', this, n.get('l'))
            return None

        def mutex(kind):
            def h(ai, fn, this, args, n):
                self.ev(kind, this, n.get('l'))
                return None
            return h
        for a in ('std::atomic', 'std::__atomic_base'):
            ai.ic.update({
                a + '::operator++': rmw(incdec), a + '::operator--': rmw(incdec),
                a + '::fetch_add': rmw(lambda n, a: (ai.rval(a[0]), True)),
                a + '::fetch_sub': rmw(lambda n, a: (sub(0, ai.rval(a[0])), True)),
                a + '::operator+=': rmw(lambda n, a: (ai.rval(a[0]), False)),
                a + '::load': load, a + '::store': store, a + '::operator bool': load,
                a + '::operator unsigned long': load, a + '::operator __int_type': load,
                a + '::operator __integral_type': load})
        ai.ic.update({
            'std::__exception_ptr::exception_ptr::operator bool': excbool,
            'std::rethrow_exception': rethrow,
            'std::__exception_ptr::operator==': exccmp(True), 'std::__exception_ptr::operator!=': exccmp(False),
            'std::vector::emplace_back': push, 'std::vector::push_back': push,
            'std::thread::join': join, 'std::mutex::lock': mutex('lock'), 'std::mutex::unlock': mutex('munlock')})
        for name, kind in (throwing or {}).items():
            ai.ic[name] = self.may_throw(kind)
        ai.ic.update(intercepts or {})
        ai.on_local = self.on_local
        ai.on_scope_end = self.on_end
        ai.on_copy = self.on_copy
        self.make0 = ai.make
        ai.make = self.make
        self.catches0 = ai.catches
        ai.catches = lambda t, v: bool(ai.choose(2)) if isT(v) and v[1] == 'thrown' else self.catches0(t, v)
        self.read0 = ai.read
        ai.read = self.read
        self.inworker = 0
        self.dtors = {f['rid']: f for f in ai.p.fns.values() if f.get('sp') == 'dtor' and f.get('body') is not None and f.get('repo') and f.get('rid') is not None}

    def ev(self, *x):
        self.ai.st.ev.append(x)

    def may_throw(self, what):
        def h(ai, fn, this, args, n):
            self.ev(what, tuple(args), (n or {}).get('l'))
            for i, a in enumerate(args):
                if isLV(a) and isT(ai.rval(a)) and not (isLV(a) and any(x[0] == 'i' for x in a[2])):
                    ai.write(a, T('upd', what, ai.rval(a)), n)
            if ai.choose(2):
                raise Throw(T('thrown', what), (n or {}).get('l', 0))
            return None
        return h

    def make(self, tidx, args, n=None):
        ai = self.ai
        b = tb(ai, tidx)
        if b in THREADS and args:
            return self.spawn(args, n)
        if b in ('std::atomic', 'std::__atomic_base') and args:
            return ai.rval(args[0])
        return self.make0(tidx, args, n)

    def on_local(self, ai, v, lv):
        b = tb(ai, v['t'])
        if b == 'std::atomic':
            self.atomics[lv[1]] = ai.loopdepth
            if not isnum(ai.read(lv)) and not isinstance(ai.read(lv), bool):
                t = ai.p.deref(v['t'])[1]
                et = ai.p.deref(t['ta'][0]['t'])[1] if t.get('ta') else {}
                ai.st.store[lv[1]] = False if et.get('c') == 'bool' else 0
        if b == 'std::__exception_ptr::exception_ptr':
            self.exc.add(lv[1])
        if b == 'std::mutex':
            self.atomics[lv[1]] = ai.loopdepth

    def on_end(self, ai, v, lv):
        if tb(ai, v['t']) in LOCKS:
            self.ev('unlock', lv)
            return
        t = ai.p.ty(v['t'])
        if t.get('c') == 'rec':
            d = self.dtors.get(t.get('rid', t.get('id')))
            if d is not None:
                ai.call_fn(d, lv, [])

    def on_copy(self, ai, n, v):
        if n.get('fn', {}).get('sp') == 'copyctor' and tb(ai, n['t']) in self.copies:
            self.ev('copy', v, n.get('l'))
            if ai.choose(2):
                raise Throw(T('thrown', 'copy'), n.get('l', 0))

    def read(self, lv):
        if self.inworker and lv[1] in self.shared and lv[1] not in self.atomics:
            self.ev('r', lv[1], lv[2])
        return self.read0(lv)

    def spawn(self, args, n):
        ai = self.ai
        a = [ai.rval(x) for x in args]
        if a and isT(a[0]) and a[0][1] == 'thread':
            return a[0]
        if not a or not isL(a[0]):
            raise Unsupported('thread function', n)
        keep = ai.st.store
        st = dict(keep)
        for c in self.shared:
            if c in st and c not in self.atomics:
                st[c] = T('shared', c)
        for c in ai.tlscells:
            st.pop(c, None)             # a new thread has objects of its own
        ai.st.store = st
        self.inworker += 1
        ai.thread += 1
        on_local = ai.on_local
        try:
            ws = ai.explore(lambda: ai.call_value(args[0], list(args[1:]), n))
        finally:
            self.inworker -= 1
            ai.thread -= 1
            ai.on_local = on_local
            ai.st.store = keep
        loc = {c for w in ws for c, _ in ai.written([w], _Store(keep))}
        self.found |= {c for c in loc if not c.startswith('global:')}
        t = T('thread', ai.fresh('thread'))
        self.ev('spawn', ws, dict(keep), (n or {}).get('l'), ai.loopdepth, t)
        return t

    def explore(self, thunk):
        """Partitions; repeated until what the threads share is known."""
        for _ in range(6):
            self.found = set()
            r = self.ai.explore(thunk)
            if self.found <= self.shared:
                return r
            self.shared |= self.found
        raise Unsupported('objects shared by threads')


class _Store:
    def __init__(self, s):
        self.store = s


def flat(evs, held=()):
    """Events of a partition, with the mutexes that are held, loops entered once per summarised partition."""
    held = list(held)
    for e in evs:
        if e[0] == 'lock':
            yield e, tuple(held)
            held.append(e[1])
            continue
        if e[0] in ('unlock', 'munlock'):
            if held:
                held.pop()
        if e[0] == 'loop':
            for q in e[4]:
                yield from flat(q['cev'] + q['ev'], held)
            continue
        yield e, tuple(held)


def proven(ai, st, f):
    old = ai.st
    ai.st = st
    try:
        return ai.num_true(f)
    finally:
        ai.st = old
