"""Is what an object contains from earlier calls ever used?

The object X (a static or thread_local local variable, or a member that survives a call) starts in the state 'S': it may contain
anything.  A structured dataflow analysis follows the statements of a function, of the functions of the repository that it calls
with X, and of the member functions that it calls on *this; X becomes 'E' (empty), 'R' (resized: a known number of old elements)
or 'F' (what it contains comes from the current call).  Any other use in the states 'S' and 'R' is a use of old content."""
from prog import base, walk

ORDER = {'E': 0, 'F': 1, 'R': 2, 'S': 3}
NEUTRAL = {'reserve', 'shrink_to_fit', 'capacity', 'max_size', 'get_allocator', 'max_load_factor', 'rehash', 'lock', 'unlock', 'try_lock'}
GROW = {'push_back', 'emplace_back', 'push', 'emplace', 'insert', 'push_front', 'emplace_front', 'append', 'try_emplace', 'insert_or_assign',
        'insert_range', 'append_range', 'push_range'}
DRAIN = {'pop', 'pop_back', 'pop_front'}
FIRST = {'read', 'fill', 'fill_n', 'iota', 'generate', 'generate_n', 'memcpy', 'memmove', 'memset', 'mpz_export', 'uninitialized_fill', 'get', 'getline'}
THIRD = {'copy', 'copy_n', 'transform', 'move', 'partial_sum'}
LOOK = {'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'front', 'back', 'at', 'data', 'find', 'top', 'count', 'contains', 'empty', 'size', 'length'}
SEE_THROUGH = {'std::move', 'std::forward', 'std::ref', 'std::as_const', 'std::addressof'}
DEPTH = 12


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return a if ORDER[a] >= ORDER[b] else b


class Undecided(Exception):
    pass


class Stale:
    def __init__(self, p, var=None, member=None, cls=None, throws=None):
        self.p = p
        self.names = {var} if var is not None else set()
        self.member, self.cls = member, cls
        self.uses = []              # (function, line, what)
        self.fn = []
        self.st = 'S'
        self.brk, self.cont = [], []
        self.ret = []
        self.thrown = []
        self.tries = []
        self.closures = {}
        self.touched = False
        self.quiet = 0

    # ---------------------------------------------------------------- X
    def x(self, n):
        """Is the expression the object itself?"""
        while isinstance(n, dict):
            k = n.get('k')
            if k == 'var':
                return n['id'] in self.names
            if k == 'member':
                if self.member is not None and n['n'] == self.member and self.this(n['e']):
                    return True
                return False
            if k == 'call' and base(n['fn'].get('qn', '')) in SEE_THROUGH and n['a']:
                n = n['a'][0]
                continue
            if k in ('cast', 'copy') and n.get('e') is not None and self.p.ty(n.get('t', -1)).get('c') == 'ref':
                n = n['e']
                continue
            if k == 'un' and n.get('op') in ('*', '&') and n.get('e') is not None and n['e'].get('k') != 'this':
                n = n['e']
                continue
            return False
        return False

    def this(self, n):
        while isinstance(n, dict):
            if n.get('k') == 'this':
                return not self.cls or not self.fn or self.fn[-1].get('cls') is None or True
            if n.get('k') == 'un' and n.get('op') == '*':
                n = n['e']
                continue
            if n.get('k') == 'cast':
                n = n['e']
                continue
            return False
        return False

    def mentions(self, n):
        return any(self.x(m) for m in walk(n))

    def use(self, n, what):
        self.touched = True
        if self.st in ('S', 'R'):
            self.uses.append((self.fn[-1] if self.fn else None, n.get('l'), what))
            self.st = 'F'

    def set(self, s):
        self.touched = True
        if self.st is not None:
            self.st = s
            for t in self.tries:
                t.append(s)

    # ---------------------------------------------------------------- functions
    def run(self, f, start='S'):
        """The state at the normal and exceptional ends of f."""
        self.st = start
        self.ret, self.thrown = [], []
        self.fn.append(f)
        try:
            for i in f.get('inits', []):
                if i.get('e') is not None:
                    self.ev(i['e'])
            self.stmt(f['body'])
        finally:
            self.fn.pop()
        out = self.st
        for r in self.ret:
            out = join(out, r)
        thr = None
        for r in self.thrown:
            thr = join(thr, r)
        return out, thr

    def inline(self, f, binds):
        if f.get('body') is None or len(self.fn) > DEPTH or f in self.fn:
            raise Undecided(f"call of {f['b']}")
        if self.st is None:
            return
        saved = self.ret, self.brk, self.cont, self.names
        self.ret, self.brk, self.cont = [], [], []
        self.names = self.names | binds
        self.fn.append(f)
        try:
            self.stmt(f['body'])
            out = self.st
            for r in self.ret:
                out = join(out, r)
            self.st = out
        finally:
            self.fn.pop()
            self.ret, self.brk, self.cont, self.names = saved

    # ---------------------------------------------------------------- statements
    def stmt(self, s):
        if s is None or self.st is None:
            return
        m = getattr(self, 's_' + s['k'], None)
        if m is None:
            raise Undecided('statement ' + s['k'])
        m(s)

    def s_block(self, s):
        for c in s['b']:
            self.stmt(c)

    def s_expr(self, s):
        self.ev(s['e'])

    def s_null(self, s):
        pass

    def s_decl(self, s):
        for v in s['v']:
            i = v.get('init')
            if i is None:
                continue
            if v.get('static') or v.get('tls'):
                continue            # evaluated once: judged separately
            if i['k'] == 'lambda':
                self.closures[v['id']] = i
                continue
            if self.p.ty(v['t']).get('c') in ('ref', 'ptr') and self.x(i):
                self.names = self.names | {v['id']}
                continue
            self.ev(i)

    def s_return(self, s):
        if s.get('e') is not None:
            if self.x(s['e']) and self.p.ty(self.fn[-1].get('rt', -1)).get('c') == 'ref' and self.quiet:
                pass
            else:
                self.ev(s['e'])
        if self.st is not None:
            self.ret.append(self.st)
        self.st = None

    def s_break(self, s):
        if self.brk:
            self.brk[-1].append(self.st)
        self.st = None

    def s_continue(self, s):
        if self.cont:
            self.cont[-1].append(self.st)
        self.st = None

    def cond(self, c):
        """States where the condition holds and where it does not."""
        k = c.get('k')
        if k == 'un' and c.get('op') == '!':
            a, b = self.cond(c['e'])
            return b, a
        if k in ('cast',) and c.get('e') is not None:
            return self.cond(c['e'])
        if k == 'bin' and c.get('op') in ('&&', '||'):
            a, b = self.cond(c['a'])
            self.st = a if c['op'] == '&&' else b
            if self.st is None:
                return (None, b) if c['op'] == '&&' else (a, None)
            a2, b2 = self.cond(c['b'])
            return (a2, join(b, b2)) if c['op'] == '&&' else (join(a, a2), b2)
        e = self.emptiness(c)
        if e is not None:
            self.ev(c)
            s = self.st
            empty, full = 'E', s
            return (empty, full) if e else (full, empty)
        if k == 'bool':
            return (self.st, None) if c.get('v') else (None, self.st)
        self.ev(c)
        return self.st, self.st

    def emptiness(self, c):
        """True: the condition says that X is empty; False: that it is not."""
        if c.get('k') == 'call' and c.get('obj') is not None and self.x(c['obj']) and c['fn'].get('n') == 'empty':
            return True
        if c.get('k') == 'bin' and c.get('op') in ('==', '!=', '>', '<'):
            for a, b, flip in ((c['a'], c['b'], False), (c['b'], c['a'], True)):
                if a.get('k') == 'call' and a.get('obj') is not None and self.x(a['obj']) and a['fn'].get('n') == 'size' and zero(b):
                    if c['op'] == '==':
                        return True
                    if c['op'] == '!=' or (c['op'] == '>') != flip:
                        return False
        return None

    def s_if(self, s):
        for k in ('init', 'cv'):
            if s.get(k):
                self.stmt(s[k])
        a, b = self.cond(s['c'])
        self.st = a
        self.stmt(s['then'])
        a = self.st
        self.st = b
        if 'else' in s:
            self.stmt(s['else'])
        self.st = join(a, self.st)

    def loop(self, head, body, once=False):
        """head() -> (state that enters, state that leaves)"""
        out = None
        if self.st is None:
            return
        acc = self.st
        for i in range(6):
            self.brk.append([])
            self.cont.append([])
            if once and i == 0:
                inn, lv = self.st, None
            else:
                inn, lv = head()
            self.st = inn
            if inn is not None:
                body()
            for c in self.cont.pop():
                self.st = join(self.st, c)
            for b in self.brk.pop():
                lv = join(lv, b)
            out = join(out, lv)
            new = join(acc, self.st)
            if new == acc and i:
                break
            acc = new
            self.st = acc
        self.st = out

    def drain(self, c, body):
        """A loop that only empties X."""
        e = self.emptiness(c['e']) if c is not None and c.get('k') == 'un' and c.get('op') == '!' else None
        if e is None and c is not None:
            e2 = self.emptiness(c)
            e = True if e2 is False else None
        if not e:
            return False
        n = 0
        for m in walk(body):
            if m['k'] == 'call' and m.get('obj') is not None and self.x(m['obj']) and m['fn'].get('n') in DRAIN:
                n += 1
        return n > 0 and n == sum(1 for m in walk(body) if m['k'] in ('var', 'member') and self.x(m)) and \
            not any(m['k'] in ('break', 'return') for m in walk(body))

    def s_while(self, s):
        if s.get('cv'):
            self.stmt(s['cv'])
        if self.drain(s['c'], s['body']):
            return self.set('E')
        self.loop(lambda: self.cond(s['c']), lambda: self.stmt(s['body']))

    def s_do(self, s):
        self.loop(lambda: self.cond(s['c']), lambda: self.stmt(s['body']), once=True)

    def s_for(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        if s.get('c') is not None and self.drain(s['c'], s['body']) and not (s.get('inc') and self.mentions(s['inc'])):
            return self.set('E')

        def body():
            self.stmt(s['body'])
            if s.get('inc') is not None:
                if self.cont[-1]:
                    for c in self.cont[-1]:
                        self.st = join(self.st, c)
                    self.cont[-1] = []
                if self.st is not None:
                    self.ev(s['inc'])
        self.loop(lambda: self.cond(s['c']) if s.get('c') is not None else (self.st, None), body)

    def s_rfor(self, s):
        self.ev(s['r'])
        self.loop(lambda: (self.st, self.st), lambda: self.stmt(s['body']))

    def s_switch(self, s):
        for k in ('init', 'cv'):
            if s.get(k):
                self.stmt(s[k])
        self.ev(s['c'])
        start = self.st
        self.brk.append([])
        default = False
        self.st = None
        body = s['body']
        for x in (body['b'] if body['k'] == 'block' else [body]):
            while x is not None and x['k'] in ('case', 'default'):
                self.st = join(self.st, start)
                default |= x['k'] == 'default'
                x = x['s']
            if self.st is not None:
                self.stmt(x)
        out = join(self.st, None if default else start)
        for b in self.brk.pop():
            out = join(out, b)
        self.st = out

    def s_try(self, s):
        self.tries.append([self.st])
        self.stmt(s['body'])
        out = self.st
        h = None
        for x in self.tries.pop():
            h = join(h, x)
        for c in s.get('catches', s.get('handlers', s.get('h', []))):
            self.st = h
            self.stmt(c.get('body', c.get('b')))
            out = join(out, self.st)
        self.st = out

    # ---------------------------------------------------------------- expressions
    def ev(self, n):
        if n is None or self.st is None or not isinstance(n, dict):
            return
        k = n['k']
        if self.x(n):
            return self.use(n, 'its content is used')
        m = getattr(self, 'e_' + k, None)
        if m is not None:
            return m(n)
        self.children(n)

    def children(self, n):
        for key in n:
            if key in ('fn', 't', 'pt'):
                continue
            v = n[key]
            if isinstance(v, dict) and 'k' in v:
                self.ev(v)
            elif isinstance(v, list):
                for c in v:
                    if isinstance(c, dict):
                        if 'k' in c:
                            self.ev(c)
                        else:
                            self.children(c)

    def e_throw(self, n):
        self.children(n)
        if self.tries:
            self.tries[-1].append(self.st)
        else:
            self.thrown.append(self.st)
        self.st = None

    def e_cond(self, n):
        a, b = self.cond(n['c'])
        self.st = a
        self.ev(n['a'])
        a = self.st
        self.st = b
        self.ev(n['b'])
        self.st = join(a, self.st)

    def e_bin(self, n):
        if n.get('op') in ('&&', '||'):
            a, b = self.cond(n)
            self.st = join(a, b)
            return
        self.ev(n['a'])
        self.ev(n['b'])

    def e_asg(self, n):
        if n.get('op') == '=' and self.x(n['a']):
            self.ev(n['b'])
            return self.set('F')
        self.ev(n['b'])
        self.ev(n['a'])
        if self.x(n['a']):
            self.set('F')

    def e_un(self, n):
        self.ev(n['e'])
        if self.x(n['e']) and ('++' in str(n.get('op')) or '--' in str(n.get('op'))):
            self.set('F')

    def e_lambda(self, n):
        fs = self.bodies(n)
        if any(self.mentions(f['body']) for f in fs):
            st = self.st
            for f in fs:
                for _ in range(2):
                    self.st = st
                    self.inline(f, set())
                    st = join(st, self.st)
            self.st = st

    def bodies(self, n):
        return [self.p.fns[i] for i in n.get('fns', []) if i in self.p.fns and self.p.fns[i].get('body') is not None]

    def part(self, a):
        """X.data(), X.begin(), &X[0], ..."""
        while isinstance(a, dict):
            if a.get('k') in ('cast', 'copy') and a.get('e') is not None:
                a = a['e']
                continue
            if a.get('k') == 'un' and a.get('op') == '&':
                a = a['e']
                continue
            break
        if not isinstance(a, dict) or a.get('k') not in ('call', 'idx'):
            return False
        if a['k'] == 'idx':
            return self.x(a.get('a', {}))
        if a.get('obj') is not None and self.x(a['obj']) and a['fn'].get('n') in ('data', 'begin', 'front', 'operator[]', 'at'):
            return True
        if a.get('op') == '[]' and a['a'] and self.x(a['a'][0]):
            return True
        return base(a['fn'].get('qn', '')) in ('std::begin', 'std::data') and self.x(a['a'][0])

    def e_call(self, n):
        fn = n['fn']
        name = fn.get('n', '')
        qn = base(fn.get('qn', ''))
        obj = n.get('obj')
        args = n['a']
        if obj is not None and self.x(obj):
            return self.method(n, name, args)
        if n.get('op') == '=' and obj is None and args and self.x(args[0]):
            for a in args[1:]:
                self.ev(a)
            return self.set('F')
        # overwriting of all elements
        if self.st == 'R' and fn.get('id') not in self.p.fns:
            short = name.removeprefix('__g')
            pos = 0 if short in FIRST else 2 if short in THIRD else None
            if pos is not None and len(args) > pos and self.part(args[pos]):
                if obj is not None:
                    self.ev(obj)
                for i, a in enumerate(args):
                    if i != pos and not self.range_end(a):
                        self.ev(a)
                return self.set('F')
        if qn in ('std::back_inserter', 'std::inserter', 'std::front_inserter') and args and self.x(args[0]):
            for a in args[1:]:
                self.ev(a)
            if self.st in ('S', 'R'):
                self.use(n, 'new elements are added to its content')
            return self.set('F')
        if qn == 'std::getline' and len(args) > 1 and self.x(args[1]):
            self.ev(args[0])
            return self.set('F')
        if n.get('op') == '>>' and len(args) == 2 and self.x(args[1]):
            self.ev(args[0])
            return self.set('F')
        if qn == 'std::exchange' and args and self.x(args[0]):
            self.ev(args[1])
            self.use(n, 'its content is used')
            return self.set('F')
        if qn == 'std::erase' or qn == 'std::erase_if':
            pass
        f = self.p.fns.get(fn.get('id'))
        binds = set()
        rest = []
        for i, a in enumerate(args):
            if self.x(a):
                t = self.p.ty(f['params'][i]['t']) if f is not None and i < len(f['params']) else None
                if t is not None and t.get('c') in ('ref', 'ptr') and f.get('body') is not None:
                    binds.add(f['params'][i]['id'])
                    continue
                if f is None and self.nonconst(fn, i):
                    raise Undecided(f'it is passed to {qn}')
            rest.append(a)
        if obj is not None:
            o = obj
            while o.get('k') in ('cast',) and o.get('e') is not None:
                o = o['e']
            if o.get('k') == 'var' and o['id'] in self.closures:
                for a in rest:
                    self.ev(a)
                for g in self.bodies(self.closures[o['id']]):
                    if binds or self.mentions(g['body']):
                        self.inline(g, binds)
                return
            self.ev(obj)
        for a in rest:
            self.ev(a)
        onthis = self.member is not None and obj is not None and self.this(obj) and f is not None
        if binds or onthis and f is not None and f.get('body') is not None:
            if onthis and not binds and not self.reaches(f, set()):
                return
            self.inline(f, binds)

    def reaches(self, f, seen):
        """Does a member function that is called on *this use the member at all?"""
        if f['id'] in seen or f.get('body') is None:
            return False
        seen.add(f['id'])
        for m in walk(f['body']):
            if m['k'] == 'member' and self.x(m):
                return True
            if m['k'] == 'call' and m.get('obj') is not None and self.this(m['obj']):
                g = self.p.fns.get(m['fn'].get('id'))
                if g is not None and self.reaches(g, seen):
                    return True
            if m['k'] == 'lambda' and any(self.reaches(g, seen) for g in self.bodies(m)):
                return True
        return False

    def range_end(self, a):
        while isinstance(a, dict) and a.get('k') in ('cast', 'copy', 'bin') and (a.get('e') is not None or a.get('a') is not None):
            if a['k'] == 'bin':
                return False
            a = a['e']
        return isinstance(a, dict) and a.get('k') == 'call' and a.get('obj') is not None and self.x(a['obj']) and a['fn'].get('n') in ('end', 'size', 'cend')

    def nonconst(self, fn, i):
        pt = fn.get('pt') or []
        if i >= len(pt):
            return False
        t = self.p.ty(pt[i])
        return t.get('c') == 'ref' and not self.p.ty(t['to']).get('const') and not t.get('rv')

    def method(self, n, name, args):
        for a in args:
            self.ev(a)
        t = self.p.deref(n['obj']['t'])[1] if n['obj'].get('t') is not None else {}
        if t.get('repo') and t.get('c') == 'rec':
            self.touched = True
            return              # an object of the repository: its class is judged
        if name == 'clear' or name == 'reset' and not args:
            return self.set('E')
        if name in ('assign', 'operator=') or name == 'reset':
            return self.set('F')
        if name == 'resize':
            if args and zero(args[0]):
                return self.set('E')
            return self.set('R' if self.st in ('S', 'R') else 'F')
        if name in NEUTRAL:
            return
        if name in ('size', 'length') and self.st == 'R':
            return
        if name in GROW:
            if self.st in ('S', 'R'):
                self.use(n, 'new elements are added to its content')
            return self.set('F')
        if name == 'swap':
            raise Undecided('it is swapped')
        self.use(n, f'its content is used ({name})')
        if not n['fn'].get('const') and name not in LOOK:
            self.set('F')


def zero(n):
    while isinstance(n, dict) and n.get('k') in ('cast', 'init') and (n.get('e') is not None or n.get('a')):
        n = n['e'] if n.get('e') is not None else n['a'][0]
    return isinstance(n, dict) and n.get('k') == 'int' and int(n.get('v', 1)) == 0 or isinstance(n, dict) and n.get('k') == 'zero'
