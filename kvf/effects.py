"""Which objects does the body of a parallel loop read and write?

A context sensitive, flow insensitive effect analysis.  Every expression is evaluated to the set of places it may denote;
calls of functions of the repository are entered with the places of their arguments, calls of others follow the conventions
of the standard library (const members and const arguments are read, everything else is written).  A place is a root (a
variable, a parameter, *this) with a path of members and elements; an element is classified by the index with which it was
selected: 'E' the index is the element of the loop itself (different in every iteration), 'C' it was reached from the element
by walking over adjacent faces (same connected component), ('F', f) it is the member f of the element, '*' anything else."""
from prog import base, walk

LOCKS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock')
ACCESSORS = {'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'at', 'operator[]', 'front', 'back', 'top', 'data', 'find', 'get', 'value',
             'operator*', 'operator->', 'second', 'lower_bound', 'upper_bound', 'equal_range', 'c_str', 'base', 'native_handle', 'rdbuf'}
ELEMENT = {'at', 'operator[]', 'front', 'back', 'top', 'find', 'value', 'operator*', 'operator->', 'lower_bound', 'upper_bound'}
STORE = {'push', 'push_back', 'emplace', 'emplace_back', 'insert', 'push_front', 'emplace_front'}
ALIASES = {'std::move', 'std::forward', 'std::get', 'std::begin', 'std::end', 'std::as_const', 'std::ref', 'std::cref', 'std::tie', 'std::min', 'std::max',
           'std::back_inserter', 'std::inserter', 'std::next', 'std::prev', 'boost::make_iterator_range', 'std::span', 'std::addressof', 'std::forward_as_tuple'}
PURE = {'std::find', 'std::find_if', 'std::count', 'std::count_if', 'std::distance', 'std::upper_bound', 'std::lower_bound', 'std::equal_range',
        'std::binary_search', 'std::all_of', 'std::any_of', 'std::none_of', 'std::equal', 'std::min_element', 'std::max_element', 'std::accumulate',
        'std::set_intersection', 'std::set_union', 'std::set_difference', 'std::copy', 'std::copy_if', 'std::transform', 'std::for_each', 'std::adjacent_find',
        'std::is_sorted', 'std::mismatch', 'std::includes', 'std::lexicographical_compare'}


class V:
    __slots__ = ('pl', 'ix', 'el', 'cl', 'ty')

    def __init__(self, pl=frozenset(), ix=None, el=None, cl=(), ty=None):
        self.pl, self.ix, self.el, self.cl, self.ty = pl, ix, el, cl, ty

    def on(self, comp, ix=None):
        return V(frozenset((r, pa + (comp,) if len(pa) < 8 else pa, c) for r, pa, c in self.pl), ix, None, self.cl)


def join_ix(a, b):
    if a == 'B':
        return b
    if b == 'B' or a == b:
        return a
    if {a, b} <= {'E', 'C'}:
        return 'C'
    return None


def union(*vs):
    vs = [v for v in vs if v is not None]
    if not vs:
        return V()
    ix, el = vs[0].ix, vs[0].el
    for v in vs[1:]:
        ix, el = join_ix(ix, v.ix), join_ix(el, v.el)
    return V(frozenset().union(*[v.pl for v in vs]), ix, el, tuple(dict.fromkeys(c for v in vs for c in v.cl)))


class Access:
    __slots__ = ('w', 'root', 'path', 'cond', 'locks', 'line', 'fn', 'once')

    def __init__(self, *a):
        self.w, self.root, self.path, self.cond, self.locks, self.line, self.fn, self.once = a

    def show(self):
        return show_place(self.root, self.path)

    def key(self):
        return (self.w, self.root, self.path, self.cond, self.locks, self.once)


def show_place(root, path):
    s = root[1]
    for c in path:
        if c == '.':
            continue
        s += f'[{c if isinstance(c, str) else c[1]}]' if c in ('E', 'C', '*') or isinstance(c, tuple) else '.' + c
    return s


class Effects:
    def __init__(self, prog, site_handler=None):
        self.p = prog
        self.env = {}
        self.names = {}
        self.alias = {}
        self.content = {}
        self.acc = []
        self.stack = []
        self.locks = []
        self.site = None
        self.conds = frozenset()
        self.once = []
        self.roots = {}
        self.ret = []
        self.handler = site_handler
        self.steps = 0
        self.thisv = [V()]
        self.fnstack = []
        self.sites = []
        self.mutex_of = {}

    # ---- types
    def is_ref(self, t):
        return self.p.ty(t).get('c') == 'ref'

    def aliasing(self, t):
        ty = self.p.ty(t)
        if ty.get('c') in ('ref', 'ptr'):
            return True
        s = ty.get('s', '')
        b = base(ty.get('base', '')) if ty.get('c') == 'rec' else ''
        if any(x in b for x in ('iterator', 'range', 'reference_wrapper', 'span', 'string_view', 'tuple')) or b.endswith(('_iterator', 'Iterator')):
            return True
        if ty.get('lambda') or 'lambda at' in s or 'anonymous class' in s:
            return True
        for r in self.p.record_of(b) if b.startswith('kigumi') else ():
            if any(self.p.ty(f['t']).get('c') in ('ref', 'ptr') for f in r['fields']):
                return True
        return False

    def nonconst_pointee(self, t):
        ty = self.p.ty(t)
        if ty.get('c') == 'ptr':
            return not self.p.ty(ty['to']).get('const')
        s = ty.get('s', '')
        return not ('const_iterator' in s or '__normal_iterator<const ' in s or 'Const_iterator' in s or '_Const' in s)

    def root(self, kind, name, key):
        # objects created by the body of the current site are private to it
        return (kind, name, key, self.site)

    def fresh(self, name, key, ix=None):
        return V(frozenset([(self.root('var', name, key), (), frozenset())]), ix)

    # ---- accesses
    def record(self, w, v, line, deep=True):
        if self.site is None or not self.stack:
            return
        for r, pa, c in v.pl:
            if r[3] == self.site or r[0] == 'tls':
                continue
            self.acc.append(Access(w, r, pa, c | self.conds, frozenset(self.locks), line, self.fnstack[-1] if self.fnstack else None,
                                   any(r == o[0] and pa[:len(o[1])] == o[1] for o in self.once)))

    def read(self, v, line):
        self.record(False, v, line)

    def write(self, v, line):
        self.record(True, v, line)

    # ---- statements
    def stmts(self, ss):
        held = len(self.locks)
        once = len(self.once)
        for s in ss:
            self.stmt(s)
            if s.get('k') == 'if' and not s.get('else') and self.leaves(s['then']):
                self.once += self.absent(s['c'], False)
        del self.locks[held:]
        del self.once[once:]

    def leaves(self, s):
        while s.get('k') == 'block' and s['b']:
            s = s['b'][-1]
        return s.get('k') in ('return', 'continue', 'break') or s.get('k') == 'expr' and s['e'].get('k') == 'throw'

    def absent(self, c, pol):
        """Places that hold nothing if the condition has the given truth."""
        while isinstance(c, dict) and c.get('k') == 'cast':
            c = c['e']
        if not isinstance(c, dict):
            return []
        if c.get('k') == 'un' and c.get('op') == '!':
            return self.absent(c['e'], not pol)
        if c.get('k') == 'bin' and c['op'] in ('==', '!=') or c.get('k') == 'call' and c.get('op') in ('==', '!='):
            xs = [c['a'], c['b']] if c['k'] == 'bin' else [x for x in [c.get('obj')] + c['a'] if x is not None]
            if any(y.get('k') == 'null' for x in xs for y in walk(x)):
                x = next((x for x in xs if not any(y.get('k') == 'null' for y in walk(x))), None)
                return self.absent(x, pol == (c['op'] == '!=')) if x is not None else []
            return []
        if c.get('k') == 'call' and c.get('obj') is not None and not c['a'] and c['fn'].get('n') in ('operator bool', 'has_value', 'get'):
            return self.absent(c['obj'], pol)
        if c.get('k') in ('member', 'var') and not pol:
            return [(r, pa) for r, pa, _ in self.ev(c).pl]
        return []

    def stmt(self, s):
        if not isinstance(s, dict):
            return
        k = s.get('k')
        if k == 'block':
            self.stmts(s['b'])
        elif k == 'decl':
            for v in s['v']:
                self.decl(v)
        elif k == 'expr':
            self.ev(s['e'])
        elif k == 'if':
            held = len(self.locks)
            for x in ('init', 'cv'):
                if isinstance(s.get(x), dict):
                    self.stmt(s[x]) if s[x].get('k') else self.decl(s[x])
            self.ev(s['c'])
            for branch, pol in (('then', True), ('else', False)):
                if s.get(branch):
                    old, once = self.conds, len(self.once)
                    self.conds = old | self.cond_of(s['c'], pol)
                    self.once += self.absent(s['c'], pol)
                    self.stmt(s[branch])
                    self.conds = old
                    del self.once[once:]
            del self.locks[held:]
        elif k in ('for', 'while', 'do'):
            for _ in range(2):
                if isinstance(s.get('init'), dict):
                    self.stmt(s['init'])
                if isinstance(s.get('cv'), dict):
                    self.stmt(s['cv'])
                if s.get('c'):
                    self.ev(s['c'])
                self.stmt(s['body'])
                if s.get('inc'):
                    self.ev(s['inc'])
        elif k == 'rfor':
            r = self.ev(s['r'])
            self.read(r, s.get('l'))
            v = s['v']
            el = self.element(r)
            for _ in range(2):
                self.bind(v, el, s.get('l'))
                self.stmt(s['body'])
        elif k == 'switch':
            self.ev(s['c'])
            self.stmt(s['body'])
        elif k in ('case', 'default'):
            self.stmt(s.get('s'))
        elif k == 'return':
            if s.get('e') is not None:
                v = self.ev(s['e'])
                if self.ret:
                    self.ret[-1].append(v)
        elif k == 'try':
            self.stmt(s['body'])
            for h in s['h']:
                if h.get('v'):
                    self.env[h['v']['id']] = V()
                self.stmt(h['body'])
        else:
            for key, x in s.items():
                if key in ('fn', 'pt'):
                    continue
                for y in x if isinstance(x, list) else [x]:
                    if isinstance(y, dict) and y.get('k'):
                        self.stmt(y) if y['k'] in ('block', 'expr', 'decl', 'if') else self.ev(y)

    def cond_of(self, c, pol):
        while isinstance(c, dict) and c.get('k') == 'cast':
            c = c['e']
        if isinstance(c, dict) and c.get('k') == 'un' and c.get('op') == '!':
            return self.cond_of(c['e'], not pol)
        if isinstance(c, dict) and c.get('k') == 'var':
            return frozenset([(self.resolve(c), pol)])
        return frozenset()

    def resolve(self, n):
        return self.names.get(n['n'], n['id']) if n.get('cap') else n['id']

    def element(self, r, ix=None):
        c = r.el
        if c is None:
            c = self.contents(r)
        return V(r.on('*').pl, c if c != 'B' else None)

    def contents(self, v):
        c = 'B'
        for r, pa, _ in v.pl:
            k = (r, pa)
            if k in self.content:
                c = join_ix(c, self.content[k])
        return c

    def decl(self, v):
        init = v.get('init')
        line = v.get('l')
        tls = v.get('tls')
        static = v.get('static')
        ty = self.p.tbase(v['t'])
        self.names[v['n']] = v['id']
        if ty in LOCKS and init is not None:
            ms = [self.ev(a) for a in init.get('a', [])] if init.get('k') in ('ctor', 'init') else [self.ev(init)]
            for m in ms:
                for r, pa, c in m.pl:
                    self.locks.append((r[1], pa))
            self.env[v['id']] = V()
            return
        if tls or static:
            self.env[v['id']] = V(frozenset([(('tls' if tls else 'static', v['n'], v['id'], None), (), frozenset())]))
            if init is not None:
                self.ev(init, self.env[v['id']])
            return
        if init is None:
            self.env[v['id']] = self.fresh(v['n'], v['id'])
            return
        if not self.aliasing(v['t']):
            obj = self.fresh(v['n'], v['id'])
            x = self.ev(init, obj)
            if v.get('binds'):
                self.bind(v, x, line)
                return
            self.env[v['id']] = V(obj.pl, x.ix, x.el, x.cl)
            for k in list(self.content):
                if any((r, pa) == k for r, pa, _ in x.pl):
                    for r, pa, _ in obj.pl:
                        self.content[(r, pa)] = join_ix(self.content.get((r, pa), 'B'), self.content[k])
        else:
            self.bind(v, self.ev(init), line)

    def bind(self, v, x, line):
        if v.get('binds'):
            for i, b in enumerate(v['binds']):
                ix = ('F', b['n']) if x.ix == 'E' else None
                y = x.on(b['n'], ix) if self.is_ref(v['t']) or self.aliasing(v['t']) else V(frozenset(), ix)
                if not y.pl:
                    y = self.fresh(b['n'], b['id'], ix)
                self.env[b['id']] = union(self.env[b['id']], y) if b['id'] in self.env else y
                self.names[b['n']] = b['id']
            return
        self.names[v['n']] = v['id']
        if not self.is_ref(v['t']) and not self.aliasing(v['t']):
            self.read(x, line)
            y = V(self.fresh(v['n'], v['id']).pl, x.ix, x.el, x.cl)
        else:
            y = x
            if not y.pl:
                y = V(self.fresh(v['n'], v['id']).pl, x.ix, x.el, x.cl)
        old = self.env.get(v['id'])
        self.env[v['id']] = union(old, y) if old is not None and self.is_ref(v['t']) is False else y

    # ---- expressions
    def ev(self, n, into=None):
        self.steps += 1
        if self.steps > 2000000:
            raise OverflowError('too many steps')
        if not isinstance(n, dict):
            return V()
        k = n.get('k')
        f = getattr(self, 'e_' + str(k), None)
        if f is not None:
            return f(n, into) if k in ('ctor', 'init', 'copy') else f(n)
        out = V()
        for key, x in n.items():
            if key in ('fn', 'pt'):
                continue
            for y in x if isinstance(x, list) else [x]:
                if isinstance(y, dict) and y.get('k'):
                    self.ev(y)
        return out

    def e_var(self, n):
        i = n['id']
        if i in self.env:
            v = self.env[i]
        elif n.get('cap') and n['n'] in self.names and self.names[n['n']] in self.env:
            v = self.env[self.names[n['n']]]
        elif n.get('qn'):
            g = self.p.global_by_id.get(i, {})
            kind = 'tls' if g.get('tls') else 'glob'
            if base(n['qn']).startswith('std::c') or self.p.ty(n['t']).get('const') or n.get('cst'):
                return V()
            v = V(frozenset([((kind, n['qn'], i, None), (), frozenset())]))
        else:
            v = self.fresh(n['n'], i)
            self.env[i] = v
        return v

    def e_this(self, n):
        return self.thisv[-1]

    def e_member(self, n):
        o = self.ev(n['e'])
        out = []
        for pl in o.pl:
            r, pa, c = pl
            a = self.alias.get((r, pa, n['n']))
            if a is not None:
                out.append(a)
            else:
                out.append(V(frozenset([(r, pa + (n['n'],) if len(pa) < 8 else pa, c)])))
        v = union(*out)
        ix = None
        if o.ix in ('E', 'C') and self.single(n):
            ix = o.ix
        elif o.ix == 'E':
            ix = ('F', n['n'])
        elif isinstance(o.ix, tuple):
            ix = ('F', o.ix[1] + '.' + n['n'])
        cont = self.contents(v)
        return V(v.pl, ix, v.el, v.cl)

    def single(self, n):
        rs = self.p.record_of(base(n.get('cls', '')))
        return bool(rs) and len(rs[0]['fields']) == 1

    def e_cast(self, n):
        v = self.ev(n['e'])
        if n.get('ck') == 'LValueToRValue':
            self.read(v, n.get('l'))
            if not self.aliasing(n['t']):
                return V(v.pl if v.cl else frozenset(), v.ix if v.ix is not None else self.known(v), v.el, v.cl)
        return v

    def known(self, v):
        return None

    def e_un(self, n):
        v = self.ev(n['e'])
        op = n['op']
        if op in ('++', '--', 'post++', 'post--') or '++' in op or '--' in op:
            self.write(v, n.get('l'))
            return V(v.pl)
        if op == '&':
            return v
        if op == '*':
            return V(v.pl, v.ix, v.el, v.cl) if self.p.ty(n['e'].get('t')).get('c') == 'ptr' else v.on('*')
        return V()

    def e_asg(self, n):
        b = self.ev(n['b'])
        a = self.ev(n['a'])
        self.write(a, n.get('l'))
        x = n['a']
        if x.get('k') == 'var' and x['id'] in self.env and (self.aliasing(x['t']) or b.ix != self.env[x['id']].ix):
            old = self.env[x['id']]
            al = self.aliasing(x['t'])
            self.env[x['id']] = V(old.pl | b.pl if al else old.pl, join_ix(old.ix, b.ix), old.el, old.cl)
        return a

    def e_bin(self, n):
        a, b = self.ev(n['a']), self.ev(n['b'])
        if n['op'] in ('+', '-') and (a.pl or b.pl) and self.aliasing(n['t']):
            return union(a, b)
        return V()

    def e_cond(self, n):
        self.ev(n['c'])
        outs = []
        for x, pol in ((n['a'], True), (n['b'], False)):
            old = self.conds
            cs = self.cond_of(n['c'], pol)
            self.conds = old | cs
            v = self.ev(x)
            self.conds = old
            outs.append(V(frozenset((r, pa, c | cs) for r, pa, c in v.pl), v.ix, v.el, v.cl))
        return union(*outs)

    def e_lambda(self, n):
        # captures refer to the variables of the enclosing function; copies are private unless they are references themselves
        caps = []
        for c in n['caps']:
            if c.get('this'):
                continue
            caps.append(c)
        return V(frozenset(), None, None, ((id(n), self.keep(n)),))

    def keep(self, n):
        self._lam = getattr(self, '_lam', {})
        self._lam[id(n)] = (n, dict(self.env), dict(self.names), self.thisv[-1])
        return id(n)

    def e_copy(self, n, into=None):
        v = self.ev(n['e'])
        if n.get('mv'):
            self.write(v, n.get('l'))
        else:
            self.read(v, n.get('l'))
        if into is None and n.get('t') is not None and not self.aliasing(n['t']):
            # a copy is an object of its own
            o = self.fresh('tmp', ('copy', id(n)))
            for r, pa, _ in v.pl:
                if (r, pa) in self.content:
                    for k, pb, _ in o.pl:
                        self.content[(k, pb)] = join_ix(self.content.get((k, pb), 'B'), self.content[(r, pa)])
            return V(o.pl, v.ix, v.el, v.cl)
        return v

    def e_init(self, n, into=None):
        vs = []
        fs = n.get('fs') or []
        for i, a in enumerate(n.get('a', [])):
            v = self.ev(a)
            vs.append(v)
            if into is not None and i < len(fs):
                self.store_field(into, fs[i] if isinstance(fs[i], str) else fs[i].get('n'), v, a)
        return V(frozenset().union(*[v.pl for v in vs]) if self.aliasing(n['t']) and vs else frozenset(), vs[0].ix if len(vs) == 1 else None)

    def store_field(self, obj, name, v, a):
        for r, pa, c in obj.pl:
            if v.pl and isinstance(a.get('t'), int):
                self.alias[(r, pa, name)] = v

    def e_ctor(self, n, into=None):
        fn = self.p.fns.get(n['fn'].get('id'))
        args = [self.ev(a) for a in n['a']]
        if n['fn'].get('repo') and fn is not None and (fn.get('inits') or fn.get('body')):
            obj = into if into is not None and into.pl else self.fresh('tmp', ('tmp', id(n)))
            self.enter(fn, obj, args, n)
            single = len(args) == 1 and self.one_field(fn)
            return V(obj.pl, args[0].ix if single else None, None, ())
        self.pass_args(n['fn'], args, n)
        if n.get('t') is not None and self.p.ty(n['t']).get('c') == 'rec':
            b = self.p.tbase(n['t'])
            if len(args) == 1 and n['fn'].get('sp') in ('copyctor', 'movector'):
                return args[0]
            if self.aliasing(n['t']) and args:
                return union(*[V(a.pl, None, a.el, a.cl) for a in args])
        ix = args[0].ix if len(args) == 1 else None
        return V(frozenset(), ix)

    def one_field(self, fn):
        rs = self.p.record_of(base(fn.get('cls') or ''))
        return bool(rs) and len(rs[0]['fields']) == 1

    # ---- calls
    def enter(self, fn, this, args, n):
        """Evaluates the body of a function of the repository."""
        key = (fn['id'], tuple(a.pl for a in args), this.pl if this else None)
        if key in self.stack or len(self.stack) > 60 or sum(1 for s in self.stack if s[0] == fn['id']) > 1:
            return V()
        self.stack.append(key)
        self.fnstack.append(fn)
        self.thisv.append(this or V())
        self.ret.append([])
        saved = self.locks[:]
        for prm, a in zip(fn.get('params', []), args):
            self.env.pop(prm['id'], None)
            if prm['n'] or True:
                self.bind({**prm, 'n': prm['n'] or '?'}, a, n.get('l') if n else None)
        for i in fn.get('inits') or []:
            x = i.get('e') if 'e' in i else i.get('init')
            nm = i.get('m')
            if x is None:
                continue
            obj = V(frozenset((r, pa + (nm,), c) for r, pa, c in this.pl)) if this and nm else None
            v = self.ev(x, obj) if x.get('k') in ('ctor', 'init', 'copy') else self.ev(x)
            if nm and this and isinstance(i.get('t'), int) and self.aliasing(i['t']) or nm and this and v.pl and self.field_alias(fn, nm):
                for r, pa, c in this.pl:
                    self.alias[(r, pa, nm)] = v
        if fn.get('body'):
            self.stmt(fn['body'])
        rs = self.ret.pop()
        self.locks[:] = saved
        self.thisv.pop()
        self.fnstack.pop()
        self.stack.pop()
        out = union(*rs) if rs else V()
        if 'rt' in fn and fn.get('rt') is not None and not self.aliasing(fn['rt']) and not out.cl:
            out = V(frozenset(), out.ix, out.el)
        return out

    def field_alias(self, fn, nm):
        for r in self.p.record_of(base(fn.get('cls') or '')):
            for f in r['fields']:
                if f['n'] == nm and self.p.ty(f['t']).get('c') in ('ref', 'ptr'):
                    return True
        return False

    def call_closure(self, cl, args, n):
        out = []
        for _, key in cl:
            node, env, names, this = self._lam[key]
            e0, n0 = self.env, self.names
            self.env = {**e0, **{k: v for k, v in env.items() if k not in e0 or True}}
            self.names = {**n0, **names}
            fs = [self.p.fns[i] for i in node['fns'] if i in self.p.fns]
            for c in node['caps']:
                if c.get('ic') or (not c.get('ref') and not c.get('this')):
                    v = self.ev(c['init']) if c.get('init') else V()
                    ty = c['init'].get('t') if c.get('init') else None
                    nv = v if ty is not None and self.aliasing(ty) else V(self.fresh(c['n'], ('cap', c['id'])).pl, v.ix, v.el, v.cl)
                    self.env[c['id']] = nv
                    self.names[c['n']] = c['id']
            fs = [f for f in fs if len(f['params']) == len(args)] or fs
            for f in fs[:1] if len({f['l'] for f in fs}) == 1 else fs:
                out.append(self.enter(f, this, args, n))
            new = self.env
            self.env, self.names = e0, n0
            for k in new:
                if k in e0:
                    e0[k] = new[k] if e0[k] is env.get(k) else union(e0[k], new[k])
        return union(*out) if out else V()

    def pass_args(self, fnref, args, n):
        """Arguments of a function that is not part of the repository."""
        pts = fnref.get('pt') or []
        name = base(fnref.get('qn', ''))
        line = n.get('l')
        for i, a in enumerate(args):
            if a.cl:
                others = [self.element(b) for b in args if b is not a and not b.cl]
                self.call_closure(a.cl, self.closure_args(a, others), n)
            if not a.pl:
                continue
            t = self.p.ty(pts[i]) if i < len(pts) else {}
            if t.get('c') == 'ref':
                to = self.p.ty(t['to'])
                if 'stream' in to.get('s', '') or self.aliasing(t['to']):
                    continue
                if to.get('const'):
                    self.read(a, line)
                elif name in ALIASES or name.startswith(('std::get', 'std::tie', 'std::make_tuple', 'std::make_pair', 'std::forward')):
                    pass
                elif t.get('rv'):
                    if self.moved(n, i):
                        self.write(a, line)
                    else:
                        self.read(a, line)
                elif fnref.get('n') in STORE or name.startswith('std::make_'):
                    self.read(a, line)
                else:
                    self.write(a, line)
            elif pts and i < len(pts) and self.aliasing(pts[i]):
                s = t.get('s', '')
                if 'insert_iterator' in s:
                    if name not in ALIASES:
                        self.write(a, line)
                elif name in ALIASES or name in PURE or not self.nonconst_pointee(pts[i]):
                    if name in PURE or name not in ALIASES:
                        self.read(a.on('*'), line)
                elif fnref.get('cls') and fnref.get('n') in STORE | {'assign'}:
                    self.read(a.on('*'), line)
                else:
                    self.write(a.on('*'), line)
            else:
                self.read(a, line)

    def moved(self, n, i):
        return True

    def closure_args(self, a, others):
        n = 0
        for _, key in a.cl:
            node = self._lam[key][0]
            fs = [self.p.fns[i] for i in node['fns'] if i in self.p.fns]
            if fs:
                n = max(n, len(fs[0]['params']))
        o = union(*others) if others else V()
        return [V(o.pl, None)] * n

    def e_call(self, n):
        fnref = n['fn'] if isinstance(n.get('fn'), dict) else {}
        fid = fnref.get('id')
        fn = self.p.fns.get(fid)
        line = n.get('l')
        name = base(fnref.get('qn', ''))
        short = fnref.get('n', '')
        obj = self.ev(n['obj']) if n.get('obj') is not None else None
        args = [self.ev(a) for a in n['a']]
        if self.handler is not None:
            r = self.handler(self, n, name, obj, args)
            if r is not NotImplemented:
                return r
        # calls of closures
        callee = obj if obj is not None and obj.cl else None
        if short == 'operator()' and callee is not None:
            return self.call_closure(callee.cl, args, n)
        if fnref.get('repo') and fn is not None and fn.get('body') is not None:
            this = obj
            r = self.enter(fn, this, args, n)
            if fnref.get('cls') and obj is not None and not fnref.get('static'):
                if (obj.ix in ('E', 'C') or isinstance(obj.ix, tuple)) and not args and self.one_field(fn):
                    return V(r.pl, obj.ix, r.el, r.cl)
            if short == 'faces_around_face' and args and args[0].ix in ('E', 'C'):
                return V(r.pl, r.ix, 'C', r.cl)
            return r
        if obj is not None and fnref.get('cls'):
            return self.ext_method(n, fnref, name, short, obj, args, line)
        if n.get('op') and args and obj is None and short in ('operator*', 'operator->', 'operator[]'):
            return self.ext_method(n, fnref, name, short, args[0], args[1:], line)
        # free functions
        self.pass_args(fnref, args, n)
        if name in ALIASES or name.startswith(('std::get', 'std::tie', 'std::forward')):
            return V(frozenset().union(*[a.pl for a in args]) if args else frozenset(), args[0].ix if len(args) == 1 else None,
                     args[0].el if args else None, args[0].cl if len(args) == 1 else ())
        rt = n.get('t')
        if rt is not None and (self.aliasing(rt) or n.get('lv')) and args:
            return V(frozenset().union(*[a.pl for a in args]), None, args[0].el)
        if n.get('op') in ('=', '|=', '&=', '+=', '-=') and args:
            return V(args[0].pl)
        return V()

    def ext_method(self, n, fnref, name, short, obj, args, line):
        cls = base(fnref.get('cls', ''))
        if cls.startswith('std::atomic') or cls in ('std::mutex', 'std::barrier'):
            return V()
        if short == 'operator()' and not obj.pl:
            self.pass_args(fnref, args, n)
            return V()
        const = bool(fnref.get('const'))
        self.pass_args(fnref, args, n)
        ismap = 'map' in cls
        if short in ('operator*', 'operator->', 'operator++', 'operator--', 'operator+', 'operator-', 'operator+=', 'operator-=') and 'iterator' in cls.lower():
            if short in ('operator*', 'operator->'):
                if 'insert_iterator' in cls:
                    return V(obj.pl, None, None, ())
                ix = obj.el if obj.el not in (None, 'B') else obj.ix if obj.ix == 'E' else None
                return V(obj.on('*').pl if not obj.ix == 'E' else obj.pl, ix)
            return V(obj.pl, None, obj.el)
        if 'insert_iterator' in cls and short == 'operator=':
            self.write(obj, line)
            return obj
        if short == 'operator=' and 'iterator' in cls.lower():
            x = n.get('obj')
            src = args[0] if args else V()
            if isinstance(x, dict) and x.get('k') == 'var' and x['id'] in self.env:
                old = self.env[x['id']]
                self.env[x['id']] = V(old.pl | src.pl, None, join_ix(old.el, src.el))
            return obj
        if const or short in ACCESSORS and not (ismap and short == 'operator[]'):
            if const or short in ('at', 'operator[]', 'find', 'front', 'back', 'top', 'value', 'begin', 'end'):
                self.read(V(obj.pl), line) if const and not self.returns_alias(n) else self.read(V(frozenset((r, pa + ('#',), c) for r, pa, c in obj.pl)), line)
            if 'unique_ptr' in cls or 'shared_ptr' in cls or 'optional' in cls:
                if short in ('operator*', 'operator->', 'get', 'value'):
                    self.read(V(frozenset((r, pa + ('#',), c) for r, pa, c in obj.pl)), line)
                    return V(obj.on('.').pl, obj.ix if obj.ix == 'E' else None, obj.el)
            if short in ELEMENT:
                comp = '*'
                if args and short in ('at', 'operator[]', 'find'):
                    ix = args[0].ix
                    comp = ix if ix in ('E', 'C') or isinstance(ix, tuple) else '*'
                if obj.ix == 'E' or isinstance(obj.ix, tuple):
                    # inside of the element itself
                    nix = ('F', (obj.ix[1] + '.' if isinstance(obj.ix, tuple) else '') + short) if not args else None
                    return V(obj.on(comp).pl, nix)
                c = self.contents(obj)
                return V(obj.on(comp).pl, c if c in ('E', 'C') else None)
            if self.returns_alias(n):
                return V(obj.pl, None, obj.el if obj.el is not None else self.contents(obj) if self.contents(obj) != 'B' else None)
            return V()
        # a member that may modify the object
        self.write(V(obj.pl), line)
        if short in STORE and args:
            ix = args[-1].ix if not (len(args) > 1 and short == 'insert') else None
            for r, pa, _ in obj.pl:
                self.content[(r, pa)] = join_ix(self.content.get((r, pa), 'B'), ix)
        if self.returns_alias(n):
            return V(obj.pl if short in ('operator=', 'operator|=', 'operator+=') else obj.on('*').pl)
        return V()

    def returns_alias(self, n):
        t = n.get('t')
        if t is None:
            return False
        if n.get('fn', {}).get('rref') or self.aliasing(t):
            return True
        fn = n.get('fn', {})
        return fn.get('n') in ELEMENT | ACCESSORS | STORE


def overlap(a, b):
    """May two accesses in different iterations touch the same object?"""
    if a.root != b.root:
        return False
    for (x, px) in a.cond:
        if (x, not px) in b.cond:
            return False
    pa, pb = a.path, b.path
    # an object that is created once, under a lock, is complete when a reference to it is obtained
    for x, y in ((a, b), (b, a)):
        if x.w and x.once and x.locks and not y.w and len(y.path) > len(x.path) and y.path[:len(x.path)] == x.path and y.path[len(x.path)] != '#':
            return False
    # '#' marks an access to the container itself, not to its elements
    for x, y in zip(pa, pb):
        if x == '#' or y == '#':
            # size or element lookup against access of elements: no conflict; against another access of the container: conflict
            return x == y
        if x == y:
            if x in ('E', 'C') or isinstance(x, tuple):
                return False
            continue
        if {x, y} == {'E', 'C'}:
            return False
        xi, yi = index(x), index(y)
        if xi and yi:
            continue
        return False
    rest = pa[len(pb):] if len(pa) > len(pb) else pb[len(pa):]
    if rest and rest[0] == '#':
        return True
    return True


def index(x):
    return x in ('E', 'C', '*') or isinstance(x, tuple)
