"""Expression evaluation and models of the standard/boost/CGAL library for absint.Interp."""
from absint import *
from prog import base


def ground(v):
    """Is it a value without unknown parts?"""
    if isR(v):
        return all(ground(x) for _, x in v[3])
    if isS(v):
        return not v[2] and all(x[0] == '1' and ground(x[1]) for x in v[1])
    return isinstance(v, (bool, int, str))


def isMI(v):
    return isinstance(v, tuple) and len(v) > 0 and v[0] == 'MI'


NUMC = ('int', 'enum', 'bool')


class AI(Interp):
    # ------------------------------------------------------------ expressions
    def eval(self, n):
        self.steps -= 1
        if self.steps < 0:
            raise Unsupported('step budget exhausted')
        m = getattr(self, 'e_' + n['k'].replace('?', '_unknown'), None)
        if m is None:
            raise Unsupported('expression ' + n['k'] + ' ' + n.get('cls', ''), n)
        v = m(n)
        if isT(v) and 't' in n and v not in self.tdom:
            self.register(v, n['t'])
        return v

    def ev(self, n):
        v = self.rval(self.eval(n))
        if v.__class__ is Tm and v not in self.tdom and 't' in n:
            self.register(v, n['t'])
        return v

    def e_int(self, n):
        v = n['v']
        return int(v) if isinstance(v, str) else v

    e_enum = e_int

    def e_bool(self, n):
        return bool(n['v'])

    def e_str(self, n):
        return n['v']

    def e_float(self, n):
        return float(n['v'])

    def e_null(self, n):
        return None

    def e_zero(self, n):
        return self.default(n['t'])

    def e_var(self, n):
        for fr in reversed(self.frames):
            if n['id'] in fr['vars']:
                return fr['vars'][n['id']]
            if not (fr['fn'] or {}).get('lambda') and n.get('vk') not in ('global', 'tls'):
                pass
        if n.get('vk') in ('global', 'tls') or n['id'] in self.p.global_by_id:
            return self.global_lv(n)
        raise Unsupported('unknown variable ' + n['n'], n)

    def global_lv(self, n):
        qn = n.get('qn') or n['n']
        cell = 'global:' + qn
        if cell not in self.st.store:
            g = self.p.global_by_id.get(n['id'])
            if g is not None and g.get('init') is not None and (
                    n.get('cst') or self.p.ty(g['t']).get('const')):
                self.st.store[cell] = self.init_value(g['init'], g['t'])
            else:
                kind = 'global'
                if n.get('vk') == 'tls':
                    self.tlscells.add(cell)
                    if getattr(self, 'thread', 0):
                        kind = 'threadlocal'
                self.st.store[cell] = self.blank(n['t'], T(kind, qn))
        return ('&', cell, ())

    def e_this(self, n):
        for fr in reversed(self.frames):
            if fr['this'] is not None:
                t = fr['this']
                return ('P', t[1], t[2])
            if not (fr['fn'] or {}).get('lambda'):
                break
        raise Unsupported('this', n)

    def ptr_lv(self, v, n=None):
        v = self.rval(v)
        if isP(v):
            return ('&', v[1], v[2])
        if isI(v) or isMI(v) or self.repo_iter_cls(v):
            d = self.iter_deref(v)
            if not isLV(d):
                d = ('&', self.newcell('pointee', d), ())
            return d
        if isT(v):
            cell = '*' + show(v)
            if cell not in self.st.store:
                x = T('deref', v)
                if n is not None and n.get('t') is not None:
                    t = self.p.ty(n['t'])
                    if t.get('c') == 'ptr':
                        x = self.blank(t['to'], x)
                self.st.store[cell] = x
            return ('&', cell, ())
        if v is None:
            raise Throw(T('nullptr'))
        raise Unsupported('dereference of ' + show(v)[:60], n)

    def field(self, b, name, n=None):
        if isLV(b):
            v = self.peek(b)
            if isMI(v):
                b = self.iter_deref(v)
                if not isLV(b):
                    return self.proj(b, ('f', name))
            lv = ('&', b[1], b[2] + (('f', name),))
            x = self.peek_field(b, name)
            if isLV(x):
                return x
            return lv
        return self.proj(b, ('f', name))

    def peek(self, lv):
        try:
            return self.read(lv)
        except Unsupported:
            return None

    def peek_field(self, lv, name):
        """The raw stored value of a field (a reference is not followed)."""
        c, path = lv[1], lv[2]
        v = self.st.store.get(c)
        for pe in path + (('f', name),):
            if isLV(v):
                v = self.read(v)
            if isR(v):
                d = dict(v[3])
                if pe[0] == 'f' and pe[1] in d:
                    v = d[pe[1]]
                    continue
                if v[1] is not None:
                    v = v[1]
                    if not isR(v):
                        return None
                    continue
                return None
            if v is None or isconst(v):
                return None
            if isS(v) and pe[0] == 'i':
                if isnum(pe[1]) and pe[1] < len(v[1]) and all(s[0] == '1' for s in v[1]) and not v[2]:
                    v = v[1][pe[1]][1]
                    continue
                return None
            return None
        return v

    def e_member(self, n):
        name = n['n']
        if name in ('first', 'second') and n.get('cls') in ('std::pair',):
            name = '0' if name == 'first' else '1'
        b = self.eval(n['e'])
        if n.get('arrow'):
            b = self.ptr_lv(b, n['e'])
        return self.field(b, name, n)

    def e_un(self, n):
        op = n['op']
        if op == '*':
            return self.ptr_lv(self.eval(n['e']), n['e'])
        if op == '&':
            v = self.eval(n['e'])
            if isLV(v):
                return ('P', v[1], v[2])
            if isinstance(v, tuple) and v and v[0] == 'F':
                return v
            return ('P', self.newcell('addr', v), ())
        if op in ('++', '--'):
            lv = self.eval(n['e'])
            return self.incdec(lv, op, n.get('post'), n.get('t'), n)
        v = self.ev(n['e'])
        if op == '!':
            return self.neg(self.boolish(v))
        if op == '-':
            return self.unary_minus(v)
        if op == '+':
            return v
        if op == '~':
            if isnum(v):
                return self.wrap(~v, n['t'])
            return T('app', '~', v)
        raise Unsupported('unary ' + op, n)

    def boolish(self, v):
        if isT(v) or isinstance(v, bool):
            return v
        if isnum(v):
            return v != 0
        return self.decide(v)

    def unary_minus(self, v):
        if isnum(v):
            return -v
        if isT(v) and v[1] == 'neg':
            return v[2]
        if self.finite(v):
            return T('neg', v)
        if isT(v) and v[1] == 'lin' or (isT(v) and v in self.nonneg):
            return mulc(v, -1)
        return T('app', '-', v)

    def incdec(self, lv, op, post, t, n):
        old = self.read(lv)
        d = 1 if op == '++' else -1
        if isI(old) or self.repo_iter_cls(old):
            self.iter_inc(lv, d)
        elif isMI(old):
            raise Unsupported('map iterator increment', n)
        else:
            if isT(old) and old[1] not in ('lin',) and not self.is_intlike(lv, t) and not isnum(old):
                self.iter_inc(lv, d)
            else:
                self.write(lv, self.wrap(add(old, d), t), n)
        return old if post else lv

    def is_intlike(self, lv, t):
        if t is None:
            return True
        c = self.p.deref(t)[1].get('c')
        return c in ('int', 'enum', 'bool', 'float')

    def arith_type(self, t):
        return self.p.deref(t)[1].get('c')

    def e_bin(self, n):
        op = n['op']
        if op == ',':
            self.eval(n['a'])
            return self.eval(n['b'])
        if op == '&&':
            a = self.ev(n['a'])
            if self.tape is not None and isT(a):
                snap = self.st.clone()
                self.nochoose += 1
                try:
                    if self.ev(n['b']) is True:
                        return a
                except NeedChoice:
                    pass
                finally:
                    self.nochoose -= 1
                    self.st = snap
            if not self.truth(a):
                return False
            v = self.ev(n['b'])
            return v if isinstance(v, bool) or isT(v) else self.decide(v)
        if op == '||':
            if self.truth(self.ev(n['a'])):
                return True
            v = self.ev(n['b'])
            return v if isinstance(v, bool) or isT(v) else self.decide(v)
        a = self.ev(n['a'])
        b = self.ev(n['b'])
        if self.arith_type(n['a'].get('t')) == 'float' or self.arith_type(n['b'].get('t')) == 'float':
            return self.float_op(op, a, b)
        return self.binop(op, a, b, n['t'])

    def float_op(self, op, a, b):
        if isnum(a) and isnum(b):
            if op in ('==', '!=', '<', '>', '<=', '>='):
                return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
            if op == '/':
                return a / b if b else T('flt', '/', a, b)
            return self.binconst(op, a, b)
        return self.opaque_cmp(op, a, b)

    def opaque_cmp(self, op, a, b):
        if op == '==':
            return T('==', *sorted((a, b), key=okey))
        if op == '!=':
            return T('!', T('==', *sorted((a, b), key=okey)))
        if op == '<':
            return T('?less', a, b)
        if op == '>':
            return T('?less', b, a)
        if op == '<=':
            return T('!', T('?less', b, a))
        if op == '>=':
            return T('!', T('?less', a, b))
        if op in ('+', '*'):
            a, b = sorted((a, b), key=okey)
        return T('app', op, a, b)

    def e_asg(self, n):
        op = n['op']
        if op == '=':
            lv = self.eval(n['a'])
            v = self.ev(n['b'])
            return self.assign(lv, v, n)
        lv = self.eval(n['a'])
        b = self.ev(n['b'])
        a = self.rval(lv)
        if self.arith_type(n['a'].get('t')) == 'float':
            v = self.float_op(op[:-1], a, b)
        else:
            v = self.binop(op[:-1], a, b, n['a'].get('t'))
        return self.assign(lv, v, n)

    def assign(self, lv, v, n=None):
        if isR(lv) and lv[2] == 'tuple':   # std::tie(...) = ...
            for k, x in lv[3]:
                y = self.rval(self.proj(v, ('f', k)))
                if isLV(x):
                    self.write(x, y, n)
            return lv
        if not isLV(lv):
            # a temporary (e.g. *back_inserter) or an opaque object
            if isR(lv) and lv[2] == 'out_it':
                self.out_push(lv, v, n)
                return lv
            self.st.ev.append(('ext', 'assign', lv, (v,), n.get('l') if n else 0))
            return lv
        cur = self.peek(lv)
        if isR(cur) and cur[2] == 'out_it':
            if isR(v) and v[2] == 'out_it':
                self.write(lv, v, n)
            else:
                self.out_push(cur, v, n)
            return lv
        if isT(v) and n is not None and n.get('a') is not None and isinstance(n.get('a'), dict) and n['a'].get('t') is not None:
            self.register(v, n['a']['t'])
        self.write(lv, v, n)
        return lv

    def out_push(self, it, v, n=None):
        lv = dict(it[3])['to']
        cur = self.read(lv)
        if isM(cur):
            self.write(lv, self.map_put(cur, v, True), n)
            return
        if isS(cur):
            self.write(lv, self.seq_push(cur, v), n)
            return
        if isT(cur):
            self.write(lv, self.seq_push(Ssym(cur), v), n)
            return
        raise Unsupported('output iterator', n)

    def e_cond(self, n):
        if self.truth(self.ev(n['c'])):
            return self.eval(n['a'])
        return self.eval(n['b'])

    def e_idx(self, n):
        a = self.eval(n['a'])
        i = self.ev(n['b'])
        if isLV(a):
            v = self.peek(a)
            if isP(v):
                return ('&', v[1], v[2] + (('i', i),))
            if isI(v):
                return self.iter_deref(('I', v[1], add(v[2], i)))
            return ('&', a[1], a[2] + (('i', i),))
        return self.seq_at(a, i)

    def e_cast(self, n):
        ck = n['ck']
        if ck in ('ToVoid',):
            self.eval(n['e'])
            return None
        v = self.eval(n['e'])
        rank = {'float': 0, 'double': 1, 'long double': 2}
        ra, rb = (rank.get((self.p.deref(x)[1].get('s') or '').replace('const ', '')) if x is not None else None for x in (n['e'].get('t'), n['t']))
        if ra is not None and rb is not None and rb < ra:
            v = self.rval(v)
            return v if isinstance(v, int) else T('app', 'narrowed', v)
        if ck in ('LValueToRValue', 'NoOp', 'BitCast', 'LValueBitCast', 'DerivedToBase',
                  'UncheckedDerivedToBase', 'BaseToDerived', 'FunctionToPointerDecay', 'ArrayToPointerDecay',
                  'ConstructorConversion', 'UserDefinedConversion', 'NullToPointer'):
            return v
        v = self.rval(v)
        if ck in ('PointerToBoolean', 'IntegralToBoolean', 'FloatingToBoolean'):
            if isnum(v):
                return v != 0
            if isT(v) and (v[1] in ('lin',) or ck == 'IntegralToBoolean' and not self.finite(v)):
                return self.neg(self.eq(v, 0))
            if v is None:
                return False
            if isP(v):
                return True
            return self.neg(self.eq(v, 0)) if ck == 'IntegralToBoolean' else v
        if ck in ('IntegralCast', 'BooleanToSignedIntegral', 'EnumToIntegral'):
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                return self.wrap(v, n['t'])
            if isT(v) and self.arith_type(n['t']) == 'enum' and self.arith_type(n['e'].get('t')) == 'int' and v not in self.tdom:
                self.noenum.add(v)
            return v
        if ck in ('IntegralToFloating',):
            if isinstance(v, int):
                return float(v)
            return T('app', 'tofloat', v)
        if ck in ('FloatingToIntegral',):
            if isinstance(v, float):
                return int(v)
            return T('app', 'toint', v)
        if ck == 'FloatingCast':
            return v
        return v

    def e_throw(self, n):
        if 'e' not in n:
            e = getattr(self, 'cur_exc', None)
            raise e if e is not None else Throw(T('exc', '?'))
        v = self.ev(n['e'])
        raise Throw(v, n.get('l', 0))

    def e_new(self, n):
        raise Unsupported('new', n)

    def e_fn(self, n):
        return ('F', n['fn']['id'], base(n['fn']['qn']))

    def e_lambda(self, n):
        caps = []
        this = None
        for c in n['caps']:
            if c.get('this'):
                t = self.e_this(n)
                this = ('&', t[1], t[2])
                continue
            if c.get('ref'):
                v = self.eval(c['init']) if c.get('init') else None
                if v is None:
                    continue
                if not isLV(v):
                    v = ('&', self.newcell(c['n'], v), ())
            else:
                x = self.ev(c['init'])
                v = ('&', self.newcell('cap.' + c['n'], x), ())
            caps.append((c['id'], v))
        if this is None:
            for fr in reversed(self.frames):
                if fr['this'] is not None:
                    this = fr['this']
                    break
                if not (fr['fn'] or {}).get('lambda'):
                    break
        return ('L', tuple(n['fns']), tuple(caps), this)

    def e_init(self, n):
        i, t = self.p.deref(n['t'])
        if t.get('c') == 'arr':
            vals = [self.ev(a) for a in n['a']]
            while len(vals) < t['n']:
                vals.append(self.ev(n['fill']) if 'fill' in n else self.default(t['to']))
            return S(*vals)
        b = base(t.get('base', ''))
        if b == 'std::array':
            ln = t['ta'][1]['v']
            if len(n['a']) == 1 and n['a'][0]['k'] == 'init':
                v = self.eval(n['a'][0])
                return v
            vals = [self.ev(a) for a in n['a']]
            while len(vals) < ln:
                vals.append(self.default(t['ta'][0]['t']))
            return S(*vals)
        if t.get('c') == 'rec':
            fs = n.get('fs') or []
            rec = self.p.records.get(t.get('rid'))
            vals = []
            for k, a in zip(fs, n['a']):
                v = self.eval(a)
                vals.append((k, v if rec and self.is_ref_field(rec, k) else self.rval(v)))
            return Rf(b, vals)
        if len(n['a']) == 1:
            return self.eval(n['a'][0])
        if not n['a']:
            return self.default(n['t'])
        return S(*[self.ev(a) for a in n['a']])

    def is_ref_field(self, rec, name):
        for f in rec['fields']:
            if f['n'] == name:
                return self.p.ty(f['t']).get('c') == 'ref'
        return False

    def e_copy(self, n):
        fn = n['fn']
        f = self.p.fns.get(fn['id'])
        if f is not None and f.get('body') is not None and self.user_copy:
            a = self.eval(n['e'])
            if not isLV(a):
                return a
            _, t = self.p.deref(n['t'])
            return self.construct_repo(f, [a], t, self.p.records.get(f.get('rid')))
        v = self.ev(n['e'])
        if self.on_copy is not None:
            self.on_copy(self, n, v)
        return v

    user_copy = False
    on_copy = None

    def e_ctor(self, n):
        fn = n['fn']
        f = self.p.fns.get(fn['id'])
        i, t = self.p.deref(n['t'])
        if f is not None:
            args = [self.eval(a) for a in n['a']]
            return self.construct_repo(f, args, t, self.p.records.get(f.get('rid')))
        b = base(t.get('base', ''))
        args = [self.eval(a) for a in n['a']]
        if fn.get('repo') or t.get('repo'):
            if not args:
                return self.default(n['t'], n)
            if len(args) == 1 and fn.get('sp') in ('copyctor', 'movector'):
                return self.rval(args[0])
            rec = self.p.records.get(t.get('rid'))
            # constructor without an analysed body (inherited ...)
            if rec and len(args) == len(rec['fields']):
                return Rf(b, [(fd['n'], self.rval(a)) for fd, a in zip(rec['fields'], args)])
            raise Unsupported('constructor of ' + b, n)
        return self.make(n['t'], args, n)

    def make(self, tidx, args, n=None):
        """Constructs a value of (mostly library) type from arguments."""
        i, t = self.p.deref(tidx)
        b = base(t.get('base', ''))
        c = t.get('c')
        if c in ('int', 'enum', 'bool', 'float', 'ptr'):
            if not args:
                return self.default(i)
            return self.rval(args[0])
        args = [a for a in args if not self.is_alloc(a)]
        if not args:
            return self.default(i)
        if b in self.SEQ or b in ('std::stack', 'std::queue'):
            vals = [self.rval(a) for a in args]
            if len(vals) == 1 and (isS(vals[0])):
                return vals[0]
            if len(vals) == 2 and isI(vals[0]) and isI(vals[1]):
                return self.range_value(vals[0], vals[1])
            if len(vals) == 2 and isI(vals[0]) and isMI(vals[1]) and vals[1][2] is None:
                sq = self.as_seq(self.rval(vals[0][1]))
                return self.seq_slice(sq, vals[0][2], self.seq_len(sq))
            if isnum(vals[0]) or isT(vals[0]):
                if len(vals) == 1 and isT(vals[0]) and n is not None and self.p.tbase(
                        (n['a'][0] if n.get('a') else {}).get('t')) in self.SEQ:
                    return vals[0]
                if len(vals) == 2 and n is not None and n.get('a') and self.p.ty(n['a'][0].get('t')).get('c') == 'ptr':
                    return Ssym(T('range', vals[0], vals[1]))
                et = t['ta'][0]['t'] if t.get('ta') else None
                fill = vals[1] if len(vals) > 1 else self.default(et)
                return self.repeat(vals[0], fill)
            raise Unsupported('construction of ' + b + ' from ' + ', '.join(map(show, vals)), n)
        if b in self.MAP:
            v = self.rval(args[0])
            if isM(v):
                return v
            if len(args) >= 2 and isI(v):
                return ('M', T('union', self.range_value(v, self.rval(args[1]))), ())
            return ('M', None, ())
        if b in ('std::pair', 'std::tuple'):
            if len(args) == 1 and isR(self.rval(args[0])) and self.rval(args[0])[2] == 'tuple':
                v = self.rval(args[0])
                return tup(*[self.rval(x) for _, x in v[3]])
            ta = t.get('ta') or []
            r = []
            for k, a in enumerate(args):
                if k < len(ta) and self.p.ty(ta[k]['t']).get('c') == 'ref':
                    r.append(a)
                else:
                    v = self.rval(a)
                    if k < len(ta) and not self.fits(v, ta[k]['t']):
                        v = self.convert(v, ta[k]['t'], n)
                    r.append(v)
            return tup(*r)
        if b == 'std::optional':
            v = self.rval(args[0])
            if isR(v) and v[2] == 'opt':
                return v
            if isT(v) and v[1] == 'global' and 'nullopt' in str(v[2]):
                return Rf('opt', [('has', False), ('val', UNINIT)])
            return Rf('opt', [('has', True), ('val', v)])
        if b == 'std::unique_ptr':
            return self.rval(args[0])
        if b in ('std::basic_string', 'std::basic_string_view'):
            v = self.rval(args[0])
            return v if len(args) == 1 else T('str', *[self.rval(a) for a in args])
        if b in ('std::atomic', 'std::__atomic_base'):
            return self.rval(args[0])
        if b.startswith('std::') and (b.endswith('_error') or b in (
                'std::invalid_argument', 'std::out_of_range', 'std::exception', 'std::bad_alloc', 'std::length_error')):
            return T('exc', b, self.rval(args[0]))
        if b in ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock'):
            self.st.ev.append(('lock', args[0] if isLV(args[0]) else None, n.get('l') if n else 0))
            return T('new', b)
        if b in ('boost::iterator_range', 'boost::iterator_range_detail::iterator_range_base'):
            if len(args) == 2:
                return R('range', b=self.rval(args[0]), e=self.rval(args[1]))
            return self.rval(args[0])
        if b in ('__gnu_cxx::__normal_iterator', 'std::exception_ptr', 'std::__exception_ptr::exception_ptr',
                 'std::reverse_iterator', 'CGAL::internal::CC_iterator') and len(args) == 1:
            return self.rval(args[0])
        if b == 'std::allocator':
            return T('new', b)
        if b in self.EQUIV:
            b = self.EQUIV[b]
        return T('ctor', b, *[self.key(a) for a in args])

    EQUIV = {}

    def is_alloc(self, a):
        v = self.rval(a) if not isLV(a) else self.peek(a)
        return isT(v) and v[1] == 'new' and v[2] == 'std::allocator'

    def fits(self, v, tidx):
        _, t = self.p.deref(tidx)
        if t.get('c') == 'rec' and t.get('repo'):
            return not isnum(v)
        return True

    def convert(self, v, tidx, n=None):
        return v

    def key(self, a):
        """Value of an argument as part of a term."""
        v = self.rval(a)
        if isS(v) and len(v[1]) == 1 and v[1][0][0] == 's' and not v[2]:
            return v[1][0][1]
        if isR(v):
            return self.norm(v)
        if isM(v) and not v[2] and v[1] is not None:
            return v[1]
        return v

    def repeat(self, n, fill):
        if isnum(n):
            if n > 64:
                raise Unsupported('large vector')
            return S(*([fill] * n))
        self.nonneg.add(n)
        return ('S', (('r', n, fill),), ())

    def range_value(self, b, e):
        """The sequence [b, e)."""
        if isI(b) and isI(e):
            lv = b[1]
            v = self.rval(lv)
            if isT(v):
                v = self.as_seq(v)
            return self.seq_slice(v, b[2], e[2])
        raise Unsupported('range value')

    def e_expr_unknown(self, n):
        raise Unsupported('expression ' + n.get('cls', '?'), n)

    # ------------------------------------------------------------ calls
    def e_call(self, n):
        fn = n.get('fn')
        if fn is None:
            f = self.eval(n['cal'])
            return self.call_value(f, [self.eval(a) for a in n['a']], n)
        obj = None
        if n.get('obj') is not None:
            obj = self.eval(n['obj'])
            if n.get('arrow'):
                obj = self.ptr_lv(obj, n['obj'])
        f = self.p.fns.get(fn['id'])
        b = base(fn['qn'])
        h = self.ic.get(b)
        if f is None and h is not None:
            args = [self.eval(a) for a in n['a']]
            r = h(self, fn, obj, args, n)
            if r is not NotImplemented:
                return r
            return self.lib(fn, b, obj, args, n)
        if fn.get('lambda') and fn['n'] == 'operator()':
            args = [self.eval(a) for a in n['a']]
            lv = self.rval(obj)
            if isL(lv):
                if f is None:
                    return self.call_value(obj, args, n)
                return self.call_fn(f, lv[3], args, n, dict(lv[2]))
            raise Unsupported('call of unknown lambda', n)
        if f is not None and f.get('body') is not None:
            sp = fn.get('sp')
            if sp in ('copyassign', 'moveassign') and not self.user_copy:
                v = self.ev(n['a'][0])
                return self.assign(obj, v, n)
            if obj is not None and not isLV(obj):
                obj = ('&', self.newcell('tmp', obj), ())
            args = [self.eval(a) for a in n['a']]
            return self.call_fn(f, obj, args, n)
        args = [self.eval(a) for a in n['a']]
        return self.lib(fn, b, obj, args, n)

    def lib(self, fn, b, obj, args, n):
        name = fn['n']
        op = n.get('op')
        if fn.get('sp') in ('copyassign', 'moveassign') or (op == '=' and obj is not None):
            return self.lib_assign(fn, obj, args, n)
        if op is not None:
            r = self.lib_op(op, fn, b, obj, args, n)
            if r is not NotImplemented:
                return r
        if obj is not None:
            r = self.lib_method(name, fn, b, obj, args, n)
            if r is not NotImplemented:
                return r
        else:
            m = getattr(self, 'f_' + name, None)
            if m is not None and (b.startswith(('std::', 'boost::', 'CGAL::'))):
                r = m(args, n, fn)
                if r is not NotImplemented:
                    return r
        return self.opaque(fn, b, obj, args, n)

    def opaque(self, fn, b, obj, args, n):
        self.opaque_calls[b] = self.opaque_calls.get(b, 0) + 1
        ta = tuple(self.p.tname(x['t']) if 't' in x else x.get('v') for x in fn.get('ta', []))
        keys = tuple(self.key(a) for a in args)
        ok = (self.key(obj),) if obj is not None else ()
        name = b
        if b == 'std::get_if':
            name = 'get_if:' + ta[0] if ta else b
        t = T('app', name, *(ok + keys))
        line = n.get('l', 0)
        eff = False
        for a, pt in zip(args, fn.get('pt', [])):
            pty = self.p.ty(pt)
            if pty.get('c') == 'ref' and not self.p.ty(pty['to']).get('const') and not pty.get('rv') and isLV(a):
                eff = True
        if obj is not None and not fn.get('const') and not fn.get('static') and isLV(obj) and not self.is_const_obj(n):
            eff = True
        if eff:
            s = self.fresh('call')
            t = T('app', name, s, *(ok + keys))
            for i, (a, pt) in enumerate(zip(args, fn.get('pt', []))):
                pty = self.p.ty(pt)
                if pty.get('c') == 'ref' and not self.p.ty(pty['to']).get('const') and not pty.get('rv') and isLV(a):
                    self.write(a, self.blank(pty['to'], T('out', name, i, s)), n)
            if obj is not None and isLV(obj) and not fn.get('const') and not self.is_const_obj(n):
                self.write(obj, T('upd', name, s), n)
            self.st.ev.append(('ext', name, obj, tuple(args), line, t))
        else:
            self.st.ev.append(('pure', name, obj, keys, line))
        rt = n.get('t')
        if rt is not None:
            _, ty = self.p.deref(rt)
            bb = base(ty.get('base', ''))
            if ty.get('repo') and ty.get('c') == 'rec':
                return ('R', t, bb, ())
            self.register(t, rt)
        return t

    def is_const_obj(self, n):
        o = n.get('obj')
        if not o:
            return False
        t = self.p.ty(o.get('t'))
        return bool(t.get('const'))

    def lib_assign(self, fn, obj, args, n):
        a = args[0]
        v = self.rval(a)
        if isR(obj) and obj[2] == 'tuple':
            return self.assign(obj, v, n)
        tb = self.p.tbase(n['obj'].get('t')) if n.get('obj') else ''
        if tb == 'std::optional' and not (isR(v) and v[2] == 'opt'):
            if isT(v) and 'nullopt' in show(v):
                v = Rf('opt', [('has', False), ('val', UNINIT)])
            elif not (isT(v) and self.p.tbase(n['a'][0].get('t')) == 'std::optional'):
                v = Rf('opt', [('has', True), ('val', v)])
        if isS(v) and tb in self.MAP:
            v = ('M', None, ())
        return self.assign(obj, v, n)

    def numeric_type(self, n):
        return n is not None and n.get('t') is not None and self.arith_type(n['t']) in NUMC

    def is_iter(self, v):
        return isI(v) or isMI(v) or self.repo_iter_cls(v) is not None

    def lib_op(self, op, fn, b, obj, args, n):
        ops = ([obj] if obj is not None else []) + list(args)
        if op == '()':
            return self.lib_functor(fn, b, obj, args, n)
        if op in ('<<', '>>') and self.is_stream(fn, n):
            return self.stream_op(op, fn, ops, n)
        vals = [self.rval(x) for x in ops]
        nodes = ([n['obj']] if n.get('obj') is not None else []) + n['a']
        if op == '[]':
            return self.index(ops[0], vals[1], n, False)
        if op == '->' or (op == '*' and len(ops) == 1):
            v = vals[0]
            tb = self.p.tbase(nodes[0].get('t'))
            if isR(v) and v[2] == 'out_it':
                return ops[0]
            if tb == 'std::optional' or (isR(v) and v[2] == 'opt') or tb == 'boost::optional':
                lv = ops[0] if isLV(ops[0]) else ('&', self.newcell('opt', v), ())
                lv = ('&', lv[1], lv[2] + (('f', 'val'),))
                return lv if op == '*' else ('P', lv[1], lv[2])
            if isP(v):
                return ('&', v[1], v[2]) if op == '*' else v
            if self.is_iter(v):
                d = self.iter_deref(v, ops[0] if isLV(ops[0]) else None)
                if op == '*':
                    return d
                if not isLV(d):
                    d = ('&', self.newcell('pointee', d), ())
                return ('P', d[1], d[2])
            if isT(v):
                if op == '->' and b.startswith('boost::iterators'):
                    return v
                lv = self.ptr_lv(v, None)
                if op == '*' and n.get('t') is not None:
                    cur = self.read(lv)
                    if isT(cur):
                        nb = self.blank(n['t'], cur)
                        if nb is not cur:
                            self.st.store[lv[1]] = nb
                return lv if op == '*' else v
            if v is None:
                raise Throw(T('nullptr'))
            raise Unsupported('operator ' + op, n)
        if op in ('++', '--'):
            v = vals[0]
            if isR(v) and v[2] == 'out_it':
                return ops[0]
            if self.p.tbase(nodes[0].get('t')) in ('std::atomic', 'std::__atomic_base'):
                return self.incdec(ops[0], op, len(ops) == 2 or fn['pt'] != [], None, n)
            post = len(ops) == 2
            if isLV(ops[0]):
                old = v
                self.iter_inc(ops[0], 1 if op == '++' else -1)
                return old if post else ops[0]
            raise Unsupported('increment of temporary', n)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.lib_compare(op, vals, nodes, n)
        if op in ('+', '-', '+=', '-=') and len(ops) == 2:
            a, c = vals
            if isI(a) or self.repo_iter_cls(a):
                return self.iter_arith(op, ops[0], a, c, n)
            if isI(c) and op == '+':
                return ('I', c[1], add(c[2], a))
        if op == '!' and len(ops) == 1:
            v = vals[0]
            if self.is_stream(fn, n):
                return self.neg(self.stream_ok(ops[0]))
            if isR(v) and v[2] == 'opt':
                return self.neg(self.proj(v, ('f', 'has')))
            if self.p.tbase(nodes[0].get('t')) in ('boost::optional', 'std::optional'):
                return self.neg(self.bool_term(self.proj(v, ('f', 'has'))))
            return self.neg(self.boolish(v))
        if op in ('*', '-', '+') and all(self.finite(v) for v in vals) and self.p.deref(n['t'])[1].get('c') in NUMC:
            if len(vals) == 1:
                return self.unary_minus(vals[0]) if op == '-' else vals[0]
            return self.binop(op, vals[0], vals[1], n['t'])
        if op in ('|', '&', '^') and all(self.finite(v) for v in vals):
            return self.binop(op, vals[0], vals[1], n['t'])
        if op in ('+', '-', '*', '/', '%') and obj is None:
            if len(vals) == 1:
                return T('app', op, self.key(vals[0]))
            a, c = self.key(vals[0]), self.key(vals[1])
            if op == '*' or (op == '+'):
                a, c = sorted((a, c), key=okey)
            return T('app', op, a, c)
        if op in ('+=', '-=', '*=', '/=', '|=', '&=') and isLV(ops[0]):
            a, c = self.key(vals[0]), self.key(vals[1])
            self.write(ops[0], T('app', op[:-1], a, c), n)
            return ops[0]
        return NotImplemented

    def bool_term(self, v):
        if isT(v):
            self.tdom.setdefault(v, frozenset((False, True)))
        return v

    def iter_arith(self, op, lv, a, c, n):
        if op in ('+', '-') and not (self.is_iter(c)):
            k = c if op == '+' else mulc(c, -1) if not isnum(c) else -c
            if isI(a):
                return ('I', a[1], add(a[2], k))
            cell = ('&', self.newcell('ita', a), ())
            self.iter_inc(cell, k) if k in (1, -1) else self.call_fn(
                self.repo_method(self.repo_iter_cls(a), 'advance'), cell, [k])
            return self.read(cell)
        if op == '-':
            return self.iter_dist(c, a)
        if op in ('+=', '-=') and isLV(lv):
            k = c if op == '+=' else mulc(c, -1)
            if isI(a):
                self.write(lv, ('I', a[1], add(a[2], k)), n)
                return lv
            self.call_fn(self.repo_method(self.repo_iter_cls(a), 'advance'), lv, [k])
            return lv
        raise Unsupported('iterator arithmetic', n)

    def lib_compare(self, op, vals, nodes, n):
        a, c = vals
        if op in ('==', '!='):
            if isMI(a) and isMI(c):
                r = self.mi_eq(a, c)
            elif self.is_iter(a) or self.is_iter(c):
                r = self.iter_eq(a, c)
            else:
                r = self.eq(a, c)
            return r if op == '==' else self.neg(r)
        if isI(a) and isI(c):
            return self.binop(op, a[2], c[2])
        tys = [self.arith_type(x.get('t')) for x in nodes]
        if all(t in NUMC for t in tys):
            return self.binop(op, a, c)
        if isnum(a) and isnum(c):
            return self.binop(op, a, c)
        if isS(a) and isS(c):
            return self.seq_less(op, a, c)
        return self.opaque_cmp(op, self.key(a), self.key(c))

    def seq_less(self, op, a, c):
        if op in ('>', '<='):
            r = self.seq_lt(c, a)
            return r if op == '>' else self.neg(r)
        r = self.seq_lt(a, c)
        return r if op == '<' else self.neg(r)

    def seq_lt(self, a, c):
        if not all(s[0] == '1' for s in a[1] + c[1]) or a[2] or c[2]:
            return T('?less', a, c)
        for x, y in zip(a[1], c[1]):
            if self.truth(self.less(x[1], y[1])):
                return True
            if self.truth(self.less(y[1], x[1])):
                return False
        return len(a[1]) < len(c[1])

    def less(self, a, b):
        if isR(a) and a[2] == 'tuple' and isR(b):
            for (k, x), (_, y) in zip(a[3], b[3]):
                if self.truth(self.less(x, y)):
                    return True
                if self.truth(self.less(y, x)):
                    return False
            return False
        if isS(a) and isS(b):
            return self.seq_lt(a, b)
        if isR(a) or isR(b):
            cls = a[2] if isR(a) else b[2]
            fs = self.p.by_base.get(cls + '::operator<', [])
            if fs:
                return self.rval(self.call_fn(fs[0], ('&', self.newcell('la', a), ()), [('&', self.newcell('lb', b), ())]))
        return self.lt(a, b)

    def mi_eq(self, a, c):
        if a[2] is None and c[2] is None:
            return True
        if a[2] is None or c[2] is None:
            x = c if a[2] is None else a
            return self.neg(x[3])
        return self.eq(a[2], c[2])

    def eq(self, a, b, numeric=True):
        for x, y in ((a, b), (b, a)):
            if isR(x) and isT(y) and x[2] not in ('?', 'tuple', 'range', 'opt', 'out_it', 'stream') and y[1] != 'uninit':
                if x[1] is None and x[3]:
                    return self.conj(self.eq(v, self.proj(y, ('f', k))) for k, v in x[3])
            if isR(x) and isR(y) and (x[1] is None) != (y[1] is None) and x[2] == y[2]:
                z = x if x[1] is None else y
                w = y if x[1] is None else x
                return self.conj(self.eq(v, self.proj(w, ('f', k))) for k, v in z[3])
            if isS(x) and isT(y) and all(s[0] == '1' for s in x[1]) and not x[2] and x[1]:
                return self.conj(self.eq(s[1], self.seq_at(y, i)) for i, s in enumerate(x[1]))
        return super().eq(a, b, numeric)

    def index(self, o, i, n, checked=True):
        """element o[i] / o.at(i)"""
        v = self.rval(o)
        tb = self.p.tbase(n['obj'].get('t')) if n.get('obj') is not None else ''
        if isM(v) or tb in self.MAP:
            lv = o if isLV(o) else ('&', self.newcell('map', v), ())
            m = self.as_map(v)
            has = self.map_find(m, i)
            if checked:
                if has is False:
                    raise Throw(T('out_of_range', i))
                if has is not True:
                    self.assume(has, True)
            elif not self.truth(has):
                et = self.p.deref(n['t'])
                self.write(lv, self.map_put(m, i, self.default(n['t'])), n)
            return ('&', lv[1], lv[2] + (('k', i),))
        if isI(v):
            return self.iter_deref(('I', v[1], add(v[2], i)))
        if isLV(o):
            return ('&', o[1], o[2] + (('i', i),))
        if isT(v):
            return T('at', v, i)
        return self.seq_at(v, i)

    def lib_functor(self, fn, b, obj, args, n):
        cls = base(fn.get('cls', ''))
        last = cls.split('::')[-1]
        vals = [self.rval(a) for a in args]
        if last in ('less', 'greater', 'equal_to') and cls.startswith('std::'):
            return {'less': self.less(vals[0], vals[1]) if last == 'less' else None,
                    'greater': self.less(vals[1], vals[0]) if last == 'greater' else None,
                    'equal_to': self.eq(vals[0], vals[1]) if last == 'equal_to' else None}[last]
        full = base(self.p.tname(n['obj']['t'])) if n.get('obj') else cls
        ov = self.rval(obj)
        k = cls
        return T('app', k, *[self.key(v) for v in vals])

    # ------------------------------------------------------------ methods
    def lib_method(self, name, fn, b, obj, args, n):
        v = self.rval(obj)
        tb = self.p.tbase(n['obj'].get('t')) if n.get('obj') is not None else ''
        cls = base(fn.get('cls', ''))
        if name == 'operator bool' or name.startswith('operator '):
            if self.is_stream(fn, n):
                return self.stream_ok(obj)
            if tb == 'std::optional' or (isR(v) and v[2] == 'opt'):
                return self.bool_term(self.proj(v, ('f', 'has')))
            if name == 'operator basic_string_view' or 'basic_string' in name:
                return v
            if 'unique_ptr' in cls or 'exception_ptr' in cls or 'shared_ptr' in cls:
                return self.boolish(v) if not (isT(v)) else self.bool_term(T('?nonnull', v))
            return v
        if self.is_stream(fn, n):
            return self.stream_method(name, fn, obj, args, n)
        if cls in ('boost::iterator_range', 'boost::iterator_range_detail::iterator_range_base',
                   'boost::iterator_range_detail::iterator_range_impl') or (isR(v) and v[2] == 'range'):
            return self.m_range(name, obj, v, args, n)
        if tb in self.MAP or isM(v):
            r = self.m_map(name, obj, v, args, n)
            if r is not NotImplemented:
                return r
        if tb in self.SEQ or tb == 'std::array' or isS(v):
            r = self.m_seq(name, obj, v, args, n, tb)
            if r is not NotImplemented:
                return r
        if tb == 'std::optional' or (isR(v) and v[2] == 'opt'):
            r = self.m_opt(name, obj, v, args, n)
            if r is not NotImplemented:
                return r
        if tb in ('std::unique_ptr', 'std::shared_ptr'):
            if name == 'reset':
                self.write(obj, self.rval(args[0]) if args else None, n)
                return None
            if name == 'get':
                return v
            if name == 'release':
                self.write(obj, None, n)
                return v
        if tb in ('std::atomic', 'std::__atomic_base'):
            if name == 'load':
                return v
            if name == 'store':
                self.write(obj, self.rval(args[0]), n)
                return None
            if name == 'fetch_add':
                self.write(obj, add(v, self.rval(args[0])), n)
                return v
            if name == 'exchange':
                self.write(obj, self.rval(args[0]), n)
                return v
        if tb in ('std::basic_string', 'std::basic_string_view'):
            r = self.m_str(name, obj, v, args, n)
            if r is not NotImplemented:
                return r
        if name == 'swap' and len(args) == 1 and isLV(args[0]) and isLV(obj):
            w = self.rval(args[0])
            self.write(obj, w, n)
            self.write(args[0], v, n)
            return None
        return NotImplemented

    def m_str(self, name, obj, v, args, n):
        a = [self.rval(x) for x in args]
        if isinstance(v, str) and all(isconst(x) for x in a):
            if name == 'ends_with' and isinstance(a[0], str):
                return v.endswith(a[0])
            if name == 'starts_with' and isinstance(a[0], str):
                return v.startswith(a[0])
            if name == 'empty':
                return not v
            if name in ('size', 'length'):
                return len(v)
        if name in ('ends_with', 'starts_with', 'empty', 'contains'):
            return self.bool_term(T('app', 'str.' + name, v, *a))
        if name in ('size', 'length'):
            t = T('len', v)
            self.nonneg.add(t)
            return t
        if name == 'data' or name == 'c_str':
            return v
        return NotImplemented

    def m_range(self, name, obj, v, args, n):
        if not isR(v):
            v = R('range', b=T('.', v, 'b'), e=T('.', v, 'e'))
        d = dict(v[3])
        if name == 'begin':
            return d.get('b', T('.', v[1], 'b'))
        if name == 'end':
            return d.get('e', T('.', v[1], 'e'))
        if name == 'front':
            return self.iter_deref(d['b'])
        if name == 'empty':
            return self.iter_eq(d['b'], d['e'])
        if name == 'size':
            return self.iter_dist(d['b'], d['e'])
        return NotImplemented

    def m_seq(self, name, obj, v, args, n, tb):
        lv = obj if isLV(obj) else ('&', self.newcell('seq', v), ())
        tidx = n['obj'].get('t') if n.get('obj') is not None else None

        def seq():
            return self.as_seq(v, tidx)
        a = [self.rval(x) for x in args]
        if name == 'size':
            return self.seq_len(seq())
        if name == 'empty':
            s = seq()
            return self.eq(self.seq_len(s), 0)
        if name in ('begin', 'cbegin'):
            return ('I', lv, 0)
        if name == 'data':
            return ('I', lv, 0)
        if name in ('end', 'cend'):
            return ('I', lv, self.seq_len(seq()))
        if name in ('push_back', 'push', 'emplace_back', 'emplace', 'insert') and not (
                name in ('emplace', 'insert') and tb not in ('std::queue', 'std::stack')):
            if name in ('push_back', 'push'):
                x = a[0]
            else:
                x = self.emplace_value(tidx, args, n)
            self.write(lv, self.seq_push(seq(), x), n)
            s = self.read(lv)
            if name == 'emplace_back':
                return ('&', lv[1], lv[2] + (('i', sub(self.seq_len(s), 1)),))
            return None
        if name == 'insert':
            pos = a[0]
            s = seq()
            if isI(pos) and pos[2] == self.seq_len(s):
                if len(a) == 3 and isI(a[1]):
                    add_ = self.range_value(a[1], a[2])
                    if not add_[2] and not s[2]:
                        self.write(lv, ('S', s[1] + add_[1], ()), n)
                        return pos
                if len(a) == 2:
                    self.write(lv, self.seq_push(s, a[1]), n)
                    return pos
                if len(a) == 3 and (isnum(a[1]) or isT(a[1])):
                    self.write(lv, ('S', s[1] + self.repeat(a[1], a[2])[1], s[2]), n)
                    return pos
            if len(a) == 3 and isI(a[1]) and isI(pos) and pos[2] == 0:
                add_ = self.range_value(a[1], a[2])
                if not add_[2] and not s[2]:
                    self.write(lv, ('S', add_[1] + s[1], ()), n)
                    return pos
            k = pos[2] if isI(pos) and isnum(pos[2]) else None
            if k is not None and not s[2] and 0 <= k <= len(s[1]) and all(x[0] == '1' for x in s[1][:k]):
                new = None
                if len(a) == 2:
                    new = (('1', a[1]),)
                elif len(a) == 3 and isI(a[1]) and not self.range_value(a[1], a[2])[2]:
                    new = self.range_value(a[1], a[2])[1]
                elif len(a) == 3 and isnum(a[1]):
                    new = self.repeat(a[1], a[2])[1]
                if new is not None:
                    self.write(lv, ('S', s[1][:k] + new + s[1][k:], ()), n)
                    return pos
            raise Unsupported('insert', n)
        if name == 'at':
            i = a[0]
            if isS(v) and all(s[0] == '1' for s in v[1]) and isnum(i) and i >= len(v[1]) and not v[2]:
                raise Throw(T('out_of_range', i))
            return ('&', lv[1], lv[2] + (('i', i),))
        if name == 'front' or (name == 'top' and False):
            return ('&', lv[1], lv[2] + (('i', 0),))
        if name in ('back', 'top'):
            return ('&', lv[1], lv[2] + (('i', sub(self.seq_len(seq()), 1)),))
        if name in ('pop', 'pop_back'):
            s = seq()
            if all(x[0] == '1' for x in s[1]) and not s[2] and s[1]:
                self.write(lv, ('S', s[1][1:] if tb == 'std::queue' else s[1][:-1], ()), n)
            else:
                self.write(lv, Ssym(T('pop', s)), n)
            return None
        if name == 'erase' and a and isI(a[0]) and a[0][1] == lv and (len(a) == 1 or isI(a[1])):
            s = seq()
            lo = a[0][2]
            hi = a[1][2] if len(a) > 1 else add(lo, 1)
            if all(x[0] == '1' for x in s[1]) and not s[2] and isnum(lo) and isnum(hi):
                self.write(lv, ('S', s[1][:lo] + s[1][hi:], ()), n)
                return ('I', lv, lo)
            if lo == 0:
                self.write(lv, self.seq_slice(s, hi, self.seq_len(s)), n)
                return ('I', lv, lo)
            if hi == self.seq_len(s):
                self.write(lv, self.seq_slice(s, 0, lo), n)
                return ('I', lv, lo)
        if name == 'clear':
            self.write(lv, S(), n)
            return None
        if name in ('reserve', 'shrink_to_fit'):
            if a and isnum(a[0]) and not 0 <= a[0] < 1 << 56:
                raise Throw(T('exc', 'std::length_error', 'reserve'))
            return None
        if name == 'resize':
            s = seq()
            cur = self.seq_len(s)
            m = a[0]
            et = self.p.deref(tidx)[1]['ta'][0]['t']
            fill = a[1] if len(a) > 1 else self.default(et)
            d = sub(m, cur)
            if isnum(m) and not 0 <= m < 1 << 56:
                raise Throw(T('exc', 'std::length_error', 'resize'))
            if isnum(d) and d >= 0 and isnum(m) and d < 1 << 12:
                self.write(lv, ('S', s[1] + tuple(('1', fill) for _ in range(d)), s[2]), n)
            elif (isnum(d) and d >= 0) or self.num_true(add(d, 1)):
                self.write(lv, ('S', s[1] + ((('r', d, fill),) if d != 0 else ()), s[2]), n)
            elif cur == 0:
                self.write(lv, ('S', (('r', m, fill),), ()), n)
            else:
                t = T('resized', s, m, fill)
                self.lenof[t] = m
                self.write(lv, Ssym(t), n)
            return None
        if name == 'assign':
            if len(a) == 2 and isI(a[0]) and isI(a[1]):
                self.write(lv, self.range_value(a[0], a[1]), n)
            else:
                self.write(lv, self.repeat(a[0], a[1]), n)
            return None
        if name == 'fill':
            s = seq()
            self.write(lv, ('S', tuple(('1', a[0]) for _ in s[1]), ()), n)
            return None
        if name == 'swap':
            return NotImplemented
        return NotImplemented

    def emplace_value(self, tidx, args, n):
        _, t = self.p.deref(tidx)
        et = t['ta'][0]['t'] if t.get('ta') else None
        if t.get('base', '').startswith('std::') and et is None:
            raise Unsupported('emplace', n)
        return self.build(et, args, n)

    def build(self, et, args, n):
        _, e = self.p.deref(et)
        eb = base(e.get('base', ''))
        if not args:
            return self.default(et)
        if e.get('repo') and e.get('c') == 'rec':
            vals = [self.rval(x) for x in args]
            if len(vals) == 1 and ((isR(vals[0]) and vals[0][2] == eb) or (
                    isT(vals[0]) and self.arg_tbase(n, 0) == eb)):
                return vals[0]
            rec = self.p.records.get(e.get('rid'))
            if rec:
                ctors = [self.p.fns[m['id']] for m in rec['methods']
                         if m.get('sp') == 'ctor' and m['id'] in self.p.fns]
                ctors = [c for c in ctors if len(c['params']) == len(args)]
                if ctors:
                    return self.construct_repo(ctors[0], args, e, rec)
                fs = rec['fields']
                r = []
                for i, f in enumerate(fs):
                    if i < len(vals):
                        r.append((f['n'], vals[i]))
                    elif 'init' in f:
                        r.append((f['n'], self.init_value(f['init'], f['t'])))
                    else:
                        r.append((f['n'], self.default(f['t'])))
                return Rf(eb, r)
        return self.make(et, args, n)

    def arg_tbase(self, n, i):
        try:
            return self.p.tbase(n['a'][i].get('t'))
        except Exception:
            return ''

    def m_opt(self, name, obj, v, args, n):
        if name in ('has_value',):
            return self.bool_term(self.proj(v, ('f', 'has')))
        if name == 'value':
            if isR(v) and self.proj(v, ('f', 'has')) is False:
                raise Throw(T('exc', 'std::bad_optional_access', ''))
            if isLV(obj):
                return ('&', obj[1], obj[2] + (('f', 'val'),))
            return self.proj(v, ('f', 'val'))
        if name == 'emplace':
            _, t = self.p.deref(n['obj']['t'])
            x = self.build(t['ta'][0]['t'], args, n)
            self.write(obj, Rf('opt', [('has', True), ('val', x)]), n)
            return ('&', obj[1], obj[2] + (('f', 'val'),))
        if name == 'reset':
            self.write(obj, Rf('opt', [('has', False), ('val', UNINIT)]), n)
            return None
        return NotImplemented

    map_reversed = False

    def map_entries(self, m, tidx):
        """A cell with the entries of a map, to be read; those of a map with known keys are known up to their order."""
        tb = self.p.tbase(tidx) if tidx is not None else ''
        if m[1] is None and (tb or not m[2]) and all(ground(k) for k, _ in m[2]):
            ents = m[2][::-1] if self.map_reversed else m[2]
            isset = 'set' in tb.split('::')[-1]
            return ('&', self.newcell('mapentries', ('S', tuple(('1', k if isset else tup(k, x)) for k, x in ents), ())), ())
        return ('&', self.newcell('entries', Ssym(T('entries', m))), ())

    def m_map(self, name, obj, v, args, n):
        lv = obj if isLV(obj) else ('&', self.newcell('map', v), ())
        m = self.as_map(v)
        a = [self.rval(x) for x in args]
        if name in ('end', 'cend'):
            return ('MI', lv, None, True)
        if name == 'find':
            return ('MI', lv, a[0], self.map_find(m, a[0]))
        if name in ('contains', 'count'):
            r = self.map_find(m, a[0])
            return r
        if name in ('emplace', 'insert', 'try_emplace', 'insert_or_assign'):
            if len(a) == 2 and isI(a[0]) and isI(a[1]):
                rng = self.range_value(a[0], a[1])
                tb = self.p.tbase(n['obj'].get('t')) if n.get('obj') else ''
                if m[1] is None and isS(rng) and 'set' in tb.split('::')[-1] and ground(rng) and all(ground(k) for k, _ in m[2]):
                    for _, k in rng[1]:
                        m = self.map_put(m, k, True)
                    self.write(lv, m, n)
                    return None
                self.write(lv, ('M', T('union', m, rng), ()), n)
                return None
            k = a[0]
            tb = self.p.tbase(n['obj'].get('t')) if n.get('obj') else ''
            isset = 'set' in tb.split('::')[-1]
            _, mt = self.p.deref(n['obj']['t'])
            if isset and name == 'emplace' and len(a) > 1:
                raise Unsupported('set emplace', n)
            if not isset and len(a) == 1 and isR(k) and k[2] == 'tuple':
                a = [x for _, x in k[3]]
                k = a[0]
            val = True if isset else (a[1] if len(a) > 1 else self.default(mt['ta'][1]['t']))
            if not isset:
                mtb = self.p.tbase(mt['ta'][1]['t'])
                if mtb == 'std::optional' and isT(val) and 'nullopt' in show(val):
                    val = Rf('opt', [('has', False), ('val', UNINIT)])
            if isset and isS(k) is False and name == 'emplace':
                pass
            has = self.map_find(m, k)
            self.st.ev.append(('mapins', lv, k, val, has, n.get('l')))
            if self.truth(has):
                if name == 'insert_or_assign':
                    self.write(lv, self.map_put(m, k, val), n)
                return tup(('MI', lv, k, True), False)
            self.write(lv, self.map_put(m, k, val), n)
            return tup(('MI', lv, k, True), True)
        if name == 'at':
            return self.index(lv, a[0], n, True)
        if name == 'size':
            if m[1] is None and all(ground(k) for k, _ in m[2]):
                return len(m[2])
            t = T('len', m)
            self.nonneg.add(t)
            return t
        if name == 'empty':
            if m[1] is None:
                return not m[2]
            return self.bool_term(T('?emptymap', m))
        if name == 'clear':
            self.write(lv, ('M', None, ()), n)
            return None
        if name in ('reserve', 'rehash'):
            return None
        if name in ('begin', 'cbegin'):
            return ('I', self.map_entries(m, n['obj'].get('t') if n.get('obj') else None), 0)
        if name == 'erase':
            if m[1] is None and not isMI(a[0]):
                ents = tuple((k, x) for k, x in m[2] if not self.truth(self.eq(k, a[0])))
                self.write(lv, ('M', None, ents), n)
                return None
            self.write(lv, ('M', T('erased', m, a[0]), ()), n)
            return None
        return NotImplemented

    def range_of(self, r, tidx=None):
        v = self.rval(r)
        if isM(v):
            c = self.map_entries(v, tidx)
            return ('I', c, 0), ('I', c, self.seq_len(self.read(c)))
        tb = self.p.tbase(tidx) if tidx is not None else ''
        if tb in self.MAP and isT(v):
            c = ('&', self.newcell('entries', Ssym(T('entries', v))), ())
            return ('I', c, 0), ('I', c, self.seq_len(self.read(c)))
        return super().range_of(r, tidx)

    # ------------------------------------------------------------ free functions
    def f_move(self, args, n, fn):
        if len(args) == 1:
            return args[0]
        return NotImplemented

    f_forward = f_move
    f_as_const = f_move
    f_addressof = None

    def f_swap(self, args, n, fn):
        a, b = self.rval(args[0]), self.rval(args[1])
        self.write(args[0], b, n)
        self.write(args[1], a, n)
        return None

    def f_iter_swap(self, args, n, fn):
        a, b = self.iter_deref(self.rval(args[0])), self.iter_deref(self.rval(args[1]))
        return self.f_swap([a, b], n, fn)

    def f_exchange(self, args, n, fn):
        old = self.rval(args[0])
        self.write(args[0], self.rval(args[1]), n)
        return old

    def minmax_vals(self, args, n):
        if len(args) == 1 and isS(self.rval(args[0])):
            return [s[1] for s in self.rval(args[0])[1]]
        return [self.rval(a) for a in args[:2]]

    def f_min(self, args, n, fn):
        vs = self.minmax_vals(args, n)
        r = vs[0]
        for v in vs[1:]:
            if self.truth(self.cmp_call(args, n, v, r)):
                r = v
        return r

    def f_max(self, args, n, fn):
        vs = self.minmax_vals(args, n)
        r = vs[0]
        for v in vs[1:]:
            if self.truth(self.cmp_call(args, n, r, v)):
                r = v
        return r

    def cmp_call(self, args, n, a, b):
        if len(args) == 3:
            return self.rval(self.call_value(args[2], [a, b], n))
        if any(self.arith_type(x.get('t')) == 'float' for x in n['a'][:1]) and not (isnum(a) and isnum(b)):
            return T('?less', a, b)
        return self.less(a, b)

    def f_minmax(self, args, n, fn):
        vs = self.minmax_vals(args, n)
        a, b = vs
        if self.truth(self.cmp_call(args, n, b, a)):
            return tup(b, a)
        return tup(a, b)

    def f_clamp(self, args, n, fn):
        v, lo, hi = [self.rval(a) for a in args[:3]]
        if self.truth(self.less(v, lo)):
            return lo
        if self.truth(self.less(hi, v)):
            return hi
        return v

    def f_tie(self, args, n, fn):
        return Rf('tuple', [(str(i), a) for i, a in enumerate(args)])

    def f_make_tuple(self, args, n, fn):
        return tup(*[self.rval(a) for a in args])

    f_make_pair = f_make_tuple

    def f_forward_as_tuple(self, args, n, fn):
        return Rf('tuple', [(str(i), a) for i, a in enumerate(args)])

    def f_get(self, args, n, fn):
        ta = fn.get('ta') or []
        i = ta[0].get('v') if ta else None
        if i is None:
            return NotImplemented
        a = args[0]
        v = self.rval(a)
        if isS(v) or (self.arg_tbase(n, 0) == 'std::array'):
            return self.index(a, i, n)
        return self.field(a, str(i))

    def f_back_inserter(self, args, n, fn):
        return Rf('out_it', [('to', args[0])])

    f_inserter = f_back_inserter

    def f_make_unique(self, args, n, fn):
        _, t = self.p.deref(n['t'])
        et = t['ta'][0]['t']
        v = self.build(et, args, n)
        cell = self.newcell('heap', v)
        self.st.ev.append(('alloc', cell, n.get('l')))
        return ('P', cell, ())

    f_make_shared = f_make_unique

    def f_make_iterator_range(self, args, n, fn):
        if len(args) == 2:
            return R('range', b=self.rval(args[0]), e=self.rval(args[1]))
        return NotImplemented

    def f_begin(self, args, n, fn):
        return self.range_of(args[0] if isLV(args[0]) else ('&', self.newcell('rng', args[0]), ()), n['a'][0].get('t'))[0]

    f_cbegin = f_begin

    def f_end(self, args, n, fn):
        return self.range_of(args[0] if isLV(args[0]) else ('&', self.newcell('rng', args[0]), ()), n['a'][0].get('t'))[1]

    f_cend = f_end

    def f_size(self, args, n, fn):
        v = self.rval(args[0])
        return self.seq_len(self.as_seq(v, n['a'][0].get('t')))

    f_ssize = f_size

    def f_next(self, args, n, fn):
        k = self.rval(args[1]) if len(args) > 1 else 1
        return self.iter_arith('+', args[0], self.rval(args[0]), k, n)

    def f_prev(self, args, n, fn):
        k = self.rval(args[1]) if len(args) > 1 else 1
        return self.iter_arith('-', args[0], self.rval(args[0]), k, n)

    def f_advance(self, args, n, fn):
        self.write(args[0], self.iter_arith('+', args[0], self.rval(args[0]), self.rval(args[1]), n), n)
        return None

    def f_distance(self, args, n, fn):
        return self.iter_dist(self.rval(args[0]), self.rval(args[1]))

    def f_current_exception(self, args, n, fn):
        e = getattr(self, 'cur_exc', None)
        return T('excptr', e.val if e else None)

    def f_rethrow_exception(self, args, n, fn):
        v = self.rval(args[0])
        raise Throw(v[2] if isT(v) and v[1] == 'excptr' else v, n.get('l', 0))

    # algorithms expressed as loops over [b, e)
    def over(self, b, e, f, n, extra=None):
        itc = ('&', self.newcell('alg', b), ())

        def cond():
            return self.neg(self.iter_eq(self.read(itc), e))

        def body():
            f(self.iter_deref(self.read(itc), itc))
        self.loop(cond, body, lambda: self.iter_inc(itc), n)
        return itc

    def f_for_each(self, args, n, fn):
        self.over(self.rval(args[0]), self.rval(args[1]), lambda x: self.call_value(args[2], [x], n), n)
        return args[2]

    def f_transform(self, args, n, fn):
        if len(args) != 4:
            return NotImplemented
        b, e = self.rval(args[0]), self.rval(args[1])
        out = self.rval(args[2])
        if isR(out) and out[2] == 'out_it':
            self.over(b, e, lambda x: self.out_push(out, self.rval(self.call_value(args[3], [x], n)), n), n)
            return out
        if isI(out):
            oc = ('&', self.newcell('outit', out), ())

            def f(x):
                v = self.rval(self.call_value(args[3], [x], n))
                d = self.iter_deref(self.read(oc), oc)
                self.write(d, v, n)
                self.iter_inc(oc)
            self.over(b, e, f, n)
            return self.read(oc)
        return NotImplemented

    def f_copy(self, args, n, fn):
        if len(args) != 3:
            return NotImplemented
        b, e = self.rval(args[0]), self.rval(args[1])
        out = self.rval(args[2])
        if isR(out) and out[2] == 'out_it':
            self.over(b, e, lambda x: self.out_push(out, self.rval(x), n), n)
            return out
        return NotImplemented

    def f_copy_if(self, args, n, fn):
        b, e = self.rval(args[0]), self.rval(args[1])
        out = self.rval(args[2])

        def f(x):
            if self.truth(self.rval(self.call_value(args[3], [x], n))):
                self.out_push(out, self.rval(x), n)
        self.over(b, e, f, n)
        return out

    def quant(self, args, n, stop_on, result):
        rc = ('&', self.newcell('quant', not result), ())

        def f(x):
            if self.truth(self.rval(self.call_value(args[2], [x], n))) == stop_on:
                self.write(rc, result, n)
                raise Brk()
        self.over(self.rval(args[0]), self.rval(args[1]), f, n)
        return self.read(rc)

    def f_all_of(self, args, n, fn):
        return self.quant(args, n, False, False)

    def f_any_of(self, args, n, fn):
        return self.quant(args, n, True, True)

    def f_none_of(self, args, n, fn):
        return self.quant(args, n, True, False)

    def f_find_if(self, args, n, fn):
        def f(x):
            if self.truth(self.rval(self.call_value(args[2], [x], n))):
                raise Brk()
        return self.read(self.over(self.rval(args[0]), self.rval(args[1]), f, n))

    def f_find(self, args, n, fn):
        t = self.rval(args[2])

        def f(x):
            if self.truth(self.eq(self.rval(x), t)):
                raise Brk()
        return self.read(self.over(self.rval(args[0]), self.rval(args[1]), f, n))

    def f_count_if(self, args, n, fn):
        rc = ('&', self.newcell('count', 0), ())

        def f(x):
            if self.truth(self.rval(self.call_value(args[2], [x], n))):
                self.write(rc, add(self.read(rc), 1), n)
        self.over(self.rval(args[0]), self.rval(args[1]), f, n)
        return self.read(rc)

    def f_accumulate(self, args, n, fn):
        rc = ('&', self.newcell('acc', self.rval(args[2])), ())

        def f(x):
            if len(args) > 3:
                v = self.rval(self.call_value(args[3], [self.read(rc), x], n))
            else:
                v = self.binop('+', self.read(rc), self.rval(x))
            self.write(rc, v, n)
        self.over(self.rval(args[0]), self.rval(args[1]), f, n)
        return self.read(rc)

    def conc(self, b, e):
        """Concrete element list of [b, e) or None."""
        if isI(b) and isI(e) and b[1] == e[1] and isnum(b[2]) and isnum(e[2]):
            lv = b[1]
            v = self.rval(lv)
            if isT(v):
                return [T('at', v, i) for i in range(b[2], e[2])]
            if isS(v) and not v[2] and all(s[0] == '1' for s in v[1]):
                return [s[1] for s in v[1][b[2]:e[2]]]
        return None

    def f_min_element(self, args, n, fn, flip=False):
        b, e = self.rval(args[0]), self.rval(args[1])
        vs = self.conc(b, e)
        if vs is None or len(vs) > 8:
            return NotImplemented
        cmp = args[2:3]
        k = 0
        for i in range(1, len(vs)):
            x, y = (vs[i], vs[k]) if not flip else (vs[k], vs[i])
            if cmp:
                r = self.rval(self.call_value(cmp[0], [x, y], n))
            elif self.elem_float(b, n):
                r = self.float_op('<', x, y)
            else:
                r = self.less(x, y)
            if self.truth(r):
                k = i
        return ('I', b[1], b[2] + k)

    def elem_float(self, b, n):
        t = self.p.ty(n['a'][0].get('t'))
        if t.get('c') == 'ptr':
            return self.arith_type(t['to']) == 'float'
        return 'double' in t.get('s', '')

    def f_max_element(self, args, n, fn):
        return self.f_min_element(args, n, fn, True)

    def f_rotate(self, args, n, fn):
        b, m, e = [self.rval(a) for a in args]
        vs = self.conc(b, e)
        if vs is None or not isI(m) or not isnum(m[2]):
            return NotImplemented
        k = m[2] - b[2]
        vs = vs[k:] + vs[:k]
        self.store_range(b, vs, n)
        return ('I', b[1], e[2] - k)

    def f_reverse(self, args, n, fn):
        b, e = [self.rval(a) for a in args]
        vs = self.conc(b, e)
        if vs is None:
            return NotImplemented
        self.store_range(b, vs[::-1], n)
        return None

    def store_range(self, b, vs, n):
        lv = b[1]
        v = self.as_seq(self.rval(lv)) if not isT(self.rval(lv)) else None
        if v is None:
            if b[2] != 0:
                raise Unsupported('range store', n)
            self.write(lv, S(*vs), n)
            return
        segs = list(v[1])
        segs[b[2]:b[2] + len(vs)] = [('1', x) for x in vs]
        self.write(lv, ('S', tuple(segs), v[2]), n)

    def f_sort(self, args, n, fn):
        b, e = self.rval(args[0]), self.rval(args[1])
        return self.sort_model('sorted', b, e, args[2] if len(args) > 2 else None, n)

    def f_stable_sort(self, args, n, fn):
        return self.f_sort(args, n, fn)

    def f_nth_element(self, args, n, fn):
        return self.sort_model('permuted', self.rval(args[0]), self.rval(args[2]), args[3] if len(args) > 3 else None, n)

    def f_partial_sort(self, args, n, fn):
        return self.sort_model('psorted', self.rval(args[0]), self.rval(args[2]), args[3] if len(args) > 3 else None, n)

    def cmp_key(self, c):
        if c is None:
            return 'less'
        v = self.rval(c)
        if isL(v):
            return T('cmp', v[1])
        if isR(v):
            return T('cmp', v[2])
        if isT(v):
            return v
        return T('cmp', '?')

    def sort_model(self, kind, b, e, cmp, n):
        self.st.ev.append(('sort', kind, b, e, cmp, n.get('l')))
        if not isI(b):
            return NotImplemented
        lv = b[1]
        v = self.as_seq(self.rval(lv), None)
        vs = self.conc(b, e)
        if vs is not None and kind == 'sorted' and len(vs) <= 3 and b[2] == 0 and not (len(v[1]) > len(vs)):
            # exact for small arrays: insertion sort with partitioning
            out = []
            for x in vs:
                i = len(out)
                while i > 0:
                    r = self.rval(self.call_value(cmp, [x, out[i - 1]], n)) if cmp is not None else self.less(x, out[i - 1])
                    if self.truth(r):
                        i -= 1
                    else:
                        break
                out.insert(i, x)
            self.store_range(b, out, n)
            return None
        if b[2] == 0 and e[2] == self.seq_len(v):
            src = v[1][0][1] if len(v[1]) == 1 and v[1][0][0] == 's' and not v[2] else v
            t = T(kind, src, self.cmp_key(cmp))
            if all(s[0] == '1' for s in v[1]):
                self.write(lv, ('S', tuple(('1', T('at', t, i)) for i in range(len(v[1]))), ()), n)
            else:
                self.lenof[t] = self.seq_len(v)
                self.write(lv, Ssym(t), n)
            return None
        t = T(kind + '_part', v, b[2], e[2], self.cmp_key(cmp))
        self.lenof[t] = self.seq_len(v)
        self.write(lv, Ssym(t), n)
        return None

    def f_upper_bound(self, args, n, fn):
        b, e = self.rval(args[0]), self.rval(args[1])
        i = self.conc_bound(b, e, args, n, fn)
        if i is not None:
            return ('I', b[1], i)
        if isI(b):
            t = T('ub', self.key(b[1]), b[2], e[2], self.key(args[2]), self.cmp_key(args[3]) if len(args) > 3 else 'less')
            self.nonneg.add(t)
            # lies in [b, e]
            self.st.nums.append(lin(add(sub(t, b[2]), 1)))
            self.st.nums.append(lin(add(sub(e[2], t), 1)))
            return ('I', b[1], t)
        return NotImplemented

    def conc_bound(self, b, e, args, n, fn):
        """The position of the bound in a known range whose comparisons are known."""
        name = base((fn or {}).get('qn') or '').rsplit('::', 1)[-1]
        if not (isI(b) and isI(e) and b[1] == e[1] and isinstance(b[2], int) and isinstance(e[2], int) and b[2] <= e[2]) or name not in ('upper_bound', 'lower_bound'):
            return None
        vs = self.conc(b, e)
        if vs is None or not vs or len(vs) > self.UNROLL:
            return b[2] if vs == [] else None
        x = self.rval(args[2])
        if not ground(x) or not all(ground(v) for v in vs):
            return None
        for i, v in enumerate(vs):
            a = (x, v) if name == 'upper_bound' else (v, x)
            r = self.rval(self.call_value(args[3], list(a), n)) if len(args) > 3 else self.less(*a)
            if not isinstance(r, bool):
                return None
            if r == (name == 'upper_bound'):
                return b[2] + i
        return e[2]

    def f_lower_bound(self, args, n, fn):
        return self.f_upper_bound(args, n, fn)

    def f_set_intersection(self, args, n, fn):
        a = self.range_value(self.rval(args[0]), self.rval(args[1]))
        b = self.range_value(self.rval(args[2]), self.rval(args[3]))
        out = self.rval(args[4])
        lv = dict(out[3])['to']
        cur = self.as_seq(self.rval(lv))
        if isS(a) and isS(b) and ground(a) and ground(b) and len(args) == 5:
            x, y, r = [k for _, k in a[1]], [k for _, k in b[1]], []
            while x and y:
                if self.truth(self.less(x[0], y[0])):
                    x.pop(0)
                elif self.truth(self.less(y[0], x[0])):
                    y.pop(0)
                else:
                    r.append(('1', x.pop(0)))
                    y.pop(0)
            self.write(lv, ('S', cur[1] + tuple(r), cur[2]), n)
            return out
        t = T('set_intersection', a, b)
        self.write(lv, ('S', cur[1] + (('s', t),), cur[2]), n)
        return out

    def f_sign(self, args, n, fn):
        t = T('app', 'CGAL::sign', self.key(args[0]))
        self.register(t, n['t'])
        return t

    def f_opposite(self, args, n, fn):
        v = self.rval(args[0])
        if self.finite(v):
            return self.unary_minus(v)
        return NotImplemented

    def f_in_range(self, args, n, fn):
        v = self.rval(args[0])
        if isnum(v):
            return True
        ta = fn.get('ta')
        return self.bool_term(T('?in_range', self.p.tname(ta[0]['t']) if ta else '?', v))

    # ------------------------------------------------------------ streams
    STREAMC = ('std::basic_ios', 'std::basic_istream', 'std::basic_ostream', 'std::ios_base', 'std::basic_ifstream',
               'std::basic_ofstream', 'std::basic_istringstream', 'std::basic_ostringstream', 'std::basic_stringstream',
               'std::basic_iostream', 'std::basic_fstream')

    def is_stream(self, fn, n):
        cls = base(fn.get('cls', '')) if fn.get('cls') else ''
        if cls in self.STREAMC:
            return True
        pt = fn.get('pt') or []
        if n.get('op') in ('<<', '>>', '!') and pt:
            return self.p.tbase(pt[0]) in self.STREAMC
        return False

    def stream_lv(self, o):
        if isLV(o):
            return o
        return ('&', self.newcell('strm', o), ())

    def stream_val(self, lv):
        v = self.read(lv)
        if isR(v) and v[2] == 'stream':
            return v
        return v

    tape = None      # cell holding the sequence of items written to (or read from) an ideal stream

    tape_stream = None      # if set, formatted output to this stream is recorded

    def record_text(self, v, n):
        """A formatted output to an ideal text stream."""
        if isinstance(v, tuple) and v and v[0] == 'F':
            self.record('text', 'manip', v[2])
            return
        ty = self.p.deref(n['a'][-1]['t'])[1] if n.get('a') else {}
        s = ty.get('s') or ''
        c = ty.get('c')
        kind = ('int' if ty.get('sg') else 'unsigned') if c == 'int' else c
        if isinstance(v, str):
            kind = 'str'
        elif s.replace('const ', '') in ('char', 'signed char', 'unsigned char'):
            kind = 'char'
        elif c in ('float', 'fp') or s.replace('const ', '') in ('double', 'float', 'long double'):
            kind = 'raw ' + s.replace('const ', '')
        elif c == 'bool':
            kind = 'bool'
        self.record('text', kind, v)

    def record(self, *item):
        self.write(self.tape, self.append(self.read(self.tape), tup(*item)))

    def append(self, seq, v):
        seq = self.as_seq(seq)
        return ('S', seq[1] + (('1', v),), seq[2])

    def stream_bump(self, lv, kind, n, sticky=True):
        """A new state of the stream after an operation."""
        old = self.stream_val(lv)
        if self.tape is not None and kind != 'setstate':
            return old, old
        new = self.fresh('strm.' + lv[1] + '.')
        if self.active:
            new = T('strm', new[2], tuple(self.active))
        self.state_op[new] = (lv[1], kind)
        if sticky:
            d = self.curdom(T('ok', old))
            if d == frozenset((False,)):
                self.st.dom[T('ok', new)] = frozenset((False,))
        self.write(lv, new, n)
        return old, new

    def stream_ok(self, o):
        if self.tape is not None:
            return True
        lv = self.stream_lv(o)
        return T('ok', self.stream_val(lv))

    def stream_op(self, op, fn, ops, n):
        lv = self.stream_lv(ops[0])
        arg = ops[1]
        v = self.rval(arg) if not (isLV(arg) and op == '>>') else arg
        line = n.get('l', 0)
        if self.tape_stream is not None and lv == self.tape_stream and op == '<<':
            self.record_text(v, n)
            return lv
        if isinstance(v, tuple) and v and v[0] == 'F':
            if 'endl' in v[2] or 'flush' in v[2]:
                self.stream_bump(lv, 'flush', n)
                self.st.ev.append(('out', lv, v[2], line))
                return lv
        old, new = self.stream_bump(lv, op, n)
        if op == '<<':
            self.st.ev.append(('out', lv, v, line))
        else:
            x = T('in', new)
            if isLV(arg):
                ty = n['a'][-1].get('t')
                if ty is not None and self.p.deref(ty)[1].get('c') == 'int' and self.p.deref(ty)[1].get('sg'):
                    x = T('in', new, 'signed')
                xv = self.blank(ty, x) if ty is not None else x
                self.write(arg, xv, n)
            self.st.ev.append(('in', lv, x, line))
        return lv

    def stream_method(self, name, fn, obj, args, n):
        lv = self.stream_lv(obj)
        line = n.get('l', 0)
        a = [self.rval(x) for x in args]
        v = self.stream_val(lv)
        if self.tape is not None:
            if name in ('good', 'fail'):
                return name == 'good'
            if name == 'setstate':
                raise Throw(T('refused', line), line)
            if name in ('precision', 'setf', 'flags', 'width', 'fill') and lv == self.tape_stream:
                self.record('text', 'manip', name)
                return T('app', 'ios.' + name, v)
            if name == 'put' and lv == self.tape_stream:
                self.record('text', 'char', a[0])
                return lv
            if name == 'write':
                c = a[0]
                if isinstance(c, str) and lv == self.tape_stream:
                    self.record('text', 'str', c)
                    return lv
                if isP(c):
                    c = T('bytesof', self.read(('&', c[1], c[2])))
                elif isI(c):
                    c = self.read(c[1]) if c[2] == 0 else None
                self.record('bytes', self.norm_seq(c), a[1])
                return lv
            if name == 'read':
                x = self.next_item()
                self.record('bytes', x, a[1])
                if isI(a[0]) and a[0][2] == 0:
                    cur = self.seq_len(self.read(a[0][1]))
                    self.lenof[x] = cur
                    self.write(a[0][1], Ssym(x if cur == a[1] else T('partial', x, a[1], cur)), n)
                else:
                    self.havoc_ptr(a[0], x, n)
                return lv
        if name == 'good':
            if self.curdom(T('ok', v)) == frozenset((False,)):
                return False
            return self.bool_term(T('good', v))
        if name == 'fail':
            return self.neg(T('ok', v))
        if name == 'eof':
            return self.bool_term(T('eof', v))
        if name == 'bad':
            return self.bool_term(T('bad', v))
        if name == 'setstate':
            old, new = self.stream_bump(lv, name, n)
            bits = a[0]
            fails = bits if isnum(bits) else 4
            if fails & (1 | 4):
                self.st.dom[T('ok', new)] = frozenset((False,))
            self.st.ev.append(('setstate', lv, bits, line))
            return None
        if name == 'clear':
            old, new = self.stream_bump(lv, name, n, False)
            bits = a[0] if a else 0
            if bits == 0:
                self.st.dom[T('ok', new)] = frozenset((True,))
                self.st.dom[T('eof', new)] = frozenset((False,))
            elif isnum(bits) and bits & (1 | 4):
                self.st.dom[T('ok', new)] = frozenset((False,))
            self.st.ev.append(('clear', lv, bits, line))
            return None
        if name == 'flush':
            self.stream_bump(lv, name, n)
            self.st.ev.append(('flush', lv, line))
            return lv
        if name in ('read',):
            old, new = self.stream_bump(lv, name, n)
            self.st.ev.append(('rawread', lv, a[0], a[1], line))
            self.havoc_ptr(a[0], T('in', new), n)
            return lv
        if name in ('write',):
            old, new = self.stream_bump(lv, name, n)
            self.st.ev.append(('rawwrite', lv, a[0], a[1], line))
            return lv
        if name in ('get', 'peek', 'ignore', 'putback', 'unget', 'seekg', 'tellg', 'getline'):
            old, new = self.stream_bump(lv, name, n)
            self.st.ev.append(('inop', name, lv, tuple(a), line))
            t = T('app', 'is.' + name, new)
            if name in ('ignore', 'putback', 'unget', 'seekg'):
                return lv
            if args and isLV(args[0]):
                self.write(args[0], t, n)
                return lv
            return t
        if name in ('exceptions', 'precision', 'width', 'setf', 'unsetf', 'flags', 'fill', 'imbue', 'rdbuf', 'sync_with_stdio'):
            self.st.ev.append(('fmt', name, lv, tuple(a), line))
            return T('app', 'ios.' + name, v)
        if name in ('is_open',):
            return self.bool_term(T('ok', v) if isT(v) and v[1] == 'ctor' else T('is_open', v))
        if name == 'open' and a:
            self.write(lv, T('ctor', base(fn.get('cls') or 'std::basic_fstream'), *a), n)
            return None
        if name == 'close':
            self.stream_bump(lv, name, n)
            self.st.ev.append(('flush', lv, line))
            return None
        if name in ('rdstate',):
            return T('app', 'rdstate', v)
        if name == 'str':
            return T('app', 'str', v)
        if name == 'put' and self.tape_stream is not None and lv == self.tape_stream:
            self.record('text', 'char', a[0])
            return lv
        if name == 'put':
            self.stream_bump(lv, name, n)
            self.st.ev.append(('out', lv, a[0], line))
            return lv
        return NotImplemented

    def next_item(self):
        k = self.st.ctr.get('$rd', 0)
        self.st.ctr['$rd'] = k + 1
        return T('rd', k, tuple(self.active))

    def norm_seq(self, v):
        if isS(v) and len(v[1]) == 1 and not v[2] and v[1][0][0] == 's':
            return v[1][0][1]
        return v

    def havoc_ptr(self, p, val, n):
        if isP(p):
            lv = ('&', p[1], p[2])
            self.write(lv, val, n)
        elif isI(p):
            cur = self.read(p[1])
            t = T('filled', val)
            if isS(cur):
                self.lenof[t] = self.seq_len(cur)
            self.write(p[1], Ssym(t), n)
        # opaque pointer: nothing known is changed

    def f_getline(self, args, n, fn):
        lv = self.stream_lv(args[0])
        old, new = self.stream_bump(lv, 'getline', n)
        self.write(args[1], T('line', new), n)
        self.st.ev.append(('inop', 'getline', lv, (), n.get('l')))
        return lv

    def f_little_to_native_inplace(self, args, n, fn):
        v = self.rval(args[0])
        self.write(args[0], T('letoh', v), n)
        return None

    def f_native_to_little_inplace(self, args, n, fn):
        v = self.rval(args[0])
        self.write(args[0], T('htole', v), n)
        return None


def default_intercepts():
    """parallel_do as a sequential loop (its own correctness is a separate property)."""
    def parallel_do(ai, fn, this, args, node):
        node = node or {}
        b, e = ai.rval(args[0]), ai.rval(args[1])
        if len(args) == 3:
            ai.over(b, e, lambda x: ai.call_value(args[2], [x], node), node)
            return None
        st = ('&', ai.newcell('pstate', ai.rval(args[2])), ())
        ai.over(b, e, lambda x: ai.call_value(args[3], [x, st], node), node)
        ai.call_value(args[4], [st], node)
        return None

    def parallel_sort(ai, fn, this, args, node):
        ai.sort_model('sorted', ai.rval(args[0]), ai.rval(args[1]), args[2] if len(args) > 2 else None, node or {})
        return None
    return {'kigumi::parallel_do': parallel_do, 'kigumi::parallel_sort': parallel_sort}
