"""Partitioned abstract interpreter over the syntax trees of prog.Prog.

Domain: every value is a constant, a hash-consed uninterpreted term (value numbering), or a
persistent structure (record / sequence / map / iterator / reference) of such values.  Terms of
finite type (bool, enumerations) carry a set of possible values and the analysis partitions the
state when a branch depends on them; integers are linear combinations with difference
constraints.  Loops whose trip count is not constant are summarised by ONE generic iteration from a
widened state (locations assigned by the loop are havocked, counters are replaced by a generic
index), so that the results hold for any number of iterations.  No solver is used.
"""
import sys
from prog import base

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    def __init__(self, msg, node=None):
        super().__init__(msg)
        self.node = node


class Infeasible(Exception):
    pass


class NeedChoice(Exception):
    pass


class NeverEnds(Exception):
    pass


class Restart(Exception):
    """The exploration starts again with more loops treated generically."""


class Throw(Exception):
    def __init__(self, val, line=0):
        self.val = val
        self.line = line


class Diverge(Exception):
    """A loop reached the same state twice."""


class Ret(Exception):
    def __init__(self, val):
        self.val = val


class Brk(Exception):
    pass


class Cont(Exception):
    pass


# ---------------------------------------------------------------- values
class Tm(tuple):
    """An interned term: equal terms are one object, hashing is constant time."""

    def __hash__(self):
        return self.h


_terms = {}


def T(op, *a):
    key = ('T', op) + a
    h = hash(key)
    # True == 1 and 1.0 == 1 for Python; terms with such arguments must stay distinct
    tk = (key, tuple(x.__class__ for x in a))
    r = _terms.get(tk)
    if r is None:
        r = Tm(key)
        r.h = h
        r.n = len(_terms)
        _terms[tk] = r
    return r


def okey(v):
    """A total order on values, stable within a run (for canonical forms)."""
    if v.__class__ is Tm:
        return (1, v.n, '')
    return (0, 0, repr(v))


def isT(v):
    return v.__class__ is Tm


def isR(v):
    return isinstance(v, tuple) and len(v) > 0 and v[0] == 'R'


def isS(v):
    return isinstance(v, tuple) and len(v) > 0 and v[0] == 'S'


def isM(v):
    return isinstance(v, tuple) and len(v) > 0 and v[0] == 'M'


def isI(v):
    return isinstance(v, tuple) and len(v) > 0 and v[0] == 'I'


def isLV(v):
    return isinstance(v, tuple) and len(v) > 0 and v[0] == '&'


def isP(v):
    return isinstance(v, tuple) and len(v) > 0 and v[0] == 'P'


def isL(v):
    return isinstance(v, tuple) and len(v) > 0 and v[0] == 'L'


def R(cls, **f):
    return ('R', None, cls, tuple(sorted(f.items())))


def Rf(cls, items, b=None):
    return ('R', b, cls, tuple(sorted(items)))


def tup(*vs):
    return Rf('tuple', [(str(i), v) for i, v in enumerate(vs)])


def S(*vs):
    return ('S', tuple(('1', v) for v in vs), ())


def Ssym(t):
    return ('S', (('s', t),), ())


def isconst(v):
    return isinstance(v, (int, str, bool, float)) or v is None


def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


UNINIT = T('uninit')


def lin(v):
    """Linear form (dict, const) of an integer value."""
    if isinstance(v, bool):
        return {}, int(v)
    if isinstance(v, int):
        return {}, v
    if isT(v) and v[1] == 'lin':
        return dict(v[2]), v[3]
    return {v: 1}, 0


def mklin(d, c):
    d = {k: x for k, x in d.items() if x != 0}
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (k, x), = d.items()
        if x == 1:
            return k
    return T('lin', tuple(sorted(d.items(), key=lambda kv: okey(kv[0]))), c)


def add(a, b, s=1):
    da, ca = lin(a)
    db, cb = lin(b)
    r = dict(da)
    for k, x in db.items():
        r[k] = r.get(k, 0) + s * x
    return mklin(r, ca + s * cb)


def sub(a, b):
    return add(a, b, -1)


def mulc(a, c):
    d, k = lin(a)
    return mklin({x: y * c for x, y in d.items()}, k * c)


def subst(v, m):
    """Replaces terms in v by the mapping m."""
    if isinstance(v, tuple):
        if v in m:
            return m[v]
        n = tuple(subst(x, m) for x in v)
        if n != v:
            if v.__class__ is Tm:
                if n[1] != 'lin':
                    return T(*n[1:])
                r = n[3]
                for k, x in n[2]:
                    r = add(r, mulc(k, x))
                return r
            return n
        return v
    if isinstance(v, frozenset):
        return frozenset(subst(x, m) for x in v)
    return v


def contains(v, x):
    if v == x:
        return True
    if isinstance(v, (tuple, frozenset)):
        return any(contains(y, x) for y in v)
    return False


def show(v, depth=0):
    if isinstance(v, bool) or v is None or isinstance(v, (int, float)):
        return str(v)
    if isinstance(v, str):
        return repr(v)
    if isinstance(v, frozenset):
        return '{' + ','.join(sorted(show(x, depth + 1) for x in v)) + '}'
    if isT(v):
        if v[1] == 'lin':
            s = ' + '.join((f'{c}*' if c != 1 else '') + show(k, depth + 1) for k, c in v[2])
            return f'({s}{"%+d" % v[3] if v[3] else ""})'
        if v[1] == 'atom':
            return str(v[2])
        if v[1] == '.':
            return show(v[2], depth + 1) + '.' + str(v[3])
        if v[1] == 'at':
            return show(v[2], depth + 1) + '[' + show(v[3], depth + 1) + ']'
        if len(v) == 2:
            return v[1]
        return f"{v[1]}({', '.join(show(x, depth + 1) for x in v[2:])})"
    if isR(v):
        b = '' if v[1] is None else show(v[1], depth + 1) + ' with '
        return f"{v[2].split('::')[-1]}{{{b}{', '.join(k + '=' + show(x, depth + 1) for k, x in v[3])}}}"
    if isS(v):
        r = []
        for s in v[1]:
            if s[0] == '1':
                r.append(show(s[1], depth + 1))
            elif s[0] == 's':
                r.append('..' + show(s[1], depth + 1))
            else:
                r.append(s[0] + ':' + ','.join(show(x, depth + 1) for x in s[1:]))
        u = ''.join(f' [{show(i)}]:={show(x)}' for i, x in v[2])
        return '[' + ', '.join(r) + ']' + u
    if isinstance(v, tuple):
        return '<' + ' '.join(show(x, depth + 1) if not isinstance(x, str) else x for x in v) + '>'
    return str(v)


class St:
    __slots__ = ('store', 'dom', 'ev', 'ctr', 'nums')

    def __init__(self):
        self.store = {}
        self.dom = {}
        self.ev = []
        self.ctr = {}
        self.nums = []      # numeric constraints: linear forms known to be > 0

    def clone(self):
        s = St()
        s.store = dict(self.store)
        s.dom = dict(self.dom)
        s.ev = list(self.ev)
        s.ctr = dict(self.ctr)
        s.nums = list(self.nums)
        return s


class Path:
    """Result of one partition of an exploration."""

    def __init__(self, kind, val, st, base_st, line=0):
        self.kind = kind      # 'ret', 'norm', 'throw', 'break', 'cont'
        self.val = val
        self.st = st
        self.line = line
        self.ev = st.ev[len(base_st.ev):]
        self.cond = {t: d for t, d in st.dom.items() if base_st.dom.get(t) != d}

    def value(self, t, default=None):
        d = self.cond.get(t)
        if d is not None and len(d) == 1:
            return next(iter(d))
        return default

    def show_cond(self):
        return ' & '.join(sorted(f"{show(t)}{'=' + show(next(iter(d))) if len(d) == 1 else ' in ' + show(d)}"
                                 for t, d in self.cond.items()))


class Interp:
    MAXPATHS = 6000
    UNROLL = 9

    def __init__(self, prog, intercepts=None, name='', steps=3000000):
        self.tlscells = set()       # thread_local objects
        self.thread = 0             # inside of a started thread
        self.p = prog
        self.st = St()
        self.decs = []
        self.frames = []
        self.ic = dict(intercepts or {})
        self.tdom = {}        # term -> full domain (frozenset)
        self.nonneg = set()
        self.noenum = set()   # integers converted to an enumeration without a check
        self.lenof = {}
        self.steps = steps
        self.called = set()   # repo functions analysed
        self.loops = 0
        self.npaths = 0
        self.nochoose = 0
        self.loopdepth = 0
        self.trace_calls = True
        self.opaque_calls = {}
        self.no_unroll = set()
        self.state_op = {}    # stream state -> (stream, operation that produced it)
        self.active = []      # generic indices of the enclosing loops

    # ------------------------------------------------------------ exploration
    def explore(self, thunk):
        if self.decs:
            return self.explore1(thunk)
        base, ld, nf = self.st, self.loopdepth, len(self.frames)
        for _ in range(200):
            try:
                outs = self.explore1(thunk)
                if any(o.kind == 'diverge' for o in outs):
                    if len(outs) > 1:
                        raise Unsupported('loop without end on one of several paths')
                    raise NeverEnds(outs[0].val)
                return outs
            except Restart:
                self.st, self.loopdepth, self.nochoose = base, ld, 0
                del self.frames[nf:]
        raise Unsupported('too many restarts')

    def explore1(self, thunk):
        basest = self.st
        stack = [[]]
        outs = []
        memo = {}
        while stack:
            pre = stack.pop()
            self.st = basest.clone()
            ctx = [pre, [], memo, 0]  # prefix, taken [(choice, n)], loop memo, loops so far
            self.decs.append(ctx)
            nf = len(self.frames)
            ld = self.loopdepth
            try:
                try:
                    r = thunk()
                    outs.append(Path('norm', r, self.st, basest))
                except Ret as e:
                    outs.append(Path('ret', e.val, self.st, basest))
                except Throw as e:
                    outs.append(Path('throw', e.val, self.st, basest, e.line))
                except Diverge as e:
                    if len(self.decs) > 1:
                        raise Unsupported('loop without end')
                    outs.append(Path('diverge', e.args[0], self.st, basest))
                except Brk:
                    outs.append(Path('break', None, self.st, basest))
                except Cont:
                    outs.append(Path('cont', None, self.st, basest))
                except Infeasible:
                    pass
            finally:
                self.decs.pop()
                del self.frames[nf:]
                self.loopdepth = ld
                if not outs or outs[-1].st is not self.st:
                    pass
            self.npaths += 1
            taken = ctx[1]
            for i in range(len(pre), len(taken)):
                c, n = taken[i]
                for alt in range(n - 1, 0, -1):
                    stack.append([x for x, _ in taken[:i]] + [alt])
            if len(outs) > self.MAXPATHS:
                self.st = basest
                raise Unsupported(f'more than {self.MAXPATHS} partitions')
        self.st = basest
        return outs

    def choose(self, n):
        if n == 1:
            return 0
        if self.nochoose:
            raise NeedChoice()
        ctx = self.decs[-1]
        i = len(ctx[1])
        c = ctx[0][i] if i < len(ctx[0]) else 0
        ctx[1].append((c, n))
        return c

    # ------------------------------------------------------------ domains
    def fulldom(self, t):
        d = self.tdom.get(t)
        if d is None and isT(t):
            if t[1] in ('==', '>0', '==0', '!', 'ex', 'has', 'ok', 'lt') or t[1].startswith('?'):
                d = frozenset((False, True))
        return d

    def curdom(self, t):
        return self.st.dom.get(t, self.fulldom(t))

    def restrict(self, t, d):
        d = frozenset(d)
        cur = self.curdom(t)
        if cur is not None:
            d = d & cur
        if not d:
            raise Infeasible()
        self.st.dom[t] = d
        if isT(t) and t[1] in ('>0', '==0') and len(d) == 1:
            self.num_fact(t, next(iter(d)))

    def force(self, t):
        """Partition until t is a constant; returns it."""
        if not isT(t):
            return t
        if t[1] == '!':
            return not self.force(t[2])
        if t[1] == 'cast':
            return self.force(t[2])
        if t[1] == 'bop':
            a = self.force(t[3])
            if t[2] in ('*', '&') and a == 0:
                return 0
            return self.binconst(t[2], a, self.force(t[4]))
        if t[1] == 'neg':
            return -self.force(t[2])
        if t[1] in ('>0', '==0'):
            k = self.num_known(t)
            if k is not None:
                return k
        d = self.curdom(t)
        if d is None:
            raise Unsupported('cannot enumerate ' + show(t))
        if len(d) == 1:
            return next(iter(d))
        vals = sorted(d, key=lambda x: (isinstance(x, bool), x))
        c = vals[self.choose(len(vals))]
        self.restrict(t, {c})
        return c

    def finite(self, t):
        if not isT(t):
            return isnum(t) or isinstance(t, bool)
        if t[1] in ('cast', 'neg', '!'):
            return self.finite(t[2])
        if t[1] == 'bop':
            return self.finite(t[3]) and self.finite(t[4])
        return self.curdom(t) is not None

    def decide(self, v):
        """Truth of a value; partitions if unknown."""
        if isinstance(v, (bool, int, float)):
            return bool(v)
        if v is None:
            return False
        if isP(v) or isLV(v):
            return True
        if isinstance(v, str):
            return True
        if isT(v):
            if v[1] == '!':
                return not self.decide(v[2])
            if v[1] in ('>0', '==0'):
                k = self.num_known(v)
                if k is not None:
                    return k
                if v not in self.tdom:
                    self.tdom[v] = frozenset((False, True))
            if v[1] == 'bop' or v[1] == 'cast' or v[1] == 'neg':
                return bool(self.force(v))
            if v[1] == 'and':
                return self.decide(v[2]) and self.decide(v[3])
            if v[1] == 'or':
                return self.decide(v[2]) or self.decide(v[3])
            if self.curdom(v) is None:
                self.tdom[v] = frozenset((False, True))
            d = self.curdom(v)
            if d <= frozenset((False, True)):
                return bool(self.force(v))
            if 0 in d:
                return not self.decide_in(v, {0})
            return True
        raise Unsupported('truth of ' + show(v))

    def decide_in(self, t, vals):
        d = self.curdom(t)
        vals = frozenset(vals) & d
        if not vals:
            return False
        if vals == d:
            return True
        if self.choose(2) == 0:
            self.restrict(t, vals)
            return True
        self.restrict(t, d - vals)
        return False

    # numeric constraints (difference bounds by saturation)
    def num_fact(self, t, truth):
        if t[1] == '>0':
            f = t[2] if truth else sub(1, t[2])
            if self.implied(sub(1, f)):
                raise Infeasible()
            self.st.nums.append(lin(f))
        elif truth:
            self.st.nums.append(lin(add(t[2], 1)))
            self.st.nums.append(lin(sub(1, t[2])))
        else:                               # x >= 0 and x != 0: x > 0
            for s in (t[2], sub(0, t[2])):
                if self.implied(add(s, 1)):
                    self.st.nums.append(lin(s))
                    break

    def implied(self, f):
        """Is f > 0 implied by the constraints?  (sound, incomplete)"""
        d, c = lin(f)
        if not d:
            return c > 0
        nn = self.is_nonneg

        def geq0(d, c):
            return c >= 0 and all(x > 0 and nn(k) for k, x in d.items())

        def minus(d, c, g):
            e = dict(d)
            for k, x in g[0].items():
                y = e.get(k, 0) - x
                if y:
                    e[k] = y
                else:
                    e.pop(k, None)
            return e, c - g[1]
        if geq0(d, c - 1):
            return True
        facts = self.st.nums
        near = [g for g in facts if any(d.get(k, 0) * x > 0 for k, x in g[0].items())]
        for g in near:
            if geq0(*minus(d, c, g)):
                return True
        for g in near:
            e, ce = minus(d, c + 1, g)
            if len(e) > len(d) + 1:
                continue
            for h in facts:
                if any(e.get(k, 0) * x > 0 for k, x in h[0].items()) and geq0(*minus(e, ce, h)):
                    return True
        return False

    def is_nonneg(self, t):
        return t in self.nonneg or (isT(t) and t[1] in ('len', 'kap', 'cnt', 'cntv'))

    def lower(self, a):
        """A constant that a is at least (None: unknown)."""
        if isnum(a):
            return a
        d, c = lin(a)
        if any(x < 0 for x in d.values()):
            return None
        for t, x in d.items():
            b = [0] if self.is_nonneg(t) else []
            b += [1 - g[1] for g in self.st.nums if g[0] == {t: 1}]
            if not b:
                return None
            c += x * max(b)
        return c

    def num_known(self, v):
        d = self.st.dom.get(v)
        if d is not None and len(d) == 1:
            return next(iter(d))
        ds, c0 = lin(v[2])
        if abs(c0) >= 1 << 60 and ds and all(k[1] in ('len', 'kap', 'cnt', 'cntv') and abs(x) < 16 for k, x in ds.items()):
            return c0 > 0 if v[1] == '>0' else False    # sizes and counts stay below 2^60
        if v[1] == '>0':
            if self.implied(v[2]):
                return True
            if self.implied(sub(1, v[2])):
                return False
            return None
        if self.implied(v[2]) or self.implied(mulc(v[2], -1)):
            return False
        if self.implied(add(v[2], 1)) and self.implied(sub(1, v[2])):
            return True
        return None

    def lt(self, a, b):
        """a < b as value (bool or canonical term)."""
        if isinstance(a, float) or isinstance(b, float):
            if isnum(a) and isnum(b):
                return a < b
            return T('flt', a, b)
        for x in (a, b):
            if self.finite(x) and not isnum(x):
                return self.force(a) < self.force(b) if self.finite(a) and self.finite(b) else T('lt', a, b)
        d = sub(b, a)
        if isnum(d):
            return d > 0
        t = T('>0', d)
        first = sorted(lin(d)[0].items(), key=lambda kv: okey(kv[0]))[0][1]
        if first < 0:
            r = T('>0', sub(1, d))
            k = self.num_known(r)
            return (not k) if k is not None else T('!', r)
        k = self.num_known(t)
        return k if k is not None else t

    def eq(self, a, b, numeric=True):
        a, b = self.norm(a), self.norm(b)
        if a == b and not isinstance(a, bool) and not isinstance(b, bool):
            return True
        if isconst(a) and isconst(b):
            return a == b
        if isR(a) and isR(b):
            fa, fb = dict(a[3]), dict(b[3])
            if a[1] == b[1] and set(fa) == set(fb):
                return self.conj(self.eq(fa[k], fb[k]) for k in sorted(fa))
        if isS(a) and isS(b) and len(a[1]) == len(b[1]) and not a[2] and not b[2] and all(
                s[0] == '1' for s in a[1] + b[1]):
            return self.conj(self.eq(x[1], y[1]) for x, y in zip(a[1], b[1]))
        if isI(a) and isI(b):
            if a[1] == b[1]:
                return self.eq(a[2], b[2])
            return T('==', *sorted((a, b), key=okey))
        if isP(a) and b is None or isP(b) and a is None:
            return False
        for x, y in ((a, b), (b, a)):
            if isT(x) and isconst(y) and self.finite(x):
                if x[1] in ('bop', 'cast', 'neg', '!', '>0', '==0'):
                    return self.force(x) == y
                d = self.curdom(x)
                if d == frozenset((y,)):
                    return True
                if y not in d:
                    return False
                return T('?in', x, y)
        if self.finite(a) and self.finite(b):
            return self.force(a) == self.force(b)
        ok = lambda v: isinstance(v, int) or (isT(v) and v[1] not in ('str',))
        if isinstance(a, (bool, str, float)) or isinstance(b, (bool, str, float)):
            return T('==', *sorted((a, b), key=okey))
        if ok(a) and ok(b):
            d = sub(a, b)
            if isnum(d):
                return d == 0
            first = sorted(lin(d)[0].items(), key=lambda kv: okey(kv[0]))[0][1]
            if first < 0:
                d = mulc(d, -1)
            t = T('==0', d)
            k = self.num_known(t)
            return k if k is not None else t
        return T('==', *sorted((a, b), key=okey))

    def conj(self, it):
        for v in it:
            if not self.decide(v):
                return False
        return True

    def truth(self, v):
        if isT(v) and v[1] == '?in':
            return self.decide_in(v[2], {v[3]})
        if isT(v) and v[1] == '!':
            return not self.truth(v[2])
        return self.decide(v)

    def assume(self, v, truth=True):
        """Restrict the current partition (no alternative is explored)."""
        if isT(v) and v[1] == '!':
            return self.assume(v[2], not truth)
        if isT(v) and v[1] == '?in':
            d = self.curdom(v[2])
            return self.restrict(v[2], {v[3]} if truth else d - {v[3]})
        if isinstance(v, (bool, int)):
            if bool(v) != truth:
                raise Infeasible()
            return
        if isT(v) and v[1] in ('>0', '==0'):
            k = self.num_known(v)
            if k is not None:
                if k != truth:
                    raise Infeasible()
                return
            self.tdom.setdefault(v, frozenset((False, True)))
            return self.restrict(v, {truth})
        if isT(v):
            if self.finite(v) and v[1] in ('bop', 'cast'):
                if bool(self.force(v)) != truth:
                    raise Infeasible()
                return
            if self.curdom(v) is None:
                self.tdom[v] = frozenset((False, True))
            return self.restrict(v, {truth})
        if (v is not None) != truth:
            raise Infeasible()

    def binconst(self, op, a, b):
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            if b == 0:
                raise Unsupported('division by zero')
            return int(a / b) if isinstance(a, int) else a / b
        if op == '%':
            return a - b * int(a / b)
        if op == '|':
            return a | b
        if op == '&':
            return a & b
        if op == '^':
            return a ^ b
        if op == '<<':
            return a << b
        if op == '>>':
            return a >> b
        raise Unsupported('operator ' + op)

    def wrap(self, v, tidx):
        if isinstance(v, int) and not isinstance(v, bool):
            t = self.p.ty(tidx)
            if t.get('c') == 'int' and 'bits' in t:
                m = 1 << t['bits']
                v %= m
                if t.get('sg') and v >= m // 2:
                    v -= m
        return v

    def binop(self, op, a, b, tidx=None):
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if op == '==':
                return self.eq(a, b)
            if op == '!=':
                return self.neg(self.eq(a, b))
            if op == '<':
                return self.lt(a, b)
            if op == '>':
                return self.lt(b, a)
            if op == '<=':
                return self.neg(self.lt(b, a))
            return self.neg(self.lt(a, b))
        if isconst(a) and isconst(b):
            a = int(a) if isinstance(a, bool) else a
            b = int(b) if isinstance(b, bool) else b
            return self.wrap(self.binconst(op, a, b), tidx)
        if isI(a):
            if op == '+':
                return ('I', a[1], add(a[2], b))
            if op == '-':
                if isI(b):
                    return sub(a[2], b[2])
                return ('I', a[1], sub(a[2], b))
        if op in ('|', '&', '*', '^') and self.finite(a) and self.finite(b):
            if op == '|' and (a == 0 or a == b):
                return b
            if op == '|' and b == 0:
                return a
            if op in '&*' and (a == 0 or b == 0) and (isnum(a) or isnum(b)):
                return 0
            x, y = sorted((a, b), key=okey)
            return T('bop', op, x, y)
        if op == '|' and (a == 0 or b == 0):
            return b if a == 0 else a
        if self.finite(a) and isT(a) and self.curdom(a) and op in '+-':
            a = self.force(a)
            return self.binop(op, a, b, tidx)
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            if isnum(a):
                return mulc(b, a)
            if isnum(b):
                return mulc(a, b)
        if op == '/' and isinstance(b, int) and b > 0 and not isinstance(a, float):
            r = T('op', op, a, b)
            lo = self.lower(a)
            if lo is not None and lo >= 0 and ('div', r) not in self.st.ctr:
                self.st.ctr[('div', r)] = 1
                self.nonneg.add(r)
                self.st.nums.append(lin(add(sub(a, mulc(r, b)), 1)))            # b * r <= a
                self.st.nums.append(lin(sub(mulc(add(r, 1), b), a)))            # a < b * (r + 1)
                if lo // b > 0:
                    self.st.nums.append(lin(add(sub(r, lo // b), 1)))
            return r
        if op == '%' and isnum(b) and not isnum(a):
            # reduce the constant part
            r = T('mod', a, b)
            self.nonneg.add(r)
            return r
        if op == '%':
            # (x % n) where 0 <= x < n
            if self.num_true(add(a, 1)) and self.num_true(sub(b, a)):
                return a
            d, c = lin(a)
            r = T('mod', a, b)
            self.nonneg.add(r)
            return r
        if op in ('|', '*', '&', '^'):
            x, y = sorted((a, b), key=okey)
            return T('op', op, x, y)
        return T('op', op, a, b)

    def num_true(self, f):
        if isnum(f):
            return f > 0
        return self.implied(f)

    def neg(self, v):
        if isinstance(v, bool):
            return not v
        if isT(v) and v[1] == '!':
            return v[2]
        return T('!', v)

    # ------------------------------------------------------------ store
    def newcell(self, hint, v):
        n = self.st.ctr.get(hint, 0)
        self.st.ctr[hint] = n + 1
        c = f'{hint}#{n}' if n else hint
        self.st.store[c] = v
        return c

    def fresh(self, hint):
        n = self.st.ctr.get('$' + hint, 0)
        self.st.ctr['$' + hint] = n + 1
        return T('atom', f'{hint}{n}' if n else hint)

    def norm(self, v):
        if isR(v) and v[1] is not None and not v[3]:
            return v[1]
        return v

    def proj(self, v, pe):
        k = pe[0]
        if k == 'f':
            if isR(v):
                for n, x in v[3]:
                    if n == pe[1]:
                        return x
                if v[1] is not None:
                    return self.proj(v[1], pe)
                return UNINIT
            if isT(v):
                if v[1] == 'uninit':
                    return UNINIT
                return T('.', v, pe[1])
            if isI(v):  # member of *it through a proxy
                return self.proj(self.read(self.deref(v)), pe)
            raise Unsupported(f'field {pe[1]} of {show(v)[:80]}')
        if k == 'i':
            return self.seq_at(v, pe[1])
        if k == 'k':
            return self.map_at(v, pe[1])
        raise Unsupported('projection')

    def read(self, lv):
        c, path = lv[1], lv[2]
        if c not in self.st.store:
            raise Unsupported('unknown cell ' + str(c))
        v = self.st.store[c]
        for pe in path:
            v = self.proj(v, pe)
            if isLV(v):
                v = self.read(v)
        return v

    def rval(self, v):
        return self.read(v) if isLV(v) else v

    def put(self, v, path, val):
        if not path:
            return val
        pe = path[0]
        if pe[0] == 'f':
            if isR(v):
                d = dict(v[3])
                old = self.proj(v, pe)
                d[pe[1]] = self.put(old, path[1:], val)
                return Rf(v[2], d.items(), v[1])
            if isT(v):
                old = self.proj(v, pe)
                return Rf('?', [(pe[1], self.put(old, path[1:], val))], None if v[1] == 'uninit' else v)
            raise Unsupported('assignment to field of ' + show(v)[:80])
        if pe[0] == 'i':
            old = self.seq_at(v, pe[1]) if len(path) > 1 else None
            return self.seq_put(v, pe[1], self.put(old, path[1:], val) if len(path) > 1 else val)
        if pe[0] == 'k':
            old = self.map_at(v, pe[1]) if len(path) > 1 else None
            nv = self.put(old, path[1:], val) if len(path) > 1 else val
            return self.map_put(v, pe[1], nv)
        raise Unsupported('update')

    def write(self, lv, val, node=None):
        c, path = lv[1], lv[2]
        if str(c).startswith('mapentries'):
            raise Unsupported('an entry of a map is changed')
        # references stored inside records
        v = self.st.store.get(c)
        for i, pe in enumerate(path):
            if v is None or isconst(v):
                break
            try:
                v2 = self.proj(v, pe)
            except Unsupported:
                break
            if isLV(v2):
                return self.write(('&', v2[1], v2[2] + path[i + 1:]), val, node)
            v = v2
        self.st.ev.append(('w', c, path, val, node.get('l') if isinstance(node, dict) else None))
        self.st.store[c] = self.put(self.st.store.get(c, UNINIT), path, val)

    # ------------------------------------------------------------ sequences
    def as_seq(self, v, tidx=None):
        if isS(v):
            return v
        if isT(v):
            n = None
            if tidx is not None:
                _, t = self.p.deref(tidx)
                if base(t.get('base', '')) == 'std::array':
                    n = t['ta'][1].get('v')
                elif t.get('c') == 'arr':
                    n = t['n']
            if n is None:
                n = self.lenof.get(v) if isnum(self.lenof.get(v)) else None
            if n is not None:
                return ('S', tuple(('1', T('at', v, i)) for i in range(n)), ())
            return Ssym(v)
        raise Unsupported('not a sequence: ' + show(v)[:80])

    def seglen(self, s):
        if s[0] == '1':
            return 1
        if s[0] == 's':
            if s[1] in self.lenof:
                return self.lenof[s[1]]
            t = T('len', s[1])
            self.nonneg.add(t)
            return t
        if s[0] == 'r':
            return s[1]
        if s[0] == 'g':
            alts = s[3]
            if s[4]:
                ns = {len(vals) for _, vals in alts}
                if len(alts) >= 1 and len(ns) == 1:
                    return mulc(s[2], next(iter(ns)))

            def total(vals):
                n = 0
                for x in vals:
                    n = add(n, self.seglen(x[2]) if isT(x) and x[1] == 'seg' else 1)
                return n
            t = T('cnt', s[1], s[2], frozenset((g, total(vals)) for g, vals in alts if vals))
            self.nonneg.add(t)
            return t
        raise Unsupported('segment')

    def seq_len(self, v):
        v = self.as_seq(v)
        n = 0
        for s in v[1]:
            n = add(n, self.seglen(s))
        return n

    def seq_at(self, v, idx):
        if isT(v):
            if v[1] == 'uninit':
                return UNINIT
            return T('at', v, idx)
        if isP(v) or isLV(v):
            raise Unsupported('index of pointer')
        if not isS(v):
            if isinstance(v, str):
                return T('at', v, idx)
            raise Unsupported('index of ' + show(v)[:60])
        for i, x in reversed(v[2]):
            e = self.eq(i, idx)
            if e is True or (e is not False and self.truth(e)):
                return x
        pos = 0
        for s in v[1]:
            n = self.seglen(s)
            rel = sub(idx, pos)
            # is rel < n ?
            inside = True if len(v[1]) == 1 and s[0] in 'srg' else self.lt(rel, n)
            if inside is True or (inside is not False and self.truth(inside)):
                if s[0] == '1':
                    if rel != 0 and not (isnum(rel) and rel < 0):
                        pass
                    return s[1]
                if s[0] == 's':
                    return T('at', s[1], rel)
                if s[0] == 'r':
                    return s[2]
                if s[0] == 'g':
                    if s[4] and len(s[3]) == 1:
                        (g, vals), = s[3]
                        if len(vals) == 1:
                            return subst(vals[0], {s[1]: rel})
                    return T('at', s, rel)
            pos = add(pos, n)
        raise Throw(T('out_of_range', idx))

    def seq_put(self, v, idx, val):
        v = self.as_seq(v)
        if not v[2] and isnum(idx) and all(s[0] == '1' for s in v[1]):
            if not 0 <= idx < len(v[1]):
                raise Throw(T('out_of_range', idx))
            segs = list(v[1])
            segs[idx] = ('1', val)
            return ('S', tuple(segs), ())
        if not v[2] and len(v[1]) > 1:
            pos = 0
            for k, s in enumerate(v[1]):
                if s[0] == '1' and pos == idx:
                    return ('S', v[1][:k] + (('1', val),) + v[1][k + 1:], ())
                pos = add(pos, self.seglen(s))
        # concrete prefix
        if isnum(idx) and idx < len(v[1]) and all(s[0] == '1' for s in v[1][:idx + 1]) and not v[2]:
            segs = list(v[1])
            segs[idx] = ('1', val)
            return ('S', tuple(segs), v[2])
        ups = tuple((i, x) for i, x in v[2] if i != idx) + ((idx, val),)
        return ('S', v[1], ups)

    def seq_push(self, v, val):
        v = self.as_seq(v)
        return ('S', v[1] + (('1', val),), v[2])

    def seq_slice(self, v, lo, hi):
        v = self.as_seq(v)
        if lo == 0 and hi == self.seq_len(v):
            return v
        if lo == hi:
            return ('S', (), ())
        if isnum(lo) and isnum(hi) and all(s[0] == '1' for s in v[1]) and not v[2]:
            return ('S', v[1][lo:hi], ())
        return Ssym(T('slice', v, lo, hi))

    # ------------------------------------------------------------ maps
    def as_map(self, v):
        if isM(v):
            return v
        if isT(v):
            return ('M', v, ())
        raise Unsupported('not a map: ' + show(v)[:80])

    def map_find(self, v, key):
        v = self.as_map(v)
        for k, x in reversed(v[2]):
            if self.truth(self.eq(k, key)):
                return True
        if v[1] is None:
            return False
        return T('?has', v[1], key)

    def map_at(self, v, key):
        v = self.as_map(v)
        for k, x in reversed(v[2]):
            if self.truth(self.eq(k, key)):
                return x
        return T('val', v[1], key)

    def map_put(self, v, key, val):
        v = self.as_map(v)
        ents = tuple((k, x) for k, x in v[2] if k != key) + ((key, val),)
        return ('M', v[1], ents)

    # ------------------------------------------------------------ defaults
    SEQ = {'std::vector', 'std::deque', 'std::queue', 'std::stack', 'std::list',
           'boost::container::static_vector', 'boost::container::vector', 'boost::container::small_vector'}
    MAP = {'boost::unordered::unordered_flat_map', 'boost::unordered::unordered_flat_set',
           'boost::unordered_flat_map', 'boost::unordered_flat_set', 'std::map', 'std::set',
           'std::unordered_map', 'std::unordered_set', 'boost::unordered::unordered_map',
           'boost::unordered::unordered_node_map', 'boost::unordered::unordered_set'}

    def default(self, tidx, node=None):
        i, t = self.p.deref(tidx)
        c = t.get('c')
        if c in ('int', 'enum'):
            return 0
        if c == 'bool':
            return False
        if c == 'float':
            return 0.0
        if c == 'ptr':
            return None
        if c == 'arr':
            return ('S', tuple(('1', self.default(t['to'])) for _ in range(t['n'])), ())
        b = base(t.get('base', ''))
        if b in self.SEQ:
            return S()
        if b in self.MAP:
            return ('M', None, ())
        if b == 'std::array':
            n = t['ta'][1]['v']
            return ('S', tuple(('1', self.default(t['ta'][0]['t'])) for _ in range(n)), ())
        if b in ('std::pair', 'std::tuple'):
            return tup(*[self.default(a['t']) for a in t['ta']])
        if b == 'std::optional':
            return Rf('opt', [('has', False), ('val', UNINIT)])
        if b in ('std::unique_ptr', 'std::exception_ptr', 'std::shared_ptr'):
            return None
        if b in ('std::basic_string', 'std::basic_string_view'):
            return ''
        if b in ('std::atomic', 'std::__atomic_base'):
            ta = t.get('ta')
            return self.default(ta[0]['t']) if ta else False
        if t.get('repo') and c == 'rec':
            rec = self.p.records.get(t.get('rid'))
            if rec is not None:
                # user provided default constructor?
                for m in rec['methods']:
                    if m.get('sp') == 'defctor' and m.get('user') and m['id'] in self.p.fns:
                        return self.construct_repo(self.p.fns[m['id']], [], t, rec)
                return self.default_record(rec)
        return T('new', b or t.get('s', '?'))

    def default_record(self, rec):
        fs = []
        for f in rec['fields']:
            if 'init' in f:
                fs.append((f['n'], self.init_value(f['init'], f['t'])))
            else:
                ft = self.p.ty(f['t'])
                fs.append((f['n'], self.default(f['t']) if ft.get('c') in ('rec', 'arr') else UNINIT))
        return Rf(rec['b'], fs)

    def init_value(self, node, tidx):
        self.frames.append({'vars': {}, 'this': None, 'fn': None})
        try:
            v = self.eval(node)
            if self.p.ty(tidx).get('c') == 'ref':
                return v
            return self.rval(v)
        finally:
            self.frames.pop()

    def symval(self, tidx, name):
        """A fully unknown value of the given type."""
        i, t = self.p.deref(tidx)
        a = T('atom', name)
        self.register(a, i)
        return a

    def register(self, v, tidx):
        """Record what the static type says about a term."""
        if not isT(v) or v in self.tdom or v[1] in ('lin',) or v[1] == 'in' and len(v) > 3:
            return
        _, t = self.p.deref(tidx)
        c = t.get('c')
        if c == 'bool':
            if v[1] not in ('!', '?in', 'bop', 'cast', 'neg', 'and', 'or'):
                self.tdom[v] = frozenset((False, True))
        elif c == 'enum':
            if v not in self.noenum and v[1] not in ('bop', 'cast', 'neg', 'uninit'):
                vals = set(t['vals'].values())
                if base(t['base']).startswith('std::'):
                    vals.add(0)     # std::errc{}: no error
                if self.is_bitmask(t):
                    while True:
                        n = {x | y for x in vals for y in vals}
                        if n == vals or len(n) > 64:
                            break
                        vals = n
                self.tdom[v] = frozenset(vals)
        elif c == 'int' and not t.get('sg'):
            self.nonneg.add(v)

    def is_bitmask(self, t):
        r = t.get('_bm')
        if r is None:
            r = False
            for f in self.p.by_base.get('kigumi::operator|', []):
                if self.p.tbase(f['params'][0]['t']) == base(t['base']):
                    r = True
            t['_bm'] = r
        return r

    # ------------------------------------------------------------ calls of repo functions
    def bind_params(self, fn, args, fr):
        ps = fn['params']
        for i, prm in enumerate(ps):
            if i < len(args):
                a = args[i]
            elif 'def' in prm:
                a = self.eval(prm['def'])
            else:
                raise Unsupported('missing argument')
            pt = self.p.ty(prm['t'])
            if pt.get('c') == 'ref':
                if not isLV(a):
                    a = ('&', self.newcell('tmp.' + prm['n'], a), ())
                fr['vars'][prm['id']] = a
            else:
                v = self.rval(a)
                self.register(v, prm['t'])
                fr['vars'][prm['id']] = ('&', self.newcell(prm['n'], v), ())

    def call_fn(self, fn, this, args, node=None, caps=None):
        """Runs a function with a body.  `this` is an LV; args are LVs or values."""
        self.steps -= 1
        if self.steps < 0:
            raise Unsupported('step budget exhausted')
        if len(self.frames) > 60:
            raise Unsupported('call depth (recursion)')
        h = self.ic.get(fn['b']) or self.ic.get(fn['id'])
        if h is not None:
            r = h(self, fn, this, args, node)
            if r is not NotImplemented:
                return r
        self.called.add(fn['id'])
        fr = {'vars': dict(caps or {}), 'this': this, 'fn': fn}
        self.frames.append(fr)
        dec_this = None
        try:
            self.bind_params(fn, args, fr)
            try:
                if fn['body'] is not None:
                    self.stmt(fn['body'])
                ret = None
            except Ret as e:
                ret = e.val
        finally:
            self.frames.pop()
        return ret

    def construct_repo(self, fn, args, t, rec=None, hint='obj'):
        """Runs a constructor; returns the record value."""
        h = self.ic.get(fn['b'])
        if h is not None:
            r = h(self, fn, None, args, None)
            if r is not NotImplemented:
                return r
        self.called.add(fn['id'])
        rec = rec or self.p.records.get(fn.get('rid'))
        cell = self.newcell(hint + ':' + (rec['b'].split('::')[-1] if rec else '?'), Rf(rec['b'] if rec else '?', []))
        this = ('&', cell, ())
        fr = {'vars': {}, 'this': this, 'fn': fn}
        self.frames.append(fr)
        try:
            self.bind_params(fn, args, fr)
            for ini in fn.get('inits', []):
                if 'm' in ini:
                    ft = None
                    if rec:
                        for f in rec['fields']:
                            if f['n'] == ini['m']:
                                ft = f['t']
                    v = self.eval(ini['e']) if ini['e'] is not None else UNINIT
                    if not (ft is not None and self.p.ty(ft).get('c') == 'ref'):
                        v = self.rval(v)
                        if ini['e'] is not None and ini['e'].get('t') is not None:
                            self.register(v, ini['e']['t'])
                    self.st.store[cell] = self.put(self.st.store[cell], (('f', ini['m']),), v)
                elif 'deleg' in ini:
                    v = self.rval(self.eval(ini['e']))
                    self.st.store[cell] = v
                else:  # base class
                    if ini['e'] is not None:
                        v = self.rval(self.eval(ini['e']))
                        if isR(v):
                            cur = self.st.store[cell]
                            d = dict(cur[3])
                            d.update(dict(v[3]))
                            self.st.store[cell] = Rf(cur[2], d.items(), cur[1])
            if fn['body'] is not None:
                try:
                    self.stmt(fn['body'])
                except Ret:
                    pass
            return self.st.store[cell]
        finally:
            self.frames.pop()

    def call_value(self, f, args, node=None):
        """Calls a callable value (lambda, functor record, function)."""
        f0 = f
        fv = self.rval(f)
        if isL(fv):
            fns = [self.p.fns[i] for i in fv[1] if i in self.p.fns]
            if not fns:
                raise Unsupported('lambda without instantiated body', node)
            fn = fns[0]
            if len(fns) > 1:
                fn = self.pick(fns, args)
            caps = dict(fv[2])
            return self.call_fn(fn, fv[3], args, node, caps)
        if isR(fv) or isT(fv):
            cls = fv[2] if isR(fv) else (fv[2] if fv[1] == 'new' else None)
            if cls:
                cands = self.p.by_base.get(cls + '::operator()', [])
                if cands:
                    this = f0 if isLV(f0) else ('&', self.newcell('functor', fv), ())
                    return self.call_fn(self.pick(cands, args), this, args, node)
            if cls and cls.split('::')[-1] in ('less', 'greater', 'equal_to'):
                a, b = self.rval(args[0]), self.rval(args[1])
                return {'less': self.lt(a, b), 'greater': self.lt(b, a), 'equal_to': self.eq(a, b)}[cls.split('::')[-1]]
        if isinstance(fv, tuple) and fv and fv[0] == 'F':
            fn = self.p.fns.get(fv[1])
            if fn:
                return self.call_fn(fn, None, args, node)
        raise Unsupported('call of ' + show(fv)[:80], node)

    def pick(self, fns, args):
        """Chooses the instantiation of a generic lambda whose parameter kinds fit."""
        good = []
        for f in fns:
            ok = len(f['params']) == len(args)
            if ok:
                for prm, a in zip(f['params'], args):
                    v = self.rval(a)
                    _, t = self.p.deref(prm['t'])
                    b = base(t.get('base', ''))
                    if isR(v) and v[2] not in ('?', 'tuple', 'range', 'opt') and t.get('repo') and b != v[2]:
                        ok = False
                    if t.get('c') in ('int', 'enum', 'bool') and (isR(v) or isS(v)):
                        ok = False
                    if t.get('c') == 'rec' and isnum(v):
                        ok = False
            if ok:
                good.append(f)
        return (good or fns)[0]

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None:
            return
        self.steps -= 1
        if self.steps < 0:
            raise Unsupported('step budget exhausted')
        k = s['k']
        m = getattr(self, 's_' + k.replace('?', '_unknown'), None)
        if m is None:
            raise Unsupported('statement ' + k + ' ' + s.get('cls', ''), s)
        return m(s)

    def s_block(self, s):
        if self.on_scope_end is None:
            for c in s['b']:
                self.stmt(c)
            return
        try:
            for c in s['b']:
                self.stmt(c)
        except (Ret, Throw, Brk, Cont):
            self.scope_end(s)
            raise
        self.scope_end(s)

    on_scope_end = None

    def scope_end(self, s):
        """Reports the local variables of a block in the order in which they are destroyed."""
        vs = [v for c in s['b'] if c['k'] == 'decl' for v in c['v']]
        for v in reversed(vs):
            lv = self.frames[-1]['vars'].get(v['id'])
            if lv is not None:
                self.on_scope_end(self, v, lv)

    def s_expr(self, s):
        self.eval(s['e'])

    def s_null(self, s):
        pass

    def s_decl(self, s):
        for v in s['v']:
            self.declare(v)

    def declare(self, v):
        fr = self.frames[-1]
        if v.get('static') or v.get('tls'):
            cell = f"static:{v['n']}:{v['id']}"
            if cell not in self.st.store:
                self.st.store[cell] = self.stale(v)
            fr['vars'][v['id']] = ('&', cell, ())
            return
        t = self.p.ty(v['t'])
        if 'init' in v and v['init'] is not None:
            x = self.eval(v['init'])
            if t.get('c') == 'ref':
                if not isLV(x):
                    x = ('&', self.newcell(v['n'] or 'ref', x), ())
                lv = x
            else:
                x = self.rval(x)
                self.register(x, v['t'])
                lv = ('&', self.newcell(v['n'] or 'tmp', x), ())
        else:
            x = self.default(v['t']) if t.get('c') in ('rec', 'arr') else UNINIT
            lv = ('&', self.newcell(v['n'], x), ())
        fr['vars'][v['id']] = lv
        if v.get('binds'):
            self.bind(v, lv)
        if t.get('c') == 'rec' and self.on_local:
            self.on_local(self, v, lv)

    on_local = None

    def bind(self, v, lv):
        fr = self.frames[-1]
        val = self.read(lv)
        _, t = self.p.deref(v['t'])
        b = base(t.get('base', ''))
        for i, bd in enumerate(v['binds']):
            if b in ('std::pair', 'std::tuple') or (isR(val) and val[2] == 'tuple'):
                path = lv[2] + (('f', str(i)),)
            elif b == 'std::array' or t.get('c') == 'arr':
                path = lv[2] + (('i', i),)
            else:
                rec = self.p.records.get(t.get('rid'))
                if rec:
                    path = lv[2] + (('f', rec['fields'][i]['n']),)
                else:
                    path = lv[2] + (('f', str(i)),)
            fr['vars'][bd['id']] = ('&', lv[1], path)

    def stale(self, v):
        a = T('stale', v['n'])
        return self.blank(v['t'], a)

    def blank(self, tidx, a):
        """An unknown value of a container/record type with the right shape."""
        _, t = self.p.deref(tidx)
        b = base(t.get('base', ''))
        if b in self.SEQ:
            return Ssym(a)
        if b in self.MAP:
            return ('M', a, ())
        if t.get('repo') and t.get('c') == 'rec':
            return ('R', a, b, ())
        self.register(a, tidx)
        return a

    def s_return(self, s):
        v = None
        if 'e' in s:
            x = self.eval(s['e'])
            fn = self.frames[-1]['fn']
            rt = self.p.ty(fn['rt']) if fn else {}
            if rt.get('c') == 'ref':
                v = x if isLV(x) else x
            else:
                v = self.rval(x)
                if fn:
                    self.register(v, fn['rt'])
        raise Ret(v)

    def s_break(self, s):
        raise Brk()

    def s_continue(self, s):
        raise Cont()

    def s_if(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        if s.get('cv'):
            self.stmt(s['cv'])
        if self.truth(self.ev(s['c'])):
            self.stmt(s['then'])
        elif 'else' in s:
            self.stmt(s['else'])

    def s_switch(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        if s.get('cv'):
            self.stmt(s['cv'])
        v = self.ev(s['c'])
        # flatten the body
        items = []

        def flat(x):
            if x is None:
                return
            if x['k'] == 'case':
                items.append(('case', x))
                flat(x['s'])
            elif x['k'] == 'default':
                items.append(('default', x))
                flat(x['s'])
            else:
                items.append(('s', x))
        body = s['body']
        for x in (body['b'] if body['k'] == 'block' else [body]):
            flat(x)
        target = None
        for i, (kd, x) in enumerate(items):
            if kd == 'case':
                if self.truth(self.eq(v, self.rval(self.eval(x['e'])))):
                    target = i
                    break
        if target is None:
            for i, (kd, x) in enumerate(items):
                if kd == 'default':
                    target = i
        if target is None:
            return
        try:
            for kd, x in items[target:]:
                if kd == 's':
                    self.stmt(x)
        except Brk:
            pass

    def s_try(self, s):
        try:
            self.stmt(s['body'])
        except Throw as e:
            for h in s['h']:
                if 't' not in h or self.catches(h['t'], e.val):
                    if h.get('v'):
                        self.frames[-1]['vars'][h['v']['id']] = ('&', self.newcell(h['v']['n'] or 'exc', e.val), ())
                    self.st.ev.append(('catch', h.get('l'), e.val))
                    old = getattr(self, 'cur_exc', None)
                    self.cur_exc = e
                    try:
                        self.stmt(h['body'])
                    finally:
                        self.cur_exc = old
                    return
            raise

    def catches(self, tidx, val):
        _, t = self.p.deref(tidx)
        b = base(t.get('base', ''))
        cls = None
        if isR(val):
            cls = val[2]
        elif isT(val):
            cls = val[2] if val[1] in ('exc',) else {'out_of_range': 'std::out_of_range'}.get(val[1])
        if cls == b:
            return True
        if b == 'std::exception':
            return cls is None or cls.startswith(('std::', 'boost::program_options::')) or 'exception' in cls
        if b == 'std::runtime_error' and cls in ('std::runtime_error', 'std::system_error', 'std::range_error'):
            return True
        return False

    # loops ---------------------------------------------------------------
    def s_for(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        cond = (lambda: self.ev(s['c'])) if s.get('c') else (lambda: True)
        inc = (lambda: self.eval(s['inc'])) if s.get('inc') else (lambda: None)
        self.loop(cond, lambda: self.stmt(s['body']), inc, s)

    def s_while(self, s):
        def cond():
            if s.get('cv'):
                self.stmt(s['cv'])
            return self.ev(s['c'])
        self.loop(cond, lambda: self.stmt(s['body']), lambda: None, s)

    def s_do(self, s):
        first = [True]

        def cond():
            if first[0]:
                return True
            return self.ev(s['c'])
        # executed as: body; while (c) body;
        try:
            self.stmt(s['body'])
        except Cont:
            pass
        except Brk:
            return
        self.loop(lambda: self.ev(s['c']), lambda: self.stmt(s['body']), lambda: None, s)

    def s_rfor(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        r = self.eval(s['r'])
        if not isLV(r):
            r = ('&', self.newcell('range', r), ())
        rt = s['r'].get('t')
        b, e = self.range_of(r, rt)
        itc = ('&', self.newcell('it', b), ())
        vt = self.p.ty(s['v']['t'])

        def cond():
            return self.neg(self.iter_eq(self.read(itc), e))

        def body():
            x = self.iter_deref(self.read(itc), itc)
            fr = self.frames[-1]
            v = s['v']
            if vt.get('c') == 'ref':
                if not isLV(x):
                    x = ('&', self.newcell(v['n'] or 'elem', x), ())
                lv = x
            else:
                lv = ('&', self.newcell(v['n'] or 'elem', self.rval(x)), ())
            self.register(self.read(lv), v['t'])
            fr['vars'][v['id']] = lv
            if v.get('binds'):
                self.bind(v, lv)
            self.stmt(s['body'])
        self.loop(cond, body, lambda: self.iter_inc(itc), s)

    def range_of(self, r, tidx=None):
        v = self.rval(r)
        if isR(v) and v[2] == 'range':
            d = dict(v[3])
            return d['b'], d['e']
        if isT(v) or isS(v):
            sv = self.as_seq(v, tidx)
            if sv is not v and isLV(r) and len(sv[1]) and sv[1][0][0] == '1':
                # give the lazily expanded array a cell of its own only for reading
                pass
            return ('I', r, 0), ('I', r, self.seq_len(sv))
        if isM(v):
            return ('I', ('&', self.newcell('entries', Ssym(T('entries', v))), ()), 0), None
        raise Unsupported('range over ' + show(v)[:80])

    # iterators: ('I', lv, idx) or records of repo iterator classes
    def repo_iter_cls(self, v):
        if isR(v) and v[2].endswith('_iterator'):
            return v[2]
        return None

    def repo_method(self, cls, name):
        fs = self.p.by_base.get(cls + '::' + name, [])
        return fs[0] if fs else None

    def iter_eq(self, a, b):
        if isI(a) and b is None:
            return T('?atend', a)
        if isI(a) and isI(b):
            return self.eq(a, b)
        cls = self.repo_iter_cls(a)
        if cls:
            fn = self.repo_method(cls, 'equal')
            la = ('&', self.newcell('ia', a), ())
            lb = ('&', self.newcell('ib', b), ())
            return self.call_fn(fn, la, [lb])
        return self.eq(a, b)

    def iter_deref(self, v, lv=None):
        if isI(v):
            return ('&', v[1][1], v[1][2] + (('i', v[2]),)) if isLV(v[1]) else self.seq_at(v[1], v[2])
        if isP(v):
            return ('&', v[1], v[2])
        cls = self.repo_iter_cls(v)
        if cls:
            fn = self.repo_method(cls, 'dereference')
            l = lv or ('&', self.newcell('ia', v), ())
            return self.call_fn(fn, l, [])
        if isinstance(v, tuple) and v and v[0] == 'MI':
            return ('&', self.newcell('entry', tup(v[2], ('&', v[1][1], v[1][2] + (('k', v[2]),)))), ())
        if isT(v):
            return T('deref', v)
        raise Unsupported('dereference of ' + show(v)[:80])

    def deref(self, v):
        x = self.iter_deref(v)
        return x

    def iter_inc(self, lv, n=1):
        v = self.read(lv)
        if isI(v):
            self.write(lv, ('I', v[1], add(v[2], n)))
            return
        cls = self.repo_iter_cls(v)
        if cls:
            if n == 1:
                self.call_fn(self.repo_method(cls, 'increment'), lv, [])
            elif n == -1:
                self.call_fn(self.repo_method(cls, 'decrement'), lv, [])
            else:
                self.call_fn(self.repo_method(cls, 'advance'), lv, [n])
            return
        if isT(v):
            self.write(lv, T('next', v, n) if not isnum(n) or n != 1 or True else v)
            return
        raise Unsupported('increment of ' + show(v)[:80])

    def iter_dist(self, a, b):
        if isI(a) and isI(b) and a[1] == b[1]:
            return sub(b[2], a[2])
        cls = self.repo_iter_cls(a)
        if cls and self.repo_method(cls, 'distance_to'):
            la = ('&', self.newcell('ia', a), ())
            lb = ('&', self.newcell('ib', b), ())
            return self.call_fn(self.repo_method(cls, 'distance_to'), la, [lb])
        return T('dist', a, b)

    def loop(self, cond, body, inc, node):
        self.loops += 1
        key = (id(node), tuple(f['fn']['id'] if f['fn'] else 0 for f in self.frames))
        if key not in self.no_unroll:
            # constant trip count: interpret exactly.  The loop condition must be decided by
            # constants; the body may split.
            def const_cond():
                self.nochoose += 1
                try:
                    return self.truth(cond())
                finally:
                    self.nochoose -= 1
            snap = self.st.clone()
            try:
                c = const_cond()
                n = 0
                rec = None
                while c:
                    n += 1
                    if n >= 4:
                        # the state before an iteration: everything that existed before the loop, and what is known
                        cur = [self.st.store.get(x) for x in snap.store], len(self.st.dom)
                        if cur == rec and all(e[0] == 'w' for e in self.st.ev[mark:]) and not self.fresh_refs(cur[0], snap.store):
                            raise Diverge(node.get('l') if isinstance(node, dict) else None)
                        if n & (n - 1) == 0:
                            rec, mark = cur, len(self.st.ev)
                    try:
                        body()
                    except Cont:
                        pass
                    except Brk:
                        return
                    inc()
                    try:
                        c = const_cond()
                    except NeedChoice:
                        if self.nochoose:
                            raise
                        c = None
                    if c is None or n > self.UNROLL:
                        self.no_unroll.add(key)
                        raise Restart()
                return
            except NeedChoice:
                if self.nochoose:
                    raise
            self.st = snap
        if self.nochoose:
            raise NeedChoice()
        self.generic_loop(cond, body, inc, node)

    @staticmethod
    def fresh_refs(vals, store):
        """Do values refer to cells that are not in the store?"""
        todo = list(vals)
        while todo:
            v = todo.pop()
            if isinstance(v, tuple) and len(v) > 1 and v[0] in ('&', 'P') and v[1] not in store:
                return True
            if isinstance(v, tuple):
                todo.extend(x for x in v if isinstance(x, tuple))
        return False

    @staticmethod
    def norm_loc(c, path):
        out = []
        for pe in path:
            if pe[0] != 'f':
                break
            out.append(pe)
        return (c, tuple(out))

    def written(self, paths, basest):
        locs = set()
        for p in paths:
            for e in p.ev:
                self._written(e, basest, locs)
        # drop locations covered by a prefix
        res = set()
        for c, pa in locs:
            if not any((c, pa[:i]) in locs for i in range(len(pa))):
                res.add((c, pa))
        return res

    def _written(self, e, basest, locs):
        if e[0] == 'w' and e[1] in basest.store:
            locs.add(self.norm_loc(e[1], e[2]))
        elif e[0] == 'loop':
            for p in e[4]:
                for x in p['ev']:
                    self._written(x, basest, locs)
            for c, pa in e[5]:
                if c in basest.store:
                    locs.add((c, pa))

    def generic_loop(self, cond, body, inc, node):
        S0 = self.st
        if not self.decs:
            raise Unsupported('loop outside of an exploration', node)
        ctx = self.decs[-1]
        ctx[3] += 1
        mk = (tuple(c for c, _ in ctx[1]), ctx[3], id(node))
        fix = ctx[2].get(mk)
        if fix is None:
            fix = ctx[2][mk] = self.loop_fix(cond, body, inc, node, S0)
        self.loop_exit(cond, node, S0, *fix)

    def loop_fix(self, cond, body, inc, node, S0):
        self.loopdepth += 1
        # a generic index that survives an early exit must not be confused with the next loop's
        nb = S0.ctr.get('$brk', 0)
        lid = f"L{self.loopdepth}" + (f"b{nb}" if nb else '')
        kap = T('kap', lid)
        self.nonneg.add(kap)
        condinfo = []

        def iteration():
            c = cond()
            condinfo.append(c)
            self.assume(c, True)
            mark = ('iter-cond', len(self.st.dom))
            self._cond_dom = dict(self.st.dom)
            self.st.ev.append(('condend',))
            try:
                body()
            except Cont:
                pass
            inc()
            return None

        def hv_value(loc, e0, mode):
            c, pa = loc
            name = c + ''.join('.' + x[1] for x in pa)
            h = T('hv', lid, name)
            if mode is not None:
                kind, x = mode
                if kind == 'ind':       # e0 + x*kap
                    if isI(e0):
                        return ('I', e0[1], add(e0[2], mulc(kap, x)))
                    return add(e0, mulc(kap, x))
                if kind == 'same':
                    return e0
                if kind == 'seqlen':
                    h2 = T('hvs', lid, name)
                    self.lenof[h2] = add(self.seq_len(e0), mulc(kap, x))
                    return Ssym(h2)
                if kind == 'cnt':
                    h2 = T('hvs', lid, name)
                    self.lenof[h2] = add(self.seq_len(e0), T('cntv', lid, x))
                    return Ssym(h2)
            if isI(e0):
                self.nonneg.add(h)
                return ('I', e0[1], h)
            if isS(e0):
                self.lenof.pop(T('hvs', lid, name), None)
                if all(s[0] == '1' for s in e0[1]) and mode is None and self.fixed_array.get(loc, False):
                    return ('S', tuple(('1', T('at', h, i)) for i in range(len(e0[1]))), ())
                return Ssym(T('hvs', lid, name))
            if isM(e0):
                return ('M', T('hvm', lid, name), ())
            if isR(e0):
                return ('R', h, e0[2], ())
            if isinstance(e0, bool):
                self.tdom.setdefault(h, frozenset((False, True)))
            elif isT(e0) and self.fulldom(e0) is not None:
                self.tdom.setdefault(h, self.fulldom(e0))
            elif isT(e0) and e0 in self.nonneg:
                self.nonneg.add(h)
            return h

        self.fixed_array = getattr(self, 'fixed_array', {})
        # fixpoint on the set of written locations
        modes = {}
        W = set()
        paths = None
        for rnd in range(14):
            st = S0.clone()
            hv = {}
            for loc in W:
                try:
                    e0 = self.read_in(S0, loc)
                except Unsupported:
                    e0 = UNINIT
                h = hv_value(loc, e0, modes.get(loc))
                hv[loc] = (e0, h)
                st.store[loc[0]] = self.put(st.store[loc[0]], loc[1], h)
            self.st = st
            condinfo.clear()
            self.active.append(kap)
            try:
                paths = self.explore(iteration)
            finally:
                self.st = S0
                self.active.pop()
            W2 = self.written(paths, S0)
            # merge and normalise
            allw = W | W2
            allw = {(c, pa) for c, pa in allw if not any((c, pa[:i]) in allw for i in range(len(pa)))}
            cont = [p for p in paths if p.kind == 'norm']
            if allw != W:
                new = allw - W
                modes = {l: m for l, m in modes.items() if l in allw}
                groups = {}
                for loc in new:
                    try:
                        e0 = self.read_in(S0, loc)
                    except Unsupported:
                        e0 = UNINIT
                    modes[loc] = self.guess(loc, e0, e0, cont, groups)
                self.name_groups(modes, groups, rnd)
                W = allw
                continue
            # verify the refinements
            changed = False
            groups = {}
            for loc in W:
                e0, h = hv[loc]
                m = modes.get(loc)
                if loc in modes and m is None:
                    continue
                if m is None:
                    modes[loc] = self.guess(loc, e0, h, cont, groups)
                    changed = changed or modes[loc] is not None
                    continue
                if not self.holds(m, loc, e0, h, cont, modes):
                    modes[loc] = None
                    changed = True
            self.name_groups(modes, groups, rnd)
            if not changed:
                break
        else:
            raise Unsupported('loop fixpoint', node)
        self.loopdepth -= 1
        return lid, kap, condinfo, hv, modes, W, paths

    def loop_exit(self, cond, node, S0, lid, kap, condinfo, hv, modes, W, paths):
        # bound of the generic index
        bound = None
        for p in paths:
            for t, d in p.cond.items():
                if isT(t) and t[1] == '>0' and d == frozenset((True,)):
                    dd, cc = lin(t[2])
                    if dd.get(kap) == -1 and condinfo and self.same_cond(condinfo[0], t, True):
                        bound = mklin({k: v for k, v in dd.items() if k != kap}, cc)
                if isT(t) and t[1] == '>0' and d == frozenset((False,)):
                    # not(kap - H + c > 0)  <=>  kap < H
                    dd, cc = lin(sub(1, t[2]))
                    if dd.get(kap) == -1 and condinfo and self.same_cond(condinfo[0], t, False):
                        bound = mklin({k: v for k, v in dd.items() if k != kap}, cc)
                if isT(t) and t[1] == '==0' and d == frozenset((False,)):
                    dd, cc = lin(t[2])
                    if abs(dd.get(kap, 0)) == 1 and condinfo and self.same_cond(condinfo[0], t, False):
                        s = dd[kap]
                        rest = mklin({k: v for k, v in dd.items() if k != kap}, cc)
                        bound = mulc(rest, -s)
            if bound is not None:
                break
        # collect the summary
        summ = []
        for p in paths:
            ci = next((i for i, e in enumerate(p.ev) if e == ('condend',)), -1)
            guard = {t: d for t, d in p.cond.items() if not self.is_cond_lit(t, d, condinfo)}
            summ.append({'kind': p.kind, 'val': p.val, 'guard': guard, 'ev': [e for e in p.ev[ci + 1:] if e != ('condend',)],
                         'st': p.st, 'cev': p.ev[:max(ci, 0)], 'line': p.line})
        exits = [q for q in summ if q['kind'] in ('break', 'ret', 'throw')]
        cont = [q for q in summ if q['kind'] == 'norm']
        infinite = all(isinstance(c, bool) and c for c in condinfo) and len(condinfo) > 0
        S0.ev.append(('loop', node.get('l') if isinstance(node, dict) else 0, kap, bound, summ, W, {loc: hv[loc] for loc in W}))
        dom_term = T('dom', bound if bound is not None else T('dom?', node.get('l', 0)))
        # exit partition
        opts = ([] if infinite else [None]) + exits
        if not opts:
            raise Infeasible()
        sel = opts[self.choose(len(opts))] if len(opts) > 1 else opts[0]
        exists = [self.ex_term(dom_term, kap, q['guard']) for q in exits]
        if sel is not None:
            # state at the exit inside the generic iteration
            ns = sel['st'].clone()
            ev = S0.ev + [e for e in sel['ev']]
            ns.ev = ev
            ns.ctr = dict(sel['st'].ctr)
            ns.ctr['$brk'] = ns.ctr.get('$brk', 0) + 1
            self.st = ns
            i = exits.index(sel)
            self.tdom.setdefault(exists[i], frozenset((False, True)))
            self.restrict(exists[i], {True})
            if sel['kind'] == 'ret':
                raise Ret(sel['val'])
            if sel['kind'] == 'throw':
                raise Throw(sel['val'], sel['line'])
            return
        # normal exit
        self.st = S0
        if '$rd' in S0.ctr:
            S0.ctr['$rd'] += 1000
        for x in exists:
            self.tdom.setdefault(x, frozenset((False, True)))
            self.restrict(x, {False})
        posts = {}
        for loc in W:
            e0, h = hv[loc]
            posts[loc] = self.post_value(loc, e0, h, modes.get(loc), cont, kap, bound, dom_term, lid, node)
        for loc, v in posts.items():
            self.st.store[loc[0]] = self.put(self.st.store[loc[0]], loc[1], v)
        # the negated condition may carry information
        if bound is None and not infinite:
            save = self.st.clone()
            try:
                self.nochoose += 1
                c = cond()
                self.assume(c, False)
            except (NeedChoice, Unsupported, Infeasible):
                self.st = save
            finally:
                self.nochoose -= 1

    def pushes(self, h, f):
        """Number of elements appended to h to obtain f (None: f is not h plus elements)."""
        if not (isS(h) and isS(f)) or f[2] != h[2]:
            return None
        n = len(h[1])
        if f[1][:n] != h[1]:
            return None
        return self.seq_len(('S', f[1][n:], ()))

    def guess(self, loc, e0, h, cont, groups):
        finals = [self.read_in(p.st, loc) for p in cont]
        if all(f == h for f in finals):
            return ('same', 0)
        if isS(h):
            ls = [self.pushes(h, f) for f in finals]
            if all(x is not None for x in ls):
                if len(set(ls)) == 1 and isnum(ls[0]):
                    return ('seqlen', ls[0])
                groups.setdefault((tuple(ls), self.seq_len(e0)), []).append(loc)
            return None
        if isM(h) or isR(h) or e0 == UNINIT or isinstance(e0, (bool, str)) or e0 is None:
            return None
        steps = set()
        for f in finals:
            if isI(h):
                steps.add(sub(f[2], h[2]) if isI(f) and f[1] == h[1] else None)
            elif (isT(h) or isnum(h)) and (isT(f) or isnum(f)) and not isinstance(f, bool):
                steps.add(sub(f, h))
            else:
                steps.add(None)
        x = next(iter(steps))
        if len(steps) == 1 and isnum(x) and x != 0 and (isnum(e0) or isT(e0) or isI(e0)):
            return ('ind', x)
        return None

    @staticmethod
    def name_groups(modes, groups, rnd):
        for i, locs in enumerate(sorted(sorted(map(repr, g)) for g in groups.values())):
            for g in groups.values():
                if sorted(map(repr, g)) == locs:
                    for loc in g:
                        modes[loc] = ('cnt', f'{rnd}.{i}')

    def holds(self, m, loc, e0, h, cont, modes):
        kind, x = m
        for p in cont:
            f = self.read_in(p.st, loc)
            if kind == 'same':
                ok = f == e0
            elif kind == 'ind':
                ok = f == (('I', h[1], add(h[2], x)) if isI(h) else add(h, x))
            elif kind == 'seqlen':
                ok = self.pushes(h, f) == x
            elif kind == 'cnt':
                n = self.pushes(h, f)
                ok = n is not None
                if ok:
                    for l2, m2 in modes.items():
                        if m2 == m and l2 != loc:
                            h2 = ('S', (('s', T('hvs', h[1][0][1][2], l2[0] + ''.join('.' + z[1] for z in l2[1]))),), ())
                            ok = ok and self.pushes(h2, self.read_in(p.st, l2)) == n
            if not ok:
                return False
        return True

    def read_in(self, st, loc):
        cur, self.st = self.st, st
        try:
            v = st.store[loc[0]]
            for pe in loc[1]:
                v = self.proj(v, pe)
            return v
        finally:
            self.st = cur

    def same_cond(self, c, t, truth):
        if isT(c) and c[1] == '!':
            return self.same_cond(c[2], t, not truth)
        return c == t and truth

    def is_cond_lit(self, t, d, condinfo):
        for c in condinfo:
            tr = True
            while isT(c) and c[1] == '!':
                c, tr = c[2], not tr
            if c == t and d == frozenset((tr,)):
                return True
            if isT(c) and c[1] == '?in' and c[2] == t:
                return True
        return False

    def ex_term(self, dom, kap, guard):
        g = frozenset((t, d) for t, d in guard.items())
        return T('ex', dom, subst(g, {kap: T('k')}))

    def post_value(self, loc, e0, h, mode, cont, kap, bound, dom_term, lid, node):
        if mode and mode[0] == 'same':
            return e0
        if mode and mode[0] == 'ind':
            end = bound if bound is not None else T('cnt', dom_term)
            if isI(e0):
                return ('I', e0[1], add(e0[2], mulc(end, mode[1])))
            return add(e0, mulc(end, mode[1]))
        finals = [(q, self.read_in(q['st'], loc)) for q in cont]
        if isS(h) and isS(e0) and all(isS(f) and f[1][:1] == h[1] and not f[2] for _, f in finals):
            alts = []
            total = True
            for q, f in finals:
                vals = []
                for s in f[1][1:]:
                    if s[0] != '1':
                        total = False
                    vals.append(s[1] if s[0] == '1' else T('seg', s))
                alts.append((frozenset((t, d) for t, d in q['guard'].items()), tuple(vals)))
            end = bound if bound is not None else T('cnt', dom_term)
            flag = total and len({len(v) for _, v in alts}) == 1
            if total and not flag and all(v for _, v in alts):
                flag = None     # something is appended on every iteration, but not always the same number of elements
            seg = ('g', kap, end, frozenset(alts), flag)
            return ('S', e0[1] + (seg,), e0[2])
        if not isS(h) and not isM(h) and not isR(h):
            consts = {f for _, f in finals if f != h}
            if len(consts) == 1 and not contains(next(iter(consts)), h) and isconst(next(iter(consts))):
                c = next(iter(consts))
                gs = [q['guard'] for q, f in finals if f == c]
                if not any(contains(frozenset(g), h) for g in gs):
                    if c == e0:
                        return e0
                    ex = [self.ex_term(dom_term, kap, g) for g in gs]
                    cond = ex[0] if len(ex) == 1 else T('?anyex', frozenset(ex))
                    self.tdom.setdefault(cond, frozenset((False, True)))
                    if isinstance(c, bool) and isinstance(e0, bool):
                        return cond if c else T('!', cond)
                    # partition on whether it happened
                    return c if self.decide(cond) else e0
            # accumulation x = op(x, t)
            ops = set()
            items = []
            for q, f in finals:
                if f == h:
                    continue
                r = self.as_accum(f, h)
                if r is None:
                    ops.add(None)
                    break
                ops.add(r[0])
                items.append((frozenset((t, d) for t, d in q['guard'].items()), r[1]))
            if len(ops) == 1 and None not in ops:
                op = next(iter(ops))
                t = T('fold', op, e0, dom_term, subst(frozenset(items), {kap: T('k')}))
                if self.fulldom(h):
                    self.tdom.setdefault(t, self.fulldom(h))
                return t
        r = T('post', lid, loc[0] + ''.join('.' + x[1] for x in loc[1]), node.get('l', 0))
        if isS(e0):
            if all(s[0] == '1' for s in e0[1]) and all(isS(f) and self.seq_len(f) == len(e0[1]) for _, f in finals) and len(e0[1]):
                return ('S', tuple(('1', T('at', r, i)) for i in range(len(e0[1]))), ())
            return Ssym(r)
        if isM(e0):
            return ('M', r, ())
        if isI(e0):
            return ('I', e0[1], r)
        if isR(e0):
            return ('R', r, e0[2], ())
        if self.fulldom(h):
            self.tdom.setdefault(r, self.fulldom(h))
        if h in self.nonneg:
            self.nonneg.add(r)
        return r

    def as_accum(self, f, h):
        if isT(f) and f[1] in ('bop', 'op') and f[2] in ('|', '*', '&'):
            if f[3] == h and not contains(f[4], h):
                return f[2], f[4]
            if f[4] == h and not contains(f[3], h):
                return f[2], f[3]
            for a, b in ((3, 4), (4, 3)):
                r = self.as_accum(f[a], h) if isT(f[a]) and f[a][1] == f[1] and f[a][2] == f[2] else None
                if r and not contains(f[b], h):
                    return f[2], T('bop', f[2], *sorted((r[1], f[b]), key=okey))
        if isT(f) and f[1] == 'lin':
            d, c = lin(f)
            if d.get(h) == 1:
                rest = mklin({k: v for k, v in d.items() if k != h}, c)
                if not contains(rest, h):
                    return '+', rest
        if isT(f) and f[1] == 'app' and len(f) > 3 and f[3] == h:
            return f[2], f[4:]
        return None
