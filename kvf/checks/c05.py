"""The .kigumi writer and reader are inverse to each other."""
from spec import *

EXPLANATION = (
    'For every type with a writer and a reader, both are abstractly interpreted over an ideal stream, which yields the sequence of '
    'typed items (with repetitions and alternatives) that the writer emits and that the reader consumes. The two sequences must '
    'agree item by item, and the object that the reader builds, with every item replaced by the expression the writer emitted '
    'for it, must be the object that was written; the reader must refuse nothing that the writer can produce.')
ASSUMPTIONS = [
    'Integer export and import of Boost.Multiprecision and GMP are inverse to each other for equal chunk size and order.',
    'A coordinate whose approximation is a single point equals that point; the exact coordinates equal the coordinates.',
    'A region that is written satisfies the invariants of its class (valid vertex indices; a boundary exactly if it is bounded).']

W, R_ = 'kigumi::Write::operator()', 'kigumi::Read::operator()'


def tyname(p, f):
    f = p.fns.get(f['id'], f)
    t = p.deref(f['params'][1]['t'] if 'params' in f else f['pt'][1])[1]
    n = (t.get('base') or t.get('s') or '').replace('const ', '')
    ta = [x.get('v') if 't' not in x else p.tname(x['t']) for x in t.get('ta', [])]
    if n == 'kigumi::Index' and ta:
        n += '<' + str(ta[0]) + '>'
    return n


def pairs(ctx):
    p = ctx.prog()
    rd = {tyname(p, f): f for f in p.find(R_) if f.get('body') is not None}
    wr = {tyname(p, f): f for f in p.find(W) if f.get('body') is not None}
    return wr, rd


def numbers():
    """Export and import of integers as inverse constructors."""
    def arg(ai, a, i, d):
        return ai.rval(a[i]) if len(a) > i else d

    def part(k):
        def h(ai, fn, this, args, node):
            v = ai.norm(ai.rval(args[0] if args else this))
            return T(k, v)
        return h

    def export_bits(ai, fn, this, a, node):
        x, it = ai.rval(a[0]), ai.rval(a[1])
        if not (isR(it) and it[2] == 'out_it'):
            return NotImplemented
        lv = dict(it[3])['to']
        e = T('export', x, arg(ai, a, 2, 0) or 8, 1 if arg(ai, a, 3, True) in (True, 1) else 0)
        cur = ai.as_seq(ai.read(lv))
        ai.write(lv, ('S', cur[1] + (('s', e),), cur[2]))
        return it

    def import_bits(ai, fn, this, a, node):
        b, e = ai.rval(a[1]), ai.rval(a[2])
        seq = ai.read(b[1])
        if not (isI(b) and isI(e) and b[1] == e[1] and b[2] == 0 and e[2] == ai.seq_len(seq)):
            return NotImplemented
        ai.write(a[0], T('import', ai.norm_seq(seq), arg(ai, a, 3, 0) or 8, 1 if arg(ai, a, 4, True) in (True, 1) else 0))
        return ai.rval(a[0])

    def get_mpz(ai, fn, this, args, node):
        if isLV(this):
            return ('P', this[1], this[2])
        return ai.norm(ai.rval(this))

    def mpz_val(ai, z):
        return ai.norm(ai.read(('&', z[1], z[2]))) if isP(z) else z

    def mpz_sizeinbase(ai, fn, this, a, node):
        return T('sizeinbase', mpz_val(ai, ai.rval(a[0])), ai.rval(a[1]))

    def mpz_export(ai, fn, this, a, node):
        buf, cnt = ai.rval(a[0]), ai.rval(a[1])
        order, size, endian, nails = [ai.rval(x) for x in a[2:6]]
        if not (isI(buf) and buf[2] == 0 and isP(cnt)):
            return NotImplemented
        if nails != 0 or (size != 1 and endian == 0):
            return NotImplemented
        x = mpz_val(ai, ai.rval(a[6]))
        e = T('export', x, mulc(size, 8), 1 if order == 1 else 0)
        cap = ai.seq_len(ai.read(buf[1]))
        ai.st.ev.append(('mpz_export', x, cap, node.get('l', 0) if node else 0))
        t = T('expbuf', e, cap)
        ai.lenof[t] = cap
        ai.write(buf[1], Ssym(t))
        ai.write(('&', cnt[1], cnt[2]), T('len', e))
        return None

    def mpz_import(ai, fn, this, a, node):
        z, n, order, size, endian, nails, buf = [ai.rval(x) for x in a]
        if not (isP(z) and isI(buf) and buf[2] == 0 and nails == 0 and size == 1):
            return NotImplemented
        seq = ai.read(buf[1])
        c = ai.norm_seq(seq)
        if n != ai.seq_len(seq):
            c = T('prefix', c, n)
        ai.write(('&', z[1], z[2]), T('import', c, mulc(size, 8), 1 if order == 1 else 0))
        return None
    ic = {'boost::multiprecision::export_bits': export_bits, 'boost::multiprecision::import_bits': import_bits,
          '__gmpz_sizeinbase': mpz_sizeinbase, '__gmpz_export': mpz_export, '__gmpz_import': mpz_import,
          '__gmp_expr::get_mpz_t': get_mpz}
    for k, names in (('num', ('boost::multiprecision::numerator', '__gmp_expr::get_num')),
                     ('den', ('boost::multiprecision::denominator', '__gmp_expr::get_den'))):
        for n in names:
            ic[n] = part(k)
    return ic


INTS = ('int', 'short', 'unsigned char', 'signed char', 'unsigned short', 'unsigned int', 'char')


def wide(v):
    """A count or an index (std::size_t)."""
    return v[1] in ('len', 'cnt', 'lin') or (v[1] == '.' and v[3] == 'i_')


class Codec:
    def __init__(self, ctx, root, name):
        self.ctx, self.root, self.name = ctx, root, name
        self.narrowed = []
        ic = {W: self.item(True), R_: self.item(False)}
        ic['kigumi::Triangle_soup::has_valid_faces'] = lambda ai, fn, this, args, node: True
        ic.update(numbers())
        self.ai = ctx.ai(intercepts=ic)

    def item(self, writing):
        def h(ai, fn, this, args, node):
            if fn['id'] == self.root['id'] and len(ai.frames) == 0:
                return NotImplemented
            fn = ai.p.fns.get(fn['id'], fn)
            ty = tyname(ai.p, fn)
            if writing:
                v = ai.norm(ai.rval(args[1]))
                if ty == 'bool' and isT(v):
                    v = ai.truth(v)
                if ty in INTS and isT(v) and wide(v) and ai.st.dom.get(T('?in_range', ty, v)) != frozenset((True,)):
                    self.narrowed.append((ty, v, node.get('l') if node else 0))
                ai.record(ty, v)
                return None
            x = ai.next_item()
            ai.record(ty, x)
            t = ai.p.deref(fn['params'][1]['t'] if 'params' in fn else fn['pt'][1])[1]
            v = x
            if t.get('c') == 'rec' and t.get('repo'):
                v = ('R', x, base(t['base']), ())
            if t.get('c') == 'bool':
                ai.tdom.setdefault(x, frozenset((False, True)))
            ai.write(args[1], v)
            return None
        return h

    def run(self):
        ai, f = self.ai, self.root
        box = {}

        def go():
            ai.tape = ('&', ai.newcell('tape', ('S', (), ())), ())
            prm = f['params'][1]
            t = ai.p.deref(prm['t'])[1]
            v = ai.symval(prm['t'], self.name)
            if t.get('c') == 'rec' and t.get('repo'):
                v = ('R', T('atom', self.name), base(t['base']), ())
            args = sym_args(ai, f, **{prm['n']: ('&', ai.newcell(self.name, v), ())})
            box['t'] = args[1]
            ai.call_fn(f, sym_this(ai, f), args)
            return None
        outs = ai.explore(go)
        for o in outs:
            o.tape = ai.as_seq(o.st.store.get(ai.tape[1]))
            o.final = ai.read_in(o.st, (box['t'][1], ()))
        self.ctx.analysed |= {self.ctx.where(ai.p.fns[i]) for i in ai.called if i in ai.p.fns}
        return outs


# ---------------------------------------------------------------- truth of conditions after substitution
def simp(v, ai):
    """Rebuilds a term, so that what became constant is folded."""
    if isT(v):
        op = v[1]
        a = tuple(simp(x, ai) if isinstance(x, tuple) else x for x in v[2:])
        if op == 'lin':
            d, c = lin(v)
            r = c
            for k, m in d.items():
                r = add(r, mulc(simp(k, ai), m))
            return r
        if op == '.' and isR(a[0]):
            return fget(a[0], a[1])
        if op == '==0' and isnum(a[0]):
            return a[0] == 0
        if op == '>0' and isnum(a[0]):
            return a[0] > 0
        if op in ('?in', '==') and all(isconst(x) for x in a):
            return a[0] == a[1]
        if op == '!' and isinstance(a[0], bool):
            return not a[0]
        if op == 'len' and isT(a[0]) and a[0][1] == 'export':
            return T('len', a[0])
        return T(op, *a)
    if isR(v):
        return Rf(v[2], [(n, simp(x, ai)) for n, x in v[3]], simp(v[1], ai) if v[1] is not None else None)
    if isinstance(v, tuple):
        return tuple(simp(x, ai) if isinstance(x, tuple) else x for x in v)
    return v


ARITH = ('lin', '==0', '>0', 'len', 'atom', '.', '?in', 'kap', 'at', 'cnt', 'dom')


def arith_only(t):
    if isT(t):
        return t[1] in ARITH and all(arith_only(x) for x in t[2:] if isinstance(x, tuple))
    return not isinstance(t, frozenset)


class Mismatch(Exception):
    pass


class Open(Exception):
    """Not decidable by the analysis."""


def too_small(cap, e):
    """mpz_export writes as many bytes as the number has: is there a number for which the buffer is too small?"""
    x, bits = e[2], e[3]
    if bits != 8:
        return None
    other = [t for t in subterms(cap) if t[1] == 'sizeinbase' and t[2] != x]
    if other:
        return f'the buffer for {show(x)} has the size of {show(other[0][2])}'
    for n in list(range(1, 130)) + [256, 257, 1000, 1024, 1025]:
        c = size_for(cap, x, n)
        if c is None:
            return None
        if c < (n + 7) // 8:
            return f'the buffer has {c} bytes for a number with {n} bits'
    return None


def size_for(t, x, n):
    """The least value of a size if the number x has n bits."""
    if isinstance(t, int):
        return t
    if not isT(t):
        return None
    if t[1] == 'sizeinbase' and t[2] == x and isinstance(t[3], int) and t[3] >= 2:
        b, k, m = t[3], 0, 1 << (n - 1)
        while m:
            m //= b
            k += 1
        return k
    if t[1] == 'lin':
        d, c = lin(t)
        vs = [(size_for(k, x, n), m) for k, m in d.items()]
        if any(v is None or m < 0 for v, m in vs):
            return None
        r = sum(v * m for v, m in vs) + c
        return r & ((1 << 64) - 1)
    if t[1] == 'op' and t[2] in ('/', '*'):
        a, b = size_for(t[3], x, n), size_for(t[4], x, n)
        if a is None or b is None or t[2] == '/' and b == 0:
            return None
        return a // b if t[2] == '/' else a * b
    return None


class Compose:
    """Feeds what the writer emits to the reader."""
    def __init__(self, ai, facts):
        self.ai, self.facts = ai, dict(facts)
        self.lens = {}           # lengths that the invariants of the written object imply
        self.tables = []         # (reader group, writer index, [(writer guard, reader guard, substitution)])

    # -- truth of a literal
    def lit(self, t, allowed):
        if t in self.facts:
            return self.facts[t] in allowed
        t = simp(subst(t, self.consts()), self.ai)
        if isinstance(t, bool) or isconst(t):
            return t in allowed
        if t in self.facts:
            return self.facts[t] in allowed
        if isT(t) and t[1] == '?in_range':
            return True in allowed      # the writer has checked the narrow range; counts are not negative
        if isT(t) and t[1] == 'app' and t[2] in ('std::isfinite', 'isfinite') and self.coordinate(t[3]) is not None:
            return True in allowed
        if isT(t) and t[1] == '?in' and t[2] in self.facts:
            return (self.facts[t[2]] == t[3]) in allowed
        if isT(t) and t[1] == '==0' and isT(t[2]):
            x = t[2]
            if x[1] == 'len' and isT(x[2]) and x[2][1] == 'export' and isT(x[2][2]) and x[2][2][1] == 'den':
                return False in allowed
            m = self.mag(x)
            if m is not None and isT(m) and m[1] == 'den':
                return False in allowed
            if x[1] == 'new':
                return True in allowed
        return None

    def consts(self):
        return {k: v for k, v in self.facts.items() if isT(k) and k[1] in ('atom', '.') and isnum(v)}

    @staticmethod
    def coordinate(t):
        """(kind, axis, point) of an expression for one coordinate of a point."""
        while isT(t) and t[1] == 'ctor' and len(t) == 4 and 'Lazy_exact_nt' in t[2]:
            t = t[3]
        if not (isT(t) and t[1] == 'app'):
            return None
        name, x = t[2], t[3]
        bound = None
        if name in ('CGAL::Interval_nt::inf', 'CGAL::Interval_nt::sup'):
            bound, t = name, x
            if not (isT(t) and t[1] == 'app'):
                return None
            name, x = t[2], t[3]
        ax = name.rsplit('::', 1)[-1]
        if ax not in ('x', 'y', 'z') or 'Point_3' not in name:
            return None
        if isT(x) and x[1] == 'app' and x[2].endswith('Lazy::approx') and bound:
            return 'approx', ax, x[3], T('app', 'CGAL::Interval_nt::is_point', t)
        if isT(x) and x[1] == 'app' and x[2].endswith('Lazy::exact') and not bound:
            return 'exact', ax, x[3], None
        if not bound and isT(x):
            return 'exact', ax, x, None
        return None

    def mag(self, t):
        """x for import(export(x))."""
        if isT(t) and t[1] == 'import' and isT(t[2]) and t[2][1] == 'export' and t[2][3:] == t[3:]:
            return t[2][2]
        return None

    def guard(self, guard, sub, skip=()):
        """False: contradictory; True: holds; otherwise the list of the literals that are open."""
        unknown = []
        for t, d in (guard.items() if isinstance(guard, dict) else guard):
            if isT(t) and t[1] == 'ex' or t in skip:
                continue
            t2 = subst(t, sub)
            r = self.lit(t2, d)
            if r is False:
                return False
            if r is None:
                unknown.append((simp(t2, self.ai), d))
        return unknown or True

    # -- item sequences
    def items(self, ws, rs, sub, where, prefix=False):
        ws = [s for s in ws if self.ai.seglen(s) != 0]
        rs = [s for s in rs if self.ai.seglen(s) != 0]
        for i, (a, b) in enumerate(zip(ws, rs)):
            self.seg(a, b, sub, f'{where}item {i + 1}')
        if len(ws) < len(rs) or (len(ws) > len(rs) and not prefix):
            raise Mismatch(f'{where}{len(ws)} items are written, {len(rs)} are read')

    def seg(self, a, b, sub, where):
        if a[0] == '1' and b[0] == '1':
            fa, fb = dict(a[1][3]), dict(b[1][3])
            if fa['0'] != fb['0']:
                raise Mismatch(f"{where}: written as {fa['0']}, read as {fb['0']}")
            v = fa['1']
            if fa['0'] == 'bytes':
                na, nb = fa['2'], simp(subst(fb['2'], sub), self.ai)
                if isT(v) and v[1] == 'expbuf':
                    b = too_small(v[3], v[2])
                    if b:
                        raise Mismatch(f'{where}: {b}')
                    v = v[2] if na == T('len', v[2]) else T('prefix', v, na)
                elif isT(v) and v[1] != 'bytesof' and self.ai.seglen(('s', v)) != na:
                    v = T('prefix', v, na)
                if na != nb:
                    raise Mismatch(f"{where}: {show(na)} bytes are written, {show(nb)} are read")
            sub[fb['1']] = v
            return
        if a[0] == 'g' and b[0] == 'g':
            nb = simp(subst(b[2], sub), self.ai)
            if nb != a[2]:
                raise Mismatch(f'{where}: written {show(a[2])} times, read {show(nb)} times')
            table = []
            for gw, vw in sorted(a[3], key=okey):
                inner = Compose(self.ai, dict(self.facts, **{}))
                inner.facts.update({t: next(iter(d)) for t, d in gw if len(d) == 1})
                hit, last = False, None
                for gr, vr in sorted(b[3], key=okey):
                    s2 = dict(sub)
                    s2[b[1]] = a[1]
                    m = {b[1]: a[1]}
                    rs = [subst(unwrap(x), m) for x in vr]
                    g2 = [(subst(t, m), d) for t, d in gr]
                    try:
                        inner.items([unwrap(x) for x in vw], rs, s2, where + ', ')
                    except Mismatch as e:
                        if inner.guard(g2, s2, self.bounds(b, a[1])) is not False:
                            last = e
                        continue
                    g = inner.guard(g2, s2, self.bounds(b, a[1]))
                    if g is False:
                        continue
                    hit = True
                    table.append((inner, gr, s2))
                    self.tables += inner.tables
                    inner.tables = []
                if last:
                    raise last
                if not hit:
                    raise Mismatch(f'{where}: nothing reads what is written if {show(gw)[:200]}')
            self.tables.append((b, a[1], table))
            return
        if a[0] in '1g' and b[0] in '1g':
            raise Mismatch(f"{where}: {'a repetition' if a[0] == 'g' else 'one item'} is written, {'a repetition' if b[0] == 'g' else 'one item'} is read")
        raise Open(f'{where}: {show(a)[:100]} / {show(b)[:100]}')

    @staticmethod
    def bounds(b, k):
        t = add(k, mulc(b[2], -1))
        t0 = add(b[1], mulc(b[2], -1))
        return {T('>0', add(t, 1)), T('>0', mulc(t, -1)), T('>0', add(t0, 1)), T('>0', mulc(t0, -1))}

    # -- universal facts of the reader (it has not refused anything inside a loop)
    def universal(self, ex):
        dom, lits = ex[2], ex[3]
        hits = 0
        for b, k, table in self.tables:
            if dom != T('dom', b[2]):
                continue
            for inner, gr, s2 in table:
                g = inner.guard([(subst(t, {T('k'): k}), d) for t, d in lits], s2)
                if any(isT(x) and x[1] == 'rd' and x not in s2 for t, d in lits for x in subterms(subst(t, {T('k'): k}))):
                    if g is not False:
                        continue
                hits += 1
                if g is False:
                    continue
                if g is True or all(arith_only(t) for t, d in g):
                    raise Mismatch(f'the reader gives up inside a loop if {show(frozenset(subst(t, s2) for t, d in lits))[:300]}')
                raise Open(f'the reader gives up inside a loop if {show(frozenset(lits))[:300]}')

    # -- the object that is read
    def same(self, got, exp, sub, what):
        """got (from the reader, substituted) must be exp."""
        got = simp(subst(got, sub), self.ai)
        got = self.canon(self.ai.norm(got))
        if got == exp or got == self.facts.get(exp, T('?')):
            return
        if isS(got) and isT(exp):
            n = self.ai.seq_len(got)
            if isnum(n) and all(s[0] == '1' for s in got[1]) and not got[2]:
                for i in range(n):
                    self.same(got[1][i][1], T('at', exp, i), {}, f'{what}[{i}]')
                return
            return self.sequence(got, exp, what)
        if isT(got) and got[1] == 'ctor' and 'Point_3' in got[2] and len(got) == 6:
            for i in range(3):
                c = self.coordinate(got[3 + i])
                if c is None:
                    raise Open(f'coordinate {i} of {what}: {show(got[3 + i])[:200]}')
                kind, ax, pt, isp = c
                if pt != exp or ax != 'xyz'[i]:
                    raise Mismatch(f"coordinate {'xyz'[i]} of {what} is read as {ax} of {show(pt)[:120]}")
                if kind == 'approx' and self.facts.get(isp) is not True:
                    raise Mismatch(f"coordinate {'xyz'[i]} of {what} is rounded when it is written")
            return
        q = self.rational(got)
        if q is not None:
            neg, num, den = q
            if num != T('num', exp) or den != T('den', exp):
                if num == 0 and self.facts.get(T('==0', T('len', T('export', T('num', exp), 8, 1)))) is True and den == T('den', exp):
                    return
                raise Mismatch(f'{what} is read as {show(num)[:150]} / {show(den)[:150]}')
            if self.facts.get(T('?less', exp, 0)) is not neg:
                raise Mismatch(f'the sign of {what} is lost')
            return
        if any(isT(x) and x[1] in ('atom', '.', 'at', 'num', 'den', 'export', 'rd', 'prefix', 'htole', 'letoh', 'uninit', 'new') for x in subterms(got)) or isconst(got):
            raise Mismatch(f'{what} is read back as {show(got)[:300]} instead of {show(exp)[:200]}')
        raise Open(f'{what}: {show(got)[:300]}')

    def rational(self, t):
        neg = False
        while isT(t) and t[1] in ('app',) and t[2] == '-' and len(t) == 4:
            neg, t = not neg, t[3]
        if isT(t) and t[1] == 'app' and t[2] == '/' and len(t) == 5:
            n, d = t[3], t[4]
            n, d = [x[3] if isT(x) and x[1] == 'ctor' and len(x) == 4 else x for x in (n, d)]
        elif isT(t) and t[1] == 'ctor' and len(t) >= 5 and ('multiprecision' in t[2] or '__gmp_expr' in t[2]):
            n, d = t[3], t[4]
        else:
            return None
        return neg, self.integer(n), self.integer(d)

    def integer(self, x):
        m = self.mag(x)
        if m is not None:
            return m
        return 0 if isT(x) and x[1] == 'new' else x

    def canon(self, v):
        if isT(v):
            a = tuple(self.canon(x) if isinstance(x, tuple) else x for x in v[2:])
            if v[1] == 'letoh' and isT(a[0]) and a[0][1] == 'bytesof' and isT(a[0][2]) and a[0][2][1] == 'htole':
                return a[0][2][2]
            if v[1] == 'bytesof' and not (isT(a[0]) and a[0][1] == 'htole'):
                return a[0]
            return T(v[1], *a)
        if isR(v):
            return self.ai.norm(Rf(v[2], [(n, self.canon(x)) for n, x in v[3]], self.canon(v[1]) if v[1] is not None else None))
        if isinstance(v, tuple):
            return tuple(self.canon(x) if isinstance(x, tuple) else x for x in v)
        return v

    def sequence(self, got, exp, what):
        segs = [s for s in got[1] if self.ai.seglen(s) != 0]
        n = self.ai.seq_len(got)
        if len(segs) != 1 or segs[0][0] != 'g' or got[2]:
            raise Open(f'{what}: {show(got)[:200]}')
        g = segs[0]
        done = False
        for b, k, table in self.tables:
            if g[1] != b[1] and g[1] != k:
                continue
            for inner, gr, s2 in table:
                for gg, vals in g[3]:
                    if not self.same_guard(gg, gr, s2, k, g[1]):
                        continue
                    if len(vals) != 1:
                        raise Mismatch(f'{what}: {len(vals)} elements per element written')
                    done = True
                    inner.same(subst(vals[0], {g[1]: k}), T('at', exp, k), s2, f'element of {what}')
        if not done:
            raise Open(f'{what}: {show(got)[:200]}')
        ln = T('len', exp)
        if n not in (ln, self.lens.get(exp)):
            raise Mismatch(f'{show(n)[:100]} elements of {what} are read')

    def same_guard(self, gg, gr, s2, k, kap):
        f = lambda g: frozenset((simp(subst(subst(t, {kap: k}), s2), self.ai), d) for t, d in g)
        return f(gg) == f(gr)


def subterms(v):
    st = [v]
    while st:
        x = st.pop()
        if isT(x):
            yield x
        if isinstance(x, (tuple, frozenset)):
            st.extend(x)


def unwrap(x):
    return x[2] if isT(x) and x[1] == 'seg' else ('1', x)


def run(ctx):
    wr, rd = pairs(ctx)
    names = {}
    for name, f in list(wr.items()) + list(rd.items()):
        fl = ctx.where(f)
        if 'driver/' not in fl:
            names[name] = f
    for name in sorted(names):
        rule = 'round trip of ' + name.replace('kigumi::', '')
        if name not in wr or name not in rd:
            continue
        ctx.guarded(rule, wr[name], lambda: one(ctx, rule, name, wr[name], rd[name]))


def one(ctx, rule, name, w, r):
    cw, cr = Codec(ctx, w, 'obj'), Codec(ctx, r, 'old')
    ow, orr = cw.run(), cr.run()
    ai = cr.ai
    wh = ctx.where(r)
    if cw.narrowed:
        ty, v, l = cw.narrowed[0]
        ctx.viol(rule, ctx.where(w), f'{show(v)} is written as {ty} without a check that it fits')
        return
    obj = T('atom', 'obj')
    cases = [{}]
    if name == 'kigumi::Region':
        K, B = region_fields(ctx)
        kinds = enum_vals(ai.p, 'kigumi::Region_kind')
        P, F, D = soup_fields(ctx)
        nf = T('==0', T('len', T('.', T('.', obj, B), F)))
        cases = [{T('.', obj, K): v, nf: n != 'BOUNDARY_DEFINED'} for n, v in sorted(kinds.items())]
    else:
        t = ai.p.deref(w['params'][1]['t'])[1]
        if t.get('c') == 'enum':
            cases = [{obj: v} for v in sorted(dict(t['vals']).values())]
        elif t.get('c') == 'bool':
            cases = [{obj: False}, {obj: True}]
    for facts in cases:
        for a in ow:
            base_ = Compose(ai, facts)
            if base_.guard(a.cond, {}) is False:
                continue
            if a.kind != 'norm':
                if not any(isT(t) and t[1] == '?in_range' and d == frozenset((False,)) for t, d in a.cond.items()):
                    ctx.viol(rule, ctx.where(w), f'the writer gives up ({show(a.val)[:100]}) if {a.show_cond()[:300]}')
                    return
                continue
            free = [t for t in {x for s in a.tape[1] for x in subterms(s)} if isT(t) and t[1] == '?less' or
                    isT(t) and t[1] == 'export' and isT(t[2]) and t[2][1] == 'num']
            free = sorted({t if t[1] == '?less' else T('==0', T('len', t)) for t in free}, key=okey)
            for sel in __import__('itertools').product((False, True), repeat=len(free)):
                fs = dict(facts, **{})
                fs.update({t: next(iter(d)) for t, d in a.cond.items() if len(d) == 1})
                fs.update(zip(free, sel))
                try:
                    pair(ctx, ai, name, a, orr, fs, rule)
                except Mismatch as e:
                    ctx.viol(rule, wh, str(e))
                    return
                except Open as e:
                    ctx.und(rule, wh, str(e))
                    return
                ctx.count('compositions of a writer and a reader')
    ctx.ok(rule, wh)


def pair(ctx, ai, name, a, orr, facts, rule):
    obj = T('atom', 'obj')
    done = False
    first = None
    for o in orr:
        c = Compose(ai, facts)
        sub = {}
        if any(isT(s) and s[0] == 's' or s[0] == 's' for s in o.tape[1]):
            continue     # given up inside a loop: covered by the universal facts of the completed paths
        try:
            c.items(a.tape[1], o.tape[1], sub, '', prefix=o.kind != 'norm')
        except Mismatch as e:
            if c.guard([(t, d) for t, d in o.cond.items()], sub) is not False and o.kind == 'norm':
                first = first or e
            continue
        g = c.guard(o.cond, sub)
        if g is False:
            continue
        if o.kind != 'norm':
            if g is True or all(arith_only(t) for t, d in g):
                raise Mismatch(f'the reader refuses what the writer wrote ({show(o.val)[:60]}) if {show(simp(subst(frozenset(o.cond.items()), sub), ai))[:300]}')
            raise Open(f'the reader gives up ({show(o.val)[:60]}) if {show(frozenset(t for t, d in g))[:300]}')
        for t, d in o.cond.items():
            if isT(t) and t[1] == 'ex' and d == frozenset((False,)):
                c.universal(t)
        final = o.final
        if name == 'kigumi::Triangle_soup':
            P, F, D = soup_fields(ctx)
            c.lens[T('.', obj, D)] = T('len', T('.', obj, F))
            for fld in soup_fields(ctx):
                c.same(fget(final, fld), T('.', obj, fld), sub, fld)
        elif isR(final):
            rec = ai.p.recs.get(name) if hasattr(ai.p, 'recs') else None
            flds = sorted({n for n, _ in final[3]} | set(region_fields(ctx) if name == 'kigumi::Region' else ()) |
                          ({'i_'} if name.startswith('kigumi::Index') else set()))
            for fld in flds:
                c.same(fget(final, fld), T('.', obj, fld), sub, fld)
        else:
            c.same(final, obj, sub, name.replace('kigumi::', ''))
        done = True
    if not done:
        raise first or Mismatch('no way through the reader fits to what is written')
