"""Malformed files are refused."""
from textmodel import *
from affine import Affine
from checks.c10 import property_name, iterators, faces, indices, coord_state, sign, Reader

EXPLANATION = (
    'For every reader, all partitions on which it reports success (or fills its target) are derived by abstract interpretation, and '
    'what is known on them is compared with what the format requires: every number that is used was extracted successfully, all '
    'corners refer to vertices (the validity test is verified on its own body), the declared numbers of vertices and faces are those '
    'that were read (affine relations between the counters of the reader and ghost counters, computed as a fixpoint over the '
    'partitions of the line loop, per value of its state variables), the header was present, the coordinates are finite, '
    'denominators are not zero, the kind of a region agrees with its boundary. The operators that extract single items are verified '
    'against the contracts by which they are replaced.')
ASSUMPTIONS = ['fast_float::from_chars parses the decimal number at the beginning of its range and returns the end of it',
               'istream::read either delivers all bytes or fails the stream']

TRUE, FALSE = frozenset((True,)), frozenset((False,))


def run(ctx):
    p = ctx.prog()
    for f in functions(ctx, READERS):
        fmt = f['n'].rsplit('_', 1)[-1]
        if fmt in ('obj', 'off', 'ply') and 'istream' in p.tname(f['params'][0]['t']):
            ctx.guarded('malformed files are refused', f, lambda: text(ctx, f, fmt))
    for n in ('kigumi::io::ascii::operator>>', 'kigumi::io::operator>>'):
        for f in p.find(n):
            if f.get('body') is not None:
                ctx.guarded('single items', f, lambda: item(ctx, f))
    for f in p.find('kigumi::Triangle_soup::has_valid_faces')[:1]:
        ctx.guarded('validity of faces', f, lambda: validity(ctx, f))
    for f in p.find('kigumi::Read::operator()'):
        if f.get('body') is None or 'driver/' in ctx.where(f):
            continue
        t = p.deref(f['params'][1]['t'])[1]
        b = base(t.get('base') or '')
        if b == 'kigumi::Triangle_soup':
            ctx.guarded('malformed meshes are refused', f, lambda: soup(ctx, f))
        elif b == 'kigumi::Region':
            ctx.guarded('contradictory regions are refused', f, lambda: region(ctx, f))
        elif b.endswith('Region_kind') or (t.get('s') or '').endswith('Region_kind') or t.get('c') == 'enum':
            ctx.guarded('unknown kinds are refused', f, lambda: kind(ctx, f, t))
        elif 'gmp_expr' in p.tname(f['params'][1]['t']) or 'rational' in p.tname(f['params'][1]['t']):
            ctx.guarded('truncated and undefined numbers are refused', f, lambda: rational(ctx, f))


# ---------------------------------------------------------------- validity of faces
def valid_call(ai, fn, this, args, node):
    t = T('valid', ai.fresh('valid'))
    ai.tdom[t] = frozenset((False, True))
    lv = this if isLV(this) else None
    ai.st.ev.append(('valid', lv, t, node.get('l', 0) if node else 0))
    return t


VALID = {'kigumi::Triangle_soup::has_valid_faces': valid_call}


def checked(o, dom, target):
    """Were the faces found valid after the last of them was added?"""
    last = None
    for i, e in enumerate(o.ev):
        if e[0] == 'valid' and e[1] is not None and dom.get(e[2]) == TRUE:
            last = (i, e[1])
        elif e[0] == 'w' and last is not None and e[1] == last[1][1] and e[2][:1] in ((('f', 'faces_'),), (('f', 'points_'),)) and not moved(e[3]):
            last = None
        elif e[0] == 'loop' and last is not None and any(c == last[1][1] and pa[:1] == (('f', 'faces_'),) for c, pa in e[5]):
            last = None
    if last is not None:
        return None
    if any(isT(t) and t[1] == 'ex' and 'faces_' in repr(t) and 'points_' in repr(t) for t in dom):
        return ''
    return 'the corners are not known to refer to vertices'


def moved(v):
    return isT(v) and v[1] in ('moved', 'app', 'atom') or isinstance(v, tuple) and v and v[0] == 'S' and not v[1]


def validity(ctx, f):
    ai = ctx.ai()
    outs = ai.explore(lambda: ai.call_fn(f, sym_this(ai, f), []))
    w = ctx.where(f)
    fc, nv = T('.', T('atom', 'this'), 'faces_'), T('len', T('.', T('atom', 'this'), 'points_'))
    bad = None
    n = 0
    for o in outs:
        if o.kind != 'norm' or o.val is False:
            continue
        if o.val is not True:
            ctx.und('validity of faces', w, f'result {show(o.val)[:200]}')
            return
        n += 1
        known = set()
        for e in o.ev:
            if e[0] == 'loop' and e[3] == T('len', fc):
                qs = [q for q in e[4] if q['kind'] == 'norm']
                for j in range(3):
                    if qs and all(below_nv(ai, q['st'], T('.', T('at', T('at', fc, e[2]), j), 'i_'), nv) for q in qs):
                        known.add(j)
        if known != {0, 1, 2} and not (o.st.dom.get(T('==0', T('len', fc))) == TRUE):
            bad = f'a mesh is accepted although the corners {sorted({0, 1, 2} - known)} of its faces may not refer to vertices'
    if not n:
        return ctx.und('validity of faces', w, 'never returns true')
    ctx.check(not bad, 'validity of faces', w, bad or '')


def below_nv(ai, st, i, nv):
    ai.st = st
    return ai.implied(add(nv, mulc(i, -1)))


# ---------------------------------------------------------------- text formats
def text(ctx, f, fmt):
    ai, outs, box = explore(ctx, f, extra=VALID)
    r = Reader.__new__(Reader)
    r.ctx, r.f, r.fmt, r.ai, r.box = ctx, f, fmt, ai, box
    r.outs = [o for o in outs if o.kind == 'norm' and o.val is not False and not (isT(o.val) and o.st.dom.get(o.val) == FALSE)]
    r.steps = [(o, s) for o in r.outs for s in steps(o)]
    w = ctx.where(f)
    if not r.outs:
        return ctx.und('malformed files are refused', w, 'no partition on which the reader succeeds')
    bad = None
    for o in r.outs:
        b = checked(o, o.st.dom, None)
        if b == '':
            ctx.und('corners refer to vertices', w, 'validity is tested in a form that is not understood')
            break
        bad = bad or b
    else:
        ctx.check(not bad, 'corners refer to vertices', w, bad or f'{len(r.outs)} partitions')
    bad = None
    n = 0
    for o, s in r.steps:
        for i, e, x in points(s):
            n += 1
            bad = bad or numbers_ok(ai, s, x, 'a coordinate')
        for i, e, x in indices(s):
            n += 1
            bad = bad or numbers_ok(ai, s, x, 'an index')
            if fmt == 'obj' and not bad:
                for t in ins(x):
                    if not any(sign(ai, s, t)) and s.facts().get(T('==0', t)) != FALSE:
                        bad = 'the index zero is accepted'
        if fmt == 'obj' and s.loop is not None and not bad:
            for e in s.ev:
                if e[0] == 'in' and isT(e[2]) and len(e[2]) > 3 and not any(sign(ai, s, e[2])) and s.facts().get(T('==0', e[2])) != FALSE:
                    bad = 'the index zero is accepted'
        if s.loop is not None:
            for e in s.ev:
                if e[0] == 'w' and any(c == e[1] for c, pa in s.line().loop[5]):
                    v = appended(e[3])
                    for fld in counts_in(v if v is not None else e[3]):
                        n += 1
                        bad = bad or numbers_ok(ai, s, fld, 'a count', exact=True)
    ctx.check(not bad, 'numbers that are used have been read', w, bad or f'{n} uses')
    if fmt == 'obj':
        bad = None
        for o in r.outs:
            if not any(isT(t) and t[1] == 'bad' and d == FALSE for t, d in o.st.dom.items()):
                bad = 'a read error ends the file as if it were complete'
        ctx.check(not bad, 'read errors are reported', w, bad or '')
    if fmt == 'off':
        ctx.guarded('the header and the counts agree with the contents', f, lambda: off(r, w))
    if fmt == 'ply':
        ctx.guarded('the header is well formed', f, lambda: ply_header(r, w))
        ctx.guarded('the body agrees with the header', f, lambda: ply_body(r, w))


def counts_in(v):
    """Numbers that were read and are stored for later."""
    out = []
    if isT(v) and v[1] == 'in':
        out.append(v)
    elif isR(v):
        for n, x in v[3]:
            if isT(x) and x[1] == 'in' and n == 'count':
                out.append(x)
    return out


def numbers_ok(ai, s, v, what, exact=False):
    facts = s.facts()
    for x in subterms(v):
        if x[1] == 'in':
            op = ai.state_op.get(x[2])
            if op is None:
                continue
            if exact and not numeric(ai, s, x):
                continue
            if not ok_after(s, op[0], x[2]):
                return f'{what} is used although its extraction may have failed (line {s.q["line"] if s.q else "?"}: {show(x)[:100]})'
        elif x[1] == 'post' and len(x) > 4:
            if not any(isT(t) and t[1] == 'ok' and isT(t[2]) and t[2][1] == 'post' and t[2][4] == x[4] and d == TRUE for t, d in facts.items()):
                return f'{what} is used although its extraction in the loop at line {x[4]} may have failed'
    return None


def numeric(ai, s, x):
    if len(x) > 3:
        return True
    for t in s.chain():
        for e in t.ev:
            if e[0] == 'in' and e[2] == x:
                return any(isT(k) and k[1] in ('==0', '>0') and x in lin(k[2])[0] for k in list(s.facts())) or x in ai.nonneg
    return False


# ---- counters
class Machine:
    """Fixpoint over the partitions of a line loop: values of its finite variables x affine relations of its counters and ghosts."""
    def __init__(self, r, o, e, ghosts, flags, effect):
        self.r, self.o, self.e, self.ai = r, o, e, r.ai
        self.lid = e[2][2]
        self.fin, self.num = {}, {}
        for loc, (e0, h) in e[6].items():
            if loc[1] or not (isT(h) and h[1] == 'hv'):
                continue
            finals = [self.ai.read_in(q['st'], loc) for q in e[4] if q['kind'] in ('norm', 'break')]
            if isinstance(e0, (bool, int)) and all(v == h or isinstance(v, (bool, int)) for v in finals) and (isinstance(e0, bool) or self.ai.curdom(h) is not None or enumlike(r, h)):
                self.fin[loc] = (e0, h)
            elif isinstance(e0, int) or isT(e0):
                self.num[loc] = (e0, h)
        self.vars = [h for e0, h in self.num.values()] + list(ghosts)
        self.vatoms = set()
        for q in e[4]:
            s = Step(list(q['cev']) + list(q['ev']), q['st'].dom, q['st'], e, q)
            for i, ev, x in points(s):
                n = self.ai.seq_len(('S', ev[3][1][:-1], ev[3][2]))
                d, c = lin(n)
                if len(d) == 1:
                    self.vatoms |= set(d)
        self.flags = flags
        rows = []
        for e0, h in self.num.values():
            if isinstance(e0, int):
                rows.append({h: 1, 1: -e0})
        for g in ghosts:
            if g[0] in 'VF':
                rows.append({g: 1})
        start = (tuple(sorted((repr(loc), e0) for loc, (e0, h) in self.fin.items())), frozenset())
        self.at = {start: Affine(self.vars, rows)}
        self.left = {}      # after leaving the loop by break: (partition index, location) -> relations
        work = [start]
        effects = [effect(self, q) for q in e[4]]
        k = 0
        while work:
            k += 1
            if k > 3000:
                raise Unsupported('no fixpoint of the counters')
            loc = work.pop()
            for qi, q in enumerate(e[4]):
                if q['kind'] not in ('norm', 'break'):
                    continue
                x = self.step(loc, self.at[loc], q, effects[qi])
                if x is None:
                    continue
                nl, a = x
                if q['kind'] == 'break':
                    self.left.setdefault(qi, []).append((nl, a))
                    continue
                old = self.at.get(nl)
                new = a if old is None else old.join(a)
                if old is None or not old.same(new):
                    self.at[nl] = new
                    if nl not in work:
                        work.append(nl)

    def row(self, v):
        d, c = lin(v)
        r = {}
        for k, x in d.items():
            if k in self.vatoms:
                k = 'V'
            elif k not in self.vars and not (isT(k) and k[1] == 'in'):
                return None
            r[k] = r.get(k, 0) + x
        if c:
            r[1] = c
        return r

    def guards(self, loc, dom):
        vals = dict(loc[0])
        byname = {h: vals[repr(l)] for l, (e0, h) in self.fin.items()}
        rows, neq = [], []
        for t, d in dom.items():
            if t in byname:
                if not any(x == byname[t] for x in d):
                    return None
            elif isT(t) and t[1] == '?in' and t[2] in byname:
                m = byname[t[2]] in t[3:] or any(isinstance(x, (tuple, frozenset)) and byname[t[2]] in x for x in t[3:])
                if len(d) == 1 and m != bool(next(iter(d))):
                    return None
            elif isT(t) and t[1] in ('==0', '>0') and len(d) == 1:
                r = self.row(t[2])
                if r is None:
                    continue
                truth = bool(next(iter(d)))
                if t[1] == '==0':
                    (rows if truth else neq).append(r)
                elif not truth and all(x > 0 for k, x in r.items()) and 1 not in r:
                    rows += [{k: 1} for k in r]     # counters are not negative
        return rows, neq

    def step(self, loc, a, q, eff):
        if a.empty:
            return None
        g = self.guards(loc, q['st'].dom)
        if g is None:
            return None
        rows, neq = g
        extra = {k for r in rows + neq for k in r if k != 1 and k not in self.vars}
        up = {}
        for l, (e0, h) in self.num.items():
            v = self.ai.read_in(q['st'], l)
            if v != h:
                up[h] = self.row(v)
        up.update(eff.get('up', {}))
        extra |= {k for r in up.values() if r for k in r if k != 1 and k not in self.vars}
        b = Affine(self.vars + sorted(extra, key=repr), a.rows + rows)
        if b.empty or any(b.implies(r) for r in neq):
            return None
        b = b.assign({**up, **{x: None for x in extra}})
        b = Affine(self.vars, b.rows) if not b.empty else b
        vals = dict(loc[0])
        for l, (e0, h) in self.fin.items():
            v = self.ai.read_in(q['st'], l)
            if v != h:
                vals[repr(l)] = v
        return (tuple(sorted(vals.items())), loc[1] | eff.get('flags', frozenset())), b

    def exits(self, o):
        """Locations in which the loop may have been left on this completed partition."""
        dom = o.st.dom
        out = []
        broke = False
        for qi, q in enumerate(self.e[4]):
            if q['kind'] == 'break' and q['guard'] and all(dom.get(t) is not None and dom[t] <= d for t, d in q['guard'].items()):
                broke = True
                out += self.left.get(qi, [])
        post = {}
        for t, d in dom.items():
            if isT(t) and t[1] == 'post' and t[2] == self.lid and t[4] == self.e[1]:
                post[t[3]] = d
        for loc, a in self.at.items():
            ok = True
            for (l, v) in loc[0]:
                cell = next(c for c in self.fin if repr(c) == l)[0]
                if cell in post and not any(x == v for x in post[cell]):
                    ok = False
            if ok and broke and not post:
                # left by break: the head is not an exit if the variables are known there
                ok = False
            if ok:
                for t, d in dom.items():
                    if isT(t) and t[1] == '==0' and len(d) == 1:
                        dd, c = lin(t[2])
                        r = {1: c} if c else {}
                        for k, x in dd.items():
                            h = next((h for (cl, pa), (e0, h) in self.num.items() if isT(k) and k[1] == 'post' and k[3] == cl and k[4] == self.e[1]), None)
                            if h is None:
                                r = None
                                break
                            r[h] = x
                        if r is None:
                            continue
                        if next(iter(d)):
                            a = a.meet(r)
                        elif a.implies(r):
                            ok = False
            if ok and not a.empty:
                out.append((loc, a))
        return out


def enumlike(r, h):
    return h in r.ai.tdom


def off(r, w):
    rule = 'the header and the counts agree with the contents'
    ctx, ai = r.ctx, r.ai

    def effect(m, q):
        s = Step(list(q['cev']) + list(q['ev']), q['st'].dom, q['st'], m.e, q)
        up, flags = {}, set()
        pts = list(points(s))
        nested = [x for e in s.ev if e[0] == 'loop' for p in e[4] for x in [Step(list(p['cev']) + list(p['ev']), p['st'].dom, p['st'], e, p, s)]]
        if any(list(points(x)) for x in nested):
            raise Unsupported('vertices are added in an inner loop')
        reads = [e for e in s.ev if e[0] == 'in']
        inner = any(e[0] == 'in' for x in nested for e in x.ev)
        if pts:
            up['V'] = {'V': 1, 1: len(pts)}
        elif inner or any(list(faces(x)) for x in nested) or list(faces(s)):
            up['F'] = {'F': 1, 1: 1}
        elif len(reads) >= 2:
            flags.add('counts')
            up['Dv'], up['Df'] = {reads[0][2]: 1}, {reads[1][2]: 1}
        if any(e[0] == 'parse' and str(e[2]).endswith('Off_signature') for e in s.ev):
            flags.add('signature')
            used = q['kind'] in ('norm', 'break')
            sig = next(e[3] for e in s.ev if e[0] == 'parse' and str(e[2]).endswith('Off_signature'))
            if used and not any(isT(t) and t[1] == '.' and t[2] == sig and t[3] == 'binary' and d == FALSE for t, d in s.dom.items()):
                flags.add('!a binary file is read as text')
            if used and not ok_after(s, ai.state_op[sig[2]][0], sig[2]):
                flags.add('!the first line is not checked')
        elif not flags and not up:
            comment = [e for e in s.ev if e[0] == 'parse' and 'omment' in str(e[2])]
            rest = [e for e in s.ev if e[0] in ('in', 'parse') and e not in comment]
            if not rest and q['kind'] == 'norm' and any(s.dom.get(T('ok', st)) == FALSE for st in states(s)):
                flags.add('!a line is accepted without being read')
        return {'up': up, 'flags': frozenset(flags)}
    seen = False
    for o in r.outs:
        bad = []
        lines = [e for e in o.ev if e[0] == 'loop' and any(list(points(Step(list(q['cev']) + list(q['ev']), q['st'].dom, q['st'], e, q))) for q in e[4])]
        if len(lines) != 1:
            return ctx.und(rule, w, f'{len(lines)} loops over the lines')
        m = Machine(r, o, lines[0], ['V', 'F', 'Dv', 'Df'], (), effect)
        ex = m.exits(o)
        seen = seen or bool(ex)
        for loc, a in ex:
            bad += sorted(x[1:] for x in loc[1] if x[0] == '!')
            if 'signature' not in loc[1]:
                bad.append('a file without signature is accepted')
            if 'counts' not in loc[1]:
                bad.append('a file without numbers of vertices and faces is accepted')
                continue
            if not a.implies({'V': 1, 'Dv': -1}):
                bad.append('the number of vertices may differ from the number in the header')
            if not a.implies({'F': 1, 'Df': -1}):
                bad.append('the number of faces may differ from the number in the header')
        if bad:
            return ctx.viol(rule, w, bad[0])
    if not seen:
        return ctx.und(rule, w, 'the success is not explained')
    ctx.ok(rule, w)


def const(c):
    v = dict(c[3]).get('value') if isR(c) else None
    return v[2] if isT(v) and v[1] == 'str' else v


def states(s):
    return [e[3] for e in s.ev if e[0] == 'w' and isT(e[3]) and e[3][1] == 'strm']


KEYWORDS = {'ply': {'ply'}, 'format': {'format'}}


def ply_header(r, w):
    rule = 'the header is well formed'
    ctx, ai = r.ctx, r.ai
    known = ('ply', 'format', 'element', 'property', 'end_header', 'comment', 'obj_info')

    def words(s):
        return {x for t, d in s.dom.items() if isT(t) and t[1] == '==' and d == TRUE for x in t[2:] if isinstance(x, str)}

    def effect(m, q):
        s = Step(list(q['cev']) + list(q['ev']), q['st'].dom, q['st'], m.e, q)
        flags = set()
        ws = words(s)
        consts = [(e[5], e) for e in s.ev if e[0] == 'parse' and str(e[2]).endswith('String_constant') and len(e) > 5]
        vals = []
        for c, e in consts:
            v = dict(c[3]).get('value') if isR(c) else None
            v = v[2] if isT(v) and v[1] == 'str' else v
            vals.append(v)
        if 'ply' in ws:
            flags.add('ply')
        if 'format' in ws:
            ok = vals[:2] == ['ascii', '1.0'] and matched(ai, s)
            ok = ok or {'ascii', '1.0'} <= ws
            if not ok and q['kind'] in ('norm', 'break'):
                flags.add('!a format other than ascii 1.0 is accepted')
            flags.add('format')
        if 'element' in ws:
            flags.add('element')
        if 'end_header' in ws:
            flags.add('end')
        if q['kind'] in ('norm', 'break') and not ws & set(known) and not blank(s):
            flags.add('!a header line that is not understood is accepted')
        return {'flags': frozenset(flags)}
    seen = False
    for o in r.outs:
        bad = []
        heads = [e for e in o.ev if e[0] == 'loop' and any('end_header' in repr(q['st'].dom) for q in e[4])]
        heads = [e for e in heads if any(any(x[0] == 'parse' for x in q['ev']) for q in e[4])][:1]
        if len(heads) != 1:
            return ctx.und(rule, w, f'{len(heads)} loops over the header')
        m = Machine(r, o, heads[0], [], (), effect)
        ex = m.exits(o)
        seen = seen or bool(ex)
        for loc, a in ex:
            bad += sorted(x[1:] for x in loc[1] if x[0] == '!')
            for fl, what in (('ply', 'signature'), ('format', 'format line'), ('end', 'end_header line')):
                if fl not in loc[1]:
                    bad.append(f'a file without {what} is accepted')
        if bad:
            return ctx.viol(rule, w, bad[0])
    if not seen:
        return ctx.und(rule, w, 'the success is not explained')
    ctx.ok(rule, w)


def matched(ai, s):
    """Is the last match on this partition known to have succeeded?"""
    es = [e for e in s.ev if e[0] == 'parse']
    st = None
    for e in s.ev:
        if e[0] == 'w' and isT(e[3]) and e[3][1] == 'strm' and es and e[1] == es[-1][1][1]:
            st = e[3]
    return st is not None and s.dom.get(T('ok', st)) == TRUE


def blank(s):
    """A line that is empty or a comment."""
    es = [e for e in s.ev if e[0] in ('parse', 'in')]
    if es and es[-1][0] == 'parse' and ('omment' in str(es[-1][2]) or 'End_of' in str(es[-1][2])):
        return True
    return not es and not any(e[0] == 'in' for e in s.ev)


def ply_body(r, w):
    rule = 'the body agrees with the header'
    ctx, ai = r.ctx, r.ai
    n = 0
    for o in r.outs:
        loops = [e for e in o.ev if e[0] == 'loop' and any(list(points(Step(list(q['cev']) + list(q['ev']), q['st'].dom, q['st'], e, q))) for q in e[4])]
        if not loops:
            # no lines in the body: the position must be known to be at the end
            if not at_end(o.st.dom):
                return ctx.viol(rule, w, 'a file that ends before its last element is accepted')
            continue
        e = loops[0]
        if not at_end(o.st.dom):
            return ctx.viol(rule, w, 'a file that ends before its last element is accepted')
        cells = [c for c, pa in e[5] if not pa and isI(e[6][(c, pa)][0] if isinstance(e[6][(c, pa)][0], tuple) else None)]
        for q in e[4]:
            if q['kind'] not in ('norm', 'break'):
                continue
            n += 1
            s = Step(list(q['cev']) + list(q['ev']), q['st'].dom, q['st'], e, q)
            facts = {**o.st.dom, **s.dom}
            # the element to which the line belongs
            dec = [x for x in s.ev if x[0] == 'w' and len(x[2]) >= 2 and x[2][-1] == ('f', 'count')]
            if len(dec) != 1:
                return ctx.viol(rule, w, f'a line of the body changes the number of remaining lines {len(dec)} times')
            k = dec[0][2][-2][1]
            cont = x_of(dec[0])
            d, c = lin(dec[0][3])
            if c != -1 or len(d) != 1 or list(d.values()) != [1]:
                return ctx.viol(rule, w, f'the number of remaining lines becomes {show(dec[0][3])[:100]}')
            if not known_false(facts, k, 'len'):
                return ctx.viol(rule, w, 'a line after the last element is accepted')
            el = element_name(facts, k)
            pts = len(list(points(s)))
            lists = any(x[0] == 'loop' and any(y[0] == 'loop' and any(z[0] == 'in' for p2 in y[4] for z in p2['ev']) or y[0] == 'in' for p in x[4] for y in p['ev']) for x in s.ev)
            if (pts == 1) != (el == 'vertex') or pts > 1:
                return ctx.viol(rule, w, f'{pts} vertices are added for a line of ' + (f'the element {el}' if el else 'another element'))
            fcs = any(list(faces(Step(list(p['cev']) + list(p['ev']), p['st'].dom, p['st'], x, p, s))) for x in s.ev if x[0] == 'loop' for p in x[4]) or bool(list(faces(s)))
            if fcs and el != 'face':
                return ctx.viol(rule, w, 'faces are added for a line of ' + (f'the element {el}' if el else 'another element'))
            # the element is left only when no lines of it remain
            for x in s.ev:
                if x[0] == 'loop' and any((c2, ()) in x[5] for c2 in cells):
                    for p in x[4]:
                        if p['kind'] == 'norm' and not count_zero(ai, p['st'], x[2]):
                            return ctx.viol(rule, w, f'line {x[1]}: an element is left although lines of it may remain')
                elif x[0] == 'w' and x[1] in cells and not x[2] and not any(isT(t) and t[1] == '==0' and dd == TRUE and 'count' in repr(t) for t, dd in s.dom.items()):
                    return ctx.viol(rule, w, 'an element is left although lines of it may remain')
    if not n:
        return ctx.und(rule, w, 'no loop over the body')
    ctx.ok(rule, w)


def x_of(e):
    return e[1]


def count_zero(ai, st, kap):
    for t, d in st.dom.items():
        if isT(t) and t[1] == '==0' and d == TRUE:
            dd, c = lin(t[2])
            if any("'count'" in repr(k) for k in dd):
                return True
            if len(dd) == 1 and c == 0 and kap in dd:
                return True     # the count itself is known to be zero only at the first element: another one follows
    return False


def at_end(dom):
    for t, d in dom.items():
        if isT(t) and t[1] == '==0' and d == TRUE:
            dd, c = lin(t[2])
            if c == 0 and len(dd) == 2 and any(isT(k) and k[1] == 'len' and 'elements' in repr(k) for k in dd):
                return True
        if isT(t) and t[1] == '==' and d == TRUE and len(t) > 3 and isI(t[2]) and isI(t[3]):
            return True
    return False


def known_false(facts, k, what):
    for t, d in facts.items():
        if isT(t) and t[1] in ('==0', '>0'):
            dd, c = lin(t[2])
            if k in dd and c == 0 and len(dd) == 2 and any(isT(x) and x[1] == 'len' for x in dd):
                if t[1] == '==0' and d == FALSE:
                    return True
                if t[1] == '>0' and d == TRUE and dd[k] < 0:
                    return True
    return False


def element_name(facts, k):
    for t, d in facts.items():
        if isT(t) and t[1] == '==0' and d == TRUE:
            dd, c = lin(t[2])
            if k in dd and c == 0 and len(dd) == 2:
                j = next(x for x in dd if x != k)
                for t2, d2 in facts.items():
                    if isT(t2) and t2[1] == '==' and d2 == TRUE and len(t2) > 3:
                        s2, v2 = (t2[2], t2[3]) if isinstance(t2[2], str) else (t2[3], t2[2])
                        if isinstance(s2, str) and isT(v2) and v2[1] == '.' and v2[3] == 'name' and isT(v2[2]) and v2[2][1] == 'at' and v2[2][3] == j:
                            return s2
    for t2, d2 in facts.items():
        if isT(t2) and t2[1] == '==' and d2 == TRUE and len(t2) > 3:
            s2, v2 = (t2[2], t2[3]) if isinstance(t2[2], str) else (t2[3], t2[2])
            if isinstance(s2, str) and isT(v2) and v2[1] == '.' and v2[3] == 'name' and isT(v2[2]) and v2[2][1] == 'at' and v2[2][3] == k:
                return s2
    return None


# ---------------------------------------------------------------- single items
def item(ctx, f):
    p = ctx.prog()
    t = base(p.deref(f['params'][1]['t'])[1].get('base') or '')
    ic = {}
    if t.endswith('signature') or 'omment' in t:
        def ex(ai, fn, this, args, node):
            if fn['id'] == f['id']:
                return NotImplemented
            return extract(ai, fn, this, args, node)
        ic = {k: ex for k in EXTRACTORS}
    ai = ctx.ai(intercepts=ic)
    box = {}

    def go():
        box['args'] = sym_args(ai, f)
        return ai.call_fn(f, None, box['args'])
    outs = ai.explore(go)
    w = ctx.where(f)
    rule = f'what counts as a {t.rsplit("::", 1)[-1]}'
    bad = None
    n = 0
    for o in outs:
        if o.kind != 'norm':
            continue
        cell = box['args'][0][1]
        final = ai.read_in(o.st, (cell, ()))
        if o.st.dom.get(T('ok', final)) == FALSE:
            continue
        n += 1
        bad = bad or accept(ai, o, t, box['args'][1], cell)
    if not n:
        return ctx.und(rule, w, 'nothing is ever accepted')
    if bad == '':
        return ctx.und(rule, w, 'parsed in a way that is not understood')
    ctx.check(not bad, rule, w, bad or f'{n} partitions')


def accept(ai, o, t, arg, cell):
    dom = o.st.dom
    if t.endswith('Double'):
        ps = [e for e in o.ev if e[0] in ('ext', 'pure') and e[1].endswith('from_chars')]
        if len(ps) != 1:
            return ''
        r = ps[0][5] if len(ps[0]) > 5 else None
        rn = ps[0][2] if r is None else r
        words = [e[2] for e in o.ev if e[0] == 'in']
        if len(words) != 1:
            return f'{len(words)} words are read for a number'
        rng = whole_word(rn, dom)
        if rng:
            return rng
        end = any(isT(k) and k[1] == '==0' and d == TRUE and 'from_chars' in repr(k) and (1 in set(map(abs, lin(k[2])[0].values()))) and part(k, '0') for k, d in dom.items())
        ec = any(isT(k) and k[1] in ('==', '==0', '?in') and d == TRUE and 'from_chars' in repr(k) and part(k, '1') for k, d in dom.items()) or \
            any(isT(k) and k[1] == '.' and str(k[3]) in ('1', 'ec') and d == frozenset((0,)) for k, d in dom.items())
        fin = any(isT(k) and k[1] == 'app' and str(k[2]).endswith('isfinite') and (d == TRUE or d == frozenset((1,))) for k, d in dom.items())
        if not end:
            return 'a number followed by other characters is accepted'
        if not ec:
            return 'text that is not a number is accepted'
        if not fin:
            return 'infinite and undefined numbers are accepted'
        return None
    if t.endswith('String_constant'):
        def same(k):
            xs = list(lin(k[2])[0]) if k[1] == '==0' else list(k[2:])
            return len(xs) == 2 and (k[1] == '==' or sorted(lin(k[2])[0].values()) == [-1, 1] and not lin(k[2])[1]) and \
                any(isT(x) and x[1] == '.' and x[3] == 'value' for x in xs) and any(isT(x) and x[1] == 'in' for x in xs)
        if not any(isT(k) and k[1] in ('==', '==0') and d == TRUE and same(k) for k, d in dom.items()):
            return 'other words are accepted'
        return None
    if t.endswith('End_of_file') and 'omment' not in t:
        if not any(isT(k) and k[1] == 'eof' and d == TRUE for k, d in dom.items()):
            return 'more text is accepted'
        return None
    if 'omment' in t:
        ok = any(isT(k) and k[1] == 'ok' and d == TRUE and k[2] in ai.state_op and ai.state_op[k[2]][1] == 'match' for k, d in dom.items())
        hash_ = any(isT(k) and k[1] == '==0' and d == TRUE and 'peek' in repr(k) and lin(k[2])[1] in (-35, 35) for k, d in dom.items()) or \
            any(isT(k) and k[1] == 'eof' and d == TRUE for k, d in dom.items())
        return None if ok or hash_ else 'text other than comments is accepted'
    if t.endswith('Off_signature'):
        if not any(isT(k) and k[1] == '==' and 'OFF' in k[2:] and d == TRUE for k, d in dom.items()):
            return 'a signature other than OFF is accepted'
        # BINARY must be noticed
        for i, e in enumerate(o.ev):
            if e[0] == 'parse' and len(e) > 5 and isR(e[5]) and const(e[5]) == 'BINARY':
                st = next((x[3] for x in o.ev[i::-1] if x[0] == 'w' and x[1] == cell), None)
                if st is not None and dom.get(T('ok', st)) == TRUE:
                    v = ai.read_in(o.st, (arg[1], (('f', 'binary'),)))
                    if v is not True:
                        return 'a binary file is taken for a text file'
        if not any(e[0] == 'parse' and len(e) > 5 and isR(e[5]) and const(e[5]) == 'BINARY' for e in o.ev) and \
                not any(e[0] == 'parse' and 'omment' in str(e[2]) for e in o.ev):
            return 'what follows the signature is not examined'
        last = [e for e in o.ev if e[0] == 'parse']
        if not last or 'omment' not in str(last[-1][2]) and 'End_of' not in str(last[-1][2]):
            return 'what follows the signature is not examined'
        return None
    return ''


def atoms_of(t):
    for x in t:
        if isinstance(x, tuple):
            yield from atoms_of(x)
        elif not isinstance(x, bool):
            yield x


def whole_word(r, dom):
    """The range that is parsed is the whole word, or all of it but a plus sign."""
    if not (isT(r) and r[1] == 'app' and str(r[2]).endswith('from_chars') and len(r) > 5):
        return None
    d, c = lin(sub(r[5], r[4]))
    if len(d) != 1 or list(d.values()) != [1] or not isT(next(iter(d))) or next(iter(d))[1] != 'len':
        return None
    b, off = lin(r[4])
    if next(iter(d))[2] not in b or len(b) != 1:
        return None
    if off == 0:
        return None if c == 0 else f'a number is parsed without the last {-c} characters'
    if c != -off:
        return f'a number is parsed up to character {c + off:+} of the end'
    plus = [f for k, f in dom.items() if isT(k) and (k[1] == '==0' and abs(lin(k[2])[1]) == 43 or any(x in (43, '+') for x in atoms_of(k)))]
    if off != 1 or not any(f == TRUE for f in plus):
        return f'a number is parsed from its character {off} on'
    return None


def part(k, n):
    """Does a term mention this part of the result of from_chars?"""
    return any(x[1] == '.' and str(x[3]) == n and 'from_chars' in repr(x[2]) for x in subterms(k) if len(x) > 3) or \
        (n == '1' and any(x[1] == '.' and str(x[3]) == 'ec' for x in subterms(k) if len(x) > 3)) or \
        (n == '0' and any(x[1] == '.' and str(x[3]) == 'ptr' for x in subterms(k) if len(x) > 3))


# ---------------------------------------------------------------- binary format
def succeeded(ai, o, box):
    s = ai.read_in(o.st, (box['args'][0][1], ()))
    return o.kind == 'norm' and o.st.dom.get(T('ok', s)) != FALSE


def soup(ctx, f):
    ai, outs, box = explore(ctx, f, extra=VALID)
    w = ctx.where(f)
    good = [o for o in outs if succeeded(ai, o, box) and ai.norm(o.target) != T('atom', 'old')]
    if not good:
        return ctx.und('malformed meshes are refused', w, 'no partition on which a mesh is read')
    bad = None
    for o in good:
        b = checked(o, o.st.dom, None)
        if b == '':
            return ctx.und('corners refer to vertices', w, 'validity is tested in a form that is not understood')
        bad = bad or b
    ctx.check(not bad, 'corners refer to vertices', w, bad or f'{len(good)} partitions')
    bad = None
    n = 0
    for o in good:
        for s in steps(o):
            # types of what is read on this partition
            ty = {}
            for t in s.chain():
                for e in t.ev:
                    if e[0] == 'parse':
                        ty[e[3]] = str(e[2])
            for i, e, x in points(s):
                n += 1
                for v in ins(x):
                    if ty.get(v) in ('double', 'float') and not finite(s, v):
                        bad = 'a coordinate may be infinite or undefined'
                if not ins(x):
                    bad = bad or f'a vertex is {show(x)[:100]}'
    if not n:
        return ctx.und('coordinates are finite', w, 'no vertex is added')
    ctx.check(not bad, 'coordinates are finite', w, bad or f'{n} partitions')


def finite(s, v):
    for t, d in s.facts().items():
        if isT(t) and t[1] == 'app' and str(t[2]).endswith('isfinite') and v in t[3:] and d == TRUE:
            return True
    return False


def region(ctx, f):
    ai, outs, box = explore(ctx, f)
    w = ctx.where(f)
    rule = 'contradictory regions are refused'
    bd = None
    for e in ctx.prog().enums.values() if hasattr(ctx.prog(), 'enums') else ():
        if e.get('qn', '').endswith('Region_kind'):
            bd = next((c['v'] for c in e['consts'] if c['n'] == 'BOUNDARY_DEFINED'), None)
    bad = None
    n = 0
    for o in outs:
        if o.kind != 'norm' or not succeeded(ai, o, box) or ai.norm(o.target) == T('atom', 'old'):
            continue
        n += 1
        k = b = None
        for t, d in o.st.dom.items():
            if isT(t) and t[1] == '?in' and len(d) == 1:
                k = bool(next(iter(d)))
            elif isT(t) and t[1] == 'in' and len(d) >= 1 and all(isinstance(x, int) for x in d):
                k = True if d == frozenset((2,)) else False if 2 not in d else None
            elif isT(t) and t[1] == '==0' and len(d) == 1 and 'faces_' in repr(t):
                b = not next(iter(d))
            elif isT(t) and t[1] == '>0' and len(d) == 1 and 'faces_' in repr(t):
                b = bool(next(iter(d)))
        if k is None or b is None or k != b:
            bad = 'a region whose kind contradicts its boundary is accepted'
    if not n:
        return ctx.und(rule, w, 'no region is ever read')
    ctx.check(not bad, rule, w, bad or f'{n} partitions')


def kind(ctx, f, t):
    ai = ctx.ai()
    box = {}

    def go():
        box['args'] = sym_args(ai, f)
        return ai.call_fn(f, sym_this(ai, f), box['args'])
    outs = ai.explore(go)
    w = ctx.where(f)
    rule = 'unknown kinds are refused'
    bad = None
    n = 0
    for o in outs:
        if not succeeded(ai, o, box):
            continue
        v = ai.read_in(o.st, (box['args'][1][1], ()))
        if isinstance(v, int):
            n += 1
            if not 0 <= v <= 2:
                bad = f'kind {v}'
            continue
        if not any(e[0] in ('rawread', 'parse', 'in') for e in o.ev):
            continue
        n += 1
        ai.st = o.st
        d = ai.curdom(v)
        if not ai.implied(add(mulc(v, -1), 3)) and not (d is not None and all(isinstance(x, int) and 0 <= x <= 2 for x in d)):
            bad = 'a number that is not a kind is accepted'
    if not n:
        return ctx.und(rule, w, 'no kind is ever read')
    ctx.check(not bad, rule, w, bad or f'{n} partitions')


def rational(ctx, f):
    ai = ctx.ai()
    box = {}

    def go():
        box['args'] = sym_args(ai, f)
        return ai.call_fn(f, sym_this(ai, f), box['args'])
    outs = ai.explore(go)
    w = ctx.where(f)
    rule = 'truncated and undefined numbers are refused'
    bad = None
    n = 0
    name = f['params'][1]['n']
    for o in outs:
        if o.kind != 'norm':
            continue
        cell = box['args'][1][1]
        wr = [e for e in o.ev if e[0] == 'w' and e[1] == cell]
        if not wr:
            continue
        n += 1
        s = ai.read_in(o.st, (box['args'][0][1], ()))
        if o.st.dom.get(T('ok', s)) != TRUE:
            bad = 'a number is used although reading it may have failed'
        zero = [t[2] for t, d in o.st.dom.items() if isT(t) and t[1] == '==0' and d == FALSE]
        divs = [x for e in wr for x in subterms(e[3]) if x[1] in ('app', 'ctor', '/') and (x[1] == '/' or '/' in str(x[2]) or x[1] == 'ctor') and len(x) >= 4]
        args = []
        for x in divs:
            a = [y for y in x[2 if x[1] == '/' else 3:]]
            if len(a) == 2:
                args.append(a)
        if not args:
            continue
        if not any(any(contains(b, z) and not contains(a, z) for a, b in args) for z in zero if isT(z)):
            bad = bad or 'a denominator of zero is accepted'
    if not n:
        return ctx.und(rule, w, 'no number is ever read')
    ctx.check(not bad, rule, w, bad or f'{n} partitions')
