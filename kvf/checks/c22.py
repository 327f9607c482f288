"""The faces at an edge and the neighbours of a face are found."""
from framework import *
from spec import idx, mk_index, loops_in

EXPLANATION = (
    'The step of each iterator is extracted by abstract interpretation with arbitrary positions and compared with what a step must do in every case '
    '(which ranges are exhausted, how the elements compare); the construction of the table of faces per vertex is compared with its specification.')
ASSUMPTIONS = ['std::sort sorts', 'the table of adjacency is made once, after all faces have been added']

K = 'kigumi::'
EI = K + 'Face_around_edge_iterator'
FI = K + 'Face_around_face_iterator'


def run(ctx):
    p = ctx.prog()
    c = ctor(p, EI, 4)
    roles = ctx.guarded('faces around an edge', c or EI, lambda: edge_ctor(ctx, p, c))
    f = ctx.fn(EI + '::increment')
    if roles:
        ctx.guarded('faces around an edge', f, lambda: edge_increment(ctx, p, f, roles))
        for f in p.find(K + 'Triangle_mesh::faces_around_edge'):
            ctx.guarded('faces around an edge', f, lambda: around_edge(ctx, p, f, c, roles))
    c = ctor(p, FI, 7)
    fr = ctx.guarded('neighbours of a face', c or FI, lambda: face_ctor(ctx, p, c))
    if fr:
        f = ctx.fn(FI + '::increment')
        ctx.guarded('neighbours of a face', f, lambda: face_increment(ctx, p, f, fr))
        f = ctx.fn(FI + '::dereference')
        ctx.guarded('neighbours of a face', f, lambda: face_deref(ctx, p, f, fr))
        f = ctx.fn(FI + '::equal')
        ctx.guarded('neighbours of a face', f, lambda: face_equal(ctx, p, f, fr))
        for f in p.find(K + 'Triangle_mesh::faces_around_face'):
            ctx.guarded('neighbours of a face', f, lambda: around_face(ctx, p, f, c, fr))
    for f in p.find(K + 'Triangle_mesh::finalize'):
        ctx.guarded('table of the faces at a vertex', f, lambda: finalize(ctx, p, f))


def ctor(p, cls, n):
    for f in p.fns.values():
        if f.get('cls') and base(f['cls']) == cls and f.get('sp') == 'ctor' and len(f['params']) == n:
            return f
    return None


# ---------------------------------------------------------------- values in a model
class Model:
    """Numbers for positions, elements for positions."""

    def __init__(self, pos, elem):
        self.pos, self.elem = dict(pos), elem

    def num(self, t):
        if isinstance(t, bool):
            return int(t)
        if isinstance(t, int):
            return t
        if t in self.pos:
            return self.pos[t]
        if isI(t):
            return self.num(t[2])
        if isR(t) and len(t[3]) <= 1:
            return self.num(t[3][0][1] if t[3] else t[1])
        if isT(t):
            if t[1] == 'lin':
                s = t[3]
                for x, k in dict(t[2]).items():
                    n = self.num(x)
                    if n is None:
                        return None
                    s += n * k
                return s
            if t[1] == 'next':
                a, b = self.num(t[2]), self.num(t[3])
                return None if a is None or b is None else a + b
            if t[1] == 'app' and len(t) == 5 and t[2].endswith(('operator+', 'operator-')):
                a, b = self.num(t[3]), self.num(t[4])
                return None if a is None or b is None else a + b if t[2].endswith('+') else a - b
            if t[1] == '.' and t[3] == 'i_':
                return self.num(t[2])
            if t[1] in ('deref', 'at'):
                return self.elem(self, t)
        return None

    def holds(self, t, d):
        """True, False or None (not known)."""
        if isT(t) and t[1] == '!':
            r = self.holds(t[2], frozenset({True}))
            return None if r is None else (not r) in d
        if isT(t) and t[1] in ('>0', '==0'):
            n = self.num(t[2])
            if n is None:
                return None
            return (n > 0 if t[1] == '>0' else n == 0) in d
        return None

    def enabled(self, dom):
        r = True
        for t, d in dom.items():
            h = self.holds(t, d)
            if h is False:
                return False
            if h is None:
                r = None
        return r


def steps(m, e):
    """The steps of a loop that are possible, None if that is not known."""
    out = []
    for q in e[4]:
        s = m.enabled(q['guard'])
        for t, d in q['st'].dom.items():
            if m.holds(t, d) is False:
                s = False
        if s is None:
            return None
        if s:
            out.append(q)
    return out


def final(ai, q, lv):
    """The value of a place at the end of an iteration."""
    return ai.read_in(q['st'], lv)


def loops(o):
    return [e for e in o.ev if e[0] == 'loop']


# ---------------------------------------------------------------- an edge
def edge_ctor(ctx, p, f):
    """Which member is which: {'I','IE','J','JE'} and the members that equal() compares."""
    rule = 'faces around an edge'
    if f is None:
        return ctx.und(rule, EI, 'constructor')
    w = ctx.where(f)
    ai = ctx.ai()
    a = [T('atom', x) for x in ('ib', 'ie', 'jb', 'je')]
    outs = ai.explore(lambda: ai.construct_repo(f, list(a), None))
    if any(o.kind not in ('norm', 'ret') for o in outs):
        return ctx.und(rule, w, 'ends otherwise')
    roles = {}
    for o in outs:
        v = dict(o.val[3]) if isR(o.val) else {}
        for e in loops(o):
            for (cell, path), (init, hv) in e[6].items():
                if len(path) == 1 and init in a:
                    roles.setdefault('IJ'[a.index(init) // 2], set()).add(path[0][1])
        if not loops(o):
            if not any(e[0] == 'ext' for e in o.ev) and v and not any(isT(x) and x[1] == 'app' for x in v.values()):
                return ctx.viol(rule, w, 'the first common face is not searched for', key='search')
            return ctx.und(rule, w, 'no loop')
        common = {n for n, x in v.items() if x in (a[1], a[3])}
        roles['ends'] = roles.get('ends', common) & common
    if any(len(roles.get(x, ())) != 1 for x in 'IJ'):
        return ctx.und(rule, w, f'members {roles}')
    R = {x: next(iter(roles[x])) for x in 'IJ'}
    v = dict(outs[0].val[3])
    for x, t in (('IE', a[1]), ('JE', a[3])):
        n = [m for m in roles['ends'] if m not in R.values() and all(dict(o.val[3])[m] == t for o in outs)]
        if len(n) != 1:
            return ctx.und(rule, w, f'end {x}')
        R[x] = n[0]
    # what is compared
    g = ctx.fn(EI + '::equal')
    ai2 = ctx.ai()
    os = ai2.explore(lambda: ai2.rval(ai2.call_fn(g, sym_this(ai2, g), sym_args(ai2, g))))
    w2 = ctx.where(g)
    this, other = T('atom', 'this'), T('atom', g['params'][0]['n'])
    R['cmp'] = []
    for bits in ((0, 0), (1, 0), (0, 1), (1, 1)):
        pos = {T('.', this, R['I']): 3, T('.', other, R['I']): 3 + bits[0], T('.', this, R['J']): 13, T('.', other, R['J']): 13 + bits[1],
               T('.', this, R['IE']): 10, T('.', other, R['IE']): 10, T('.', this, R['JE']): 20, T('.', other, R['JE']): 20}
        m = Model(pos, lambda *_: None)
        en = [o for o in os if m.enabled(o.st.dom) is not False]
        if len(en) != 1:
            return ctx.und(rule, w2, 'equal')
        val = en[0].val
        if isT(val):
            val = m.holds(val, frozenset({True}))
        if val is None:
            return ctx.und(rule, w2, f'equal: {show(en[0].val)[:200]}')
        if bits == (0, 0) and not val:
            return ctx.viol(rule, w2, 'an iterator is not equal to itself')
        if bits == (1, 1) and val:
            return ctx.viol(rule, w2, 'iterators at different places are equal')
        if sum(bits) == 1 and not val:
            R['cmp'].append('I' if bits[0] else 'J')
    ctx.ok(rule, w2)
    # the element
    g = ctx.fn(EI + '::dereference')
    w3 = ctx.where(g)
    ai3 = ctx.ai()
    for o in ai3.explore(lambda: ai3.rval(ai3.call_fn(g, sym_this(ai3, g), []))):
        v = o.val
        while isR(v) and not v[3]:
            v = v[1]
        v = idx(v) if isR(v) else v
        if isT(v) and v[1] == '.' and v[3] == 'i_':
            v = v[2]
        if v not in [T('deref', T('.', this, R[x])) for x in 'IJ']:
            return ctx.viol(rule, w3, f'the face is {show(v)[:200]}')
    ctx.ok(rule, w3)
    ini = {'I': a[0], 'J': a[2]}
    end = {'I': a[1], 'J': a[3]}
    if machine(ctx, ai, rule, w, outs, R, ini, end, lambda o: dict(o.val[3]), False):
        ctx.ok(rule, w)
        ctx.analysed.add(w)
    else:
        return None
    return R


def machine(ctx, ai, rule, w, outs, R, ini, end, fields, inc):
    """The common elements of two sorted sequences."""
    done = set()
    for o in outs:
        for e in loops(o):
            if e[1] in done:
                continue
            done.add(e[1])
            at = {}
            for (cell, path), (i0, hv) in e[6].items():
                for x in 'IJ':
                    if len(path) == 1 and path[0][1] == R[x]:
                        at[x] = ((cell, path), i0, hv)
            if len(at) != 2:
                return ctx.und(rule, w, 'loop variables')
            # where it starts
            adv = []
            for x in 'IJ':
                d = Model({ini[x]: 3}, lambda *_: None).num(at[x][1])
                if d not in (3, 4):
                    return ctx.und(rule, w, f'starts at {show(at[x][1])[:200]}') if d is None else \
                        ctx.viol(rule, w, f'the search starts {d - 3} places further', key=f'start {e[1]}')
                adv.append(d - 3)
            if inc and not any(adv):
                return ctx.viol(rule, w, 'the iterator is not advanced', key='start')
            if not inc and any(adv):
                return ctx.viol(rule, w, 'the first element is skipped', key='start')
            # the step
            for xe in (0, 1):
                for ye in (0, 1):
                    for c in ((-1, 0, 1) if not xe and not ye else (None,)):
                        pos = {at['I'][2]: 3, at['J'][2]: 103, end['I']: 3 if xe else 10, end['J']: 103 if ye else 110}

                        def elem(m, t):
                            if t[1] == 'deref' and c is not None:
                                n = m.num(t[2])
                                return {3: 50 + c, 103: 50}.get(n)
                            return None
                        m = Model(pos, elem)
                        en = steps(m, e)
                        if en is None:
                            return ctx.und(rule, w, 'condition')
                        if len(en) > 1:
                            return ctx.und(rule, w, 'several steps')
                        what = 'a sequence is exhausted' if c is None else f'the elements compare {"<" if c < 0 else ">" if c > 0 else "="}'
                        if c is None or c == 0:
                            for q in en:
                                if q['kind'] == 'norm':
                                    return ctx.viol(rule, w, f'when {what}, the search goes on', key=what)
                                if c == 0 and any(final(ai, q, at[x][0]) != at[x][2] for x in 'IJ'):
                                    return ctx.viol(rule, w, f'when {what}, the iterator moves', key=what)
                            continue
                        if not en or en[0]['kind'] != 'norm':
                            return ctx.viol(rule, w, f'when {what}, the search stops', key=what)
                        q = en[0]
                        d = [m.num(final(ai, q, at[x][0])) for x in 'IJ']
                        if None in d:
                            return ctx.und(rule, w, 'step')
                        if d != ([4, 103] if c < 0 else [3, 104]):
                            return ctx.viol(rule, w, f'when {what}, the steps are {d[0] - 3} and {d[1] - 103}', key=what)
    # where it stops
    for xe in (0, 1):
        for ye in (0, 1):
            seen = 0
            for o in outs:
                ls = loops(o)
                if not ls:
                    continue
                pos = {end['I']: 10, end['J']: 110}
                posts = {}
                for t in terms(o):
                    if t[1] in ('post', 'hv') and isinstance(t[3], str):
                        for x, n, at_end in (('I', 10, xe), ('J', 110, ye)):
                            if t[3].endswith('.' + R[x]):
                                pos[t] = n if at_end else n - 7
                m = Model(pos, lambda mm, t: 50)
                # did the search end by leaving the loop?
                left = any(isT(t) and t[1] == 'ex' and True in d for t, d in o.st.dom.items())
                h = {x: next((hv for (cell, path), (i0, hv) in ls[0][6].items() if len(path) == 1 and path[0][1] == R[x]), None) for x in 'IJ'}
                mm = Model({h['I']: 10 if xe else 3, h['J']: 110 if ye else 103, end['I']: 10, end['J']: 110}, lambda mm, t: 50)
                st = steps(mm, ls[0])
                if st is None:
                    return ctx.und(rule, w, 'condition')
                if left != bool(st):
                    continue
                s = m.enabled({t: d for t, d in o.st.dom.items() if m.holds(t, d) is not None})
                if s is False:
                    continue
                seen += 1
                v = fields(o)
                d = {x: m.num(v.get(R[x])) for x in 'IJ'}
                if xe or ye:
                    for x, n in (('I', 10), ('J', 110)):
                        if x in R['cmp'] and d[x] != n:
                            if d[x] is None:
                                return ctx.und(rule, w, 'after the search')
                            return ctx.viol(rule, w, 'when a sequence is exhausted, the iterator is not equal to the end', key='end')
                elif [d['I'], d['J']] != [3, 103]:
                    return ctx.viol(rule, w, 'a face that is found is passed over', key='found')
            if not seen:
                return ctx.und(rule, w, 'no result')
    return True


def terms(o):
    out = []

    def go(t):
        if isinstance(t, tuple):
            if isT(t):
                out.append(t)
            for x in t:
                go(x)
    for t in o.st.dom:
        go(t)
    go(o.val)
    for e in o.ev:
        if e[0] == 'w':
            go(e[3])
    return out


def edge_increment(ctx, p, f, R):
    rule = 'faces around an edge'
    w = ctx.where(f)
    ai = ctx.ai()
    this = T('atom', 'this')
    F = {x: T('.', this, R[x]) for x in ('I', 'IE', 'J', 'JE')}

    def go():
        t = sym_this(ai, f)
        ai.call_fn(f, t, [])
        return ('res', [(x, ai.rval(('&', t[1], (('f', R[x]),)))) for x in ('I', 'IE', 'J', 'JE')])
    outs = ai.explore(go)
    for o in outs:
        d = dict(o.val[1])
        if d['IE'] != F['IE'] or d['JE'] != F['JE']:
            return ctx.viol(rule, w, 'the end of a sequence changes', key='ends')
        if not loops(o):
            # only at the end
            m = Model({F['I']: 3, F['J']: 103, F['IE']: 10, F['JE']: 110}, lambda m, t: 50)
            s = m.enabled(o.st.dom)
            if s:
                return ctx.viol(rule, w, 'the iterator is not advanced', key='start')
            if s is None:
                return ctx.und(rule, w, 'a path without a search')
    if machine(ctx, ai, rule, w, outs, R, {'I': F['I'], 'J': F['J']}, {'I': F['IE'], 'J': F['JE']}, lambda o: {R[x]: v for x, v in o.val[1]}, True):
        ctx.ok(rule, w)
        ctx.analysed.add(w)


def around_edge(ctx, p, f, c, R):
    rule = 'faces around an edge'
    w = ctx.where(f)

    def mk(ai, fn, this, args, node):
        if len(args) != 4:
            return NotImplemented
        return Rf('fae', list(zip('abcd', [ai.rval(x) for x in args])))
    ai = ctx.ai(intercepts={c['b']: mk})
    outs = ai.explore(lambda: ai.rval(ai.call_fn(f, sym_this(ai, f), sym_args(ai, f))))
    for o in outs:
        r = dict(o.val[3]) if isR(o.val) and o.val[2] == 'range' else {}
        b, e = r.get('b'), r.get('e')
        if not (isR(b) and isR(e) and b[2] == 'fae' and e[2] == 'fae'):
            return ctx.und(rule, w, show(o.val)[:200])
        b, e = [[x for _, x in v[3]] for v in (b, e)]
        if not all(isI(x) for x in b + e):
            return ctx.und(rule, w, 'positions')
        seqs = {x[1] for x in b + e}
        if len(seqs) != 1:
            return ctx.viol(rule, w, 'positions in different sequences', key='seq')
        n = [x[2] for x in b]
        got = []
        for lo, hi in ((n[0], n[1]), (n[2], n[3])):
            k = corner(lo, 0)
            if k is not None and isT(hi) and hi[1] == 'len':
                return ctx.viol(rule, w, f'the faces from those of {show(k)[-80:]} to the end', key='range')
            if k is None or corner(hi, 1) is None:
                return ctx.und(rule, w, f'{show(lo)[:100]}..{show(hi)[:100]}')
            if corner(hi, 1) != k:
                return ctx.viol(rule, w, f'the faces from those of {show(lo)[-80:]} to {show(hi)[-80:]}', key='range')
            got.append(k)
        edge = T('atom', f['params'][0]['n'])
        want = [T('.', T('at', edge, i), 'i_') for i in (0, 1)]
        alt = [T('at', edge, i) for i in (0, 1)]
        if sorted(got, key=str) not in (sorted(want, key=str), sorted(alt, key=str)):
            return ctx.viol(rule, w, f'the faces of {[show(x) for x in got]} instead of both ends of the edge', key='corners')
        for x, lo, hi in (('I', 0, 1), ('J', 2, 3)):
            if x in R['cmp'] and e[lo] != b[hi]:
                return ctx.viol(rule, w, f'the end of the range is at {show(e[lo][2])[:100]}', key='end')
        if not all(e[i] == b[i] for i in (1, 3)):
            return ctx.viol(rule, w, 'the ends differ', key='end')
    ctx.ok(rule, w)
    ctx.analysed.add(w)


def corner(t, off):
    """The vertex whose faces start (0) or end (1) at a position of the table."""
    if isT(t) and t[1] == 'at':
        d, c = lin(t[3])
        if len(d) == 1:
            x, k = next(iter(d.items()))
            if k == 1 and c == off:
                return x
            if k == 1:
                return T('off', x, c)
    return None


# ---------------------------------------------------------------- a face
def face_ctor(ctx, p, f):
    rule = 'neighbours of a face'
    if f is None:
        return ctx.und(rule, FI, 'constructor')
    w = ctx.where(f)
    ai = ctx.ai()
    a = [mk_index(T('atom', 'fi'))] + [T('atom', x) for x in ('b1', 'e1', 'b2', 'e2', 'b3', 'e3')]
    outs = ai.explore(lambda: ai.construct_repo(f, list(a), None))
    if len(outs) != 1 or not isR(outs[0].val):
        return ctx.und(rule, w, 'constructor')
    v = dict(outs[0].val[3])
    inv = {}
    for n, x in v.items():
        if idx(x) == T('atom', 'fi') if isR(x) else False:
            inv['f'] = n
        elif x in a:
            inv[a.index(x)] = n
    if len(inv) != 7 and len(v) == 7 and all(isT(x) or isR(x) for x in v.values()) and all(x in a or isR(x) for x in v.values()):
        return ctx.viol(rule, w, 'two members are initialised with the same value', key='members')
    if len(inv) != 7:
        return ctx.und(rule, w, f'members {inv}')
    ctx.ok(rule, w)
    return {'f': inv['f'], 'it': [inv[1], inv[3], inv[5]], 'end': [inv[2], inv[4], inv[6]]}


def cases():
    for a in (0, 1, 2):
        for b in (0, 1, 2):
            for c in (0, 1, 2):
                yield (a, b, c)


def face_increment(ctx, p, f, R):
    rule = 'neighbours of a face'
    w = ctx.where(f)
    ai = ctx.ai()
    this = T('atom', 'this')
    outs = ai.explore(lambda: ai.call_fn(f, sym_this(ai, f), []))
    seen = set()
    if not any(loops(o) for o in outs) and not any(e[0] == 'ext' for o in outs for e in o.ev):
        return ctx.viol(rule, w, 'the face itself is one of its neighbours: it is passed over at most once', key='itself')
    if any(not loops(o) for o in outs):
        return ctx.und(rule, w, 'no loop')
    for o in outs:
        if len(loops(o)) != 1:
            return ctx.und(rule, w, 'loops')
        e = loops(o)[0]
        if any(x[0] == 'w' and x[1] == 'this' for x in o.ev[:o.ev.index(e)]):
            return ctx.und(rule, w, 'changes before the loop')
        if e[1] in seen:
            continue
        seen.add(e[1])
        hv = {}
        for (cell, path), (i0, h) in e[6].items():
            for k in range(3):
                if cell == 'this' and path == (('f', R['it'][k]),):
                    if i0 != T('.', this, R['it'][k]):
                        return ctx.und(rule, w, 'start')
                    hv[k] = ((cell, path), h)
        if len(hv) != 3:
            return ctx.viol(rule, w, f'only {len(hv)} of three edges are used', key='edges')
        for st in cases():
            for same in (0, 1):
                pos = {}
                for k in range(3):
                    pos[hv[k][1]] = 100 * k
                    pos[T('.', this, R['end'][k])] = 100 * k + st[k] * (1 if st[k] < 2 else 3)
                pos[T('.', T('.', this, R['f']), 'i_')] = 7
                pos[T('.', this, R['f'])] = 7
                m = Model(pos, lambda mm, t: (7 if same else 8) if t[1] == 'deref' else None)
                en = steps(m, e)
                if en is None:
                    return ctx.und(rule, w, 'condition')
                if len(en) > 1:
                    return ctx.und(rule, w, 'several steps')
                first = next((k for k in range(3) if st[k]), None)
                name = f'exhausted: {[k + 1 for k in range(3) if not st[k]]}'
                if first is None:
                    if en and (en[0]['kind'] == 'norm' or any(final(ai, en[0], hv[k][0]) != hv[k][1] for k in range(3))):
                        return ctx.viol(rule, w, f'{name}: it goes on', key='end')
                    continue
                if not en:
                    return ctx.viol(rule, w, f'{name}: the iterator is not advanced', key='advance')
                q = en[0]
                d = [m.num(final(ai, q, hv[k][0])) for k in range(3)]
                want = [100 * k + (1 if k == first else 0) for k in range(3)]
                if d != want:
                    if None in d:
                        return ctx.und(rule, w, 'step')
                    return ctx.viol(rule, w, f'{name}: the steps are {[x - 100 * k for k, x in enumerate(d)]}', key='advance')
                left = [s - (1 if k == first else 0) for k, s in enumerate(st)]
                if not any(left):
                    continue
                if same and q['kind'] != 'norm':
                    return ctx.viol(rule, w, f'{name}: the face itself is one of its neighbours', key='itself')
                if not same and q['kind'] == 'norm':
                    return ctx.viol(rule, w, f'{name}: a neighbour is passed over', key='passed')
    ctx.ok(rule, w)
    ctx.analysed.add(w)


def face_deref(ctx, p, f, R):
    rule = 'neighbours of a face'
    w = ctx.where(f)
    ai = ctx.ai()
    this = T('atom', 'this')
    outs = ai.explore(lambda: ai.rval(ai.call_fn(f, sym_this(ai, f), [])))
    for st in cases():
        if not any(st):
            continue
        pos = {}
        for k in range(3):
            pos[T('.', this, R['it'][k])] = 100 * k
            pos[T('.', this, R['end'][k])] = 100 * k + st[k]
        m = Model(pos, lambda mm, t: None)
        en = [o for o in outs if m.enabled(o.st.dom)]
        if len(en) != 1:
            return ctx.und(rule, w, 'cases')
        v = en[0].val
        v = idx(v) if isR(v) and v[3] else v
        while isR(v) and not v[3]:
            v = v[1]
        if isT(v) and v[1] == '.':
            v = v[2]
        first = next(k for k in range(3) if st[k])
        if v != T('deref', T('.', this, R['it'][first])):
            return ctx.viol(rule, w, f'the neighbour at edge {first + 1} is {show(v)[:200]}', key='deref')
    ctx.ok(rule, w)
    ctx.analysed.add(w)


def face_equal(ctx, p, f, R):
    rule = 'neighbours of a face'
    w = ctx.where(f)
    ai = ctx.ai()
    this, other = T('atom', 'this'), T('atom', f['params'][0]['n'])
    outs = ai.explore(lambda: ai.rval(ai.call_fn(f, sym_this(ai, f), sym_args(ai, f))))
    for bits in range(8):
        pos = {}
        for k in range(3):
            pos[T('.', this, R['it'][k])] = 100 * k
            pos[T('.', other, R['it'][k])] = 100 * k + (bits >> k & 1)
            pos[T('.', this, R['end'][k])] = pos[T('.', other, R['end'][k])] = 100 * k + 50
        m = Model(pos, lambda mm, t: None)
        en = [o for o in outs if m.enabled(o.st.dom)]
        if len(en) != 1:
            return ctx.und(rule, w, 'cases')
        v = en[0].val
        if isT(v):
            v = m.holds(v, frozenset({True}))
        if v is None:
            return ctx.und(rule, w, 'value')
        if bool(v) != (bits == 0):
            return ctx.viol(rule, w, f'iterators that differ at edges {[k + 1 for k in range(3) if bits >> k & 1]} are {"equal" if v else "not equal"}', key='equal')
    ctx.ok(rule, w)
    ctx.analysed.add(w)


def around_face(ctx, p, f, c, R):
    rule = 'neighbours of a face'
    w = ctx.where(f)

    def fae(ai, fn, this, args, node):
        e = ai.key(ai.rval(args[0]))
        return Rf('range', [('b', T('first', e)), ('e', T('last', e))])

    def me(ai, fn, this, args, node):
        return T('edge', *sorted((idx(ai.rval(a)) for a in args), key=str))
    ai = ctx.ai(intercepts={K + 'Triangle_mesh::faces_around_edge': fae, K + 'make_edge': me})
    outs = ai.explore(lambda: ai.rval(ai.call_fn(f, sym_this(ai, f), sym_args(ai, f))))
    n = 0
    for o in outs:
        r = dict(o.val[3]) if isR(o.val) and o.val[2] == 'range' else {}
        b, e = r.get('b'), r.get('e')
        if not (isR(b) and isR(e)):
            return ctx.und(rule, w, show(o.val)[:200])
        b, e = dict(b[3]), dict(e[3])
        border = {}
        for t, d in o.st.dom.items():
            ed = find_edge(t)
            if ed is not None and len(d) == 1 and isT(t) and t[1] in ('?has',):
                border[ed] = next(iter(d))
        if not face_is(b.get(R['f']), f):
            return ctx.viol(rule, w, f'the neighbours of {show(b.get(R["f"]))[:100]}', key='face')
        got = set()
        for k in range(3):
            it, en, it2 = b.get(R['it'][k]), b.get(R['end'][k]), e.get(R['it'][k])
            if not all(isT(x) and x[1] in ('first', 'last') for x in (it, en, it2)):
                return ctx.und(rule, w, show(it)[:100])
            ed = it[2]
            if en != T('last', ed):
                return ctx.viol(rule, w, f'from {show(it)[:100]} to {show(en)[:100]}', key='end')
            if it2 != en:
                return ctx.viol(rule, w, f'the end of the range is {show(it2)[:100]}', key='end')
            if ed not in border:
                return ctx.viol(rule, w, f'edge {k + 1} is used although it may be a border', key='border') if it[1] == 'first' else \
                    ctx.viol(rule, w, f'edge {k + 1} is left out', key='border')
            if (it[1] == 'last') != border[ed]:
                return ctx.viol(rule, w, f'edge {k + 1} is {"crossed although it is" if border[ed] else "not crossed although it is not"} a border', key='border')
            got.add(ed)
        ks = set()
        for ed in got:
            cs = [x for x in (corner_no(x) for x in ed[2:])]
            if None in cs or len(cs) != 2:
                return ctx.und(rule, w, show(ed)[:200])
            ks.add(frozenset(cs))
        if ks != {frozenset(x) for x in ((0, 1), (1, 2), (0, 2))}:
            return ctx.viol(rule, w, f'the edges are {sorted(map(sorted, ks))}', key='edges')
        n += 1
    if n != 8:
        return ctx.und(rule, w, f'{n} cases')
    ctx.ok(rule, w)
    ctx.analysed.add(w)


def find_edge(t):
    if isT(t):
        if t[1] == 'edge':
            return t
        for x in t[2:]:
            r = find_edge(x)
            if r is not None:
                return r
    return None


def face_is(v, f):
    n = f['params'][0]['n']
    while isR(v):
        if v[3]:
            v = v[3][0][1]
        else:
            v = v[1]
    return v in (T('atom', n), T('.', T('atom', n), 'i_'))


def corner_no(t):
    """Which corner of the face."""
    if isT(t) and t[1] == '.':
        t = t[2]
    if isT(t) and t[1] == 'at' and isinstance(t[3], int):
        x = t[2]
        while isT(x) and x[1] in ('at', '.'):
            if x[1] == 'at':
                return t[3]
            x = x[2]
    return None


# ---------------------------------------------------------------- the table
def finalize(ctx, p, f):
    rule = 'table of the faces at a vertex'
    w = ctx.where(f)
    ai = ctx.ai()
    this = T('atom', 'this')
    c = base(f['cls'])
    outs = ai.explore(lambda: ai.call_fn(f, sym_this(ai, f), []))
    if len(outs) != 1 or outs[0].kind not in ('norm', 'ret'):
        return ctx.und(rule, w, 'paths')
    o = outs[0]
    sorts = [e for e in o.ev if e[0] == 'sort']
    if not sorts:
        return ctx.viol(rule, w, 'the faces are not sorted by vertex', key='sort') if not any(e[0] == 'ext' for e in o.ev) else ctx.und(rule, w, 'sort')
    if len(sorts) != 1 or sorts[0][1] != 'sorted':
        return ctx.und(rule, w, 'sort')
    pos = o.ev.index(sorts[0])
    src = next((e[3] for e in o.ev[pos:] if e[0] == 'w'), None)
    t = src[1][0][1] if isS(src) and len(src[1]) == 1 and src[1][0][0] == 's' else None
    if not (isT(t) and t[1] in ('sorted', 'sorted_part')):
        return ctx.und(rule, w, f'{show(src)[:200]}')
    if t[1] == 'sorted_part':
        return ctx.viol(rule, w, 'only a part of the table is sorted', key='sort')
    # what is sorted
    s0 = t[2]
    if not (isS(s0) and len(s0[1]) == 1 and s0[1][0][0] == 'g'):
        return ctx.und(rule, w, f'the table is made of {show(s0)[:300]}')
    _, kap, dom, alts, flag = s0[1][0]
    faces = next((x[2] for x in walk(dom) if isT(x) and x[1] == 'len'), None)
    if dom != T('len', faces):
        return ctx.viol(rule, w, f'the table has {show(dom)[:200]} parts', key='bound')
    items = []
    for g, its in alts:
        if g:
            return ctx.und(rule, w, 'a face under a condition')
        items += list(its)
    face = T('at', faces, kap)
    got, vc = set(), set()
    for it in items:
        if not isR(it) or len(it[3]) != 2:
            return ctx.und(rule, w, show(it)[:200])
        d = dict(it[3])
        vs = {n: number(x) for n, x in d.items()}
        fc = [n for n, x in vs.items() if x == kap]
        if len(fc) != 1:
            return ctx.viol(rule, w, f'an entry for {show(it)[:200]}', key='entry')
        v = next(x for n, x in vs.items() if n != fc[0])
        k = next((k for k in range(3) if v in (T('at', face, k), T('.', T('at', face, k), 'i_'))), None)
        if k is None:
            return ctx.viol(rule, w, f'an entry for {show(v)[:200]}', key='entry')
        got.add(k)
        vc.add(next(n for n in d if n != fc[0]))
    if got != {0, 1, 2} or len(items) != 3:
        return ctx.viol(rule, w, f'a face is entered at the corners {sorted(got)}', key='corners')
    if len(vc) != 1:
        return ctx.und(rule, w, 'entries')
    vc = vc.pop()
    fc = next(n for n in dict(items[0][3]) if n != vc)
    # how it is sorted
    if t[3] == 'less':
        if vc not in ('0', 'first', sorted(dict(items[0][3]))[0]):
            return ctx.viol(rule, w, 'sorted by face', key='order')
    else:
        bad = order(ctx, ai, sorts[0][4], vc, fc)
        if bad is None:
            return ctx.und(rule, w, 'order')
        if bad:
            return ctx.viol(rule, w, f'the order {bad}', key='order')
    # the lists
    fld = {}
    ls = [e for e in o.ev[pos:] if e[0] == 'loop']
    if len(ls) != 1 or any(q['kind'] != 'norm' for q in ls[0][4]):
        return ctx.und(rule, w, 'loop over the table')
    e = ls[0]
    k2 = e[2]
    if lin(e[3]) not in (({T('len', faces): 3}, 0), ({T('len', t): 1}, 0)):
        return ctx.viol(rule, w, f'{show(e[3])[:200]} entries of the table are used', key='count')
    el = T('at', t, k2)
    ve = [T('.', el, vc), T('.', T('.', el, vc), 'i_')]
    hit = [(lv, i0, h) for lv, (i0, h) in e[6].items() if isinstance(i0, int) and isT(h) and h[1] == 'hv']
    if len(hit) > 1:
        return ctx.und(rule, w, f'the previous vertex: {[x[0] for x in hit]}')
    lv, i0, h = hit[0] if hit else (None, -1, T('none'))
    index, faceslist = set(), set()
    for pv, v in ((-1, 0), (-1, 1), (-1, 3), (0, 0), (0, 1), (0, 2), (2, 2), (3, 6)):
        m = Model({h: pv + i0 + 1, ve[0]: v, ve[1]: v, k2: 0 if pv == -1 else 5}, lambda *_: None)
        en = steps(m, e)
        if en is None or len(en) != 1:
            return ctx.und(rule, w, 'cases')
        q = en[0]
        n = 0
        nf = 0
        for x in q['ev']:
            if x[0] == 'w' and x[1] == 'this':
                y = last(x[3])
                if y is None:
                    y = repeated(x[3])
                    if y is None or m.num(y[1]) is None:
                        return ctx.und(rule, w, show(x[3])[:200])
                    y, cnt = y[0], m.num(y[1])
                else:
                    cnt = 1
                if number(y) in (T('.', el, fc), T('.', T('.', el, fc), 'i_')):
                    nf += cnt
                    faceslist.add(x[2])
                elif y == k2:
                    n += cnt
                    index.add(x[2])
                else:
                    return ctx.viol(rule, w, f'{show(y)[-200:]} is entered', key='entered')
            elif x[0] == 'loop':
                if len(x[4]) != 1 or x[4][0]['kind'] != 'norm' or x[3] is None or m.num(x[3]) is None:
                    return ctx.und(rule, w, 'inner loop')
                for y in x[4][0]['ev']:
                    if y[0] == 'w' and y[1] == 'this':
                        a = last(y[3])
                        if a is None:
                            return ctx.und(rule, w, 'inner loop')
                        if a != k2:
                            return ctx.viol(rule, w, f'the faces of a vertex start at {show(a)[:200]}', key='start')
                        n += max(0, m.num(x[3]))
                        index.add(y[2])
        if nf != 1:
            return ctx.viol(rule, w, f'an entry of the table is listed {nf} times', key='list')
        if n != v - pv:
            return ctx.viol(rule, w, f'from vertex {pv} to {v} there are {n} entries', key='gap')
        c = m.num(final(ai, q, lv)) if hit else v + i0 + 1
        if c is None:
            return ctx.und(rule, w, f'the previous vertex becomes {show(final(ai, q, lv))[-200:]}')
        if c != v + i0 + 1:
            return ctx.viol(rule, w, f'after vertex {v} the previous vertex is {c - i0 - 1}', key='previous')
    if len(index) != 1 or len(faceslist) != 1 or index == faceslist:
        return ctx.und(rule, w, 'lists')
    fld['index'] = index.pop()
    # the end
    tail = [x for x in o.ev[o.ev.index(e) + 1:] if x[0] == 'w' and x[1] == 'this']
    if not tail:
        return ctx.viol(rule, w, 'the faces of the last vertex have no end', key='last')
    if len(tail) != 1 or tail[0][2] != fld['index']:
        return ctx.und(rule, w, 'end')
    a = last(tail[0][3])
    if a is None or lin(a) not in (({T('len', faces): 3}, 0), ({T('len', t): 1}, 0), ({T('len', s0): 1}, 0)):
        return ctx.viol(rule, w, f'the faces of the last vertex end at {show(a)[:200]}', key='last')
    ctx.ok(rule, w)
    ctx.analysed.add(w)


def number(x):
    while isR(x) and x[3]:
        x = x[3][0][1]
    if isR(x):
        x = x[1]
    return x


def last(s):
    """What is appended to a sequence, once."""
    if isS(s) and len(s[1]) == 2 and s[1][0][0] == 's' and s[1][1][0] == '1' and not s[2]:
        return s[1][1][1]
    return None


def repeated(s):
    """(value, count) of what is appended."""
    if isS(s) and len(s[1]) == 2 and s[1][0][0] == 's' and s[1][1][0] == 'r' and not s[2]:
        return s[1][1][2], s[1][1][1]
    if isS(s) and len(s[1]) == 2 and s[1][0][0] == 's' and s[1][1][0] == 'g' and not s[2]:
        _, k, dom, alts, fl = s[1][1]
        if len(alts) == 1:
            (g, its), = alts
            if not g and len(its) == 1 and not any(x == k for x in walk(its[0])):
                return its[0], dom
    return None


def walk(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from walk(x)


def order(ctx, ai, cmp, vc, fc):
    """Is a comparison that of (vertex, face)?"""
    vals = [(a, b) for a in (1, 2) for b in (1, 2)]

    def mk(n):
        return T('atom', n)
    res = {}

    def go():
        names = sorted((vc, fc))
        rec = lambda s: Rf('tuple', [(n, mk_index(mk(s + n))) for n in names])
        return ai.rval(ai.call_value(cmp, [rec('l'), rec('r')], None))
    try:
        outs = ai.explore(go)
    except Exception:
        return None
    for a in vals:
        for b in vals:
            m = Model({mk('l' + vc): a[0], mk('l' + fc): a[1], mk('r' + vc): b[0], mk('r' + fc): b[1]}, lambda *_: None)
            en = [o for o in outs if m.enabled(o.st.dom)]
            if len(en) != 1:
                return None
            v = en[0].val
            if isT(v):
                v = m.holds(v, frozenset({True}))
            if v is None:
                return None
            if bool(v) != (a < b):
                return f'of {a} and {b} is {v}'
    return ''
