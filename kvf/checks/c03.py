"""Face data follows every face from the operands to the result."""
from spec import *

EXPLANATION = (
    'The flow of the face data is followed by abstract interpretation through every stage: construction of the combined '
    'mesh (each emitted part of a face is paired with a datum made of the operand mark, the tag and the data of that very '
    'face), the counts reported by the subdivision, the special operands, the hand-over of the mesh and the extraction '
    '(the data of the emitted face is the data of the input face). An effect rule over all functions finds writers that '
    'change the data or the operand mark of a face after construction.')
ASSUMPTIONS = ['CGAL enumerates the finite faces of a triangulation once each']


def run(ctx):
    ctx.guarded('extract', ctx.fn('kigumi::Extract::operator()'), lambda: extract(ctx))
    ctx.guarded('combine', ctx.fn('kigumi::Mix::operator()'), lambda: combine(ctx))
    ctx.guarded('combine small meshes', ctx.fn('kigumi::Mix::operator()'), lambda: combine_small(ctx))
    for side, other in (('left', 'right'), ('right', 'left')):
        n = f'kigumi::Corefine::get_{side}_faces'
        ctx.guarded(f'parts of {side} faces', ctx.fn(n), lambda: parts(ctx, n, side, other))
    ctx.guarded('special operands', ctx.fn('kigumi::Boolean_region_builder::Boolean_region_builder',
                                           pred=lambda f: len(f['params']) == 2), lambda: special(ctx))
    ctx.guarded('hand-over', ctx.fn('kigumi::Triangle_mesh::take_triangle_soup'), lambda: handover(ctx))
    for cls in ('kigumi::Triangle_soup', 'kigumi::Triangle_mesh'):
        ctx.guarded('data belongs to face', ctx.fn(cls + '::add_face'), lambda: add_face(ctx, cls))
        accessors(ctx, cls)
    writers(ctx)


def extract(ctx):
    """The data of an emitted face is that of the face it was made from."""
    P, F, D = soup_fields(ctx)
    f = ctx.fn('kigumi::Extract::operator()')
    ops = op_values(ctx.prog())
    m = T('atom', 'm')
    w = ctx.where(f)
    for letter in 'AEJKLC':
        for pref in (True, False):
            ai = ctx.ai(intercepts=soup_intercepts())
            given = {}
            for prm in f['params']:
                _, t = ai.p.deref(prm['t'])
                b = base(t.get('base', ''))
                if b == 'kigumi::Triangle_soup':
                    given[prm['n']] = ('&', ai.newcell('m', opaque('m', b)), ())
                elif b == 'kigumi::Boolean_operator':
                    given[prm['n']] = ops[letter]
                elif t.get('c') == 'bool':
                    given[prm['n']] = pref
            outs = ai.explore(lambda: ai.call_fn(f, sym_this(ai, f), sym_args(ai, f, **given)))
            n = 0
            for o in outs:
                for e in loops_in(o.ev):
                    for q in e[4]:
                        evs = list(flat_events(q['ev']))
                        for a in (x for x in evs if x[0] == 'add_face'):
                            n += 1
                            src = [t for t in subterms(a[2]) if isT(t) and t[1] == 'at' and t[2] == T('.', m, F)]
                            src = {t[3] for t in src}
                            if not src:   # reached through vertices only
                                src = {t[3] for g in q['guard'] for t in subterms(g)
                                       if isT(t) and t[1] == 'at' and t[2] in (T('.', m, F), T('.', m, D))}
                            cell = a[3]
                            data = fget(q['st'].store.get(cell), 'data')
                            if data is None or len(src) != 1:
                                ctx.und('extract', w, f'origin of the face {show(a[2])[:160]}')
                                return
                            i = next(iter(src))
                            exp = T('.', T('at', T('.', m, D), i), 'data')
                            if ai.norm(data) != exp and data != exp:
                                ctx.viol('extract', w, f'the face made from face {show(i)} gets the data {show(data)[:200]} instead of {show(exp)} '
                                         f'(operator {letter})')
                                return
            ctx.count('emitted faces', n)
    ctx.ok('extract', w)


def subterms(v):
    st = [v]
    while st:
        x = st.pop()
        if isT(x):
            yield x
        if isinstance(x, (tuple, frozenset)):
            st.extend(x)


def combine(ctx):
    P, F, D = soup_fields(ctx)
    f = ctx.fn('kigumi::Mix::operator()')
    w = ctx.where(f)

    def corefine(ai, fn, this, args, node):
        a, b = [ai.norm(ai.rval(x)) for x in args]
        ai.st.ev.append(('corefine', a, b))
        return Rf('kigumi::Corefine', [('l', a), ('r', b)], T('atom', 'cf'))

    def getf(side):
        def h(ai, fn, this, args, node):
            fi = idx(ai.rval(args[0]))
            g = T('parts', side, fi)
            lv = dict(ai.rval(args[1])[3])['to']
            cur = ai.as_seq(ai.read(lv))
            ai.write(lv, ('S', cur[1] + (('s', g),), cur[2]))
            return tup(T('tagof', side, fi), T('len', g))
        return h

    def mesh(ai, fn, this, args, node):
        if len(args) == 3:
            ai.st.ev.append(('mesh',) + tuple(ai.rval(a) for a in args))
        return opaque('mesh', 'kigumi::Triangle_mesh')

    def nop(name, ret):
        def h(ai, fn, this, args, node):
            return ret
        return h
    ai = ctx.ai(intercepts={
        'kigumi::Corefine::Corefine': corefine, 'kigumi::Corefine::get_left_faces': getf('L'),
        'kigumi::Corefine::get_right_faces': getf('R'), 'kigumi::Corefine::take_points': nop('take_points', T('atom', 'pts')),
        'kigumi::Corefine::get_intersecting_edges': nop('edges', ('M', T('atom', 'edges'), ())),
        'kigumi::Triangle_mesh::Triangle_mesh': mesh, 'kigumi::Triangle_mesh::finalize': nop('finalize', None),
        'kigumi::Triangle_mesh::take_triangle_soup': nop('take', T('atom', 'tsoup')),
        'kigumi::parallel_do': nop('parallel_do', None),
        'kigumi::Classify_faces_globally::operator()': nop('global', T('atom', 'gw'))})
    args = sym_args(ai, f)
    names = [ai.norm(ai.rval(a)) for a in args[:2]]
    outs = ai.explore(lambda: ai.call_fn(f, sym_this(ai, f), args))
    ctx.analysed |= {ctx.where(ai.p.fns[i]) for i in ai.called}
    sides = dict(zip('LR', names))
    for o in outs:
        ms = [e for e in flat_events(o.ev) if e[0] == 'mesh']
        cs = [e for e in flat_events(o.ev) if e[0] == 'corefine']
        if len(ms) != 1 or len(cs) != 1:
            ctx.und('combine', w, f'{len(ms)} combined meshes, {len(cs)} corefinements')
            return
        if list(cs[0][1:3]) != names:
            ctx.viol('combine', w, 'the operands of the corefinement are not (first, second)')
            return
        pts, faces, data = ms[0][1:4]
        if pts != T('atom', 'pts'):
            ctx.viol('combine', w, f'points of the combined mesh: {show(pts)[:200]}')
            return
        fs, ds = segs(ai, faces), segs(ai, data)
        if fs is None or ds is None:
            ctx.und('combine', w, f'{show(faces)[:200]} / {show(data)[:200]}')
            return
        if len(fs) != len(ds):
            ctx.viol('combine', w, f'{len(fs)} groups of faces, {len(ds)} groups of data')
            return
        need = {'L', 'R'}
        X = T('atom', 'x')
        for (fk, fn_, fv), (dk, dn, dv) in zip(fs, ds):
            g = subst(fv, {fk: X})
            d = subst(dv, {dk: X})
            if isT(g) and g[1] == 'seg' and g[2][0] == 's':
                g = g[2][1]
            if not (isT(g) and g[1] == 'parts'):
                ctx.und('combine', w, f'faces: {show(g)[:200]}')
                return
            side, i = g[2], g[3]
            src = sides[side]
            if fn_ != ai.seglen(('s', T('.', src, F))) or (i != X and i != sub(sub(fn_, 1), X)):
                ctx.viol('combine', w, f"not every face of the {'first' if side == 'L' else 'second'} operand is combined ({show(fn_)}, {show(i)})")
                return
            if fn_ != dn:
                ctx.viol('combine', w, f'data for {show(dn)} faces instead of {show(fn_)}')
                return
            r = uniform(d)
            if r is None:
                ctx.und('combine', w, f'data: {show(d)[:200]}')
                return
            cnt, v = r
            if cnt != T('len', g):
                ctx.viol('combine', w, f'{show(cnt)} data for the {show(T("len", g))} parts of a face: data and faces get out of step')
                return
            if fget(v, 'from_left') is not (side == 'L'):
                ctx.viol('combine', w, f"parts of the {'first' if side == 'L' else 'second'} operand are marked as the other's")
                return
            if fget(v, 'tag') != T('tagof', side, i):
                ctx.viol('combine', w, f"tag of a part: {show(fget(v, 'tag'))[:120]}")
                return
            if ai.norm(fget(v, 'data')) != T('at', T('.', src, D), i):
                ctx.viol('combine', w, f"the parts of face {show(i)} of the {'first' if side == 'L' else 'second'} operand get the data "
                         f"{show(fget(v, 'data'))[:160]}")
                return
            need.discard(side)
        if need:
            ctx.viol('combine', w, f'faces of an operand are missing')
            return
    ctx.ok('combine', w)


def combine_small(ctx):
    """The same for known numbers of faces and parts: the combined mesh is built completely."""
    from checks.c23 import Mesh, seq, TS, flat
    rule = 'combine small meshes'
    f = ctx.fn('kigumi::Mix::operator()')
    w = ctx.where(f)
    cases = [((), ()), ((1,), ()), ((), (2,)), ((1,), (1,)), ((3,), (2,)), ((1, 2), (3,)), ((2, 1, 1), (1, 4)), ((5, 1, 2), (1, 1, 3)), ((1, 1, 1), (6, 1))]
    for ls, rs in cases:
        r = combine_one(ctx, f, ls, rs, Mesh(ctx, TS), Mesh(ctx, TS), seq, flat)
        if r:
            return (ctx.viol if r[0] == 'viol' else ctx.und)(rule, w, f'faces with {list(ls)} and {list(rs)} parts: {r[1]}')
    ctx.count('pairs of small meshes', len(cases))
    ctx.ok(rule, w)


def combine_one(ctx, f, ls, rs, L, R, seq, flat):
    made = []

    def getf(side, counts):
        def h(ai, fn, this, args, node):
            fi = idx(ai.rval(args[0]))
            if not isinstance(fi, int) or not 0 <= fi < len(counts):
                return NotImplemented
            lv = dict(ai.rval(args[1])[3])['to']
            cur = ai.as_seq(ai.read(lv))
            ai.write(lv, ('S', cur[1] + tuple(('1', T('part', side, fi, k)) for k in range(counts[fi])), cur[2]))
            return tup(T('tagof', side, fi), counts[fi])
        return h

    def mesh(ai, fn, this, args, node):
        if len(args) == 3:
            made.append(tuple(ai.rval(a) for a in args))
        return opaque('mesh', 'kigumi::Triangle_mesh')

    def nop(ret):
        return lambda ai, fn, this, args, node: ret
    ai = ctx.ai(intercepts={
        'kigumi::Corefine::Corefine': lambda ai, fn, this, args, node: ('R', T('atom', 'corefine'), 'kigumi::Corefine', ()),
        'kigumi::Corefine::get_left_faces': getf('L', ls), 'kigumi::Corefine::get_right_faces': getf('R', rs), 'kigumi::Corefine::take_points': nop(T('atom', 'pts')),
        'kigumi::Corefine::get_intersecting_edges': nop(('M', T('atom', 'edges'), ())),
        'kigumi::Triangle_mesh::Triangle_mesh': mesh, 'kigumi::Triangle_mesh::finalize': nop(None),
        'kigumi::Triangle_mesh::take_triangle_soup': nop(T('atom', 'tsoup')), 'kigumi::parallel_do': nop(None),
        'kigumi::Classify_faces_globally::operator()': nop(T('atom', 'gw'))})
    ai.UNROLL = 24

    def go():
        made.clear()
        a = []
        for side, M, c in (('L', L, ls), ('R', R, rs)):
            a.append(M.make(ai, [T('atom', f'{side}{i}') for i in range(3)], [[0, 1, 2]] * len(c), [T('data', side, i) for i in range(len(c))], side))
        ai.call_fn(f, sym_this(ai, f), a)
        return ('res', list(made))
    outs = ai.explore(go)
    if len(outs) != 1:
        return 'und', f'{len(outs)} paths'
    o = outs[0]
    if o.kind == 'throw':
        return 'viol', f'ends with {show(o.val)[:150]}'
    if o.kind not in ('norm', 'ret') or len(o.val[1]) != 1:
        return 'und', f'{o.kind} {len(made)} combined meshes'
    pts, faces, data = o.val[1][0]
    fs, ds = flat(faces), flat(data)
    if fs is None or ds is None or any(not isT(x) or x[1] != 'part' for x in fs):
        return 'und', f'{show(faces)[:200]} / {show(data)[:200]}'
    if len(fs) != len(ds):
        return 'viol', f'{len(fs)} faces with {len(ds)} data'
    want = [T('part', s, i, k) for s, c in (('L', ls), ('R', rs)) for i, n in enumerate(c) for k in range(n)]
    if sorted(fs) != sorted(want):
        return 'viol', f'{len(set(fs))} of {len(want)} parts are combined'
    for x, d in zip(fs, ds):
        s, i = x[2], x[3]
        if not isR(d):
            return 'und', show(d)[:100]
        if fget(d, 'from_left') is not (s == 'L') or fget(d, 'tag') != T('tagof', s, i) or fget(d, 'data') != T('data', s, i):
            return 'viol', f'part {x[4] + 1} of face {i} of the {"first" if s == "L" else "second"} operand has the data {show(d)[:160]}'
    return None


def segs(ai, v):
    """[(generic index, count, value)] of a sequence of uniform groups."""
    if not isS(v) or v[2]:
        return None
    out = []
    for s in v[1]:
        if s[0] == 'g' and len(s[3]) == 1:
            (g, vals), = s[3]
            if len(vals) != 1 or g:
                return None
            out.append((s[1], s[2], vals[0]))
        elif s[0] == 'r' and s[1] == 0:
            continue
        else:
            return None
    return out


def uniform(d):
    """(count, value) of a repeated element."""
    if isT(d) and d[1] == 'seg':
        s = d[2]
        if s[0] == 'r':
            return s[1], s[2]
        if s[0] == 'g' and len(s[3]) == 1:
            (g, vals), = s[3]
            if len(vals) == 1 and not g and not contains(vals[0], s[1]):
                return s[2], vals[0]
        return None
    return 1, d


def parts(ctx, name, side, other):
    """get_*_faces: the reported number of parts is the number of faces written; the tag is that of the face."""
    f = ctx.fn(name)
    w = ctx.where(f)
    rule = f'parts of {side} faces'
    ai = ctx.ai()
    vec = ai.newcell('outvec', EMPTY_SEQ)
    it = Rf('out_it', [('to', ('&', vec, ()))])
    args = sym_args(ai, f)
    for k, prm in enumerate(f['params']):
        _, t = ai.p.deref(prm['t'])
        if base(t.get('base', '')) != 'kigumi::Index':
            args[k] = it
        else:
            fi = idx(ai.rval(args[k]))
    outs = ai.explore(lambda: ai.call_fn(f, sym_this(ai, f), args))
    ctx.analysed |= {ctx.where(ai.p.fns[i]) for i in ai.called}
    n = 0
    for o in outs:
        if o.kind not in ('norm', 'ret'):
            continue
        n += 1
        tag, cnt = fget(o.val, '0'), fget(o.val, '1')
        ai.st = o.st
        wrote = ai.seq_len(o.st.store[vec])
        if wrote != cnt:
            r = differ(ai, o.st.store[vec], wrote, cnt)
            if r:
                ctx.viol(rule, w, f'reports {show(cnt)} parts but writes {show(wrote)}, when {o.show_cond()[:200]}')
            else:
                ctx.und(rule, w, f'{show(cnt)} / {show(wrote)}')
            return
        if not (isT(tag) and tag[1] == 'at' and tag[3] == fi):
            ctx.viol(rule, w, f'the reported tag is {show(tag)[:120]}, not that of the face')
            return
        own = {x[2] for t in [tag] + list(o.cond) + list(subterms(o.st.store[vec])) for x in subterms(t)
               if isT(x) and x[1] == '.' and x[2] == T('atom', 'this')}
        fields = {x[3] for t in [tag] + list(o.cond) + [o.st.store[vec]] for x in subterms(t)
                  if isT(x) and x[1] == '.' and x[2] == T('atom', 'this')}
        wrong = [x for x in fields if other in x and side not in x]
        if wrong:
            ctx.viol(rule, w, f'uses {", ".join(sorted(wrong))} of the other operand')
            return
    if n:
        ctx.ok(rule, w)
    else:
        ctx.und(rule, w, 'no result')


def differ(ai, v, wrote, cnt):
    """True: certainly different; None: unknown; False: equal."""
    d = sub(wrote, cnt)
    if isnum(d):
        return d != 0
    segs_ = [s for s in v[1] if s[0] == 'g'] if isS(v) else []
    if len(segs_) != 1:
        return None
    k, K = segs_[0][1], T('k')
    alts = {subst(g, {k: K}): len(vals) for g, vals in segs_[0][3] if not any(isT(x) and x[1] == 'seg' for x in vals)}
    if len(alts) != len(segs_[0][3]):
        return None
    rest = len([s for s in v[1] if s[0] == '1'])
    if isT(cnt) and cnt[1] == 'fold' and cnt[2] == '+':
        it = {g: n for g, n in cnt[5]}
        if cnt[3] == rest and all(isnum(n) for n in it.values()) and set(it) <= set(alts):
            return any(it.get(g, 0) != n for g, n in alts.items())
    return None


def special(ctx):
    P, F, D = soup_fields(ctx)
    KF, BF = region_fields(ctx)
    kinds = enum_vals(ctx.prog(), 'kigumi::Region_kind')
    f = ctx.fn('kigumi::Boolean_region_builder::Boolean_region_builder', pred=lambda f: len(f['params']) == 2)
    w = ctx.where(f)
    for ka, kb in (('EMPTY', 'B'), ('FULL', 'B'), ('B', 'EMPTY'), ('B', 'FULL')):
        def region(name, k):
            b = opaque(name + '.b', 'kigumi::Triangle_soup') if k == 'B' else soup_value(ctx, EMPTY_SEQ, EMPTY_SEQ, EMPTY_SEQ)
            return Rf('kigumi::Region', [(KF, kinds['BOUNDARY_DEFINED' if k == 'B' else k]), (BF, b)])
        ai = ctx.ai()
        A = ('&', ai.newcell('a', region('a', ka)), ())
        B = ('&', ai.newcell('b', region('b', kb)), ())
        outs = ai.explore(lambda: ai.construct_repo(f, [A, B], f.get('rid')))
        src = T('atom', 'a.b' if ka == 'B' else 'b.b')
        for o in outs:
            if o.kind not in ('norm', 'ret'):
                continue
            ms = [x for _, x in o.val[3] if isR(x) and x[2] == 'kigumi::Triangle_soup']
            if len(ms) != 1:
                ctx.und('special operands', w, 'combined operands not found')
                return
            X = T('atom', 'x')
            fe, de = elem_at(fget(ms[0], F), X), elem_at(fget(ms[0], D), X)
            if (fget(ms[0], F) == EMPTY_SEQ) != (fget(ms[0], D) == EMPTY_SEQ):
                ctx.viol('special operands', w, f'{"faces" if fget(ms[0], F) == EMPTY_SEQ else "data"} of the {"first" if ka == "B" else "second"} operand are missing')
                return
            if fe is None or de is None:
                ctx.und('special operands', w, show(ms[0])[:200])
                return
            d = fget(de, 'data')
            if not (isT(ai.norm(fe)) and ai.norm(fe)[1] == 'at'):
                ctx.und('special operands', w, show(fe)[:200])
                return
            i = ai.norm(fe)[3]
            if ai.norm(d) != T('at', T('.', src, D), i):
                ctx.viol('special operands', w, f'face {show(i)} gets the data {show(d)[:160]}')
                return
    ctx.ok('special operands', w)


def handover(ctx):
    P, F, D = soup_fields(ctx)
    mf = {k: field_of(ctx, 'kigumi::Triangle_mesh', m) for k, m in ((P, 'point'), (F, 'face'), (D, 'data'))}
    f = ctx.fn('kigumi::Triangle_mesh::take_triangle_soup')
    w = ctx.where(f)
    ctor = ctx.fn('kigumi::Triangle_mesh::Triangle_mesh', pred=lambda f: len(f['params']) == 3)
    for mode in ('full',):
        ai = ctx.ai()
        vals = [Ssym(T('atom', x)) for x in ('pts', 'fcs', 'dat')]

        def thunk():
            m = ai.construct_repo(ctor, list(vals), None, ai.p.records.get(ctor.get('rid')))
            return ai.call_fn(f, ('&', ai.newcell('mesh', m), ()), [])
        for o in ai.explore(thunk):
            if o.kind not in ('norm', 'ret'):
                ctx.viol('hand-over', w, o.kind)
                return
            for fld, a in ((P, 'pts'), (F, 'fcs'), (D, 'dat')):
                v = fget(o.val, fld)
                if v is not None and isS(v) and len(v[1]) == 1 and v[1][0] == ('s', T('atom', a)) or v == T('atom', a):
                    continue
                ctx.viol('hand-over', w, f'{fld} of the result is {show(v)[:160]}')
                return
    ctx.ok('hand-over', w)


def add_face(ctx, cls):
    P, F, D = [field_of(ctx, cls, m) for m in ('point', 'face', 'data')]
    f = ctx.fn(cls + '::add_face')
    w = ctx.where(f)
    ai = ctx.ai()
    th = sym_this(ai, f)
    args = sym_args(ai, f)
    t = T('atom', 'this')
    nf = ai.seglen(('s', T('.', t, F)))
    for o in ai.explore(lambda: ai.call_fn(f, th, args)):
        if o.kind not in ('norm', 'ret'):
            continue
        ai.st = o.st
        v = o.st.store[th[1]]
        a, b = ai.seq_len(fget(v, F)), ai.seq_len(fget(v, D))
        ctx.check(sub(a, nf) == 1 and sub(b, ai.seglen(('s', T('.', t, D)))) == 1 and idx(o.val) == nf, 'one datum per face', w,
                  f'faces grow by {show(sub(a, nf))}, data by {show(sub(b, ai.seglen(("s", T(".", t, D)))))}, returned index {show(o.val)}')


def accessors(ctx, cls):
    """face(i) and data(i) use the same index, and no other."""
    for m in ('face', 'data'):
        fld = field_of(ctx, cls, m)
        for f in ctx.prog().find(cls + '::' + m):
            if f.get('body') is None:
                continue

            def go():
                ai = ctx.ai()
                args = sym_args(ai, f)
                i = idx(ai.rval(args[0]))
                th = sym_this(ai, f)
                for o in ai.explore(lambda: ai.call_fn(f, th, args)):
                    if o.kind in ('norm', 'ret'):
                        v = o.val
                        if isLV(v):
                            okk = v[1] == th[1] and v[2] == (('f', fld), ('i', i))
                        else:
                            okk = ai.norm(v) == T('at', T('.', T('atom', 'this'), fld), i)
                        ctx.check(okk, f'{m} of a face', ctx.where(f), f'returns {show(v)[:160]}')
                        return
            ctx.guarded(f'{m} of a face', f, go)


def writers(ctx):
    """No function changes the data or the operand mark of a face of the combined mesh."""
    p = ctx.prog()
    n = 0
    for f in p.fns.values():
        if f.get('body') is None:
            continue
        for x in walk(f['body']):
            if x['k'] == 'call' and x.get('op') == '=' and x.get('fn', {}).get('sp') in ('copyassign', 'moveassign'):
                a = ([x['obj']] if x.get('obj') else []) + x['a']
                if len(a) == 2 and p.tbase(a[0].get('t')) == 'kigumi::Mixed_face_data':
                    n += 1
                    if a[1]['k'] in ('call', 'var', 'member', 'idx', 'un') and not f['b'].startswith(
                            ('kigumi::Mix::', 'kigumi::Boolean_region_builder')) and f.get('sp') is None:
                        ctx.viol('data is not rewritten', ctx.where(f, x), 'the description of a face is replaced by that of another')
                        return
                continue
            if x['k'] != 'asg':
                continue
            l = x.get('a')
            if not (isinstance(l, dict) and l.get('k') == 'member'):
                continue
            n += 1
            cls = base(l.get('cls') or p.tbase(l['e'].get('t')) if isinstance(l.get('e'), dict) else '')
            if cls == 'kigumi::Mixed_face_data' and l['n'] in ('data', 'from_left'):
                if f['b'].startswith(('kigumi::Mix::', 'kigumi::Boolean_region_builder')):
                    continue
                ctx.viol('data is not rewritten', ctx.where(f, x), f"{l['n']} of a face of the combined mesh is assigned")
                return
    ctx.count('member assignments inspected', n)
    if n:
        ctx.ok('data is not rewritten', f'{n} member assignments')
