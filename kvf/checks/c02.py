"""Results without a boundary, and operands that are empty or full."""
from spec import *

EXPLANATION = (
    'The builder is interpreted abstractly (construction followed by evaluation) for each of the 9 combinations of '
    'operand kinds and each of the 16 operators; the corefinement and the face extraction are replaced by their '
    'contracts. In every partition the kind of the result (empty, full, bounded) is compared with set algebra, and the '
    'tags, side marks, vertices and faces handed to the extraction are compared with those of the operand that has a boundary.')
ASSUMPTIONS = ['an empty or full region has no boundary faces (C26)', 'the extraction emits faces as C01 states']

EMPTY, FULL, BOUND = 'EMPTY', 'FULL', 'BOUNDARY_DEFINED'


def run(ctx):
    p = ctx.prog()
    ctor = ctx.fn('kigumi::Boolean_region_builder::Boolean_region_builder', pred=lambda f: len(f['params']) == 2)
    call = ctx.fn('kigumi::Boolean_region_builder::operator()')
    kinds = enum_vals(p, 'kigumi::Region_kind')
    tags = enum_vals(p, 'kigumi::Face_tag')
    ops = op_values(p)
    if ctor is None or call is None or not kinds or not tags or not ops:
        ctx.und('anchor', 'Boolean_region_builder', 'not found')
        return
    aliases(ctx, p)
    for ka in (EMPTY, FULL, BOUND):
        for kb in (EMPTY, FULL, BOUND):
            for letter in OPS:
                rule = f'result[{letter}: {ka}, {kb}]'
                ctx.guarded(rule, call, lambda: case(ctx, rule, ctor, call, ka, kb, letter, ops[letter], kinds, tags))


def aliases(ctx, p):
    v = enum_vals(p, 'kigumi::Boolean_operator')
    w = next((ctx.where(f) for f in p.by_base.get('kigumi::union_mask', [])), 'Boolean_operator')
    for name, letter in (('UNION', 'A'), ('SYMMETRIC_DIFFERENCE', 'J'), ('INTERSECTION', 'K'), ('DIFFERENCE', 'L')):
        if name in v and letter in v:
            ctx.check(v[name] == v[letter], f'alias {name}', w, f'{name} is not {letter}')
    vals = [v[l] for l in OPS if l in v]
    ctx.check(len(set(vals)) == 16, 'distinct operators', w, 'two operators share a value')


def case(ctx, rule, ctor, call, ka, kb, letter, op, kinds, tags):
    KF, BF = region_fields(ctx)
    P, F, D = soup_fields(ctx)

    def region(name, k):
        b = soup_value(ctx, EMPTY_SEQ, EMPTY_SEQ, EMPTY_SEQ) if k != BOUND else opaque(name + '.b', 'kigumi::Triangle_soup')
        return Rf('kigumi::Region', [(KF, kinds[k]), (BF, b)])

    def mix(ai, fn, this, args, node):
        ai.st.ev.append(('mix', ai.rval(args[0]), ai.rval(args[1])))
        return tup(opaque('mixed', 'kigumi::Triangle_soup'), T('atom', 'warn'))

    def extract(ai, fn, this, args, node):
        m = ai.rval(args[0])
        ai.st.ev.append(('extract', m, ai.rval(args[1]), ai.rval(args[2])))
        if isR(m) and fget(m, F) == EMPTY_SEQ:
            return soup_value(ctx, EMPTY_SEQ, EMPTY_SEQ, EMPTY_SEQ)
        return opaque('soup', 'kigumi::Triangle_soup')

    ai = ctx.ai(intercepts={'kigumi::Mix::operator()': mix, 'kigumi::Extract::operator()': extract})
    A = ('&', ai.newcell('a', region('a', ka)), ())
    B = ('&', ai.newcell('b', region('b', kb)), ())
    pref = T('atom', 'prefer')
    ai.tdom[pref] = frozenset((False, True))

    def thunk():
        v = ai.construct_repo(ctor, [A, B], ctor.get('rid'))
        th = ('&', ai.newcell('builder', v), ())
        given = []
        for prm in call['params']:
            given.append(pref if ai.p.ty(prm['t']).get('c') == 'bool' else op)
        return ai.call_fn(call, th, given)
    outs = ai.explore(thunk)
    ctx.count('partitions', len(outs))
    ctx.analysed |= {ctx.where(ai.p.fns[i]) for i in ai.called}
    w = ctx.where(call)
    f = TRUTH[letter]
    ina, inb = ka == FULL, kb == FULL
    verdict = True
    nf = T('len', T('.', T('atom', 'soup'), F))
    for o in outs:
        when = o.show_cond()[:300] or 'always'
        # what was extracted
        exs = [e for e in flat_events(o.ev) if e[0] == 'extract']
        mixes = [e for e in flat_events(o.ev) if e[0] == 'mix']
        if ka == kb == BOUND:
            for m in mixes:
                ok = [ai.norm(x) for x in m[1:3]] == [T('atom', 'a.b'), T('atom', 'b.b')]
                if not ok:
                    ctx.viol(rule, ctx.where(ctor), f'the operands are combined as ({show(m[1])}, {show(m[2])}) instead of (first, second)')
                    return
        for e in exs:
            if e[2] != op:
                ctx.viol(rule, w, f'operator {letter}: extraction is run for operator value {show(e[2])}')
                return
            if e[3] != pref:
                pv = o.value(pref)
                if not (isinstance(e[3], bool) and pv is not None and pv == e[3]):
                    ctx.viol(rule, w, 'the choice between coinciding faces is not passed on')
                    return
            if ka == kb == BOUND:
                if ai.norm(e[1]) != T('atom', 'mixed'):
                    ctx.viol(rule, w, f'extraction from {show(e[1])[:120]} instead of the combined operands')
                    return
            elif BOUND in (ka, kb):
                r = mixed_ok(ctx, ai, e[1], ka, kb, tags, (P, F, D))
                if r is not None:
                    (ctx.viol if r[0] else ctx.und)(rule, ctx.where(ctor), r[1])
                    return
        # the result
        if o.kind not in ('norm', 'ret'):
            if ka == kb == BOUND and letter in 'EJFGHI':
                if letter in 'EJ' and isinstance(tagset(o, D, tags), set) and \
                        (tagset(o, D, tags) <= {tags['COPLANAR']} or tagset(o, D, tags) <= {tags['OPPOSITE']}):
                    ctx.viol(rule, w, f'throws although all faces coincide alike, when {when}')
                    return
                continue
            ctx.viol(rule, w, f'{o.kind} {show(o.val)[:100]} when {when}')
            return
        kind, bnd = fget(o.val, KF), fget(o.val, BF)
        if kind not in kinds.values():
            ctx.und(rule, w, f'kind of the result is {show(kind)[:100]}')
            return
        kind = next(k for k, v in kinds.items() if v == kind)
        from_soup = ai.norm(bnd) == T('atom', 'soup')
        has = None
        if exs and ai.norm(fget(exs[-1][1], F)) == EMPTY_SEQ:
            has = False
        elif o.value(T('==0', nf)) is not None:
            has = not o.value(T('==0', nf))
        elif o.value(T('>0', nf)) is not None:
            has = o.value(T('>0', nf))
        if kind == BOUND:
            if not from_soup:
                ctx.viol(rule, w, f'bounded result whose boundary is not the extracted one ({show(bnd)[:100]})')
                return
            if has is False:
                ctx.viol(rule, w, f'bounded result without faces when {when}')
                return
            if {ka, kb} <= {EMPTY, FULL}:
                ctx.viol(rule, w, 'bounded result of operands without boundaries')
                return
            continue
        if has is True:
            ctx.viol(rule, w, f'the result is {kind} although faces were extracted')
            return
        if ka != BOUND and kb != BOUND:
            exp = FULL if f(ina, inb) else EMPTY
        elif BOUND in (ka, kb) and ka != kb:
            # the bounded operand takes both truth values; no faces: the result is constant
            if ka == BOUND:
                vals = {f(False, inb), f(True, inb)}
            else:
                vals = {f(ina, False), f(ina, True)}
            if len(vals) == 2:
                continue       # faces were extracted by C01; this partition is void
            exp = FULL if vals == {True} else EMPTY
        elif letter in 'VABCD':
            exp = FULL
        elif letter in 'KLMXO':
            exp = EMPTY
        elif letter in 'EJ':
            ts = tagset(o, D, tags)
            if ts is None:
                ctx.und(rule, w, f'condition not understood: {when}')
                return
            if ts <= {tags['COPLANAR']}:
                exp = FULL if letter == 'E' else EMPTY
            elif ts <= {tags['OPPOSITE']}:
                exp = EMPTY if letter == 'E' else FULL
            else:
                ctx.viol(rule, w, f'{kind} is returned although not all faces are known to coincide alike, when {when}')
                return
        else:
            continue
        if kind != exp:
            ctx.viol(rule, w, f'operator {letter} of {ka} and {kb}: expected {exp}, found {kind}, when {when}')
            return
    if not outs:
        ctx.und(rule, w, 'no partition')
        return
    ctx.ok(rule, w)


def tagset(o, D, tags):
    """Tags the faces may have in this partition, from its universally quantified facts."""
    ts = set(tags.values())
    seen = False
    for t, d in o.cond.items():
        if isT(t) and t[1] == 'ex':
            pats = t[3]
            if len(d) != 1:
                continue
            if next(iter(d)) is False:
                for pat in pats if isinstance(pats, (tuple, frozenset)) else ():
                    if isinstance(pat, tuple) and len(pat) == 2 and isT(pat[0]) and pat[0][1] == '.' and pat[0][3] == 'tag' and len(pats) == 1:
                        ts -= set(pat[1])
                        seen = True
        elif contains(t, T('atom', 'mixed')) and contains(t, 'tag') and not contains(t, 'kap'):
            return None
    return ts


def mixed_ok(ctx, ai, m, ka, kb, tags, fields):
    P, F, D = fields
    left = ka == BOUND
    src = T('atom', 'a.b' if left else 'b.b')
    other = kb if left else ka
    exp = tags['EXTERIOR' if other == EMPTY else 'INTERIOR']
    for fld in (P, F):
        s = seq_source(ai, fget(m, fld))
        if fget(m, fld) == EMPTY_SEQ:
            return True, f"the {'vertices' if fld == P else 'faces'} of the bounded operand are missing"
        if s is None:
            return False, f'{fld} of the combined operands: {show(fget(m, fld))[:200]}'
        if s[0] != T('.', src, fld) or s[1] != ai.seglen(('s', T('.', src, fld))):
            return True, f"the {'vertices' if fld == P else 'faces'} handed to the extraction are not those of the bounded operand"
    X = T('atom', 'x')
    v = fget(m, D)
    e = elem_at(v, X)
    if v == EMPTY_SEQ:
        return True, 'the faces of the bounded operand have no data'
    if e is None:
        return False, f'face data: {show(v)[:200]}'
    n = ai.seq_len(v)
    if n != ai.seglen(('s', T('.', src, F))):
        return True, f'{show(n)} face data for {show(T("len", T(".", src, F)))} faces'
    if fget(e, 'tag') != exp:
        return True, f"faces of the bounded operand are tagged {show(fget(e, 'tag'))} where the other operand is {other}"
    if fget(e, 'from_left') is not left:
        return True, f"faces of the {'first' if left else 'second'} operand are marked as the other's"
    return None
