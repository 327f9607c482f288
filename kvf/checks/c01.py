"""Each face of the operands appears in the result exactly as the operator's set semantics requires."""
from spec import *

EXPLANATION = (
    'Abstract interpretation of the face extraction for each of the 16 operators and both preferences: the loop over '
    'the classified faces is summarised per (tag, side) partition; what is emitted (nothing, the face, the reversed '
    'face) is compared with the value of the operator on the two sides of the face, derived from set algebra; the '
    'vertices of an emitted face are resolved through the vertex map by its inductive invariant.')
ASSUMPTIONS = ['faces are classified correctly (the other properties)', 'vertex counts stay below 2^60']


def expected(letter, tag, left, prefer):
    f = TRUTH[letter]
    if tag == 'UNKNOWN':
        return 'none'
    other = {'EXTERIOR': (False, False), 'INTERIOR': (True, True)}
    # membership of (own operand, other operand) behind and in front of the face
    if tag in other:
        o = other[tag][0]
        behind, front = (True, o), (False, o)
    elif tag == 'COPLANAR':
        behind, front = (True, True), (False, False)
    else:
        behind, front = (True, False), (False, True)
    if tag in ('COPLANAR', 'OPPOSITE') and left != prefer:
        return 'none'
    ev = (lambda x: f(*x)) if left else (lambda x: f(x[1], x[0]))
    b, g = ev(behind), ev(front)
    if b == g:
        return 'none'
    return 'same' if b else 'flip'


def resolve(v, face, hv_keys):
    """Which corner (0..2) of the input face does an output vertex handle denote?"""
    i = idx(v)
    for j in range(3):
        if contains(i, T('at', face, j)):
            if isT(i) and i[1] == 'nv':
                return j
            if not any(contains(i, T('at', face, k)) for k in range(3) if k != j):
                return j
    return None


def run(ctx):
    p = ctx.prog()
    f = ctx.fn('kigumi::Extract::operator()')
    ops = op_values(p)
    tags = enum_vals(p, 'kigumi::Face_tag')
    if f is None or not ops or not tags:
        raise_broken(ctx)
        return
    jobs = [(l, v, pr) for l, v in ops.items() for pr in (True, False)]
    from multiprocessing import Pool
    global _ctx
    _ctx = ctx
    with Pool(8) as pool:
        for (l, v, pr), obs, n, fns in pool.imap(one, jobs):
            for o in obs:
                ctx.ob(*o)
            ctx.count('partitions', n)
            ctx.analysed |= fns
    ctx.count('operator/preference pairs', len(jobs))


def raise_broken(ctx):
    ctx.und('anchor', 'Extract', 'Extract, Boolean_operator or Face_tag not found')


def one(job):
    l, v, pr = job
    c = Ctx('C01', _ctx.tier)
    f = c.fn('kigumi::Extract::operator()')
    ai = c.ai(intercepts=soup_intercepts())
    c.guarded(f'face table[{l},{"first" if pr else "second"}]', f, lambda: table(c, ai, f, l, v, pr))
    return job, [(o['status'], o['rule'], o['where'], o['detail'], o['key']) for o in c.obs], ai.npaths, \
        {c.where(c.prog().fns[i]) for i in ai.called}


def table(c, ai, f, letter, opv, prefer):
    P, F, D = soup_fields(c)
    rule = f'face table[{letter},{"first" if prefer else "second"}]'
    given = {}
    soup_cell = None
    for prm in f['params']:
        _, t = ai.p.deref(prm['t'])
        b = base(t.get('base', ''))
        if b == 'kigumi::Triangle_soup':
            lv = ('&', ai.newcell('m', ('R', T('atom', 'm'), b, ())), ())
            given[prm['n']] = lv
        elif b == 'kigumi::Boolean_operator':
            given[prm['n']] = opv
        elif t.get('c') == 'bool':
            given[prm['n']] = prefer
    args = sym_args(ai, f, **given)
    th = sym_this(ai, f)
    outs = ai.explore(lambda: ai.call_fn(f, th, args))
    m = T('atom', 'm')
    nfaces = ai.seglen(('s', T('.', m, F)))
    tags = enum_vals(ai.p, 'kigumi::Face_tag')
    seen = set()
    w = c.where(f)
    good = [o for o in outs if o.kind in ('norm', 'ret')]
    if not good or len(outs) != len(good):
        c.und(rule, w, 'extraction may end abnormally')
        return
    for o in good:
        ls = [e for e in loops_in(o.ev) if any(x[0] == 'add_face' for x in flat_events([e]))
              or any(contains(frozenset(q['guard']), T('.', m, D)) for q in e[4])]
        if not any(x[0] == 'add_face' for x in flat_events(o.ev)):
            ls = ls or loops_in(o.ev)
        if any(x[0] == 'add_face' for x in o.ev if x[0] != 'loop'):
            c.viol(rule, w, 'a face is added outside of the loop over the classified faces')
            return
        if len(ls) != 1:
            if not ls:
                # no loop at all: nothing may be expected
                if any(expected(letter, t, s, prefer) != 'none' for t in tags for s in (True, False)):
                    c.viol(rule, w, 'no face is extracted')
                    return
                c.ok(rule, w)
                return
            c.und(rule, w, f'{len(ls)} extraction loops')
            return
        e = ls[0]
        kap, bound = e[2], e[3]
        if bound != nfaces:
            c.viol(rule, w, f'the loop covers {show(bound) if bound is not None else "an unknown number"} of {show(nfaces)} faces')
            return
        for q in e[4]:
            if q['kind'] != 'norm':
                c.viol(rule, c.where(f), f"the loop over the faces ends early ({q['kind']}) when {guard_text(q['guard'])}")
                return
            if not one_path(c, ai, rule, f, q, e[4], kap, nfaces, m, (P, F, D), tags, letter, prefer, seen):
                return
    need = {(t, s) for t in tags for s in (True, False)}
    if seen >= need:
        c.ok(rule, w)
    else:
        c.und(rule, w, f'combinations not separated: {sorted(need - seen)}')


def guard_text(g):
    return ' and '.join(sorted(f"{show(t)}={show(next(iter(d))) if len(d) == 1 else show(d)}" for t, d in g.items()))[:400]


def one_path(c, ai, rule, f, q, allq, kap, n, m, fields, tags, letter, prefer, seen):
    P, F, D = fields
    w = c.where(f)
    evs = list(flat_events(q['ev']))
    adds = [e for e in evs if e[0] == 'add_face']
    # which input face?
    idxs = {kap, sub(sub(n, 1), kap)}
    g = q['guard']
    cands = set()
    tagv, sidev, fidx = None, None, None
    for i in idxs:
        dt = T('at', T('.', m, D), i)
        if T('.', dt, 'tag') in g or T('.', dt, 'from_left') in g:
            fidx = i
    if fidx is None:
        if adds:
            c.und(rule, w, 'face index not recognised')
            return False
        fidx = kap
    dt = T('at', T('.', m, D), fidx)
    td = g.get(T('.', dt, 'tag'), frozenset(tags.values()))
    sd = g.get(T('.', dt, 'from_left'), frozenset((True, False)))
    face = T('at', T('.', m, F), fidx)
    got, why = 'none', ''
    data = None
    if len(adds) > 1:
        got = f'{len(adds)} faces'
    elif adds:
        fv = adds[0][2]
        cor = []
        for j in range(3):
            x = ai_at(ai, fv, j)
            if idx(x) in [idx(T('at', face, k)) for k in range(3)] and any(e[0] == 'add_vertex' for r in allq for e in flat_events(r['ev'])):
                c.viol(rule, w, 'a vertex handle of the operands is used for a vertex of the result')
                return False
            cor.append(resolve(x, face, None))
        if cor in ([0, 1, 2], [1, 2, 0], [2, 0, 1]):
            got = 'same'
        elif cor in ([0, 2, 1], [2, 1, 0], [1, 0, 2]):
            got = 'flip'
        elif alias_ok(ai, q, fv, face, g):
            got = 'aliased'
        elif any(isinstance(idx(ai_at(ai, fv, j)), int) for j in range(3)):
            c.viol(rule, w, f'the corners of the emitted face are {show(fv)[:200]}: constants')
            return False
        elif None in cor:
            c.und(rule, w, f'vertices of the emitted face not resolved: {show(fv)[:200]}')
            return False
        else:
            got, why = 'garbled', f'corners {cor}'
        # a vertex handle must denote the point of the corner it stands for
        for e in evs:
            if e[0] == 'add_vertex':
                pts = [T('at', T('.', m, P), T('.', T('at', face, j), 'i_')) for j in range(3)]
                if e[2] not in pts:
                    c.viol(rule, w, f'the point {show(e[2])[:160]} is added, which is no corner of the face')
                    return False
        newc = adds[0][3]
    for t in td:
        tn = next(k for k, v in tags.items() if v == t)
        for s in sd:
            exp = expected(letter, tn, s, prefer)
            seen.add((tn, s))
            if got == 'aliased' and exp != 'none':
                continue
            if got != exp:
                c.viol(rule, w, f"{tn} face of the {'first' if s else 'second'} operand: "
                       f"expected {exp}, found {got} {why}; operator {letter}")
                return False
    return True


def ai_at(ai, v, j):
    return ai.seq_at(v, j)


def alias_ok(ai, q, fv, face, g):
    """Partitions in which two corners of the input face coincide."""
    return any(isT(t) and t[1] == '==0' and d == frozenset((True,)) and sum(
        contains(t, T('at', face, j)) for j in range(3)) == 2 for t, d in g.items())
