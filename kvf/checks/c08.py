"""Reading stops when the input ends."""
from loaders import *

EXPLANATION = (
    'All loops on all partitions of every reader are enumerated by abstract interpretation. A loop that reads from a stream may '
    'only continue on partitions on which an extraction from that stream has succeeded since (or the stream is still good at the '
    'head of the iteration, and nobody clears its error state in the loop), or, for loops over single characters, on which the '
    'character is known not to be the end-of-file mark. A loop whose trip count is a number read from the input must read.')
ASSUMPTIONS = ['a successful formatted extraction consumes at least one character']

PROGRESS = ('>>', 'read', 'getline')


def run(ctx):
    p = ctx.prog()
    seen = {}
    fs = [f for f in functions(ctx, READERS) + binary(p, 'kigumi::Read::operator()')]
    others = [f for f in p.find('kigumi::Read::operator()') if f.get('body') is not None and target_index(p, f) is None and 'driver/' not in ctx.where(f)]
    for f in fs:
        ctx.guarded('loops of a reader', f, lambda: one(ctx, f))


def with_paced(ev, above=frozenset()):
    """Loops, with the numbers that bound reading loops on the same partition."""
    paced = set(above)
    for e in ev:
        if e[0] == 'loop' and any(c in {c for c, pa in e[5]} for q in e[4] for c, op in list(reads(q['cev'])) + list(reads(q['ev']))):
            for q in e[4]:
                if q['kind'] == 'norm':
                    paced |= {x for t in q['st'].dom if isT(t) and t[1] == '>0' and e[2] in lin(t[2])[0] for x in lin(t[2])[0]
                              if isT(x) and x[1] in ('in', 'rd')}
    paced = frozenset(paced)
    for e in ev:
        if e[0] == 'loop':
            yield e, paced
            for q in e[4]:
                yield from with_paced(list(q['cev']) + list(q['ev']), paced)


def all_loops(ev):
    for e in ev:
        if e[0] == 'loop':
            yield e
            for q in e[4]:
                yield from all_loops(q['cev'])
                yield from all_loops(q['ev'])


def reads(ev):
    """Streams that are read, with the operations."""
    for e in ev:
        if e[0] in ('in', 'parse', 'load'):
            lv = e[1] if e[0] != 'load' else None
            if isLV(lv):
                yield lv[1], e[0]
        elif e[0] == 'inop':
            yield e[2][1], e[1]
        elif e[0] == 'loop':
            for q in e[4]:
                yield from reads(q['cev'])
                yield from reads(q['ev'])


def one(ctx, f):
    ai, outs, box = explore(ctx, f)
    found = {}
    for o in outs:
        for e, paced in with_paced(o.ev):
            found.setdefault((e[1], repr(e[2])), []).append((e, paced))
    w0 = ctx.where(f)
    for (line, kap), es in sorted(found.items(), key=lambda x: str(x[0])):
        w = w0.split(' ')[0].rsplit(':', 1)[0] + f':{line} ' + w0.split(' ', 1)[1]
        bad = None
        for e, paced in es:
            bad = bad or loop(ai, e, paced)
        ctx.count('loops')
        ctx.check(not bad, 'loops of a reader', w, bad or '', key=f'loop@{w0}:{line}')


def loop(ai, e, paced):
    kap, summ, W = e[2], e[4], e[5]
    outer = {c for c, pa in W}
    lid = kap[2]
    ops = {}
    for q in summ:
        for c, op in list(reads(q['cev'])) + list(reads(q['ev'])):
            if c in outer:
                ops.setdefault(c, set()).add(op)
    if not ops:
        b = e[3]
        if b is not None and any(t[1] in ('in', 'rd') and t not in paced for t in direct(b)):
            return f'the trip count {show(b)[:120]} is read from the input, and the loop does not read'
        return None
    if e[3] is not None and not any(t[1] in ('in', 'rd') for t in direct(e[3])) and all(t[1] in ('len', 'cnt', 'in', 'rd') for t in direct(e[3])):
        return None     # at most once per element of a container
    for q in summ:
        if q['kind'] != 'norm':
            continue
        dom = q['st'].dom
        cleared = {x[1][1] for x in flat(q) if x[0] == 'clear'}
        good = False
        for t, d in dom.items():
            if not (isT(t) and d == frozenset((True,)) and t[1] == 'ok'):
                continue
            s = t[2]
            if s in ai.state_op and ai.state_op[s][0] in ops and ai.state_op[s][1] in PROGRESS and contains(s, kap):
                good = True
            if isT(s) and s[1] == 'hv' and s[2] == lid and s[3] in ops and s[3] not in cleared:
                good = True
        if not good:
            for t, d in dom.items():
                if isT(t) and t[1] == '==0' and d == frozenset((False,)):
                    dd, c = lin(t[2])
                    if len(dd) == 1 and abs(c) == 1 and all(charlike(k) for k in dd):
                        good = True
                if isT(t) and t[1] in ('==', '==0') and d == frozenset((False,)) and 'eof' in repr(t):
                    good = True
        if not good:
            g = {show(t): sorted(map(str, d)) for t, d in dom.items() if contains(t, kap) or contains(t, lid)}
            return f'the loop reads from {", ".join(sorted(ops))} and goes on although every extraction may have failed, if {str(g)[:300]}'
    return None


def direct(v):
    """The atoms of an arithmetic term."""
    if isT(v) and v[1] in ('+', '-', '*', '/', '%', 'ite', 'min', 'max', '~', 'cast', 'lin', 'neg'):
        for x in v[2:]:
            yield from direct(x)
    elif isT(v):
        yield v
    elif isinstance(v, (tuple, frozenset)) and not isT(v):
        for x in v:
            yield from direct(x)


def charlike(k):
    return isT(k) and (k[1] == 'hv' or k[1] == 'app' and k[2] in ('is.peek', 'is.get'))


def flat(q):
    for x in q['cev'] + q['ev']:
        yield x
        if x[0] == 'loop':
            for r in x[4]:
                yield from flat(r)


def subterms(v):
    st = [v]
    while st:
        x = st.pop()
        if isT(x):
            yield x
        if isinstance(x, (tuple, frozenset)):
            st.extend(x)
