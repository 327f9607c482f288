"""Reading is all or nothing."""
from loaders import *

EXPLANATION = (
    'Every reader (text formats, .kigumi, dispatch by extension, the command line tool) is abstractly interpreted over a stream '
    'whose every operation may fail. On each completed partition: if the reader reports failure (or throws), the target still has '
    'its old value; if it reports success, no part of the old value is left in the target. A reader called by another one is '
    'replaced by this contract.')
ASSUMPTIONS = ['istream::read either delivers all bytes or fails the stream']


def run(ctx):
    p = ctx.prog()
    for f in functions(ctx, READERS) + binary(p, 'kigumi::Read::operator()'):
        rule = 'all or nothing'
        ctx.guarded(rule, f, lambda: one(ctx, rule, f))


def one(ctx, rule, f):
    w = ctx.where(f)
    ai, outs, box = explore(ctx, f)
    void = f['n'] == 'operator()'
    old = T('atom', 'old')
    bad = None
    n = 0
    for o in outs:
        good = None
        if o.kind == 'throw':
            good = False
        elif void:
            s = ai.read_in(o.st, (box['args'][0][1], ()))
            good = o.st.dom.get(T('ok', s))
            good = next(iter(good)) if good is not None and len(good) == 1 else None
        elif isinstance(o.val, bool):
            good = o.val
        elif isT(o.val):
            d = o.st.dom.get(o.val)
            good = next(iter(d)) if d is not None and len(d) == 1 else None
        changed = ai.norm(o.target) != old
        left = mentions(ctx, o.target, old)
        n += 1
        if good is None:
            # success and failure are both possible: only a difference between them matters
            if changed:
                return ctx.und(rule, w, f'result {show(o.val)[:100]} with a changed target')
            if left:
                return ctx.und(rule, w, f'result {show(o.val)[:100]} with an unchanged target')
        elif not good and changed:
            bad = f'failure ({show(o.val)[:80]}, line {o.line}) leaves a modified target {diff(o.target, old)} if {o.show_cond()[:300]}'
        elif good and left:
            bad = f'success leaves old content in the target: {diff(o.target, old, True)} if {o.show_cond()[:300]}'
        if bad:
            ctx.viol(rule, w, bad)
            return
    ctx.count('partitions', n)
    ctx.ok(rule, w)


def mentions(ctx, v, a):
    if isR(v) and v[1] == a:
        have = {n for n, _ in v[3]}
        if v[2] == 'kigumi::Region' and have >= set(region_fields(ctx)) or \
                v[2] == 'kigumi::Triangle_soup' and have >= set(soup_fields(ctx)):
            return contains(v[3], a)
    return contains(v, a)


def diff(v, old, kept=False):
    if isR(v) and v[3]:
        return ', '.join(n for n, x in v[3] if contains(x, old) == kept) or 'members'
    return ''
