"""Success is reported only if everything was read or written."""
from loaders import *

EXPLANATION = (
    'Every function of the library that reads or writes a file (and the dispatch of the command line tool) is abstractly interpreted; a '
    'function that is called by another one is replaced by a contract with an unknown result. On each partition that may report success: '
    'the output stream is known (or returned) to be good in its last state, all output precedes a flush, every called reader or writer '
    'succeeded, the file of the given name was opened successfully with truncation, the given mesh was passed on, and the format agrees with the extension of '
    'the name. On each partition that reports failure, something is known to have failed.')
ASSUMPTIONS = ['a stream whose buffer could not be written is not good after flush()']

TRUE, FALSE = frozenset((True,)), frozenset((False,))
EXTS = ('.obj', '.off', '.ply', '.kigumi')


def run(ctx):
    p = ctx.prog()
    for f in functions(ctx, WRITERS):
        ctx.guarded('success means that everything was written', f, lambda: one(ctx, f, True))
    for f in functions(ctx, READERS):
        fmt = f['n'].rsplit('_', 1)[-1]
        if fmt in ('obj', 'off', 'ply') and 'istream' in p.tname(f['params'][0]['t']):
            continue    # malformed files: C07
        ctx.guarded('success means that everything was read', f, lambda: one(ctx, f, False))


def raw(ai, fn, this, args, node):
    lv = ai.stream_lv(args[0])
    ai.stream_bump(lv, 'write', node)
    ai.st.ev.append(('rawwrite', lv, ai.norm(ai.rval(args[1])), node.get('l', 0) if node else 0))
    return None


def one(ctx, f, writing):
    p = ctx.prog()
    w = ctx.where(f)
    extra = {'kigumi::Write::operator()': raw} if writing else None
    ai, outs, box = explore(ctx, f, extra=extra, contract=write_contract if writing else read_contract,
                            names=WRITERS if writing else READERS)
    stream = 'stream' in p.tname(f['params'][0]['t'])
    name = arg(ai, outs[0], box['args'][0]) if not stream and outs else None
    rule = 'success means that everything was ' + ('written' if writing else 'read')
    bad = None
    good = 0
    for o in outs:
        if o.kind == 'throw':
            continue
        if o.kind != 'norm':
            return ctx.und(rule, w, f'partition {o.kind}')
        v = o.val
        d = o.st.dom.get(v) if isT(v) else None
        known = v if isinstance(v, bool) else next(iter(d)) if d is not None and len(d) == 1 else None
        ctx.count('partitions')
        if known is False:
            bad = bad or fails(ai, o, name)
            continue
        if known is None and not isT(v):
            return ctx.und(rule, w, f'result {show(v)[:200]}')
        good += 1
        if known is None and v[1] not in ('good', 'ok', 'succeeds'):
            bad = bad or fails(ai, o, name)
        bad = bad or success(ctx, ai, o, v, box, f, name, writing)
        if bad == '':
            return ctx.und(rule, w, f'result {show(v)[:200]}')
    if not good:
        bad = bad or 'success is never reported'
    ctx.check(not bad, rule, w, bad or '')


def arg(ai, o, v):
    return ai.norm(ai.read_in(o.st, (v[1], v[2]))) if isLV(v) else v


def truth(o, t):
    return o.st.dom.get(t) == TRUE or o.val == t


def ok_state(o, s):
    return truth(o, T('good', s)) or truth(o, T('ok', s))


def fails(ai, o, name):
    for t, d in o.st.dom.items():
        if isT(t) and t[1] in ('ok', 'good', 'succeeds', 'valid', 'is_open') and d == FALSE:
            return None
        if isT(t) and t[1] in ('bad', 'fail') and d == TRUE:
            return None
    if isT(o.val) and o.val[1] in ('ok', 'good', 'succeeds'):
        return None
    exts = extensions(o)
    if name is not None and not any(d for d in exts.values()) and (exts or not o.st.dom):
        return None
    if name is not None and any(any(x in repr(t) for x in ('find', 'extension', 'substr', 'path')) for t in o.st.dom):
        return None     # the extension is examined
    if any(e[0] == 'loop' for e in o.ev):
        return None     # decided in a loop over the contents
    return f'failure is reported although nothing failed ({o.show_cond()[:200]})'


def extensions(o):
    r = {}
    for t, d in o.st.dom.items():
        if isT(t) and len(d) == 1 and t[1] in ('app', '==', '==0'):
            xs = list(lin(t[2])[0]) if t[1] == '==0' else list(t[2:])
            for x in xs:
                x = x[2] if isT(x) and x[1] == 'str' else x
                if isinstance(x, str) and x in EXTS + tuple(e[1:] for e in EXTS):
                    r['.' + x.lstrip('.')] = next(iter(d)) is True or r.get('.' + x.lstrip('.'), False)
    return r


def success(ctx, ai, o, v, box, f, name, writing):
    for t, d in o.st.dom.items():
        if isT(t) and t[1] in ('ok', 'good') and d == TRUE and isT(t[2]) and t[2][1] == 'ctor' and 'fstream' in str(t[2][2]):
            b = opened(t[2], name, writing)
            if b:
                return b
    what = 'store' if writing else 'load'
    calls = [(i, e) for i, e in enumerate(o.ev) if e[0] == what]
    data = target_index(ai.p, f)
    param = arg(ai, o, box['args'][data]) if writing else None
    # streams used directly
    used = {}
    for i, e in enumerate(o.ev):
        lv = None
        if e[0] in ('out', 'rawwrite') and writing or e[0] in ('in', 'parse', 'rawread') and not writing:
            lv = e[1]
        elif e[0] == 'loop':
            for c, pa in e[5]:
                if not pa and c in used or any(x[0] in ('out', 'rawwrite') and isLV(x[1]) and x[1][1] == c for q in e[4] for x in q['ev']):
                    used[c] = i
        if isLV(lv) and not str(lv[1]).startswith('global:'):
            used[lv[1]] = i
    for c, last in used.items():
        s = ai.read_in(o.st, (c, ()))
        if writing and not any(e[0] == 'flush' and e[1][1] == c or e[0] == 'out' and isLV(e[1]) and e[1][1] == c and str(e[2]) in ('std::endl', 'std::flush')
                               for e in o.ev[last:]) and not any(e[0] in ('pure', 'ext') and e[1].endswith('::close') for e in o.ev[last:]):
            return 'the result is determined before the output has been flushed'
        if not ok_state(o, s):
            if isT(v) and v[1] in ('ok', 'good') or v is True or o.st.dom.get(v) == TRUE:
                return 'the result is not that of the last state of the stream'
            return ''
    for i, e in calls:
        if writing:
            fn, dat, src, t = e[1], e[2], e[3], e[4]
            if not truth(o, t):
                return f'success is reported although {fn} may have failed (line {e[5]})'
            if not through(ai, o, dat, param):
                return f'line {e[5]}: {show(dat)[:120]} is written instead of the argument'
        else:
            fn, tgt, s = e[1], e[2], e[3]
            t = T('succeeds', s)
            st = [x[3] for x in o.ev[:i + 3] if x[0] == 'w' and isT(x[3]) and x[3] in ai.state_op and ai.state_op[x[3]][1] == 'read']
            cur = ai.read_in(o.st, (box['args'][0][1], ())) if isLV(box['args'][0]) else None
            if not truth(o, t) and not (isT(cur) and ok_state(o, cur)):
                return f'success is reported although {fn} may have failed (line {e[4]})'
            src = e[5]
            if not contains(o.target, s) and not (isR(o.target) and o.target[1] == s):
                return f'what {fn} reads does not become the result'
        fmt = fn.rsplit('_', 1)[-1]
        if name is not None:
            ext = {x for x, d in extensions(o).items() if d}
            if isT(src) and src[1] == 'ctor':
                b = opened(src, name, writing)
                if b:
                    return b
            elif src != name:
                return f'line {e[5] if writing else e[4]}: the file {show(src)[:100]} is used instead of the one of the given name'
            if '.kigumi' in ext and not fn.endswith('kigumi_region'):
                return f'{fn} is called for a file with the extension .kigumi'
            if '.' + fmt in EXTS or fn.endswith('kigumi_region'):
                want = '.kigumi' if fn.endswith('kigumi_region') else '.' + fmt
                if ext and ext != {want}:
                    return f'{fn} is called for a file with the extension {", ".join(sorted(ext))}'
                if not ext and len([1 for x in EXTS if x in extensions(o)]) > 0:
                    return f'{fn} is called for a file with another extension'
    if not used and not calls:
        if name is not None and not writing and special(o):
            return None
        return 'success is reported although nothing was ' + ('written' if writing else 'read')
    return None


def special(o):
    """:empty: and :full: name no file."""
    for t, d in o.st.dom.items():
        if d == TRUE and isT(t) and any(x in repr(t) for x in (':empty:', ':full:')):
            return True
    return False


def through(ai, o, dat, param):
    if dat == param:
        return True
    if isT(dat) and dat[1] == '.' and dat[2] == param and dat[3] == 'boundary_':
        return True
    return isR(dat) and isR(param) and dat[1] in (param[1], T('.', param[1], 'boundary_'))


def opened(s, name, writing):
    if name is not None and s[3] != name:
        return f'the file {show(s[3])[:100]} is opened instead of the one of the given name'
    if writing and any(isnum(x) and (x & 1 or x & 8 and not x & 32) for x in s[4:]) or writing and any('app' == str(x[2]).rsplit('::')[-1] or 'ate' == str(x[2]).rsplit('::')[-1] or str(x[2]).endswith('::in') for x in subterms_(s) if x[1] == 'global'):
        return 'the previous contents of the file are kept'
    return None


def subterms_(t):
    if isinstance(t, tuple):
        if isT(t):
            yield t
        for x in t:
            yield from subterms_(x)
