"""The text formats: what is read is what the file says, and what is written says what the mesh is."""
from textmodel import *

EXPLANATION = (
    'On every partition of every line loop that adds a vertex, its three coordinates are the three numbers of the line in '
    'the order x, y, z (in PLY: the properties of these names); every index of a face line is mapped as the format demands (from one '
    'or from the end in OBJ, from zero in OFF and PLY); a polygon v0..vn-1 becomes the fan (v0, vi+1, vi+2).')
ASSUMPTIONS = []


def run(ctx):
    p = ctx.prog()
    for f in functions(ctx, READERS):
        fmt = f['n'].rsplit('_', 1)[-1]
        if fmt in ('obj', 'off', 'ply') and 'istream' in p.tname(f['params'][0]['t']):
            ctx.guarded('what is read', f, lambda: reader(ctx, f, fmt))
    for f in functions(ctx, ('kigumi::read_triangle_soup', 'read_region')):
        ctx.guarded('the format is that of the extension', f, lambda: dispatch(ctx, f, False))


# ---------------------------------------------------------------- the format of a file
SAMPLES = ('a.obj', 'b.obj.off', 'c.off.ply', 'd.kigumi', 'e.stl', 'obj', 'f.kigumi.obj', 'off.d/g', ':empty:', ':full:')


NPOS = (1 << 64) - 1


def evaluate(t, name, var):
    """The value of an expression over the name of a file, for a given name; None if it is not understood."""
    if t == var:
        return name
    if isinstance(t, (bool, int, str)):
        return t
    if not isT(t):
        return None
    if t[1] == 'lin':
        d, c = lin(t)
        vs = [(evaluate(k, name, var), n) for k, n in d.items()]
        if any(not isinstance(v, int) for v, n in vs):
            return None
        return sum(v * n for v, n in vs) + c
    if t[1] == 'global' and 'npos' in str(t[2]):
        return NPOS
    if t[1] == 'str' and len(t) == 3:
        return evaluate(t[2], name, var)
    if t[1] == 'len':
        v = evaluate(t[2], name, var)
        return len(v) if isinstance(v, str) else None
    if t[1] in ('==0', '>0'):
        v = evaluate(t[2], name, var)
        return None if not isinstance(v, int) else v & NPOS == 0 if t[1] == '==0' else v > 0
    if t[1] == '==':
        a, b = evaluate(t[2], name, var), evaluate(t[3], name, var)
        return None if a is None or b is None or type(a) is not type(b) else a == b
    if t[1] == 'app' and ('str.' in t[2] or 'basic_string' in t[2]):
        a = [evaluate(x, name, var) for x in t[3:]]
        if any(x is None for x in a) or not isinstance(a[0], str):
            return None
        op = t[2].rsplit('::', 1)[-1].rsplit('.', 1)[-1]
        if op == 'empty':
            return not a[0]
        if op in ('size', 'length'):
            return len(a[0])
        if op == 'substr':
            i = a[1] if len(a) > 1 else 0
            n = a[2] if len(a) > 2 else NPOS
            return a[0][i:i + n] if i <= len(a[0]) else None
        if len(a) < 2:
            return None
        if op == 'compare' and len(a) in (2, 4) and isinstance(a[-1], str):
            x = a[0] if len(a) == 2 else a[0][a[1]:a[1] + a[2]]
            return (x > a[-1]) - (x < a[-1])
        if isinstance(a[1], int) and not isinstance(a[1], bool):
            a[1] = chr(a[1])
        if not isinstance(a[1], str) or len(a) > 3:
            return None
        if op in ('ends_with', 'starts_with', 'contains'):
            return {'ends_with': a[0].endswith, 'starts_with': a[0].startswith, 'contains': a[0].__contains__}[op](a[1])
        if op == 'find':
            return a[0].find(a[1], a[2] if len(a) > 2 else 0) & NPOS
        if op == 'rfind':
            return (a[0].rfind(a[1]) if len(a) == 2 or a[2] >= len(a[0]) else a[0].rfind(a[1], 0, a[2] + len(a[1]))) & NPOS
    return None


def dispatch(ctx, f, wr):
    rule = 'the format is that of the extension'
    w = ctx.where(f)
    ai, outs, box = explore(ctx, f, contract=write_contract if wr else read_contract, names=WRITERS if wr else READERS)
    var = T('atom', next(q['n'] for q in f['params'] if 'string' in ai.p.tname(q['t'])))
    region = f['n'].endswith('region')
    n = 0
    for name in SAMPLES:
        ext = '.' + name.rsplit('.', 1)[-1] if '.' in name else ''
        if region and ext == '.kigumi':
            want = 'kigumi_region'
        elif region and name in (':empty:', ':full:') and not wr:
            continue
        elif region:
            want = 'triangle_soup'
        else:
            want = ext[1:] if ext in ('.obj', '.off', '.ply') else None
        some = False
        for o in outs:
            facts = [(t, d) for t, d in o.st.dom.items() if contains(t, var)]
            vals = [(evaluate(t, name, var), d) for t, d in facts]
            if any(v is not None and v not in d for v, d in vals):
                continue
            if any(v is None for v, d in vals):
                return ctx.und(rule, w, f'the name is examined in a way that is not understood ({show(facts[0][0])[:100]})')
            some = True
            done = [e for e in o.ev if e[0] in ('load', 'store')]
            verb = 'write' if wr else 'read'
            if want is None:
                if done:
                    return ctx.viol(rule, w, f'a file named {name} is handed to {done[0][1]}')
                if o.kind == 'norm' and o.val is not False:
                    return ctx.viol(rule, w, f'{verb}ing a file named {name} does not fail')
                continue
            if len(done) != 1 or base(done[0][1]).rsplit('::', 1)[-1] != f'{verb}_{want}':
                return ctx.viol(rule, w, f'a file named {name} is handed to {", ".join(e[1] for e in done) or "no " + ("writer" if wr else "reader")} instead of {verb}_{want}')
            if done[0][5 if not wr else 3] != var:
                return ctx.viol(rule, w, f'{verb}_{want} is given the name {show(done[0][5 if not wr else 3])[:80]}')
            n += 1
        if not some:
            return ctx.und(rule, w, f'no partition for a file named {name}')
    ctx.ok(rule, w, f'{n} partitions')


# ---------------------------------------------------------------- readers
class Reader:
    def __init__(self, ctx, f, fmt):
        self.ctx, self.f, self.fmt = ctx, f, fmt
        self.ai, outs, self.box = explore(ctx, f)
        self.outs = [o for o in outs if o.kind == 'norm' and o.val is True]
        self.never = bool(outs) and all(o.kind == 'norm' and o.val is False for o in outs)
        self.steps = [(o, s) for o in self.outs for s in steps(o)]


def line_of(f, w, e):
    return f"{w} line {e[3] if len(e) > 3 else '?'}"


def reader(ctx, f, fmt):
    r = Reader(ctx, f, fmt)
    w = ctx.where(f)
    if r.never:
        return ctx.viol('lines that the format allows are accepted', w, 'no file is ever accepted')
    n = [0, 0, 0]
    bad = {'v': None, 'f': None, 'i': None}
    for o, s in r.steps:
        for i, e, x in points(s):
            n[0] += 1
            bad['v'] = bad['v'] or vertex(r, o, s, i, x)
        for i, e, tri in faces(s):
            n[1] += 1
            bad['f'] = bad['f'] or fan(r, o, s, tri)
        for i, e, x in indices(s):
            n[2] += 1
            bad['i'] = bad['i'] or index(r, o, s, x)
    ctx.guarded('lines that the format allows are accepted', f, lambda: accepts(r, w))
    if not n[0] or not n[1]:
        ctx.und('what is read', w, 'no place found at which vertices and faces are added')
        return
    bad['f'] = bad['f'] or dropped(r)
    ctx.check(not bad['v'], 'coordinates in the order of the format', w, bad['v'] or f'{n[0]} partitions')
    ctx.check(not bad['f'], 'polygons become fans', w, bad['f'] or f'{n[1]} partitions')
    ctx.check(not bad['i'], 'indices count as the format says', w, bad['i'] or f'{n[2]} partitions')
    if fmt == 'obj':
        b = attributes(r)
        ctx.check(not b, 'indices of textures and normals are passed over', w, b or '')
    if fmt == 'ply':
        b = passed_over(r)
        ctx.check(not b, 'elements are passed over only if they have no lines', w, b or '')
        b = skipping(r)
        ctx.check(not b, 'other properties are skipped', w, b or '')


# what may be the first word of a line, and what the lines before must have been
WORDS = {'obj': {k: () for k in ('v', 'f', 'vn', 'vt', 'g', 'usemtl')},
         'ply': {'comment': (), 'ply': (), 'format': ('ply',), 'element': ('ply', 'format'), 'property': ('ply', 'format', 'element'),
                 'end_header': ('ply', 'format')},
         'off': {}}


def accepts(r, w):
    """No line is refused unless something is wrong with it: an item cannot be read, a value is not allowed, the word that it
    starts with is not known, or the file is already complete."""
    from checks.c07 import Machine
    ctx, ai = r.ctx, r.ai
    rule = 'lines that the format allows are accepted'
    done = set()
    n = 0
    for o in r.outs:
        for e in o.ev:
            if e[0] != 'loop' or not any(x[0] == 'inop' for q in e[4] for x in list(q['cev']) + list(q['ev'])):
                continue
            steps_ = [Step(list(q['cev']) + list(q['ev']), q['st'].dom, q['st'], e, q) for q in e[4]]
            firsts = [first_word(s) for s in steps_]
            words = {c for x in firsts if x is not None for s in steps_ for c, v in compared(s, x)}
            if r.fmt == 'ply' and 'end_header' not in words:
                continue
            if e[1] in done and r.fmt == 'ply':
                continue
            done.add(e[1])

            def effect(m, q):
                s = steps_[next(i for i, x in enumerate(e[4]) if x is q)]
                x = first_word(s)
                return {'flags': frozenset(c for c, v in compared(s, x) if v) if x is not None else frozenset()}
            m = Machine(r, o, e, [], (), effect)
            ends = {loc for loc, a in m.exits(o)}
            for s, x in zip(steps_, firsts):
                if s.q['kind'] in ('norm', 'break'):
                    n += 1
                    b = declared(s, x) if x is not None and r.fmt == 'ply' else None
                    if b:
                        return ctx.viol('what the header declares', w, b)
                    continue
                if s.q['kind'] != 'ret' or s.q['val'] is not False or reason(s, x):
                    continue
                for loc, a in m.at.items():
                    if a.empty or m.guards(loc, s.dom) is None:
                        continue
                    if x is None:
                        if loc not in ends:
                            return ctx.viol(rule, w, f'a line is refused although nothing is wrong with it (known: {facts_text(s)})')
                        continue
                    cs = dict(compared(s, x))
                    for k, before in WORDS[r.fmt].items():
                        if not set(before) <= loc[1] or r.fmt == 'ply' and (k in ('ply', 'format') and k in loc[1] or 'end_header' in loc[1]):
                            continue
                        if all(v == (c == k) for c, v in cs.items()):
                            return ctx.viol(rule, w, f'a line that starts with "{k}" is refused although nothing is wrong with it (known: {facts_text(s)})')
    if n:
        ctx.ok(rule, w, f'{n} partitions')
    else:
        ctx.und(rule, w, 'no loop over the lines')


def declared(s, x):
    """An element has the name and the count of its line, and is the last one; a property has the name of its line, and is the
    last one of the last element."""
    k = next((c for c, v in compared(s, x) if v), None)
    if k not in ('element', 'property'):
        return None
    got = [e[2] for e in s.ev if e[0] == 'in']
    for e in s.ev:
        if e[0] != 'w' or s.loop is None or (e[1], ()) not in s.loop[6] or not isinstance(e[3], tuple) or e[3][:1] != ('S',):
            continue
        v = appended(e[3])
        fr = e[3][1][0][1] if len(e[3][1]) > 1 and e[3][1][0][0] == '1' and e[3][1][1][0] == 's' else None
        if isR(fr) and 'name' in dict(fr[3]) and dict(fr[3])['name'] in got:
            return f'line {e[4]}: what a line with "{k}" declares is put before what the lines before it declare'
        if not isR(v) or 'name' not in dict(v[3]):
            continue
        d = dict(v[3])
        if len(e[3][1]) != 2 or e[3][1][0][0] != 's':
            return f'line {e[4]}: {'an' if k == 'element' else 'a'} {k} is not added after those before it'
        if k == 'element':
            if e[2]:
                return None
            if d['name'] != got[1]:
                return f'line {e[4]}: the name of an element is {show(d["name"])[:60]}, not the word after "element"'
            if 'count' in d and d['count'] != got[2]:
                return f'line {e[4]}: the count of an element is {show(d["count"])[:60]}, not the number after its name'
            return None
        if not e[2] or e[2][0][0] != 'i':
            return None
        i, n = e[2][0][1], e[3][1][0][1]
        c = next((t[2] for t in subterms(n) if t[1] == 'at' and t[3] == i), None)
        if c is not None and i != add(T('len', c), -1):
            return f'line {e[4]}: a property is added to element {show(i)[:80]}, not to the last one'
        if d['name'] != got[-1]:
            return f'line {e[4]}: the name of a property is {show(d["name"])[:60]}, not the last word of its line'
        return None
    return None


def facts_text(s):
    return '; '.join(f'{show(t)[:60]} is {next(iter(d))}' for t, d in s.dom.items() if len(d) == 1 and isT(t) and t[1] in ('==', 'ok', 'hv'))[:240]


def first_word(s):
    for e in s.ev:
        if e[0] == 'in':
            x = e[2]
            return x if any(isT(t) and t[1] == '==' and x in t[2:] for t in s.dom) else None
        if e[0] == 'parse' and e[3] is not None:
            return None
    return None


def compared(s, x):
    return [(next(c for c in t[2:] if isinstance(c, str)), next(iter(d))) for t, d in s.dom.items()
            if isT(t) and t[1] == '==' and x in t[2:] and len(d) == 1 and any(isinstance(c, str) for c in t[2:])]


def reason(s, x):
    """Is there anything, apart from the first word, for which a line may be refused?"""
    failed, seen = set(), set()
    for e in s.ev:
        if e[0] == 'w' and isT(e[3]) and e[3][1] == 'strm':
            seen.add(T('ok', e[3]))
            if s.dom.get(T('ok', e[3])) == frozenset((False,)):
                failed.add(e[1])
        elif e[0] == 'clear':
            failed.discard(e[1][1])
    if failed:
        return True
    for t, d in s.dom.items():
        if isT(t) and t[1] in ('ok', 'good', 'bad', 'eof'):
            if t not in seen and d == frozenset((False,)):
                return True
        elif isT(t) and t[1] == '==' and any(isinstance(c, str) for c in t[2:]):
            pass
        elif isT(t) and t[1] in ('hv', '?in'):
            pass
        elif isT(t) and t[1] == '==0' and isT(t[2]) and t[2][1] == 'len' and d == frozenset((False,)):
            pass
        else:
            return True
    return False


def faces(s):
    for i, e in enumerate(s.ev):
        if e[0] == 'w':
            x = appended(e[3])
            t = triple(x)
            if t is not None:
                yield i, e, t


def triple(x):
    if isinstance(x, tuple) and x and x[0] == 'S' and len(x[1]) == 3 and all(g[0] == '1' for g in x[1]) and not x[2]:
        t = [g[1] for g in x[1]]
        if all(isR(y) or isT(y) for y in t) and not any(is_point(y) for y in t):
            return t
    return None


def indices(s):
    for i, e in enumerate(s.ev):
        if e[0] == 'w':
            x = appended(e[3])
            if isR(x) and base(str(x[2])).endswith('Index'):
                yield i, e, dict(x[3]).get('i_', x[3][0][1] if x[3] else None)
            elif triple(x) is not None:
                # corners that are read directly
                for y in triple(x):
                    if isR(y) and dict(y[3]).get('i_') is not None and not any(isT(t) and t[1] in ('kap',) for t in subterms(y) if False):
                        v = dict(y[3])['i_']
                        if ins(v):
                            yield i, e, v


def coord_state(v):
    """The state from which a coordinate was extracted."""
    if isT(v) and v[1] == '.' and len(v) > 3 and v[3] == 'value':
        v = v[2]
    if isT(v) and v[1] in ('in', 'post'):
        return v
    return None


def vertex(r, o, s, i, x):
    cs = [coord_state(c) for c in x[3:]]
    if len(cs) != 3:
        return f'a vertex is made of {show(x)[:200]}'
    if any(c is None for c in cs):
        return f'a coordinate is {show(x)[:300]} instead of a number of the line'
    if all(c[1] == 'in' for c in cs):
        order = [e[3] for e in s.ev[:i] if e[0] == 'parse' and e[3] is not None and str(e[2]).endswith('Double')]
        if not order:
            order = [e[2] for e in s.ev[:i] if e[0] == 'in']
        try:
            k = [order.index(c) for c in cs]
        except ValueError:
            return f'the coordinates {show(x)[:200]} are not numbers of this line'
        if k != [0, 1, 2]:
            return f'the numbers {[a + 1 for a in k]} of the line become x, y, z'
        first = [e for e in s.ev[:i] if e[0] == 'parse' and e[3] == cs[0] or e[0] == 'in' and e[2] == cs[0]]
        return None
    if all(c[1] == 'post' for c in cs):
        return by_name(r, o, s, i, cs)
    return f'coordinates of mixed origin: {show(x)[:200]}'


def by_name(r, o, s, i, cs):
    """PLY: each coordinate is the property of its name."""
    facts = s.facts()
    for k, (c, name) in enumerate(zip(cs, 'xyz')):
        cell, ln = c[3], c[4]
        loops = [(a, e) for a, e in enumerate(s.ev[:i]) if e[0] == 'loop' and e[1] == ln and any(p == cell for p, pa in e[5])]
        if not loops:
            return f'{name} is not read in a loop over the properties'
        a, e = loops[-1]
        wr = [q for q in e[4] if q['kind'] == 'norm' and any(v[0] == 'w' and v[1] == cell for v in q['ev'])]
        if not wr:
            return f'{name} is never read'
        for q in wr:
            its = iterators(q, e[2])
            names = {}
            for it in its:
                el, nm = property_name(facts, it)
                if nm is not None:
                    names[nm] = el
                    if nm == name and is_list(facts, it) is True:
                        return f'{name} is read from a property that is a list'
            if name not in names:
                return f'{name} is read from the property {" or ".join(sorted(names)) or "?"}'
            if names[name] != 'vertex':
                return f'{name} is read from the element {names[name]}'
            ex = [v for v in q['ev'] if v[0] in ('parse', 'in')]
            if len(ex) != 1:
                return f'{len(ex)} values are read for the property {name}'
    return None


def iterators(q, kap):
    """The iterators with which the current property is compared on this partition."""
    out = []
    for t, d in q['st'].dom.items():
        if isT(t) and t[1] == '==' and d == frozenset((True,)) and len(t) > 3 and isI(t[2]) and isI(t[3]):
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if a[2] == kap and b[2] != kap:
                    out.append(b)
        if isT(t) and t[1] == '==0' and d == frozenset((True,)):
            dd, c = lin(t[2])
            if kap in dd and c == 0 and len(dd) == 2:
                out += [k for k in dd if k != kap]
    return out


def property_name(facts, it):
    """(name of the element, name of the property) to which an iterator points, from what is known about the search for it."""
    k = it[2] if isI(it) else it
    nm = el = None
    for t, d in facts.items():
        if isT(t) and t[1] == '==' and d == frozenset((True,)) and len(t) > 3:
            s, v = (t[2], t[3]) if isinstance(t[2], str) else (t[3], t[2])
            if isinstance(s, str) and isT(v) and v[1] == '.' and v[3] == 'name':
                o = v[2]
                if isT(o) and o[1] == 'at' and o[3] == k:
                    nm = s
                    c = o[2]
                    if isT(c) and c[1] == '.' and isT(c[2]) and c[2][1] == 'at':
                        ek = c[2][3]
                        for t2, d2 in facts.items():
                            if isT(t2) and t2[1] == '==' and d2 == frozenset((True,)) and len(t2) > 3:
                                s2, v2 = (t2[2], t2[3]) if isinstance(t2[2], str) else (t2[3], t2[2])
                                if isinstance(s2, str) and isT(v2) and v2[1] == '.' and v2[3] == 'name' and v2[2] == c[2]:
                                    el = s2
    return el, nm


def is_list(facts, it):
    """What is known about whether the property to which an iterator points is a list."""
    k = it[2] if isI(it) else it
    for t, d in facts.items():
        if isT(t) and t[1] == '==' and len(d) == 1 and len(t) > 3 and 'list' in (t[2], t[3]):
            v = t[3] if t[2] == 'list' else t[2]
            if isT(v) and v[1] == '.' and v[3] == 'type' and isT(v[2]) and v[2][1] == 'at' and v[2][3] == k:
                return next(iter(d))
    return None


def fan(r, o, s, tri):
    if s.loop is None:
        return None
    kap = s.loop[2]
    d = substitute_k(*tri)
    if not d:
        return f'the corners of a triangle are all {show(tri[0])[:120]}'
    forms = set(d)
    if len(forms) != 1:
        return None if direct_corners(r, s, tri) else f'the corners {[show(t)[-80:] for t in tri]} are not taken from one polygon'
    a = list(next(iter(forms)))
    want = [0, add(kap, 1), add(kap, 2)]
    if not any(a == want[j:] + want[:j] for j in range(3)):
        if not any(isT(x) and kap in lin(x)[0] for x in a if not isinstance(x, int)):
            return None if direct_corners(r, s, tri) else f'the corners {[show(x) for x in a]} of the polygon become a triangle'
        return f'triangle {show(kap)} of a polygon has the corners {", ".join(show(x) for x in a)}'
    b = s.loop[3]
    if b is not None:
        dd, c = lin(b)
        if c != -2 or len(dd) != 1 or list(dd.values()) != [1]:
            return f'a polygon becomes {show(b)[:100]} triangles'
    return None


def direct_corners(r, s, tri):
    """Corners that are read one after the other."""
    seq = [e[2] for e in s.ev if e[0] == 'in']
    k = []
    for t in tri:
        i = ins(t)
        if len(i) != 1 or i[0] not in seq:
            return False
        k.append(seq.index(i[0]))
    return k[1] == k[0] + 1 and k[2] == k[1] + 1


def index(r, o, s, v):
    x = ins(v)
    if len(x) != 1:
        return f'the index {show(v)[:100]} is not a number of the line'
    x = x[0]
    d, c = lin(v)
    if d.get(x) != 1:
        return f'an index is {show(v)[:150]}'
    rest = {k: n for k, n in d.items() if k != x}
    if r.fmt in ('off', 'ply'):
        if rest or c:
            return f'the index {show(x)[:60]} counts from {-c if not rest else show(v)[:80]} instead of 0'
        if r.fmt == 'ply':
            return list_property(r, o, s)
        return None
    pos, neg = sign(r.ai, s, x)
    if not rest and c == -1:
        return None if pos else f'{show(v)[:80]} although the index may be negative or zero'
    if c == 0 and len(rest) == 1 and list(rest.values()) == [1]:
        k = next(iter(rest))
        if not counts_points(r, s, k):
            return f'a relative index counts from {show(k)[:80]} instead of the number of vertices'
        return None if neg else f'{show(v)[:80]} although the index may be positive or zero'
    return f'an index becomes {show(v)[:120]}'


def sign(ai, s, x):
    ai.st = s.st
    pos, neg = ai.implied(x), ai.implied(mulc(x, -1))
    if s.facts().get(T('==0', x)) == frozenset((False,)):
        pos = pos or ai.implied(add(x, 1))
        neg = neg or ai.implied(add(mulc(x, -1), 1))
    return pos, neg


def counts_points(r, s, k):
    """Is this term the number of vertices read so far?"""
    if isT(k) and k[1] in ('len', 'cntv', 'cnt', 'hv'):
        for o, t in r.steps:
            for i, e, x in points(t):
                c = seq_before(e[3])
                ai = r.ai
                ai.st = s.st
                if c is not None and ai.seq_len(c) == k:
                    return True
    return False


def seq_before(v):
    return ('S', v[1][:-1], v[2])


def list_property(r, o, s):
    facts = s.facts()
    for t in s.chain():
        if t.q is None or t.loop is None:
            continue
        for it in iterators(t.q, t.loop[2]):
            el, nm = property_name(facts, it)
            if nm is not None:
                if nm not in ('vertex_index', 'vertex_indices') or el != 'face':
                    return f'indices are read from the property {nm} of the element {el}'
                if is_list(facts, it) is False:
                    return f'indices are read from a property {nm} that is not a list'
                return None
    return 'indices are not read from a property found by its name'


def dropped(r):
    """A polygon with at least three corners becomes faces."""
    for o, s in r.steps:
        if s.loop is None or s.q['kind'] != 'norm':
            continue
        # iterations that read indices in a nested loop, without adding faces
        sub = list(below(s))
        if not any(True for t in sub for _ in indices(t)) or s.parent is not None and s.parent.loop is not None:
            continue
        loops = [e for e in s.ev if e[0] == 'loop']
        if any(True for t in sub for _ in faces(t)):
            continue
        # the number of indices
        cnts = {k for o2, s2 in r.steps for i, e, tri in faces(s2) if s2.loop is not None and s2.loop[3] is not None for k in lin(s2.loop[3])[0]}
        r.ai.st = s.st
        if not cnts or not any(r.ai.implied(sub_(3, k)) for k in cnts):
            g = {show(t)[:80]: sorted(map(str, d)) for t, d in s.dom.items() if isT(t) and t[1] == '>0'}
            return f'a polygon is dropped although it may have three or more corners ({str(g)[:200]})'
    return None


def sub_(a, b):
    return add(a, mulc(b, -1))


def attributes(r):
    """A loop that reads numbers, and nothing but numbers, stops at the first slash."""
    for o, s in r.steps:
        if s.loop is None or not list(indices(s)):
            continue
        nums, other = 0, 0
        for q in s.loop[4]:
            evs = list(q['cev']) + list(q['ev'])
            evs += [x for e in all_loops(evs) for p in e[4] for x in list(p['cev']) + list(p['ev'])]
            for x in evs:
                if x[0] == 'in' and len(x) > 2 and isT(x[2]) and x[2][-1] == 'signed':
                    nums += 1
                elif x[0] in ('in', 'getline') or x[0] == 'inop' and x[1] != 'peek' or x[0] == 'parse' and 'omment' not in str(x[2]):
                    other += 1
        if nums and not other:
            return 'nothing is read between the indices of the vertices of a face'
    return None


def all_loops(ev):
    for e in ev:
        if e[0] == 'loop':
            yield e
            for q in e[4]:
                yield from all_loops(list(q['cev']) + list(q['ev']))


def passed_over(r):
    """A loop that advances through records without reading anything, as long as a number in them has some value: that is 0."""
    for o in r.outs:
        for e in all_loops(o.ev):
            for q in e[4]:
                if q['kind'] != 'norm' or any(x[0] in ('in', 'inop', 'parse', 'loop') for x in list(q['cev']) + list(q['ev'])):
                    continue
                if not any(x[0] == 'w' and isI(x[3]) and isT(x[3][2]) and contains(x[3][2], e[2]) for x in q['ev']):
                    continue
                nums = {}
                for t, d in q['st'].dom.items():
                    if isT(t) and t[1] in ('==0', '>0') and len(d) == 1:
                        dd, c = lin(t[2])
                        if len(dd) == 1:
                            (x, k), = dd.items()
                            if isT(x) and x[1] == '.' and isT(x[2]) and x[2][1] == 'at' and (x[2][3] == e[2] or contains(x[2][3], e[2])) and isnum(k) and isnum(c):
                                nums.setdefault(x, []).append((t[1], k, c, next(iter(d))))
                for x, fs in nums.items():
                    for v in (1, 2, 3):
                        if all(((k * v + c == 0) if op == '==0' else (k * v + c > 0)) == d for op, k, c, d in fs):
                            return f'an element is passed over if its {x[3]} is {v}'
    return None


def skipping(r):
    """Properties other than those that are needed are skipped exactly."""
    n = 0
    for o, s in r.steps:
        for e in s.ev:
            if e[0] != 'loop':
                continue
            qs = [q for q in e[4] if q['kind'] == 'norm']
            if not any(iterators(q, e[2]) for q in qs):
                continue
            for q in qs:
                if iterators(q, e[2]):
                    continue
                ltyp = [d for t, d in q['st'].dom.items() if isT(t) and t[1] == '==' and 'list' in t[2:] and any(isT(x) and contains(x, e[2]) for x in t[2:])]
                if not ltyp:
                    if any(v[0] in ('in', 'parse') for v in q['ev']):
                        return 'a property is skipped without regard to its type'
                    continue
                n += 1
                rd = [v for v in q['ev'] if v[0] in ('in', 'parse')]
                lp = [v for v in q['ev'] if v[0] == 'loop']
                if ltyp[0] == frozenset((False,)):
                    if len(rd) != 1 or lp:
                        return f'{len(rd)} words are skipped for a scalar property'
                else:
                    if len(rd) != 1 or len(lp) != 1:
                        return 'a list property is not skipped as a count followed by that many words'
                    c = rd[0][2] if rd[0][0] == 'in' else rd[0][3]
                    for q2 in lp[0][4]:
                        if q2['kind'] != 'norm':
                            continue
                        g = T('>0', add(c, mulc(lp[0][2], -1)))
                        if q2['st'].dom.get(g) != frozenset((True,)):
                            return 'the number of words skipped for a list property is not its count'
                        if len([v for v in q2['ev'] if v[0] in ('in', 'parse')]) != 1:
                            return 'a word of a list property is not skipped by one extraction'
    return None if n else 'no property is ever skipped'


# ---------------------------------------------------------------- writers
class Val:
    def __init__(self, kind, v):
        self.kind, self.v = kind, v

    def __repr__(self):
        return f'<{self.kind} {show(self.v)[:100]}>'


def double_out(ai, fn, this, args, node):
    if ai.tape_stream is None or ai.rval(args[0]) != ai.tape_stream and args[0] != ai.tape_stream:
        return NotImplemented
    v = ai.norm(ai.rval(args[1]))
    ai.record('text', 'Double', v)
    return args[0]


def writer(ctx, f, fmt):
    w = ctx.where(f)
    ai = ctx.ai(intercepts={'kigumi::io::ascii::operator<<': double_out})
    i = target_index(ctx.prog(), f)

    def go():
        ai.tape = ('&', ai.newcell('tape', ('S', (), ())), ())
        args = sym_args(ai, f)
        ai.tape_stream = args[1 - i]
        return ai.call_fn(f, None, args)
    outs = ai.explore(go)
    ctx.analysed |= {ctx.where(ai.p.fns[k]) for k in ai.called if k in ai.p.fns}
    good = [o for o in outs if o.kind == 'norm' and o.val is not False]
    if not good:
        ctx.und('what is written', w, 'no partition on which the writer succeeds')
        return
    bad = None
    for o in good:
        g = Grammar(ctx, ai, f, fmt, f['params'][i]['n'], o)
        bad = bad or g.check()
    ctx.check(not bad, f'the text is a valid {fmt.upper()} file that describes the mesh', w, bad or f'{len(good)} partitions')
    bad = None
    n = 0
    for o in good:
        for s in [Step(o.ev, o.st.dom, o.st)] + list(below(Step(o.ev, o.st.dom, o.st))):
            b, k = exactness(s)
            n += k
            bad = bad or b
    ctx.check(not bad, 'coordinates are evaluated exactly before they are rounded', w, bad or f'{n} conversions')


def exactness(s):
    n = 0
    for i, e in enumerate(s.ev):
        if e[0] not in ('pure', 'ext') or not e[1].endswith('to_double'):
            continue
        n += 1
        a = as_term(e[3][0]) if e[3] else as_term(e[2])
        if any(str(x[2]).rsplit('::', 1)[-1] == 'exact' for x in subterms(a) if isT(x) and x[1] == 'app'):
            continue
        done = exact_calls(s.ev[:i])
        t = s
        while t.parent is not None:
            done |= exact_calls(t.parent.ev[:t.pos], t.loop[3])
            t = t.parent
        if not any(x in done for x in subterms(a)):
            return f'line {e[4] if len(e) > 4 else "?"}: a coordinate is converted from its approximation', n
    return None, n


def as_term(x):
    """The object that a reference designates."""
    if isLV(x):
        t = T('atom', x[1])
        for k, a in x[2]:
            t = T('.', t, a) if k == 'f' else T('at', t, a)
        return t
    return x


def exact_calls(ev, bound=None):
    """The numbers and points whose exact values have been computed."""
    out = set()
    for e in ev:
        if e[0] in ('pure', 'ext') and e[1].rsplit('::', 1)[-1] == 'exact':
            for x in (e[2],) + tuple(e[3]):
                if x is not None:
                    out.add(as_term(x))
        if e[0] == 'loop' and bound is not None and e[3] == bound:
            qs = [q for q in e[4] if q['kind'] == 'norm']
            if qs and len(qs) == len(e[4]):
                out |= set.intersection(*(exact_calls(list(q['cev']) + list(q['ev'])) for q in qs))
    return out


class Grammar:
    def __init__(self, ctx, ai, f, fmt, soup, o):
        self.ai, self.fmt, self.o = ai, fmt, o
        self.soup = T('atom', soup)
        self.pts = self.field('points')
        self.fcs = self.field('faces')

    def field(self, what):
        """The containers of the mesh, as the writer sees them."""
        for s in self.segs():
            if s[0] == 'g' and isT(s[2]) and s[2][1] == 'len':
                c = s[2][2]
                if what == 'points' and 'Point_3' in repr(s[3]):
                    return c
                if what == 'faces' and 'Point_3' not in repr(s[3]):
                    return c
        return None

    def segs(self):
        return self.ai.as_seq(self.o.st.store.get(self.ai.tape[1]))[1]

    def item(self, x):
        d = dict(x[3])
        kind, v = d['1'], d['2']
        if d['0'] == 'bytes':
            return ['raw bytes']
        if kind == 'str':
            return list(v) if isinstance(v, str) else [Val('str', v)]
        if kind == 'char' and isinstance(v, int):
            return [chr(v)]
        if kind == 'manip':
            return ['\n'] if 'endl' in str(v) else [] if 'flush' in str(v) or 'ends' in str(v) else [Val('manip', v)]
        if kind in ('int', 'unsigned') and isinstance(v, int):
            return list(str(v))
        return [Val(kind, v)]

    def lines(self, items):
        """Splits text into lines of words; None if a line is not completed."""
        out, line, word = [], [], []
        for c in items:
            if isinstance(c, str) and c in ' \t\r\n':
                if word:
                    line.append(word)
                    word = []
                if c == '\n':
                    out.append(line)
                    line = []
            else:
                word.append(c)
        rest = bool(line or word)
        return [[self.word(w) for w in l] for l in out], rest

    def word(self, w):
        if all(isinstance(c, str) for c in w):
            return ''.join(w)
        if len(w) == 1:
            return w[0]
        if w[0] == '-' and len(w) == 2 and isinstance(w[1], Val) and w[1].kind in ('int', 'unsigned'):
            return Val('int', mulc(w[1].v, -1))
        return Val('mixed', tuple(w))

    def check(self):
        if self.pts is None or self.fcs is None:
            return 'the vertices or the faces are not written' if not self.weird() else None
        head, blocks = [], []
        cur = []
        for s in self.segs():
            if s[0] == '1':
                cur += self.item(s[1])
            elif s[0] == 'g':
                ls, rest = self.lines(cur)
                if rest:
                    return f'a line is not ended before the list of {"vertices" if s[2] == T("len", self.pts) else "faces"}'
                blocks.append(('text', ls))
                cur = []
                alts = []
                for g, vals in s[3]:
                    it = []
                    for x in vals:
                        it += self.item(x)
                    ls, rest = self.lines(it)
                    if rest:
                        return 'a line of a list is not ended'
                    alts.append((g, ls))
                blocks.append(('list', s[1], s[2], alts, s[4]))
            else:
                return None
        ls, rest = self.lines(cur)
        blocks.append(('text', ls))
        if rest:
            return 'the last line is not ended'
        return getattr(self, self.fmt)(blocks)

    def weird(self):
        return any(s[0] not in '1g' for s in self.segs())

    # ---- words
    def number(self, w):
        if isinstance(w, str):
            try:
                return int(w)
            except ValueError:
                return None
        if w.kind == 'int':
            return w.v
        if w.kind == 'unsigned':
            # a difference of unsigned numbers wraps around instead of becoming negative
            d, c = lin(w.v)
            if c >= 0 and all(x > 0 for x in d.values()) or self.nonneg(w.v):
                return w.v
        return None

    def nonneg(self, v):
        self.ai.st = self.o.st
        return self.ai.implied(add(v, 1))

    def coords(self, words, k):
        if len(words) != 3:
            return f'a vertex is written as {len(words)} words'
        for w, a in zip(words, 'xyz'):
            if not isinstance(w, Val):
                return f'a coordinate is written as {w}'
            v = w.v
            if w.kind == 'Double':
                v = dict(v[3]).get('value') if isR(v) else v
            elif w.kind.startswith('raw'):
                return f'{a} is printed with the default precision'
            else:
                return f'{a} is written as {w}'
            want = T('app', 'CGAL::Point_3::' + a, T('at', self.pts, k))
            while isT(v) and v[1] in ('app',) and (str(v[2]).endswith('to_double') or str(v[2]).endswith('exact')):
                v = v[3]
            if v != want:
                return f'{a} is written as {show(v)[:120]}'
        return None

    def corners(self, words, k, off):
        if len(words) != 3:
            return f'a face is written with {len(words)} indices'
        got = [self.number(w) for w in words]
        if any(g is None for g in got):
            return f'a corner is written as {words}'
        want = [add(T('.', T('at', T('at', self.fcs, k), j), 'i_'), off) for j in range(3)]
        if any(isinstance(w, Val) and w.kind == 'manip' for w in words):
            return None
        if not any(got == want[j:] + want[:j] for j in range(1)):
            return f'the corners are written as {", ".join(show(g)[:60] for g in got)}'
        return None

    def nv(self):
        return T('len', self.pts)

    def nf(self):
        return T('len', self.fcs)

    def vertex_block(self, b, tag):
        if b[0] != 'list' or b[2] != self.nv() or b[4] is False:
            return f'not every vertex is written exactly once'
        for g, ls in b[3]:
            ls = [l for l in ls if l and not self.comment(l)]
            if len(ls) != 1:
                return f'{len(ls)} lines are written for a vertex'
            l = ls[0]
            if tag:
                if l[0] != tag:
                    return f'the line of a vertex starts with {l[0]}'
                l = l[1:]
            e = self.coords(l, b[1])
            if e:
                return e
        return None

    def comment(self, l):
        return isinstance(l[0], str) and l[0].startswith('#') and self.fmt != 'ply'

    def face_block(self, b, tag, offs):
        if b[0] != 'list' or b[2] != self.nf() or b[4] is False:
            return 'not every face is written exactly once'
        for g, ls in b[3]:
            ls = [l for l in ls if l and not self.comment(l)]
            if len(ls) != 1:
                return f'{len(ls)} lines are written for a face'
            l = ls[0]
            if l[0] != tag:
                return f'the line of a face starts with {l[0]}'
            es = [self.corners(l[1:], b[1], off(g)) for off in offs]
            if all(es):
                return es[0]
        return None

    def split(self, blocks):
        """Text before, and the lists."""
        head = blocks[0][1]
        lists = [b for b in blocks if b[0] == 'list']
        for b in blocks[1:]:
            if b[0] == 'text' and any(l and not self.comment(l) for l in b[1]):
                return head, lists, f'unexpected text {b[1]}'
        return head, lists, None

    def obj(self, blocks):
        head, lists, e = self.split(blocks)
        if e:
            return e
        if any(l and not self.comment(l) for l in head):
            return f'unexpected text {head}'
        if len(lists) != 2:
            return f'{len(lists)} lists are written'
        negative = lambda g: mulc(self.nv(), -1)
        return self.vertex_block(lists[0], 'v') or self.face_block_obj(lists[1])

    def face_block_obj(self, b):
        """Relative exactly if the option is set."""
        dom = self.o.st.dom
        if b[0] != 'list' or b[2] != self.nf() or b[4] is False:
            return 'not every face is written exactly once'
        for g, ls in b[3]:
            opt = None
            for t, d in list(g) + [(t, d) for t, d in dom.items()]:
                if 'negative' in repr(t) and len(d) == 1:
                    opt = next(iter(d))
            ls = [l for l in ls if l and not self.comment(l)]
            if len(ls) != 1 or not ls[0] or ls[0][0] != 'f':
                return f'a face is written as {ls}'
            ep = self.corners(ls[0][1:], b[1], 1)
            en = self.corners(ls[0][1:], b[1], mulc(self.nv(), -1))
            if opt is True and en or opt is False and ep or opt is None and ep and en:
                return f'{ep if opt is not True else en}' + (f' (relative indices: {opt})' if opt is not None else '')
        return None

    def off(self, blocks):
        head, lists, e = self.split(blocks)
        if e:
            return e
        h = [l for l in head if l and not self.comment(l)]
        if len(h) != 2 or h[0] != ['OFF']:
            return f'the header is {h}'
        if len(h[1]) != 3 or self.number(h[1][0]) != self.nv() or self.number(h[1][1]) != self.nf() or self.number(h[1][2]) is None:
            return f'the counts are {h[1]}'
        if len(lists) != 2:
            return f'{len(lists)} lists are written'
        return self.vertex_block(lists[0], None) or self.face_block(lists[1], '3', [lambda g: 0])

    def ply(self, blocks):
        head, lists, e = self.split(blocks)
        if e:
            return e
        h = [l for l in head if not (l and l[0] in ('comment', 'obj_info'))]
        if len(h) < 4 or h[0] != ['ply'] or h[1] != ['format', 'ascii', '1.0'] or h[-1] != ['end_header']:
            return f'the header is {h}'
        elements = []
        for l in h[2:-1]:
            if l and l[0] == 'element' and len(l) == 3:
                elements.append((l[1], self.number(l[2]), []))
            elif l and l[0] == 'property' and elements:
                elements[-1][2].append(l[1:])
            else:
                return f'unexpected header line {l}'
        if [x[0] for x in elements] != ['vertex', 'face']:
            return f'the elements are {[x[0] for x in elements]}'
        (_, n, vp), (_, m, fp) = elements
        if n != self.nv() or m != self.nf():
            return f'the counts are {show(n)} and {show(m)}'
        if [x[-1] for x in vp] != ['x', 'y', 'z'] or any(len(x) != 2 or x[0] not in ('float', 'double', 'float32', 'float64') for x in vp):
            return f'the vertex properties are {vp}'
        if len(fp) != 1 or len(fp[0]) != 4 or fp[0][0] != 'list' or fp[0][3] not in ('vertex_index', 'vertex_indices'):
            return f'the face properties are {fp}'
        if len(lists) != 2:
            return f'{len(lists)} lists are written'
        return self.vertex_block(lists[0], None) or self.face_block(lists[1], '3', [lambda g: 0])


# ---------------------------------------------------------------- numbers
def printed(ctx, f):
    p = ctx.prog()
    ai = ctx.ai()
    box = {}

    def go():
        box['args'] = sym_args(ai, f)
        return ai.call_fn(f, None, box['args'])
    outs = ai.explore(go)
    w = ctx.where(f)
    name = f['params'][1]['n']
    val = T('.', T('atom', name), 'value')
    bad = None
    for o in outs:
        tc = [e for e in o.ev if e[0] in ('pure', 'ext') and e[1] == 'std::to_chars']
        wr = [e for e in o.ev if e[0] in ('rawwrite', 'out')]
        if not tc:
            raw = [e for e in wr if e[0] == 'out' and e[2] == val]
            if raw and not any(e[0] == 'fmt' for e in o.ev):
                bad = 'a coordinate is printed with the default precision'
                continue
            ctx.und('how a coordinate is printed', w, 'not printed by std::to_chars')
            return
        a = tc[0][3]
        if len(a) != 3 or a[2] != val:
            bad = f'std::to_chars is called with {show(a)[:200]}: ' + ('a format or precision is imposed' if len(a) > 3 else 'another value is printed')
            continue
        dig = capacity(a[0], a[1])
        if dig is not None and dig < 24:
            bad = f'the buffer has {dig} characters, a double needs up to 24'
        if len(wr) != 1:
            bad = bad or f'{len(wr)} pieces of text are written'
    ctx.check(not bad, 'how a coordinate is printed', w, bad or 'shortest exact form')


def capacity(a, b):
    if isI(a) and isI(b) and isinstance(a[2], int) and isinstance(b[2], int):
        return b[2] - a[2]
    return None
