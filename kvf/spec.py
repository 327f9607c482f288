"""Shared pieces of the specifications: the library's data types as abstract data types."""
from framework import *

OPS = dict(V=0, A=1, B=2, C=3, D=4, E=5, F=6, G=7, H=8, I=9, J=10, K=11, L=12, M=13, X=14, O=15)
TRUTH = {
    'V': lambda a, b: True, 'A': lambda a, b: a or b, 'B': lambda a, b: a or not b, 'C': lambda a, b: b or not a,
    'D': lambda a, b: not (a and b), 'E': lambda a, b: a == b, 'F': lambda a, b: not a, 'G': lambda a, b: not b,
    'H': lambda a, b: b, 'I': lambda a, b: a, 'J': lambda a, b: a != b, 'K': lambda a, b: a and b,
    'L': lambda a, b: a and not b, 'M': lambda a, b: b and not a, 'X': lambda a, b: not (a or b), 'O': lambda a, b: False,
}


def enum_vals(p, name):
    """Enumerators of a repo enum (name -> value)."""
    for t in p.types:
        if t.get('c') == 'enum' and base(t.get('base', '')) == name:
            return dict(t['vals'])
    return None


def op_values(p):
    """Boolean_operator enumerators by Bochenski letter, read from the source."""
    v = enum_vals(p, 'kigumi::Boolean_operator')
    if v is None:
        return None
    return {k: v[k] for k in OPS if k in v}


def is_index(v):
    return isR(v) and v[2] == 'kigumi::Index'


def idx(v):
    """The integer inside an index value."""
    if isR(v):
        f = dict(v[3])
        if 'i_' in f:
            return f['i_']
        if len(f) == 1:
            return next(iter(f.values()))
        if v[1] is not None and not f:
            return T('.', v[1], 'i_')
    if isT(v):
        return T('.', v, 'i_')
    return v


def field_of(ctx, cls, method, nargs_idx=True, unit='lib'):
    """Name of the field that a trivial accessor `cls::method(index)` reads."""
    for f in ctx.prog(unit).find(cls + '::' + method):
        for n in walk(f['body']):
            if n['k'] == 'member' and isinstance(n.get('e'), dict) and n['e']['k'] == 'this':
                return n['n']
    return None


_sf = {}


def soup_fields(ctx, unit='lib'):
    if unit not in _sf:
        _sf[unit] = (field_of(ctx, 'kigumi::Triangle_soup', 'point', unit=unit) or 'points_',
                     field_of(ctx, 'kigumi::Triangle_soup', 'face', unit=unit) or 'faces_',
                     field_of(ctx, 'kigumi::Triangle_soup', 'data', unit=unit) or 'face_data_')
    return _sf[unit]


def mk_index(v):
    return Rf('kigumi::Index', [('i_', v)])


def soup_intercepts():
    """Triangle_soup as an abstract data type that is being built: a new vertex is named by its
    point, every added face is an event with the face's three vertex handles."""
    def add_vertex(ai, fn, this, args, node):
        p = ai.rval(args[0])
        ai.st.ev.append(('add_vertex', this, p))
        return mk_index(T('nv', ai.key(p)))

    def add_face(ai, fn, this, args, node):
        f = ai.rval(args[0])
        n = ai.st.ctr.get('$nf', 0)
        ai.st.ctr['$nf'] = n + 1
        c = ai.newcell('newface', Rf('newface', [('face', f), ('data', T('default_data'))]))
        ai.st.ev.append(('add_face', this, f, c))
        return mk_index(T('nf', c))

    def data(ai, fn, this, args, node):
        i = idx(ai.rval(args[0]))
        if isT(i) and i[1] == 'nf':
            return ('&', i[2], (('f', 'data'),))
        return NotImplemented
    return {'kigumi::Triangle_soup::add_vertex': add_vertex, 'kigumi::Triangle_soup::add_face': add_face,
            'kigumi::Triangle_soup::data': data}


def loops_in(ev):
    return [e for e in ev if e[0] == 'loop']


def flat_events(ev):
    for e in ev:
        yield e
        if e[0] == 'loop':
            for q in e[4]:
                yield from flat_events(q['ev'])


def gval(guard, t, default=None):
    d = guard.get(t)
    if d is not None and len(d) == 1:
        return next(iter(d))
    return default


def state_read(st, lv):
    ai = AI.__new__(AI)
    raise NotImplementedError


def seq_source(ai, v):
    """(source term, length) if the sequence `v` is element by element the sequence named by a term."""
    if isT(v):
        return v, ai.seglen(('s', v))
    if not isS(v) or v[2]:
        return None
    segs = [s for s in v[1] if ai.seglen(s) != 0]
    if not segs:
        return 'empty', 0
    if len(segs) != 1:
        return None
    s = segs[0]
    if s[0] == 's':
        return s[1], ai.seglen(s)
    if s[0] == 'g' and s[4] and len(s[3]) == 1:
        (g, vals), = s[3]
        if len(vals) == 1:
            x = vals[0]
            if isT(x) and x[1] == 'at' and x[3] == s[1] and not contains(x[2], s[1]):
                return x[2], s[2]
    return None


def elem_at(v, x):
    """Element x of a sequence that is one uniform group or symbolic (None: not of this shape)."""
    if isT(v):
        return T('at', v, x)
    if not isS(v) or v[2]:
        return None
    segs = [s for s in v[1] if s != ('r', 0, None)]
    if len(segs) != 1:
        return None
    s = segs[0]
    if s[0] == 's':
        return T('at', s[1], x)
    if s[0] == 'r':
        return s[2]
    if s[0] == 'g' and s[4] and len(s[3]) == 1:
        (g, vals), = s[3]
        if len(vals) == 1:
            return subst(vals[0], {s[1]: x})
    return None


def fget(v, name):
    """Field of a record value or of a term."""
    if isR(v):
        for n, x in v[3]:
            if n == name:
                return x
        return T('.', v[1], name) if v[1] is not None else None
    if isT(v):
        return T('.', v, name)
    return None


def soup_value(ctx, pts, faces, data=None):
    P, F, D = soup_fields(ctx)
    items = [(P, pts), (F, faces)]
    if data is not None:
        items.append((D, data))
    return Rf('kigumi::Triangle_soup', items)


EMPTY_SEQ = ('S', (), ())


def opaque(name, cls):
    return ('R', T('atom', name), cls, ())


def region_fields(ctx):
    """(kind field, boundary field) of Region, from its accessors."""
    return field_of(ctx, 'kigumi::Region', 'is_empty') or 'kind_', field_of(ctx, 'kigumi::Region', 'boundary') or 'boundary_'


def ex_facts(cond):
    """Existential facts of a partition: list of (domain term, [ {term: allowed values} ], truth)."""
    out = []
    for t, d in cond.items():
        if isT(t) and t[1] == 'ex' and len(d) == 1:
            out.append((t, next(iter(d))))
    return out
