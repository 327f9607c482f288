"""The readers and writers of the library as units of a modular analysis: a reader or writer that is
called by another one is replaced by its contract, which is checked on its own body."""
from spec import *

READERS = ('kigumi::io::read_obj', 'kigumi::io::read_off', 'kigumi::io::read_ply', 'kigumi::read_triangle_soup',
           'kigumi::read_kigumi_region', 'read_region')
WRITERS = ('kigumi::io::write_obj', 'kigumi::io::write_off', 'kigumi::io::write_ply', 'kigumi::write_triangle_soup',
           'kigumi::write_kigumi_region', 'write_region')
DATA = ('kigumi::Triangle_soup', 'kigumi::Region')


def params(ai, fn):
    f = ai.p.fns.get(fn['id'], fn)
    return [q['t'] for q in f['params']] if 'params' in f else f['pt']


def target_index(p, fn):
    """Position of the mesh or region that is read or written."""
    f = p.fns.get(fn['id'], fn)
    pts = [q['t'] for q in f['params']] if 'params' in f else f['pt']
    for i, t in enumerate(pts):
        if p.ty(t).get('c') == 'ref' and base(p.deref(t)[1].get('base', '')) in DATA:
            return i
    return None


def binary(p, name):
    """The instances of Read or Write for meshes and regions."""
    out = []
    for f in p.find(name):
        if f.get('body') is not None and target_index(p, f) == 1:
            out.append(f)
    return out


def functions(ctx, names):
    p = ctx.prog()
    return [f for n in names for f in p.find(n) if f.get('body') is not None and target_index(p, f) is not None]


def extract(ai, fn, this, args, node):
    """A typed extraction from a text stream."""
    pt = params(ai, fn)
    lv = ai.stream_lv(args[0])
    old, new = ai.stream_bump(lv, '>>', node)
    ty = ai.p.deref(pt[1])[1]
    b = base(ty.get('base', ''))
    rt = ai.p.ty(pt[1])
    x = c = None
    if rt.get('c') == 'ref' and not ai.p.ty(rt['to']).get('const'):
        x = T('in', new)
        ai.write(args[1], ('R', x, b, ()), node)
    else:
        ai.state_op[new] = (lv[1], 'match')
        c = ai.norm(ai.rval(args[1]))
    ai.st.ev.append(('parse', lv, b, x, node.get('l', 0) if node else 0, c))
    return lv


EXTRACTORS = {'kigumi::io::ascii::operator>>': extract, 'kigumi::io::operator>>': extract}


def read_contract(root):
    def h(ai, fn, this, args, node):
        if fn['id'] == root['id'] and not ai.frames:
            return NotImplemented
        i = target_index(ai.p, fn)
        if i is None:
            return NotImplemented
        cls = base(ai.p.deref(params(ai, fn)[i])[1]['base'])
        s = ai.fresh('loaded')
        void = ai.p.deref(fn['rt'])[1].get('c') == 'void' if 'rt' in fn else fn['b'].endswith('operator()')
        ai.st.ev.append(('load', fn['b'], args[i], s, node.get('l', 0) if node else 0, ai.norm(ai.rval(args[0]))))
        lv = None
        if void:
            lv = ai.stream_lv(args[0])
            old, new = ai.stream_bump(lv, 'read', node)
        t = T('ok', new) if void else T('succeeds', s)
        ai.tdom.setdefault(t, frozenset((False, True)))
        good = ai.decide(t)
        if void:
            ai.st.dom[T('good', new)] = frozenset((good,))
        if good:
            ai.write(args[i], ('R', s, cls, ()), node)
        return None if void else good
    return h


def write_contract(root):
    def h(ai, fn, this, args, node):
        if fn['id'] == root['id'] and not ai.frames:
            return NotImplemented
        i = target_index(ai.p, fn)
        if i is None:
            return NotImplemented
        s = ai.fresh('stored')
        t = T('succeeds', s)
        ai.tdom.setdefault(t, frozenset((False, True)))
        ai.st.ev.append(('store', fn['b'], ai.norm(ai.rval(args[i])), ai.rval(args[0]), t, node.get('l', 0) if node else 0))
        return t
    return h


def explore(ctx, f, extra=None, contract=read_contract, names=READERS, old='old', steps=20000000):
    """Interprets a reader; returns (analyser, partitions, value of the target before, lv of the target)."""
    ic = dict(EXTRACTORS)
    for n in names:
        ic[n] = contract(f)
    if contract is read_contract:
        h = contract(f)

        def rd(ai, fn, this, args, node):
            fn = ai.p.fns.get(fn['id'], fn)
            if fn['id'] == f['id'] and not ai.frames:
                return NotImplemented
            if target_index(ai.p, fn) is not None:
                return h(ai, fn, this, args, node)
            # an item of the binary format
            lv = ai.stream_lv(args[0])
            old_, new = ai.stream_bump(lv, 'read', node)
            x = T('in', new)
            t = ai.p.deref(params(ai, fn)[1])[1]
            if t.get('c') == 'bool':
                ai.tdom.setdefault(x, frozenset((False, True)))
            ai.st.ev.append(('parse', lv, t.get('base') or t.get('s'), x, node.get('l', 0) if node else 0))
            ai.write(args[1], ('R', x, base(t['base']), ()) if t.get('c') == 'rec' and t.get('repo') else x, node)
            return None
        ic['kigumi::Read::operator()'] = rd
    ic.update(extra or {})
    ai = ctx.ai(intercepts=ic, steps=steps)
    i = target_index(ai.p, f)
    cls = base(ai.p.deref(f['params'][i]['t'])[1]['base'])
    box = {}

    def go():
        lv = ('&', ai.newcell('target', opaque(old, cls)), ())
        box['lv'] = lv
        args = sym_args(ai, f, **{f['params'][i]['n']: lv})
        box['args'] = args
        return ai.call_fn(f, sym_this(ai, f) if f.get('cls') else None, args)
    outs = ai.explore(go)
    ctx.analysed |= {ctx.where(ai.p.fns[k]) for k in ai.called if k in ai.p.fns}
    for o in outs:
        o.target = ai.read_in(o.st, (box['lv'][1], ()))
    return ai, outs, box
