"""Operations do not change their operands."""
from framework import *
from effects import *

EXPLANATION = (
    'Every function of the library that receives a mesh, a soup or a region by reference, and is not one of those whose purpose is to fill or '
    'to tag that object, is entered with its parameters as symbols, together with everything it calls. All writes to objects that outlive the '
    'call are collected with the members by which they were reached (also through members that are references, through mutable members, casts '
    'and moves): none of them may lie in an operand, except members that cache something and are protected by a mutex of the object.')
ASSUMPTIONS = ['const members and const arguments of the standard library, boost and CGAL are only read',
               'the exact value of a lazy number may be computed and stored by reading it (CGAL), which does not change the number']

GEO = {'kigumi::Triangle_soup', 'kigumi::Triangle_mesh', 'kigumi::Region'}
# entry points and the parameters that are operands (None: all of them), by the role they have in the interface
ENTRY = {
    'kigumi::Boolean_region_builder::Boolean_region_builder': None,
    'kigumi::Mix::operator()': None,
    'kigumi::Extract::operator()': None,
    'kigumi::Corefine::Corefine': None,
    'kigumi::Classify_faces_globally::operator()': ('kigumi::Triangle_soup',),
    'kigumi::Find_coplanar_faces::operator()': None,
    'kigumi::Find_possibly_intersecting_faces::operator()': None,
    'kigumi::Find_defects::Find_defects': None,
    'kigumi::Side_of_triangle_soup::operator()': None,
    'kigumi::write_kigumi_region': None,
    'kigumi::write_triangle_soup': None,
}
OBJECTS = {'kigumi::Boolean_region_builder', 'kigumi::Region', 'kigumi::Triangle_soup', 'kigumi::Triangle_mesh', 'kigumi::Find_defects'}
# queries: they leave the object as it is, whether they are declared const or not
QUERIES = {'operator()', 'warnings', 'boundary', 'bounded_side', 'is_empty', 'is_full', 'is_empty_or_full', 'num_vertices', 'num_faces', 'vertices', 'faces',
           'vertices_begin', 'vertices_end', 'faces_begin', 'faces_end', 'face', 'point', 'triangle', 'bbox', 'aabb_tree', 'has_valid_faces', 'faces_around_edge',
           'faces_around_face', 'triangle_soup', 'boundary_edges', 'inconsistent_edges', 'isolated_vertices', 'non_manifold_edges', 'non_manifold_vertices',
           'trivial_degenerate_faces', 'non_trivial_degenerate_faces', 'overlapping_faces'}


def run(ctx):
    p = ctx.prog()
    done = set()
    for name, types in ENTRY.items():
        fs = [f for f in p.find(name) if f.get('body') is not None]
        fs = [f for f in fs if operands(p, f, types)]
        if not fs:
            ctx.und('operands are only read', name, 'not found')
        for f in fs:
            done.add(f['id'])
            ctx.guarded('operands are only read', f, lambda: one(ctx, p, f, operands(p, f, types)))
    # everything else that takes an operand by reference to const, and const members of the objects themselves
    for f in p.fns.values():
        if f['id'] in done or f.get('lambda') or f.get('body') is None or not f['b'].startswith('kigumi::'):
            continue
        ops = [x for x in f['params'] if isref(p, x, GEO) and p.ty(p.ty(x['t'])['to']).get('const')]
        me = (f.get('const') or f['n'] in QUERIES and not f['params'] or f['n'] == 'operator()') and base(f.get('cls') or '') in OBJECTS and not f.get('static')
        if ops or me:
            ctx.guarded('operands are only read', f, lambda: one(ctx, p, f, ops, me))


def isref(p, x, types):
    return p.ty(x['t']).get('c') == 'ref' and p.tbase(x['t']) in types


def operands(p, f, types):
    return [x for x in f['params'] if p.tbase(x['t']) in (types or GEO)]


def one(ctx, p, f, ops, me=False):
    w = ctx.where(f)
    e = Effects(p)
    ids = {x['id'] for x in ops if p.ty(x['t']).get('c') == 'ref'}
    byval = [x['n'] for x in ops if p.ty(x['t']).get('c') != 'ref']
    this = V(frozenset([(('this', 'this', 0, None), (), frozenset())]))
    args = [V(frozenset([(('param', x['n'], x['id'], None), (), frozenset())])) for x in f['params']]
    e.site = 'call'
    e.acc = []
    e.stack.append(('call', f['l']))
    e.enter(f, this, args, None)
    ctx.analysed.add(w)
    ctx.count('functions')
    ctx.count('accesses', len(e.acc))
    for g in {id(a.fn): a.fn for a in e.acc if a.fn is not None}.values():
        ctx.analysed.add(ctx.where(g))
    bad = {}
    for a in e.acc:
        if not a.w:
            continue
        if a.root[0] == 'param' and a.root[2] in ids or me and a.root[0] == 'this':
            if cached(p, a):
                ctx.count('writes of protected caches')
                continue
            bad.setdefault((a.root, a.path), a)
    ctx.count('operands', len(ids) + bool(me))
    for (r, pa), a in sorted(bad.items(), key=lambda x: show_place(*x[0])):
        fn = a.fn['b'].replace('kigumi::', '') if a.fn else '?'
        ctx.viol('operands are only read', w, f'{show_place(r, pa)} is changed at line {a.line} ({fn[:80]})')
    if not bad:
        ctx.ok('operands are only read', w, f'by value: {byval}' if byval else '')


def mutable_members(p):
    """Members that cache something: mutable, next to a mutex, and not carried by copies."""
    out = set()
    for r in p.records.values():
        if r['b'] in GEO and any(base(p.ty(f['t']).get('base', '')) in ('std::mutex', 'std::shared_mutex') for f in r['fields']):
            out |= {f['n'] for f in r['fields'] if f.get('mut')} - carried(p, r['b'])
    return out


def carried(p, b):
    out = set()
    for f in p.fns.values():
        if f['b'] == b + '::' + b.split('::')[-1] and len(f['params']) == 1 and p.tbase(f['params'][0]['t']) == b and \
                p.ty(p.ty(f['params'][0]['t']).get('to')).get('const'):
            for part in [f.get('body')] + [i.get('e') for i in f.get('inits') or []]:
                out |= {n['n'] for n in walk(part) if n['k'] == 'member' and n['e'].get('k') == 'var'}
    return out


def cached(p, a):
    return bool(a.locks) and any(x in mutable_members(p) for x in a.path if isinstance(x, str))
