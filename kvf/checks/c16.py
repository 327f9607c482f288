"""The command line tool does what its arguments say."""
from loaders import *

EXPLANATION = (
    'The functions of the command line tool are abstractly interpreted with unknown arguments: every combination of given options, every '
    'failure of parsing, reading and writing. The library calls are recorded: which file is read into which operand, which operator is '
    'evaluated on which operands in which order, and which result is written to which file. On each partition they are compared with what '
    'the option names say; the exit status of main() is derived for each command, each unknown command and each exception.')
ASSUMPTIONS = ['boost::program_options stores the values of the options at the registered places', 'a process reports the value returned from main()']

TRUE, FALSE = frozenset((True,)), frozenset((False,))
PO = 'boost::program_options::'
OPS = {'int': 'INTERSECTION', 'uni': 'UNION', 'dif': 'DIFFERENCE', 'sym': 'SYMMETRIC_DIFFERENCE'}
COMMANDS = {'boolean': 'Boolean_command', 'convert': 'Convert_command', 'defects': 'Defects_command'}


def line(node):
    return node.get('l', 0) if isinstance(node, dict) else 0


def po_value(ai, fn, this, args, node):
    v = ai.rval(args[0]) if args else None
    c = ai.newcell('povalue', R('povalue', dest=v, req=False))
    return ('P', c, ())


def po_set(what):
    def h(ai, fn, this, args, node):
        lv = ('&', this[1], this[2]) if isinstance(this, tuple) and this and this[0] in ('&', 'P') else None
        if lv is not None and what:
            r = ai.rval(lv)
            if isR(r):
                ai.write(lv, R('povalue', **{**dict(r[3]), 'req': True}), node)
        return ('P', lv[1], lv[2]) if lv is not None else this
    return h


def po_add(ai, fn, this, args, node):
    return this if this is not None else T('atom', 'options')


def po_option(ai, fn, this, args, node):
    v = [ai.rval(a) for a in args]
    dest, req = None, False
    for x in v[1:]:
        if isP(x):
            r = ai.read(('&', x[1], x[2]))
            if isR(r) and r[2] == 'povalue':
                dest, req = dict(r[3])['dest'], dict(r[3])['req']
    ai.st.ev.append(('option', v[0], dest, req, line(node)))
    return this if this is not None else T('atom', 'options')


def po_positional(ai, fn, this, args, node):
    v = [ai.rval(a) for a in args]
    ai.st.ev.append(('positional', v[0], v[1], line(node)))
    return this


def po_store(ai, fn, this, args, node):
    t = T('throws', 'store')
    ai.tdom.setdefault(t, frozenset((False, True)))
    if ai.decide(t):
        raise Throw(T('exc', 'boost::program_options::error', ''), line(node))
    ai.st.ev.append(('stored', line(node)))
    return None


def po_notify(ai, fn, this, args, node):
    t = T('throws', 'notify')
    ai.tdom.setdefault(t, frozenset((False, True)))
    if ai.decide(t):
        raise Throw(T('exc', 'boost::program_options::error', ''), line(node))
    for e in list(ai.st.ev):
        if e[0] != 'option' or not isP(e[2]):
            continue
        lv = ('&', e[2][1], e[2][2])
        x = T('opt', e[1])
        if not e[3]:
            g = T('given', e[1])
            ai.tdom.setdefault(g, frozenset((False, True)))
            if not ai.decide(g):
                continue
        cur = ai.read(lv)
        ai.write(lv, Rf('opt', [('has', True), ('val', x)]) if isR(cur) and cur[2] == 'opt' else x, node)
    return None


def builder(ai, fn, this, args, node):
    if len(args) != 2:
        return NotImplemented
    a = [ai.norm(ai.rval(x)) for x in args]
    return ('R', T('builder', *a), 'kigumi::Boolean_region_builder', ())


def warnings(ai, fn, this, args, node):
    t = T('warnings', ai.norm(ai.rval(this)))
    if node is not None and node.get('t') is not None:
        ai.register(t, node['t'])
    return t


def evaluate(ai, fn, this, args, node):
    t = T('result', ai.rval(args[0]), ai.norm(ai.rval(this)))
    ai.st.ev.append(('evaluate', t, line(node)))
    return ('R', t, 'kigumi::Region', ())


def defects(ai, fn, this, args, node):
    return ('R', T('defects', ai.norm(ai.rval(args[0]))), 'kigumi::Find_defects', ())


COMMON = {PO + 'value': po_value, PO + 'typed_value::required': po_set(True), PO + 'options_description::add_options': po_add,
          PO + 'options_description_easy_init::operator()': po_option, PO + 'positional_options_description::add': po_positional,
          PO + 'store': po_store, PO + 'notify': po_notify,
          'kigumi::Boolean_region_builder::Boolean_region_builder': builder,
          'kigumi::Boolean_region_builder::warnings': warnings, 'kigumi::Boolean_region_builder::operator()': evaluate,
          'kigumi::Find_defects::Find_defects': defects}
for _n in ('value_name', 'composing', 'multitoken', 'notifier'):
    COMMON[PO + 'typed_value::' + _n] = po_set(False)


def explore_command(ctx, unit, f, extra=None):
    ic = dict(COMMON)
    for n in READERS:
        ic[n] = read_contract(f)
    for n in WRITERS:
        ic[n] = write_contract(f)
    ic.update(extra or {})
    ai = ctx.ai(unit, intercepts=ic)

    def go():
        return ai.call_fn(f, sym_this(ai, f) if f.get('cls') else None, sym_args(ai, f))
    outs = ai.explore(go)
    ctx.analysed |= {ctx.where(ai.p.fns[k], unit=unit) for k in ai.called if k in ai.p.fns}
    return ai, outs


def run(ctx):
    for unit, cls in COMMANDS.items():
        fs = [f for f in ctx.prog(unit).find(cls + '::operator()') if f.get('body') is not None]
        if not fs:
            ctx.und('commands', unit, 'the command was not found')
            continue
        ctx.guarded(f'the command {unit}', fs[0], lambda: command(ctx, unit, fs[0]), unit=unit)
    fs = [f for f in ctx.prog('main').find('main') if f.get('body') is not None]
    if fs:
        ctx.guarded('commands and exit status', fs[0], lambda: main(ctx, fs[0]), unit='main')
    f = ctx.fn('read_region')
    ctx.guarded('names of regions', f, lambda: names(ctx, f))
    f = ctx.fn('write_region')
    ctx.guarded('names of files', f, lambda: out_names(ctx, f))


def enum(ctx, unit, name):
    p = ctx.prog(unit)
    for t in p.types:
        if t.get('c') == 'enum' and base(t.get('base', '')) == name:
            return t['vals']
    return {}


def command(ctx, unit, f):
    w = ctx.where(f, unit=unit)
    rule = f'the command {unit}'
    extra = {}
    cats = []
    if unit == 'defects':
        lib = ctx.prog()
        for g in lib.fns.values():
            if base(g.get('cls') or '') == 'kigumi::Find_defects' and g.get('const') and not g['params'] and 'vector' in lib.tname(g['rt']) if 'rt' in g else False:
                cats.append(g['n'])
        for n in sorted(set(cats)):
            extra['kigumi::Find_defects::' + n] = category(n)
    ai, outs = explore_command(ctx, unit, f, extra)
    bad = None
    n = 0
    for o in outs:
        failed = [t for t, d in o.st.dom.items() if isT(t) and (t[1] == 'throws' and d == TRUE or t[1] == 'succeeds' and d == FALSE)]
        if o.kind == 'throw':
            if not failed and 'must not be empty' not in repr(o.val):
                bad = bad or f'throws {show(o.val)[:100]} although nothing failed'
            continue
        if o.kind != 'norm':
            return ctx.und(rule, w, f'partition {o.kind}')
        n += 1
        ctx.count('partitions')
        if failed:
            return ctx.viol(rule, w, f'the command succeeds although {"parsing" if failed[0][1] == "throws" else "reading or writing"} failed')
        for e in o.ev:
            if e[0] == 'store' and o.st.dom.get(e[4]) != TRUE:
                return ctx.viol(rule, w, f'line {e[5]}: the command succeeds without regard to the result of writing')
        pos = [e[1] for e in o.ev if e[0] == 'positional']
        if any(e[2] != 1 for e in o.ev if e[0] == 'positional'):
            bad = bad or 'a position stands for several arguments'
        b = {'boolean': boolean, 'convert': convert, 'defects': report}[unit](ctx, unit, ai, o, pos, sorted(set(cats)))
        if b == '':
            return ctx.und(rule, w, 'the calls of the library are not understood')
        bad = bad or b
    if not n and not bad:
        return ctx.und(rule, w, 'the command never succeeds')
    ctx.check(not bad, rule, w, bad or '')


def loads(o):
    """What was read, by symbol."""
    return {e[3]: e for e in o.ev if e[0] == 'load'}


def origin(o, v):
    """The file name from which a region was read."""
    ls = loads(o)
    s = v[1] if isR(v) else v
    return ls[s][5] if s in ls else None


def positions(pos, want):
    if pos[:len(want)] != want or len(pos) != len(want):
        return f'the positional arguments are {", ".join(map(str, pos)) or "none"} instead of {", ".join(want)}'
    return None


def required(o, names):
    for e in o.ev:
        if e[0] == 'option' and e[1] in names and not e[3]:
            return f'the option {e[1]} is not required'
    return None


def boolean(ctx, unit, ai, o, pos, _):
    vals = enum(ctx, unit, 'kigumi::Boolean_operator')
    byval = {v: k for k, v in sorted(vals.items(), key=lambda x: len(x[0]))}
    b = positions(pos, ['first', 'second']) or required(o, ('first', 'second'))
    if b:
        return b
    done = []
    for e in o.ev:
        if e[0] != 'store':
            continue
        v = e[2]
        t = v[1] if isR(v) else v
        if not (isT(t) and t[1] == 'result'):
            return f'line {e[5]}: {show(v)[:100]} is written instead of a result'
        bt = t[3][1] if isR(t[3]) else t[3]
        if not (isT(bt) and bt[1] == 'builder'):
            return ''
        src = [origin(o, x) for x in bt[2:]]
        if src != [T('opt', 'first'), T('opt', 'second')]:
            return f'the operands are read from {[show(x) if x else x for x in src]}'
        file = e[3]
        if not (isT(file) and file[1] == 'opt'):
            return f'line {e[5]}: the result is written to {show(file)[:100]}'
        op = byval.get(t[2])
        if file[2] not in OPS or vals.get(OPS[file[2]]) != t[2]:
            return f'the option {file[2]} writes the result of {op}'
        done.append(file[2])
    for k in OPS:
        g = o.st.dom.get(T('given', k))
        if g == TRUE and done.count(k) != 1:
            return f'the option {k} is given, but its result is written {done.count(k)} times'
        if g != TRUE and k in done:
            return f'a result is written for {k}, which is not given'
        if not any(e[0] == 'option' and e[1] == k for e in o.ev):
            return f'there is no option {k}'
    return warned(ctx, unit, o)


def warned(ctx, unit, o):
    vals = enum(ctx, unit, 'kigumi::Warnings')
    text = ' '.join(str(e[2]) for e in o.ev if e[0] == 'out' and isLV(e[1]) and 'cerr' in str(e[1][1]))
    known = [(t, d) for t, d in o.st.dom.items() if isT(t) and t[1] == 'warnings']
    for n, words in (('FIRST_MESH_PARTIALLY_INTERSECTS_WITH_SECOND_MESH', 'the first mesh partially intersects with the second'),
                     ('SECOND_MESH_PARTIALLY_INTERSECTS_WITH_FIRST_MESH', 'the second mesh partially intersects with the first')):
        if n not in vals:
            continue
        may = {bool(x & vals[n]) for t, d in known for x in d} or {False, True}
        if (words in text) not in may or len(may) > 1:
            return f'the warning "{words} mesh" is {"printed" if words in text else "not printed"} although it does {"not " if words in text else ""}apply'
    return None


def convert(ctx, unit, ai, o, pos, _):
    b = positions(pos, ['in', 'out']) or required(o, ('in', 'out'))
    if b:
        return b
    st = [e for e in o.ev if e[0] == 'store']
    if len(st) != 1:
        return f'{len(st)} files are written'
    if origin(o, st[0][2]) != T('opt', 'in'):
        return f'{show(st[0][2])[:100]} is written'
    if st[0][3] != T('opt', 'out'):
        return f'the mesh is written to {show(st[0][3])[:100]}'
    return None


def category(n):
    def h(ai, fn, this, args, node):
        t = T('found', n, ai.norm(ai.rval(this)))
        c = ai.newcell(n, Ssym(t))
        return ('&', c, ())
    return h


def report(ctx, unit, ai, o, pos, cats):
    b = positions(pos, ['in']) or required(o, ('in',))
    if b:
        return b
    if len(cats) < 2:
        return ''
    outs = [e[2] for e in o.ev if e[0] == 'out' and isLV(e[1]) and 'cout' in str(e[1][1])]
    for n in cats:
        t = None
        for x in list(o.st.dom) + outs:
            for y in sub(x):
                if y[1] == 'found' and y[2] == n:
                    t = y
        if t is None:
            return f'{n} are not reported'
        dd = t[3][1] if isR(t[3]) else t[3]
        arg = dd[2] if isT(dd) and dd[1] == 'defects' else None
        src = arg[2] if isT(arg) and arg[1] == '.' and arg[3] == 'boundary_' else T('.', None, None)
        s = arg[1] if isR(arg) else arg
        if not (isT(s) and s[1] == '.' and s[3] == 'boundary_' and origin(o, s[2]) == T('opt', 'in')):
            return f'{n} of {show(arg)[:100] if arg is not None else "?"} are reported instead of those of the file'
        e = o.st.dom.get(T('==0', T('len', t)))
        shown = [i for i, x in enumerate(outs) if x == T('len', t)]
        if e == TRUE and not shown:
            continue
        if e == FALSE or e is None:
            if len(shown) != 1:
                return f'the number of {n} is printed {len(shown)} times'
            label = outs[shown[0] + 1] if shown[0] + 1 < len(outs) else ''
            if words(label) != words(n):
                return f'the number of {n} is labelled "{label}"'
    return None


def words(s):
    return ''.join(c for c in str(s).lower() if c.isalpha())


def sub(t):
    if isinstance(t, tuple):
        if isT(t):
            yield t
        for x in t:
            yield from sub(x)


# ---------------------------------------------------------------- main
def main(ctx, f):
    w = ctx.where(f, unit='main')
    rule = 'commands and exit status'
    names = {}
    for unit, cls in COMMANDS.items():
        for g in ctx.prog(unit).find(cls + '::name'):
            if g.get('body') is not None:
                ai = ctx.ai(unit)
                vs = {o.val for o in ai.explore(lambda: ai.call_fn(g, sym_this(ai, g), []))}
                if len(vs) == 1:
                    names[cls] = vs.pop()

    def name(ai, fn, this, args, node):
        r = ai.rval(this)
        if isR(r) and r[2] in names:
            return names[r[2]]
        return NotImplemented

    def runs(ai, fn, this, args, node):
        r = ai.rval(this)
        ai.st.ev.append(('run', r[2] if isR(r) else r, ai.norm(ai.rval(args[0])), line(node)))
        t = T('throws', 'command')
        ai.tdom.setdefault(t, frozenset(('no', 'std', 'other')))
        k = ai.force(t)
        if k != 'no':
            raise Throw(T('exc', 'std::runtime_error', '') if k == 'std' else T('exc', 'int', ''), line(node))
        return None
    ai, outs = explore_command(ctx, 'main', f, {'Command::name': name, 'Command::operator()': runs,
                                                 **{c + '::operator()': runs for c in COMMANDS.values()},
                                                 **{c + '::name': name for c in COMMANDS.values()}})
    bad = None
    ran = set()
    for o in outs:
        if o.kind == 'throw':
            bad = bad or f'an exception leaves main ({show(o.val)[:100]})'
            continue
        ctx.count('partitions')
        rs = [e for e in o.ev if e[0] == 'run']
        th = o.st.dom.get(T('throws', 'command'))
        okay = bool(rs) and th == frozenset(('no',))
        if not isinstance(o.val, int):
            return ctx.und(rule, w, f'exit status {show(o.val)[:100]}')
        if okay != (o.val == 0):
            bad = bad or (f'the exit status is {o.val} although ' + ('the command succeeded' if okay else 'the command failed' if rs else 'no command was run'))
        if len(rs) > 1:
            bad = bad or f'{len(rs)} commands are run'
        if rs:
            # the command that is run is the one that was named
            want = next((k for k, c in COMMANDS.items() if c == rs[0][1]), None)
            if want is None:
                return ctx.und(rule, w, f'runs {rs[0][1]}')
            eqs = {x for t, d in o.st.dom.items() if isT(t) and d == TRUE and t[1] in ('==', '==0') for x in strings(t)}
            if names.get(rs[0][1]) != want or want not in eqs:
                bad = bad or f'{rs[0][1]} is run if the command is {", ".join(sorted(map(str, eqs))) or "not compared"}'
            ran.add(want)
            a = rs[0][2]
            b = rest(o, a)
            if b == '':
                return ctx.und(rule, w, f'the arguments of the command are {show(a)[:200]}')
            bad = bad or b
    for k in COMMANDS:
        if k not in ran:
            bad = bad or f'the command {k} is never run'
    ctx.check(not bad, rule, w, bad or '')


def strings(t):
    xs = list(t[2:])
    out = []
    while xs:
        x = xs.pop()
        if isinstance(x, str):
            out.append(x)
        elif isT(x) and x[1] == 'str':
            out.append(x[2])
        elif isT(x) and x[1] == 'lin':
            xs += list(lin(x)[0])
    return out


def rest(o, a):
    """The arguments after the name of the command."""
    def plain(v):
        v = v[1] if isR(v) else v
        while isS(v) and len(v[1]) == 1 and v[1][0][0] == 's' and not v[2]:
            v = v[1][0][1]
        if isT(v) and v[1] == 'slice':
            return T('slice', plain(v[2]), *v[3:])
        return v
    a = plain(a)
    argc, argv = T('atom', 'argc'), T('atom', 'argv')
    if isT(a) and a[1] == 'range':
        if a[3] != add(argv, argc):
            return f'the arguments end at {show(a[3])[:60]}'
        if a[2] != add(argv, 2):
            return f'the arguments passed to the command begin at {show(a[2])[:60]}'
        return None
    if isT(a) and a[1] == 'slice' and isT(a[2]) and a[2][1] == 'range':
        if a[2][2] != add(argv, 1) or a[2][3] != add(argv, argc):
            return f'the arguments are {show(a[2])[:80]}'
        if a[3] != 1 or a[4] != T('len', a[2]):
            return f'the arguments passed to the command are {show(a)[:100]}'
        return None
    return ''


# ---------------------------------------------------------------- names of regions
def names(ctx, f):
    """:empty: and :full: mean the empty and the full region."""
    w = ctx.where(f)
    rule = 'names of regions'
    ai, outs, box = explore(ctx, f)
    p = ctx.prog()
    kinds = {}
    for t in p.types:
        if t.get('c') == 'enum' and base(t.get('base', '')) == 'kigumi::Region_kind':
            kinds = t['vals']
    bad = None
    seen = set()
    for o in outs:
        if o.kind != 'norm':
            continue
        for t, d in o.st.dom.items():
            if d != TRUE or not isT(t):
                continue
            for s in strings(t):
                if s in (':empty:', ':full:'):
                    want = kinds.get(s.strip(':').upper())
                    k = dict(o.target[3]).get('kind_') if isR(o.target) else None
                    seen.add(s)
                    if o.val is not True or k != want:
                        bad = f'{s} does not stand for the {s.strip(":")} region'
                    fc = dict(dict(o.target[3]).get('boundary_')[3]).get('faces_') if isR(o.target) and isR(dict(o.target[3]).get('boundary_')) else None
                    if fc is not None and fc != ('S', (), ()):
                        bad = f'{s} has faces'
    if seen != {':empty:', ':full:'} and not bad:
        bad = 'there is no name for the ' + ' and the '.join(sorted(x.strip(':') for x in {':empty:', ':full:'} - seen)) + ' region'
    ctx.check(not bad, rule, w, bad or '')


def kigumi_file(o):
    return any(isT(t) and t[1] == 'app' and '.kigumi' in t[2:] and d == TRUE for t, d in o.st.dom.items())


def out_names(ctx, f):
    w = ctx.where(f)
    ai, outs, box = explore(ctx, f, contract=write_contract, names=WRITERS)
    bad = None
    for o in outs:
        st = [e for e in o.ev if e[0] == 'store']
        if o.kind == 'norm' and not st and (o.val is True or o.val is False and not any(
                e[0] == 'store' and e[1].endswith('write_kigumi_region') == k for k in (kigumi_file(o),) for q in outs for e in q.ev)):
            bad = bad or f'nothing is written, and the result is {o.val}'
        if o.kind == 'norm' and len(st) == 1:
            kig = any(isT(t) and t[1] == 'app' and '.kigumi' in t[2:] and d == TRUE for t, d in o.st.dom.items())
            if kig != st[0][1].endswith('write_kigumi_region'):
                bad = f'{st[0][1]} is used for ' + ('.kigumi files' if kig else 'other files')
    ctx.check(not bad, 'names of files', w, bad or '')
