"""Obligations, evidence, known findings and the command line of the checks."""
import importlib, json, os, sys, time, traceback
sys.setrecursionlimit(30000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import frontend
from frontend import ROOT, REPO
from prog import Prog, walk, base
from absint import *
from evalx import AI, default_intercepts


class Broken(Exception):
    """The analysis cannot be carried out at all (error exit)."""


_progs = {}


def program(unit='lib'):
    if unit not in _progs:
        _progs[unit] = Prog([frontend.load([unit])[unit]])
    return _progs[unit]


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obs = []
        self.analysed = set()
        self.rules = []
        self.counts = {}
        self.notes = []

    # -- recording
    def ob(self, status, rule, where, detail='', key=None):
        self.obs.append({'status': status, 'rule': rule, 'where': where, 'detail': detail, 'key': key or f'{rule}@{where}'})

    def ok(self, rule, where, detail=''):
        self.ob('discharged', rule, where, detail)

    def viol(self, rule, where, detail='', key=None):
        self.ob('violated', rule, where, detail, key)

    def und(self, rule, where, detail=''):
        self.ob('undecided', rule, where, detail)

    def check(self, cond, rule, where, detail='', key=None):
        if cond:
            self.ok(rule, where)
        else:
            self.viol(rule, where, detail, key)
        return cond

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    # -- program access
    def prog(self, unit='lib'):
        return program(unit)

    def fn(self, name, unit='lib', pred=None, idx=0):
        fs = [f for f in self.prog(unit).find(name, pred) if f.get('body') is not None or f.get('inits')]
        return fs[idx] if len(fs) > idx else None

    def where(self, f, node=None, unit='lib'):
        if f is None:
            return '?'
        w = self.prog(unit).where(f, node)
        return w.replace(REPO.rstrip('/') + '/', '') + ' (' + f['b'].replace('kigumi::', '') + ')'

    def ai(self, unit='lib', steps=3000000, **ic):
        ics = default_intercepts()
        ics.update(ic.pop('intercepts', {}))
        a = AI(self.prog(unit), ics, steps=steps)
        return a

    def guarded(self, rule, f, thunk, unit='lib'):
        """Runs an analysis; constructs outside of the analyser's reach leave the obligation undecided."""
        w = self.where(f, unit=unit) if not isinstance(f, str) else f
        if f is None:
            self.und(rule, rule, 'anchor not found')
            return None
        try:
            r = thunk()
            return r
        except Unsupported as e:
            nd = e.node if isinstance(getattr(e, 'node', None), dict) else {}
            self.und(rule, w, f"{e} (line {nd.get('l', '?')})")
        except (RecursionError, KeyError, TypeError, AttributeError, ValueError, IndexError, AssertionError) as e:
            tb = traceback.format_exc().strip().split('\n')
            self.und(rule, w, f'analyser: {type(e).__name__} {e} {tb[-3].strip() if len(tb) > 2 else ""}')
            if os.environ.get('KVF_DEBUG'):
                traceback.print_exc()
        except Exception as e:
            if type(e).__name__ == 'NeverEnds':
                self.viol(rule, w, f'a loop at line {e.args[0]} never ends: the same state is reached again', key='never ends')
            elif type(e).__name__ in ('Throw', 'Ret', 'Brk', 'Cont', 'Infeasible', 'NeedChoice', 'Restart'):
                self.und(rule, w, f'analyser: {type(e).__name__}')
            else:
                raise
        return None


def sym_args(ai, f, **given):
    out = []
    for p in f['params']:
        n = p['n']
        if n in given:
            out.append(given[n])
            continue
        pt = ai.p.ty(p['t'])
        v = ai.symval(p['t'], n or 'arg')
        _, dt = ai.p.deref(p['t'])
        if dt.get('repo') and dt.get('c') == 'rec':
            v = ('R', v, base(dt['base']), ())
        if pt.get('c') == 'ref':
            v = ('&', ai.newcell(n or 'arg', v), ())
        out.append(v)
    return out


def sym_this(ai, f, name='this'):
    cls = base(f.get('cls') or '?')
    return ('&', ai.newcell(name, ('R', T('atom', name), cls, ())), ())


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


def main(argv):
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(argv) > 2:
        tier = argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    evd = os.path.join(ROOT, 'evidence')
    os.makedirs(evd, exist_ok=True)
    mod = importlib.import_module('checks.' + pid.lower())
    ctx = Ctx(pid, tier)
    try:
        mod.run(ctx)
    except frontend.FrontendError as e:
        print(f'{pid}: analysis impossible: {e}', file=sys.stderr)
        return 2
    viol = [o for o in ctx.obs if o['status'] == 'violated']
    und = [o for o in ctx.obs if o['status'] == 'undecided']
    dis = [o for o in ctx.obs if o['status'] == 'discharged']
    known = [k for k in load_known() if k.get('property') == pid and k.get('status') == 'known']
    fresh = []
    for o in viol:
        k = next((k for k in known if k['key'] in o['key']), None)
        if k is not None:
            o['known'] = k['what']
        else:
            fresh.append(o)
    for what in sorted({o['known'] for o in viol if 'known' in o}):
        print(f'KNOWN-FINDING: property={pid} {what}')
    print(f'{pid} [{tier}]: {len(ctx.obs)} obligations: {len(dis)} discharged, {len(viol)} violated '
          f'({len(viol) - len(fresh)} known), {len(und)} undecided; {time.time() - t0:.1f} s')
    for k, v in sorted(ctx.counts.items()):
        print(f'  {k}: {v}')
    for o in und:
        print(f"  undecided: {o['rule']} at {o['where']}: {o['detail'][:300]}")
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': getattr(mod, 'EXPLANATION', ''),
            'obligations': len(ctx.obs), 'discharged': len(dis), 'undecided': len(und),
            'rules': sorted({o['rule'] for o in ctx.obs}),
            'analysed': ctx.counts,
            'functions_analysed': sorted(ctx.analysed)[:400],
            'samples': [{k: o[k] for k in ('rule', 'where', 'status', 'detail')} for o in (fresh + und + dis)[:40]],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh),
    }
    with open(os.path.join(evd, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if fresh:
        rp = os.path.join(evd, pid + '.violation.txt')
        with open(rp, 'w') as f:
            for o in fresh:
                f.write(f"{o['where']}: rule {o['rule']}\n    {o['detail']}\n")
        for o in fresh[:12]:
            print(f"  violated: {o['rule']} at {o['where']}: {o['detail'][:600]}")
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    if not dis and not viol:
        print(f'{pid}: nothing could be decided', file=sys.stderr)
        return 2
    return 0
