"""Program model: the JSON dump of tool/kast (resolved, instantiated syntax trees) of /repo."""
import json, re
from functools import lru_cache


def strip_targs(s):
    out, depth, i = [], 0, 0
    while i < len(s):
        c = s[i]
        if c == '<' and not s.startswith('operator<', max(0, i - 8)):
            depth += 1
        elif c == '>' and depth > 0 and s[i - 1] != '-':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return ''.join(out)


_base_cache = {}


def base(qn):
    """Qualified name without template arguments and inline-namespace noise."""
    r = _base_cache.get(qn)
    if r is None:
        s = qn
        # operators: split the operator spelling off first
        m = re.search(r'::operator(.*)$', s)
        tail = ''
        if m and '>' not in s[:0]:
            # only strip template arguments before the last '::operator'
            tail = s[m.start():]
            head = s[:m.start()]
            # an operator inside template arguments is not our concern
            if head.count('<') == head.count('>'):
                s = head
                t = tail[len('::operator'):]
                t = re.sub(r'<[^<>]*(<[^<>]*>)*[^<>]*>$', '', t) if not t.startswith(('<', '>', '(', '-')) else t
                tail = '::operator' + t
            else:
                tail = ''
        r = strip_targs(s) + tail
        for a in ('__cxx11::', '__1::', '_V2::', '__detail::'):
            r = r.replace(a, '')
        _base_cache[qn] = r
    return r


class Prog:
    def __init__(self, dumps):
        self.fns = {}
        self.by_base = {}
        self.records = {}
        self.rec_by_t = {}
        self.globals = []
        self.units = []
        # only one dump per Prog keeps ids unambiguous
        assert len(dumps) == 1
        d = dumps[0]
        self.types = d['types']
        self.files = d['files']
        for f in d['functions']:
            self.fns[f['id']] = f
            f['b'] = base(f['qn'])
            self.by_base.setdefault(f['b'], []).append(f)
        for r in d['records']:
            self.records[r['id']] = r
            r['b'] = base(r['qn'])
        self.globals = d['globals']
        self.global_by_id = {g['id']: g for g in self.globals}
        self._parents = None

    # --- types -------------------------------------------------------------
    def ty(self, i):
        return self.types[i] if i is not None and i >= 0 else {'c': 'other', 's': '?'}

    def deref(self, i):
        t = self.ty(i)
        while t.get('c') == 'ref':
            i = t['to']
            t = self.ty(i)
        return i, t

    def tbase(self, i):
        _, t = self.deref(i)
        return base(t.get('base', '')) if t.get('c') in ('rec', 'enum') else ''

    def tname(self, i):
        return self.ty(i).get('s', '?')

    # --- functions ---------------------------------------------------------
    def file_of(self, node):
        f = node.get('f')
        return self.files[f] if f is not None else None

    def find(self, pattern, pred=None):
        """Functions whose base-qualified name equals `pattern` (exactly)."""
        fs = self.by_base.get(pattern, [])
        return [f for f in fs if pred is None or pred(f)]

    def find_re(self, rx):
        r = re.compile(rx)
        return [f for b, fs in self.by_base.items() if r.search(b) for f in fs]

    def record_of(self, base_name, pred=None):
        return [r for r in self.records.values() if r['b'] == base_name and (pred is None or pred(r))]

    def where(self, f, node=None):
        """file:line of a node in function f."""
        fl = self.files[f['f']] if f.get('f') is not None else '?'
        ln = (node or f).get('l', f.get('l', 0))
        return f"{fl}:{ln}"


def walk(x, fn=None):
    """Yields every dict node with a kind below x (pre-order)."""
    stack = [x]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            if 'k' in n:
                yield n
            for key in reversed(list(n.keys())):
                if key != 'fn' and key != 'pt':
                    v = n[key]
                    if isinstance(v, (dict, list)):
                        stack.append(v)
        elif isinstance(n, list):
            stack.extend(reversed(n))
