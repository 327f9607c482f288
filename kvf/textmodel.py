"""What a text reader appends to the mesh it builds, on which partitions, and what is known there."""
from loaders import *


class Step:
    """One iteration partition (or the top level of a completed partition of the function)."""
    def __init__(self, ev, dom, st, loop=None, q=None, parent=None, pos=None):
        self.ev, self.dom, self.st, self.loop, self.q, self.parent, self.pos = ev, dom, st, loop, q, parent, pos

    def chain(self):
        s = self
        while s is not None:
            yield s
            s = s.parent

    def facts(self):
        d = {}
        for s in list(self.chain())[::-1]:
            for k, v in s.dom.items():
                d[k] = (d.get(k, v) & v) or v    # the last iteration before a break is not this one
        return d

    def line(self):
        """The outermost iteration."""
        c = list(self.chain())
        return c[-2] if len(c) > 1 else c[-1]


def steps(o, norm_only=True):
    """All steps below a completed partition."""
    top = Step(o.ev, o.st.dom, o.st)
    yield top
    yield from below(top, norm_only)


def below(s, norm_only=True):
    for i, e in enumerate(s.ev):
        if e[0] != 'loop':
            continue
        for q in e[4]:
            if norm_only and q['kind'] not in ('norm', 'break'):
                continue
            t = Step(list(q['cev']) + list(q['ev']), q['st'].dom, q['st'], e, q, s, i)
            yield t
            yield from below(t, norm_only)


def appended(v):
    """What is appended to a sequence by a write of v."""
    if isinstance(v, tuple) and v and v[0] == 'S' and len(v[1]) >= 1 and not v[2] and v[1][-1][0] == '1':
        if len(v[1]) == 1 or v[1][-2][0] != '1' or True:
            return v[1][-1][1]
    return None


def is_point(x):
    return isT(x) and x[1] == 'ctor' and str(x[2]).endswith('Point_3')


def is_index(x):
    return isR(x) and base(str(x[2])).endswith('Index') or isT(x) and x[1] in ('at', 'sel', 'alt')


def points(s):
    for i, e in enumerate(s.ev):
        if e[0] == 'w':
            x = appended(e[3])
            if is_point(x):
                yield i, e, x


def ok_after(s, cell, state):
    """Is it known that no extraction from the stream had failed up to this state when the outermost iteration was completed?"""
    facts = s.facts()
    first = True
    while s is not None:
        i = None
        for k, e in enumerate(s.ev):
            if first and e[0] == 'w' and e[1] == cell and e[3] == state:
                i = k
            if not first and k == start:
                i = k
        if i is None:
            return False
        for e in s.ev[i:] if first else s.ev[i + 1:]:
            if e[0] == 'clear' and e[1][1] == cell:
                return False
            if e[0] == 'w' and e[1] == cell and facts.get(T('ok', e[3])) == frozenset((True,)):
                return True
            if e[0] == 'loop' and any(c == cell for c, pa in e[5]):
                if cleared(e, cell):
                    return False
                if post_ok(facts, cell, e[1]):
                    return True
        if s.loop is None:
            return False
        if cleared(s.loop, cell):
            return False
        if post_ok(facts, cell, s.loop[1]):
            return True
        start, s, first = s.pos, s.parent, False
    return False


def post_ok(facts, cell, line):
    for k, v in facts.items():
        if isT(k) and k[1] == 'ok' and isT(k[2]) and k[2][1] == 'post' and k[2][3] == cell and k[2][4] == line and v == frozenset((True,)):
            return True
    return False


def cleared(loop, cell):
    for q in loop[4]:
        for e in list(q['cev']) + list(q['ev']):
            if e[0] == 'clear' and e[1][1] == cell:
                return True
            if e[0] == 'loop' and cleared(e, cell):
                return True
    return False


def subterms(v):
    st = [v]
    while st:
        x = st.pop()
        if isT(x):
            yield x
        if isinstance(x, (tuple, frozenset)):
            st.extend(x)


def ins(v):
    """The input terms in a value."""
    return [t for t in subterms(v) if t[1] == 'in']


def substitute_k(a, b, c):
    """Anti-unification: the list of (x, y, z) at which three values differ."""
    if a == b == c:
        return []
    if all(isinstance(x, tuple) for x in (a, b, c)) and len(a) == len(b) == len(c) and not any(isT(x) and x[1] == 'lin' or isT(x) and x[1] == 'kap' for x in (a, b, c)):
        r = []
        for x, y, z in zip(a, b, c):
            d = substitute_k(x, y, z)
            r += d
        return r
    return [(a, b, c)]
