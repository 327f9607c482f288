"""Affine equalities between counters (Karr's domain), with exact arithmetic."""
from fractions import Fraction as Q


def rref(rows, cols):
    """Rows are dicts variable -> coefficient, with the constant under 1; cols is the order of elimination."""
    rows = [dict(r) for r in rows]
    out = []
    for c in cols:
        i = next((i for i, r in enumerate(rows) if r.get(c, 0) != 0), None)
        if i is None:
            continue
        p = rows.pop(i)
        k = p[c]
        p = {v: Q(x) / k for v, x in p.items() if x}
        nr = []
        for group in (rows, out):
            for j, r in enumerate(group):
                f = r.get(c, 0)
                if f:
                    n = dict(r)
                    for v, x in p.items():
                        n[v] = n.get(v, 0) - f * x
                    group[j] = {v: x for v, x in n.items() if x}
        out.append(p)
    return out, [r for r in rows if any(r.values())]


class Affine:
    """A set of rows r with sum r[v] * v + r[1] == 0; None as rows is the empty set."""
    def __init__(self, vars_, rows=()):
        self.vars = list(vars_)
        self.rows, rest = rref(rows, self.vars)
        self.empty = any(r.get(1) for r in rest)

    def meet(self, row):
        if self.empty:
            return self
        return Affine(self.vars, self.rows + [row])

    def implies(self, row):
        if self.empty:
            return True
        _, rest = rref(self.rows + [row], self.vars)
        return not rest and len(rref(self.rows + [row], self.vars)[0]) == len(self.rows)

    def assign(self, up):
        """Simultaneous assignment: variable -> row (dict) or None for an unknown value."""
        if self.empty:
            return self
        new = {v: ('new', v) for v in up}
        rows = list(self.rows)
        extra = set()
        for v, e in up.items():
            if e is None:
                continue
            r = {k: Q(x) for k, x in e.items()}
            extra |= {k for k in r if k != 1 and k not in self.vars}
            r[new[v]] = Q(-1)
            rows.append(r)
        elim = list(up) + sorted(extra, key=repr)
        keep = [v for v in self.vars if v not in up] + list(new.values())
        red, rest = rref(rows, elim + keep)
        if any(r.get(1) for r in rest if set(r) <= {1}):
            a = Affine(self.vars)
            a.empty = True
            return a
        res = [r for r in red if not any(k in r for k in elim)]
        back = {n: v for v, n in new.items()}
        return Affine(self.vars, [{back.get(k, k): x for k, x in r.items()} for r in res])

    def join(self, o):
        if self.empty:
            return o
        if o.empty:
            return self
        (p, d), (q, e) = self.gen(), o.gen()
        dirs = d + e + [{v: q[v] - p[v] for v in self.vars}]
        # equations: all rows a with a . dir == 0 for all dirs
        dirs, _ = rref([{v: x for v, x in g.items() if x} for g in dirs], self.vars)
        piv = []
        for g in dirs:
            piv.append(next(v for v in self.vars if g.get(v)))
        free = [v for v in self.vars if v not in piv]
        rows = []
        for f in free:
            r = {f: Q(1)}
            for g, pv in zip(dirs, piv):
                if g.get(f):
                    r[pv] = -g[f]
            c = sum(x * p[v] for v, x in r.items())
            r[1] = -c
            rows.append(r)
        return Affine(self.vars, rows)

    def gen(self):
        piv = {}
        for r in self.rows:
            pv = next(v for v in self.vars if r.get(v))
            piv[pv] = r
        free = [v for v in self.vars if v not in piv]
        p = {v: Q(0) for v in self.vars}
        for v, r in piv.items():
            p[v] = -r.get(1, Q(0))
        dirs = []
        for f in free:
            d = {v: Q(0) for v in self.vars}
            d[f] = Q(1)
            for v, r in piv.items():
                d[v] = -r.get(f, Q(0))
            dirs.append(d)
        return p, dirs

    def same(self, o):
        if self.empty or o.empty:
            return self.empty == o.empty
        return len(self.rows) == len(o.rows) and all(self.implies(r) for r in o.rows)
