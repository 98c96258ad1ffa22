"""Polyhedral entailment over the facts of a state (convex-polyhedra domain).

Facts of the form a < b / a <= b / a = b between linear terms are turned into
integer inequalities in the order they were learned; a side is used only once
the inequalities so far show that it does not wrap.  `implied` decides
entailment with an exact phase-1 simplex on the negated goal.
"""
from fractions import Fraction
import terms as t
from terms import isc


def signed(k, w):
    return k - (1 << w) if k >> (w - 1) else k


class Lin:
    """integer expression  c + sum k*x"""
    __slots__ = ('c', 'k')

    def __init__(self, c=0, k=None):
        self.c, self.k = c, k or {}

    def __add__(self, o):
        k = dict(self.k)
        for x, v in o.k.items():
            k[x] = k.get(x, 0) + v
            if not k[x]:
                del k[x]
        return Lin(self.c + o.c, k)

    def scale(self, m):
        return Lin(self.c * m, {x: v * m for x, v in self.k.items()} if m else {})

    def __sub__(self, o):
        return self + o.scale(-1)


class Poly:
    def __init__(self, st):
        self.st = st
        self.cons = []      # Lin >= 0
        self.vars = set()
        self.done = set()

    def atom(self, x):
        if x not in self.vars:
            self.vars.add(x)
            lo, hi = self.st.urange(x)
            self.cons.append(Lin(-lo, {x: 1}))
            self.cons.append(Lin(hi, {x: -1}))
            self.defs(x)
        return Lin(0, {x: 1})

    def defs(self, x):
        if x.op == 'app' and x.a[0] in ('zx',):
            e = self.expr(x.a[1])
            if e is not None:
                d = Lin(0, {x: 1}) - e
                self.cons += [d, d.scale(-1)]
        elif x.op == 'app' and x.a[0] == 'sx':
            lo, hi = self.st.srange(x.a[1])
            if lo >= 0:
                e = self.expr(x.a[1])
                if e is not None:
                    d = Lin(0, {x: 1}) - e
                    self.cons += [d, d.scale(-1)]
        elif x.op == 'app' and x.a[0] == 'udiv' and isc(x.a[2]) and x.a[2].a:
            e = self.expr(x.a[1])
            if e is not None:
                q = x.a[2].a
                d = e - Lin(0, {x: q})
                self.cons += [d, Lin(q - 1, {}) - d]
        elif x.op == 'b':
            self.bitdefs(x)

    def bitdefs(self, x):
        # right shift of one term / zero extension of a narrower one
        bs = x.a
        nz = [(i, b) for i, b in enumerate(bs) if b]
        if not nz:
            return
        i0, b0 = nz[0]
        if i0 != 0 or len(b0) != 1:
            return
        y = next(iter(b0))
        if not y:
            return
        at, sh = t._byid[y >> 7], y & 127
        ab = t.bits(at)
        n = len(nz)
        if tuple(bs[:n]) == tuple(ab[sh:sh + n]) and all(not b for b in bs[n:]) and all(not b for b in ab[sh + n:]):
            e = self.expr(at)
            if e is not None:
                d = e - Lin(0, {x: 1 << sh})
                self.cons += [d, Lin((1 << sh) - 1, {}) - d]

    def expr(self, x, prove=True):
        """Lin equal to the unsigned value of x, or None if it might wrap"""
        if isc(x):
            return Lin(x.a)
        if x.op == 'p':
            return None
        if x.op != 'lin':
            return self.atom(x)
        e = Lin(signed(x.a[0], x.w))
        for y, k in x.a[1]:
            if y.op == 'p':
                return None
            e = e + self.atom(y).scale(signed(k, x.w))
        m = (1 << x.w) - 1
        if not prove or (self.implied(e) and self.implied(Lin(m) - e)):
            return e
        return self.atom_lin(x)

    def atom_lin(self, x):
        if x not in self.vars:
            self.vars.add(x)
            self.cons.append(Lin(0, {x: 1}))
            self.cons.append(Lin((1 << x.w) - 1, {x: -1}))
        return Lin(0, {x: 1})

    def sexpr(self, x):
        """signed value; None if not clear"""
        if isc(x):
            return Lin(t.sval(x))
        lo, hi = self.st.srange(x)
        if lo >= 0:
            return self.expr(x)
        if x.op == 'lin':
            e = Lin(signed(x.a[0], x.w))
            for y, k in x.a[1]:
                yl, yh = self.st.srange(y)
                if yl < 0 or y.op == 'p':
                    return None
                e = e + self.atom(y).scale(signed(k, x.w))
            h = 1 << (x.w - 1)
            if self.implied(e + Lin(h)) and self.implied(Lin(h - 1) - e):
                return e
        return None

    def learn(self):
        pend = [(a, v) for a, v in self.st.facts.items() if a.op in ('ult', 'slt', 'eq')]
        for _ in range(2):
            rest = []
            for a, v in pend:
                if a.op == 'eq':
                    if not v:
                        continue
                    x, y = self.expr(a.a[0]), self.expr(a.a[1])
                    if x is None or y is None:
                        continue
                    self.cons += [x - y, y - x]
                    # value of a linear term known: also the exact form
                    continue
                f = self.expr if a.op == 'ult' else self.sexpr
                x, y = f(a.a[0]), f(a.a[1])
                if x is None or y is None:
                    rest.append((a, v))
                    continue
                if v:
                    self.cons.append(y - x - Lin(1))
                else:
                    self.cons.append(x - y)
            pend = rest
            if not pend:
                break

    def implied(self, goal):
        """goal >= 0 follows"""
        if not goal.k:
            return goal.c >= 0
        # interval shortcut
        lo = goal.c
        for x, k in goal.k.items():
            l, h = (self.st.urange(x))
            lo += k * (l if k > 0 else h)
        if lo >= 0:
            return True
        neg = goal.scale(-1) - Lin(1)     # -goal-1 >= 0
        cons = [neg]
        rel = set(goal.k)
        left = list(self.cons)
        grew = True
        while grew:
            grew = False
            rest = []
            for q in left:
                if rel & set(q.k):
                    cons.append(q)
                    if set(q.k) - rel:
                        rel |= set(q.k)
                    grew = True
                else:
                    rest.append(q)
            left = rest
        return not feasible(cons)


def feasible(cons):
    """is { Lin >= 0 } non-empty over the rationals (all variables >= 0 by construction)"""
    seen, cs = set(), []
    for q in cons:
        key = (q.c, frozenset(q.k.items()))
        if key in seen:
            continue
        seen.add(key)
        if not q.k:
            if q.c < 0:
                return False
            continue
        cs.append(q)
    vs = []
    vi = {}
    for q in cs:
        for x in q.k:
            if x not in vi:
                vi[x] = len(vs)
                vs.append(x)
    n = len(vs)
    m = len(cs)
    # sum k x + c = s, s>=0  ->  -sum k x + s = c ; rows with c<0 get an artificial
    rows = []
    basis = []
    art = []
    total = n + m
    for i, q in enumerate(cs):
        row = {}
        for x, k in q.k.items():
            row[vi[x]] = Fraction(-k)
        row[n + i] = Fraction(1)
        b = Fraction(q.c)
        if b < 0:
            row = {j: -v for j, v in row.items()}
            b = -b
            row[total + len(art)] = Fraction(1)
            art.append(total + len(art))
            basis.append(art[-1])
        else:
            basis.append(n + i)
        rows.append([row, b])
    if not art:
        return True
    aset = set(art)
    # objective: minimise sum of artificials
    obj = {}
    ob = Fraction(0)
    for i, (row, b) in enumerate(rows):
        if basis[i] in aset:
            for j, v in row.items():
                if j not in aset:
                    obj[j] = obj.get(j, 0) + v
            ob += b
    for _ in range(5000):
        if ob == 0:
            return True
        ent = None
        for j in sorted(obj):
            if obj[j] > 0:
                ent = j
                break
        if ent is None:
            return ob == 0
        best = None
        for i, (row, b) in enumerate(rows):
            a = row.get(ent, 0)
            if a > 0:
                r = b / a
                if best is None or r < best[0] or (r == best[0] and basis[i] < basis[best[1]]):
                    best = (r, i)
        if best is None:
            return True
        pi = best[1]
        prow, pb = rows[pi]
        pv = prow[ent]
        prow = {j: v / pv for j, v in prow.items()}
        pb = pb / pv
        rows[pi] = [prow, pb]
        for i in range(len(rows)):
            if i == pi:
                continue
            row, b = rows[i]
            a = row.get(ent, 0)
            if a:
                for j, v in prow.items():
                    nv = row.get(j, 0) - a * v
                    if nv:
                        row[j] = nv
                    else:
                        row.pop(j, None)
                rows[i] = [row, b - a * pb]
        a = obj.get(ent, 0)
        for j, v in prow.items():
            if j in aset:
                continue
            nv = obj.get(j, 0) - a * v
            if nv:
                obj[j] = nv
            else:
                obj.pop(j, None)
        ob -= a * pb
        basis[pi] = ent
    return True


def inside(st, off, n, size):
    """0 <= off and off+n <= size, as integers"""
    p = Poly(st)
    p.learn()
    o = p.expr(off)
    k = p.expr(n)
    s = p.expr(size)
    if o is None or k is None or s is None:
        return False
    if n is not None and not isc(n) and st.urange(n)[1] == 0:
        return True
    return p.implied(o) and p.implied(s - o - k)


def implied_le(st, a, b):
    p = Poly(st)
    p.learn()
    x, y = p.expr(a), p.expr(b)
    return x is not None and y is not None and p.implied(y - x)
