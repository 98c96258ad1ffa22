"""Abstract interpreter over the Python IR.

Path-sensitive data-flow analysis: abstract states are propagated through the
control-flow graph in reverse post-order, split at conditions the state does
not decide, and merged again whenever two states agree on every live value and
on memory/typestate (ESP-style property simulation).  Loops whose trip count
the state decides are unrolled by trace partitioning; all others are widened
(changed values become fresh unknowns, constant-sum relations are kept).
Calls to defined functions are analysed in context, library calls through the
effect table in models.py.
"""
import heapq, os, sys
import terms as t
from terms import T, c, sym, app, ptr, isc, NULL

import time
sys.setrecursionlimit(20000)


class Budget(Exception):
    pass


DEADLINE = [None]


class Region:
    __slots__ = ('rid', 'kind', 'typ', 'size', 'cells', 'default', 'attrs', 'status', 'owned', 'site', 'ver', 'tok', '_key', '_refs',
                 'ro', 'frees', 'freesite')

    def __init__(self, rid, kind, size=None, default='undef', typ=None, owned=False, site=None):
        self.rid, self.kind, self.size, self.default, self.typ = rid, kind, size, default, typ
        self.cells = {}
        self.attrs = {}
        self.status = 'alive'
        self.owned = owned
        self.site = site
        self.ver = 0
        self.tok = None
        self._key = None
        self._refs = None
        self.ro = False
        self.freesite = None

    def clone(self, tok):
        r = Region.__new__(Region)
        r.rid, r.kind, r.typ, r.size, r.default = self.rid, self.kind, self.typ, self.size, self.default
        r.cells = dict(self.cells)
        r.attrs = dict(self.attrs)
        r.status, r.owned, r.site, r.ver = self.status, self.owned, self.site, self.ver
        r.tok = tok
        r._key = None
        r._refs = None
        r.ro = self.ro
        r.freesite = self.freesite
        return r

    def refs(self):
        """rids this region points to"""
        if self._refs is None:
            out = set()
            for v, i in self.cells.values():
                if v.op == 'p':
                    out.add(v.a[0])
                elif v.op == 'ite' or v.op == 'app' and v.w in (8, 64):
                    out |= ptrs_in(v)
            for v in self.attrs.values():
                if isinstance(v, T):
                    out |= ptrs_in(v)
                elif isinstance(v, (tuple, frozenset)):
                    for x in v:
                        if isinstance(x, T):
                            out |= ptrs_in(x)
            self._refs = frozenset(out)
        return self._refs

    def key(self):
        if self._key is None:
            self._key = (self.rid, self.status, self.owned, self.default, hash(frozenset(self.cells.items())),
                         tuple(sorted((k, v) for k, v in self.attrs.items() if not isinstance(v, T))) if False else
                         hash(frozenset((k, v) for k, v in self.attrs.items())))
        return self._key


_pin = {}


def ptrs_in(v):
    if v.op == 'p':
        return frozenset((v.a[0],))
    if v.op in ('c', 's', 'fn'):
        return frozenset()
    r = _pin.get(v)
    if r is None:
        r = frozenset(x.a[0] for x in t.atoms(v) if x.op == 'p')
        _pin[v] = r
    return r


_sl = {}


def slice_of(x):
    """(atom, low bit, number of bits) when a bit vector is a contiguous slice of one value"""
    r = _sl.get(x, 0)
    if r != 0:
        return r
    r = None
    b = x.a
    if len(b[0]) == 1 and 0 not in b[0]:
        (z,) = b[0]
        k = z & 127
        n = 0
        while n < len(b) and b[n] == frozenset((z + n,)):
            n += 1
        if all(not y for y in b[n:]):
            r = (t._byid[z >> 7], k, n)
    _sl[x] = r
    return r


_tok = [0]


def newtok():
    _tok[0] += 1
    return _tok[0]


class State:
    __slots__ = ('mem', 'facts', 'urng', 'srng', 'events', 'counts', 'tok', 'nfork', 'notes', 'ghost', 'trace')

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.urng = {}
        self.srng = {}
        self.events = frozenset()
        self.counts = {}
        self.tok = newtok()
        self.nfork = 0
        self.notes = frozenset()
        self.ghost = {}
        self.trace = ()

    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.urng = dict(self.urng)
        s.srng = dict(self.srng)
        s.events = self.events
        s.counts = dict(self.counts)
        s.nfork = self.nfork
        s.notes = self.notes
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        s.tok = newtok()
        self.tok = newtok()
        return s

    def w(self, rid):
        r = self.mem[rid]
        if r.tok != self.tok:
            r = r.clone(self.tok)
            self.mem[rid] = r
        r._key = None
        r._refs = None
        r.ver += 1
        return r

    def event(self, *e):
        self.events = self.events | {e}

    def has(self, kind):
        return [e for e in self.events if e[0] == kind]

    def fresh(self, base):
        n = self.counts.get(base, 0)
        self.counts[base] = n + 1
        return '%s#%d' % (base, n) if n else base

    def new(self, base, kind, **kw):
        rid = self.fresh(base)
        r = Region(rid, kind, **kw)
        r.tok = self.tok
        self.mem[rid] = r
        return r

    # ---------------------------------------------------------- facts
    def urange(self, x, d=0):
        if isc(x):
            return x.a, x.a
        r = self.urng.get(x)
        lo, hi = r if r else (0, t.ub(x))
        if hi > t.ub(x):
            hi = t.ub(x)
        if x.op == 'lin' and d < 4:
            m = (1 << x.w) - 1
            h = 1 << (x.w - 1)
            l2 = u2 = x.a[0] if x.a[0] < h else x.a[0] - (1 << x.w)
            for y, k in x.a[1]:
                yl, yh = self.urange(y, d + 1)
                ks = k if k < h else k - (1 << x.w)
                if ks >= 0:
                    l2 += ks * yl
                    u2 += ks * yh
                else:
                    l2 += ks * yh
                    u2 += ks * yl
            if l2 >= 0 and u2 <= m:
                lo, hi = max(lo, l2), min(hi, u2)
        elif x.op == 'app' and x.a[0] == 'zx':
            l2, h2 = self.urange(x.a[1], d + 1)
            lo, hi = max(lo, l2), min(hi, h2)
        elif x.op == 'app' and x.a[0] == 'sx':
            l2, h2 = self.srange(x.a[1], d + 1)
            if l2 >= 0:
                lo, hi = max(lo, l2), min(hi, h2)
        elif x.op == 'b' and d < 5:
            sl = slice_of(x)
            if sl:
                at, k, n = sl
                l2, h2 = self.urange(at, d + 1)
                if h2 < 1 << (k + n):
                    lo, hi = max(lo, l2 >> k), min(hi, h2 >> k)
        elif x.op == 'ite' and d < 4:
            a, b = self.urange(x.a[1], d + 1), self.urange(x.a[2], d + 1)
            lo, hi = max(lo, min(a[0], b[0])), min(hi, max(a[1], b[1]))
        if x in self.srng:
            sl, sh = self.srng[x]
            if sl >= 0:
                lo, hi = max(lo, sl), min(hi, sh)
        return lo, hi

    def srange(self, x, d=0):
        if isc(x):
            v = t.sval(x)
            return v, v
        h = 1 << (x.w - 1)
        lo, hi = self.srng.get(x, (-h, h - 1))
        if x.op == 'lin' and d < 4:
            l2 = u2 = x.a[0] if x.a[0] < h else x.a[0] - (1 << x.w)
            for y, k in x.a[1]:
                yl, yh = self.srange(y, d + 1)
                ks = k if k < h else k - (1 << x.w)
                if ks >= 0:
                    l2 += ks * yl
                    u2 += ks * yh
                else:
                    l2 += ks * yh
                    u2 += ks * yl
            if l2 >= -h and u2 < h:
                lo, hi = max(lo, l2), min(hi, u2)
        elif x.op == 'app' and x.a[0] == 'sx':
            l2, h2 = self.srange(x.a[1], d + 1)
            lo, hi = max(lo, l2), min(hi, h2)
        u = t.ub(x)
        if u < h:
            lo, hi = max(lo, 0), min(hi, u)
        r = self.urng.get(x)
        if r and r[1] < h:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        return lo, hi

    def decide(self, cnd):
        if isc(cnd):
            return bool(cnd.a)
        a, pol = t.boolatom(cnd)
        if a is None:
            return pol
        v = self._decide_atom(a)
        if v is None:
            return None
        return v == pol

    def _decide_atom(self, a):
        v = self.facts.get(a)
        if v is not None:
            return v
        if a.op == 'eq':
            x, y = a.a
            l1, h1 = self.urange(x)
            l2, h2 = self.urange(y)
            if h1 < l2 or h2 < l1:
                return False
            if l1 == h1 == l2 == h2:
                return True
            l1, h1 = self.srange(x)
            l2, h2 = self.srange(y)
            if h1 < l2 or h2 < l1:
                return False
            if l1 == h1 == l2 == h2:
                return True
            if isc(y) and y.a == 0 and x.op == 'lin':
                l1, h1 = self.linrange(x)
                if l1 is not None and (l1 > 0 or h1 < 0):
                    return False
        elif a.op == 'ult':
            x, y = a.a
            l1, h1 = self.urange(x)
            l2, h2 = self.urange(y)
            if h1 < l2:
                return True
            if l1 >= h2:
                return False
        elif a.op == 'slt':
            x, y = a.a
            l1, h1 = self.srange(x)
            l2, h2 = self.srange(y)
            if h1 < l2:
                return True
            if l1 >= h2:
                return False
        elif a.op == 'beq':
            x, y = a.a
            if self.facts.get(t.blt(x, y)) or self.facts.get(t.blt(y, x)):
                return False
            for u, v in ((x, y), (y, x)):
                if u is t.ZERO_BN:
                    nl, nh = self.urange(app('nbits', v, w=32))
                    if nl > 0:
                        return False
                    if nh == 0:
                        return True
        elif a.op == 'blt':
            if self.facts.get(t.beq(*a.a)):
                return False
            if self.facts.get(t.blt(a.a[1], a.a[0])):
                return False
        elif a.op == 'band':
            vs = [self.decide(t.mkb([t.unform(b)])) for b in a.a]
            if any(v is False for v in vs):
                return False
            if all(v is True for v in vs):
                return True
        elif a.op == 'b' and a.w == 1:
            # xor of literals
            acc = 0
            for x in a.a[0]:
                if x == 0:
                    acc ^= 1
                    continue
                at = t._byid[x >> 7]
                if at.w != 1:
                    return None
                v = self.decide(at)
                if v is None:
                    return None
                acc ^= int(v)
            return bool(acc)
        return None

    def linrange(self, x):
        h = 1 << (x.w - 1)
        lo = hi = x.a[0] if x.a[0] < h else x.a[0] - (1 << x.w)
        for y, k in x.a[1]:
            yl, yh = self.urange(y)
            ks = k if k < h else k - (1 << x.w)
            lo += ks * (yl if ks >= 0 else yh)
            hi += ks * (yh if ks >= 0 else yl)
        if lo <= -h or hi >= h:
            return None, None
        return lo, hi

    def assume(self, cnd, val=True):
        """-> False when contradictory"""
        d = self.decide(cnd)
        if d is not None:
            if d != val:
                return False
        if isc(cnd):
            return bool(cnd.a) == val
        a, pol = t.boolatom(cnd)
        if a is None:
            return pol == val
        v = (val == pol)
        self.facts[a] = v
        if a.op == 'band' and v:
            for b in a.a:
                if not self.assume(t.mkb([t.unform(b)]), True):
                    return False
        elif a.op == 'band':
            vs = [t.mkb([t.unform(b)]) for b in a.a]
            ds = [self.decide(x) for x in vs]
            if ds[0] is True and ds[1] is None:
                return self.assume(vs[1], False)
            if ds[1] is True and ds[0] is None:
                return self.assume(vs[0], False)
        elif a.op == 'b' and a.w == 1 and len(a.a[0]) < 6:
            und, acc = [], int(v)
            for x in a.a[0]:
                if x == 0:
                    acc ^= 1
                    continue
                at = t._byid[x >> 7]
                dd = self.decide(at) if at.w == 1 else None
                if dd is None:
                    und.append(at)
                else:
                    acc ^= int(dd)
            if len(und) == 1 and und[0].w == 1 and und[0] is not a:
                return self.assume(und[0], bool(acc))
        elif a.op == 'eq':
            x, y = a.a
            if v:
                l1, h1 = self.urange(x)
                l2, h2 = self.urange(y)
                lo, hi = max(l1, l2), min(h1, h2)
                if lo > hi:
                    return False
                self._setu(x, lo, hi)
                self._setu(y, lo, hi)
            elif isc(y):
                lo, hi = self.urange(x)
                if y.a == lo:
                    lo += 1
                if y.a == hi:
                    hi -= 1
                if lo > hi:
                    return False
                self._setu(x, lo, hi)
                lo, hi = self.srange(x)
                if t.sval(y) == lo:
                    lo += 1
                if t.sval(y) == hi:
                    hi -= 1
                if lo > hi:
                    return False
                self._sets(x, lo, hi)
        elif a.op == 'ult':
            x, y = a.a if v else (a.a[1], a.a[0])
            l1, h1 = self.urange(x)
            l2, h2 = self.urange(y)
            if v:
                h1 = min(h1, h2 - 1)
                l2 = max(l2, l1 + 1)
            else:  # y <= x  i.e. x(=a1) <= y... here x=a1,y=a0 : a1 <= a0
                h1 = min(h1, h2)
                l2 = max(l2, l1)
            if l1 > h1 or l2 > h2:
                return False
            self._setu(x, l1, h1)
            self._setu(y, l2, h2)
        elif a.op == 'slt':
            x, y = a.a if v else (a.a[1], a.a[0])
            l1, h1 = self.srange(x)
            l2, h2 = self.srange(y)
            if v:
                h1 = min(h1, h2 - 1)
                l2 = max(l2, l1 + 1)
            else:
                h1 = min(h1, h2)
                l2 = max(l2, l1)
            if l1 > h1 or l2 > h2:
                return False
            self._sets(x, l1, h1)
            self._sets(y, l2, h2)
        return True

    def _setu(self, x, lo, hi, d=0):
        if not isc(x):
            self.urng[x] = (lo, hi)
            if d > 3:
                return
            if x.op == 'b':
                sl = slice_of(x)
                if sl:
                    at, k, n = sl
                    l2, h2 = self.urange(at)
                    if h2 < 1 << (k + n):
                        self._setu(at, max(l2, lo << k), min(h2, ((hi + 1) << k) - 1), d + 1)
            elif x.op == 'lin' and len(x.a[1]) == 1 and x.a[1][0][1] == 1:
                y = x.a[1][0][0]
                k = x.a[0] if x.a[0] < 1 << (x.w - 1) else x.a[0] - (1 << x.w)
                l2, h2 = self.urange(y)
                if h2 + k < 1 << x.w and l2 + k >= 0:
                    self._setu(y, max(l2, lo - k), min(h2, hi - k), d + 1)

    def _sets(self, x, lo, hi, d=0):
        if not isc(x):
            self.srng[x] = (lo, hi)
            if d < 3 and x.op == 'lin' and len(x.a[1]) == 1 and x.a[1][0][1] == 1:
                y = x.a[1][0][0]
                h = 1 << (x.w - 1)
                k = x.a[0] if x.a[0] < h else x.a[0] - (1 << x.w)
                l2, h2 = self.srange(y)
                if y.w == x.w and h2 + k < h and l2 + k >= -h and (lo - k > l2 or hi - k < h2):
                    self._sets(y, max(l2, lo - k), min(h2, hi - k), d + 1)

    def memkey(self):
        return frozenset(r.key() for r in self.mem.values() if r.kind != 'const')


class Frame:
    __slots__ = ()


class Machine:
    """cfg keys: faults (bool|set) alloc_fail max_states widen_after"""

    def __init__(self, mod, models, **cfg):
        self.mod = mod
        self.models = models
        self.ext = None
        self.cfg = dict(faults=False, alloc_fail=False, widen_after=2, max_iter=40000, unroll_mixed=80, max_steps=3000000, maxdepth=60,
                        max_paths=20000)
        self.cfg.update(cfg)
        self.steps = 0
        self._tabs = {}
        self.visited = set()       # functions analysed
        self.callsites = set()
        self.unmodelled = set()
        self.problems = []         # (kind, site, detail, state)
        self.cur = None
        self.stack = []
        self.hooks = {}
        self.ndead = 0
        self.merges = 0
        self.widenings = 0
        self.mem_obl = 0
        self.track = set()         # regions whose symbolic accesses must be proved
        self.override = {}
        self.freedinfo = {}

    # --------------------------------------------------------------- init
    def initial(self):
        st = State()
        for g in self.mod.globs.values():
            r = Region('g:' + g.name, 'const' if g.const else 'global', size=c(g.size, 64), default='zero' if g.init is not None else 'input', typ=None)
            r.tok = st.tok
            r.ro = g.const
            if g.init is not None:
                self.put_const(r, 0, g.init, g.ty)
            st.mem[r.rid] = r
        return st

    def put_const(self, r, off, k, ty):
        if k[0] == 'agg':
            t2 = k[2]
            for i, e in enumerate(k[1]):
                o = t2.offs[i] if t2.kind == 'struct' else i * t2.elem.size
                self.put_const(r, off + o, e, t2.elems[i] if t2.kind == 'struct' else t2.elem)
        elif k[0] == 'zero' or k[0] == 'undef':
            pass
        else:
            v = self.constval(k)
            n = max(1, v.w // 8)
            for i in range(n):
                r.cells[off + i] = (v, i) if n > 1 else (v, 0)

    def constval(self, k):
        if k[0] == 'c':
            return c(k[1], k[2])
        if k[0] == 'g':
            return ptr('g:' + k[1], k[2])
        if k[0] == 'f':
            return t.fn(k[1])
        if k[0] == 'undef':
            return sym('undef', k[1])
        if k[0] == 'zero':
            return c(0, k[1] * 8)
        return sym('constexpr', k[-1] if isinstance(k[-1], int) and k[-1] else 64)

    # ------------------------------------------------------------ problems
    def site(self):
        I = self.cur
        if I is None:
            return '?'
        f = I.file
        for p in ('/repo/',):
            if f.startswith(p):
                f = f[len(p):]
        return '%s:%d(%s)' % (f, I.line, I.fn)

    def ctx(self):
        return '/'.join(self.stack[-6:])

    def problem(self, kind, st, detail=''):
        self.problems.append((kind, self.site(), detail, tuple(self.stack), st))
        st.event('problem', kind, self.site(), detail)

    # -------------------------------------------------------------- memory
    def region(self, st, p, why='access'):
        """pointer term -> (rid, off) or None (after recording the problem)"""
        if p.op == 'p':
            return p.a
        if isc(p):
            if p.a < 65536:
                self.problem('null-deref', st, why)
            else:
                self.problem('wild-deref', st, why)
            return None
        base, off = p, c(0, 64)
        if p.op == 'lin':
            cands = [x for x, k in p.a[1] if k == 1 and x.w == 64 and x.op in ('s', 'app')]
            if cands:
                base = cands[0]
                off = t.sub(p, base)
        if p.op == 'ite':
            return None
        rid = 'ext:%s#%d' % (t.show(base, 2), base.id)
        if rid not in st.mem:
            r = Region(rid, 'ext', default='input')
            r.tok = st.tok
            st.mem[rid] = r
        return rid, off

    def check_alive(self, st, rid, why):
        r = st.mem.get(rid)
        if r is None:
            if rid in self.freedinfo:
                self.problem('use-after-free', st, '%s of object allocated at %s, freed at %s' % ((why,) + self.freedinfo[rid]))
            else:
                self.problem('dangling-stack', st, '%s of %s' % (why, rid))
            return False
        if r.status == 'freed':
            self.problem('use-after-free', st, '%s of object allocated at %s, freed at %s' % (why, r.site, r.freesite))
            return False
        h = self.hooks.get('access')
        if h:
            h(self, st, r, why)
        return True

    def bounds(self, st, rid, off, n, why):
        """obligation off+n <= size.  Definite violations are always problems;
        unproved ones only for tracked regions."""
        r = st.mem[rid]
        if r.size is None:
            return
        self.mem_obl += 1
        nt = c(n, 64) if isinstance(n, int) else n
        if isc(off) and isc(nt) and isc(r.size):
            o = t.sval(off)
            if nt.a and (o < 0 or o + nt.a > r.size.a):
                self.problem('out-of-bounds', st, '%s of %d byte(s) at offset %d of %d-byte object %s' % (why, nt.a, o, r.size.a, r.site or rid))
            return
        if rid in self.track or r.attrs.get('track'):
            if not self.prove_inside(st, off, nt, r.size):
                self.problem('unproved-bounds', st, '%s of [%s, +%s) inside %s (size %s) is not established' % (why, t.show(off), t.show(nt), rid, t.show(r.size)))

    def prove_inside(self, st, off, n, size):
        import linear
        return linear.inside(st, off, n, size)

    def load(self, st, p, w, why='read'):
        """w in bits"""
        x = self.region(st, p, why)
        if x is None:
            if p.op == 'ite':
                return sym(st.fresh('ldite'), w)
            return None
        rid, off = x
        if not self.check_alive(st, rid, why):
            return None
        n = max(1, w // 8)
        self.bounds(st, rid, off, n, why)
        r = st.mem[rid]
        if isc(off):
            o = t.sval(off)
            return self.load_at(st, r, o, n, w)
        return self.load_sym(st, r, off, n, w)

    def cell(self, st, r, o):
        """one byte as (term, idx)"""
        x = r.cells.get(o)
        if x is not None:
            return x
        d = r.default
        if d == 'zero':
            return (c(0, 8), 0)
        if d == 'undef':
            return (sym('undef:%s+%d' % (r.rid, o), 8), 0)
        return (sym('%s[%d]@%s' % (r.rid, o, d), 8), 0)

    def load_at(self, st, r, o, n, w):
        if o not in r.cells and r.default.startswith('input') and n > 1:
            if not any((o + i) in r.cells for i in range(n)):
                v = sym('%s.%d@%s' % (r.rid, o, r.default), n * 8)
                r = st.w(r.rid)
                r.ver -= 1
                for i in range(n):
                    r.cells[o + i] = (v, i)
        bs = [self.cell(st, r, o + i) for i in range(n)]
        v0 = bs[0][0]
        if bs[0][1] == 0 and v0.w == n * 8 and all(b[0] is v0 and b[1] == i for i, b in enumerate(bs)):
            v = v0
        elif w == 1 or (v0.w < 8):
            v = v0
        else:
            v = t.concat([t.byte(b, i) if b.w > 8 else b for b, i in bs])
        if v.w > w:
            v = t.trunc(v, w)
        elif v.w < w:
            v = t.zext(v, w)
        return v

    def load_sym(self, st, r, off, n, w):
        """read at a symbolic offset"""
        ents = self.table(st, r, off, n)
        if ents is not None:
            return ents
        return app('ld', r.rid, r.default, hash(frozenset(r.cells.items())), off, w=w)

    def table(self, st, r, off, n):
        lo, hi = st.urange(off)
        # offset = base + n*idx with idx a short bit vector
        if off.op == 'lin':
            const, items = off.a
            if len(items) != 1:
                return None
            idx, k = items[0]
            base = const
        else:
            idx, k, base = off, 1, 0
        if k % n and n != 1:
            return None
        u = t.ub(idx)
        nb = u.bit_length()
        if nb > 8:
            return None
        if isc(r.size) and base + (k * ((1 << nb) - 1)) + n > r.size.a:
            return None
        # the entries of a table already read are remembered as long as its cells stay what they were
        rng = range(base, base + k * ((1 << nb) - 1) + n)
        key = (r.rid, r.default, base, k, n, nb)
        hit = self._tabs.get(key)
        if hit is not None and (hit[0] is r and hit[1] == r.ver or hit[2] == list(map(r.cells.get, rng))):
            ents = hit[3]
            if hit[0] is not r or hit[1] != r.ver:
                self._tabs[key] = (r, r.ver, hit[2], ents)
        else:
            ents = [self.load_at(st, r, base + k * i, n, n * 8) for i in range(1 << nb)]
            if any('undef:' in str(e.a) for e in ents if e.op == 's'):
                return None
            r = st.mem[r.rid]
            raw = list(map(r.cells.get, rng))
            if hit is not None and hit[3] == ents:
                ents = hit[3]
            self._tabs[key] = (r, r.ver, raw, ents)
        return t.select_table(ents, idx)

    def store(self, st, p, v, w, why='write'):
        x = self.region(st, p, why)
        if x is None:
            return
        rid, off = x
        if not self.check_alive(st, rid, why):
            return
        n = max(1, w // 8)
        self.bounds(st, rid, off, n, why)
        r = st.mem[rid]
        if r.ro or r.kind == 'const':
            self.problem('write-to-constant', st, rid)
            return
        r = st.w(rid)
        if isc(off):
            o = t.sval(off)
            if n == 1:
                r.cells[o] = (v if v.w == 8 else t.zext(v, 8) if v.w < 8 else v, 0)
            else:
                for i in range(n):
                    r.cells[o + i] = (v, i)
        else:
            self.store_sym(st, r, off, v, n)

    def store_sym(self, st, r, off, v, n):
        # weak update: forget contents (the region gets a new epoch), remember this one
        ep = '%s~%d' % (r.default.split('~')[0], r.ver)
        keepptr = [(o, x) for o, x in r.cells.items() if x[0].op == 'p']
        r.attrs = dict(r.attrs)
        s = set(r.attrs.get('weak', ()))
        s.add(v)
        for o, x in keepptr:
            s.add(x[0])
        r.attrs['weak'] = frozenset(s)
        lo, hi = st.urange(off)
        for o in list(r.cells):
            if lo - 8 < o <= hi + n:
                del r.cells[o]
        r.default = 'havoc' + ep if r.default != 'input' else 'input' + ep

    def havoc(self, st, rid, tag):
        r = st.w(rid)
        ptrs = {x[0] for x in r.cells.values() if x[0].op == 'p'}
        if ptrs:
            r.attrs['weak'] = frozenset(set(r.attrs.get('weak', ())) | ptrs)
        r.cells = {}
        r.default = 'input~' + st.fresh('hv' + tag)

    def bytes_at(self, st, p, n, why='read'):
        """list of n byte terms (n python int) or None"""
        x = self.region(st, p, why)
        if x is None:
            return None
        rid, off = x
        if not self.check_alive(st, rid, why):
            return None
        if not isc(off):
            self.bounds(st, rid, off, n, why)
            return None
        self.bounds(st, rid, off, n, why)
        r = st.mem[rid]
        o = t.sval(off)
        out = []
        for i in range(n):
            b, j = self.cell(st, r, o + i)
            out.append(t.byte(b, j) if b.w > 8 else b)
        return out

    def put_bytes(self, st, p, bs, why='write'):
        x = self.region(st, p, why)
        if x is None:
            return
        rid, off = x
        if not self.check_alive(st, rid, why):
            return
        self.bounds(st, rid, off, len(bs), why)
        r = st.w(rid)
        if isc(off):
            o = t.sval(off)
            for i, b in enumerate(bs):
                r.cells[o + i] = (b, 0)
        else:
            self.store_sym(st, r, off, bs[0], len(bs))

    def memcpy(self, st, d, s, n, why='memcpy'):
        if isc(n):
            if n.a == 0:
                return
            xs = self.region(st, s, why + ' source')
            xd = self.region(st, d, why + ' destination')
            if xs is None or xd is None:
                return
            if not self.check_alive(st, xs[0], why + ' source') or not self.check_alive(st, xd[0], why + ' destination'):
                return
            self.bounds(st, xs[0], xs[1], n, why + ' source')
            self.bounds(st, xd[0], xd[1], n, why + ' destination')
            rs = st.mem[xs[0]]
            if isc(xs[1]) and isc(xd[1]):
                so, do = t.sval(xs[1]), t.sval(xd[1])
                cells = []
                for i in range(n.a):
                    cells.append(self.cell(st, rs, so + i) if (so + i) in rs.cells or not rs.default.startswith('input') else None)
                if any(x is None for x in cells):
                    cells = [self.cell(st, rs, so + i) for i in range(n.a)]
                rd = st.w(xd[0])
                if rd.ro:
                    self.problem('write-to-constant', st, rd.rid)
                    return
                for i, x in enumerate(cells):
                    rd.cells[do + i] = x
                return
            if isc(xd[1]):
                rd = st.w(xd[0])
                do = t.sval(xd[1])
                for i in range(n.a):
                    rd.cells[do + i] = (self.load_sym(st, rs, t.add(xs[1], c(i, 64)), 1, 8), 0)
                return
            rd = st.w(xd[0])
            self.store_sym(st, rd, xd[1], sym(st.fresh('cpy'), 8), n.a)
            return
        xs = self.region(st, s, why + ' source')
        xd = self.region(st, d, why + ' destination')
        if xs is None or xd is None:
            return
        if not self.check_alive(st, xs[0], why + ' source') or not self.check_alive(st, xd[0], why + ' destination'):
            return
        self.bounds(st, xs[0], xs[1], n, why + ' source')
        self.bounds(st, xd[0], xd[1], n, why + ' destination')
        blob = self.blob(st, s, n)
        rd = st.w(xd[0])
        self.store_sym(st, rd, xd[1], sym(st.fresh('cpy'), 8), 1)
        rd.cells = {} if isc(xd[1]) and xd[1].a == 0 else rd.cells
        if isc(xd[1]) and xd[1].a == 0:
            rd.default = 'input~blob:' + str(blob.id)
            rd.attrs['blob'] = (n, blob)

    def blob(self, st, p, n):
        """content term for n (possibly symbolic) bytes at p"""
        if p.op == 'p' and isc(p.a[1]) and p.a[1].a == 0:
            r = st.mem.get(p.a[0])
            bl = r.attrs.get('blob') if r is not None and r.status != 'freed' else None
            if bl is not None and bl[0] is n and not r.cells:
                return bl[1]
        if isc(n) and n.a <= 4096:
            bs = self.bytes_at(st, p, n.a)
            if bs is not None:
                return app('bytes', *bs)
        x = self.region(st, p, 'read')
        if x is None:
            return app('bytes?', st.fresh('blob'))
        rid, off = x
        if not self.check_alive(st, rid, 'read'):
            return app('bytes?', st.fresh('blob'))
        self.bounds(st, rid, off, n, 'read')
        r = st.mem[rid]
        bl = r.attrs.get('blob')
        if bl is not None and bl[0] is n and isc(off) and off.a == 0 and not r.cells:
            return bl[1]
        return app('mem', rid, r.default, hash(frozenset(r.cells.items())), off, n)

    # --------------------------------------------------------------- run
    def val(self, o, env):
        k = o[0]
        if k == 'v' or k == 'a':
            return env[o]
        return self.constval(o)

    def call_fn(self, name, args, st):
        """-> list of (state, ret)"""
        F = self.mod.funcs.get(name)
        if name in self.override:
            return self.override[name](self, st, args)
        if F is None:
            return self.external(name, args, st)
        if len(self.stack) > self.cfg['maxdepth'] or self.stack.count(name) > self.cfg.get('recursion', 3):
            st.notes = st.notes | {'recursion-cut:' + name}
            return self.havoc_call(st, name, args)
        self.visited.add(name)
        self.stack.append(name)
        saved = self.cur
        try:
            outs = self.run(F, args, st)
            return outs if len(self.stack) > 1 else self.cases(outs)
        finally:
            self.stack.pop()
            self.cur = saved

    def nonneg(self, st, x):
        import linear
        h = 1 << 31
        def side(pos):
            k0 = x.a[0] - (1 << 32) if x.a[0] >= h else x.a[0]
            k0 = k0 if pos else -k0
            return t.lin([(y, k if pos else (1 << 32) - k) for y, k in x.a[1] if (k < h) == pos], max(k0, 0), 32)
        return linear.implied_le(st, side(False), side(True))

    def cases(self, outs):
        """results of an analysed operation: one state per case of a returned condition"""
        res = []
        for s, r in outs:
            todo = [(s, r)]
            while todo:
                s, r = todo.pop()
                if not isinstance(r, T) or isc(r) or r.op == 'p':
                    res.append((s, r))
                    continue
                if r.op == 'ite':
                    cnd, arms = r.a[0], r.a[1:]
                elif r.op in ('b', 'app') and t.ub(r) == 1:
                    cnd, arms = t.eq(r, c(0, r.w)), (c(0, r.w), c(1, r.w))
                else:
                    res.append((s, r))
                    continue
                d = s.decide(cnd)
                for v in ((d,) if d is not None else (True, False)):
                    s2 = s.fork() if d is None else s
                    if d is not None or s2.assume(cnd, v):
                        todo.append((s2, arms[0 if v else 1]))
        return res

    def havoc_call(self, st, name, args):
        for a in args:
            if a.op == 'p' and a.a[0] in st.mem and st.mem[a.a[0]].kind not in ('const', 'obj'):
                self.havoc(st, a.a[0], name)
        F = self.mod.funcs.get(name)
        w = 64
        if self.cur is not None and self.cur.op == 'call':
            w = self.cur.ty.bits or 64
        return [(st, sym(st.fresh('ret:' + name), w))]

    def external(self, name, args, st):
        m = self.models.get(name)
        if m is None and name.startswith('llvm.'):
            base = name.split('.')[1]
            m = self.models.get('llvm.' + base)
        if m is None:
            self.unmodelled.add(name)
            st.notes = st.notes | {'unmodelled:' + name}
            return self.havoc_call(st, name, args)
        was, self.ext = self.ext, name        # for calls through pointers, where the instruction does not name the callee
        try:
            r = m(self, st, args)
        finally:
            self.ext = was
        if r is None:
            return [(st, None)]
        if isinstance(r, T):
            return [(st, r)]
        return r

    def run(self, F, args, st):
        env = {('a', i): a for i, a in enumerate(args)}
        frame = '/'.join(self.stack)
        pend = {}          # block -> list of (env, st)
        heap = []
        rets = []

        def push(b, env, st):
            if b in pend:
                pend[b].append((env, st))
            else:
                pend[b] = [(env, st)]
                heapq.heappush(heap, (F.rpo[b], b))

        def edge(frm, to, env, st):
            back = F.rpo[to] <= F.rpo[frm]
            # phis in parallel
            newvals = []
            for I in F.blocks[to]:
                if I.op != 'phi':
                    break
                newvals.append((('v', I.id), self.val(I.x[frm], env)))
            env = dict(env) if newvals or back else env
            for k, v in newvals:
                env[k] = v
            hk = ('#', to)
            if not back:
                if to in F.heads:
                    env = dict(env)
                    snap = None
                    if self.cfg['widen_after'] == 0:
                        snap = ({k: v for k, v in env.items() if k[0] != '#'}, st.fork())
                    env[hk] = (0, 0, 0, 0, (), snap, None)
                elif hk in env:
                    env = dict(env)
                    del env[hk]
                push(to, env, st)
                return
            self.iterate(F, frame, to, env, st, hk, push)

        push(0, env, st)
        allocas = set()
        before = frozenset(st.mem)
        had = st.events
        while heap:
            _, b = heapq.heappop(heap)
            items = pend.pop(b)
            if len(items) > 1:
                items = self.merge_block(F, b, items)
            for env, st in items:
                self.block(F, b, env, st, edge, rets, allocas, frame)
        for s, rv in rets:
            self.drop(s, allocas)
            self.leave(F, s, rv, before, had)
        if len(rets) > 1:
            rets = self.merge_rets(rets)
        return rets

    def leave(self, F, st, rv, before, had=frozenset()):
        """objects allocated during the call: forget freed ones, report the
        ones nothing can reach any more"""
        new = [r for rid, r in st.mem.items() if rid not in before and r.kind in ('heap', 'obj')]
        if new:
            for r in new:
                if r.status == 'freed':
                    self.freedinfo[r.rid] = (r.site, r.freesite)
                    del st.mem[r.rid]
            live = [r for r in new if r.status != 'freed']
            if live:
                seen = set(ptrs_in(rv)) if isinstance(rv, T) else set()
                for rid, r in st.mem.items():
                    if r.kind != 'const' and (rid in before or r.kind not in ('heap', 'obj')):
                        seen |= r.refs()
                work = list(seen)
                while work:
                    r = st.mem.get(work.pop())
                    if r is None:
                        continue
                    for x in r.refs():
                        if x not in seen:
                            seen.add(x)
                            work.append(x)
                for r in live:
                    if r.rid not in seen:
                        if r.owned:
                            self.problem('leak', st, '%s allocated at %s is unreachable when %s returns' % (r.typ or 'memory', r.site, F.name))
                        del st.mem[r.rid]
        h = self.hooks.get('leave')
        if h:
            h(self, F, st, rv)
        # failures inside a call that itself reports failure become one event
        fe = [e for e in st.events if e[0] == 'fail' and e not in had]
        if fe and self.failed_ret(F, rv):
            st.notes = st.notes | frozenset(fe)
            st.events = (st.events - frozenset(fe)) | {('fail', F.name, '')}

    def failed_ret(self, F, rv):
        if rv is None or not isc(rv):
            return False
        return rv.a == 0 or t.sval(rv) < 0

    def drop(self, st, allocas):
        for a in allocas:
            r = st.mem.pop(a, None)
            if r is not None and self.hooks.get('stack_drop'):
                self.hooks['stack_drop'](self, st, r)

    def loopinfo(self, F, h):
        """blocks of the natural loop(s) with header h"""
        key = ('loop', F.name, h)
        x = self.override.get(key)
        if x is None:
            preds = {}
            for b, ss in F.succ.items():
                for s in ss:
                    preds.setdefault(s, set()).add(b)
            body = {h}
            st = [b for b in F.succ if h in F.succ[b] and F.rpo.get(b, -1) >= F.rpo[h]]
            while st:
                b = st.pop()
                if b in body:
                    continue
                body.add(b)
                st.extend(preds.get(b, ()))
            x = frozenset(body)
            self.override[key] = x
        return x

    def narrowing(self, old, new):
        """the iteration cut a small known range: the loop runs a bounded number of times"""
        for tab, otab, rng in ((new.urng, old.urng, old.urange), (new.srng, old.srng, old.srange)):
            for x, (lo, hi) in tab.items():
                if 0 <= hi - lo <= 64 and x in otab:
                    l0, h0 = rng(x)
                    if h0 - l0 <= 65 and hi - lo < h0 - l0 and h0 - l0 < t.ub(x):
                        return True
        return False

    def iterate(self, F, frame, h, env, st, hk, push):
        n, symn, driven, und, vals, snap, wid = env[hk]
        n += 1
        if n > self.cfg['max_iter']:
            raise Budget('loop in %s exceeds %d iterations' % (F.name, n))
        if wid is None:
            if (driven == 2 and n <= self.cfg['unroll_mixed']) or (driven and not und):
                env[hk] = (n, symn, 0, 0, vals, None, None)
                push(h, env, st)
                return
            if snap is None or not (n <= 80 and self.narrowing(snap[1], st)):
                symn += 1
            if symn <= self.cfg['widen_after'] or snap is None:
                sn = ({k: v for k, v in env.items() if k[0] != '#'}, st.fork())
                env[hk] = (n, symn, 0, 0, vals, sn, None)
                push(h, env, st)
                return
        # widening
        if wid is None and self.endless(F, h, snap, env, st):
            self.problem('endless-loop', st, 'an iteration of a loop in %s changes nothing its exit depends on: it never ends' % F.name)
            return
        self.widenings += 1
        live = F.live[h]
        base = wid if wid is not None else snap
        changed, nenv, nst = self.widen(F, frame, h, live, base, env, st, wid is not None)
        if not changed:
            return     # covered by an already propagated widened state
        rounds = (wid[2] if wid is not None else 0) + 1
        if rounds > 8:
            nst.notes = nst.notes | {'widening-limit:' + F.name}
            return
        w2 = ({k: v for k, v in nenv.items() if k[0] != '#'}, nst.fork(), rounds)
        nenv[hk] = (n, symn, 0, 0, vals, None, w2)
        push(h, nenv, nst)

    def endless(self, F, h, snap, env, st):
        """the iteration came back to the loop head in the very state it started from, without consulting anything outside: it repeats for ever"""
        benv, bst = snap
        if st.counts != bst.counts or st.events != bst.events or [e for e in st.events if e[0] == 'fail'] or st.notes != bst.notes:
            return False
        for k in F.live[h]:
            if env.get(k) is not benv.get(k):
                return False
        if set(st.mem) != set(bst.mem) or st.ghost != bst.ghost:
            return False
        for rid, r in st.mem.items():
            o = bst.mem[rid]
            if r is not o and (r.status != o.status or r.attrs != o.attrs or r.cells != o.cells or getattr(r, 'owned', 0) != getattr(o, 'owned', 0)):
                return False
        return True

    def widen(self, F, frame, h, live, base, env, st, was_wide):
        benv, bst = base[0], base[1]
        changes = []       # (setter, old, new)
        nenv = dict(env)
        tag = 'w:%s:%d' % (frame.split('/')[-1], h)
        deltas = []
        any_change = False
        wsyms = bst.ghost.get('wsyms', frozenset())
        nst = st

        def gen(old, new, nm):
            """widened value for a cell that went old -> new"""
            nonlocal deltas
            if old is new:
                return old
            if old.op == 'p' and new.op == 'p' and old.a[0] == new.a[0]:
                return ptr(old.a[0], gen(old.a[1], new.a[1], nm + '.off'))
            if old.w == new.w and old.w in (32, 64) and old.op != 'p' and new.op != 'p':
                d = t.sub(new, old)
                for (dv, s, o0) in deltas:
                    if dv.w == d.w:
                        if d is dv:
                            return t.add(t.sub(s, o0), old)
                        if d is t.sub(c(0, d.w), dv):
                            return t.sub(old, t.sub(s, o0))
                if d.w == 64:
                    for (dv, s, o0) in deltas:
                        if dv.w == 32:
                            dd = t.sext(dv, 64)
                            if dd is d:
                                return t.add(t.sub(t.sext(s, 64), t.sext(o0, 64)), old)
                            if dd is t.sub(c(0, 64), d):
                                return t.sub(old, t.sub(t.sext(s, 64), t.sext(o0, 64)))
                s = sym(nst.fresh(nm), old.w)
                deltas.append((d, s, old))
                if isc(d) and 0 < t.sval(d) < 1 << 20:
                    # counter going up from `old`: never below its start
                    ol, _ = st.urange(old)
                    nst.urng[s] = (ol, (1 << s.w) - 1)
                    if s.w == 32 or s.w == 64:
                        sl, _ = st.srange(old)
                        nst.srng[s] = (sl, (1 << (s.w - 1)) - 1)
                return s
            return sym(nst.fresh(nm), new.w)

        def is_w(x):
            if x.op == 's':
                return str(x.a).startswith(tag)
            if x.op == 'p':
                return is_w(x.a[1])
            if x.op == 'lin':
                return any(is_w(y) for y, _ in x.a[1])
            if x.op == 'app' and x.a[0] in ('sx', 'zx'):
                return is_w(x.a[1])
            return False
        pairs = {}
        for rid, r in nst.mem.items():
            br = bst.mem.get(rid)
            if br is None or br is r:
                continue
            for ak, bv in br.attrs.items():
                av = r.attrs.get(ak)
                if av is bv or not isinstance(av, T) or not isinstance(bv, T):
                    continue
                if av.op == bv.op == 'app' and av.a[0] == bv.a[0] == 'ctk' and av.a[1:3] == bv.a[1:3]:
                    g = bv if was_wide and str(bv.a[3]).startswith(tag) else app('ctk', bv.a[1], bv.a[2], nst.fresh(tag + 'k'))
                    pairs[(bv, av)] = g
                elif not was_wide and bv.op == 'app' and av.op == 'app' and av.a[0] == 'ctk' and av.a[1] is bv:
                    # first clearing already happened or not: bv = ctk(bv, K, 0 rounds)
                    pairs[(bv, av)] = app('ctk', bv, av.a[2], nst.fresh(tag + 'k'))

        def au(x, y):
            """anti-unify two values modulo the generalised pairs"""
            if x is y:
                return x
            p = pairs.get((x, y))
            if p is not None:
                return p
            if x.op == y.op == 'app' and x.a[0] == y.a[0] and len(x.a) == len(y.a) and x.w == y.w:
                out = []
                for u, v in zip(x.a[1:], y.a[1:]):
                    if isinstance(u, T) and isinstance(v, T):
                        z = au(u, v)
                        if z is None:
                            return None
                        out.append(z)
                    elif u == v:
                        out.append(u)
                    else:
                        return None
                return app(x.a[0], *out, w=x.w)
            if x.op == y.op == 'lin' and x.w == y.w and x.a[0] == y.a[0]:
                u = [i for i in x.a[1] if i not in y.a[1]]
                v = [i for i in y.a[1] if i not in x.a[1]]
                if len(u) == len(v) == 1 and u[0][1] == v[0][1]:
                    z = au(u[0][0], v[0][0])
                    if z is not None:
                        return t.lin([i for i in x.a[1] if i in y.a[1]] + [(z, u[0][1])], x.a[0], x.w)
            return None
        for k in sorted(live, key=str):
            if k[0] == '#' or k not in env or k not in benv:
                continue
            o, nw = benv[k], env[k]
            if o is nw:
                continue
            if pairs:
                g = au(o, nw)
                if g is not None:
                    nenv[k] = g
                    any_change = any_change or g is not o
                    continue
            if was_wide and is_w(o) and (o.op != 'p' or (nw.op == 'p' and nw.a[0] == o.a[0])):
                nenv[k] = o
                continue
            any_change = True
            nenv[k] = gen(o, nw, tag + ':v%s' % (k[1],))
        for rid in list(nst.mem):
            r = nst.mem[rid]
            br = bst.mem.get(rid)
            if br is None or br is r or r.kind == 'const':
                continue
            if br.key() == r.key():
                continue
            upd = {}
            for o in set(r.cells) | set(br.cells):
                a, b_ = br.cells.get(o), r.cells.get(o)
                if a == b_:
                    continue
                if a is not None and b_ is not None and a[1] == b_[1]:
                    if was_wide and is_w(a[0]):
                        upd[o] = a
                        continue
                    upd[o] = 'gen'
                else:
                    upd[o] = None
            if not upd and r.attrs == br.attrs and r.status == br.status and r.default == br.default:
                continue
            r2 = nst.w(rid)
            done = {}
            for o, u in sorted(upd.items()):
                if u is None:
                    if was_wide and o not in br.cells:
                        r2.cells.pop(o, None)
                        continue
                    any_change = True
                    r2.cells.pop(o, None)
                    if not r2.default.startswith(('input', 'havoc')):
                        r2.cells[o] = (sym('%s:%s+%d' % (tag, rid, o), 8), 0)
                elif u == 'gen':
                    a, b_ = br.cells[o], r.cells[o]
                    kk = (a[0], b_[0])
                    if kk not in done:
                        any_change = True
                        done[kk] = gen(a[0], b_[0], '%s:%s+%d' % (tag, rid, o))
                    r2.cells[o] = (done[kk], b_[1])
                else:
                    r2.cells[o] = u
            if r.default != br.default:
                if was_wide and br.default.startswith('havocw') or br.default.startswith('inputw'):
                    r2.default = br.default
                else:
                    any_change = True
                    r2.default = ('input' if r.default.startswith('input') else 'havoc') + 'w~' + tag
            for ak in set(r.attrs) | set(br.attrs):
                av, bv = r.attrs.get(ak), br.attrs.get(ak)
                if av is bv or av == bv:
                    continue
                if ak == 'weak':
                    u = frozenset(av or ()) | frozenset(bv or ())
                    r2.attrs[ak] = u
                    if was_wide and bv is not None:
                        continue
                    any_change = True
                    continue
                if isinstance(av, T) and isinstance(bv, T):
                    if (bv, av) in pairs:
                        r2.attrs[ak] = pairs[(bv, av)]
                        any_change = any_change or pairs[(bv, av)] is not bv
                        continue
                    if was_wide and is_w2(bv, tag):
                        r2.attrs[ak] = bv
                        continue
                    any_change = True
                    if av.w in (32, 64):
                        r2.attrs[ak] = gen(bv, av, '%s:%s.%s' % (tag, rid, ak))
                    else:
                        r2.attrs[ak] = sym('%s:%s.%s' % (tag, rid, ak), av.w)
                else:
                    any_change = any_change or not was_wide
                    if ak in r2.attrs and ak not in ('track', 'blob'):
                        pass
        if st.events - bst.events:
            any_change = any_change or bool({e for e in st.events - bst.events if e[0] in ('fail', 'problem')})
        return any_change, nenv, nst

    def merge_block(self, F, b, items):
        live = F.live[b]
        groups = {}
        order = []
        for env, st in items:
            k = (tuple((x, env[x]) for x in sorted(live, key=str) if x in env), st.memkey(), st.events,
                 tuple(sorted((x, v[0], v[1], v[2], v[3]) for x, v in env.items() if x[0] == '#')),
                 tuple(sorted(((a, b2) for a, b2 in st.ghost.items() if a != 'wsyms' and not isinstance(a, tuple)), key=str)), self.kept(st))
            if k in groups:
                self.merges += 1
                groups[k] = self.join(groups[k], (env, st))
            else:
                groups[k] = (env, st)
                order.append(k)
        if len(order) > self.cfg['max_paths']:
            raise Budget('too many states in ' + F.name)
        return [groups[k] for k in order]

    def kept(self, st):
        """facts the client property distinguishes states by (never merged away)"""
        keep = self.cfg.get('keep')
        if keep is None:
            return None
        if keep == 'all':
            return frozenset(st.facts.items())
        return frozenset(x for x in st.facts.items() if keep(x[0]))

    def join(self, x, y):
        env, a = x
        _, b = y
        a.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
        a.urng = {k: (min(v[0], b.urng[k][0]), max(v[1], b.urng[k][1])) for k, v in a.urng.items() if k in b.urng}
        a.srng = {k: (min(v[0], b.srng[k][0]), max(v[1], b.srng[k][1])) for k, v in a.srng.items() if k in b.srng}
        a.notes = a.notes | b.notes
        a.nfork = max(a.nfork, b.nfork)
        for k, v in b.counts.items():
            if a.counts.get(k, 0) < v:
                a.counts[k] = v
        return env, a

    def merge_rets(self, rets):
        groups, order = {}, []
        for st, rv in rets:
            k = (rv, st.memkey(), st.events, tuple(sorted(((a, b) for a, b in st.ghost.items() if not isinstance(a, tuple)), key=str)),
                 self.kept(st))
            if k in groups:
                self.merges += 1
                _, groups[k] = self.join((None, groups[k]), (None, st))
            else:
                groups[k] = st
                order.append(k)
        if len(order) > self.cfg['max_paths']:
            raise Budget('too many states')
        return [(groups[k], k[0]) for k in order]

    def block(self, F, b, env, st, edge, rets, allocas, frame):
        work = [(0, env, st)]
        insts = F.blocks[b]
        while work:
            i, env, st = work.pop()
            self.run_from(F, b, insts, i, env, st, edge, rets, allocas, work, frame)

    def run_from(self, F, b, insts, i, env, st, edge, rets, allocas, work, frame):
        env = dict(env)
        n = len(insts)
        while i < n:
            I = insts[i]
            i += 1
            op = I.op
            if op == 'phi':
                continue
            self.steps += 1
            if self.steps > self.cfg['max_steps']:
                raise Budget('step budget')
            if not self.steps & 1023 and DEADLINE[0] and time.time() > DEADLINE[0]:
                raise Budget('time limit of the whole check')
            self.cur = I
            if op == 'call':
                cal = self.val(I.x, env) if I.x[0] != 'f' else None
                args = [self.val(o, env) for o in I.ops]
                if cal is None:
                    name = I.x[1]
                elif cal.op == 'fn':
                    name = cal.a
                else:
                    name = None
                self.callsites.add((F.name, I.id))
                if name is None:
                    if isc(cal):
                        self.problem('null-call', st, 'call through NULL')
                        return
                    name = 'indirect:%s' % t.show(cal)
                    h = self.hooks.get('indirect')
                    outs = h(self, st, cal, args) if h else None
                    if outs is None:
                        outs = self.external(name, args, st)
                else:
                    outs = self.call_fn(name, args, st)
                self.cur = I
                if not outs:
                    self.ndead += 1
                    return
                if len(outs) > 1:
                    for s2, rv in outs:
                        if rv is not None or I.ty.kind != 'void':
                            e2 = dict(env)
                            e2[('v', I.id)] = self.fit(rv, I.ty, s2)
                            work.append((i, e2, s2))
                        else:
                            work.append((i, env, s2))
                        s2.nfork += 1
                    return
                st, rv = outs[0]
                if I.ty.kind != 'void':
                    env[('v', I.id)] = self.fit(rv, I.ty, st)
                continue
            if op == 'br':
                if len(I.x) == 1:
                    edge(b, I.x[0], env, st)
                    return
                cnd = self.val(I.ops[0], env)
                self.branch(F, b, I, cnd, env, st, edge)
                return
            if op == 'switch':
                v = self.val(I.ops[0], env)
                cases, dflt = I.x
                if isc(v):
                    for cv, tb in cases:
                        if cv == v.a:
                            edge(b, tb, env, st)
                            return
                    edge(b, dflt, env, st)
                    return
                st.nfork += 1
                if F.heads:
                    env = self.note_exit(F, b, I, None, env)
                for cv, tb in cases:
                    s2 = st.fork()
                    if s2.assume(t.eq(v, c(cv, v.w))):
                        edge(b, tb, dict(env), s2)
                for cv, tb in cases:
                    if not st.assume(t.eq(v, c(cv, v.w)), False):
                        return
                edge(b, dflt, env, st)
                return
            if op == 'ret':
                rets.append((st, self.val(I.ops[0], env) if I.ops else None))
                return
            if op == 'unreachable':
                return
            if op == 'store':
                v = self.val(I.ops[0], env)
                w = I.x.bits or I.x.size * 8
                np_ = len(self.problems)
                self.store(st, self.val(I.ops[1], env), v, w)
                if self.fatal(np_):
                    return
                continue
            if op == 'load':
                w = I.ty.bits or I.ty.size * 8
                np_ = len(self.problems)
                v = self.load(st, self.val(I.ops[0], env), w)
                if v is None or self.fatal(np_):
                    self.ndead += 1
                    return
                env[('v', I.id)] = v
                continue
            if op == 'alloca':
                k = self.val(I.ops[0], env)
                size = t.mul(c(I.x.size, 64), t.zext(k, 64))
                rid = 'st:%s:%d' % (frame, I.id)
                base = rid
                j = 0
                while rid in st.mem and rid not in allocas:
                    j += 1
                    rid = '%s.%d' % (base, j)
                r = Region(rid, 'stack', size=size, default='undef', site=self.site())
                r.tok = st.tok
                st.mem[rid] = r
                allocas.add(rid)
                env[('v', I.id)] = ptr(rid)
                continue
            env[('v', I.id)] = self.pure(I, op, env, st)
        # fallthrough impossible

    def fatal(self, np_):
        return any(p[0] in ('null-deref', 'use-after-free', 'out-of-bounds', 'wild-deref', 'dangling-stack') for p in self.problems[np_:])

    def fit(self, rv, ty, st):
        if rv is None:
            return sym(st.fresh('void'), ty.bits or 64)
        w = ty.bits or rv.w
        if rv.w == w or rv.w == 0:
            return rv
        if rv.w < w:
            return t.zext(rv, w)
        return t.trunc(rv, w)

    def branch(self, F, b, I, cnd, env, st, edge):
        d = st.decide(cnd)
        if F.heads:
            env = self.note_exit(F, b, I, d, env)
        if d is not None:
            edge(b, I.x[0 if d else 1], env, st)
            return
        st.nfork += 1
        s2 = st.fork()
        if s2.assume(cnd, False):
            edge(b, I.x[1], dict(env), s2)
        if st.assume(cnd, True):
            edge(b, I.x[0], env, st)

    def note_exit(self, F, b, I, d, env):
        """loop-driving information: an exit test decided on changing operands
        drives the loop (unroll); an undecided one does not"""
        succ = set(F.succ[b])
        for h in F.heads:
            body = self.loopinfo(F, h)
            if b not in body or not (succ - body) or not (succ & body):
                continue
            hk = ('#', h)
            rec = env.get(hk)
            if rec is None:
                continue
            env = dict(env)
            n, symn, driven, und, vals, snap, wid = rec
            if d is None:
                und = 1
            else:
                cur = self.operands(F, I, env)
                prev = dict(vals).get(I.id)
                if cur is not None and prev != cur:
                    driven = max(driven, 1 if prev is None else 2)
                    vals = tuple(x for x in vals if x[0] != I.id) + ((I.id, cur),)
            env[hk] = (n, symn, driven, und, vals, snap, wid)
        return env

    def operands(self, F, I, env):
        """operand values of the comparison a branch tests"""
        if F.defs is None:
            F.defs = {J.id: J for bl in F.blocks.values() for J in bl}
        if not I.ops or I.ops[0][0] != 'v':
            return None
        # through conversions, and through the phis / selects / logic of && and ||, to the comparisons
        todo, seen, out = [I.ops[0][1]], set(), []
        while todo and len(seen) < 24:
            i = todo.pop(0)
            J = F.defs.get(i)
            if J is None or i in seen:
                continue
            seen.add(i)
            nxt = None
            if J.op in ('zext', 'sext', 'trunc', 'freeze') or (J.op == 'icmp' and J.ops[1][0] == 'c' and J.ops[1][1] == 0
                                                              and J.ops[0][0] == 'v' and F.defs.get(J.ops[0][1]) is not None
                                                              and F.defs[J.ops[0][1]].op in ('zext', 'icmp', 'phi')
                                                              and self.is_test(F, F.defs[J.ops[0][1]])):
                nxt = J.ops[:1]
            elif J.op in ('phi', 'select', 'and', 'or', 'xor') and self.is_test(F, J):
                nxt = list(J.x.values()) if J.op == 'phi' else J.ops
            if nxt is not None:
                todo += [o[1] for o in nxt if o[0] == 'v']
                continue
            for o in (J.ops if J.op == 'icmp' else [('v', i)]):
                try:
                    out.append(self.val(o, env))
                except KeyError:
                    pass
        return tuple(out) or None

    def is_test(self, F, J, d=0):
        """a truth value: an i1, or an int that is 0 or 1 on every path"""
        if J.ty.bits == 1 or J.op == 'icmp':
            return True
        if d > 4:
            return False
        if J.op == 'zext':
            K = F.defs.get(J.ops[0][1]) if J.ops[0][0] == 'v' else None
            return K is not None and self.is_test(F, K, d + 1)
        return False

    def pure(self, I, op, env, st):
        ops = [self.val(o, env) for o in I.ops]
        if op == 'gep':
            ty = I.x
            base = ops[0]
            items = []
            for k, ix in enumerate(ops[1:]):
                if k == 0:
                    items.append((t.sext(ix, 64), ty.size))
                    continue
                if ty.kind == 'struct':
                    items.append((c(ty.offs[ix.a], 64), 1))
                    ty = ty.elems[ix.a]
                else:
                    ty = ty.elem
                    items.append((t.sext(ix, 64), ty.size))
            off = t.lin(items, 0, 64)
            if isc(base) and not isc(off):
                return t.add(base, off)
            return t.add(base, off)
        if op == 'icmp':
            a, b = ops
            r = t.icmp(I.x, a, b)
            return r
        if op == 'zext':
            x = ops[0]
            if x.op == 'lin' and x.w == 32 and any(k >> 31 for _, k in x.a[1]):
                # a difference: known not to be negative, it widens term by term
                lo = st.linrange(x)[0]
                if lo is not None and lo >= 0 or lo is not None and self.nonneg(st, x):
                    return t.sext(x, I.ty.bits)
            return t.zext(x, I.ty.bits)
        if op == 'sext':
            return t.sext(ops[0], I.ty.bits)
        if op == 'trunc':
            return t.trunc(ops[0], I.ty.bits)
        if op in ('ptrtoint', 'inttoptr'):
            w = I.ty.bits
            if ops[0].w == w:
                return ops[0]
            return t.trunc(ops[0], w) if ops[0].w > w else t.zext(ops[0], w)
        if op in ('bitcast', 'addrspacecast', 'freeze'):
            return ops[0]
        if op == 'add':
            return t.add(*ops)
        if op == 'sub':
            return t.sub(*ops)
        if op == 'mul':
            return t.mul(*ops)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if op in ('udiv', 'sdiv') and isc(ops[1]) and 0 < ops[1].a < 1 << (ops[1].w - 1) and not isc(ops[0]):
                lo, hi = st.urange(ops[0])
                if lo // ops[1].a == hi // ops[1].a and (op == 'udiv' or hi < 1 << (ops[0].w - 1)):
                    return c(lo // ops[1].a, ops[0].w)
            return t.divrem(op, *ops)
        if op == 'xor':
            return t.xor(*ops)
        if op == 'and':
            return t.and_(*ops)
        if op == 'or':
            return t.or_(*ops)
        if op == 'shl':
            return t.shl(*ops)
        if op == 'lshr':
            if isc(ops[1]) and ops[1].a < ops[1].w and not isc(ops[0]):
                lo, hi = st.urange(ops[0])
                if lo >> ops[1].a == hi >> ops[1].a:
                    return c(lo >> ops[1].a, ops[0].w)
            return t.lshr(*ops)
        if op == 'ashr':
            return t.ashr(*ops)
        if op == 'select':
            d = st.decide(ops[0])
            if d is not None:
                return ops[1] if d else ops[2]
            return t.ite(*ops)
        return app(op, *[o for o in ops], w=I.ty.bits or 64)


def is_w2(v, tag):
    return v.op == 's' and str(v.a).startswith(tag)
