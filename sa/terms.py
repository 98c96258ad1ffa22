"""Hash-consed abstract values (Herbrand terms with two normal forms).

 * 'lin' : sums  c + k1*t1 + ... (mod 2^w)            - arithmetic, addresses
 * 'b'   : vectors of GF(2)-affine bit forms           - xor/and/or/shift code
Everything else is an uninterpreted function of its arguments, so two terms
are the same object iff the analysis proves them equal for every input.
"""
_tab = {}
_next = [1]
_byid = {}


class T:
    __slots__ = ('op', 'a', 'w', 'id', '_bits', '_ub', '_hasptr')

    def __repr__(self):
        return show(self)


def mk(op, a, w):
    k = (op, a, w)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.w = op, a, w
        t.id = _next[0]
        _next[0] += 1
        t._bits = None
        t._ub = None
        t._hasptr = None
        _tab[k] = t
        _byid[t.id] = t
    return t


def show(t, d=5):
    if not isinstance(t, T):
        return repr(t)
    if t.op == 'c':
        v = t.a
        return hex(v) if v > 4096 else str(v)
    if t.op == 's':
        return str(t.a)
    if t.op == 'p':
        return '&%s%s' % (t.a[0], '' if t.a[1].op == 'c' and t.a[1].a == 0 else '+' + show(t.a[1], d - 1))
    if t.op == 'fn':
        return '@' + t.a
    if d <= 0:
        return '…'
    if t.op == 'lin':
        return '(' + '+'.join(['%s%s' % ('' if k == 1 else str(k if k < (1 << t.w) // 2 else k - (1 << t.w)) + '*', show(x, d - 1)) for x, k in t.a[1]] +
                              ([str(t.a[0] if t.a[0] < (1 << t.w) // 2 else t.a[0] - (1 << t.w))] if t.a[0] else [])) + ')'
    if t.op == 'b':
        s = set()
        for b in t.a:
            for x in b:
                if x:
                    s.add(x >> 7)
        return 'bits%d{%s}' % (t.w, ','.join(show(_byid[i], d - 2) for i in sorted(s)[:4]))
    if t.op == 'app':
        return '%s(%s)' % (t.a[0], ','.join(show(x, d - 1) for x in t.a[1:]))
    return '%s(%s)' % (t.op, ','.join(show(x, d - 1) for x in (t.a if isinstance(t.a, tuple) else (t.a,))))


def c(v, w):
    return mk('c', v & ((1 << w) - 1), w)


def sym(name, w):
    return mk('s', name, w)


def app(name, *args, w=0):
    return mk('app', (name,) + args, w)


def ptr(rid, off=None):
    if off is None:
        off = c(0, 64)
    elif isinstance(off, int):
        off = c(off, 64)
    return mk('p', (rid, off), 64)


def fn(name):
    return mk('fn', name, 64)


NULL = c(0, 64)
TRUE = c(1, 1)
FALSE = c(0, 1)
E0 = frozenset()
E1 = frozenset([0])


def isc(t):
    return t.op == 'c'


def sval(t):
    v = t.a
    return v - (1 << t.w) if v >> (t.w - 1) else v


def ub(t):
    """structural unsigned upper bound"""
    if t._ub is not None:
        return t._ub
    m = (1 << t.w) - 1
    if t.op == 'c':
        r = t.a
    elif t.op == 'b':
        r = 0
        for i, b in enumerate(t.a):
            if b:
                r |= 1 << i
    elif t.op == 'lin':
        r = t.a[0]
        for x, k in t.a[1]:
            r += k * ub(x)
            if r > m:
                r = m
                break
    elif t.op == 'app' and t.a[0] == 'urem' and isc(t.a[2]) and t.a[2].a:
        r = t.a[2].a - 1
    elif t.op == 'app' and t.a[0] == 'udiv' and isc(t.a[2]) and t.a[2].a:
        r = ub(t.a[1]) // t.a[2].a
    elif t.op == 'ite':
        r = max(ub(t.a[1]), ub(t.a[2]))
    elif t.op == 'app' and t.a[0] in ('nbits', 'sknum', 'slen'):
        r = (1 << 31) - 1 if t.a[0] == 'slen' else 1 << 24
    else:
        r = m
    t._ub = r
    return r


# ------------------------------------------------------------------- bits
_rip = {}
_fid = {}
_forms = []


def form(x):
    """small number naming an affine bit form; the complement differs in the lowest bit"""
    neg = 0
    if 0 in x:
        x = x - E1
        neg = 1
    i = _fid.get(x)
    if i is None:
        i = _fid[x] = len(_forms)
        _forms.append(x)
    return 2 * i + neg


def unform(i):
    x = _forms[i >> 1]
    return x | E1 if i & 1 else x


def _is_sum(t):
    """sum of two data words, possibly with a carry: expanded bit by bit, so that the width and chunking of the additions do not matter"""
    it = t.a[1]
    if t.a[0] or not 2 <= len(it) <= 3:
        return False
    wide = 0
    for x, k in it:
        if k != 1 or x.op not in ('b', 's'):
            return False
        if ub(x) > 1:
            wide += 1
            if not _data(x):
                return False
    return wide <= 2


def _data(x):
    if x.op == 's':
        return '@' in str(x.a) and x.w == 8
    d = _dat.get(x)
    if d is None:
        d = True
        for b in x.a:
            for y in b:
                if y:
                    z = _byid[y >> 7]
                    if z.op == 's' and '@' in str(z.a) and z.w == 8 or z.op in ('sel', 'maj', 'band', 'col'):
                        continue
                    d = False
        _dat[x] = d
    return d


_dat = {}


def _ripple(t):
    xs = sorted((x for x, k in t.a[1]), key=ub)
    cin = E0
    if len(xs) == 3:
        cin = bits(xs[0])[0]
        xs = xs[1:]
    p, q = bits(xs[0]), bits(xs[1])
    out = []
    for x, y in zip(p, q):
        out.append(x ^ y ^ cin)
        cin = _maj(x, y, cin)
    return tuple(out)


def _maj(x, y, z):
    if x == y:
        return x
    if x == z:
        return x
    if y == z:
        return y
    if x == y ^ E1:
        return z
    if x == z ^ E1:
        return y
    if y == z ^ E1:
        return x
    k = sorted((form(x), form(y), form(z)))
    neg = E0
    if k[0] & 1:
        k = sorted(v ^ 1 for v in k)
        neg = E1
    t = mk('maj', tuple(k), 1)
    return frozenset([t.id << 7]) ^ neg


def bits(t):
    b = t._bits
    if b is not None:
        return b
    if t.op == 'c':
        b = tuple(E1 if (t.a >> i) & 1 else E0 for i in range(t.w))
    elif t.op == 'b':
        b = t.a
    elif t.op == 'lin' and _is_sum(t):
        b = _ripple(t)
        _rip.setdefault(b, t)
    elif t.op == 'lin':
        u = ub(t)
        n = u.bit_length()
        m = (1 << t.w) - 1
        # no wrap?
        tot = t.a[0]
        for x, k in t.a[1]:
            tot += k * ub(x)
        low = None
        if len(t.a[1]) == 1 and t.a[1][0][1] & (t.a[1][0][1] - 1) == 0 and t.a[1][0][0].op == 'b':
            # a constant added below the lowest bit in use
            low = ((E0,) * (t.a[1][0][1].bit_length() - 1) + bits(t.a[1][0][0]))[:t.w]
            if any(low[:t.a[0].bit_length()]):
                low = None
        if low is not None:
            b = tuple(E1 if (t.a[0] >> i) & 1 else x for i, x in enumerate(low))
        elif tot <= m and n < t.w and n > 0:
            inner = lin([(trunc(x, n), k) for x, k in t.a[1]], t.a[0], n)
            ib = bits(inner) if inner.op != 'lin' else tuple(frozenset([(inner.id << 7) | i]) for i in range(n))
            b = ib + (E0,) * (t.w - n)
        else:
            b = tuple(frozenset([(t.id << 7) | i]) for i in range(t.w))
    else:
        u = ub(t)
        n = u.bit_length()
        b = tuple(frozenset([(t.id << 7) | i]) if i < n else E0 for i in range(t.w))
    t._bits = b
    return b


def mkb(bs):
    w = len(bs)
    v = 0
    for i, b in enumerate(bs):
        if b is E0 or not b:
            continue
        if len(b) == 1 and 0 in b:
            v |= 1 << i
            continue
        break
    else:
        return c(v, w)
    if _rip:
        at = _rip.get(tuple(bs))
        if at is not None:
            return at
    # exactly one atom, in place?
    if len(bs[0]) == 1:
        x = next(iter(bs[0]))
        if x and (x & 127) == 0:
            at = _byid[x >> 7]
            if at.w == w and bits(at) == tuple(bs):
                return at
            if at.op == 'lin' and at.w < w and tuple(bs) == bits(at) + (E0,) * (w - at.w):
                # zero extension of a narrowed lin that cannot wrap: give it back in lin form
                tot = at.a[0] + sum(k * ub(y) for y, k in at.a[1])
                if tot < (1 << at.w):
                    return lin([(zext(y, w), k) for y, k in at.a[1]], at.a[0], w)
    return mk('b', tuple(bs), w)


def xor(a, b):
    if a is b:
        return c(0, a.w)
    if isc(a) and isc(b):
        return c(a.a ^ b.a, a.w)
    if isc(b) and b.a == 0:
        return a
    if isc(a) and a.a == 0:
        return b
    if a.op == 'p' or b.op == 'p':
        return app('xor', a, b, w=a.w)
    return mkb([x ^ y for x, y in zip(bits(a), bits(b))])


def bitmul(x, y, conj):
    """and of two bit forms"""
    if not x or not y:
        return E0
    if x == E1:
        return y
    if y == E1:
        return x
    if x == y:
        return x
    if x == y ^ E1:
        return E0
    k = tuple(sorted((form(x), form(y))))
    t = mk('band', k, 1)
    return frozenset([(t.id << 7)])


def and_(a, b):
    if a is b:
        return a
    if isc(a) and isc(b):
        return c(a.a & b.a, a.w)
    if isc(a):
        a, b = b, a
    if isc(b):
        if b.a == 0:
            return b
        if b.a == (1 << b.w) - 1:
            return a
        if ub(a) <= b.a and (b.a & (b.a + 1)) == 0:
            return a
    return mkb([bitmul(x, y, 1) for x, y in zip(bits(a), bits(b))])


def or_(a, b):
    if a is b:
        return a
    if isc(a) and isc(b):
        return c(a.a | b.a, a.w)
    r = []
    for x, y in zip(bits(a), bits(b)):
        if not x:
            r.append(y)
        elif not y:
            r.append(x)
        else:
            r.append(x ^ y ^ bitmul(x, y, 1))
    return mkb(r)


def not_(a):
    return xor(a, c((1 << a.w) - 1, a.w))


def shl(a, k):
    if isc(k):
        n = k.a
        if n >= a.w:
            return c(0, a.w)
        if isc(a):
            return c(a.a << n, a.w)
        if a.op == 'lin':
            return mul(a, c(1 << n, a.w))
        return mkb((E0,) * n + bits(a)[:a.w - n])
    return app('shl', a, k, w=a.w)


def lshr(a, k):
    if isc(k):
        n = k.a
        if n >= a.w:
            return c(0, a.w)
        if isc(a):
            return c(a.a >> n, a.w)
        if n == 0:
            return a
        return mkb(bits(a)[n:] + (E0,) * n)
    return app('lshr', a, k, w=a.w)


def ashr(a, k):
    if isc(k):
        n = min(k.a, a.w - 1)
        if isc(a):
            return c(sval(a) >> n, a.w)
        b = bits(a)
        return mkb(b[n:] + (b[-1],) * n)
    return app('ashr', a, k, w=a.w)


# -------------------------------------------------------------------- lin
def lin(items, const, w):
    m = (1 << w) - 1
    acc = {}
    const &= m
    p = None
    for t, k in items:
        k &= m
        if not k:
            continue
        if t.op == 'c':
            const = (const + k * t.a) & m
        elif t.op == 'lin':
            const = (const + k * t.a[0]) & m
            for x, kk in t.a[1]:
                acc[x] = (acc.get(x, 0) + k * kk) & m
        else:
            acc[t] = (acc.get(t, 0) + k) & m
    it = tuple(sorted(((x, k) for x, k in acc.items() if k), key=lambda z: z[0].id))
    if not it:
        return c(const, w)
    if len(it) == 1 and it[0][1] == 1 and const == 0:
        return it[0][0]
    # pointer arithmetic: exactly one pointer with coefficient 1
    ps = [(x, k) for x, k in it if x.op == 'p']
    if len(ps) == 1 and ps[0][1] == 1 and w == 64:
        rid, off = ps[0][0].a
        return ptr(rid, lin([(off, 1)] + [(x, k) for x, k in it if x is not ps[0][0]], const, 64))
    if len(ps) == 2 and w == 64 and ps[0][0].a[0] == ps[1][0].a[0] and (ps[0][1] + ps[1][1]) & m == 0:
        return lin([(x.a[1], k) for x, k in ps] + [(x, k) for x, k in it if x.op != 'p'], const, 64)
    return mk('lin', (const, it), w)


def add(a, b):
    if isc(a) and isc(b):
        return c(a.a + b.a, a.w)
    if isc(b) and b.a == 0:
        return a
    if isc(a) and a.a == 0:
        return b
    if a.w == 1:
        return xor(a, b)
    return lin([(a, 1), (b, 1)], 0, a.w)


def sub(a, b):
    if a is b:
        return c(0, a.w)
    if isc(a) and isc(b):
        return c(a.a - b.a, a.w)
    if isc(b) and b.a == 0:
        return a
    return lin([(a, 1), (b, -1)], 0, a.w)


def mul(a, b):
    if isc(a) and isc(b):
        return c(a.a * b.a, a.w)
    if isc(a):
        a, b = b, a
    if isc(b):
        return lin([(a, b.a)], 0, a.w)
    if a.id > b.id:
        a, b = b, a
    return app('mul', a, b, w=a.w)


def divrem(op, a, b):
    if isc(b) and b.a:
        if isc(a):
            if op == 'udiv':
                return c(a.a // b.a, a.w)
            if op == 'urem':
                return c(a.a % b.a, a.w)
            x, y = sval(a), sval(b)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return c(q if op == 'sdiv' else x - q * y, a.w)
        if op in ('udiv', 'urem') and b.a & (b.a - 1) == 0:
            n = b.a.bit_length() - 1
            if op == 'udiv':
                return lshr(a, c(n, a.w))
            return and_(a, c(b.a - 1, a.w))
        if op in ('sdiv', 'srem') and ub(a) < 1 << (a.w - 1) and b.a < 1 << (b.w - 1):
            return divrem('u' + op[1:], a, b)
    return app(op, a, b, w=a.w)


def zext(a, w):
    if w == a.w:
        return a
    if isc(a):
        return c(a.a, w)
    if a.op == 'lin':
        tot = a.a[0] + sum(k * ub(x) for x, k in a.a[1])
        if tot < (1 << a.w):
            return lin([(zext(x, w), k) for x, k in a.a[1]], a.a[0], w)
        return app('zx', a, w=w) if a.w >= 32 else mkb(bits(a) + (E0,) * (w - a.w))
    if a.op == 'ite':
        return ite(a.a[0], zext(a.a[1], w), zext(a.a[2], w))
    return mkb(bits(a) + (E0,) * (w - a.w))


def sext(a, w):
    if w == a.w:
        return a
    if isc(a):
        return c(sval(a), w)
    if a.w == 1:
        b = bits(a)
        return mkb(b * w)
    if ub(a) < 1 << (a.w - 1):
        return zext(a, w)
    if a.op == 'lin' and a.w == 32:
        h = 1 << 31

        def s(k):
            return k - (1 << 32) if k >= h else k
        return lin([(sext(x, w), s(k)) for x, k in a.a[1]], s(a.a[0]), w)
    if a.op == 'ite':
        return ite(a.a[0], sext(a.a[1], w), sext(a.a[2], w))
    return app('sx', a, w=w)


def trunc(a, w):
    if w == a.w:
        return a
    if isc(a):
        return c(a.a, w)
    if a.op == 'lin':
        return lin([(trunc(x, w), k) for x, k in a.a[1]], a.a[0], w)
    if a.op == 'app' and a.a[0] in ('zx', 'sx'):
        x = a.a[1]
        if w <= x.w:
            return trunc(x, w)
        return zext(x, w) if a.a[0] == 'zx' else sext(x, w)
    if a.op == 'app' and a.a[0] == 'mul':
        return mul(trunc(a.a[1], w), trunc(a.a[2], w))
    if a.op == 'p':
        return app('ptrtrunc', a, w=w)
    if a.op == 'ite':
        return ite(a.a[0], trunc(a.a[1], w), trunc(a.a[2], w))
    return mkb(bits(a)[:w])


def byte(t, i):
    """i-th little-endian byte"""
    if t.w == 8:
        return t
    if isc(t):
        return c(t.a >> (8 * i), 8)
    if t.op in ('p', 'fn'):
        return app('pbyte', t, c(i, 8), w=8)
    return mkb(bits(t)[8 * i:8 * i + 8])


def concat(bs):
    """little-endian list of byte terms -> one term"""
    if len(bs) == 1:
        return bs[0]
    if all(isc(x) for x in bs):
        v = 0
        for i, x in enumerate(bs):
            v |= x.a << (8 * i)
        return c(v, 8 * len(bs))
    if bs[0].op == 'app' and bs[0].a[0] == 'pbyte':
        p = bs[0].a[1]
        if len(bs) == 8 and all(x.op == 'app' and x.a[0] == 'pbyte' and x.a[1] is p and x.a[2].a == i for i, x in enumerate(bs)):
            return p
    r = ()
    for x in bs:
        r += bits(x)
    return mkb(r)


def ite(cnd, a, b):
    if a is b:
        return a
    if isc(cnd):
        return a if cnd.a else b
    if a.w == 1 and isc(a) and isc(b):
        return cnd if a.a else not_(cnd)
    if isc(a) and isc(b) and a.a == 1 and b.a == 0:
        return zext(cnd, a.w)
    if isc(a) and isc(b) and a.w <= 64 and (a.a == 0 or b.a == 0):
        k = a.a | b.a
        if k & (k - 1) == 0:
            # one bit, moved to its place
            return shl(zext(cnd if a.a else not_(cnd), a.w), c(k.bit_length() - 1, a.w))
    # canonical polarity
    bb = bits(cnd)[0]
    if 0 in bb:
        return ite(not_(cnd), b, a)
    return mk('ite', (cnd, a, b), a.w)


ZERO_BN = app('bnc', 0)
ONE_BN = app('bnc', 1)


def eq(a, b):
    if a is b:
        return TRUE
    if isc(a) and isc(b):
        return TRUE if a.a == b.a else FALSE
    if isc(a):
        a, b = b, a
    # pointers
    if a.op == 'p' or b.op == 'p' or a.op == 'fn' or b.op == 'fn':
        if a.op == 'p' and b.op == 'p':
            if a.a[0] == b.a[0]:
                return eq(a.a[1], b.a[1])
            return FALSE
        if isc(b) or isc(a):
            return FALSE
        if {a.op, b.op} == {'p', 'fn'} or (a.op == 'fn' and b.op == 'fn'):
            return FALSE
    if a.w == 1 and isc(b):
        return a if b.a else not_(a)
    if isc(b):
        if b.a > ub(a):
            return FALSE
        if a.op == 'app' and a.a[0] == 'bncmp':
            if b.a == 0:
                return beq(a.a[1], a.a[2])
        if a.op == 'app' and a.a[0] in ('zx', 'sx'):
            x = a.a[1]
            if a.a[0] == 'zx':
                return eq(x, c(b.a, x.w)) if b.a < (1 << x.w) else FALSE
            v = sval(b)
            if -(1 << (x.w - 1)) <= v < (1 << (x.w - 1)):
                return eq(x, c(v, x.w))
            return FALSE
        if a.op == 'ite':
            x, y = eq(a.a[1], b), eq(a.a[2], b)
            if isc(x) and isc(y):
                return ite(a.a[0], x, y)
        if a.op == 'b':
            # single-bit values, zero-extended
            nz = [(i, x) for i, x in enumerate(a.a) if x]
            if len(nz) == 1:
                i, x = nz[0]
                t = mkb([x])
                if b.a == 0:
                    return not_(t)
                if b.a == 1 << i:
                    return t
                return FALSE
            # narrow zero-extensions
            n = ub(a).bit_length()
            if 0 < n < a.w:
                return eq(trunc(a, n), c(b.a, n))
            # constant bits must agree
            for i, x in enumerate(a.a):
                if not x or x == E1:
                    if ((b.a >> i) & 1) != (1 if x else 0):
                        return FALSE
        if a.op == 'lin':
            if len(a.a[1]) == 1 and a.a[1][0][1] == 1:
                return eq(a.a[1][0][0], c(b.a - a.a[0], a.w))
            if len(a.a[1]) == 1 and a.a[1][0][1] == (1 << a.w) - 1:
                return eq(a.a[1][0][0], c(a.a[0] - b.a, a.w))
            if a.a[0]:
                return eq(lin(a.a[1], 0, a.w), c(b.a - a.a[0], a.w))
            if len(a.a[1]) == 2 and {k for _, k in a.a[1]} == {1, (1 << a.w) - 1} and b.a == 0:
                return eq(a.a[1][0][0], a.a[1][1][0])
        return mk('eq', (a, b), 1)
    if a.op == 'lin' or b.op == 'lin':
        d = sub(a, b)
        if isc(d):
            return TRUE if d.a == 0 else FALSE
        if d.op == 'lin' and (a.op == 'lin' and b.op == 'lin' or len(d.a[1]) < 2 or True):
            # canonical sign
            if d.a[1][0][1] >> (d.w - 1):
                d = sub(c(0, d.w), d)
            if not (len(d.a[1]) == 2 and d.a[0] == 0 and {k for _, k in d.a[1]} == {1, (1 << d.w) - 1}):
                return eq(d, c(0, d.w))
            a, b = d.a[1][0][0], d.a[1][1][0]
    elif a.op in ('b',) or b.op in ('b',):
        d = xor(a, b)
        if isc(d):
            return TRUE if d.a == 0 else FALSE
        # equal upper bits do not matter (both sides widened)
        n = a.w
        x, y = bits(a), bits(b)
        while x[n - 1] == y[n - 1]:
            n -= 1
        if n < a.w:
            return eq(trunc(a, n), trunc(b, n))
    if a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), 1)


BIT01 = []      # recogniser of field elements that are 0 or 1 (gf.py)


def beq(a, b):
    if a is b:
        return TRUE
    if a.op == b.op == 'app' and a.a[0] == b.a[0] == 'bnc':
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'app' and x.a[0] in ('tr', 'gfadd') and y.op == 'app' and y.a[0] in ('bnc', 'tr', 'gfadd'):
            u = BIT01[0](x)
            if u is not None:
                v = BIT01[0](y)
                if v is not None:
                    return not_(xor(u, v))
                if y.a[0] == 'bnc':
                    return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('beq', (a, b), 1)


def blt(a, b):
    if a is b:
        return FALSE
    if a.op == b.op == 'app' and a.a[0] == b.a[0] == 'bnc':
        return TRUE if a.a[1] < b.a[1] else FALSE
    if b is ZERO_BN:
        return FALSE
    if a is ZERO_BN:
        return not_(beq(b, ZERO_BN))
    if b is ONE_BN:
        return beq(a, ZERO_BN)
    return mk('blt', (a, b), 1)


def ult(a, b):
    if a is b:
        return FALSE
    if isc(a) and isc(b):
        return TRUE if a.a < b.a else FALSE
    if isc(b):
        if b.a == 0:
            return FALSE
        if ub(a) < b.a:
            return TRUE
        if b.a == 1:
            return eq(a, c(0, a.w))
    if isc(a):
        if a.a == (1 << a.w) - 1 or a.a >= ub(b):
            return FALSE
        if a.a == 0:
            return not_(eq(b, a))
    if a.op == 'p' and b.op == 'p' and a.a[0] == b.a[0]:
        return ult(a.a[1], b.a[1])
    return mk('ult', (a, b), 1)


def slt(a, b):
    if a is b:
        return FALSE
    if isc(a) and isc(b):
        return TRUE if sval(a) < sval(b) else FALSE
    h = 1 << (a.w - 1)
    if isc(b) and b.a == 0 and a.op == 'app' and a.a[0] == 'bncmp':
        return blt(a.a[1], a.a[2])
    if isc(a) and a.a == 0 and b.op == 'app' and b.a[0] == 'bncmp':
        return blt(b.a[2], b.a[1])
    if isc(b) and sval(b) == 1 and a.op == 'app' and a.a[0] == 'bncmp':
        return not_(blt(a.a[2], a.a[1]))
    if isc(a) and sval(a) == -1 and b.op == 'app' and b.a[0] == 'bncmp':
        return not_(blt(b.a[1], b.a[2]))
    if ub(a) < h and ub(b) < h:
        return ult(a, b)
    if a.w == 64:
        # compare at the width the value came from
        if a.op == 'app' and a.a[0] == 'sx' and isc(b) and -(1 << (a.a[1].w - 1)) <= sval(b) < (1 << (a.a[1].w - 1)):
            return slt(a.a[1], c(sval(b), a.a[1].w))
        if b.op == 'app' and b.a[0] == 'sx' and isc(a) and -(1 << (b.a[1].w - 1)) <= sval(a) < (1 << (b.a[1].w - 1)):
            return slt(c(sval(a), b.a[1].w), b.a[1])
        if a.op == 'app' and b.op == 'app' and a.a[0] == b.a[0] == 'sx' and a.a[1].w == b.a[1].w:
            return slt(a.a[1], b.a[1])
    if isc(b) and sval(b) == -h:
        return FALSE
    if isc(a) and a.a == h - 1:
        return FALSE
    return mk('slt', (a, b), 1)


def icmp(pred, a, b):
    if pred == 'eq':
        return eq(a, b)
    if pred == 'ne':
        return not_(eq(a, b))
    if pred == 'ult':
        return ult(a, b)
    if pred == 'ugt':
        return ult(b, a)
    if pred == 'uge':
        return not_(ult(a, b))
    if pred == 'ule':
        return not_(ult(b, a))
    if pred == 'slt':
        return slt(a, b)
    if pred == 'sgt':
        return slt(b, a)
    if pred == 'sge':
        return not_(slt(a, b))
    if pred == 'sle':
        return not_(slt(b, a))
    raise KeyError(pred)


def boolatom(cnd):
    """(atom, polarity) of a width-1 term; atom None when it is not a single literal"""
    if isc(cnd):
        return None, bool(cnd.a)
    b = bits(cnd)[0]
    if b == E0:
        return None, False
    neg = 0 in b
    r = b ^ E1 if neg else b
    if len(r) == 1:
        x = next(iter(r))
        if x & 127 == 0 and _byid[x >> 7].w == 1:
            return _byid[x >> 7], not neg
    if neg:
        return mkb([r]), False
    return cnd, True


def from_bit(x):
    return mkb([x])


def atoms(t, out=None, seen=None):
    """every sub-term"""
    if seen is None:
        seen, out = set(), []
    st = [t]
    while st:
        t = st.pop()
        if not isinstance(t, T) or t in seen:
            continue
        seen.add(t)
        out.append(t)
        if t.op == 'b':
            for b in t.a:
                for x in b:
                    if x:
                        st.append(_byid[x >> 7])
        elif t.op in ('band', 'col', 'maj'):
            for b in t.a:
                for x in _forms[b >> 1]:
                    if x:
                        st.append(_byid[x >> 7])
        elif t.op == 'sel':
            st.append(t.a[0])
            for b in t.a[1]:
                for x in _forms[b >> 1]:
                    if x:
                        st.append(_byid[x >> 7])
        elif t.op == 'lin':
            st.extend(x for x, _ in t.a[1])
        elif isinstance(t.a, tuple):
            def rec(z):
                for y in z:
                    if isinstance(y, T):
                        st.append(y)
                    elif isinstance(y, tuple):
                        rec(y)
            rec(t.a)
    return out


_deco = {}


_decid = {}


def _decompose(entries):
    """per output bit: (relevant index-bit positions, column term)"""
    d = _decid.get(id(entries))
    if d is not None:
        return d[1]
    key = tuple(e.id for e in entries)
    d = _deco.get(key)
    if d is not None:
        _decid[id(entries)] = (entries, d)
        return d
    nb = len(entries).bit_length() - 1
    w = entries[0].w
    rows = [bits(e) for e in entries]
    d = []
    for o in range(w):
        col = [r[o] for r in rows]
        pos = list(range(nb))
        for k in range(nb - 1, -1, -1):
            step = 1 << pos.index(k)
            lo = [col[i] for i in range(len(col)) if not i & step]
            hi = [col[i] for i in range(len(col)) if i & step]
            if lo == hi:
                col = lo
                pos.remove(k)
        d.append((tuple(pos), col))
    _deco[key] = d
    _decid[id(entries)] = (entries, d)
    return d


def select_table(entries, idx):
    """entries: list (power of two) of same-width terms; idx: index term.
    Canonical: each output bit is looked up as a function of exactly the index
    bits it depends on, so the layout of lookup tables does not matter."""
    ib = bits(idx)
    return mkb([_sel(col, [ib[p] for p in pos]) for pos, col in _decompose(entries)])


_colc = {}


def _sel(col, ibits):
    for k, b in enumerate(ibits):
        if b == E0 or b == E1:
            step = 1 << k
            col = [col[i] for i in range(len(col)) if bool(i & step) == (b == E1)]
            rest = ibits[:k] + ibits[k + 1:]
            if all(x == col[0] for x in col):
                return col[0]
            return _sel(col, rest)
    if not ibits:
        return col[0]
    if len(ibits) == 1:
        if col[0] == E0 and col[1] == E1:
            return ibits[0]
        if col[0] == E1 and col[1] == E0:
            return ibits[0] ^ E1
    ct = _colc.get(id(col))
    if ct is None:
        ct = (mk('col', tuple(form(x) for x in col), 0), col)
        _colc[id(col)] = ct
    t = mk('sel', (ct[0], tuple(form(x) for x in ibits)), 1)
    return frozenset([t.id << 7])
