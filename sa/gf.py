"""Normal form for elements of a binary field GF(2^m): sums of monomials with integer exponents, absolute traces as bits.
A term is a constant, an opaque atom, a monomial gfmul(p, coef, atom, exp, ...) or a sum gfadd(...)."""
import terms as t
from terms import app, isc, ZERO_BN, ONE_BN, c

DEG = {}      # polynomial term -> degree (for polynomials that are not constants)
_mm = {}


def bnc(v):
    return app('bnc', v)


def isbc(x):
    return x.op == 'app' and x.a[0] == 'bnc'


def degree(p):
    if isbc(p):
        return p.a[1].bit_length() - 1
    return DEG.get(p)


def cmul(a, b, pv):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        b >>= 1
    return cred(r, pv)


def cred(r, pv):
    d = pv.bit_length()
    while r.bit_length() >= d:
        r ^= pv << (r.bit_length() - d)
    return r


def cinv(a, pv):
    m = pv.bit_length() - 1
    r, x, e = 1, a, (1 << m) - 2
    while e:
        if e & 1:
            r = cmul(r, x, pv)
        x = cmul(x, x, pv)
        e >>= 1
    return r


def parts(x):
    return x.a[1:] if x.op == 'app' and x.a[0] == 'gfadd' else (x,)


def mono(x, p):
    """(coefficient, {atom: exponent})"""
    if isbc(x) and (isbc(p) or x.a[1] == 1):
        return (cred(x.a[1], p.a[1]) if isbc(p) else 1), {}
    if x.op == 'app' and x.a[0] == 'gfmul' and x.a[1] is p:
        d = {}
        for i in range(3, len(x.a), 2):
            d[x.a[i]] = x.a[i + 1]
        return x.a[2].a[1], d
    return 1, {x: 1}


def mkmono(k, d, p):
    if k == 0:
        return ZERO_BN
    m = degree(p)
    it = []
    for a, e in d.items():
        if m:
            e %= (1 << m) - 1
        if e:
            it.append((a, e))
    if not it:
        return bnc(k)
    if k == 1 and len(it) == 1 and it[0][1] == 1:
        return it[0][0]
    it.sort(key=lambda z: z[0].id)
    return app('gfmul', p, bnc(k), *[y for z in it for y in z])


def summ(ps):
    s, k = set(), 0
    for y in ps:
        if isbc(y):
            k ^= y.a[1]
        else:
            s ^= {y}
    s = orbit(s)
    if isinstance(s, tuple):
        s, k2 = s
        k ^= k2
    ps = sorted(s, key=lambda z: z.id)
    if k:
        ps.insert(0, bnc(k))
    if not ps:
        return ZERO_BN
    if len(ps) == 1:
        return ps[0]
    return app('gfadd', *ps)


def orbit(s):
    """replace complete Frobenius orbits by traces"""
    if len(s) < 5:
        return s
    p = None
    for x in s:
        if x.op == 'app' and x.a[0] == 'gfmul':
            p = x.a[1]
            break
    m = degree(p) if p is not None else None
    if not m or len(s) % m:
        return s
    s = set(s)
    todo = sorted(s, key=lambda z: z.id)
    for x in todo:
        if x not in s or x.op == 'app' and x.a[0] == 'tr':
            continue
        orb = [x]
        y = x
        for i in range(m - 1):
            y = gfsqr(y, p)
            if y not in s:
                break
            orb.append(y)
        if len(orb) == m and len(set(orb)) == m:
            s -= set(orb)
            s ^= {app('tr', p, min(orb, key=lambda z: z.id))}
    return s


def gfadd(a, b):
    key = ('+', a, b)
    r = _mm.get(key)
    if r is None:
        r = _mm[key] = summ(list(parts(a)) + list(parts(b)))
    return r


def gfsqr(a, p):
    key = ('q', a, p)
    r = _mm.get(key)
    if r is None:
        out = []
        for x in parts(a):
            if x.op == 'app' and x.a[0] == 'tr':
                out.append(x)
                continue
            k, d = mono(x, p)
            out.append(mkmono(cmul(k, k, p.a[1]) if isbc(p) else k, {q: 2 * e for q, e in d.items()}, p))
        r = _mm[key] = out[0] if len(out) == 1 else summ(out)
    return r


def gfmul(a, b, p):
    if a is ZERO_BN or b is ZERO_BN:
        return ZERO_BN
    if a is b:
        return gfsqr(a, p)
    A, B = parts(a), parts(b)
    if len(A) * len(B) > 64:
        return app('gfmul', p, ONE_BN, *[y for z in sorted(((a, 1), (b, 1)), key=lambda z: z[0].id) for y in z])
    out = []
    for x in A:
        kx, dx = mono(x, p)
        for y in B:
            ky, dy = mono(y, p)
            d = dict(dx)
            for q, e in dy.items():
                d[q] = d.get(q, 0) + e
            out.append(mkmono(cmul(kx, ky, p.a[1]) if isbc(p) else 1, d, p))
    return out[0] if len(out) == 1 else summ(out)


def gfinv(a, p):
    if len(parts(a)) > 1:
        return mkmono(1, {a: -1}, p)
    k, d = mono(a, p)
    if k == 0:
        return app('gfinv', p, a)
    return mkmono(cinv(k, p.a[1]) if isbc(p) else 1, {q: -e for q, e in d.items()}, p)


def trace(v, p):
    m = degree(p)
    r = v
    for i in range(m - 1):
        r = gfadd(gfsqr(r, p), v)
    return r


def bit01(x):
    """1-bit term of a field element known to be 0 or 1, else None"""
    b = c(0, 1)
    for y in parts(x):
        if isbc(y):
            if y.a[1] > 1:
                return None
            b = t.xor(b, c(y.a[1], 1))
        elif y.op == 'app' and y.a[0] == 'tr':
            b = t.xor(b, app('trbit', y.a[1], y.a[2], w=1))
        else:
            return None
    return b


t.BIT01.append(bit01)
