"""C10: the built-in domain parameters."""
import hashlib
import terms as t
from terms import c, app, isc, NULL
import models
from project import *
from checks.codec import curves, CURVES

# DSTU 4145-2002 annex G.1, polynomial basis: degree, middle exponents of the field polynomial, a, cofactor
PUBLISHED = {
    'uacurve0': (163, (7, 6, 3)), 'uacurve1': (167, (6,)), 'uacurve2': (173, (10, 2, 1)), 'uacurve3': (179, (4, 2, 1)), 'uacurve4': (191, (9,)),
    'uacurve5': (233, (9, 4, 1)), 'uacurve6': (257, (12,)), 'uacurve7': (307, (8, 4, 2)), 'uacurve8': (367, (21,)), 'uacurve9': (431, (5, 3, 1)),
}


def pmod(a, p, m):
    while a.bit_length() > m:
        a ^= p << (a.bit_length() - 1 - m)
    return a


def pmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        b >>= 1
    return r


SPREAD = [sum(((i >> k) & 1) << (2 * k) for k in range(8)) for i in range(256)]


def psqr(a):
    r, s = 0, 0
    while a:
        r |= SPREAD[a & 255] << s
        a >>= 8
        s += 16
    return r


def pdivmod(a, b):
    q = 0
    d = b.bit_length()
    while a.bit_length() >= d:
        s = a.bit_length() - d
        q ^= 1 << s
        a ^= b << s
    return q, a


def pgcd(a, b):
    while b:
        a, b = b, pdivmod(a, b)[1]
    return a


def pinv(a, p):
    r0, r1, s0, s1 = p, a, 0, 1
    while r1:
        q, r = pdivmod(r0, r1)
        r0, r1 = r1, r
        s0, s1 = s1, s0 ^ pmul(q, s1)
    return s0 if r0 == 1 else None


def irreducible(p):
    m = p.bit_length() - 1
    x = 2
    fs = [q for q in range(2, m + 1) if m % q == 0 and all(q % k for k in range(2, int(q ** .5) + 1))]
    y = x
    powers = {}
    for i in range(1, m + 1):
        y = pmod(psqr(y), p, m)
        powers[i] = y
    return powers[m] == x and all(pgcd(p, powers[m // q] ^ x) == 1 for q in fs)


def is_prime(n):
    if n < 4 or n % 2 == 0:
        return n in (2, 3)
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for i in range(40):
        a = int.from_bytes(hashlib.sha512(b'%d' % i).digest() * 8, 'big') % (n - 3) + 2
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


class Curve:
    def __init__(self, p, a, b):
        self.p, self.m, self.a, self.b = p, p.bit_length() - 1, a, b

    def mul_(self, x, y):
        return pmod(pmul(x, y), self.p, self.m)

    def on(self, P):
        x, y = P
        m = self.mul_
        return m(y, y) ^ m(x, y) == m(m(x, x), x) ^ m(self.a, m(x, x)) ^ self.b

    def add(self, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        if P[0] == Q[0]:
            if P[1] != Q[1] or P[0] == 0:
                return None
            l = P[0] ^ self.mul_(P[1], pinv(P[0], self.p))
            x = self.mul_(l, l) ^ l ^ self.a
            return x, self.mul_(P[0], P[0]) ^ self.mul_(l ^ 1, x)
        l = self.mul_(P[1] ^ Q[1], pinv(P[0] ^ Q[0], self.p))
        x = self.mul_(l, l) ^ l ^ P[0] ^ Q[0] ^ self.a
        return x, self.mul_(l, P[0] ^ x) ^ x ^ P[1]

    def mul(self, k, P):
        R = None
        for bit in bin(k)[2:]:
            R = self.add(R, R)
            if bit == '1':
                R = self.add(R, P)
        return R


def c10(ctx):
    cs = curves(ctx)
    where = 'dstulib/params.c: curve table'
    for nme in CURVES:
        ctx.scenario('standard curve ' + nme)
        g = cs.get(nme)
        if not ctx.obl('curve-available', g is not None, where, '%s cannot be selected' % nme):
            continue
        P, A, B, gen, N = g.a[1:6]
        const_ = all(x.op == 'app' and x.a[0] == 'bnc' for x in (P, A, B, N)) and gen.a[0] == 'paff' and all(x.a[0] == 'bnc' for x in gen.a[1:3])
        if not ctx.obl('curve-constants-literal', const_, where, '%s: parameters are not constants: %s' % (nme, t.show(g, 2)[:200])):
            continue
        p, a, b, n, gx, gy = (x.a[1] for x in (P, A, B, N, gen.a[1], gen.a[2]))
        deg, ex = PUBLISHED[nme]
        want = 1 << deg | 1 | sum(1 << e for e in ex)
        ctx.obl('published-field', p == want, where, '%s: the field polynomial is not the published one' % nme)
        if not ctx.obl('field-polynomial-irreducible', irreducible(p), where, '%s: the field polynomial is reducible' % nme):
            continue
        ctx.obl('coefficients-in-field', a in (0, 1) and 0 < b < 1 << deg and gx < 1 << deg and gy < 1 << deg, where, '%s: a coefficient is outside the field' % nme)
        E = Curve(p, a, b)
        if not ctx.obl('base-point-on-curve', E.on((gx, gy)), where, '%s: the base point is not on the curve' % nme):
            continue
        ctx.obl('order-prime', is_prime(n), where, '%s: the order is not prime' % nme)
        ctx.obl('order-annihilates-base-point', E.mul(n, (gx, gy)) is None, where, '%s: n times the base point is not the neutral element' % nme)
        import math
        h = 4 if a == 0 else 2
        ctx.obl('order-within-hasse-bound', abs(h * n - (2 ** deg + 1)) <= 2 * math.isqrt(2 ** deg) + 2, where,
                '%s: the order does not match the curve with cofactor %d' % (nme, h))
        emb = next((k for k in range(1, 33) if pow(2, deg * k, n) == 1), None)
        ctx.obl('no-weak-embedding', emb is None, where, '%s: the embedding degree is %s' % (nme, emb))
        fp = hashlib.sha256(('%x %x %x %x' % (b, n, gx, gy)).encode()).hexdigest()[:24]
        ctx.obl('published-constants', fp == FINGERPRINT.get(nme), where, '%s: b, n or the base point differ from the published values (%s)' % (nme, fp))
        other = [o for o in cs if o != nme and cs[o] is g]
        ctx.obl('curves-distinct', not other, where, '%s is the same curve as %s' % (nme, other))


# SHA-256 prefix of the hexadecimal b, n, Px, Py of each published curve
FINGERPRINT = {
    'uacurve0': '836e4f3b3092245b70152c6b',
    'uacurve1': '82b4cd1a9928d356623e974f',
    'uacurve2': 'd44eb700731db97f3ab16393',
    'uacurve3': 'fed2a3a1a7aae2d25ea2ae3c',
    'uacurve4': '7ec4083257706c62bffed774',
    'uacurve5': '1b7da9d9c9f68ffcbf11fbb5',
    'uacurve6': 'f7e6201b9f6f3886107734a5',
    'uacurve7': '1bffea9ff4d63aaa7d6c9a84',
    'uacurve8': 'fd18a29878ec1248810cefad',
    'uacurve9': 'a3a90b7edab4561f7955e31e',
}


CHECKS = {
    'C10': (c10, 'The curve each name selects is obtained by abstract interpretation of the selection control down to constants; rules of finite-field and elliptic-curve '
            'arithmetic are then evaluated on those constants (irreducibility, base point on curve, prime order, n*P = O, Hasse bound with the cofactor the expansion '
            'rule relies on, embedding degree, equality with the published values).'),
}
