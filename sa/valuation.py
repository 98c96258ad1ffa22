"""Separating valuations: two terms with different normal forms are only called different when
an assignment of their symbols gives them different values.  Terms are evaluated, never the program."""
import hashlib
import terms as t
from terms import _byid, unform


class Opaque(Exception):
    """the term contains an uninterpreted function: no valuation decides it"""


def _kids(x):
    op = x.op
    if op == 'lin':
        return [y for y, k in x.a[1]]
    if op == 'b':
        return [_byid[z >> 7] for b in x.a for z in b if z]
    if op in ('maj', 'band'):
        return [_byid[z >> 7] for i in x.a for z in unform(i) if z]
    if op == 'col':
        return [_byid[z >> 7] for i in x.a for z in unform(i) if z]
    if op == 'sel':
        return [x.a[0]] + [_byid[z >> 7] for i in x.a[1] for z in unform(i) if z]
    if op in ('ite', 'eq', 'ult', 'slt'):
        return list(x.a)
    if op == 'app' and x.a[0] in ('mul', 'udiv', 'urem', 'zx', 'sx', 'sdiv', 'srem', 'shl', 'lshr', 'ashr'):
        return list(x.a[1:])
    if op in ('c', 's'):
        return []
    raise Opaque(t.show(x, 3)[:200])


def evaluate(roots, env, dom=None):
    """values of the roots; env(sym) -> int"""
    seen = {}
    stack = list(roots)
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        ks = _kids(x)
        seen[x.id] = ks
        stack.extend(ks)
    val = {}

    def bit(b):
        r = 0
        for z in b:
            r ^= 1 if z == 0 else (val[z >> 7] >> (z & 127)) & 1
        return r
    fb = {}

    def fbit(i):
        r = fb.get(i)
        if r is None:
            r = fb[i] = bit(unform(i))
        return r

    def sv(v, w):
        return v - (1 << w) if v >> (w - 1) else v
    for i in sorted(seen):
        x = _byid[i]
        op = x.op
        m = (1 << x.w) - 1
        if op == 'c':
            v = x.a
        elif op == 's':
            v = env(x) & m
        elif op == 'lin':
            v = (x.a[0] + sum(k * val[y.id] for y, k in x.a[1])) & m
        elif op == 'b':
            v = 0
            for j, b in enumerate(x.a):
                if b:
                    v |= bit(b) << j
        elif op == 'maj':
            v = 1 if sum(fbit(k) for k in x.a) > 1 else 0
        elif op == 'band':
            v = fbit(x.a[0]) & fbit(x.a[1])
        elif op == 'col':
            v = x.a
        elif op == 'sel':
            ix = 0
            for j, k in enumerate(x.a[1]):
                ix |= fbit(k) << j
            v = fbit(val[x.a[0].id][ix])
        elif op == 'ite':
            v = val[x.a[1].id] if val[x.a[0].id] else val[x.a[2].id]
        elif op == 'eq':
            v = int(val[x.a[0].id] == val[x.a[1].id])
        elif op == 'ult':
            v = int(val[x.a[0].id] < val[x.a[1].id])
        elif op == 'slt':
            v = int(sv(val[x.a[0].id], x.a[0].w) < sv(val[x.a[1].id], x.a[1].w))
        else:
            f, ar = x.a[0], [val[y.id] for y in x.a[1:]]
            w = x.w
            if f == 'mul':
                v = ar[0] * ar[1] & m
            elif f == 'zx':
                v = ar[0]
            elif f == 'sx':
                v = sv(ar[0], x.a[1].w) & m
            elif f in ('udiv', 'urem'):
                if not ar[1]:
                    raise Opaque('division by zero')
                v = ar[0] // ar[1] if f == 'udiv' else ar[0] % ar[1]
            elif f in ('shl', 'lshr', 'ashr') and ar[1] < w:
                v = ar[0] << ar[1] & m if f == 'shl' else ar[0] >> ar[1] if f == 'lshr' else sv(ar[0], w) >> ar[1] & m
            else:
                raise Opaque(f)
        val[i] = v
    return [val[x.id] for x in roots]


def rnd(k):
    """k-th fixed pseudo-random assignment"""
    def env(s):
        return int.from_bytes(hashlib.sha256(('%d:%s' % (k, s.a)).encode()).digest(), 'little')
    return env


def separate(xs, ys, n=3, envs=(), ok=None):
    """('same', None) if identical terms; ('differ', i) with the index of a term an assignment separates; ('unknown', why) otherwise.
    ok(env): the assignment is admissible"""
    if len(xs) != len(ys):
        return 'differ', min(len(xs), len(ys))
    bad = [i for i, (a, b) in enumerate(zip(xs, ys)) if a is not b]
    if not bad:
        return 'same', None
    why = 'no separating assignment found'
    for env in list(envs) + [rnd(k) for k in range(n)]:
        try:
            u, v = evaluate([xs[i] for i in bad], env), evaluate([ys[i] for i in bad], env)
        except Opaque as e:
            why = 'uninterpreted: %s' % e
            continue
        for i, a, b in zip(bad, u, v):
            if a != b:
                return 'differ', i
    return 'unknown', why
