"""C20-C25: the key store library - container, PKCS#8, Key-6, JKS and PKCS#12 loading."""
import terms as t
from terms import c, sym, app, ptr, isc, NULL
import models
from models import newobj
from project import *
from checks.life import owned, pos
from checks import symm
from checks.symm import table_rows
from checks.codec import custom_ders, custom_group, irreducible_samples, check_private, subst, deg_of, fieldbits, px, py, mkbn, gf, gfadd, ZERO_BN, ONE_BN

KS = ('KeyStoreKeyNum', 'KeyStoreCertNum', 'KeyStoreGetKey', 'KeyStoreGetCert', 'KeyStoreFree')


def api(ctx, *names):
    for n in names:
        ctx.need(n in ctx.proj.mod.funcs, 'the library does not provide %s' % n)


def call1(ctx, m, fn, args, s, what):
    """single analysed outcome of an accessor"""
    outs = m.call_fn(fn, args, s)
    ctx.need(len(outs) == 1 or m.problems, '%s: %s has %d outcomes' % (what, fn, len(outs)))
    return outs[0] if outs else (None, None)


def srcof(s, p):
    if p is not None and p.op == 'p' and p.a[0] in s.mem and s.mem[p.a[0]].status != 'freed':
        return s.mem[p.a[0]].attrs.get('src')
    return None


def contents(ctx, m, s, ks, what):
    """(keys, certs) a caller sees through the public accessors, as (pointer, source) pairs"""
    res = []
    for num, get in ((KS[0], KS[2]), (KS[1], KS[3])):
        s, n = call1(ctx, m, num, [ks], s, what)
        if s is None or not isc(n):
            return s, None
        L = []
        for i in range(n.a):
            s, p = call1(ctx, m, get, [ks, c(i, 64)], s, what)
            if s is None:
                return None, None
            L.append((p, srcof(s, p)))
        for i in (n.a, n.a + 1, (1 << 64) - 1):
            s, p = call1(ctx, m, get, [ks, c(i, 64)], s, what)
            if s is None:
                return None, None
            ctx.obl('index-outside-gives-nothing', p is NULL, get, '%s: entry %d of %d is not refused' % (what, i, n.a), s)
        res.append(L)
    return s, res


def problems(ctx, m, rule, what):
    for pr in m.problems:
        ctx.obl(rule, False, pr[1], '%s: %s %s' % (what, pr[0], pr[2]), pr[4])
    m.problems.clear()


def release(ctx, m, s, ks, what):
    """a caller frees the store: everything the load allocated is gone, each object once"""
    m.cfg['faults'] = False
    for s2, _ in m.call_fn('KeyStoreFree', [ks], s):
        left = owned(s2)
        ctx.obl('free-releases-everything', not left, 'KeyStoreFree', '%s: %s is never released' % (
            what, ', '.join(sorted({'%s allocated at %s' % (r.typ or 'memory', r.site) for r in left}))[:300]), s2)


def mach(ctx, **kw):
    m = ctx.proj.machine(**dict(dict(keep='all', callevents=True, iconv='ascii', faults=False), **kw))
    by = {c(nid('dstu4145' + k), 32): ctx.proj.fn('ameth', k, 'free', 0) for k in ('le', 'be')}

    def fr(m_, s, r):
        # EVP_PKEY_free releases the key through the method registered for its type
        fn = by.get(r.attrs.get('type'))
        if fn and r.attrs['key'].op == 'p':
            p = obj(s, r.rid + '.freed', 'EVP_PKEY', type=r.attrs['type'], key=r.attrs['key'])
            outs = m_.call_fn(fn, [p], s)
            if len(outs) == 1 and outs[0][0] is not s:
                s.mem = outs[0][0].mem
    m.hooks['pkey_free'] = fr
    return m


# ------------------------------------------------------------------ C20 container
def c20(ctx):
    api(ctx, *KS, 'KeyStoreNew', 'KeyStoreAppend', 'KeyStoreSetKey', 'KeyStoreSetCert')
    N = (0, 1, 2, 3)
    jobs = [(container, (k, x)) for k in N for x in N]
    jobs += [(append, (a, b)) for a in ((0, 0), (1, 0), (0, 1), (2, 1)) for b in ((0, 0), (1, 0), (0, 1), (2, 3), (1, 1))]
    jobs += [(null_free, ())]
    ctx.par(jobs)


def fill(ctx, m, s, ks, tag, k, x, what):
    for typ, n, setter in (('EVP_PKEY', k, 'KeyStoreSetKey'), ('X509', x, 'KeyStoreSetCert')):
        for i in range(n):
            p = obj(s, '%s.%s%d' % (tag, typ, i), typ, owned=True, src=app('entry', tag, typ, i))
            s.w(p.a[0]).site = 'the caller (%s %d)' % (typ, i)
            s, _ = call1(ctx, m, setter, [ks, c(i, 64), p], s, what)
            if s is None:
                return None
    return s


def new(ctx, m, s, k, x, what):
    outs = m.call_fn('KeyStoreNew', [c(k, 64), c(x, 64)], s)
    ctx.obl('store-is-created', len(outs) != 1 or outs[0][1].op == 'p' or m.problems, 'KeyStoreNew', what + ': no store is created although nothing fails', outs[0][0] if outs else None)
    ctx.need(len(outs) == 1 or m.problems, what + ': creating a store has several outcomes')
    return outs[0] if outs else (None, None)


def check(ctx, m, s, ks, keys, certs, rule, what):
    s, got = contents(ctx, m, s, ks, what)
    if s is None:
        return None
    if not ctx.obl(rule, got is not None, 'KeyStoreKeyNum', what + ': the number of entries is not determined', s):
        return s
    for L, want, get, num in ((got[0], keys, KS[2], KS[0]), (got[1], certs, KS[3], KS[1])):
        ctx.obl(rule, len(L) == len(want), num, '%s: %d entries are reported, %d were put in' % (what, len(L), len(want)), s)
        for i, ((p, src), w) in enumerate(zip(L, want)):
            ctx.obl(rule, src is w if w is not None else p is NULL, get, '%s: entry %d is not the one put there' % (what, i), s)
    return s


@scen
def container(ctx, k, x):
    what = 'store of %d keys and %d certificates' % (k, x)
    ctx.scenario(what)
    m = mach(ctx)
    s, ks = new(ctx, m, m.initial(), k, x, what)
    if s is not None:
        s = check(ctx, m, s, ks, [None] * k, [None] * x, 'new-store-is-empty', what + ', new')
    if s is not None:
        e = s.fork()
        release(ctx, m, e, ks, what + ', never filled')
        s = fill(ctx, m, s, ks, 'e', k, x, what)
    if s is not None:
        s = check(ctx, m, s, ks, *[[app('entry', 'e', ty, i) for i in range(n)] for ty, n in (('EVP_PKEY', k), ('X509', x))], 'entries-in-order', what)
    if s is not None:
        release(ctx, m, s, ks, what)
    problems(ctx, m, 'container-memory', what)


@scen
def append(ctx, a, b):
    what = 'store of %d keys and %d certificates, %d and %d more appended' % (a + b)
    ctx.scenario(what)
    m = mach(ctx)
    s, to = new(ctx, m, m.initial(), *a, what)
    if s is not None:
        s = fill(ctx, m, s, to, 'to', *a, what)
    if s is not None:
        s, fr = new(ctx, m, s, *b, what)
    if s is not None:
        s = fill(ctx, m, s, fr, 'from', *b, what)
    if s is not None:
        outs = m.call_fn('KeyStoreAppend', [to, fr], s)
        for s, _ in outs:
            s = check(ctx, m, s, to, *[[app('entry', 'to', ty, i) for i in range(a[j])] + [app('entry', 'from', ty, i) for i in range(b[j])]
                                       for j, ty in enumerate(('EVP_PKEY', 'X509'))], 'append-keeps-order', what)
            if s is None:
                continue
            # the emptied store is released first, the other one stays whole
            for s2, _ in m.call_fn('KeyStoreFree', [fr], s):
                s2 = check(ctx, m, s2, to, *[[app('entry', 'to', ty, i) for i in range(a[j])] + [app('entry', 'from', ty, i) for i in range(b[j])]
                                             for j, ty in enumerate(('EVP_PKEY', 'X509'))], 'append-moves-ownership', what)
                if s2 is not None:
                    release(ctx, m, s2, to, what)
    problems(ctx, m, 'container-memory', what)


@scen
def null_free(ctx):
    what = 'release of no store'
    ctx.scenario(what)
    m = mach(ctx)
    outs = m.call_fn('KeyStoreFree', [NULL], m.initial())
    ctx.obl('free-of-nothing', bool(outs) and not m.problems, 'KeyStoreFree', what + ' is not harmless (the documented clean-up after a failed load)')
    m.problems.clear()


# ------------------------------------------------------------------ C25 PKCS#12
def leaf(st, m, typ, **attrs):
    """part of a parsed structure: lives and dies with it"""
    return newobj(m, st, typ, owned=False, child=1, borrowed='parsed container', **attrs)


def bagobj(m, st, shape, path, own, parts):
    kind = shape if isinstance(shape, str) else shape[0]
    src = app('bag', *path)
    n = {'key': 'keyBag', 'shr': 'pkcs8ShroudedKeyBag', 'cert': 'certBag', 'other': 'secretBag', 'crl': 'crlBag', 'safe': 'safeContentsBag'}[kind]
    attrs = dict(src=src, nid=c(nid(n), 32), bagnid=c(nid('x509Certificate'), 32))
    sub = []
    if kind == 'key':
        p8 = leaf(st, m, 'PKCS8_PRIV_KEY_INFO', src=app('p8of', src))
        attrs['p8inf'] = p8
        sub.append(p8.a[0])
    else:
        attrs['p8inf'] = NULL
    if kind == 'safe':
        items = tuple(bagobj(m, st, b, path + (i,), False, sub) for i, b in enumerate(shape[1]))
        sk = leaf(st, m, 'STACK', items=items)
        sub.append(sk.a[0])
        attrs['safes'] = sk
    else:
        attrs['safes'] = NULL
    if own:
        return newobj(m, st, 'PKCS12_SAFEBAG', parts=tuple(sub), **attrs)
    p = leaf(st, m, 'PKCS12_SAFEBAG', **attrs)
    parts += sub + [p.a[0]]
    return p


def unpacker(shape):
    """authenticated safes of the given shape"""
    def h(m, st, nm, args):
        if nm == 'PKCS12_unpack_authsafes':
            items = []
            for i, (ty, bags) in enumerate(shape):
                if ty == 'null':
                    items.append(NULL)
                    continue
                o = leaf(st, m, 'ASN1_OBJECT', nid=c(nid({'enc': 'pkcs7_encrypted', 'other': 'pkcs7_enveloped'}.get(ty, 'pkcs7_' + ty)), 32))
                p = newobj(m, st, 'PKCS7', size=c(40, 64), default='input', shape=i, parts=(o.a[0],))
                put(st, p, 24, o)
                items.append(p)
            return newobj(m, st, 'STACK', items=tuple(items))
        r = st.mem.get(args[0].a[0]) if args[0].op == 'p' else None
        i = r.attrs.get('shape') if r is not None else None
        if i is None or shape[i][0] != ('enc' if nm.endswith('encdata') else 'data'):
            return None
        if nm.endswith('encdata'):
            st.event('safe-password', args[1], args[2])
        return newobj(m, st, 'STACK', items=tuple(bagobj(m, st, b, (i, k), True, []) for k, b in enumerate(shape[i][1])))
    return h


def flat(shape, pw, n):
    keys, certs = [], []

    def go(b, path):
        src = app('bag', *path)
        if b == 'key':
            keys.append(app('pkey', app('p8of', src)))
        elif b == 'shr':
            keys.append(app('pkey', app('skey', src, pw, n)))
        elif b == 'cert':
            certs.append(app('cert', src))
        elif not isinstance(b, str):
            for i, x in enumerate(b[1]):
                go(x, path + (i,))
    for i, (ty, bags) in enumerate(shape):
        if ty in ('data', 'enc'):
            for k, b in enumerate(bags):
                go(b, (i, k))
    return keys, certs


def show(shape):
    f = lambda b: b if isinstance(b, str) else '(%s)' % ' '.join(map(f, b[1]))
    return '; '.join('%s[%s]' % (ty, ' '.join(map(f, bags))) for ty, bags in shape) or 'nothing'


def shapes(thorough):
    S = [[], [('data', [])], [('null', [])], [('other', [])], [('data', ['other'])], [('data', ['crl', 'key'])]]
    for ty in ('data', 'enc'):
        for b in ('key', 'shr', 'cert'):
            S.append([(ty, [b])])
        S += [[(ty, ['key', 'cert'])], [(ty, ['cert', 'shr'])], [(ty, ['shr', 'key'])], [(ty, ['cert', 'cert'])], [(ty, ['key', 'other', 'cert'])]]
    S += [[('data', ['key']), ('enc', ['cert'])], [('enc', ['cert', 'cert']), ('data', ['shr'])], [('other', []), ('data', ['key'])], [('null', []), ('enc', ['cert'])],
          [('data', ['shr']), ('data', ['shr'])], [('data', [('safe', ['key', 'cert'])])], [('data', ['key', ('safe', ['shr', 'cert']), 'cert'])],
          [('data', [('safe', [])])], [('enc', [('safe', ['cert']), 'cert'])], [('data', [('safe', ['key', ('safe', ['cert', 'shr'])])])],
          [('data', ['key']), ('other', []), ('enc', ['cert'])], [('data', ['key']), ('null', []), ('data', ['key'])]]
    S += [[(ty, []), ('data', ['key'])] for ty in ('signed', 'digest', 'signedAndEnveloped')] + [[('data', ['cert']), ('signed', [])], [('signed', [])]]
    if thorough:
        import itertools
        B = ('key', 'shr', 'cert', 'other')
        S += [[(ty, list(x))] for ty in ('data', 'enc') for x in itertools.product(B, repeat=3)]
        S += [[(a, [x]), (b, [y])] for a in ('data', 'enc', 'other') for b in ('data', 'enc', 'null') for x in B for y in B]
    return S


PW = 7


def p12_args(st, pw=PW):
    ks = cells(st, 'ks', 8)
    return [buf(st, 'in', sym('n', 64)), sym('n', 64), buf(st, 'pw', pw), c(pw, 64), ks]


@scen
def p12(ctx, shape, PW=PW):
    what = 'PKCS#12 with %s, password of %d bytes' % (show(shape), PW)
    ctx.scenario(what)
    m = mach(ctx, unpack=unpacker(shape))
    st = m.initial()
    st.urng[sym('n', 64)] = (1, 1 << 30)
    a = p12_args(st, PW)
    fn = 'parsePKCS12'
    keys, certs = flat(shape, a[2], c(PW, 32))
    good = 0
    for s, r in m.call_fn(fn, a, st):
        rej = failed(s)
        h = m.load(s, ptr('ks'), 64)
        if rej or not (keys or certs):
            why = 'although %s failed at %s' % rej[0][1:3] if rej else 'although there is nothing in it'
            ctx.obl('refused-container-fails', not pos(r, s), (rej[0][2] if rej else None) or fn, '%s: loading succeeds %s' % (what, why), s)
            ctx.obl('no-dangling-handle', h is NULL, fn, what + ': a failed load leaves a handle to a store behind', s)
            left = owned(s)
            ctx.obl('failed-load-releases-everything', not left, fn, '%s: %s is never released' % (what, ', '.join(sorted({'%s allocated at %s' % (x.typ or 'memory', x.site) for x in left}))[:300]), s)
            continue
        good += 1
        if not ctx.obl('whole-container-loads', pos(r, s) and h.op == 'p', fn, what + ': loading fails although every part can be read', s):
            continue
        macs = [e for e in s.events if e[0] == 'mac-ok']
        ctx.obl('mac-verified-with-the-password', any(e[1] is not None and e[1].a[0] == 'parse' and e[2] is a[2] and t.trunc(e[3], 32) is c(PW, 32) for e in macs), fn,
                what + ': the store is returned without a successful check of its MAC under the given password', s)
        ctx.obl('safe-decrypted-with-the-password', all(e[1] is a[2] and t.trunc(e[2], 32) is c(PW, 32) for e in s.events if e[0] == 'safe-password'), fn,
                what + ': an encrypted safe is opened with something else than the given password', s)
        s = check(ctx, m, s, h, keys, certs, 'entries-in-container-order', what)
        if s is not None:
            release(ctx, m, s, h, what)
    ctx.obl('whole-container-loads', good or not (keys or certs), fn, what + ': no analysed path loads it')
    problems(ctx, m, 'container-memory', what)


def c25(ctx):
    api(ctx, *KS, 'parsePKCS12')
    ctx.par([(p12, (s,)) for s in shapes(ctx.thorough)] + [(p12, ([('data', ['shr']), ('enc', ['cert', 'shr'])], n)) for n in (0, 1, 64)])


# ------------------------------------------------------------------ JKS
MAGIC = {'JKS': (0xfe, 0xed, 0xfe, 0xed), 'JCEKS': (0xce,) * 4}
PROTECTOR, PBES1 = '1.3.6.1.4.1.42.2.17.1.1', '1.3.6.1.4.1.42.2.19.1'
SHA = 20


def be(v, n):
    return [c(v >> 8 * (n - 1 - i) & 255, 8) for i in range(n)]


class Jks:
    """a store: entries ('key', secret length, certificates, algorithm) / ('cert',); all contents symbolic, the structure known"""

    def __init__(self, entries, magic='JKS', version=2, tail=SHA, alias=3, typ=5, cert=4, enc=6):
        self.n = 0
        self.out = []
        self.fields = []
        self.parts = []
        self.keys, self.certs = [], []
        self.typ, self.clen = typ, cert
        self.put([c(x, 8) for x in MAGIC[magic]] if isinstance(magic, str) else be(magic, 4))
        self.put(be(version, 4))
        self.length(len(entries), 4, 'number of entries')
        for e in entries:
            self.put(be({'key': 1, 'cert': 2}.get(e[0], e[0]), 4))
            self.text(alias, 'alias')
            self.fresh(8)
            if e[0] == 'key':
                off = len(self.out) + 4
                self.data(enc, 'encrypted key')
                self.keys.append((off, enc) + tuple(e[1:]))
                self.length(e[2], 4, 'number of certificates')
                for _ in range(e[2]):
                    self.cert()
            elif e[0] == 'cert':
                self.cert()
        self.body = len(self.out)
        self.fresh(tail)

    def put(self, bs):
        self.out += bs

    def fresh(self, n):
        self.out += [sym('J[%d]@input' % (len(self.out) + i), 8) for i in range(n)]

    def length(self, v, n, what):
        self.fields.append((len(self.out), n, v, what))
        self.put(be(v, n))

    def text(self, n, what):
        self.length(n, 2, 'length of the ' + what)
        self.fresh(n)

    def data(self, n, what):
        self.length(n, 4, 'length of the ' + what)
        self.fresh(n)

    def cert(self):
        self.text(self.typ, 'certificate type')
        off = len(self.out) + 4
        self.data(self.clen, 'certificate')
        self.certs.append(app('parse', 'X509', app('bytes', *self.out[off:off + self.clen])))

    def sig(self, off, n):
        return app('parse', 'X509_SIG', app('bytes', *self.out[off:off + n]))


def utf16(pw):
    return [y for x in pw for y in (c(0, 8), x)]


def sha(*parts):
    d = app('digest', sym('EVP_sha1', 64), app('bytes', *[x for p in parts for x in p]))
    return [app('dbyte', d, c(i, 32), w=8) for i in range(SHA)]


def protected(pw16, blob, n):
    """(secret, check bytes expected, check bytes stored) of a key protected the Sun way: salt, secret xor SHA-1 chain, SHA-1 check"""
    d, ks = blob[:SHA], []
    while len(ks) < n:
        d = sha(pw16, d)
        ks += d
    plain = [t.xor(x, y) for x, y in zip(blob[SHA:SHA + n], ks)]
    return plain, sha(pw16, plain), blob[SHA + n:SHA + n + SHA]


def protected_by(j, size=None):
    """parse hook: what the encrypted-key structures of the store contain"""
    by = {}
    for i, (off, n, L, nc, alg) in enumerate(j.keys):
        by[j.sig(off, n)] = (i, L, alg)

    def h(m, st, typ, p):
        if typ == 'PKCS8_PRIV_KEY_INFO':
            st.w(p.a[0]).attrs['attrs'] = NULL
        if typ != 'X509_SIG':
            return
        r = st.w(p.a[0])
        i, L, alg = by.get(r.attrs['src'], (9, 25, PROTECTOR))
        n = 2 * SHA + L if size is None else size
        o = leaf(st, m, 'ASN1_OBJECT', nid=app('oid', app('str', alg), w=32))
        al = leaf(st, m, 'X509_ALGOR', aobj=o)
        d = newobj(m, st, None, kind='heap', owned=False, size=c(n, 64), default='input', child=1, borrowed='X509_SIG')
        for k in range(n):
            st.w(d.a[0]).cells[k] = (sym('enc%d[%d]@input' % (i, k), 8), 0)
        q = leaf(st, m, 'ASN1_OCTET_STRING', size=c(24, 64))
        put(st, q, 0, c(n, 32))
        put(st, q, 4, c(4, 32))
        put(st, q, 8, d)
        r = st.w(p.a[0])
        r.attrs.update(algor=al, digest=q, parts=(o.a[0], al.a[0], d.a[0], q.a[0]))
    return h


def jks_args(st, bs, size=None, spw=3, kpw=4):
    data = obj(st, 'in', None, kind='arg', size=c(len(bs), 64), default='undef')
    for i, x in enumerate(bs):
        st.w('in').cells[i] = (x, 0)
    a = []
    for nm, n in (('spw', spw), ('kpw', kpw)):
        a += [buf(st, nm, n), c(n, 64)]
    return [data, c(len(bs), 64)] + a + [cells(st, 'ks', 8)]


JSHAPES = [[], [('cert',)], [('key', 25, 0, PROTECTOR)], [('key', 25, 1, PROTECTOR)], [('key', 20, 2, PROTECTOR)], [('cert',), ('key', 41, 1, PROTECTOR), ('cert',)],
           [('key', 1, 1, PROTECTOR), ('key', 25, 1, PROTECTOR)]]


def jshow(j):
    return ', '.join('certificate' if e[0] == 'cert' else 'key of %d bytes with %d certificates' % (e[1], e[2]) if e[0] == 'key' else 'entry of type %s' % e[0] for e in j) or 'no entries'


def equal_known(s, xs, ys):
    if len(xs) != len(ys):
        return False
    if all(x is y or s.decide(t.eq(x, y)) is True for x, y in zip(xs, ys)):
        return True
    x, y = sorted((app('bytes', *xs), app('bytes', *ys)), key=lambda v: v.id)
    return s.decide(t.eq(app('memcmp', x, y, w=32), c(0, 32))) is True


@scen
def jks(ctx, entries, magic, sizes=()):
    what = '%s store with %s%s' % (magic, jshow(entries), ''.join(', %s of %d bytes' % x for x in sizes))
    ctx.scenario(what)
    j = Jks(entries, magic, **dict(sizes))
    m = mach(ctx, parsed=protected_by(j))
    st = m.initial()
    a = jks_args(st, j.out)
    fn = 'parseJKS'
    spw, kpw = bts('spw', 0, 3), bts('kpw', 0, 4)
    want = sha(utf16(spw), [c(x, 8) for x in b'Mighty Aphrodite'], j.out[:j.body])
    keys = []
    for i, (off, n, L, nc, alg) in enumerate(j.keys):
        plain, exp, got = protected(utf16(kpw), [sym('enc%d[%d]@input' % (i, k), 8) for k in range(2 * SHA + L)], L)
        keys.append((app('pkey', app('parse', 'PKCS8_PRIV_KEY_INFO', app('bytes', *plain))), exp, got))
    good = 0
    for s, r in m.call_fn(fn, a, st):
        h = m.load(s, ptr('ks'), 64)
        if not pos(r, s):
            ctx.obl('no-dangling-handle', h is NULL, fn, what + ': a failed load leaves a handle to a store behind', s)
            left = owned(s)
            ctx.obl('failed-load-releases-everything', not left, fn, '%s: %s is never released' % (what, ', '.join(sorted({'%s allocated at %s' % (x.typ or 'memory', x.site) for x in left}))[:300]), s)
            continue
        rej = failed(s)
        ctx.obl('refused-part-fails', not rej, (rej[0][2] if rej else None) or fn, '%s: loading succeeds although %s failed' % (what, rej[0][1] if rej else ''), s)
        ctx.obl('store-integrity-verified', equal_known(s, want, j.out[j.body:]), fn, what + ': the store is returned although its keyed digest under the store password is not the one recorded', s)
        for k, (_, exp, got) in enumerate(keys):
            ctx.obl('key-integrity-verified', equal_known(s, exp, got), fn, '%s: key %d is returned although its check value under the key password does not match' % (what, k), s)
        good += 1
        if not ctx.obl('whole-container-loads', h.op == 'p', fn, what + ': no store is handed out', s):
            continue
        s = check(ctx, m, s, h, [k[0] for k in keys], [app_cert(x) for x in j.certs], 'entries-in-container-order', what)
        if s is not None:
            release(ctx, m, s, h, what)
    ctx.obl('whole-container-loads', good, fn, what + ': no analysed path loads it')
    problems(ctx, m, 'container-memory', what)


def app_cert(x):
    return x


@scen
def jks_refuse(ctx, what, bs, j, size=None):
    """structurally unusable data: nothing is read past the end and nothing is returned"""
    ctx.scenario(what)
    m = mach(ctx, parsed=protected_by(j, size))
    st = m.initial()
    fn = 'parseJKS'
    for s, r in m.call_fn(fn, jks_args(st, bs), st):
        ctx.obl('unusable-data-refused', not pos(r, s), fn, what + ' is accepted', s)
        ctx.obl('no-dangling-handle', m.load(s, ptr('ks'), 64) is NULL or pos(r, s), fn, what + ': a failed load leaves a handle to a store behind', s)
        left = owned(s)
        ctx.obl('failed-load-releases-everything', pos(r, s) or not left, fn, '%s: %s is never released' % (what, ', '.join(sorted({'%s allocated at %s' % (x.typ or 'memory', x.site) for x in left}))[:300]), s)
    problems(ctx, m, 'within-the-data', what)


def batch(ctx, jobs):
    for f, a in jobs:
        f(ctx, *a)


def c24(ctx):
    api(ctx, *KS, 'parseJKS')
    jobs = []
    base = [('cert',), ('key', 25, 1, PROTECTOR)]
    j = Jks(base)
    step = 1
    for k in range(0, len(j.out), step):
        jobs.append((jks_refuse, ('JKS store cut to %d of %d bytes' % (k, len(j.out)), j.out[:k], j)))
    for off, n, v, w in j.fields:
        top = (1 << 8 * n) - 1
        rest = len(j.out) - off - n
        if w.startswith('number'):
            for x in (v + 1, v + 2):
                bs = list(j.out)
                bs[off:off + n] = be(x, n)
                bs[j.body:] = [c(0, 8)] * SHA
                jobs.append((jks_refuse, ('JKS store with a %s of %d' % (w, x), bs, j)))
            continue
        for x in sorted({rest + 1, rest + SHA, top, top >> 1, top - 3, top - 20, (1 << 8 * n - 1)} - {v}):
            if x > top:
                continue
            bs = list(j.out)
            bs[off:off + n] = be(x, n)
            jobs.append((jks_refuse, ('JKS store with a %s of %d' % (w, x), bs, j)))
    for sz in (0, 1, 19, 20, 21, 39, 40):
        jj = Jks([('key', 25, 0, PROTECTOR)])
        jobs.append((jks_refuse, ('JKS store with a protected key of %d bytes' % sz, jj.out, jj, sz)))
    for nm, jj in (('of an unknown kind', Jks(base, magic=0x12345678)), ('with a byte-swapped signature', Jks(base, magic=0xedfeedfe)), ('of version 1', Jks(base, version=1)), ('of version 3', Jks(base, version=3)),
                   ('with an entry of type 3', Jks([(3,)])), ('with an entry of type 0', Jks([(0,)])), ('with a PBES1 key', Jks([('key', 25, 0, PBES1)]))):
        jobs.append((jks_refuse, ('store ' + nm, jj.out, jj)))
    ctx.par([(batch, (jobs[i::16],)) for i in range(16)])


def c23(ctx):
    api(ctx, *KS, 'parseJKS')
    both = [('key', 25, 1, PROTECTOR), ('cert',)]
    ctx.par([(jks, (e, mg)) for e in JSHAPES for mg in MAGIC] + [(jks, (both, 'JKS', ((k, n),))) for k, ns in (('alias', (0, 255, 256, 515)), ('typ', (0, 256, 300)), ('cert', (1, 255, 256, 700)), ('enc', (256, 300))) for n in ns])


# ------------------------------------------------------------------ C22 PKCS#8 with attributes
CURVE_OID, KEY_OID = '1.3.6.1.4.1.19398.1.1.2.2', '1.3.6.1.4.1.19398.1.1.2.3'
OCT, BITS, SEQ, INT = 4, 3, 16, 2


def attrstack(m, st, attrs, parts):
    """attributes of a parsed PKCS#8 structure: list of (OID, [(ASN.1 type, content)])"""
    items = []
    for k, (oid, vals) in enumerate(attrs):
        vs = []
        for i, (ty, body) in enumerate(vals):
            v = leaf(st, m, 'ASN1_TYPE', atype=c(ty, 32))
            parts.append(v.a[0])
            if ty == SEQ:
                st.w(v.a[0]).attrs['der'] = body
                st.w(v.a[0]).attrs['ptr'] = NULL
            else:
                d = newobj(m, st, None, kind='heap', owned=False, size=c(len(body), 64), default='input', child=1, borrowed='PKCS8_PRIV_KEY_INFO')
                for j, x in enumerate(body):
                    st.w(d.a[0]).cells[j] = (x, 0)
                q = leaf(st, m, 'ASN1_STRING', size=c(24, 64))
                put(st, q, 0, c(len(body), 32))
                put(st, q, 4, c(ty, 32))
                put(st, q, 8, d)
                st.w(v.a[0]).attrs['ptr'] = q
                parts += [d.a[0], q.a[0]]
            vs.append(v)
        o = leaf(st, m, 'ASN1_OBJECT', nid=app('oid', app('str', oid), w=32))
        x = leaf(st, m, 'X509_ATTRIBUTE', object=o, values=tuple(vs))
        parts += [o.a[0], x.a[0]]
        items.append(x)
    sk = leaf(st, m, 'STACK', items=tuple(items))
    parts.append(sk.a[0])
    return sk


def with_attrs(attrs):
    def h(m, st, typ, p):
        if typ == 'PKCS8_PRIV_KEY_INFO':
            parts = []
            sk = NULL if attrs is None else attrstack(m, st, attrs, parts)
            st.w(p.a[0]).attrs.update(attrs=sk, parts=tuple(parts))
    return h


def mirrored(bs):
    """private value of a key attribute: the bits of the whole string in reverse order, most significant first"""
    return [t.mkb(tuple(reversed(t.bits(x)))) for x in reversed(bs)]


def kbytes(n, nm='K'):
    return [sym('%s[%d]@input' % (nm, i), 8) for i in range(n)]


def curve_specs(ctx, g):
    """[(attribute value, facts under which the encoder describes the curve this way)]"""
    return [(attr_spec(d), f) for n, d, f in custom_ders(ctx, 'be', g)]


def attr_spec(d):
    return app('d:S', 'DSTU_AttrCurveSpec', d.a[1].a[2].a[3], *[app('d:oct', c(64, 32), app('bytes', *kbytes(64, x))) for x in ('dke', 'dke1')])


def p8_args(st):
    return [buf(st, 'in', sym('n', 64)), sym('n', 64), cells(st, 'ks', 8)]


def p8_cfg(g, **kw):
    deg = deg_of(g)
    fb = fieldbits(deg)
    gp = g.a[4]
    return dict(dict(degree=lambda gg: deg, bnbits=lambda v: (1, deg) if v is g.a[3] else fb(v), curvepts=[(px(gp), py(gp), g.a[1], g.a[2], g.a[3])]), **kw)


@scen
def p8(ctx, what, attrs, g, klen, second, facts=None):
    """second: True - the second key is there unless a step fails, False - there is none, None - may be refused"""
    what = 'PKCS#8 with ' + what
    ctx.scenario(what)
    m = mach(ctx, parsed=with_attrs(attrs), **p8_cfg(g))
    st = m.initial()
    n = sym('n', 64)
    st.urng[n] = (1, 1 << 30)
    a = p8_args(st)
    st.assume(t.beq(gf.trace(px(g.a[4]), g.a[1]), gf.trace(g.a[2], g.a[1])), True)
    for k, v in (facts or {}).items():
        st.assume(k, v)
    st.assume(t.beq(g.a[3], ZERO_BN), False)
    want1 = app('pkey', app('parse', 'PKCS8_PRIV_KEY_INFO', m.blob(st, a[0], t.sext(n, 64))))
    fn = 'keysFromPKCS8'
    seen = 0
    for s, r in m.call_fn(fn, a, st):
        rej = failed(s)
        h = m.load(s, ptr('ks'), 64)
        left = owned(s)
        if not pos(r, s):
            ctx.obl('refuse-only-unreadable', any(e[1] in ('d2i_PKCS8_PRIV_KEY_INFO', 'EVP_PKCS82PKEY') for e in rej) or any(e[0] == 'fail' for e in rej), fn, what + ': a readable key is refused', s)
            ctx.obl('no-dangling-handle', h is NULL, fn, what + ': a failed load leaves a handle to a store behind', s)
            ctx.obl('failed-load-releases-everything', not left, fn, '%s: %s is never released' % (what, ', '.join(sorted({'%s allocated at %s' % (x.typ or 'memory', x.site) for x in left}))[:300]), s)
            continue
        bad = [e for e in rej if e[1] in ('d2i_PKCS8_PRIV_KEY_INFO', 'EVP_PKCS82PKEY')]
        ctx.obl('refused-part-fails', not bad and h.op == 'p', fn, what + ': loading succeeds without a key', s)
        if bad or h.op != 'p':
            continue
        s, got = contents(ctx, m, s, h, what)
        if s is None or got is None:
            continue
        keys, certs = got
        ctx.obl('first-key-is-the-container-key', bool(keys) and keys[0][1] is want1, fn, what + ': the first key is not the one in the PKCS#8 structure', s)
        ctx.obl('no-other-entries', len(keys) in (1, 2) and not certs, fn, '%s: %d keys and %d certificates' % (what, len(keys), len(certs)), s)
        if len(keys) == 2:
            seen += 1
            ctx.obl('second-key-from-attributes', second is not False, fn, what + ': a second key appears', s)
            if not ctx.obl('second-key-from-attributes', keys[1][0].op == 'p', fn, what + ': the second entry holds no key', s):
                continue
            check_private(ctx, m, s, keys[1][0].a[0], what, fn, 'le', g, mkbn(m, s, app('bytes', *mirrored(kbytes(klen)))), False) if second is not False else None
        elif second:
            soft = [e for e in s.events if e[0] in ('fail', 'reject', 'soft')]
            degenerate = any(s.decide(t.beq(v, ZERO_BN)) is True for v in (gfadd(px(g.a[4]), ONE_BN), px(g.a[4])))
            ctx.obl('second-key-from-attributes', bool(soft) or degenerate, fn, what + ': the key described by the attributes is missing', s)
        release(ctx, m, s, h, what)
    if second:
        ctx.obl('second-key-from-attributes', seen > 0, fn, what + ': no analysed path yields the key described by the attributes')
    problems(ctx, m, 'container-memory', what)


def c22(ctx):
    api(ctx, *KS, 'keysFromPKCS8')
    jobs = []
    for deg, ex in irreducible_samples():
        for a in (0, 1):
            g = custom_group(deg, ex, a)
            L = (deg + 7) // 8
            nm = 'a curve of degree %d (%d middle terms, a=%d)' % (deg, len(ex), a)
            for sp, fs in curve_specs(ctx, g):
                if any(v and k is t.beq(px(g.a[4]), ZERO_BN) for k, v in fs.items()):
                    continue        # a base point with x = 0 has order two: no key curve
                jobs.append((p8, ('attributes for %s' % nm, [(CURVE_OID, [(SEQ, sp)]), (KEY_OID, [(BITS, kbytes(L))])], g, L, True, fs)))
    g = custom_group(163, [7, 6, 3], 1)
    sp, fs = curve_specs(ctx, g)[0]
    L = 21
    cv, ky = (CURVE_OID, [(SEQ, sp)]), (KEY_OID, [(BITS, kbytes(L))])
    other = ('1.3.6.1.4.1.19398.1.1.2.4', [(OCT, kbytes(4, 'o'))])
    for what, at, kl, sec in (
            ('no attributes', None, L, False), ('an empty attribute set', [], L, False), ('only a curve attribute', [cv], L, False), ('only a key attribute', [ky], L, False),
            ('unrelated attributes', [other, other], L, False), ('key before curve', [ky, cv], L, True), ('unrelated attributes around', [other, ky, other, cv, other], L, True),
            ('the key as octet string', [cv, (KEY_OID, [(OCT, kbytes(L))])], L, True), ('a short key', [cv, (KEY_OID, [(BITS, kbytes(3))])], 3, True),
            ('a key value of another type first', [cv, (KEY_OID, [(INT, kbytes(L, 'x')), (OCT, kbytes(L))])], L, True),
            ('a key attribute of another type', [cv, (KEY_OID, [(INT, kbytes(L))])], L, False), ('a key attribute without values', [cv, (KEY_OID, [])], L, False),
            ('a curve attribute without values', [(CURVE_OID, []), ky], L, False), ('an empty key attribute', [cv, (KEY_OID, [(OCT, [])])], 0, False),
            ('a curve value of another type first', [(CURVE_OID, [(OCT, kbytes(4, 'y')), (SEQ, sp)]), ky], L, True),
            ('a curve attribute that is no sequence', [(CURVE_OID, [(OCT, kbytes(4, 'y'))]), ky], L, False),
            ('a curve attribute of another structure', [(CURVE_OID, [(SEQ, app('d:S', 'x', app('d:oct', c(4, 32), app('bytes', *kbytes(4, 'y')))))]), ky], L, False)):
        jobs.append((p8, (what, at, g, kl, sec, fs)))
    spec = sp.a[2]
    for what, pth, new in (('degree', (2, 2), app('d:int', app('E'))), ('first exponent', (2, 3, 3, 2), app('d:int', app('E'))), ('second exponent', (2, 3, 3, 3), app('d:int', app('E'))),
                           ('third exponent', (2, 3, 3, 4), app('d:int', app('E'))), ('coefficient a', (3,), app('d:int', app('AA'))), ('order', (5,), app('d:int', app('NN'))),
                           ('coefficient b', (4,), app('d:oct', c(5, 32), app('bytes', *kbytes(5, 'b')))), ('base point', (6,), app('d:oct', c(21, 32), app('bytes', *kbytes(21, 'bp')))),
                           ('empty base point', (6,), app('d:oct', c(0, 32), app('bytes'))), ('long base point', (6,), app('d:oct', c(60, 32), app('bytes', *kbytes(60, 'bp'))))):
        try:
            ns = subst(spec, pth, new)
        except Exception:
            continue
        jobs.append((p8_any, ('any %s in the curve attribute' % what, [(CURVE_OID, [(SEQ, app('d:S', 'DSTU_AttrCurveSpec', ns, *sp.a[3:]))]), ky], g)))
    ctx.par(jobs)


@scen
def p8_any(ctx, what, attrs, g):
    """hostile curve descriptions: the first key is unaffected, nothing leaks or crashes"""
    what = 'PKCS#8 with ' + what
    ctx.scenario(what)
    m = mach(ctx, parsed=with_attrs(attrs), **p8_cfg(g))
    st = m.initial()
    n = sym('n', 64)
    st.urng[n] = (1, 1 << 30)
    a = p8_args(st)
    want1 = app('pkey', app('parse', 'PKCS8_PRIV_KEY_INFO', m.blob(st, a[0], t.sext(n, 64))))
    fn = 'keysFromPKCS8'
    for s, r in m.call_fn(fn, a, st):
        h = m.load(s, ptr('ks'), 64)
        left = owned(s)
        if pos(r, s) and h.op == 'p':
            s, got = contents(ctx, m, s, h, what)
            if s is None or got is None:
                continue
            ctx.obl('first-key-is-the-container-key', bool(got[0]) and got[0][0][1] is want1, fn, what + ': the first key is not the one in the PKCS#8 structure', s)
            release(ctx, m, s, h, what)
        else:
            ctx.obl('failed-load-releases-everything', not left, fn, '%s: %s is never released' % (what, ', '.join(sorted({'%s allocated at %s' % (x.typ or 'memory', x.site) for x in left}))[:300]), s)
    problems(ctx, m, 'container-memory', what)


# ------------------------------------------------------------------ C21 Key-6
K6OID, PARAMS_AT, HASH_STATE = '1.3.6.1.4.1.19398.1.1.1.2', 64, [(0, 8), (16, 100)]
DEC = list(range(8)) + list(range(7, -1, -1)) * 3


class Gost:
    """the cipher and hash primitives as functions of everything they read; the digest and cipher checks decide what they compute"""

    def __init__(self, m):
        self.m, self.memo, self.hashed = m, {}, {}
        for n in ('unpack_sbox', 'gost_init', 'gost_key', 'gost_dec', 'hash_block', 'finish_hash'):
            if n in m.mod.funcs:
                m.override[n] = getattr(self, n)

    def out(self, key, n):
        if key not in self.memo:
            i = len(self.memo)
            self.memo[key] = [sym('gost%d[%d]' % (i, k), 8) for k in range(n)]
        return self.memo[key]

    def get(self, st, p, n):
        bs = self.m.bytes_at(st, p, n)
        if bs is None:
            raise AnalysisBroken('bytes read by a cipher primitive are not tracked at ' + str(self.m.site()))
        return tuple(bs)

    def put(self, st, p, bs):
        self.m.put_bytes(st, p, list(bs))

    def unpack_sbox(self, m, st, a):
        k = self.get(st, a[0], 64)
        if k is None:
            return []
        if ('unpack', k) not in self.memo:
            f = m.override.pop('unpack_sbox')
            outs = m.call_fn('unpack_sbox', a, st)
            m.override['unpack_sbox'] = f
            if len(outs) == 1:
                bs = self.get(outs[0][0], a[1], 128)
                if bs is not None:
                    self.memo['unpack', k] = bs
            return outs
        self.put(st, a[1], self.memo['unpack', k])
        return [(st, None)]

    def gost_init(self, m, st, a):
        k = self.get(st, a[1], 128)
        if k is None:
            return []
        self.put(st, t.add(a[0], c(PARAMS_AT, 64)), self.out(('init', k), 8))
        return [(st, None)]

    def gost_key(self, m, st, a):
        k = self.get(st, a[1], 32)
        if k is None:
            return []
        self.put(st, a[0], self.out(('key', k), 8))
        return [(st, None)]

    def gost_dec(self, m, st, a):
        n = a[3]
        if not isc(n):
            raise AnalysisBroken('number of decrypted blocks unknown')
        k, s = self.get(st, a[0], 8), self.get(st, t.add(a[0], c(PARAMS_AT, 64)), 8)
        for i in range(t.sval(n)):
            b = self.get(st, t.add(a[1], c(8 * i, 64)), 8)
            if k is None or s is None or b is None:
                return []
            self.put(st, t.add(a[2], c(8 * i, 64)), self.out(('dec', s, k, b), 8))
        return [(st, None)]

    def state(self, st, p):
        k = ()
        for o, n in HASH_STATE:
            bs = self.get(st, t.add(p, c(o, 64)), n)
            if bs is None:
                return None
            k += bs
        return k

    def sbox_of(self, st, p):
        q = self.m.load(st, t.add(p, c(8, 64)), 64)
        return None if q is None else self.get(st, t.add(q, c(PARAMS_AT, 64)), 8), q

    def hash_block(self, m, st, a):
        if not isc(a[2]):
            return m.havoc_call(st, 'hash_block', a)
        k, bs = self.state(st, a[0]), self.get(st, a[1], a[2].a) if a[2].a else ()
        sb, q = self.sbox_of(st, a[0])
        if k is None or bs is None or sb is None:
            return []
        if bs:
            init, data, box = self.hashed.get(k, (k, (), sb))
            mark = tuple(self.out(('hash', init, data + bs, box, sb), 8)) + tuple([c(0, 8)] * 100)
            self.hashed[mark] = (init, data + bs, sb)
            self.put(st, a[0], mark[:8])
            self.put(st, t.add(a[0], c(16, 64)), mark[8:])
            self.put(st, q, self.out(('key after', mark), 8))
        return [(st, c(1, 32))]

    def finish_hash(self, m, st, a):
        k = self.state(st, a[0])
        sb, q = self.sbox_of(st, a[0])
        if k is None or sb is None:
            return []
        self.put(st, a[1], self.digest(k, sb))
        return [(st, c(1, 32))]

    def digest(self, k, sb):
        return self.out(('fin', self.hashed.get(k, (k, ()))[:2], sb), 32)

    def hash(self, box, data):
        """digest of the data from the all-zero state under the table"""
        zero = tuple([c(0, 8)] * 108)
        sb = tuple(self.out(('init', box), 8))
        return self.out(('fin', (zero, tuple(data)), sb), 32)


def oct_(bs):
    return app('d:oct', c(len(bs), 32), app('bytes', *bs))


def key6_der(data, pad, oid=K6OID, mac=4):
    return app('d:S', 'IITStore', app('d:S', 'IITHeader', app('d:obj', app('oid', app('str', oid), w=32)),
               app('d:S', 'IITParams', oct_(bts('mac', 0, mac)), oct_(pad) if pad is not None else app('absent'))), oct_(data))


def bs_(nm, n):
    return [sym('%s[%d]@input' % (nm, i), 8) for i in range(n)]



def cellmem(st, rid, bs):
    p = obj(st, rid, None, kind='arg', size=c(len(bs), 64), default='undef')
    for i, b in enumerate(bs):
        st.w(rid).cells[i] = (b, 0)
    return p


@scen
def key6(ctx, npw, nd, npad, oid=K6OID, kind=None):
    what = 'Key-6 container with %d bytes of data and %s, password of %d bytes%s' % (
        nd, 'no tail' if npad is None else 'a tail of %d bytes' % npad, npw, '' if oid == K6OID else ', content type %s' % oid)
    ctx.scenario(what)
    fn = 'parseKey6'
    n = nd + (npad or 0)
    m = mach(ctx, parsed=with_attrs(None), max_steps=20000000)
    G = Gost(m)
    st = m.initial()
    data, pad, pw = bs_('data', nd), bs_('pad', npad or 0), bs_('pw', npw)
    d = key6_der(data, pad if npad is not None else None, oid)
    size = sym('n', 64)
    st.urng[size] = (1, 1 << 30)
    inp = buf(st, 'in', size)
    st.w('in').attrs['blob'] = (size, app('der', d))
    a = [inp, size, cellmem(st, 'pw', pw), c(npw, 64), cells(st, 'ks', 8)]
    outs = m.call_fn(fn, a, st)
    box = tuple(t.zext(x, 8) for row in reversed(table_rows(dflt())) for x in row)
    key = G.hash(box, pw)
    for _ in range(9999):
        key = G.hash(box, key)
    s_, k_ = tuple(G.out(('init', box), 8)), tuple(G.out(('key', tuple(key)), 8))
    plain = []
    src = data + pad
    for i in range(0, n - n % 8, 8):
        plain += G.out(('dec', s_, k_, tuple(src[i:i + 8])), 8)
    good = 0
    for s, r in outs:
        h = m.load(s, ptr('ks'), 64)
        rej = failed(s)
        if not pos(r, s):
            ctx.obl('no-dangling-handle', h is NULL, fn, what + ': a failed load leaves a handle to a store behind', s)
            left = owned(s)
            ctx.obl('failed-load-releases-everything', not left, fn, '%s: %s is never released' % (what, ', '.join(sorted({'%s allocated at %s' % (x.typ or 'memory', x.site) for x in left}))[:300]), s)
            ctx.obl('refuse-only-unreadable', bool(rej) or oid != K6OID, fn, what + ': a well formed container is refused', s)
            continue
        good += 1
        ctx.obl('other-content-refused', oid == K6OID, fn, what + ': a container of another type is decrypted', s)
        ctx.obl('refused-part-fails', not rej and h.op == 'p', fn, what + ': loading succeeds without a key', s)
        if h.op != 'p':
            continue
        s, got = contents(ctx, m, s, h, what)
        if s is None or got is None:
            continue
        keys, certs = got
        x = keys[0][1] if keys else None
        b = x.a[1].a[2] if x is not None and x.op == 'app' and x.a[0] == 'pkey' and x.a[1].op == 'app' and x.a[1].a[:2] == ('parse', 'PKCS8_PRIV_KEY_INFO') else None
        ctx.obl('one-key-no-certificates', len(keys) == 1 and not certs, fn, '%s: %d keys and %d certificates' % (what, len(keys), len(certs)), s)
        ok = b is not None and b.op == 'app' and b.a[0] == 'bytes'
        ctx.obl('key-is-decrypted-data', ok, fn, what + ': the key is not parsed from the decrypted data', s)
        if ok:
            ctx.obl('key-is-decrypted-data', list(b.a[1:1 + len(plain)]) == plain, fn, what + ': the parsed bytes are not the decryption, under the key derived from the password, of data and tail', s)
            ctx.obl('key-is-decrypted-data', all(isc(y) or 'undef' not in str(y) for y in b.a[1 + len(plain):]), fn, what + ': bytes after the decrypted data are not initialised', s)
        release(ctx, m, s, h, what)
    if oid == K6OID:
        ctx.obl('container-loads', good, fn, what + ': no analysed path loads it')
    problems(ctx, m, 'container-memory', what)


@scen
def key6_any(ctx):
    what = 'arbitrary bytes read as a Key-6 container'
    ctx.scenario(what)
    fn = 'parseKey6'
    m = mach(ctx, d2i_reject=True)
    Gost(m)
    st = m.initial()
    size = sym('n', 64)
    st.urng[size] = (0, 1 << 30)
    a = [buf(st, 'in', size), size, buf(st, 'pw', 4), c(4, 64), cells(st, 'ks', 8)]
    for s, r in m.call_fn(fn, a, st):
        ctx.obl('unreadable-refused', not pos(r, s), fn, what + ': accepted without being a Key-6 structure', s)
        ctx.obl('failed-load-releases-everything', not owned(s), fn, what + ': memory is never released', s)
    problems(ctx, m, 'container-memory', what)


@scen
def ecb(ctx, n):
    what = 'decryption of %d independent blocks' % n
    ctx.scenario(what)
    m = ctx.proj.machine(keep='all', max_steps=40000000)
    st = m.initial()
    key, data = bs_('KEY', 32), bs_('D', 8 * n)
    rows = table_rows(dflt())
    box = obj(st, 'box', None, kind='arg', size=c(128, 64), default='undef')
    for i, x in enumerate(x for row in reversed(rows) for x in row):
        st.w('box').cells[i] = (t.zext(x, 8), 0)
    cx = obj(st, 'cx', None, kind='arg', size=c(0x2000, 64), default='input')
    out = obj(st, 'out', None, kind='arg', size=c(8 * n, 64), default='undef')
    ss = [st]
    for fn, a in (('gost_init', [cx, box]), ('gost_key', [cx, cellmem(st, 'key', key)]), ('gost_dec', [cx, cellmem(st, 'src', data), out, c(n, 32)])):
        ss = [s2 for s in ss for s2, _ in m.call_fn(fn, a, s) if not failed(s2)]
    for s in ss:
        want = []
        for i in range(n):
            want += symm.g_block(rows, key, data[8 * i:8 * i + 8], DEC)
        symm.same(ctx, 'block-decryption', [m.load_at(s, s.mem['out'], i, 1, 8) for i in range(8 * n)], want, 'gost_dec', what + ' differs from GOST 28147-89 decryption', s)
    ctx.need(ss or m.problems, what + ': no analysable path')
    problems(ctx, m, 'container-memory', what)


def c21(ctx):
    api(ctx, *KS, 'parseKey6')
    jobs = [(key6, x) for x in ((4, 40, 8), (1, 48, None), (33, 24, 16), (32, 64, 3), (31, 8, 0), (8, 13, None), (8, 23, 1), (64, 104, 5), (1, 1, None), (4, 16, 0))]
    if ctx.thorough:
        jobs += [(key6, (p, d, q)) for p in (1, 2, 16, 40, 63, 65) for d in (7, 8, 9, 15, 200) for q in (None, 0, 1, 7, 8)]
    jobs += [(key6, (4, 40, 8, o)) for o in ('1.3.6.1.4.1.19398.1.1.1.3', '1.3.6.1.4.1.19398.1.1.1', '1.2.840.113549.1.7.1')]
    jobs += [(key6_any, ())] + [(ecb, (n,)) for n in ((1, 2) if not ctx.thorough else (1, 2, 3))]
    ctx.par(jobs)


# ------------------------------------------------------------------ C26 failing steps while loading
FCLS = {'P': 'a step fails', 'A': 'an allocation fails'}


def loads(ctx):
    """name -> setup(cfg) = (machine, state, function, arguments, keys, certificates, keys that must be there at least)"""
    def pk12(shape):
        def f(**kw):
            m = mach(ctx, unpack=unpacker(shape), **kw)
            st = m.initial()
            st.urng[sym('n', 64)] = (1, 1 << 30)
            a = p12_args(st)
            k, x = flat(shape, a[2], c(PW, 32))
            return m, st, 'parsePKCS12', a, k, x, len(k)
        return f

    def jk(entries):
        def f(**kw):
            j = Jks(entries)
            m = mach(ctx, parsed=protected_by(j), **kw)
            st = m.initial()
            a = jks_args(st, j.out)
            ks = []
            for i, (off, n, L, nc, alg) in enumerate(j.keys):
                plain = protected(utf16(bts('kpw', 0, 4)), bs_('enc%d' % i, 2 * SHA + L), L)[0]
                ks.append(app('pkey', app('parse', 'PKCS8_PRIV_KEY_INFO', app('bytes', *plain))))
            return m, st, 'parseJKS', a, ks, [app_cert(x) for x in j.certs], len(ks)
        return f

    def k6(**kw):
        m = mach(ctx, parsed=with_attrs(None), max_steps=20000000, **kw)
        Gost(m)
        st = m.initial()
        size = sym('n', 64)
        st.urng[size] = (1, 1 << 30)
        inp = buf(st, 'in', size)
        st.w('in').attrs['blob'] = (size, app('der', key6_der(bs_('data', 24), bs_('pad', 8))))
        return m, st, 'parseKey6', [inp, size, cellmem(st, 'pw', bs_('pw', 4)), c(4, 64), cells(st, 'ks', 8)], [None], [], 1

    def pk8(what):
        def f(**kw):
            deg, ex, a_ = 163, [7, 6, 3], 1
            if what == 'trinomial':
                deg, ex, a_ = 167, [6], 0
            g = custom_group(deg, ex, a_)
            sp, fs = curve_specs(ctx, g)[0]
            at = None if what == 'plain' else [(CURVE_OID, [(SEQ, sp)]), (KEY_OID, [(BITS, kbytes((deg + 7) // 8))])]
            m = mach(ctx, parsed=with_attrs(at), **dict(p8_cfg(g), **kw))
            st = m.initial()
            n = sym('n', 64)
            st.urng[n] = (1, 1 << 30)
            a = p8_args(st)
            st.assume(t.beq(gf.trace(px(g.a[4]), g.a[1]), gf.trace(g.a[2], g.a[1])), True)
            for k, v in fs.items():
                st.assume(k, v)
            st.assume(t.beq(g.a[3], ZERO_BN), False)
            first = app('pkey', app('parse', 'PKCS8_PRIV_KEY_INFO', m.blob(st, a[0], t.sext(n, 64))))
            return m, st, 'keysFromPKCS8', a, [first] + ([None] if at else []), [], 1
        return f
    out = {'PKCS#8 without attributes': pk8('plain'), 'PKCS#8 with attributes, trinomial': pk8('trinomial'), 'PKCS#8 with attributes, pentanomial': pk8('pentanomial'), 'Key-6': k6}
    for s in ([('data', ['key', 'cert', 'shr'])], [('enc', ['shr', 'cert']), ('data', ['key'])], [('data', [('safe', ['shr', 'cert']), 'key'])]):
        out['PKCS#12 with ' + show(s)] = pk12(s)
    for e in ([('cert',)], [('key', 25, 1, PROTECTOR)], [('cert',), ('key', 25, 2, PROTECTOR), ('key', 20, 0, PROTECTOR)]):
        out['JKS with ' + jshow(e)] = jk(e)
    return out


@scen
def load_fault(ctx, name, fl):
    what = '%s, %s' % (name, FCLS[fl])
    ctx.scenario(what)
    m, st, fn, a, keys, certs, least = loads(ctx)[name](faults=True, alloc_fail=fl == 'A', max_faults=1, fault_classes=(fl,))
    ks = a[-1]
    seen = 0
    for s, r in m.call_fn(fn, a, st):
        bad = [e for e in s.events if e[0] == 'fail']
        seen += bool(failed(s))
        h = m.load(s, ks, 64)
        at = (bad[0][2] if bad else None) or fn
        why = 'when %s fails' % bad[0][1] if bad else 'when nothing fails'
        if not pos(r, s):
            ctx.obl('no-dangling-handle', h is NULL, at, '%s: %s the load leaves a handle behind' % (what, why), s)
            left = owned(s)
            ctx.obl('failed-load-releases-everything', not left, at, '%s: %s %s is never released' % (what, why, ', '.join(sorted({'%s allocated at %s' % (x.typ or 'memory', x.site) for x in left}))[:300]), s)
            continue
        if not ctx.obl('failed-step-loses-nothing', h.op == 'p', at, '%s: %s success is returned without a store' % (what, why), s):
            continue
        m.cfg['faults'] = False
        s, got = contents(ctx, m, s, h, what)
        if s is not None and got is not None:
            ok = len(got[0]) in (least, len(keys)) and len(got[1]) == len(certs)
            for L, want in zip(got, (keys, certs)):
                for (p, src), w in zip(L, want):
                    ok = ok and p is not NULL and (w is None or src is w)
            ctx.obl('failed-step-loses-nothing', ok, at, '%s: %s success is returned with entries missing' % (what, why), s)
            release(ctx, m, s, h, what)
        m.cfg['faults'] = True
    ctx.obl('every-step-may-fail', True, fn)
    ctx.need(seen or m.problems, what + ': no path with a failing step')
    problems(ctx, m, 'failure-keeps-memory-sound', what)


def c26(ctx):
    api(ctx, *KS, 'parsePKCS12', 'parseJKS', 'parseKey6', 'keysFromPKCS8')
    ctx.par([(load_fault, (n, fl)) for n in loads(ctx) for fl in FCLS if not (n == 'Key-6' and fl == 'P')] + [(make_fault, (k, x)) for k, x in ((0, 0), (1, 0), (0, 1), (2, 2))] +
            [(append_fault, (a, b)) for a in ((0, 0), (1, 1)) for b in ((1, 0), (0, 1), (1, 2))])


@scen
def make_fault(ctx, k, x):
    what = 'new store of %d keys and %d certificates, an allocation fails' % (k, x)
    ctx.scenario(what)
    m = mach(ctx, faults=True, alloc_fail=True, max_faults=1, fault_classes=('A',))
    for s, r in m.call_fn('KeyStoreNew', [c(k, 64), c(x, 64)], m.initial()):
        bad = [e for e in s.events if e[0] == 'fail']
        if bad:
            ctx.obl('failure-not-reported-as-success', r is NULL, bad[0][2], what + ': a store is returned', s)
        if r is NULL:
            ctx.obl('failed-load-releases-everything', not owned(s), (bad[0][2] if bad else None) or 'KeyStoreNew', what + ': memory is never released', s)
    problems(ctx, m, 'failure-keeps-memory-sound', what)


@scen
def append_fault(ctx, a, b):
    """after a failed append both stores are whole and can be released"""
    what = 'store of %d keys and %d certificates, %d and %d more appended, an allocation fails' % (a + b)
    ctx.scenario(what)
    m = mach(ctx)
    s, to = new(ctx, m, m.initial(), *a, what)
    s = fill(ctx, m, s, to, 'to', *a, what)
    s, fr = new(ctx, m, s, *b, what)
    s = fill(ctx, m, s, fr, 'from', *b, what)
    m.cfg.update(faults=True, alloc_fail=True, max_faults=1, fault_classes=('A',))
    outs = m.call_fn('KeyStoreAppend', [to, fr], s)
    m.cfg['faults'] = False
    for s, _ in outs:
        bad = [e for e in s.events if e[0] == 'fail']
        if not bad:
            continue
        seen = []
        for ks in (to, fr):
            s, got = contents(ctx, m, s, ks, what)
            if s is None or got is None:
                break
            seen += [src for L in got for p, src in L if p is not NULL]
        if s is None:
            continue
        want = [app('entry', tag, ty, i) for tag, n in (('to', a), ('from', b)) for ty, k in (('EVP_PKEY', n[0]), ('X509', n[1])) for i in range(k)]
        ctx.obl('failed-step-loses-nothing', set(seen) == set(want) and len(seen) == len(want), bad[0][2], what + ': entries are lost or in both stores', s)
        for s2, _ in m.call_fn('KeyStoreFree', [fr], s):
            release(ctx, m, s2, to, what)
    problems(ctx, m, 'failure-keeps-memory-sound', what)


# ------------------------------------------------------------------ C27 reading from files and streams
READ = {'parsePKCS12': ('readPKCS12', 1), 'parseJKS': ('readJKS', 2), 'parseKey6': ('readKey6', 1)}


def pat(chunks):
    return [bs_('c%d' % i, n) for i, n in enumerate(chunks)]


@scen
def reader(ctx, parse, how, chunks, ret, fl=None):
    base, npw = READ[parse]
    fn = base + ('_bio' if how == 'stream' else '')
    what = '%s given %s, loading %s%s' % (fn, ' then '.join('%d bytes' % n for n in chunks) or 'nothing', 'succeeds' if ret == 1 else 'fails', ', ' + FCLS[fl] if fl else '')
    ctx.scenario(what)
    m = mach(ctx, faults=bool(fl), alloc_fail=fl == 'A', max_faults=1, fault_classes=(fl,) if fl else (), max_iter=4000)
    calls = []

    def stub(m_, st, a):
        bs = m_.bytes_at(st, a[0], a[1].a) if isc(a[1]) else None
        st.event('parsed', None if bs is None else tuple(x.id for x in bs), tuple(a[2:]))
        calls.append(1)
        if ret == 1:
            p = newobj(m_, st, None, kind='heap', owned=False, size=c(32, 64), base='store')
            m_.store(st, a[-1], p, 64)
        return [(st, c(ret, 32))]
    m.override[parse] = stub
    st = m.initial()
    data = [tuple(x) for x in pat(chunks)]
    if how == 'stream':
        src = obj(st, 'src', 'BIO', owned=True, len=c(0, 64), content=app('bytes'), chunks=tuple(data))
    else:
        src = obj(st, 'src', 'FILE', owned=True, chunks=tuple(data))
    st.w('src').site = 'caller'
    rest = []
    for i in range(npw):
        rest += [buf(st, 'pw%d' % i, 5 + i), c(5 + i, 64)]
    rest.append(cells(st, 'ks', 8))
    want = tuple(x.id for ch in data for x in ch)
    seen = 0
    for s, r in m.call_fn(fn, [src] + rest, st):
        ev = [e for e in s.events if e[0] == 'parsed']
        bad = [e for e in s.events if e[0] in ('fail', 'soft')]
        at = (bad[0][2] if bad and len(bad[0]) > 2 else None) or fn
        if not bad:
            if chunks:
                ctx.obl('everything-read-is-parsed', len(ev) == 1 and ev[0][1] == want, fn, what + ': what is parsed is not the bytes read, each once and in order', s)
                ctx.obl('arguments-passed-on', len(ev) == 1 and ev[0][2] == tuple(rest), fn, what + ': the passwords or the result handle are not the caller\'s', s)
                ctx.obl('result-passed-on', pos(r, s) == (ret == 1), fn, what + ': the result is not that of the parser', s)
                seen += 1
            else:
                ctx.obl('empty-input-refused', not pos(r, s), fn, what + ': success', s)
                seen += 1
        elif pos(r, s):
            ctx.obl('failed-read-not-success', ev and ret == 1 and all(e[1] == want[:len(e[1])] for e in ev if e[1] is not None), at, '%s: success without parsing what was read' % what, s)
        for e in ev:
            ctx.obl('everything-read-is-parsed', e[1] is not None and e[1] == want[:len(e[1])], fn, what + ': what is parsed is not what was read', s)
        left = owned(s)
        ctx.obl('reader-releases-everything', not left, at, '%s: %s is never released' % (what, ', '.join(sorted({'%s allocated at %s' % (x.typ or 'memory', x.site) for x in left}))[:300]), s)
        ctx.obl('source-stays-with-the-caller', s.mem['src'].status != 'freed',
                fn, what + ': the caller\'s file or stream is closed', s)
    ctx.need(seen or fl or m.problems, what + ': no path without a failing step')
    problems(ctx, m, 'reader-memory', what)


def c27(ctx):
    api(ctx, *[f for b, _ in READ.values() for f in (b, b + '_bio')])
    CH = [(), (1,), (3, 5), (1023,), (1024,), (1025,), (1024, 1024, 7), (7, 1024, 1), (2500,)]
    if ctx.thorough:
        CH += [(a, b, d) for a in (1, 1023, 1024, 1025) for b in (1, 1024, 1030) for d in (1, 1024, 3000)]
    jobs = [(reader, (p, how, ch, ret)) for p in READ for how in ('stream', 'file') for ch in CH for ret in ((1, 0) if ch in ((), (3, 5), (1024,)) else (1,))]
    jobs += [(reader, (p, how, ch, 1, fl)) for p in READ for how in ('stream', 'file') for ch in ((5,), (3, 5), (1024, 9)) for fl in FCLS]
    ctx.par(jobs)


SH = 'Abstract interpretation with containers of known structure and symbolic contents. Rule: '
CHECKS = {
    'C20': (c20, 'Abstract interpretation of the store API over all bounded store sizes. Rule: the accessors return, by value numbering, the entry put at each position, and ownership analysis finds each entry released exactly once.'),
    'C21': (c21, SH + 'the bytes given to the PKCS#8 parser are, by value numbering over uninterpreted cipher and digest steps, the prescribed decryption chain; the block decryption itself equals the GOST 28147 term.'),
    'C22': (c22, SH + 'the second key has the curve, point, order and private value the attribute terms prescribe (field normal forms, bit-exact byte terms), the first is the structure\'s own, malformed attributes yield none.'),
    'C23': (c23, SH + 'every path that returns success carries the equality facts between the recomputed keyed digests and the stored ones, and the store holds the prescribed entries in order.'),
    'C24': (c24, SH + 'every truncated or hostile store is refused on all paths and every memory access stays inside its region.'),
    'C25': (c25, SH + 'success implies the MAC event under the given password and exactly the prescribed entries; ownership analysis of every failing path.'),
    'C26': (c26, SH + 'with one injected failure per path, a failing result leaves a null handle and nothing owned, a successful one all entries; every dereference and release is an obligation.'),
    'C27': (c27, SH + 'the parser (replaced by a recording stand-in) receives the concatenation of the pieces the source delivers and the caller\'s arguments; ownership analysis of the sources and buffers.'),
}
