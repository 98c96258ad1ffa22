"""C28 the engine as a whole: what binding registers, what the engine offers, and how long the offered methods live."""
import terms as t
from terms import c, sym, app, ptr, isc, NULL
import models
from project import *
from checks.life import owned, pos

PKEYS = ('dstu4145le', 'dstu4145be')
# callback -> (what it offers, type of the method, OpenSSL's release of a method libcrypto itself releases with the engine)
OFFERS = {'digests': (('dstu34311',), 'EVP_MD', None), 'ciphers': (('dstu28147_cfb',), 'EVP_CIPHER', None),
          'pkey_meths': (PKEYS, 'EVP_PKEY_METHOD', 'EVP_PKEY_meth_free'),
          'pkey_asn1_meths': (PKEYS, 'EVP_PKEY_ASN1_METHOD', 'EVP_PKEY_asn1_free')}


def start(ctx, **cfg):
    m = ctx.proj.machine(keep='all', **cfg)
    st = m.initial()
    e = obj(st, 'ENGINE', 'ENGINE', owned=False)
    obj(st, 'NAMES', 'names')
    obj(st, 'dynamic_fns', None, kind='arg', default='input')
    return m, st, e


def bind(m, st, e, ident=NULL):
    m.hooks['indirect'] = lambda m_, s, cal, a: [(s, c(1, 32))]
    outs = m.call_fn('bind_engine', [e, ident, ptr('dynamic_fns')], st)
    m.hooks.pop('indirect')
    return outs


def names(s):
    return s.mem['NAMES'].attrs


def alive(s, p):
    return p.op == 'p' and p.a[0] in s.mem and s.mem[p.a[0]].status != 'freed'


def callback(s, e, k):
    v = s.mem[e.a[0]].attrs.get('m:' + k)
    return v[0].a if v and v[0].op == 'fn' else None


def problems(ctx, m, what):
    for pr in m.problems:
        ctx.obl('methods-live-as-long-as-they-are-known', False, pr[1], '%s: %s %s' % (what, pr[0], pr[2]), pr[4])


@scen
def binding(ctx, ident):
    """ident: NULL, the engine's own id or another one"""
    what = 'binding %s' % ('without an id' if ident is None else 'as "%s"' % ident)
    ctx.scenario(what)
    m, st, e = start(ctx)
    outs = bind(m, st, e, NULL if ident is None else cstr(st, ident))
    problems(ctx, m, what)
    where = 'bind_engine'
    ours = ident in (None, 'dstu')
    if ours:
        ctx.obl('engine-binds', any(isc(r) and r.a == 1 for _, r in outs), where, what + ': never succeeds')
    for s, r in outs:
        if not pos(r, s):
            if ours:
                ctx.obl('engine-binds', False, where, what + ': fails without a failing step', s)
            else:
                ctx.obl('other-id-refused', not names(s) and not any(k.startswith('m:') for k in s.mem['ENGINE'].attrs), where, what + ': something is registered', s)
            continue
        if not ours:
            ctx.obl('other-id-refused', False, where, what + ': succeeds', s)
            continue
        complete(ctx, m, s, e, what)


def complete(ctx, m, s, e, what):
    """everything the engine promises is registered"""
    A = s.mem['ENGINE'].attrs
    n = names(s)
    for k, w in (('id', 'dstu'), ):
        v = A.get('m:' + k)
        ctx.obl('everything-registered', v is not None and models.cstring(m, s, v[0]) == w, 'bind_engine', '%s: the engine id is not "%s"' % (what, w), s)
    v = A.get('m:name')
    ctx.obl('everything-registered', v is not None and bool(models.cstring(m, s, v[0])), 'bind_engine', what + ': the engine has no name', s)
    for k in list(OFFERS) + ['RAND']:
        v = A.get('m:' + k)
        ctx.obl('everything-registered', v is not None and v[0] is not NULL, 'bind_engine', '%s: no %s are set' % (what, k), s)
    for k in OFFERS:
        ctx.obl('everything-registered', ('ENGINE_register_' + k,) in n, 'bind_engine', '%s: the %s are not registered as implementations' % (what, k), s)
    for typ, nm, k in ((1, 'dstu34311', 'digest'), (2, 'dstu28147_cfb', 'cipher')):
        p = n.get((typ, 'sn', nid(nm)))
        ctx.obl('everything-registered', p is not None, 'bind_engine', '%s: the %s is not known by its name' % (what, k), s)
        if p is not None:
            for kk, vv in n.items():
                if kk[0] == typ:
                    ctx.obl('everything-registered', kk[2] == nid(nm), 'bind_engine', '%s: a %s is known under another name' % (what, k), s)
    prf = [k for k in n if k[0] == 'pbe']
    ctx.obl('everything-registered', prf == [('pbe', c(1, 32), c(nid('hmacWithDstu34311'), 32), c(2**32 - 1, 32), c(nid('dstu34311'), 32), NULL)],
            'bind_engine', what + ': the HMAC of the digest is not registered for password based key derivation', s)


@scen
def failing_bind(ctx, fl):
    what = 'binding when %s fails' % {'A': 'an allocation or registration', 'P': 'a step'}[fl]
    ctx.scenario(what)
    m, st, e = start(ctx, faults=True, alloc_fail=True, max_faults=1, fault_classes=(fl,))
    for s, r in bind(m, st, e):
        bad = failed(s)
        if bad:
            ctx.obl('failed-binding-reported', not pos(r, s), bad[0][2] or 'bind_engine', '%s: binding succeeds although %s failed at %s' % (what, bad[0][1], bad[0][2]), s)
    problems(ctx, m, what)


def lookup(m, s, e, k, n, j):
    out = obj(s, 'out%d' % j, None, kind='arg', size=c(8, 64), default='undef')
    fn = callback(s, e, k)
    return [] if fn is None else [(s2, r, m.load(s2, out, 64) if pos(r, s2) else None) for s2, r in m.call_fn(fn, [e, out, NULL, c(n, 32)], s)]


@scen
def offers(ctx, k, faulty=False):
    """every listed algorithm is found, and only those"""
    what = 'the %s of the engine%s' % (k, ' when an allocation fails' if faulty else '')
    ctx.scenario(what)
    algs, typ, _ = OFFERS[k]
    want = sorted(nid(a) for a in algs)
    m, st, e = start(ctx)
    good = [s for s, r in bind(m, st, e) if pos(r, s)]
    if not good:
        return
    if faulty:
        m.cfg.update(faults=True, alloc_fail=True, max_faults=1, fault_classes=('A',))
    for s in good:
        fn = callback(s, e, k)
        if not ctx.obl('offers-answered', fn in ctx.proj.mod.funcs, 'bind_engine', what + ': no callback', s):
            return
        s2 = s.fork()
        out = obj(s2, 'list', None, kind='arg', size=c(8, 64), default='undef')
        for s3, r in m.call_fn(fn, [e, NULL, out, c(0, 32)], s2):
            ok = isc(r) and t.sval(r) == len(want)
            got = []
            if ok:
                p = m.load(s3, out, 64)
                got = [m.load(s3, t.add(p, c(4 * i, 64)), 32) for i in range(len(want))] if p.op == 'p' else []
            ctx.obl('list-is-complete', ok and sorted(x.a for x in got if isc(x)) == want, fn, '%s: the list of algorithms is not the %d offered ones' % (what, len(want)), s3)
        for n in want + [nid('sha256'), nid('dstu4145le') if typ in ('EVP_MD', 'EVP_CIPHER') else nid('dstu34311'), nid('dstu28147_ofb')]:
            first = None
            for s3, r, p in lookup(m, s.fork(), e, k, n, 0):
                if n not in want:
                    ctx.obl('only-offered-algorithms', not pos(r, s3), fn, '%s: a method is returned for an algorithm that is not offered (%d)' % (what, n), s3)
                    continue
                if not pos(r, s3):
                    ctx.obl('offers-answered', bool(failed(s3)), fn, '%s: algorithm %d is not found although no step failed' % (what, n), s3)
                    continue
                ok = p is not None and alive(s3, p) and s3.mem[p.a[0]].typ == typ
                ctx.obl('offers-answered', ok, fn, '%s: algorithm %d is reported found without a method' % (what, n), s3)
                if not ok:
                    continue
                ct = s3.mem[p.a[0]].attrs.get('ctor', ())
                ctx.obl('method-is-of-the-algorithm', bool(ct) and isc(ct[0]) and ct[0].a == n, fn, '%s: the method returned for %d is another one' % (what, n), s3)
                # the same method is handed out every time
                for s4, r2, p2 in lookup(m, s3.fork(), e, k, n, 1):
                    ctx.obl('offers-answered', pos(r2, s4) and p2 is p, fn, '%s: a second query for %d gives another method' % (what, n), s4)
                if typ in ('EVP_MD', 'EVP_CIPHER') and not faulty:
                    described(ctx, s3, s3.mem[p.a[0]].attrs, typ, what, fn)
                    nm = names(s3).get((1 if typ == 'EVP_MD' else 2, 'sn', n))
                    ctx.obl('method-is-of-the-algorithm', nm is p, fn, '%s: the method known by name and the offered one differ' % what, s3)
    problems(ctx, m, what)


def described(ctx, s, A, typ, what, fn):
    def at(k):
        v = A.get('m:' + k)
        return v[0].a if v and isc(v[0]) else 0
    if typ == 'EVP_MD':
        ctx.obl('described-as-it-is', at('result_size') == 32, fn, what + ': the digest is not announced as 32 bytes', s)
        ctx.obl('described-as-it-is', at('input_blocksize') == 32, fn, what + ': the block size (which HMAC pads keys to) is not announced as 32 bytes', s)
        ctx.obl('described-as-it-is', not at('flags') & const('evp.h', 'EVP_MD_FLAG_XOF'), fn, what + ': announced as of any output length', s)
    else:
        ct = A.get('ctor')
        fl = at('flags')
        ctx.obl('described-as-it-is', ct[1] is c(1, 32) and ct[2] is c(32, 32) and at('iv_length') == 8, fn, what + ': not announced as a stream cipher with a 32 byte key and an 8 byte IV', s)
        ctx.obl('described-as-it-is', fl & const('evp.h', 'EVP_CIPH_MODE') == const('evp.h', 'EVP_CIPH_CFB_MODE'), fn, what + ': not announced as cipher feedback mode', s)
        ctx.obl('described-as-it-is', fl & const('evp.h', 'EVP_CIPH_ALWAYS_CALL_INIT'), fn, what + ': a new IV alone would not reach the cipher', s)


def check_names(ctx, s, what):
    for k, p in names(s).items():
        if k[0] in (1, 2):
            ctx.obl('methods-live-as-long-as-they-are-known', alive(s, p), 'engine', '%s: the %s known by its name is released memory' % (what, ('digest', 'cipher')[k[0] - 1]), s)


HIST = (('load and unload', '', 'D'), ('load, use, unload', '', 'QD'), ('initialise, use, finish, unload', '', 'IQFD'),
        ('initialise and finish twice', '', 'IFIQFD'), ('use between two sessions', '', 'IQFQIQFQD'), ('three sessions', '', 'IFIFIFD'),
        ('use after unloading and loading again', '', 'IQFDBIQFD'), ('loading again without use', '', 'DBD'), ('nested sessions', '', 'IIQFQFQD'))


@scen
def lifecycle(ctx, name, seq):
    """I initialise, F finish (the engine's function runs when the last session ends), Q look everything up, D the engine is
    released by libcrypto (which releases the public key methods first), B bound again with the module still loaded"""
    what = 'engine history: ' + name
    ctx.scenario(what)
    m, st, e = start(ctx)
    cur = [s for s, r in bind(m, st, e) if pos(r, s)]
    j, depth = 0, 0
    for ch in seq:
        nxt = []
        depth += ch == 'I'
        depth -= ch == 'F'
        for s in cur:
            if ch == 'B':
                s.w('NAMES').attrs.clear()
                w = s.w('ENGINE')
                for k in [k for k in w.attrs if k.startswith('m:')]:
                    w.attrs.pop(k)
                for s2, r in bind(m, s, e):
                    if ctx.obl('engine-binds', pos(r, s2), 'bind_engine', what + ': binding again fails', s2):
                        nxt.append(s2)
            elif ch in 'IF':
                fn = callback(s, e, 'init_function' if ch == 'I' else 'finish_function')
                if fn is None or depth != (1 if ch == 'I' else 0):
                    nxt.append(s)
                    continue
                for s2, r in m.call_fn(fn, [e], s):
                    ctx.obl('sessions-succeed', pos(r, s2), fn, '%s: %s fails' % (what, 'initialising' if ch == 'I' else 'finishing'), s2)
                    nxt.append(s2)
            elif ch == 'Q':
                ss = [s]
                for k, (algs, typ, _) in OFFERS.items():
                    for a in algs:
                        j += 1
                        o = []
                        for s1 in ss:
                            for s2, r, p in lookup(m, s1, e, k, nid(a), j):
                                ok = p is not None and alive(s2, p) and s2.mem[p.a[0]].typ == typ
                                ctx.obl('methods-live-as-long-as-they-are-known', ok, callback(s2, e, k), '%s: the method offered for %s is released memory or none' % (what, a), s2)
                                o.append(s2)
                        ss = o
                nxt += ss
            else:
                # engine_free: the listed public key methods are looked up and released, then the destroy function runs
                ss = [s]
                for k, (algs, typ, rel) in OFFERS.items():
                    for a in algs if rel else ():
                        j += 1
                        o = []
                        for s1 in ss:
                            for s2, r, p in lookup(m, s1, e, k, nid(a), j):
                                if p is not None:
                                    models.destroy(m, s2, p, typ)
                                o.append(s2)
                        ss = o
                fn = callback(s, e, 'destroy_function')
                for s1 in ss:
                    for s2, r in (m.call_fn(fn, [e], s1) if fn else [(s1, None)]):
                        gone = [x for x in s2.mem.values() if x.owned and x.status != 'freed' and x.typ in ('EVP_MD', 'EVP_CIPHER', 'EVP_PKEY_METHOD', 'EVP_PKEY_ASN1_METHOD')]
                        ctx.obl('nothing-left-behind', not gone, fn or 'engine', '%s: %s is left behind when the engine is released' % (what, ', '.join('%s made at %s' % (x.typ, x.site) for x in gone)), s2)
                        nxt.append(s2)
        cur = nxt
        for s in cur:
            check_names(ctx, s, what)
    ctx.obl('methods-live-as-long-as-they-are-known', bool(cur) or bool(m.problems), 'engine', what + ': no history completes')
    problems(ctx, m, what)


def c28(ctx):
    jobs = [(binding, (i,)) for i in (None, 'dstu', 'gost', 'dst', 'dstu2', '')] + [(failing_bind, (f,)) for f in 'AP']
    jobs += [(offers, (k,)) for k in OFFERS] + [(offers, (k, True)) for k in ('pkey_meths', 'pkey_asn1_meths')]
    jobs += [(lifecycle, (n, q)) for n, _, q in HIST]
    ctx.par(jobs)


c28.standalone = True       # decides what the other checks start from: it answers when they cannot


CHECKS = {
    'C28': (c28, 'Abstract interpretation of the binding entry, the four method callbacks and the init / finish / destroy functions over engine histories, with the registrations OpenSSL keeps as abstract tables: '
            'whatever is registered or offered must be an unreleased method of the algorithm asked for, after every step of every history; a failed registration step must make binding fail; nothing may remain when the engine is released.'),
}
