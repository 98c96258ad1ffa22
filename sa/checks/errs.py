"""C29 errors: every refusal of unsuitable keys or data is explained by an error with a text of the engine's own, whatever the
history of loading and unloading."""
import terms as t
from terms import c, sym, app, ptr, isc, NULL
import models
from project import *
from checks.codec import curves, deg_of, CURVES, params_der, algor
from checks.life import KINDS, pos, pctx, pkey, empty, nogroup
from checks.glob import start, bind, callback, lookup, OFFERS

PACK = 0x7fffff
FIRST = 131                  # the number libcrypto would hand out next


def hooks(m, ent=(8, 8)):
    """the error table and the error queue of libcrypto"""
    def nxt(m, s, a):
        n = s.ghost.get('errnext', FIRST)
        s.ghost['errnext'] = n + 1
        return c(n, 32)

    def rows(m, s, p):
        i = 0
        while i < 200:
            e = m.load(s, t.add(p, c(16 * i, 64)), 64)
            if not isc(e):
                raise models.Budget('the table of error texts is not definite')
            if not e.a:
                return
            yield t.add(p, c(16 * i, 64)), e.a, m.load(s, t.add(p, c(16 * i + 8, 64)), 64)
            i += 1

    def load(m, s, a):
        tab = dict(s.ghost.get('errtab', ()))
        for p, e, txt in list(rows(m, s, a[1])):
            if isc(a[0]) and a[0].a:
                e |= (a[0].a & 0xff) << 23
                m.store(s, p, c(e, 64), 64)
            elif not isc(a[0]):
                s.ghost['errodd'] = 1
            tab[e] = txt
        s.ghost['errtab'] = tuple(sorted(tab.items()))

    def unload(m, s, a, who):
        tab = dict(s.ghost.get('errtab', ()))
        for p, e, txt in list(rows(m, s, a[1])):
            tab.pop(e, None)
        s.ghost['errtab'] = tuple(sorted(tab.items()))

    def put_(m, s, a, who):
        if who in ('ERR_set_error', 'ERR_vset_error'):
            s.ghost['errs'] = s.ghost.get('errs', ()) + ((a[0], a[1], s.ghost.get('errat')),)
        elif who == 'ERR_put_error':
            s.ghost['errs'] = s.ghost.get('errs', ()) + ((a[0], a[2], None),)
        elif who == 'ERR_set_debug':
            s.ghost['errat'] = (models.cstring(m, s, a[0]) if a[0].op == 'p' else None, a[1])

    m.hooks.update(err_next=nxt, err_load=load, err_unload=unload, err_put=put_, err_clear=lambda m, s, a, w: s.ghost.update(errs=()))


def text(m, s, code):
    p = dict(s.ghost.get('errtab', ())).get(code)
    return models.cstring(m, s, p) if p is not None and p is not NULL and p.op == 'p' else None


def degree(gg):
    return 163 if gg is app('G') else deg_of(gg)


def loaded(ctx):
    m, st, e = start(ctx, degree=degree, d2i_reject=1)
    hooks(m)
    return m, [s for s, r in bind(m, st, e) if pos(r, s)], e


def system(v):
    """reasons every library shares have their texts in libcrypto"""
    return v < 100 or bool(v & (0x1 << 18 | 0x2 << 18)) or 0x80000 & v != 0


def known(ctx, m, s, e, where, what):
    """an error in the queue is filed under the engine's number and has a text"""
    lib, rs, at = e
    ok = isc(lib) and isc(rs)
    if not ok:
        return None
    own = s.ghost.get('errnext', FIRST) - 1
    ctx.obl('filed-under-own-number', lib.a == own and own == FIRST, where, '%s: the error is filed under number %d, not the engine\'s own' % (what, lib.a), s)
    if system(rs.a):
        return 'system'
    x = text(m, s, (lib.a & 0xff) << 23 | rs.a & PACK)
    ctx.obl('error-has-a-text', bool(x), where, '%s: reason %d has no text' % (what, rs.a), s)
    return x


# situation -> the operation, the state it starts from, the reason it is refused for
def refusals(ctx):
    P = ctx.proj
    g = curves(ctx)[CURVES[0]]
    G = app('G')
    out = {}
    ND, FT, DT, IP = 'not dstu key', 'incorrect field type', 'invalid digest type', 'invalid asn1 parameters'

    def bare(st, kind):
        return obj(st, 'pctx', 'EVP_PKEY_CTX', pkey=NULL, data=NULL)

    def siglen(st, n=64):
        return put(st, cells(st, 'siglen', 8), 0, c(n, 64)) or ptr('siglen')

    for kind in KINDS:
        def add(nm, fn, build, want, **kw):
            out['%s/%s' % (nm, kind)] = (fn, build, want, kw)
        sg, vf, kg, ct = P.fn('pmeth', kind, 'sign', 1), P.fn('pmeth', kind, 'verify', 1), P.fn('pmeth', kind, 'keygen', 1), P.fn('pmeth', kind, 'ctrl', 0)
        add('key generation in a context that was never set up', kg, lambda st, kind=kind: [bare(st, kind), obj(st, 'new', 'EVP_PKEY', type=c(0, 32), key=NULL)], ND)
        add('control of a context that was never set up', ct, lambda st, kind=kind: [bare(st, kind), c(ctrl_no('DSTU_SET_CURVE'), 32), c(0, 32), group(st, 'PG')], ND)
        for nm, mk in (('without a key', lambda st, kind=kind: NULL), ('with an empty key', lambda st, kind=kind: empty(st, kind)), ('with a key without a curve', lambda st, kind=kind: nogroup(st, kind))):
            add('signing ' + nm, sg, lambda st, mk=mk, kind=kind: [pctx(st, kind, mk(st)), obj(st, 'out', None, kind='arg', size=c(64, 64)), siglen(st), buf(st, 'tbs', 32), c(32, 64)], ND)
            add('verifying ' + nm, vf, lambda st, mk=mk, kind=kind: [pctx(st, kind, mk(st)), buf(st, 'sig', 42), c(42, 64), buf(st, 'tbs', 32), c(32, 64)], ND)
        # NID_X9_62_prime_field
        ps = dict(pkey_size=lambda m, st, p, kind=kind: c(44, 32), bnbits=lambda v: (161, 163) if v is app('order', G) else None, keep=None, widen_after=0, max_paths=4000)
        add('signing on a curve over another field', sg, lambda st, kind=kind: [pctx(st, kind, pkey(st, kind, gval=G)), obj(st, 'out', None, kind='arg', size=c(64, 64)), siglen(st), buf(st, 'tbs', 32), c(32, 64)], FT,
            binary_field=406, **ps)
        add('verifying on a curve over another field', vf, lambda st, kind=kind: [pctx(st, kind, pkey(st, kind, gval=G)), buf(st, 'sig', 42), c(42, 64), buf(st, 'tbs', 32), c(32, 64)], FT,
            binary_field=406, **ps)
        add('choosing another digest', ct, lambda st, kind=kind: [pctx(st, kind), c(const('evp.h', 'EVP_PKEY_CTRL_MD'), 32), c(0, 32), obj(st, 'MD', 'EVP_MD', static=1)], DT)

        def pd(st, kind=kind):
            put(st, cells(st, 'pp', 8), 0, buf(st, 'der', 30))
            return [empty(st, kind), ptr('pp'), c(30, 32)]
        add('decoding malformed parameters', P.fn('ameth', kind, 'param', 0), pd, IP)
        for what, want in (('foreign algorithm', ND), ('parameters that are no sequence', ND), ('missing parameters', ND), ('malformed parameters', IP)):
            def alg(st, what=what, kind=kind):
                al, o = algor(st, 'alg', nid('rsaEncryption') if what == 'foreign algorithm' else kind, params_der(ctx, kind, g))
                if what.startswith('parameters'):
                    st.w('alg').attrs.update(atype=c(5, 32), aval=NULL)
                if what.startswith('missing'):
                    st.w('alg').attrs.update(atype=c(-1, 32), aval=NULL)
                if what.startswith('malformed'):
                    st.w('alg.params').attrs.pop('blob')
                return al, o

            def p8(st, alg=alg):
                al, o = alg(st)
                return [obj(st, 'pk2', 'EVP_PKEY', type=c(0, 32), key=NULL), obj(st, 'p8', 'PKCS8_PRIV_KEY_INFO', aobj=o, alg=al, kdata=buf(st, 'kd', 20), klen=c(20, 32))]

            def xp(st, alg=alg):
                al, o = alg(st)
                return [obj(st, 'pk2', 'EVP_PKEY', type=c(0, 32), key=NULL), obj(st, 'xp', 'X509_PUBKEY', aobj=o, alg=al, kdata=buf(st, 'kd', 23), klen=c(23, 32))]
            add('decoding a private key with %s' % what, P.fn('ameth', kind, 'private', 0), p8, want)
            add('decoding a public key with %s' % what, P.fn('ameth', kind, 'public', 0), xp, want)
        add('encoding a private key without a private part', P.fn('ameth', kind, 'private', 1),
            lambda st, kind=kind: [obj(st, 'p8', 'PKCS8_PRIV_KEY_INFO'), pkey(st, kind, gval=g, priv=False)], ND)
        add('encoding a public key without a public part', P.fn('ameth', kind, 'public', 1), lambda st, kind=kind: [obj(st, 'xp', 'X509_PUBKEY'), pkey(st, kind, gval=g, pub=False)], ND)
        add('encoding parameters without a curve', P.fn('ameth', kind, 'param', 1), lambda st, kind=kind: [nogroup(st, kind), cells(st, 'out', 8)], 'asn1 parameter encode failed')
    return out


@scen
def refusal(ctx, name):
    fn, build, want, kw = refusals(ctx)[name]
    kw = dict(kw)
    kw.pop('reject', None)
    ctx.scenario(name)
    m, ss, e = loaded(ctx)
    m.cfg.update(kw)
    n = 0
    for s0 in ss:
        s0.ghost['errs'] = ()
        a = build(s0)
        for s, r in m.call_fn(fn, a, s0):
            if pos(r, s):
                continue
            # refused by a step of libcrypto that failed for its own reasons: it explains itself
            if any(x[0] == 'fail' for x in s.events):
                continue
            if want == 'invalid digest type' and s.decide(t.eq(app('mdtype', ptr('MD'), w=32), c(nid('dstu34311'), 32))) is not False:
                continue
            n += 1
            errs = s.ghost.get('errs', ())
            if not ctx.obl('refusal-is-explained', bool(errs), fn, name + ': it is refused without any error', s):
                continue
            xs = [known(ctx, m, s, x, fn, name) for x in errs]
            if None in xs:
                continue
            ctx.obl('refusal-is-explained', want in xs, fn, '%s: the error says "%s", not "%s"' % (name, '", "'.join(xs), want), s)
            for x in errs:
                at = x[2]
                ctx.obl('error-says-where', at is None or bool(at[0]), fn, name + ': the error does not say where it arose', s)
    ctx.need(n, name + ': no refusing path was analysed')


@scen
def texts(ctx, name, seq):
    """L bound, E an error is reported, U the engine is unloaded"""
    what = 'error texts, ' + name
    ctx.scenario(what)
    m, st, e = start(ctx)
    hooks(m)
    fn, build, want, _ = refusals(ctx)['key generation in a context that was never set up/le']
    cur, base = [st], None
    for ch in seq:
        nx = []
        for s in cur:
            if ch == 'L':
                w = s.w('ENGINE')
                for k in [k for k in w.attrs if k.startswith('m:')]:
                    w.attrs.pop(k)
                s.w('NAMES').attrs.clear()
                for s2, r in bind(m, s, e):
                    if not pos(r, s2):
                        continue
                    nx.append(s2)
                    tab = dict(s2.ghost.get('errtab', ()))
                    own = (s2.ghost.get('errnext', FIRST) - 1 & 0xff) << 23
                    ctx.obl('own-number', s2.ghost.get('errnext') == FIRST + 1 and 'errodd' not in s2.ghost, 'bind_engine', what + ': the engine does not take exactly one library number', s2)
                    ctx.obl('texts-under-own-number', bool(tab) and all(k >> 23 << 23 == own for k in tab), 'bind_engine', what + ': texts are registered under another library\'s number', s2)
                    ctx.obl('library-has-a-name', bool(text(m, s2, own)), 'bind_engine', what + ': the engine\'s library number has no name', s2)
                    for k in tab:
                        ctx.obl('every-text-is-readable', bool(text(m, s2, k)), 'bind_engine', '%s: reason %d has no text' % (what, k & PACK), s2)
                    if base is not None:
                        ctx.obl('same-texts-each-time', {k: text(m, s2, k) for k in tab} == base, 'bind_engine', what + ': other texts than the first time', s2)
                    else:
                        base = {k: text(m, s2, k) for k in tab}
            elif ch == 'E':
                s.ghost['errs'] = ()
                for s2, r in m.call_fn(fn, [obj(s, s.fresh('pc'), 'EVP_PKEY_CTX', pkey=NULL, data=NULL), obj(s, s.fresh('new'), 'EVP_PKEY', type=c(0, 32), key=NULL)], s):
                    for x in s2.ghost.get('errs', ()):
                        ctx.obl('refusal-is-explained', known(ctx, m, s2, x, fn, what) in (want, None), fn, what + ': the error has another text', s2)
                    nx.append(s2)
            else:
                ss = [s]
                j = 0
                for k, (algs, typ, rel) in OFFERS.items():
                    for a in algs if rel else ():
                        j += 1
                        o = []
                        for s1 in ss:
                            for s2, r, p in lookup(m, s1, e, k, nid(a), len(s1.mem) * 10 + j):
                                if p is not None:
                                    models.destroy(m, s2, p, typ)
                                o.append(s2)
                        ss = o
                fd = callback(s, e, 'destroy_function')
                for s1 in ss:
                    for s2, r in (m.call_fn(fd, [e], s1) if fd else [(s1, None)]):
                        ctx.obl('texts-leave-with-the-engine', not s2.ghost.get('errtab'), fd or 'engine',
                                what + ': %d texts stay registered when the engine, whose memory they are in, is unloaded' % len(s2.ghost.get('errtab', ())), s2)
                        nx.append(s2)
        cur = nx
    ctx.need(cur or m.problems, what + ': no history completes')


HIST = (('loaded once', 'LEU'), ('loaded twice', 'LEULEU'), ('loaded three times', 'LULULEU'), ('two errors', 'LEEU'))


def c29(ctx):
    ctx.par([(refusal, (n,)) for n in sorted(refusals(ctx))] + [(texts, h) for h in HIST])


CHECKS = {
    'C29': (c29, 'Abstract interpretation of each refusing operation after binding, with libcrypto\'s error table and queue as abstract state: each refusing path must have queued an error under the '
            'library number taken when binding, whose reason has the text that describes the refusal; over load / unload histories the texts are registered under that number and all of them withdrawn.'),
}
