"""C01-C03: signature verification, generation, and the signing buffer contract."""
import terms as t
from terms import c, sym, app, ptr, isc, NULL, ZERO_BN, ONE_BN
import models
from models import mkbn, smul, padd, px, gfmul, btrunc, nbits, mmul, madd, digit, bnorm
from project import *

G = app('G')
ORD = app('order', G)
POLY = app('poly', G)
# (field degree, order bits) of the standard's ten curves
SIZES = [(163, 163), (167, 166), (173, 172), (179, 178), (191, 191), (233, 233), (257, 256), (307, 306), (367, 367), (431, 430)]


def sig_machine(ctx, deg, ob, **kw):
    def bnbits(v):
        if v is ORD:
            return (ob, ob)
        if v.op == 'app' and v.a[0] in ('gfmul', 'px', 'py'):
            return (0, deg)
        if v.op == 'app' and v.a[0] in ('madd', 'mmul', 'rand'):
            return (0, ob)
        return None
    kw.setdefault('keep', 'all')
    return ctx.proj.machine(degree=lambda g: deg, bnbits=bnbits, **kw)


def pctx(st, kind, key):
    """EVP_PKEY_CTX holding a DSTU key of the given algorithm"""
    pk = obj(st, 'pkey', 'EVP_PKEY', type=c(nid('dstu4145' + kind), 32), key=key)
    kc = keyctx(st, kind)
    return obj(st, 'pctx', 'EVP_PKEY_CTX', pkey=pk, data=kc)


def field_hash(m, st, tbs):
    """digest -> field element: little-endian integer cut to the field, zero becomes one"""
    H = mkbn(m, st, app('bytes', *reversed(tbs)))
    deg = m.cfg['degree'](G)
    tr = btrunc(st, H, c(deg, 32))
    z = st.decide(t.beq(tr, ZERO_BN))
    if z is None and st.decide(t.beq(H, ZERO_BN)):
        z = True
    if z is True:
        return ONE_BN
    if z is False:
        return tr
    return None


def order_of(kind, bs):
    return list(reversed(bs)) if kind == 'le' else bs


def nm(x):
    import re
    return re.sub(r'bytes\((\w+)\[(\d+)\]@input(?:,\w+\[\d+\]@input)*,\w+\[(\d+)\]@input\)', r'\1[\2..\3]', t.show(x, 12))


@scen
def verify_scenario(ctx, kind, deg, ob, form, siglen, tbslen=32):
    """analyse the registered verify operation and decide both directions of the equation"""
    fs = (ob + 7) // 8
    name = 'verify/%s m=%d n=%d bits, %s signature of %d bytes, digest of %d bytes' % (kind, deg, ob, form, siglen, tbslen)
    ctx.scenario(name)
    fn = ctx.proj.fn('pmeth', kind, 'verify', 1)
    m = sig_machine(ctx, deg, ob, **({'d2i_reject': 1} if form == 'raw' else {'d2i_ok': 1}))
    st = m.initial()
    ctxp = pctx(st, kind, dstukey(st, gval=G))
    sb = bts('sig', 0, siglen)
    if form == 'raw':
        sig, n = buf(st, 'sig', siglen), c(siglen, 64)
    else:
        n = c(siglen + 4, 64)
        sig = buf(st, 'sigder', siglen + 4)
        st.w('sigder').attrs['blob'] = (n, app('der', app('d:oct', c(siglen, 32), app('bytes', *sb))))
    outs = m.call_fn(fn, [ctxp, sig, n, buf(st, 'tbs', tbslen), c(tbslen, 64)], st)
    for pr in m.problems:
        if pr[0] == 'endless-loop':
            ctx.obl('verification-ends', False, pr[1], 'verify/%s: %s' % (kind, pr[2]), pr[4])
    ctx.need(outs or m.problems, 'verification has no analysable path')
    good_len = siglen % 2 == 0 and siglen >= 2 * fs
    be = order_of(kind, sb)
    nacc = 0
    for s, r in outs:
        if not isc(r):
            ctx.obl('verify-returns-verdict', False, fn, '%s: return value %s is not a definite verdict' % (name, t.show(r)), s)
            continue
        acc = t.sval(r) > 0
        if not good_len:
            ctx.obl('wrong-length-rejected', not acc, fn, '%s: accepted although the length is not two equal parts of at least %d bytes' % (name, fs), s)
            continue
        S = mkbn(m, s, app('bytes', *be[:siglen // 2]))
        R_ = mkbn(m, s, app('bytes', *be[siglen // 2:]))
        P = padd([smul(S, app('gen', G)), smul(R_, app('Q'))])
        h = field_hash(m, s, bts('tbs', 0, tbslen))
        conds = [('s-nonzero', t.beq(S, ZERO_BN), False), ('r-nonzero', t.beq(R_, ZERO_BN), False), ('s-below-order', t.blt(S, ORD), True),
                 ('r-below-order', t.blt(R_, ORD), True), ('point-finite', t.beq(P, app('inf')), False)]
        if acc:
            nacc += 1
            for nme, atom, want in conds:
                ctx.obl('accept-implies-' + nme, s.decide(atom) is want, fn, '%s: a signature is accepted without establishing %s' % (name, nme), s)
            e = None
            if h is not None:
                X = gfmul(h, px(P), POLY)
                e = btrunc(s, X, c(ob - 1, 32))
            ok = e is not None and s.decide(t.beq(R_, e)) is True
            ctx.obl('accept-implies-equation', ok, fn,
                    '%s: a signature is accepted without r = low bits of h*x(sP+rQ) being established; equalities established: %s' % (
                        name, [nm(a) for a, v in s.facts.items() if v and a.op == 'beq'][:4]), s)
        else:
            if failed(s) and not any(x[1].startswith('EC_POINT_get_affine') for x in failed(s)):
                continue
            why = [nme for nme, atom, want in conds if s.decide(atom) is (not want)]
            if not why and h is not None:
                e = btrunc(s, gfmul(h, px(P), POLY), c(ob - 1, 32))
                if s.decide(t.beq(R_, e)) is False:
                    why = ['equation']
            ctx.obl('reject-only-when-invalid', bool(why), fn, '%s: a signature is rejected although no validity condition is known to fail; facts: %s' % (
                name, [(nm(a), v) for a, v in s.facts.items() if a.op in ('beq', 'blt')][:6]), s)
    if good_len:
        ctx.obl('valid-signatures-accepted', nacc > 0, fn, name + ': no path accepts')
    return m


def c01(ctx):
    sizes = SIZES
    for deg, ob in sizes:
        fs = (ob + 7) // 8
        for kind in ('le', 'be'):
            for form in ('der', 'raw'):
                verify_scenario(ctx, kind, deg, ob, form, 2 * fs)
    deg, ob = (163, 163)
    fs = 21
    extra = [2 * fs + 2, 2 * fs + 1, 2 * fs - 2, 2 * fs - 1, 2, 1]
    if ctx.thorough:
        extra += [2 * fs + k for k in (3, 4, 6, 20, 64)] + [4, 6, 20]
    for L in extra:
        for kind in ('le', 'be'):
            for form in ('der', 'raw'):
                verify_scenario(ctx, kind, deg, ob, form, L)
    for T_ in ((1, 16, 20, 21, 48, 64) if ctx.thorough else (16, 64)):
        for deg, ob in (sizes if ctx.thorough else sizes[:2]):
            verify_scenario(ctx, 'le', deg, ob, 'der', 2 * ((ob + 7) // 8), T_)
    # objects that are not usable DSTU keys are refused, not dereferenced
    for kind in ('le', 'be'):
        fn = ctx.proj.fn('pmeth', kind, 'verify', 1)
        for what in ('no pkey', 'no key', 'no group', 'no public key', 'prime field'):
            ctx.scenario('verify/%s with %s' % (kind, what))
            m = sig_machine(ctx, 163, 163, **({'binary_field': 406} if what == 'prime field' else {}))
            st = m.initial()
            k = dstukey(st, gval=G)
            p = pctx(st, kind, k)
            if what == 'no pkey':
                st.w('pctx').attrs['pkey'] = NULL
            if what == 'no key':
                st.w('pkey').attrs['key'] = NULL
            if what == 'no group':
                st.w('KEY.ec').attrs['group'] = NULL
            if what == 'no public key':
                st.w('KEY.ec').attrs['pub'] = NULL
            n0 = len(m.problems)
            outs = m.call_fn(fn, [p, buf(st, 'sig', 42), c(42, 64), buf(st, 'tbs', 32), c(32, 64)], st)
            ctx.need(outs or m.problems[n0:], 'verification has no analysable path')
            for pr in m.problems[n0:]:
                ctx.obl('unusable-key-refused', False, pr[1], 'verify with %s: %s %s' % (what, pr[0], pr[2]), pr[4])
            for s, r in outs:
                ctx.obl('unusable-key-refused', isc(r) and t.sval(r) <= 0, fn, 'verify with %s reports success' % what, s)


# ---------------------------------------------------------------- signing
_df = {}


def digest_fact(a):
    """facts about the digest alone distinguish states; facts about nonces do not"""
    r = _df.get(a)
    if r is None:
        r = _df[a] = a.op in ('beq', 'blt', 'slt', 'ult') and not any(x.op == 'app' and x.a[0] == 'rand' or x.op == 's' and str(x.a).startswith('w:')
                                                                     for x in t.atoms(a))
    return r


def sign_run(ctx, kind, deg, ob, have, tbslen=32, nullsig=False):
    """have: capacity passed in *siglen"""
    fs = (ob + 7) // 8
    fn = ctx.proj.fn('pmeth', kind, 'sign', 1)
    szfn = ctx.proj.fn('ameth', kind, 'public', 4)

    def pkey_size(m, st, p):
        outs = m.call_fn(szfn, [p], st)
        return [(s, r) for s, r in outs]

    def derlen(d):
        if d.a[0] == 'd:oct' and isc(d.a[1]):
            return c(objsize(d.a[1].a), 32)
    m = sig_machine(ctx, deg, ob, pkey_size=pkey_size, derlen=derlen, keep=digest_fact, widen_after=0)
    st = m.initial()
    ctxp = pctx(st, kind, dstukey(st, gval=G))
    out = buf(st, 'out', have, default='undef') if not nullsig else NULL
    ln = cells(st, 'siglen', 8)
    put(st, ln, 0, c(have, 64))
    outs = m.call_fn(fn, [ctxp, out, ln, buf(st, 'tbs', tbslen), c(tbslen, 64)], st)
    ctx.need(outs or m.problems, 'signing has no analysable path')
    return fn, fs, m, ln, outs


def objsize(n):
    r = n + 2
    if n > 127:
        k = n
        while k:
            r += 1
            k >>= 8
    return r


def c02(ctx):
    sizes = SIZES
    for deg, ob in sizes:
        for kind in ('le', 'be'):
            for T_ in ((32, 20, 64) if ctx.thorough else (32,)):
                sign_scenario(ctx, kind, deg, ob, T_)


@scen
def sign_scenario(ctx, kind, deg, ob, tbslen):
    name = 'sign/%s m=%d n=%d bits, digest of %d bytes' % (kind, deg, ob, tbslen)
    ctx.scenario(name)
    fs = (ob + 7) // 8
    fn, fs, m, ln, outs = sign_run(ctx, kind, deg, ob, objsize(2 * fs), tbslen)
    for pr in m.problems:
        ctx.obl('sign-memory', False, pr[1], '%s: %s %s' % (name, pr[0], pr[2]), pr[4])
    succ = [(s, r) for s, r in outs if isc(r) and t.sval(r) > 0]
    ctx.obl('signing-can-succeed', bool(succ), fn, name + ': no path produces a signature')
    for s, r in outs:
        if not isc(r):
            ctx.obl('sign-returns-verdict', False, fn, name + ': return value is not definite', s)
            continue
        if t.sval(r) <= 0:
            ctx.obl('signing-fails-only-on-fault', bool(failed(s)), fn, name + ': signing reports failure without any failing step; facts %s' % (
                [(nm(a), v) for a, v in s.facts.items()][:4]), s)
            continue
        x = s.mem['out'].attrs.get('derout')
        if not ctx.obl('signature-is-der-octet-string', x is not None and isc(x[0]) and x[0].a == 0 and x[1].a[1].a[0] == 'd:oct', fn,
                       name + ': the output is not the DER encoding of an OCTET STRING', s):
            continue
        d = x[1].a[1]
        n = d.a[1]
        if not ctx.obl('signature-length', isc(n) and n.a == 2 * fs and d.a[2].a[0] == 'bytes', fn,
                       '%s: the OCTET STRING holds %s bytes instead of %d' % (name, t.show(n), 2 * fs), s):
            continue
        be = order_of(kind, list(d.a[2].a[1:]))
        S, R_ = mkbn(m, s, app('bytes', *be[:fs])), mkbn(m, s, app('bytes', *be[fs:]))
        # s = d*r + e mod n
        es = [y for y in S.a[1:3] if y.op == 'app' and y.a[0] == 'rand'] if S.op == 'app' and S.a[0] == 'madd' else []
        if not ctx.obl('nonce-is-fresh-and-below-order', len(es) == 1 and es[0].a[2] is ORD, fn,
                       '%s: first half is %s, not (d*r + e) mod n with e drawn uniformly below n' % (name, t.show(S, 3)[:200]), s):
            continue
        e = es[0]
        ctx.obl('s-equation', S is madd(mmul(app('d'), R_, ORD), e, ORD), fn,
                '%s: first half is %s, not (d*r + e) mod n for the emitted r' % (name, nm(S)[:300]), s)
        h = field_hash(m, s, bts('tbs', 0, tbslen))
        P = smul(e, app('gen', G))
        want = btrunc(s, gfmul(h, px(P), POLY), c(ob - 1, 32)) if h is not None else None
        ctx.obl('r-equation', want is R_, fn, '%s: second half is %s, not the low bits of h*x(eP)' % (name, nm(R_)[:300]), s)
        for nme, v in (('r', R_), ('s', S), ('x(eP)', px(P))):
            ctx.obl('nonzero', s.decide(t.beq(v, ZERO_BN)) is False, fn, '%s: a signature is emitted although %s may be zero' % (name, nme), s)


def c03(ctx):
    for deg, ob in SIZES:
        for kind in ('le', 'be'):
            need = objsize(2 * ((ob + 7) // 8))
            for have in (need, need - 1, need + 1, need + 40) + ((0, 1, need // 2) if ctx.thorough or deg < 170 else ()):
                buffer_scenario(ctx, kind, deg, ob, have, need, False)
            buffer_scenario(ctx, kind, deg, ob, 0, need, True)
            buffer_scenario(ctx, kind, deg, ob, 1000, need, True)


@scen
def buffer_scenario(ctx, kind, deg, ob, have, need, nullsig):
    name = 'sign/%s m=%d: %s capacity %d (needed %d)' % (kind, deg, 'size query,' if nullsig else 'buffer,', have, need)
    ctx.scenario(name)
    fn, fs, m, ln, outs = sign_run(ctx, kind, deg, ob, have, nullsig=nullsig)
    for pr in m.problems:
        ctx.obl('no-write-outside-buffer', False, pr[1], '%s: %s %s' % (name, pr[0], pr[2]), pr[4])
    for s, r in outs:
        if not isc(r):
            ctx.obl('definite-result', False, fn, name + ': result is not definite', s)
            continue
        got = m.load(s, ln, 64)
        ok = t.sval(r) > 0
        if nullsig:
            if ok:
                ctx.obl('query-reports-size', isc(got) and got.a == need, fn, '%s: size query reports %s' % (name, t.show(got)), s)
            else:
                ctx.obl('query-succeeds', bool(failed(s)), fn, name + ': size query fails', s)
            continue
        if have < need:
            ctx.obl('short-buffer-refused', not ok, fn, name + ': signing into a short buffer reports success', s)
            o = s.mem['out']
            ctx.obl('short-buffer-untouched', 'derout' not in o.attrs and not o.cells and o.default == 'undef', fn,
                    name + ': the short buffer is written', s)
            if not failed(s):
                ctx.obl('short-buffer-reports-size', isc(got) and got.a == need, fn, '%s: reported size is %s' % (name, t.show(got)), s)
        elif ok:
            x = s.mem['out'].attrs.get('derout')
            ctx.obl('length-matches-output', isc(got) and got.a == need and x is not None, fn,
                    '%s: reported length %s, encoding is %d bytes' % (name, t.show(got), need), s)
            o = s.mem['out']
            ctx.obl('nothing-else-written', not o.cells and o.default == 'undef', fn, name + ': bytes beyond the encoding are written', s)


CHECKS = {
    'C01': (c01, 'Abstract interpretation of the registered verify operation for both byte orders, both signature encodings and the sizes of all ten '
            'standard curves, with digest, signature bytes, key and curve as unknowns. Rule: every path that returns success carries the facts '
            's,r in [1,n-1], sP+rQ finite and r = low bits of h*x(sP+rQ) as value-numbered terms; every path that returns failure carries the negation of one.'),
    'C02': (c02, 'Abstract interpretation of the registered sign operation (loops to a fixpoint). Rule: on every successful path the emitted DER OCTET '
            'STRING consists of the value-numbered terms s=(d*r+e) mod n and r=low bits of h*x(eP), both known nonzero, in the byte order of the key type, '
            'with e drawn below n.'),
    'C03': (c03, 'Abstract interpretation of the sign operation over buffer capacities around the required size. Rule: bounds of every store, definite '
            'result, untouched short buffer, reported length equals the DER length.'),
}
