"""C05-C07: key and parameter encodings."""
import terms as t
from terms import c, sym, app, ptr, isc, NULL, ZERO_BN, ONE_BN
import models, gf
from models import mkbn, smul, padd, px, py, gfmul, gfadd, gfinv, gfsqr, bnbit
from project import *

CURVES = ['uacurve%d' % i for i in range(10)]


def curves(ctx):
    """curve name -> (group term, p, a, b, generator, order), read from the curve selection control"""
    if getattr(ctx, '_curves', None):
        return ctx._curves
    ctl = ctx.proj.fn('pmeth', 'le', 'ctrl', 1)
    out = {}
    for nme in CURVES:
        m = ctx.proj.machine(keep='all')
        st = m.initial()
        kc = keyctx(st, 'le')
        pc = obj(st, 'pctx', 'EVP_PKEY_CTX', pkey=NULL, data=kc)
        for s, r in m.call_fn(ctl, [pc, cstr(st, 'curve'), cstr(st, nme)], st):
            if isc(r) and t.sval(r) > 0:
                g = m.load_at(s, s.mem[kc.a[0]], LAY['group'], 8, 64)
                if g.op == 'p' and g.a[0] in s.mem:
                    v = s.mem[g.a[0]].attrs.get('grp')
                    if v is not None and v.op == 'app' and v.a[0] == 'curve':
                        out[nme] = v
        if nme not in out and getattr(m, 'last_curve', None) is not None:
            out[nme] = m.last_curve  # built, though the control does not deliver it (which is not for this function to judge)
    ctx._curves = out
    return out


def deg_of(g):
    return g.a[1].a[1].bit_length() - 1


def bytes_of(m, st, p, n):
    """n byte terms at pointer p"""
    x = m.region(st, p, 'spec')
    if x is None:
        return None
    rid, off = x
    if not isc(off):
        return None
    return [m.load_at(st, st.mem[rid], off.a + i, 1, 8) for i in range(n)]


def keyparts(m, s, pk):
    """(type, EC_KEY attrs, sbox byte terms or None) of a decoded EVP_PKEY"""
    a = s.mem[pk].attrs
    k = a.get('key')
    if k is None or k.op != 'p' or k.a[0] not in s.mem:
        return None
    R = s.mem[k.a[0]]
    e = m.load_at(s, R, LAY['ec'], 8, 64)
    if e.op != 'p' or e.a[0] not in s.mem:
        return None
    E = s.mem[e.a[0]].attrs
    sb = m.load_at(s, R, LAY['sbox'], 8, 64)

    def at(k_, f):
        p = E.get(k_)
        if p is None or p.op != 'p' or p.a[0] not in s.mem:
            return None
        return s.mem[p.a[0]].attrs.get(f)
    return dict(type=a.get('type'), group=at('group', 'grp'), priv=at('priv', 'val'), pub=at('pub', 'pt'), sboxp=sb,
                sbox=[m.load_at(s, s.mem[sb.a[0]], sb.a[1].a + i, 1, 8) for i in range(64)] if sb.op == 'p' and sb.a[0] in s.mem and isc(sb.a[1]) else None)


def fieldbits(deg):
    def f(v):
        if v.op == 'app' and v.a[0] in ('px', 'py', 'gfmul', 'gfquad', 'gfsqrt'):
            return (0, deg)
        return None
    return f


# ---------------------------------------------------------------- public keys
def c06(ctx):
    cs = curves(ctx)
    ctx.need(len(cs) == 10, 'the standard curves cannot be selected')
    for nme in CURVES:
        for kind in ('le', 'be'):
            pub_roundtrip(ctx, nme, cs[nme], kind)
    for nme in (CURVES if ctx.thorough else CURVES[:3]):
        deg = deg_of(cs[nme])
        fs = (deg + 7) // 8
        for kind in ('le', 'be'):
            for L in (fs, fs + 1, fs - 1) if nme == CURVES[0] or ctx.thorough else (fs,):
                for flip in (0, 1):
                    pub_decode(ctx, nme, cs[nme], kind, L, flip)


@scen
def pub_roundtrip(ctx, nme, g, kind):
    name = 'public key %s/%s: encode then decode' % (nme, kind)
    ctx.scenario(name)
    enc, dec = ctx.proj.fn('ameth', kind, 'public', 1), ctx.proj.fn('ameth', kind, 'public', 0)
    deg = deg_of(g)
    fs = (deg + 7) // 8
    P, A, B = g.a[1], g.a[2], g.a[3]
    Q = app('Q')
    X, Y = px(Q), py(Q)
    m = ctx.proj.machine(keep='all', degree=lambda gg: deg, bnbits=fieldbits(deg), curvepts=[(X, Y, P, A, B)])
    st = m.initial()
    pk = obj(st, 'pkey', 'EVP_PKEY', type=c(nid('dstu4145' + kind), 32), key=dstukey(st, gval=g))
    xp = obj(st, 'xp', 'X509_PUBKEY')
    # points of the prime-order subgroup satisfy trace(x) = trace(a) (cofactors 2 and 4 of the standard curves)
    st.assume(t.beq(gf.trace(X, P), gf.trace(A, P)), True)
    outs = m.call_fn(enc, [xp, pk], st)
    ctx.need(outs or m.problems, 'public key encoding has no analysable path')
    nok = 0
    for s, r in outs:
        if not isc(r):
            ctx.obl('encode-definite', False, enc, name + ': result is not definite', s)
            continue
        xz = s.decide(t.beq(X, ZERO_BN))
        if t.sval(r) <= 0:
            degenerate = any(s.decide(t.beq(v, ZERO_BN)) is True for v in (gfadd(X, ONE_BN), X))
            ctx.obl('encode-fails-only-on-fault', bool(failed(s)) or degenerate, enc, name + ': encoding fails without a failing step', s)
            continue
        a = s.mem['xp'].attrs
        d = pubdata(m, s, a)
        if not ctx.obl('encoded-as-octet-string', d is not None and a.get('aobj') is not None, enc, name + ': not a DER OCTET STRING', s):
            continue
        n, bs = d
        ctx.obl('algorithm-is-key-type', models.obj_nid(m, s, a['aobj']) == nid('dstu4145' + kind), enc, name + ': wrong algorithm identifier', s)
        if not ctx.obl('field-sized-encoding', len(bs) == fs, enc, '%s: encoding of %d bytes instead of %d' % (name, len(bs), fs), s):
            continue
        v = mkbn(m, s, app('bytes', *(reversed(bs) if kind == 'le' else bs)))
        z = gfmul(Y, gfinv(X, P), P)
        if xz:
            ctx.obl('zero-x-encodes-as-zero', v is ZERO_BN, enc, name + ': the point with x=0 is not encoded as zeros', s)
        else:
            ok = v in (X, gfadd(X, ONE_BN)) and s.decide(t.beq(gf.trace(z, P), ONE_BN)) is not None and \
                s.decide(bnbit(v, c(0, 32))) is s.decide(t.beq(gf.trace(z, P), ONE_BN))
            ctx.obl('compressed-form', ok, enc, name + ': the encoding is not x with its low bit replaced by the trace of y/x: ' + t.show(v, 5)[:200], s)
        pk2 = obj(s, 'pk2', 'EVP_PKEY', type=c(0, 32), key=NULL)
        nok += 1
        for s2, r2 in m.call_fn(dec, [pk2, xp], s):
            if not isc(r2):
                ctx.obl('decode-definite', False, dec, name + ': result is not definite', s2)
                continue
            if t.sval(r2) <= 0:
                ctx.obl('decode-accepts-encoded', bool(failed(s2)), dec, name + ': an encoded key is refused', s2)
                continue
            kp = keyparts(m, s2, 'pk2')
            if not ctx.obl('decoded-key-complete', kp is not None and kp['pub'] is not None and kp['group'] is not None, dec, name + ': decoded key has no public point', s2):
                continue
            ctx.obl('type-preserved', kp['type'] is c(nid('dstu4145' + kind), 32), dec, name + ': key type changes', s2)
            ctx.obl('curve-preserved', kp['group'] is g, dec, name + ': the decoded key is on another curve', s2)
            pt = kp['pub']
            if s2.decide(t.beq(X, ZERO_BN)):
                same = pt.op == 'app' and pt.a[0] == 'paff' and pt.a[1] is ZERO_BN and pt.a[2] is app('gfsqrt', P, B)
            else:
                same = pt is Q or pt.op == 'app' and pt.a[0] == 'paff' and pt.a[1] is X and pt.a[2] is Y
            ctx.obl('point-preserved', same, dec, '%s: a decoded public key differs from the encoded one: %s' % (name, t.show(pt, 4)[:300]), s2)
    for pr in m.problems:
        ctx.obl('codec-memory', False, pr[1], '%s: %s %s' % (name, pr[0], pr[2]), pr[4])
    ctx.obl('keys-are-encodable', nok > 0, enc, name + ': no path encodes')


def pubdata(m, s, a):
    """(length, byte terms) of the OCTET STRING held in the key bits"""
    kd = a.get('kdata')
    if kd is None or kd.op != 'p' or kd.a[0] not in s.mem:
        return None
    b = s.mem[kd.a[0]].attrs.get('blob')
    if not b or b[1].a[0] != 'der' or b[1].a[1].a[0] != 'd:oct' or b[1].a[1].a[2].a[0] != 'bytes':
        return None
    return b[1].a[1].a[1], list(b[1].a[1].a[2].a[1:])


def params_der(ctx, kind, g, sbox=None):
    """DER term of the parameters of a key on a standard curve, from the registered parameter encoder"""
    key = (kind, g, tuple(sbox) if sbox else None)
    memo = ctx.__dict__.setdefault('_pd', {})
    if key in memo:
        return memo[key]
    enc = ctx.proj.fn('ameth', kind, 'param', 1)
    m = ctx.proj.machine(keep='all', degree=lambda gg: deg_of(g))
    st = m.initial()
    pk = obj(st, 'pkey', 'EVP_PKEY', type=c(nid('dstu4145' + kind), 32), key=dstukey(st, gval=g, priv=False, pub=False))
    out = cells(st, 'out', 8)
    for s, r in m.call_fn(enc, [pk, out], st):
        q = m.load(s, out, 64)
        if q.op == 'p' and q.a[0] in s.mem and 'blob' in s.mem[q.a[0]].attrs:
            memo[key] = s.mem[q.a[0]].attrs['blob']
            return memo[key]
    raise AnalysisBroken('parameters of a standard curve cannot be encoded')


def derbuf(st, rid, n, term):
    p = obj(st, rid, None, kind='arg', size=n)
    st.w(rid).attrs['blob'] = (n, term)
    st.w(rid).default = 'input~blob:%d' % term.id
    return p


def algor(st, rid, kind, pd):
    """X509_ALGOR of a DSTU key with the given parameter DER"""
    n, term = pd
    data = derbuf(st, rid + '.params', n, term)
    s_ = obj(st, rid + '.str', 'ASN1_STRING', size=c(24, 64))
    put(st, s_, 0, t.trunc(n, 32))
    put(st, s_, 4, c(16, 32))
    put(st, s_, 8, data)
    o = obj(st, rid + '.obj', 'ASN1_OBJECT', static=1, nid=c(nid('dstu4145' + kind) if isinstance(kind, str) else kind, 32))
    return obj(st, rid, 'X509_ALGOR', aobj=o, atype=c(16, 32), aval=s_), o


@scen
def pub_decode(ctx, nme, g, kind, L, flip):
    """decoding arbitrary bytes: the result is the point the standard's expansion defines, or a refusal"""
    name = 'public key %s/%s: decode arbitrary %d bytes, low bit %s' % (nme, kind, L, 'replaced' if flip else 'kept')
    ctx.scenario(name)
    dec = ctx.proj.fn('ameth', kind, 'public', 0)
    deg = deg_of(g)
    fs = (deg + 7) // 8
    P, A, B = g.a[1], g.a[2], g.a[3]
    X0 = app('x')
    fb = fieldbits(deg)
    m = ctx.proj.machine(keep='all', degree=lambda gg: deg, bnbits=lambda v: (0, 8 * L) if v is X0 else fb(v))
    st = m.initial()
    al, o = algor(st, 'alg', kind, params_der(ctx, kind, g))
    # the degree is odd, so trace(1)=1 and every value is x or x+1 for exactly one x with trace(x)=trace(a)
    st.assume(t.beq(gf.trace(X0, P), gf.trace(A, P)), True)
    V = gfadd(X0, ONE_BN) if flip else X0
    bs = [models.digit(V, i) for i in range(L)]
    if kind == 'be':
        bs.reverse()
    kd = derbuf(st, 'kd', c(L + 2, 64), app('der', app('d:oct', c(L, 32), app('bytes', *bs))))
    xp = obj(st, 'xp', 'X509_PUBKEY', aobj=o, alg=al, kdata=kd, klen=c(L + 2, 32))
    pk2 = obj(st, 'pk2', 'EVP_PKEY', type=c(0, 32), key=NULL)
    outs = m.call_fn(dec, [pk2, xp], st)
    ctx.need(outs or m.problems, 'public key decoding has no analysable path')
    nok = 0
    for s, r in outs:
        if not isc(r):
            ctx.obl('decode-definite', False, dec, name + ': result is not definite', s)
            continue
        if L < fs:
            ctx.obl('short-encoding-refused', t.sval(r) <= 0, dec, name + ': a truncated key is accepted', s)
            continue
        if t.sval(r) <= 0:
            ctx.obl('refuse-only-invalid', bool(failed(s)), dec, name + ': refused without a failing step; facts %s' % (
                [(t.show(a, 3)[:60], v) for a, v in s.facts.items()][:4],), s)
            continue
        nok += 1
        kp = keyparts(m, s, 'pk2')
        if not ctx.obl('decoded-key-complete', kp is not None and kp['pub'] is not None, dec, name + ': decoded key has no public point', s):
            continue
        pt = kp['pub']
        if not ctx.obl('point-from-coordinates', pt.op == 'app' and pt.a[0] == 'paff', dec, name + ': the point is not set from checked coordinates', s):
            continue
        X, Y = pt.a[1], pt.a[2]
        if s.decide(t.beq(V, ZERO_BN)):
            ctx.obl('zero-expands-to-zero-x', X in (ZERO_BN, V) and Y is app('gfsqrt', P, B), dec, name + ': zeros do not expand to (0, sqrt b)', s)
            continue
        k = s.decide(bnbit(V, c(0, 32)))
        ctx.obl('x-is-encoded-value', X is X0, dec, '%s: x is %s' % (name, t.show(X, 4)[:200]), s)
        ctx.obl('x-in-subgroup-class', s.decide(t.beq(gf.trace(X, P), gf.trace(A, P))) is True, dec, name + ': the low bit of x is not recovered from the trace', s)
        xi = gfinv(X, P)
        cc = gfadd(gfadd(X, A), gfmul(B, gfsqr(xi, P), P))
        q = app('gfquad', P, cc)
        ok = False
        for z in (q, gfadd(q, ONE_BN)):
            if gfmul(z, X, P) is Y and k is not None and s.decide(t.beq(gf.trace(z, P), ONE_BN)) is k:
                ok = True
        ctx.obl('y-solves-curve-equation', ok, dec, '%s: y is not the root of the curve equation selected by the encoded bit: %s' % (name, t.show(Y, 3)[:200]), s)
    for pr in m.problems:
        ctx.obl('codec-memory', False, pr[1], '%s: %s %s' % (name, pr[0], pr[2]), pr[4])
    if L >= fs:
        ctx.obl('keys-are-decodable', nok > 0, dec, name + ': no path decodes')


# ---------------------------------------------------------------- private keys
DBITS = {}


@scen
def sbox_default(ctx):
    """the default substitution table as constant bytes: the one value the parameter encoder drops"""
    return None


def p8_data(m, s, a):
    kd, kl = a.get('kdata'), a.get('klen')
    if kd is None or kd.op != 'p' or kd.a[0] not in s.mem or kl is None or not isc(kl):
        return None
    return bytes_of(m, s, kd, kl.a)


def same_point(pt, Q):
    return pt is Q or pt is not None and pt.op == 'app' and pt.a[0] == 'paff' and pt.a[1] is px(Q) and pt.a[2] is py(Q)


def same_group(g1, g2):
    if g1 is g2:
        return True
    if g1 is None or g1.op != 'app' or g1.a[0] != 'curve' or g2.a[0] != 'curve':
        return False
    return g1.a[1:4] == g2.a[1:4] and g1.a[5] is g2.a[5] and same_point(g1.a[4], g2.a[4])


def c05(ctx):
    cs = curves(ctx)
    ctx.need(len(cs) == 10, 'the standard curves cannot be selected')
    for nme in CURVES:
        ob = cs[nme].a[5].a[1].bit_length()
        nb = (ob + 7) // 8
        lens = sorted({nb, nb - 1, 1} | ({nb // 2, nb - 2, 2, 3} if ctx.thorough else set()))
        for kind in ('le', 'be'):
            for L in lens if nme in (CURVES[0], CURVES[6]) or ctx.thorough else [nb]:
                for sb in ((False, True) if nme in (CURVES[0], CURVES[6]) else (False,)):
                    priv_roundtrip(ctx, nme, cs[nme], kind, L, sb)
    for nme in (CURVES[0], CURVES[6]) if not ctx.thorough else CURVES:
        fs = (deg_of(cs[nme]) + 7) // 8
        for kind in ('le', 'be'):
            for L in (1, fs - 1, fs, fs + 1):
                priv_decode(ctx, nme, cs[nme], kind, L)
    for kind in ('le', 'be'):
        priv_refuse(ctx, cs[CURVES[0]], kind)


@scen
def priv_refuse(ctx, g, kind):
    dec = ctx.proj.fn('ameth', kind, 'private', 0)
    for what in ('foreign algorithm', 'parameters that are no sequence', 'missing parameters', 'malformed parameters'):
        ctx.scenario('private key/%s with %s' % (kind, what))
        m = ctx.proj.machine(keep='all', degree=lambda gg: deg_of(g), d2i_reject=1)
        st = m.initial()
        al, o = algor(st, 'alg', nid('rsaEncryption') if what == 'foreign algorithm' else kind, params_der(ctx, kind, g))
        if what.startswith('parameters'):
            st.w('alg').attrs.update(atype=c(5, 32), aval=NULL)
        if what.startswith('missing'):
            st.w('alg').attrs.update(atype=c(-1, 32), aval=NULL)
        if what.startswith('malformed'):
            st.w('alg.params').attrs.pop('blob')
        p8 = obj(st, 'p8', 'PKCS8_PRIV_KEY_INFO', aobj=o, alg=al, kdata=buf(st, 'kd', 20), klen=c(20, 32))
        pk2 = obj(st, 'pk2', 'EVP_PKEY', type=c(0, 32), key=NULL)
        for s, r in m.call_fn(dec, [pk2, p8], st):
            ctx.obl('unusable-key-refused', isc(r) and t.sval(r) <= 0, dec, 'private key with %s is accepted' % what, s)
        for pr in m.problems:
            ctx.obl('unusable-key-refused', False, pr[1], 'private key with %s: %s %s' % (what, pr[0], pr[2]), pr[4])


@scen
def priv_roundtrip(ctx, nme, g, kind, L, sb):
    name = 'private key of %d bytes on %s/%s%s: encode then decode' % (L, nme, kind, ', custom table' if sb else '')
    ctx.scenario(name)
    enc, dec = ctx.proj.fn('ameth', kind, 'private', 1), ctx.proj.fn('ameth', kind, 'private', 0)
    D = app('d')
    m = ctx.proj.machine(keep='all', bnbits=lambda v: (8 * L - 7, 8 * L) if v is D else None, degree=lambda gg: deg_of(g))
    st = m.initial()
    k = dstukey(st, gval=g, sbox=buf(st, 'S', 64) if sb else None)
    pk = obj(st, 'pkey', 'EVP_PKEY', type=c(nid('dstu4145' + kind), 32), key=k)
    p8 = obj(st, 'p8', 'PKCS8_PRIV_KEY_INFO')
    nok = 0
    outs = m.call_fn(enc, [p8, pk], st)
    ctx.need(outs or m.problems, 'private key encoding has no analysable path')
    for s, r in outs:
        if not isc(r):
            ctx.obl('encode-definite', False, enc, name + ': result is not definite', s)
            continue
        if t.sval(r) <= 0:
            ctx.obl('encode-fails-only-on-fault', bool(failed(s)), enc, name + ': encoding fails without a failing step', s)
            continue
        nok += 1
        a = s.mem['p8'].attrs
        bs = p8_data(m, s, a)
        if not ctx.obl('key-bytes-present', bs is not None, enc, name + ': no key bytes', s):
            continue
        ctx.obl('little-endian-bytes', len(bs) >= L and bs[:L] == [models.digit(D, i) for i in range(L)] and all(isc(x) and x.a == 0 for x in bs[L:]), enc,
                name + ': the key bytes are not the little-endian private key', s)
        ctx.obl('algorithm-is-key-type', models.obj_nid(m, s, a.get('aobj')) == nid('dstu4145' + kind), enc, name + ': wrong algorithm identifier', s)
        pk2 = obj(s, 'pk2', 'EVP_PKEY', type=c(0, 32), key=NULL)
        for s2, r2 in m.call_fn(dec, [pk2, p8], s):
            if not isc(r2) or t.sval(r2) <= 0:
                ctx.obl('decode-accepts-encoded', isc(r2) and bool(failed(s2)), dec, name + ': an encoded key is refused', s2)
                continue
            check_private(ctx, m, s2, 'pk2', name, dec, kind, g, D, sb)
    for pr in m.problems:
        ctx.obl('codec-memory', False, pr[1], '%s: %s %s' % (name, pr[0], pr[2]), pr[4])
    ctx.obl('keys-are-encodable', nok > 0, enc, name + ': no path encodes')


def check_private(ctx, m, s, rid, name, where, kind, g, D, sb):
    kp = keyparts(m, s, rid)
    if not ctx.obl('decoded-key-complete', kp is not None and None not in (kp['priv'], kp['pub'], kp['group']), where,
                   name + ': the decoded key lacks a part', s):
        return
    ctx.obl('type-preserved', kp['type'] is c(nid('dstu4145' + kind), 32), where, name + ': key type changes', s)
    ctx.obl('curve-preserved', same_group(kp['group'], g), where, name + ': the decoded key is on another curve', s)
    ctx.obl('private-preserved', kp['priv'] is D, where, '%s: the private key becomes %s' % (name, t.show(kp['priv'], 3)[:200]), s)
    gen = kp['group'].a[4] if kp['group'].a[0] == 'curve' else app('gen', kp['group'])
    ctx.obl('public-key-matches', kp['pub'] is models.pneg(smul(D, gen)), where,
            '%s: the public key is %s, not -dP' % (name, t.show(kp['pub'], 4)[:200]), s)
    if sb:
        check_sbox(ctx, m, s, kp, name, where)
    else:
        ctx.obl('no-table-invented', kp['sboxp'] is NULL, where, name + ': a substitution table appears', s)


def check_sbox(ctx, m, s, kp, name, where):
    S = bts('S', 0, 64)
    if kp['sboxp'] is NULL:
        # the default table is represented by absence: it must be known to be the default
        dflt = [a for a, v in s.facts.items() if v and a.op == 'eq' and 'memcmp' in t.show(a, 3)]
        ctx.obl('table-dropped-only-if-default', bool(dflt), where, name + ': a custom substitution table is lost', s)
    else:
        ctx.obl('table-preserved', kp['sbox'] == S, where, name + ': the substitution table changes', s)


@scen
def priv_decode(ctx, nme, g, kind, L):
    name = 'private key on %s/%s: decode arbitrary %d bytes' % (nme, kind, L)
    ctx.scenario(name)
    dec = ctx.proj.fn('ameth', kind, 'private', 0)
    m = ctx.proj.machine(keep='all', degree=lambda gg: deg_of(g))
    st = m.initial()
    al, o = algor(st, 'alg', kind, params_der(ctx, kind, g))
    kd = buf(st, 'kd', L)
    p8 = obj(st, 'p8', 'PKCS8_PRIV_KEY_INFO', aobj=o, alg=al, kdata=kd, klen=c(L, 32))
    pk2 = obj(st, 'pk2', 'EVP_PKEY', type=c(0, 32), key=NULL)
    outs = m.call_fn(dec, [pk2, p8], st)
    ctx.need(outs or m.problems, 'private key decoding has no analysable path')
    for s, r in outs:
        if not isc(r) or t.sval(r) <= 0:
            ctx.obl('refuse-only-invalid', isc(r) and bool(failed(s)), dec, name + ': refused without a failing step', s)
            continue
        D = mkbn(m, s, app('bytes', *reversed(bts('kd', 0, L))))
        check_private(ctx, m, s, 'pk2', name, dec, kind, g, D, False)
    for pr in m.problems:
        ctx.obl('codec-memory', False, pr[1], '%s: %s %s' % (name, pr[0], pr[2]), pr[4])


# ---------------------------------------------------------------- parameters
def irreducible_samples():
    """(degree, exponents) of the polynomials used for explicitly described curves: trinomials and pentanomials of several sizes"""
    return [(167, [6]), (163, [7, 6, 3]), (257, [12]), (173, [10, 2, 1]), (431, [5, 3, 1])]


def custom_group(deg, ex, a):
    pv = (1 << deg) | 1
    for e in ex:
        pv |= 1 << e
    return app('curve', app('bnc', pv), app('bnc', a), app('B'), app('gp'), app('N'))


def c07(ctx):
    cs = curves(ctx)
    ctx.need(len(cs) == 10, 'the standard curves cannot be selected')
    for nme in CURVES:
        for kind in ('le', 'be'):
            for sb in (False, True) if nme in CURVES[:2] or ctx.thorough else (False,):
                param_roundtrip(ctx, nme, cs[nme], kind, sb)
    for deg, ex in irreducible_samples():
        for a in (0, 1):
            for kind in ('le', 'be'):
                param_roundtrip(ctx, 'explicit curve of degree %d with %d middle terms, a=%d' % (deg, len(ex), a), custom_group(deg, ex, a), kind, False, (deg, ex, a))
    param_refuse(ctx)


@scen
def param_roundtrip(ctx, nme, g, kind, sb, spec=None):
    name = 'parameters %s/%s%s: encode then decode' % (nme, kind, ', custom table' if sb else '')
    ctx.scenario(name)
    enc, dec = ctx.proj.fn('ameth', kind, 'param', 1), ctx.proj.fn('ameth', kind, 'param', 0)
    deg = deg_of(g)
    gp = g.a[4]
    custom = gp.a[0] == 'gp'
    fb = fieldbits(deg)
    P, A, B = g.a[1], g.a[2], g.a[3]
    kw = {}
    if custom:
        kw['curvepts'] = [(px(gp), py(gp), P, A, B)]
    m = ctx.proj.machine(keep='all', degree=lambda gg: deg, bnbits=lambda v: (1, deg) if v is B else fb(v), **kw)
    st = m.initial()
    if custom:
        st.assume(t.beq(gf.trace(px(gp), P), gf.trace(A, P)), True)
        st.assume(t.beq(B, ZERO_BN), False)
    k = dstukey(st, gval=g, sbox=buf(st, 'S', 64) if sb else None)
    pk = obj(st, 'pkey', 'EVP_PKEY', type=c(nid('dstu4145' + kind), 32), key=k)
    out = cells(st, 'out', 8)
    outs = m.call_fn(enc, [pk, out], st)
    ctx.need(outs or m.problems, 'parameter encoding has no analysable path')
    nok = 0
    for s, r in outs:
        if isc(r) and t.sval(r) <= 0:
            degenerate = custom and any(s.decide(t.beq(v, ZERO_BN)) is True for v in (gfadd(px(gp), ONE_BN), px(gp)))
            ctx.obl('encode-fails-only-on-fault', bool(failed(s)) or degenerate, enc, name + ': encoding fails without a failing step', s)
            continue
        q = m.load(s, out, 64)
        b = s.mem[q.a[0]].attrs.get('blob') if q.op == 'p' and q.a[0] in s.mem else None
        if not ctx.obl('encoding-produced', b is not None and b[1].a[0] == 'der', enc, name + ': no encoding is produced', s):
            continue
        nok += 1
        ctx.obl('length-is-encoding-length', t.sext(r, 64) is b[0], enc, name + ': the reported length is not that of the encoding', s)
        check_wire(ctx, s, b[1].a[1], g, name, enc, spec if custom else nid(nme), sb)
        pp = cells(s, 'pp', 8)
        put(s, pp, 0, q)
        pk2 = obj(s, 'pk2', 'EVP_PKEY', type=c(nid('dstu4145' + kind), 32), key=NULL)
        for s2, r2 in m.call_fn(dec, [pk2, pp, r], s):
            if not isc(r2) or t.sval(r2) <= 0:
                ctx.obl('decode-accepts-encoded', isc(r2) and bool(failed(s2)), dec, name + ': encoded parameters are refused', s2)
                continue
            kp = keyparts(m, s2, 'pk2')
            if not ctx.obl('decoded-key-complete', kp is not None and kp['group'] is not None, dec, name + ': no curve is decoded', s2):
                continue
            if custom and s2.decide(t.beq(px(gp), ZERO_BN)):
                continue
            ctx.obl('type-preserved', kp['type'] is c(nid('dstu4145' + kind), 32), dec, name + ': key type changes', s2)
            std = any(v and a.op == 'eq' and 'groupcmp' in t.show(a, 3) for a, v in s2.facts.items())
            if not (custom and std):
                ctx.obl('curve-preserved', same_group(kp['group'], g), dec, '%s: the decoded curve is %s' % (name, t.show(kp['group'], 3)[:300]), s2)
            if sb:
                check_sbox(ctx, m, s2, kp, name, dec)
            else:
                ctx.obl('no-table-invented', kp['sboxp'] is NULL, dec, name + ': a substitution table appears', s2)
    for pr in m.problems:
        ctx.obl('codec-memory', False, pr[1], '%s: %s %s' % (name, pr[0], pr[2]), pr[4])
    ctx.obl('parameters-are-encodable', nok > 0, enc, name + ': no path encodes')


def wire(d):
    """shape and leaves of a DER term; a CHOICE is transparent"""
    if d.a[0] == 'absent':
        return None
    if d.a[0] == 'd:obj':
        return ('obj', d.a[1])
    if d.a[0] == 'd:int':
        return ('int', d.a[1])
    if d.a[0] == 'd:oct':
        return ('oct', d.a[2])
    if d.a[0] == 'd:C':
        return wire(d.a[3]) if len(d.a) > 3 else ('?',)
    if d.a[0] == 'd:S':
        return ['seq'] + [wire(x) for x in d.a[2:]]
    return ('?',)


def check_wire(ctx, s, d, g, name, where, nm, sb):
    """the encoding carries exactly what DSTU 4145 annex prescribes, whatever the decoder would make of it"""
    w = wire(d)
    ok = isinstance(w, list) and len(w) == 3
    cur = w[1] if ok else None
    if not ctx.obl('wire-format', ok, where, name + ': the parameters are not a sequence of curve and substitution table', s):
        return
    if sb:
        ctx.obl('wire-format', w[2] is None or w[2] == ('oct', app('bytes', *bts('S', 0, 64))), where, name + ': the substitution table is not written verbatim', s)
    if isinstance(nm, int):
        if cur and cur[0] == 'obj':
            ctx.obl('wire-format', cur[1] is c(nm, 32), where, name + ': another curve is named', s)
        return
    deg, ex, a = nm
    if cur and cur[0] == 'obj':
        return
    poly = ('int', app('bnc', ex[0])) if len(ex) == 1 else ['seq'] + [('int', app('bnc', e)) for e in sorted(ex)]
    ok = isinstance(cur, list) and len(cur) == 6
    ctx.obl('wire-format', ok and cur[1] == ['seq', ('int', app('bnc', deg)), poly], where, name + ': the field polynomial is not written as prescribed', s)
    ctx.obl('wire-format', ok and cur[2] == ('int', app('bnc', a)) and cur[4] == ('int', app('N')), where, name + ': a or n are not written as prescribed', s)
    fs = (deg + 7) // 8
    for i, val in ((3, app('B')), (5, None)):
        leaf = cur[i] if ok else None
        bs = list(leaf[1].a[1:]) if leaf and leaf[0] == 'oct' and leaf[1].a[0] == 'bytes' else []
        if name.split('/')[1][:2] == 'be':
            bs = bs[::-1]
        v = bs[0].a[1] if bs and bs[0].op == 'app' and bs[0].a[0] == 'digit' else None
        good = v is not None and len(bs) == fs and bs == [models.digit(v, k) for k in range(fs)]
        X = px(app('gp'))
        if val is None and s.decide(t.beq(X, ZERO_BN)) is True:
            continue
        good = good and (v is val if val is not None else v in (X, gfadd(X, ONE_BN)))
        ctx.obl('wire-format', good, where, name + ': %s is not written as prescribed' % ('b' if val is not None else 'the base point'), s)


def subst(d, path, new):
    if not path:
        return new
    a = list(d.a)
    a[path[0]] = subst(a[path[0]], path[1:], new)
    return app(*a)


def decode_params(ctx, kind, term, n, **kw):
    m = ctx.proj.machine(keep='all', **kw)
    st = m.initial()
    buf_ = derbuf(st, 'in', c(n, 64), term)
    pp = cells(st, 'pp', 8)
    put(st, pp, 0, buf_)
    pk2 = obj(st, 'pk2', 'EVP_PKEY', type=c(nid('dstu4145' + kind), 32), key=NULL)
    return m, m.call_fn(ctx.proj.fn('ameth', kind, 'param', 0), [pk2, pp, c(n, 32)], st)


@scen
def param_refuse(ctx):
    cs = curves(ctx)
    for kind in ('le', 'be'):
        dec = ctx.proj.fn('ameth', kind, 'param', 0)
        _, d = params_der(ctx, kind, cs[CURVES[1]])
        cases = []
        for n in (0, 1, 32, 63, 65, 128):
            cases.append(('a substitution table of %d bytes' % n, subst(d, (1, 3), app('d:oct', c(n, 32), app('bytes', *bts('x', 0, n)))), ()))
        cases.append(('an unknown curve identifier', subst(d, (1, 2, 3), app('d:obj', c(nid('dstu34311'), 32))), ()))
        for deg, ex in ((167, [6]), (163, [7, 6, 3])):
            _, dd = custom_der(ctx, kind, custom_group(deg, ex, 1))
            base = (1, 2, 3)
            leaves = [('degree', base + (2, 2))]
            if len(ex) == 1:
                leaves.append(('trinomial exponent', base + (2, 3, 3)))
            else:
                leaves += [('pentanomial exponent %d' % i, base + (2, 3, 3, 2 + i)) for i in range(3)]
            for what, pth in leaves:
                cases.append(('zero ' + what, subst(dd, pth, app('d:int', app('bnc', 0))), ()))
                cases.append(('any ' + what, subst(dd, pth, app('d:int', app('E'))), ('exponent',)))
            cases.append(('coefficient a = 2', subst(dd, base + (3,), app('d:int', app('bnc', 2))), ()))
            cases.append(('any coefficient a', subst(dd, base + (3,), app('d:int', app('AA'))), ('a',)))
        for what, term, mode in cases:
            name = 'parameters/%s with %s' % (kind, what)
            ctx.scenario(name)
            m, outs = decode_params(ctx, kind, term, 400, arr2poly_obl=True, degree=lambda g: 167)
            for s, r in outs:
                ok = not (isc(r) and t.sval(r) <= 0)
                if not mode:
                    ctx.obl('unusable-parameters-refused', not ok, dec, name + ' are accepted', s)
                elif mode == ('a',) and ok:
                    ctx.obl('unusable-parameters-refused', s.decide(t.beq(app('AA'), ZERO_BN)) is True or s.decide(t.beq(app('AA'), ONE_BN)) is True, dec,
                            name + ': a other than 0 and 1 is accepted', s)
                else:
                    ctx.obl('unusable-parameters-refused', True, dec)
            for pr in m.problems:
                ctx.obl('unusable-parameters-refused' if pr[0] == 'negative-exponent' else 'codec-memory', False, pr[1], '%s: %s %s' % (name, pr[0], pr[2]), pr[4])
        name = 'parameters/%s that do not parse' % kind
        ctx.scenario(name)
        m = ctx.proj.machine(keep='all', d2i_reject=True)
        st = m.initial()
        pp = cells(st, 'pp', 8)
        put(st, pp, 0, buf(st, 'in', 40))
        pk2 = obj(st, 'pk2', 'EVP_PKEY', type=c(nid('dstu4145' + kind), 32), key=NULL)
        for s, r in m.call_fn(dec, [pk2, pp, c(40, 32)], st):
            ctx.obl('unusable-parameters-refused', isc(r) and t.sval(r) <= 0, dec, name + ' are accepted', s)
        for pr in m.problems:
            ctx.obl('codec-memory', False, pr[1], '%s: %s %s' % (name, pr[0], pr[2]), pr[4])


def custom_der(ctx, kind, g):
    return custom_ders(ctx, kind, g)[0][:2]


def custom_ders(ctx, kind, g):
    """[(length, DER term, path facts)] of the ways the registered encoder describes the explicit curve"""
    enc = ctx.proj.fn('ameth', kind, 'param', 1)
    deg, B = deg_of(g), g.a[3]
    fb = fieldbits(deg)
    m = ctx.proj.machine(keep='all', degree=lambda gg: deg, bnbits=lambda v: (1, deg) if v is B else fb(v))
    st = m.initial()
    st.assume(t.beq(B, ZERO_BN), False)
    pk = obj(st, 'pkey', 'EVP_PKEY', type=c(nid('dstu4145' + kind), 32), key=dstukey(st, gval=g, priv=False, pub=False))
    out = cells(st, 'out', 8)
    res = []
    for s, r in m.call_fn(enc, [pk, out], st):
        q = m.load(s, out, 64)
        if q.op == 'p' and q.a[0] in s.mem and 'blob' in s.mem[q.a[0]].attrs:
            n, d = s.mem[q.a[0]].attrs['blob']
            if len(wire(d.a[1])) > 1 and isinstance(wire(d.a[1])[1], list):
                res.append((n, d, dict(s.facts)))
    if res:
        return res
    raise AnalysisBroken('parameters of an explicit curve cannot be encoded')


CHECKS = {
    'C05': (c05, 'private key codec'),
    'C06': (c06, 'public key codec'),
    'C07': (c07, 'parameters'),
}
