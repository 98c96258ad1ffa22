"""C18 failures are never reported as success, C19 failures never corrupt memory or leak: every registered engine operation
analysed with each single step failing."""
import terms as t
from terms import c, sym, app, ptr, isc, NULL
import models
from project import *
from checks.codec import curves, deg_of, CURVES, params_der, derbuf, algor, keyparts, same_group, same_point
from checks.sigs import SIZES, objsize

KINDS = ('le', 'be')
FAULTS = {'P': 'a step fails', 'A': 'an allocation fails'}


def pos(r, s):
    """may the result mean success?"""
    return r is not None and (t.sval(r) > 0 if isc(r) else s.decide(t.slt(c(0, r.w), r)) is not False)


def nonnull(r, s):
    return r is not None and r is not NULL


def pkey(st, kind, rid='pkey', **kw):
    k = dstukey(st, rid + '.key', **kw)
    return obj(st, rid, 'EVP_PKEY', type=c(nid('dstu4145' + kind), 32), key=k)


def empty(st, kind, rid='pkey'):
    return obj(st, rid, 'EVP_PKEY', type=c(nid('dstu4145' + kind), 32), key=NULL)


def pctx(st, kind, pk=NULL, grp=NULL, sbox=NULL):
    return obj(st, 'pctx', 'EVP_PKEY_CTX', pkey=pk, data=keyctx(st, kind, grp=grp, sbox=sbox))


def table(st, rid='S', kind='heap'):
    return obj(st, rid, None, kind=kind, size=c(64, 64), default='input')


# one entry: name -> builder(ctx, m, st) returning (function, arguments, success predicate)
def ops(ctx):
    P = ctx.proj
    cs = curves(ctx)
    g = cs[CURVES[0]]
    G = app('G')
    deg, ob = SIZES[0]
    out = {}

    def add(name, fn, build, good=pos, back=None, **cfg):
        out[name] = (fn, build, good, back, cfg)
    for kind in KINDS:
        pm, am = P.tables()['pmeth'][kind], P.tables()['ameth'][kind]
        sg = '/' + kind
        sized = dict(degree=lambda gg: deg, bnbits=lambda v: (ob, ob) if v is app('order', G) else (0, ob) if v.op == 'app' and v.a[0] in (
            'madd', 'mmul', 'rand') else (0, deg) if v.op == 'app' and v.a[0] in ('gfmul', 'px', 'py') else None)
        add('context init' + sg, P.fn('pmeth', kind, 'init', 0), lambda st: [obj(st, 'pctx', 'EVP_PKEY_CTX', pkey=NULL, data=NULL)])

        def cp(st, kind=kind):
            src = obj(st, 'src', 'EVP_PKEY_CTX', pkey=NULL, data=keyctx(st, kind, grp=group(st, 'GG', G), sbox=table(st)))
            return [obj(st, 'dst', 'EVP_PKEY_CTX', pkey=NULL, data=NULL), src]
        if 'copy' in pm:
            add('context copy' + sg, P.fn('pmeth', kind, 'copy', 0), cp)
        add('key generation' + sg, P.fn('pmeth', kind, 'keygen', 1),
            lambda st, kind=kind: [pctx(st, kind, grp=group(st, 'GG', G), sbox=table(st)), obj(st, 'new', 'EVP_PKEY', type=c(0, 32), key=NULL)], widen_after=0)
        add('key generation, default curve' + sg, P.fn('pmeth', kind, 'keygen', 1),
            lambda st, kind=kind: [pctx(st, kind), obj(st, 'new', 'EVP_PKEY', type=c(0, 32), key=NULL)], widen_after=0)
        for nm, ln in (('OCTET STRING', 46), ('size query', None)):
            def sgn(st, kind=kind, ln=ln):
                n = cells(st, 'siglen', 8)
                put(st, n, 0, c(ln or 0, 64))
                return [pctx(st, kind, pkey(st, kind, gval=G)), NULL if ln is None else obj(st, 'out', None, kind='arg', size=c(ln, 64)), n, buf(st, 'tbs', 32), c(32, 64)]
            add('sign, %s%s' % (nm, sg), P.fn('pmeth', kind, 'sign', 1), sgn, widen_after=0, max_paths=4000, keep=None, pkey_size=lambda m, st, p, kind=kind: m.call_fn(P.fn('ameth', kind, 'public', 4), [p], st), derlen=octlen, **sized)

        def ver(st, kind=kind, raw=False):
            n = 42
            if raw:
                sig = buf(st, 'sig', n)
            else:
                n += 2
                sig = buf(st, 'sig', n)
                st.w('sig').attrs['blob'] = (c(n, 64), app('der', app('d:oct', c(42, 32), app('bytes', *bts('s', 0, 42)))))
            return [pctx(st, kind, pkey(st, kind, gval=G)), sig, c(n, 64), buf(st, 'tbs', 32), c(32, 64)]
        add('verify' + sg, P.fn('pmeth', kind, 'verify', 1), ver, d2i_ok=1, **sized)
        add('verify, raw signature' + sg, P.fn('pmeth', kind, 'verify', 1), lambda st, kind=kind: ver(st, kind, True), d2i_reject=1, **sized)
        ctl = P.fn('pmeth', kind, 'ctrl', 0)
        for nm, cmd, p1, mk in (('set curve', ctrl_no('DSTU_SET_CURVE'), 0, lambda x: group(x, 'PG')), ('set table', ctrl_no('DSTU_SET_CUSTOM_SBOX'), 64, lambda x: buf(x, 'PS', 64))):
            add('control: %s%s' % (nm, sg), ctl, lambda st, kind=kind, cmd=cmd, p1=p1, mk=mk: [
                pctx(st, kind, grp=obj(st, 'OG', 'EC_GROUP', grp=app('OG'), owned=True), sbox=obj(st, 'OS', None, kind='heap', size=c(64, 64), default='input', owned=True)),
                c(cmd, 32), c(p1, 32), mk(st)])
        if len(pm.get('ctrl', ())) > 1:
            add('control string: curve' + sg, P.fn('pmeth', kind, 'ctrl', 1), lambda st, kind=kind: [pctx(st, kind), cstr(st, 'curve'), cstr(st, 'uacurve3')])
            add('control string: table' + sg, P.fn('pmeth', kind, 'ctrl', 1), lambda st, kind=kind: [pctx(st, kind), cstr(st, 'sbox'), cstr(st, 'A9D6EB45F13C708280C4967B231F5EADF658EBA4C037291D38D96BF025CA4E17F8E9720DC615B43A28975F0BC1DEA36438B564EA2C179FD0123E6DB8FAC57904')])

        dk = dict(degree=lambda gg: deg_of(g))

        # an encoder may get over a failed step (say, describe the curve instead of naming it) when what it writes still means the same key
        def par_back(m, s, r, kind=kind):
            q = m.load(s, ptr('out'), 64)
            put(s, cells(s, 'pp', 8), 0, q)
            obj(s, 'pk2', 'EVP_PKEY', type=c(nid('dstu4145' + kind), 32), key=NULL)
            return again(ctx, m, s, P.fn('ameth', kind, 'param', 0), [ptr('pk2'), ptr('pp'), r], g, 'S' if 'S' in s.mem else None, ())

        def prv_back(m, s, r, kind=kind):
            obj(s, 'pk2', 'EVP_PKEY', type=c(0, 32), key=NULL)
            return again(ctx, m, s, P.fn('ameth', kind, 'private', 0), [ptr('pk2'), ptr('p8')], g, None, ('priv',))

        def pub_back(m, s, r, kind=kind):
            obj(s, 'pk2', 'EVP_PKEY', type=c(0, 32), key=NULL)
            return again(ctx, m, s, P.fn('ameth', kind, 'public', 0), [ptr('pk2'), ptr('xp')], g, None, ())

        def pd(st, kind=kind):
            n, term = params_der(ctx, kind, g)
            d = derbuf(st, 'der', n, term)
            pp = cells(st, 'pp', 8)
            put(st, pp, 0, d)
            return [empty(st, kind), pp, t.trunc(n, 32)]
        add('decode parameters' + sg, P.fn('ameth', kind, 'param', 0), pd, **dk)
        for nm, kw in (('named curve', dict(gval=g)), ('custom table', dict(gval=g, sbox='S')), ('custom curve', dict(gval='custom'))):
            def mk(st, kw):
                kw = dict(kw)
                if kw.get('sbox'):
                    kw['sbox'] = table(st)
                if kw['gval'] == 'custom':
                    from checks.codec import custom_group, irreducible_samples
                    kw['gval'] = custom_group(*irreducible_samples()[0], 1) if False else g
                return kw
            if nm == 'custom curve':
                continue
            add('encode parameters, %s%s' % (nm, sg), P.fn('ameth', kind, 'param', 1),
                lambda st, kind=kind, kw=kw: [pkey(st, kind, **mk(st, kw)), cells(st, 'out', 8)], back=par_back, **dk)
        cpf = P.fn('ameth', kind, 'param', 3)
        add('copy parameters to an empty key' + sg, cpf, lambda st, kind=kind: [
            obj(st, 'to', 'EVP_PKEY', type=c(0, 32), key=NULL), pkey(st, kind, 'from', gval=g, sbox=table(st))], **dk)
        add('compare parameters' + sg, P.fn('ameth', kind, 'param', 4), lambda st, kind=kind: [pkey(st, kind, 'a', gval=app('GA')), pkey(st, kind, 'b', gval=app('GB'))])
        for i, w in ((5, 'param'), (3, 'public'), (2, 'private')):
            for kn, mkk in (('', lambda st, kind=kind: pkey(st, kind, gval=g)), (' of an empty key', lambda st, kind=kind: empty(st, kind))):
                if len(am.get(w, ())) > i and am[w][i] in P.mod.funcs:
                    add('print %s%s%s' % (w, kn, sg), am[w][i], lambda st, mkk=mkk: [obj(st, 'bio', 'BIO'), mkk(st), c(0, 32), NULL])

        def xp(st, kind=kind, raw=None):
            al, o = algor(st, 'alg', kind, params_der(ctx, kind, g))
            fs = (deg_of(g) + 7) // 8
            X0 = app('x')
            bs = [models.digit(X0, i) for i in range(fs)]
            if kind == 'be':
                bs.reverse()
            kd = derbuf(st, 'kd', c(fs + 2, 64), app('der', app('d:oct', c(fs, 32), app('bytes', *bs))))
            return [obj(st, 'pk2', 'EVP_PKEY', type=c(0, 32), key=NULL), obj(st, 'xp', 'X509_PUBKEY', aobj=o, alg=al, kdata=kd, klen=c(fs + 2, 32))]
        add('decode public key' + sg, P.fn('ameth', kind, 'public', 0), xp, **dk)
        for kn, mkk in (('', lambda st, kind=kind: pkey(st, kind, gval=g)), (' without a public part', lambda st, kind=kind: pkey(st, kind, gval=g, pub=False)),
                        (' without a curve', lambda st, kind=kind: nogroup(st, kind)), (' from an empty key', lambda st, kind=kind: empty(st, kind))):
            add('encode public key%s%s' % (kn, sg), P.fn('ameth', kind, 'public', 1), lambda st, mkk=mkk: [obj(st, 'xp', 'X509_PUBKEY'), mkk(st)], back=pub_back, **dk)
        add('compare public keys' + sg, P.fn('ameth', kind, 'public', 2), lambda st, kind=kind: [pkey(st, kind, 'a', gval=app('GA')), pkey(st, kind, 'b', gval=app('GB'))])
        add('key size' + sg, P.fn('ameth', kind, 'public', 4), lambda st, kind=kind: [pkey(st, kind, gval=g)], **dk)
        add('key size of an empty key' + sg, P.fn('ameth', kind, 'public', 4), lambda st, kind=kind: [empty(st, kind)], **dk)

        def p8(st, kind=kind):
            al, o = algor(st, 'alg', kind, params_der(ctx, kind, g))
            return [obj(st, 'pk2', 'EVP_PKEY', type=c(0, 32), key=NULL),
                    obj(st, 'p8', 'PKCS8_PRIV_KEY_INFO', aobj=o, alg=al, kdata=buf(st, 'kd', 21), klen=c(21, 32))]
        add('decode private key' + sg, P.fn('ameth', kind, 'private', 0), p8, **dk)
        D = app('d')
        pb = dict(bnbits=lambda v: (161, 163) if v is D else None, **dk)
        for kn, mkk in (('', lambda st, kind=kind: pkey(st, kind, gval=g)), (' without a private part', lambda st, kind=kind: pkey(st, kind, gval=g, priv=False)),
                        (' from an empty key', lambda st, kind=kind: empty(st, kind))):
            add('encode private key%s%s' % (kn, sg), P.fn('ameth', kind, 'private', 1), lambda st, mkk=mkk: [obj(st, 'p8', 'PKCS8_PRIV_KEY_INFO'), mkk(st)], back=prv_back, **pb)
        for nm in ('PKCS7_SIGN', 'CMS_SIGN'):
            add('signer algorithms, %s%s' % (nm, sg), P.fn('ameth', kind, 'ctrl', 0), lambda st, kind=kind, nm=nm: [
                pkey(st, kind), c(const('evp.h', 'ASN1_PKEY_CTRL_' + nm), 32), c(0, 64), obj(st, 'SI', 'SignerInfo')])
    # the engine's own tables
    E = P.tables()['engine']
    for kind, nids in (('digests', ('dstu34311',)), ('ciphers', ('dstu28147_cfb',)), ('pkey_meths', ('dstu4145le', 'dstu4145be')), ('pkey_asn1_meths', ('dstu4145le', 'dstu4145be'))):
        for n in nids:
            add('engine: %s %s' % (kind, n), E[kind], lambda st, n=n: [obj(st, 'E', 'ENGINE'), cells(st, 'out', 8), NULL, c(nid(n), 32)])
    add('engine: bind', 'bind_engine', lambda st: [obj(st, 'E', 'ENGINE'), NULL, obj(st, 'dynamic_fns', None, kind='arg', default='input')],
        hooks=dict(indirect=lambda m_, s, cal, a: [(s, c(1, 32))]))
    # digest and cipher
    from checks.symm import asn1_type, syms, mem
    T = P.tables()
    mds = T['md'].get('app_datasize', (None,))[0]
    cds = T['cipher'].get('impl_ctx_size', (None,))[0]

    def mdc(st, rid='MC', pc=NULL):
        return obj(st, rid, 'EVP_MD_CTX', mddata=obj(st, rid + '.data', None, kind='heap', size=mds, default='zero'), pctx=pc)

    def mdkey(st, sb):
        k = dstukey(st, gval=G, sbox=table(st) if sb else None)
        return mdc(st, pc=obj(st, 'pctx', 'EVP_PKEY_CTX', pkey=obj(st, 'pkey', 'EVP_PKEY', type=c(nid('dstu4145le'), 32), key=k), data=NULL))
    add('digest init', P.fn('md', 'init', 0), lambda st: [mdc(st)])
    add('digest init, key with a table', P.fn('md', 'init', 0), lambda st: [mdkey(st, True)])

    def cpc(st, cx_='CX'):
        at = dict(cdata=obj(st, cx_ + '.data', None, kind='heap', size=cds, default='zero'), num=c(0, 32), enc=c(1, 32))
        for k, n in (('buf', 32), ('iv', 16), ('oiv', 16)):
            at[k] = obj(st, cx_ + '.' + k, None, kind='heap', size=c(n, 64), default='zero')
        return obj(st, cx_, 'EVP_CIPHER_CTX', **at)
    add('cipher init', P.fn('cipher', 'init', 0), lambda st: [cpc(st), buf(st, 'key', 32), buf(st, 'iv', 8), c(1, 32)],
        skip=('RAND_priv_bytes',))  # only masks the stored key: what the cipher computes does not depend on it (C14)
    add('write cipher parameters', P.fn('cipher', 'set_asn1_params', 0), lambda st: [cpc(st), obj(st, 'AT', None, kind='arg', size=c(16, 64), default='zero')])
    return out


def again(ctx, m, s, fn, a, g, sb, parts):
    """does decoding what was written give the same key?"""
    m.cfg['faults'] = False
    try:
        n0 = len(m.problems)
        outs = m.call_fn(fn, a, s)
        del m.problems[n0:]
    finally:
        m.cfg['faults'] = True
    ok = False
    for s2, r in outs:
        if not pos(r, s2):
            if failed_new(s, s2):
                continue
            return False
        kp = keyparts(m, s2, 'pk2')
        if kp is None or not same_group(kp['group'], g):
            return False
        if sb and kp['sboxp'] is not NULL and kp['sbox'] != bts(sb, 0, 64):
            return False
        if 'priv' in parts and kp['priv'] is not app('d'):
            return False
        if 'pub' in parts and not (kp['pub'] is not None and same_point(kp['pub'], app('Q'))):
            return False
        ok = True
    return ok


def failed_new(s, s2):
    return s2.events - s.events


def octlen(d):
    if d.a[0] == 'd:oct' and isc(d.a[1]):
        return c(objsize(d.a[1].a), 32)


def nogroup(st, kind):
    p = pkey(st, kind)
    st.w('pkey.key.ec').attrs['group'] = NULL
    return p


def mach(ctx, fl, cfg):
    cfg = dict(dict(keep='all'), **cfg)
    return ctx.proj.machine(callevents=True, faults=True, alloc_fail='A' in fl, max_faults=1, fault_classes=fl, **cfg)


@scen
def fail_op(ctx, name, fl, rule):
    fn, build, good, back, cfg = ops(ctx)[name]
    nm = '%s, %s' % (name, FAULTS[fl])
    ctx.scenario(nm)
    cfg = dict(cfg)
    hooks = cfg.pop('hooks', {})
    skip = cfg.pop('skip', ())
    m = mach(ctx, (fl,), cfg)
    st = m.initial()
    a = build(st)
    m.hooks.update(hooks)
    outs = m.call_fn(fn, a, st)
    if rule == 'closed':
        for s, r in outs:
            bad = [e for e in s.events if e[0] == 'fail' and e[1] not in skip]
            if bad:
                ctx.obl('failure-not-reported-as-success', not good(r, s) or back is not None and back(m, s.fork(), r), bad[0][2] or fn, '%s: success is returned although %s failed at %s' % (nm, bad[0][1], bad[0][2]), s)
    else:
        for pr in m.problems:
            ctx.obl('failure-keeps-memory-sound', False, pr[1], '%s: %s %s' % (nm, pr[0], pr[2]), pr[4])
        ctx.obl('failure-keeps-memory-sound', True, fn)
        for s, r in outs:
            bad = dangling(s)
            ctx.obl('no-dangling-reference', not bad, fn, '%s: %s' % (nm, '; '.join(bad)[:300]), s)
        ctx.need(outs or m.problems, name + ': no analysable path')


def dangling(s):
    """what an object of the caller still refers to although it has been released"""
    out, seen = [], set()
    work = [(r.rid, r.typ) for r in s.mem.values() if r.site == 'caller' and r.status != 'freed' and r.typ]
    while work:
        rid, via = work.pop()
        if rid in seen:
            continue
        seen.add(rid)
        for x in s.mem[rid].refs():
            if x not in s.mem:
                if '@' in x:
                    out.append('the %s refers to something released (%s)' % (via, x))
                continue
            q = s.mem[x]
            if q.status == 'freed':
                out.append('the %s refers to %s released at %s' % (via, q.typ or 'memory', q.freesite or 'the end'))
            else:
                work.append((x, via))
    return sorted(set(out))


def owned(s):
    """objects the code allocated that are still alive and that no module variable keeps"""
    keep = set()
    work = [x for r in s.mem.values() if r.kind == 'global' for x in r.refs()]
    while work:
        x = work.pop()
        if x in keep or x not in s.mem:
            continue
        keep.add(x)
        work += list(s.mem[x].refs())
    return [r for rid, r in s.mem.items() if r.owned and r.status != 'freed' and r.site != 'caller' and rid not in keep and r.kind in ('heap', 'obj')]


def histories(ctx):
    """name -> list of steps (function, argument builder); the last steps (True) are the releases, done whatever happened before"""
    P = ctx.proj
    g = curves(ctx)[CURVES[0]]
    out = {}
    curve, sbox = ctrl_no('DSTU_SET_CURVE'), ctrl_no('DSTU_SET_CUSTOM_SBOX')
    for kind in KINDS:
        ini, clean, ctl = P.fn('pmeth', kind, 'init', 0), P.fn('pmeth', kind, 'cleanup', 0), P.fn('pmeth', kind, 'ctrl', 0)
        cpy, gen, free = P.fn('pmeth', kind, 'copy', 0), P.fn('pmeth', kind, 'keygen', 1), P.fn('ameth', kind, 'free', 0)
        i1 = (ini, lambda st: [obj(st, 'pctx', 'EVP_PKEY_CTX', pkey=NULL, data=NULL)], False)
        c1 = (clean, lambda st: [ptr('pctx')] if 'pctx' in st.mem else None, True)
        cu = (ctl, lambda st: [ptr('pctx'), c(curve, 32), c(0, 32), group(st, 'PG')], False)
        sb = (ctl, lambda st: [ptr('pctx'), c(sbox, 32), c(64, 32), buf(st, 'PS', 64)], False)
        cp = (cpy, lambda st: [obj(st, 'pctx2', 'EVP_PKEY_CTX', pkey=NULL, data=NULL), ptr('pctx')], False)
        c2 = (clean, lambda st: [ptr('pctx2')] if 'pctx2' in st.mem else None, True)
        kg = (gen, lambda st: [ptr('pctx'), obj(st, 'new', 'EVP_PKEY', type=c(0, 32), key=NULL)], False)
        kg2 = (gen, lambda st: [ptr('pctx2'), obj(st, 'new2', 'EVP_PKEY', type=c(0, 32), key=NULL)], False)
        f1 = (free, lambda st: [ptr('new')] if 'new' in st.mem else None, True)
        f2 = (free, lambda st: [ptr('new2')] if 'new2' in st.mem else None, True)
        sg = '/' + kind
        out['context set up twice, copied, released' + sg] = [i1, cu, sb, cu, sb, cp, c1, c2]
        out['empty context copied, released' + sg] = [i1, cp, c1, c2]
        out['key generated on a chosen curve, released' + sg] = [i1, cu, sb, kg, c1, f1]
        out['key generated on the default curve, released' + sg] = [i1, kg, c1, f1]
        out['two keys generated from copies, released' + sg] = [i1, cu, cp, c1, kg2, f2, c2]
        cs = (P.fn('pmeth', kind, 'ctrl', 1), lambda st: [ptr('pctx'), cstr(st, 'curve'), cstr(st, 'uacurve3')], False)
        out['curve by name twice, released' + sg] = [i1, cs, cs, c1]
        O = ops(ctx)
        fp = (free, lambda st: [ptr('pk2')], True)
        for nm in ('decode public key', 'decode private key'):
            fn, b, _, _, cf = O[nm + sg]
            out[nm + ' and release' + sg] = [(fn, b, False), fp]
        fn, b, _, _, cf = O['decode parameters' + sg]
        out['decode parameters and release' + sg] = [(fn, b, False), (free, lambda st: [ptr('pkey')], True)]
        fn, b, _, _, cf = O['copy parameters to an empty key' + sg]
        out['copy parameters and release' + sg] = [(fn, b, False), (free, lambda st: [ptr('to')], True)]
        out['copy parameters twice and release' + sg] = [(fn, b, False), (fn, lambda st: [ptr('to'), ptr('from')], False), (free, lambda st: [ptr('to')], True)]
    return out, dict(degree=lambda gg: deg_of(g))


@scen
def history(ctx, name, fl):
    hs, cfg = histories(ctx)
    nm = name + (', %s' % FAULTS[fl] if fl else '')
    ctx.scenario(nm)
    m = mach(ctx, (fl,) if fl else (), dict(cfg, keep=None, widen_after=0))
    if not fl:
        m.cfg['faults'] = False
    ss = [m.initial()]
    last = None
    for fn, b, always in hs[name]:
        m.cfg['faults'] = bool(fl) and not always
        nxt = []
        for s in ss:
            if s.ghost.get('stopped') and not always:
                nxt.append(s)
                continue
            a = b(s)
            if a is None:
                nxt.append(s)
                continue
            for s2, r in m.call_fn(fn, a, s):
                if not always and not pos(r, s2):
                    s2.ghost['stopped'] = 1
                nxt.append(s2)
        ss, last = nxt, fn
    for pr in m.problems:
        ctx.obl('history-keeps-memory-sound', False, pr[1], '%s: %s %s' % (nm, pr[0], pr[2]), pr[4])
    for s in ss:
        left = owned(s)
        ctx.obl('everything-released', not left, last, '%s: %s is never released' % (nm, ', '.join(sorted({'%s allocated at %s' % (r.typ or 'memory', r.site) for r in left}))[:300]), s)
    ctx.need(ss or m.problems, name + ': no analysable path')


def names(ctx):
    return sorted(ops(ctx))


def c18(ctx):
    ctx.par([(fail_op, (n, fl, 'closed')) for n in names(ctx) for fl in FAULTS])


def c19(ctx):
    ctx.par([(fail_op, (n, fl, 'memory')) for n in names(ctx) for fl in FAULTS] + [(history, (n, fl)) for n in sorted(histories(ctx)[0]) for fl in ('', 'P', 'A')])


CHECKS = {
    'C18': (c18, 'Abstract interpretation of every registered engine operation with one injected failure per path: each fallible library call and each allocation, at every call site, '
            'fails in turn. Rule: a path that carries a failure does not return a success value, unless (encoders) decoding the result gives the same key.'),
    'C19': (c19, 'Ownership and lifetime analysis of the same paths: every dereference, free and release is an obligation (null, freed, borrowed, out of bounds, double release), every '
            'object a call allocates is reachable from its result or arguments when it returns, and after the release operations of a lifetime nothing allocated remains.'),
}
