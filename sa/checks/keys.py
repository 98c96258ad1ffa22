"""C04 key generation, C08 comparing and copying keys, C09 controls."""
import terms as t
from terms import c, sym, app, ptr, isc, NULL, ZERO_BN, ONE_BN
import models
from models import smul
from project import *
from checks.codec import curves, keyparts, CURVES

G = app('G')
ORD = app('order', G)


def ctxstate(m, st, kind, grp=NULL, sbox=NULL):
    kc = keyctx(st, kind, grp=grp, sbox=sbox)
    return obj(st, 'pctx', 'EVP_PKEY_CTX', pkey=NULL, data=kc)


def c04(ctx):
    for kind in ('le', 'be'):
        for grp in ('chosen', 'default'):
            for sb in (False, True):
                keygen(ctx, kind, grp, sb)
        fresh_ctx(ctx, kind)


@scen
def fresh_ctx(ctx, kind):
    '''set up by the method itself, not by the analysis: a context generates a key of its own type straight away'''
    ini, fn = ctx.proj.fn('pmeth', kind, 'init', 0), ctx.proj.fn('pmeth', kind, 'keygen', 1)
    name = 'keygen/%s in a freshly initialised context' % kind
    ctx.scenario(name)
    m = ctx.proj.machine(keep='all', widen_after=0)
    st = m.initial()
    pc = obj(st, 'pctx', 'EVP_PKEY_CTX', pkey=NULL, data=NULL)
    pk = obj(st, 'pkey', 'EVP_PKEY', type=c(0, 32), key=NULL)
    nset = nok = 0
    for s, r in m.call_fn(ini, [pc], st):
        if not ctx.obl('context-definite', isc(r), ini, name + ': the result of the set-up is not definite', s):
            continue
        if t.sval(r) <= 0:
            ctx.obl('context-fails-only-on-fault', bool(failed(s)), ini, name + ': set-up fails without a failing step', s)
            continue
        nset += 1
        for s2, r2 in m.call_fn(fn, [pc, pk], s.fork()):
            if not isc(r2) or t.sval(r2) <= 0:
                continue
            kp = keyparts(m, s2, 'pkey')
            nok += 1
            ctx.obl('key-type', kp is not None and kp['type'] is c(nid('dstu4145' + kind), 32), fn,
                    '%s: the key type is %s' % (name, kp and kp['type'] and t.show(kp['type'])), s2)
    ctx.obl('context-can-be-set-up', nset > 0, ini, name + ': set-up never succeeds')
    ctx.obl('keygen-can-succeed', nok > 0 or not nset, fn, name + ': no path generates a key')


@scen
def keygen(ctx, kind, grp, sb):
    fn = ctx.proj.fn('pmeth', kind, 'keygen', 1)
    name = 'keygen/%s on the %s curve, %s substitution table' % (kind, grp, 'custom' if sb else 'no')
    ctx.scenario(name)
    m = ctx.proj.machine(keep='all', widen_after=0)
    st = m.initial()
    g = group(st, 'CG', G) if grp == 'chosen' else NULL
    sp = obj(st, 'S', None, kind='heap', size=c(64, 64), default='input') if sb else NULL
    pc = ctxstate(m, st, kind, g, sp)
    pk = obj(st, 'pkey', 'EVP_PKEY', type=c(0, 32), key=NULL)
    outs = m.call_fn(fn, [pc, pk], st)
    ctx.need(outs or m.problems, 'key generation has no analysable path')
    nok = 0
    for pr in m.problems:
        ctx.obl('keygen-memory', False, pr[1], '%s: %s %s' % (name, pr[0], pr[2]), pr[4])
    for s, r in outs:
        if not isc(r):
            ctx.obl('keygen-definite', False, fn, name + ': result is not definite', s)
            continue
        if t.sval(r) <= 0:
            ctx.obl('keygen-fails-only-on-fault', bool(failed(s)), fn, name + ': fails without a failing step', s)
            continue
        nok += 1
        kp = keyparts(m, s, 'pkey')
        if not ctx.obl('key-complete', kp is not None and None not in (kp['group'], kp['priv'], kp['pub']), fn,
                       name + ': the new key lacks a curve, a private or a public part', s):
            continue
        ctx.obl('key-type', kp['type'] is c(nid('dstu4145' + kind), 32), fn, '%s: key type is %s' % (name, kp['type'] and t.show(kp['type'])), s)
        gv = kp['group']
        if grp == 'chosen':
            ctx.obl('key-on-chosen-curve', gv is G, fn, name + ': the key is on another curve', s)
            gen, n = app('gen', G), ORD
        else:
            want = curves(ctx).get('uacurve6')
            ctx.obl('key-on-default-curve', gv is want, fn, name + ': the key is not on the documented default curve', s)
            gen, n = (gv.a[4], gv.a[5]) if gv.op == 'app' and gv.a[0] == 'curve' else (None, None)
        d = kp['priv']
        ctx.obl('private-key-uniform', d.op == 'app' and d.a[0] == 'rand' and d.a[2] is n, fn,
                '%s: the private key is %s, not drawn uniformly below the order' % (name, t.show(d, 3)[:200]), s)
        ctx.obl('private-key-nonzero', s.decide(t.beq(d, ZERO_BN)) is False, fn, name + ': the private key may be zero', s)
        if gen is not None:
            ctx.obl('public-key-matches', kp['pub'] is models.pneg(smul(d, gen)), fn,
                    '%s: the public key is %s, not -dP' % (name, t.show(kp['pub'], 4)[:300]), s)
        if sb:
            ctx.obl('substitution-table-carried', kp['sbox'] == bts('S', 0, 64), fn, name + ': the custom substitution table is lost', s)
            ctx.obl('substitution-table-own-copy', kp['sboxp'].op == 'p' and kp['sboxp'].a[0] != 'S', fn,
                    name + ': the key shares the table with the context', s)
        else:
            ctx.obl('no-table-invented', kp['sboxp'] is NULL, fn, name + ': the key carries an unrequested substitution table', s)
    ctx.obl('keygen-can-succeed', nok > 0, fn, name + ': no path generates a key')


# ---------------------------------------------------------------- comparing and copying
def two_keys(m, st, kind, sa, sb, **kw):
    GA, GB = app('GA'), app('GB')
    out = []
    for nm, g, sx in (('A', GA, sa), ('B', GB, sb)):
        k = dstukey(st, nm + '.key', gval=g, sbox=obj(st, 'S' + nm, None, kind='heap', size=c(64, 64), default='input') if sx else None, **kw.get(nm, {}))
        p_ = st.mem[nm + '.key.ec'].attrs.get('pub')
        if p_ is not None and p_.op == 'p':
            st.w(p_.a[0]).attrs['pt'] = app('Q' + nm)
        out.append(obj(st, nm, 'EVP_PKEY', type=c(nid('dstu4145' + kind), 32), key=k))
    return GA, GB, out


def eqfacts(m, s, A, B):
    """is A = B known? (True, False or None), from a whole comparison or from the bytes; an absent table stands for the default one"""
    A, B = A or dflt(), B or dflt()
    if A == B:
        return True
    x, y = app('bytes', *A), app('bytes', *B)
    x, y = (x, y) if x.id <= y.id else (y, x)
    whole = s.decide(t.eq(app('memcmp', x, y, w=32), c(0, 32)))
    if whole is not None:
        return whole
    q = [s.decide(t.eq(x, y)) for x, y in zip(A, B)]
    return False if any(v is False for v in q) else True if all(v is True for v in q) else None


def grp_eq(s, GA, GB):
    x, y = (GA, GB) if GA.id <= GB.id else (GB, GA)
    return s.decide(t.eq(app('groupcmp', x, y, w=32), c(0, 32)))


@scen
def param_cmp(ctx, kind, sa, sb, same):
    fn = ctx.proj.fn('ameth', kind, 'param', 4)
    name = 'compare parameters/%s, first key %s, second key %s%s' % (kind, 'custom table' if sa else 'no table', 'custom table' if sb else 'no table',
                                                                    ', the same object' if same else '')
    ctx.scenario(name)
    m = ctx.proj.machine(keep='all')
    st = m.initial()
    GA, GB, ks = two_keys(m, st, kind, sa, sb)
    if same:
        ks[1], GB = ks[0], GA
    outs = m.call_fn(fn, ks, st)
    ctx.need(outs or m.problems, 'parameter comparison has no analysable path')
    for s, r in outs:
        if not ctx.obl('comparison-definite', isc(r) and t.sval(r) in (0, 1), fn, '%s: result is %s' % (name, t.show(r)), s):
            continue
        g = True if GA is GB else grp_eq(s, GA, GB)
        tb = True if same else eqfacts(m, s, bts('SA', 0, 64) if sa else None, bts('SB', 0, 64) if sb else None)
        if t.sval(r) == 1:
            ctx.obl('equal-implies-same-curve', g is True, fn, name + ': equal although the curves may differ', s)
            ctx.obl('equal-implies-same-table', tb is True, fn, name + ': equal although the substitution tables may differ', s)
        else:
            ctx.obl('different-implies-difference', g is False or tb is False, fn, name + ': reported different although nothing differs', s)
    for pr in m.problems:
        ctx.obl('comparison-memory', False, pr[1], '%s: %s %s' % (name, pr[0], pr[2]), pr[4])


@scen
def pub_cmp(ctx, kind, parts):
    fn = ctx.proj.fn('ameth', kind, 'public', 2)
    name = 'compare public keys/%s, %s' % (kind, parts)
    ctx.scenario(name)
    m = ctx.proj.machine(keep='all')
    st = m.initial()
    GA, GB, ks = two_keys(m, st, kind, False, False, A=dict(pub='first' not in parts and 'both' not in parts), B=dict(pub='second' not in parts and 'both' not in parts))
    outs = m.call_fn(fn, ks, st)
    for pr in m.problems:
        ctx.obl('comparison-memory', False, pr[1], '%s: %s %s' % (name, pr[0], pr[2]), pr[4])
    for s, r in outs:
        if not ctx.obl('comparison-definite', isc(r), fn, '%s: result is %s' % (name, t.show(r)), s):
            continue
        if parts != 'complete':
            ctx.obl('incomplete-never-equal', t.sval(r) != 1, fn, name + ': reported equal', s)
            continue
        PA, PB = (s.mem[s.mem[k + '.key.ec'].attrs['pub'].a[0]].attrs['pt'] for k in 'AB')
        x, y = (PA, PB) if PA.id <= PB.id else (PB, PA)
        e = s.decide(t.eq(app('ptcmp', x, y, w=32), c(0, 32)))
        ctx.obl('equal-iff-same-point', e is (t.sval(r) == 1), fn, name + ': the result does not follow the points', s)


@scen
def absent_cmp(ctx, kind, what, idx, who):
    fn = ctx.proj.fn('ameth', kind, what, idx)
    name = 'compare %s/%s, %s key absent' % (what, kind, who)
    ctx.scenario(name)
    m = ctx.proj.machine(keep='all')
    st = m.initial()
    GA, GB, ks = two_keys(m, st, kind, False, False)
    for i, nm in enumerate('AB'):
        if who in (nm, 'each'):
            st.w(nm).attrs['key'] = NULL
    for s, r in m.call_fn(fn, ks, st):
        ctx.obl('incomplete-never-equal', isc(r) and t.sval(r) != 1, fn, name + ': reported equal', s)
    for pr in m.problems:
        ctx.obl('comparison-memory', False, pr[1], '%s: %s %s' % (name, pr[0], pr[2]), pr[4])


@scen
def param_copy(ctx, kind, src, have):
    fn = ctx.proj.fn('ameth', kind, 'param', 3)
    name = 'copy parameters/%s from a key with %s onto %s' % (kind, src, 'a key without parameters' if have else 'an empty container')
    ctx.scenario(name)
    m = ctx.proj.machine(keep='all')
    st = m.initial()
    GA, GB, ks = two_keys(m, st, kind, src == 'table', False)
    if src == 'nothing':
        st.w('A').attrs['key'] = NULL
    if src == 'no curve':
        st.w('A.key.ec').attrs.pop('group', None)
        st.w('A.key.ec').attrs['group'] = NULL
    if have:
        st.w('B.key.ec').attrs['group'] = NULL
    else:
        st.w('B').attrs.update(key=NULL, type=c(0, 32))
    nok = 0
    for s, r in m.call_fn(fn, [ks[1], ks[0]], st):
        if not (isc(r) and t.sval(r) == 1):
            ctx.obl('copy-fails-only-on-fault', isc(r) and t.sval(r) <= 0 and (bool(failed(s)) or src in ('nothing', 'no curve')), fn, name + ': fails without a failing step', s)
            continue
        nok += 1
        if not ctx.obl('nothing-to-copy-is-refused', src not in ('nothing', 'no curve'), fn, name + ': succeeds', s):
            continue
        kp = keyparts(m, s, 'B')
        ctx.obl('copied-type', kp is not None and kp['type'] is c(nid('dstu4145' + kind), 32), fn, name + ': the target has another type', s)
        ctx.obl('copied-curve', kp is not None and kp['group'] is GA, fn, name + ': the target is on another curve', s)
        if src == 'table':
            ctx.obl('copied-table', kp is not None and kp['sbox'] == bts('SA', 0, 64), fn, name + ': the table is not copied', s)
            ctx.obl('independent-copy', kp is not None and kp['sboxp'].op == 'p' and kp['sboxp'].a[0] != 'SA', fn, name + ': both keys own the same table', s)
        else:
            ctx.obl('copied-table', kp is not None and kp['sboxp'] is NULL, fn, name + ': a table appears', s)
        src_k = keyparts(m, s, 'A')
        ctx.obl('source-unchanged', src_k is not None and src_k['group'] is GA and (src_k['sbox'] == bts('SA', 0, 64) if src == 'table' else src_k['sboxp'] is NULL),
                fn, name + ': the source changes', s)
    for pr in m.problems:
        ctx.obl('copy-memory', False, pr[1], '%s: %s %s' % (name, pr[0], pr[2]), pr[4])
    if src in ('table', 'curve'):
        ctx.obl('copy-can-succeed', nok > 0, fn, name + ': never succeeds')


def ctx_parts(m, s, kc):
    R = s.mem[kc.a[0]]
    g = m.load_at(s, R, LAY['group'], 8, 64)
    sb = m.load_at(s, R, LAY['csbox'], 8, 64)
    return dict(type=m.load_at(s, R, LAY['type'], 4, 32), gp=g, group=s.mem[g.a[0]].attrs.get('grp') if g.op == 'p' and g.a[0] in s.mem else None,
                sboxp=sb, sbox=[m.load_at(s, s.mem[sb.a[0]], sb.a[1].a + i, 1, 8) for i in range(64)] if sb.op == 'p' and sb.a[0] in s.mem and isc(sb.a[1]) else None)


@scen
def ctx_copy(ctx, kind, hasg, hass, empty=False):
    fn = ctx.proj.fn('pmeth', kind, 'copy', 0)
    name = 'copy operation context/%s, %s curve, %s table%s' % (kind, 'chosen' if hasg else 'no', 'custom' if hass else 'no', ', without data' if empty else '')
    ctx.scenario(name)
    m = ctx.proj.machine(keep='all')
    st = m.initial()
    sp = obj(st, 'S', None, kind='heap', size=c(64, 64), default='input') if hass else NULL
    pc = ctxstate(m, st, kind, group(st, 'CG', G) if hasg else NULL, sp)
    if empty:
        st.w('pctx').attrs['data'] = NULL
    kc = st.mem['pctx'].attrs['data']
    dst = obj(st, 'dst', 'EVP_PKEY_CTX', pkey=NULL, data=NULL)
    nok = 0
    for s, r in m.call_fn(fn, [dst, pc], st):
        if not (isc(r) and t.sval(r) == 1):
            ctx.obl('copy-fails-only-on-fault', isc(r) and t.sval(r) <= 0 and bool(failed(s)), fn, name + ': fails without a failing step', s)
            continue
        nok += 1
        if empty:
            ctx.obl('copied-context', s.mem['dst'].attrs.get('data') is NULL, fn, name + ': data appears', s)
            continue
        d = s.mem['dst'].attrs.get('data')
        if not ctx.obl('copied-context', d is not None and d.op == 'p' and d.a[0] in s.mem and d.a[0] != kc.a[0], fn, name + ': the copy has no data of its own', s):
            continue
        A, B = ctx_parts(m, s, kc), ctx_parts(m, s, d)
        ctx.obl('copied-type', B['type'] is c(nid('dstu4145' + kind), 32), fn, name + ': the copy has another type', s)
        if hasg:
            ctx.obl('copied-curve', B['group'] is G, fn, name + ': the copy has another curve', s)
            ctx.obl('independent-copy', B['gp'].op == 'p' and B['gp'].a[0] != 'CG', fn, name + ': both contexts own the same curve', s)
        else:
            ctx.obl('copied-curve', B['gp'] is NULL, fn, name + ': a curve appears', s)
        if hass:
            ctx.obl('copied-table', B['sbox'] == bts('S', 0, 64), fn, name + ': the table is not copied', s)
            ctx.obl('independent-copy', B['sboxp'].op == 'p' and B['sboxp'].a[0] != 'S', fn, name + ': both contexts own the same table', s)
        else:
            ctx.obl('copied-table', B['sboxp'] is NULL, fn, name + ': a table appears', s)
        ctx.obl('source-unchanged', A['gp'] is (st.mem and (ptr('CG') if hasg else NULL)) or A['group'] is G, fn, name + ': the source changes', s)
    for pr in m.problems:
        ctx.obl('copy-memory', False, pr[1], '%s: %s %s' % (name, pr[0], pr[2]), pr[4])
    ctx.obl('copy-can-succeed', nok > 0, fn, name + ': never succeeds')


def c08(ctx):
    for kind in ('le', 'be'):
        for sa in (False, True):
            for sb in (False, True):
                param_cmp(ctx, kind, sa, sb, False)
            param_cmp(ctx, kind, sa, sa, True)
        for parts in ('complete', 'first lacks the point', 'second lacks the point', 'both lack the point'):
            pub_cmp(ctx, kind, parts)
        for who in ('A', 'B', 'each'):
            absent_cmp(ctx, kind, 'param', 4, who)
            absent_cmp(ctx, kind, 'public', 2, who)
        for src in ('curve', 'table', 'nothing', 'no curve'):
            for have in (False, True):
                param_copy(ctx, kind, src, have)
        for hasg in (False, True):
            for hass in (False, True):
                ctx_copy(ctx, kind, hasg, hass)
        ctx_copy(ctx, kind, False, False, True)


# ---------------------------------------------------------------- controls
def untouched(m, s, kc, hadg, hads):
    P_ = ctx_parts(m, s, kc)
    return (P_['group'] is G if hadg else P_['gp'] is NULL) and (P_['sbox'] == bts('OLD', 0, 64) if hads else P_['sboxp'] is NULL)


def old_ctx(m, st, kind, had):
    sp = obj(st, 'OLD', None, kind='heap', size=c(64, 64), default='input', owned=True) if had else NULL
    g = group(st, 'CG', G) if had else NULL
    if had:
        st.w('CG').owned = True
    return ctxstate(m, st, kind, g, sp)


@scen
def pkey_ctrl(ctx, kind, had):
    """the binary control: every command number and argument"""
    fn = ctx.proj.fn('pmeth', kind, 'ctrl', 0)
    SB, CV = ctrl_no('DSTU_SET_CUSTOM_SBOX'), ctrl_no('DSTU_SET_CURVE')
    K = lambda n: const('evp.h', n)
    MD = K('EVP_PKEY_CTRL_MD')
    passive = {K('EVP_PKEY_CTRL_' + x) for x in ('PKCS7_ENCRYPT', 'PKCS7_DECRYPT', 'PKCS7_SIGN', 'DIGESTINIT', 'CMS_SIGN')}
    for arg in ('null', 'table', 'curve', 'digest'):
        name = 'control/%s with %s argument, any command and length, context %s' % (kind, arg, 'configured before' if had else 'fresh')
        ctx.scenario(name)
        m = ctx.proj.machine(keep='all')
        st = m.initial()
        pc = old_ctx(m, st, kind, had)
        kc = st.mem['pctx'].attrs['data']
        T_, N = sym('cmd', 32), sym('p1', 32)
        p2 = NULL if arg == 'null' else obj(st, 'T', None, kind='arg', size=c(64, 64), default='input') if arg == 'table' else \
            group(st, 'NG', app('NG')) if arg == 'curve' else obj(st, 'MD', 'EVP_MD', static=1)
        # an argument of the wrong kind is the caller's error: commands are paired with the argument they document
        for cmd in (SB, CV, MD, 'other'):
            if (cmd, arg) not in ((SB, 'null'), (SB, 'table'), (CV, 'null'), (CV, 'curve'), (MD, 'digest')) and cmd != 'other':
                continue
            s0 = st.fork()
            if cmd == 'other':
                tv = T_
                for k in (SB, CV, MD):
                    s0.assume(t.eq(T_, c(k, 32)), False)
            else:
                tv = c(cmd, 32)
            np_ = len(m.problems)
            for s, r in m.call_fn(fn, [pc, tv, N, p2], s0):
                if not ctx.obl('control-definite', isc(r), fn, name + ': result is not definite', s):
                    continue
                ok = t.sval(r) > 0
                if cmd == 'other':
                    known = any(s.decide(t.eq(T_, c(k, 32))) is True for k in passive)
                    if ok:
                        ctx.obl('unknown-command-refused', known, fn, name + ': an undocumented command succeeds', s)
                    else:
                        ctx.obl('documented-command-accepted', all(s.decide(t.eq(T_, c(k, 32))) is not True for k in passive), fn, name + ': a documented command fails', s)
                    ctx.obl('no-side-effect', untouched(m, s, kc, had, had), fn, name + ': the context changes', s)
                    continue
                P_ = ctx_parts(m, s, kc)
                if not ok:
                    ctx.obl('no-side-effect', untouched(m, s, kc, had, had), fn, name + ': a refused command changes the context', s)
                if cmd == SB:
                    l64 = s.decide(t.eq(N, c(64, 32)))
                    if ok:
                        ctx.obl('table-length-checked', arg == 'table' and l64 is True, fn, name + ': a table of another length than 64 is accepted', s)
                        ctx.obl('control-takes-effect', P_['sbox'] == bts('T', 0, 64) and P_['sboxp'].a[0] != 'T', fn, name + ': the table is not stored as a private copy', s)
                        ctx.obl('no-side-effect', (P_['group'] is G) if had else P_['gp'] is NULL, fn, name + ': the curve changes', s)
                    else:
                        ctx.obl('control-fails-only-on-bad-argument', arg == 'null' or l64 is False or bool(failed(s)), fn, name + ': a correct table is refused', s)
                elif cmd == CV:
                    if ok:
                        ctx.obl('control-takes-effect', arg == 'curve' and P_['group'] is app('NG') and P_['gp'].op == 'p' and P_['gp'].a[0] != 'NG', fn,
                                name + ': the curve is not stored as a private copy', s)
                        ctx.obl('no-side-effect', (P_['sbox'] == bts('OLD', 0, 64)) if had else P_['sboxp'] is NULL, fn, name + ': the table changes', s)
                    else:
                        ctx.obl('control-fails-only-on-bad-argument', arg == 'null' or bool(failed(s)), fn, name + ': a curve is refused', s)
                else:
                    e = s.decide(t.eq(app('mdtype', ptr('MD'), w=32), c(nid('dstu34311'), 32)))
                    ctx.obl('only-the-national-digest', e is ok, fn, name + ': ' + ('another digest is accepted' if ok else 'the digest is refused'), s)
                    ctx.obl('no-side-effect', untouched(m, s, kc, had, had), fn, name + ': the context changes', s)
        for pr in m.problems:
            ctx.obl('control-memory', False, pr[1], '%s: %s %s' % (name, pr[0], pr[2]), pr[4])
    name = 'control/%s without context data' % kind
    m = ctx.proj.machine(keep='all')
    st = m.initial()
    pc = obj(st, 'pctx', 'EVP_PKEY_CTX', pkey=NULL, data=NULL)
    for s, r in m.call_fn(fn, [pc, c(SB, 32), c(64, 32), buf(st, 'T', 64)], st):
        ctx.obl('control-fails-only-on-bad-argument', isc(r) and t.sval(r) <= 0, fn, name + ': succeeds', s)
    for pr in m.problems:
        ctx.obl('control-memory', False, pr[1], '%s: %s %s' % (name, pr[0], pr[2]), pr[4])


@scen
def ctrl_str(ctx, kind, typ, val, had):
    fn = ctx.proj.fn('pmeth', kind, 'ctrl', 1)
    name = 'text control/%s %s=%s' % (kind, typ, val or 'any text')
    ctx.scenario(name)
    m = ctx.proj.machine(keep='all', bnbits=lambda v: (0, 512) if v.a[0] == 'hexbn' else None)
    st = m.initial()
    pc = old_ctx(m, st, kind, had)
    kc = st.mem['pctx'].attrs['data']
    vp = cstr(st, val) if val is not None else obj(st, 'txt', None, kind='arg', default='input')
    vt = app('str', val) if val is not None else ptr('txt')
    outs = m.call_fn(fn, [pc, cstr(st, typ), vp], st)
    ctx.need(outs or m.problems, 'text control has no analysable path')
    for s, r in outs:
        if not ctx.obl('control-definite', isc(r), fn, name + ': result is not definite', s):
            continue
        ok = t.sval(r) > 0
        P_ = ctx_parts(m, s, kc)
        if not ok:
            ctx.obl('no-side-effect', untouched(m, s, kc, had, had), fn, name + ': a refused setting changes the context', s)
        if typ == 'curve':
            want = curves(ctx).get(val)
            if ok:
                ctx.obl('control-takes-effect', want is not None and P_['group'] is want, fn, name + ': accepted without selecting that curve', s)
                ctx.obl('no-side-effect', (P_['sbox'] == bts('OLD', 0, 64)) if had else P_['sboxp'] is NULL, fn, name + ': the table changes', s)
            else:
                ctx.obl('control-fails-only-on-bad-argument', val not in CURVES or bool(failed(s)), fn, name + ': refused', s)
        elif typ == 'sbox':
            v, n = app('hexbn', vt), app('hexlen', vt, w=32)
            if ok:
                ctx.obl('table-length-checked', s.decide(t.eq(n, c(128, 32))) is True, fn, name + ': text of another length than 128 digits is accepted', s)
                ctx.obl('negative-table-refused', s.decide(app('bnneg', v, w=1)) is False or models_neg(s, v) is False, fn, name + ': a signed number is accepted as a table', s)
                ctx.obl('control-takes-effect', P_['sbox'] is not None and all(is_digit(s, x, v, 63 - i) for i, x in enumerate(P_['sbox'])), fn,
                        name + ': the stored table is not the given digits', s)
                ctx.obl('no-side-effect', (P_['group'] is G) if had else P_['gp'] is NULL, fn, name + ': the curve changes', s)
            else:
                bad = s.decide(t.eq(n, c(128, 32))) is False or models_neg(s, v) is True or s.decide(t.beq(v, ZERO_BN)) is True
                ctx.obl('control-fails-only-on-bad-argument', bad or bool(failed(s)), fn, name + ': refused', s)
        else:
            ctx.obl('unknown-command-refused', not ok, fn, name + ': an unknown setting is accepted', s)
    for pr in m.problems:
        ctx.obl('control-memory', False, pr[1], '%s: %s %s' % (name, pr[0], pr[2]), pr[4])


def is_digit(s, x, v, i):
    return x is models.digit(v, i) or s.decide(t.eq(x, models.digit(v, i))) is True


def models_neg(s, v):
    for a_, val in s.facts.items():
        if 'neg' in t.show(a_, 3) and 'hexbn' in t.show(a_, 4):
            return (val if a_.op != 'eq' else not val)
    return None


@scen
def ameth_ctrl(ctx, kind):
    fn = ctx.proj.fn('ameth', kind, 'ctrl', 0)
    K = lambda n: const('evp.h', 'ASN1_PKEY_CTRL_' + n)
    MDN, P7, CMS = K('DEFAULT_MD_NID'), K('PKCS7_SIGN'), K('CMS_SIGN')
    md, kt = nid('dstu34311'), nid('dstu4145' + kind)
    for op in (MDN, P7, CMS, None):
        name = 'key control/%s %s' % (kind, {MDN: 'default digest', P7: 'PKCS7 signer', CMS: 'CMS signer', None: 'any other command'}[op])
        ctx.scenario(name)
        m = ctx.proj.machine(keep='all')
        st = m.initial()
        pk = obj(st, 'pkey', 'EVP_PKEY', type=c(kt, 32), key=dstukey(st))
        a1 = sym('arg1', 64)
        T_ = sym('op', 32)
        if op is None:
            for k in (MDN, P7, CMS):
                st.assume(t.eq(T_, c(k, 32)), False)
            a2 = NULL
        elif op == MDN:
            a2 = cells(st, 'out', 4)
        else:
            a2 = obj(st, 'SI', 'SignerInfo')
        for s, r in m.call_fn(fn, [pk, c(op, 32) if op is not None else T_, a1, a2], st):
            if not ctx.obl('control-definite', isc(r), fn, name + ': result is not definite', s):
                continue
            rv = t.sval(r)
            if op is None:
                ctx.obl('unknown-command-refused', rv <= 0, fn, name + ': an undocumented command succeeds', s)
            elif op == MDN:
                ctx.obl('mandatory-default-digest', rv == 2 and m.load(s, a2, 32) is c(md, 32), fn, name + ': the national digest is not reported as mandatory', s)
            else:
                sign = s.decide(t.eq(a1, c(0, 64)))
                algs = {k[4:]: s.mem[v.a[0]].attrs for k, v in s.mem['SI'].attrs.items() if k.startswith('alg:')}
                if rv > 0 and sign is not False:
                    ctx.obl('signer-algorithms', all(k in algs and models.obj_nid(m, s, algs[k].get('aobj', NULL)) == v for k, v in (('digest', md), ('sig', kt))), fn,
                            name + ': the digest and signature algorithms are not those of the key', s)
                elif sign is False:
                    ctx.obl('signer-algorithms', rv > 0 and not any('aobj' in x for x in algs.values()), fn, name + ': verification changes the algorithms or fails', s)
                else:
                    ctx.obl('control-fails-only-on-bad-argument', bool(failed(s)), fn, name + ': fails without a failing step', s)
        for pr in m.problems:
            ctx.obl('control-memory', False, pr[1], '%s: %s %s' % (name, pr[0], pr[2]), pr[4])


def c09(ctx):
    for kind in ('le', 'be'):
        for had in (False, True):
            pkey_ctrl(ctx, kind, had)
        for i, nme in enumerate(CURVES):
            ctrl_str(ctx, kind, 'curve', nme, bool(i & 1))
        for bad in ('uacurve10', 'uacurve', 'dstu34311', 'secp256k1', '', 'sect163k1', 'UACURVE1', 'dstu4145le'):
            ctrl_str(ctx, kind, 'curve', bad, True)
        for had in (False, True):
            ctrl_str(ctx, kind, 'sbox', None, had)
        for bad in ('', 'curv', 'curves', 'sbo', 'sboxx', 'digest', 'Curve'):
            ctrl_str(ctx, kind, bad, 'uacurve1', True)
        ameth_ctrl(ctx, kind)


CHECKS = {
    'C04': (c04, 'Abstract interpretation of the registered key generation for both key types, with and without a chosen curve and table. Rule: on every '
            'successful path the private key is the value-numbered result of a uniform draw below the order, known nonzero, the public key is -dP on the '
            'selected curve, the type matches and the table is a private copy.'),
    'C08': (c08, 'compare and copy'),
    'C09': (c09, 'controls'),
}
