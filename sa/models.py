"""Effect table for library calls: typestate/ownership transitions, value terms
and failure modes of every OpenSSL / libc function the project calls."""
import terms as t
import linear
from terms import T, c, sym, app, ptr, isc, NULL, ZERO_BN, ONE_BN
from interp import Region, Budget

M = {}
I32_0, I32_1 = c(0, 32), c(1, 32)


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
            f.mname = names[0]
        return f
    return d


def callee(m):
    I = m.cur
    if I is not None and I.op == 'call' and I.x[0] == 'f':
        return I.x[1]
    return m.ext or '?'


# ------------------------------------------------------------------ failure
# functions whose failure is an answer (or has no caller-visible effect), not a fault
def can_fail(m, st, cls):
    f = m.cfg['faults']
    if not f:
        return False
    if cls == 'A' and not m.cfg['alloc_fail']:
        return False
    if m.cfg.get('fault_classes') is not None and cls not in m.cfg['fault_classes']:
        return False
    if m.cfg.get('max_faults', 1) <= len([e for e in st.events if e[0] == 'fail']):
        return False
    return True


def outcomes(m, st, name=None, cls='A', soft=False):
    """[(state, succeeded)]"""
    if not can_fail(m, st, cls):
        return [(st, True)]
    s2 = st.fork()
    s2.event('soft' if soft else 'fail', name or callee(m), m.site())
    return [(st, True), (s2, False)]


def okfail(m, st, cls='A', ok=1, bad=0, w=32, soft=False):
    return [(s, c(ok if g else bad, w)) for s, g in outcomes(m, st, cls=cls, soft=soft)]


# ------------------------------------------------------------------ objects
def newobj(m, st, typ, owned=True, kind='obj', size=None, default='undef', base=None, **attrs):
    r = st.new('%s@%s' % (base or typ, '/'.join(m.stack[-2:]) + ':' + str(m.cur.id if m.cur else 0)), kind,
               size=size, default=default, typ=typ, owned=owned, site=m.site())
    r.attrs.update(attrs)
    return ptr(r.rid)


def reg(m, st, p, why='use'):
    """region of an object argument (records NULL/UAF problems); None if unusable"""
    x = m.region(st, p, '%s by %s' % (why, callee(m)))
    if x is None:
        return None
    if not m.check_alive(st, x[0], '%s by %s' % (why, callee(m))):
        return None
    return st.mem[x[0]]


def attr(m, st, p, k, default=None):
    r = reg(m, st, p)
    return r.attrs.get(k, default) if r is not None else default


def setattr_(m, st, p, **kw):
    r = reg(m, st, p)
    if r is None:
        return
    r = st.w(r.rid)
    r.attrs.update(kw)


def dead(st):
    return []


def kill(m, st, rid):
    r = st.w(rid)
    r.status = 'freed'
    r.owned = False
    r.freesite = m.site()


CHILD = ('group', 'priv', 'pub', 'key', 'gen', 'data')


def destroy(m, st, p, typ=None, raw=False, wipe=False):
    """free of an object; NULL is allowed by every deallocator modelled here"""
    if isc(p) and p.a == 0:
        return True
    if p.op != 'p':
        if p.op == 'ite':
            return True
        x = m.region(st, p, 'free')
        if x is None:
            return False
        p = ptr(*x)
    rid, off = p.a
    r = st.mem.get(rid)
    if r is None or r.status == 'freed':
        info = (r.site, r.freesite) if r is not None else m.freedinfo.get(rid, ('?', '?'))
        m.problem('double-free', st, '%s of object allocated at %s, already freed at %s' % ((callee(m),) + info))
        return False
    if not (isc(off) and off.a == 0):
        m.problem('bad-free', st, 'free of an interior pointer of %s' % (r.site or rid))
        return False
    if r.kind in ('stack', 'global', 'const'):
        m.problem('bad-free', st, '%s of %s storage' % (callee(m), r.kind))
        return False
    if r.attrs.get('static'):
        return True
    if r.kind == 'obj' and typ is not None and r.typ is not None and r.typ != typ and not compatible(r.typ, typ):
        m.problem('mismatched-free', st, '%s of a %s allocated at %s' % (callee(m), r.typ, r.site))
        return False
    if r.kind == 'obj' and typ is None and raw:
        m.problem('mismatched-free', st, '%s of a %s allocated at %s' % (callee(m), r.typ, r.site))
        return False
    if r.kind == 'heap' and typ is not None and not raw:
        m.problem('mismatched-free', st, '%s of a plain buffer allocated at %s' % (callee(m), r.site))
        return False
    if r.attrs.get('borrowed') and not r.owned:
        m.problem('free-borrowed', st, '%s of an object owned by another (%s)' % (callee(m), r.attrs['borrowed']))
        return False
    refs = r.attrs.get('refs', 1)
    if isinstance(refs, int) and refs > 1:
        st.w(rid).attrs['refs'] = refs - 1
        return True
    h = m.hooks.get('free')
    if h:
        h(m, st, r, wipe)
    kids = [v for k, v in r.attrs.items() if k in CHILD and isinstance(v, T) and v.op == 'p']
    if r.typ in STRINGS and r.kind == 'obj':
        v = m.load_at(st, r, 8, 8, 64)
        if v.op == 'p':
            kids.append(v)
    if r.typ == 'EVP_PKEY' and r.attrs.get('key') is not None and m.hooks.get('pkey_free'):
        m.hooks['pkey_free'](m, st, r)
    kill(m, st, rid)
    for k in kids:
        kr = st.mem.get(k.a[0])
        if kr is not None and kr.status != 'freed' and kr.kind in ('obj', 'heap') and (kr.attrs.get('child') or kr.owned):
            kill(m, st, k.a[0])
    return True


STRINGS = {'ASN1_OCTET_STRING', 'ASN1_STRING', 'ASN1_INTEGER', 'ASN1_BIT_STRING'}


def compatible(a, b):
    return a in STRINGS and b in STRINGS


# ------------------------------------------------------------------ memory
def do_malloc(m, st, n, zero=False):
    n64 = t.zext(n, 64)
    if isc(n64) and n64.a == 0:
        return [(st, NULL)]
    res = []
    for s, ok in outcomes(m, st):
        if ok:
            res.append((s, newobj(m, s, None, kind='heap', size=n64, default='zero' if zero else 'undef', base='h')))
        else:
            res.append((s, NULL))
    return res


@model('CRYPTO_malloc', 'malloc')
def f(m, st, a):
    return do_malloc(m, st, a[0])


@model('CRYPTO_zalloc')
def f(m, st, a):
    return do_malloc(m, st, a[0], True)


@model('calloc')
def f(m, st, a):
    return do_malloc(m, st, t.mul(a[0], a[1]), True)


@model('CRYPTO_memdup')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        return NULL
    res = []
    for s, p in do_malloc(m, st, a[1]):
        if p.op == 'p':
            m.memcpy(s, p, a[0], t.zext(a[1], 64))
        res.append((s, p))
    return res


@model('CRYPTO_free', 'free')
def f(m, st, a):
    return [(st, None)] if destroy(m, st, a[0], raw=True) else dead(st)


@model('CRYPTO_clear_free')
def f(m, st, a):
    if a[0].op == 'p' and a[0].a[0] in st.mem and st.mem[a[0].a[0]].kind == 'heap':
        r = st.mem[a[0].a[0]]
        if r.status != 'freed':
            m.bounds(st, r.rid, a[0].a[1], t.zext(a[1], 64), 'clear_free')
            wiped = r.size is None or a[1] is r.size or (isc(a[1]) and isc(r.size) and a[1].a >= r.size.a)
            return [(st, None)] if destroy(m, st, a[0], raw=True, wipe=True if wiped else 'part') else dead(st)
    return [(st, None)] if destroy(m, st, a[0], raw=True, wipe=True) else dead(st)


def realloc(m, st, p, n, old=None):
    if isc(p) and p.a == 0:
        return do_malloc(m, st, n)
    r = reg(m, st, p, 'realloc')
    if r is None:
        return dead(st)
    n64 = t.zext(n, 64)
    if isc(n64) and n64.a == 0:
        destroy(m, st, p, raw=True, wipe=True)
        return [(st, NULL)]
    lim = None
    if old is not None:
        # as many bytes as the caller says are kept (or cleared): they have to be there
        lim = t.zext(old, 64)
        m.bounds(st, r.rid, p.a[1], lim, 'clear_realloc')
        lim = lim.a if isc(lim) else None
    res = []
    for s, ok in outcomes(m, st):
        if not ok:
            res.append((s, NULL))
            continue
        q = newobj(m, s, None, kind='heap', size=n64, base='h')
        src = s.mem[r.rid]
        q2 = s.w(q.a[0])
        if isc(n64):
            for o, x in src.cells.items():
                if o < n64.a and (lim is None or o < lim):
                    q2.cells[o] = x
        else:
            q2.cells = dict(src.cells)
        q2.default = src.default
        if 'weak' in src.attrs:
            q2.attrs['weak'] = src.attrs['weak']
        for k in ('track', 'elems'):
            if k in src.attrs:
                q2.attrs[k] = src.attrs[k]
        if old is not None:
            h = m.hooks.get('realloc')
            if h:
                h(m, s, src, old)
        kill(m, s, r.rid)
        res.append((s, q))
    return res


@model('CRYPTO_realloc', 'realloc')
def f(m, st, a):
    return realloc(m, st, a[0], a[1])


@model('CRYPTO_clear_realloc')
def f(m, st, a):
    return realloc(m, st, a[0], a[2], old=a[1])


def fill(m, st, p, v, n):
    n = t.zext(n, 64)
    if isc(n) and n.a == 0:
        return True
    x = m.region(st, p, 'memset')
    if x is None:
        return False
    if not m.check_alive(st, x[0], 'memset'):
        return False
    m.bounds(st, x[0], x[1], n, 'memset')
    r = st.mem[x[0]]
    if r.kind == 'const':
        m.problem('write-to-constant', st, r.rid)
        return False
    r = st.w(x[0])
    v8 = t.trunc(v, 8)
    if isc(n) and isc(x[1]):
        o = t.sval(x[1])
        for i in range(n.a):
            r.cells[o + i] = (v8, 0)
    elif isc(x[1]) and isc(v8) and v8.a == 0 and x[1].a == 0 and n is r.size:
        r.cells = {}
        r.default = 'zero'
    elif isc(x[1]) and isc(v8) and v8.a == 0:
        # prefix of symbolic length: remembered as a zero run (see BN_bn2bin)
        o = t.sval(x[1])
        lo, hi = st.urange(n)
        z = r.attrs.get('zrun', ())
        if hi <= 4096 or (isc(r.size) and r.size.a <= 4096):
            top = min(hi, r.size.a - o) if isc(r.size) else hi
            for i in range(top):
                if i < lo:
                    r.cells[o + i] = (v8, 0)
                else:
                    old = m.cell(st, r, o + i)
                    r.cells[o + i] = (app('maybe0', n, c(i, 64), t.byte(old[0], old[1]) if old[0].w > 8 else old[0], w=8), 0)
        else:
            m.store_sym(st, r, x[1], v8, 1)
    else:
        m.store_sym(st, r, x[1], v8, 1)
    return True


@model('llvm.memset', 'memset', 'OPENSSL_cleanse_set')
def f(m, st, a):
    ok = fill(m, st, a[0], a[1], a[2])
    if ok and m.hooks.get('wipe'):
        m.hooks['wipe'](m, st, a[0], a[2], False)
    return [(st, a[0])] if ok else dead(st)


@model('OPENSSL_cleanse', 'explicit_bzero')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        return [(st, None)]
    ok = fill(m, st, a[0], c(0, 8), a[1])
    if ok and m.hooks.get('wipe'):
        m.hooks['wipe'](m, st, a[0], a[1], True)
    return [(st, None)] if ok else dead(st)


@model('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')
def f(m, st, a):
    n0 = len(m.problems)
    m.memcpy(st, a[0], a[1], t.zext(a[2], 64))
    if m.fatal(n0):
        return dead(st)
    return [(st, a[0])]


@model('llvm.stacksave')
def f(m, st, a):
    return sym('stacksave', 64)


@model('llvm.stackrestore', 'llvm.lifetime', 'llvm.dbg', 'llvm.va_start', 'llvm.va_end', 'llvm.assume')
def f(m, st, a):
    return None


@model('memcmp', 'CRYPTO_memcmp', 'bcmp')
def f(m, st, a):
    n = t.zext(a[2], 64)
    if isc(n) and n.a == 0:
        return I32_0
    n0 = len(m.problems)
    x, y = m.blob(st, a[0], n), m.blob(st, a[1], n)
    if m.fatal(n0):
        return dead(st)
    if x is y:
        return I32_0
    if x.id > y.id:
        x, y = y, x
    if x.a[0] == 'bytes' and y.a[0] == 'bytes' and all(isc(z) for z in x.a[1:] + y.a[1:]):
        return c(1, 32)
    return app('memcmp', x, y, w=32)


def cstring(m, st, p):
    if p.op != 'p' or not isc(p.a[1]):
        return None
    r = st.mem.get(p.a[0])
    if r is None:
        return None
    out = []
    o = p.a[1].a
    for i in range(4096):
        v, j = m.cell(st, r, o + i)
        v = t.byte(v, j) if v.w > 8 else v
        if not isc(v):
            return None
        if v.a == 0:
            return bytes(out).decode('latin1')
        out.append(v.a)
    return None


def strterm(m, st, p):
    s = cstring(m, st, p)
    return app('str', s) if s is not None else p


@model('strcmp')
def f(m, st, a):
    n0 = len(m.problems)
    for p in a:
        if isc(p):
            m.problem('null-deref', st, 'strcmp')
    if m.fatal(n0):
        return dead(st)
    x, y = strterm(m, st, a[0]), strterm(m, st, a[1])
    if x is y:
        return I32_0
    if x.a[0] == 'str' and y.a[0] == 'str' and x.op == y.op == 'app':
        return I32_1
    if x.id > y.id:
        x, y = y, x
    return app('strcmp', x, y, w=32)


@model('strlen')
def f(m, st, a):
    if isc(a[0]):
        m.problem('null-deref', st, 'strlen')
        return dead(st)
    s = cstring(m, st, a[0])
    return c(len(s), 64) if s is not None else app('strlen', a[0], w=64)


@model('ntohl', 'htonl')
def f(m, st, a):
    b = t.bits(a[0])
    return t.mkb(b[24:32] + b[16:24] + b[8:16] + b[0:8])


@model('ntohs', 'htons')
def f(m, st, a):
    x = t.trunc(a[0], 16)
    b = t.bits(x)
    return t.mkb(b[8:16] + b[0:8])


@model('llvm.bswap')
def f(m, st, a):
    b = t.bits(a[0])
    out = ()
    for i in range(a[0].w // 8 - 1, -1, -1):
        out += b[8 * i:8 * i + 8]
    return t.mkb(out)


@model('llvm.fshl')
def f(m, st, a):
    k = a[2]
    if not isc(k):
        return app('fshl', *a, w=a[0].w)
    n = k.a % a[0].w
    if n == 0:
        return a[0]
    return t.or_(t.shl(a[0], c(n, a[0].w)), t.lshr(a[1], c(a[0].w - n, a[0].w)))


@model('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')
def f(m, st, a):
    nm = callee(m).split('.')[1]
    lt = t.ult(a[0], a[1]) if nm[0] == 'u' else t.slt(a[0], a[1])
    return t.ite(lt, a[0], a[1]) if nm.endswith('min') else t.ite(lt, a[1], a[0])


@model('time')
def f(m, st, a):
    v = sym(st.fresh('time'), 64)
    st.event('time-sym', (len(st.has('time-sym')) + 1, v)) if m.cfg.get('callevents') else None
    if not isc(a[0]):
        m.store(st, a[0], v, 64)
    return v


@model('__errno_location')
def f(m, st, a):
    if 'errno' not in st.mem:
        r = Region('errno', 'global', size=c(4, 64), default='input')
        r.tok = st.tok
        st.mem['errno'] = r
    return ptr('errno')


# ------------------------------------------------------------------ BIGNUM
def bnc(v):
    return app('bnc', v)


def isbc(v):
    return v.op == 'app' and v.a[0] == 'bnc'


def bval(m, st, p):
    r = reg(m, st, p)
    if r is None:
        return None
    v = r.attrs.get('val')
    if v is None:
        v = app('bnv', r.rid)
        st.w(r.rid).attrs['val'] = v
    v2 = bnorm(st, v)
    if v2 is not v:
        st.w(r.rid).attrs['val'] = v2
    return v2


def bnorm(st, v):
    if v.op == 'app' and v.a[0] == 'ctk':
        base, K = v.a[1], v.a[2]
        nb = nbits(v)
        if st.decide(t.slt(K, nb)) is False or not isc(K) and linear.implied_le(st, nb, K):
            return btrunc(st, base, K)
    return v


def btrunc(st, v, K):
    if v.op == 'app' and v.a[0] == 'trunc' and v.a[2] is K:
        return v
    if isbc(v) and isc(K):
        return bnc(v.a[1] & ((1 << K.a) - 1))
    if st.decide(t.slt(K, nbits(v))) is False:
        return v
    return app('trunc', v, K)


def bset(m, st, p, v):
    r = reg(m, st, p, 'result')
    if r is None:
        return False
    if r.attrs.get('const'):
        m.problem('write-to-constant', st, 'BIGNUM constant modified by ' + callee(m))
        return False
    st.w(r.rid).attrs['val'] = v
    return True


def offset(x, nb):
    """o with x == nb + o for a small constant o, else None"""
    if x is nb:
        return c(0, 32)
    o = t.sub(x, nb)
    if isc(o) and abs(t.sval(o)) < 1 << 20:
        return o
    return None


def nbits(v):
    if isbc(v):
        return c(v.a[1].bit_length(), 32)
    return app('nbits', v, w=32)


def known_hi(m, st, v):
    if isbc(v):
        return v.a[1].bit_length()
    x = known_bits(m, st, nbits(v), v)
    return st.urange(x)[1]


def shape_bits(m, v):
    """range of nbits(v) that follows from the form of v alone"""
    hi = 1 << 20
    if v.op == 'app' and v.a[0] == 'bn' and v.a[1].a[0] == 'bytes':
        hi = 8 * (len(v.a[1].a) - 1)
    if v.op == 'app' and v.a[0] == 'trunc' and isc(v.a[2]):
        hi = v.a[2].a
    if v.op == 'app' and v.a[0] == 'gfadd':
        hi = max(y.a[1].bit_length() if isbc(y) else shape_bits(m, y)[1] for y in v.a[1:])
    G = m.cfg.get('bnbits')
    lo = 0
    if G:
        r = G(v)
        if r is not None:
            lo, hi = max(lo, r[0]), min(hi, r[1])
    return lo, hi


def known_bits(m, st, x, v):
    """range facts for nbits(v)"""
    if isc(x):
        return x
    lo, hi = shape_bits(m, v)
    if lo == hi:
        return c(lo, 32)
    if v.op == 'app' and v.a[0] == 'gfadd':
        hi = max(known_hi(m, st, y) for y in v.a[1:])
    if lo == 0 and st.decide(t.beq(v, ZERO_BN)) is False:
        lo = 1
    l0, h0 = st.urng.get(x, (0, 1 << 32))
    st.urng[x] = (max(lo, l0), min(hi, h0))
    l0, h0 = st.srng.get(x, (0, 1 << 31))
    st.srng[x] = (max(lo, l0), min(hi, h0))
    return x


@model('BN_new', 'BN_secure_new')
def f(m, st, a):
    return [(s, newobj(m, s, 'BIGNUM', val=ZERO_BN) if ok else NULL) for s, ok in outcomes(m, st)]


@model('BN_free')
def f(m, st, a):
    return [(st, None)] if destroy(m, st, a[0], 'BIGNUM') else dead(st)


@model('BN_clear_free')
def f(m, st, a):
    return [(st, None)] if destroy(m, st, a[0], 'BIGNUM', wipe=True) else dead(st)


@model('BN_value_one')
def f(m, st, a):
    if 'bn:one' not in st.mem:
        r = Region('bn:one', 'obj', typ='BIGNUM')
        r.attrs.update(val=ONE_BN, const=1, static=1)
        r.tok = st.tok
        st.mem['bn:one'] = r
    return ptr('bn:one')


@model('BN_CTX_new', 'BN_CTX_secure_new')
def f(m, st, a):
    return [(s, newobj(m, s, 'BN_CTX', depth=0, pool=()) if ok else NULL) for s, ok in outcomes(m, st)]


@model('BN_CTX_start')
def f(m, st, a):
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    w = st.w(r.rid)
    if w.kind == 'ext':
        return None
    w.attrs['pool'] = w.attrs.get('pool', ()) + ('|',)
    return None


@model('BN_CTX_get')
def f(m, st, a):
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    res = []
    bad = ('ctxbad', r.rid)
    if st.ghost.get(bad):
        return NULL      # after one failure every later get in the frame fails
    for s, ok in outcomes(m, st):
        if ok:
            p = newobj(m, s, 'BIGNUM', owned=False, base='bnctx', val=ZERO_BN, borrowed='BN_CTX')
            w = s.w(r.rid)
            w.attrs['pool'] = w.attrs.get('pool', ()) + (p,)
        else:
            s.ghost[bad] = 1
            p = NULL
        res.append((s, p))
    return res


@model('BN_CTX_end')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        return None
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    pool = list(r.attrs.get('pool', ()))
    while pool:
        x = pool.pop()
        if x == '|':
            break
        if x.a[0] in st.mem:
            kill(m, st, x.a[0])
    st.w(r.rid).attrs['pool'] = tuple(pool)
    st.ghost.pop(('ctxbad', r.rid), None)
    return None


@model('BN_CTX_free')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        return None
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    for x in r.attrs.get('pool', ()):
        if x != '|' and x.a[0] in st.mem:
            kill(m, st, x.a[0])
    return [(st, None)] if destroy(m, st, a[0], 'BN_CTX') else dead(st)


def lenconst(n):
    return n.a if isc(n) else None


def mkbn(m, st, blob):
    """value of big-endian bytes"""
    if blob.a[0] == 'bytes':
        bs = list(blob.a[1:])
        while bs and isc(bs[0]) and bs[0].a == 0:
            bs = bs[1:]
        if all(isc(b) for b in bs):
            return bnc(int.from_bytes(bytes(b.a for b in bs), 'big'))
        # digits of one number?
        n = len(bs)
        if all(b.op == 'app' and b.a[0] == 'digit' and b.a[1] is bs[0].a[1] and b.a[2].a == n - 1 - i for i, b in enumerate(bs)):
            v = bs[0].a[1]
            x = nbits(v)
            known_bits(m, st, x, v)
            if st.urange(x)[1] <= 8 * n:
                return v
        return app('bn', app('bytes', *bs))
    if blob.a[0] == 'digits':
        return blob.a[1]
    return app('bn', blob)


@model('BN_bin2bn')
def f(m, st, a):
    n = t.sext(a[1], 64)
    n0 = len(m.problems)
    if isc(n) and n.a == 0:
        v = ZERO_BN
    else:
        v = mkbn(m, st, m.blob(st, a[0], n))
    if m.fatal(n0):
        return dead(st)
    res = []
    for s, ok in outcomes(m, st):
        if not ok:
            res.append((s, NULL))
        elif isc(a[2]) and a[2].a == 0:
            res.append((s, newobj(m, s, 'BIGNUM', val=v)))
        elif bset(m, s, a[2], v):
            res.append((s, a[2]))
    return res


@model('BN_lebin2bn')
def f(m, st, a):
    n = t.sext(a[1], 64)
    n0 = len(m.problems)
    b = m.blob(st, a[0], n)
    if b.a[0] == 'bytes':
        b = app('bytes', *reversed(b.a[1:]))
    else:
        b = rev(b, n)
    v = mkbn(m, st, b)
    if m.fatal(n0):
        return dead(st)
    res = []
    for s, ok in outcomes(m, st):
        if not ok:
            res.append((s, NULL))
        elif isc(a[2]) and a[2].a == 0:
            res.append((s, newobj(m, s, 'BIGNUM', val=v)))
        elif bset(m, s, a[2], v):
            res.append((s, a[2]))
    return res


def rev(b, n):
    if b.op == 'app' and b.a[0] == 'rev':
        return b.a[1]
    return app('rev', b, n)


def digit(v, i):
    if isbc(v):
        return c(v.a[1] >> (8 * i), 8)
    return app('digit', v, c(i, 32), w=8)


def nbytes(m, st, v, plain=False):
    x = known_bits(m, st, nbits(v), v)
    if not isc(x) and not plain:
        lo, hi = st.urange(x)
        if (lo + 7) // 8 == (hi + 7) // 8:
            return c((lo + 7) // 8, 32)
    return t.divrem('sdiv', t.add(x, c(7, 32)), c(8, 32))


@model('BN_bn2bin')
def f(m, st, a):
    v = bval(m, st, a[0])
    if v is None:
        return dead(st)
    nb = nbytes(m, st, v)
    x = m.region(st, a[1], 'BN_bn2bin')
    if x is None or not m.check_alive(st, x[0], 'BN_bn2bin'):
        return dead(st)
    rid, off = x
    n64 = t.sext(nb, 64)
    m.bounds(st, rid, off, n64, 'BN_bn2bin')
    r = st.w(rid)
    k = nb.a if isc(nb) else None
    if k is None and st.urange(nb)[0] == st.urange(nb)[1]:
        k = st.urange(nb)[0]
    if k is not None and isc(off):
        o = t.sval(off)
        for i in range(k):
            r.cells[o + i] = (digit(v, k - 1 - i), 0)
        # the digits above the length are zero: zero bytes in front of the
        # number are those digits
        top = (shape_bits(m, v)[1] + 7) // 8
        for i in range(k, top if top <= 64 and not isbc(v) else 0):
            j = o + k - 1 - i
            cell = r.cells.get(j)
            if j < 0 or not (cell[0] is c(0, 8) if cell else r.default == 'zero'):
                break
            r.cells[j] = (digit(v, i), 0)
        return nbytes(m, st, v, True)
    end = t.add(off, n64)
    lo, hi = st.urange(nb)
    # right-aligned in a zero-padded field: [end-L, end)
    if isc(end):
        K = t.sval(end)
        z = t.sub(c(K, 64), n64)
        start = max(K - hi, 0)
        good = True
        for o in range(start, K - lo):
            cell = r.cells.get(o)
            if cell is None:
                good = good and r.default == 'zero'
                continue
            y = cell[0]
            if isc(y) and y.a == 0:
                continue
            if y.op == 'app' and y.a[0] == 'maybe0':
                # zero iff idx < count; count = (K - b0) - nb with idx = o - b0
                b0 = o - y.a[2].a
                if t.add(y.a[1], n64) is c(K - b0, 64):
                    continue
            good = False
        if good:
            for o in range(start, K):
                r.cells[o] = (digit(v, K - 1 - o), 0)
            top = (shape_bits(m, v)[1] + 7) // 8
            for o in range(start - 1, K - 1 - top if top <= 64 and not isbc(v) else start, -1):
                cell = r.cells.get(o)
                if o < 0 or not (cell[0] is c(0, 8) if cell else r.default == 'zero'):
                    break
                r.cells[o] = (digit(v, K - 1 - o), 0)
            return nb
    if isc(off) and off.a == 0 and (r.size is n64 or (not isc(n64))):
        r.cells = {}
        b = app('digits', v)
        r.default = 'input~blob:%d' % b.id
        r.attrs['blob'] = (n64, b)
        return nb
    m.store_sym(st, r, off, sym(st.fresh('bnbyte'), 8), 1)
    return nb


def pad(m, st, a, little):
    v = bval(m, st, a[0])
    if v is None:
        return dead(st)
    x = m.region(st, a[1], 'BN_bn2binpad')
    if x is None or not m.check_alive(st, x[0], 'BN_bn2binpad'):
        return dead(st)
    rid, off = x
    n = t.sext(a[2], 64)
    m.bounds(st, rid, off, n, 'BN_bn2binpad')
    nb = nbytes(m, st, v)
    fits = t.not_(t.slt(a[2], nb))
    res = []
    d = st.decide(fits)
    if d is not True:
        s2 = st.fork()
        if s2.assume(fits, False):
            res.append((s2, c(-1, 32)))
        if d is False or not st.assume(fits, True):
            return res
    r = st.w(rid)
    if isc(n) and isc(off):
        for i in range(n.a):
            r.cells[t.sval(off) + i] = (digit(v, i if little else n.a - 1 - i), 0)
    else:
        m.store_sym(st, r, off, sym(st.fresh('bnbyte'), 8), 1)
    res.append((st, a[2]))
    return res


@model('BN_bn2binpad')
def f(m, st, a):
    return pad(m, st, a, False)


@model('BN_bn2lebinpad')
def f(m, st, a):
    return pad(m, st, a, True)


@model('BN_num_bits')
def f(m, st, a):
    v = bval(m, st, a[0])
    if v is None:
        return dead(st)
    return known_bits(m, st, nbits(v), v)


@model('BN_copy')
def f(m, st, a):
    v = bval(m, st, a[1])
    if v is None:
        return dead(st)
    res = []
    for s, ok in outcomes(m, st):
        if not ok:
            if reg(m, s, a[0]) is not None:
                res.append((s, NULL))
        elif bset(m, s, a[0], v):
            res.append((s, a[0]))
    return res


@model('BN_dup')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        return NULL
    v = bval(m, st, a[0])
    if v is None:
        return dead(st)
    return [(s, newobj(m, s, 'BIGNUM', val=v) if ok else NULL) for s, ok in outcomes(m, st)]


def bnop(cls='A', nbn=None):
    """decorator: f(m, st, vals...)->value; args: (r, operands..., [ctx])"""
    def d(fn):
        def g(m, st, a):
            if reg(m, st, a[0], 'result') is None:
                return dead(st)
            vals = []
            for p in a[1:1 + nbn]:
                v = bval(m, st, p)
                if v is None:
                    return dead(st)
                vals.append(v)
            res = []
            for s, ok in outcomes(m, st, cls=cls):
                if ok:
                    if bset(m, s, a[0], fn(m, s, *vals)):
                        res.append((s, I32_1))
                else:
                    res.append((s, I32_0))
            return res
        return g
    return d


def srt(*xs):
    return tuple(sorted(xs, key=lambda z: z.id))


from gf import gfadd, gfsqr, gfmul, gfinv, DEG
import gf


M['BN_GF2m_add'] = bnop(nbn=2)(lambda m, st, a, b: gfadd(a, b))
M['BN_GF2m_mod_mul'] = bnop(nbn=3)(lambda m, st, a, b, p: gfmul(a, b, p))
M['BN_GF2m_mod_sqr'] = bnop(nbn=2)(lambda m, st, a, p: gfsqr(a, p))
M['BN_GF2m_mod_inv'] = bnop(nbn=2, cls='P')(lambda m, st, a, p: gfinv(a, p))
M['BN_GF2m_mod_div'] = bnop(nbn=3, cls='P')(lambda m, st, a, b, p: gfmul(a, gfinv(b, p), p))
M['BN_GF2m_mod_sqrt'] = bnop(nbn=2)(lambda m, st, a, p: app('gfsqrt', p, a))


@model('BN_GF2m_mod_solve_quad')
def f(m, st, a):
    v, p = bval(m, st, a[1]), bval(m, st, a[2])
    if v is None or p is None:
        return dead(st)
    sols = [app('gfquad', p, v)]
    for (x, y, pp, ca, cb) in m.cfg.get('curvepts', ()):
        # a point of the curve: (y/x)^2 + y/x = x + a + b/x^2
        if pp is p:
            xi = gfinv(x, p)
            if gfadd(gfadd(x, ca), gfmul(cb, gfsqr(xi, p), p)) is v:
                z = gfmul(y, xi, p)
                sols = [z, gfadd(z, ONE_BN)]
    if gf.isbc(v) and gf.isbc(p) and gf.degree(p) % 2:
        # constants: the half trace is a root if there is one
        pv = p.a[1]
        h = w = gf.cred(v.a[1], pv)
        for _ in range(gf.degree(p) // 2):
            w = gf.cmul(w, w, pv)
            w = gf.cmul(w, w, pv)
            h ^= w
        if gf.cmul(h, h, pv) ^ h == gf.cred(v.a[1], pv):
            sols = [gf.bnc(h), gf.bnc(h ^ 1)]
        else:
            st.event('fail', callee(m), m.site())
            return [(st, I32_0)]
    res = []
    for s, ok in outcomes(m, st, cls='P' if len(sols) == 1 else 'A'):
        if not ok:
            res.append((s, I32_0))
            continue
        for i, z in enumerate(sols):
            s2 = s if i == len(sols) - 1 else s.fork()
            if bset(m, s2, a[0], z):
                res.append((s2, I32_1))
    return res


M['BN_mod_mul'] = bnop(nbn=3)(lambda m, st, a, b, n: mmul(a, b, n))
M['BN_mod_add_quick'] = bnop(nbn=3)(lambda m, st, a, b, n: madd(a, b, n))
M['BN_mod_add'] = M['BN_mod_add_quick']
M['BN_mod_sub'] = bnop(nbn=3)(lambda m, st, a, b, n: app('msub', a, b, n))
M['BN_mod_sub_quick'] = M['BN_mod_sub']
M['BN_add'] = bnop(nbn=2)(lambda m, st, a, b: app('badd', *srt(a, b)))
M['BN_mul'] = bnop(nbn=2)(lambda m, st, a, b: app('bmul', *srt(a, b)))
M['BN_nnmod'] = bnop(nbn=2)(lambda m, st, a, n: bmod(a, n))


def bmod(a, n):
    if a.op == 'app' and a.a[0] == 'badd':
        return madd(bmod(a.a[1], n), bmod(a.a[2], n), n)
    if a.op == 'app' and a.a[0] == 'bmul':
        return mmul(a.a[1], a.a[2], n)
    return app('bmod', a, n) if not (a.op == 'app' and a.a[0] in ('mmul', 'madd') and a.a[-1] is n) else a


def mmul(a, b, n):
    if a is ZERO_BN or b is ZERO_BN:
        return ZERO_BN
    return app('mmul', *srt(a, b), n)


def madd(a, b, n):
    return app('madd', *srt(a, b), n)


@model('BN_set_word')
def f(m, st, a):
    v = bnc(a[1].a) if isc(a[1]) else app('bnw', a[1])
    return [(s, c(1 if ok else 0, 32)) for s, ok in outcomes(m, st) if not ok or bset(m, s, a[0], v)]


@model('BN_zero_ex')
def f(m, st, a):
    return [(st, None)] if bset(m, st, a[0], ZERO_BN) else dead(st)


def setbit(v, i):
    if isbc(v) and isc(i):
        return bnc(v.a[1] | (1 << i.a))
    if v.op == 'app' and v.a[0] in ('setbit', 'clrbit') and v.a[2] is i:
        v = v.a[1]
    return app('setbit', v, i)


def clrbit(v, i):
    if isbc(v) and isc(i):
        return bnc(v.a[1] & ~(1 << i.a))
    if v.op == 'app' and v.a[0] in ('setbit', 'clrbit') and v.a[2] is i:
        v = v.a[1]
    return app('clrbit', v, i)


def bnbit(v, i):
    """bit i of a number"""
    if isbc(v):
        return c((v.a[1] >> i.a) & 1, 1)
    if v.op == 'app' and v.a[0] == 'gfadd':
        b = c(0, 1)
        for y in v.a[1:]:
            b = t.xor(b, bnbit(y, i))
        return b
    if v.op == 'app' and v.a[0] in ('setbit', 'clrbit') and v.a[2] is i:
        return c(1 if v.a[0] == 'setbit' else 0, 1)
    return app('bnbit', v, i, w=1)


def bitop(m, st, a, v, want):
    b = bnbit(v, a[1])
    d = st.decide(b)
    res = []
    for s, ok in outcomes(m, st):
        if not ok:
            res.append((s, I32_0))
            continue
        for cur in ((d,) if d is not None else (False, True)):
            s2 = s.fork() if d is None else s
            if d is None and not s2.assume(b, cur):
                continue
            if bset(m, s2, a[0], v if cur == want else gfadd(v, bnc(1 << a[1].a))):
                res.append((s2, I32_1))
    return res


@model('BN_set_bit')
def f(m, st, a):
    v = bval(m, st, a[0])
    if v is None:
        return dead(st)
    if isc(a[1]) and not isbc(v):
        return bitop(m, st, a, v, True)
    return [(s, c(1 if ok else 0, 32)) for s, ok in outcomes(m, st) if not ok or bset(m, s, a[0], setbit(v, a[1]))]


@model('BN_clear_bit')
def f(m, st, a):
    v = bval(m, st, a[0])
    if v is None:
        return dead(st)
    if isc(a[1]) and not isbc(v):
        return bitop(m, st, a, v, False)
    nb = nbits(v)
    new = None
    if t.sub(nb, c(1, 32)) is a[1]:
        # clearing the top bit while it lies above bit K keeps v mod 2^K
        cand = []
        for atom, val in list(st.facts.items()):
            if atom.op not in ('slt', 'ult'):
                continue
            x, y = atom.a
            ox, oy = offset(x, nb), offset(y, nb)
            if val and oy is not None and ox is None:          # x < nb+o  =>  nb > x-o
                cand.append(t.sub(x, oy))
            elif not val and ox is not None and oy is None:    # nb+o >= y  =>  nb > y-o-1
                cand.append(t.sub(t.sub(y, ox), c(1, 32)))
        if v.op == 'app' and v.a[0] == 'ctk':
            if any(K is v.a[2] for K in cand):
                new = app('ctk', v.a[1], v.a[2], st.fresh('ctk'))
        elif cand:
            K = max((K for K in cand if isc(K)), key=lambda K: t.sval(K), default=cand[0])
            new = app('ctk', v, K, st.fresh('ctk'))
    if new is None:
        new = clrbit(v, a[1])
    res = []
    for s, ok in outcomes(m, st):
        if ok:
            if bset(m, s, a[0], new):
                # the top bit is gone
                n2 = nbits(new)
                known_bits(m, s, n2, new)
                res.append((s, I32_1))
        else:
            res.append((s, I32_0))
    return res


@model('BN_mask_bits')
def f(m, st, a):
    v = bval(m, st, a[0])
    if v is None:
        return dead(st)
    nb = known_bits(m, st, nbits(v), v)
    big = t.slt(a[1], nb)
    d = st.decide(big)
    res = []
    if d is not True:
        s2 = st.fork()
        if s2.assume(big, False):
            res.append((s2, sym(s2.fresh('maskret'), 32)))
    if d is not False and st.assume(big, True):
        bset(m, st, a[0], btrunc(st, v, a[1]))
        res.append((st, I32_1))
    return res


@model('BN_is_bit_set')
def f(m, st, a):
    v = bval(m, st, a[0])
    if v is None:
        return dead(st)
    if isbc(v) and isc(a[1]):
        return c((v.a[1] >> a[1].a) & 1, 32)
    return t.zext(bnbit(v, a[1]) if isc(a[1]) else app('bnbit', v, a[1], w=1), 32)


@model('BN_is_odd')
def f(m, st, a):
    v = bval(m, st, a[0])
    if v is None:
        return dead(st)
    if isbc(v):
        return c(v.a[1] & 1, 32)
    return t.zext(bnbit(v, I32_0), 32)


@model('BN_is_zero')
def f(m, st, a):
    v = bval(m, st, a[0])
    return dead(st) if v is None else t.zext(t.beq(v, ZERO_BN), 32)


@model('BN_is_one')
def f(m, st, a):
    v = bval(m, st, a[0])
    return dead(st) if v is None else t.zext(t.beq(v, ONE_BN), 32)


@model('BN_is_word')
def f(m, st, a):
    v = bval(m, st, a[0])
    return dead(st) if v is None else (t.zext(t.beq(v, bnc(a[1].a)), 32) if isc(a[1]) else sym(st.fresh('isword'), 32))


@model('BN_is_negative')
def f(m, st, a):
    v = bval(m, st, a[0])
    if v is None:
        return dead(st)
    if v.op == 'app' and v.a[0] in ('bnc', 'bn', 'trunc', 'gfmul', 'mmul', 'madd', 'rand', 'order', 'poly'):
        return I32_0
    return t.zext(app('isneg', v, w=1), 32)


@model('BN_cmp', 'BN_ucmp')
def f(m, st, a):
    x, y = bval(m, st, a[0]), bval(m, st, a[1])
    if x is None or y is None:
        return dead(st)
    if x is y:
        return I32_0
    if isbc(x) and isbc(y):
        return c(-1 if x.a[1] < y.a[1] else 1, 32)
    return app('bncmp', x, y, w=32)


@model('BN_rand_range', 'BN_priv_rand_range')
def f(m, st, a):
    n = bval(m, st, a[1])
    if n is None:
        return dead(st)
    res = []
    for s, ok in outcomes(m, st, cls='P'):
        if ok:
            v = app('rand', s.fresh('rand'), n)
            if bset(m, s, a[0], v):
                s.facts[t.blt(v, n)] = True
                res.append((s, I32_1))
        else:
            res.append((s, I32_0))
    return res


@model('BN_rand', 'BN_priv_rand')
def f(m, st, a):
    res = []
    for s, ok in outcomes(m, st, cls='P'):
        if ok:
            if bset(m, s, a[0], app('randbits', s.fresh('randb'), a[1])):
                res.append((s, I32_1))
        else:
            res.append((s, I32_0))
    return res


@model('BN_hex2bn')
def f(m, st, a):
    # BN_hex2bn(&bn, str): number of digits read, 0 on error
    p = m.load(st, a[0], 64)
    if p is None:
        return dead(st)
    s0 = strterm(m, st, a[1])
    n = app('hexlen', s0, w=32)
    st.srng.setdefault(n, (0, 1 << 20))
    st.urng.setdefault(n, (0, 1 << 20))
    v = app('hexbn', s0)
    if isc(p) and p.a == 0:
        q = newobj(m, st, 'BIGNUM', val=v)
        m.store(st, a[0], q, 64)
    else:
        if not bset(m, st, p, v):
            return dead(st)
    return n


@model('BN_GF2m_arr2poly')
def f(m, st, a):
    bs = []
    x = m.region(st, a[0], 'arr2poly')
    if x is None or not m.check_alive(st, x[0], 'read'):
        return dead(st)
    n0 = len(m.problems)
    ended = False
    for i in range(8):
        v = m.load(st, t.add(a[0], c(4 * i, 64)), 32)
        if v is None or m.fatal(n0):
            return dead(st)
        if st.decide(t.eq(v, c(-1, 32))) is True:
            ended = True
            break
        # the terminator is recognised only when known
        bs.append(v)
    if m.cfg.get('arr2poly_obl'):
        for v in bs:
            if st.decide(t.slt(v, c(0, 32))) is not False:
                m.problem('negative-exponent', st, 'exponent %s handed to BN_GF2m_arr2poly may be negative' % t.show(v))
    if ended and all(isc(v) for v in bs):
        k = 0
        for v in bs:
            k |= 1 << v.a
        val = bnc(k)
    else:
        val = app('polyset', *srt(*set(bs))) if ended else app('polyset?', st.fresh('poly'))
    res = []
    for s, ok in outcomes(m, st, cls='P'):
        if ok:
            if bset(m, s, a[1], val):
                res.append((s, I32_1))
        else:
            res.append((s, I32_0))
    return res


@model('BN_GF2m_poly2arr')
def f(m, st, a):
    v = bval(m, st, a[0])
    if v is None:
        return dead(st)
    n = a[2].a if isc(a[2]) else 6
    h = m.cfg.get('poly2arr')
    es = h(v) if h else None
    if es is None and v.op == 'app' and v.a[0] == 'bnc':
        es = [[i for i in range(v.a[1].bit_length() - 1, -1, -1) if v.a[1] >> i & 1]]
    variants = [list(e) + [-1] for e in es] if es else None
    res = []
    if variants is None:
        # trinomial or pentanomial or anything
        variants = ['t', 'p', '?']
    for k, var in enumerate(variants):
        s = st.fork() if k < len(variants) - 1 else st
        if isinstance(var, list):
            arr = [x if isinstance(x, T) else c(x, 32) for x in var]
        elif var == 't':
            arr = [app('pexp', v, i, 'n3', w=32) for i in range(2)] + [c(0, 32), c(-1, 32)]
        elif var == 'p':
            arr = [app('pexp', v, i, 'n5', w=32) for i in range(4)] + [c(0, 32), c(-1, 32)]
        else:
            arr = [app('pexp', v, i, '?', w=32) for i in range(n)]
        for x in arr:
            if not isc(x):
                s.srng.setdefault(x, (1, 1 << 16) if var != '?' else (-1, 1 << 16))
                if var != '?':
                    s.urng.setdefault(x, (1, 1 << 16))
        for i, x in enumerate(arr[:n]):
            m.store(s, t.add(a[1], c(4 * i, 64)), x, 32)
        res.append((s, c(len(arr), 32)))
    if can_fail(m, st, 'P'):
        s2 = st.fork()
        s2.event('fail', 'BN_GF2m_poly2arr', m.site())
        res.append((s2, I32_0))
    return res


# ------------------------------------------------------------------ EC
def group_of(m, st, p):
    r = reg(m, st, p)
    if r is None:
        return None
    g = r.attrs.get('grp')
    if g is None:
        g = app('grp', r.rid)
        st.w(r.rid).attrs['grp'] = g
    return g


def point_of(m, st, p):
    r = reg(m, st, p)
    if r is None:
        return None
    v = r.attrs.get('pt')
    if v is None:
        v = app('ptv', r.rid)
        st.w(r.rid).attrs['pt'] = v
    return v


def order_of(g):
    if g.op == 'app' and g.a[0] == 'curve' and g.a[5] is not None:
        return g.a[5]
    return app('order', g)


def poly_of(g):
    if g.op == 'app' and g.a[0] == 'curve':
        return g.a[1]
    return app('poly', g)


def ca_of(g):
    if g.op == 'app' and g.a[0] == 'curve':
        return g.a[2]
    return app('ca', g)


def cb_of(g):
    if g.op == 'app' and g.a[0] == 'curve':
        return g.a[3]
    return app('cb', g)


def gen_of(g):
    if g.op == 'app' and g.a[0] == 'curve':
        return g.a[4]
    return app('gen', g)


def smul(k, p):
    if k is ZERO_BN:
        return app('inf')
    return app('smul', k, p)


def padd(xs):
    xs = [x for x in xs if x is not app('inf')]
    if not xs:
        return app('inf')
    if len(xs) == 1:
        return xs[0]
    return app('psum', *srt(*xs))


def pneg(p):
    if p.op == 'app' and p.a[0] == 'pneg':
        return p.a[1]
    return app('pneg', p)


def px(p):
    if p.op == 'app' and p.a[0] == 'pneg':
        return px(p.a[1])
    if p.op == 'app' and p.a[0] == 'paff':
        return p.a[1]
    return app('px', p)


def py(p):
    if p.op == 'app' and p.a[0] == 'paff':
        return p.a[2]
    return app('py', p)


@model('EC_POINT_new')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        return NULL
    if reg(m, st, a[0]) is None:
        return dead(st)
    return [(s, newobj(m, s, 'EC_POINT', pt=app('inf')) if ok else NULL) for s, ok in outcomes(m, st)]


@model('EC_POINT_free', 'EC_POINT_clear_free')
def f(m, st, a):
    return [(st, None)] if destroy(m, st, a[0], 'EC_POINT') else dead(st)


@model('EC_POINT_dup')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        return NULL
    p = point_of(m, st, a[0])
    if p is None:
        return dead(st)
    return [(s, newobj(m, s, 'EC_POINT', pt=p) if ok else NULL) for s, ok in outcomes(m, st)]


@model('EC_POINT_copy')
def f(m, st, a):
    p = point_of(m, st, a[1])
    if p is None or reg(m, st, a[0]) is None:
        return dead(st)
    res = []
    for s, ok in outcomes(m, st):
        if ok:
            setattr_(m, s, a[0], pt=p)
        res.append((s, c(1 if ok else 0, 32)))
    return res


@model('EC_GROUP_free', 'EC_GROUP_clear_free')
def f(m, st, a):
    return [(st, None)] if destroy(m, st, a[0], 'EC_GROUP') else dead(st)


@model('EC_GROUP_dup')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        return NULL
    g = group_of(m, st, a[0])
    if g is None:
        return dead(st)
    return [(s, newobj(m, s, 'EC_GROUP', grp=g) if ok else NULL) for s, ok in outcomes(m, st)]


@model('EC_GROUP_new_curve_GF2m')
def f(m, st, a):
    vs = []
    for p in a[:3]:
        v = bval(m, st, p)
        if v is None:
            return dead(st)
        vs.append(v)
    return [(s, newobj(m, s, 'EC_GROUP', grp=app('curve', vs[0], vs[1], vs[2], None, None)) if ok else NULL)
            for s, ok in outcomes(m, st, cls='P')]


@model('EC_GROUP_set_generator')
def f(m, st, a):
    g = group_of(m, st, a[0])
    if g is None:
        return dead(st)
    if isc(a[1]) and a[1].a == 0:
        st.event('fail', 'EC_GROUP_set_generator', m.site())
        return I32_0
    p = point_of(m, st, a[1])
    if p is None:
        return dead(st)
    n = None
    if not isc(a[2]):
        n = bval(m, st, a[2])
        if n is None:
            return dead(st)
    else:
        st.event('fail', 'EC_GROUP_set_generator', m.site())
        return I32_0
    cof = None
    if len(a) > 3 and not isc(a[3]):
        cof = bval(m, st, a[3])
        if cof is None:
            return dead(st)
    res = []
    for s, ok in outcomes(m, st, cls='P'):
        if ok:
            if g.op == 'app' and g.a[0] == 'curve':
                g2 = app('curve', g.a[1], g.a[2], g.a[3], p, n)
                m.last_curve = g2
            else:
                g2 = app('regen', g, p, n)
            s.w(a[0].a[0]).attrs['grp'] = g2
            if cof is not None:
                s.w(a[0].a[0]).attrs['cof'] = cof
        res.append((s, c(1 if ok else 0, 32)))
    return res


@model('EC_GROUP_get_order')
def f(m, st, a):
    g = group_of(m, st, a[0])
    if g is None:
        return dead(st)
    return [(s, c(1 if ok else 0, 32)) for s, ok in outcomes(m, st) if not ok or bset(m, s, a[1], order_of(g))]


@model('EC_GROUP_get0_order')
def f(m, st, a):
    g = group_of(m, st, a[0])
    if g is None:
        return dead(st)
    return newobj(m, st, 'BIGNUM', owned=False, val=order_of(g), borrowed='EC_GROUP')


@model('EC_GROUP_order_bits')
def f(m, st, a):
    g = group_of(m, st, a[0])
    if g is None:
        return dead(st)
    v = order_of(g)
    return known_bits(m, st, nbits(v), v)


@model('EC_GROUP_get_curve_GF2m', 'EC_GROUP_get_curve')
def f(m, st, a):
    g = group_of(m, st, a[0])
    if g is None:
        return dead(st)
    res = []
    for s, ok in outcomes(m, st):
        good = True
        if ok:
            for p, fn in zip(a[1:4], (poly_of, ca_of, cb_of)):
                if not (isc(p) and p.a == 0):
                    good = good and bset(m, s, p, fn(g))
        if good:
            res.append((s, c(1 if ok else 0, 32)))
    return res


@model('EC_GROUP_get_degree')
def f(m, st, a):
    g = group_of(m, st, a[0])
    if g is None:
        return dead(st)
    h = m.cfg.get('degree')
    if h:
        d = h(g)
        if d is not None:
            return c(d, 32)
    x = app('deg', g, w=32)
    st.srng.setdefault(x, (1, 1 << 16))
    st.urng.setdefault(x, (1, 1 << 16))
    return x


@model('EC_GROUP_get0_generator')
def f(m, st, a):
    g = group_of(m, st, a[0])
    if g is None:
        return dead(st)
    p = newobj(m, st, 'EC_POINT', owned=False, pt=gen_of(g), borrowed='EC_GROUP')
    if m.cfg['faults']:
        s2 = st.fork()
        s2.event('soft', 'EC_GROUP_get0_generator', m.site())
        return [(st, p), (s2, NULL)]
    return p


@model('EC_GROUP_method_of')
def f(m, st, a):
    g = group_of(m, st, a[0])
    if g is None:
        return dead(st)
    return app('method_of', g, w=64)


@model('EC_METHOD_get_field_type')
def f(m, st, a):
    if m.cfg.get('binary_field'):
        return c(m.cfg['binary_field'], 32)
    return app('field_type', a[0], w=32)


@model('EC_GROUP_get_field_type')
def f(m, st, a):
    if m.cfg.get('binary_field'):
        return c(m.cfg['binary_field'], 32)
    g = group_of(m, st, a[0])
    return dead(st) if g is None else app('field_type', app('method_of', g, w=64), w=32)


@model('EC_GROUP_get_curve_name')
def f(m, st, a):
    g = group_of(m, st, a[0])
    return dead(st) if g is None else app('curve_name', g, w=32)


@model('EC_GROUP_cmp')
def f(m, st, a):
    n0 = len(m.problems)
    x, y = (group_of(m, st, p) for p in a[:2])
    if x is None or y is None:
        return dead(st)
    if x is y:
        return I32_0
    if x.op == y.op == 'app' and x.a[0] == y.a[0] == 'curve' and any(u is not v and isbc(u) and isbc(v) for u, v in zip(x.a[1:], y.a[1:])):
        return I32_1
    if x.id > y.id:
        x, y = y, x
    r = app('groupcmp', x, y, w=32)
    st.srng.setdefault(r, (-1, 1))
    return r


@model('EC_POINT_cmp')
def f(m, st, a):
    g = group_of(m, st, a[0])
    x, y = (point_of(m, st, p) for p in a[1:3])
    if x is None or y is None or g is None:
        return dead(st)
    if x is y:
        return I32_0
    if x.id > y.id:
        x, y = y, x
    r = app('ptcmp', x, y, w=32)
    st.srng.setdefault(r, (-1, 1))
    return r


@model('EC_POINT_mul')
def f(m, st, a):
    # EC_POINT_mul(group, r, n, q, m, ctx) : r = n*G + m*q
    g = group_of(m, st, a[0])
    if g is None or reg(m, st, a[1], 'result') is None:
        return dead(st)
    xs = []
    if not (isc(a[2]) and a[2].a == 0):
        n = bval(m, st, a[2])
        if n is None:
            return dead(st)
        xs.append(smul(n, gen_of(g)))
    if not (isc(a[3]) and a[3].a == 0) and not (isc(a[4]) and a[4].a == 0):
        q = point_of(m, st, a[3])
        k = bval(m, st, a[4])
        if q is None or k is None:
            return dead(st)
        xs.append(smul(k, q))
    v = padd(xs)
    res = []
    for s, ok in outcomes(m, st):
        if ok:
            setattr_(m, s, a[1], pt=v)
        res.append((s, c(1 if ok else 0, 32)))
    return res


@model('EC_POINT_add')
def f(m, st, a):
    g = group_of(m, st, a[0])
    x, y = point_of(m, st, a[2]), point_of(m, st, a[3])
    if g is None or x is None or y is None or reg(m, st, a[1], 'result') is None:
        return dead(st)
    fl = []
    for z in (x, y):
        fl += list(z.a[1:]) if z.op == 'app' and z.a[0] == 'psum' else [z]
    res = []
    for s, ok in outcomes(m, st):
        if ok:
            setattr_(m, s, a[1], pt=padd(fl))
        res.append((s, c(1 if ok else 0, 32)))
    return res


@model('EC_POINT_invert')
def f(m, st, a):
    g, p = group_of(m, st, a[0]), point_of(m, st, a[1])
    if g is None or p is None:
        return dead(st)
    res = []
    for s, ok in outcomes(m, st):
        if ok:
            setattr_(m, s, a[1], pt=pneg(p))
        res.append((s, c(1 if ok else 0, 32)))
    return res


@model('EC_POINT_is_at_infinity')
def f(m, st, a):
    g, p = group_of(m, st, a[0]), point_of(m, st, a[1])
    if g is None or p is None:
        return dead(st)
    return t.zext(t.beq(p, app('inf')), 32)


@model('EC_POINT_is_on_curve')
def f(m, st, a):
    g, p = group_of(m, st, a[0]), point_of(m, st, a[1])
    if g is None or p is None:
        return dead(st)
    for (x, y, pp, ca, cb) in m.cfg.get('curvepts', ()):
        if g.op == 'app' and g.a[0] == 'curve' and (g.a[1], g.a[2], g.a[3]) == (pp, ca, cb) and p.op == 'app' and p.a[0] == 'paff' and (p.a[1], p.a[2]) == (x, y):
            return c(1, 32)
    return t.zext(app('oncurve', g, p, w=1), 32)


@model('EC_POINT_get_affine_coordinates_GF2m', 'EC_POINT_get_affine_coordinates')
def f(m, st, a):
    g, p = group_of(m, st, a[0]), point_of(m, st, a[1])
    if g is None or p is None:
        return dead(st)
    res = []
    if st.decide(t.beq(p, app('inf'))) is True:
        st.event('reject', 'EC_POINT_get_affine_coordinates', m.site())
        return I32_0
    isinf = t.beq(p, app('inf'))
    if st.decide(isinf) is None and p.op == 'app' and p.a[0] in ('smul', 'psum'):
        # the point at infinity has no affine coordinates
        s2 = st.fork()
        if s2.assume(isinf, True):
            s2.event('reject', 'EC_POINT_get_affine_coordinates', m.site())
            res.append((s2, I32_0))
        st.assume(isinf, False)
    for s, ok in outcomes(m, st, cls='P'):
        good = True
        if ok:
            for q, v in ((a[2], px(p)), (a[3], py(p))):
                if not (isc(q) and q.a == 0):
                    good = good and bset(m, s, q, v)
        if good:
            res.append((s, c(1 if ok else 0, 32)))
    return res


@model('EC_POINT_set_affine_coordinates_GF2m', 'EC_POINT_set_affine_coordinates')
def f(m, st, a):
    g = group_of(m, st, a[0])
    x, y = bval(m, st, a[2]), bval(m, st, a[3])
    if g is None or x is None or y is None or reg(m, st, a[1], 'result') is None:
        return dead(st)
    res = []
    for s, ok in outcomes(m, st, cls='P'):
        if ok:
            setattr_(m, s, a[1], pt=app('paff', x, y))
        res.append((s, c(1 if ok else 0, 32)))
    return res


@model('EC_KEY_new')
def f(m, st, a):
    return [(s, newobj(m, s, 'EC_KEY', group=NULL, priv=NULL, pub=NULL) if ok else NULL) for s, ok in outcomes(m, st)]


@model('EC_KEY_free')
def f(m, st, a):
    return [(st, None)] if destroy(m, st, a[0], 'EC_KEY') else dead(st)


@model('EC_KEY_up_ref', 'EVP_PKEY_up_ref', 'X509_up_ref', 'BIO_up_ref')
def f(m, st, a):
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    w = st.w(r.rid)
    w.attrs['refs'] = w.attrs.get('refs', 1) + 1
    return I32_1


def ec_get(slot):
    def g(m, st, a):
        if isc(a[0]) and a[0].a == 0:
            if slot == 'group':
                return NULL          # EC_KEY_get0_group(NULL) crashes in 1.1, NULL check exists in 3.0 only for libctx
            m.problem('null-deref', st, callee(m))
            return dead(st)
        r = reg(m, st, a[0])
        if r is None:
            return dead(st)
        v = r.attrs.get(slot)
        if v is None:
            # unknown key: any of NULL / present
            typ = {'group': 'EC_GROUP', 'priv': 'BIGNUM', 'pub': 'EC_POINT'}[slot]
            rid = '%s.%s' % (r.rid, slot)
            s2 = st.fork()
            s2.w(r.rid).attrs[slot] = NULL
            q = Region(rid, 'obj', typ=typ, site='key argument')
            q.tok = st.tok
            q.attrs.update(borrowed='EC_KEY', child=1)
            st.mem[rid] = q
            st.w(r.rid).attrs[slot] = ptr(rid)
            return [(st, ptr(rid)), (s2, NULL)]
        return v
    return g


M['EC_KEY_get0_group'] = ec_get('group')
M['EC_KEY_get0_private_key'] = ec_get('priv')
M['EC_KEY_get0_public_key'] = ec_get('pub')


def ec_set(slot, typ, key, getter):
    def g(m, st, a):
        r = reg(m, st, a[0], 'result')
        if r is None:
            return dead(st)
        if isc(a[1]) and a[1].a == 0:
            if slot == 'group':
                st.event('fail', callee(m), m.site())
                return I32_0
            st.event('fail', callee(m), m.site())
            return I32_0
        v = getter(m, st, a[1])
        if v is None:
            return dead(st)
        res = []
        for s, ok in outcomes(m, st, cls='P' if slot == 'priv' else 'A'):
            if ok:
                p = newobj(m, s, typ, owned=False, borrowed='EC_KEY', child=1, **{key: v})
                old = s.mem[r.rid].attrs.get(slot)
                if old is not None and old.op == 'p' and old.a[0] in s.mem:
                    kill(m, s, old.a[0])
                s.w(r.rid).attrs[slot] = p
            res.append((s, c(1 if ok else 0, 32)))
        return res
    return g


M['EC_KEY_set_group'] = ec_set('group', 'EC_GROUP', 'grp', group_of)
M['EC_KEY_set_private_key'] = ec_set('priv', 'BIGNUM', 'val', bval)
M['EC_KEY_set_public_key'] = ec_set('pub', 'EC_POINT', 'pt', point_of)


# ------------------------------------------------------------------ EVP_PKEY
@model('EVP_PKEY_new')
def f(m, st, a):
    return [(s, newobj(m, s, 'EVP_PKEY', key=NULL, type=I32_0) if ok else NULL) for s, ok in outcomes(m, st)]


@model('EVP_PKEY_free')
def f(m, st, a):
    return [(st, None)] if destroy(m, st, a[0], 'EVP_PKEY') else dead(st)


@model('EVP_PKEY_get0')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        return NULL
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    k = r.attrs.get('key')
    if k is None:
        h = m.cfg.get('mkkey')
        s2 = st.fork()
        s2.w(r.rid).attrs['key'] = NULL
        k = h(m, st, r) if h else app('pkey0', r.rid, w=64)
        st.w(r.rid).attrs['key'] = k
        return [(st, k), (s2, NULL)]
    return k


@model('EVP_PKEY_assign')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        st.event('fail', 'EVP_PKEY_assign', m.site())
        return I32_0
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    res = []
    for s, ok in outcomes(m, st, cls='P'):
        if ok:
            w = s.w(r.rid)
            old = w.attrs.get('key')
            if old is not None and old.op == 'p' and m.hooks.get('pkey_free'):
                m.hooks['pkey_free'](m, s, w)
                w = s.w(r.rid)
            w.attrs['key'] = a[2]
            w.attrs['type'] = a[1]
            # EVP_PKEY_assign returns (key != NULL)
            if isc(a[2]) and a[2].a == 0:
                s.event('fail', 'EVP_PKEY_assign', m.site())
                res.append((s, I32_0))
                continue
        res.append((s, c(1 if ok else 0, 32)))
    return res


def pkey_type(m, st, a):
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    v = r.attrs.get('type')
    if v is None:
        v = app('pkeytype', r.rid, w=32)
        st.w(r.rid).attrs['type'] = v
    return v


for _n in ('EVP_PKEY_get_id', 'EVP_PKEY_id', 'EVP_PKEY_get_base_id', 'EVP_PKEY_base_id'):
    M[_n] = pkey_type


@model('EVP_PKEY_set_type')
def f(m, st, a):
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    res = []
    for s, ok in outcomes(m, st, cls='P'):
        if ok:
            w = s.w(r.rid)
            old = w.attrs.get('key')
            if old is not None and old.op == 'p' and m.hooks.get('pkey_free'):
                m.hooks['pkey_free'](m, s, w)
                w = s.w(r.rid)
            w.attrs['key'] = NULL
            w.attrs['type'] = a[1]
        res.append((s, c(1 if ok else 0, 32)))
    return res


@model('EVP_PKEY_set1_EC_KEY')
def f(m, st, a):
    if reg(m, st, a[0]) is None:
        return dead(st)
    if isc(a[1]) and a[1].a == 0:
        st.event('fail', 'EVP_PKEY_set1_EC_KEY', m.site())
        return I32_0
    if reg(m, st, a[1]) is None:
        return dead(st)
    res = okfail(m, st)
    for s, r in res if isinstance(res, list) else [(st, res)]:
        if isc(r) and r.a:
            s.w(a[0].a[0]).attrs['eckey'] = a[1]
    return res


@model('EVP_PKEY_get_size', 'EVP_PKEY_size')
def f(m, st, a):
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    h = m.cfg.get('pkey_size')
    if h:
        return h(m, st, a[0])
    v = app('pkeysize', r.rid, w=32)
    st.srng.setdefault(v, (0, 1 << 20))
    st.urng.setdefault(v, (0, 1 << 20))
    return v


@model('EVP_PKEY_print_params', 'EVP_PKEY_print_private', 'EVP_PKEY_print_public')
def f(m, st, a):
    r = reg(m, st, a[1])
    if r is None:
        return dead(st)
    res = okfail(m, st, 'P')
    h = m.hooks.get('printed')
    if h:
        for s, v in res if isinstance(res, list) else [(st, res)]:
            h(m, s, callee(m), a, s.mem[a[1].a[0]].attrs.get('eckey') or s.mem[a[1].a[0]].attrs.get('key'), v)
    return res


@model('EVP_PKEY_CTX_get0_pkey')
def f(m, st, a):
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    v = r.attrs.get('pkey')
    return v if v is not None else app('ctxpkey', r.rid, w=64)


@model('EVP_PKEY_CTX_get_data')
def f(m, st, a):
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    v = r.attrs.get('data')
    return v if v is not None else app('ctxdata', r.rid, w=64)


@model('EVP_PKEY_CTX_set_data')
def f(m, st, a):
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    st.w(r.rid).attrs['data'] = a[1]
    return None


@model('EVP_MD_CTX_get_pkey_ctx', 'EVP_MD_CTX_pkey_ctx')
def f(m, st, a):
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    v = r.attrs.get('pctx')
    return v if v is not None else app('mdpctx', r.rid, w=64)


@model('EVP_MD_CTX_get0_md_data', 'EVP_MD_CTX_md_data')
def f(m, st, a):
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    v = r.attrs.get('mddata')
    return v if v is not None else app('mddata', r.rid, w=64)


@model('EVP_MD_get_type', 'EVP_MD_type')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        m.problem('null-deref', st, 'EVP_MD_get_type')
        return dead(st)
    return app('mdtype', a[0], w=32)


def ctx_slot(slot, kind='ptr'):
    def g(m, st, a):
        r = reg(m, st, a[0])
        if r is None:
            return dead(st)
        v = r.attrs.get(slot)
        if v is None:
            v = app(slot, r.rid, w=64 if kind == 'ptr' else 32)
        return v
    return g


M['EVP_CIPHER_CTX_get_cipher_data'] = ctx_slot('cdata')
M['EVP_CIPHER_CTX_buf_noconst'] = ctx_slot('buf')
M['EVP_CIPHER_CTX_iv'] = ctx_slot('iv')
M['EVP_CIPHER_CTX_iv_noconst'] = ctx_slot('iv')
M['EVP_CIPHER_CTX_original_iv'] = ctx_slot('oiv')
M['EVP_CIPHER_CTX_get_num'] = ctx_slot('num', 'i')
M['EVP_CIPHER_CTX_num'] = M['EVP_CIPHER_CTX_get_num']
M['EVP_CIPHER_CTX_is_encrypting'] = ctx_slot('enc', 'i')
M['EVP_CIPHER_CTX_encrypting'] = M['EVP_CIPHER_CTX_is_encrypting']


@model('EVP_CIPHER_CTX_set_num')
def f(m, st, a):
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    st.w(r.rid).attrs['num'] = a[1]
    return I32_1


# ------------------------------------------------------------------ method tables
def meth_new(typ):
    def g(m, st, a):
        return [(s, newobj(m, s, typ, ctor=tuple(a)) if ok else NULL) for s, ok in outcomes(m, st)]
    return g


def meth_free(typ):
    def g(m, st, a):
        return [(st, None)] if destroy(m, st, a[0], typ) else dead(st)
    return g


def meth_set(fail):
    def g(m, st, a):
        nm = callee(m)
        r = reg(m, st, a[0])
        if r is None:
            return dead(st)
        w = st.w(r.rid)
        key = nm.split('_meth_set_')[-1].split('_asn1_set_')[-1].replace('ENGINE_set_', '')
        w.attrs['m:' + key] = tuple(a[1:])
        if not fail:
            return None
        return okfail(m, st)
    return g


for _n in ('result_size', 'input_blocksize', 'app_datasize', 'flags', 'init', 'update', 'final', 'copy', 'cleanup', 'ctrl'):
    M['EVP_MD_meth_set_' + _n] = meth_set(True)
M['EVP_MD_meth_new'] = meth_new('EVP_MD')
M['EVP_MD_meth_free'] = meth_free('EVP_MD')
for _n in ('iv_length', 'flags', 'init', 'do_cipher', 'cleanup', 'impl_ctx_size', 'set_asn1_params', 'get_asn1_params', 'ctrl'):
    M['EVP_CIPHER_meth_set_' + _n] = meth_set(True)
M['EVP_CIPHER_meth_new'] = meth_new('EVP_CIPHER')
M['EVP_CIPHER_meth_free'] = meth_free('EVP_CIPHER')
for _n in ('init', 'cleanup', 'keygen', 'ctrl', 'sign', 'verify', 'copy', 'paramgen', 'signctx', 'verifyctx', 'encrypt', 'decrypt', 'derive'):
    M['EVP_PKEY_meth_set_' + _n] = meth_set(False)
M['EVP_PKEY_meth_new'] = meth_new('EVP_PKEY_METHOD')
M['EVP_PKEY_meth_free'] = meth_free('EVP_PKEY_METHOD')
for _n in ('param', 'private', 'public', 'free', 'ctrl', 'item', 'siginf', 'check', 'security_bits'):
    M['EVP_PKEY_asn1_set_' + _n] = meth_set(False)
M['EVP_PKEY_asn1_new'] = meth_new('EVP_PKEY_ASN1_METHOD')
M['EVP_PKEY_asn1_free'] = meth_free('EVP_PKEY_ASN1_METHOD')
for _n in ('id', 'name', 'init_function', 'finish_function', 'digests', 'ciphers', 'RAND', 'pkey_meths', 'pkey_asn1_meths', 'flags',
           'destroy_function', 'ctrl_function', 'cmd_defns'):
    M['ENGINE_set_' + _n] = meth_set(True)


@model('ENGINE_register_digests', 'ENGINE_register_ciphers', 'ENGINE_register_pkey_meths', 'ENGINE_register_pkey_asn1_meths',
       'ENGINE_register_RAND', 'EVP_PBE_alg_add_type')
def f(m, st, a):
    st.event('call', callee(m)) if m.cfg.get('callevents') else None
    out = []
    for s, good in outcomes(m, st):
        if good and 'NAMES' in s.mem:
            s.w('NAMES').attrs[('pbe',) + tuple(a) if callee(m)[0] == 'E' and callee(m)[1] == 'V' else (callee(m),)] = I32_1
        out.append((s, c(1 if good else 0, 32)))
    return out


@model('EVP_add_digest', 'EVP_add_cipher')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        m.problem('null-deref', st, callee(m))
        return dead(st)
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    st.event('call', callee(m)) if m.cfg.get('callevents') else None
    typ = 1 if callee(m) == 'EVP_add_digest' else 2
    out = []
    for s, good in outcomes(m, st):
        if good and 'NAMES' in s.mem:
            n = r.attrs.get('ctor', (None,))[0]
            for k in ('sn', 'ln'):
                s.w('NAMES').attrs[(typ, k, n.a if n is not None and isc(n) else None)] = a[0]
        out.append((s, c(1 if good else 0, 32)))
    return out


@model('OBJ_nid2sn', 'OBJ_nid2ln')
def f(m, st, a):
    v = app('nidname', callee(m)[-2:], a[0], w=64)
    st.assume(t.beq(v, NULL), False)
    return v


def nid_of_name(s):
    import project
    import re
    for k, n in re.findall(r'#\s*define\s+([SL]N)_(\w+)\s+"%s"' % re.escape(s), project.objmac()):
        return k.lower(), project.nid(n)
    return None


@model('OBJ_NAME_remove')
def f(m, st, a):
    if 'NAMES' not in st.mem:
        return I32_1
    x = a[0]
    if x.op == 'app' and x.a[0] == 'nidname' and isc(x.a[2]):
        key = (x.a[1], x.a[2].a)
    else:
        s = cstring(m, st, x)
        key = s is not None and nid_of_name(s)
    if not key or not isc(a[1]):
        raise Budget('OBJ_NAME_remove of an unknown name')
    if a[1].a & 0x8000:
        return I32_1
    return c(1 if st.w('NAMES').attrs.pop((a[1].a,) + key, None) is not None else 0, 32)


@model('ENGINE_get_static_state')
def f(m, st, a):
    return sym('static_state', 64)


@model('CRYPTO_set_mem_functions', 'OPENSSL_init_crypto')
def f(m, st, a):
    return I32_1


# ------------------------------------------------------------------ errors
@model('ERR_new', 'ERR_set_debug', 'ERR_set_error', 'ERR_unload_strings', 'ERR_put_error', 'ERR_clear_error', 'ERR_vset_error')
def f(m, st, a):
    h = m.hooks.get({'ERR_unload_strings': 'err_unload', 'ERR_clear_error': 'err_clear'}.get(callee(m), 'err_put'))
    if h:
        h(m, st, a, callee(m))
    if callee(m) == 'ERR_unload_strings' or callee(m) == 'ERR_set_error':
        return I32_1
    return None


@model('ERR_load_strings')
def f(m, st, a):
    h = m.hooks.get('err_load')
    if h:
        h(m, st, a)
    return I32_1


@model('ERR_get_next_error_library')
def f(m, st, a):
    if 'err_next' in m.hooks:
        return m.hooks['err_next'](m, st, a)
    v = app('errlib', st.fresh('errlib'), w=32)
    st.srng[v] = (1, 1000)
    st.urng[v] = (1, 1000)
    return v


# ------------------------------------------------------------------ ASN.1
def istr(m, st, typ, owned=True, data=None, length=None, **attrs):
    p = newobj(m, st, typ, owned=owned, size=c(24, 64), default='zero', **attrs)
    if data is not None:
        m.store(st, t.add(p, c(8, 64)), data, 64)
        m.store(st, p, length, 32)
    return p


def sym_string(m, st, typ, tag, owned=False, **attrs):
    """a parsed string of unknown content: data buffer and length are unknowns"""
    n = app('slen', tag, w=32)
    st.srng.setdefault(n, (0, (1 << 31) - 1))
    st.urng.setdefault(n, (0, (1 << 31) - 1))
    d = newobj(m, st, None, kind='heap', owned=False, size=t.zext(n, 64), default='input~' + str(tag.id), base='sdata', child=1,
               borrowed='ASN.1 string')
    m.cfg.get('track_strings') and st.w(d.a[0]).attrs.__setitem__('track', 1)
    p = istr(m, st, typ, owned=owned, data=d, length=n, **attrs)
    if typ == 'ASN1_INTEGER':
        st.w(p.a[0]).attrs['ival'] = app('aint', tag)
    return p


for _ty in ('ASN1_OCTET_STRING', 'ASN1_INTEGER', 'ASN1_BIT_STRING', 'ASN1_STRING'):
    def _mk(ty):
        def new(m, st, a):
            res = []
            for s, ok in outcomes(m, st):
                p = NULL
                if ok:
                    p = istr(m, s, ty)
                    if ty == 'ASN1_INTEGER':
                        s.w(p.a[0]).attrs['ival'] = ZERO_BN
                res.append((s, p))
            return res

        def free(m, st, a):
            return [(st, None)] if free_string(m, st, a[0], ty) else dead(st)
        return new, free
    M[_ty + '_new'], M[_ty + '_free'] = _mk(_ty)


def free_string(m, st, p, ty):
    if isc(p) and p.a == 0:
        return True
    if p.op == 'p' and p.a[0] in st.mem and st.mem[p.a[0]].status != 'freed' and st.mem[p.a[0]].kind == 'obj':
        d = m.load(st, t.add(p, c(8, 64)), 64)
        if d is not None and d.op == 'p' and (d.a[0] not in st.mem or st.mem[d.a[0]].status == 'freed'):
            r = st.mem.get(d.a[0])
            m.problem('double-free', st, 'the content of the string released by %s, allocated at %s, was already freed at %s' % (
                (callee(m),) + ((r.site, r.freesite) if r is not None else m.freedinfo.get(d.a[0], ('?', '?')))))
            return False
        if not destroy(m, st, p, ty):
            return False
        if d is not None and d.op == 'p' and d.a[0] in st.mem and st.mem[d.a[0]].status != 'freed':
            r = st.mem[d.a[0]]
            if r.owned or r.attrs.get('child'):
                h = m.hooks.get('free')
                if h:
                    h(m, st, r, False)
                kill(m, st, d.a[0])
        return True
    return destroy(m, st, p, ty)


@model('ASN1_STRING_type_new')
def f(m, st, a):
    res = []
    for s, ok in outcomes(m, st):
        p = NULL
        if ok:
            p = istr(m, s, 'ASN1_STRING')
            m.store(s, t.add(p, c(4, 64)), a[0], 32)
        res.append((s, p))
    return res


@model('ASN1_STRING_clear_free')
def f(m, st, a):
    return [(st, None)] if free_string(m, st, a[0], 'ASN1_STRING') else dead(st)


@model('ASN1_STRING_get0_data', 'ASN1_STRING_data')
def f(m, st, a):
    v = m.load(st, t.add(a[0], c(8, 64)), 64, 'ASN1_STRING_get0_data')
    return dead(st) if v is None else v


@model('ASN1_STRING_length')
def f(m, st, a):
    v = m.load(st, a[0], 32, 'ASN1_STRING_length')
    if v is None:
        return dead(st)
    if v.op == 's':
        st.srng.setdefault(v, (0, (1 << 31) - 1))
        st.urng.setdefault(v, (0, (1 << 31) - 1))
    return v


@model('ASN1_STRING_type')
def f(m, st, a):
    v = m.load(st, t.add(a[0], c(4, 64)), 32, 'ASN1_STRING_type')
    return dead(st) if v is None else v


@model('ASN1_STRING_set0')
def f(m, st, a):
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    old = m.load(st, t.add(a[0], c(8, 64)), 64)
    if old is not None and old.op == 'p' and old.a[0] in st.mem and st.mem[old.a[0]].status != 'freed' and (
            st.mem[old.a[0]].owned or st.mem[old.a[0]].attrs.get('child')):
        kill(m, st, old.a[0])
    m.store(st, t.add(a[0], c(8, 64)), a[1], 64)
    m.store(st, a[0], a[2], 32)
    return None


@model('ASN1_OCTET_STRING_set', 'ASN1_STRING_set')
def f(m, st, a):
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    n = t.sext(a[2], 64)
    n0 = len(m.problems)
    if not (isc(a[1]) and a[1].a == 0):
        m.blob(st, a[1], n)
    if m.fatal(n0):
        return dead(st)
    res = []
    for s, ok in outcomes(m, st):
        if ok:
            old = m.load(s, t.add(a[0], c(8, 64)), 64)
            if old is not None and old.op == 'p' and old.a[0] in s.mem and s.mem[old.a[0]].status != 'freed' and (
                    s.mem[old.a[0]].owned or s.mem[old.a[0]].attrs.get('child')):
                kill(m, s, old.a[0])
            d = newobj(m, s, None, kind='heap', owned=False, size=n, base='sdata', child=1, borrowed='ASN.1 string')
            if not (isc(a[1]) and a[1].a == 0):
                m.memcpy(s, d, a[1], n)
            m.store(s, t.add(a[0], c(8, 64)), d, 64)
            m.store(s, a[0], a[2], 32)
        res.append((s, c(1 if ok else 0, 32)))
    return res


@model('ASN1_STRING_dup', 'ASN1_OCTET_STRING_dup')
def f(m, st, a):
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    d = m.load(st, t.add(a[0], c(8, 64)), 64)
    n = m.load(st, a[0], 32)
    res = []
    for s, ok in outcomes(m, st):
        p = NULL
        if ok:
            q = newobj(m, s, None, kind='heap', owned=False, size=t.sext(n, 64), base='sdata', child=1, borrowed='ASN.1 string')
            if d is not None and not isc(d):
                m.memcpy(s, q, d, t.sext(n, 64))
            p = istr(m, s, r.typ or 'ASN1_STRING', data=q, length=n)
        res.append((s, p))
    return res


def ival(m, st, p):
    r = reg(m, st, p)
    if r is None:
        return None
    v = r.attrs.get('ival')
    if v is None:
        v = app('aint', app('obj', r.rid))
        st.w(r.rid).attrs['ival'] = v
    return v


def i2bn(v):
    if isc(v):
        return bnc(t.sval(v)) if t.sval(v) >= 0 else app('i2bn', v)
    if v.op == 'app' and v.a[0] == 'bn2i':
        return v.a[1]
    if v.op == 'app' and v.a[0] == 'sx' and v.a[1].op == 'app' and v.a[1].a[0] == 'tr32' :
        return v.a[1].a[1]
    return app('i2bn', v)


@model('ASN1_INTEGER_set')
def f(m, st, a):
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    res = []
    for s, ok in outcomes(m, st):
        if ok:
            s.w(r.rid).attrs['ival'] = i2bn(t.sext(a[1], 64))
        res.append((s, c(1 if ok else 0, 32)))
    return res


@model('ASN1_INTEGER_get')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        return c(0, 64)
    v = ival(m, st, a[0])
    if v is None:
        return dead(st)
    if isbc(v):
        return c(v.a[1], 64)
    if v.op == 'app' and v.a[0] == 'i2bn':
        return v.a[1]
    return app('bn2i', v, w=64)


@model('ASN1_INTEGER_to_BN')
def f(m, st, a):
    v = ival(m, st, a[0])
    if v is None:
        return dead(st)
    res = []
    for s, ok in outcomes(m, st, cls='P'):
        if not ok:
            res.append((s, NULL))
        elif isc(a[1]) and a[1].a == 0:
            res.append((s, newobj(m, s, 'BIGNUM', val=v)))
        elif bset(m, s, a[1], v):
            res.append((s, a[1]))
    return res


@model('BN_to_ASN1_INTEGER')
def f(m, st, a):
    v = bval(m, st, a[0])
    if v is None:
        return dead(st)
    res = []
    for s, ok in outcomes(m, st):
        if not ok:
            res.append((s, NULL))
        elif isc(a[1]) and a[1].a == 0:
            p = istr(m, s, 'ASN1_INTEGER')
            s.w(p.a[0]).attrs['ival'] = v
            res.append((s, p))
        elif reg(m, s, a[1]) is not None:
            s.w(a[1].a[0]).attrs['ival'] = v
            res.append((s, a[1]))
    return res


@model('ASN1_OBJECT_free')
def f(m, st, a):
    return [(st, None)] if destroy(m, st, a[0], 'ASN1_OBJECT') else dead(st)


@model('OBJ_nid2obj')
def f(m, st, a):
    h = None
    rid = 'nidobj:%s#%d' % (t.show(a[0], 2), a[0].id)
    if rid not in st.mem:
        r = Region(rid, 'obj', typ='ASN1_OBJECT', site='static object')
        r.attrs.update(static=1, nid=a[0])
        r.tok = st.tok
        st.mem[rid] = r
    res = [(st, ptr(rid))]
    if not isc(a[0]) and can_fail(m, st, 'P'):
        s2 = st.fork()
        s2.event('fail', 'OBJ_nid2obj', m.site())
        res.append((s2, NULL))
    return res


def obj_nid(m, st, p):
    r = st.mem.get(p.a[0]) if p is not None and p.op == 'p' else None
    n = r.attrs.get('nid') if r is not None else None
    return n.a if n is not None and isc(n) else None


@model('OBJ_obj2nid')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        return I32_0
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    n = r.attrs.get('nid')
    return n if n is not None else app('nid', r.rid, w=32)


@model('OBJ_sn2nid', 'OBJ_ln2nid', 'OBJ_txt2nid')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        m.problem('null-deref', st, callee(m))
        return dead(st)
    x = strterm(m, st, a[0])
    if x.op == 'app' and x.a[0] == 'str':
        n = obj_names().get((callee(m), x.a[1]))
        return c(n if n is not None else 0, 32)
    return app('sn2nid', x, w=32)


_on = {}


def obj_names():
    if not _on:
        import re
        txt = open('/usr/include/openssl/obj_mac.h').read()
        nids = dict(re.findall(r'#\s*define\s+NID_(\w+)\s+(\d+)', txt))
        for k, fn in (('SN', 'OBJ_sn2nid'), ('LN', 'OBJ_ln2nid')):
            for nm, tx in re.findall(r'#\s*define\s+%s_(\w+)\s+"([^"]*)"' % k, txt):
                if nm in nids:
                    _on[(fn, tx)] = int(nids[nm])
                    _on[('OBJ_txt2nid', tx)] = int(nids[nm])
        # objects without a separate short name use the long one and vice versa
        for (fn, tx), v in list(_on.items()):
            pass
    return _on


@model('OBJ_txt2obj')
def f(m, st, a):
    s0 = strterm(m, st, a[0])
    return [(s, newobj(m, s, 'ASN1_OBJECT', nid=app('oid', s0, w=32)) if ok else NULL) for s, ok in outcomes(m, st)]


@model('OBJ_cmp')
def f(m, st, a):
    for p in a[:2]:
        if isc(p) and p.a == 0:
            m.problem('null-deref', st, 'OBJ_cmp')
            return dead(st)
    x, y = (reg(m, st, p) for p in a[:2])
    if x is None or y is None:
        return dead(st)
    x, y = (z.attrs.get('nid', app('nid', z.rid, w=32)) for z in (x, y))
    if x is y:
        return I32_0
    if x.id > y.id:
        x, y = y, x
    r = app('objcmp', x, y, w=32)
    if all(z.op == 'app' and z.a[0] == 'oid' and z.a[1].op == 'app' and z.a[1].a[0] == 'str' for z in (x, y)) or isc(x) and isc(y):
        st.assume(t.eq(r, I32_0), False)        # two different identifiers
    return r


@model('OBJ_dup')
def f(m, st, a):
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    n = r.attrs.get('nid', app('nid', r.rid, w=32))
    return [(s, newobj(m, s, 'ASN1_OBJECT', nid=n) if ok else NULL) for s, ok in outcomes(m, st)]


# --- template driven items
class Item:
    def __init__(self, name, itype, utype, fields, size):
        self.name, self.itype, self.utype, self.fields, self.size = name, itype, utype, fields, size
        self.tags = {}


_items = {}


def item_of(m, st, p):
    """ASN1_ITEM from the constant template in the source"""
    if p.op == 'fn' or (p.op == 'app' and p.a[0] == 'item'):
        nm = p.a if p.op == 'fn' else p.a[1]
        base = nm[:-3] if nm.endswith('_it') else nm
        if nm in m.mod.funcs:
            outs = m.call_fn(nm, [], st)
            return item_of(m, st, outs[0][1])
        return Item(base, 'P', 0, [], 0)
    if p.op != 'p':
        return Item(t.show(p), 'P', 0, [], 0)
    rid = p.a[0]
    key = (id(m.mod), rid)
    if key in _items:
        return _items[key]
    r = st.mem[rid]

    def ld(rr, o, n):
        return m.load_at(st, rr, o, n, n * 8)
    itype = ld(r, 0, 1)
    utype = ld(r, 8, 8)
    tp = ld(r, 16, 8)
    cnt = ld(r, 24, 8)
    size = ld(r, 40, 8)
    snp = ld(r, 48, 8)
    fields = []
    tags = {}
    if tp.op == 'p':
        tr = st.mem[tp.a[0]]
        o0 = tp.a[1].a
        for i in range(cnt.a):
            o = o0 + 40 * i
            flags = ld(tr, o, 8).a
            if flags & ~1:
                tags[i] = (flags & ~1, ld(tr, o + 8, 8).a)
            off = ld(tr, o + 16, 8).a
            it = ld(tr, o + 32, 8)
            fields.append((off, bool(flags & 1), it, cstring(m, st, ld(tr, o + 24, 8))))
    it = Item(cstring(m, st, snp) or rid, {1: 'S', 2: 'C', 0: 'P', 6: 'S'}.get(itype.a, '?'), utype.a, fields, size.a)
    it.tags = tags
    _items[key] = it
    return it


for _b in ('ASN1_INTEGER', 'ASN1_OCTET_STRING', 'ASN1_OBJECT', 'ASN1_BIT_STRING'):
    def _mk2(b):
        def g(m, st, a):
            return app('item', b + '_it', w=64)
        return g
    M[_b + '_it'] = _mk2(_b)


def item_build(m, st, it, owned, tag=None):
    """[(state, pointer)] - freshly allocated (tag None) or parsed (tag term) structure"""
    child = {} if owned else {'child': 1, 'borrowed': 'parent structure'}
    if it.itype == 'P':
        if it.name == 'ASN1_OBJECT':
            if tag is None:
                return [(st, NULL)]     # ASN1_OBJECT primitives start out as the undefined static object
            return [(st, newobj(m, st, 'ASN1_OBJECT', owned=owned, nid=app('nid', tag, w=32), **child))]
        if tag is None:
            p = istr(m, st, it.name, owned=owned, **child)
            if it.name == 'ASN1_INTEGER':
                st.w(p.a[0]).attrs['ival'] = ZERO_BN
            return [(st, p)]
        return [(st, sym_string(m, st, it.name, tag, owned=owned, **child))]
    p = newobj(m, st, it.name, owned=owned, size=c(it.size, 64), default='zero', **child)
    if it.itype == 'C':
        if tag is None:
            m.store(st, t.add(p, c(it.utype, 64)), c(-1, 32), 32)
            return [(st, p)]
        res = []
        for k, (off, opt, fi, nm) in enumerate(it.fields):
            s = st.fork() if k < len(it.fields) - 1 else st
            s.event('form', it.name, k) if m.cfg.get('forms') else None
            m.store(s, t.add(p, c(it.utype, 64)), c(k, 32), 32)
            for s2, q in item_build(m, s, item_of(m, s, fi), False, app('fld', tag, nm)):
                m.store(s2, t.add(p, c(off, 64)), q, 64)
                res.append((s2, p))
        return res
    states = [(st, p)]
    for off, opt, fi, nm in it.fields:
        nxt = []
        for s, _ in states:
            if opt:
                if tag is not None:
                    s2 = s.fork()
                    s2.event('form', it.name, nm) if m.cfg.get('forms') else None
                    m.store(s2, t.add(p, c(off, 64)), NULL, 64)
                    nxt.append((s2, p))
                else:
                    m.store(s, t.add(p, c(off, 64)), NULL, 64)
                    nxt.append((s, p))
                    continue
            for s2, q in item_build(m, s, item_of(m, s, fi), False, app('fld', tag, nm) if tag is not None else None):
                m.store(s2, t.add(p, c(off, 64)), q, 64)
                nxt.append((s2, p))
        states = nxt
    return states


def item_free(m, st, it, p, top=True):
    if isc(p) and p.a == 0:
        return True
    if it.itype == 'P':
        if it.name == 'ASN1_OBJECT':
            x = p.a[0] if p.op == 'p' else None
            if x in st.mem and st.mem[x].attrs.get('child'):
                st.w(x).attrs.pop('borrowed', None)
            return destroy(m, st, p, 'ASN1_OBJECT')
        if p.op == 'p' and p.a[0] in st.mem:
            st.w(p.a[0]).attrs.pop('borrowed', None)
        return free_string(m, st, p, it.name)
    if p.op != 'p':
        return True
    r = st.mem.get(p.a[0])
    if r is None or r.status == 'freed':
        return destroy(m, st, p, it.name)
    flds = it.fields
    if it.itype == 'C':
        sel = m.load(st, t.add(p, c(it.utype, 64)), 32)
        if isc(sel) and 0 <= t.sval(sel) < len(it.fields):
            flds = [it.fields[sel.a]]
        else:
            flds = []
    for off, opt, fi, nm in flds:
        q = m.load(st, t.add(p, c(off, 64)), 64)
        if q is None:
            return False
        if q.op == 'p' or isc(q):
            if not item_free(m, st, item_of(m, st, fi), q, False):
                return False
    if not top or r.attrs.get('borrowed'):
        st.w(p.a[0]).attrs.pop('borrowed', None)
    return destroy(m, st, p, it.name)


@model('ASN1_item_new')
def f(m, st, a):
    it = item_of(m, st, a[0])
    res = []
    for s, ok in outcomes(m, st):
        if ok:
            res += item_build(m, s, it, True)
        else:
            res.append((s, NULL))
    return res


@model('ASN1_item_free')
def f(m, st, a):
    it = item_of(m, st, a[1])
    return [(st, None)] if item_free(m, st, it, a[0]) else dead(st)


def der_term(m, st, it, p):
    """structural content of a structure, as a term"""
    if isc(p):
        return app('absent')
    if it.itype == 'P':
        r = st.mem.get(p.a[0]) if p.op == 'p' else None
        if it.name == 'ASN1_OBJECT':
            return app('d:obj', r.attrs.get('nid', app('nid', r.rid, w=32))) if r is not None else app('d:obj', p)
        if r is None:
            return app('d:?', p)
        if it.name == 'ASN1_INTEGER':
            return app('d:int', ival(m, st, p))
        n = m.load(st, p, 32)
        d = m.load(st, t.add(p, c(8, 64)), 64)
        return app('d:oct', n, m.blob(st, d, t.sext(n, 64)) if not isc(d) else app('bytes'))
    if p.op != 'p':
        return app('d:?', p)
    flds = it.fields
    pre = []
    if it.itype == 'C':
        sel = m.load(st, t.add(p, c(it.utype, 64)), 32)
        pre = [sel]
        flds = [it.fields[sel.a]] if isc(sel) and 0 <= t.sval(sel) < len(it.fields) else []
    out = []
    for i, (off, opt, fi, nm) in enumerate(flds):
        q = m.load(st, t.add(p, c(off, 64)), 64)
        x = der_term(m, st, item_of(m, st, fi), q)
        tg = it.tags.get(pre[0].a if pre else i)
        out.append(app('d:tag', tg[0], tg[1], x) if tg and x is not app('absent') else x)
    return app('d:' + it.itype, it.name, *pre, *out)


def der_fits(m, st, it, d, tag=None):
    """does the encoded structure d parse as the item?"""
    if d.a[0] == 'd:tag':
        return tag == (d.a[1], d.a[2]) and der_fits(m, st, it, d.a[3])
    if tag is not None and d.a[0] != 'd:?':
        return False
    if d.a[0] == 'd:?':
        return True
    if it.itype == 'P':
        want = {'ASN1_OBJECT': 'd:obj', 'ASN1_INTEGER': 'd:int'}.get(it.name, 'd:oct')
        return d.a[0] == want
    if d.a[0] != 'd:' + it.itype:
        return False
    if it.itype == 'C':
        sel = d.a[2]
        return isc(sel) and sel.a < len(it.fields) and der_fits(m, st, item_of(m, st, it.fields[sel.a][2]), d.a[3], it.tags.get(sel.a))
    if len(d.a) - 2 != len(it.fields):
        return False
    for i, ((off, opt, fi, nm), x) in enumerate(zip(it.fields, d.a[2:])):
        if x is app('absent'):
            if not opt:
                return False
        elif not der_fits(m, st, item_of(m, st, fi), x, it.tags.get(i)):
            return False
    return True


def build_from_der(m, st, it, d, owned):
    if d.a[0] == 'd:tag':
        d = d.a[3]
    child = {} if owned else {'child': 1, 'borrowed': 'parent structure'}
    if d is app('absent'):
        return NULL
    if d.a[0] == 'd:obj':
        return newobj(m, st, 'ASN1_OBJECT', owned=owned, nid=d.a[1], **child)
    if d.a[0] == 'd:int':
        p = istr(m, st, 'ASN1_INTEGER', owned=owned, **child)
        st.w(p.a[0]).attrs['ival'] = d.a[1]
        return p
    if d.a[0] == 'd:oct':
        n = d.a[1]
        q = newobj(m, st, None, kind='heap', owned=False, size=t.sext(n, 64), base='sdata', child=1, borrowed='ASN.1 string')
        put_blob(m, st, q, d.a[2], t.sext(n, 64))
        return istr(m, st, it.name, owned=owned, data=q, length=n, **child)
    p = newobj(m, st, it.name, owned=owned, size=c(it.size, 64), default='zero', **child)
    if d.a[0] == 'd:C':
        sel = d.a[2]
        m.store(st, t.add(p, c(it.utype, 64)), sel, 32)
        off, opt, fi, nm = it.fields[sel.a]
        m.store(st, t.add(p, c(off, 64)), build_from_der(m, st, item_of(m, st, fi), d.a[3], False), 64)
        return p
    for (off, opt, fi, nm), x in zip(it.fields, d.a[2:]):
        m.store(st, t.add(p, c(off, 64)), build_from_der(m, st, item_of(m, st, fi), x, False), 64)
    return p


def put_blob(m, st, p, b, n):
    r = st.w(p.a[0])
    if b.a[0] == 'bytes':
        for i, x in enumerate(b.a[1:]):
            r.cells[t.sval(p.a[1]) + i] = (x, 0)
    else:
        r.default = 'input~blob:%d' % b.id
        r.attrs['blob'] = (n, b)


def i2d(m, st, it, obj, pp, derfn=None):
    n0 = len(m.problems)
    if isc(obj) and obj.a == 0:
        return I32_0
    if reg(m, st, obj) is None:
        return dead(st)
    d = derfn(m, st, obj) if derfn else der_term(m, st, it, obj)
    if m.fatal(n0):
        return dead(st)
    n = app('derlen', d, w=32)
    h = m.cfg.get('derlen')
    if h:
        n = h(d) or n
    if not isc(n):
        st.srng.setdefault(n, (1, 1 << 24))
        st.urng.setdefault(n, (1, 1 << 24))
    st.event('i2d', d) if m.cfg.get('derevents') else None
    if isc(pp) and pp.a == 0:
        return n
    cur = m.load(st, pp, 64)
    if cur is None:
        return dead(st)
    res = []
    for s, ok in outcomes(m, st) if isc(cur) else [(st, True)]:
        if not ok:
            res.append((s, c(-1, 32)))
            continue
        n64 = t.sext(n, 64)
        if isc(cur) and cur.a == 0:
            q = newobj(m, s, None, kind='heap', size=n64, base='der')
            put_blob(m, s, q, app('der', d), n64)
            m.store(s, pp, q, 64)
        else:
            x = m.region(s, cur, 'i2d')
            if x is None or not m.check_alive(s, x[0], 'i2d'):
                continue
            m.bounds(s, x[0], x[1], n64, 'i2d output')
            r = s.w(x[0])
            r.attrs['derout'] = (x[1], app('der', d))
            m.store(s, pp, t.add(cur, n64), 64)
            if m.fatal(n0):
                continue
        res.append((s, n))
    return res


@model('ASN1_item_i2d')
def f(m, st, a):
    return i2d(m, st, item_of(m, st, a[2]), a[0], a[1])


@model('i2d_ASN1_OCTET_STRING')
def f(m, st, a):
    return i2d(m, st, Item('ASN1_OCTET_STRING', 'P', 0, [], 0), a[0], a[1])


def d2i(m, st, it, out, pp, n, soft=False):
    n64 = t.sext(n, 64)
    n0 = len(m.problems)
    cur = m.load(st, pp, 64)
    if cur is None:
        return dead(st)
    b = m.blob(st, cur, n64) if not isc(cur) else None
    if m.fatal(n0):
        return dead(st)
    old = NULL
    if not (isc(out) and out.a == 0):
        old = m.load(st, out, 64)
    res = []
    known = b is not None and b.op == 'app' and b.a[0] == 'der'
    if known:
        fits = der_fits(m, st, it, b.a[1])
        if not fits:
            st.event('soft', 'structure mismatch', m.site())
        outs = [(st, fits)]
    else:
        # rejecting malformed input is part of the contract: always possible
        s2 = st.fork()
        s2.event('soft' if soft else 'reject', callee(m), m.site())
        outs = [(st, True), (s2, False)]
        if m.cfg.get('d2i_ok'):
            outs = outs[:1]
        elif m.cfg.get('d2i_reject'):
            outs = outs[1:]
    for s, ok in outs:
        if not ok:
            res.append((s, NULL))
            continue
        if known:
            built = [(s, build_from_der(m, s, it, b.a[1], True))]
        else:
            built = item_build(m, s, it, True, app('parse', it.name, b if b is not None else app('nullbuf')))
        for s3, p in built:
            m.store(s3, pp, t.add(cur, t.sext(app('consumed', it.name, b if b is not None else NULL, w=32), 64)) if not known else t.add(cur, n64), 64)
            if not (isc(out) and out.a == 0):
                m.store(s3, out, p, 64)
            res.append((s3, p))
    return res


@model('ASN1_item_d2i')
def f(m, st, a):
    return d2i(m, st, item_of(m, st, a[3]), a[0], a[1], a[2])


@model('d2i_ASN1_OCTET_STRING')
def f(m, st, a):
    return d2i(m, st, Item('ASN1_OCTET_STRING', 'P', 0, [], 0), a[0], a[1], a[2], soft=True)


@model('ASN1_TYPE_unpack_sequence')
def f(m, st, a):
    it = item_of(m, st, a[0])
    if isc(a[1]) and a[1].a == 0:
        return NULL
    ty, body = shaped(m, st, a[1], 'atype'), shaped(m, st, a[1], 'der')
    if ty is not None and ty is not c(16, 32):
        st.event('soft', 'not a sequence', m.site())
        return NULL
    if body is not None:
        if not der_fits(m, st, it, body):
            st.event('soft', 'structure mismatch', m.site())
            return NULL
        return [(s, build_from_der(m, s, it, body, True) if ok else NULL) for s, ok in outcomes(m, st)]
    s2 = st.fork()
    s2.event('reject', 'ASN1_TYPE_unpack_sequence', m.site())
    return item_build(m, st, it, True, app('unpack', it.name, a[1])) + [(s2, NULL)]


@model('ASN1_object_size')
def f(m, st, a):
    if all(isc(x) for x in a[:3]):
        n = a[1].a
        r = n + 2
        if n > 127:
            k = n
            while k > 0:
                r += 1
                k >>= 8
        return c(r, 32)
    return app('objsize', *a[:3], w=32)


@model('ASN1_TYPE_set1')
def f(m, st, a):
    n0 = len(m.problems)
    if a[2].op == 'p':
        n = m.load(st, a[2], 32)
        d = m.load(st, t.add(a[2], c(8, 64)), 64)
        b = m.blob(st, d, t.sext(n, 64)) if d is not None else None
        h = m.hooks.get('asn1_type_set1')
        if h:
            h(m, st, a, n, b)
    if m.fatal(n0):
        return dead(st)
    return okfail(m, st)


# ------------------------------------------------------------------ opaque containers
def deep_free(typ):
    def g(m, st, a):
        return [(st, None)] if destroy_deep(m, st, a[0], typ) else dead(st)
    return g


def opaque_d2i(typ):
    def g(m, st, a):
        n0 = len(m.problems)
        cur = m.load(st, a[1], 64)
        if cur is None:
            return dead(st)
        b = m.blob(st, cur, t.sext(a[2], 64)) if not isc(cur) else NULL
        if m.fatal(n0):
            return dead(st)
        if isc(a[2]) and t.sval(a[2]) <= 0:
            st.event('reject', callee(m), m.site())
            return NULL
        s2 = st.fork()
        s2.event('reject', callee(m), m.site())
        p = newobj(m, st, typ, src=app('parse', typ, b))
        if m.cfg.get('parsed'):
            m.cfg['parsed'](m, st, typ, p)
        m.store(st, a[1], t.add(cur, t.sext(app('consumed', typ, b, w=32), 64)), 64)
        return [(st, p), (s2, NULL)]
    return g


for _ty in ('PKCS12', 'PKCS8_PRIV_KEY_INFO', 'X509', 'X509_SIG', 'PKCS7'):
    M['d2i_' + _ty] = opaque_d2i(_ty)
    M[_ty + '_free'] = deep_free(_ty)


def pureptr(m, st, a):
    nm = callee(m)
    for p in a[:1]:
        if p.w == 64 and not isc(p) and reg(m, st, p) is None:
            return dead(st)
        if isc(p) and p.a == 0 and nm not in NULL_OK:
            m.problem('null-deref', st, nm)
            return dead(st)
    return app(nm, *a, w=64)


def pureint(m, st, a):
    nm = callee(m)
    for p in a[:1]:
        if p.w == 64 and not isc(p) and reg(m, st, p) is None:
            return dead(st)
        if isc(p) and p.a == 0 and nm not in NULL_OK:
            m.problem('null-deref', st, nm)
            return dead(st)
    return app(nm, *a, w=32)


NULL_OK = {'X509_ATTRIBUTE_count', 'X509_ATTRIBUTE_get0_type', 'X509_ATTRIBUTE_get0_data', 'X509_ATTRIBUTE_get0_object',
           'OPENSSL_sk_num', 'OPENSSL_sk_value'}


def shaped(m, st, p, attr):
    """attribute of a container whose shape the scenario describes, or None"""
    if p.op == 'p' and p.a[0] in st.mem and st.mem[p.a[0]].status != 'freed':
        return st.mem[p.a[0]].attrs.get(attr)
    return None


def accessor(name, attr, width, index=False):
    @model(name)
    def g(m, st, a):
        x = shaped(m, st, a[0], attr)
        if x is None:
            return (pureptr if width == 64 else pureint)(m, st, a)
        if index:
            if not isc(a[1]):
                return app(name, *a, w=width)
            i = t.sval(a[1])
            return x[i] if 0 <= i < len(x) else NULL
        return c(len(x), width) if isinstance(x, tuple) else x


accessor('PKCS8_pkey_get0_attrs', 'attrs', 64)
accessor('X509_ATTRIBUTE_get0_object', 'object', 64)
accessor('X509_ATTRIBUTE_get0_type', 'values', 64, True)
accessor('X509_ATTRIBUTE_count', 'values', 32)
accessor('OPENSSL_sk_value', 'items', 64, True)
accessor('PKCS12_SAFEBAG_get_nid', 'nid', 32)
accessor('PKCS12_SAFEBAG_get_bag_nid', 'bagnid', 32)
accessor('PKCS12_SAFEBAG_get0_safes', 'safes', 64)
accessor('PKCS12_SAFEBAG_get0_p8inf', 'p8inf', 64)
accessor('ASN1_TYPE_get', 'atype', 32)


@model('X509_ATTRIBUTE_get0_data')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        return NULL
    x = shaped(m, st, a[0], 'values')
    if x is not None and isc(a[1]):
        i = t.sval(a[1])
        v = x[i] if 0 <= i < len(x) else NULL
        ty = shaped(m, st, v, 'atype')
        if ty is None:
            return NULL
        k = st.decide(t.eq(ty, a[2]))
        if k is None:
            s2 = st.fork()
            s2.assume(t.eq(ty, a[2]), False)
            st.assume(t.eq(ty, a[2]), True)
            return [(st, shaped(m, st, v, 'ptr')), (s2, NULL)]
        return shaped(m, st, v, 'ptr') if k else NULL
    key = app('attrdata', *a[:3], w=64)
    s2 = st.fork()
    s2.event('soft', 'X509_ATTRIBUTE_get0_data', m.site())
    p = sym_string(m, st, 'ASN1_STRING', key, borrowed='X509_ATTRIBUTE', child=1)
    return [(st, p), (s2, NULL)]


@model('OPENSSL_sk_num')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        return c(-1, 32)
    if reg(m, st, a[0]) is None:
        return dead(st)
    x = shaped(m, st, a[0], 'items')
    if x is not None:
        return c(len(x), 32)
    n = app('sknum', a[0], w=32)
    st.srng.setdefault(n, (0, 1 << 24))
    st.urng.setdefault(n, (0, 1 << 24))
    return n


@model('OPENSSL_sk_pop_free', 'OPENSSL_sk_free')
def f(m, st, a):
    items = shaped(m, st, a[0], 'items') or ()
    if not destroy(m, st, a[0], 'STACK'):
        return dead(st)
    if callee(m) == 'OPENSSL_sk_pop_free':
        for x in items:
            if not destroy_deep(m, st, x):
                return dead(st)
    return [(st, None)]


def destroy_deep(m, st, p, typ=None):
    """release of a parsed structure and of what belongs to it"""
    r = st.mem.get(p.a[0]) if p.op == 'p' else None
    sub = r.attrs.get('parts', ()) if r is not None else ()
    if not destroy(m, st, p, typ or (r.typ if r is not None else None)):
        return False
    for q in sub:
        if q in st.mem:
            kill(m, st, q)
    return True


@model('PKCS12_unpack_p7data', 'PKCS12_unpack_p7encdata', 'PKCS12_unpack_authsafes')
def f(m, st, a):
    if reg(m, st, a[0]) is None:
        return dead(st)
    nm = callee(m)
    args = a[:1] if not nm.endswith('encdata') else a[:3]
    s2 = st.fork()
    s2.event('reject', nm, m.site())
    st.event('ok', nm) if m.cfg.get('callevents') else None
    h = m.cfg.get('unpack')
    if h:
        q = h(m, st, nm, args)
        return [(st, q), (s2, NULL)] if q is not None else [(s2, NULL)]
    return [(st, newobj(m, st, 'STACK', src=app(nm, *args))), (s2, NULL)]


@model('PKCS12_mac_present')
def f(m, st, a):
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    if 'mac' in r.attrs:
        return c(r.attrs['mac'], 32)
    s2 = st.fork()
    st.w(r.rid).attrs['mac'] = 1
    s2.w(r.rid).attrs['mac'] = 0
    s2.event('reject', 'PKCS12_mac_present', m.site())      # nothing authenticates it
    return [(st, I32_1), (s2, I32_0)]


@model('PKCS12_verify_mac')
def f(m, st, a):
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    if r.attrs.get('mac') == 0:
        return I32_0
    s2 = st.fork()
    s2.event('reject', 'PKCS12_verify_mac', m.site())
    src = st.mem[a[0].a[0]].attrs.get('src') if a[0].op == 'p' else None
    st.event('mac-ok', src, a[1], a[2])
    return [(st, I32_1), (s2, I32_0)]


@model('PKCS12_decrypt_skey')
def f(m, st, a):
    if not isc(a[0]) and reg(m, st, a[0]) is None:
        return dead(st)
    x = shaped(m, st, a[0], 'src')
    if x is not None and shaped(m, st, a[0], 'nid') is not c(NID('pkcs8ShroudedKeyBag'), 32):
        return NULL
    s2 = st.fork()
    s2.event('reject', 'PKCS12_decrypt_skey', m.site())
    return [(st, newobj(m, st, 'PKCS8_PRIV_KEY_INFO', src=app('skey', x if x is not None else a[0], *a[1:3]))), (s2, NULL)]


def NID(nm):
    import project
    return project.nid(nm)


@model('EVP_PKCS82PKEY')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        m.problem('null-deref', st, 'EVP_PKCS82PKEY')
        return dead(st)
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    s2 = st.fork()
    s2.event('reject', 'EVP_PKCS82PKEY', m.site())
    src = r.attrs.get('src', app('p8', r.rid))
    return [(st, newobj(m, st, 'EVP_PKEY', src=app('pkey', src))), (s2, NULL)]


@model('PKCS12_SAFEBAG_get1_cert')
def f(m, st, a):
    if not isc(a[0]) and reg(m, st, a[0]) is None:
        return dead(st)
    x = shaped(m, st, a[0], 'src')
    if x is not None and shaped(m, st, a[0], 'nid') is not c(NID('certBag'), 32):
        return NULL
    s2 = st.fork()
    s2.event('reject', 'PKCS12_SAFEBAG_get1_cert', m.site())
    return [(st, newobj(m, st, 'X509', src=app('cert', x if x is not None else a[0]))), (s2, NULL)]


@model('PKCS12_SAFEBAG_free')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        return None
    if shaped(m, st, a[0], 'src') is None and a[0].op != 'p':
        return None
    return [(st, None)] if destroy_deep(m, st, a[0]) else dead(st)


@model('X509_SIG_get0')
def f(m, st, a):
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    src = r.attrs.get('src', app('sig', r.rid))
    if 'algor' in r.attrs:
        for p, q in ((a[1], r.attrs['algor']), (a[2], r.attrs['digest'])):
            if not (isc(p) and p.a == 0):
                m.store(st, p, q, 64)
        return None
    if not (isc(a[1]) and a[1].a == 0):
        m.store(st, a[1], app('sigalg', src, w=64), 64)
    if not (isc(a[2]) and a[2].a == 0):
        rid = r.rid + '.digest'
        tag = app('sigdata', src)
        p = sym_string(m, st, 'ASN1_OCTET_STRING', tag, borrowed='X509_SIG', child=1)
        m.store(st, a[2], p, 64)
    return None


@model('X509_ALGOR_get0')
def f(m, st, a):
    # (paobj, pptype, ppval, algor)
    if isc(a[3]) and a[3].a == 0:
        m.problem('null-deref', st, 'X509_ALGOR_get0')
        return dead(st)
    al = a[3]
    ro = reg(m, st, al)
    if ro is None:
        return dead(st)
    A = ro.attrs
    if not (isc(a[0]) and a[0].a == 0):
        m.store(st, a[0], A.get('aobj', app('algobj', al, w=64)), 64)
    if not (isc(a[1]) and a[1].a == 0):
        m.store(st, a[1], A.get('atype', app('algtype', al, w=32)), 32)
        if not (isc(a[2]) and a[2].a == 0):
            v = A.get('aval')
            if v is None:
                v = sym_string(m, st, 'ASN1_STRING', app('algval', al), borrowed='X509_ALGOR', child=1)
            m.store(st, a[2], v, 64)
    return None


@model('X509_ALGOR_set0')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        st.event('fail', 'X509_ALGOR_set0', m.site())
        return I32_0
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    res = []
    for s, ok in outcomes(m, st):
        if ok:
            w = s.w(r.rid)
            w.attrs.update(aobj=a[1], atype=a[2], aval=a[3])
            own(s, a[3])
        res.append((s, c(1 if ok else 0, 32)))
    return res


def own(st, p):
    """ownership of p moves into a library object"""
    if p.op == 'p' and p.a[0] in st.mem:
        r = st.w(p.a[0])
        r.owned = False
        r.attrs['child'] = 1


@model('PKCS8_pkey_get0')
def f(m, st, a):
    # (ppkalg, pk, ppklen, pa, p8)
    r = reg(m, st, a[4])
    if r is None:
        return dead(st)
    A = r.attrs
    if not (isc(a[0]) and a[0].a == 0):
        v = A.get('aobj', app('p8obj', r.rid, w=64))
        m.store(st, a[0], v, 64)
    if not (isc(a[1]) and a[1].a == 0):
        n = A.get('klen')
        if n is None:
            n = app('p8len', r.rid, w=32)
            st.srng.setdefault(n, (0, (1 << 31) - 1))
            st.urng.setdefault(n, (0, (1 << 31) - 1))
            d = newobj(m, st, None, kind='heap', owned=False, size=t.zext(n, 64), default='input~p8', base='p8data', borrowed='PKCS8')
        else:
            d = A['kdata']
        m.store(st, a[1], d, 64)
        m.store(st, a[2], n, 32)
    if not (isc(a[3]) and a[3].a == 0):
        al = A.get('alg')
        m.store(st, a[3], al if al is not None else app('p8alg', r.rid, w=64), 64)
    return okfail(m, st, 'P')


@model('PKCS8_pkey_set0')
def f(m, st, a):
    # (priv, aobj, version, ptype, pval, penc, penclen)
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    if isc(a[1]) and a[1].a == 0:
        pass
    res = []
    for s, ok in outcomes(m, st):
        if ok:
            alg = newobj(m, s, 'X509_ALGOR', owned=False, borrowed='PKCS8', child=1, aobj=a[1], atype=a[3], aval=a[4])
            s.w(r.rid).attrs.update(aobj=a[1], alg=alg, kdata=a[5], klen=a[6], version=a[2])
            own(s, a[4])
            own(s, a[5])
        res.append((s, c(1 if ok else 0, 32)))
    return res


@model('X509_PUBKEY_get0_param')
def f(m, st, a):
    # (ppkalg, pk, ppklen, pa, pub)
    r = reg(m, st, a[4])
    if r is None:
        return dead(st)
    A = r.attrs
    if not (isc(a[0]) and a[0].a == 0):
        m.store(st, a[0], A.get('aobj', app('pubobj', r.rid, w=64)), 64)
    if not (isc(a[1]) and a[1].a == 0):
        n = A.get('klen')
        if n is None:
            n = app('publen', r.rid, w=32)
            st.srng.setdefault(n, (0, (1 << 31) - 1))
            st.urng.setdefault(n, (0, (1 << 31) - 1))
            d = newobj(m, st, None, kind='heap', owned=False, size=t.zext(n, 64), default='input~pub', base='pubdata', borrowed='X509_PUBKEY')
        else:
            d = A['kdata']
        m.store(st, a[1], d, 64)
        m.store(st, a[2], n, 32)
    if not (isc(a[3]) and a[3].a == 0):
        al = A.get('alg')
        m.store(st, a[3], al if al is not None else app('pubalg', r.rid, w=64), 64)
    return okfail(m, st, 'P')


@model('X509_PUBKEY_set0_param')
def f(m, st, a):
    # (pub, aobj, ptype, pval, penc, penclen)
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    res = []
    for s, ok in outcomes(m, st):
        if ok:
            alg = newobj(m, s, 'X509_ALGOR', owned=False, borrowed='X509_PUBKEY', child=1, aobj=a[1], atype=a[2], aval=a[3])
            s.w(r.rid).attrs.update(aobj=a[1], alg=alg, kdata=a[4], klen=a[5])
            own(s, a[3])
            own(s, a[4])
        res.append((s, c(1 if ok else 0, 32)))
    return res


def signer_algs(m, st, si, outs, names):
    r = reg(m, st, si)
    if r is None:
        return dead(st)
    for p, slot in zip(outs, names):
        if not (isc(p) and p.a == 0):
            q = st.mem[r.rid].attrs.get('alg:' + slot)
            if q is None:
                q = newobj(m, st, 'X509_ALGOR', owned=False, borrowed='SignerInfo', slot=slot)
                st.w(r.rid).attrs['alg:' + slot] = q
            m.store(st, p, q, 64)
    return None


@model('PKCS7_SIGNER_INFO_get0_algs')
def f(m, st, a):
    return signer_algs(m, st, a[0], a[1:4], ('pkey', 'digest', 'sig'))


@model('CMS_SignerInfo_get0_algs')
def f(m, st, a):
    return signer_algs(m, st, a[0], a[1:5], ('pkey', 'signer', 'digest', 'sig'))


# ------------------------------------------------------------------ BIO / iconv / digests
@model('BIO_s_mem')
def f(m, st, a):
    return sym('BIO_s_mem', 64)


@model('BIO_new_fp')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        m.problem('null-deref', st, 'BIO_new_fp')
        return dead(st)
    res = []
    for s, ok in outcomes(m, st):
        if ok:
            p = newobj(m, s, 'BIO', len=c(0, 64), content=app('bytes'), fp=a[0], closes=a[1])
            ch = shaped(m, s, a[0], 'chunks')
            if ch is not None:
                s.w(p.a[0]).attrs['chunks'] = ch
        res.append((s, p if ok else NULL))
    return res


@model('BIO_new')
def f(m, st, a):
    return [(s, newobj(m, s, 'BIO', len=c(0, 64), content=app('bytes')) if ok else NULL) for s, ok in outcomes(m, st)]


@model('BIO_free', 'BIO_free_all', 'BIO_vfree')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        return I32_0
    r = reg(m, st, a[0])
    fp, cl = (r.attrs.get('fp'), r.attrs.get('closes')) if r is not None else (None, None)
    if not destroy(m, st, a[0], 'BIO'):
        return dead(st)
    if fp is not None and isc(cl) and cl.a & 1 and shaped(m, st, fp, 'chunks') is not None:
        # BIO_CLOSE: the stream goes with the BIO
        if not destroy(m, st, fp, 'FILE'):
            return dead(st)
    return [(st, I32_1)]


@model('BIO_read_ex')
def f(m, st, a):
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    n0 = len(m.problems)
    ch = r.attrs.get('chunks')
    if ch is not None and isc(a[2]):
        if not ch or not a[2].a:
            m.store(st, a[3], c(0, 64), 64)
            return dead(st) if m.fatal(n0) else I32_0
        k = min(a[2].a, len(ch[0]))
        res = []
        s2 = None
        if m.cfg['faults'] and can_fail(m, st, 'P'):
            s2 = st.fork()
            s2.event('soft', 'BIO_read_ex', m.site())
            m.store(s2, a[3], c(0, 64), 64)
            res.append((s2, I32_0))
        m.put_bytes(st, a[1], ch[0][:k], 'BIO_read_ex')
        m.store(st, a[3], c(k, 64), 64)
        if m.fatal(n0):
            return dead(st)
        rest = (ch[0][k:],) if len(ch[0]) > k else ()
        st.w(r.rid).attrs['chunks'] = rest + ch[1:]
        return [(st, I32_1)] + res
    n = sym(st.fresh('bioread'), 64)
    cap = a[2]
    x = m.region(st, a[1], 'BIO_read_ex')
    if x is None:
        return dead(st)
    m.bounds(st, x[0], x[1], cap, 'BIO_read_ex')
    if m.fatal(n0):
        return dead(st)
    s2 = st.fork()
    s2.event('eof', m.site())
    m.store(s2, a[3], c(0, 64), 64)
    hi = cap.a if isc(cap) else (1 << 63)
    st.urng[n] = (1, hi)
    m.havoc(st, x[0], 'bio')
    st.w(x[0]).default = 'input~' + str(n.a)
    m.store(st, a[3], n, 64)
    st.event('read', a[0].a[0] if a[0].op == 'p' else '?') if False else None
    w = st.w(r.rid)
    w.attrs['pos'] = t.add(w.attrs.get('pos', c(0, 64)), n)
    return [(st, I32_1), (s2, I32_0)]


@model('BIO_read')
def f(m, st, a):
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    x = m.region(st, a[1], 'BIO_read')
    if x is None:
        return dead(st)
    ch = r.attrs.get('chunks')
    if ch is not None and isc(a[2]):
        if not ch or not a[2].a:
            return I32_0
        n0 = len(m.problems)
        k = min(a[2].a, len(ch[0]))
        res = []
        if m.cfg['faults'] and can_fail(m, st, 'P'):
            s2 = st.fork()
            s2.event('soft', 'BIO_read', m.site())
            res.append((s2, c(-1, 32)))
        m.put_bytes(st, a[1], ch[0][:k], 'BIO_read')
        if m.fatal(n0):
            return dead(st)
        st.w(r.rid).attrs['chunks'] = ((ch[0][k:],) if len(ch[0]) > k else ()) + ch[1:]
        return [(st, c(k, 32))] + res
    n = sym(st.fresh('bioread'), 32)
    m.bounds(st, x[0], x[1], t.sext(a[2], 64), 'BIO_read')
    hi = a[2].a if isc(a[2]) else (1 << 31) - 1
    st.srng[n] = (-2, hi)
    m.havoc(st, x[0], 'bio')
    return n


def bio_append(m, st, bio, p, n):
    r = reg(m, st, bio)
    if r is None:
        return False
    n0 = len(m.problems)
    b = m.blob(st, p, n) if not (isc(n) and n.a == 0) else app('bytes')
    if m.fatal(n0):
        return False
    w = st.w(r.rid)
    w.attrs['len'] = t.add(w.attrs.get('len', c(0, 64)), n)
    old = w.attrs.get('content')
    w.attrs['content'] = app('bytes', *(old.a[1:] + b.a[1:])) if old is not None and old.a[0] == 'bytes' and b.a[0] == 'bytes' else app('biocat', old if old is not None else app('bytes?'), b, n)
    return True


@model('BIO_write_ex')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        return I32_0
    res = []
    if m.cfg['faults'] and can_fail(m, st, 'A'):
        s2 = st.fork()
        s2.event('fail', 'BIO_write_ex', m.site())
        res.append((s2, I32_0))
    if not bio_append(m, st, a[0], a[1], a[2]):
        return dead(st)
    if not (isc(a[3]) and a[3].a == 0):
        m.store(st, a[3], a[2], 64)
    return [(st, I32_1)] + res


@model('BIO_write')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        return I32_0
    res = []
    if m.cfg['faults'] and can_fail(m, st, 'A'):
        s2 = st.fork()
        s2.event('fail', 'BIO_write', m.site())
        res.append((s2, c(-1, 32)))
    if not bio_append(m, st, a[0], a[1], t.sext(a[2], 64)):
        return dead(st)
    return [(st, a[2])] + res


@model('BIO_ctrl')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        return c(-1, 64)
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    if isc(a[1]) and a[1].a == 3:         # BIO_CTRL_INFO: BIO_get_mem_data
        n = r.attrs.get('len', c(0, 64))
        h = m.cfg.get('mem_data')
        d = newobj(m, st, None, kind='heap', owned=False, size=n, default='input~biomem', base='biomem', child=1, borrowed='BIO')
        if m.cfg.get('track_bio'):
            st.w(d.a[0]).attrs['track'] = 1
        cont = r.attrs.get('content')
        if cont is not None and cont.a[0] == 'bytes' and isc(n):
            w = st.w(d.a[0])
            for i, x in enumerate(cont.a[1:]):
                w.cells[i] = (x, 0)
        st.w(r.rid).attrs['data'] = d
        m.store(st, a[3], d, 64)
        return n
    return sym(st.fresh('bioctrl'), 64)


@model('iconv_open')
def f(m, st, a):
    p = newobj(m, st, 'ICONV', to=cstring(m, st, a[0]), frm=cstring(m, st, a[1]))
    if m.cfg['faults'] and can_fail(m, st, 'P'):
        s2 = st.fork()
        del s2.mem[p.a[0]]
        s2.event('fail', 'iconv_open', m.site())
        return [(st, p), (s2, c(-1, 64))]
    return p


@model('iconv_close')
def f(m, st, a):
    return [(st, I32_0)] if destroy(m, st, a[0], 'ICONV') else dead(st)


def set_errno(m, st, v):
    M['__errno_location'](m, st, [])
    r = st.w('errno')
    for i in range(4):
        r.cells[i] = (c(v, 32), i)


def ascii_iconv(m, st, a, out, left):
    """conversion of 7-bit text between utf-8 and utf-16be: every character is known"""
    n0 = len(m.problems)
    cd = st.mem[a[0].a[0]].attrs
    want = (cd.get('frm') or '').lower() == 'utf-8' and (cd.get('to') or '').lower() == 'utf-16be'
    if isc(a[1]) and a[1].a == 0:
        return c(0, 64)
    src, il = m.load(st, a[1], 64), m.load(st, a[2], 64)
    if src is None or il is None:
        return dead(st)
    if not isc(il) or not isc(left):
        raise Budget('symbolic length of text to convert')
    k = min(il.a, left.a // 2)
    if k:
        bs = m.bytes_at(st, src, k)
        if bs is None or m.fatal(n0):
            return dead(st)
        res = []
        for x in bs:
            res += [c(0, 8), x] if want else [app('other-encoding', x, i, w=8) for i in (0, 1)]
        m.put_bytes(st, out, res, 'iconv output')
        if m.fatal(n0):
            return dead(st)
    m.store(st, a[1], t.add(src, c(k, 64)), 64)
    m.store(st, a[2], c(il.a - k, 64), 64)
    m.store(st, a[3], t.add(out, c(2 * k, 64)), 64)
    m.store(st, a[4], c(left.a - 2 * k, 64), 64)
    res = []
    if m.cfg['faults'] and can_fail(m, st, 'P'):
        s2 = st.fork()
        s2.event('fail', 'iconv', m.site())
        set_errno(m, s2, 84)
        res.append((s2, c(-1, 64)))
    if k < il.a:
        set_errno(m, st, 7)
        return [(st, c(-1, 64))] + res
    return [(st, c(0, 64))] + res


@model('iconv')
def f(m, st, a):
    # (cd, inbuf, inleft, outbuf, outleft)
    if reg(m, st, a[0]) is None:
        return dead(st)
    n0 = len(m.problems)
    out = m.load(st, a[3], 64)
    left = m.load(st, a[4], 64)
    if out is None or left is None or m.fatal(n0):
        return dead(st)
    if m.cfg.get('iconv') == 'ascii':
        return ascii_iconv(m, st, a, out, left)
    x = m.region(st, out, 'iconv output')
    if x is None:
        return dead(st)
    m.bounds(st, x[0], x[1], left, 'iconv output')
    k = sym(st.fresh('iconvout'), 64)
    st.assume(t.ult(left, k), False)
    m.havoc(st, x[0], 'iconv')
    m.store(st, a[3], t.add(out, k), 64)
    m.store(st, a[4], t.sub(left, k), 64)
    if not (isc(a[1]) and a[1].a == 0):
        src = m.load(st, a[1], 64)
        il = m.load(st, a[2], 64)
        if src is None or il is None:
            return dead(st)
        if not isc(src):
            y = m.region(st, src, 'iconv input')
            if y is None:
                return dead(st)
            m.bounds(st, y[0], y[1], il, 'iconv input')
        j = sym(st.fresh('iconvin'), 64)
        st.assume(t.ult(il, j), False)
        m.store(st, a[1], t.add(src, j), 64)
        m.store(st, a[2], t.sub(il, j), 64)
    if m.fatal(n0):
        return dead(st)
    M['__errno_location'](m, st, [])
    s2 = st.fork()
    r = s2.w('errno')
    e = sym(s2.fresh('errno'), 32)
    for i in range(4):
        r.cells[i] = (e, i)
    s2.event('soft', 'iconv', m.site())
    return [(st, sym(st.fresh('iconvret'), 64) if False else c(0, 64)), (s2, c(-1, 64))]


@model('EVP_MD_CTX_new')
def f(m, st, a):
    return [(s, newobj(m, s, 'EVP_MD_CTX', feed=()) if ok else NULL) for s, ok in outcomes(m, st)]


@model('EVP_MD_CTX_free')
def f(m, st, a):
    return [(st, None)] if destroy(m, st, a[0], 'EVP_MD_CTX') else dead(st)


@model('EVP_sha1')
def f(m, st, a):
    return sym('EVP_sha1', 64)


@model('EVP_sha256')
def f(m, st, a):
    return sym('EVP_sha256', 64)


@model('EVP_DigestInit_ex', 'EVP_DigestInit')
def f(m, st, a):
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    st.w(r.rid).attrs['feed'] = (a[1],)
    return okfail(m, st, 'P')


@model('EVP_DigestUpdate')
def f(m, st, a):
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    n0 = len(m.problems)
    b = m.blob(st, a[1], a[2]) if not (isc(a[2]) and a[2].a == 0) else app('bytes')
    if m.fatal(n0):
        return dead(st)
    w = st.w(r.rid)
    w.attrs['feed'] = w.attrs.get('feed', ()) + ((app('chunk', b, a[2]),))
    return okfail(m, st, 'P')


@model('EVP_DigestFinal_ex', 'EVP_DigestFinal')
def f(m, st, a):
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    n0 = len(m.problems)
    feed = r.attrs.get('feed', ())
    if all(x.op == 'app' and x.a[0] == 'chunk' and x.a[1].a[0] == 'bytes' for x in feed[1:]):
        feed = feed[:1] + (app('bytes', *[y for x in feed[1:] for y in x.a[1].a[1:]]),)
    d = app('digest', *feed)
    bs = [app('dbyte', d, c(i, 32), w=8) for i in range(20)]
    m.put_bytes(st, a[1], bs, 'digest output')
    if m.fatal(n0):
        return dead(st)
    if not (isc(a[2]) and a[2].a == 0):
        m.store(st, a[2], c(20, 32), 32)
    return okfail(m, st, 'P')


# ------------------------------------------------------------------ RNG / threads
@model('RAND_priv_bytes', 'RAND_bytes')
def f(m, st, a):
    n0 = len(m.problems)
    if m.cfg.get('callevents'):
        st.event('reenter', callee(m))
        if any(r.typ == 'LOCK' and r.attrs.get('held') for r in st.mem.values()):
            st.event('reenter-held', callee(m), m.site())
    res = []
    for s, ok in outcomes(m, st, cls='P'):
        if ok:
            if isc(a[1]):
                k = s.fresh('rnd')
                m.put_bytes(s, a[0], [sym('%s[%d]' % (k, i), 8) for i in range(a[1].a)], 'random output')
            else:
                x = m.region(s, a[0], 'random output')
                if x:
                    m.havoc(s, x[0], 'rnd')
        res.append((s, c(1 if ok else 0, 32)))
    if m.fatal(n0):
        return dead(st)
    return res


@model('RAND_OpenSSL')
def f(m, st, a):
    if 'RAND_OpenSSL' not in st.mem:
        r = Region('RAND_OpenSSL', 'ext', size=c(48, 64), default='undef')
        for i, nm in enumerate(('seed', 'bytes', 'cleanup', 'add', 'pseudorand', 'status')):
            for k in range(8):
                r.cells[8 * i + k] = (t.fn('RAND_OpenSSL.' + nm), k)
        r.tok = st.tok
        st.mem[r.rid] = r
    return ptr('RAND_OpenSSL')


@model('RAND_OpenSSL.bytes', 'RAND_OpenSSL.pseudorand')
def f(m, st, a):
    n0 = len(m.problems)
    s2 = st.fork()
    s2.event('seed-fail', 'bytes')
    s2.event('fail', 'RAND_OpenSSL->bytes', m.site())
    if isc(a[1]):
        k = st.fresh('seed')
        m.put_bytes(st, a[0], [sym('%s[%d]' % (k, i), 8) for i in range(a[1].a)], 'seed output')
        if m.cfg.get('callevents'):
            st.event('seed-sym', (len(st.has('seed-sym')) + 1, k, a[1].a))
    if m.fatal(n0):
        return dead(st)
    f = can_fail(m, st, 'P')
    st.event('seeded', a[1])
    if not f:
        return I32_1
    return [(st, I32_1), (s2, I32_0)]


@model('RAND_OpenSSL.status')
def f(m, st, a):
    if not can_fail(m, st, 'P'):
        return I32_1
    s2 = st.fork()
    s2.event('fail', 'RAND_OpenSSL->status', m.site())
    return [(st, I32_1), (s2, I32_0)]


@model('RAND_OpenSSL.seed', 'RAND_OpenSSL.add')
def f(m, st, a):
    st.event('forward', callee_fn(m), *a[:2])
    return okfail(m, st, 'P')


def callee_fn(m):
    return callee(m)


@model('CRYPTO_THREAD_run_once')
def f(m, st, a):
    if st.ghost.get(('once', a[0])):
        return I32_1
    st.ghost[('once', a[0])] = 1
    st.ghost['once:%s' % t.show(a[0])] = 1
    res = []
    outs = outcomes(m, st)
    for s, ok in outs:
        if ok:
            if a[1].op == 'fn':
                m.__dict__.setdefault('once_fns', set()).add(a[1].a)
                for s2, _ in m.call_fn(a[1].a, [], s):
                    res.append((s2, I32_1))
            else:
                res.append((s, I32_1))
        else:
            res.append((s, I32_0))
    return res


@model('CRYPTO_THREAD_lock_new')
def f(m, st, a):
    return [(s, newobj(m, s, 'LOCK', held=0) if ok else NULL) for s, ok in outcomes(m, st)]


@model('CRYPTO_THREAD_lock_free')
def f(m, st, a):
    return [(st, None)] if destroy(m, st, a[0], 'LOCK') else dead(st)


@model('CRYPTO_THREAD_write_lock', 'CRYPTO_THREAD_read_lock')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        m.problem('null-deref', st, callee(m))
        return dead(st)
    r = reg(m, st, a[0], 'lock')
    if r is None:
        return dead(st)
    if r.attrs.get('held'):
        m.problem('double-lock', st, 'lock already held by this thread')
    if r.attrs.get('held'):
        return dead(st)
    res = []
    for s, ok in outcomes(m, st, cls='L'):
        if ok:
            s.w(r.rid).attrs['held'] = 2 if callee(m).endswith('write_lock') else 1
        res.append((s, c(1 if ok else 0, 32)))
    return res


@model('CRYPTO_THREAD_unlock')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        m.problem('null-deref', st, callee(m))
        return dead(st)
    r = reg(m, st, a[0], 'unlock')
    if r is None:
        return dead(st)
    if r.attrs.get('held') == 0:
        m.problem('unlock-unheld', st, 'unlock of a lock this thread does not hold')
    st.w(r.rid).attrs['held'] = 0
    return I32_1


@model('abort', 'exit', '__assert_fail', '__stack_chk_fail')
def f(m, st, a):
    return dead(st)


# ------------------------------------------------------------------ calls the current tree does not make, for the changes it may see
@model('BN_swap')
def f(m, st, a):
    x, y = bval(m, st, a[0]), bval(m, st, a[1])
    if x is None or y is None or not bset(m, st, a[0], y) or not bset(m, st, a[1], x):
        return dead(st)
    return [(st, None)]


@model('BN_clear')
def f(m, st, a):
    if isc(a[0]) and a[0].a == 0:
        return [(st, None)]
    return [(st, None)] if bset(m, st, a[0], ZERO_BN) else dead(st)


M['BN_sub'] = bnop(nbn=2)(lambda m, st, a, b: ZERO_BN if a is b else a if b is ZERO_BN else app('bsub', a, b))
M['BN_rshift1'] = bnop(nbn=1)(lambda m, st, a: app('brsh', a, c(1, 32)))
M['BN_lshift1'] = bnop(nbn=1)(lambda m, st, a: app('blsh', a, c(1, 32)))


def shifter(op):
    def f(m, st, a):
        v = bval(m, st, a[1])
        if v is None:
            return dead(st)
        res = []
        for s, ok in outcomes(m, st):
            if not ok:
                res.append((s, I32_0))
            elif bset(m, s, a[0], v if isc(a[2]) and a[2].a == 0 else app(op, v, a[2])):
                res.append((s, I32_1))
        return res
    return f


M['BN_rshift'], M['BN_lshift'] = shifter('brsh'), shifter('blsh')


@model('BN_get_word')
def f(m, st, a):
    v = bval(m, st, a[0])
    if v is None:
        return dead(st)
    if isbc(v):
        return c(min(v.a[1], (1 << 64) - 1), 64)
    return app('bnword', v, w=64)


@model('EC_GROUP_copy')
def f(m, st, a):
    g = group_of(m, st, a[1])
    if g is None or reg(m, st, a[0]) is None:
        return dead(st)
    res = []
    for s, ok in outcomes(m, st):
        if ok:
            setattr_(m, s, a[0], grp=g)
        res.append((s, c(1 if ok else 0, 32)))
    return res


@model('EC_POINT_set_to_infinity')
def f(m, st, a):
    if group_of(m, st, a[0]) is None or reg(m, st, a[1]) is None:
        return dead(st)
    setattr_(m, st, a[1], pt=app('inf'))
    return I32_1


@model('ERR_set_mark', 'ERR_pop_to_mark', 'ERR_clear_last_mark')
def f(m, st, a):
    return I32_1


@model('ERR_get_error', 'ERR_peek_error', 'ERR_peek_last_error')
def f(m, st, a):
    return sym(st.fresh('err'), 64)


@model('EVP_CIPHER_CTX_get_iv_length', 'EVP_CIPHER_CTX_iv_length')
def f(m, st, a):
    return c(8, 32) if reg(m, st, a[0]) is not None else dead(st)


@model('EVP_CIPHER_CTX_get_key_length', 'EVP_CIPHER_CTX_key_length')
def f(m, st, a):
    return c(32, 32) if reg(m, st, a[0]) is not None else dead(st)


@model('EVP_CIPHER_CTX_get_block_size', 'EVP_CIPHER_CTX_block_size')
def f(m, st, a):
    return c(1, 32) if reg(m, st, a[0]) is not None else dead(st)


@model('getpid')
def f(m, st, a):
    return sym('getpid', 32)


@model('strncmp', 'strcasecmp', 'strncasecmp')
def f(m, st, a):
    n0 = len(m.problems)
    for p in a[:2]:
        if isc(p):
            m.problem('null-deref', st, callee(m))
    if m.fatal(n0):
        return dead(st)
    x, y = cstring(m, st, a[0]), cstring(m, st, a[1])
    if x is not None and y is not None and (len(a) < 3 or isc(a[2])):
        k = a[2].a if len(a) > 2 else max(len(x), len(y))
        x, y = x[:k], y[:k]
        if 'case' in callee(m):
            x, y = x.lower(), y.lower()
        return I32_0 if x == y else I32_1
    return app(callee(m), strterm(m, st, a[0]), strterm(m, st, a[1]), *a[2:], w=32)


# ------------------------------------------------------------------ neighbours of the functions above, which a change might turn to
M['BN_mod_sqr'] = bnop(nbn=2)(lambda m, st, a, n: mmul(a, a, n))
M['BN_sqr'] = bnop(nbn=1)(lambda m, st, a: app('bmul', a, a))
M['BN_mod_lshift1'] = bnop(nbn=2)(lambda m, st, a, n: madd(a, a, n))


@model('BN_set_flags', 'BN_set_negative')
def f(m, st, a):
    if reg(m, st, a[0]) is None:
        return dead(st)
    if callee(m) == 'BN_set_negative' and not (isc(a[1]) and a[1].a == 0):
        v = bval(m, st, a[0])
        bset(m, st, a[0], app('bneg', v, a[1]))
    return [(st, None)]


@model('BN_div')
def f(m, st, a):
    # BN_div(dv, rem, m, d, ctx), which BN_mod is
    x, y = bval(m, st, a[2]), bval(m, st, a[3])
    if x is None or y is None:
        return dead(st)
    res = []
    for s, ok in outcomes(m, st):
        if ok and all(isc(p) and p.a == 0 or bset(m, s, p, v) for p, v in ((a[0], app('bdiv', x, y)), (a[1], bmod(x, y)))) or not ok:
            res.append((s, c(1 if ok else 0, 32)))
    return res


def wordop(op, f):
    @model(op)
    def g(m, st, a):
        v = bval(m, st, a[0])
        if v is None:
            return dead(st)
        w = bnc(a[1].a) if isc(a[1]) else app('bnw', a[1])
        return [(s, c(1 if ok else 0, 32)) for s, ok in outcomes(m, st) if not ok or bset(m, s, a[0], f(v, w))]


wordop('BN_add_word', lambda v, w: v if w is ZERO_BN else bnc(v.a[1] + w.a[1]) if isbc(v) and isbc(w) else app('badd', *srt(v, w)))
wordop('BN_sub_word', lambda v, w: v if w is ZERO_BN else bnc(v.a[1] - w.a[1]) if isbc(v) and isbc(w) and v.a[1] >= w.a[1] else app('bsub', v, w))
wordop('BN_mul_word', lambda v, w: ZERO_BN if w is ZERO_BN else app('bmul', *srt(v, w)))

for _n in ('BN_rand_range_ex', 'BN_priv_rand_range_ex', 'BN_pseudo_rand_range'):
    M[_n] = M['BN_rand_range']
for _n in ('BN_pseudo_rand', 'BN_rand_ex', 'BN_priv_rand_ex', 'BN_bntest_rand'):
    M[_n] = M['BN_rand']


@model('EC_POINT_dbl')
def f(m, st, a):
    g, p = group_of(m, st, a[0]), point_of(m, st, a[2])
    if g is None or p is None or reg(m, st, a[1], 'result') is None:
        return dead(st)
    res = []
    for s, ok in outcomes(m, st):
        if ok:
            setattr_(m, s, a[1], pt=smul(bnc(2), p))
        res.append((s, c(1 if ok else 0, 32)))
    return res


@model('EC_KEY_generate_key')
def f(m, st, a):
    # the ordinary elliptic curve key pair: the public key is d times the base point
    r = reg(m, st, a[0])
    if r is None:
        return dead(st)
    grp = r.attrs.get('group')
    g = group_of(m, st, grp) if grp is not None and not (isc(grp) and grp.a == 0) else None
    if g is None:
        st.event('fail', callee(m), m.site())
        return I32_0
    res = []
    for s, ok in outcomes(m, st, cls='P'):
        if ok:
            n = order_of(g)
            v = app('rand', s.fresh('rand'), n)
            s.facts[t.blt(v, n)] = True
            s.facts[t.beq(v, ZERO_BN)] = False
            s.w(r.rid).attrs['priv'] = newobj(m, s, 'BIGNUM', owned=False, borrowed='EC_KEY', child=1, val=v)
            s.w(r.rid).attrs['pub'] = newobj(m, s, 'EC_POINT', owned=False, borrowed='EC_KEY', child=1, pt=smul(v, gen_of(g)))
        res.append((s, c(1 if ok else 0, 32)))
    return res


@model('EC_KEY_check_key', 'EC_GROUP_check')
def f(m, st, a):
    if reg(m, st, a[0]) is None:
        return dead(st)
    s2 = st.fork()
    s2.event('reject', callee(m), m.site())
    return [(st, I32_1), (s2, I32_0)]
