"""C11 digest, C12 digest contexts, C13 cipher, C14 block cipher, C15 substitution tables and cipher parameters.

The oracle is the standard itself, written down here over the same terms the analysis computes with: the digest or ciphertext the
code leaves in memory must be the term the standard prescribes.  Normal forms decide; a mismatch is reported only when a valuation
of the symbols separates the two terms."""
import terms as t
from terms import c, sym, app, ptr, isc, NULL
import models, valuation
from project import *

# ------------------------------------------------------------------ GOST 28147-89 and GOST 34.311-95 over terms


def table_rows(packed):
    """64 packed bytes -> rows K1..K8 of sixteen 4-bit terms"""
    rows = []
    for k in range(8):
        row = []
        for j in range(8):
            b = packed[8 * k + j]
            bs = t.bits(b)
            row += [t.mkb(bs[4:]), t.mkb(bs[:4])]
        rows.append(row)
    return rows


def word(bs):
    return t.concat(list(bs))


def g_f(rows, x):
    b = t.bits(x)
    o = ()
    for k in range(8):
        o += t.bits(t.select_table(rows[k], t.mkb(b[4 * k:4 * k + 4])))
    return t.mkb(o[21:] + o[:21])      # rotate left by 11


ENC = list(range(8)) * 3 + list(range(7, -1, -1))
DEC = list(range(8)) + list(range(7, -1, -1)) * 3
MAC = list(range(8)) * 2


def g_block(rows, key, data, order=ENC):
    """one 64-bit block; key and data are lists of byte terms"""
    kw = [word(key[4 * i:4 * i + 4]) for i in range(8)]
    a, b = word(data[:4]), word(data[4:])
    for i in order:
        a, b = t.xor(b, g_f(rows, t.add(a, kw[i]))), a
    if order is not MAC:
        a, b = b, a
    return [t.byte(a, i) for i in range(4)] + [t.byte(b, i) for i in range(4)]


def h_a(y):
    return y[8:] + [t.xor(p, q) for p, q in zip(y[:8], y[8:16])]


def h_key(w):
    k = [None] * 32
    for i in range(4):
        for j in range(8):
            k[i + 4 * j] = w[8 * i + j]
    return k


C3 = bytes.fromhex('ff00ffff000000ffff0000ff00ffff0000ff00ff00ff00ffff00ff00ff00ff00')[::-1]


def xl(a, b):
    return [t.xor(x, y) for x, y in zip(a, b)]


def psi(w, n):
    for _ in range(n):
        w = w[1:] + [[a ^ b ^ d ^ e ^ f ^ g for a, b, d, e, f, g in zip(w[0], w[1], w[2], w[3], w[12], w[15])]]
    return w


def words16(bs):
    return [list(t.bits(bs[2 * i]) + t.bits(bs[2 * i + 1])) for i in range(16)]


def wxor(a, b):
    return [[x ^ y for x, y in zip(p, q)] for p, q in zip(a, b)]


def h_step(rows, h, m):
    u, v = h, m
    s = []
    for i in range(4):
        if i:
            u, v = h_a(u), h_a(h_a(v))
            if i == 2:
                u = xl(u, [c(x, 8) for x in C3])
        s += g_block(rows, h_key(xl(u, v)), h[8 * i:8 * i + 8])
    w = psi(words16(s), 12)
    w = psi(wxor(w, words16(m)), 1)
    w = psi(wxor(w, words16(h)), 61)
    return [t.mkb(x[8 * j:8 * j + 8]) for x in w for j in (0, 1)]


def add256(a, b):
    """sum modulo 2^256 of little-endian byte lists, carried through as majority forms"""
    cin = t.E0
    out = []
    for x, y in zip(a, b):
        r = []
        for p, q in zip(t.bits(x), t.bits(y)):
            r.append(p ^ q ^ cin)
            cin = t._maj(p, q, cin)
        out.append(t.mkb(r))
    return out


Z = [c(0, 8)] * 32


def h_digest(rows, msg, length=None, h=None, sm=None):
    """digest of the message bytes; the last partial block is padded with zeros, an empty message counts as one zero block"""
    h, sm = h or Z, sm or Z
    blocks = [msg[i:i + 32] for i in range(0, len(msg), 32)] or [[]]
    for b in blocks:
        b = b + Z[:32 - len(b)]
        h = h_step(rows, h, b)
        sm = add256(sm, b)
    if length is None:
        length = c(len(msg), 64)
    bitlen = t.shl(length, c(3, 64))
    lb = [t.byte(bitlen, i) for i in range(8)] + Z[:24]
    return h_step(rows, h_step(rows, h, lb), sm)


# ------------------------------------------------------------------ helpers
def same(ctx, rule, got, want, where, detail, st=None, envs=()):
    """the bytes the code produces are the ones prescribed"""
    r, i = valuation.separate(got, want, envs=envs)
    if r == 'unknown':
        ctx.nobl += 1
        ctx.undecided.append(dict(rule=rule, where=where, detail=detail[:300], because=[i]))
        return None
    return ctx.obl(rule, r == 'same', where, detail + ('' if r == 'same' else ' (first at byte %d)' % i), st)


def syms(name, n):
    return [sym('%s[%d]@input' % (name, i), 8) for i in range(n)]


def mem(st, name, bs, kind='arg', extra=0, default='undef'):
    p = obj(st, name, None, kind=kind, size=c(len(bs) + extra, 64), default=default)
    for i, b in enumerate(bs):
        st.w(name).cells[i] = (b, 0)
    return p


def peek(m, s, rid, n, off=0):
    return [m.load_at(s, s.mem[rid], off + i, 1, 8) for i in range(n)]


def one(ctx, m, outs, what, where):
    """the single successful outcome of a step that must not fail"""
    good = []
    for s, r in outs:
        if r is not None and isc(r) and t.sval(r) > 0:
            good.append(s)
        elif failed(s):
            continue
        else:
            ctx.obl('operation-succeeds', False, where, '%s: returns %s without a failing step' % (what, r if r is None else t.show(r)), s)
    problems(ctx, m, what)
    ctx.need(good or m.problems, what + ': no analysable path')
    if not good:
        return None
    if len(good) > 1:
        # several paths for concrete lengths: all must agree, so follow each would be exponential; keep them all
        return good
    return good


def problems(ctx, m, what):
    for pr in m.problems:
        ctx.obl('memory-safe', False, pr[1], '%s: %s %s' % (what, pr[0], pr[2]), pr[4])


class Digest:
    """the registered digest, driven through its method table"""

    def __init__(self, ctx, name, dirty=False, pctx=NULL, **cfg):
        self.ctx, self.P, self.name = ctx, ctx.proj, name
        ctx.scenario(name)
        self.m = ctx.proj.machine(keep='all', max_steps=40000000, **cfg)
        self.st = self.m.initial()
        sz = ctx.proj.tables()['md'].get('app_datasize', (None,))[0]
        self.size = sz.a if sz is not None and isc(sz) else 0x4000
        self.mc = self.context(self.st, 'MC', dirty, pctx)
        self.n = 0

    def context(self, st, rid, dirty=False, pctx=NULL):
        d = obj(st, rid + '.data', None, kind='heap', size=c(self.size, 64), default='input' if dirty else 'zero')
        return obj(st, rid, 'EVP_MD_CTX', mddata=d, pctx=pctx)

    def call(self, what, *args, ctx=None, states=None):
        fn = self.P.fn('md', what, 0)
        out = []
        for s in states:
            g = one(self.ctx, self.m, self.m.call_fn(fn, list(args), s), '%s: %s' % (self.name, what), fn)
            out += g or []
        return out

    def update(self, states, bs, mc=None):
        self.n += 1
        out = []
        for s in states:
            p = mem(s, 'in%d' % self.n, bs)
            s.w('in%d' % self.n).ro = True
            out += self.call('update', mc or self.mc, p, c(len(bs), 64), states=[s])
        return out

    def final(self, states, mc=None, rid='OUT'):
        out = []
        for s in states:
            o = obj(s, rid, None, kind='arg', size=c(32, 64), default='undef')
            out += self.call('final', mc or self.mc, o, states=[s])
        return out


def default_rows():
    return table_rows(dflt())


@scen
def digest(ctx, chunks):
    name = 'digest of %d bytes as updates of %s' % (sum(chunks), '+'.join(map(str, chunks)) or 'nothing')
    D = Digest(ctx, name)
    fn = ctx.proj.fn('md', 'final', 0)
    ss = D.call('init', D.mc, states=[D.st])
    msg = syms('M', sum(chunks))
    o = 0
    for n in chunks:
        ss = D.update(ss, msg[o:o + n])
        o += n
    ss = D.final(ss)
    want = h_digest(default_rows(), msg)
    for s in ss:
        same(ctx, 'digest-is-gost-34311', peek(D.m, s, 'OUT', 32), want, fn, name + ': the digest is not the one GOST 34.311 prescribes', s)


@scen
def long_digest(ctx, tail, length):
    """the length counter: after one block the counter of bytes hashed is set to an arbitrary multiple of the block size"""
    name = 'digest of a message of %s bytes, last update of %d bytes' % (hex(length + tail) if length else 'arbitrarily many', tail)
    D = Digest(ctx, name)
    fn, up = ctx.proj.fn('md', 'final', 0), ctx.proj.fn('md', 'update', 0)
    ss = D.call('init', D.mc, states=[D.st])
    msg = syms('M', 64 + tail)
    s1 = D.update(ss, msg[:32])
    s2 = D.update([s.fork() for s in s1], msg[32:64])
    if len(s1) != 1 or len(s2) != 1:
        return

    def consts(s):
        r = s.mem['MC.data']
        return {o: v for o, (v, i) in r.cells.items() if i == 0 and isc(v) and v.w >= 16 and v.w % 8 == 0}
    a, b = consts(s1[0]), consts(s2[0])
    cand = [(o, k) for o in a for k in (1, 8) if o in b and a[o].w == b[o].w and a[o].a == 32 * k and b[o].a == 64 * k]
    ctx.need(len(cand) <= 4, 'the length counter cannot be told from other fields')
    rows = default_rows()
    for o, k in cand:
        w = a[o].w
        s = s2[0].fork()
        # a length of 2^58 bytes and more, arbitrary above the lowest byte
        top = 58
        lo = 8
        bits = [t.E0] * lo + list(t.bits(sym('LEN@input', top))[lo:]) + [t.E1] + [t.E0] * (63 - top)
        L = c(length, 64) if length else t.mkb(tuple(bits))
        fld = t.shl(L, c(3, 64)) if k == 8 else L
        put(s, ptr('MC.data'), o, t.trunc(fld, w) if w < 64 else fld)
        for s in D.final(D.update([s], msg[64:])):
            got = peek(D.m, s, 'OUT', 32)
            want = h_digest(rows, msg, t.add(L, c(tail, 64)))
            same(ctx, 'length-counted-in-full', got, want, up, name + ': the length hashed at the end is not the number of bits of the message', s)
    if not cand:
        ctx.undecided.append(dict(rule='length-counted-in-full', where=up, detail=name, because=['no length counter recognised']))


CHUNKS = [(), (0,), (1,), (31,), (32,), (33,), (64,), (65,), (1, 31), (31, 1), (31, 2), (16, 16, 1), (32, 32), (1, 64), (33, 31), (5, 0, 27), (7, 57),
          (20, 20, 20, 4), (24, 8, 8, 24), (63, 1), (40, 0, 24), (1, 1, 1), (30, 33)]


def c11(ctx):
    ch = list(CHUNKS)
    if ctx.thorough:
        ch += [(96,), (97, 31), (128,), (31, 65)] + [(a, b) for a in range(1, 32) for b in (1, 31 - a, 32 - a, 33 - a, 64 - a) if b > 0]
        ch += [(n,) for n in range(2, 64)]
    ch = list(dict.fromkeys(ch))
    jobs = [(long_digest, (n, x)) for n, x in ((0, 1 << 32), (5, 1 << 29), (33, 0x0123456789abcd00))]
    if ctx.thorough:
        jobs += [(long_digest, (n, None)) for n in (0, 5, 33)]
    jobs += [(digest, (x,)) for x in sorted(ch, key=lambda x: -sum(x))]
    ctx.par(jobs)


# ------------------------------------------------------------------ digest contexts
def expect(ctx, D, ss, rows, msg, rule, detail, rid='OUT'):
    fn = ctx.proj.fn('md', 'final', 0)
    want = h_digest(rows, msg)
    for s in ss:
        same(ctx, rule, peek(D.m, s, rid, 32), want, fn, '%s: %s' % (D.name, detail), s)


@scen
def md_reinit(ctx, dirty):
    D = Digest(ctx, 'digest context %s, then initialised' % ('holding arbitrary bytes' if dirty else 'used for another message'), dirty=dirty)
    ss = [D.st]
    if not dirty:
        ss = D.update(D.call('init', D.mc, states=ss), syms('OLD', 40))
    ss = D.call('init', D.mc, states=ss)
    msg = syms('M', 5)
    expect(ctx, D, D.final(D.update(ss, msg)), default_rows(), msg, 'init-forgets-the-past', 'the digest depends on what the context was used for before')


def md_clone(D, s, frm='MC', to='MC2'):
    """EVP_MD_CTX_copy: the library copies the data bytes and then calls the copy method"""
    p = D.context(s, to)
    s.w(to + '.data').cells.update(s.mem[frm + '.data'].cells)
    s.w(to + '.data').default = s.mem[frm + '.data'].default
    return p


@scen
def md_copy(ctx, n, how):
    D = Digest(ctx, 'digest context copied after %d bytes, then %s' % (n, how))
    fn = ctx.proj.fn('md', 'copy', 0)
    msg, tail, other = syms('M', n), syms('T', 2), syms('O', 3)
    box = syms('BOX', 64)
    ss = D.call('init', D.mc, states=[D.st])
    custom = how.startswith('custom')
    if custom:
        ss = md_setbox(D, ss, D.mc, box)
    ss = D.update(ss, msg)
    out = []
    for s in ss:
        c2 = md_clone(D, s)
        out += D.call('copy', c2, D.mc, states=[s])
    c2, ss = ptr('MC2'), out
    rows = table_rows(box) if custom else default_rows()
    if how.endswith('the original freed'):
        for s in ss:
            s.w('MC.data').status = 'freed'
    elif how == 'the original cleaned up':
        ss = D.call('cleanup', D.mc, states=ss)
    elif how == 'the original continued':
        ss = D.final(D.update(ss, other), rid='OUT2')
        expect(ctx, D, ss, rows, msg + other, 'copies-are-independent', 'the original is wrong after copying', 'OUT2')
    elif how == 'the original given another table':
        ss = md_setbox(D, ss, D.mc, box)
    elif how == 'the copy given another table':
        ss = md_setbox(D, ss, c2, box)
        ss = D.final(D.update(ss, tail))
        expect(ctx, D, ss, rows, msg + tail, 'copies-are-independent', 'changing the copy changes the original')
        return
    elif how == 'the copy continued and freed':
        ss = D.update(ss, other, mc=c2)
        for s in ss:
            s.w('MC2.data').status = 'freed'
        ss = D.final(D.update(ss, tail))
        expect(ctx, D, ss, rows, msg + tail, 'copies-are-independent', 'using the copy changes the original')
        return
    ss = D.final(D.update(ss, tail, mc=c2), mc=c2)
    expect(ctx, D, ss, rows, msg + tail, 'copies-are-independent', 'the copy does not continue the message')
    problems(ctx, D.m, D.name)


def md_setbox(D, ss, mc, bs, n=64):
    fn = D.P.fn('md', 'ctrl', 0)
    out = []
    for s in ss:
        p = mem(s, 'box', bs)
        s.w('box').ro = True
        for s2, r in D.m.call_fn(fn, [mc, c(SETBOX, 32), c(n, 32), p], s):
            D.ctx.obl('table-accepted', isc(r) and t.sval(r) > 0, fn, D.name + ': a substitution table is refused', s2)
            del s2.mem['box']
            out.append(s2)
    problems(D.ctx, D.m, D.name)
    return out


@scen
def md_copy_empty(ctx, which):
    D = Digest(ctx, 'digest context copied with no data on the %s side' % which)
    fn = ctx.proj.fn('md', 'copy', 0)
    c2 = D.context(D.st, 'MC2')
    for w in ('MC', 'MC2'):
        if which in ('either', 'source' if w == 'MC' else 'target'):
            D.st.w(w).attrs['mddata'] = NULL
    for s, r in D.m.call_fn(fn, [c2, D.mc], D.st):
        ctx.obl('empty-copy-harmless', isc(r), fn, D.name, s)
    fn = ctx.proj.fn('md', 'cleanup', 0)
    for s, r in D.m.call_fn(fn, [D.mc], D.st):
        ctx.obl('empty-copy-harmless', isc(r), fn, D.name, s)
    problems(ctx, D.m, D.name)


@scen
def md_key(ctx, kind, what):
    D = Digest(ctx, 'digest for a signature with %s' % what)
    st = D.st
    box = syms('BOX', 64)
    rows = default_rows()
    if what == 'no key':
        pk = NULL
    elif what == 'a key without content':
        pk = obj(st, 'pkey', 'EVP_PKEY', type=c(nid('dstu4145' + kind), 32), key=NULL)
    elif what == 'a key of another algorithm':
        k = obj(st, 'RSA', None, kind='heap', size=c(256, 64), default='input')
        pk = obj(st, 'pkey', 'EVP_PKEY', type=c(nid('rsaEncryption'), 32), key=k)
    else:
        sb = mem(st, 'KBOX', box, kind='heap') if 'its own' in what else NULL
        pk = obj(st, 'pkey', 'EVP_PKEY', type=c(nid('dstu4145' + kind), 32), key=dstukey(st, sbox=sb, gval=app('G')))
        if 'its own' in what:
            rows = table_rows(box)
    pc = obj(st, 'pctx', 'EVP_PKEY_CTX', pkey=pk, data=NULL)
    st.w('MC').attrs['pctx'] = pc
    msg = syms('M', 1)
    ss = D.final(D.update(D.call('init', D.mc, states=[st]), msg))
    expect(ctx, D, ss, rows, msg, 'digest-uses-the-table-of-the-key', 'the digest is computed with another substitution table')


SETBOX = None


def control_code(ctx):
    """the control code of the custom table: the smallest one the digest accepts 64 bytes for, taken from the public control header"""
    global SETBOX
    import re, os, frontend
    txt = open(os.path.join(frontend.REPO, 'engine', 'control.h')).read()
    m = re.search(r'#\s*define\s+DSTU_SET_CUSTOM_SBOX\s+(.*)', txt)
    ctx.need(m is not None, 'control.h does not define the table control')
    e = re.sub(r'//.*|/\*.*?\*/', '', m.group(1)).strip()
    g = re.fullmatch(r'\(?\s*(\w+)(?:\s*\+\s*(\w+))?\s*\)?', e)

    def num(x):
        try:
            return int(x, 0)
        except (TypeError, ValueError):
            return {'EVP_MD_CTRL_ALG_CTRL': 0x1000, 'EVP_PKEY_ALG_CTRL': 0x1000}.get(x, 0 if x is None else None)
    ctx.need(g and num(g.group(1)) is not None and num(g.group(2)) is not None, 'control code is not a constant')
    SETBOX = num(g.group(1)) + num(g.group(2))
    return SETBOX


@scen
def md_ctrl(ctx, what):
    D = Digest(ctx, 'digest control: ' + what)
    fn = ctx.proj.fn('md', 'ctrl', 0)
    box = syms('BOX', 64)
    msg = syms('M', 1)
    ss = D.call('init', D.mc, states=[D.st])
    if what == 'custom table':
        ss = md_setbox(D, ss, D.mc, box)
        ss = D.final(D.update(ss, msg))
        expect(ctx, D, ss, table_rows(box), msg, 'table-takes-effect', 'the custom substitution table is not used as given')
        return
    out = []
    for s in ss:
        p = mem(s, 'box', box[:63] if '63' in what else box)
        cmd, n = SETBOX, 64
        if what == 'no table':
            p = NULL
        elif 'bytes' in what:
            n = int(what.split()[-2])
        else:
            cmd = 0x2fff
        for s2, r in D.m.call_fn(fn, [D.mc, c(cmd, 32), c(n, 32), p], s):
            ctx.obl('bad-control-refused', isc(r) and t.sval(r) <= 0, fn, D.name + ': accepted', s2)
            out.append(s2)
    problems(ctx, D.m, D.name)
    expect(ctx, D, D.final(D.update(out, msg)), default_rows(), msg, 'refused-control-changes-nothing', 'a refused control changes the digest')


@scen
def md_cleanup(ctx):
    D = Digest(ctx, 'digest context cleaned up', dirty=True)
    fn = ctx.proj.fn('md', 'cleanup', 0)
    ss = D.update(D.call('init', D.mc, states=[D.st]), syms('M', 40))
    for s in D.call('cleanup', D.mc, states=ss):
        left = [i for i, b in enumerate(peek(D.m, s, 'MC.data', D.size)) if not (isc(b) and b.a == 0)]
        ctx.obl('cleanup-wipes', not left, fn, D.name + ': bytes of the message state survive at offset %s' % left[:1], s)


def c12(ctx):
    control_code(ctx)
    jobs = [(md_copy, (n, how)) for how in ('the original freed', 'the original cleaned up', 'the original continued', 'the original given another table',
                                            'the copy given another table', 'the copy continued and freed', 'custom table kept, the original freed')
            for n in ((33, 0, 4, 32) if ctx.thorough else (33,) if how == 'the original freed' else (4,))]
    jobs += [(md_key, (k, w)) for w, ks in (('a key with its own table', ('le', 'be')), ('a key without a table', ('le', 'be')), ('no key', ('le',)),
                                            ('a key without content', ('le',)), ('a key of another algorithm', ('le',))) for k in ks]
    jobs += [(md_ctrl, (w,)) for w in ('custom table', 'no table', 'table of 63 bytes', 'table of 65 bytes', 'table of 0 bytes', 'unknown code')]
    jobs += [(md_reinit, (d,)) for d in (True, False)] + [(md_cleanup, ())] + [(md_copy_empty, (w,)) for w in ('source', 'target', 'either')]
    ctx.par(jobs)


# ------------------------------------------------------------------ cipher
def cfb(rows, key, iv, data, enc):
    out, reg = [], list(iv)
    for i in range(0, len(data), 8):
        g = g_block(rows, key, reg)
        blk = data[i:i + 8]
        o = [t.xor(a, b) for a, b in zip(blk, g)]
        out += o
        reg = (o if enc else blk) + reg[len(blk):]
    return out


class Cipher:
    """the registered cipher, driven the way EVP drives one with these flags: the init method is called for every (re)initialisation"""

    def __init__(self, ctx, name, enc, dirty=False):
        self.ctx, self.P, self.name, self.enc = ctx, ctx.proj, name, enc
        ctx.scenario(name)
        self.m = ctx.proj.machine(keep='all', max_steps=40000000)
        self.st = st = self.m.initial()
        sz = ctx.proj.tables()['cipher'].get('impl_ctx_size', (None,))[0]
        self.size = sz.a if sz is not None and isc(sz) else 0x4000
        self.cx = self.context(st, 'CX', enc, dirty)
        self.n = 0

    def context(self, st, rid, enc, dirty=False):
        d = 'input' if dirty else 'zero'
        at = dict(cdata=obj(st, rid + '.data', None, kind='heap', size=c(self.size, 64), default='zero'), num=sym(rid + '.num', 32) if dirty else c(0, 32),
                  enc=c(enc, 32))
        for k, n in (('buf', 32), ('iv', 16), ('oiv', 16)):
            at[k] = obj(st, rid + '.' + k, None, kind='heap', size=c(n, 64), default=d)
        return obj(st, rid, 'EVP_CIPHER_CTX', **at)

    def init(self, ss, key=None, iv=None, cx=None):
        fn = self.P.fn('cipher', 'init', 0)
        out = []
        for s in ss:
            a = [cx or self.cx]
            for nm, v in (('key', key), ('iv', iv)):
                self.n += 1
                a.append(mem(s, '%s%d' % (nm, self.n), v) if v is not None else NULL)
                if v is not None:
                    s.w('%s%d' % (nm, self.n)).ro = True
            out += one(self.ctx, self.m, self.m.call_fn(fn, a + [c(self.enc, 32)], s), self.name + ': init', fn) or []
        return out

    def crypt(self, ss, bs, inplace=False, cx=None):
        """[(state, output bytes)]"""
        fn = self.P.fn('cipher', 'do_cipher', 0)
        out = []
        for s, got in ss:
            self.n += 1
            i = 'in%d' % self.n
            p = mem(s, i, bs)
            q = p
            if not inplace:
                s.w(i).ro = True
                q = obj(s, 'out%d' % self.n, None, kind='arg', size=c(len(bs), 64), default='undef')
            for s2, r in self.m.call_fn(fn, [cx or self.cx, q, p, c(len(bs), 64)], s):
                if self.ctx.obl('all-bytes-processed', r is not None and isc(r) and t.sval(r) == len(bs), fn,
                                '%s: %s returned for %d bytes' % (self.name, t.show(r) if r is not None else 'nothing', len(bs)), s2):
                    out.append((s2, got + peek(self.m, s2, q.a[0], len(bs))))
            problems(self.ctx, self.m, self.name)
        return out

    def ctrl(self, ss, cmd, n, bs):
        fn = self.P.fn('cipher', 'ctrl', 0)
        out = []
        for s in ss:
            p = NULL
            if bs is not None:
                self.n += 1
                p = mem(s, 'box%d' % self.n, bs)
                s.w('box%d' % self.n).ro = True
            out += self.m.call_fn(fn, [self.cx, c(cmd, 32), c(n, 32), p], s)
        problems(self.ctx, self.m, self.name)
        return out

    def setbox(self, ss, bs):
        out = []
        for s, r in self.ctrl(ss, SETBOX, 64, bs):
            self.ctx.obl('table-accepted', isc(r) and t.sval(r) > 0, self.P.fn('cipher', 'ctrl', 0), self.name + ': a substitution table is refused', s)
            out.append(s)
        return out

    def expect(self, ss, rows, key, iv, data, rule, detail, enc=None):
        want = cfb(rows, key, iv, data, self.enc if enc is None else enc)
        fn = self.P.fn('cipher', 'do_cipher', 0)
        self.ctx.need(ss or self.ctx.violations or self.m.problems, self.name + ': no analysable path')
        for s, got in ss:
            same(self.ctx, rule, got, want, fn, '%s: %s' % (self.name, detail), s)


def stream(C, ss, chunks, data, inplace=False):
    ss = [(s, []) for s in ss]
    o = 0
    for n in chunks:
        ss = C.crypt(ss, data[o:o + n], inplace)
        o += n
    return ss


@scen
def cipher_chunks(ctx, enc, chunks, inplace):
    C = Cipher(ctx, '%scryption of %s bytes%s' % ('en' if enc else 'de', '+'.join(map(str, chunks)), ' in place' if inplace else ''), enc)
    key, iv, data = syms('KEY', 32), syms('IV', 8), syms('D', sum(chunks))
    ss = stream(C, C.init([C.st], key, iv), chunks, data, inplace)
    C.expect(ss, default_rows(), key, iv, data, 'output-is-gost-cfb', 'the output is not GOST 28147 in CFB mode')


INITS = ('all at once', 'after an empty call', 'key then iv', 'iv then key', 'empty, iv, key', 'all at once, then a new iv', 'all at once, then a new key',
         'all at once, then both new', 'all at once, then an empty call', 'dirty')


@scen
def cipher_init(ctx, enc, how, box, used):
    C = Cipher(ctx, '%scryption, initialised %s%s%s' % ('en' if enc else 'de', how, ', %d bytes processed in between' % used if used else '',
                                                        ', custom table %s' % box if box else ''), enc, dirty=how == 'dirty')
    key, iv, k2, iv2, bx, data = syms('KEY', 32), syms('IV', 8), syms('K2', 32), syms('IV2', 8), syms('BOX', 64), syms('D', 11)
    steps = {'all at once': [(key, iv)], 'dirty': [(key, iv)], 'after an empty call': [(None, None), (key, iv)], 'key then iv': [(key, None), (None, iv)],
             'iv then key': [(None, iv), (key, None)], 'empty, iv, key': [(None, None), (None, iv), (key, None)],
             'all at once, then a new iv': [(k2 if 0 else key, iv2), (None, iv)], 'all at once, then a new key': [(k2, iv), (key, None)],
             'all at once, then both new': [(k2, iv2), (key, iv)], 'all at once, then an empty call': [(key, iv), (None, None)]}[how]
    ss = [C.st]
    if box == 'before':
        # an engine cipher is set up by an empty call before it can be controlled
        ss = C.setbox(C.init(ss), bx)
    for i, (k, v) in enumerate(steps):
        ss = C.init(ss, k, v)
        if used and i == 0:
            ss = [s for s, _ in stream(C, ss, (used,), syms('OLD', used))]
        if box == 'between' and i == 0:
            ss = C.setbox(ss, bx)
    if box == 'after':
        ss = C.setbox(ss, bx)
    rows = table_rows(bx) if box else default_rows()
    if how == 'all at once, then an empty call' and used and not box:
        # nothing new was given: the stream goes on
        ss = stream(C, ss, (11,), data)
        want = cfb(rows, key, iv, syms('OLD', used) + data, enc)[used:]
        for s, got in ss:
            same(ctx, 'empty-init-changes-nothing', got, want, ctx.proj.fn('cipher', 'init', 0), C.name + ': the stream is disturbed', s)
        return
    C.expect(stream(C, ss, (11,), data), rows, key, iv, data, 'init-order-does-not-matter', 'the output is not that of the key, iv and table set last')


@scen
def cipher_ctrl(ctx, what):
    C = Cipher(ctx, 'cipher control: ' + what, 1)
    fn = ctx.proj.fn('cipher', 'ctrl', 0)
    key, iv, bx, data = syms('KEY', 32), syms('IV', 8), syms('BOX', 64), syms('D', 11)
    ss = C.init([C.st], key, iv)
    n, cmd, b = 64, SETBOX, bx
    if what == 'no table':
        b = None
    elif 'bytes' in what:
        n = int(what.split()[-2])
        b = bx[:63] if n == 63 else bx
    else:
        cmd = 0x2fff
    out = []
    for s, r in C.ctrl(ss, cmd, n, b):
        ctx.obl('bad-control-refused', isc(r) and t.sval(r) <= 0, fn, C.name + ': accepted', s)
        out.append(s)
    C.expect(stream(C, out, (11,), data), default_rows(), key, iv, data, 'refused-control-changes-nothing', 'a refused control changes the output')


@scen
def cipher_final(ctx, enc):
    """finishing a stream produces nothing and a stream may end anywhere"""
    C = Cipher(ctx, '%scryption finished after 3 bytes' % ('en' if enc else 'de'), enc)
    fn = ctx.proj.fn('cipher', 'do_cipher', 0)
    key, iv, data = syms('KEY', 32), syms('IV', 8), syms('D', 3)
    for s, _ in stream(C, C.init([C.st], key, iv), (3,), data):
        o = obj(s, 'o', None, kind='arg', size=c(0, 64))
        for s2, r in C.m.call_fn(fn, [C.cx, o, NULL, c(0, 64)], s):
            ctx.obl('final-adds-nothing', isc(r) and t.sval(r) == 0, fn, C.name + ': %s returned' % t.show(r), s2)
    problems(ctx, C.m, C.name)


@scen
def cipher_inverse(ctx, chunks, chunks2):
    C = Cipher(ctx, 'encryption in %s bytes undone in %s' % ('+'.join(map(str, chunks)), '+'.join(map(str, chunks2))), 1)
    key, iv, data = syms('KEY', 32), syms('IV', 8), syms('D', sum(chunks))
    for s, ct in stream(C, C.init([C.st], key, iv), chunks, data):
        C.context(s, 'CX', 0)
        C.enc = 0
        for s2, pt in stream(C, C.init([s], key, iv), chunks2, ct):
            same(ctx, 'decryption-undoes-encryption', pt, data, ctx.proj.fn('cipher', 'do_cipher', 0), C.name + ': the plaintext is not recovered', s2)


def c13(ctx):
    control_code(ctx)
    ch = [(1,), (7,), (8,), (9,), (16,), (3, 5), (3, 4, 1), (5, 11), (3, 13, 1), (8, 8), (7, 2), (17, 7), (24,), (2, 6, 8)]
    if ctx.thorough:
        ch += [(a, b) for a in range(1, 17) for b in range(1, 17)] + [(33,), (40,), (5, 35), (1,) * 17]
    jobs = [(cipher_chunks, (e, x, p)) for x in dict.fromkeys(ch) for e in (1, 0) for p in ((False, True) if len(x) < 3 or ctx.thorough else (False,))]
    for e in (1, 0):
        for how in INITS:
            for used in (0, 3) if how.startswith('all at once, then') else (0,):
                jobs.append((cipher_init, (e, how, '', used)))
        for how, box in (('all at once', 'before'), ('all at once', 'after'), ('key then iv', 'before'), ('key then iv', 'between'), ('iv then key', 'before'),
                         ('iv then key', 'between'), ('all at once, then both new', 'between'), ('all at once, then an empty call', 'between')):
            jobs.append((cipher_init, (e, how, box, 3 if box == 'after' else 0)))
        jobs.append((cipher_final, (e,)))
    jobs += [(cipher_ctrl, (w,)) for w in ('no table', 'table of 63 bytes', 'table of 65 bytes', 'unknown code')]
    jobs += [(cipher_inverse, x) for x in (((11,), (3, 8)), ((16, 3), (19,)))]
    ctx.par(jobs)


# ------------------------------------------------------------------ block cipher
class Block:
    """the block cipher library, by the functions its header declares"""

    def __init__(self, ctx, name, boxes=True):
        self.ctx, self.name = ctx, name
        ctx.scenario(name)
        self.m = m = ctx.proj.machine(keep='all', max_steps=40000000)
        self.st = m.initial()
        self.cx = obj(self.st, 'CTX', None, kind='arg', size=c(0x1040, 64), default='undef')
        self.box = syms('BOX', 64)
        if boxes:
            mem(self.st, 'packed', self.box)
            obj(self.st, 'SB', None, kind='arg', size=c(128, 64))
            self.call('unpack_sbox', ptr('packed'), ptr('SB'))
            self.call('gost_init', self.cx, ptr('SB'))
        self.rows = table_rows(self.box)

    def call(self, fn, *a):
        if fn not in self.ctx.proj.mod.funcs:
            raise Missing(fn)
        outs = self.m.call_fn(fn, list(a), self.st)
        outs = [(s, r) for s, r in outs if not failed(s)]
        problems(self.ctx, self.m, self.name)
        if not outs and self.m.problems:
            raise Missing(fn)
        self.ctx.need(outs, self.name + ': %s has no analysable path' % fn)
        if len(outs) > 1:
            raise Missing(fn)
        self.st = outs[0][0]
        return outs[0][1]

    def buf(self, rid, bs):
        return mem(self.st, rid, bs)

    def new(self, rid, n):
        return obj(self.st, rid, None, kind='arg', size=c(n, 64))

    def get(self, rid, n):
        return peek(self.m, self.st, rid, n)


class Missing(Exception):
    pass


@scen
def block(ctx, what):
    B = Block(ctx, 'block cipher: ' + what)
    key, d = syms('KEY', 32), syms('D', 24)
    masked = 'unmasked' not in what
    try:
        B.call('gost_key' if masked else 'gost_key_nomask', B.cx, B.buf('key', key))
        fn = None
        if 'one block' in what:
            B.buf('d', d[:8])
            o = ptr('d') if 'in place' in what else B.new('o', 8)
            fn = 'gostdecrypt' if 'decrypt' in what else 'gostcrypt'
            B.call(fn, B.cx, ptr('d'), o)
            same(ctx, 'block-is-gost-28147', B.get(o.a[0], 8), g_block(B.rows, key, d[:8], DEC if 'decrypt' in what else ENC), fn, B.name + ': not GOST 28147', B.st)
            if 'undone' in what:
                B.call('gostdecrypt' if fn == 'gostcrypt' else 'gostcrypt', B.cx, o, B.new('p', 8))
                same(ctx, 'decryption-inverts-encryption', B.get('p', 8), d[:8], fn, B.name + ': the block is not recovered', B.st)
        elif 'ECB' in what:
            B.buf('d', d)
            o = ptr('d') if 'in place' in what else B.new('o', 24)
            fn = 'gost_dec' if 'decrypt' in what else 'gost_enc'
            B.call(fn, B.cx, ptr('d'), o, c(3, 32))
            want = sum((g_block(B.rows, key, d[i:i + 8], DEC if 'decrypt' in what else ENC) for i in (0, 8, 16)), [])
            same(ctx, 'ecb-is-blockwise', B.get(o.a[0], 24), want, fn, B.name + ': not GOST 28147 block by block', B.st)
        elif 'CFB' in what:
            B.buf('d', d)
            o = ptr('d') if 'in place' in what else B.new('o', 24)
            fn = 'gost_dec_cfb' if 'decrypt' in what else 'gost_enc_cfb'
            iv = syms('IV', 8)
            B.buf('iv', iv)
            B.st.w('iv').ro = True
            B.call(fn, B.cx, ptr('iv'), ptr('d'), o, c(3, 32))
            same(ctx, 'cfb-chains-ciphertext', B.get(o.a[0], 24), cfb(B.rows, key, iv, d, 'decrypt' not in what), fn, B.name + ': not CFB mode', B.st)
        elif 'key read back' in what:
            fn = 'gost_get_key'
            B.call(fn, B.cx, B.new('k', 32))
            same(ctx, 'key-read-back', B.get('k', 32), key, fn, B.name + ': another key', B.st)
        elif 'changed' in what:
            fn = 'gost_enc_with_key'
            k2 = syms('K2', 32)
            B.call(fn, B.cx, B.buf('k2', k2), B.buf('d', d[:8]), B.new('o', 8))
            same(ctx, 'last-key-counts', B.get('o', 8), g_block(B.rows, k2, d[:8]), fn, B.name + ': encrypted under another key', B.st)
        elif 'destroyed' in what:
            fn = 'gost_destroy'
            B.call(fn, B.cx)
            # no byte left in the context may depend on the key
            left = [i for i, b in enumerate(B.get('CTX', 0x1040)) if any(x.op == 's' and str(x.a).startswith(('KEY', 'rnd')) for x in t.atoms(b))]
            ctx.obl('destroy-wipes-the-key', not left, fn, B.name + ': key material is left at offset %s' % left[:1], B.st)
        elif 'MAC' in what:
            n = int(what.split()[2])
            bits = int(what.split()[6])
            fn = 'gost_mac_iv' if 'iv' in what else 'gost_mac'
            iv = syms('IV', 8) if 'iv' in what else [c(0, 8)] * 8
            nb = (bits + 7) // 8
            args = [B.cx, c(bits, 32)] + ([B.buf('iv', iv)] if 'iv' in what else []) + [B.buf('d', d[:n]), c(n, 32), B.new('o', nb)]
            B.call(fn, *args)
            st_ = iv
            blocks = [d[:n][i:i + 8] for i in range(0, n, 8)]
            blocks[-1] = blocks[-1] + [c(0, 8)] * (8 - len(blocks[-1]))
            if len(blocks) == 1:
                blocks.append([c(0, 8)] * 8)
            for b in blocks:
                st_ = g_block(B.rows, key, [t.xor(x, y) for x, y in zip(st_, b)], MAC)
            want = st_[:nb]
            if bits % 8:
                want[-1] = t.and_(want[-1], c((1 << (bits % 8)) - 1, 8))
            same(ctx, 'mac-is-gost-28147', B.get('o', nb), want, fn, B.name + ': not the MAC mode of GOST 28147', B.st)
    except Missing as e:
        ctx.undecided.append(dict(rule='block', where=str(e), detail=B.name, because=['not available for analysis']))


BLOCKS = ['encrypt one block', 'encrypt one block in place', 'decrypt one block', 'decrypt one block in place', 'encrypt one block, unmasked key', 'decrypt one block, unmasked key',
          'encrypt one block, undone', 'decrypt one block, undone', 'ECB encrypt', 'ECB encrypt in place', 'ECB decrypt', 'ECB decrypt in place', 'CFB encrypt', 'CFB encrypt in place',
          'CFB decrypt', 'CFB decrypt in place', 'key read back', 'key read back, unmasked', 'key changed', 'context destroyed', 'MAC of 8 bytes cut to 32 bits', 'MAC of 20 bytes cut to 32 bits',
          'MAC of 24 bytes cut to 64 bits', 'MAC of 5 bytes cut to 30 bits', 'MAC of 16 bytes cut to 32 bits with iv']


def c14(ctx):
    ctx.par([(block, (w,)) for w in BLOCKS])


# ------------------------------------------------------------------ substitution tables and cipher parameters
@scen
def sbox_lib(ctx, what):
    B = Block(ctx, 'substitution table: ' + what)
    try:
        if what == 'packed again':
            fn = 'pack_sbox'
            B.call(fn, ptr('SB'), B.new('o', 64))
            same(ctx, 'packing-undoes-unpacking', B.get('o', 64), B.box, fn, B.name + ': another table', B.st)
        elif what == 'read back from a cipher context':
            fn = 'dstu_get_sbox'
            B.call(fn, B.cx, B.new('o', 128))
            same(ctx, 'table-read-back', B.get('o', 128), B.get('SB', 128), fn, B.name + ': another table', B.st)
        elif what == 'unpacked':
            fn = 'unpack_sbox'
            want = [t.zext(x, 8) for k in range(7, -1, -1) for x in B.rows[k]]
            same(ctx, 'unpacking-order', B.get('SB', 128), want, fn, B.name + ': rows or entries are out of order', B.st)
    except Missing as e:
        ctx.undecided.append(dict(rule='table', where=str(e), detail=B.name, because=['not available for analysis']))


DER_HEAD = [0x30, 0x4c, 0x04, 0x08]


def asn1_type(st, rid, bs, typ=16, n=None):
    """ASN1_TYPE holding a SEQUENCE of the given bytes"""
    d = mem(st, rid + '.bytes', bs)
    st.w(rid + '.bytes').ro = True
    s_ = obj(st, rid + '.str', 'ASN1_STRING', size=c(24, 64))
    put(st, s_, 0, c(len(bs) if n is None else n, 32))
    put(st, s_, 4, c(16, 32))
    put(st, s_, 8, d)
    a = obj(st, rid, None, kind='arg', size=c(16, 64))
    put(st, a, 0, c(typ, 32))
    put(st, a, 8, s_ if typ not in (1, 5) else NULL)
    return a


def set_params(ctx, C, s):
    """[(state, bytes of the parameters written or None)]"""
    fn = ctx.proj.fn('cipher', 'set_asn1_params', 0)
    at = obj(s, 'AT', None, kind='arg', size=c(16, 64))
    got = {}

    def hook(m, st, a, n, b):
        if isc(a[1]):
            st.event('params', n, a[1], b)
    C.m.hooks['asn1_type_set1'] = hook
    outs = C.m.call_fn(fn, [C.cx, at], s)
    problems(ctx, C.m, C.name)
    return fn, outs


@scen
def params_written(ctx, box, used, enc):
    C = Cipher(ctx, 'cipher parameters written, %s table%s' % (box, ', %d bytes processed' % used if used else ''), enc)
    key, iv, bx = syms('KEY', 32), syms('IV', 8), syms('BOX', 64)
    ss = C.init([C.st], key, iv)
    if box == 'custom':
        ss = C.setbox(ss, bx)
    if used:
        ss = [s for s, _ in stream(C, ss, (used,), syms('OLD', used))]
    want = [c(x, 8) for x in DER_HEAD] + iv + [c(4, 8), c(64, 8)] + (bx if box == 'custom' else dflt())
    for s in ss:
        fn, outs = set_params(ctx, C, s)
        ok = 0
        for s2, r in outs:
            if isc(r) and t.sval(r) <= 0:
                ctx.obl('parameters-fail-only-on-fault', bool(failed(s2)), fn, C.name + ': fails without a failing step', s2)
                continue
            ev = s2.has('params')
            if not ctx.obl('parameters-produced', len(ev) == 1 and isc(ev[0][1]) and isc(ev[0][2]) and ev[0][2].a == 16 and ev[0][1].a == 78 and ev[0][3] is not None
                           and ev[0][3].op == 'app' and ev[0][3].a[0] == 'bytes', fn, C.name + ': no SEQUENCE of 78 bytes is written', s2):
                continue
            ok += 1
            same(ctx, 'parameters-carry-iv-and-table', list(ev[0][3].a[1:]), want, fn, C.name + ': not the DER of the initial iv and the table in use', s2)
        ctx.obl('parameters-can-be-written', ok > 0, fn, C.name + ': never succeeds')


@scen
def params_read(ctx, enc, how):
    """reading parameters puts their iv and table in force, whether the key is set before or after"""
    C = Cipher(ctx, 'cipher parameters read, %s' % how, enc)
    fn = ctx.proj.fn('cipher', 'get_asn1_params', 0)
    key, iv, iv2, bx, data = syms('KEY', 32), syms('IV', 8), syms('IV2', 8), syms('BOX', 64), syms('D', 11)
    if how == 'key set later':
        ss = C.init([C.st])
    elif how == 'key set before':
        ss = C.init([C.st], key, iv2)
    else:
        ss = [s for s, _ in stream(C, C.init([C.st], key, iv2), (3,), syms('OLD', 3))]
    out = []
    for s in ss:
        a = asn1_type(s, 'AT', [c(x, 8) for x in DER_HEAD] + iv + [c(4, 8), c(64, 8)] + bx)
        for s2, r in C.m.call_fn(fn, [C.cx, a], s):
            ctx.obl('parameters-accepted', isc(r) and t.sval(r) > 0, fn, C.name + ': well-formed parameters are refused', s2)
            out.append(s2)
    problems(ctx, C.m, C.name)
    if how == 'key set later':
        out = C.init(out, key, None)
    C.expect(stream(C, out, (11,), data), table_rows(bx), key, iv, data, 'parameters-take-effect', 'the iv or the table of the parameters is not in force')


BAD = ['not a sequence', 'null', '77 bytes', '79 bytes', '0 bytes', 'iv not an octet string', 'iv of 7 bytes', 'table not an octet string', 'table of 63 bytes']


@scen
def params_refused(ctx, what):
    C = Cipher(ctx, 'cipher parameters read: ' + what, 1)
    fn = ctx.proj.fn('cipher', 'get_asn1_params', 0)
    key, iv, iv2, bx, data = syms('KEY', 32), syms('IV', 8), syms('IV2', 8), syms('BOX', 64), syms('D', 11)
    bs = [c(x, 8) for x in DER_HEAD] + iv + [c(4, 8), c(64, 8)] + bx
    typ = 16
    if what == 'not a sequence':
        typ = 4
    elif what == 'null':
        typ = 5
    elif what == '77 bytes':
        bs = bs[:77]
    elif what == '79 bytes':
        bs = bs + syms('X', 1)
    elif what == '0 bytes':
        bs = []
    elif what == 'iv not an octet string':
        bs[2] = c(2, 8)
    elif what == 'iv of 7 bytes':
        bs[3] = c(7, 8)
    elif what == 'table not an octet string':
        bs[12] = c(3, 8)
    elif what == 'table of 63 bytes':
        bs[13] = c(63, 8)
    out = []
    for s in C.init([C.st], key, iv2):
        a = asn1_type(s, 'AT', bs, typ)
        for s2, r in C.m.call_fn(fn, [C.cx, a], s):
            ctx.obl('malformed-parameters-refused', isc(r) and t.sval(r) <= 0, fn, C.name + ': accepted', s2)
            out.append(s2)
    problems(ctx, C.m, C.name)
    C.expect(stream(C, out, (11,), data), default_rows(), key, iv2, data, 'refused-parameters-change-nothing', 'refused parameters disturb the context')


def c15(ctx):
    control_code(ctx)
    jobs = [(sbox_lib, (w,)) for w in ('packed again', 'read back from a cipher context', 'unpacked')]
    jobs += [(params_written, (b, u, e)) for b in ('default', 'custom') for u in (0, 3, 8) for e in (1, 0)]
    jobs += [(params_read, (e, h)) for e in (1, 0) for h in ('key set later', 'key set before', 'key set before and 3 bytes processed')]
    jobs += [(params_refused, (w,)) for w in BAD]
    ctx.par(jobs)


CHECKS = {'C11': (c11, 'digest terms computed by abstract interpretation of init/update/final equal the terms GOST 34.311 prescribes'),
          'C13': (c13, 'ciphertext terms over all chunkings and initialisation orders equal CFB over the GOST 28147 terms'),
          'C14': (c14, 'outputs of the block cipher library equal the terms of the standard, for symbolic key, table and mask'),
          'C15': (c15, 'packed, unpacked and ASN.1 forms of tables and ivs are the same terms before and after'),
          'C12': (c12, 'digest terms after copying, reinitialising and controlling contexts equal the terms of the message each context was given')}
