"""Project facts: entry points found through the registration code itself (never by
the names of static functions), and builders for abstract input objects."""
import re
import frontend, interp, models
import terms as t
from terms import c, sym, app, ptr, isc, NULL, T
from interp import Region
from frontend import AnalysisBroken
import functools, sys, traceback


def scen(fn):
    """one scenario: an exhausted budget or a construct the transfer functions cannot handle leaves it undecided, never decided"""
    @functools.wraps(fn)
    def g(ctx, *a, **k):
        try:
            return fn(ctx, *a, **k)
        except interp.Budget as e:
            why = 'budget: %s' % e
        except AnalysisBroken:
            raise
        except Exception as e:
            traceback.print_exc(file=sys.stderr)
            why = 'internal: %r' % e
        ctx.undecided.append(dict(rule='scenario', where=ctx.scen[-1] if ctx.scen else fn.__name__, detail='', because=[why]))
    return g

_nids = {}


def objmac():
    return open('/usr/include/openssl/obj_mac.h').read()


def nid(name):
    if not _nids:
        txt = objmac()
        for mm in re.finditer(r'#\s*define\s+NID_(\w+)\s+(\d+)', txt):
            _nids[mm.group(1)] = int(mm.group(2))
    return _nids[name]


_defs = {}


def const(header, name):
    if header not in _defs:
        txt = open('/usr/include/openssl/%s' % header).read()
        _defs[header] = dict((a, b) for a, b in re.findall(r'#\s*define\s+(\w+)\s+\(?(0x[0-9a-fA-F]+|\d+|-\d+)', txt))
    return int(_defs[header][name], 0)


class Project:
    def __init__(self, repo=None):
        self.mod = frontend.load(repo) if repo else frontend.load()
        self._tables = None
        self.machines = []
        self.merged = None

    def machine(self, **cfg):
        cfg.setdefault('binary_field', nid('X9_62_characteristic_two_field'))
        m = interp.Machine(self.mod, models.M, **cfg)
        self.machines.append(m)
        return m

    # ------------------------------------------------------------ entry points
    def engine_state(self, m=None):
        """state after the dynamic-loader entry bound the engine: (m, st, engine ptr)"""
        m = m or self.machine()
        st = m.initial()
        e = obj(st, 'ENGINE', 'ENGINE', owned=False)
        binders = [f for f in ('bind_engine',) if f in self.mod.funcs]
        if not binders:
            raise AnalysisBroken('no bind_engine entry point')
        # bind_engine(e, id, fns): callbacks of the loader are opaque
        fns = obj(st, 'dynamic_fns', None, kind='arg', default='input')
        m.hooks['indirect'] = lambda m_, s, cal, a: [(s, c(1, 32))]
        outs = m.call_fn('bind_engine', [e, NULL, fns], st)
        m.hooks.pop('indirect')
        good = [s for s, r in outs if r is not None and isc(r) and r.a == 1]
        if not good:
            raise AnalysisBroken('engine binding never succeeds')
        return m, good[0], e

    def tables(self):
        if self._tables is not None:
            return self._tables
        m, st, e = self.engine_state()
        A = st.mem['ENGINE'].attrs
        T_ = {'engine': {}, 'pmeth': {}, 'ameth': {}, 'md': {}, 'cipher': {}, 'rand': {}}
        for k in ('init_function', 'finish_function', 'digests', 'ciphers', 'pkey_meths', 'pkey_asn1_meths', 'ctrl_function', 'destroy_function'):
            v = A.get('m:' + k)
            if v and v[0].op == 'fn':
                T_['engine'][k] = v[0].a
        rnd = A.get('m:RAND')
        if rnd and rnd[0].op == 'p':
            for i, k in enumerate(('seed', 'bytes', 'cleanup', 'add', 'pseudorand', 'status')):
                v = m.load(st, t.add(rnd[0], c(8 * i, 64)), 64)
                if v is not None and v.op == 'fn':
                    T_['rand'][k] = v.a
            T_['rand_ptr'] = rnd[0]

        def get(fn, n):
            s = st.fork()
            out = cells(s, 'out', 8)
            for s2, r in m.call_fn(fn, [e, out, NULL, c(n, 32)], s):
                if isc(r) and r.a == 1:
                    v = m.load(s2, out, 64)
                    if v.op == 'p' and v.a[0] in s2.mem:
                        return {k[2:]: tuple(x.a if x.op == 'fn' else x for x in vv)
                                for k, vv in s2.mem[v.a[0]].attrs.items() if k.startswith('m:')} | {'ctor': s2.mem[v.a[0]].attrs.get('ctor')}
            return None
        for nm, n in (('le', nid('dstu4145le')), ('be', nid('dstu4145be'))):
            for kind, fnk in (('pmeth', 'pkey_meths'), ('ameth', 'pkey_asn1_meths')):
                fn = T_['engine'].get(fnk)
                x = get(fn, n) if fn else None
                if x is None:
                    raise AnalysisBroken('engine offers no %s for %s' % (kind, nm))
                T_[kind][nm] = x
        for kind, fnk, n in (('md', 'digests', nid('dstu34311')), ('cipher', 'ciphers', nid('dstu28147_cfb'))):
            fn = T_['engine'].get(fnk)
            x = get(fn, n) if fn else None
            if x is None:
                raise AnalysisBroken('engine offers no ' + kind)
            T_[kind] = x
        self._tables = T_
        return T_

    def fn(self, *path):
        """function registered at e.g. ('pmeth','le','verify',1)"""
        x = self.tables()
        for k in path:
            try:
                x = x[k]
            except (KeyError, IndexError):
                raise AnalysisBroken('no function registered for %s' % (path,))
        if not isinstance(x, str) or x not in self.mod.funcs:
            raise AnalysisBroken('no function registered for %s' % (path,))
        return x

    def layout(self):
        """field offsets of the key and key-context structures, found by running their constructors and setters abstractly"""
        if getattr(self, '_lay', None):
            return self._lay
        L = dict(ec=0, sbox=8, type=0, group=8, csbox=16, ksize=16, csize=24)
        m = self.machine()
        if 'DSTU_KEY_new' in self.mod.funcs:
            for s, r in m.call_fn('DSTU_KEY_new', [], m.initial()):
                if r.op == 'p' and r.a[0] in s.mem:
                    R = s.mem[r.a[0]]
                    offs = [o for o, (v, i) in R.cells.items() if i == 0 and v.op == 'p' and s.mem[v.a[0]].typ == 'EC_KEY']
                    if len(offs) == 1 and isc(R.size):
                        L['ec'] = offs[0]
                        L['ksize'] = R.size.a
                        rest = [o for o in range(0, R.size.a, 8) if o != offs[0]]
                        L['sbox'] = rest[0] if rest else 8
        ini = self.fn('pmeth', 'le', 'init', 0)
        ctl = self.fn('pmeth', 'le', 'ctrl', 0)
        st = m.initial()
        pc = obj(st, 'lay.pctx', 'EVP_PKEY_CTX', pkey=NULL, data=NULL)
        for s, r in m.call_fn(ini, [pc], st):
            d = s.mem['lay.pctx'].attrs.get('data')
            if not (isc(r) and r.a == 1) or d is None or d.op != 'p':
                continue
            R = s.mem[d.a[0]]
            if not isc(R.size):
                continue
            L['csize'] = R.size.a
            for o in range(0, R.size.a - 3, 4):
                v = m.load_at(s, R, o, 4, 32)
                if isc(v) and v.a == nid('dstu4145le'):
                    L['type'] = o
            for key, cmd, p1, mk in (('group', ctrl_no('DSTU_SET_CURVE'), 0, lambda x: group(x, 'lay.G')),
                                     ('csbox', ctrl_no('DSTU_SET_CUSTOM_SBOX'), 64, lambda x: buf(x, 'lay.S', 64))):
                s2 = s.fork()
                for s3, r3 in m.call_fn(ctl, [ptr('lay.pctx'), c(cmd, 32), c(p1, 32), mk(s2)], s2):
                    if isc(r3) and r3.a == 1:
                        R3 = s3.mem[d.a[0]]
                        offs = [o for o, (v, i) in R3.cells.items() if i == 0 and v.op == 'p']
                        if len(offs) == 1:
                            L[key] = offs[0]
        self._lay = L
        LAY.update(L)
        return L

    def stats(self):
        v, cs, ob, mg, wd, stp, um = self.raw()
        return dict(functions=sorted(v), call_sites=len(cs), memory_obligations=ob, merges=mg, widenings=wd, transfer_steps=stp,
                    unmodelled_externals=sorted(um))

    def merge(self, raw):
        a = self.merged
        self.merged = raw if a is None else tuple(x | y if isinstance(x, set) else x + y for x, y in zip(a, raw))

    def raw(self):
        v, cs, ob, mg, wd, stp = set(), set(), 0, 0, 0, 0
        um = set()
        if self.merged:
            v, cs, ob, mg, wd, stp, um = (set(x) if isinstance(x, set) else x for x in self.merged)
        for m in self.machines:
            v |= m.visited
            cs |= m.callsites
            ob += m.mem_obl
            mg += m.merges
            wd += m.widenings
            stp += m.steps
            um |= m.unmodelled
        return v, cs, ob, mg, wd, stp, um


# ------------------------------------------------------------------ builders
def obj(st, rid, typ, kind='obj', owned=False, default='undef', size=None, **attrs):
    r = Region(rid, kind, size=size, default=default, typ=typ, owned=owned, site='caller')
    r.tok = st.tok
    r.attrs.update(attrs)
    st.mem[rid] = r
    return ptr(rid)


def buf(st, name, n, default='input'):
    return obj(st, name, None, kind='arg', size=c(n, 64) if isinstance(n, int) else n, default=default)


def cells(st, name, n, default='zero'):
    return obj(st, name, None, kind='arg', size=c(n, 64), default=default)


def put(st, p, off, v):
    """store term v (8/32/64 bit) at constant offset"""
    r = st.w(p.a[0])
    n = max(1, v.w // 8)
    for i in range(n):
        r.cells[off + i] = (v, i) if n > 1 else (v, 0)


def cstr(st, text):
    rid = 'str:' + text
    p = obj(st, rid, None, kind='arg', size=c(len(text) + 1, 64), default='zero')
    for i, ch in enumerate(text.encode()):
        st.w(rid).cells[i] = (c(ch, 8), 0)
    return p


def group(st, rid='G', val=None):
    return obj(st, rid, 'EC_GROUP', grp=val if val is not None else app('G'))


def bn(st, rid, val):
    return obj(st, rid, 'BIGNUM', val=val)


def point(st, rid, val):
    return obj(st, rid, 'EC_POINT', pt=val)


def eckey(st, rid='EC', grp=None, priv=True, pub=True, gval=None):
    g = group(st, rid + '.group', gval) if grp is None else grp
    a = dict(group=g)
    a['priv'] = bn(st, rid + '.priv', app('d')) if priv is True else (priv or NULL)
    a['pub'] = point(st, rid + '.pub', app('Q')) if pub is True else (pub or NULL)
    return obj(st, rid, 'EC_KEY', **a)


LAY = dict(ec=0, sbox=8, type=0, group=8, csbox=16, ksize=16, csize=24)


def ctrl_no(name):
    """value of a project control command (public header)"""
    import os
    txt = open(os.path.join(frontend.REPO, 'engine', 'control.h')).read()
    mm = re.search(r'#\s*define\s+%s\s+\(?(.+?)\)?\s*(?:/[*/].*)?$' % name, txt, re.M)
    if not mm:
        raise AnalysisBroken('control command %s is not defined' % name)
    e = mm.group(1)
    e = re.sub(r'EVP_\w+', lambda m: str(const('evp.h', m.group(0))), e)
    return eval(e, {'__builtins__': {}})


def keyctx(st, kind, rid='kctx', grp=NULL, sbox=NULL):
    k = obj(st, rid, None, kind='heap', size=c(LAY['csize'], 64), default='zero')
    put(st, k, LAY['type'], c(nid('dstu4145' + kind), 32))
    put(st, k, LAY['group'], grp)
    put(st, k, LAY['csbox'], sbox)
    return k


def dstukey(st, rid='KEY', ec=None, sbox=None, **kw):
    """DSTU_KEY {EC_KEY *ec; unsigned char *sbox}"""
    e = eckey(st, rid + '.ec', **kw) if ec is None else ec
    k = obj(st, rid, None, kind='heap', size=c(LAY['ksize'], 64))
    put(st, k, LAY['ec'], e)
    put(st, k, LAY['sbox'], sbox if sbox is not None else NULL)
    return k


# the default substitution table ("DKE No. 1", packed two entries per byte) every implementation of the national standards assumes
DEFAULT_SBOX = bytes.fromhex('a9d6eb45f13c708280c4967b231f5eadf658eba4c037291d38d96bf025ca4e17'
                             'f8e9720dc615b43a28975f0bc1dea36438b564ea2c179fd0123e6db8fac57904')


def dflt():
    return [c(x, 8) for x in DEFAULT_SBOX]


def bts(name, lo, hi, d='input'):
    return [sym('%s[%d]@%s' % (name, i, d), 8) for i in range(lo, hi)]


def failed(st):
    return [e for e in st.events if e[0] in ('fail', 'reject')]
