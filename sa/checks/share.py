"""C31: concurrent use. Once the engine is bound, operations change nothing that two calls share."""
import terms as t
from terms import c, ptr, isc, NULL
import interp
import models
from project import *
from checks import life, symm, store, errs, rbg, keys
from checks.glob import bind, lookup, OFFERS

# libc functions that keep state between calls
STATEFUL = {'strtok', 'gmtime', 'localtime', 'asctime', 'ctime', 'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'setlocale', 'tmpnam', 'strerror', 'strsignal',
            'getpwnam', 'getpwuid', 'gethostbyname', 'inet_ntoa', 'ecvt', 'fcvt', 'l64a', 'ttyname', 'readdir', 'getenv_', 'putenv', 'setenv', 'hsearch', 'basename', 'dirname', 'ptsname',
            'wcstombs_', 'mblen', 'signgam'}
# one-shot functions of libcrypto that answer in memory of their own when given none
ANSWER = {'SHA1': 2, 'SHA224': 2, 'SHA256': 2, 'SHA384': 2, 'SHA512': 2, 'MD4': 2, 'MD5': 2, 'RIPEMD160': 2, 'HMAC': 5}
KEYS_ONLY_READ = ('sign', 'verify', 'encode', 'compare', 'print', 'size', 'bits')


class Shim:
    """runs the scenarios of other checks for their effects alone"""

    def __init__(self, ctx):
        self._c = ctx
        self.proj = Proj(ctx)
        self.violations, self.undecided, self.scen, self.extra, self.known = [], ctx.undecided, [], {}, []
        self.thorough, self.tier, self.pid = False, 'quick', ctx.pid

    def scenario(self, name):
        self.scen.append(name)
        self._c.scenario(name)

    def obl(self, rule, ok, where, detail='', st=None):
        return bool(ok)

    def viol(self, *a, **k):
        self.violations.append(a)

    def need(self, ok, why=''):
        pass


class Proj:
    """machines that start from the state after binding and report every write to a variable of the module"""

    def __init__(self, ctx):
        self.__dict__.update(c_=ctx, p_=ctx.proj)

    def __getattr__(self, k):
        return getattr(self.p_, k)

    def machine(self, **cfg):
        m = self.p_.machine(**cfg)
        ready(self.c_, m)
        return m


def bound(ctx):
    """states after binding, made once per worker"""
    if not hasattr(ctx, '_bound'):
        m = ctx.proj.machine(keep='all')
        errs.hooks(m)
        st = interp.Machine.initial(m)
        e = obj(st, 'ENGINE', 'ENGINE', owned=False)
        obj(st, 'NAMES', 'names')
        obj(st, 'dynamic_fns', None, kind='arg', default='input')
        ctx._bound = [s for s, r in bind(m, st, e) if life.pos(r, s)]
        ctx.need(ctx._bound, 'the engine does not bind')
    return ctx._bound


def ready(ctx, m):
    errs.hooks(m)
    base = bound(ctx)[0]

    def initial():
        s = base.fork()
        for r in s.mem.values():
            r.owned = False
        return s

    def access(m_, s, r, why):
        if r.kind == 'global' and r.rid.startswith('g:') and not rbg.reading(why) and ' by ' not in why and not rbg.in_once(m_, s):
            written(ctx, m_, s, r, why)
    m.initial = initial
    m.hooks['access'] = access


def written(ctx, m, s, r, why):
    if rbg.held(s, 2) or m.mod.globs[r.rid[2:]].tls:
        return
    ctx.obl('writes-nothing-shared', False, m.site() or (m.stack[-1] if m.stack else '?'),
            '%s: %s writes the variable %s that all calls share, under no lock' % (ctx.scen[-1] if ctx.scen else '', m.stack[-1] if m.stack else '?', r.rid[2:]), s)


def content(s, rid):
    """what a key consists of, as far as others who use it can see"""
    out, seen, work = {}, set(), [rid]
    while work:
        x = work.pop()
        if x in seen or x not in s.mem:
            continue
        seen.add(x)
        r = s.mem[x]
        out[x] = (r.status, tuple(sorted((k, str(v)) for k, v in r.cells.items())), tuple(sorted((k, str(v)) for k, v in r.attrs.items())))
        work += list(r.refs())
    return out


@scen
def operation(ctx, name, fl):
    fn, build, good, back, cfg = life.ops(ctx)[name]
    nm = name + (', with a failing step' if fl else '')
    ctx.scenario(nm)
    cfg = dict(cfg)
    hooks = cfg.pop('hooks', {})
    cfg.pop('skip', ())
    cfg = dict(dict(keep='all'), **cfg)
    m = ctx.proj.machine(callevents=True, **dict(dict(faults=True, alloc_fail=True, max_faults=1) if fl else {}, **cfg))
    ready(ctx, m)
    st = m.initial()
    a = build(st)
    m.hooks.update(hooks)
    ks = [r.rid for r in st.mem.values() if r.typ == 'EVP_PKEY' and r.site == 'caller']
    ro = name.startswith(KEYS_ONLY_READ)
    was = {k: content(st, k) for k in ks} if ro else {}
    n = 0
    for s, r in m.call_fn(fn, a, st):
        n += 1
        ctx.obl('writes-nothing-shared', True, fn)
        for k, v in was.items():
            ctx.obl('key-only-read', content(s, k) == v, fn, nm + ': the operation changes the key it uses, which another thread may be using', s)
    ctx.need(n or m.problems, name + ': no analysable path')


@scen
def effects(ctx, what, fn, args):
    sh = Shim(ctx)
    n = len(ctx.scen)
    fn(sh, *args)
    ctx.need(len(ctx.scen) > n, what + ': nothing was analysed')
    ctx.obl('writes-nothing-shared', True, ctx.scen[-1])


@scen
def load(ctx, name, fl):
    what = 'loading ' + name + (', with a failing step' if fl else '')
    ctx.scenario(what)
    sh = Shim(ctx)
    m, st, fn, a, ks, certs, least = store.loads(sh)[name](**(dict(faults=True, alloc_fail=True, max_faults=1) if fl else {}))
    n = 0
    for s, r in m.call_fn(fn, a, st):
        n += 1
        ctx.obl('writes-nothing-shared', True, fn)
    ctx.need(n or m.problems, what + ': no analysable path')


@scen
def lookups(ctx, k):
    what = 'looking up the %s of the engine' % k
    ctx.scenario(what)
    algs, typ, _ = OFFERS[k]
    m = ctx.proj.machine(keep='all')
    ready(ctx, m)
    st = m.initial()
    for j, a in enumerate(algs):
        for s, r, p in lookup(m, st.fork(), ptr('ENGINE'), k, nid(a), j):
            ctx.obl('writes-nothing-shared', True, k)
            ctx.obl('lookup-finds-it-ready', p is not None and p.op == 'p', k, '%s: %s is not found' % (what, a), s)


def stateful(ctx):
    """no function with hidden state is called anywhere"""
    ctx.scenario('calls of functions that keep state of their own')
    for f in ctx.proj.mod.funcs.values():
        for b in f.blocks.values():
            for i in b:
                if i.op != 'call' or i.x[0] != 'f':
                    continue
                g = i.x[1]
                hidden = g in STATEFUL or g in ANSWER and len(i.ops) > ANSWER[g] and i.ops[ANSWER[g]] in (('c', 0, 64), ('null',), ('zero', 64))
                ctx.obl('calls-nothing-with-hidden-state', not hidden, f.name, '%s calls %s, which answers in state that all threads share' % (f.name, g))


def jobs(ctx):
    out = [(stateful, ())] + [(lookups, (k,)) for k in OFFERS]
    out += [(operation, (n, f)) for n in sorted(life.ops(ctx)) for f in (False, True)]
    out += [(load, (n, f)) for n in sorted(store.loads(ctx)) for f in ((False, True) if ctx.thorough else (False,))]
    E = []
    E += [(symm.digest, ((33, 31),)), (symm.digest, ((5, 40),)), (symm.md_reinit, (True,)), (symm.md_cleanup, ())]
    E += [(symm.md_copy, (4, h)) for h in ('the original freed', 'the original continued', 'the original given another table')]
    E += [(symm.md_ctrl, (w,)) for w in ('custom table', 'no table', 'table of 63 bytes', 'unknown code')]
    E += [(symm.cipher_chunks, (e, x, False)) for e in (1, 0) for x in ((9,), (3, 5, 8))]
    E += [(symm.cipher_init, (1, h, '', 0)) for h in symm.INITS] + [(symm.cipher_init, (1, 'all at once', 'after', 3)), (symm.cipher_init, (0, 'key then iv', 'before', 0))]
    E += [(symm.cipher_ctrl, ('no table',)), (symm.cipher_final, (1,))]
    E += [(symm.params_written, (b, 3, 1)) for b in ('default', 'custom')] + [(symm.params_read, (1, 'key set later'))] + [(symm.params_refused, (w,)) for w in symm.BAD]
    E += [(symm.block, (w,)) for w in symm.BLOCKS] + [(symm.sbox_lib, (w,)) for w in ('packed again', 'read back from a cipher context', 'unpacked')]
    E += [(store.container, (2, 1)), (store.append, ((1, 1), (1, 2))), (store.null_free, ())]
    E += [(store.reader, (p, h, (1024, 9), 1)) for p in store.READ for h in ('stream', 'file')]
    return out + [(effects, (f.__name__, f, a)) for f, a in E]


def c31(ctx):
    symm.control_code(ctx)
    ctx.par(jobs(ctx))


CHECKS = {
    'C31': (c31, 'Effect analysis by abstract interpretation of every operation from the state after binding, with and without a failing step: no path writes a variable of the module except under a lock '
            'or in thread-local storage, operations that only use a key leave every byte and part of it as it was, and no called function keeps state of its own (query over all call sites).'),
}
