"""C16 locking of the random generator, C17 what it generates."""
import terms as t
from terms import c, sym, app, ptr, isc, NULL
import models
from project import *
from checks.symm import g_block, default_rows, same, peek, word

METHODS = ('bytes', 'pseudorand', 'status', 'cleanup', 'seed', 'add')


def args(st, what, n, k):
    if what in ('bytes', 'pseudorand'):
        return [obj(st, 'out%d' % k, None, kind='arg', size=c(n, 64)), c(n, 32)]
    if what == 'seed':
        return [buf(st, 'in%d' % k, 16), c(16, 32)]
    if what == 'add':
        return [buf(st, 'in%d' % k, 16), c(16, 32), sym('entropy', 64)]
    return []


def offered(ctx):
    r = ctx.proj.tables()['rand']
    ctx.need('bytes' in r, 'the engine registers no random generator')
    return r


def reading(why):
    return why == 'read' or why.endswith(' source')


# ------------------------------------------------------------------ C16
def c16(ctx):
    R = offered(ctx)
    seqs = [(a,) for a in METHODS if a in R] + [('bytes', 'bytes'), ('status', 'bytes'), ('bytes', 'status'), ('cleanup', 'bytes'), ('bytes', 'cleanup', 'bytes'), ('bytes', 'cleanup', 'cleanup'),
                                                ('bytes', 'cleanup', 'status'), ('status', 'cleanup', 'bytes'), ('seed', 'bytes'), ('add', 'status', 'bytes')]
    seqs = [s for s in seqs if all(x in R for x in s)]
    # shared state: module variables any generator method writes
    shared = set()
    for q in seqs:
        if len(q) == 1:
            shared |= written(ctx, R, q)
    ctx.extra['shared_generator_state'] = sorted(shared)
    ctx.need(shared, 'the generator keeps no state')
    ctx.par([(locked, (R, q, fl, shared)) for q in seqs for fl in ((), ('L',), ('A',), ('P',))])


def config(fl):
    return dict(faults=bool(fl), alloc_fail='A' in fl, max_faults=1)


def run(ctx, R, q, fl, on_access=None, keep=None):
    m = ctx.proj.machine(keep='all', callevents=True, fault_classes=fl, **config(fl))
    st = m.initial()
    ss = [(st, None)]
    hist = []
    for k, w in enumerate(q):
        nxt = []
        for s, _ in ss:
            m.hooks['access'] = on_access and (lambda m_, s_, r, why, w=w: on_access(m_, s_, r, why, w))
            nxt += m.call_fn(R[w], args(s, w, 1, k), s)
            m.hooks.pop('access', None)
        ss = nxt
        hist.append(ss)
    return m, ss


def written(ctx, R, q):
    """module variables whose contents a call writes, outside one-time initialisation"""
    out = set()

    def acc(m, s, r, why, w):
        if r.kind == 'global' and not reading(why) and not in_once(m, s):
            out.add(r.rid)
    run(ctx, R, q, (), acc)
    return out


def in_once(m, s):
    return any(f in m.__dict__.get('once_fns', ()) for f in m.stack)


def held(s, mode=1):
    return {rid for rid, r in s.mem.items() if r.typ == 'LOCK' and r.attrs.get('held', 0) >= mode}


@scen
def locked(ctx, R, q, fl, shared):
    name = 'random generator: %s%s' % (', then '.join(q), {'L': ', the lock may fail', 'A': ', an allocation may fail', 'P': ', seeding may fail', '': ''}[''.join(fl)])
    ctx.scenario(name)
    seen = []

    def acc(m, s, r, why, w):
        if r.rid in shared and not in_once(m, s):
            hs = held(s, 1 if reading(why) else 2)
            seen.append((m.site(), r.rid, frozenset(hs), reading(why), w))
            ctx.obl('state-only-under-lock', bool(hs), R[w], '%s: %s of %s at %s without %s lock held' % (
                name, 'read' if reading(why) else 'write', r.rid[2:], m.site(), 'any' if reading(why) else 'the exclusive'), s)
    m, outs = run(ctx, R, q, fl, acc)
    for s, r in outs:
        h = held(s)
        ctx.obl('lock-released', not h, R[q[-1]], name + ': returns with the lock held', s)
        bad = [e for e in s.events if e[0] == 'reenter-held']
        ctx.obl('no-reentry-under-lock', not bad, R[q[-1]], '%s: %s asks the library for random bytes while holding the lock, which comes back here' % (name, bad and bad[0][1:]), s)
    for pr in m.problems:
        ctx.obl('generator-memory-safe', False, pr[1], '%s: %s %s' % (name, pr[0], pr[2]), pr[4])
    if not fl:
        locks = [x for x in (s[2] for s in seen) if x]
        common = frozenset.intersection(*locks) if locks else frozenset()
        ctx.obl('one-lock-guards-all', bool(common) or not seen, R[q[-1]], name + ': different locks guard the generator state')
        ctx.need(outs or m.problems, name + ': no analysable path')


# ------------------------------------------------------------------ C17
def generator(rows, seed, now):
    """DSTU 4145 generator: I = E(time); each bit x = E(I xor s), s = E(x xor I)"""
    key, s = seed[:32], seed[32:40]
    I = g_block(rows, key, now)

    def x8(a, b):
        return [t.xor(p, q) for p, q in zip(a, b)]
    while True:
        bs = ()
        for _ in range(8):
            x = g_block(rows, key, x8(I, s))
            s = g_block(rows, key, x8(x, I))
            bs += (t.bits(x[0])[0],)
        yield t.mkb(bs)


def seedsyms(s):
    out = {}
    for e in s.events:
        if e[0] == 'seed-sym':
            out[e[1]] = e[2]
    return out


@scen
def output(ctx, R, q):
    """q: tuple of ('bytes', n) / ('status',) / ('cleanup',)"""
    name = 'random generator: ' + ', '.join('%s%s' % (x[0], '(%d)' % x[1] if len(x) > 1 else '') for x in q)
    ctx.scenario(name)
    m = ctx.proj.machine(keep='all', callevents=True)
    ss = [(m.initial(), None)]
    spills = []

    def drop(m_, st, r):
        for o, (v, i) in r.cells.items():
            if v.op == 's' and str(v.a).startswith('seed') or v.w > 8 and any(x.op == 's' and str(x.a).startswith('seed') for x in t.atoms(v)) and v.op in ('s', 'b') and simple(v):
                spills.append((m_.stack[-1] if m_.stack else '', r.rid, st))
                return
    m.hooks['stack_drop'] = drop
    rows = default_rows()
    gen, nseed = None, 0
    for k, x in enumerate(q):
        w = x[0]
        n = x[1] if len(x) > 1 else 1
        nxt = []
        for s, _ in ss:
            nxt += m.call_fn(R[w], args(s, w, n, k), s)
        ss = nxt
        ctx.need(ss or m.problems, name + ': no analysable path')
        if len(ss) != 1:
            ctx.undecided.append(dict(rule='generator-output', where=R[w], detail=name, because=['%d paths' % len(ss)]))
            break
        s, r = ss[0]
        if w in ('bytes', 'pseudorand', 'status'):
            ctx.obl('generator-succeeds', r is not None and isc(r) and r.a == 1, R[w], '%s: %s fails though seeding works' % (name, w), s)
        if w == 'cleanup':
            left = []
            for rid, g in s.mem.items():
                if g.kind == 'global':
                    for o, (v, i) in g.cells.items():
                        if any(y.op == 's' and str(y.a).startswith(('seed', 'time')) for y in t.atoms(v)):
                            left.append('%s+%d' % (rid[2:], o))
                            break
            ctx.obl('cleanup-wipes-state', not left, R[w], name + ': generator state is left in ' + ', '.join(left), s)
            gen = None
            continue
        if gen is None:
            sd = [e[1] for e in s.events if e[0] == 'seed-sym']
            tm = [e[1] for e in s.events if e[0] == 'time-sym']
            new = [e for e in sd if e[0] > nseed]
            fresh = sorted(sd)[-1] if sd else None
            if not ctx.obl('generator-is-seeded', fresh is not None and len(sd) == nseed + 1 and fresh[2] >= 40, R[w], name + ': no fresh seed of 40 bytes is drawn', s):
                break
            nseed += 1
            now = sorted(tm)[-1][1] if tm else None
            seed = [sym('%s[%d]' % (fresh[1], i), 8) for i in range(40)]
            if now is None:
                ctx.undecided.append(dict(rule='generator-output', where=R[w], detail=name, because=['the clock is not read with time()']))
                break
            gen = generator(rows, seed, [t.byte(now, i) for i in range(8)])
        if w in ('bytes', 'pseudorand'):
            want = [next(gen) for _ in range(n)]
            same(ctx, 'output-is-dstu-generator', peek(m, s, 'out%d' % k, n), want, R[w], name + ': the output is not the one the DSTU 4145 generator produces from its seed', s)
    for f, rid, st in spills[:1]:
        ctx.obl('seed-wiped', False, f, name + ': the seed is left on the stack in ' + rid, st)
    ctx.obl('seed-wiped', not spills, R['bytes'], name)
    for pr in m.problems:
        ctx.obl('generator-memory-safe', False, pr[1], '%s: %s %s' % (name, pr[0], pr[2]), pr[4])


def simple(v):
    """a value that is a plain rearrangement of symbol bits"""
    return v.op == 's' or v.op == 'b' and all(len(b) <= 1 for b in v.a) and all(t._byid[z >> 7].op == 's' for b in v.a for z in b if z)


@scen
def fails_closed(ctx, R, q, fl):
    name = 'random generator: %s when %s may fail' % (', then '.join(q), 'seeding' if 'P' in fl else 'an allocation' if 'A' in fl else 'the lock')
    ctx.scenario(name)
    m, outs = run(ctx, R, q, fl)
    nf = 0
    for s, r in outs:
        if q[-1] not in ('bytes', 'pseudorand', 'status'):
            continue
        seeded = s.has('seeded')
        bad = [e for e in s.events if e[0] == 'fail']
        if not isc(r):
            ctx.obl('result-definite', False, R[q[-1]], name + ': result is not definite', s)
            continue
        if r.a == 1:
            ctx.obl('no-success-without-seed', bool(seeded), R[q[-1]], name + ': success is reported though the generator was never seeded', s)
        else:
            nf += 1
            ctx.obl('fails-only-on-fault', bool(bad), R[q[-1]], name + ': fails without a failing step', s)
    for pr in m.problems:
        ctx.obl('generator-memory-safe', False, pr[1], '%s: %s %s' % (name, pr[0], pr[2]), pr[4])
    ctx.need(outs or m.problems, name + ': no analysable path')


@scen
def forwards(ctx, R, w):
    name = 'random generator: %s hands the caller\'s entropy to the seeding generator' % w
    ctx.scenario(name)
    m = ctx.proj.machine(keep='all', callevents=True)
    st = m.initial()
    a = args(st, w, 1, 0)
    for s, r in m.call_fn(R[w], a, st):
        f = s.has('forward')
        ctx.obl('entropy-forwarded', any(e[2] is a[0] and e[3] is a[1] for e in f), R[w], name + ': it is dropped', s)
    problems_(ctx, m, name)


def problems_(ctx, m, name):
    for pr in m.problems:
        ctx.obl('generator-memory-safe', False, pr[1], '%s: %s %s' % (name, pr[0], pr[2]), pr[4])


def c17(ctx):
    R = offered(ctx)
    jobs = [(output, (R, q)) for q in ((('bytes', 2), ('bytes', 1)), (('status',), ('bytes', 1)), (('bytes', 1), ('status',), ('bytes', 1)),
                                       (('bytes', 1), ('cleanup',), ('bytes', 1)), (('pseudorand', 1), ('bytes', 2))) if all(x[0] in R for x in q)]
    for fl in (('P',), ('A',), ('L',)):
        jobs += [(fails_closed, (R, q, fl)) for q in (('bytes',), ('status',), ('bytes', 'bytes'), ('status', 'bytes'), ('pseudorand',), ('bytes', 'cleanup', 'bytes')) if all(x in R for x in q)]
    jobs += [(forwards, (R, w)) for w in ('seed', 'add') if w in R]
    ctx.par(jobs)


CHECKS = {'C16': (c16, 'lockset analysis of every path through the generator methods: shared state is accessed only with the exclusive lock held'),
          'C17': (c17, 'output terms equal the DSTU 4145 generator over the seed terms; success implies a seeding event on the path')}
