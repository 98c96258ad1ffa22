"""C30: what printing and describing a key shows."""
import terms as t
from terms import c, sym, app, ptr, isc, NULL
import models
from project import *
from checks.life import KINDS, pos, pkey, empty, nogroup

SLOT = {'param': 5, 'public': 3, 'private': 2}
SHOWS = {'param': 'EVP_PKEY_print_params', 'public': 'EVP_PKEY_print_public', 'private': 'EVP_PKEY_print_private'}
PARTS = ('group', 'pub', 'priv')


def parts(st, p):
    return [st.mem[p.a[0]].attrs.get(k) for k in PARTS] if p is not None and p.op == 'p' and p.a[0] in st.mem else None


def hidden(st, q, full):
    """a stand-in showing the same curve and point without the private value"""
    x = parts(st, q)
    return x is not None and x[:2] == full[:2]


@scen
def show(ctx, kind, what, indent, pub=True):
    P = ctx.proj
    am = P.tables()['ameth'][kind]
    if len(am.get(what, ())) <= SLOT[what] or am[what][SLOT[what]] not in P.mod.funcs:
        ctx.undecided.append('no function prints ' + what)
        return
    fn = am[what][SLOT[what]]
    name = 'print %s/%s at indentation %d%s' % (what, kind, indent, '' if pub else ', key without public and private part')
    ctx.scenario(name)
    m = P.machine(keep='all', callevents=True, faults=True, alloc_fail=True, max_faults=2)
    st = m.initial()
    k = pkey(st, kind, gval=app('G'), **({} if pub else dict(pub=False, priv=False)))
    ec = ptr('pkey.key.ec')
    full, key0 = parts(st, ec), st.mem['pkey'].attrs.get('key')
    ctx.need(full is not None, name + ': the key object was not recognised')
    out = obj(st, 'bio', 'BIO')
    m.hooks['printed'] = lambda m, s, who, a, eck, v: s.ghost.update(shown=s.ghost.get('shown', ()) + ((who, a[0], eck, a[2], v),))
    good = False
    for s, r in m.call_fn(fn, [out, k, c(indent, 32), NULL], st):
        sh = s.ghost.get('shown', ())
        ctx.obl('key-left-as-it-was', parts(s, ec) == full and s.mem['pkey'].attrs.get('key') is key0, fn, name + ': printing changes the key', s)
        if what != 'private':
            ctx.obl('private-value-not-shown', all(x[0] != SHOWS['private'] for x in sh), fn, name + ': the private value is printed', s)
        for who, o, eck, ind, v in sh:
            ctx.obl('printed-to-the-given-output', o is out, fn, name + ': text goes somewhere else', s)
            if who != SHOWS['private'] or what == 'private':
                ctx.obl('prints-this-key', eck is not None and (parts(s, eck) == full or who != SHOWS['private'] and hidden(s, eck, full)),
                        fn, name + ': what is printed is not this key', s)
        if pos(r, s):
            done = [x for x in sh if x[0] == SHOWS[what]]
            ctx.obl('printed-what-was-asked', len(done) == len(sh) == 1 and isc(done[0][4]) and t.sval(done[0][4]) > 0, fn,
                    name + ': success without the text having been written once (%d times)' % len(done), s)
            ctx.obl('indented-as-asked', all(x[3] is c(indent, 32) for x in done), fn, name + ': another indentation', s)
            good = True
        for p in ([] if isc(r) else [r]):
            ctx.obl('printed-what-was-asked', s.decide(t.slt(c(0, 32), p)) is not None, fn, name + ': the result does not say whether it was printed', s)
    ctx.obl('can-be-printed', good or bool(m.problems), fn, name + ': no analysed path prints it')


@scen
def bits(ctx, kind, deg):
    fn = ctx.proj.fn('ameth', kind, 'public', 5)
    name = 'bit length/%s m=%d' % (kind, deg)
    ctx.scenario(name)
    for w, mk in (('a key', lambda st: pkey(st, kind, gval=app('G'))), ('an empty key', lambda st: empty(st, kind)), ('a key without a curve', lambda st: nogroup(st, kind))):
        m = ctx.proj.machine(keep='all', degree=lambda g: deg)
        st = m.initial()
        for s, r in m.call_fn(fn, [mk(st)], st):
            want = deg if w == 'a key' else 0
            ctx.obl('bit-length-of-the-curve', isc(r) and r.a == want, fn, '%s, %s: reported as %s instead of %d bits' % (name, w, r.a if isc(r) else r, want), s)
        ctx.obl('nothing-invalid-used', not m.problems, fn, '%s, %s: %s' % (name, w, (m.problems or [''])[0]))


def c30(ctx):
    jobs = [(show, (k, w, i, p)) for k in KINDS for w in SLOT for i in ((0, 4) if not ctx.thorough else (0, 1, 4, 128)) for p in (True, False)]
    jobs += [(bits, (k, d)) for k in KINDS for d in (163, 167, 173, 179, 191, 233, 257, 307, 367, 431)]
    ctx.par(jobs)


CHECKS = {
    'C30': (c30, 'Abstract interpretation of the printing and describing methods with libcrypto\'s EC printing as an abstract effect: on every path the effect must concern exactly this key\'s curve, point and '
            'private value, the output and indentation given, only the part asked for, and success must coincide with the text having been written; the bit length is the degree term of the key\'s curve.'),
}
