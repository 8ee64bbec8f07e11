"""The conversions between the {0,1} and {-1,1} descriptions are interpreted with symbolic fields, couplings and correlations at fixed
numbers of spins.  Parameters: substituting the change of variables in the energy, the difference between the old and the new energy must
not depend on any spin (so both describe the same distribution).  Correlations: the new averages must be the averages of the changed
variables.  Wrong codes of the target basis must not return."""
from fractions import Fraction
from .. import terms as T
from .. import interp as I
from ..project import Undecided
from .common import *

LEVEL = 'proof'
U = 'coniii.utils'
H, Q = Fraction(1, 2), Fraction(1, 4)


def run(ctx):
    ctx.rule('B1', 'converted parameters give every state the same energy as the original ones, up to one constant')
    ctx.rule('B2', 'converted parameters have the common layout (same orders, same lexicographic order)')
    ctx.rule('B3', 'converted correlations are the averages of the changed variables')
    ctx.rule('B4', 'an unknown target basis is refused')
    sizes = (2, 3, 4, 5) + ((6, 7) if ctx.tier == 'thorough' else ())
    sizes = sorted(set(sizes) | {c for c in cutoffs([r[2] for q in ('convert_params', 'ising_convert_params', 'convert_corr', 'unravel_index') for r in [ctx.find(U, q, False)] if r], 12) if c >= 2})
    for to in ('11', '01'):
        for n in sizes:
            for form in ('vector', 'matrix'):
                for cc in (False, True):
                    con = 'coniii/utils.py:convert_params to %s n=%d J as %s%s' % (to, n, form, ' concat' if cc else '')
                    ctx.guard('B1', con, pairwise, ctx, con, n, to, form, cc)
            for order in (1, 2, 3, 4):
                if order <= n and (order < 4 or n <= 5):
                    for cc in (False, True):
                        con = 'coniii/utils.py:ising_convert_params to %s n=%d order %d%s' % (to, n, order, ' concat' if cc else '')
                        ctx.guard('B1', con, general, ctx, con, n, to, order, cc)
            for cc in (False, True):
                for old in (False, True):
                    con = 'coniii/utils.py:convert_corr to %s n=%d%s%s' % (to, n, ' concat' if cc else '', ' (old keyword)' if old else '')
                    ctx.guard('B3', con, corr, ctx, con, n, to, cc, old)
    for q in ('convert_params', 'ising_convert_params', 'convert_corr'):
        con = 'coniii/utils.py:%s to "10"' % q
        ctx.guard('B4', con, refuse, ctx, con, q)
    for n in (3, 4, 5):
        con = 'coniii/utils.py:split_concat_params n=%d' % n
        ctx.guard('B2', con, split, ctx, con, n)


def combs(n, k):
    import itertools
    return list(itertools.combinations(range(n), k))


def energy(n, par, spin):
    """-sum of par[k][c] * product of spins; par: list over orders 1.. of dict combination -> term"""
    t = []
    for d in par:
        for c, p in d.items():
            x = p
            for i in c:
                x = T.mul(x, spin(i))
            t.append(x)
    return T.neg(T.addn(t))


def same_dist(ctx, con, n, to, old, new):
    """old parameters are in the other basis; new parameters in basis `to`"""
    s = lambda i: idx('x', i)
    if to == '11':
        o = energy(n, old, lambda i: T.mul(num(H), T.add(s(i), T.ONE)))
        kind = 'pm'
    else:
        o = energy(n, old, lambda i: T.sub(T.mul(num(2), s(i)), T.ONE))
        kind = '01'
    d = reduce_spins(T.sub(energy(n, new, s), o), ('x',), kind)
    left = [x for x in T.subterms(d) if x[0] == 'idx' and x[1] == 'x']
    if any(x[0] == 'opaque' for x in T.subterms(d)):
        ctx.undecided('B1', con, opaque_why(d))
    elif left:
        ctx.bad('B1', con, 'the energies before and after differ by a term that depends on the state: %s' % short(d))
    else:
        ctx.ok('B1', con, 'difference of energies is %s' % short(d, 80))


def elements(ctx, con, it, s, v, m):
    R = Run(it, s, v)
    d = R.dims()
    if d is None or None in d:
        raise Undecided('%s: not a fixed vector' % con)
    if d != (m,):
        ctx.bad('B2', con, 'shape %s instead of (%d,)' % (d, m))
        return None
    return [R[q] for q in range(m)]


def pairwise(ctx, con, n, to, form, cc):
    P = n * (n - 1) // 2

    def build(it, st):
        h = it.sym_array(st, 'h', (num(n),))
        if form == 'vector':
            J = it.new_arr(st, (num(P),), vec([idx('J', i, j) for i, j in pairs(n)]), 'float')
        else:
            J = sym_mat(it, st, 'J', n)
        return [h, J, ('str', to)], {'concat': T.TRUE} if cc else {}
    old = [{(i,): idx('h', i) for i in range(n)}, {(i, j): idx('J', i, j) for i, j in pairs(n)}]

    def judge(it, s, v):
        if cc:
            e = elements(ctx, con, it, s, v, n + P)
            if e is None:
                return
            h, J = e[:n], e[n:]
        else:
            xs = one_of(it, s, v, 2)
            if xs is None:
                raise Undecided('returned value')
            h, J = elements(ctx, con, it, s, xs[0], n), elements(ctx, con, it, s, xs[1], P)
            if h is None or J is None:
                return
        same_dist(ctx, con, n, to, old, [{(i,): h[i] for i in range(n)}, dict(zip(pairs(n), J))])
    evaluate(ctx, 'B1', con, U, 'convert_params', build, judge)


def general(ctx, con, n, to, order, cc):
    cs = [combs(n, k) for k in range(1, order + 1)]
    old = [{c: idx('p%d' % len(c), *c) for c in d} for d in cs]

    def build(it, st):
        ps = [it.new_arr(st, (num(len(d)),), vec([o[c] for c in d]), 'float') for d, o in zip(cs, old)]
        return [I.Tup(ps), ('str', to)], {'concat': T.TRUE} if cc else {}

    def judge(it, s, v):
        if cc:
            e = elements(ctx, con, it, s, v, sum(map(len, cs)))
            if e is None:
                return
            new = []
            for d in cs:
                new.append(dict(zip(d, e)))
                e = e[len(d):]
        else:
            xs = one_of(it, s, v, order)
            if xs is None:
                raise Undecided('returned value')
            new = []
            for d, x in zip(cs, xs):
                e = elements(ctx, con, it, s, x, len(d))
                if e is None:
                    return
                new.append(dict(zip(d, e)))
        same_dist(ctx, con, n, to, old, new)
    evaluate(ctx, 'B1', con, U, 'ising_convert_params', build, judge)


def corr(ctx, con, n, to, cc, old):
    P = n * (n - 1) // 2
    m = [idx('m', i) for i in range(n)]
    c = {p: idx('c', *p) for p in pairs(n)}
    if to == '11':
        ws = [T.sub(T.mul(num(2), a), T.ONE) for a in m]
        wc = [T.addn([T.mul(num(4), c[i, j]), T.mul(num(-2), m[i]), T.mul(num(-2), m[j]), T.ONE]) for i, j in pairs(n)]
    else:
        ws = [T.mul(num(H), T.add(a, T.ONE)) for a in m]
        wc = [T.mul(num(Q), T.addn([c[i, j], m[i], m[j], T.ONE])) for i, j in pairs(n)]

    def build(it, st):
        si = it.new_arr(st, (num(n),), vec(m), 'float')
        ss = it.new_arr(st, (num(P),), vec([c[p] for p in pairs(n)]), 'float')
        kw = {'concat': T.TRUE} if cc else {}
        if old:
            kw['convertTo'] = ('str', to)
        return [si, ss, T.NONE if old else ('str', to)], kw

    def judge(it, s, v):
        if cc:
            expect_vec(ctx, 'B3', con, it, s, v, ws + wc)
            return
        xs = one_of(it, s, v, 2)
        if xs is None:
            raise Undecided('returned value')
        expect_vec(ctx, 'B3', con + ' means', it, s, xs[0], ws)
        expect_vec(ctx, 'B3', con + ' pairs', it, s, xs[1], wc)
    evaluate(ctx, 'B3', con, U, 'convert_corr', build, judge)


def refuse(ctx, con, q):
    r = ctx.find(U, q)
    it = I.Interp(ctx.proj, unroll=4096)
    st = I.State()
    h = it.sym_array(st, 'h', (num(3),))
    J = it.sym_array(st, 'J', (num(3),))
    args = [I.Tup((h, J)), ('str', '10')] if q == 'ising_convert_params' else [h, J, ('str', '10')]
    outs = it.run(func(r), args, {}, st)
    bad = [s for s, o in outs if o[0] == 'ret']
    if bad and all(not s.pc for s in bad):
        ctx.bad('B4', con, 'returns a result')
    elif outs and not bad:
        ctx.ok('B4', con)
    else:
        ctx.undecided('B4', con, 'conditional')


def split(ctx, con, n):
    for order in range(1, n + 1):
        cs = [combs(n, k) for k in range(1, order + 1)]
        flat = [idx('p%d' % len(c), *c) for d in cs for c in d]

        def judge(it, s, v):
            xs = one_of(it, s, v, order)
            if xs is None:
                ys = it.items_of(s, v)
                ctx.expect('B2', con, False if ys is not None else None, 'splits into %s parts instead of %d' % (ys and len(ys), order))
                return
            for d, x in zip(cs, xs):
                expect_vec(ctx, 'B2', con + ' order %d' % order, it, s, x, [idx('p%d' % len(c), *c) for c in d])
        evaluate(ctx, 'B2', con, U, 'split_concat_params', lambda it, st: ([it.new_arr(st, (num(len(flat)),), vec(flat), 'float'), num(n)], {}), judge)
