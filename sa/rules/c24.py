"""The statistics of a sample (means, pair and k-th order correlations, overlaps, state frequencies) are interpreted on a sample of symbolic
entries, with symbolic weights in every accepted form, at fixed numbers of rows and spins, and compared with the defining weighted
averages; the reweighting step of Monte Carlo histograms of every model family must be the importance-weighted average of that family's
observables under the changed parameters."""
from fractions import Fraction
from .. import terms as T
from .. import interp as I
from ..project import Undecided
from .common import *
from . import c02

LEVEL = 'proof'
U = 'coniii.utils'


def run(ctx):
    ctx.rule('A1', 'means and pair correlations are the (weighted) averages over the rows asked for, pairs in lexicographic order')
    ctx.rule('A2', 'k-th order correlations are the (weighted) averages of products over all k-subsets in lexicographic order')
    ctx.rule('A3', 'state frequencies count (or weigh) exactly the rows equal to each state')
    ctx.rule('A4', 'overlaps are the products of rows divided by the number of spins (that are not zero)')
    ctx.rule('A5', 'the reweighted prediction is sum_r o(r) exp(-dE(r)) / sum_r exp(-dE(r)) with dE the energy of the row under the parameter change')
    P_ = 'coniii/utils.py:'
    small = [(2, 2), (3, 3), (2, 4)] + ([(5, 3), (3, 5)] if ctx.tier == 'thorough' else [])
    cut = cutoffs([r[2] for q in ('pair_corr', 'k_corr', 'state_probs', 'calc_overlap') for r in [ctx.find(U, q, False)] if r], 8)
    small += [(2, c) for c in cut if c >= 2 and (2, c) not in small]
    for S, n in small:
        for w in ('none', 'array', 'scalar', 'tuple', 'empty', 'laplace'):
            for opt in ('', 'concat', 'subtract_mean', 'concat subtract_mean'):
                con = P_ + 'pair_corr %dx%d weights=%s %s' % (S, n, w, opt)
                ctx.guard('A1', con, pair, ctx, con, S, n, w, opt.split())
        for k in (1, 2, 3, 4):
            if k <= n:
                for w in ('none', 'array', 'empty'):
                    con = P_ + 'k_corr %dx%d k=%d weights=%s' % (S, n, k, w)
                    ctx.guard('A2', con, kcorr, ctx, con, S, n, k, w)
        for z in (False, True):
            con = P_ + 'calc_overlap %dx%d%s' % (S, n, ' ignore_zeros' if z else '')
            ctx.guard('A4', con, overlap, ctx, con, S, n, z)
    for S, A, n in ((3, 2, 2), (2, 3, 2), (3, 3, 1)):
        for w in (False, True):
            for norm in (True, False):
                con = P_ + 'state_probs %d rows, %d states of %d spins%s%s' % (S, A, n, ' weighted' if w else '', '' if norm else ' counts')
                ctx.guard('A3', con, given_states, ctx, con, S, A, n, w, norm)
    for inv in ((0, 1, 0), (1, 0, 1, 1), (2, 0, 1, 0, 2), (0,)):
        for w in (False, True):
            for norm in (True, False):
                con = P_ + 'state_probs own states %s%s%s' % (inv, ' weighted' if w else '', '' if norm else ' counts')
                ctx.guard('A3', con, own_states, ctx, con, inv, w, norm)
    for fname, args, obs, k in (('define_ising_helper_functions', (), c02.obs_ising, None), ('define_ising_helper_functions_sym', (), c02.obs_sym, None),
                                ('define_potts_helper_functions', (2,), c02.obs_potts, 2), ('define_potts_helper_functions', (3,), c02.obs_potts, 3)):
        for S, n in ((1, 2), (2, 2), (3, 2), (2, 3)) if k is None else ((1, 2), (2, 2), (1, 3)) if k == 2 else ((1, 2), (1, 3)):
            con = P_ + '%s(%s).mch_approximation %dx%d' % (fname, ','.join(map(str, args)), S, n)
            ctx.guard('A5', con, mch, ctx, con, fname, args, obs, k, S, n)


def X_(r, i):
    return idx('X', r, i)


def nz(t):
    return T.ite(T.ne(t, T.ZERO), T.ONE, T.ZERO)


def red(t):
    return c02.norm01(t)


def pair(ctx, con, S, n, w, opt):
    rows = range(S)
    prs = pairs(n)

    def build(it, st):
        X = it.sym_array(st, 'X', (num(S), num(n)), 'int')
        kw = {o: T.TRUE for o in opt}
        if w == 'array':
            kw['weights'] = it.sym_array(st, 'w', (num(S),))
        elif w == 'scalar':
            kw['weights'] = num(Fraction(1, 7))
        elif w == 'tuple':
            kw['weights'] = I.Tup((it.sym_array(st, 'u', (num(n),)), it.sym_array(st, 'v', (num(len(prs)),))))
        elif w in ('empty', 'laplace'):
            kw['exclude_empty'] = T.TRUE
            if w == 'laplace':
                kw['laplace_count'] = T.TRUE
        return [X], kw
    if w == 'tuple':
        m = [T.mul(idx('u', i), T.addn([X_(r, i) for r in rows])) for i in range(n)]
        c = [T.mul(idx('v', k), T.addn([T.mul(X_(r, i), X_(r, j)) for r in rows])) for k, (i, j) in enumerate(prs)]
    elif w in ('empty', 'laplace'):
        add1, add2 = (T.ZERO, T.ZERO) if w == 'empty' else (num(2), num(4))
        m = [T.div(T.addn([X_(r, i) for r in rows]), T.add(add1, T.addn([nz(X_(r, i)) for r in rows]))) for i in range(n)]
        c = [T.div(T.addn([T.mul(X_(r, i), X_(r, j)) for r in rows]), T.add(add2, T.addn([T.mul(nz(X_(r, i)), nz(X_(r, j))) for r in rows]))) for i, j in prs]
    else:
        ww = {'none': lambda r: num(Fraction(1, S)), 'array': lambda r: idx('w', r), 'scalar': lambda r: num(Fraction(1, 7))}[w]
        m = [T.addn([T.mul(ww(r), X_(r, i)) for r in rows]) for i in range(n)]
        c = [T.addn([T.mul(ww(r), T.mul(X_(r, i), X_(r, j))) for r in rows]) for i, j in prs]
    if 'subtract_mean' in opt:
        c = [T.sub(x, T.mul(m[i], m[j])) for x, (i, j) in zip(c, prs)]

    def judge(it, s, v):
        if 'concat' in opt:
            expect_vec(ctx, 'A1', con, it, s, v, m + c, red)
            return
        xs = one_of(it, s, v, 2)
        if xs is None:
            raise Undecided('returned value')
        expect_vec(ctx, 'A1', con + ' means', it, s, xs[0], m, red)
        expect_vec(ctx, 'A1', con + ' pairs', it, s, xs[1], c, red)
    evaluate(ctx, 'A1', con, U, 'pair_corr', build, judge)


def kcorr(ctx, con, S, n, k, w):
    import itertools

    def build(it, st):
        X = it.sym_array(st, 'X', (num(S), num(n)), 'int')
        kw = {}
        if w == 'array':
            kw['weights'] = it.sym_array(st, 'w', (num(S),))
        elif w == 'empty':
            kw['exclude_empty'] = T.TRUE
        return [X, num(k)], kw
    want = []
    for c in itertools.combinations(range(n), k):
        ps = []
        for r in range(S):
            p = T.ONE
            for i in c:
                p = T.mul(p, X_(r, i))
            ps.append(p)
        if w == 'empty':
            want.append(T.div(T.addn([T.ite(T.ne(p, T.ZERO), p, T.ZERO) for p in ps]), T.addn([nz(p) for p in ps])))
        else:
            want.append(T.addn([T.mul(idx('w', r) if w == 'array' else num(Fraction(1, S)), p) for r, p in enumerate(ps)]))
    evaluate(ctx, 'A2', con, U, 'k_corr', build, lambda it, s, v: expect_vec(ctx, 'A2', con, it, s, v, want, red))


def overlap(ctx, con, S, n, z):
    def count0(r):
        return T.addn([T.ite(T.eq(X_(r, i), T.ZERO), T.ONE, T.ZERO) for i in range(n)])

    def want(a, b):
        d = T.addn([T.mul(X_(a, i), X_(b, i)) for i in range(n)])
        if not z:
            return T.div(d, num(n))
        from .. import libmodel
        return T.div(d, T.sub(num(n), libmodel.t_max([count0(a), count0(b)], 'max')))

    def judge(it, s, v):
        expect_mat(ctx, 'A4', con, it, s, v, [[want(a, b) for b in range(S)] for a in range(S)], red)
    evaluate(ctx, 'A4', con, U, 'calc_overlap', lambda it, st: ([it.sym_array(st, 'X', (num(S), num(n)), 'int')], {'ignore_zeros': T.TRUE} if z else {}), judge)


def given_states(ctx, con, S, A, n, w, norm):
    f = []
    for a in range(A):
        f.append(T.addn([T.mul(T.ite(T.land([T.eq(idx('a', a, i), X_(r, i)) for i in range(n)]), T.ONE, T.ZERO), idx('w', r) if w else T.ONE) for r in range(S)]))
    if norm:
        tot = T.addn(f)
        f = [T.div(x, tot) for x in f]

    def build(it, st):
        X = it.sym_array(st, 'X', (num(S), num(n)), 'int')
        a = it.sym_array(st, 'a', (num(A), num(n)), 'int')
        kw = {'weights': it.sym_array(st, 'w', (num(S),))} if w else {}
        if not norm:
            kw['normalized'] = T.FALSE
        return [X, a], kw
    evaluate(ctx, 'A3', con, U, 'state_probs', build, lambda it, s, v: counts(ctx, con, it, s, v, f, S, A, n))


def counts(ctx, con, it, s, v, want, S, A, n):
    """compare on every coincidence pattern of rows and states (rows pairwise distinguishable only through the pattern)"""
    R = Run(it, s, v)
    d = R.dims()
    if d is None or len(d) != 1 or d[0] is None:
        ctx.undecided('A3', con, 'result is not a fixed vector')
        return
    if d != (A,):
        ctx.bad('A3', con, 'returns %s frequencies for %d states' % (d, A))
        return
    # assign concrete spin values: states are distinct, every row is one of the states (or, for the first pattern, none)
    import itertools
    vals = list(itertools.product((0, 1), repeat=n)) if 2 ** n >= A else list(itertools.product(range(A), repeat=n))
    sts = vals[:A]
    got = [R[a] for a in range(A)]
    for pat in itertools.product(range(A), repeat=S):
        env = {}
        for a in range(A):
            for i in range(n):
                env[idx('a', a, i)] = num(sts[a][i])
        for r in range(S):
            for i in range(n):
                env[X_(r, i)] = num(sts[pat[r]][i])
        for a in range(A):
            g, w = c02.norm01(T.subst(got[a], env)), c02.norm01(T.subst(want[a], env))
            compare(ctx, 'A3', '%s state %d, rows %s' % (con, a, pat), g, w)


def own_states(ctx, con, inv, w, norm):
    S, n, A = len(inv), 2, max(inv) + 1
    first = [inv.index(a) for a in range(A)]

    def rows(it, st, args, kw, node):
        flag = args[1] if len(args) > 1 else kw.get('return_inverse', T.FALSE)
        x = inv if flag == T.TRUE else first if flag == T.FALSE else None
        if x is None:
            return [(st, I.opaque('return_inverse'))]
        return [(st, it.new_arr(st, (num(len(x)),), vec([num(q) for q in x]), 'int'))]
    f = [T.addn([idx('w', r) if w else T.ONE for r in range(S) if inv[r] == a]) for a in range(A)]
    if norm:
        tot = T.addn(f)
        f = [T.div(x, tot) for x in f]

    def build(it, st):
        X = it.sym_array(st, 'X', (num(S), num(n)), 'int')
        kw = {'weights': it.sym_array(st, 'w', (num(S),))} if w else {}
        if not norm:
            kw['normalized'] = T.FALSE
        return [X], kw

    def judge(it, s, v):
        xs = one_of(it, s, v, 2)
        if xs is None:
            raise Undecided('returned value')
        expect_vec(ctx, 'A3', con, it, s, xs[0], f)
        expect_mat(ctx, 'A3', con + ' states', it, s, xs[1], [[X_(first[a], i) for i in range(n)] for a in range(A)])
    evaluate(ctx, 'A3', con, U, 'state_probs', build, judge, externs={U + ':unique_rows': rows})


def mch(ctx, con, fname, args, obs, k, S, n):
    it, st, fs = closures(ctx, U, fname, [num(a) for a in args], unroll=4096)
    wanted = [obs(n, lambda i, r=r: idx('X', r, i), k) for r in range(S)]
    P = len(wanted[0])
    X = it.sym_array(st, 'X', (num(S), num(n)), 'int')
    dl = it.sym_array(st, 'dl', (num(P),))
    # Potts states are judged on concrete configurations, spins on symbolic ones
    import itertools
    dE = [T.neg(T.addn([T.mul(idx('dl', q), o) for q, o in enumerate(wanted[r])])) for r in range(S)]
    Z = T.addn([T.exp(T.neg(e)) for e in dE])
    want = [T.div(T.addn([T.mul(wanted[r][q], T.exp(T.neg(dE[r]))) for r in range(S)]), Z) for q in range(P)]
    outs = it.run(fs[2], [X, dl], {}, st)
    res = normal(outs)
    if not res:
        if outs and all(o[0] == 'raise' for _, o in outs):
            ctx.bad('A5', con, 'always raises %s' % (outs[0][1][1],))
        else:
            ctx.undecided('A5', con, 'no result')
    for s, v in res:
        R = Run(it, s, v)
        d = R.dims()
        if d is None or None in d:
            ctx.undecided('A5', con, 'result is not a fixed vector')
            continue
        if d != (P,):
            ctx.bad('A5', con, 'predicts %s values for %d parameters' % (d, P))
            continue
        if k is None:
            for q in range(P):
                compare(ctx, 'A5', con + ' [%d]' % q, R[q], want[q])
        else:
            got = [R[q] for q in range(P)]
            for cfg in itertools.product(range(k), repeat=S * n):
                env = {idx('X', r, i): num(cfg[r * n + i]) for r in range(S) for i in range(n)}
                for q in range(P):
                    compare(ctx, 'A5', con + ' [%d] rows %s' % (q, cfg), c02.norm01(T.subst(got[q], env)), c02.norm01(T.subst(want[q], env)))
