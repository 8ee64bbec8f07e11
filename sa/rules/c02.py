"""Abstract interpretation (canonical polynomial domain, loops summarised or fully unrolled at fixed array lengths) of every
helper family: each energy function must equal minus the inner product of the parameter vector with the observables of
that family, observables must appear in the common layout (fields, then lexicographic pairs, then triples), and the
compiled (C++) energies must agree with the same definition."""
from .. import terms as T
from .. import interp as I
from .common import *

LEVEL = 'proof'
MOD = 'coniii.utils'
SIZES = (2, 3, 4, 5)


def obs_ising(n, x, k=None):
    return [x(i) for i in range(n)] + [T.mul(x(i), x(j)) for i, j in pairs(n)]


def obs_sym(n, x, k=None):
    return [T.mul(x(i), x(j)) for i, j in pairs(n)]


def obs_triplet(n, x, k=None):
    return obs_ising(n, x) + [T.mul(T.mul(x(i), x(j)), x(l)) for i, j, l in triples(n)]


def obs_potts(n, x, k):
    return ([T.ite(T.eq(x(i), num(q)), T.ONE, T.ZERO) for q in range(k) for i in range(n)] +
            [T.ite(T.eq(x(i), x(j)), T.ONE, T.ZERO) for i, j in pairs(n)])


def obs_ternary(n, x, k=None):
    # one indicator per spin and value, then pair products
    return None


FAMILIES = [
    # factory, args, observables, position of calc_e / calc_observables in the returned tuple
    ('define_ising_helper_functions', (), obs_ising, 0, 1, None),
    ('define_ising_helper_functions_sym', (), obs_sym, 0, 1, None),
    ('define_triplet_helper_functions', (), obs_triplet, 0, 1, None),
    ('define_potts_helper_functions', (2,), obs_potts, 0, 1, 2),
    ('define_potts_helper_functions', (3,), obs_potts, 0, 1, 3),
    ('define_potts_helper_functions', (4,), obs_potts, 0, 1, 4),
]


def run(ctx):
    ctx.rule('E1', 'energy of row r = -sum_k theta_k o_k(X[r]) for symbolic X, theta')
    ctx.rule('E2', 'observable k of row r is the k-th observable of the common layout, and there are exactly as many as parameters')
    ctx.rule('E3', 'the derivative of the energy with respect to parameter i is minus observable i')
    ctx.rule('E4', 'energy equals -params.observables for arrays of any length (parametric in the number of spins)')
    ctx.rule('E5', 'compiled energy equals -params.observables (and its field/coupling layout is the common one)')
    ctx.rule('E6', 'basic form: helper factories return usable functions')
    for fam in FAMILIES:
        family(ctx, *fam)
    ctx.guard('E6', 'coniii/utils.py:define_ternary_helper_functions', ternary, ctx)
    ctx.guard('E3', 'coniii/utils.py:calc_de', calc_de, ctx)
    from . import native
    ctx.guard('E5', 'cpp/samplers.cpp', native.energies, ctx, 'E5')
    if ctx.tier == 'thorough' or True:
        ctx.guard('E4', 'coniii/utils.py', parametric, ctx)


def family(ctx, fname, args, obs, ie, io, k):
    path = 'coniii/utils.py:%s(%s)' % (fname, ','.join(map(str, args)))
    sizes = SIZES if ctx.tier == 'quick' else SIZES + (6, 7)
    extra = set()
    for n in list(sizes):
        ctx.guard('E1', '%s n=%d' % (path, n), one, ctx, path, fname, args, obs, ie, io, k, n)


def one(ctx, path, fname, args, obs, ie, io, k, n):
    K = 2
    it, st, fs = closures(ctx, MOD, fname, [num(a) for a in args], unroll=4096)
    X = it.sym_array(st, 'X', (num(K), num(n)), 'int')
    wanted = [obs(n, lambda i, r=r: idx('X', r, i), k) for r in range(K)]
    P = len(wanted[0])
    th = it.sym_array(st, 'th', (num(P),))
    # energy
    con = '%s.calc_e n=%d' % (path, n)
    outs = it.run(fs[ie], [X, th], {}, st.copy()) if isinstance(fs[ie], I.Func) else []
    res = normal(outs)
    if not res:
        if outs and all(o[0] == 'raise' for _, o in outs):
            ctx.bad('E1', con, 'always raises %s for a valid sample' % (outs[0][1][1],))
        else:
            ctx.undecided('E1', con, 'no result')
    for s, v in res:
        R = Run(it, s, v)
        d = R.dims()
        if d is None or len(d) != 1:
            ctx.undecided('E1', con, 'result is not a vector')
            continue
        if d != (K,):
            ctx.bad('E1', con, 'returns %s values for %d rows' % (d, K))
            continue
        for r in range(K):
            want = T.neg(T.addn([T.mul(idx('th', q), o) for q, o in enumerate(wanted[r])]))
            compare(ctx, 'E1', con + ' row %d' % r, R[r], want, s.pc, norm01)
    con = '%s.calc_observables n=%d' % (path, n)
    outs = it.run(fs[io], [X], {}, st.copy())
    res = normal(outs)
    if not res and outs and all(o[0] == 'raise' for _, o in outs):
        ctx.bad('E2', con, 'always raises %s for a valid sample' % (outs[0][1][1],))
    for s, v in res:
        R = Run(it, s, v)
        d = R.dims()
        if d is None or len(d) != 2:
            ctx.undecided('E2', con, 'result is not a matrix')
            continue
        if d != (K, P):
            ctx.bad('E2', con, 'shape is %s instead of %s' % (d, (K, P)))
            continue
        for r in range(K):
            for q in range(P):
                compare(ctx, 'E2', con + ' element (%d,%d)' % (r, q), R[r, q], wanted[r][q], s.pc, norm01)


def norm01(t):
    """booleans stored in a numeric array become 0/1 indicators"""
    return T.ite(t, T.ONE, T.ZERO) if T.is_cond(t) else t


def ternary(ctx):
    path = 'coniii/utils.py:define_ternary_helper_functions'
    it, st, fs = closures(ctx, MOD, 'define_ternary_helper_functions', [], unroll=4096)
    n = 3
    X = it.sym_array(st, 'X', (num(2), num(n)), 'int')
    outs = it.run(fs[1], [X], {}, st.copy())
    for s, v in normal(outs):
        R = Run(it, s, v)
        d = R.dims()
        if d is None:
            ctx.undecided('E6', path, 'not modelled')
            continue
        oob = [q for q in range(d[1]) if 'out of' in opaque_why(R[0, q]) or oob_read(R[0, q], n)]
        if oob:
            ctx.bad('E6', path, 'observables %s of an %d-spin sample are read beyond the last spin (columns >= %d of the sample)' % (oob[:4], n, n),
                    key='E6|coniii/utils.py:define_ternary_helper_functions')
        else:
            ctx.ok('E6', path)


def oob_read(t, n):
    for x in T.subterms(t):
        if x[0] == 'idx' and x[1] == 'X':
            c = T.int_val(x[2][1])
            if c is not None and c >= n:
                return True
    return False


def calc_de(ctx):
    r = ctx.find(MOD, 'calc_de')
    for n in (2, 3, 4, 5):
        P = n + n * (n - 1) // 2
        for q in range(P):
            it = I.Interp(ctx.proj, unroll=4096)
            st = I.State()
            X = it.sym_array(st, 'X', (num(2), num(n)), 'int')
            con = 'coniii/utils.py:calc_de n=%d parameter %d' % (n, q)
            res = it.run(func(r), [X, num(q)], {}, st)
            for s, v in normal(res):
                R = Run(it, s, v)
                for row in range(2):
                    compare(ctx, 'E3', con + ' row %d' % row, R[row], T.neg(obs_ising(n, lambda i: idx('X', row, i))[q]), s.pc)
            if res and not normal(res):
                ctx.bad('E3', con, 'always raises for a valid parameter index')


def parametric(ctx):
    """the Ising family for symbolic n and K"""
    for fname, obsname in (('define_ising_helper_functions', 'ising'), ('define_ising_helper_functions_sym', 'sym')):
        con = 'coniii/utils.py:%s parametric' % fname
        ctx.guard('E4', con, param_one, ctx, fname, obsname, con)


def param_one(ctx, fname, kind, con):
    it, st, fs = closures(ctx, MOD, fname, [])
    n, K = T.sym('n'), T.sym('K')
    T.INT_SYMS.update({'n', 'K', 'r'})
    st.pc += [T.ge(n, num(2)), T.ge(K, T.ONE), T.ge(T.sym('r'), T.ZERO), T.lt(T.sym('r'), K)]
    X = it.sym_array(st, 'X', (K, n), 'int')
    off = n if kind == 'ising' else T.ZERO
    npair = T.div(T.mul(n, T.sub(n, T.ONE)), num(2))
    th = it.sym_array(st, 'th', (T.add(off, npair),))
    for s, v in normal(it.run(fs[0], [X, th], {}, st)):
        got = it.elem(s, v, (T.sym('r'),))
        i, j = T.fresh_bv('i'), T.fresh_bv('j')
        pr = T.mk_sum([i, j], I.pair_cons(i, j, n), T.mul(T.mul(('idx', 'th', (T.add(off, I.tri_index(n, i, j)),)),
                      ('idx', 'X', (T.sym('r'), i))), ('idx', 'X', (T.sym('r'), j))))
        f = T.mk_sum([i], I.range_cons(i, n), T.mul(('idx', 'th', (i,)), ('idx', 'X', (T.sym('r'), i)))) if kind == 'ising' else T.ZERO
        want = T.neg(T.add(pr, f))
        if got == want or canon_shift(got) == canon_shift(want):
            ctx.ok('E4', con, short(got, 200))
        else:
            ctx.undecided('E4', con, 'closed form not reached: %s' % short(got, 200))
