"""Helper functions around the samplers and the homogeneous mean field: Heisenberg energy and gradients, rotations, cluster search, bond sampling,
and the auxiliary field integrals.  Small sizes are unrolled with symbolic angles, couplings and draws; the terms found are compared with the definition."""
import itertools
import math
from fractions import Fraction
from .. import terms as T
from .. import interp as I
from .. import rng as R
from ..project import Undecided
from .common import *

LEVEL = 'proof'
SM = 'coniii.samplers'
MF = 'coniii.mean_field_ising'


def run(ctx):
    ctx.rule('heisenberg', 'the Heisenberg energy is minus the couplings times the dot products of the unit vectors, and the gradients are its derivatives')
    ctx.rule('rotation', 'a nearby vector is the drawn vector turned by the rotation that carries the z axis to the given direction')
    ctx.rule('clusters', 'the clusters of a bond matrix are its connected components, every site in exactly one')
    ctx.rule('bonds', 'a bond is made with its probability and only between spins that satisfy their coupling')
    ctx.rule('homogeneous', 'the auxiliary field integrals are the exact partition function, entropy and mean of the homogeneous model')
    ctx.rule('cooccurrence', 'fourth order co-occurrences, their covariance and the corrected means follow the order of the flattened upper triangle')
    ctx.rule('front end', 'sample_ising samples the model of its multipliers with its seed; check_e_logp lines up states, energies and log frequencies')
    for n in (2, 3, 4):
        for f in ('calc_e', 'grad_e', 'grad_e_theta'):
            ctx.guard('heisenberg', 'coniii/samplers.py:%s n=%d' % (f, n), heisenberg, ctx, f, n)
    ctx.guard('rotation', 'coniii/samplers.py:cross', crossed, ctx, 'cross')
    ctx.guard('rotation', 'coniii/samplers.py:cross_', crossed, ctx, 'cross_')
    for k in (1, 2, 3):
        for zero in (False, True):
            ctx.guard('rotation', 'coniii/samplers.py:jit_sample_nearby_vector %d%s' % (k, ' without width' if zero else ''), nearby, ctx, k, zero)
    for n in (1, 2, 3, 4):
        ctx.guard('clusters', 'coniii/samplers.py:iter_cluster %d sites' % n, clusters, ctx, n)
    ctx.guard('clusters', 'coniii/samplers.py:iter_cluster larger', clusters, ctx, 0)
    for n in (2, 3, 4):
        ctx.guard('bonds', 'coniii/samplers.py:sample_bonds n=%d' % n, bonds, ctx, n)
        ctx.guard('bonds', 'coniii/samplers.py:pairwise_prod n=%d' % n, products, ctx, n)
    ctx.guard('homogeneous', 'coniii/mean_field_ising.py:logCosh', logcosh, ctx)
    ctx.guard('homogeneous', 'coniii/mean_field_ising.py:dFdT', temperature, ctx)
    for f in sorted(HOM):
        ctx.guard('homogeneous', 'coniii/mean_field_ising.py:' + f, homogeneous, ctx, f)
    for f in ('fourthOrderCoocMat', 'coocSampleCovariance'):
        for n in (2, 3):
            for opt in ((None,) if f[0] == 'f' else ((True, True), (True, False), (False, True), (False, False))):
                ctx.guard('cooccurrence', 'coniii/mean_field_ising.py:%s n=%d%s' % (f, n, '' if opt is None else ' %s %s' % opt), fourth, ctx, f, n, opt)
    ctx.guard('cooccurrence', 'coniii/mean_field_ising.py:coocMatBayesianMean', laplace, ctx)
    ctx.guard('cooccurrence', 'coniii/mean_field_ising.py:coocStdevsFlat', stdevs, ctx)
    ctx.guard('cooccurrence', 'coniii/mean_field_ising.py:isingDeltaCooc', delta, ctx)
    for inv in ((0, 0, 1), (0, 1, 0, 2), (1, 0, 1, 1), (2, 1, 2, 0, 1)):
        ctx.guard('front end', 'coniii/samplers.py:check_e_logp rows %s' % (inv,), elogp, ctx, inv)
    for n in (2, 3, 4):
        for pair in (False, True):
            for par in (None, False, True):
                ctx.guard('front end', 'coniii/samplers.py:sample_ising n=%d%s%s' % (n, ' pair' if pair else '', {None: '', False: ' sequential', True: ' parallel'}[par]), easy, ctx, n, pair, par)


# --------------------------------------------------------------- comparison at points
def points(extra=None, n=8):
    """assignments of generic numbers to the leaves, the same leaf always the same number"""
    return [point(k, extra) for k in range(n)]


def point(k, extra):
    memo = {}

    def env(t):
        if extra is not None:
            v = extra(t, k, env)
            if v is not None:
                return v
        if t[0] in ('sym', 'idx', 'bv'):
            if t not in memo:
                h = sum((i+1)*ord(c) for i, c in enumerate(repr(t)))
                v = ((h*7919 + k*104729) % 9973)/9973.0*2.2 - 1.1
                memo[t] = v if abs(v) > .05 else v+.3
            return memo[t]
        if t[0] == 'fn' and len(t) == 3 and t[1] in TRIG:
            return TRIG[t[1]](evalnum(t[2], env))
        return None
    return env


TRIG = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'arctan': math.atan, 'arccos': math.acos, 'arcsin': math.asin}


def agree(ctx, rule, con, got, want, envs=None, pc=()):
    """equal as canonical terms, or the same number at every point: holds.  A different number at a point: violated."""
    if got is None or not I.is_term(got):
        return ctx.undecided(rule, con, 'value not modelled')
    if got == want:
        return ctx.ok(rule, con)
    seen = 0
    for env in envs or points():
        try:
            if not all(evalnum(c, env) for c in pc):
                continue
            a = float(evalnum(got, env))
            b = float(want(env) if callable(want) else evalnum(want, env))
        except (NoValue, OverflowError, ZeroDivisionError, ValueError, TypeError) as e:
            return ctx.undecided(rule, con, 'no value: %s in %s' % (str(e)[:80], short(got, 120)))
        if abs(a-b) > 1e-7*(1+abs(a)+abs(b)):
            return ctx.bad(rule, con, 'the analysed value %s is %.6g at a point where the definition gives %.6g' % (short(got, 160), a, b))
        seen += 1
    if not seen:
        return None
    ctx.ok(rule, con, 'at %d points' % seen)


def agree_vec(ctx, rule, con, it, s, v, want, envs=None):
    Rn = Run(it, s, v)
    d = Rn.dims()
    if d is None or len(d) != 1 or d[0] is None:
        return ctx.undecided(rule, con, 'result is not a fixed vector')
    if d[0] != len(want):
        return ctx.bad(rule, con, 'has %s elements instead of %d' % (d[0], len(want)))
    for q, w in enumerate(want):
        agree(ctx, rule, '%s [%d]' % (con, q), Rn[q], w, envs, s.pc)


# --------------------------------------------------------------- Heisenberg
def sin(t):
    return ('fn', 'sin', t)


def cos(t):
    return ('fn', 'cos', t)


def ang(i, k):
    return idx('x', 2*i+k)


def unitvec(i):
    a, b = ang(i, 0), ang(i, 1)
    return [T.mul(sin(a), cos(b)), T.mul(sin(a), sin(b)), cos(a)]


def dot(u, v):
    return T.addn([T.mul(a, b) for a, b in zip(u, v)])


def dvec(i, k):
    a, b = ang(i, 0), ang(i, 1)
    if k == 0:
        return [T.mul(cos(a), cos(b)), T.mul(cos(a), sin(b)), T.neg(sin(a))]
    return [T.neg(T.mul(sin(a), sin(b))), T.mul(sin(a), cos(b)), T.ZERO]


def heisenberg(ctx, f, n):
    con = 'coniii/samplers.py:%s n=%d' % (f, n)
    ps = pairs(n)
    th = [idx('t', k) for k in range(len(ps))]

    def build(it, st):
        return [it.new_arr(st, (num(len(ps)),), vec(th), 'float'), it.new_arr(st, (num(2*n),), vec([idx('x', k) for k in range(2*n)]), 'float')], {}

    def judge(it, s, v):
        if f == 'calc_e':
            return agree(ctx, 'heisenberg', con, v, T.neg(T.addn([T.mul(th[k], dot(unitvec(i), unitvec(j))) for k, (i, j) in enumerate(ps)])), None, s.pc)
        if f == 'grad_e_theta':
            return agree_vec(ctx, 'heisenberg', con, it, s, v, [T.neg(dot(unitvec(i), unitvec(j))) for i, j in ps])
        want = []
        for i in range(n):
            for c in (0, 1):
                want.append(T.neg(T.addn([T.mul(th[ps.index((min(i, j), max(i, j)))], dot(dvec(i, c), unitvec(j))) for j in range(n) if j != i])))
        agree_vec(ctx, 'heisenberg', con, it, s, v, want)
    evaluate(ctx, 'heisenberg', con, SM, f, build, judge, unroll=4096)


def crossp(u, v):
    return [T.sub(T.mul(u[1], v[2]), T.mul(u[2], v[1])), T.sub(T.mul(u[2], v[0]), T.mul(u[0], v[2])), T.sub(T.mul(u[0], v[1]), T.mul(u[1], v[0]))]


def crossed(ctx, f):
    con = 'coniii/samplers.py:' + f
    u, w = [idx('u', k) for k in range(3)], [idx('w', k) for k in range(3)]

    def build(it, st):
        args = [it.new_arr(st, (num(3),), vec(u), 'float'), it.new_arr(st, (num(3),), vec(w), 'float')]
        if f == 'cross_':
            args.append(it.new_arr(st, (num(3),), vec([idx('old', k) for k in range(3)]), 'float'))
        return args, {}
    evaluate(ctx, 'rotation', con, SM, f, build, lambda it, s, v: agree_vec(ctx, 'rotation', con, it, s, v, crossp(u, w)), unroll=256)


def nearby(ctx, k, zero):
    con = 'coniii/samplers.py:jit_sample_nearby_vector %d%s' % (k, ' without width' if zero else '')
    r = ctx.find(SM, 'jit_sample_nearby_vector')
    it = I.Interp(ctx.proj, unroll=256, lib=R.lib_table())
    st = I.State()
    seed, ot, op, sg = ('sym', 'seed'), ('sym', 'otheta'), ('sym', 'ophi'), ('sym', 'sigma')
    T.INT_SYMS.add('seed')
    if not zero:
        st.pc.append(T.lt(T.ZERO, sg))
    v0 = it.new_arr(st, (num(3),), vec([idx('v', q) for q in range(3)]), 'float')
    outs = it.run(func(r), [seed, v0, num(k), ot, op, T.ZERO if zero else sg], {}, st)
    res = normal(outs)
    if not res:
        if outs and all(o[0] == 'raise' for _, o in outs):
            return ctx.bad('rotation', con, 'always raises %s' % (outs[0][1][1],))
        raise Undecided('no path returns')
    for s, v in res:
        if oob_of(s) and (not s.pc or zero):
            ctx.bad('rotation', con, 'an element outside its array is accessed: ' + oob_of(s))
            continue
        seeds = [q for q, e in enumerate(s.events) if e[0] == 'seed']
        draws = [(q, e) for q, e in enumerate(s.events) if e[0] == 'draw']
        if any(e[1] != 'global' for _, e in draws):
            raise Undecided('draws from another generator')
        if not seeds or s.events[seeds[0]][2] != (seed,) or draws and draws[0][0] < seeds[0]:
            ctx.bad('rotation', con, 'the draws are not made from a generator seeded with the given seed')
            continue
        nor = [e[4] for _, e in draws if e[2] == 'normal']
        uni = [e[4] for _, e in draws if e[2] in ('unit', 'uniform')]
        if zero:
            nor = nor or [None]*k
        if len(nor) != k or len(uni) != k or len(nor)+len(uni) < len([1 for _, e in draws if e[2] != 'normal' or not zero]) or any(x is not None and x[0] != 'sym' for x in nor+uni):
            raise Undecided('draws not recognised: %s' % [e[2:5] for _, e in draws][:4])
        Rn = Run(it, s, v)
        d = Rn.dims()
        if d is not None and None not in d and d != (k, 3):
            ctx.bad('rotation', con, 'shape is %s instead of %s' % (d, (k, 3)))
            continue
        if d is None or None in d:
            raise Undecided('result is not a fixed matrix')
        # any pairing of the draws with the rows describes the same distribution
        best = None
        for perm in itertools.permutations(range(k)):
            bad = None
            for i in range(k):
                want = rotated(T.ZERO if zero else T.mul(nor[i], sg), uni[perm[i]], ot, op)
                for c in range(3):
                    bad = bad or differs(Rn[i, c], want[c])
            if not bad:
                best = True
                break
            best = best or bad
        if best is True:
            ctx.ok('rotation', con, '%d vectors' % k)
        elif best[0] == 'u':
            raise Undecided(best[1])
        else:
            ctx.bad('rotation', con, best[1])


def rotated(t, u, ot, op):
    """the vector at polar angle t and azimuth 2 pi u about z, carried to the direction (ot, op)"""
    def f(c):
        def g(env):
            a = float(evalnum(t, env))
            b = 2*math.pi*evalnum(u, env)
            o, p = evalnum(ot, env), evalnum(op, env)
            x = [math.sin(a)*math.cos(b), math.sin(a)*math.sin(b), math.cos(a)]
            k = [-math.sin(p), math.cos(p), 0.]
            kx = [k[1]*x[2]-k[2]*x[1], k[2]*x[0]-k[0]*x[2], k[0]*x[1]-k[1]*x[0]]
            kd = k[0]*x[0]+k[1]*x[1]
            return x[c]*math.cos(o)+kx[c]*math.sin(o)+k[c]*kd*(1-math.cos(o))
        return g
    return [f(c) for c in range(3)]


def differs(got, want):
    if got is None or not I.is_term(got):
        return ('u', 'component not modelled')
    for env in points():
        try:
            a, b = float(evalnum(got, env)), float(want(env))
        except (NoValue, OverflowError, ZeroDivisionError, ValueError, TypeError) as e:
            return ('u', 'no value: %s' % str(e)[:80])
        if abs(a-b) > 1e-8*(1+abs(a)+abs(b)):
            return ('b', 'a component %s is %.6g where the turned vector has %.6g' % (short(got, 140), a, b))
    return None


# --------------------------------------------------------------- clusters
def components(n, edges):
    lab = list(range(n))
    for _ in range(n):
        for a, b in edges:
            lab[a] = lab[b] = min(lab[a], lab[b])
    return sorted([i for i in range(n) if lab[i] == q] for q in set(lab))


BIG = [(5, [(0, 4), (4, 2), (1, 3)]), (6, [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5)]), (6, [(5, 0), (0, 3), (1, 4), (4, 2)]), (5, [(0, 1), (1, 2), (2, 0), (3, 4)]),
       (7, [(6, 0), (6, 3), (3, 5), (1, 2)]), (6, [(0, 3), (3, 1), (1, 4), (4, 2), (2, 5)])]


def clusters(ctx, n):
    r = ctx.find(SM, 'iter_cluster')
    con = 'coniii/samplers.py:iter_cluster %s' % ('%d sites' % n if n else 'larger')
    if n:
        ps = pairs(n)
        graphs = [(n, [p for p, b in zip(ps, bits) if b]) for bits in itertools.product((0, 1), repeat=len(ps))]
    else:
        graphs = BIG
    done = 0
    for m, edges in graphs:
        it = I.Interp(ctx.proj, unroll=4096)
        it.fork_while = it.max_paths = 64
        st = I.State()
        cells = [[num(int((i, j) in edges or (j, i) in edges)) for j in range(m)] for i in range(m)]

        def fn(ix, cells=cells, m=m):
            a, b = T.int_val(ix[0]), T.int_val(ix[1])
            if a is None or b is None or not (0 <= a < m and 0 <= b < m):
                return I.opaque('index of the bond matrix')
            return cells[a][b]
        adj = it.new_arr(st, (num(m), num(m)), fn, 'float')
        outs = it.run(func(r), [adj], {}, st)
        if outs and all(o[0] == 'raise' for _, o in outs):
            return ctx.bad('clusters', con, 'bonds %s: always raises %s' % (edges, outs[0][1][1]))
        want = components(m, edges)
        res = normal(outs)
        if not res:
            raise Undecided('no path returns')
        for s, v in res:
            got = it.items_of(s, v)
            rows = None if got is None else [it.items_of(s, x) for x in got]
            if rows is None or any(x is None for x in rows):
                raise Undecided('bonds %s: clusters not modelled' % (edges,))
            val = [[T.int_val(y) if I.is_term(y) else None for y in x] for x in rows]
            if any(y is None for x in val for y in x):
                raise Undecided('bonds %s: sites not modelled' % (edges,))
            if sorted(sorted(x) for x in val) != want:
                return ctx.bad('clusters', con, 'bonds %s give %s instead of %s' % (edges, val, want))
        done += 1
    ctx.ok('clusters', con, '%d graphs' % done)


def products(ctx, n):
    con = 'coniii/samplers.py:pairwise_prod n=%d' % n

    def build(it, st):
        return [it.new_arr(st, (num(n),), vec([idx('s', k) for k in range(n)]), 'int')], {}
    evaluate(ctx, 'bonds', con, SM, 'pairwise_prod', build,
             lambda it, s, v: agree_vec(ctx, 'bonds', con, it, s, v, [T.mul(idx('s', i), idx('s', j)) for i, j in pairs(n)]), unroll=1024)


def bonds(ctx, n):
    con = 'coniii/samplers.py:sample_bonds n=%d' % n
    ps = pairs(n)
    r = ctx.find(SM, 'sample_bonds')
    seen = 0
    cases = itertools.product(itertools.product((1, -1), repeat=n), (0, 1, 2))
    for spins, rot in cases:
        sj = [(1, -1, 0)[(k+rot) % 3] for k in range(len(ps))]
        low = [((k*7+rot+seen) % 5) < 3 for k in range(len(ps))]
        it = I.Interp(ctx.proj, unroll=1024)
        st = I.State()
        arr = lambda xs, kind='float': it.new_arr(st, (num(len(xs)),), vec(xs), kind)
        p = arr([num(Fraction(1, 2)) for _ in ps])
        rr = arr([num(Fraction(1, 4) if b else Fraction(3, 4)) for b in low])
        outs = it.run(func(r), [p, rr, arr([num(x) for x in spins], 'int'), arr([num(Fraction(x, 3)) for x in sj])], {}, st)
        if outs and all(o[0] == 'raise' for _, o in outs):
            return ctx.bad('bonds', con, 'always raises %s' % (outs[0][1][1],))
        for s, v in normal(outs):
            if oob_of(s) and not s.pc:
                return ctx.bad('bonds', con, 'an element outside its array is accessed: ' + oob_of(s))
            Rn = Run(it, s, v)
            if Rn.dims() != (len(ps),):
                if Rn.dims() is None or None in Rn.dims():
                    raise Undecided('result is not a fixed vector')
                return ctx.bad('bonds', con, 'shape %s instead of %s' % (Rn.dims(), (len(ps),)))
            for k, (i, j) in enumerate(ps):
                want = int(low[k] and sj[k]*spins[i]*spins[j] > 0)
                g = Rn[k]
                if g is None or not I.is_term(g) or T.as_num(g) is None if hasattr(T, 'as_num') else False:
                    raise Undecided('bond not modelled')
                if g in (T.TRUE, T.FALSE):
                    g = num(int(g == T.TRUE))
                if T.int_val(g) is None:
                    raise Undecided('bond %s' % short(g))
                if T.int_val(g) != want:
                    return ctx.bad('bonds', con, 'spins %s, coupling %d of sign %d, draw %s its probability: bond %s instead of %d' % (
                        spins, k, sj[k], 'below' if low[k] else 'above', T.int_val(g), want))
        seen += 1
    ctx.ok('bonds', con, '%d configurations' % seen)


# --------------------------------------------------------------- homogeneous model
def call(ctx, con, rule, f, args, kw=None, externs=None, lib=None):
    r = ctx.find(MF, f)
    it = I.Interp(ctx.proj, unroll=1024)
    it.lib = dict(it.lib)
    it.lib['scipy.integrate.quad'] = quad
    if lib:
        it.lib.update(lib)
    st = I.State()
    outs = it.run(func(r), args(it, st) if callable(args) else args, kw or {}, st)
    res = normal(outs)
    if not res:
        if outs and all(o[0] == 'raise' for _, o in outs):
            ctx.bad(rule, con, 'always raises %s' % (outs[0][1][1],))
            return it, []
        raise Undecided('no path returns')
    return it, res


def quad(it, st, args, kw, node, f):
    m = ('sym', 'aux%d' % len([1 for e in st.events if e[0] == 'quad']))
    st.events.append(('quad',))
    if len(args) < 3 or kw:
        return I.opaque('quad options')
    lim = [x for x in args[1:3]]
    outs = it.call(st, args[0], [m], {}, node)
    outs = [o for o in outs] if isinstance(outs, list) else [(st, outs)]
    if len(outs) != 1 or not I.is_term(outs[0][1]):
        raise Undecided('integrand not modelled')
    return [(outs[0][0], I.Tup([('fn', 'integral', outs[0][1], m, lim[0], lim[1]), I.opaque('error of the integral')]))]


def logcosh(ctx):
    con = 'coniii/mean_field_ising.py:logCosh'
    x = ('sym', 'x')
    it, res = call(ctx, con, 'homogeneous', 'logCosh', [x])
    for s, v in res:
        agree(ctx, 'homogeneous', con, v, lambda env: math.log(math.cosh(evalnum(x, env))), None, s.pc)


def aux_f(h, J, N, m, Tm=1.0):
    """minus the logarithm of the integrand whose integral over m is the partition function at temperature Tm"""
    h, J = h/Tm, J/Tm
    Jb = N*J
    return N*(Jb*m*m - math.log(2) - math.log(math.cosh(2*Jb*m+h))) + .5*math.log(math.pi/(N*Jb))


def temperature(ctx):
    con = 'coniii/mean_field_ising.py:dFdT'
    h, J, N, m = [('sym', q) for q in 'hJNm']
    val = lambda env: (evalnum(h, env), abs(evalnum(J, env)), NV(env), evalnum(m, env))
    envs = points(hom_extra)
    it, res = call(ctx, con, 'homogeneous', 'dFdT', [h, J, N, m])
    for s, v in res:
        agree(ctx, 'homogeneous', con, v, lambda env: dtemp(*val(env)), envs, s.pc)
    con = 'coniii/mean_field_ising.py:FHomogeneous'
    it, res = call(ctx, con, 'homogeneous', 'FHomogeneous', [h, J, N, m])
    for s, v in res:
        agree(ctx, 'homogeneous', con, v, lambda env: aux_f(*val(env)), envs, s.pc)


def dtemp(h, J, N, m):
    Jb = N*J
    return -N*Jb*m*m + N*(2*Jb*m+h)*math.tanh(2*Jb*m+h) + .5


def NV(env):
    return evalnum(('sym', 'N'), env)


def hom_extra(t, k, env):
    """values of the model: positive couplings, whole sizes, and integrals by the trapezoidal rule"""
    if t == ('sym', 'J'):
        return (.21, .31, .43, .52, .2, .15, .4, .25)[k]
    if t == ('sym', 'h'):
        return (.3, -.2, .05, .7, -.6, .12, -.35, .9)[k]
    if t == ('sym', 'N'):
        return (2, 3, 1, 2, 4, 5, 3, 2)[k]
    if t[0] == 'fn' and t[1] == 'sqrt':
        return math.sqrt(evalnum(t[2], env))
    if t[0] == 'fn' and t[1] == 'integral':
        lo, hi = limit(t[4], env), limit(t[5], env)
        if lo is None or hi is None:
            raise NoValue('limit of an integral')
        w, tot, cap = .03, 0., 9.
        if lo > -cap or hi < cap:
            raise NoValue('integral over a part of the line')

        for q in range(-300, 301):
            x = q*w
            def sub(u, x=x):
                if u == t[3]:
                    return x
                return env(u)
            tot += w*float(evalnum(t[2], sub))
        return tot
    return None


def limit(t, env):
    if t == ('fn', 'inf'):
        return math.inf
    if t == T.neg(('fn', 'inf')):
        return -math.inf
    try:
        return float(evalnum(t, env))
    except NoValue:
        return None


def model(h, J, N):
    ws, es, ms = [], [], []
    for s in itertools.product((1, -1), repeat=N):
        M = sum(s)
        es.append(h*M+J*M*M)
        ms.append(M)
    Z = sum(math.exp(e) for e in es)
    p = [math.exp(e)/Z for e in es]
    return -sum(x*math.log(x) for x in p), sum(x*m for x, m in zip(p, ms))/N


def indep(h, J, N):
    x = model(h, J, N)[1]
    return N*(-(1+x)/2*math.log((1+x)/2)-(1-x)/2*math.log((1-x)/2))


HOM = {'SHomogeneous': lambda h, J, N: model(h, J, N)[0], 'avgmHomogeneous': lambda h, J, N: model(h, J, N)[1], 'avgxHomogeneous': lambda h, J, N: model(h, J, N)[1],
       'independentEntropyHomogeneous': indep, 'independentEntropyHomogeneous2': indep, 'multiInfoHomogeneous': lambda h, J, N: indep(h, J, N)-model(h, J, N)[0]}


def homogeneous(ctx, f):
    con = 'coniii/mean_field_ising.py:' + f
    h, J, N = [('sym', q) for q in 'hJN']
    it, res = call(ctx, con, 'homogeneous', f, [h, J, N])
    envs = points(hom_extra, 6)
    for s, v in res:
        agree(ctx, 'homogeneous', con, v, lambda env: HOM[f](evalnum(h, env), evalnum(J, env), int(NV(env))), envs, s.pc)


# --------------------------------------------------------------- co-occurrences
def order(n):
    """pairs i <= j in the order of the flattened upper triangle: by diagonals"""
    return [(i, i+d) for d in range(n) for i in range(n-d)]


def fourth(ctx, f, n, opt):
    con = 'coniii/mean_field_ising.py:%s n=%d%s' % (f, n, '' if opt is None else ' %s %s' % opt)
    M = 2
    x = [[idx('X', a, i) for i in range(n)] for a in range(M)]

    def args(it, st):
        return [it.new_arr(st, (num(M), num(n)), lambda ix: x[T.int_val(ix[0])][T.int_val(ix[1])] if None not in (T.int_val(ix[0]), T.int_val(ix[1])) and T.int_val(ix[0]) < M and T.int_val(ix[1]) < n
                           else I.opaque('index of the samples'), 'float')]
    kw = {} if opt is None else {'bayesianMean': T.TRUE if opt[0] else T.FALSE, 'includePrior': T.TRUE if opt[1] else T.FALSE}
    it, res = call(ctx, con, 'cooccurrence', f, args, kw)
    ps = order(n)
    for s, v in res:
        want = [[T.scale(T.addn([T.mul(T.mul(r[a], r[b]), T.mul(r[c], r[d])) for r in x]), Fraction(1, M)) for c, d in ps] for a, b in ps]
        if opt is not None:
            if opt[0]:
                for q in range(len(ps)):
                    want[q][q] = T.scale(T.add(T.scale(want[q][q], M), T.ONE), Fraction(1, M+2))
            want = [[T.mul(w, T.sub(T.ONE, w)) for w in r] for r in want]
            if opt[1]:
                k = n*(n-1)//2
                want = [r+[T.ZERO]*k for r in want] + [[T.ZERO]*len(ps)+[T.ONE if a == b else T.ZERO for b in range(k)] for a in range(k)]
        expect_mat(ctx, 'cooccurrence', con, it, s, v, want)


def laplace(ctx):
    con = 'coniii/mean_field_ising.py:coocMatBayesianMean'
    c, N = ('sym', 'c'), ('sym', 'N')
    it, res = call(ctx, con, 'cooccurrence', 'coocMatBayesianMean', lambda it, st: [it.new_arr(st, (num(1), num(2)), lambda ix: idx('c', *[T.int_val(q) for q in ix]), 'float'), N])
    for s, v in res:
        expect_mat(ctx, 'cooccurrence', con, it, s, v, [[T.div(T.add(T.mul(idx('c', 0, k), N), T.ONE), T.add(N, num(2))) for k in (0, 1)]])


def stdevs(ctx):
    con = 'coniii/mean_field_ising.py:coocStdevsFlat'
    n, N = 3, ('sym', 'N')
    it, res = call(ctx, con, 'cooccurrence', 'coocStdevsFlat', lambda it, st: [sym_mat(it, st, 'c', n, diag=lambda i: idx('c', i, i)), N])

    def want(i, j):
        def g(env):
            c, k = evalnum(idx('c', i, j), env), evalnum(N, env)
            m = (c*k+1)/(k+2)
            return math.sqrt(m*(1-m)/k)
        return g

    def extra(t, k, env):
        if t == N:
            return 4.+k
        if t[0] == 'idx' and t[1] == 'c':
            return .1+((ord(repr(t)[-4])*3+ord(repr(t)[-2])*11+len(repr(t))*7+k*13) % 71)/90.
        return None
    for s, v in res:
        agree_vec(ctx, 'cooccurrence', con, it, s, v, [want(i, j) for i, j in order(n)], points(extra))


def delta(ctx):
    con = 'coniii/mean_field_ising.py:isingDeltaCooc'
    n, M = 3, 2

    def args(it, st):
        return [it.new_arr(st, (num(M), num(n)), lambda ix: idx('X', *[T.int_val(q) for q in ix]), 'float'), sym_mat(it, st, 'c', n, diag=lambda i: idx('c', i, i))]
    it, res = call(ctx, con, 'cooccurrence', 'isingDeltaCooc', args)
    for s, v in res:
        expect_vec(ctx, 'cooccurrence', con, it, s, v, [T.sub(T.scale(T.addn([T.mul(idx('X', a, i), idx('X', a, j)) for a in range(M)]), Fraction(1, M)), idx('c', i, j)) for i, j in order(n)])


# --------------------------------------------------------------- front end
def elogp(ctx, inv):
    con = 'coniii/samplers.py:check_e_logp rows %s' % (inv,)
    S, n, A = len(inv), 2, max(inv)+1
    first = [inv.index(a) for a in range(A)]

    def rows(it, st, args, kw, node):
        flag = args[1] if len(args) > 1 else kw.get('return_inverse', T.FALSE)
        x = inv if flag == T.TRUE else first if flag == T.FALSE else None
        if x is None:
            return [(st, I.opaque('return_inverse'))]
        return [(st, it.new_arr(st, (num(len(x)),), vec([num(q) for q in x]), 'int'))]

    def energy(it, st, args, kw, node):
        x = it.arr(st, args[0])
        d = None if x is None or len(x[0]) != 2 else T.int_val(x[0][0])
        if d is None:
            return I.opaque('energies of unknown states')
        els = [('fn', 'E', x[1]((num(k), T.ZERO)), x[1]((num(k), T.ONE))) for k in range(d)]
        return it.new_arr(st, (num(d),), vec(els), 'float')

    def build(it, st):
        return [it.new_arr(st, (num(S), num(n)), lambda ix: idx('X', inv[T.int_val(ix[0])], T.int_val(ix[1])), 'int'), I.Extern('calc_e', call=energy)], {}

    def judge(it, s, v):
        xs = one_of(it, s, v, 3)
        if xs is None:
            raise Undecided('returned value')
        R0 = Run(it, s, xs[0])
        d = R0.dims()
        if d is None or None in d:
            raise Undecided('states not modelled')
        if d != (A, n):
            return ctx.bad('front end', con, '%s states for %d different rows' % (d, A))
        which = []
        for k in range(A):
            q = [a for a in range(A) if (R0[k, 0], R0[k, 1]) == (idx('X', a, 0), idx('X', a, 1))]
            if len(q) != 1:
                raise Undecided('state %d not recognised' % k)
            which += q
        if sorted(which) != list(range(A)):
            return ctx.bad('front end', con, 'a state is listed twice')
        expect_vec(ctx, 'front end', con+' energies', it, s, xs[1], [('fn', 'E', idx('X', a, 0), idx('X', a, 1)) for a in which])
        agree_vec(ctx, 'front end', con+' log frequencies', it, s, xs[2], [T.log(num(Fraction(inv.count(a), S))) for a in which])
    evaluate(ctx, 'front end', con, SM, 'check_e_logp', build, judge, externs={'coniii.utils:unique_rows': rows, SM+':unique_rows': rows})


def easy(ctx, n, pair, par):
    con = 'coniii/samplers.py:sample_ising n=%d%s%s' % (n, ' pair' if pair else '', {None: '', False: ' sequential', True: ' parallel'}[par])
    P = n+n*(n-1)//2
    th = [idx('t', k) for k in range(P)]
    seed = ('sym', 'seed')
    T.INT_SYMS.add('seed')
    calls = []

    def sampled(name):
        def h(it, st, args, kw, node):
            o = args[0]
            at = st.heap[o.id].attrs
            calls.append((name, dict(at), list(args[1:]), dict(kw), st))
            st.events.append(('sampled', len(calls)-1))
            at = dict(at)
            at['sample'] = it.sym_array(st, 'SAMPLE%d' % (len(calls)-1), (num(5), num(n)), 'int')
            st.heap[o.id].attrs.update(at)
            return T.NONE
        return h
    r = ctx.find(SM, 'sample_ising')
    it = I.Interp(ctx.proj, unroll=512, lib=R.lib_table())
    for q in ('generate_sample', 'generate_sample_boost', 'generate_sample_py', 'generate_sample_parallel', 'generate_sample_parallel_boost', 'generate_sample_parallel_py'):
        it.externs[SM+':Metropolis.'+q] = sampled(q)
    st = I.State()
    arr = lambda xs: it.new_arr(st, (num(len(xs)),), vec(xs), 'float')
    mult = I.Tup([arr(th[:n]), arr(th[n:])]) if pair else arr(th)
    kw = {'seed': seed, 'generate_sample_kw': it.alloc(st, I.DictC({('str', 'n_iters'): num(17)}))}
    if par is not None:
        kw['parallel'] = T.TRUE if par else T.FALSE
    outs = it.run(func(r), [mult, num(5)], kw, st)
    res = normal(outs)
    if not res:
        if outs and all(o[0] == 'raise' for _, o in outs):
            return ctx.bad('front end', con, 'always raises %s' % (outs[0][1][1],))
        raise Undecided('no path returns')
    for s, v in res:
        mine = [calls[e[1]] for e in s.events if e[0] == 'sampled']
        if not mine:
            raise Undecided('no call of the sampler seen')
        if len(mine) > 1:
            raise Undecided('several calls of the sampler')
        name, at, args, ckw, st1 = mine[0]
        ctx.expect('front end', con+' size', None if not I.is_term(at.get('n', None)) else at['n'] == num(n), 'the sampler has %s spins' % short(at['n']) if I.is_term(at.get('n')) else '', 'n')
        d = Run(it, st1, at.get('theta')).dims() if at.get('theta') is not None else None
        if d is None or None in d:
            ctx.undecided('front end', con+' parameters', 'not modelled')
        else:
            expect_vec(ctx, 'front end', con+' parameters', it, st1, at['theta'], th)
        want = par is not False
        ctx.expect('front end', con+' routine', ('parallel' in name) == want, 'parallel=%s uses %s' % (par, name), name)
        size = args[0] if args else ckw.get('sample_size', ckw.get('nSamples'))
        ctx.expect('front end', con+' samples', None if size is None or not I.is_term(size) else size == num(5), 'asks for %s samples' % (short(size) if size is not None and I.is_term(size) else '?'), 'size')
        it_kw = ckw.get('n_iters', args[1] if len(args) > 1 else None)
        ctx.expect('front end', con+' options', it_kw == num(17), 'the options given are not handed on', 'options')
        ce = at.get('calc_e')
        x = it.new_arr(st1, (T.ONE, num(n)), lambda ix: idx('s', T.int_val(ix[1])) if T.int_val(ix[1]) is not None else I.opaque('site'), 'int')
        en = it.call(st1, ce, [x, it.new_arr(st1, (num(P),), vec(th), 'float')], {}, None) if ce is not None else []
        spec = T.neg(T.addn([T.mul(th[i], idx('s', i)) for i in range(n)] + [T.mul(th[n+k], T.mul(idx('s', i), idx('s', j))) for k, (i, j) in enumerate(pairs(n))]))
        if len(en) != 1:
            ctx.undecided('front end', con+' energy', 'not modelled')
        else:
            expect_vec(ctx, 'front end', con+' energy', it, en[0][0], en[0][1], [spec])
        g = at.get('rng')
        src = g.name if isinstance(g, I.Extern) else None
        ctx.expect('front end', con+' seed', None if src is None or '?' in src else src == 'rng:RandomState(%s)' % (seed,), 'the generator is %s' % src, 'seeded')
        Rv = Run(it, s, v)
        e0 = Rv[0, 0] if Rv.dims() is not None and len(Rv.dims()) == 2 else None
        nm = 'SAMPLE%d' % [e[1] for e in s.events if e[0] == 'sampled'][0]
        ctx.expect('front end', con+' result', None if e0 is None else e0 == idx(nm, 0, 0), 'returns something other than the sample drawn', 'the sample')
