"""Conditional sampling: the Python and compiled loops are interpreted with an abstract step for every pattern of fixed spins of small
systems; fixed spins must hold their values in every recorded state, only free spins may be updated (each equally likely), energies
must be those of the full state, and the recorded states and energies must be those of the chain."""
import itertools
from .. import terms as T
from .. import interp as I
from .. import rng as R
from ..project import Undecided
from .common import *
from . import c03, c04, native

LEVEL = 'proof'
SMP = 'coniii.samplers'


def patterns(n):
    out = []
    for k in range(1, n):
        for ix in itertools.combinations(range(n), k):
            out.append(tuple((i, 1 if (q + i) % 2 else -1) for q, i in enumerate(ix)))
    return out


def run(ctx):
    ctx.rule('F1', 'every recorded state holds the fixed spins at the values asked for')
    ctx.rule('F2', 'updated sites are exactly the free spins, equally likely (or cyclically in systematic mode)')
    ctx.rule('F3', 'each update continues the chain and is judged by the energy of the full state')
    ctx.rule('F4', 'free spins and energies recorded are those of the chain at the requested times, in spin order')
    ctx.rule('F5', 'the compiled conditional sampler gets indices, values, sample size, burn-in, interval and mode in the right roles')
    pats = patterns(4) if ctx.tier == 'quick' else patterns(4) + patterns(5)
    for fx in pats:
        n = 4 if max(i for i, _ in fx) < 4 else 5
        for S, N, B, syst in ((1, 1, 0, False), (3, 2, 1, False), (2, 3, 2, True)):
            con = 'coniii/samplers.py:Metropolis.generate_cond_sample_py fixed=%s S=%d N=%d B=%d%s' % (list(fx), S, N, B, ' systematic' if syst else '')
            ctx.guard('F3', con, py_cond, ctx, con, n, fx, S, N, B, syst)
        for S, N, B, syst in ((1, 1, 0, False), (2, 1, 1, False), (3, 2, 1, True), (2, 3, 2, True)):
            con = 'cpp/samplers.cpp:Sampler::generate_cond_sample fixed=%s S=%d N=%d B=%d%s' % (list(fx), S, N, B, ' systematic' if syst else '')
            ctx.guard('F3', con, native_cond, ctx, con, n, fx, S, N, B, syst)
        ctx.guard('F5', 'coniii/samplers.py:Metropolis.generate_cond_sample_boost', boost_cond, ctx, n, fx)
        ctx.guard('F3', 'coniii/samplers.py:define_jit_cond_calc_e', jit_cond, ctx, n, fx)


def full(state, fx, n):
    d = dict(fx)
    st = iter(state)
    return tuple(num(d[i]) if i in d else next(st) for i in range(n))


def step_extern(it, st, args, kw, node):
    names = ['self', 'sample0', 'E0', 'rng', 'flip_site', 'calc_e']
    v = dict(zip(names, args))
    v.update(kw)
    s = v['sample0']
    a = it.arr(st, s)
    m = T.int_val(a[0][0]) if a is not None and len(a[0]) == 1 else None
    if m is None:
        return I.opaque('state of a step')
    return c04.step_extern(m, None)(it, st, args, kw, node)


def pairlist(it, st, fx):
    return it.alloc(st, I.ListC([I.Tup((num(i), num(v))) for i, v in fx]))


def py_cond(ctx, con, n, fx, S, N, B, syst):
    m = n - len(fx)
    it, st, o, r, th = c04.sampler(ctx, 'Metropolis', n, 2, {SMP + ':Metropolis.sample_metropolis': step_extern})
    outs = c04.call(ctx, it, st, o, r, 'generate_cond_sample_py', [num(S), pairlist(it, st, fx)],
                    {'burn_in': num(B), 'n_iters': num(N), 'systematic_iter': T.TRUE if syst else T.FALSE})
    got = c04.one_path(ctx, 'F3', con, outs)
    if got is None:
        return
    s, ret = got
    steps = [e for e in s.events if e[0] == 'step']
    if not steps:
        raise Undecided('the step kernel is not called by name')
    if len(steps) != B + S * N:
        return ctx.bad('F4', con, '%d steps are taken; %d burn-in + %d x %d are required' % (len(steps), B, S, N))
    cur = steps[0][1]
    for t, e in enumerate(steps):
        if e[1] != cur:
            return ctx.bad('F3', con, 'step %d does not continue from the state the previous one left' % t)
        want = c04.E(full(e[1], fx, n))
        if e[3] is None or has_op(e[3]):
            return ctx.undecided('F3', con, 'energy of step %d' % t)
        if e[3] != want:
            return ctx.bad('F3', con, 'step %d is judged from energy %s; the full state has energy %s' % (t, short(e[3], 200), short(want)))
        if e[4] not in ('none', 'rng:self'):
            return ctx.bad('F3', con, 'step %d uses generator %s' % (t, e[4]))
        site = e[5]
        if syst:
            k = T.int_val(site) if I.is_term(site) else None
            if k is None:
                return ctx.undecided('F2', con, 'site')
            prev = T.int_val(steps[t - 1][5]) if t else None
            restart = t == 0 or (t >= B and (t - B) % N == 0)
            if not 0 <= k < m or not (prev is not None and k == (prev + 1) % m or restart and k == 0):
                return ctx.bad('F2', con, 'systematic iteration visits free spin %d after %s' % (k, prev))
        elif site != T.NONE:
            d = [x for x in s.events if x[0] == 'draw' and x[4] == site]
            if not d or d[0][2] != 'int':
                return ctx.undecided('F2', con, 'site')
            if d[0][3] != (T.ZERO, num(m)):
                return ctx.bad('F2', con, 'free spins are drawn from [%s)' % ', '.join(map(short, d[0][3])))
        # the energy function of the step must be the conditional one
        if e[6] is not None:
            x = it.new_arr(s, (T.ONE, num(m)), vec([T.sym('z%d' % q) for q in range(m)]), 'int')
            for s3, en in it.call(s.copy(), e[6], [x, th], {}):
                g = c03.scalar_of(it, s3, en)
                if g is None or has_op(g):
                    return ctx.undecided('F3', con, 'energy function of step')
                w = c04.E(full(tuple(T.sym('z%d' % i) for i in range(m)), fx, n))
                if g != w:
                    return ctx.bad('F3', con, 'the energy function of the steps gives %s for free spins z; the full state has %s' % (short(g), short(w)))
        else:
            return ctx.bad('F3', con, 'steps use the unconditional energy function on the free spins')
        cur = e[2]
    ctx.ok('F3', con)
    ctx.ok('F2', con)
    at = s.heap[o.id].attrs
    A = Run(it, s, at.get('sample'))
    d = A.dims()
    if d is None:
        raise Undecided('sample not modelled')
    if d != (S, n):
        return ctx.bad('F4', con, 'the sample has shape %s' % (d,))
    En = Run(it, s, at.get('E'))
    fixed = dict(fx)
    for i in range(S):
        want = full(steps[B + (i + 1) * N - 1][2], fx, n)
        for j in range(n):
            compare(ctx, 'F1' if j in fixed else 'F4', con + ' row %d spin %d' % (i, j), A[i, j], want[j])
        e = En[i] if En.dims() is not None else None
        compare(ctx, 'F4', con + ' energy %d' % i, c03.scalar_of(it, s, e) if e is not None else None, c04.E(want), red=c04.free)


def has_op(t):
    return any(x[0] == 'opaque' for x in T.subterms(t))


def native_cond(ctx, con, n, fx, S, N, B, syst):
    free = [i for i in range(n) if i not in dict(fx)]
    it, mod, s0, o, cls = c04.native_setup(ctx, 'Ising', n)
    fixed = dict(fx)

    def go():
        it.plan = cell[0]
        st = s0.copy()
        ix = native.const_arr(it, st, [i for i, _ in fx])
        vals = native.const_arr(it, st, [v for _, v in fx])
        try:
            outs = native.call_method(ctx, it, mod, st, o, cls, 'generate_cond_sample', [ix, vals, num(S), num(B), num(N), T.TRUE if syst else T.FALSE])
        finally:
            it.plan = None
        return outs
    cell = [()]
    dist = {}
    for p, plan, outs in c03.explore(go, cell):
        got = c04.one_path(ctx, 'F3', con, outs)
        if got is None:
            return
        s = got[0]
        steps = [e for e in s.events if e[0] == 'step']
        if not steps:
            raise Undecided('the step kernel is not called by name')
        if len(steps) != B + S * N:
            return ctx.bad('F4', con, '%d steps are taken; %d burn-in + %d x %d are required' % (len(steps), B, S, N))
        cur = tuple(num(fixed[i]) if i in fixed else idx('x0', i) for i in range(n))
        pos = None
        for t, e in enumerate(steps):
            if e[1] != cur:
                if any(has_op(x) for x in e[1]):
                    raise Undecided('state of step')
                if t == 0:
                    return ctx.bad('F1', con, 'the chain starts from %s instead of %s' % (c03.fmtstate(e[1]), c03.fmtstate(cur)))
                return ctx.bad('F3', con, 'step %d does not continue from the state the previous one left' % t)
            k = T.int_val(e[5])
            if k is None:
                raise Undecided('site %s' % short(e[5], 80))
            if k not in free:
                return ctx.bad('F2', con, 'spin %d is updated although %s' % (k, 'it is fixed' if k in fixed else 'it does not exist'))
            if syst:
                q = free.index(k)
                restart = t == 0 or (t >= B and (t - B) % N == 0)
                if not (pos is not None and q == (pos + 1) % len(free) or restart and q == 0):
                    return ctx.bad('F2', con, 'systematic iteration visits free spin number %d after %s' % (q, pos))
                pos = q
            cur = e[2]
        sites = tuple(T.int_val(e[5]) for e in steps)
        dist[sites] = dist.get(sites, 0) + p
        rows = c04.native_sample(it, s, o, n)
        if len(rows) != S:
            return ctx.bad('F4', con, '%d rows are recorded instead of %d' % (len(rows), S))
        for i in range(S):
            want = steps[B + (i + 1) * N - 1][2]
            if rows[i] != tuple(want):
                if any(has_op(x) for x in rows[i]):
                    raise Undecided('row')
                return ctx.bad('F4', con, 'row %d is %s, the chain is at %s' % (i, c03.fmtstate(rows[i]), c03.fmtstate(want)))
    if not syst:
        exp = set(itertools.product(free, repeat=B + S * N))
        if set(dist) != exp or len(set(dist.values())) != 1:
            return ctx.bad('F2', con, 'update sites are not uniform over the free spins %s: %d of %d sequences' % (free, len(dist), len(exp)))
    ctx.ok('F2', con)
    ctx.ok('F3', con)
    ctx.ok('F4', con)
    ctx.ok('F1', con, 'initial state holds the fixed spins and no step touches them')


def boost_cond(ctx, n, fx):
    for par in (False, True):
        for S, N, B, syst in ((5, 7, 11, True), (3, 2, 0, False)):
            con = 'coniii/samplers.py:Metropolis.generate_cond_sample_boost fixed=%s S=%d N=%d B=%d parallel=%s' % (list(fx), S, N, B, par)
            ctx.guard('F5', con, boost_cond_one, ctx, con, n, fx, S, N, B, syst, par)


def boost_cond_one(ctx, con, n, fx, S, N, B, syst, par):
    it, st, o, r, th = c04.sampler(ctx, 'Metropolis', n, 2, {SMP + ':BoostIsing': c04.fake_native(n)})
    outs = c04.call(ctx, it, st, o, r, 'generate_cond_sample_boost', [num(S), pairlist(it, st, fx)],
                    {'burn_in': num(B), 'n_iters': num(N), 'systematic_iter': T.TRUE if syst else T.FALSE, 'parallel': T.TRUE if par else T.FALSE})
    got = c04.one_path(ctx, 'F5', con, outs)
    if got is None:
        return
    s = got[0]
    gens = [e for e in s.events if e[0] == 'native_cond']
    if not gens:
        raise Undecided('native call not recognised')
    for e in gens:
        if len(e[2]) != 6 or e[3]:
            raise Undecided('native call signature')
        ix = [it.elem(s, e[2][0], (num(q),)) for q in range(len(fx))]
        vs = [it.elem(s, e[2][1], (num(q),)) for q in range(len(fx))]
        d = Run(it, s, e[2][0]).dims(), Run(it, s, e[2][1]).dims()
        ok = ix == [num(i) for i, _ in fx] and vs == [num(v) for _, v in fx] and d == ((len(fx),), (len(fx),))
        if any(has_op(x) for x in ix + vs):
            raise Undecided('fixed spins')
        ctx.expect('F5', con + ' fixed spins', ok, 'the compiled sampler is told to fix spins %s at %s' % (list(map(short, ix)), list(map(short, vs))))
        want = (num(B), num(N), T.TRUE if syst else T.FALSE)
        ctx.expect('F5', con, e[2][3:] == want, 'the compiled sampler is called with (burn_in, n_iters, systematic) = (%s)' % ', '.join(short(x) for x in e[2][3:] if I.is_term(x)))
    A = Run(it, s, s.heap[o.id].attrs.get('sample'))
    if A.dims() is None:
        raise Undecided('sample')
    ctx.expect('F4', con, A.dims() == (S, n), 'the sample has shape %s' % (A.dims(),))


def jit_cond(ctx, n, fx):
    m = n - len(fx)
    con = 'coniii/samplers.py:define_jit_cond_calc_e fixed=%s' % (list(fx),)
    r = ctx.find(SMP, 'define_jit_cond_calc_e', False)
    if r is None:
        return
    it = I.Interp(ctx.proj, unroll=4096)
    st = I.State()
    flat = native.const_arr(it, st, [q for p in fx for q in p])
    th = it.sym_array(st, 'th', (num(3),))
    outs = normal(it.run(func(r), [num(n), c03.energy_extern('E', 'th', 3), flat], {}, st))
    if len(outs) != 1:
        raise Undecided('factory')
    s, f = outs[0]
    x = it.sym_array(s, 'z', (T.ONE, num(m)), 'int')
    for s2, v in it.call(s, f, [x, th], {}):
        g = c03.scalar_of(it, s2, v)
        compare(ctx, 'F3', con, g, c04.E(full(tuple(idx('z', 0, i) for i in range(m)), fx, n)), red=c04.free)
