"""Replica exchange.  ParallelTempering is interpreted with the Metropolis runs of the replicas represented by generic states and energies:
temperatures, parameters, burn-in, exchanges (condition, what is swapped, energies afterwards), records and the adaptation of the temperatures
are compared with the exchange rule at points covering accepted and refused exchanges."""
import random
from fractions import Fraction
from math import exp
from .. import terms as T
from .. import interp as I
from .. import libmodel as LM
from .. import rng, pool
from ..project import Undecided
from ..ctx import equal, short, fmt
from .common import *
from .solve import flat
from . import c13

LEVEL = 'proof'
SM = 'coniii.samplers'
PT = 'coniii/samplers.py:ParallelTempering'


def machine(ctx, optimize=False):
    def burn(it, st, a, kw, node):
        names = ('self', 'sample_size', 'n_iters', 'burn_in', 'systematic_iter', 'saveHistory', 'initial_sample')
        b = dict(zip(names, a))
        b.update(kw)
        me = b['self']
        if T.int_val(b.get('sample_size', T.NONE)) != 1:
            raise Undecided('replicas run for several records')
        n = T.int_val(it.getattr(st, me, 'n'))
        th = flat(it, st, it.getattr(st, me, 'theta'))
        prev = b.get('initial_sample')
        if prev is None or prev == T.NONE:
            prev = it.getattr(st, me, '_samples')
        pv = it.arr(st, prev) if prev != T.NONE else None
        name = pv[1]((T.ZERO, T.ZERO)) if pv is not None and len(pv[0]) == 2 else None
        k = sum(1 for e in st.events if e[0] == 'burn')
        g = it.getattr(st, me, 'rng')
        st.events.append(('burn', k, it.getattr(st, me, 'index') if 'index' in st.heap[me.id].attrs else None, th, b.get('n_iters'), name, g.name if isinstance(g, I.Extern) else None))
        it.setattr(st, me, '_samples', it.sym_array(st, 'x%d' % k, (num(1), num(n)), 'int'))
        it.setattr(st, me, 'sample', it.sym_array(st, 'x%d' % k, (num(1), num(n)), 'int'))
        it.setattr(st, me, 'E', it.sym_array(st, 'E%d' % k, (num(1),), 'float'))
        return T.NONE
    ext = {SM+':Metropolis.generate_sample_py': burn}
    if not optimize:
        ext[SM+':ParallelTempering.optimize_beta'] = lambda it, st, a, kw, node: T.NONE
    it = I.Interp(ctx.proj, unroll=4096, externs=ext, lib=dict(LM.TABLE, **dict(rng.lib_table(), **pool.lib_table())))
    it.fork_while = it.max_paths = 2000
    return it


def build(ctx, it, R, n, kw=None):
    r = ctx.find(SM, 'ParallelTempering')
    st = I.State()
    it.raised = []
    a = {'Tbds': I.Tup([num(Fraction(1, 2)), num(4)]), 'replica_burnin': num(11), 'rep_ex_burnin': num(3), 'rng': c13.RNG0}
    a.update(kw or {})
    N = n+n*(n-1)//2
    res = it.call(st, I.Cls(r), [num(n), it.sym_array(st, 't', (num(N),)), I.Extern('calc_e', lambda it, st, a, kw, node: I.opaque('energy')), num(R)], a, None)
    if len(res) != 1:
        raise Undecided('%d ways through the constructor' % len(res))
    return res[0]


def replicas(it, s, o):
    r = it.items_of(s, it.getattr(s, o, 'replicas'))
    if r is None:
        raise Undecided('replicas not modelled')
    return r


def method(it, s, o, name):
    f = it.getattr(s, o, name)
    if not isinstance(f, I.Func):
        raise Undecided('method ' + name)
    return f


def burns(s):
    return [e for e in s.events if e[0] == 'burn']


def mark(v):
    """number of the run a state comes from"""
    if v is not None and v[0] == 'idx' and v[1][0] == 'x':
        return int(v[1][1:])
    return None


def state_of(it, s, rep, name):
    a = it.arr(s, it.getattr(s, rep, name))
    if a is None or len(a[0]) != 2:
        raise Undecided(name + ' of a replica')
    ms = {mark(a[1]((T.ZERO, num(j)))) for j in range(T.int_val(a[0][1]))}
    if len(ms) != 1 or None in ms:
        raise Undecided(name + ' of a replica')
    return ms.pop()


def setup(ctx, R, n):
    con = '%s.__init__ n=%d, %d replicas' % (PT, n, R)
    it = machine(ctx)
    s, o = build(ctx, it, R, n)
    beta = [Fraction(1, 4)+(2-Fraction(1, 4))*Fraction(i, R-1) for i in range(R)]
    got = flat(it, s, it.getattr(s, o, 'beta'))
    if got is None or len(got) != R:
        ctx.expect('temperatures', con, None if got is None else False, '%s temperatures' % (len(got) if got else '?'), '')
        return
    for i in range(R):
        compare(ctx, 'temperatures', '%s, inverse temperature %d' % (con, i), got[i], num(beta[i]))
    reps = replicas(it, s, o)
    N = n+n*(n-1)//2
    for i, r in enumerate(reps):
        th = flat(it, s, it.getattr(s, r, 'theta'))
        if th is None or len(th) != N:
            ctx.undecided('temperatures', con, 'parameters of replica %d' % i)
            continue
        for j in range(N):
            compare(ctx, 'temperatures', '%s, replica %d parameter %d' % (con, i, j), th[j], T.scale(idx('t', j), beta[i]))
        compare(ctx, 'exchange', '%s, replica %d index' % (con, i), it.getattr(s, r, 'index'), num(i))
        k = state_of(it, s, r, '_samples')
        e = burns(s)[k]
        ctx.expect('burn-in', '%s, replica %d' % (con, i), e[4] == num(11), 'the last burn-in of replica %d takes %s iterations' % (i, short(e[4])), '')
    s2, o2 = build(ctx, machine(ctx), R, n, {'replica_burnin': T.NONE, 'rep_ex_burnin': T.NONE})
    ctx.expect('burn-in', con + ', default', all(e[4] == num(50*n) for e in burns(s2)[:R]), 'the default burn-in is %s iterations' % short(burns(s2)[0][4]), '')
    gs = [e[6] for e in burns(s)[:R]]
    ctx.expect('independence', con, None if None in gs else len(set(gs)) == R, 'replicas share a random number generator', '%d generators' % R)
    ctx.analysed.add('%s:ParallelTempering.__init__, setup_replicas, burn_in_replicas' % SM)


class Pt:
    def __init__(self, seed, width, defs=()):
        self.seed, self.width, self.defs, self.c = seed, width, defs, {}

    def __call__(self, t):
        if t[0] == 'idx' and isinstance(t[1], str):
            ix = [T.int_val(x) for x in t[2]]
            if None in ix:
                return None
            if t[1] in self.defs:
                if t[1] not in self.c:
                    x, y = self.defs[t[1]]
                    self.c[t[1]] = step([evalnum(v, self) for v in x], [evalnum(v, self) for v in y])
                return self.c[t[1]][ix[0]]
            key = '%s %s' % (t[1], ix)
        elif t[0] == 'sym' and t[1][:2] == 'd#':
            key = t[1]
        elif t[0] == 'fn' and t[1] == 'inf':
            return float('inf')
        else:
            return None
        r = random.Random('%d %s' % (self.seed, key))
        nm = key.split()[0]
        if nm[0] == 'E':
            return r.uniform(-self.width, self.width)
        if nm[0] == 'b':
            return .3+.4*ix[0]+r.uniform(0, .3)
        if nm[0] in 'dD':
            return r.random()
        if nm[0] == 'x':
            return float(int(nm[1:]))*10+ix[-1]
        if nm[0] in 'ta':
            return r.uniform(-1, 1) if nm[0] == 't' else r.uniform(.05, 1)
        return None


WIDTH = [.3, 1., 3., 10.]


def live(outs, pt):
    return [(s, v) for s, v in outs if all(evalnum(c, pt) for c in s.pc)]


def one_live(it, outs, pt):
    r = live(outs, pt)
    if len(r) != 1:
        raise Undecided('%d paths at one point' % len(r))
    return r[0]


def draws(s, since):
    out = []
    for e in s.events[since:]:
        if e[0] == 'draw':
            if e[2] != 'unit' or e[4] is None:
                raise Undecided('a draw that is not uniform on the unit interval')
            if e[4][0] == 'arr':
                raise Undecided('an array of draws')
            out.append((e[1], e[4]))
    return out


def ratio(b, e, i, j):
    x = (b[i]-b[j])*(e[i]-e[j])
    return 1.0 if x >= 0 else exp(x)


def prepared(ctx, it, R, n, con):
    """sampler with symbolic inverse temperatures set on it and on the replicas"""
    s, o = build(ctx, it, R, n)
    it.setattr(s, o, 'beta', it.sym_array(s, 'b', (num(R),)))
    outs = it.call(s, method(it, s, o, 'update_replica_parameters'), [], {}, None)
    if len(outs) != 1:
        raise Undecided('update_replica_parameters')
    s = outs[0][0]
    N = n+n*(n-1)//2
    for i, r in enumerate(replicas(it, s, o)):
        th = flat(it, s, it.getattr(s, r, 'theta'))
        for j in range(N):
            if th is None:
                ctx.undecided('temperatures', con, 'parameters of replica %d' % i)
                break
            compare(ctx, 'temperatures', '%s.update_replica_parameters, replica %d of %d parameter %d' % (PT, i, R, j), th[j], T.mul(idx('t', j), idx('b', i)))
    return s, o


def scalar_e(it, s, rep, pt):
    v = it.getattr(s, rep, 'E')
    if I.is_term(v):
        return evalnum(v, pt)
    e = flat(it, s, v)
    if e is None or len(e) != 1:
        raise Undecided('energy of a replica')
    return evalnum(e[0], pt)


def rounds(ctx, R, n, T_, history, points=40):
    """generate_sample(T_): T_ times burn in, exchange, record"""
    con = '%s.generate_sample %d replicas, %d records%s' % (PT, R, T_, ', trajectory' if history else '')
    it = machine(ctx)
    s, o = prepared(ctx, it, R, n, con)
    since, b0 = len(s.events), len(burns(s))
    old = [(state_of(it, s, r, '_samples'), it.getattr(s, r, 'index')) for r in replicas(it, s, o)]
    it.raised = []
    outs = it.call(s, method(it, s, o, 'generate_sample'), [num(T_)], {'save_exchange_trajectory': T.TRUE} if history else {}, None)
    # one more burn-in shows which states the replicas go on from
    ends = []
    for s1, v in outs:
        for s2, _ in it.call(s1.copy(), method(it, s1, o, 'burn_in_replicas'), [], {'n_iters': num(5)}, None):
            ends.append((s2, (s1, v)))
    ctx.analysed.add('%s:ParallelTempering.generate_sample, burn_and_exchange, _acceptance_ratio' % SM)
    if not outs:
        ctx.bad('exchange', con, 'always raises on valid input')
        return
    kinds, odd = set(), False
    for k in range(points):
        pt = Pt(k, WIDTH[k % len(WIDTH)])
        try:
            s2, (s1, v) = one_live(it, ends, pt)
            us = draws(s1, since)
            if any(x != 'rng0' for x, _ in us):
                ctx.bad('independence', con, 'the exchange is decided with another generator: %s' % sorted({x for x, _ in us}))
                return
            plain = len(us) == T_*(R-1)
            odd = odd or not plain
            # with another number of draws only points at which every exchange is certain or impossible are compared
            us = [evalnum(u, pt) for _, u in us] if plain else [.5]*(T_*(R-1))
            skip = False
            b = [pt(idx('b', i)) for i in range(R)]
            bs = burns(s1)[b0:]
            if len(bs) != T_*R:
                ctx.bad('burn-in', con, '%d Metropolis runs instead of %d' % (len(bs), T_*R))
                return
            cur = list(old)
            rows, trace = [[] for _ in range(R)], []
            for t in range(T_):
                e = []
                for i in range(R):
                    q = bs[t*R+i]
                    if mark(q[5]) != cur[i][0]:
                        ctx.bad('exchange', con, 'round %d: replica %d does not go on from the state it holds' % (t, i))
                        return
                    if q[4] != num(3):
                        ctx.bad('burn-in', con, '%s iterations between exchanges instead of 3' % short(q[4]))
                        return
                    th = [evalnum(x, pt) for x in q[3]]
                    if any(abs(x-pt(idx('t', j))*b[i]) > 1e-9 for j, x in enumerate(th)):
                        ctx.bad('temperatures', con, 'round %d: replica %d does not run at its own temperature' % (t, i))
                        return
                    cur[i] = (q[1], cur[i][1])
                    e.append(pt(idx('E%d' % q[1], 0))/b[i])
                for i in range(R-1):
                    skip = skip or not plain and 1e-12 < ratio(b, e, i, i+1) < 1
                    if us[t*(R-1)+i] < ratio(b, e, i, i+1):
                        cur[i], cur[i+1] = cur[i+1], cur[i]
                        e[i], e[i+1] = e[i+1], e[i]
                        kinds.add((t, i))
                for i in range(R):
                    rows[i].append(cur[i][0])
                trace.append([evalnum(c[1], pt) for c in cur])
                if skip:
                    break
            if skip:
                continue
            smp = it.items_of(s1, it.getattr(s1, o, 'sample'))
            if smp is None or len(smp) != R:
                raise Undecided('records')
            for i in range(R):
                a = it.arr(s1, smp[i])
                if a is None or [T.int_val(x) for x in a[0]] != [T_, n]:
                    raise Undecided('records of replica %d' % i)
                for t in range(T_):
                    g = [evalnum(a[1]((num(t), num(j))), pt) for j in range(n)]
                    if g != [rows[i][t]*10.+j for j in range(n)]:
                        ctx.bad('records', con, 'record %d of replica %d is not the state it holds after the exchange' % (t, i))
                        return
            if history:
                a = it.arr(s1, v)
                if a is None or [T.int_val(x) for x in a[0]] != [T_, R]:
                    raise Undecided('trajectory')
                if any(evalnum(a[1]((num(t), num(i))), pt) != trace[t][i] for t in range(T_) for i in range(R)):
                    ctx.bad('records', con, 'the trajectory does not say which replica is at which temperature')
                    return
            for i, r in enumerate(replicas(it, s1, o)):
                if state_of(it, s1, r, 'sample') != cur[i][0] or state_of(it, s1, r, '_samples') != cur[i][0]:
                    ctx.bad('exchange', con, 'replica %d does not hold the exchanged state' % i)
                    return
                if evalnum(it.getattr(s1, r, 'index'), pt) != evalnum(cur[i][1], pt):
                    ctx.bad('exchange', con, 'the index of replica %d is not that of its state' % i)
                    return
                if abs(scalar_e(it, s1, r, pt)-e[i]*b[i]) > 1e-8*(1+abs(e[i])):
                    ctx.bad('exchange', con, 'the energy of replica %d is not the energy of its state at its temperature' % i)
                    return
            last = burns(s2)[-R:]
            for i in range(R):
                if mark(last[i][5]) != cur[i][0]:
                    ctx.bad('exchange', con, 'after the exchange replica %d goes on from another state' % i)
                    return
        except (NoValue, TypeError, OverflowError, ZeroDivisionError, ValueError) as ex:
            ctx.undecided('exchange', con, 'value %s' % ex)
            return
    if odd:
        ctx.undecided('exchange', con, 'another number of draws than pairs')
        return
    for rule in ('exchange', 'records', 'burn-in', 'temperatures', 'independence'):
        ctx.ok(rule, con, '%d points, %d paths, %d exchanges met' % (points, len(outs), len(kinds)))


def acceptance(ctx, R, K, pairs, points=24):
    con = '%s._acceptance_ratio %d replicas, %d samples%s' % (PT, R, K, '' if pairs is None else ', pairs %s' % pairs)
    it = machine(ctx)
    s, o = prepared(ctx, it, R, 2, con)
    b0 = len(burns(s))
    kw = {'pairs': it.alloc(s, I.ListC([I.Tup([num(a), num(c)]) for a, c in pairs]))} if pairs else {}
    outs = it.call(s, method(it, s, o, '_acceptance_ratio'), [num(K), num(7)], kw, None)
    ps = pairs or [(i, i+1) for i in range(R-1)]
    for k in range(points):
        pt = Pt(k, WIDTH[k % len(WIDTH)])
        try:
            s1, v = one_live(it, outs, pt)
            bs = burns(s1)[b0:]
            got = flat(it, s1, v)
            if got is None:
                raise Undecided('result')
            if len(bs) != K*R or any(q[4] != num(7) for q in bs):
                ctx.bad('adaptation', con, '%d Metropolis runs with %s iterations' % (len(bs), [short(q[4]) for q in bs[:1]]))
                return
            b = [pt(idx('b', i)) for i in range(R)]
            want = []
            for i, j in ps:
                z = 0
                for t in range(K):
                    e = [pt(idx('E%d' % bs[t*R+q][1], 0))/b[q] for q in range(R)]
                    z += ratio(b, e, i, j)/K
                want.append(z)
            if len(got) != len(want):
                ctx.bad('adaptation', con, '%d ratios instead of %d' % (len(got), len(want)))
                return
            for i, (g, w) in enumerate(zip(got, want)):
                if abs(evalnum(g, pt)-w) > 1e-8:
                    ctx.bad('adaptation', con, 'ratio %d is %.6g instead of %.6g' % (i, evalnum(g, pt), w))
                    return
        except (NoValue, TypeError, OverflowError, ZeroDivisionError, ValueError) as ex:
            ctx.undecided('adaptation', con, 'value %s' % ex)
            return
    ctx.ok('adaptation', con, '%d points' % points)


def step(b, a):
    """new inverse temperatures from acceptance ratios"""
    m = sum(a)/len(a)
    out = list(b)
    for i in range(len(b)-1, 0, -1):
        out[i-1] = out[i]-(b[i]-b[i-1])*a[i-1]/m
    return out


def iterate(ctx, R):
    con = '%s.iterate_beta %d replicas' % (PT, R)
    it = machine(ctx)
    s, o = build(ctx, it, R, 2)
    b, a = it.sym_array(s, 'b', (num(R),)), it.sym_array(s, 'a', (num(R-1),))
    f = it.getattr(s, o, 'iterate_beta')
    outs = it.call(s, f, [b, a], {}, None)
    ctx.analysed.add('%s:ParallelTempering.iterate_beta' % SM)
    for k in range(8):
        pt = Pt(k, 1.)
        try:
            s1, v = one_live(it, outs, pt)
            got = [evalnum(x, pt) for x in flat(it, s1, v) or []]
            want = step([pt(idx('b', i)) for i in range(R)], [pt(idx('a', i)) for i in range(R-1)])
        except (NoValue, TypeError, OverflowError, ZeroDivisionError, ValueError) as ex:
            ctx.undecided('adaptation', con, 'value %s' % ex)
            return
        if len(got) != len(want) or any(abs(x-y) > 1e-8*(1+abs(y)) for x, y in zip(got, want)):
            ctx.bad('adaptation', con, 'inverse temperatures %s instead of %s' % (got, want))
            return
        for s1, v in live(outs, pt):
            for i, x in enumerate(flat(it, s1, b)):
                compare(ctx, 'adaptation', '%s, argument %d afterwards' % (con, i), x, idx('b', i))
    ctx.ok('adaptation', con, 'temperatures from acceptance ratios')


def optimise(ctx, R, K, most, tol, points=24):
    con = '%s.optimize_beta %d replicas, %d samples, at most %d rounds, tolerance %s' % (PT, R, K, most, tol)
    it = machine(ctx)
    s, o = prepared(ctx, it, R, 2, con)
    it.externs.pop(SM+':ParallelTempering.optimize_beta')
    b0 = len(burns(s))
    defs = {}

    def named(it, st, a, kw, node):
        # the adapted temperatures get names; what they stand for is worked out at each point
        x, y = (flat(it, st, v) for v in a[:2]) if len(a) == 2 and not kw else (None, None)
        if x is None or y is None or len(x) != R or len(y) != R-1:
            raise Undecided('iterate_beta called in another way')
        k = 'q%d_%d' % (len(defs), len(x))
        defs[k] = (x, y)
        return it.sym_array(st, k, (num(R),), 'float')
    it.externs[SM+':ParallelTempering.iterate_beta'] = named
    f = method(it, s, o, 'optimize_beta')
    outs = it.call(s, f, [num(K), num(7)], {'tol': num(tol), 'max_iter': num(most)}, None)
    ctx.analysed.add('%s:ParallelTempering.optimize_beta' % SM)
    seen = set()
    for k in range(points):
        pt = Pt(k, WIDTH[k % len(WIDTH)], defs)
        try:
            s1, v = one_live(it, outs, pt)
            b = [pt(idx('b', i)) for i in range(R)]
            bs = burns(s1)[b0:]
            pos, last, n = 0, None, 0
            while n < most and (last is None or sum(abs(x-y) for x, y in zip(last, b))/R > tol):
                a = [0.0]*(R-1)
                for t in range(K):
                    run = bs[pos:pos+R]
                    pos += R
                    if len(run) < R:
                        ctx.bad('adaptation', con, 'stops after %d rounds although the temperatures still change' % n)
                        return
                    for i, q in enumerate(run):
                        if any(abs(evalnum(x, pt)-pt(idx('t', j))*b[i]) > 1e-9 for j, x in enumerate(q[3])):
                            ctx.bad('adaptation', con, 'round %d: replica %d does not run at its current temperature' % (n, i))
                            return
                    e = [pt(idx('E%d' % q[1], 0))/b[i] for i, q in enumerate(run)]
                    for i in range(R-1):
                        a[i] += ratio(b, e, i, i+1)/K
                last, b = b, step(b, a)
                n += 1
            seen.add(n)
            if pos != len(bs):
                ctx.bad('adaptation', con, 'goes on although the temperatures have settled or the limit is reached')
                return
            got = [evalnum(x, pt) for x in flat(it, s1, it.getattr(s1, o, 'beta'))]
            if any(abs(x-y) > 1e-8*(1+abs(y)) for x, y in zip(got, b)):
                ctx.bad('adaptation', con, 'inverse temperatures %s instead of %s' % (got, b))
                return
            for i, r in enumerate(replicas(it, s1, o)):
                th = [evalnum(x, pt) for x in flat(it, s1, it.getattr(s1, r, 'theta'))]
                if any(abs(x-pt(idx('t', j))*b[i]) > 1e-8 for j, x in enumerate(th)):
                    ctx.bad('temperatures', con, 'replica %d is left at another temperature' % i)
                    return
        except (NoValue, TypeError, OverflowError, ZeroDivisionError, ValueError) as ex:
            ctx.undecided('adaptation', con, 'value %s' % ex)
            return
    ctx.ok('adaptation', con, '%d points, %d paths, rounds %s' % (points, len(outs), sorted(seen)))
    ctx.ok('temperatures', con, 'replicas follow')


def run(ctx):
    thorough = ctx.tier == 'thorough'
    ctx.rule('temperatures', 'inverse temperatures are evenly spaced between the bounds, lowest temperature last, and every replica runs at the parameters times its own inverse temperature')
    ctx.rule('burn-in', 'replicas are burned in before sampling and run the given number of iterations between exchanges')
    ctx.rule('exchange', 'neighbouring replicas exchange with probability min(1, exp((b-b\')(E-E\'))), one draw per pair in order; states, indices and energies move together')
    ctx.rule('records', 'after each round every replica records the state it then holds; the trajectory lists the indices')
    ctx.rule('independence', 'each replica has its own generator and exchanges use the generator of the sampler')
    ctx.rule('adaptation', 'temperatures are adapted from the measured acceptance ratios, keeping the lowest temperature, until they settle or the limit is reached')
    for R in (2, 3, 4):
        for n in (2, 3):
            ctx.guard('temperatures', '%s.__init__ %d replicas' % (PT, R), setup, ctx, R, n)
    for R, t in ((2, 1), (2, 2), (3, 1), (3, 2), (4, 1)) + (((2, 3), (5, 1)) if thorough else ()):
        for h in (False, True):
            ctx.guard('exchange', '%s.generate_sample %d replicas, %d records' % (PT, R, t), rounds, ctx, R, 2, t, h)
    for R, K, p in ((2, 1, None), (3, 2, None), (3, 1, [(0, 2)]), (4, 3, [(1, 2), (0, 1)])):
        ctx.guard('adaptation', '%s._acceptance_ratio' % PT, acceptance, ctx, R, K, p)
    for R in (2, 3, 5):
        ctx.guard('adaptation', '%s.iterate_beta' % PT, iterate, ctx, R)
    for R, K, m, tol in ((3, 1, 1, Fraction(1, 100)), (3, 2, 2, Fraction(1, 10)), (2, 1, 3, Fraction(1, 20)), (4, 1, 3, Fraction(1, 100))):
        ctx.guard('adaptation', '%s.optimize_beta' % PT, optimise, ctx, R, K, m, tol)
