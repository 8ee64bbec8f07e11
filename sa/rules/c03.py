"""Every single-step Metropolis kernel (Ising and Potts, Python and compiled) is interpreted path by path for symbolic parameters and
every possible proposal: the proposal distribution must be symmetric and able to reach every other state of the site, the energy
difference handed back must be exactly the difference of the energy function, the state must be left either at the proposal or
untouched with zero returned, and the extracted acceptance guard must be min(1, exp(-dE))."""
import itertools
import math
from fractions import Fraction
from .. import terms as T
from .. import interp as I
from .. import rng as R
from ..project import Undecided
from .common import *
from . import c02, native

LEVEL = 'proof'
SMP = 'coniii.samplers'


def run(ctx):
    ctx.rule('M1', 'a step proposes by a symmetric rule that changes one site and can reach every other value of that site')
    ctx.rule('M2', 'after a step the state is the proposal and the returned value is E(proposal)-E(state), or the state is untouched and 0 is returned')
    ctx.rule('M3', 'a proposal is kept exactly when dE <= 0 or u < exp(-dE) for the uniform draw u of that step')
    ctx.rule('M4', 'the energy is evaluated at the current parameters of the sampler, or with the energy function passed in')
    ctx.rule('M5', 'the energy changes to all single-flip neighbours equal the differences of the energy function')
    for n in (2, 3, 4):
        for own in (False, True):
            con = 'coniii/samplers.py:Metropolis.sample_metropolis n=%d %s' % (n, 'own calc_e' if own else 'passed calc_e')
            ctx.guard('M2', con, python_step, ctx, con, 'Metropolis', n, own, None)
    for n in (1, 2, 3):
        for own in (False, True):
            con = 'coniii/samplers.py:Potts3.sample_metropolis n=%d %s' % (n, 'own calc_e' if own else 'passed calc_e')
            ctx.guard('M2', con, python_step, ctx, con, 'Potts3', n, own, 3)
    ctx.guard('M2', 'coniii/samplers.py:_jit_sample_metropolis', jit_step, ctx)
    for cname, sizes in (('Ising', (2, 3, 4)), ('Potts3', (2, 3))):
        for n in sizes:
            con = 'cpp/samplers.cpp:%s::sample_metropolis n=%d' % (cname, n)
            ctx.guard('M2', con, native_step, ctx, con, cname, n)
    ctx.guard('M5', 'coniii/ising/utils.py:Ising.neighbor_dE', neighbor, ctx)


# ------------------------------------------------------------------ judging a step
class Step:
    """paths of one step from a concrete/symbolic start under one plan of integer draws"""

    def __init__(self, start, prob, paths):
        self.start, self.prob, self.paths = start, prob, paths     # paths: (pc, final elements, returned term, events)


DGRID = [Fraction(x) for x in ('-5', '-1', '-1/4', '-1/1000', '0', '1/1000', '1/4', '7/10', '1', '2', '6')]
FR = [Fraction(x) for x in ('1/1000', '1/4', '1/2', '9/10', '999/1000')]


def prop_of(step):
    fins = {f for _, f, _, _ in step.paths}
    others = [f for f in fins if f != step.start]
    if len(others) > 1:
        return None
    return others[0] if others else step.start


def judge_proposals(ctx, con, steps, n, vals, site):
    """Q(a->b) symmetric for all a, b; from every state every other value of a site is reachable.  steps: start -> [Step]"""
    Q = {}
    for a, lst in steps.items():
        for s in lst:
            b = prop_of(s)
            if b is None:
                return ctx.bad('M1', con, 'one draw of the proposal leads to several different states from %s' % (fmtstate(a),))
            Q[a, b] = Q.get((a, b), 0) + s.prob
    for (a, b), q in Q.items():
        diff = [i for i in range(n) if a[i] != b[i]]
        if len(diff) > 1:
            return ctx.bad('M1', con, 'a step from %s proposes %s: more than one site changes' % (fmtstate(a), fmtstate(b)))
        if site is not None and diff and diff != [site]:
            return ctx.bad('M1', con, 'a step at site %d changes site %d' % (site, diff[0]))
        if vals and diff and b[diff[0]] not in vals:
            return ctx.bad('M1', con, 'a step from %s proposes the value %s' % (fmtstate(a), short(b[diff[0]])))
        if b in steps and Q.get((b, a), 0) != q:
            return ctx.bad('M1', con, 'proposal %s -> %s has probability %s but the reverse has %s' % (fmtstate(a), fmtstate(b), q, Q.get((b, a), 0)))
    for a in steps:
        for i in ([site] if site is not None else range(n)):
            for v in ([x for x in vals if x != a[i]] if vals else [T.neg(a[i])]):
                b = a[:i] + (v,) + a[i + 1:]
                if not Q.get((a, b)):
                    return ctx.bad('M1', con, 'from %s the value %s of site %d is never proposed' % (fmtstate(a), short(v), i))
    ctx.ok('M1', con, '%d transitions' % len(Q))


def fmtstate(a):
    return '(' + ','.join(short(x, 30) for x in a) + ')'


def judge_step(ctx, con, step, delta, value_env, red=None):
    """delta: term dE of the proposal; value_env(D): environment under which delta evaluates to D"""
    prop = prop_of(step)
    if prop is None:
        return
    moved = prop != step.start
    for pc, fin, ret, ev in step.paths:
        if ret is None or not I.is_term(ret):
            ctx.undecided('M2', con, 'returned value not modelled')
            return
        if moved:
            want = delta if fin == prop else T.ZERO
            v = equal(red(ret) if red else ret, red(want) if red else want, pc)
            ctx.expect('M2', con, v, 'from %s: state becomes %s but %s is returned instead of %s' % (
                fmtstate(step.start), fmtstate(fin), short(ret), short(want)) if v is False else opaque_why(ret))
    if not moved:
        ctx.ok('M3', con, 'no proposal')
        return
    # the guard
    us = []
    for pc, fin, ret, ev in step.paths:
        u = [e[4] for e in ev if e[0] == 'draw' and e[2] == 'unit']
        other = [e for e in ev if e[0] == 'draw' and e[2] not in ('unit', 'int')]
        if len(u) > 1 or other:
            ctx.undecided('M3', con, 'acceptance uses several draws')
            return
        us.append(u[0] if u else None)
    first = None
    for flip in (False, True):      # u or 1-u: the same rule in distribution
        r = guard_table(step, prop, us, value_env, flip)
        if r[0] is not False:
            break
        first = first or r
    if r[0] is True:
        ctx.ok('M3', con, r[1])
    elif r[0] is None:
        ctx.undecided('M3', con, r[1])
    else:
        ctx.bad('M3', con, 'from %s: %s' % (fmtstate(step.start), first[1]))


def guard_table(step, prop, us, value_env, flip):
    checked = 0
    for D in DGRID:
        acc = 1.0 if D <= 0 else math.exp(-D)
        accf = Fraction(acc).limit_denominator(10**9)
        points = [(f * accf, True) for f in FR]
        if D > 0:
            points += [(accf + f * (1 - accf), False) for f in FR]
        for u, accept in points:
            hits = []
            for (pc, fin, ret, ev), us_ in zip(step.paths, us):
                env = dict(value_env(D))
                if us_ is not None:
                    env[us_] = 1 - u if flip else u
                try:
                    if all(evalnum(c, env) for c in pc):
                        hits.append(fin)
                except NoValue as e:
                    return None, 'guard not in the modelled fragment: %s' % e
            if len(hits) != 1:
                return None, '%d paths at dE=%s u=%s' % (len(hits), float(D), float(u))
            if (hits[0] == prop) != accept:
                return False, 'with dE=%.4g and u=%.4g the proposal is %s; the Metropolis rule %ss it' % (
                    float(D), float(u), 'kept' if hits[0] == prop else 'rejected', 'accept' if accept else 'reject')
            checked += 1
    return True, 'guard agrees in all regions (%d points)' % checked


# ------------------------------------------------------------------ Python kernels
def energy_extern(name, theta_name, P):
    """abstract energy function: value is E(<state elements>), marked when evaluated at other parameters"""
    def call(it, st, args, kw, node):
        a = it.arr(st, args[0])
        if a is None or len(a[0]) != 2 or T.int_val(a[0][1]) is None:
            return I.opaque('energy of unmodelled state')
        good = True
        if len(args) > 1:
            for k in range(P):
                e = it.elem(st, args[1], (num(k),)) if it.arr(st, args[1]) is not None else None
                if e != idx(theta_name, k):
                    good = False
        else:
            good = False
        nm = name if good else name + '@other parameters'
        w = T.int_val(a[0][1])
        st.events.append(('energy', nm))
        # states are copied by value: the array may change afterwards
        rows = T.int_val(a[0][0])
        if rows is None:
            return I.opaque('energy of unknown number of rows')
        vals = [('fn', nm) + tuple(a[1]((num(r), num(i))) for i in range(w)) for r in range(rows)]
        return it.new_arr(st, (num(rows),), lambda ix, vals=vals: vals[T.int_val(ix[0])] if T.int_val(ix[0]) is not None else I.opaque('row'), 'float')
    return I.Extern(name, call)


def scalar_of(it, st, v):
    if I.is_term(v):
        return v
    a = it.arr(st, v)
    if a is None:
        return None
    if all(T.int_val(d) == 1 for d in a[0]):
        return it.elem(st, v, tuple(T.ZERO for _ in a[0]))
    return None


def sampler_object(it, ctx, st, cls, n, P, self_rng='self', calc='E'):
    r = ctx.find(SMP, cls)
    th = it.sym_array(st, 'th', (num(P),))
    o = it.alloc(st, I.ObjC(r, {'n': num(n), 'theta': th, 'calc_e': energy_extern(calc, 'th', P), 'rng': R.generator(self_rng), '_samples': T.NONE}, cls))
    return o, r, th


def python_step(ctx, con, cls, n, own, k):
    P = n + n * (n - 1) // 2 if k is None else k * n + n * (n - 1) // 2
    m = ctx.proj.method(ctx.find(SMP, cls), 'sample_metropolis')
    ctx.analysed.add('%s:%s.sample_metropolis' % (SMP, cls))
    vals = None if k is None else tuple(num(q) for q in range(k))
    starts = [tuple(idx('x', i) for i in range(n))] if k is None else list(itertools.product(vals, repeat=n))
    ename = 'E' if own else 'F'

    for site in [None] + list(range(n)):
        steps = {}
        for start in starts:
            def go(start=start, site=site):
                it = I.Interp(ctx.proj, unroll=4096, lib=R.lib_table())
                st = I.State()
                o, r, th = sampler_object(it, ctx, st, cls, n, P)
                s = it.sym_array(st, 'x', (num(n),), 'int') if k is None else native.const_arr(it, st, start)
                e0 = it.new_arr(st, (num(1),), lambda ix: ('fn', ename) + start, 'float')
                kw = {'rng': R.generator('given')}
                if site is not None:
                    kw['flip_site'] = num(site)
                if not own:
                    kw['calc_e'] = energy_extern('F', 'th', P)
                it.plan = it_plan[0]
                outs = it.run(I.Func(m[2], m[1], None, m[3], o), [s, e0], kw, st)
                return [(s2.pc, tuple(it.elem(s2, s, (num(i),)) for i in range(n)), scalar_of(it, s2, v), s2.events) for s2, v in normal(outs)], outs
            it_plan = [()]
            lst = []
            for p, plan, (paths, outs) in explore(go, it_plan):
                if not paths:
                    if outs and all(o[0] == 'raise' for _, o in outs):
                        ctx.bad('M2', con, 'a step always raises %s' % (outs[0][1][1],))
                        return
                    raise Undecided('no path')
                for pc, fin, ret, ev in paths:
                    for f in fin:
                        if any(x[0] == 'opaque' for x in T.subterms(f)):
                            raise Undecided('state not modelled: %s' % opaque_why(f))
                    for e in ev:
                        if e[0] == 'energy' and e[1] != ename:
                            ctx.bad('M4', con, 'the step evaluates %s instead of %s' % (
                                {'E': "the sampler's energy function", 'F': 'the energy function passed in'}.get(e[1].split('@')[0]) +
                                (' at other parameters' if '@' in e[1] else ''), 'the energy function passed in' if not own else 'its energy function at its parameters'))
                            return
                        if e[0] == 'draw' and e[1] != 'given':
                            ctx.bad('M1', con, 'a draw is taken from the %s generator although a generator is passed in' % e[1])
                            return
                lst.append(Step(start, p, paths))
            steps[start] = lst
        tag = con + (' site %d' % site if site is not None else ' random site')
        ctx.ok('M4', tag)
        judge_proposals(ctx, tag, steps, n, vals, site)
        for start, lst in steps.items():
            for s in lst:
                b = prop_of(s)
                if b is None:
                    continue
                delta = T.sub(('fn', ename) + b, ('fn', ename) + start)
                env = lambda D, b=b, start=start: {('fn', ename) + b: D + Fraction(3, 7), ('fn', ename) + start: Fraction(3, 7)}
                judge_step(ctx, tag, s, delta, env)


def explore(go, cell):
    """R.explore with the plan handed over through a cell (the interpreter is created inside go)"""
    from fractions import Fraction as F
    stack, out = [()], []
    while stack:
        plan = stack.pop()
        cell[0] = plan
        try:
            r = go()
        except R.NeedDraw as e:
            lo, hi = e.args
            stack += [plan + ((q, hi - lo),) for q in range(hi - 1, lo - 1, -1)]
            if len(stack) > 3000 or len(plan) > 10:
                raise Undecided('too many random draws')
            continue
        p = F(1)
        for _, w in plan:
            p /= w
        out.append((p, plan, r))
    return out


def jit_step(ctx):
    r = ctx.find(SMP, '_jit_sample_metropolis')
    for n in (2, 3, 4):
        for site in range(n):
            con = 'coniii/samplers.py:_jit_sample_metropolis n=%d site %d' % (n, site)
            it = I.Interp(ctx.proj, unroll=4096, lib=R.lib_table())
            st = I.State()
            x = it.sym_array(st, 'x', (num(n),), 'int')
            h = it.sym_array(st, 'h', (num(n),))
            J = it.new_arr(st, (num(n), num(n)), lambda ix: jel(ix), 'float')
            start = tuple(idx('x', i) for i in range(n))
            outs = it.run(func(r), [x, h, J, num(site), R.generator('given')], {}, st)
            paths = [(s.pc, tuple(it.elem(s, x, (num(i),)) for i in range(n)), scalar_of(it, s, v), s.events) for s, v in normal(outs)]
            if not paths:
                raise Undecided('no path')
            step = Step(start, 1, paths)
            judge_proposals(ctx, con, {start: [step]}, n, None, site)
            e = lambda s: T.neg(T.addn([T.mul(idx('h', i), s[i]) for i in range(n)] + [T.mul(T.mul(jel((num(i), num(j))), s[i]), s[j]) for i, j in pairs(n)]))
            prop = start[:site] + (T.neg(start[site]),) + start[site + 1:]
            delta = T.sub(e(prop), e(start))

            def env(D):
                out = {}
                for i in range(n):
                    out[start[i]] = Fraction(1 if i % 2 else -1)
                    out[idx('h', i)] = Fraction(i + 1, 5)
                for i, j in pairs(n):
                    out[jel((num(i), num(j)))] = Fraction(i + 2 * j, 9) * (-1) ** j
                out[idx('h', site)] = Fraction(0)
                base = evalnum(delta, out)
                # delta = 2 x h + base
                out[idx('h', site)] = (D - base) / (2 * out[start[site]])
                return out
            judge_step(ctx, con, step, delta, env, lambda t: reduce_spins(t, ('x',)))


def jel(ix):
    """element of a symmetric zero-diagonal coupling matrix"""
    a, b = T.int_val(ix[0]), T.int_val(ix[1])
    if a is None or b is None:
        return I.opaque('coupling index')
    if a == b:
        return T.ZERO
    return idx('J', min(a, b), max(a, b))


# ------------------------------------------------------------------ native kernels
def native_step(ctx, con, cname, n):
    P = native.nparam(cname, n)
    obs = lambda s: native.obs_native(cname, n, lambda i: s[i])
    E = lambda s: T.neg(T.addn([T.mul(idx('th', q), o) for q, o in enumerate(obs(s))]))
    vals = None if cname == 'Ising' else tuple(num(q) for q in range(3))
    starts = [tuple(idx('x', i) for i in range(n))] if vals is None else list(itertools.product(vals, repeat=n))
    red = (lambda t: reduce_spins(t, ('x',))) if cname == 'Ising' else None
    it, mod = native.env(ctx)
    st = I.State()
    th = it.sym_array(st, 'th', (num(P),))
    objs, cls = native.construct(ctx, it, mod, cname, n, th, st)
    if not objs:
        raise Undecided('constructor')
    s0, o = objs[0]
    s0.events = []
    for site in range(n):
        steps = {}
        for start in starts:
            def go(start=start):
                s1 = s0.copy()
                x = it.sym_array(s1, 'x', (num(n),), 'int') if vals is None else native.const_arr(it, s1, start)
                it.plan = cell[0]
                try:
                    outs = native.call_method(ctx, it, mod, s1, o, cls, 'sample_metropolis', [x, num(site)])
                finally:
                    it.plan = None
                return [(s2.pc, tuple(it.elem(s2, x, (num(i),)) for i in range(n)), scalar_of(it, s2, v), s2.events) for s2, v in normal(outs)]
            cell = [()]
            lst = []
            for p, plan, paths in explore(go, cell):
                if not paths:
                    raise Undecided('no path')
                for pc, fin, ret, ev in paths:
                    for f in fin:
                        if any(x[0] == 'opaque' for x in T.subterms(f)):
                            raise Undecided('state not modelled: %s' % opaque_why(f))
                    for e in ev:
                        if e[0] == 'draw' and e[1] != 'engine':
                            ctx.bad('M1', con, 'a draw is taken from %s' % e[1])
                            return
                lst.append(Step(start, p, paths))
            steps[start] = lst
        tag = con + ' site %d' % site
        judge_proposals(ctx, tag, steps, n, vals, site)
        for start, lst in steps.items():
            for s in lst:
                b = prop_of(s)
                if b is None:
                    continue
                delta = T.sub(E(b), E(start))

                def env(D, start=start, delta=delta):
                    out = {idx('th', q): Fraction((q * 7) % 5 - 2, 3) for q in range(P)}
                    if vals is None:
                        out.update({start[i]: Fraction(1 if i % 2 else -1) for i in range(n)})
                    piv = pivot(delta, out)
                    if piv is None:
                        return out
                    out[piv] = Fraction(0)
                    base = evalnum(delta, out)
                    out[piv] = Fraction(1)
                    slope = evalnum(delta, out) - base
                    out[piv] = (D - base) / slope
                    return out
                judge_step(ctx, tag, s, delta, env, red)


def pivot(delta, env):
    for k in sorted(env, key=T.key):
        if k[0] == 'idx' and k[1] == 'th':
            a, b = dict(env), dict(env)
            a[k], b[k] = Fraction(0), Fraction(1)
            if evalnum(delta, a) != evalnum(delta, b):
                return k
    return None


# ------------------------------------------------------------------ energy change to neighbours
def neighbor(ctx):
    r = ctx.find('coniii.ising.utils', 'Ising.neighbor_dE')
    cls = ctx.find('coniii.ising.utils', 'Ising')
    for n in (2, 3, 4, 5):
        con = 'coniii/ising/utils.py:Ising.neighbor_dE n=%d' % n
        it = I.Interp(ctx.proj, unroll=4096)
        st = I.State()
        P = n + n * (n - 1) // 2
        h = it.sym_array(st, 'hh', (num(n),))
        J = it.sym_array(st, 'JJ', (num(P - n),))
        o = it.alloc(st, I.ObjC(cls, {}, 'Ising'))
        init = ctx.proj.method(cls, '__init__')
        outs = normal(it.run(I.Func(init[2], init[1], None, init[3], o), [num(n), h, J], {}, st))
        if len(outs) != 1:
            raise Undecided('constructor has %d paths' % len(outs))
        s0 = outs[0][0]
        x = it.sym_array(s0, 'x', (num(n),), 'int')
        start = tuple(idx('x', i) for i in range(n))
        par = [idx('hh', i) for i in range(n)] + [idx('JJ', q) for q in range(P - n)]
        E = lambda s: T.neg(T.addn([T.mul(par[q], f) for q, f in enumerate(c02.obs_ising(n, lambda i: s[i]))]))
        for s, v in normal(it.run(func(r, selfv=o), [x], {}, s0)):
            A = Run(it, s, v)
            for i in range(n):
                prop = start[:i] + (T.neg(start[i]),) + start[i + 1:]
                compare(ctx, 'M5', con + ' site %d' % i, A[i], T.sub(E(prop), E(start)), s.pc, lambda t: reduce_spins(t, ('x',)))
