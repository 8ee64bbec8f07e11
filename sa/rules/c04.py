"""Chain protocol: the sampling loops are interpreted with the single step replaced by an abstract step (fresh state, energy
difference of the energy function), for several combinations of sample size, interval and burn-in; the trace of steps must be one
chain (every step continues from the state the previous one left, with the matching energy), have exactly the requested length, visit
sites in the requested manner, and the recorded states and energies must be the chain's states at the requested times."""
import itertools
from .. import terms as T
from .. import interp as I
from .. import rng as R
from .. import pool
from ..project import Undecided
from .common import *
from . import c03, native

LEVEL = 'proof'
SMP = 'coniii.samplers'
VALS = {'Metropolis': {-1, 1}, 'Potts3': {0, 1, 2}}


def run(ctx):
    ctx.rule('P1', 'steps form one chain: every step starts from the state and energy the previous step left')
    ctx.rule('P2', 'exactly burn_in steps precede the first interval and exactly n_iters steps precede each record')
    ctx.rule('P3', 'row i of the sample is the chain state after interval i, and recorded energies are the energies of the recorded states')
    ctx.rule('P4', 'systematic iteration visits sites cyclically, otherwise each site is drawn uniformly from all sites')
    ctx.rule('P5', 'the chain starts from the given state, or from a state whose sites are drawn independently from all allowed values')
    ctx.rule('P6', 'the sampler returns exactly the number of samples asked for')
    ctx.rule('P7', 'the compiled sampler is called with sample size, burn-in, interval and iteration mode in the right roles')
    for cls in ('Metropolis', 'Potts3'):
        for S, N, B, syst, hist, init in configs(ctx) + around(ctx, cls, 'generate_sample_py'):
            con = 'coniii/samplers.py:%s.generate_sample_py S=%d N=%d B=%s%s%s%s' % (cls, S, N, B, ' systematic' if syst else '', ' history' if hist else '', ' initial' if init else '')
            ctx.guard('P1', con, py_chain, ctx, con, cls, S, N, B, syst, hist, init)
        for S, N, B, syst, init in ((3, 2, 1, False, False), (5, 1, None, True, False), (4, 2, 0, False, True), (2, 4, 5, True, True)):
            con = 'coniii/samplers.py:%s.generate_sample_parallel_py S=%d N=%d B=%s%s%s' % (cls, S, N, B, ' systematic' if syst else '', ' initial' if init else '')
            ctx.guard('P1', con, py_parallel, ctx, con, cls, S, N, B, syst, init)
        ctx.guard('P7', 'coniii/samplers.py:%s.generate_sample_boost' % cls, boost_calls, ctx, cls)
    for cname in ('Ising', 'Potts3'):
        for S, N, B, syst in ((1, 1, 0, False), (3, 2, 1, False), (2, 4, 5, True), (2, 0, 1, False), (1, 7, 2, True)):
            con = 'cpp/samplers.cpp:Sampler::generate_sample (%s) S=%d N=%d B=%d%s' % (cname, S, N, B, ' systematic' if syst else '')
            ctx.guard('P1', con, native_chain, ctx, con, cname, S, N, B, syst)
        ctx.guard('P5', 'cpp/samplers.cpp:%s::init_sample' % cname, native_init, ctx, cname)


def configs(ctx):
    base = [(1, 1, 0, False, False, False), (3, 2, 1, False, False, False), (2, 4, 5, True, False, False), (2, 3, None, False, False, True),
            (2, 2, 3, False, True, False), (2, 4, None, True, True, True), (1, 2, 0, True, False, True), (1, 1, None, False, False, False)]
    if ctx.tier == 'thorough':
        base += [(4, 5, 7, s, h, i) for s in (False, True) for h in (False, True) for i in (False, True)]
    return base


def around(ctx, cls, name):
    m = ctx.proj.method(ctx.find(SMP, cls), name)
    cs = [c for c in cutoffs([m[2]]) if c > 2] if m else []
    out = []
    for c in cs[:6]:
        for h in (False, True):
            for sy in (False, True):
                out += [(c, 1, 0, sy, h, False), (1, c, 0, sy, h, False), (1, 1, c, sy, h, False)]
    return out


# ------------------------------------------------------------------ abstract step
def step_extern(n, k):
    """stands for sample_metropolis(self, sample0, E0, rng, flip_site, calc_e)"""
    def h(it, st, args, kw, node):
        names = ['self', 'sample0', 'E0', 'rng', 'flip_site', 'calc_e']
        v = dict(zip(names, args))
        v.update(kw)
        s = v['sample0']
        before = tuple(it.elem(st, s, (num(i),)) for i in range(n))
        e0 = c03.scalar_of(it, st, v['E0'])
        t = sum(1 for e in st.events if e[0] == 'step')
        after = tuple(T.sym('s%d_%d' % (t, i)) for i in range(n))
        T.INT_SYMS.update('s%d_%d' % (t, i) for i in range(n))
        it.store(st, s, [('sl', T.ZERO, num(n), T.ONE, 'full')], it.new_arr(st, (num(n),), vec(after), 'int'), 'set', node)
        rng = v.get('rng')
        rname = rng.name if isinstance(rng, I.Extern) else 'none' if rng is None or rng == T.NONE else 'unknown'
        ce = v.get('calc_e')
        st.events.append(('step', before, after, e0, rname, v.get('flip_site', T.NONE), ce if ce is not None and ce != T.NONE else None, v['self']))
        calc = ce if ce is not None and ce != T.NONE else st.heap[v['self'].id].attrs['calc_e']
        th = st.heap[v['self'].id].attrs['theta']
        row = lambda st, els: it.new_arr(st, (T.ONE, num(n)), vec(els), 'int')
        out = []
        for s1, e1 in it.call(st, calc, [row(st, after), th], {}, node):
            for s2, eb in it.call(s1, calc, [row(s1, before), th], {}, node):
                a, b = c03.scalar_of(it, s2, e1), c03.scalar_of(it, s2, eb)
                out.append((s2, T.sub(a, b) if a is not None and b is not None else I.opaque('step energy')))
        return out
    return h


def sampler(ctx, cls, n, ncpu=2, externs=None):
    k = 3 if cls == 'Potts3' else None
    P = n + n * (n - 1) // 2 if k is None else k * n + n * (n - 1) // 2
    ext = {SMP + ':Metropolis.sample_metropolis': step_extern(n, k), SMP + ':Potts3.sample_metropolis': step_extern(n, k)}
    ext.update(externs or {})
    lib = R.lib_table()
    lib.update(pool.lib_table(ncpu))
    it = I.Interp(ctx.proj, externs=ext, unroll=4096, lib=lib)
    st = I.State()
    o, r, th = c03.sampler_object(it, ctx, st, cls, n, P)
    return it, st, o, r, th


def call(ctx, it, st, o, r, name, args, kw):
    m = ctx.proj.method(r, name)
    if m is None:
        raise Undecided('no method %s' % name)
    ctx.analysed.add('%s:%s.%s' % (m[1].name, m[3][2].name if m[3] else '', name))
    return it.run(I.Func(m[2], m[1], None, m[3], o), args, kw, st)


def one_path(ctx, rule, con, outs):
    res = normal(outs)
    if not res:
        if outs and all(o[0] == 'raise' for _, o in outs):
            ctx.bad(rule, con, 'always raises %s' % (outs[0][1][1],))
            return None
        raise Undecided('no normal path')
    if len(res) > 1:
        raise Undecided('%d paths' % len(res))
    if oob_of(res[0][0]):
        ctx.bad(rule, con, 'an element outside its array is accessed: %s' % oob_of(res[0][0]))
        return None
    return res[0]


def E(els, nm='E'):
    return ('fn', nm) + tuple(els)


def free(t, names=('E', 'F')):
    """the energy function is the caller's, so its values at two different states are unrelated quantities: each becomes a
    symbol of its own"""
    def f(a):
        if a[0] == 'fn' and a[1] in names and not any(x[0] == 'opaque' for x in T.subterms(a)):
            nm = '%s(%s)' % (a[1], ', '.join(short(x, 400) for x in a[2:]))
            I.FLOAT_ARRS.add(nm)
            return ('sym', nm)
        return a
    return T.map_term(t, f, f) if I.is_term(t) else t


def check_start(ctx, con, start, allowed, init):
    if init is not None:
        ctx.expect('P5', con, start == init, 'the chain starts from %s instead of the given state' % c03.fmtstate(start))
        return
    seen = set()
    for x in start:
        leaves = [y for y in T.subterms(x) if y[0] == 'idx' or (y[0] == 'sym' and y[1].startswith('d#'))]
        if len(set(leaves)) != 1:
            ctx.undecided('P5', con, 'initial site is %s' % short(x, 100))
            return
        if leaves[0] in seen:
            ctx.bad('P5', con, 'two sites share one draw')
            return
        seen.add(leaves[0])


def values_of(x, leaf, lo, hi):
    out = []
    for v in range(lo, hi):
        try:
            out.append(evalnum(x, {leaf: v}))
        except NoValue:
            return None
    return out


def check_init_draws(ctx, con, start, allowed, events):
    draws = {}
    for e in events:
        if e[0] == 'draw' and e[2] == 'int' and e[4] is not None:
            draws[e[4][1] if e[4][0] in ('arr', 'sym') else e[4]] = e
    for i, x in enumerate(start):
        leaf = [y for y in T.subterms(x) if y[0] == 'idx' or (y[0] == 'sym' and y[1].startswith('d#'))]
        if not leaf or leaf[0][1] not in draws:
            ctx.undecided('P5', con, 'initial site %d is %s' % (i, short(x, 100)))
            return
        e = draws[leaf[0][1]]
        lo, hi = T.int_val(e[3][0]), T.int_val(e[3][1])
        vs = values_of(x, leaf[0], lo, hi) if lo is not None and hi is not None else None
        if vs is None:
            ctx.undecided('P5', con, 'initial site %d is %s' % (i, short(x, 100)))
            return
        if set(vs) != allowed or len(vs) % len(allowed) or any(vs.count(a) != vs.count(vs[0]) for a in allowed):
            ctx.bad('P5', con, 'initial site %d takes the values %s' % (i, sorted(map(float, vs))))
            return
        if e[1] != 'self':
            ctx.bad('P5', con, 'the initial state is drawn from the %s generator' % e[1])
            return
    ctx.ok('P5', con)


def check_chain(ctx, con, steps, start, e_start, n, B, N, S, syst, events, ename='E', rng=('none', 'rng:self')):
    """-> True if the trace is the required chain"""
    good = True
    if not steps and B + S * N:
        ctx.undecided('P2', con, 'the step kernel is not called by name')
        return False
    if len(steps) != B + S * N:
        ctx.bad('P2', con, '%d steps are taken; %d burn-in + %d x %d are required' % (len(steps), B, S, N))
        good = False
    else:
        ctx.ok('P2', con)
    cur = start
    for t, s in enumerate(steps):
        if s[1] != cur:
            ctx.bad('P1', con, 'step %d starts from %s but the chain is at %s' % (t, c03.fmtstate(s[1]), c03.fmtstate(cur)))
            good = False
            break
        if e_start is not False:
            v = equal(free(s[3]), free(E(s[1], ename), (ename, 'E', 'F')), []) if s[3] is not None else None
            if v is False:
                ctx.bad('P1', con, 'step %d is given the energy %s for the state with energy %s' % (t, short(s[3], 200), short(E(s[1], ename))))
                good = False
                break
            if v is None:
                ctx.undecided('P1', con, 'energy handed to step %d' % t)
                good = False
                break
        cur = s[2]
    else:
        ctx.ok('P1', con, '%d steps' % len(steps))
    for t, s in enumerate(steps):
        if s[4] not in rng:
            if s[4] == 'unknown':
                ctx.undecided('P1', con, 'generator of step %d' % t)
            else:
                ctx.bad('P1', con, 'step %d uses generator %s' % (t, s[4]))
            good = False
            break
    # sites
    segs = [steps[:B]] + [steps[B + i * N:B + (i + 1) * N] for i in range(S)] if len(steps) == B + S * N else []
    prev = None
    for seg in segs:
        for j, s in enumerate(seg):
            site = s[5]
            if syst:
                k = T.int_val(site) if I.is_term(site) else None
                if k is None:
                    if site == T.NONE:
                        ctx.bad('P4', con, 'systematic iteration draws random sites')
                    else:
                        ctx.undecided('P4', con, 'site of step')
                    return False
                follow = (j > 0 and k == (prev + 1) % n) or (j == 0 and (k == 0 or (prev is not None and k == (prev + 1) % n)))
                if not follow or not 0 <= k < n:
                    ctx.bad('P4', con, 'systematic iteration visits site %d after site %s' % (k, prev))
                    return False
                prev = k
            elif site != T.NONE:
                d = [e for e in events if e[0] == 'draw' and e[4] == site]
                if not d:
                    if T.int_val(site) is not None:
                        ctx.bad('P4', con, 'random iteration always uses site %s' % short(site))
                    else:
                        ctx.undecided('P4', con, 'site of step is %s' % short(site, 80))
                    return False
                if d[0][2] != 'int' or d[0][3] != (T.ZERO, num(n)):
                    ctx.bad('P4', con, 'sites are drawn from [%s)' % ', '.join(map(short, d[0][3])))
                    return False
    ctx.ok('P4', con)
    return good


def py_chain(ctx, con, cls, S, N, B, syst, hist, init):
    n = 3
    it, st, o, r, th = sampler(ctx, cls, n)
    kw = {'n_iters': num(N), 'systematic_iter': T.TRUE if syst else T.FALSE, 'saveHistory': T.TRUE if hist else T.FALSE}
    if B is not None:
        kw['burn_in'] = num(B)
    X = None
    if init:
        X = it.sym_array(st, 'x0', (T.ONE, num(n)), 'int')
        kw['initial_sample'] = X
    got = one_path(ctx, 'P1', con, call(ctx, it, st, o, r, 'generate_sample_py', [num(S)], kw))
    if got is None:
        return
    s, ret = got
    b = N if B is None else B
    steps = [e for e in s.events if e[0] == 'step']
    start = steps[0][1] if steps else None
    if start is None:
        raise Undecided('the step kernel is not called by name')
    if init:
        ctx.expect('P5', con, start == tuple(idx('x0', 0, i) for i in range(n)), 'the chain starts from %s instead of the given state' % c03.fmtstate(start))
    else:
        check_init_draws(ctx, con, start, VALS[cls], s.events)
    if not check_chain(ctx, con, steps, start, True, n, b, N, S, syst, s.events):
        return
    at = s.heap[o.id].attrs
    A = Run(it, s, at.get('sample'))
    d = A.dims()
    if d is None:
        raise Undecided('sample not modelled')
    ctx.expect('P6', con, d == (S, n), 'the sample has shape %s' % (d,))
    if d != (S, n):
        return
    for i in range(S):
        want = steps[b + (i + 1) * N - 1][2]
        for j in range(n):
            compare(ctx, 'P3', con + ' row %d' % i, A[i, j], want[j])
        en = Run(it, s, at.get('E'))
        compare(ctx, 'P3', con + ' energy %d' % i, c03.scalar_of(it, s, en[i]) if en.dims() is not None else None, E(want), red=free)
    if hist:
        H = Run(it, s, ret)
        if H.dims() is None:
            raise Undecided('history')
        for c in range(S * N):
            compare(ctx, 'P3', con + ' history %d' % c, H[c], E(steps[b + c][2]), red=free)


def py_parallel(ctx, con, cls, S, N, B, syst, init):
    n, ncpu = 3, 2
    it, st, o, r, th = sampler(ctx, cls, n, ncpu)
    kw = {'n_iters': num(N), 'systematic_iter': T.TRUE if syst else T.FALSE}
    if B is not None:
        kw['burn_in'] = num(B)
    if init:
        kw['initial_sample'] = it.sym_array(st, 'x0', (num(ncpu), num(n)), 'int')
    got = one_path(ctx, 'P1', con, call(ctx, it, st, o, r, 'generate_sample_parallel_py', [num(S)], kw))
    if got is None:
        return
    s, ret = got
    b = N if B is None else B
    # split by worker
    chains, cur = {}, None
    srcs = {}
    for e in s.events:
        if e[0] == 'worker':
            cur = e[1]
        elif e[0] == 'step':
            chains.setdefault(cur, []).append(e)
        elif e[0] == 'newrng':
            srcs.setdefault(cur, []).append(e)
    if None in chains or not chains:
        raise Undecided('steps outside workers')
    per = None
    rows = []
    finals = []
    for w, steps in sorted(chains.items()):
        tag = con + ' worker %d' % w
        if (len(steps) - b) % N:
            ctx.bad('P2', tag, '%d steps are taken; burn-in is %d and the interval %d' % (len(steps), b, N))
            return
        Sw = (len(steps) - b) // N
        start = steps[0][1]
        if init:
            ctx.expect('P5', tag, start == tuple(idx('x0', w, i) for i in range(n)), 'the chain starts from %s instead of the given state' % c03.fmtstate(start))
        else:
            check_init_draws(ctx, tag, start, VALS[cls], s.events)
        gens = {e[4] for e in steps}
        if not check_chain(ctx, tag, steps, start, True, n, b, N, Sw, syst, s.events, rng=tuple(gens)):
            return
        seeds = srcs.get(w, [])
        bad = [g for g in gens if not g.startswith('rng:RandomState(')]
        if bad:
            ctx.bad('P1', tag, 'a worker steps with generator %s: workers share the state of one generator' % bad[0])
            return
        rows += [steps[b + (i + 1) * N - 1][2] for i in range(Sw)]
        finals.append(steps[-1][2])
    seeds = [e[1] for w in srcs for e in srcs[w]]
    if len(seeds) == len(chains):
        ctx.expect('P1', con + ' worker seeds', len(set(seeds)) == len(seeds), 'workers are seeded identically')
    at = s.heap[o.id].attrs
    A = Run(it, s, at.get('sample'))
    d = A.dims()
    if d is None:
        raise Undecided('sample not modelled')
    ctx.expect('P6', con, d == (S, n), 'the sample has shape %s instead of (%d, %d)' % (d, S, n))
    seen = set()
    for i in range(d[0]):
        row = tuple(A[i, j] for j in range(n))
        if any(x[0] == 'opaque' for x in row):
            raise Undecided('sample rows: %s' % opaque_why(row[0]))
        if row not in rows:
            ctx.bad('P3', con, 'row %d of the sample is %s, not a state recorded at the end of an interval' % (i, c03.fmtstate(row)))
            return
        if row in seen:
            ctx.bad('P3', con, 'row %d repeats an earlier record' % i)
            return
        seen.add(row)
    ctx.ok('P3', con)
    F, En = at.get('_samples'), at.get('E')
    FA = Run(it, s, F)
    ens = it.items_of(s, En)
    if FA.dims() == (ncpu, n) and ens is not None and len(ens) == ncpu:
        for w in range(ncpu):
            row = tuple(FA[w, j] for j in range(n))
            ctx.expect('P3', con + ' final state of worker %d' % w, True if row == finals[w] else None, 'order of replicas')
            compare(ctx, 'P3', con + ' final energy of worker %d' % w, c03.scalar_of(it, s, ens[w]), E(row), red=free)
    else:
        ctx.undecided('P3', con + ' replicas', 'not modelled')


# ------------------------------------------------------------------ wrappers of the compiled sampler
def boost_calls(ctx, cls):
    native_cls = {'Metropolis': 'BoostIsing', 'Potts3': 'BoostPotts3'}[cls]
    for meth in ('generate_sample_boost', 'generate_sample_parallel_boost'):
        for S, N, B, syst in ((5, 7, 11, True), (6, 3, None, False), (3, 2, 0, False)):
            con = 'coniii/samplers.py:%s.%s S=%d N=%d B=%s' % (cls, meth, S, N, B)
            ctx.guard('P7', con, boost_one, ctx, con, cls, native_cls, meth, S, N, B, syst)


def fake_native(n):
    """records constructor and calls; fetch_sample returns tagged rows"""
    def new(it, st, args, kw, node):
        k = sum(1 for e in st.events if e[0] == 'native_new')
        st.events.append(('native_new', k, tuple(args)))
        cell = {}

        def gen(it, st, args, kw, node):
            st.events.append(('native_gen', k, tuple(args), dict(kw)))
            return T.NONE

        def cond(it, st, args, kw, node):
            st.events.append(('native_cond', k, tuple(args), dict(kw)))
            return T.NONE

        def fetch(it, st, args, kw, node):
            g = [e for e in st.events if e[0] in ('native_gen', 'native_cond') and e[1] == k]
            if not g:
                st.events.append(('native_fetch_empty', k))
                return I.opaque('fetch before generate')
            rows = g[-1][2][0] if g[-1][0] == 'native_gen' else g[-1][2][2]
            return it.sym_array(st, 'N%d' % k, (rows, num(n)), 'int')
        return I.Extern('boost', None, methods={'generate_sample': gen, 'generate_cond_sample': cond, 'fetch_sample': fetch})
    return I.Extern('BoostSampler', new)


def boost_one(ctx, con, cls, native_cls, meth, S, N, B, syst):
    n = 3
    it, st, o, r, th = sampler(ctx, cls, n, 2, {SMP + ':BoostIsing': fake_native(n), SMP + ':BoostPotts3': fake_native(n)})
    st.heap[o.id].attrs['nCpus'] = num(2)
    kw = {'n_iters': num(N), 'systematic_iter': T.TRUE if syst else T.FALSE}
    if B is not None:
        kw['burn_in'] = num(B)
    got = one_path(ctx, 'P7', con, call(ctx, it, st, o, r, meth, [num(S)], kw))
    if got is None:
        return
    s, ret = got
    b = N if B is None else B
    news = [e for e in s.events if e[0] == 'native_new']
    gens = [e for e in s.events if e[0] == 'native_gen']
    if not gens or len(news) != len(gens):
        raise Undecided('native calls not recognised')
    want = (num(b), num(N), T.TRUE if syst else T.FALSE)
    for e in gens:
        if len(e[2]) != 4 or e[3]:
            raise Undecided('native call signature')
        ctx.expect('P7', con, e[2][1:] == want, 'the compiled sampler is called with (burn_in, n_iters, systematic) = (%s) instead of (%s)' % (
            ', '.join(short(x) if I.is_term(x) else '?' for x in e[2][1:]), ', '.join(map(short, want))))
    seeds = []
    for e in news:
        if len(e[2]) < 3:
            raise Undecided('native constructor signature')
        ok = e[2][0] == num(n)
        P = T.int_val(it.arr(s, th)[0][0])
        a = it.arr(s, e[2][1])
        ok = ok and a is not None and T.int_val(a[0][0]) == P and all(a[1]((num(q),)) == idx('th', q) for q in range(P))
        ctx.expect('P7', con + ' constructor', ok, "the compiled sampler is not constructed with the sampler's size and parameters")
        sd = e[2][2]
        leaf = [y for y in T.subterms(sd) if y[0] == 'sym' and y[1].startswith('d#') or y[0] == 'idx' and y[1].startswith('D#')] if I.is_term(sd) else []
        seeds.append((sd, leaf))
    if all(l for _, l in seeds):
        ctx.expect('P7', con + ' seeds', len({x for x, _ in seeds}) == len(seeds), 'two chains get the same seed')
    elif any(T.int_val(x) is not None for x, _ in seeds if I.is_term(x)):
        ctx.bad('P7', con + ' seeds', "the compiled sampler's seed is the constant %s" % short(seeds[0][0]))
    else:
        ctx.undecided('P7', con + ' seeds', 'seed not recognised')
    A = Run(it, s, s.heap[o.id].attrs.get('sample'))
    d = A.dims()
    if d is None:
        raise Undecided('sample')
    ctx.expect('P6', con, d == (S, n), 'the sample has shape %s instead of (%d, %d)' % (d, S, n))
    seen = set()
    for i in range(d[0]):
        row = tuple(A[i, j] for j in range(n))
        ok = all(x[0] == 'idx' and x[1].startswith('N') and T.int_val(x[2][1]) == j for j, x in enumerate(row)) and len({(x[1], x[2][0]) for x in row}) == 1
        if any(x[0] == 'opaque' for x in row):
            raise Undecided('sample rows')
        ctx.expect('P3', con + ' row %d' % i, ok and row not in seen, 'row %d is not a distinct row of what the compiled sampler returned' % i)
        seen.add(row)


# ------------------------------------------------------------------ native loops
def native_step_extern(n):
    def h(it, st, args, kw, node):
        o, s, site = args[0], args[1], args[2]
        before = tuple(it.elem(st, s, (num(i),)) for i in range(n))
        t = sum(1 for e in st.events if e[0] == 'step')
        after = tuple(T.sym('s%d_%d' % (t, i)) for i in range(n))
        a = it.new_arr(st, (num(n),), vec(after), 'int')
        it.store(st, s, [('sl', T.ZERO, num(n), T.ONE, 'full')], a, 'set', node)
        st.events.append(('step', before, after, None, 'engine', site, None, o))
        return T.sym('de%d' % t)
    return h


def native_setup(ctx, cname, n, init=True):
    it, mod = native.env(ctx)
    st = I.State()
    P = native.nparam(cname, n)
    th = it.sym_array(st, 'th', (num(P),))
    objs, cls = native.construct(ctx, it, mod, cname, n, th, st)
    if not objs:
        raise Undecided('constructor')
    s0, o = objs[0]
    s0.events = []
    for c in ('Sampler', 'Ising', 'Potts3'):
        it.externs['native:%s.sample_metropolis' % c] = native_step_extern(n)
        it.externs['native:%s.calc_e' % c] = lambda it, st, args, kw, node: T.sym('energy')
        if init:
            it.externs['native:%s.init_sample' % c] = lambda it, st, args, kw, node: it.sym_array(st, 'x0', (num(n),), 'int')
    return it, mod, s0, o, cls


def native_sample(it, s, o, n):
    v = s.heap[o.id].attrs.get('sample')
    A = Run(it, s, v)
    d = A.dims()
    if d is None or len(d) != 2:
        items = it.items_of(s, v)
        if items is None:
            raise Undecided('sample container')
        rows = []
        for x in items:
            R_ = Run(it, s, x)
            if R_.dims() is None:
                raise Undecided('sample row')
            rows.append(tuple(R_[j] for j in range(R_.dims()[0])))
        return rows
    return [tuple(A[i, j] for j in range(d[1])) for i in range(d[0])]


def native_chain(ctx, con, cname, S, N, B, syst):
    n = 3
    it, mod, s0, o, cls = native_setup(ctx, cname, n)
    outs = native.call_method(ctx, it, mod, s0, o, cls, 'generate_sample', [num(S), num(B), num(N), T.TRUE if syst else T.FALSE])
    got = one_path(ctx, 'P1', con, outs)
    if got is None:
        return
    s = got[0]
    steps = [e for e in s.events if e[0] == 'step']
    x0 = tuple(idx('x0', i) for i in range(n))
    if not check_chain(ctx, con, steps, x0, False, n, B, N, S, syst, s.events, rng=('engine',)):
        return
    rows = native_sample(it, s, o, n)
    ctx.expect('P6', con, len(rows) == S, '%d rows are recorded instead of %d' % (len(rows), S))
    for i in range(min(S, len(rows))):
        q = B + (i + 1) * N
        want = steps[q - 1][2] if q else x0
        for j in range(n):
            compare(ctx, 'P3', con + ' row %d' % i, rows[i][j] if j < len(rows[i]) else None, want[j])


def native_init(ctx, cname):
    n = 3
    con = 'cpp/samplers.cpp:%s::init_sample' % cname
    it, mod, s0, o, cls = native_setup(ctx, cname, n, init=False)
    cell = [()]

    def go():
        it.plan = cell[0]
        try:
            outs = native.call_method(ctx, it, mod, s0.copy(), o, cls, 'init_sample', [])
        finally:
            it.plan = None
        r = normal(outs)
        if len(r) != 1:
            raise Undecided('%d paths' % len(r))
        s, v = r[0]
        return tuple(it.elem(s, v, (num(i),)) for i in range(n))
    dist = {}
    for p, plan, els in c03.explore(go, cell):
        vs = tuple(T.int_val(x) for x in els)
        if None in vs:
            raise Undecided('initial state not modelled')
        dist[vs] = dist.get(vs, 0) + p
    allowed = sorted(VALS['Metropolis' if cname == 'Ising' else 'Potts3'])
    want = set(itertools.product(allowed, repeat=n))
    extra = [k for k in dist if k not in want]
    if extra:
        ctx.bad('P5', con, 'the initial state can be %s' % (extra[0],))
    elif set(dist) != want or len(set(dist.values())) != 1:
        ctx.bad('P5', con, 'the initial state is not uniform: %d of %d states, probabilities %s' % (len(dist), len(want), sorted({str(x) for x in dist.values()})))
    else:
        ctx.ok('P5', con, '%d states' % len(dist))
