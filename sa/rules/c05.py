"""Provenance of randomness.  Constructors and sampling methods are interpreted with a given generator and the single update represented by one draw of
the generator it uses; every draw of every path, in the calling process, in workers and in the compiled samplers, must come from the given generator or
from a generator seeded by draws from it, no stretch of a stream may be used twice, and the outcome may not depend on the order workers finish in."""
import ast
from .. import terms as T
from .. import interp as I
from .. import libmodel as LM
from .. import rng as R
from .. import pool
from .. import facts as FX
from ..project import Undecided
from .common import *
from .solve import SOL, const_mat
from . import c03, c04, c10, c13, c23, native
from . import solve

LEVEL = 'proof'
SM, MD = 'coniii.samplers', 'coniii.models'
G0 = c13.RNG0


# ------------------------------------------------------------------ abstract environment
def step(n):
    """stands for sample_metropolis: one draw of the generator it is given (its own otherwise), a new state"""
    def h(it, st, args, kw, node):
        v = dict(zip(['self', 'sample0', 'E0', 'rng', 'flip_site', 'calc_e'], args))
        v.update(kw)
        g = v.get('rng')
        if g is None or g == T.NONE:
            g = it.getattr(st, v['self'], 'rng')
        src = g.name[4:] if isinstance(g, I.Extern) and g.name.startswith('rng:') else '?'
        u = T.sym(R.fresh(it, st, 'd'))
        st.events.append(('draw', src, 'step', (), u, getattr(node, 'lineno', 0)))
        it.store(st, v['sample0'], [('sl', T.ZERO, num(n), T.ONE, 'full')], it.new_arr(st, (num(n),), lambda ix: ('fn', 'state', u, ix[0]), 'int'), 'set', node)
        return ('fn', 'de', u)
    return h


def native_fake(n):
    """compiled sampler: a private stream seeded by the constructor argument"""
    def new(it, st, args, kw, node):
        seed = kw.get('seed', args[2] if len(args) > 2 else None)
        k = sum(1 for e in st.events if e[0] == 'newrng')
        st.events.append(('newrng', seed if seed is not None else T.NONE, getattr(node, 'lineno', 0)))
        src = 'RandomState(%s)' % (seed,) if seed is not None and I.is_term(seed) else 'RandomState(?)'
        cell = []

        def gen(it, st, args, kw, node):
            u = T.sym(R.fresh(it, st, 'd'))
            st.events.append(('draw', src, 'native', (), u, getattr(node, 'lineno', 0)))
            cell.append((u, args[0] if len(args) == 4 else args[2] if len(args) > 2 else num(1)))
            return T.NONE

        def fetch(it, st, args, kw, node):
            if not cell:
                return I.opaque('fetch before generate')
            u, rows = cell[-1]
            return it.new_arr(st, (rows, num(n)), lambda ix: ('fn', 'native', u, ix[0], ix[1]), 'int')
        return I.Extern('boost', None, methods={'generate_sample': gen, 'generate_cond_sample': gen, 'fetch_sample': fetch})
    return I.Extern('BoostSampler', new)


def outside(what):
    """a source that differs from run to run"""
    def h(it, st, args, kw, node, f=None):
        u = T.sym(R.fresh(it, st, 'd'))
        T.INT_SYMS.add(u[1])
        st.events.append(('draw', what, 'outside', (), u, getattr(node, 'lineno', 0)))
        return u
    return h


OUTSIDE = ['time.time', 'time.time_ns', 'time.monotonic', 'time.perf_counter', 'time.perf_counter_ns', 'time.process_time', 'os.getpid', 'random.random', 'random.randint',
           'random.randrange', 'random.getrandbits', 'secrets.randbits', 'secrets.randbelow', 'random.uniform', 'os.getppid', 'threading.get_ident']


def lib(order):
    d = dict(LM.TABLE)
    d.update(R.lib_table())
    d.update(pool.lib_table(2))
    for w in OUTSIDE:
        d[w] = outside(w + '()')
    for m in ('multiprocess', 'multiprocessing'):
        mk = d[m + '.Pool']

        def opened(it, st, args, kw, node, f, mk=mk):
            p = mk(it, st, args, kw, node, f)
            base = p.methods['map']

            def unordered(it, st, args, kw, node):
                st.events.append(('unordered', getattr(node, 'lineno', 0)))
                out = []
                for s, v in base(it, st, args, kw, node):
                    if order:
                        xs = it.items_of(s, v)
                        v = it.alloc(s, I.ListC(list(reversed(xs))))
                    out.append((s, v))
                return out
            p.methods['imap_unordered'] = unordered
            return p
        d[m + '.Pool'] = opened
    return d


def machine(ctx, n, ext=None, order=False):
    e = {SM + ':Metropolis.sample_metropolis': step(n), SM + ':Potts3.sample_metropolis': step(n),
         SM + ':BoostIsing': native_fake(n), SM + ':BoostPotts3': native_fake(n), SM + ':IMPORTED_SAMPLERS_EXT': T.TRUE}
    base = c13.machine(ctx).externs
    e.update({k: v for k, v in base.items() if k not in e})
    e.update(ext or {})
    it = I.Interp(ctx.proj, unroll=4096, externs=e, lib=lib(order))
    it.fork_while = it.max_paths = 2000
    return it


# ------------------------------------------------------------------ verdict on one history of events
def leaves(t):
    if not I.is_term(t):
        return None
    return [y for y in T.subterms(t) if y[0] == 'sym' and y[1].startswith('d#') or y[0] == 'idx' and isinstance(y[1], str) and y[1].startswith('D#')
            or y[0] == 'opaque']


class History:
    def __init__(self, events, given=('rng0',)):
        self.src_of, self.seeds, self.given = {}, {}, given
        self.where = {}
        for e in events:
            if e[0] == 'draw':
                v = e[4]
                if v is not None:
                    self.src_of[v[1]] = e[1]
            elif e[0] == 'newrng':
                self.seeds['RandomState(%s)' % (e[1],) if I.is_term(e[1]) else 'RandomState(?)'] = e[1]
        self.events = events

    def origin(self, src, seen=()):
        """True derived from the given generator, a text saying what else, None unknown"""
        if src in self.given:
            return True
        if src in seen or src == '?' or src == 'RandomState(?)':
            return None
        if src in self.seeds:
            return self.seed(self.seeds[src], seen + (src,))
        if src == 'global':
            return 'the process-wide generator'
        if src.endswith('()'):
            return src
        return 'the generator %s' % src

    def seed(self, t, seen=()):
        if t is None or t == T.NONE:
            return 'a generator without a seed'
        if not I.is_term(t):
            return None
        ls = leaves(t)
        if any(y[0] == 'opaque' for y in ls):
            return None
        if not ls:
            if T.int_val(t) is not None:
                return 'a generator with the fixed seed %s' % short(t)
            return None
        for y in ls:
            s = self.src_of.get(y[1])
            if s is None:
                return None
            o = self.origin(s, seen)
            if o is not True:
                return o if o is None else 'a generator seeded from ' + o
        return True

    def judge(self):
        """-> (list of problems, list of unknowns, number of draws)"""
        bad, unk, k = [], [], 0
        pos, used, local, base = {}, {}, None, None
        cur = 'main'
        seeded = {}
        for e in self.events:
            if e[0] == 'worker':
                if e[1] is None:
                    for g in e[2] if len(e) > 2 else ():
                        if g in local:
                            pos[g] = local[g]
                    local, cur = None, 'main'
                else:
                    if e[1] == 0 or base is None:
                        base = dict(pos)
                    local, cur = dict(base), 'worker %d' % e[1]
            elif e[0] == 'newrng':
                nm = 'RandomState(%s)' % (e[1],) if I.is_term(e[1]) else 'RandomState(?)'
                if self.seed(e[1]) is True:
                    (pos if local is None else local)[nm] = 0
            elif e[0] == 'seed':
                if e[1] == 'global':
                    o = self.seed(e[2][0] if e[2] else None)
                    seeded['global'] = (o, e[2][0] if e[2] else None)
                    (pos if local is None else local)[('global', e[2][0] if e[2] else None)] = 0
            elif e[0] == 'draw':
                k += 1
                src = e[1]
                key = src
                if src == 'global' and 'global' in seeded:
                    o, sd = seeded['global']
                    key = ('global', sd)
                    if o is not True and o is not None:
                        o = o.replace('a generator', 'the process-wide generator', 1)
                else:
                    o = self.origin(src)
                if o is None:
                    unk.append('draw of line %s from an unknown source' % e[5])
                    continue
                if o is not True:
                    bad.append(('draw', e[5], 'line %s draws from %s' % (e[5], o)))
                    continue
                P = pos if local is None else local
                p = P.get(key, 0)
                P[key] = p+1
                u = (key, p)
                if u in used and used[u][0] != (cur, k):
                    bad.append(('twice', e[5], 'line %s (%s) draws the same random numbers as line %s (%s)' % (e[5], cur, used[u][1], used[u][0][0])))
                else:
                    used[u] = ((cur, k), e[5])
        return bad, unk, k


def judge(ctx, con, paths, given=('rng0',), need=True):
    """paths: events of every path"""
    total = 0
    seen = set()
    for ev in paths:
        b, u, k = History(ev, given).judge()
        total += k
        for kind, line, msg in b:
            if (kind, line) not in seen:
                seen.add((kind, line))
                ctx.bad('provenance' if kind == 'draw' else 'streams', con, msg)
        for m in u[:1]:
            ctx.undecided('provenance', con, m)
            seen.add('u')
    if not seen:
        if need and not total:
            ctx.undecided('provenance', con, 'no draw seen')
        else:
            ctx.ok('provenance', con, '%d draws on %d paths' % (total, len(paths)))
            ctx.ok('streams', con, '%d draws' % total)


def attempt(ctx, con, it, s, f, a, kw):
    """states after a call; a call that can only raise is undecided"""
    it.raised = []
    r = it.call(s, f, a, kw, None)
    if not r:
        raise Undecided('every path raises %s' % (it.raised[:1],))
    return r


def theta(it, st, cls, n):
    return it.sym_array(st, 'th', (num(c13.nparam('Potts3' if cls == 'Potts3' else 'Ising', n)),))


def energy():
    return I.Extern('calc_e', lambda it, st, a, kw, node: it.new_arr(st, (num(1),), lambda ix: ('sym', 'E'), 'float'))


def sampler(ctx, it, cls, n, boost, given=True):
    st = I.State()
    r = ctx.find(SM, cls)
    kw = {'calc_e': energy(), 'boost': T.TRUE if boost else T.FALSE, 'iprint': T.FALSE}
    if given:
        kw['rng'] = G0
    else:
        kw['rng'] = T.NONE
    if cls == 'Potts3':
        kw['n_cpus'] = num(2)
    m = ctx.proj.method(r, '__init__')
    names = [a.arg for a in m[2].args.args] if m else []
    kw = {k: v for k, v in kw.items() if k in names or m is None or m[2].args.kwarg}
    return attempt(ctx, cls, it, st, I.Cls(r), [num(n), theta(it, st, cls, n)], kw)


def outcome(it, s, o):
    """what a user sees afterwards: shapes and elements of sample, E"""
    out = []
    for nm in ('sample', 'E', '_samples'):
        v = s.heap[o.id].attrs.get(nm)
        a = it.arr(s, v) if v is not None and v != T.NONE else None
        if a is None:
            out.append((nm, None))
            continue
        d = [T.int_val(x) for x in a[0]]
        if None in d:
            out.append((nm, None))
            continue
        import itertools
        out.append((nm, tuple(a[1](tuple(num(i) for i in ix)) for ix in itertools.product(*map(range, d)))))
    return out


def method_of(ctx, cls, name):
    return ctx.proj.method(ctx.find(SM, cls), name)


def metropolis(ctx, cls, boost, meth, kws, n=3, pos=None, tag=''):
    con = 'coniii/samplers.py:%s.%s%s%s' % (cls, meth, ' compiled' if boost else '', tag)
    runs = []
    for order in (False, True):
        it = machine(ctx, n, order=order)
        ev = []
        res = []
        for s, o in sampler(ctx, it, cls, n, boost):
            s.heap[o.id].attrs['nCpus'] = num(2)
            f = it.getattr(s, o, meth)
            if isinstance(f, I.Func):
                ctx.analysed.add('%s:%s' % (SM, f.node.name))
            args = [num(x) for x in pos or []]
            s1s = attempt(ctx, con, it, s, f, args, {k: v(it, s) if callable(v) else v for k, v in kws.items()})
            # asked again, the sampler goes on with its generator
            for s1, _ in s1s:
                for s2, _ in attempt(ctx, con, it, s1, f, args, {k: v(it, s1) if callable(v) else v for k, v in kws.items()}):
                    ev.append(s2.events)
                    res.append(outcome(it, s2, o))
        runs.append((ev, res))
        if not any(e[0] == 'unordered' for x in ev for e in x):
            break
    judge(ctx, con, runs[0][0])
    if len(runs) > 1:
        a, b = runs[0][1], runs[1][1]
        if any(v is None for r in a+b for _, v in r[:1]):
            ctx.undecided('schedule', con, 'sample not modelled')
        else:
            ctx.expect('schedule', con, a == b, 'the rows depend on the order in which the workers finish', 'the same rows in any order of the workers')
    else:
        ctx.ok('schedule', con, 'results are collected in order')


def F(x):
    return T.TRUE if x else T.FALSE


def samplers(ctx):
    for cls in ('Metropolis', 'Potts3'):
        for boost in (False, True):
            for meth in ('generate_sample', 'generate_sample_parallel'):
                for syst in (False, True):
                    for S, N, B in ((4, 2, 1), (3, 1, 0)) + (((5, 1, 3),) if ctx.tier == 'thorough' else ()):
                        con = 'coniii/samplers.py:%s.%s' % (cls, meth)
                        ctx.guard('provenance', con, metropolis, ctx, cls, boost, meth, {'n_iters': num(N), 'burn_in': num(B), 'systematic_iter': F(syst)}, 3, [S],
                                  ' S=%d N=%d B=%d%s' % (S, N, B, ' systematic' if syst else ''))
    for boost in (False, True):
        for par in (False, True):
            for syst in (False, True):
                if par and not boost:
                    continue
                kw = {'n_iters': num(2), 'burn_in': num(1), 'systematic_iter': F(syst), 'parallel': F(par),
                      'fixed_subset': lambda it, s: it.alloc(s, I.ListC([I.Tup([num(1), num(1)])]))}
                con = 'coniii/samplers.py:Metropolis.generate_cond_sample'
                ctx.guard('provenance', con, metropolis, ctx, 'Metropolis', boost, 'generate_cond_sample', kw, 3, [4], '%s%s' % (' parallel' if par else '', ' systematic' if syst else ''))


def own_steps(ctx):
    """the update itself: only the generator it is given, else the one of the sampler"""
    for cls, k in (('Metropolis', None), ('Potts3', 3)):
        ctx.guard('provenance', 'coniii/samplers.py:%s.sample_metropolis' % cls, one_step, ctx, cls, k)


def one_step(ctx, cls, k):
    n = 2
    P = c13.nparam('Potts3' if k else 'Ising', n)
    m = method_of(ctx, cls, 'sample_metropolis')
    for given in (True, False):
        for site in (None, 0):
            con = 'coniii/samplers.py:%s.sample_metropolis%s%s' % (cls, ', generator given' if given else '', '' if site is None else ', site given')
            cell = [()]

            def go():
                it = I.Interp(ctx.proj, unroll=4096, lib=lib(False))
                st = I.State()
                o, r, th = c03.sampler_object(it, ctx, st, cls, n, P, 'self')
                s = native.const_arr(it, st, tuple(num(1) for _ in range(n))) if k else it.sym_array(st, 'x', (num(n),), 'int')
                e0 = it.new_arr(st, (num(1),), lambda ix: ('sym', 'E0'), 'float')
                kw = {}
                if given:
                    kw['rng'] = R.generator('given')
                if site is not None:
                    kw['flip_site'] = num(site)
                it.plan = cell[0]
                outs = it.run(I.Func(m[2], m[1], None, m[3], o), [s, e0], kw, st)
                return [s2.events for s2, v in normal(outs)]
            ev = [e for _, _, paths in c03.explore(go, cell) for e in paths]
            if not ev:
                raise Undecided('no path')
            judge(ctx, con, ev, ('given',) if given else ('self',))


# ------------------------------------------------------------------ without a generator
def fresh(ctx, cls, mod, args, kw, con):
    it = machine(ctx, 3)
    st = I.State()
    r = ctx.find(mod, cls)
    m = ctx.proj.method(r, '__init__')
    if m is None:
        raise Undecided('no constructor')
    names = [a.arg for a in m[2].args.args]
    kw = {k: v for k, v in kw(it, st).items() if k in names}
    for s, o in attempt(ctx, con, it, st, I.Cls(r), args(it, st), kw):
        g = it.getattr(s, o, 'rng')
        if not isinstance(g, I.Extern) or not g.name.startswith('rng:'):
            ctx.undecided('default', con, 'generator not modelled')
            continue
        src = g.name[4:]
        h = History(s.events)
        sd = h.seeds.get(src, 'none')
        if src == 'global':
            ctx.ok('default', con, 'process-wide generator')
        elif sd == 'none':
            ctx.undecided('default', con, 'generator %s' % src)
        else:
            ctx.expect('default', con, True if sd == T.NONE else False if I.is_term(sd) and T.int_val(sd) is not None else None,
                       'objects that are not given a generator all use the fixed seed %s' % (short(sd) if I.is_term(sd) else '?'), 'a generator of its own')
    if 'rng' in names:
        ds = dict(zip(reversed(names), reversed(m[2].args.defaults)))
        d = ds.get('rng')
        ctx.expect('default', con+', default argument', d is None or isinstance(d, ast.Constant) and d.value is None or (None if not isinstance(d, ast.Call) else False),
                   'the default generator is created once and shared by all objects', 'no generator')


# ------------------------------------------------------------------ models and solvers hand the generator on
def model(ctx, cls, boost, parallel):
    n = 3
    con = 'coniii/models.py:%s sampling%s%s' % (cls, ' compiled' if boost else '', ' parallel' if parallel else '')
    it = machine(ctx, n)
    st = I.State()
    N = c13.nparam(cls, n)
    r = ctx.find(MD, cls)
    ev, later = [], []
    for s, o in attempt(ctx, con, it, st, I.Cls(r), [it.sym_array(st, 'm', (num(N),))], {'rng': G0}):
        for s1, _ in attempt(ctx, con, it, s, it.getattr(s, o, 'setup_sampler'), [], {'sampler_kwargs': it.alloc(s, I.DictC({('str', 'boost'): F(boost)}))}):
            smp = it.getattr(s1, o, 'sampler')
            if isinstance(smp, I.Ref):
                s1.heap[smp.id].attrs['nCpus'] = num(2)
            for s2, _ in attempt(ctx, con, it, s1, it.getattr(s1, o, 'generate_sample'), [num(2), num(1)], {'sample_size': num(3), 'parallel': F(parallel)}):
                for s3, _ in attempt(ctx, con, it, s2, it.getattr(s2, o, 'generate_sample'), [num(2), num(1)], {'sample_size': num(3), 'parallel': F(parallel)}):
                    ev.append(s3.events)
            # a generator set later is the only one from then on
            for s2, _ in attempt(ctx, con, it, s1, it.getattr(s1, o, 'set_rng'), [R.generator('rng1')], {}):
                k = len(s2.events)
                for s3, _ in attempt(ctx, con, it, s2, it.getattr(s2, o, 'generate_sample'), [num(2), num(1)], {'sample_size': num(3), 'parallel': F(parallel)}):
                    later.append(s3.events[k:])
    judge(ctx, con, ev)
    judge(ctx, con+' after set_rng', later, ('rng1',))


def solver(ctx, cls, sparse):
    """a generator among the keyword arguments reaches the model and its sampler"""
    con = 'coniii/solvers.py:%s.__init__' % cls
    it = machine(ctx, 3)
    st = I.State()
    r = ctx.find(SOL, cls)
    a = [const_mat(it, st, c10.SAMPLE[3])]
    kw = {'rng': G0, 'iprint': T.FALSE}
    if sparse:
        kw['parameter_ix'] = it.new_arr(st, (num(2),), vec([num(0), num(2)]), 'int')
    m = ctx.proj.method(r, '__init__')
    if m is None:
        raise Undecided('no constructor')
    ctx.analysed.add('%s:%s.__init__' % (SOL, cls))
    for s, o in attempt(ctx, con, it, st, I.Cls(r), a, kw):
        mo = it.getattr(s, o, 'model')
        who = [('model', mo)]
        if isinstance(mo, I.Ref) and 'sampler' in s.heap[mo.id].attrs and cls in ('MCH', 'SparseMCH', 'RegularizedMeanField', 'ClusterExpansion'):
            who.append(('sampler', it.getattr(s, mo, 'sampler')))
        for nm, ob in who:
            g = it.getattr(s, ob, 'rng') if isinstance(ob, I.Ref) else None
            ok = True if isinstance(g, I.Extern) and g.name == G0.name else False if isinstance(g, I.Extern) and g.name.startswith('rng:') else None
            ctx.expect('handed on', '%s, %s' % (con, nm), ok, 'the generator given to the solver is not the one its %s uses' % nm, 'the generator given')
        judge(ctx, con, [s.events], need=False)


# ------------------------------------------------------------------ other samplers
def tempering(ctx, what):
    con = 'coniii/samplers.py:ParallelTempering.%s' % what
    n = 2
    st = I.State()
    ext = {SM+':ParallelTempering.optimize_beta': lambda it, st, a, kw, node: T.NONE}
    it = machine(ctx, n, ext)
    it.max_paths = it.fork_while = 400
    r = ctx.find(SM, 'ParallelTempering')
    kw = {'Tbds': I.Tup([num(1), num(2)]), 'replica_burnin': num(2), 'rep_ex_burnin': num(1), 'rng': G0}
    ev = []
    for s, o in attempt(ctx, con, it, st, I.Cls(r), [num(n), theta(it, st, 'Metropolis', n), energy(), num(2)], kw):
        if what == '__init__':
            ev.append(s.events)
        else:
            it.externs.pop(SM+':ParallelTempering.optimize_beta', None)
            for s1, _ in attempt(ctx, con, it, s, it.getattr(s, o, what), [num(2), num(1)] if what == 'optimize_beta' else [num(2)], {'max_iter': num(2)} if what == 'optimize_beta' else {}):
                ev.append(s1.events)
    judge(ctx, con, ev)


def wolff(ctx, parallel):
    con = 'coniii/samplers.py:WolffIsing.%s' % ('generate_sample_parallel' if parallel else 'generate_sample')
    n = 2

    def flip(it, st, a, kw, node):
        v = dict(zip(('self', 'state', 'initialsite'), a))
        g = it.getattr(st, v['self'], 'rng')
        src = g.name[4:] if isinstance(g, I.Extern) and g.name.startswith('rng:') else '?'
        u = T.sym(R.fresh(it, st, 'd'))
        st.events.append(('draw', src, 'step', (), u, getattr(node, 'lineno', 0)))
        it.store(st, v['state'], [('sl', T.ZERO, num(n), T.ONE, 'full')], it.new_arr(st, (num(n),), lambda ix: ('fn', 'state', u, ix[0]), 'int'), 'set', node)
        return v['state']
    it = machine(ctx, n, {SM+':WolffIsing.one_step': flip})
    st = I.State()
    ev = []
    for s, o in attempt(ctx, con, it, st, I.Cls(ctx.find(SM, 'WolffIsing')), [it.sym_array(st, 'J', (num(1),)), it.sym_array(st, 'h', (num(n),))], {}):
        it.setattr(s, o, 'rng', G0)
        f = it.getattr(s, o, 'generate_sample_parallel' if parallel else 'generate_sample')
        for s1, _ in attempt(ctx, con, it, s, f, [num(2), num(2)], {}):
            for s2, _ in attempt(ctx, con, it, s1, f, [num(2), num(2)], {}):
                ev.append(s2.events)
    judge(ctx, con, ev)


def lattice(ctx, syst):
    con = 'coniii/ising/automaton.py:Ising2D.iterate%s' % ('' if syst else ' random')
    it = machine(ctx, 2)
    st = I.State()
    r = ctx.find('coniii.ising.automaton', 'Ising2D')

    def flip(it, st, a, kw, node):
        u = T.sym(R.fresh(it, st, 'd'))
        st.events.append(('draw', 'global', 'step', (), u, getattr(node, 'lineno', 0)))
        return a[-1] if a else T.NONE
    it.externs['coniii.ising.automaton:Ising2D.flip_metropolis'] = flip
    ev = []
    for s, o in attempt(ctx, con, it, st, I.Cls(r), [I.Tup([num(2), num(2)]), ('sym', 'J')], {'rng': G0}):
        f = it.getattr(s, o, 'iterate')
        for s1, _ in attempt(ctx, con, it, s, f, [num(6)], {'systematic': F(syst)}):
            for s2, _ in attempt(ctx, con, it, s1, f, [num(3)], {'systematic': F(syst)}):
                ev.append(s2.events)
    judge(ctx, con, ev)


def convenience(ctx, parallel):
    con = 'coniii/samplers.py:sample_ising%s' % (' parallel' if parallel else '')
    n = 3
    it = machine(ctx, n)
    st = I.State()
    r = ctx.find(SM, 'sample_ising')
    ev = []
    kw = {'parallel': F(parallel), 'seed': ('sym', 'd#seed'), 'generate_sample_kw': it.alloc(st, I.DictC({('str', 'n_iters'): num(2)}))}
    st.events.append(('draw', 'rng0', 'seed', (), ('sym', 'd#seed'), 0))
    T.INT_SYMS.add('d#seed')
    for s, v in attempt(ctx, con, it, st, func(r), [theta(it, st, 'Metropolis', n), num(2)], kw):
        ev.append(s.events)
    judge(ctx, con, ev)


# ------------------------------------------------------------------ compiled samplers
def compiled(ctx, cname, kind):
    n = 3
    con = 'cpp/samplers.cpp:%s made from %s' % (cname, 'an array' if kind else 'a vector')
    it, mod = native.env(ctx)
    st = I.State()
    st.pc.append(T.ge(('sym', 'SEED'), num(0)))
    T.INT_SYMS.add('SEED')
    th = it.sym_array(st, 'th', (num(native.nparam(cname, n)),))
    objs, cls = native.construct(ctx, it, mod, cname, n, th, st, ('sym', 'SEED'), kind)
    if not objs:
        raise Undecided('constructor')
    for s0, o in objs:
        if FX.Facts(s0.pc).entails(T.eq(('sym', 'SEED'), num(-1))) is True:
            continue
        es = [e for e in s0.events if e[0] == 'engine']
        rd = s0.heap[o.id].attrs.get('rd')
        sd = getattr(rd, 'seed', None)
        ctx.expect('compiled', con+', seed', None if sd is None else sd == (('sym', 'SEED'),) if sd and I.is_term(sd[0]) or sd == () else None,
                   'the engine is not seeded with the seed given', 'the seed given')
        for c in ('Sampler', 'Ising', 'Potts3'):
            it.externs['native:%s.sample_metropolis' % c] = c04.native_step_extern(n)
            it.externs['native:%s.calc_e' % c] = lambda it, st, args, kw, node: T.sym('energy')
        k0 = len(es)
        name = 'generate_sample'
        args = [num(2), num(1), num(2), F(False)]
        outs = native.call_method(ctx, it, mod, s0, o, cls, name, args)
        res = normal(outs)
        if not res:
            raise Undecided('no path')
        for s1, _ in res:
            es = [e for e in s1.events if e[0] == 'engine']
            ctx.expect('compiled', con+', reseeding', len(es) == k0, 'sampling starts the engine again', 'the engine goes on')
            src = {e[1] for e in s1.events if e[0] == 'draw'}
            ctx.expect('compiled', con+', source', None if not src else src == {'engine'}, 'a draw does not come from the engine but from %s' % ', '.join(sorted(src-{'engine'})), 'the engine')


def run(ctx):
    ctx.rule('provenance', 'every draw comes from the given generator, or from one seeded by draws from it')
    ctx.rule('streams', 'no two draws use the same stretch of one stream: workers and repeated calls have streams of their own, and go on where they stopped')
    ctx.rule('schedule', 'results do not depend on the order in which workers finish')
    ctx.rule('handed on', 'solvers hand a given generator to their model and sampler')
    ctx.rule('default', 'without a generator every object gets its own, which is not seeded with a constant')
    ctx.rule('compiled', 'the compiled samplers seed one engine with the given seed and draw from it alone')
    for s in (True, False):
        ctx.guard('provenance', 'Ising2D', lattice, ctx, s)
    samplers(ctx)
    own_steps(ctx)
    for p in (False, True):
        ctx.guard('provenance', 'WolffIsing', wolff, ctx, p)
        ctx.guard('provenance', 'sample_ising', convenience, ctx, p)
    for w in ('__init__', 'generate_sample', 'optimize_beta'):
        ctx.guard('provenance', 'ParallelTempering', tempering, ctx, w)
    for cls in ('Ising', 'Triplet', 'Potts3'):
        for boost in (False, True):
            for par in (False, True):
                ctx.guard('provenance', 'coniii/models.py:%s' % cls, model, ctx, cls, boost, par)
    for cls, sp in (('Enumerate', 0), ('MPF', 0), ('Pseudo', 0), ('MCH', 0), ('SparseEnumerate', 1), ('SparseMCH', 1), ('ClusterExpansion', 0), ('RegularizedMeanField', 0)):
        ctx.guard('handed on', cls, solver, ctx, cls, sp)
    for cname in ('Ising', 'Potts3'):
        for kind in (1, 0):
            ctx.guard('compiled', cname, compiled, ctx, cname, kind)
    n = 3
    for cls in ('Metropolis', 'Potts3'):
        ctx.guard('default', cls, fresh, ctx, cls, SM, lambda it, st, cls=cls: [num(n), theta(it, st, cls, n)], lambda it, st: {'calc_e': energy(), 'iprint': T.FALSE, 'boost': T.FALSE, 'n_cpus': num(1)},
                  'coniii/samplers.py:%s.__init__' % cls)
    for cls in ('Ising', 'Triplet', 'Potts3'):
        ctx.guard('default', cls, fresh, ctx, cls, MD, lambda it, st, cls=cls: [it.sym_array(st, 'm', (num(c13.nparam(cls, n)),))], lambda it, st: {}, 'coniii/models.py:%s.__init__' % cls)
    ctx.guard('default', 'Ising2D', fresh, ctx, 'Ising2D', 'coniii.ising.automaton', lambda it, st: [I.Tup([num(2), num(2)]), ('sym', 'J')], lambda it, st: {}, 'coniii/ising/automaton.py:Ising2D.__init__')
