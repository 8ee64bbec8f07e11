"""Model objects.  Constructors are interpreted for every documented way of giving the parameters and for wrong sizes; set_multipliers,
generate_sample and set_rng are interpreted on the resulting objects, and the functions the object then offers (calc_e, calc_observables,
calc_p) are evaluated and compared with the ones of the parameters it holds."""
import itertools
from .. import terms as T
from .. import interp as I
from .. import libmodel as LM
from ..project import Undecided
from ..ctx import equal, short, fmt
from .common import *
from .solve import flat
from .. import rng

LEVEL = 'proof'
MD = 'coniii.models'
SM = 'coniii.samplers'
RNG0 = rng.generator('rng0')


def nparam(cls, n):
    p2 = n*(n-1)//2
    return {'Ising': n+p2, 'Triplet': n+p2+n*(n-1)*(n-2)//6, 'Potts3': 3*n+p2}[cls]


def split(cls, n):
    p2 = n*(n-1)//2
    return {'Ising': [n, p2], 'Triplet': [n, p2, n*(n-1)*(n-2)//6], 'Potts3': [3*n, p2]}[cls]


def eqn(cls, n):
    return 'coniii.ising_eqn.ising_eqn_%d_%s' % (n, {'Ising': 'sym', 'Triplet': 'sym_triplet', 'Potts3': 'potts'}[cls])


def table(mod, name, k):
    """stands for a shipped table (decided by C01): k generic values at the parameters it is called with"""
    def h(it, st, a, kw, node):
        v = flat(it, st, a[0]) if len(a) == 1 and not kw else None
        if v is None:
            return I.opaque('call of an equation table')
        return it.new_arr(st, (num(k),), vec([('sym', '%s.%s(%s)[%d]' % (mod.split('.')[-1], name, ', '.join(fmt(x) for x in v), i)) for i in range(k)]), 'float')
    return h


def machine(ctx, externs=None):
    ext = dict(externs or {})
    for n in range(2, 13):
        for suf in ('', '_sym', '_triplet', '_sym_triplet', '_potts', '_sym_hp', '_hp'):
            m = ctx.proj.module('coniii.ising_eqn.ising_eqn_%d%s' % (n, suf))
            if m is not None:
                ext[m.name + ':calc_observables'] = table(m.name, 'calc_observables', 3)
                ext[m.name + ':p'] = table(m.name, 'p', 4)
    return I.Interp(ctx.proj, unroll=4096, externs=ext, lib=dict(LM.TABLE, **rng.lib_table()))


def make(ctx, it, st, cls, args, kw=None):
    r = ctx.find(MD, cls)
    it.raised = []
    m = ctx.proj.method(r, '__init__')
    if m:
        ctx.analysed.add('%s:%s.__init__' % (m[1].name, cls))
    return it.call(st, I.Cls(r), args, dict(kw or {}), None)


def elems(it, s, o, name):
    v = it.getattr(s, o, name)
    return flat(it, s, v) if v is not None else None


def check_vec(ctx, rule, con, got, want):
    if got is None:
        ctx.undecided(rule, con, 'not a fixed vector')
        return False
    if len(got) != len(want):
        ctx.bad(rule, con, '%d parameters instead of %d' % (len(got), len(want)))
        return False
    good = True
    for i, (g, w) in enumerate(zip(got, want)):
        good &= compare(ctx, rule, '%s, element %d' % (con, i), g, w) is True
    return good


# ---------------------------------------------------------------- constructor forms
def forms(cls, n, it, st):
    """name -> (argument, required parameter vector, [(caller array, its elements)])"""
    N = nparam(cls, n)
    sp = split(cls, n)
    out = {}
    if cls != 'Triplet':
        v = it.sym_array(st, 'v', (num(N),))
        w = [idx('v', i) for i in range(N)]
        out['one vector'] = (v, w, [(v, w)])
    parts = [it.sym_array(st, 'abc'[k], (num(m),)) for k, m in enumerate(sp)]
    w = [idx('abc'[k], i) for k, m in enumerate(sp) for i in range(m)]
    caller = [(p, [idx('abc'[k], i) for i in range(sp[k])]) for k, p in enumerate(parts)]
    out['list of vectors'] = (it.alloc(st, I.ListC(list(parts))), w, caller)
    if cls == 'Ising':
        out['size'] = (num(n), [T.ZERO]*N, [])
        M = sym_mat(it, st, 'M', n, diag=lambda i: idx('d', i))
        ps = pairs(n)
        out['matrix'] = (M, [idx('d', i) for i in range(n)]+[idx('M', i, j) for i, j in ps], [(M, None)])
    return out


def ctor(ctx, cls, n):
    it0, st0 = machine(ctx), I.State()
    for name in forms(cls, n, it0, st0):
        con = 'coniii/models.py:%s.__init__ n=%d, %s' % (cls, n, name)

        def one(name=name, con=con):
            it, st = machine(ctx), I.State()
            arg, want, caller = forms(cls, n, it, st)[name]
            g = RNG0
            res = make(ctx, it, st, cls, [arg], {'rng': g, 'n_cpus': num(3)})
            if not res:
                if it.raised and all(not any(x[0] == 'opaque' for y in s.pc for x in T.subterms(y)) for s, _ in it.raised):
                    ctx.bad('forms', con, 'valid parameters are rejected')
                else:
                    ctx.undecided('forms', con, 'no instance')
                return
            for s, o in res:
                if s.pc and len(res) > 1:
                    ctx.undecided('forms', con, 'depends on ' + short(s.pc[0]))
                    continue
                if oob_of(s):
                    ctx.bad('forms', con, 'an element outside its array is accessed: ' + oob_of(s))
                    continue
                check_vec(ctx, 'forms', con+', stored parameters', elems(it, s, o, 'multipliers'), want)
                compare(ctx, 'forms', con+', system size', it.getattr(s, o, 'n'), num(n))
                for k, (c, w) in enumerate(caller):
                    cc = '%s, argument array %d afterwards' % (con, k)
                    a = it.arr(s, c)
                    d = [T.int_val(x) for x in a[0]]
                    for q in itertools.product(*map(range, d)):
                        if w is not None:
                            e = w[q[0]]
                        else:
                            e = idx('d', q[0]) if q[0] == q[1] else idx('M', min(q), max(q))
                        compare(ctx, 'inputs', cc+' %s' % (q,), a[1](tuple(num(x) for x in q)), e)
                rv = it.getattr(s, o, 'rng')
                same_rng(ctx, con, rv, g, 'the generator given to the constructor is not the one the model holds', 'generator kept')
                functions(ctx, cls, n, it, s, o, con, want)
        ctx.guard('forms', con, one)


def has_unknown(t):
    return any(x[0] == 'opaque' for x in T.subterms(t))


def same_rng(ctx, con, v, want, msg, note):
    if v is want:
        ctx.ok('rng', con, note)
    elif isinstance(v, I.Extern) and v.name.startswith('rng:') or v == T.NONE:
        ctx.bad('rng', con, '%s: %s' % (msg, getattr(v, 'name', 'None')))
    else:
        ctx.undecided('rng', con, 'generator not modelled')


def wrong(ctx, cls, n):
    """sizes that fit no system must be rejected"""
    sp = split(cls, n)
    cases = []
    for k in range(len(sp)):
        for d in (-1, 1):
            q = list(sp)
            q[k] += d
            if q[k] < 0 or (cls == 'Ising' and q[0] == 0):
                continue
            if all(split(cls, m) != q for m in range(1, 12)):
                cases.append(('list', q))
    if cls != 'Triplet':
        N = nparam(cls, n)
        good = {nparam(cls, m) for m in range(1, 14)}
        cases += [('vector', N+d) for d in (-1, 1) if N+d not in good and N+d > 2]
    if cls == 'Ising':
        cases += [('size', 1), ('size', 0)]
    for kind, q in cases:
        con = 'coniii/models.py:%s.__init__ %s of sizes %s' % (cls, kind, q)

        def one(kind=kind, q=q, con=con):
            it, st = machine(ctx), I.State()
            if kind == 'list':
                a = it.alloc(st, I.ListC([it.sym_array(st, 'abc'[k], (num(m),)) for k, m in enumerate(q)]))
            elif kind == 'vector':
                a = it.sym_array(st, 'v', (num(q),))
            else:
                a = num(q)
            res = make(ctx, it, st, cls, [a])
            if not res:
                ctx.ok('sizes', con, 'rejected')
            elif any(not s.pc and all(e[1] == T.TRUE for e in s.events if e[0] == 'assert') for s, _ in res):
                ctx.bad('sizes', con, 'parameters that fit no system size are accepted')
            else:
                ctx.undecided('sizes', con, 'depends on '+(short(res[0][0].pc[0]) if res[0][0].pc else 'undecided assertions'))
        ctx.guard('sizes', con, one)


# ---------------------------------------------------------------- functions of the object
def energy(cls, n, w, x):
    """w terms, x spins as terms (Potts: integers)"""
    ps = pairs(n)
    if cls == 'Potts3':
        return T.neg(T.addn([w[i+n*x[i]] for i in range(n)]+[w[3*n+c] for c, (i, j) in enumerate(ps) if x[i] == x[j]]))
    t = [T.mul(w[i], x[i]) for i in range(n)]+[T.mul(w[n+c], T.mul(x[i], x[j])) for c, (i, j) in enumerate(ps)]
    if cls == 'Triplet':
        t += [T.mul(w[n+len(ps)+c], T.mul(x[i], T.mul(x[j], x[k]))) for c, (i, j, k) in enumerate(triples(n))]
    return T.neg(T.addn(t))


def functions(ctx, cls, n, it, s, o, con, want):
    """calc_e is the energy of the model class; calc_observables and calc_p use the given vector, by default the stored one"""
    N = nparam(cls, n)
    s0 = s.copy()
    if cls == 'Potts3':
        rows = [[(i*a+a) % 3 for i in range(n)] for a in range(3)]
        X = it.new_arr(s0, (num(3), num(n)), lambda q: num(rows[T.int_val(q[0])][T.int_val(q[1])]), 'int')
    else:
        rows = [[idx('X', a, i) for i in range(n)] for a in range(2)]
        X = it.sym_array(s0, 'X', (num(2), num(n)), 'int')
    th = it.sym_array(s0, 'th', (num(N),))
    ce = it.getattr(s0, o, 'calc_e')
    for s1, v in it.call(s0, ce, [X, th], {}, None):
        R = Run(it, s1, v)
        for a, row in enumerate(rows):
            compare(ctx, 'energy', '%s, calc_e, state %d' % (con, a), R[a], energy(cls, n, [idx('th', i) for i in range(N)], row), s1.pc)
    mod = ctx.proj.module(eqn(cls, n))
    for name, fn in (('calc_observables', 'calc_observables'), ('calc_p', 'p')):
        f = it.getattr(s, o, name)
        c = '%s, %s' % (con, name)
        if mod is None:
            ctx.expect('equations', c, None if not I.is_term(f) or has_unknown(f) else f == ('none',) or f == T.NONE,
                       'is set although no equations exist for this system', 'None without equation file')
            continue
        if not isinstance(f, I.Func):
            ctx.expect('equations', c, False if I.is_term(f) and not has_unknown(f) else None, 'is not callable: %s' % (f,))
            continue
        ref = ctx.proj.find(eqn(cls, n), fn)
        for how, vals in (('default', want), ('given', [idx('y', i) for i in range(N)])):
            s2 = s.copy()
            arg = it.new_arr(s2, (num(N),), vec(vals), 'float')
            w = it.call(s2.copy(), func(ref), [arg], {}, None)
            g = it.call(s2, f, [arg] if how == 'given' else [], {}, None)
            if len(w) != 1 or len(g) != 1:
                ctx.undecided('equations', '%s, %s' % (c, how), '%d/%d paths' % (len(g), len(w)))
                continue
            a, b = flat(it, *g[0]), flat(it, *w[0])
            if a is None or b is None:
                ctx.undecided('equations', '%s, %s' % (c, how), 'not a vector')
            elif a == b:
                ctx.ok('equations', '%s, %s parameters' % (c, how), '%d values' % len(a))
            elif len(a) != len(b):
                ctx.bad('equations', '%s, %s parameters' % (c, how), '%d values instead of %d' % (len(a), len(b)))
            else:
                for i, (x, y) in enumerate(zip(a, b)):
                    compare(ctx, 'equations', '%s, %s parameters, value %d' % (c, how, i), x, y)


# ---------------------------------------------------------------- changing parameters
def instance(ctx, cls, n, it=None, kw=None):
    it = it or machine(ctx)
    st = I.State()
    N = nparam(cls, n)
    if cls == 'Triplet':
        arg = it.alloc(st, I.ListC([it.sym_array(st, 'abc'[k], (num(m),)) for k, m in enumerate(split(cls, n))]))
    else:
        arg = it.sym_array(st, 'v', (num(N),))
    res = [(s, o) for s, o in make(ctx, it, st, cls, [arg], kw) if not any(c == T.lnot(('b', RNG0)) for c in s.pc)]
    if len(res) != 1:
        raise Undecided('%d instances' % len(res))
    return it, res[0][0], res[0][1]


def method(ctx, it, s, o, cls, name):
    r = ctx.find(MD, cls)
    m = ctx.proj.method(r, name)
    if m is None:
        raise Undecided('no method '+name)
    ctx.analysed.add('%s:%s.%s' % (m[1].name, m[3][2].name if m[3] else '', name))
    return I.Func(m[2], m[1], None, m[3], o)


def setting(ctx, cls, n):
    """two changes in a row: the last one counts everywhere"""
    it, s, o = instance(ctx, cls, n)
    N = nparam(cls, n)
    con = 'coniii/models.py:%s.set_multipliers n=%d' % (cls, n)
    cur = [(s, None)]
    own = [('constructor', it.getattr(s, o, 'multipliers'), elems(it, s, o, 'multipliers'))]
    for nm in ('u', 'z'):
        nxt = []
        for s1, _ in cur:
            a = it.sym_array(s1, nm, (num(N),))
            own.append((nm, a, [idx(nm, i) for i in range(N)]))
            nxt += it.call(s1, method(ctx, it, s1, o, cls, 'set_multipliers'), [a], {}, None)
        cur = nxt
    if not cur:
        ctx.bad('set', con, 'does not return')
    for s1, _ in cur:
        want = [idx('z', i) for i in range(N)]
        check_vec(ctx, 'set', con+', stored parameters', elems(it, s1, o, 'multipliers'), want)
        if cls != 'Triplet':
            for nm, a, w in own:
                check_vec(ctx, 'inputs', '%s, array given to the %s' % (con, 'constructor' if nm == 'constructor' else 'first call' if nm == 'u' else 'second call'), flat(it, s1, a), w)
        functions(ctx, cls, n, it, s1, o, con, want)


def two_models(ctx, cls, n):
    """two models of one class do not share their parameters"""
    it, s, o = instance(ctx, cls, n)
    N = nparam(cls, n)
    con = 'coniii/models.py:%s two models, n=%d' % (cls, n)
    sp = split(cls, n)
    arg = it.alloc(s, I.ListC([it.sym_array(s, 'ABC'[k], (num(m),)) for k, m in enumerate(sp)]))
    first = elems(it, s, o, 'multipliers')
    for s1, o2 in make(ctx, it, s, cls, [arg]):
        f = elems(it, s1, o, 'multipliers')
        check_vec(ctx, 'separate', con+', first model', f, first)
        functions(ctx, cls, n, it, s1, o, con+', first model', first)


# ---------------------------------------------------------------- sampling through the model
def record(name):
    def h(it, st, a, kw, node):
        o = a[0]
        st.events.append(('mcall', name, list(a[1:]), dict(kw), {k: v for k, v in st.heap[o.id].attrs.items()}))
        if name.startswith('generate_sample'):
            st.heap[o.id].attrs['sample'] = ('sym', 'newsample')
        return T.NONE
    return h


def stubs(scls):
    d = {}
    for m in ('generate_sample', 'generate_sample_parallel'):
        for how in ('', '_py', '_boost'):
            for c in (scls, 'Metropolis', 'Sampler'):
                d['%s:%s.%s%s' % (SM, c, m, how)] = record(m)
    return d


def sampling(ctx, cls, n, parallel, given):
    scls = 'Potts3' if cls == 'Potts3' else 'Metropolis'
    it = machine(ctx, stubs(scls))
    g = RNG0
    it, s, o = instance(ctx, cls, n, it, {'rng': g})
    N = nparam(cls, n)
    con = 'coniii/models.py:Model.generate_sample of %s n=%d, %s%s' % (cls, n, 'parallel' if parallel else 'sequential', ', parameters and size given' if given else '')
    res = it.call(s, method(ctx, it, s, o, cls, 'setup_sampler'), [], {'sample_size': ('sym', 'S'), 'sampler_kwargs': it.alloc(s, I.DictC({('str', 'boost'): T.FALSE if given else T.TRUE}))}, None)
    if not res:
        ctx.bad('sampler', con, 'setup_sampler always raises')
        return
    for s1, _ in res:
        smp = it.getattr(s1, o, 'sampler')
        if not isinstance(smp, I.Ref):
            ctx.undecided('sampler', con, 'sampler not modelled')
            continue
        compare(ctx, 'sampler', con+', sampler size', it.getattr(s1, smp, 'n'), num(n))
        check_vec(ctx, 'sampler', con+', sampler parameters', elems(it, s1, smp, 'theta'), elems(it, s1, o, 'multipliers'))
        rv, mv = it.getattr(s1, smp, 'rng'), it.getattr(s1, o, 'rng')
        same_rng(ctx, con+', generator of the sampler', rv, mv, 'the sampler does not use the generator of the model', 'the generator of the model')
        sampler_energy(ctx, cls, n, it, s1, smp, con)
        # change the parameters of the model afterwards: the next sample must use the current ones
        for s2, _ in it.call(s1, method(ctx, it, s1, o, cls, 'set_multipliers'), [it.sym_array(s1, 'u', (num(N),))], {}, None):
            kw = {'parallel': T.TRUE if parallel else T.FALSE,
                  'generate_kwargs': it.alloc(s2, I.DictC({('str', 'systematic_iter'): ('sym', 'FLAG')}))}
            want = [idx('u', i) for i in range(N)]
            size = ('sym', 'S')
            if given:
                kw['multipliers'] = it.sym_array(s2, 'w', (num(N),))
                want = [idx('w', i) for i in range(N)]
                kw['sample_size'] = size = num(77)
            out = it.call(s2, method(ctx, it, s2, o, cls, 'generate_sample'), [('sym', 'NIT'), ('sym', 'BURN')], kw, None)
            if not out:
                ctx.bad('sampler', con, 'always raises')
            for s3, _ in out:
                if any(c == T.lnot(('b', size)) or (c[0] == 'eq0' and size in T.subterms(c)) for c in s3.pc):
                    continue
                judge_sampling(ctx, con, it, s3, o, smp, parallel, want, size)


def judge_sampling(ctx, con, it, s, o, smp, parallel, want, size):
    ev = [e for e in s.events if e[0] == 'mcall']
    for e in s.events:
        if e[0] == 'badcall':
            ctx.bad('sampler', con, 'the arguments of a call do not fit %s' % e[1])
            return
    if any(e[0] in ('unknowncall',) for e in s.events):
        ctx.undecided('sampler', con, 'unknown call')
        return
    name = 'generate_sample_parallel' if parallel else 'generate_sample'
    if len(ev) != 1:
        ctx.bad('sampler', con, 'samples are generated %d times' % len(ev))
        return
    _, nm, a, kw, at = ev[0]
    if nm != name:
        ctx.bad('sampler', con, '%s is called instead of %s' % (nm, name))
    else:
        ctx.ok('sampler', con+', method', name)
    s0 = s
    th = flat(it, s0, at.get('theta')) if at.get('theta') is not None else None
    check_vec(ctx, 'sampler', con+', parameters when sampling', th, want)
    pos = ['sample_size', 'n_iters', 'burn_in']
    got = dict(zip(pos, a))
    got.update(kw)
    for k, w in (('sample_size', size), ('n_iters', ('sym', 'NIT')), ('burn_in', ('sym', 'BURN')), ('systematic_iter', ('sym', 'FLAG'))):
        if k not in got:
            ctx.bad('sampler', '%s, %s' % (con, k), 'is not passed on')
        else:
            compare(ctx, 'sampler', '%s, %s' % (con, k), got[k], w)
    r = it.getattr(s, o, 'sample')
    ctx.expect('sampler', con+', stored sample', True if r == ('sym', 'newsample') else None if not I.is_term(r) or has_unknown(r) else False,
               'the model does not hold the generated sample but %s' % (short(r) if I.is_term(r) else r), 'the generated sample')


def sampler_energy(ctx, cls, n, it, s, smp, con):
    N = nparam(cls, n)
    s0 = s.copy()
    ce = it.getattr(s0, smp, 'calc_e')
    if cls == 'Potts3':
        row = [(2*i+1) % 3 for i in range(n)]
        X = it.new_arr(s0, (num(1), num(n)), lambda q: num(row[T.int_val(q[1])]), 'int')
    else:
        row = [idx('X', 0, i) for i in range(n)]
        X = it.sym_array(s0, 'X', (num(1), num(n)), 'int')
    th = it.sym_array(s0, 'th', (num(N),))
    for s1, v in it.call(s0, ce, [X, th], {}, None):
        compare(ctx, 'sampler', con+', energy of the sampler', Run(it, s1, v)[0], energy(cls, n, [idx('th', i) for i in range(N)], row), s1.pc)


def generator(ctx, cls, n):
    scls = 'Potts3' if cls == 'Potts3' else 'Metropolis'
    it, s, o = instance(ctx, cls, n, machine(ctx, stubs(scls)), {'rng': RNG0})
    con = 'coniii/models.py:Model.set_rng of %s n=%d' % (cls, n)
    new = rng.generator('rng1')
    for s1, _ in it.call(s, method(ctx, it, s, o, cls, 'setup_sampler'), [], {}, None):
        for s2, _ in it.call(s1, method(ctx, it, s1, o, cls, 'set_rng'), [new], {}, None):
            for who, ob in (('model', o), ('sampler', it.getattr(s2, o, 'sampler'))):
                v = it.getattr(s2, ob, 'rng')
                same_rng(ctx, '%s, %s' % (con, who), v, new, 'does not hold the new generator', 'the new generator')


def run(ctx):
    thorough = ctx.tier == 'thorough'
    ctx.rule('forms', 'every documented way of giving parameters leads to the same stored vector in the common order and the right system size')
    ctx.rule('sizes', 'parameter sets that fit no system size are rejected')
    ctx.rule('inputs', 'the arrays given to the constructor are unchanged')
    ctx.rule('energy', 'calc_e of the object is minus the parameters times the observables of its class')
    ctx.rule('equations', 'calc_observables and calc_p are the shipped equations of this system at the given parameters, by default at the stored ones; None where no equations exist')
    ctx.rule('set', 'after set_multipliers the object holds and uses the last parameters given')
    ctx.rule('separate', 'building a second model does not change the first')
    ctx.rule('sampler', 'the sampler has the size, parameters and energy of the model; generate_sample uses the current (or given) parameters, sample size, iterations, burn-in and options, and stores the sample generated')
    ctx.rule('rng', 'the random number generator given to the model is the one the model and its sampler use')
    sizes = {'Ising': [2, 3, 4, 5, 8, 9, 10], 'Triplet': [3, 4, 5], 'Potts3': [2, 3, 4]}
    if thorough:
        sizes = {'Ising': [2, 3, 4, 5, 6, 7, 8, 9, 10, 12], 'Triplet': [3, 4, 5, 6], 'Potts3': [2, 3, 4, 5, 6]}
    r = ctx.proj.module(MD)
    for v in cutoffs([r.tree], 12):
        for c in sizes:
            if v >= 3 and v not in sizes[c]:
                sizes[c].append(v)
    for cls, ns in sizes.items():
        for n in ns:
            ctx.guard('forms', '%s n=%d' % (cls, n), ctor, ctx, cls, n)
            ctx.guard('sizes', '%s n=%d' % (cls, n), wrong, ctx, cls, n)
        for n in ns[:3]:
            ctx.guard('set', '%s n=%d' % (cls, n), setting, ctx, cls, n)
        n = ns[1]
        ctx.guard('separate', cls, two_models, ctx, cls, n)
        for par, giv in itertools.product((True, False), repeat=2):
            ctx.guard('sampler', '%s %s %s' % (cls, par, giv), sampling, ctx, cls, n, par, giv)
        ctx.guard('rng', cls, generator, ctx, cls, n)
