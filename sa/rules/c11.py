"""Monte Carlo histogram solvers.  solve() of MCH and SparseMCH is interpreted with sampling, observables and the histogram estimate
represented by generic values.  Every path (its conditions, the samples drawn, the estimates asked for, the results) is compared with the
iteration the documentation states, at points covering every exit; learn_parameters_mch and estimate_jac are compared alone as well."""
import random
from fractions import Fraction
from .. import terms as T
from .. import interp as I
from ..project import Undecided
from ..ctx import equal, short, fmt
from .common import *
from .solve import *
from . import c13
from .. import rng

LEVEL = 'proof'
MD = 'coniii.models'


def data(r, i):
    """observables of the solver's own data"""
    return Fraction((r*7+i*5) % 11-5, 9)


class World:
    """stand-ins: sampling puts a new array S<k> on the model, observables of S<k> are leaves o<k>[r,i], estimates are leaves e<j>[i]"""

    def __init__(self, ctx, n, custom=None, named=False):
        self.ctx, self.n, self.N = ctx, n, n+n*(n-1)//2
        self.it = engine(ctx, lib=rng.lib_table())
        self.it.fork_while = self.it.max_paths = 2000
        self.it.externs.update({MD+':Model.generate_sample': self.sample})
        self.obs = I.Extern('calc_observables', self.observables)
        self.mch = I.Extern('mch_approximation', self.estimate)
        self.custom = custom
        self.conv = I.Extern('custom_convergence_f', self.converge)
        self.named = named
        self.rows = 1

    def which(self, st, v):
        a = self.it.arr(st, v)
        if a is None or len(a[0]) != 2:
            raise Undecided('observables of an unmodelled sample')
        t = a[1]((T.ZERO, T.ZERO))
        if t[0] == 'idx' and t[1].startswith('S'):
            return int(t[1][1:])
        if T.num_val(t) is not None:
            return -1
        raise Undecided('observables of an unknown sample ' + short(t))

    def sample(self, it, st, a, kw, node):
        names = ('self', 'n_iters', 'burn_in', 'multipliers', 'sample_size', 'sample_method', 'parallel', 'generate_kwargs')
        b = dict(zip(names, a))
        b.update(kw)
        mdl = b['self']
        mult = b.get('multipliers')
        if mult is None or mult == T.NONE:
            mult = it.getattr(st, mdl, 'multipliers')
        size = b.get('sample_size')
        if size is None or size == T.NONE:
            size = it.getattr(st, mdl, 'sampleSize')
        m = flat(it, st, mult)
        if m is None:
            raise Undecided('sampling at unmodelled parameters')
        gk = b.get('generate_kwargs')
        if gk is not None:
            gk = sorted(((repr(k), v) for k, v in st.heap[gk.id].items.items()), key=repr) if isinstance(gk, I.Ref) and isinstance(st.heap[gk.id], I.DictC) else None
        k = sum(1 for e in st.events if e[0] == 'sample')
        st.events.append(('sample', m, size, b.get('n_iters'), b.get('burn_in'), gk or []))
        it.setattr(st, mdl, 'sample', it.sym_array(st, 'S%d' % k, (size, num(self.n)), 'int'))
        return T.NONE

    def observables(self, it, st, a, kw, node):
        k = self.which(st, a[0] if a else list(kw.values())[0])
        nm = 'o%d' % k
        r = T.int_val(it.arr(st, a[0])[0][0])
        if r is None:
            raise Undecided('sample size')
        if k < 0:
            return it.new_arr(st, (num(r), num(self.N)), lambda z: num(data(T.int_val(z[0]), T.int_val(z[1]))), 'float')
        return it.sym_array(st, nm, (num(r), num(self.N)), 'float')

    def estimate(self, it, st, a, kw, node):
        k = self.which(st, a[0])
        d = flat(it, st, a[1])
        if d is None:
            raise Undecided('estimate at an unmodelled change')
        if self.named:
            s = ', '.join(fmt(x) for x in d)
            return it.new_arr(st, (num(self.N),), vec([('sym', 'est(S%d; %s)[%d]' % (k, s, i)) for i in range(self.N)]), 'float')
        j = sum(1 for e in st.events if e[0] == 'est')
        st.events.append(('est', k, d))
        return it.sym_array(st, 'e%d' % j, (num(self.N),), 'float')

    def converge(self, it, st, a, kw, node):
        i = T.int_val(a[0])
        if i is None:
            raise Undecided('iteration counter not modelled')
        d, size = self.custom(i)
        dd = it.alloc(st, I.DictC({('str', k): num(v) for k, v in d.items()}))
        return dd if size is None else I.Tup([dd, num(size)])

    def solver(self, st, cls, pix=None, size=2):
        kw = {'n_cpus': num(3), 'rng': c13.RNG0, 'iprint': T.FALSE, 'calc_observables': self.obs, 'mch_approximation': self.mch, 'sample_size': num(size)}
        if pix is not None:
            kw['parameter_ix'] = self.it.new_arr(st, (num(len(pix)),), vec([num(x) for x in pix]), 'int')
        rows = [[1]*self.n, [-1]+[1]*(self.n-1), [1]*(self.n-1)+[-1]]
        self.rows = len(rows)
        r = build(self.ctx, self.it, st, SOL, cls, [const_mat(self.it, st, rows)], kw)
        if len(r) != 1:
            raise Undecided('%d ways through the constructor: %s' % (len(r), [short(c) for s, _ in r for c in s.pc][:3]))
        return r[0]


class Point:
    """numbers for the leaves; how far estimates and averages are from the constraints decides which exits are taken"""

    def __init__(self, seed, near, own=None):
        self.seed, self.near, self.own = seed, near, own
        self.cache = {}

    def base(self, i):
        if self.own is not None:
            return self.own[i]
        return random.Random('c%d/%d' % (self.seed, i)).uniform(-.8, .8)

    def __call__(self, t):
        if t[0] != 'idx' or not isinstance(t[1], str):
            return None
        v = self.cache.get(t)
        if v is not None:
            return v
        nm, ix = t[1], [T.int_val(x) for x in t[2]]
        if any(x is None for x in ix):
            return None
        r = random.Random('%d %s %s' % (self.seed, nm, ix))
        q = random.Random('%d %s' % (self.seed, nm)).random()
        if nm == 'c':
            v = self.base(ix[-1])
        elif nm[0] == 'o' or nm[0] == 'e':
            k = self.near[0] if q < .4 else self.near[1] if q < .7 else self.near[2]
            v = self.base(ix[-1])+r.uniform(-1, 1)*k
        elif nm[0] in 'gL':
            v = r.uniform(-1, 1)
        else:
            return None
        self.cache[t] = v
        return v

    def vec(self, nm, m):
        return [self(idx(nm, i)) for i in range(m)]

    def mean(self, nm, rows, m):
        return [sum(self(idx(nm, r, i)) for r in range(rows))/rows for i in range(m)]


def norm(v):
    return sum(x*x for x in v)**.5


NEAR = [(.02, .3, 2.), (.1, .5, 1.), (.01, .03, .2), (.3, 1., 3.), (.05, .1, .4), (.15, .25, .35)]
LEARN = {'maxdlamda': 1, 'maxdlamdaNorm': 1, 'maxLearningSteps': 50, 'eta': 1}


def learn(pt, est, c, kw, free, N, steps, calls, k):
    """-> (change, last estimate); calls: estimates asked for so far [(sample, change)]"""
    a = dict(LEARN, **kw)
    d = [0.0]*len(c)
    dist, n = 1, 0
    while True:
        d = [x-(e-y)*min(dist, 1)*float(a['eta']) for x, e, y in zip(d, est, c)]
        full = [0.0]*N
        for i, x in zip(free, d):
            full[i] = x
        calls.append((k, full))
        ev = pt.vec('e%d' % (len(calls)-1), N)
        est = [ev[i] for i in free]
        dist = norm([e-y for e, y in zip(est, c)])
        n += 1
        if norm(d) > a['maxdlamdaNorm'] or any(abs(x) > a['maxdlamda'] for x in d) or n >= a['maxLearningSteps']+steps:
            return d, est


def reference(pt, w, free, o, steps, iters):
    """the documented iteration at one point -> dict of what must be observed"""
    N, m = w.N, len(free)
    calls, samples, errors = [], [], []
    if 'constraints' in o:
        c = pt.vec('c', m)
    else:
        c = [pt.own[i] for i in free]
    M = [0.0]*N
    if 'initial_guess' in o:
        for i, x in zip(free, pt.vec('g', m)):
            M[i] = x
    size = o['size']
    tol = o.get('tol') or 1/size**.5
    tn = o.get('tolNorm') or size**-.5*N

    def draw():
        samples.append((list(M), size))
        z = pt.mean('o%d' % (len(samples)-1), size, N)
        est = [z[i] for i in free]
        errors.append([a-b for a, b in zip(est, c)])
        return est
    est = draw()
    count = 0

    def settings(i):
        if w.custom is None:
            return o['learn'], size
        d, s = w.custom(i)
        return d, size if s is None else s
    kw, size = settings(0)
    while True:
        d, _ = learn(pt, est, c, kw, free, N, steps, calls, len(samples)-1)
        for i, x in zip(free, d):
            M[i] += x
        est = draw()
        count += 1
        if norm(errors[-1]) < tn and all(abs(x) < tol for x in errors[-1]):
            flag = 0
            break
        if count >= o['maxiter']+iters:
            flag = 1
            break
        kw, size = settings(count)
    return {'calls': calls, 'samples': samples, 'errors': errors, 'M': M, 'flag': flag, 'size': size}


def near(a, b):
    return abs(a-b) <= 1e-8*(1+abs(b))


def numbers(ts, pt):
    return [float(evalnum(t, pt)) for t in ts]


def differs(name, got, want):
    if len(got) != len(want):
        return '%s: %d elements instead of %d' % (name, len(got), len(want))
    for i, (g, x) in enumerate(zip(got, want)):
        if not near(g, x):
            return '%s %d is %.6g instead of %.6g' % (name, i, g, x)
    return None


def result(w, st, v, o, sparse):
    """returned value -> (parameters, flag, errors as rows)"""
    it = w.it
    flag = err = None
    if 'full_output' in o:
        z = one_of(it, st, v, 3)
        if z is None:
            return None
        v, flag, err = z
        a = it.arr(st, err)
        if a is None or len(a[0]) != 2:
            raise Undecided('error history')
        r, c = (T.int_val(x) for x in a[0])
        if r is None or c is None:
            raise Undecided('error history')
        err = [[a[1]((num(i), num(j))) for j in range(c)] for i in range(r)]
    p = flat(it, st, v)
    if p is None:
        raise Undecided('returned parameters')
    return p, flag, err


def observe(w, st, v, obj, o, free, sparse, pt, ref):
    """first difference between one path and the reference at one point -> (rule, text) or None"""
    it = w.it
    R = result(w, st, v, o, sparse)
    if R is None:
        return 'result', 'full output is not parameters, flag and error history'
    p, flag, err = R
    ev = [e for e in st.events if e[0] in ('sample', 'est')]
    sm = [e for e in ev if e[0] == 'sample']
    es = [e for e in ev if e[0] == 'est']
    for k, ((M, size), e) in enumerate(zip(ref['samples'], sm)):
        d = differs('parameter', numbers(e[1], pt), M)
        if d:
            return 'sampling', 'sample %d is not drawn at the current parameters: %s' % (k, d)
        if T.int_val(e[2]) != size:
            return 'sampling', 'sample %d has size %s instead of %d' % (k, short(e[2]), size)
        if e[3] != o['n_iters'] or e[4] != o['burn_in']:
            return 'sampling', 'sample %d is not drawn with the given iterations and burn in' % k
        if [x[1] for x in e[5]] != o['gk']:
            return 'sampling', 'sample %d is not drawn with the given sampling options' % k
    for k, ((s, d0), e) in enumerate(zip(ref['calls'], es)):
        if e[1] != s:
            return 'learning', 'estimate %d uses sample %d instead of the current sample %d' % (k, e[1], s)
        d = differs('parameter', numbers(e[2], pt), d0)
        if d:
            return 'learning', 'estimate %d is asked for another change: %s' % (k, d)
    if len(es) != len(ref['calls']):
        return 'learning', '%d estimates instead of %d' % (len(es), len(ref['calls']))
    if len(sm) < len(ref['samples']):
        return 'sampling', '%d samples instead of %d' % (len(sm), len(ref['samples']))
    for k, e in enumerate(sm[len(ref['samples']):]):
        d = differs('parameter', numbers(e[1], pt), ref['M'])
        if d:
            return 'sampling', 'a sample after the last step is not drawn at the final parameters: ' + d
    final = [ref['M'][i] for i in free]
    want = final if sparse and len(p) == len(free) else ref['M']
    d = differs('parameter', numbers(p, pt), want)
    if d:
        return 'result', 'returned '+d
    q = flat(it, st, it.getattr(st, obj, 'multipliers'))
    if q is None:
        raise Undecided('stored parameters')
    d = differs('parameter', numbers(q, pt), final if sparse and len(q) == len(free) and len(free) != len(ref['M']) else ref['M'])
    if d:
        return 'result', 'stored '+d
    if flag is not None:
        f = evalnum(flag, pt)
        if f != ref['flag']:
            return 'exit', 'flag is %s although the solver %s' % (f, ('converged' if ref['flag'] == 0 else 'ran out of iterations'))
        if len(err) != len(ref['errors']):
            return 'history', '%d errors in the history instead of %d' % (len(err), len(ref['errors']))
        for k, (a, b) in enumerate(zip(err, ref['errors'])):
            d = differs('error', numbers(a, pt), b)
            if d:
                return 'history', 'row %d of the error history: %s' % (k, d)
    return None


def live(outs, pt):
    r = []
    for s, v in outs:
        if all(evalnum(c, pt) for c in s.pc):
            r.append((s, v))
    return r


def solve_case(ctx, cls, n, pix, o, custom=None, points=30):
    o = dict({'size': 2, 'maxiter': 1, 'learn': {'maxdlamda': Fraction(2, 5), 'eta': Fraction(1, 2), 'maxLearningSteps': 1}, 'n_iters': num(7), 'burn_in': num(5)}, **o)
    lab = ', '.join('%s %s' % (k, v) if v is not True else k for k, v in sorted(o.items()) if k in ('maxiter', 'tol', 'tolNorm', 'constraints', 'initial_guess', 'full_output'))
    con = 'coniii/solvers.py:%s.solve n=%d%s, %s%s' % (cls, n, '' if pix is None else ', parameters %s' % (list(pix),), lab, ', custom settings' if custom else '')
    w = World(ctx, n, custom)
    it, st = w.it, I.State()
    st, obj = w.solver(st, cls, pix, o['size'])
    sparse = pix is not None
    free = sorted(set(pix)) if sparse else list(range(w.N))
    m = len(free)
    gk = it.alloc(st, I.DictC({('str', 'coupled_iters'): ('sym', 'ci')}))
    o['gk'] = [('sym', 'ci')]
    a = {'n_iters': o['n_iters'], 'burn_in': o['burn_in'], 'maxiter': num(o['maxiter']), 'generate_kwargs': gk}
    given = []
    for key, nm in (('constraints', 'c'), ('initial_guess', 'g')):
        if key in o:
            a[key] = it.sym_array(st, nm, (num(m),))
            given.append((key, a[key], nm))
    for key in ('tol', 'tolNorm'):
        if key in o:
            a[key] = num(o[key])
    if 'full_output' in o:
        a['full_output'] = T.TRUE
    if custom:
        a['custom_convergence_f'] = w.conv
    else:
        a['learn_params_kwargs'] = it.alloc(st, I.DictC({('str', k): num(v) for k, v in o['learn'].items()}))
    ctx.analysed.add('%s:%s.solve' % (SOL, cls))
    it.raised = []
    outs = it.call(st, member(it, st, obj, 'solve'), [], a, None)
    if not outs:
        ctx.bad('exit', con, 'always raises on valid input')
        return
    for s, v in outs:
        if oob_of(s):
            ctx.bad('exit', con, 'an element outside its array is accessed: '+oob_of(s))
            return
    variants = [(i, j) for i in (1, 0) for j in (1, 0)]
    first = None
    seen = set()
    for k in range(points):
        pt = Point(k, NEAR[k % len(NEAR)], None if 'constraints' in o else [float(sum(data(r, i) for r in range(w.rows)))/w.rows for i in range(w.N)])
        try:
            r = live(outs, pt)
            if len(r) != 1:
                bad = [s for s, _ in it.raised if all(evalnum(c, pt) for c in s.pc)]
                if not r and bad:
                    ctx.bad('exit', con, 'raises on valid input')
                    return
                raise Undecided('%d paths at one point' % len(r))
            left = []
            for var in variants:
                ref = reference(pt, w, free, o, *var)
                d = observe(w, r[0][0], r[0][1], obj, o, free, sparse, pt, ref)
                if d is None:
                    left.append(var)
                    seen.add((ref['flag'], len(ref['samples']), len(ref['calls'])))
                elif first is None or len(variants) == 1:
                    first = d
        except (NoValue, TypeError, OverflowError, ZeroDivisionError, ValueError) as e:
            ctx.undecided('exit', con, 'value %s' % e)
            return
        variants = left
        if not variants:
            ctx.bad(first[0], con, first[1])
            return
    for rule in ('sampling', 'learning', 'exit', 'result') + (('history',) if 'full_output' in o else ()):
        ctx.ok(rule, con, '%d points, %d paths, %d kinds of runs' % (points, len(outs), len(seen)))
    for key, v, nm in given:
        for s, _ in outs[:8]:
            e = flat(it, s, v)
            for i in range(m):
                compare(ctx, 'inputs', '%s, %s %d afterwards' % (con, key, i), e[i], idx(nm, i))


def learn_case(ctx, cls, n, pix, kw, points=24):
    w = World(ctx, n)
    it, st = w.it, I.State()
    con = 'coniii/solvers.py:%s.learn_parameters_mch n=%d%s, %s' % (cls, n, '' if pix is None else ', parameters %s' % (list(pix),), ', '.join('%s=%s' % x for x in sorted(kw.items())))
    st, obj = w.solver(st, cls, pix)
    sparse = pix is not None
    free = sorted(set(pix)) if sparse else list(range(w.N))
    m = len(free)
    L = it.sym_array(st, 'L', (num(w.N),))
    it.setattr(st, obj, '_multipliers', L)
    it.setattr(st, it.getattr(st, obj, 'model'), 'sample', it.sym_array(st, 'S4', (num(2), num(n)), 'int'))
    ea, ca = it.sym_array(st, 'g', (num(m),)), it.sym_array(st, 'c', (num(m),))
    ctx.analysed.add('%s:%s.learn_parameters_mch' % (SOL, cls))
    it.raised = []
    outs = it.call(st, member(it, st, obj, 'learn_parameters_mch'), [ea, ca], {k: num(v) for k, v in kw.items()}, None)
    if not outs:
        ctx.bad('learning', con, 'always raises on valid input')
        return
    variants, first = [1, 0], None
    for k in range(points):
        pt = Point(k, NEAR[k % len(NEAR)])
        try:
            r = live(outs, pt)
            if len(r) != 1:
                raise Undecided('%d paths at one point' % len(r))
            s, v = r[0]
            left = []
            ret = flat(it, s, v)
            M = flat(it, s, it.getattr(s, obj, '_multipliers'))
            if ret is None or M is None:
                raise Undecided('result not modelled')
            for var in variants:
                calls = []
                d, est = learn(pt, pt.vec('g', m), pt.vec('c', m), kw, free, w.N, var, calls, 4)
                full = pt.vec('L', w.N)
                for i, x in zip(free, d):
                    full[i] += x
                es = [e for e in s.events if e[0] == 'est']
                diff = None
                for j, ((sk, d0), e) in enumerate(zip(calls, es)):
                    if e[1] != sk:
                        diff = 'estimate %d uses another sample than the current one' % j
                    diff = diff or differs('estimate %d, parameter' % j, numbers(e[2], pt), d0)
                if len(es) != len(calls):
                    diff = diff or '%d steps instead of %d' % (len(es), len(calls))
                diff = diff or differs('new parameter', numbers(M, pt), full) or differs('returned estimate', numbers(ret, pt), est)
                if diff is None:
                    left.append(var)
                elif first is None or len(variants) == 1:
                    first = diff
        except (NoValue, TypeError, OverflowError, ZeroDivisionError, ValueError) as e:
            ctx.undecided('learning', con, 'value %s' % e)
            return
        variants = left
        if not variants:
            ctx.bad('learning', con, first)
            return
    ctx.ok('learning', con, '%d points, %d paths' % (points, len(outs)))
    for s, _ in outs:
        for nm, a in (('g', ea), ('c', ca)):
            e = flat(it, s, a)
            for i in range(m):
                compare(ctx, 'inputs', '%s, argument %s[%d] afterwards' % (con, nm, i), e[i], idx(nm, i))


def jacobian(ctx, n, eps):
    con = 'coniii/solvers.py:MCH.estimate_jac n=%d, eps=%s' % (n, eps)
    w = World(ctx, n, named=True)
    it, st = w.it, I.State()
    st, obj = w.solver(st, 'MCH')
    it.setattr(st, obj, '_multipliers', it.sym_array(st, 'L', (num(w.N),)))
    it.setattr(st, it.getattr(st, obj, 'model'), 'sample', it.sym_array(st, 'S4', (num(2), num(n)), 'int'))
    for s, v in it.call(st, member(it, st, obj, 'estimate_jac'), [num(eps)] if eps else [], {}, None):
        e = eps or Fraction(1, 1000)

        def leaf(i, k, sg):
            d = [T.ZERO]*w.N
            d[k] = num(sg*e)
            return ('sym', 'est(S4; %s)[%d]' % (', '.join(fmt(x) for x in d), i))
        expect_mat(ctx, 'jacobian', con, it, s, v, [[T.mul(num(Fraction(1)/(2*e)), T.sub(leaf(i, k, 1), leaf(i, k, -1))) for i in range(w.N)] for k in range(w.N)])
        for i, x in enumerate(flat(it, s, it.getattr(s, obj, '_multipliers')) or []):
            compare(ctx, 'inputs', '%s, current parameter %d afterwards' % (con, i), x, idx('L', i))


def run(ctx):
    thorough = ctx.tier == 'thorough'
    ctx.rule('sampling', 'every sample is drawn at the current parameters with the given size, iterations, burn-in and options')
    ctx.rule('learning', 'each step changes the fitted parameters by -(estimate - constraint)*min(distance, 1)*eta, asks for the estimate of the accumulated change on the current sample, and ends at the given limits; other parameters stay zero')
    ctx.rule('exit', 'the solver reports convergence exactly when the largest error and the norm of the errors of the last sample are below the tolerances, otherwise goes on to the iteration limit')
    ctx.rule('history', 'the error history holds the errors of every sample in order')
    ctx.rule('result', 'the parameters returned and stored are those the last sample was drawn at')
    ctx.rule('jacobian', 'the Jacobian estimate is the central difference of the estimates')
    ctx.rule('inputs', 'arrays given by the caller are unchanged')
    q = Fraction
    base = {'tol': q(1, 5), 'tolNorm': q(3, 10), 'full_output': True}
    for cls, pix in (('MCH', None), ('SparseMCH', (0, 2)), ('SparseMCH', (1,)), ('SparseMCH', (2, 1, 0))):
        for kw in ({'maxLearningSteps': 2}, {'maxLearningSteps': 3, 'eta': q(1, 3)}, {'maxLearningSteps': 2, 'maxdlamda': q(1, 10)}, {'maxLearningSteps': 2, 'maxdlamdaNorm': q(1, 5), 'eta': q(1, 2)},
                   {'maxdlamdaNorm': 5, 'maxdlamda': q(1, 2), 'maxLearningSteps': 2}):
            ctx.guard('learning', '%s learning %s' % (cls, sorted(kw)), learn_case, ctx, cls, 2, pix, kw)
        for extra in ({}, {'constraints': True}, {'initial_guess': True, 'maxiter': 2}, {'constraints': True, 'initial_guess': True}):
            ctx.guard('exit', '%s %s' % (cls, sorted(extra)), solve_case, ctx, cls, 2, pix, dict(base, **extra))
        ctx.guard('exit', '%s plain output' % cls, solve_case, ctx, cls, 2, pix, {'tol': q(1, 5), 'tolNorm': q(3, 10), 'constraints': True})
        ctx.guard('exit', '%s default tolerances' % cls, solve_case, ctx, cls, 2, pix, {'full_output': True, 'constraints': True, 'size': 4})

        def settings(i):
            return {'maxdlamda': q(1, 2+i), 'eta': q(1, 1+i), 'maxLearningSteps': 1}, 2+i

        def only(i):
            return {'maxdlamda': q(1, 2+i), 'eta': q(1, 1+i), 'maxLearningSteps': 1}, None
        for f in (settings, only):
            ctx.guard('exit', '%s custom %s' % (cls, f.__name__), solve_case, ctx, cls, 2, pix, dict(base, maxiter=2, constraints=True), f)
    ctx.guard('exit', 'n=3', solve_case, ctx, 'MCH', 3, None, base)
    for pix in ((0, 4), (2, 3, 5), (5, 1)):
        ctx.guard('exit', 'sparse n=3', solve_case, ctx, 'SparseMCH', 3, pix, dict(base, constraints=True))
    for n in (2, 3):
        for eps in (None, q(1, 8)):
            ctx.guard('jacobian', 'n=%d' % n, jacobian, ctx, n, eps)
