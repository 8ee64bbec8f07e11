"""Enumeration solvers.  Enumerate.solve and SparseEnumerate.solve are interpreted down to the call of the root finder or minimiser; the
function handed over is interpreted at a vector of symbols and compared with (model averages - constraints) of the fitted parameters, with
every parameter that is not fitted exactly zero; constraints, starting point, stored and returned parameters are compared as well."""
import itertools
import random
from fractions import Fraction
from .. import terms as T
from .. import interp as I
from ..project import Undecided
from ..ctx import equal, short, fmt
from .common import *
from .solve import *
from . import c13

LEVEL = 'proof'

SAMPLE = {2: [[1, 1], [-1, 1], [1, -1], [1, 1], [1, 1]],
          3: [[1, 1, 1], [1, -1, 1], [-1, -1, 1], [1, -1, -1], [-1, 1, 1], [1, 1, 1], [1, 1, -1]],
          4: [[1, 1, 1, 1], [1, -1, 1, -1], [-1, -1, 1, 1], [1, -1, -1, 1], [-1, 1, 1, 1], [1, 1, 1, 1], [1, 1, -1, 1]]}


def averages(rows):
    n = len(rows[0])
    out = [Fraction(sum(x[i] for x in rows), len(rows)) for i in range(n)]
    return out + [Fraction(sum(x[i]*x[j] for x in rows), len(rows)) for i, j in pairs(n)]


def tables(ctx, n):
    """shipped equations as generic functions: component i at parameters v is one leaf named after both"""
    N = n+n*(n-1)//2
    m = ctx.proj.module(c13.eqn('Ising', n))
    if m is None:
        raise Undecided('no equations for n=%d' % n)
    return {m.name+':calc_observables': c13.table(m.name, 'calc_observables', N), m.name+':p': c13.table(m.name, 'p', 2**n)}


def obs(ctx, n, params):
    m = c13.eqn('Ising', n).split('.')[-1]
    return [('sym', '%s.calc_observables(%s)[%d]' % (m, ', '.join(fmt(x) for x in params), i)) for i in range(n+n*(n-1)//2)]


def env_of(point, k):
    """numbers for p<k>[i] and for every table leaf"""
    def f(t):
        if t[0] == 'idx' and t[1] == 'p%d' % k:
            return point[T.int_val(t[2][0])]
        if t[0] == 'idx' and t[1] == 'q%d' % k:
            return 0.01+0.03*T.int_val(t[2][0])
        if t[0] == 'idx' and t[1] == 'c':
            return random.Random(repr(t)).uniform(-0.9, 0.9)
        if t[0] == 'sym' and 'calc_observables' in t[1]:
            return random.Random(t[1]+(repr(point) if 'p%d[' % k in t[1] else '')).uniform(-0.9, 0.9)   # a function of the parameters it is evaluated at
        return None
    return f


def value_at(it, r, env):
    s, v = r['st'], r['val']
    if I.is_term(v):
        return evalnum(v, env)
    a = it.arr(s, v)
    if a is not None and a[0] == ():
        return evalnum(a[1](()), env)
    e = flat(it, s, v)
    if e is None:
        return None
    return [evalnum(x, env) for x in e]


def judge(ctx, con, it, q, want, full, root, limit):
    """the captured function: residuals for the root finder, their size for the minimiser; a penalty outside the allowed parameter range"""
    rnd = random.Random(5)
    m = q.m
    w = 1.0 if limit is None else min(1.0, 0.95*float(limit))
    pts = [('inside', [rnd.uniform(-w, w) for _ in range(m)]) for _ in range(4)] + [('inside', [0.0]*m)]
    if limit is not None:
        pts += [('inside', [(limit*0.999 if rnd.random() < .5 else -limit*0.999) for _ in range(m)])]
        for i in range(m):
            for sg in (1, -1):
                x = [rnd.uniform(-.5, .5) for _ in range(m)]
                x[i] = sg*limit*1.001
                pts.append(('outside', x))
                y = list(x)
                y[i] = sg*limit*0.999
                pts.append(('inside', y))
    else:
        pts += [('inside', [rnd.choice((-1, 1))*rnd.uniform(40, 400) for _ in range(m)]) for _ in range(3)]
    scale = None
    for kind, x in pts:
        env = env_of(x, q.k)
        try:
            live = [r for r in q.outs if all(evalnum(c, env) for c in r['st'].pc)]
        except (NoValue, TypeError) as e:
            ctx.undecided('objective', con, 'condition %s' % e)
            return
        if len(live) != 1:
            ctx.undecided('objective', con, '%d paths at one point' % len(live))
            return
        try:
            v = value_at(it, live[0], env)
            ref = [evalnum(t, env) for t in want]
        except (NoValue, TypeError, OverflowError, ZeroDivisionError, ValueError) as e:
            ctx.undecided('objective', con, 'value %s' % e)
            return
        where = 'parameters %s the allowed range' % kind
        if v is None:
            ctx.undecided('objective', con, 'value not modelled')
            return
        if kind == 'outside':
            big = min(abs(t) for t in v) if isinstance(v, list) and v else abs(v) if not isinstance(v, list) else 0
            if root and (not isinstance(v, list) or len(v) != m):
                ctx.bad('range', con, 'the penalty handed to the root finder is not a vector of %d elements' % m)
                return
            if not root and (isinstance(v, list) or v <= 0):
                ctx.bad('range', con, 'the penalty handed to the minimiser is not a positive number')
                return
            if big < 1e3:
                ctx.bad('range', con, 'a parameter outside the allowed range is not penalised (value %s)' % (v,))
                return
            continue
        if root:
            if not isinstance(v, list) or len(v) != len(ref):
                ctx.bad('objective', con, 'the function handed to the root finder has %s elements instead of %d' % (len(v) if isinstance(v, list) else 'scalar', len(ref)))
                return
            for i, (a, b) in enumerate(zip(v, ref)):
                if scale is None and abs(b) > 1e-6:
                    scale = a/b
                    if not (1e-6 < abs(scale) < 1e6):
                        ctx.bad('objective', con, '%s: residual %d is %s instead of %s' % (where, i, a, b))
                        return
                if abs(a-(scale or 1)*b) > 1e-7*(1+abs(a)):
                    ctx.bad('objective', con, '%s: residual %d is not the model average minus the constraint: %s' % (where, i, describe(it, live[0], i)))
                    return
        else:
            if isinstance(v, list):
                ctx.bad('objective', con, 'the function handed to the minimiser is not a number')
                return
            nrm = sum(t*t for t in ref)**.5
            cand = {'norm': nrm, 'square': nrm*nrm}
            if scale is None:
                scale = [(k, v/c) for k, c in cand.items() if c > 1e-9]
            else:
                scale = [(k, f) for k, f in scale if abs(v-f*cand[k]) < 1e-7*(1+abs(v))]
            if not scale or any(f <= 0 for _, f in scale):
                ctx.bad('objective', con, '%s: the minimised function is not the size of (model averages - constraints): %s' % (where, describe(it, live[0], 0)))
                return
    ctx.ok('objective', con, '%d points, %d paths' % (len(pts), len(q.outs)))
    if limit is not None:
        ctx.ok('range', con, 'outside +-%s penalised' % limit)


def describe(it, r, i):
    v = r['val']
    if I.is_term(v):
        return short(v)
    e = flat(it, r['st'], v)
    return short(e[i]) if e and i < len(e) else '?'


def solve(ctx, cls, n, pix, opts_, limit=50):
    """pix: fitted parameters (Enumerate: None)"""
    N = n+n*(n-1)//2
    lab = ', '.join(sorted(opts_))
    con = 'coniii/solvers.py:%s.solve n=%d%s%s' % (cls, n, '' if pix is None else ', parameters %s' % (list(pix),), ', '+lab if lab else '')
    con += '' if limit == 50 else ', limit %s' % limit
    it = engine(ctx)
    it.externs.update(tables(ctx, n))
    st = I.State()
    rows = SAMPLE[n]
    kw = {'iprint': T.FALSE}
    free = list(range(N)) if pix is None else sorted(set(pix))
    if pix is not None:
        kw['parameter_ix'] = it.new_arr(st, (num(len(pix)),), vec([num(x) for x in pix]), 'int')
    a = [num(n)] if 'size' in opts_ else [const_mat(it, st, rows)]
    if 'model' in opts_:
        res = c13.make(ctx, it, st, 'Ising', [it.sym_array(st, 'm0', (num(N),))])
        st, kw['model'] = res[0]
    res = build(ctx, it, st, SOL, cls, a, kw)
    if len(res) != 1:
        raise Undecided('%d ways through the constructor' % len(res))
    st, o = res[0]
    args = {}
    m = len(free)
    cons = [num(averages(rows)[i]) for i in free]
    start = [T.ZERO]*m
    given = []
    if 'constraints' in opts_:
        args['constraints'] = it.sym_array(st, 'c', (num(m),))
        cons = [idx('c', i) for i in range(m)]
        given.append(('constraints', args['constraints'], cons))
    if 'initial_guess' in opts_:
        args['initial_guess'] = it.sym_array(st, 'g', (num(m),))
        start = [idx('g', i) for i in range(m)]
        given.append(('initial guess', args['initial_guess'], start))
    if 'full_output' in opts_:
        args['full_output'] = T.TRUE
    if 'minimize' in opts_:
        args['use_root'] = T.FALSE
    if limit != 50:
        args['max_param_value'] = T.NONE if limit is None else num(limit)
    f = member(it, st, o, 'solve')
    ctx.analysed.add('%s:%s.solve' % (SOL, cls))
    it.raised = []
    outs = it.call(st, f, [], args, None)
    if not outs:
        ctx.bad('objective', con, 'always raises on valid input')
        return
    for s, v in outs:
        if s.pc:
            ctx.undecided('objective', con, 'depends on ' + short(s.pc[0]))
            continue
        if oob_of(s):
            ctx.bad('objective', con, 'an element outside its array is accessed: ' + oob_of(s))
            continue
        os = opts(s)
        if len(os) != 1:
            ctx.undecided('objective', con, '%d optimisations' % len(os))
            continue
        q = os[0]
        if q.m != m:
            ctx.bad('objective', con, 'the optimiser works on %d parameters instead of %d' % (q.m, m))
            continue
        if any(r['st'].pc is None for r in q.outs) or not q.outs:
            ctx.bad('objective', con, 'the objective cannot be evaluated')
            continue
        P = [T.ZERO]*N
        for i, k in enumerate(free):
            P[k] = q.p(i)
        ob = obs(ctx, n, P)
        want = [T.sub(ob[k], c) for k, c in zip(free, cons)]
        judge(ctx, con, it, q, want, P, q.kind == 'root', limit)
        exact(ctx, con, it, q, want)
        for i in range(m):
            compare(ctx, 'start', '%s, start %d' % (con, i), q.x0[i], start[i])
        if 'full_output' in opts_:
            two = one_of(it, s, v, 2)
            if two is None:
                ctx.bad('result', con, 'full output is not a pair of parameters and optimiser output')
                continue
            v = two[0]
        for nm, w in (('returned', v), ('stored', it.getattr(s, o, 'multipliers'))):
            e = flat(it, s, w)
            if e is None:
                ctx.undecided('result', con, nm+' parameters not modelled')
                continue
            if len(e) not in (m, N):
                ctx.bad('result', con, '%d parameters %s instead of %d' % (len(e), nm, m))
                continue
            ref = [q.sol(i) for i in range(m)]
            if len(e) == N and m != N:
                ref = [ref[free.index(k)] if k in free else T.ZERO for k in range(N)]
            for i, r in enumerate(ref):
                compare(ctx, 'result', '%s, %s parameter %d' % (con, nm, i), e[i], r, note='the optimum')
        for nm, a_, w in given:
            e = flat(it, s, a_)
            for i in range(m):
                compare(ctx, 'inputs', '%s, %s %d afterwards' % (con, nm, i), e[i], w[i])


def exact(ctx, con, it, q, want):
    """element by element on paths that are not penalties"""
    for r in q.outs:
        e = flat(it, r['st'], r['val']) if not I.is_term(r['val']) else None
        if e is None or len(e) != len(want) or all(T.num_val(x) is not None for x in e):
            continue
        p = [equal(x, w) for x, w in zip(e, want)]
        if all(x is True for x in p):
            for i in range(len(e)):
                ctx.ok('objective', '%s, residual %d' % (con, i), 'term')


def constraints(ctx, n):
    """the constraints of a solver are the averages of the observables over its sample, for symbolic states"""
    for cls in ('Enumerate', 'SparseEnumerate', 'MCH', 'SparseMCH', 'Pseudo', 'MPF'):
        con = 'coniii/solvers.py:%s.__init__ n=%d' % (cls, n)

        def one(cls=cls, con=con):
            it = engine(ctx)
            it.externs.update(tables(ctx, n))
            st = I.State()
            rows = SAMPLE[n]
            kw = {'iprint': T.FALSE}
            if cls.startswith('Sparse'):
                kw['parameter_ix'] = it.new_arr(st, (num(1),), vec([num(n)]), 'int')
            for s, o in build(ctx, it, st, SOL, cls, [const_mat(it, st, rows)], kw):
                v = it.getattr(s, o, 'constraints')
                e = flat(it, s, v)
                if e is None:
                    ctx.undecided('constraints', con, 'not modelled')
                    continue
                w = averages(rows)
                if len(e) != len(w):
                    ctx.bad('constraints', con, '%d constraints instead of %d' % (len(e), len(w)))
                    continue
                for i in range(len(w)):
                    compare(ctx, 'constraints', '%s, constraint %d' % (con, i), e[i], num(w[i]))
        ctx.guard('constraints', con, one)


def no_data(ctx, cls, n):
    con = 'coniii/solvers.py:%s.solve without data, n=%d' % (cls, n)
    it = engine(ctx)
    it.externs.update(tables(ctx, n))
    st = I.State()
    kw = {'iprint': T.FALSE}
    if cls.startswith('Sparse'):
        kw['parameter_ix'] = it.new_arr(st, (num(2),), vec([num(0), num(n)]), 'int')
    st, o = build(ctx, it, st, SOL, cls, [num(n)], kw)[0]
    it.raised = []
    outs = it.call(st, member(it, st, o, 'solve'), [], {}, None)
    ctx.expect('constraints', con, True if not outs else None, 'solves although there are no constraints', 'refused')


def filling(ctx, n, pix):
    """fill_in puts fitted values at their indices and the fill value everywhere else"""
    N = n+n*(n-1)//2
    con = 'coniii/solvers.py:Solver.set_insertion_ix, fill_in n=%d parameters %s' % (n, list(pix))
    it = engine(ctx)
    it.externs.update(tables(ctx, n))
    st = I.State()
    kw = {'iprint': T.FALSE, 'parameter_ix': it.new_arr(st, (num(len(pix)),), vec([num(x) for x in pix]), 'int')}
    st, o = build(ctx, it, st, SOL, 'SparseEnumerate', [num(n)], kw)[0]
    for fv in (None, ('sym', 'fv')):
        s0 = st.copy()
        x = it.sym_array(s0, 'x', (num(len(set(pix))),))
        for s, v in it.call(s0, member(it, s0, o, 'fill_in'), [x] + ([fv] if fv else []), {}, None):
            free = sorted(set(pix))
            expect_vec(ctx, 'filling', con, it, s, v, [idx('x', free.index(k)) if k in free else (fv or T.ZERO) for k in range(N)])


def run(ctx):
    thorough = ctx.tier == 'thorough'
    ctx.rule('constraints', 'the constraints of a solver are the averages of the observables over its data; without data and constraints it refuses')
    ctx.rule('objective', 'the function handed to the root finder is (model averages - constraints) of the fitted parameters (for the minimiser its size), evaluated with every other parameter exactly zero')
    ctx.rule('range', 'parameters outside the allowed range, and only those, are penalised')
    ctx.rule('start', 'the optimisation starts at the initial guess, by default at zero')
    ctx.rule('result', 'the parameters returned and stored are the optimum')
    ctx.rule('inputs', 'arrays given by the caller are unchanged')
    ctx.rule('filling', 'fill_in puts the fitted values at their indices and the fill value everywhere else')
    for n in (2, 3, 4):
        ctx.guard('constraints', 'constraints n=%d' % n, constraints, ctx, n)
    full = [(), ('minimize',), ('constraints',), ('initial_guess', 'full_output'), ('size', 'constraints'), ('minimize', 'constraints', 'initial_guess', 'full_output'), ('model',)]
    for n in (2, 3, 4):
        for o in full:
            ctx.guard('objective', 'Enumerate n=%d %s' % (n, o), solve, ctx, 'Enumerate', n, None, o)
    for lim in (None, 3, Fraction(1, 2)):
        for o in ((), ('minimize',)):
            ctx.guard('objective', 'Enumerate limit %s %s' % (lim, o), solve, ctx, 'Enumerate', 3, None, o, lim)
            ctx.guard('objective', 'SparseEnumerate limit %s %s' % (lim, o), solve, ctx, 'SparseEnumerate', 3, (1, 4), o, lim)
    for k in range(1, 4):
        for pix in itertools.combinations(range(3), k):
            ctx.guard('objective', 'SparseEnumerate n=2 %s' % (pix,), solve, ctx, 'SparseEnumerate', 2, pix, ())
    subs = [p for k in range(1, 7) for p in itertools.combinations(range(6), k)]
    for pix in subs if thorough else subs[::3]:
        ctx.guard('objective', 'SparseEnumerate n=3 %s' % (pix,), solve, ctx, 'SparseEnumerate', 3, pix, ())
    for o in full[1:]:
        ctx.guard('objective', 'SparseEnumerate %s' % (o,), solve, ctx, 'SparseEnumerate', 3, (0, 2, 3), o)
    ctx.guard('objective', 'SparseEnumerate unsorted', solve, ctx, 'SparseEnumerate', 3, (5, 1, 2), ())
    ctx.guard('objective', 'SparseEnumerate repeated', solve, ctx, 'SparseEnumerate', 3, (1, 5, 1), ())
    ctx.guard('objective', 'SparseEnumerate n=4', solve, ctx, 'SparseEnumerate', 4, (2, 5, 9), ())
    for pix in subs + [(4, 0, 2), (3, 3, 1)]:
        ctx.guard('filling', 'n=3 %s' % (pix,), filling, ctx, 3, pix)
    four = [p for k in range(1, 11) for p in itertools.combinations(range(10), k)]
    for pix in four if thorough else four[::29]:
        ctx.guard('filling', 'n=4 %s' % (pix,), filling, ctx, 4, pix)
    for cls in ('Enumerate', 'SparseEnumerate'):
        ctx.guard('constraints', cls, no_data, ctx, cls, 3)
