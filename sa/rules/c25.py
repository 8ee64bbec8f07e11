"""Mean-field formulas and adaptive cluster expansion.  The helpers are compared with the exact model of small systems with symbolic couplings; the
cluster solver is interpreted with generic cluster contributions, keeping all paths of its threshold tests; the function handed to the optimiser is
captured and compared."""
import itertools
import math
import random
from .. import terms as T
from .. import interp as I
from .. import libmodel as LM
from .. import rng
from ..project import Undecided
from ..ctx import short, equal
from .common import *
from .solve import flat, engine, const_mat, build, member, opts, SOL
from .c10 import SAMPLE, tables
from . import c13

LEVEL = 'proof'
MF = 'coniii.mean_field_ising'
MFF = 'coniii/mean_field_ising.py:'


def eng(ctx, lib=None, externs=None):
    it = engine(ctx, lib=dict(lib or {}, **{'scipy.optimize.leastsq': leastsq}))
    it.externs.update(externs or {})
    it.recursion = 8
    return it


def leastsq(it, st, a, kw, node, f):
    from .solve import optimiser
    r = optimiser('fmin')(it, st, a, kw, node, f)
    return I.Tup([r, num(1)])


def sym_J(it, st, n, name='J'):
    return sym_mat(it, st, name, n, diag=lambda i: idx(name, i, i))


def gen_mat(it, st, n, name='A'):
    return it.sym_array(st, name, (num(n), num(n)), 'float')


def states(n, m=0):
    return [s for s in itertools.product((0, 1), repeat=n) if sum(s) >= m]


def logZ(n, s, J, hext=T.ZERO):
    """exponent of state s: minus fields minus all ordered pairs of couplings"""
    t = [T.neg(T.sub(J(i, i), hext)) for i in range(n) if s[i]]
    t += [T.neg(J(i, j)) for i in range(n) for j in range(n) if i != j and s[i] and s[j]]
    return T.addn(t)


def Js(i, j):
    return idx('J', min(i, j), max(i, j))


def helper(ctx, rule, fn, lab, mk, want, lib=None):
    con = MFF+fn+(' '+lab if lab else '')

    def one():
        it = eng(ctx, lib)
        st = I.State()
        args, kw = mk(it, st)
        outs = normal(it.run(func(ctx.find(MF, fn)), args, kw, st))
        ctx.analysed.add(MF+':'+fn)
        if not outs:
            ctx.bad(rule, con, 'always raises on valid input')
            return
        for s, v in outs:
            if s.pc:
                raise Undecided('depends on '+short(s.pc[0]))
            if oob_of(s):
                ctx.bad(rule, con, 'an element outside its array is accessed: '+oob_of(s))
                return
            w = want(it, s) if callable(want) else want
            if not isinstance(w, list):
                if not I.is_term(v):
                    a = it.arr(s, v)
                    v = a[1](()) if a is not None and a[0] == () else None
                compare(ctx, rule, con, v, w)
            elif w and isinstance(w[0], list):
                expect_mat(ctx, rule, con, it, s, v, w)
            else:
                expect_vec(ctx, rule, con, it, s, v, w)
    ctx.guard(rule, con, one)


def cells(n, f):
    return [[f(i, j) for j in range(n)] for i in range(n)]


def up(n):
    """layout of the flattened upper triangle: diagonal after diagonal"""
    return [(i, i+d) for d in range(n) for i in range(n-d)]


def layouts(ctx, n):
    A = lambda i, j: idx('A', i, j)
    helper(ctx, 'layout', 'aboveDiagFlat', 'n=%d with diagonal' % n, lambda it, st: ([gen_mat(it, st, n)], {'keepDiag': T.TRUE}), [A(i, j) for i, j in up(n)])
    if n > 1:
        helper(ctx, 'layout', 'aboveDiagFlat', 'n=%d' % n, lambda it, st: ([gen_mat(it, st, n)], {}), [A(i, j) for i, j in up(n) if i != j])
        helper(ctx, 'layout', 'aboveDiagFlat', 'n=%d, doubled couplings' % n, lambda it, st: ([gen_mat(it, st, n)], {'keepDiag': T.TRUE, 'offDiagMult': num(2)}),
               [T.mul(num(1 if i == j else 2), A(i, j)) for i, j in up(n)])
    m = n*(n+1)//2
    pos = {p: k for k, p in enumerate(up(n))}
    v = lambda it, st: it.sym_array(st, 'v', (num(m),), 'float')
    helper(ctx, 'layout', 'unflatten', 'n=%d' % n, lambda it, st: ([v(it, st), num(n)], {}), cells(n, lambda i, j: idx('v', pos[i, j]) if i <= j else T.ZERO))
    half = T.div(num(1), num(2))
    helper(ctx, 'layout', 'unflatten', 'n=%d symmetric' % n, lambda it, st: ([v(it, st), num(n), T.TRUE], {}),
           cells(n, lambda i, j: T.mul(T.ONE if i == j else half, idx('v', pos[min(i, j), max(i, j)]))))
    for i, j in up(n):
        helper(ctx, 'layout', 'diagFlatIndex', '(%d,%d) of %d' % (i, j, n), lambda it, st: ([num(i), num(j), num(n)], {}), num(pos[i, j]))
    helper(ctx, 'layout', 'replaceDiag', 'n=%d' % n, lambda it, st: ([gen_mat(it, st, n), it.sym_array(st, 'l', (num(n),))], {}), cells(n, lambda i, j: idx('l', i) if i == j else A(i, j)))
    helper(ctx, 'layout', 'zeroDiag', 'n=%d' % n, lambda it, st: ([gen_mat(it, st, n)], {}), cells(n, lambda i, j: T.ZERO if i == j else A(i, j)))
    helper(ctx, 'layout', 'symmetrizeUsingUpper', 'n=%d' % n, lambda it, st: ([gen_mat(it, st, n)], {}), cells(n, lambda i, j: A(min(i, j), max(i, j))))
    for k in range(1, n+1):
        for c in itertools.combinations(range(n), k):
            lst = lambda it, st: it.alloc(st, I.ListC([num(x) for x in c]))
            helper(ctx, 'layout', 'coocCluster', '%s of %d' % (list(c), n), lambda it, st: ([gen_mat(it, st, n), lst(it, st)], {}), [[A(i, j) for j in c] for i in c])
            helper(ctx, 'layout', 'JfullFromCluster', '%s of %d' % (list(c), n), lambda it, st: ([gen_mat(it, st, k), lst(it, st), num(n)], {}),
                   cells(n, lambda i, j: A(c.index(i), c.index(j)) if i in c and j in c else T.ZERO))


def exact_model(ctx, n):
    for m in range(0, n+1):
        if m > 2:
            break
        S = states(n, m)
        kw = {'minSize': num(m)} if m else {}
        helper(ctx, 'model', 'fightPossibilities', 'n=%d, at least %d' % (n, m), lambda it, st: ([num(n)], kw), (lambda S: [[num(x) for x in s] for s in S])(S)) if m else None
        for hx in (False, True):
            k2 = dict(kw, hext=('sym', 'hx')) if hx else kw
            h = ('sym', 'hx') if hx else T.ZERO
            L = [logZ(n, s, Js, h) for s in S]
            lab = 'n=%d%s%s' % (n, ', at least %d' % m if m else '', ', external field' if hx else '')
            helper(ctx, 'model', 'unsummedLogZ', lab, lambda it, st: ([sym_J(it, st, n)], k2), L)
            helper(ctx, 'model', 'unsummedZ', lab, lambda it, st: ([sym_J(it, st, n)], k2), [T.exp(x) for x in L])
            if n <= 3:
                Z = T.addn([T.exp(x) for x in L])
                av = lambda i, j: T.div(T.addn([T.exp(x) for x, s in zip(L, S) if s[i] and s[j]]), Z)
                points(ctx, 'model', 'coocExpectations', lab, lambda it, st: ([sym_J(it, st, n)], k2), cells(n, lambda i, j: av(i, j) if i <= j else T.ZERO))
                points(ctx, 'model', 'coocExpectations', lab+', full', lambda it, st: ([sym_J(it, st, n)], dict(k2, zeroBelowDiag=T.FALSE)), cells(n, av))
    if n <= 3:
        L = [logZ(n, s, Js) for s in states(n)]
        Z = T.addn([T.exp(x) for x in L])
        points(ctx, 'model', 'analyticEntropy', 'n=%d' % n, lambda it, st: ([sym_J(it, st, n)], {}),
               T.neg(T.addn([T.mul(T.div(T.exp(x), Z), T.sub(x, T.log(Z))) for x in L])))


class Num:
    """numbers for every leaf, a function of its name"""

    def __init__(self, k, special=None):
        self.k, self.special = k, special or {}

    def __call__(self, t):
        if t[0] == 'idx':
            f = self.special.get(t[1])
            if f is not None:
                return f(*[T.int_val(x) for x in t[2]])
            return random.Random('%d%r' % (self.k, t)).uniform(-1.2, 1.2)
        if t[0] == 'sym':
            f = self.special.get(t[1])
            if f is not None:
                return f()
            return random.Random('%d%r' % (self.k, t)).uniform(-1.2, 1.2)
        return None


def near(a, b):
    return abs(a-b) <= 1e-8*(1+abs(a)+abs(b))


def same_at(ctx, rule, con, got, want, envs):
    """compare values element by element at points; True when all agree"""
    for q, (g, w) in enumerate(zip(got, want)):
        if g is None or not I.is_term(g):
            ctx.undecided(rule, con, 'value not modelled')
            return False
        for e in envs:
            try:
                x = evalnum(g, e)
                y = w(e) if callable(w) else evalnum(w, e)
            except (NoValue, TypeError, ZeroDivisionError, OverflowError, ValueError) as x:
                ctx.undecided(rule, con, 'value %s' % x)
                return False
            if isinstance(x, complex) or isinstance(y, complex) or not near(x, y):
                ctx.bad(rule, con, 'element %d is %.8g instead of %.8g: %s' % (q, x, y, short(g)))
                return False
    return True


def points(ctx, rule, fn, lab, mk, want, envs=None, lib=None, pick=None):
    """like helper, values compared at points"""
    con = MFF+fn+(' '+lab if lab else '')

    def one():
        it = eng(ctx, lib)
        st = I.State()
        args, kw = mk(it, st)
        it.raised = []
        outs = normal(it.run(func(ctx.find(MF, fn)), args, kw, st))
        ctx.analysed.add(MF+':'+fn)
        if not outs:
            ctx.bad(rule, con, 'always raises on valid input')
            return
        for s, v in outs:
            if s.pc:
                raise Undecided('depends on '+short(s.pc[0]))
            if oob_of(s):
                ctx.bad(rule, con, 'an element outside its array is accessed: '+oob_of(s))
                return
            if pick:
                v = it.items_of(s, v)[pick-1]
            got = elements(it, s, v, want)
            if got is None:
                ctx.undecided(rule, con, 'value not modelled')
                continue
            if isinstance(got, str):
                ctx.bad(rule, con, got)
                continue
            w = [x for r in want for x in r] if isinstance(want, list) and isinstance(want[0], list) else want if isinstance(want, list) else [want]
            if same_at(ctx, rule, con, got, w, envs or [Num(k) for k in range(4)]):
                ctx.ok(rule, con, '%d elements' % len(w))
    ctx.guard(rule, con, one)


def elements(it, s, v, want):
    if I.is_term(v):
        return [v] if not isinstance(want, list) else 'a number instead of an array'
    a = it.arr(s, v)
    if a is None:
        return None
    d = [T.int_val(x) for x in a[0]]
    if None in d:
        return None
    shape = [] if not isinstance(want, list) else [len(want)] if not isinstance(want[0], list) else [len(want), len(want[0])]
    if d != shape:
        return 'shape %s instead of %s' % (d, shape)
    return [a[1](tuple(num(i) for i in q)) for q in itertools.product(*[range(k) for k in d])]


def cooc(ctx, K, n):
    X = lambda k, i: idx('X', k, i)
    w = lambda i, j: T.div(T.addn([T.mul(X(k, i), X(k, j)) for k in range(K)]), num(K))
    mk = lambda it, st: it.sym_array(st, 'X', (num(K), num(n)), 'float')
    helper(ctx, 'data', 'cooccurrence_matrix', '%d samples of %d' % (K, n), lambda it, st: ([mk(it, st)], {}), cells(n, lambda i, j: w(i, j) if i <= j else T.ZERO))
    helper(ctx, 'data', 'cooccurrence_matrix', '%d samples of %d, no diagonal' % (K, n), lambda it, st: ([mk(it, st)], {'keep_diag': T.FALSE}),
           cells(n, lambda i, j: w(i, j) if i < j else T.ZERO))
    helper(ctx, 'data', 'isingDeltaCooc', '%d samples of %d' % (K, n), lambda it, st: ([mk(it, st), gen_mat(it, st, n)], {}), [T.sub(w(i, j), idx('A', i, j)) for i, j in up(n)])
    b = lambda i, j: T.div(T.add(T.mul(idx('A', i, j), ('sym', 'N')), T.ONE), T.add(('sym', 'N'), num(2)))
    helper(ctx, 'data', 'coocMatBayesianMean', 'n=%d' % n, lambda it, st: ([gen_mat(it, st, n), ('sym', 'N')], {}), cells(n, b))
    env = [Num(k, {'A': lambda i, j, k=k: random.Random('%d %d %d' % (k, i, j)).uniform(.1, .9), 'N': lambda k=k: 10.+7*k}) for k in range(3)]
    points(ctx, 'data', 'coocStdevsFlat', 'n=%d' % n, lambda it, st: ([gen_mat(it, st, n), ('sym', 'N')], {}),
           [LM.t_sqrt(T.div(T.mul(b(i, j), T.sub(T.ONE, b(i, j))), ('sym', 'N'))) for i, j in up(n)], env)


# ---------------------------------------------------------------- linear algebra: values at a point are those of the actual argument
def jacobi(A):
    """eigenvalues and orthonormal eigenvectors (columns) of a symmetric matrix"""
    n = len(A)
    A = [list(r) for r in A]
    if any(abs(A[i][j]-A[j][i]) > 1e-9*(1+abs(A[i][j])) for i in range(n) for j in range(n)):
        raise NoValue('eigenvectors of a matrix that is not symmetric')
    V = [[float(i == j) for j in range(n)] for i in range(n)]
    for _ in range(60):
        off = sum(A[i][j]**2 for i in range(n) for j in range(n) if i != j)
        if off < 1e-26:
            break
        for p_ in range(n):
            for q in range(p_+1, n):
                if abs(A[p_][q]) < 1e-300:
                    continue
                th = (A[q][q]-A[p_][p_])/(2*A[p_][q])
                t = (1 if th >= 0 else -1)/(abs(th)+math.sqrt(th*th+1))
                c = 1/math.sqrt(t*t+1)
                s = t*c
                for k in range(n):
                    x, y = A[k][p_], A[k][q]
                    A[k][p_], A[k][q] = c*x-s*y, s*x+c*y
                for k in range(n):
                    x, y = A[p_][k], A[q][k]
                    A[p_][k], A[q][k] = c*x-s*y, s*x+c*y
                for k in range(n):
                    x, y = V[k][p_], V[k][q]
                    V[k][p_], V[k][q] = c*x-s*y, s*x+c*y
    return [A[i][i] for i in range(n)], V


def inverse(A):
    n = len(A)
    M = [list(map(float, r))+[float(i == j) for j in range(n)] for i, r in enumerate(A)]
    for i in range(n):
        p_ = max(range(i, n), key=lambda k: abs(M[k][i]))
        M[i], M[p_] = M[p_], M[i]
        if abs(M[i][i]) < 1e-12:
            raise NoValue('singular matrix')
        M[i] = [x/M[i][i] for x in M[i]]
        for k in range(n):
            if k != i:
                M[k] = [x-M[k][i]*y for x, y in zip(M[k], M[i])]
    return [r[n:] for r in M]


class Linalg:
    """library calls return arrays named after the call; their values at a point are computed from the argument's values there"""

    def __init__(self):
        self.args = {}

    def lib(self):
        t = {}
        for m in ('numpy.linalg.', 'scipy.linalg.'):
            for f in ('eig', 'eigh', 'inv', 'pinv', 'svdvals', 'eigvals', 'eigvalsh'):
                t[m+f] = self.call
        t['numpy.real_if_close'] = t['scipy.real_if_close'] = t['numpy.real'] = t['scipy.real'] = lambda it, st, a, kw, node, f: a[0]
        return t

    def call(self, it, st, a, kw, node, f):
        x = it.arr(st, a[0])
        d = None if x is None else [T.int_val(q) for q in x[0]]
        if d is None or len(d) != 2 or d[0] != d[1] or d[0] is None or kw or len(a) > 1:
            return I.opaque(f.name)
        n, nm = d[0], f.name.split('.')[-1]
        k = len(self.args)
        self.args[k] = [[x[1]((num(i), num(j))) for j in range(n)] for i in range(n)]
        if nm in ('eig', 'eigh'):
            return I.Tup([it.sym_array(st, 'mq!%d' % k, (num(n),), 'float'), it.sym_array(st, 'vq!%d' % k, (num(n), num(n)), 'float')])
        if nm in ('inv', 'pinv'):
            return it.sym_array(st, 'inv!%d' % k, (num(n), num(n)), 'float')
        return it.sym_array(st, 'sv!%d' % k, (num(n),), 'float')

    def env(self, base):
        memo = {}

        def at(k):
            if k not in memo:
                A = [[evalnum(x, f) for x in r] for r in self.args[k]]
                memo[k] = (A, jacobi(A), None)
            return memo[k]

        def f(t):
            if t[0] == 'idx' and isinstance(t[1], str) and '!' in t[1]:
                nm, _, k = t[1].partition('!')
                A, (w, V), _ = at(int(k))
                ix = [T.int_val(x) for x in t[2]]
                if nm == 'mq':
                    return w[ix[0]]
                if nm == 'vq':
                    return V[ix[0]][ix[1]]
                if nm == 'inv':
                    return inverse(A)[ix[0]][ix[1]]
                return sorted((abs(x) for x in w), reverse=True)[ix[0]]
            return base(t)
        return f


def corr(k, n):
    """co-occurrences of a real distribution"""
    r = random.Random(k)
    S = states(n)
    w = [math.exp(r.uniform(-1.1, 1.1)) for _ in S]
    z = sum(w)
    return [[sum(x for x, s in zip(w, S) if s[i] and s[j])/z for j in range(n)] for i in range(n)]


def mean_field(A, c, gamma, ind=True):
    """equations 30-33 of Cocco & Monasson with the regularisation of Daniels et al. -> (entropy, fields, couplings)"""
    n = len(c)
    f = [A[i][i] for i in c]
    g = lambda i, j: A[min(c[i], c[j])][max(c[i], c[j])]
    v = [x*(1-x) for x in f]
    C = [[(g(i, j) if i != j else f[i])-f[i]*f[j] for j in range(n)] for i in range(n)]
    M = [[C[i][j]/math.sqrt(v[i]*v[j]) for j in range(n)] for i in range(n)]
    w, V = jacobi(M)
    h = [.5*(x-gamma+math.sqrt((x-gamma)**2+4*gamma)) for x in w]
    J = [[0. if i == j else sum(V[i][q]*V[j][q]/h[q] for q in range(n))/math.sqrt(v[i]*v[j]) for j in range(n)] for i in range(n)]
    H = [sum(J[i][j]*(C[i][j]*(f[i]-.5)/v[i]-f[j]) for j in range(n))-(math.log(f[i]/(1-f[i])) if ind else 0.) for i in range(n)]
    S = (sum(-x*math.log(x)-(1-x)*math.log(1-x) for x in f) if ind else 0.)+.5*sum(math.log(x)+1-x for x in h)
    if gamma == 0:
        S = (sum(-x*math.log(x)-(1-x)*math.log(1-x) for x in f) if ind else 0.)+.5*sum(math.log(x) for x in w)
    return S, H, J


def upper_only(it, st, n, name='A'):
    """co-occurrence matrix as the library computes it: upper triangle"""
    return it.new_arr(st, (num(n), num(n)), lambda q: idx(name, *q) if T.int_val(q[0]) <= T.int_val(q[1]) else T.ZERO, 'float')


def s_mean_field(ctx, n, c, lam, opts_):
    con = MFF+'SmeanField %s of %d spins%s%s' % (list(c), n, ', prior' if lam else '', ', '+', '.join(sorted(opts_)) if opts_ else '')
    L = Linalg()
    it = eng(ctx, L.lib())
    st = I.State()
    kw = {}
    if lam:
        kw.update(meanFieldPriorLmbda=('sym', 'lam'), numSamples=('sym', 'N'))
    if 'plain' in opts_:
        kw['useRegularizedEq'] = T.FALSE
    if 'interaction entropy' in opts_:
        kw['indTerm'] = T.FALSE
    fn = 'JmeanField' if 'JmeanField' in opts_ else 'SmeanField'
    args = ([] if fn == 'JmeanField' else [it.alloc(st, I.ListC([num(x) for x in c]))])+[upper_only(it, st, n)]
    outs = normal(it.run(func(ctx.find(MF, fn)), args, kw, st))
    ctx.analysed.add(MF+':'+fn)
    if not outs:
        raise Undecided('no path returns')
    envs = []
    for k in range(4):
        A = corr(10*n+k, n)
        envs.append((A, L.env(Num(k, {'A': lambda i, j, A=A: A[i][j], 'lam': lambda k=k: .3+k, 'N': lambda k=k: 20.+k}))))
    for A, env in envs:
        live = [(s, v) for s, v in outs if all(evalnum(x, env) for x in s.pc)]
        if len(live) != 1:
            raise Undecided('%d paths at a point' % len(live))
        s, v = live[0]
        if fn == 'SmeanField':
            p = one_of(it, s, v, 2)
            if p is None:
                ctx.bad('mean field', con, 'does not return entropy and couplings')
                return
            ent, v = p
            if not I.is_term(ent):
                a = it.arr(s, ent)
                ent = a[1](()) if a is not None and a[0] == () else None
        g = elements(it, s, v, cells(n, lambda i, j: 0))
        if g is None:
            raise Undecided('couplings')
        if isinstance(g, str):
            ctx.bad('mean field', con, g)
            return
        gam = evalnum(T.div(('sym', 'lam'), ('sym', 'N')), env) if lam else 0.
        S, H, J = mean_field(A, c, gam, 'interaction entropy' not in opts_)
        full = [[0.]*n for _ in range(n)]
        for i, a in enumerate(c):
            for j, b in enumerate(c):
                full[a][b] = H[i] if i == j else J[i][j]/2
        want = [(lambda e, x=x: x) for r in full for x in r]
        if not same_at(ctx, 'mean field', con, g, want, [env]):
            return
        if fn == 'SmeanField' and not same_at(ctx, 'mean field', con+' entropy', [ent], [lambda e: S], [env]):
            return
    ctx.ok('mean field', con, '4 points')


def find_J(ctx, n, lam):
    con = MFF+'findJmatrixAnalytic_CoocMat %d spins%s' % (n, ', prior' if lam else '')
    it = eng(ctx)
    st = I.State()
    kw = {'priorLmbda': ('sym', 'lam'), 'numSamples': ('sym', 'N')} if lam else {}
    outs = normal(it.run(func(ctx.find(MF, 'findJmatrixAnalytic_CoocMat')), [upper_only(it, st, n)], kw, st))
    ctx.analysed.add(MF+':findJmatrixAnalytic_CoocMat')
    ps = up(n)
    for k in range(3):
        A = corr(k, n)
        env = Num(k, {'A': lambda i, j: A[i][j], 'lam': lambda: .7+k, 'N': lambda: 12.+k})
        live = [(s, v) for s, v in outs if all(evalnum(x, env) for x in s.pc)]
        if len(live) != 1:
            raise Undecided('%d paths at a point' % len(live))
        s, v = live[0]
        os = opts(s)
        if len(os) != 1 or os[0].m != len(ps):
            raise Undecided('optimiser calls')
        q = os[0]
        paths = [r for r in q.outs if all(evalnum(x, env) for x in r['st'].pc)]
        if len(paths) != 1:
            raise Undecided('%d paths of the objective at a point' % len(paths))
        res = flat(it, paths[0]['st'], paths[0]['val'])
        if res is None:
            raise Undecided('residuals')
        J = {}
        for (i, j), t in zip(ps, range(len(ps))):
            J[i, j] = evalnum(q.p(t), env)
        W = {x: math.exp(-sum(v_ for (i, j), v_ in J.items() if x[i] and x[j])) for x in states(n)}
        z = sum(W.values())
        want = [sum(w for x, w in W.items() if x[i] and x[j])/z-A[i][j] for i, j in ps]
        if lam and n > 1:
            d = [A[i][i]*(1-A[i][i]) for i in range(n)]
            want += [evalnum(('sym', 'lam'), env)/evalnum(('sym', 'N'), env)*d[i]*d[j]*J[i, j]**2 for i, j in ps if i != j]
        got = sorted(abs(evalnum(x, env)) for x in res)
        ref = sorted(abs(x) for x in want)
        if len(got) != len(ref):
            ctx.bad('fit', con, '%d residuals instead of %d' % (len(got), len(ref)))
            return
        for a, b in zip(got, ref):
            if not near(a, b):
                ctx.bad('fit', con, 'the residuals are not (model - data) co-occurrences%s: sizes %s instead of %s' % (' and prior terms' if lam else '', ['%.5g' % x for x in got], ['%.5g' % x for x in ref]))
                return
        g = elements(it, s, v, cells(n, lambda i, j: 0))
        if g is None:
            raise Undecided('result')
        want = [(lambda e, i=i, j=j: evalnum(q.sol(ps.index((min(i, j), max(i, j)))), e)*(1 if i == j else .5)) for i in range(n) for j in range(n)]
        if isinstance(g, str):
            ctx.bad('fit', con, g)
            return
        if not same_at(ctx, 'fit', con+' result', g, want, [env]):
            return
    ctx.ok('fit', con, '3 points')


# ---------------------------------------------------------------- cluster expansion
def ace(ctx, it, st, n):
    res = build(ctx, it, st, SOL, 'ClusterExpansion', [const_mat(it, st, SAMPLE[n])], {'iprint': T.FALSE, 'n_cpus': num(1), 'rng': c13.RNG0})
    if len(res) != 1:
        raise Undecided('%d ways through the constructor' % len(res))
    return res[0]


def ace_engine(ctx, n, externs=None, lib=None):
    t = dict(rng.lib_table())
    t.update(lib or {})
    it = eng(ctx, t)
    it.externs.update(tables(ctx, n))
    it.externs.update(externs or {})
    return it


def ints(it, st, v):
    xs = it.items_of(st, v) if not I.is_term(v) else None
    if xs is None:
        xs = flat(it, st, v)
    if xs is None:
        raise Undecided('cluster')
    r = [T.int_val(x) for x in xs]
    if None in r:
        raise Undecided('cluster')
    return r


def entropy(ctx, n, c):
    """S and Sindependent of one cluster"""
    m = len(c)
    con = 'coniii/solvers.py:ClusterExpansion.S %s of %d' % (list(c), n)
    seen = []

    def fit(it, st, a, kw, node):
        b = dict(zip(('coocMatData', 'Jinit', 'bayesianMean', 'numSamples', 'priorLmbda', 'minSize'), a))
        b.update(kw)
        seen.append((st.copy(), b))
        return sym_J(it, st, m)
    it = ace_engine(ctx, n, {MF+':findJmatrixAnalytic_CoocMat': fit})
    st = I.State()
    st, o = ace(ctx, it, st, n)
    cl = lambda st: it.alloc(st, I.ListC([num(x) for x in c]))
    s0 = st.copy()
    outs = it.call(s0, member(it, s0, o, 'S'), [cl(s0), upper_only(it, s0, n)], {'priorLmbda': ('sym', 'lam'), 'numSamples': ('sym', 'N')}, None)
    ctx.analysed.add(SOL+':ClusterExpansion.S, Sindependent')
    if len(outs) != 1 or len(seen) != 1:
        raise Undecided('%d paths, %d fits' % (len(outs), len(seen)))
    s, v = outs[0]
    p = one_of(it, s, v, 2)
    if p is None:
        raise Undecided('result')
    sb, b = seen[0]
    expect_mat(ctx, 'entropy', con+' data', it, sb, b['coocMatData'], [[idx('A', i, j) if i <= j else T.ZERO for j in c] for i in c])
    for k, w in (('priorLmbda', ('sym', 'lam')), ('numSamples', ('sym', 'N'))):
        compare(ctx, 'entropy', '%s %s' % (con, k), b.get(k), w)
    L = [logZ(m, x, Js) for x in states(m)]
    Z = T.addn([T.exp(x) for x in L])
    want = T.neg(T.addn([T.mul(T.div(T.exp(x), Z), T.sub(x, T.log(Z))) for x in L]))
    if same_at(ctx, 'entropy', con, [p[0]], [want], [Num(k) for k in range(4)]):
        ctx.ok('entropy', con)
    expect_mat(ctx, 'entropy', con+' couplings', it, s, p[1], cells(n, lambda i, j: Js(c.index(i), c.index(j)) if i in c and j in c else T.ZERO))
    if m <= 2:
        # closed forms: the couplings reproduce the given averages
        con2 = con+' in closed form'
        s0 = st.copy()
        outs = it.call(s0, member(it, s0, o, 'S'), [cl(s0), upper_only(it, s0, n)], {'useAnalyticResults': T.TRUE}, None)
        if len(outs) != 1:
            raise Undecided('%d paths' % len(outs))
        s, v = outs[0]
        p = one_of(it, s, v, 2)
        g = elements(it, s, p[1], cells(n, lambda i, j: 0))
        if g is None or isinstance(g, str):
            raise Undecided('couplings')
        for k in range(4):
            A = corr(k, n)
            env = Num(k, {'A': lambda i, j: A[i][j]})
            J = [[evalnum(g[i*n+j], env) for j in range(n)] for i in range(n)]
            W = {x: math.exp(-sum(J[c[i]][c[j]] for i in range(m) for j in range(m) if x[i] and x[j])) for x in states(m)}
            z = sum(W.values())
            for i in range(m):
                for j in range(i, m):
                    av = sum(w for x, w in W.items() if x[i] and x[j])/z
                    if not near(av, A[c[i]][c[j]]):
                        ctx.bad('entropy', con2, 'average of spins %d and %d is %.6g instead of %.6g' % (c[i], c[j], av, A[c[i]][c[j]]))
                        return
            H = -sum(w/z*math.log(w/z) for w in W.values())
            if not same_at(ctx, 'entropy', con2, [p[0]], [lambda e: H], [env]):
                return
        ctx.ok('entropy', con2, '4 points')
    con3 = 'coniii/solvers.py:ClusterExpansion.Sindependent %s of %d' % (list(c), n)
    s0 = st.copy()
    outs = it.call(s0, member(it, s0, o, 'Sindependent'), [cl(s0), upper_only(it, s0, n)], {}, None)
    if len(outs) != 1:
        raise Undecided('%d paths' % len(outs))
    s, v = outs[0]
    p = one_of(it, s, v, 2)
    envs = []
    for k in range(3):
        A = corr(k, n)
        envs.append(Num(k, {'A': lambda i, j, A=A: A[i][j]}))
    f = [idx('A', i, i) for i in c]
    want = T.neg(T.addn([T.add(T.mul(x, T.log(x)), T.mul(T.sub(T.ONE, x), T.log(T.sub(T.ONE, x)))) for x in f]))
    if same_at(ctx, 'entropy', con3, [p[0]], [want], envs):
        ctx.ok('entropy', con3)
    g = elements(it, s, p[1], cells(n, lambda i, j: 0))
    if g is None:
        raise Undecided('couplings')
    w = [T.neg(T.log(T.div(idx('A', i, i), T.sub(T.ONE, idx('A', i, i))))) if i == j and i in c else T.ZERO for i in range(n) for j in range(n)]
    if isinstance(g, str):
        ctx.bad('entropy', con3, g)
    elif same_at(ctx, 'entropy', con3+' couplings', g, w, envs):
        ctx.ok('entropy', con3+' couplings')


def subsets(ctx, c):
    it = ace_engine(ctx, 3)
    st, o = ace(ctx, it, I.State(), 3)
    for k in range(0, len(c)+2):
        con = 'coniii/solvers.py:ClusterExpansion.subsets size %d of %s' % (k, list(c))
        s0 = st.copy()
        l = it.alloc(s0, I.ListC([num(x) for x in c]))
        outs = it.call(s0, member(it, s0, o, 'subsets'), [l, num(k)], {}, None)
        if len(outs) != 1:
            raise Undecided('%d paths' % len(outs))
        s, v = outs[0]
        xs = it.items_of(s, v)
        if xs is None:
            raise Undecided('result')
        got = sorted(tuple(sorted(ints(it, s, x))) for x in xs)
        want = sorted(tuple(sorted(x)) for x in itertools.combinations(c, k)) if k else []
        ctx.expect('subsets', con, got == want, 'returns %s' % (got,), '%d subsets' % len(want))
        ctx.expect('subsets', con+' argument', ints(it, s, l) == list(c), 'the given list is changed')
    ctx.analysed.add(SOL+':ClusterExpansion.subsets')


def delta(ctx, n, c, ref, cached=()):
    """cluster contributions by inclusion and exclusion"""
    con = 'coniii/solvers.py:ClusterExpansion.deltaS %s of %d, %s reference%s' % (list(c), n, ref, ', known %s' % (list(cached),) if cached else '')
    bad = []

    def name(cl):
        return ','.join(map(str, sorted(cl)))

    def stub(kind, names):
        def h(it, st, a, kw, node):
            b = dict(zip(names, a))
            b.update(kw)
            cl = name(ints(it, st, b['cluster']))
            A = it.arr(st, b['coocMat'])
            if A is None or A[1]((num(0), num(1))) != idx('A', 0, 1):
                raise Undecided('co-occurrences handed on')
            lam = b.get('priorLmbda' if kind == 'S' else 'meanFieldPriorLmbda')
            if kind == 'S' and (lam != ('sym', 'lam') or b.get('numSamples') != ('sym', 'N')):
                bad.append('the prior is not handed to the entropy of %s' % cl)
            if kind == 'mf' and (lam != ('sym', 'mlam') or b.get('numSamples') != ('sym', 'N')):
                bad.append('the mean field prior is not handed to the mean field entropy of %s' % cl)
            return I.Tup([('sym', '%s(%s)' % (kind, cl)), it.sym_array(st, '%sJ(%s)' % (kind, cl), (num(n), num(n)), 'float')])
        return h
    ext = {SOL+':ClusterExpansion.S': stub('S', ('self', 'cluster', 'coocMat', 'deltaJdict', 'useAnalyticResults', 'priorLmbda', 'numSamples')),
           SOL+':ClusterExpansion.Sindependent': stub('ind', ('self', 'cluster', 'coocMat')),
           MF+':SmeanField': stub('mf', ('cluster', 'coocMat', 'meanFieldPriorLmbda', 'numSamples', 'indTerm'))}
    it = ace_engine(ctx, n, ext)
    st, o = ace(ctx, it, I.State(), n)
    key = lambda cl: ('tupkey',)+tuple(num(x) for x in sorted(cl))
    dS = it.alloc(st, I.DictC({key(x): ('sym', 'known(%s)' % name(x)) for x in cached}))
    dJ = it.alloc(st, I.DictC({key(x): it.sym_array(st, 'knownJ(%s)' % name(x), (num(n), num(n)), 'float') for x in cached}))
    kw = {'iprint': T.FALSE, 'priorLmbda': ('sym', 'lam'), 'meanFieldPriorLmbda': ('sym', 'mlam'), 'numSamples': ('sym', 'N')}
    kw['independentRef' if ref == 'independent' else 'meanFieldRef'] = T.TRUE
    outs = it.call(st, member(it, st, o, 'deltaS'), [it.alloc(st, I.ListC([num(x) for x in c])), upper_only(it, st, n), dS, dJ], kw, None)
    ctx.analysed.add(SOL+':ClusterExpansion.deltaS, clusterID')
    if len(outs) != 1:
        raise Undecided('%d paths' % len(outs))
    s, v = outs[0]
    p = one_of(it, s, v, 2)
    if p is None:
        raise Undecided('result')
    if bad:
        ctx.bad('contributions', con, bad[0])
        return
    r0 = 'ind' if ref == 'independent' else 'mf'
    known = {tuple(sorted(x)) for x in cached}
    memo = {}

    def want(cl):
        """-> (entropy, J(i,j))"""
        cl = tuple(sorted(cl))
        if cl in memo:
            return memo[cl]
        if cl in known:
            r = (('sym', 'known(%s)' % name(cl)), [idx('knownJ(%s)' % name(cl), i, j) for i in range(n) for j in range(n)])
        else:
            subs = [want(x) for k in range(1, len(cl)) for x in itertools.combinations(cl, k)]
            e = T.sub(('sym', 'S(%s)' % name(cl)), ('sym', '%s(%s)' % (r0, name(cl))))
            J = [T.sub(idx('SJ(%s)' % name(cl), i, j), idx('%sJ(%s)' % (r0, name(cl)), i, j)) for i in range(n) for j in range(n)]
            r = (T.sub(e, T.addn([x[0] for x in subs])), [T.sub(a, T.addn([x[1][q] for x in subs])) for q, a in enumerate(J)])
        memo[cl] = r
        return r
    e, J = want(c)
    compare(ctx, 'contributions', con, p[0], e)
    expect_mat(ctx, 'contributions', con+' couplings', it, s, p[1], [J[i*n:i*n+n] for i in range(n)])
    D, DJ = s.heap[dS.id], s.heap[dJ.id]
    if tuple(sorted(c)) not in known:
        for cl, (e, J) in memo.items():
            if len(cl) and not (cached and cl not in known and key(cl) not in D.items):
                if not isinstance(D, I.DictC) or D.opaque or key(cl) not in D.items:
                    raise Undecided('stored contributions')
                compare(ctx, 'contributions', '%s stored for %s' % (con, list(cl)), D.items[key(cl)], e)
                expect_mat(ctx, 'contributions', '%s couplings stored for %s' % (con, list(cl)), it, s, DJ.items[key(cl)], [J[i*n:i*n+n] for i in range(n)])


def reference(n, cl, dS, thr):
    """clusters kept by the adaptive expansion"""
    sizes = {1: [(i,) for i in cl]}
    k = 1
    while sizes[k]:
        nxt = []
        for a, b in itertools.combinations(sizes[k], 2):
            u = tuple(sorted(set(a) | set(b)))
            if len(set(a) & set(b)) == k-1 and abs(dS(u)) > thr and u not in nxt:
                nxt.append(u)
        sizes[k+1] = nxt
        k += 1
    return [c for v in sizes.values() for c in v]


def expand(ctx, n, ref, cl=None, concrete=None, points_=24):
    """solve: which clusters are kept and what is added up.  concrete: seed of fixed contributions, otherwise symbols"""
    con = 'coniii/solvers.py:ClusterExpansion.solve %d spins%s, %s reference%s' % (n, '' if cl is None else ' starting from %s' % (list(cl),), ref, '' if concrete is None else ', contributions %d' % concrete)
    bad = []

    def dval(c):
        return random.Random('%s %s' % (concrete, c)).choice((-3, -2, -1, 1, 2, 3)) if len(c) > 1 else 1

    def name(c):
        return ','.join(map(str, c))

    def one(it, st, a, kw, node):
        b = dict(zip(('self', 'cluster', 'coocMat', 'deltaSdict', 'deltaJdict', 'iprint', 'meanFieldRef', 'priorLmbda', 'numSamples', 'independentRef', 'meanFieldPriorLmbda'), a))
        b.update(kw)
        c = tuple(sorted(ints(it, st, b['cluster'])))
        A = it.arr(st, b['coocMat'])
        rows = SAMPLE[n]
        for i in range(n):
            for j in range(i, n):
                w = T.div(num(sum(1 for r in rows if r[i] == 1 and r[j] == 1)), num(len(rows)))
                if A is None or A[1]((num(i), num(j))) != w:
                    bad.append('co-occurrences of the sample are %s instead of %s' % (short(A[1]((num(i), num(j)))) if A else '?', short(w)))
        if b.get('priorLmbda') != ('sym', 'lam') or b.get('numSamples') != ('sym', 'N'):
            bad.append('the prior is not handed on')
        if b.get('independentRef') != (T.TRUE if ref == 'independent' else T.FALSE) or b.get('meanFieldRef') != (T.TRUE if ref == 'mean field' else T.FALSE):
            bad.append('the reference is not handed on')
        if ref == 'mean field' and b.get('meanFieldPriorLmbda') not in (('sym', 'lam'), T.NONE, None):
            bad.append('the mean field prior is not the prior')
        for k in range(1, len(c)+1):
            for x in itertools.combinations(c, k):
                kk = ('tupkey',)+tuple(num(q) for q in x)
                for nm in ('deltaSdict', 'deltaJdict'):
                    D = st.heap[b[nm].id]
                    d = dict(D.items)
                    if kk not in d:
                        d[kk] = (num(dval(x)) if concrete is not None else ('sym', 'dS(%s)' % name(x))) if nm == 'deltaSdict' else sym_J(it, st, n, 'dJ(%s)' % name(x))
                        st.heap[b[nm].id] = I.DictC(d, D.opaque)
        kk = ('tupkey',)+tuple(num(q) for q in c)
        return I.Tup([st.heap[b['deltaSdict'].id].items[kk], st.heap[b['deltaJdict'].id].items[kk]])

    def base(kind):
        def h(it, st, a, kw, node):
            c = ints(it, st, a[1] if kind == 'ind' else a[0])
            if sorted(c) != sorted(cl if cl is not None else range(n)):
                bad.append('the reference is taken over the spins %s' % c)
            if ('independent' if kind == 'ind' else 'mean field') != ref:
                bad.append('the sum starts from the %s theory' % ('independent' if kind == 'ind' else 'mean field'))
            if kind == 'mf' and (list(a[2:4])+[kw.get('meanFieldPriorLmbda')])[0] != ('sym', 'lam') and kw.get('meanFieldPriorLmbda') != ('sym', 'lam'):
                bad.append('the prior is not handed to the mean field theory')
            return I.Tup([('sym', 'S0'), sym_J(it, st, n, 'J0')])
        return h
    it = ace_engine(ctx, n, {SOL+':ClusterExpansion.deltaS': one, SOL+':ClusterExpansion.Sindependent': base('ind'), MF+':SmeanField': base('mf')})
    it.fork_while = it.max_paths = 4000
    st, o = ace(ctx, it, I.State(), n)
    kw = {'iprint': T.FALSE, 'priorLmbda': ('sym', 'lam'), 'numSamples': ('sym', 'N'), 'full_output': T.TRUE}
    if ref != 'independent':
        kw['independentRef'] = T.FALSE
    if ref == 'mean field':
        kw['meanFieldRef'] = T.TRUE
    if cl is not None:
        kw['cluster'] = it.alloc(st, I.ListC([num(x) for x in cl]))
    it.raised = []
    outs = it.call(st, member(it, st, o, 'solve'), [num(2) if concrete is not None else ('sym', 'T')], kw, None)
    ctx.analysed.add(SOL+':ClusterExpansion.solve')
    if bad:
        ctx.bad('expansion', con, bad[0])
        return
    if not outs:
        ctx.bad('expansion', con, 'always raises on valid input')
        return
    dsv = {}
    for k in range(points_ if concrete is None else 2):
        r = random.Random(k)
        d = {}

        def dS(c, d=d, r=random.Random(k*7+1)):
            return d.setdefault(c, r.uniform(-1, 1)*(.8 if len(c) > 2 else 1)) if concrete is None else dval(c)
        for m in range(1, n+1):
            for c in itertools.combinations(range(n), m):
                dS(c)
        thr = (.1, .4, .6, 0., .9, 2.)[k % 6] if concrete is None else 2
        sp = {'dS(%s)' % name(c): (lambda c=c: dS(c)) for m in range(1, n+1) for c in itertools.combinations(range(n), m)}
        sp['T'] = lambda: thr
        env = Num(k, sp)
        live = [(s, v) for s, v in outs if all(evalnum(x, env) for x in s.pc)]
        if len(live) != 1:
            raise Undecided('%d paths at a point' % len(live))
        s, v = live[0]
        p = one_of(it, s, v, 5)
        if p is None:
            ctx.bad('expansion', con, 'full output has not five parts')
            return
        kept = reference(n, list(cl) if cl is not None else list(range(n)), dS, thr)
        ent = (evalnum(('sym', 'S0'), env) if ref != 'no' else 0.)+sum(dS(c) for c in kept)
        J = lambda i, j: (evalnum(idx('J0', i, j), env) if ref != 'no' else 0.)+sum(evalnum(idx('dJ(%s)' % name(c), i, j), env) for c in kept)
        # {0,1} energies h f + 2 J f f -> {-1,1} parameters
        want = []
        for i in range(n):
            want.append(-J(i, i)/2-sum(2*J(min(i, j), max(i, j)) for j in range(n) if j != i)/4)
        want += [-2*J(i, j)/4 for i, j in pairs(n)]
        for nm, w in (('returned', p[0]), ('stored', it.getattr(s, o, 'multipliers'))):
            e = flat(it, s, w)
            if e is None:
                raise Undecided('parameters')
            if len(e) != len(want):
                ctx.bad('expansion', con, '%d parameters' % len(e))
                return
            if not same_at(ctx, 'expansion', '%s, %s parameters, clusters kept %s' % (con, nm, [c for c in kept if len(c) > 1]), e, [(lambda e, x=x: x) for x in want], [env]):
                return
        if not same_at(ctx, 'expansion', con+' entropy', [p[1]], [lambda e: ent], [env]):
            return
    ctx.ok('expansion', con, '%d paths' % len(outs))


# ---------------------------------------------------------------- regularised mean field
def rmf(ctx, n, reset, bracket):
    """what the objective does with one strength, and what is returned for the strength the minimiser finds"""
    con = SOL.replace('.', '/')+'.py:RegularizedMeanField.solve %d spins%s%s' % (n, '' if reset else ', generator not reset', ', bracket' if bracket else '')
    rows = SAMPLE[n]
    K = len(rows)
    bad = []
    ps = up(n)
    Cd = {(i, j): T.div(num(sum(1 for r in rows if r[i] == 1 and r[j] == 1)), num(K)) for i in range(n) for j in range(i, n)}
    pm = T.div(T.addn([Cd[i, i] for i in range(n)]), num(n))
    scale = T.mul(T.mul(pm, pm), T.mul(T.sub(T.ONE, pm), T.sub(T.ONE, pm)))
    rec = {'strength': [], 'sample': [], 'grid': [], 'min': [], 'final': None, 'b1': []}
    X = 5

    def jmf(it, st, a, kw, node):
        b = dict(zip(('coocMat', 'meanFieldPriorLmbda', 'numSamples'), a))
        b.update(kw)
        A = it.arr(st, b['coocMat'])
        for i, j in ps:
            if A is None or not equal(A[1]((num(i), num(j))), Cd[i, j]):
                bad.append('the mean field couplings do not belong to the co-occurrences of the sample')
        if b.get('numSamples') != num(K):
            bad.append('the mean field couplings are given %s samples instead of %d' % (short(b.get('numSamples', T.NONE)), K))
        lam = b.get('meanFieldPriorLmbda', T.ZERO)
        if not I.is_term(lam):
            raise Undecided('strength of the prior')
        rec['strength'].append(lam)
        k = len(rec['strength'])
        return sym_J(it, st, n, 'J%d' % k)

    def sample(it, st, a, kw, node):
        b = dict(zip(('self', 'n_iters', 'burn_in', 'multipliers', 'sample_size', 'sample_method', 'parallel', 'generate_kwargs'), a))
        b.update(kw)
        m = b.get('multipliers')
        if m is None or m == T.NONE:
            m = it.getattr(st, b['self'], 'multipliers')
        e = flat(it, st, m)
        if e is None:
            raise Undecided('parameters sampled from')
        r = it.getattr(st, it.getattr(st, b['self'], 'sampler'), 'rng')
        k = len(rec['strength'])
        v = it.sym_array(st, 'X%d' % k, (num(X), num(n)), 'float')
        it.setattr(st, b['self'], 'sample', v)
        rec['sample'].append((k, e, r))
        return T.NONE

    def call(it, st, fun, x, node):
        outs = it.call(st, fun, [x], {}, node)
        if len(outs) != 1:
            raise Undecided('%d paths of the objective' % len(outs))
        s, v = outs[0]
        st.heap, st.events, st.draws = s.heap, s.events, s.draws
        return v

    def minimise(it, st, a, kw, node, f):
        fun = a[0] if a else kw['fun']
        br = kw.get('bracket', a[1] if len(a) > 1 else T.NONE)
        k0 = len(rec['strength'])
        for x in ('x1', 'x2'):
            v = call(it, st, fun, ('sym', x), node)
            rec['min'].append((('sym', x), v, len(rec['strength'])))
        rec['bracket'] = br
        d = it.alloc(st, I.DictC({('str', 'x'): ('sym', 'xs'), ('str', 'fun'): ('sym', 'fs')}))
        st.heap[d.id].attrdict = True
        return d

    def bracket1d(it, st, a, kw, node):
        b = dict(zip(('self', 'xList', 'funcList'), a))
        b.update(kw)
        rec['b1'].append((flat(it, st, b['xList']) or it.items_of(st, b['xList']), it.items_of(st, b['funcList']) or flat(it, st, b['funcList'])))
        return I.Tup([('sym', 'b0'), ('sym', 'b1'), ('sym', 'b2')])
    ext = {MF+':JmeanField': jmf, MF+':coocSampleCovariance': lambda it, st, a, kw, node: ('sym', 'cov'),
           'coniii.models:Model.generate_sample': sample, SOL+':RegularizedMeanField.bracket1d': bracket1d}
    it = ace_engine(ctx, n, ext, {'scipy.optimize.minimize_scalar': minimise})
    st = I.State()
    res = build(ctx, it, st, SOL, 'RegularizedMeanField', [const_mat(it, st, rows)], {'iprint': T.FALSE, 'n_cpus': num(1), 'rng': c13.RNG0})
    if len(res) != 1:
        raise Undecided('%d ways through the constructor' % len(res))
    st, o = res[0]
    kw = {'reset_rng': T.TRUE if reset else T.FALSE}
    G = 4
    if bracket:
        kw.update(bracket=I.Tup([('sym', 'lo'), ('sym', 'hi')]), n_grid_points=num(G))
    it.raised = []
    ne = len(st.events)
    outs = it.call(st, member(it, st, o, 'solve'), [], kw, None)
    ctx.analysed.add(SOL+':RegularizedMeanField.solve, multipliers, samples, func')
    if bad:
        ctx.bad('strength', con, bad[0])
        return
    if not outs:
        ctx.bad('strength', con, 'always raises on valid input')
        return
    if len(outs) != 1 or not all(evalnum(x, Num(0, {'d#%d' % k: lambda: 7 for k in range(1, 4)})) for x in outs[0][0].pc):
        raise Undecided('%d paths, %s' % (len(outs), short(outs[0][0].pc[0]) if outs[0][0].pc else ''))
    s, v = outs[0]
    # strengths tried and their scale
    want = [('sym', 'x1'), ('sym', 'x2'), ('sym', 'xs')]
    if bracket:
        lo, hi = ('sym', 'lo'), ('sym', 'hi')
        grid = [T.add(lo, T.mul(T.div(num(k), num(G-1)), T.sub(hi, lo))) for k in range(G)]
        want = grid+want
        if len(rec['b1']) != 1 or None in rec['b1'][0]:
            raise Undecided('bracketing')
        xs, fs = rec['b1'][0]
        expect_vec_terms(ctx, con+' grid', xs, grid)
        br = it.items_of(s, rec['bracket']) if not I.is_term(rec['bracket']) else None
        ctx.expect('strength', con+' bracket', br is not None and [x for x in br] == [('sym', 'b%d' % k) for k in range(3)], 'the minimiser is not given the bracket found on the grid')
        rec['vals'] = list(zip(range(1, G+1), fs))
    else:
        rec['vals'] = []
        ctx.expect('strength', con+' bracket', rec['bracket'] in (T.NONE, None), 'a bracket is used although none is given')
    rec['vals'] += [(k, x) for _, x, k in rec['min']]
    if len(rec['strength']) != len(want):
        ctx.bad('strength', con, '%d sets of mean field couplings instead of %d' % (len(rec['strength']), len(want)))
        return
    for q, (g, w) in enumerate(zip(rec['strength'], want)):
        compare(ctx, 'strength', con+' strength %d' % q, g, T.div(w, scale))

    # parameters in the {-1,1} basis
    def mult(k):
        J = lambda i, j: idx('J%d' % k, min(i, j), max(i, j))
        h = [T.sub(T.div(T.neg(J(i, i)), num(2)), T.div(T.addn([J(i, j) for j in range(n) if j != i]), num(2))) for i in range(n)]
        return h + [T.div(T.neg(J(i, j)), num(2)) for i, j in pairs(n)]

    def same(lab, e, w):
        if len(e) != len(w):
            ctx.bad('strength', lab, '%d parameters instead of %d' % (len(e), len(w)))
            return
        for q, (a, b) in enumerate(zip(e, w)):
            compare(ctx, 'strength', '%s [%d]' % (lab, q), a, b)
    if len(rec['sample']) != len(want)-1:
        raise Undecided('%d samples for %d evaluations' % (len(rec['sample']), len(want)-1))
    for k, e, r in rec['sample']:
        same('%s parameters sampled from, evaluation %d' % (con, k), e, mult(k))
    for nm, m in (('returned', v), ('stored', it.getattr(s, o, 'multipliers'))):
        e = flat(it, s, m)
        if e is None:
            raise Undecided('parameters')
        same('%s parameters %s' % (con, nm), e, mult(len(want)))
    # generator
    names = [getattr(r, 'name', None) for _, _, r in rec['sample']]
    seeds = [e for e in s.events[ne:] if e[0] == 'newrng']
    if reset:
        srcs = [e for e in s.events[ne:] if e[0] == 'draw']
        ctx.expect('strength', con+' generator', len(seeds) == len(rec['sample']) and len({str(e[1]) for e in seeds}) == 1 and len(set(names)) == 1 and names[0] not in (None, 'rng:rng0'),
                   'evaluations do not start from one and the same state of the generator')
        ctx.expect('strength', con+' seed', len(srcs) == 1 and srcs[0][1] == 'rng0' and all(e[1] == srcs[0][4] for e in seeds), 'the seed is not one draw of the generator of the model')
    else:
        ctx.expect('strength', con+' generator', not seeds and set(names) == {'rng:rng0'}, 'the generator of the model is replaced although that is not asked for')
    # objective: sum over pairs of squared residuals in standard deviations
    for k, x in rec['vals']:
        f = lambda t, a, k=k: T.div(T.add(idx('X%d' % k, t, a), T.ONE), num(2))
        tot = []
        for i, j in ps:
            c = T.div(T.addn([T.mul(f(t, i), f(t, j)) for t in range(X)]), num(X))
            b = T.div(T.add(T.mul(Cd[i, j], num(K)), T.ONE), num(K+2))
            d = T.sub(c, Cd[i, j])
            tot.append(T.div(T.mul(d, d), T.div(T.mul(b, T.sub(T.ONE, b)), num(K))))
        if not I.is_term(x):
            raise Undecided('objective')
        if same_at(ctx, 'strength', '%s objective, evaluation %d' % (con, k), [x], [T.addn(tot)], [Num(q) for q in range(3)]):
            ctx.ok('strength', '%s objective, evaluation %d' % (con, k))


def expect_vec_terms(ctx, con, got, want):
    if len(got) != len(want):
        ctx.bad('strength', con, '%d points instead of %d' % (len(got), len(want)))
        return
    for q, (g, w) in enumerate(zip(got, want)):
        compare(ctx, 'strength', '%s [%d]' % (con, q), g, w)


def bracketing(ctx, fs):
    con = SOL.replace('.', '/')+'.py:RegularizedMeanField.bracket1d %s' % (list(fs),)
    it = ace_engine(ctx, 3)
    st = I.State()
    res = build(ctx, it, st, SOL, 'RegularizedMeanField', [const_mat(it, st, SAMPLE[3])], {'iprint': T.FALSE, 'n_cpus': num(1), 'rng': c13.RNG0})
    st, o = res[0]
    xs = [('sym', 'g%d' % k) for k in range(len(fs))]
    it.raised = []
    outs = it.call(st, member(it, st, o, 'bracket1d'), [it.alloc(st, I.ListC(xs)), it.alloc(st, I.ListC([num(x) for x in fs]))], {}, None)
    ctx.analysed.add(SOL+':RegularizedMeanField.bracket1d')
    k = list(fs).index(min(fs))
    if k in (0, len(fs)-1):
        if outs and not it.raised:
            ctx.bad('strength', con, 'a minimum at the end of the grid is accepted')
        else:
            ctx.expect('strength', con, not outs, 'a minimum at the end of the grid is accepted')
        return
    if not outs:
        ctx.bad('strength', con, 'raises although the minimum is inside')
        return
    s, v = outs[0]
    xs_ = it.items_of(s, v)
    if xs_ is None or not all(I.is_term(x) for x in xs_):
        raise Undecided('result')
    left, right = list(fs[:k]), list(fs[k+1:])
    ok = [[xs[q] for q in range(k) if fs[q] == min(left)], [xs[k]], [xs[q] for q in range(k+1, len(fs)) if fs[q] == min(right)]]
    ctx.expect('strength', con, len(xs_) == 3 and all(x in w for x, w in zip(xs_, ok)), 'gives %s' % (', '.join(short(x) for x in xs_),))


def run(ctx):
    thorough = ctx.tier == 'thorough'
    ctx.rule('layout', 'flattened upper triangles go diagonal after diagonal, submatrices and embeddings follow the indices')
    ctx.rule('model', 'weights, averages and entropy of the {0,1} model with energy sum h f + sum over ordered pairs J f f')
    ctx.rule('data', 'co-occurrences are averages over the sample, upper triangle')
    ctx.rule('mean field', 'couplings, fields and entropy of the (regularised) mean field theory')
    ctx.rule('fit', 'the residuals are model minus data co-occurrences, the optimum is returned')
    ctx.rule('entropy', 'entropy and couplings of one cluster, fitted, in closed form and independent')
    ctx.rule('subsets', 'all subsets of a size, once each')
    ctx.rule('contributions', 'cluster contributions by inclusion and exclusion relative to the reference')
    ctx.rule('expansion', 'kept clusters are grown from pairs of kept ones whose contribution exceeds the threshold; their contributions add up to the parameters')
    ctx.rule('strength', 'mean field couplings for the tried strength, converted to the {-1,1} basis, sampled from equal generator states, compared with the data in standard deviations')
    for n in (1, 2, 3, 4):
        layouts(ctx, n)
    for n in (1, 2, 3) + ((4,) if thorough else ()):
        exact_model(ctx, n)
    for K, n in ((1, 2), (3, 3), (4, 2)):
        cooc(ctx, K, n)
    for n, c in ((2, (0, 1)), (3, (0, 1, 2)), (3, (0, 2)), (4, (1, 2, 3))):
        for lam in (False, True):
            for o in ((), ('interaction entropy',), ('plain',)):
                if lam and 'plain' in o:
                    continue
                ctx.guard('mean field', MFF+'SmeanField', s_mean_field, ctx, n, c, lam, o)
        if len(c) == n:
            ctx.guard('mean field', MFF+'JmeanField', s_mean_field, ctx, n, c, True, ('JmeanField',))
    for n in (1, 2, 3):
        for lam in (False, True):
            ctx.guard('fit', MFF+'findJmatrixAnalytic_CoocMat', find_J, ctx, n, lam)
    for c in ((0,), (2,), (0, 1), (0, 2), (0, 1, 2)):
        ctx.guard('entropy', 'coniii/solvers.py:ClusterExpansion.S', entropy, ctx, 3, c)
    for c in ((0,), (0, 1), (2, 0, 5), (0, 1, 2, 3), (4, 1, 3, 0, 2)):
        ctx.guard('subsets', 'coniii/solvers.py:ClusterExpansion.subsets', subsets, ctx, c)
    for ref in ('independent', 'mean field'):
        for c in ((0,), (0, 1), (0, 2), (0, 1, 2)):
            ctx.guard('contributions', 'coniii/solvers.py:ClusterExpansion.deltaS', delta, ctx, 3, c, ref)
        ctx.guard('contributions', 'coniii/solvers.py:ClusterExpansion.deltaS', delta, ctx, 3, (0, 1, 2), ref, ((0, 1), (2,)))
        ctx.guard('contributions', 'coniii/solvers.py:ClusterExpansion.deltaS', delta, ctx, 3, (0, 1), ref, ((0, 1),))
        ctx.guard('contributions', 'coniii/solvers.py:ClusterExpansion.deltaS', delta, ctx, 4, (0, 1, 2, 3), ref)
    for ref in ('independent', 'mean field'):
        for n in (2, 3):
            ctx.guard('expansion', 'coniii/solvers.py:ClusterExpansion.solve', expand, ctx, n, ref)
    ctx.guard('expansion', 'coniii/solvers.py:ClusterExpansion.solve', expand, ctx, 3, 'independent', (0, 2))
    for k in range(24 if thorough else 10):
        ctx.guard('expansion', 'coniii/solvers.py:ClusterExpansion.solve', expand, ctx, 4, 'independent', None, k)
    for n in (2, 3):
        for reset, br in ((True, False), (False, False), (True, True)):
            ctx.guard('strength', 'coniii/solvers.py:RegularizedMeanField.solve', rmf, ctx, n, reset, br)
    for fs in ((3, 1, 2), (5, 4, 1, 2, 3), (2, 5, 1, 6, 4), (1, 2, 3), (3, 2, 1), (4, 1, 3, 1, 2)):
        ctx.guard('strength', 'coniii/solvers.py:RegularizedMeanField.bracket1d', bracketing, ctx, fs)
