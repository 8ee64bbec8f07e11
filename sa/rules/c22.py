"""Pseudolikelihood and minimum-probability-flow objectives.  The solvers are interpreted down to the call of the optimiser; the
objective passed to it is interpreted at a vector of symbols (twice, so that state kept between calls shows) and compared with the
negative log conditional likelihood / the probability-flow objective of the sample; returned gradients and Hessians are compared with
the symbolic derivative of that objective, and the returned parameters with the required function of the optimum."""
import itertools
from fractions import Fraction
from .. import terms as T
from .. import interp as I
from .. import diff
from ..project import Undecided
from ..ctx import equal, short
from .common import *
from .solve import *

LEVEL = 'proof'
UT = 'coniii.utils'


# ---------------------------------------------------------------- comparing an objective up to a positive factor and an offset
def affine(got, want, leaves):
    """(a, b) with got = a*want + b at generic points (exact small fractions), or None"""
    import random
    rnd = random.Random(3)
    pts = []
    for _ in range(12):
        env = {x: rnd.uniform(-1, 1) for x in leaves}
        try:
            u, v = evalnum(got, env), evalnum(want, env)
        except (NoValue, OverflowError, ValueError, ZeroDivisionError):
            return None
        pts.append((u, v))
    (u0, v0), (u1, v1) = max(itertools.combinations(pts, 2), key=lambda p: abs(p[0][1]-p[1][1]))
    if abs(v0-v1) < 1e-9:
        return None
    a = (u0-u1)/(v0-v1)
    b = u0-a*v0
    for u, v in pts:
        if abs(u-a*v-b) > 1e-7*(1+abs(u)):
            return False
    return Fraction(a).limit_denominator(2000), b


def gradient(want, leaves):
    return [diff.d(want, x) for x in leaves]


def leaves_of(t, pre):
    return sorted({x for x in T.subterms(t) if x[0] == 'idx' and x[1].startswith(pre)}, key=T.key)


def judge_opt(ctx, con, it, o, want, leaves, rule='objective', grad='gradient', need_grad=None):
    """the objective of one optimiser call is want (a term in the leaves) up to a positive factor and an offset; its gradient matches"""
    if o.fails:
        ctx.bad(rule, con, 'the objective always fails at valid parameters: ' + str(o.fails[0]))
        return
    if not o.outs:
        ctx.bad(rule, con, 'the objective cannot be evaluated at a generic point')
        return
    for r in o.outs:
        s, v = r['st'], r['val']
        if not I.is_term(v):
            e = flat(it, s, v)
            a = it.arr(s, v)
            if e is not None and len(e) == 1:
                v = e[0]
            elif a is not None and a[0] == ():
                v = a[1](())
        if not I.is_term(v):
            ctx.undecided(rule, con, 'objective value not modelled')
            continue
        if any(x[0] == 'idx' and x[1] == 'q%d' % o.k for x in T.subterms(v)):
            ctx.bad(rule, con, 'the objective depends on the arguments of an earlier evaluation: ' + short(v))
            continue
        a = Fraction(1)
        ab = affine(v, want, leaves)
        if ab is False:
            ctx.bad(rule, con, 'objective is %s ; required %s up to a positive factor and an offset' % (short(v), short(want)))
            continue
        if ab is None:
            compare(ctx, rule, con, v, want)
        else:
            a, b = ab
            if a <= 0:
                ctx.bad(rule, con, 'the objective is the negative of what should be minimised: ' + short(v))
                continue
            w = T.scale(want, a)
            if abs(b) > 1e-9:
                v = T.sub(v, T.num(Fraction(b).limit_denominator(10**6)))
            if abs(b) > 1e-9 and equal(v, w) is not True:
                ctx.ok(rule, con, 'up to a constant')
            else:
                compare(ctx, rule, con, v, w, note='%d samples' % o.m)
        jac = o.kw.get('jac')
        uses = jac is not None and jac != T.FALSE
        if jac == T.TRUE and not r.get('pair'):
            ctx.bad(grad, con, 'a gradient is announced to the optimiser but the objective returns only its value')
            continue
        if r.get('pair') and not uses:
            ctx.bad(grad, con, 'the objective returns its gradient but the optimiser is not told so')
            continue
        if uses:
            g = flat(it, s, r['grad']) if r['grad'] is not None else None
            if g is None:
                ctx.undecided(grad, con, 'gradient not modelled')
                continue
            if len(g) != len(leaves):
                ctx.bad(grad, con, 'gradient has %d elements for %d parameters' % (len(g), len(leaves)))
                continue
            for i, dw in enumerate(gradient(want, leaves)):
                compare(ctx, grad, '%s, derivative %d' % (con, i), g[i], T.scale(dw, a), note='derivative of the objective')
        elif need_grad:
            ctx.bad(grad, con, 'derivatives are available but not used')
        if r.get('hess') is not None:
            H = it.arr(s, r['hess'])
            if H is None:
                ctx.undecided('hessian', con, 'Hessian not modelled')
                continue
            for i, j in itertools.product(range(len(leaves)), repeat=2):
                compare(ctx, 'hessian', '%s, [%d,%d]' % (con, i, j), H[1]((num(i), num(j))), T.scale(diff.d(diff.d(want, leaves[i]), leaves[j]), a))


def lse1(x):
    """log(1+exp(x))"""
    return ('fn', 'log', T.add(T.ONE, T.exp(x)))


# ---------------------------------------------------------------- helper factories
def ising_helpers(ctx, n):
    con = 'coniii/utils.py:define_pseudo_ising_helper_functions n=%d' % n
    it, st, (gm, co) = closures(ctx, UT, 'define_pseudo_ising_helper_functions', [num(n)])
    ps = pairs(n)
    X = it.sym_array(st, 'X', (num(2), num(n)), 'int')
    par = it.sym_array(st, 'm', (num(n+len(ps)),))
    for r in range(n):
        others = [j for j in range(n) if j != r]
        pos = [r]+[n+ps.index((min(j, r), max(j, r))) for j in others]
        for s, v in it.call(st.copy(), gm, [num(r), par], {}, None):
            c = '%s, r=%d, get_multipliers_r' % (con, r)
            two = one_of(it, s, v, 2)
            if two is None:
                ctx.undecided('helpers', c, 'not a pair')
                continue
            mr, ix = flat(it, s, two[0]), it.items_of(s, two[1])
            if mr is None or ix is None:
                ctx.undecided('helpers', c, 'not modelled')
                continue
            for s2, v2 in it.call(s.copy(), co, [num(r), X], {}, None):
                O = Run(it, s2, v2)
                if O.dims() is None or O.dims()[1] is None:
                    ctx.undecided('helpers', c, 'observables not modelled')
                    continue
                d = O.dims()[1]
                if d != len(mr) or len(ix) != len(mr):
                    ctx.bad('helpers', c, '%d multipliers, %d indices, %d observables' % (len(mr), len(ix), d))
                    continue
                # the energy terms with spin r, each once: sum_k m_r[k] * O[k]
                for a in range(2):
                    e = T.addn([T.mul(mr[k], O[a, k]) for k in range(d)])
                    w = T.addn([T.mul(idx('m', r), idx('X', a, r))] + [T.mul(idx('m', q), T.mul(idx('X', a, j), idx('X', a, r))) for j, q in zip(others, pos[1:])])
                    compare(ctx, 'helpers', '%s, r=%d, sample %d' % (con, r, a), e, w, note='all terms with spin r')
                for k in range(d):
                    ik = T.int_val(ix[k])
                    if ik is None:
                        ctx.undecided('helpers', c, 'index not fixed')
                    else:
                        compare(ctx, 'helpers', '%s, r=%d, index %d' % (con, r, k), mr[k], idx('m', ik))


def potts_terms(n, k, r, state, X, ps):
    """energy terms of spin r in the given state, neighbours from the concrete row X"""
    out = [idx('m', r+n*state)]
    for j in range(n):
        if j != r and X[j] == state:
            out.append(idx('m', n*k+ps.index((min(j, r), max(j, r)))))
    return T.addn(out)


def potts_helpers(ctx, n, k):
    con = 'coniii/utils.py:define_pseudo_potts_helper_functions n=%d k=%d' % (n, k)
    it, st, (gm, co) = closures(ctx, UT, 'define_pseudo_potts_helper_functions', [num(n), num(k)])
    ps = pairs(n)
    rows = list(itertools.product(range(k), repeat=n))
    if len(rows) > 40:
        rows = rows[::len(rows)//27]
    X = const_mat(it, st, rows)
    par = it.sym_array(st, 'm', (num(n*k+len(ps)),))
    for r in range(n):
        for s, v in it.call(st.copy(), gm, [num(r), par], {}, None):
            c = '%s, r=%d' % (con, r)
            two = one_of(it, s, v, 2)
            mr = flat(it, s, two[0]) if two else None
            ix = it.items_of(s, two[1]) if two else None
            if mr is None or ix is None:
                ctx.undecided('helpers', c, 'multipliers not modelled')
                continue
            for q in range(min(len(ix), len(mr))):
                if T.int_val(ix[q]) is None:
                    ctx.undecided('helpers', c, 'index not fixed')
                else:
                    compare(ctx, 'helpers', '%s, index %d' % (c, q), mr[q], idx('m', T.int_val(ix[q])))
            if len(ix) != len(mr):
                ctx.bad('helpers', c, '%d multipliers with %d indices' % (len(mr), len(ix)))
            for s2, v2 in it.call(s.copy(), co, [num(r), X], {}, None):
                three = one_of(it, s2, v2, 3)
                if three is None:
                    ctx.undecided('helpers', c, 'observables not modelled')
                    continue
                O = Run(it, s2, three[0])
                oth = it.items_of(s2, three[1])
                S = Run(it, s2, three[2])
                if O.dims() is None or oth is None or S.dims() is None:
                    ctx.undecided('helpers', c, 'observables not modelled')
                    continue
                oth = [Run(it, s2, x) for x in oth]
                if len(oth) != k-1 or S.dims() != (len(rows), k-1):
                    ctx.bad('helpers', c, 'alternative states: %d arrays, states of shape %s' % (len(oth), S.dims()))
                    continue
                for a, row in enumerate(rows):
                    e = T.addn([T.mul(mr[q], O[a, q]) for q in range(len(mr))])
                    compare(ctx, 'helpers', '%s, state %s' % (c, row), e, potts_terms(n, k, r, row[r], row, ps))
                    seen = []
                    for b in range(k-1):
                        alt = T.int_val(S[a, b])
                        if alt is None:
                            ctx.undecided('helpers', c, 'alternative state not fixed')
                            continue
                        seen.append(alt)
                        e = T.addn([T.mul(mr[q], oth[b][a, q]) for q in range(len(mr))])
                        compare(ctx, 'helpers', '%s, state %s, alternative %d' % (c, row, alt), e, potts_terms(n, k, r, alt, row, ps))
                    if len(seen) == k-1 and sorted(seen+[row[r]]) != list(range(k)):
                        ctx.bad('helpers', '%s, state %s' % (c, row), 'alternatives of state %d are %s' % (row[r], seen))


# ---------------------------------------------------------------- Ising pseudolikelihood
SAMPLES = {2: [[1, 1], [-1, 1], [1, -1], [-1, -1], [1, 1], [1, -1], [1, 1]],
           3: [list(x) for x in itertools.product((-1, 1), repeat=3)] + [[1, 1, -1], [1, 1, -1], [-1, 1, 1]],
           4: [[1, 1, 1, 1], [1, -1, 1, -1], [-1, -1, 1, 1], [1, -1, -1, 1], [-1, 1, 1, 1], [-1, -1, -1, -1], [1, 1, 1, -1], [1, 1, 1, -1]],
           5: [[1, 1, -1, 1, 1], [-1, 1, 1, -1, 1], [1, -1, 1, 1, -1], [1, -1, -1, -1, -1]]}


def solver(ctx, it, st, cls, rows, kw=None):
    res = build(ctx, it, st, SOL, cls, [const_mat(it, st, rows)], dict(kw or {}, iprint=T.FALSE))
    if len(res) != 1:
        raise Undecided('%d ways through the constructor of %s' % (len(res), cls))
    return res[0]


def run_solve(ctx, it, st, o, name, args=(), kw=None):
    f = member(it, st, o, name)
    it.raised = []
    npc, nev = len(st.pc), len(st.events)
    con = 'coniii/solvers.py:%s' % name
    res = it.call(st, f, list(args), dict(kw or {}), None)
    if not res and it.raised and all(len(s.pc) == npc for s, _ in it.raised):
        ctx.bad('result', con, 'always raises %s on valid input' % (it.raised[0][1][1],))
        return []
    for s, _ in res:
        o = [e[1] for e in s.events[nev:] if e[0] == 'oob']
        if o and len(s.pc) == npc:
            ctx.bad('result', con, 'an element outside its array is accessed: ' + o[0])
    if not res:
        raise Undecided('%s does not return' % name)
    ctx.analysed.add('%s:%s' % (SOL, getattr(f, 'name', name)))
    return res


def cond_ll(rows, r, h, J):
    """negative log conditional likelihood of spin r; h a term, J[j] terms"""
    out = []
    for x in rows:
        f = T.addn([h]+[T.scale(J[j], x[j]) for j in J])
        out.append(lse1(T.scale(f, -2*x[r])))
    return T.addn(out)


def result_vec(it, s, v):
    return flat(it, s, v)


def solve_ising(ctx, n, method, kw):
    con = 'coniii/solvers.py:Pseudo.%s n=%d%s' % (method, n, ''.join(', '+k for k in kw))
    it = engine(ctx)
    st = I.State()
    rows = SAMPLES[n]
    st, o = solver(ctx, it, st, 'Pseudo', rows)
    ps = pairs(n)
    args = {}
    for k in kw:
        if k == 'initial_guess':
            args[k] = it.sym_array(st, 'g', (num(n+len(ps)),))
        else:
            args[k] = T.TRUE
    for s, v in run_solve(ctx, it, st, o, method, [], args):
        if s.pc:
            ctx.undecided('objective', con, 'depends on ' + short(s.pc[0]))
            continue
        os = opts(s)
        if 'full_output' in kw:
            two = one_of(it, s, v, 2)
            if two is None:
                ctx.bad('result', con, 'full output is not a pair of parameters and optimiser output')
                continue
            v = two[0]
        out = flat(it, s, v)
        if out is None:
            ctx.undecided('result', con, 'returned parameters not modelled')
            continue
        if len(out) != n+len(ps):
            ctx.bad('result', con, '%d parameters returned instead of %d' % (len(out), n+len(ps)))
            continue
        if len(os) == 1:
            # one optimisation of the sum over the spins
            q = os[0]
            if q.m != n+len(ps):
                ctx.bad('objective', con, 'the optimiser works on %d parameters instead of %d' % (q.m, n+len(ps)))
                continue
            P = [q.p(i) for i in range(q.m)]
            want = T.addn([cond_ll(rows, r, P[r], {j: P[n+ps.index((min(j, r), max(j, r)))] for j in range(n) if j != r}) for r in range(n)])
            judge_opt(ctx, con, it, q, want, P)
            for i in range(len(out)):
                compare(ctx, 'result', '%s, parameter %d' % (con, i), out[i], q.sol(i), note='the optimum in the common order')
        elif len(os) == n:
            role = {}
            good = True
            for r in range(n):
                x = out[r]
                if x[0] == 'P' and len(x[1]) == 1 and len(x[1][0][0]) == 1:
                    x = x[1][0][0][0][0]
                if out[r] != T.from_poly({((x, 1),): Fraction(1)}) or x[0] != 'idx' or not x[1].startswith('sol'):
                    good = False
                    if not I.is_term(out[r]) or any(y[0] == 'opaque' for y in T.subterms(out[r])):
                        ctx.undecided('result', con, 'field %d not modelled' % r)
                    else:
                        ctx.bad('result', con, 'field %d is %s instead of the optimum of the conditional likelihood' % (r, short(out[r])))
                    continue
                role[r] = (int(x[1][3:]), T.int_val(x[2][0]))
            if not good:
                continue
            if len({k for k, _ in role.values()}) != n:
                ctx.bad('result', con, 'the fields are not taken from the optimum of the own conditional likelihood')
                continue
            byk = {k: (r, q) for r, (k, q) in role.items()}
            cpl = {}
            for c, (i, j) in enumerate(ps):
                t = out[n+c]
                p = T.to_poly(t)
                terms = []
                for m, cf in p.items():
                    if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'idx' and m[0][0][1].startswith('sol'):
                        terms.append((int(m[0][0][1][3:]), T.int_val(m[0][0][2][0]), cf))
                    else:
                        terms = None
                        break
                cc = '%s, coupling (%d,%d)' % (con, i, j)
                if terms is None:
                    ctx.undecided('result', cc, short(t))
                    good = False
                    continue
                if len(terms) != 2 or any(cf != Fraction(1, 2) for _, _, cf in terms) or {byk.get(k, (None,))[0] for k, _, _ in terms} != {i, j}:
                    ctx.bad('result', cc, 'is %s instead of the mean of the two estimates of this coupling' % short(t))
                    good = False
                    continue
                ctx.ok('result', cc, 'mean of both estimates')
                for k, q, _ in terms:
                    r = byk[k][0]
                    cpl[(r, j if r == i else i)] = q
            if not good:
                continue
            for k, q in enumerate(os):
                r = byk[k][0]
                P = [q.p(i) for i in range(q.m)]
                want = cond_ll(rows, r, q.p(byk[k][1]), {j: q.p(cpl[(r, j)]) for j in range(n) if j != r})
                judge_opt(ctx, '%s, spin %d' % (con, r), it, q, want, P)
        else:
            ctx.undecided('objective', con, '%d optimisations' % len(os))


def deprecated(ctx, n):
    con = 'coniii/solvers.py:Pseudo._solve_ising_deprecated n=%d' % n
    it = engine(ctx)
    rows = SAMPLES[n]
    st, o = solver(ctx, it, I.State(), 'Pseudo', rows)
    ps = pairs(n)
    for s, v in run_solve(ctx, it, st, o, '_solve_ising_deprecated'):
        os = opts(s)
        out = flat(it, s, v)
        if out is None or len(os) != n:
            ctx.undecided('result', con, 'not modelled')
            continue
        # parameters of optimisation r: element j multiplies 2*x_j (x in {0,1}), element r the constant
        for k, q in enumerate(os):
            P = [q.p(i) for i in range(q.m)]
            want = []
            for x in rows:
                b = [(y+1)//2 for y in x]
                f = T.addn([T.scale(P[j], 1 if j == k else 2*b[j]) for j in range(n)])
                want.append(lse1(T.scale(f, x[k])))
            judge_opt(ctx, '%s, spin %d' % (con, k), it, q, T.addn(want), P)
        # result: p(x_r=0) = logistic(f) in {0,1}, so field of r is -f0, couplings -2*(mean); then converted to {-1,1}
        sol = [[q.sol(i) for i in range(n)] for q in os]
        h = [T.neg(sol[r][r]) for r in range(n)]
        J = {(i, j): T.neg(T.add(sol[i][j], sol[j][i])) for i, j in ps}
        H = [T.addn([T.scale(h[i], Fraction(1, 2))]+[T.scale(J[p], Fraction(1, 4)) for p in ps if i in p]) for i in range(n)]
        want = H+[T.scale(J[p], Fraction(1, 4)) for p in ps]
        for i in range(len(want)):
            compare(ctx, 'result', '%s, parameter %d' % (con, i), out[i], want[i])


def cond_functions(ctx, n):
    """the conditional likelihood functions on their own, {0,1} states"""
    it = engine(ctx)
    rows = SAMPLES[n]
    st, o = solver(ctx, it, I.State(), 'Pseudo', rows)
    b = [[(y+1)//2 for y in x] for x in rows]
    for r in range(n):
        P = [idx('J', i) for i in range(n)]
        want = T.addn([lse1(T.scale(T.addn([T.scale(P[j], 1 if j == r else 2*x[j]) for j in range(n)]), 2*x[r]-1)) for x in b])
        for name, chk in (('cond_log_likelihood', None), ('cond_jac', 1), ('cond_hess', 2)):
            con = 'coniii/solvers.py:Pseudo.%s n=%d, r=%d' % (name, n, r)

            def one(name=name, chk=chk, con=con):
                s0 = st.copy()
                Xb = const_mat(it, s0, b)
                for s, v in run_solve(ctx, it, s0, o, name, [num(r), Xb, it.sym_array(s0, 'J', (num(n),))]):
                    if chk is None:
                        compare(ctx, 'objective', con, v, T.neg(want))
                    elif chk == 1:
                        expect_vec(ctx, 'gradient', con, it, s, v, gradient(want, P))
                    else:
                        expect_mat(ctx, 'hessian', con, it, s, v, [[diff.d(diff.d(want, x), y) for y in P] for x in P])
            ctx.guard('objective', con, one)


# ---------------------------------------------------------------- the module of functions
PI = 'coniii.pseudo_inverse_ising'
FIGHTS = {2: [[0, 1], [1, 1], [1, 0], [1, 1]], 3: [[0, 1, 1], [1, 1, 1], [0, 0, 1], [1, 0, 1], [1, 1, 0]]}


def module_ll(b, r, P, least):
    """negative log conditional likelihood of spin r; a sample that would be too small without r says nothing about r"""
    n = len(P)
    return T.addn([lse1(T.scale(T.addn([T.scale(P[j], 1 if j == r else 2*x[j]) for j in range(n)]), 2*x[r]-1)) for x in b if not (x[r] and sum(x) <= least)])


def module_functions(ctx, n, least):
    it = engine(ctx)
    b = [x for x in FIGHTS[n] if sum(x) >= least]
    kw = {'minSize': num(least)} if least else {}
    for r in range(n):
        P = [idx('J', i) for i in range(n)]
        want = module_ll(b, r, P, least)
        for name, chk in (('conditionalLogLikelihood', None), ('conditionalJacobian', 1), ('conditionalHessian', 2)):
            con = 'coniii/pseudo_inverse_ising.py:%s n=%d, r=%d%s' % (name, n, r, ' minSize=%d' % least if least else '')

            def one(name=name, chk=chk, con=con, r=r):
                st = I.State()
                args = [num(r), const_mat(it, st, b), it.sym_array(st, 'J', (num(n),))]
                outs = it.run(func(ctx.find(PI, name)), args, dict(kw), st)
                if outs and all(o[0] == 'raise' for _, o in outs):
                    return ctx.bad('objective', con, 'always raises %s' % (outs[0][1][1],))
                if not normal(outs):
                    raise Undecided('no path returns')
                for s, v in normal(outs):
                    if chk is None:
                        compare(ctx, 'objective', con, v, T.neg(want))
                    elif chk == 1:
                        expect_vec(ctx, 'gradient', con, it, s, v, gradient(want, P))
                    else:
                        expect_mat(ctx, 'hessian', con, it, s, v, [[diff.d(diff.d(want, x), y) for y in P] for x in P])
            ctx.guard('objective', con, one)
    con = 'coniii/pseudo_inverse_ising.py:pseudoLogLikelihood n=%d%s' % (n, ' minSize=%d' % least if least else '')
    st = I.State()
    args = [const_mat(it, st, b), sym_mat(it, st, 'J', n, diag=lambda i: idx('J', i, i))]
    outs = it.run(func(ctx.find(PI, 'pseudoLogLikelihood')), args, dict(kw), st)
    want = T.neg(T.addn([module_ll(b, r, [idx('J', min(r, j), max(r, j)) for j in range(n)], least) for r in range(n)]))
    if outs and all(o[0] == 'raise' for _, o in outs):
        return ctx.bad('objective', con, 'always raises %s' % (outs[0][1][1],))
    for s, v in normal(outs):
        compare(ctx, 'objective', con, v, want)


def module_solve(ctx, n, least):
    con = 'coniii/pseudo_inverse_ising.py:pseudoInverseIsing n=%d%s' % (n, ' minSize=%d' % least if least else '')
    it = engine(ctx)
    st = I.State()
    b = [x for x in FIGHTS[n] if sum(x) >= least]
    outs = it.run(func(ctx.find(PI, 'pseudoInverseIsing')), [const_mat(it, st, FIGHTS[n])], {'minSize': num(least)} if least else {}, st)
    if outs and all(o[0] == 'raise' for _, o in outs):
        return ctx.bad('result', con, 'always raises %s' % (outs[0][1][1],))
    if not normal(outs):
        raise Undecided('no path returns')
    for s, v in normal(outs):
        os = opts(s)
        if len(os) != n:
            raise Undecided('%d optimisations' % len(os))
        for r, q in enumerate(os):
            P = [q.p(i) for i in range(q.m)]
            if q.m != n:
                ctx.bad('objective', con, '%d parameters for spin %d' % (q.m, r))
                return
            judge_opt(ctx, '%s, spin %d' % (con, r), it, q, module_ll(b, r, P, least), P)
        sol = [[q.sol(i) for i in range(n)] for q in os]
        expect_mat(ctx, 'result', con, it, s, v, [[T.scale(T.add(sol[i][j], sol[j][i]), Fraction(1, 2)) for j in range(n)] for i in range(n)])


# ---------------------------------------------------------------- Potts pseudolikelihood
POTTS = {(2, 3): [[0, 1], [2, 2], [1, 1], [0, 2], [0, 0], [0, 1], [2, 1]], (3, 3): [[0, 1, 1], [2, 2, 2], [1, 0, 2], [0, 2, 0]],
         (2, 4): [[0, 3], [1, 1], [2, 3], [3, 3]], (3, 2): [[0, 1, 1], [1, 1, 1], [0, 0, 1], [1, 0, 1]]}


def solve_potts(ctx, n, k, kw):
    con = 'coniii/solvers.py:Pseudo._solve_potts n=%d k=%d%s' % (n, k, ''.join(', '+x for x in kw))
    it = engine(ctx)
    st = I.State()
    rows = POTTS[(n, k)]
    ps = pairs(n)
    N = n*k+len(ps)
    it, st, (gm, co) = closures(ctx, UT, 'define_pseudo_potts_helper_functions', [num(n), num(k)], st=st, it=it)
    it, st, (_, obs, _) = closures(ctx, UT, 'define_potts_helper_functions', [num(k)], st=st, it=it)
    mres = build(ctx, it, st, 'coniii.models', 'Potts3', [it.sym_array(st, 'm0', (num(n*3+len(ps)),))], {})
    st, model = mres[0]
    st, o = solver(ctx, it, st, 'Pseudo', rows, {'model': model, 'calc_observables': obs, 'get_multipliers_r': gm, 'calc_observables_r': co, 'k': num(k)})
    args = {}
    for x in kw:
        if x == 'cost':
            def cost(it, st, a, kw, node, f=None):
                return T.addn([T.scale(T.mul(x, x), i+2) for i, x in enumerate(flat(it, st, a[0]))])

            def slope(it, st, a, kw, node, f=None):
                xs = flat(it, st, a[0])
                return it.new_arr(st, (num(len(xs)),), vec([T.scale(x, 2*(i+2)) for i, x in enumerate(xs)]), 'float')
            args['cost_fcn'] = I.Extern('the cost function', cost)
            args['cost_fcn_jac'] = I.Extern('its derivative', slope)
        elif x == 'full_output':
            args[x] = T.TRUE
        else:
            args[x] = it.sym_array(st, 'g', (num(N),))
    for s, v in run_solve(ctx, it, st, o, 'solve', [], args):
        os = opts(s)
        if 'full_output' in kw:
            two = one_of(it, s, v, 2)
            if two is None:
                ctx.bad('result', con, 'full output is not a pair')
                continue
            v = two[0]
        out = flat(it, s, v)
        if len(os) != 1 or out is None:
            ctx.undecided('objective', con, '%d optimisations' % len(os))
            continue
        q = os[0]
        if q.m != N:
            ctx.bad('objective', con, 'the optimiser works on %d parameters instead of %d' % (q.m, N))
            continue
        P = [q.p(i) for i in range(N)]
        want = []
        for row in rows:
            for r in range(n):
                def e(state):
                    return T.addn([P[r+n*state]]+[P[n*k+ps.index((min(j, r), max(j, r)))] for j in range(n) if j != r and row[j] == state])
                want.append(('fn', 'log', T.addn([T.exp(T.sub(e(z), e(row[r]))) for z in range(k)])))
        if 'cost' in kw:
            want += [T.scale(T.mul(x, x), i+2) for i, x in enumerate(P)]
        judge_opt(ctx, con, it, q, T.addn(want), P)
        for i in range(min(N, len(out))):
            compare(ctx, 'result', '%s, parameter %d' % (con, i), out[i], q.sol(i))
        if len(out) != N:
            ctx.bad('result', con, '%d parameters returned instead of %d' % (len(out), N))


# ---------------------------------------------------------------- minimum probability flow
MPFS = {2: [[1, 1], [-1, 1], [1, 1]], 3: [[1, 1, -1], [-1, -1, -1], [1, 1, -1], [1, 1, 1], [-1, 1, 1], [1, 1, -1]],
        4: [[1, 1, -1, 1], [-1, -1, -1, 1], [1, 1, -1, 1], [-1, 1, 1, -1]]}


def flow(rows01, P, n, keep):
    """(1/N) sum over samples, over their kept one-flip neighbours, exp((E(x)-E(y))/2); E = -P.obs in {0,1}"""
    ps = pairs(n)

    def e(x):
        return T.neg(T.addn([T.scale(P[i], x[i]) for i in range(n)]+[T.scale(P[n+c], x[i]*x[j]) for c, (i, j) in enumerate(ps)]))
    out = []
    for x in rows01:
        for i in range(n):
            y = tuple(x[:i])+(1-x[i],)+tuple(x[i+1:])
            if keep(y):
                out.append(T.exp(T.scale(T.sub(e(x), e(y)), Fraction(1, 2))))
    return T.scale(T.addn(out), Fraction(1, len(rows01)))


def mpf(ctx, n, uselog, grad, allc, kw=()):
    con = 'coniii/solvers.py:MPF.solve n=%d, %s, %s, %s%s' % (n, 'log' if uselog else 'no log', 'gradient' if grad else 'no gradient',
                                                              'all neighbours' if allc else 'non-data neighbours', ''.join(', '+x for x in kw))
    it = engine(ctx)
    st = I.State()
    rows = MPFS[n]
    ps = pairs(n)
    N = n+len(ps)
    k = {}
    if grad:
        r = ctx.find(UT, 'calc_de')
        k['calc_de'] = func(r)
    st, o = solver(ctx, it, st, 'MPF', rows, k)
    args = {'uselog': T.TRUE if uselog else T.FALSE, 'all_connected': T.TRUE if allc else T.FALSE}
    if 'initial_guess' in kw:
        args['initial_guess'] = it.sym_array(st, 'g', (num(N),))
    if 'full_output' in kw:
        args['full_output'] = T.TRUE
    b = [tuple((y+1)//2 for y in x) for x in rows]
    keep = (lambda y: True) if allc else (lambda y: y not in b)
    for s, v in run_solve(ctx, it, st, o, 'solve', [], args):
        if s.pc:
            ctx.undecided('flow', con, 'depends on ' + short(s.pc[0]))
            continue
        os = opts(s)
        if 'full_output' in kw:
            two = one_of(it, s, v, 2)
            if two is None:
                ctx.bad('result', con, 'full output is not a pair')
                continue
            v = two[0]
        out = flat(it, s, v)
        if len(os) != 1 or out is None:
            ctx.undecided('flow', con, '%d optimisations' % len(os))
            continue
        q = os[0]
        if q.m != N:
            ctx.bad('flow', con, 'the optimiser works on %d parameters instead of %d' % (q.m, N))
            continue
        P = [q.p(i) for i in range(N)]
        want = flow(b, P, n, keep)
        if uselog:
            want = ('fn', 'log', want)
        judge_opt(ctx, con, it, q, want, P, rule='flow', need_grad=grad)
        h, J = [q.sol(i) for i in range(n)], [q.sol(n+i) for i in range(len(ps))]
        res = [T.addn([T.scale(h[i], Fraction(1, 2))]+[T.scale(J[c], Fraction(1, 4)) for c, p in enumerate(ps) if i in p]) for i in range(n)]
        res += [T.scale(x, Fraction(1, 4)) for x in J]
        att = it.getattr(s, o, 'multipliers')
        for where, vals in (('returned', out), ('stored', flat(it, s, att))):
            if vals is None:
                ctx.undecided('result', con, where+' parameters not modelled')
                continue
            for i in range(N):
                compare(ctx, 'result', '%s, %s parameter %d' % (con, where, i), vals[i], res[i], note='optimum in the {-1,1} basis')
        if 'initial_guess' in kw:
            g = [idx('g', i) for i in range(N)]
            st0 = [T.addn([T.scale(g[i], 2)]+[T.scale(g[n+c], -2) for c, p in enumerate(ps) if i in p]) for i in range(n)]+[T.scale(g[n+c], 4) for c in range(len(ps))]
            for i in range(N):
                compare(ctx, 'start', '%s, start %d' % (con, i), q.x0[i], st0[i], note='initial guess in the {0,1} basis')


def neighbours(ctx, fn, n, sym):
    con = 'coniii/utils.py:%s n=%d' % (fn, n)

    def build_(it, st):
        return [it.sym_array(st, 's', (num(n),), 'int')], {}

    def judge(it, s, v):
        want = [[(T.neg(idx('s', j)) if sym else T.sub(T.ONE, idx('s', j))) if i == j else idx('s', j) for j in range(n)] for i in range(n)]
        expect_mat(ctx, 'neighbours', con, it, s, v, want)
    evaluate(ctx, 'neighbours', con, UT, fn, build_, judge)


def derivative(ctx, n):
    ps = pairs(n)
    for i in range(n+len(ps)):
        con = 'coniii/utils.py:calc_de n=%d, parameter %d' % (n, i)

        def build_(it, st, i=i):
            return [it.sym_array(st, 'X', (num(2), num(n)), 'int'), num(i)], {}

        def judge(it, s, v, i=i, con=con):
            w = [T.neg(idx('X', a, i) if i < n else T.mul(idx('X', a, ps[i-n][0]), idx('X', a, ps[i-n][1]))) for a in range(2)]
            expect_vec(ctx, 'derivative', con, it, s, v, w)
        ctx.guard('derivative', con, evaluate, ctx, 'derivative', con, UT, 'calc_de', build_, judge)


def run(ctx):
    thorough = ctx.tier == 'thorough'
    ctx.rule('helpers', 'the multipliers and observables returned for spin r pair up to exactly the energy terms that contain spin r, for its state and every alternative state; the returned indices are their positions in the common parameter order')
    ctx.rule('objective', 'what is handed to the optimiser is the negative log conditional likelihood of the samples up to a positive factor and an offset, and does not change between evaluations')
    ctx.rule('flow', 'what is handed to the optimiser is the probability flow from the data states to their one-flip neighbours (or its logarithm): (1/N) sum exp((E(x)-E(y))/2)')
    ctx.rule('gradient', 'the gradient handed to the optimiser is the derivative of the objective by each parameter')
    ctx.rule('hessian', 'a Hessian handed to the optimiser is the second derivative of the objective')
    ctx.rule('result', 'returned and stored parameters are the optimum (couplings estimated twice are averaged), in the {-1,1} basis and the common order')
    ctx.rule('start', 'an initial guess is converted to the basis of the optimisation')
    ctx.rule('neighbours', 'the neighbours of a state are exactly its one-flip states')
    ctx.rule('derivative', 'the energy derivative by a parameter is minus its observable')
    for n in (2, 3, 4, 5) + ((6, 7) if thorough else ()):
        ctx.guard('helpers', 'define_pseudo_ising_helper_functions n=%d' % n, ising_helpers, ctx, n)
    for n, k in ((2, 2), (2, 3), (3, 3), (2, 4), (4, 2)) + (((4, 3), (3, 5)) if thorough else ()):
        ctx.guard('helpers', 'define_pseudo_potts_helper_functions n=%d k=%d' % (n, k), potts_helpers, ctx, n, k)
    for n in (2, 3, 4) + ((5,) if thorough else ()):
        ctx.guard('objective', 'Pseudo.solve n=%d' % n, solve_ising, ctx, n, 'solve', ())
        ctx.guard('objective', 'Pseudo.solve n=%d general' % n, solve_ising, ctx, n, 'solve', ('force_general',))
    ctx.guard('objective', 'Pseudo.solve guess', solve_ising, ctx, 3, 'solve', ('initial_guess', 'full_output'))
    ctx.guard('objective', 'Pseudo.solve general guess', solve_ising, ctx, 3, 'solve', ('force_general', 'initial_guess', 'full_output'))
    for n in (2, 3):
        ctx.guard('objective', 'Pseudo.cond n=%d' % n, cond_functions, ctx, n)
        ctx.guard('objective', 'Pseudo._solve_ising_deprecated n=%d' % n, deprecated, ctx, n)
        for least in (0, 1, 2):
            ctx.guard('objective', 'pseudo_inverse_ising functions n=%d %d' % (n, least), module_functions, ctx, n, least)
            ctx.guard('objective', 'pseudoInverseIsing n=%d %d' % (n, least), module_solve, ctx, n, least)
    for n, k in ((2, 3), (3, 3), (2, 4), (3, 2)):
        ctx.guard('objective', 'Pseudo._solve_potts n=%d k=%d' % (n, k), solve_potts, ctx, n, k, ())
    ctx.guard('objective', 'Pseudo._solve_potts guess', solve_potts, ctx, 2, 3, ('initial_guess', 'full_output'))
    ctx.guard('objective', 'Pseudo._solve_potts cost', solve_potts, ctx, 2, 3, ('cost',))
    for n in (2, 3) + ((4,) if thorough else ()):
        for lg, gr, al in itertools.product((True, False), repeat=3):
            if n == 4 and not al:
                continue
            ctx.guard('flow', 'MPF.solve n=%d %s %s %s' % (n, lg, gr, al), mpf, ctx, n, lg, gr, al)
    ctx.guard('flow', 'MPF.solve guess', mpf, ctx, 3, True, True, True, ('initial_guess', 'full_output'))
    for fn, sym in (('adj', False), ('adj_sym', True)):
        for n in (1, 2, 3, 5):
            ctx.guard('neighbours', fn, neighbours, ctx, fn, n, sym)
    for n in (2, 3, 4, 5):
        ctx.guard('derivative', 'calc_de', derivative, ctx, n)
