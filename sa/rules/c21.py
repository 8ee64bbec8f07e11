"""Index, layout and enumeration functions are interpreted with every index (and symbolic contents) at fixed sizes, including the sizes next to
every constant the code compares with, and compared with their definition: the flat position of a pair, triple or quadruple is its
lexicographic rank, vectors and matrices of parameters convert without loss, and state enumerations list every state once in counting
order.  Truncated logarithms at exact powers are explored both ways, so a result may not rely on their rounding."""
import itertools
from .. import terms as T
from .. import interp as I
from ..project import Undecided
from .common import *

LEVEL = 'proof'
U = 'coniii.utils'
MF = 'coniii.mean_field_ising'
EN = 'coniii.enumerate'
PU, PM, PE = 'coniii/utils.py:', 'coniii/mean_field_ising.py:', 'coniii/enumerate.py:'


def run(ctx):
    ctx.rule('L1', 'the flat index of an index tuple is its lexicographic rank, and the inverse map returns the tuple')
    ctx.rule('L2', 'vector and matrix forms of the parameters contain each other\'s elements in the common order')
    ctx.rule('L3', 'diagonal replacement changes the diagonal and nothing else')
    ctx.rule('L4', 'state enumerations list every state exactly once in counting order')
    ctx.rule('L5', 'flattening a triangle and unflattening it are inverse')
    ctx.rule('L6', 'cluster sub-matrices are taken from and put back to the rows and columns of the cluster')
    deep = ctx.tier == 'thorough'

    def sizes(base, *quals, cap=20):
        return sorted(set(base) | {c for c in cutoffs([r[2] for q in quals for r in [ctx.find(U, q, False)] if r], cap) if c >= 2})
    for n in sizes(range(2, 15 if deep else 12), 'sub_to_ind'):
        ctx.guard('L1', PU + 'sub_to_ind n=%d' % n, sub2ind, ctx, n)
    for n in sizes(range(2, 13 if deep else 10), 'ind_to_sub', cap=12):
        ctx.guard('L1', PU + 'ind_to_sub n=%d' % n, ind2sub, ctx, n)
    for n in sizes((3, 4, 5, 6, 7) + ((8, 9) if deep else ()), 'unravel_index', cap=8):
        for k in (1, 2, 3, 4, 5):
            if k <= n:
                ctx.guard('L1', PU + 'unravel_index n=%d order %d' % (n, k), unravel, ctx, n, k)
    for n in sizes(range(2, 13 if deep else 10), 'vec2mat', 'mat2vec', 'replace_diag', 'zero_diag', cap=10):
        for sep in (False, True):
            ctx.guard('L2', PU + 'vec2mat n=%d%s' % (n, ' separate_fields' if sep else ''), vec2mat, ctx, n, sep)
        ctx.guard('L2', PU + 'mat2vec n=%d' % n, mat2vec, ctx, n)
        ctx.guard('L3', PU + 'replace_diag n=%d' % n, rdiag, ctx, U, 'replace_diag', PU, n, True)
        ctx.guard('L3', PU + 'zero_diag n=%d' % n, rdiag, ctx, U, 'zero_diag', PU, n, False)
        ctx.guard('L3', PM + 'replaceDiag n=%d' % n, rdiag, ctx, MF, 'replaceDiag', PM, n, True)
        ctx.guard('L3', PM + 'zeroDiag n=%d' % n, rdiag, ctx, MF, 'zeroDiag', PM, n, False)
        ctx.guard('L5', PM + 'symmetrizeUsingUpper n=%d' % n, symm, ctx, n)
        ctx.guard('L5', PM + 'aboveDiagFlat n=%d' % n, flat, ctx, n)
        ctx.guard('L6', PM + 'cooccurrence_matrix n=%d' % n, cooc, ctx, n)
    for cl in ((0, 2), (1, 2), (2, 0, 3), (3,), (0, 1, 2, 3)):
        ctx.guard('L6', PM + 'coocCluster %s' % (cl,), cluster, ctx, cl, 4)
    for n in sizes(range(1, 7 if deep else 6), 'bin_states', 'xbin_states', cap=6):
        for sym in (False, True):
            for q in ('bin_states', 'xbin_states'):
                ctx.guard('L4', PU + '%s n=%d sym=%s' % (q, n, sym), bins, ctx, q, n, sym)
    for base in (2, 3, 4, 9, 10, 11, 12, 16, 35, 36):
        ctx.guard('L4', PU + 'base_repr base %d' % base, baserepr, ctx, base, deep)
    for n, k in ((1, 2), (2, 2), (3, 2), (2, 3), (1, 5), (2, 11), (1, 36)):
        ctx.guard('L4', PU + 'xpotts_states n=%d k=%d' % (n, k), potts, ctx, n, k)
    for n in range(2, 7):
        for k in range(1, n + 1):
            ctx.guard('L1', PE + 'get_nidx(%d,%d)' % (k, n), nidx, ctx, k, n)


def scalar(ctx, rule, con, mod, qual, args, want, what):
    def judge(it, s, v):
        g = c_scalar(it, s, v)
        if g is None:
            ctx.undecided(rule, con, 'value not modelled')
            return
        k = T.int_val(g) if I.is_term(g) else None
        if k is None:
            compare(ctx, rule, con, g, num(want))
        else:
            ctx.expect(rule, con, k == want, '%s is %d instead of %d' % (what, k, want))
    evaluate(ctx, rule, con, mod, qual, lambda it, st: (args(it, st), {}), judge)


def c_scalar(it, s, v):
    if I.is_term(v):
        return v
    a = it.arr(s, v)
    if a is not None and all(T.int_val(d) == 1 for d in a[0]):
        return a[1](tuple(T.ZERO for _ in a[0]))
    return None


def sub2ind(ctx, n):
    for k, (i, j) in enumerate(pairs(n)):
        for a, b in ((i, j), (j, i)):
            scalar(ctx, 'L1', PU + 'sub_to_ind(%d,%d,%d)' % (n, a, b), U, 'sub_to_ind', lambda it, st: [num(n), num(a), num(b)], k, 'flat index')
    r = ctx.find(U, 'sub_to_ind')
    it = I.Interp(ctx.proj, unroll=4096)
    outs = it.run(func(r), [num(n), num(1), num(1)], {}, I.State())
    ctx.expect('L1', PU + 'sub_to_ind(%d,1,1)' % n, True if all(o[0] == 'raise' for _, o in outs) else False if all(not s.pc for s, _ in outs) else None,
               'equal indices are accepted')


def ind2sub(ctx, n):
    for k, (i, j) in enumerate(pairs(n)):
        con = PU + 'ind_to_sub(%d,%d)' % (n, k)

        def judge(it, s, v):
            xs = one_of(it, s, v, 2)
            if xs is None:
                ctx.expect('L1', con, False if I.is_term(v) and v == T.NONE else None, 'returns nothing' if I.is_term(v) and v == T.NONE else 'value not modelled')
                return
            g = tuple(T.int_val(x) for x in xs)
            ctx.expect('L1', con, None if None in g else g == (i, j), 'returns %s instead of %s' % (g, (i, j)))
        evaluate(ctx, 'L1', con, U, 'ind_to_sub', lambda it, st: ([num(n), num(k)], {}), judge)


def unravel(ctx, n, k):
    for q, c in enumerate(itertools.combinations(range(n), k)):
        con = PU + 'unravel_index(%s,%d)' % (c, n)
        scalar(ctx, 'L1', con, U, 'unravel_index', lambda it, st: [I.Tup([num(x) for x in c]), num(n)], q, 'flat index')


def nidx(ctx, k, n):
    con = PE + 'get_nidx(%d,%d)' % (k, n)
    want = [[c[p] for c in itertools.combinations(range(n), k)] for p in range(k)]
    evaluate(ctx, 'L1', con, EN, 'get_nidx', lambda it, st: ([num(k), num(n)], {}),
             lambda it, s, v: expect_mat(ctx, 'L1', con, it, s, v, [[num(x) for x in row] for row in want]))


def theta(it, st, n):
    return it.new_arr(st, (num(n + n * (n - 1) // 2),), vec([idx('h', i) for i in range(n)] + [idx('J', i, j) for i, j in pairs(n)]), 'float')


def Jel(i, j):
    return idx('J', min(i, j), max(i, j))


def vec2mat(ctx, n, sep):
    con = PU + 'vec2mat n=%d%s' % (n, ' separate_fields' if sep else '')

    def judge(it, s, v):
        M = [[(T.ZERO if sep else idx('h', i)) if i == j else Jel(i, j) for j in range(n)] for i in range(n)]
        if sep:
            xs = one_of(it, s, v, 2)
            if xs is None:
                raise Undecided('returned value')
            expect_vec(ctx, 'L2', con + ' fields', it, s, xs[0], [idx('h', i) for i in range(n)])
            v = xs[1]
        expect_mat(ctx, 'L2', con + ' matrix', it, s, v, M)
    evaluate(ctx, 'L2', con, U, 'vec2mat', lambda it, st: ([theta(it, st, n)], {'separate_fields': T.TRUE} if sep else {}), judge)


def mat2vec(ctx, n):
    con = PU + 'mat2vec n=%d' % n
    evaluate(ctx, 'L2', con, U, 'mat2vec', lambda it, st: ([sym_mat(it, st, 'J', n, lambda i: idx('h', i))], {}),
             lambda it, s, v: expect_vec(ctx, 'L2', con, it, s, v, [idx('h', i) for i in range(n)] + [idx('J', i, j) for i, j in pairs(n)]))


def rdiag(ctx, mod, qual, P, n, given):
    con = P + '%s n=%d' % (qual, n)

    def build(it, st):
        return [it.sym_array(st, 'A', (num(n), num(n)))] + ([it.sym_array(st, 'd', (num(n),))] if given else []), {}
    want = [[(idx('d', i) if given else T.ZERO) if i == j else idx('A', i, j) for j in range(n)] for i in range(n)]
    evaluate(ctx, 'L3', con, mod, qual, build, lambda it, s, v: expect_mat(ctx, 'L3', con, it, s, v, want))


def symm(ctx, n):
    con = PM + 'symmetrizeUsingUpper n=%d' % n
    want = [[idx('A', min(i, j), max(i, j)) for j in range(n)] for i in range(n)]
    evaluate(ctx, 'L5', con, MF, 'symmetrizeUsingUpper', lambda it, st: ([it.sym_array(st, 'A', (num(n), num(n)))], {}),
             lambda it, s, v: expect_mat(ctx, 'L5', con, it, s, v, want))


def flat(ctx, n):
    """diagonal order: aboveDiagFlat, its index and its inverse"""
    for keep in (False, True):
        con = PM + 'aboveDiagFlat n=%d keepDiag=%s' % (n, keep)
        want = [idx('A', i, i + d) for d in range(0 if keep else 1, n) for i in range(n - d)]
        evaluate(ctx, 'L5', con, MF, 'aboveDiagFlat', lambda it, st: ([it.sym_array(st, 'A', (num(n), num(n)))], {'keepDiag': T.TRUE if keep else T.FALSE}),
                 lambda it, s, v: expect_vec(ctx, 'L5', con, it, s, v, want))
    pos = {(i, i + d): q for q, (d, i) in enumerate((d, i) for d in range(n) for i in range(n - d))}
    for (i, j), q in pos.items():
        scalar(ctx, 'L5', PM + 'diagFlatIndex(%d,%d,%d)' % (i, j, n), MF, 'diagFlatIndex', lambda it, st: [num(i), num(j), num(n)], q, 'flat index')
    for sym in (False, True):
        con = PM + 'unflatten n=%d symmetrize=%s' % (n, sym)

        def el(i, j):
            if i > j:
                return el(j, i) if sym else T.ZERO
            x = idx('f', pos[i, j])
            return T.div(x, num(2)) if sym and i != j else x
        evaluate(ctx, 'L5', con, MF, 'unflatten', lambda it, st: ([it.sym_array(st, 'f', (num(n * (n + 1) // 2),)), num(n)], {'symmetrize': T.TRUE} if sym else {}),
                 lambda it, s, v: expect_mat(ctx, 'L5', con, it, s, v, [[el(i, j) for j in range(n)] for i in range(n)]))


def cooc(ctx, n):
    S = 2
    for keep in (True, False):
        con = PM + 'cooccurrence_matrix n=%d keep_diag=%s' % (n, keep)
        want = [[T.div(T.addn([T.mul(idx('X', r, i), idx('X', r, j)) for r in range(S)]), num(S)) if j > i or (j == i and keep) else T.ZERO for j in range(n)] for i in range(n)]
        evaluate(ctx, 'L6', con, MF, 'cooccurrence_matrix', lambda it, st: ([it.sym_array(st, 'X', (num(S), num(n)))], {} if keep else {'keep_diag': T.FALSE}),
                 lambda it, s, v: expect_mat(ctx, 'L6', con, it, s, v, want))


def cluster(ctx, cl, n):
    m = len(cl)
    con = PM + 'coocCluster %s' % (cl,)

    def lst(it, st):
        return it.alloc(st, I.ListC([num(c) for c in cl]))
    evaluate(ctx, 'L6', con, MF, 'coocCluster', lambda it, st: ([it.sym_array(st, 'A', (num(n), num(n))), lst(it, st)], {}),
             lambda it, s, v: expect_mat(ctx, 'L6', con, it, s, v, [[idx('A', a, b) for b in cl] for a in cl]))
    con2 = PM + 'JfullFromCluster %s' % (cl,)
    want = [[idx('C', cl.index(i), cl.index(j)) if i in cl and j in cl else T.ZERO for j in range(n)] for i in range(n)]
    evaluate(ctx, 'L6', con2, MF, 'JfullFromCluster', lambda it, st: ([it.sym_array(st, 'C', (num(m), num(m))), lst(it, st), num(n)], {}),
             lambda it, s, v: expect_mat(ctx, 'L6', con2, it, s, v, want))


def seq(it, s, v):
    """values produced by an array, a list or a generator, or None"""
    ys = it.items_of(s, v)
    if ys is not None:
        return ys
    ev = [e[1] for e in s.events if e[0] == 'yield']
    return ev or None


def bins(ctx, q, n, sym):
    con = PU + '%s n=%d sym=%s' % (q, n, sym)
    want = [tuple((2 * b - 1) if sym else b for b in x) for x in itertools.product((0, 1), repeat=n)]

    def judge(it, s, v):
        states(ctx, con, it, s, seq(it, s, v), want, lambda x: T.int_val(x) if I.is_term(x) else None)
    evaluate(ctx, 'L4', con, U, q, lambda it, st: ([num(n)], {'sym': T.TRUE} if sym else {}), judge)


def states(ctx, con, it, s, rows, want, rd):
    if rows is None:
        ctx.undecided('L4', con, 'the enumeration is not modelled')
        return
    if len(rows) != len(want):
        ctx.bad('L4', con, 'lists %d states instead of %d' % (len(rows), len(want)))
        return
    for k, (r, w) in enumerate(zip(rows, want)):
        xs = it.items_of(s, r)
        g = None if xs is None else tuple(rd(x) for x in xs)
        if g is None or None in g:
            ctx.undecided('L4', '%s state %d' % (con, k), 'not modelled')
        else:
            ctx.expect('L4', '%s state %d' % (con, k), g == tuple(w), 'state %d is %s instead of %s' % (k, g, tuple(w)))


DIG = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def digits(i, base):
    out = []
    while True:
        out.append(DIG[i % base])
        i //= base
        if not i:
            return out[::-1]


def baserepr(ctx, base, deep):
    vals = set(range(0, 40 if deep else 14))
    for e in range(1, 6 if deep else 4):
        vals |= {base ** e - 1, base ** e, base ** e + 1, 2 * base ** e - 1, 2 * base ** e, (base - 1) * base ** e, base ** e * (base - 1) + 1}
    for i in sorted(vals):
        con = PU + 'base_repr(%d,%d)' % (i, base)

        def judge(it, s, v):
            xs = it.items_of(s, v)
            if xs is None or not all(I.is_term(x) and x[0] == 'str' for x in xs):
                ctx.undecided('L4', con, 'digits not modelled')
                return
            g = [x[1] for x in xs]
            ctx.expect('L4', con, g == digits(i, base), 'digits are %s instead of %s%s' % (g, digits(i, base), ' when the truncated logarithm is rounded %s' % [e[1] for e in s.events if e[0] == 'round'] if any(e[0] == 'round' for e in s.events) else ''))
        evaluate(ctx, 'L4', con, U, 'base_repr', lambda it, st: ([num(i), num(base)], {}), judge)


def potts(ctx, n, k):
    con = PU + 'xpotts_states n=%d k=%d' % (n, k)
    want = [tuple(DIG[x] for x in c) for c in itertools.product(range(k), repeat=n)]

    def base(it, st, args, kw, node):
        i, b = T.int_val(args[0]), T.int_val(args[1] if len(args) > 1 else kw['base'])
        if i is None or b is None:
            return [(st, I.opaque('base_repr'))]
        return [(st, it.alloc(st, I.ListC([('str', d) for d in digits(i, b)])))]

    def judge(it, s, v):
        states(ctx, con, it, s, seq(it, s, v), want, lambda x: x[1] if I.is_term(x) and x[0] == 'str' else None)
    evaluate(ctx, 'L4', con, U, 'xpotts_states', lambda it, st: ([num(n), num(k)], {}), judge, externs={U + ':base_repr': base})
