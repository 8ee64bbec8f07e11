"""Lattice simulation, block spins, pairwise coarse graining and the Ising front end: constant configurations with symbolic parameters are propagated
through the source and the result compared with the defining rule."""
import itertools
import math
from fractions import Fraction
from .. import terms as T
from .. import interp as I
from .. import rng as R
from ..project import Undecided
from .common import *
from . import c02, c03

LEVEL = 'proof'
A = 'coniii.ising.automaton'
IU = 'coniii.ising.utils'


def run(ctx):
    ctx.rule('flip', 'a lattice flip is a Metropolis step for the energy of the periodic lattice: four neighbours and the field of the site')
    ctx.rule('sweep', 'a systematic sweep proposes every site once with its own field; a random one draws the site uniformly')
    ctx.rule('blocks', 'a block spin has the sign of the sum over its block, ties are broken at random')
    ctx.rule('pairing', 'columns are paired greedily by similarity, each is used once, and the returned index lists name the columns combined')
    ctx.rule('front end', 'fields, couplings and correlations belong to one model in both bases, and basins are reached by steepest descent')
    for dim in ((2, 3), (3, 3), (3, 4), (4, 3)):
        ctx.guard('flip', 'coniii/ising/automaton.py:Ising2D.flip_metropolis %dx%d' % dim, flips, ctx, dim)
    for dim, n in (((2, 3), 6), ((2, 3), 7), ((3, 2), 1), ((2, 2), 8)):
        for syst in (True, False):
            ctx.guard('sweep', 'coniii/ising/automaton.py:Ising2D.iterate %dx%d' % dim, sweep, ctx, dim, n, syst)
    for shape, f in (((4, 4), 2), ((4, 8), 2), ((8, 4), 2), ((5, 5), 2), ((4, 7), 2), ((7, 4), 3), ((6, 6), 3), ((3, 2), 1), ((6, 3), 3)):
        ctx.guard('blocks', 'coniii/ising/automaton.py:coarse_grain %dx%d by %d' % (shape+(f,)), blocks, ctx, shape, f)
    for n, times in ((3, 1), (4, 1), (5, 1), (5, 2), (6, 1), (6, 2), (7, 2), (9, 3)):
        for kind in ('positive', 'mixed', 'negative'):
            ctx.guard('pairing', 'coniii/utils.py:coarse_grain_with_func %d columns %d times %s' % (n, times, kind), pairing, ctx, n, times, kind)
    for how in ('vectors', 'scalars', 'none'):
        ctx.guard('front end', 'coniii/ising/utils.py:Ising parameters %s' % how, parameters, ctx, how)
    ctx.guard('front end', 'coniii/ising/utils.py:Ising.correlations', correlations, ctx)
    ctx.guard('front end', 'coniii/ising/utils.py:Ising.find_basin', basin, ctx)


def grid(it, st, vals, kind='int', out=None):
    """2-d array of terms"""
    vals = [[num(x) if isinstance(x, int) else x for x in r] for r in vals]

    def fn(ix):
        a, b = T.int_val(ix[0]), T.int_val(ix[1])
        if a is None or b is None or not (0 <= a < len(vals) and 0 <= b < len(vals[0])):
            if out is not None and any(x[0] == 'opaque' and x[2] == 'index out of range' for x in ix):
                out.append(ix)
            return I.opaque('index of the lattice')
        return vals[a][b]
    return it.new_arr(st, (num(len(vals)), num(len(vals[0]))), fn, kind)


def near(dim, i, j):
    return [((i-1) % dim[0], j), ((i+1) % dim[0], j), (i, (j+1) % dim[1]), (i, (j-1) % dim[1])]


def flips(ctx, dim):
    r = ctx.find(A, 'Ising2D.flip_metropolis')
    J, h = ('sym', 'J'), ('sym', 'h')
    for i, j in itertools.product(range(dim[0]), range(dim[1])):
        con = 'coniii/ising/automaton.py:Ising2D.flip_metropolis %dx%d site %d,%d' % (dim+(i, j))
        nb = near(dim, i, j)
        own = sorted(set(nb))
        seen = 0
        for s, *vs in itertools.product((1, -1), repeat=1+len(own)):
            val = dict(zip(own, vs))
            val[i, j] = s
            cells = [[val.get((a, b), idx('x', a, b)) for b in range(dim[1])] for a in range(dim[0])]
            it = I.Interp(ctx.proj, unroll=4096, lib=R.lib_table())
            st = I.State()
            beyond = []
            lat = grid(it, st, cells, out=beyond)
            k = sum(s*val[q] for q in nb)
            delta = T.sub(T.mul(num(2*k), J), T.mul(num(2*s), h))
            paths, us = [], []
            start = tuple(num(x) if isinstance(x, int) else x for row in cells for x in row)
            c = i*dim[1]+j
            prop = start[:c] + (num(-s),) + start[c+1:]
            try:
                outs = it.run(func(r), [num(i), num(j), h, J, lat], {}, st)
            except Undecided:
                if not beyond:
                    raise
            if beyond:
                return ctx.bad('flip', con, 'reads a site outside the lattice')
            if outs and all(o[0] == 'raise' for _, o in outs):
                return ctx.bad('flip', con, 'always raises %s' % (outs[0][1][1],))
            for s1, _ in normal(outs):
                fin = tuple(it.elem(s1, lat, (num(a), num(b))) for a in range(dim[0]) for b in range(dim[1]))
                if any(x is None or not I.is_term(x) or any(y[0] == 'opaque' for y in T.subterms(x)) for x in fin):
                    raise Undecided('lattice not modelled')
                if fin not in (start, prop):
                    return ctx.bad('flip', con, 'with neighbours %s the step changes other sites or leaves a value that is no spin: %s' % (vs, c03.fmtstate(fin)))
                paths.append((s1.pc, fin, T.ZERO, s1.events))
                u = [e[4] for e in s1.events if e[0] == 'draw' and e[2] == 'unit']
                if len(u) > 1:
                    raise Undecided('several draws')
                us.append(u[0] if u else None)
            step = c03.Step(start, 1, paths)
            first = None
            for flip in (False, True):
                res = None
                for jv in (Fraction(1, 3), Fraction(-1, 2)):
                    def env(D, jv=jv):
                        return {J: jv, h: (2*k*jv-D)/(2*s)}
                    res = c03.guard_table(step, prop, us, env, flip)
                    if res[0] is not True:
                        break
                if res[0] is not False:
                    break
                first = first or res
            if res[0] is False:
                return ctx.bad('flip', con, 'spin %d with neighbours %s: %s' % (s, vs, first[1]))
            if res[0] is None:
                raise Undecided(res[1])
            seen += 1
        ctx.ok('flip', con, '%d neighbourhoods' % seen)


def sweep(ctx, dim, n, syst):
    con = 'coniii/ising/automaton.py:Ising2D.iterate %dx%d %d%s' % (dim+(n, '' if syst else ' random'))
    size = dim[0]*dim[1]
    for turn in (0, 1, 3):
        it = I.Interp(ctx.proj, unroll=4096, lib=R.lib_table())
        st = I.State()

        def permutation(it, st, args, kw, node, f=None):
            m = T.int_val(args[0]) if I.is_term(args[0]) else None
            els = [num(x) for x in range(m)] if m is not None else it.items_of(st, args[0])
            if els is None:
                raise Undecided('permutation of unknown items')
            order = [(x*(1 if turn == 0 else -1)+turn) % len(els) for x in range(len(els))]
            els = [els[x] for x in order]
            return it.new_arr(st, (num(len(els)),), lambda ix: els[T.int_val(ix[0])] if T.int_val(ix[0]) is not None and abs(T.int_val(ix[0])) < len(els) else I.opaque('index'), 'int')
        g = R.generator('rng0')
        g.methods['permutation'] = permutation
        it.lib = dict(it.lib)
        it.lib['numpy.random.permutation'] = permutation

        def flip(it, st, a, kw, node):
            names = [x.arg for x in ctx.find(A, 'Ising2D.flip_metropolis')[2].args.args]
            v = dict(zip(names, a[1:] if len(a) > len(names) else a))
            v.update(kw)
            st.events.append(('flip',) + tuple(v.get(x) for x in names))
            return v.get(names[-1], T.NONE)
        it.externs[A+':Ising2D.flip_metropolis'] = flip
        cls = ctx.find(A, 'Ising2D')
        H = it.sym_array(st, 'h', (num(dim[0]), num(dim[1])))
        made = it.call(st, I.Cls(cls), [I.Tup([num(dim[0]), num(dim[1])]), ('sym', 'J')], {'h': H, 'rng': g}, None)
        for s0, o in made:
            k0 = len(s0.events)
            lat0 = it.getattr(s0, o, 'lattice')
            for s1, _ in it.call(s0, it.getattr(s0, o, 'iterate'), [num(n)], {'systematic': T.TRUE if syst else T.FALSE}, None):
                lat = it.getattr(s1, o, 'lattice')
                ev = [e for e in s1.events[k0:] if e[0] == 'flip']
                if not ev:
                    if any(x[0] == 'opaque' for x in [lat] if I.is_term(x)):
                        raise Undecided('no flips seen')
                    return ctx.bad('sweep', con, 'no site is proposed')
                bounds = {e[4]: e[3] for e in s1.events if e[0] == 'draw' and e[2] == 'int' and I.is_term(e[4])}
                sites, loose = [], False
                for _, i, j, h, J, L in ev:
                    if not all(I.is_term(x) for x in (i, j, h, J)):
                        raise Undecided('arguments of a flip')
                    v = J == ('sym', 'J') or equal(J, ('sym', 'J'), s1.pc)
                    if v is False:
                        return ctx.bad('sweep', con, 'a flip uses the coupling %s' % short(J))
                    if v is None:
                        raise Undecided('coupling of a flip')
                    if not (lat0 == L or getattr(lat0, 'id', 0) == getattr(L, 'id', 1)):
                        raise Undecided('another array is flipped')
                    if syst:
                        a, b = T.int_val(i), T.int_val(j)
                        if a is None or b is None:
                            a, b = chosen(i, s1), chosen(j, s1)
                            loose = True
                        if not (0 <= a < dim[0] and 0 <= b < dim[1]):
                            return ctx.bad('sweep', con, 'site %d,%d is outside the lattice' % (a, b))
                        sites.append((a, b))
                        if not loose and h != idx('h', a, b):
                            v = equal(h, idx('h', a, b), s1.pc)
                            if v is False:
                                return ctx.bad('sweep', con, 'site %d,%d is flipped with the field %s' % (a, b, short(h)))
                            if v is None:
                                raise Undecided('field')
                    else:
                        want = [(T.ZERO, num(d)) for d in dim]
                        got = [bounds.get(x) for x in (i, j)]
                        if None in got or i == j:
                            raise Undecided('site is not a pair of plain draws')
                        if list(map(tuple, got)) != want:
                            return ctx.bad('sweep', con, 'sites are drawn from %s' % (', '.join('%s..%s' % (short(a), short(b)) for a, b in got)))
                        if h != ('idx', 'h', (i, j)):
                            raise Undecided('field of a random site') if any(x[0] == 'opaque' for x in T.subterms(h)) else None
                            v = field_at(h, i, j, dim)
                            if v is False:
                                return ctx.bad('sweep', con, 'the field %s is not the one of the site flipped' % short(h))
                            if v is None:
                                raise Undecided('field of a random site')
                if syst:
                    if len(ev) % size:
                        return ctx.bad('sweep', con, '%d proposals are no whole sweeps of %d sites' % (len(ev), size))
                    for q in range(0, len(ev), size):
                        if len(set(sites[q:q+size])) != size:
                            return ctx.bad('sweep', con, 'a sweep proposes %s' % (sites[q:q+size],))
                    if loose:
                        raise Undecided('order of the sites')
                if len(ev) < n:
                    return ctx.bad('sweep', con, '%d proposals for %d iterations' % (len(ev), n))
                if not (lat0 == lat or getattr(lat0, 'id', 0) == getattr(lat, 'id', 1)):
                    raise Undecided('the lattice is replaced')
    ctx.ok('sweep', con)


def chosen(t, s):
    """value of a site when all draws take their least value"""
    env = {}
    for x in T.subterms(t):
        if x[0] == 'idx' and isinstance(x[1], str) and x[1].startswith('D#') or x[0] == 'sym' and x[1].startswith('d#'):
            e = [e for e in s.events if e[0] == 'draw' and (e[4] == x or e[4] == ('arr', x[1]))]
            lo = T.int_val(e[0][3][0]) if len(e) == 1 and e[0][2] == 'int' and I.is_term(e[0][3][0]) else None
            if lo is None:
                raise Undecided('site %s' % short(t))
            env[x] = Fraction(lo)
    try:
        return int(evalnum(t, env))
    except NoValue:
        raise Undecided('site %s' % short(t))


def field_at(h, i, j, dim):
    for a in range(dim[0]):
        for b in range(dim[1]):
            env = {i: Fraction(a), j: Fraction(b)}
            for p in range(dim[0]):
                for q in range(dim[1]):
                    env[idx('h', p, q)] = Fraction(10*p+q+3)
            try:
                if evalnum(h, env) != 10*a+b+3:
                    return False
            except NoValue:
                return None
    return True


def blocks(ctx, shape, f):
    con = 'coniii/ising/automaton.py:coarse_grain %dx%d by %d' % (shape+(f,))
    r = ctx.find(A, 'coarse_grain')
    out = (shape[0]//f, shape[1]//f)
    whole = shape[0] % f == 0 and shape[1] % f == 0
    ties = 0
    for seed in range(6):
        q = seed*7919+13
        cells = []
        for a in range(shape[0]):
            row = []
            for b in range(shape[1]):
                q = (q*1103515245+12345) % (1 << 31)
                row.append(1 if (q >> 16) & 1 else -1)
            cells.append(row)
        if seed == 0:
            cells = [[1 if (a+b) % 2 else -1 for b in range(shape[1])] for a in range(shape[0])]
        it = I.Interp(ctx.proj, unroll=4096, lib=R.lib_table())
        st = I.State()
        outs = it.run(func(r), [grid(it, st, cells), num(f)], {}, st)
        if outs and all(o[0] == 'raise' for _, o in outs):
            return ctx.bad('blocks', con, 'raises %s' % (outs[0][1][1],))
        if not normal(outs):
            raise Undecided('no path')
        for s, v in normal(outs):
            X = Run(it, s, v)
            if X.dims() is None:
                raise Undecided('result not modelled')
            if X.dims() != out:
                return ctx.bad('blocks', con, 'the result has shape %s' % (X.dims(),))
            used = set()
            for a, b in itertools.product(range(out[0]), range(out[1])):
                t = X[a, b]
                if t is None or not I.is_term(t) or any(x[0] == 'opaque' for x in T.subterms(t)):
                    raise Undecided('block %d,%d: %s' % (a, b, opaque_why(t) if t is not None else ''))
                tot = sum(cells[a*f+x][b*f+y] for x in range(f) for y in range(f))
                if tot:
                    if t != num(1 if tot > 0 else -1):
                        if T.int_val(t) is not None:
                            return ctx.bad('blocks', con, 'the block at %d,%d sums to %d but becomes %s' % (a, b, tot, short(t)))
                        d = drawn(t, s)
                        if d is None:
                            raise Undecided('value of a block')
                        if d != {1 if tot > 0 else -1: Fraction(1)}:
                            return ctx.bad('blocks', con, 'the block at %d,%d sums to %d but is drawn at random' % (a, b, tot))
                else:
                    ties += 1
                    if T.int_val(t) is not None:
                        return ctx.bad('blocks', con, 'a tied block becomes %s' % short(t))
                    vals = drawn(t, s)
                    if vals is None:
                        raise Undecided('value of a tied block')
                    if vals != {1: Fraction(1, 2), -1: Fraction(1, 2)}:
                        return ctx.bad('blocks', con, 'a tied block becomes %s' % ', '.join('%s with probability %s' % kv for kv in sorted(vals.items())))
                    if t in used:
                        return ctx.bad('blocks', con, 'two tied blocks share one draw')
                    used.add(t)
    ctx.ok('blocks', con, '%d ties' % ties)


def drawn(t, s):
    """distribution of a term that depends on one uniform integer draw"""
    ats = [x for x in T.subterms(t) if x[0] == 'idx' and isinstance(x[1], str) and x[1].startswith('D#') or x[0] == 'sym' and x[1].startswith('d#')]
    ats = set(ats)
    if len(ats) != 1:
        return None
    a = ats.pop()
    e = [e for e in s.events if e[0] == 'draw' and (e[4] == a or e[4] == ('arr', a[1]))]
    if len(e) != 1 or e[0][2] not in ('int', 'unit'):
        return None
    if e[0][2] == 'int':
        lo, hi = T.int_val(e[0][3][0]), T.int_val(e[0][3][1])
        if lo is None or hi is None or hi-lo > 64:
            return None
        pts = [Fraction(x) for x in range(lo, hi)]
    else:
        pts = [Fraction(2*x+1, 64) for x in range(32)]
    out = {}
    for p in pts:
        try:
            v = evalnum(t, {a: p})
        except NoValue:
            return None
        out[int(v)] = out.get(int(v), 0) + Fraction(1, len(pts))
    return out


# ------------------------------------------------------------------ coarse graining by similarity
def similarities(cl, kind, seed):
    """distinct similarities of all pairs of clusters (tuples of original columns), a function of the clusters and not of their order"""
    prs = [(cl[i], cl[j]) for i, j in pairs(len(cl))]
    key = {}
    for p in prs:
        q = seed*99991+7
        for c in sorted(p):
            for x in c:
                q = ((q+x+1)*1103515245+12345) % (1 << 31)
            q = (q*69069+1) % (1 << 31)
        key[p] = (q >> 8, sorted(p))
    rank = {p: k for k, p in enumerate(sorted(prs, key=lambda p: key[p]))}
    off = {'positive': 1, 'mixed': -(len(prs)//2), 'negative': -len(prs)}[kind]
    return [Fraction(rank[p]+off)+Fraction(1, 3) * (1 if kind != 'negative' else -1) for p in prs]


def greedy(m, sims):
    left = list(range(m))
    val = dict(zip(pairs(m), sims))
    out = []
    while len(left) > 1:
        p = max(itertools.combinations(left, 2), key=lambda p: val[p])
        out.append(p)
        left = [x for x in left if x not in p]
    return out + [(x,) for x in left]


def pairing(ctx, n, times, kind):
    con = 'coniii/utils.py:coarse_grain_with_func %d columns %d times %s' % (n, times, kind)
    r = ctx.find('coniii.utils', 'coarse_grain_with_func')
    S = 2
    for seed in range(4):
        it = I.Interp(ctx.proj, unroll=4096)
        st = I.State()
        X = it.sym_array(st, 'X', (num(S), num(n)), 'int')

        def sim(it, st, args, kw, node):
            a = it.arr(st, args[0])
            m = T.int_val(a[0][1]) if a is not None and len(a[0]) == 2 else None
            if m is None:
                raise Undecided('similarity of unknown array')
            cs = []
            for c in range(m):
                t = a[1]((T.ZERO, num(c)))
                cs.append(tuple(sorted({T.int_val(x[2][1]) for x in T.subterms(t) if x[0] == 'idx' and x[1] == 'X'})))
                if any(x[0] == 'opaque' for x in T.subterms(t)) or not cs[-1]:
                    raise Undecided('columns handed to the similarity function')
            st.events.append(('sim', cs))
            v = [num(x) for x in similarities(cs, kind, seed)]
            return it.new_arr(st, (num(len(v)),), lambda ix: v[T.int_val(ix[0])] if T.int_val(ix[0]) is not None and -len(v) <= T.int_val(ix[0]) < len(v) else I.opaque('index'), 'float')

        def coarse(it, st, args, kw, node):
            a = it.arr(st, args[0])
            w = T.int_val(a[0][1]) if a is not None and len(a[0]) == 2 else None
            if w is None or T.int_val(a[0][0]) != S:
                raise Undecided('columns handed to the coarse function')
            rows = [('fn', 'cf') + tuple(sorted((a[1]((num(q), num(c))) for c in range(w)), key=T.key)) for q in range(S)]
            return it.new_arr(st, (num(S),), lambda ix: rows[T.int_val(ix[0])] if T.int_val(ix[0]) is not None else I.opaque('row'), 'int')
        outs = it.run(func(r), [X, num(times), I.Extern('sim', sim), I.Extern('coarse', coarse)], {}, st)
        if outs and all(o[0] == 'raise' for _, o in outs):
            return ctx.bad('pairing', con, 'raises %s' % (outs[0][1][1],))
        if not normal(outs):
            raise Undecided('no path')
        # expectation: clusters as (set of original columns, row values)
        cl = [((c,), [idx('X', q, c) for q in range(S)]) for c in range(n)]
        stages = []
        for k in range(times):
            stages.append(sorted(c[0] for c in cl))
            cl = nextlevel(cl, similarities([c[0] for c in cl], kind, seed), S)
        want = {a: b for a, b in cl}
        for s, v in normal(outs):
            its = it.items_of(s, v)
            if its is None or len(its) != 2:
                return ctx.undecided('pairing', con, 'result is no pair')
            Y, bins = Run(it, s, its[0]), it.items_of(s, its[1])
            if bins is None or Y.dims() is None:
                raise Undecided('result not modelled')
            names = []
            sims = [e[1] for e in s.events if e[0] == 'sim']
            for w, cs in zip(stages, sims):
                if sorted(cs) != w:
                    return ctx.bad('pairing', con, 'similarities are taken of the columns %s instead of %s' % (sorted(cs), w))
            for b in bins:
                e = it.items_of(s, b)
                e = None if e is None else [T.int_val(x) if I.is_term(x) else None for x in e]
                if e is None or None in e:
                    raise Undecided('index list')
                names.append(tuple(sorted(e)))
            if Y.dims() != (S, len(want)) or sorted(names) != sorted(want):
                return ctx.bad('pairing', con, 'similarities %s: clusters %s instead of %s' % (', '.join('%.2f' % float(x) for x in similarities([(c,) for c in range(n)], kind, seed)), names, sorted(want)))
            for c, nm in enumerate(names):
                for q in range(S):
                    if Y[q, c] != want[nm][q]:
                        t = Y[q, c]
                        if t is None or any(x[0] == 'opaque' for x in T.subterms(t)):
                            raise Undecided('value of a coarse column')
                        return ctx.bad('pairing', con, 'column %d is said to combine %s but is %s' % (c, nm, short(t)))
    ctx.ok('pairing', con)


def nextlevel(cl, sims, S):
    return [(tuple(sorted(x for c in p for x in cl[c][0])), [('fn', 'cf') + tuple(sorted((cl[c][1][q] for c in p), key=T.key)) for q in range(S)])
            for p in greedy(len(cl), sims)]


# ------------------------------------------------------------------ Ising front end
def front(ctx, n, how):
    cls = ctx.find(IU, 'Ising')
    it = I.Interp(ctx.proj, unroll=4096)
    st = I.State()
    P = n*(n-1)//2
    if how == 'vectors':
        kw = {'h': it.sym_array(st, 'hh', (num(n),)), 'J': it.sym_array(st, 'JJ', (num(P),))}
        par = [idx('hh', i) for i in range(n)], [idx('JJ', q) for q in range(P)]
    elif how == 'scalars':
        kw = {'h': ('sym', 'hs'), 'J': ('sym', 'Js')}
        par = [('sym', 'hs')]*n, [('sym', 'Js')]*P
    else:
        kw = {}
        par = [T.ZERO]*n, [T.ZERO]*P
    made = it.call(st, I.Cls(cls), [num(n)], kw, None)
    if len(made) != 1:
        raise Undecided('constructor has %d paths' % len(made))
    return it, made[0][0], made[0][1], par


def ask(it, s, o, name, *a):
    out = it.call(s, it.getattr(s, o, name), list(a), {}, None)
    if len(out) != 1:
        raise Undecided('%s has %d paths' % (name, len(out)))
    return Run(it, out[0][0], out[0][1])


def parameters(ctx, how):
    for n in (2, 3, 4):
        it, s, o, (h, J) = front(ctx, n, how)
        row = {p: q for q, p in enumerate(pairs(n))}
        h01 = [T.mul(num(2), T.sub(h[i], T.addn([J[row[min(i, j), max(i, j)]] for j in range(n) if j != i]))) for i in range(n)]
        J01 = [T.mul(num(4), x) for x in J]
        for b, nm in (('1', 'spins -1/1'), ('0', 'spins 0/1')):
            for what, want in (('fields', h if b == '1' else h01), ('couplings', J if b == '1' else J01)):
                con = 'coniii/ising/utils.py:Ising.%s %s, %s, n=%d' % (what, nm, how, n)
                v = ask(it, s, o, what, ('str', b))
                if v.dims() is None:
                    raise Undecided('%s not modelled' % what)
                if v.dims() != (len(want),):
                    ctx.bad('front end', con, 'has shape %s' % (v.dims(),))
                    continue
                for i, w in enumerate(want):
                    if compare(ctx, 'front end', con+' [%d]' % i, v[i], w, s.pc) is False:
                        break


def correlations(ctx):
    for n in (2, 3):
        it, s, o, _ = front(ctx, n, 'vectors')
        r = ctx.find('coniii.ising_eqn.ising_eqn_%d_sym' % n, 'calc_observables')
        con = 'coniii/ising/utils.py:Ising.correlations n=%d' % n
        seen = []

        def model(it, st, args, kw, node):
            a = args[0]
            P = n+n*(n-1)//2
            seen.append(tuple(it.elem(st, a, (num(q),)) for q in range(P)) if it.arr(st, a) is not None else None)
            return it.sym_array(st, 'obs', (num(P),))
        it.externs['coniii.ising_eqn.ising_eqn_%d_sym:calc_observables' % n] = model
        v = ask(it, s, o, 'correlations', ('str', '1'))
        P = n*(n-1)//2
        want = tuple([idx('hh', i) for i in range(n)]+[idx('JJ', q) for q in range(P)])
        if not seen or seen[0] is None:
            raise Undecided('the equations are not used')
        ctx.expect('front end', con+' parameters', seen[0] == want, 'the equations are given %s' % ', '.join(short(x) for x in seen[0]), 'the parameters in order')
        m = [idx('obs', q) for q in range(n+P)]
        for q in range(n+P):
            compare(ctx, 'front end', con+' [%d]' % q, v[q], m[q], s.pc)
        v = ask(it, s, o, 'correlations', ('str', '0'))
        half = num(Fraction(1, 2))
        w = [T.mul(half, T.add(m[i], T.ONE)) for i in range(n)]
        w += [T.mul(num(Fraction(1, 4)), T.addn([m[n+q], m[i], m[j], T.ONE])) for q, (i, j) in enumerate(pairs(n))]
        for q in range(n+P):
            compare(ctx, 'front end', con+' 0/1 [%d]' % q, v[q], w[q], s.pc)


def basin(ctx):
    cls = ctx.find(IU, 'Ising')
    sets = {2: [([Fraction(1, 2), Fraction(-1, 3)], [Fraction(1)])],
            3: [([Fraction(1, 5), Fraction(-2, 5), Fraction(1, 7)], [Fraction(1), Fraction(-3, 2), Fraction(1, 2)]),
                ([Fraction(-1, 5), Fraction(3, 5), Fraction(-1, 7)], [Fraction(-1), Fraction(-3, 4), Fraction(-5, 4)])],
            4: [([Fraction(1, 9), Fraction(-1, 5), Fraction(1, 3), Fraction(-2, 7)], [Fraction(x, 4) for x in (3, -5, 2, 7, -1, 6)])]}
    for n, ps in sets.items():
        for k, (h, J) in enumerate(ps):
            con = 'coniii/ising/utils.py:Ising.find_basin n=%d set %d' % (n, k)
            row = {p: q for q, p in enumerate(pairs(n))}
            bad = False
            for s in itertools.product((1, -1), repeat=n):
                it = I.Interp(ctx.proj, unroll=4096)
                it.fork_while = it.max_paths = 64
                st = I.State()
                hv = vec_of(it, st, h)
                made = it.call(st, I.Cls(cls), [num(n)], {'h': hv, 'J': vec_of(it, st, J)}, None)
                if len(made) != 1:
                    raise Undecided('constructor')
                st, o = made[0]
                x = vec_of(it, st, s, 'int')
                v = ask(it, st, o, 'find_basin', x)
                got = [T.int_val(v[i]) if v[i] is not None and I.is_term(v[i]) else None for i in range(n)]
                if None in got:
                    raise Undecided('basin of %s' % (s,))
                cur = list(s)
                while True:
                    dE = [2*cur[i]*(h[i]+sum(J[row[min(i, j), max(i, j)]]*cur[j] for j in range(n) if j != i)) for i in range(n)]
                    q = min(range(n), key=lambda i: dE[i])
                    if dE[q] >= 0:
                        break
                    cur[q] *= -1
                if got != cur:
                    ctx.bad('front end', con, 'from %s it ends at %s, steepest descent at %s' % (s, tuple(got), tuple(cur)))
                    bad = True
                    break
            if not bad:
                ctx.ok('front end', con, '%d starts' % 2**n)


def vec_of(it, st, vals, kind='float'):
    vals = [num(x) for x in vals]
    return it.new_arr(st, (num(len(vals)),), lambda ix: vals[T.int_val(ix[0])] if T.int_val(ix[0]) is not None and -len(vals) <= T.int_val(ix[0]) < len(vals) else I.opaque('index'), kind)
