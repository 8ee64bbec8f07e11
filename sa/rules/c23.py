"""Cluster updates.  One Wolff step is interpreted for every state and starting site of small systems with symbolic couplings and fields;
the conditions of its paths on the draws give the exact transition probabilities, which are compared with detailed balance; the sample generators
are compared with the requested sequence of steps."""
import itertools
import random
from math import exp
from .. import terms as T
from .. import interp as I
from .. import libmodel as LM
from .. import rng, pool
from ..project import Undecided
from .common import *
from .solve import flat
from . import c13

LEVEL = 'proof'
TREES = (((0, 1), (0, 2), (1, 3), (2, 4)), ((0, 2), (2, 3), (1, 3), (1, 4)))
SM = 'coniii.samplers'
WO = 'coniii/samplers.py:WolffIsing'


def couplings(it, st, n, name, edges):
    pairs = list(itertools.combinations(range(n), 2))

    def J(ix):
        k = T.int_val(ix[0])
        if k is None:
            raise Undecided('symbolic position in the couplings')
        return idx(name, k) if edges is None or pairs[k] in edges else num(0)
    return it.new_arr(st, (num(len(pairs)),), J, 'float')


def build(ctx, n, extra=None, update=None, edges=None):
    r = ctx.find(SM, 'WolffIsing')
    it = I.Interp(ctx.proj, unroll=4096, externs=dict(extra or {}), lib=dict(LM.TABLE, **dict(rng.lib_table(), **pool.lib_table())))
    it.fork_while = it.max_paths = 4000
    st = I.State()
    old = 'old ' if update else ''
    res = it.call(st, I.Cls(r), [couplings(it, st, n, old+'J', edges), it.sym_array(st, old+'h', (num(n),), 'float')], {}, None)
    if len(res) != 1:
        raise Undecided('%d ways through the constructor' % len(res))
    s, o = res[0]
    if update:
        if update == 'matrix':
            J = it.new_arr(s, (num(n), num(n)), lambda ix: matrix_entry(n, *map(T.int_val, ix)), 'float')
        else:
            J = couplings(it, s, n, 'J', edges)
        res = it.call(s, it.getattr(s, o, 'update_parameters'), [J, it.sym_array(s, 'h', (num(n),), 'float')], {}, None)
        if len(res) != 1:
            raise Undecided('%d ways through update_parameters' % len(res))
        s = res[0][0]
    it.setattr(s, o, 'rng', c13.RNG0)
    return it, s, o


def matrix_entry(n, i, j):
    if i is None or j is None:
        raise Undecided('symbolic position in the couplings')
    if i == j:
        return num(0)
    return idx('J', list(itertools.combinations(range(n), 2)).index((min(i, j), max(i, j))))


def is_draw(t):
    if t[0] == 'sym' and t[1][:2] == 'd#':
        return t[1]
    if t[0] == 'idx' and isinstance(t[1], str) and t[1][:2] == 'D#':
        return '%s %s' % (t[1], [T.int_val(x) for x in t[2]])
    return None


def weight(pc, pt):
    """probability of a conjunction of linear bounds on independent uniform draws"""
    lo, hi = {}, {}
    todo = list(pc)
    while todo:
        c = todo.pop()
        neg = False
        while c[0] == 'not':
            neg, c = not neg, c[1]
        if c[0] in ('and', 'or') and (c[0] == 'and') != neg:
            todo += [T.lnot(x) if neg else x for x in c[1]]
            continue
        ds = {is_draw(x) for x in T.subterms(c)} - {None}
        if not ds:
            if bool(evalnum(c, pt)) == neg:
                return 0.
            continue
        if c[0] == 'eq0':
            if not neg:
                return 0.
            continue
        if c[0] != 'lt0' or len(ds) != 1:
            raise Undecided('a condition on several draws')
        d = ds.pop()

        def at(x):
            return evalnum(c[1], lambda t: x if is_draw(t) == d else pt(t))
        a, m, b = at(0.), at(.5), at(1.)
        if abs(m-(a+b)/2) > 1e-9*(1+abs(a)+abs(b)):
            raise Undecided('a condition that is not a bound on a draw')
        k = b-a
        if k == 0:
            if (a < 0) == neg:
                return 0.
            continue
        z = -a/k
        below = (k > 0) != neg                 # the condition holds below z
        if below:
            hi[d] = min(hi.get(d, 1.), z)
        else:
            lo[d] = max(lo.get(d, 0.), z)
    p = 1.
    for d in set(lo) | set(hi):
        p *= max(0., min(1., hi.get(d, 1.))-max(0., lo.get(d, 0.)))
    return p


class Pt:
    def __init__(self, seed, n, edges=None):
        r = random.Random(seed)
        w = (.3, 1., 2.)[seed % 3]
        self.h = [r.uniform(-w, w) for _ in range(n)]
        self.J = [r.uniform(-w, w) for _ in range(n*(n-1)//2)]
        if seed % 4 == 3:
            self.h = [0.]*n
        if edges is not None:
            self.J = [j if e in edges else 0. for j, e in zip(self.J, itertools.combinations(range(n), 2))]

    def __call__(self, t):
        if t[0] == 'idx' and t[1] in ('old h', 'old J'):
            return random.Random(repr(t)).uniform(-1, 1)
        if t[0] == 'idx' and t[1] in ('h', 'J'):
            return getattr(self, t[1])[T.int_val(t[2][0])]
        return None

    def logp(self, s):
        n = len(s)
        return sum(a*b for a, b in zip(self.h, s))+sum(j*s[a]*s[b] for j, (a, b) in zip(self.J, itertools.combinations(range(n), 2)))


def balance(ctx, n, site, update=None, points=12, edges=None, thorough=False):
    """site: 'given' for every starting site separately, 'random' for a drawn one"""
    con = '%s.one_step %d spins, %s starting site%s%s' % (WO, n, site, ', parameters updated with a coupling '+update if update else '', ', couplings along %s' % (edges,) if edges else '')
    states = list(itertools.product((-1, 1), repeat=n))
    if edges and not thorough:
        # from all up to the states reached by flipping a few clusters, and back
        flips = [(), (0,), (0, 1, 2), tuple(range(n))]+[tuple(j for j in range(n) if j != i) for i in range(1, n) if sum(i in e for e in edges) == 1]
        states = [tuple(-1 if i in f else 1 for i in range(n)) for f in dict.fromkeys(flips)]
    starts = {'given': range(n), 'random': [None], 'first': [0]}[site]
    table = {}            # (start, s) -> [(plan probability, pc, s')]
    for s0 in states:
        for start in starts:
            def run_one(it, s, o):
                it.raised = []
                a = it.new_arr(s, (num(n),), lambda ix: T.num(s0[T.int_val(ix[0])]) if T.int_val(ix[0]) is not None else I.opaque('spin'), 'float')
                f = it.getattr(s, o, 'one_step')
                outs = it.call(s, f, [a] + ([num(start)] if start is not None else []), {}, None)
                return [(s1, a) for s1, _ in outs]
            it, s, o = build(ctx, n, update=update, edges=edges)
            for p, plan, outs in rng.explore(it, lambda: run_one(it, s.copy(), o)):
                for s1, a in outs:
                    end = [T.num_val(x) for x in flat(it, s1, a) or []]
                    if len(end) != n or None in end:
                        raise Undecided('state after the step')
                    for e in s1.events:
                        if e[0] == 'draw' and e[1] != 'rng0':
                            ctx.bad('randomness', con, 'a draw does not come from the generator of the sampler but from %s' % e[1])
                            return
                        if e[0] == 'draw' and e[2] not in ('unit', 'int'):
                            raise Undecided('draw ' + e[2])
                    if any(abs(x) != 1 for x in end):
                        ctx.bad('balance', con, 'state %s becomes %s' % (s0, [str(x) for x in end]))
                        return
                    table.setdefault((start, s0), []).append((float(p), s1.pc, tuple(int(x) for x in end)))
    ctx.analysed.add('%s:WolffIsing.one_step, build_cluster, find_neighbors, iterate_neighbors' % SM)
    npath = sum(len(v) for v in table.values())
    for k in range(points):
        pt = Pt(k, n, edges)
        for start in starts:
            P = {}
            for s0 in states:
                for p, pc, end in table[(start, s0)]:
                    P[s0, end] = P.get((s0, end), 0.)+p*weight(pc, pt)
                tot = sum(v for (b, _), v in P.items() if b == s0)
                if abs(tot-1) > 1e-9:
                    raise Undecided('probabilities of the paths add up to %.6g' % tot)
            for a in states:
                for b in states:
                    x, y = P.get((a, b), 0.), P.get((b, a), 0.)
                    r = exp(pt.logp(b)-pt.logp(a))
                    if abs(x-r*y) > 1e-7*(1+r):
                        ctx.bad('balance', con, 'from %s to %s with probability %.6g, back with %.6g, although the ratio of their probabilities is %.6g (fields %s, couplings %s%s)'
                                % (a, b, x, y, r, ['%.3g' % v for v in pt.h], ['%.3g' % v for v in pt.J], '' if start is None else ', starting site %d' % start))
                        return
                for i in range(n):
                    if start in (i, None):
                        b = tuple(-v if j == i else v for j, v in enumerate(a))
                        if edges is None and P.get((a, b), 0.) <= 0 and all(abs(pt.J[q]*a[u]*a[v]) < 3 for q, (u, v) in enumerate(itertools.combinations(range(n), 2))):
                            ctx.bad('reach', con, 'spin %d of %s is never flipped alone' % (i, a))
                            return
    for rule in ('balance', 'randomness') + (() if edges else ('reach',)):
        ctx.ok(rule, con, '%d states, %d paths, %d points' % (len(states), npath, points))


def generate(ctx, fn, n, K, iters, given, history):
    con = '%s.%s %d spins, %d states, %d steps%s%s' % (WO, fn, n, K, iters, ', initial states' if given else '', ', history' if history else '')

    def step(it, st, a, kw, node):
        b = dict(zip(('self', 'state', 'initialsite'), a))
        b.update(kw)
        k = sum(1 for e in st.events if e[0] == 'step')
        v = flat(it, st, b['state'])
        if v is None or len(v) != n:
            raise Undecided('state handed to one_step')
        site = b.get('initialsite', T.NONE)
        g = it.getattr(st, b['self'], 'rng')
        st.events.append(('step', k, tuple(v), site, g.name if isinstance(g, I.Extern) else None))
        for j in range(n):
            it.setitem(st, b['state'], (num(j),), T.sym('y%d.%d' % (k, j)), 'set', node)
        return T.NONE
    it, s, o = build(ctx, n, {SM+':WolffIsing.one_step': step})
    kw = {}
    init = None
    if given:
        init = it.sym_array(s, 'x', (num(K), num(n)), 'float')
        kw['initialSample'] = init
    if history:
        kw['save_history'] = T.TRUE
    it.raised = []
    outs = it.call(s, it.getattr(s, o, fn), [num(K), num(iters)], kw, None)
    ctx.analysed.add('%s:WolffIsing.%s' % (SM, fn))
    if len(outs) != 1:
        raise Undecided('%d paths' % len(outs))
    s1, v = outs[0]
    for e in s1.events:
        if e[0] == 'draw' and e[1] == 'global':
            ctx.bad('randomness', con, 'draws come from %s' % e[1])
            return
    hist = None
    if history:
        p = it.items_of(s1, v)
        if p is None or len(p) != 2:
            raise Undecided('result')
        v, hist = p
    a = it.arr(s1, v)
    if a is None or [T.int_val(x) for x in a[0]] != [K, n]:
        if a is not None and None not in [T.int_val(x) for x in a[0]]:
            ctx.bad('records', con, 'returns a sample of shape %s' % [T.int_val(x) for x in a[0]])
            return
        raise Undecided('sample')
    steps = [e for e in s1.events if e[0] == 'step']
    if len(steps) != K*iters:
        ctx.bad('records', con, '%d steps instead of %d' % (len(steps), K*iters))
        return
    gens = set()
    for i in range(K):
        mine = steps[i*iters:(i+1)*iters]
        cur = None
        for j, e in enumerate(mine):
            if j == 0:
                if given and any(e[2][q] != idx('x', i, q) for q in range(n)):
                    ctx.bad('records', con, 'state %d does not start from the given state' % i)
                    return
                if not given:
                    for q in range(n):
                        vals = one_of(e[2][q])
                        if vals is None:
                            raise Undecided('random initial state')
                        if vals != {-1, 1}:
                            ctx.bad('records', con, 'initial spins take values %s' % sorted(vals))
                            return
                cur = e[2]
            elif e[2] != cur:
                ctx.bad('records', con, 'step %d of state %d does not go on from the state before' % (j, i))
                return
            cur = tuple(T.sym('y%d.%d' % (e[1], q)) for q in range(n))
            gens.add((i, e[4]))
            if e[3] != T.NONE:
                if T.int_val(e[3]) is None:
                    raise Undecided('starting site')
                if T.int_val(e[3]) != j % n:
                    ctx.bad('sites', con, 'step %d starts at site %s' % (j, T.int_val(e[3])))
                    return
        if iters and any(a[1]((num(i), num(q))) != cur[q] for q in range(n)):
            ctx.bad('records', con, 'row %d is not the state after the last step' % i)
            return
        if hist is not None:
            b = it.arr(s1, hist)
            if b is None or [T.int_val(x) for x in b[0]] != [K, n, iters+1]:
                raise Undecided('history')
            for j in range(iters+1):
                want = mine[j][2] if j < iters else cur
                if iters and any(b[1]((num(i), num(q), num(j))) != want[q] for q in range(n)):
                    ctx.bad('records', con, 'history of state %d after %d steps is another state' % (i, j))
                    return
    if fn.endswith('parallel'):
        per = {}
        for i, g in gens:
            per.setdefault(g, set()).add(i)
        if None in per:
            raise Undecided('generator of a worker')
        if any(len(q) > 1 for q in per.values()):
            ctx.bad('randomness', con, 'states %s use the same generator' % sorted(max(per.values(), key=len)))
            return
        if any('#' not in g for g in per):
            ctx.bad('randomness', con, 'workers are not seeded from the generator of the sampler')
            return
    elif any(g != 'rng:rng0' for _, g in gens):
        raise Undecided('generator')
    if given:
        for i in range(K):
            for q in range(n):
                if it.arr(s1, init)[1]((num(i), num(q))) != idx('x', i, q):
                    ctx.bad('records', con, 'the initial states of the caller are changed')
                    return
    ctx.ok('records', con)
    ctx.ok('sites', con)
    ctx.ok('randomness', con)


def one_of(t):
    """values of an initial spin"""
    out = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x[0] == 'ite':
            todo += [x[2], x[3]]
        else:
            v = T.num_val(x)
            if v is None:
                return None
            out.add(int(v))
    return out


def run(ctx):
    thorough = ctx.tier == 'thorough'
    ctx.rule('balance', 'p(s) P(s to t) = p(t) P(t to s) for p(s) proportional to exp(h.s + sum J s s), starting the cluster anywhere or at a given site')
    ctx.rule('reach', 'every spin can be flipped alone')
    ctx.rule('records', 'every returned row is the state after exactly the requested number of steps, each going on from the state before; the history holds all of them')
    ctx.rule('sites', 'starting sites are drawn or go through the spins in order')
    ctx.rule('randomness', 'all draws come from the generator of the sampler, workers are seeded from it one by one')
    for fn in ('generate_sample', 'generate_sample_parallel'):
        for n, K, m in ((2, 1, 1), (3, 2, 4), (2, 3, 5)):
            for given in (False, True):
                for hist in (False, True) if fn == 'generate_sample' else (False,):
                    ctx.guard('records', '%s.%s' % (WO, fn), generate, ctx, fn, n, K, m, given, hist)

    for n in (2, 3) + ((4,) if thorough else ()):
        for site in ('given', 'random'):
            ctx.guard('balance', '%s.one_step %d spins' % (WO, n), balance, ctx, n, site)
    if not thorough:
        ctx.guard('balance', '%s.one_step 4 spins' % WO, balance, ctx, 4, 'first')
    for edges in TREES if thorough else TREES[:1]:
        ctx.guard('balance', '%s.one_step 5 spins' % WO, balance, ctx, 5, 'first', None, 12, edges, thorough)
    for up in ('vector', 'matrix'):
        ctx.guard('balance', '%s.update_parameters %s' % (WO, up), balance, ctx, 2 if up == 'vector' and not thorough else 3, 'given', up)
