"""Abstract interpretation of every shipped equation module: the energy table, the weight vector of each
observable and the probability vector are evaluated in the canonical polynomial domain over the symbolic
parameter vector and compared with the definition of the maximum entropy distribution on all 2^n states."""
import ast
import itertools
import math
import os
import random
import re
from .. import terms as T
from .. import interp as I
from .. import libmodel as LM
from .. import strings
from ..project import Module, Undecided
from ..ctx import short, equal
from .common import evalnum, NoValue

LEVEL = 'proof'


def states(n, sym):
    """all states in the order of the binary counter (all-down first)"""
    vals = (-1, 1) if sym else (0, 1)
    return [tuple(vals[b] for b in bits) for bits in itertools.product((0, 1), repeat=n)]


def subsets(n, order):
    return list(itertools.combinations(range(n), order))


def terms_of(n, order):
    """index sets in parameter order: singles, pairs, (triples)"""
    out = []
    for k in range(1, order + 1):
        out += subsets(n, k)
    return out


def val(s, sub):
    r = 1
    for i in sub:
        r *= s[i]
    return r


def energy(s, subs):
    return T.addn([T.scale(('idx', 'params', (T.num(k),)), val(s, sub)) for k, sub in enumerate(subs) if val(s, sub)])


class Lse:
    """summary of the log-sum-exp primitive: a pair (log|y|, sign y) for y = sum_k c_k exp(x_k)"""

    def __init__(self):
        self.reg = {}

    def name(self, xs, cs):
        # order of the terms is irrelevant for the sum
        key = tuple(sorted(zip(xs, cs), key=lambda p: (T.key(p[0]), p[1])))
        for n, k in self.reg.items():
            if k == key:
                return n
        n = 'lse%d' % len(self.reg)
        self.reg[n] = key
        return n

    def handler(self, it, st, args, kw, node):
        X = args[0] if args else kw.get('X')
        C = args[1] if len(args) > 1 else kw.get('coeffs')
        xs = it.items_of(st, X) if not isinstance(X, I.Ref) else None
        a = it.arr(st, X)
        if a is None or len(a[0]) != 1 or T.int_val(a[0][0]) is None:
            return I.opaque('log-sum-exp of unmodelled terms')
        n = T.int_val(a[0][0])
        xs = [a[1]((T.num(i),)) for i in range(n)]
        if C is None or C == T.NONE:
            cs = [1] * n
        else:
            c = it.arr(st, C)
            if c is None:
                return I.opaque('coefficients')
            if c[0] == ():
                v = T.num_val(c[1](()))
                cs = [v] * n
            else:
                if T.int_val(c[0][0]) != n:
                    return I.Tup((I.opaque('coefficient count %s for %d terms' % (c[0], n)), I.opaque('coefficient count')))
                cs = [T.num_val(c[1]((T.num(i),))) for i in range(n)]
            if any(v is None for v in cs):
                return I.opaque('coefficients')
        nm = self.name(xs, [int(v) if v.denominator == 1 else v for v in cs] if not isinstance(cs[0], int) else cs)
        return I.Tup((T.sym(nm + '.log'), T.sym(nm + '.sign')))


def strip_nan(t):
    """isnan(x) -> 0 replacement is the identity wherever the value is defined"""
    def f(a):
        if a[0] == 'ite' and a[1][0] == 'b' and a[1][1][:2] == ('fn', 'isnan') and a[2] == T.ZERO:
            return a[3]
        if a[0] == 'ite' and a[1][0] == 'not' and a[1][1][0] == 'b' and a[1][1][1][:2] == ('fn', 'isnan') and a[3] == T.ZERO:
            return a[2]
        return a
    return T.map_term(t, f)


def evaluate(ctx, modname, fname, nparam):
    r = ctx.find(modname, fname)
    L = Lse()
    lib = dict(LM.TABLE)
    lib.update({'mpmath.exp': LM.TABLE['numpy.exp'], 'mpmath.isnan': lambda it, st, a, kw, node, f: T.FALSE})
    it = I.Interp(ctx.proj, externs={'coniii.enumerate:fast_logsumexp': L.handler, 'coniii.enumerate:mp_fast_logsumexp': L.handler}, unroll=4096, lib=lib)
    st = I.State()
    params = it.sym_array(st, 'params', (T.num(nparam),))
    outs = it.run(I.Func(r[2], r[1]), [params], {}, st)
    return L, it, outs


def run(ctx):
    ctx.rule('T1', 'weight of every observable equals sum_s o_k(s) exp(E(s)) / sum_s exp(E(s)) over all states, E(s)=sum_k theta_k o_k(s)')
    ctx.rule('T2', 'i-th probability equals exp(E(s_i))/Z with s_i the i-th state of the counter')
    ctx.rule('T3', 'output length is the number of parameters / states')
    ctx.rule('writer', 'the equation writers emit, under the documented name, a module that satisfies T1 to T3 for the requested model')
    ctx.rule('log-sum-exp', 'the shared primitive returns the logarithm of the size and the sign of sum_k c_k exp(x_k) without leaving the range of floating point numbers')
    d = os.path.join(ctx.proj.repo, 'coniii', 'ising_eqn')
    mods = []
    for f in sorted(os.listdir(d)):
        m = re.fullmatch(r'ising_eqn_(\d+)(_sym)?(_triplet)?(_hp)?\.py', f)
        if m:
            mods.append((f[:-3], int(m.group(1)), bool(m.group(2)), 3 if m.group(3) else 2))
    if len(mods) < 19:
        ctx.undecided('T3', 'coniii/ising_eqn', 'only %d equation modules found' % len(mods))
    for name in ('fast_logsumexp', 'mp_fast_logsumexp'):
        ctx.guard('log-sum-exp', 'coniii/enumerate.py:' + name, logsumexp, ctx, name)
    written(ctx)
    for name, n, sym, order in mods:
        modname = 'coniii.ising_eqn.' + name
        ising(ctx, modname, modname.replace('.', '/') + '.py', n, sym, terms_of(n, order))


def ising(ctx, modname, path, n, sym, subs):
    sts = states(n, sym)
    content(ctx, modname, path, [energy(s, subs) for s in sts], sts, [('spins %s' % (sub,), [val(s, sub) for s in sts]) for sub in subs])


def content(ctx, modname, path, en, sts, weights):
    """the two functions of an equation module against the model with energies en of the states sts and the weights of the observables"""
    # ---- observables
    def obs():
        L, it, outs = evaluate(ctx, modname, 'calc_observables', len(weights))
        if len(outs) != 1 or outs[0][1][0] != 'ret':
            ctx.undecided('T1', path + ':calc_observables', '%d paths' % len(outs))
            return
        st, (_, v) = outs[0]
        a = it.arr(st, v)
        if a is None or len(a[0]) != 1:
            ctx.undecided('T1', path + ':calc_observables', 'result not an array')
            return
        m = T.int_val(a[0][0])
        if m != len(weights):
            ctx.bad('T3', path + ':calc_observables', 'returns %s values for %d parameters' % (m, len(weights)))
            return
        ctx.ok('T3', path + ':calc_observables')
        want_one = L.name(en, [1] * len(en))
        for k, (label, cs) in enumerate(weights):
            con = '%s:calc_observables element %d (%s)' % (path, k, label)
            wn = L.name(en, cs)
            got = strip_nan(it.elem(st, v, (T.num(k),)))
            want = T.mul(T.exp(T.sub(T.sym(wn + '.log'), T.sym(want_one + '.log'))), T.sym(wn + '.sign'))
            # zero-coefficient states contribute nothing
            if got == want or got_norm(L, got) == got_norm(L, want):
                ctx.ok('T1', con)
            elif any(x[0] == 'opaque' for x in T.subterms(got)):
                why = [x[2] for x in T.subterms(got) if x[0] == 'opaque'][0]
                if 'coefficient count' in why:
                    ctx.bad('T1', con, 'weight vector has the wrong length: ' + why)
                else:
                    ctx.undecided('T1', con, why)
            else:
                ctx.bad('T1', con, explain(L, got, en, cs, sts, label))
    ctx.guard('T1', path + ':calc_observables', obs)

    def prob():
        L, it, outs = evaluate(ctx, modname, 'p', len(weights))
        if len(outs) != 1 or outs[0][1][0] != 'ret':
            ctx.undecided('T2', path + ':p', '%d paths' % len(outs))
            return
        st, (_, v) = outs[0]
        a = it.arr(st, v)
        if a is None or len(a[0]) != 1:
            ctx.undecided('T2', path + ':p', 'result not an array')
            return
        if T.int_val(a[0][0]) != len(sts):
            ctx.bad('T3', path + ':p', 'returns %s values for %d states' % (T.int_val(a[0][0]), len(sts)))
            return
        one_ = L.name(en, [1] * len(en))
        for i, s in enumerate(sts):
            con = '%s:p element %d (state %s)' % (path, i, s)
            got = strip_nan(it.elem(st, v, (T.num(i),)))
            want = T.exp(T.sub(en[i], T.sym(one_ + '.log')))
            if got == want or got_norm(L, got) == got_norm(L, want):
                ctx.ok('T2', con)
            elif any(x[0] == 'opaque' for x in T.subterms(got)):
                ctx.undecided('T2', con, [x[2] for x in T.subterms(got) if x[0] == 'opaque'][0])
            else:
                ctx.bad('T2', con, 'log-weight is %s, definition gives %s - log Z' % (short(got, 300), short(en[i], 300)))
    ctx.guard('T2', path + ':p', prob)


# ------------------------------------------------------------------ the primitive
def logsumexp(ctx, name):
    r = ctx.find('coniii.enumerate', name)
    lib = dict(LM.TABLE)
    lib.update({'mpmath.exp': LM.TABLE['numpy.exp'], 'mpmath.log': LM.TABLE['numpy.log']})
    for n in (1, 2, 3, 5):
        for weighted in (False, True):
            con = 'coniii/enumerate.py:%s of %d terms%s' % (name, n, ' with coefficients' if weighted else '')
            it = I.Interp(ctx.proj, unroll=64, lib=lib)
            it.max_paths = 500
            st = I.State()
            a = [it.sym_array(st, 'x', (T.num(n),))] + ([it.sym_array(st, 'c', (T.num(n),))] if weighted else [])
            outs = it.run(I.Func(r[2], r[1]), a, {}, st)
            ctx.guard('log-sum-exp', con, primitive, ctx, con, it, outs, n, weighted)


def primitive(ctx, con, it, outs, n, weighted):
    for k in range(60):
        rnd = random.Random(k)
        size = (1, 5, 30, 700, 5000)[k % 5]
        x = [rnd.uniform(-size, size) + (0, 0, -900, 900)[k % 4] for _ in range(n)]
        c = [rnd.choice((-1, 1, 1, 0, rnd.uniform(-2, 2))) for _ in range(n)] if weighted else [1] * n
        m = max(x)
        y = math.fsum(b * math.exp(a - m) for a, b in zip(x, c))
        if y == 0 or abs(y) < 1e-9:
            continue

        def env(t):
            if t[0] == 'idx' and t[1] in ('x', 'c'):
                return {'x': x, 'c': c}[t[1]][T.int_val(t[2][0])]
            return None
        live = []
        for s, sig in outs:
            try:
                if all(evalnum(q, env) for q in s.pc):
                    live.append((s, sig))
            except NoValue as e:
                if 'domain' not in str(e):
                    raise Undecided(str(e))
                ctx.bad('log-sum-exp', con, 'leaves the range of floating point numbers for terms %s' % ['%.4g' % v for v in x])
                return
        if len(live) != 1 or live[0][1][0] != 'ret':
            raise Undecided('%d paths at one point' % len(live))
        s, (_, v) = live[0]
        items = it.items_of(s, v)
        if items is None or len(items) != 2:
            raise Undecided('result')
        try:
            got = [evalnum(q if I.is_term(q) else it.arr(s, q)[1](()), env) for q in items]
        except NoValue as e:
            if 'domain' not in str(e):
                raise Undecided(str(e))
            ctx.bad('log-sum-exp', con, 'leaves the range of floating point numbers for terms %s' % ['%.4g' % v for v in x])
            return
        want = (math.log(abs(y)) + m, 1. if y > 0 else -1.)
        if abs(got[0] - want[0]) > 1e-6 * (1 + abs(want[0])) or got[1] != want[1]:
            ctx.bad('log-sum-exp', con, 'gives (%.6g, %g) instead of (%.6g, %g) for terms %s, coefficients %s' % (tuple(got) + want + (['%.4g' % v for v in x], ['%.4g' % v for v in c])))
            return
    ctx.ok('log-sum-exp', con, '%d paths' % len(outs))


# ------------------------------------------------------------------ the writers
def written(ctx):
    thorough = ctx.tier == 'thorough'
    W = 'coniii/enumerate.py:'
    for hp in (False, True):
        for n in (2, 3, 4, 5, 6) if not hp else (2, 3):
            for sym in (0, 1):
                for fn, order in (('pairwise', 2), ('triplet', 3)):
                    if n < order or n >= 5 and order == 3 and not thorough and not sym or n == 6 and not thorough and (sym or order == 3):
                        continue
                    con = '%s%s(%d, %d%s)' % (W, fn, n, sym, ', high_prec=True' if hp else '')
                    name = 'ising_eqn/ising_eqn_%d%s%s%s.py' % (n, '_sym' if sym else '', '_triplet' if order == 3 else '', '_hp' if hp else '')
                    ctx.guard('writer', con, emitted, ctx, con, 'coniii.enumerate', fn, [T.num(n), T.num(sym)], {'high_prec': T.TRUE} if hp else {}, name,
                              lambda mod, path, n=n, sym=sym, order=order: ising(ctx, mod, path, n, bool(sym), terms_of(n, order)))
    # other sets of correlations
    for n, sets in ((3, [[0, 1, 2], [(0, 1), (1, 2)]]), (4, [[0, 1, 2, 3], [(0, 3), (1, 2), (2, 3)], [(0, 1, 3)], [(0, 1, 2, 3)]]), (4, [[0, 1, 2, 3]])):
        sets = [[(q,) if isinstance(q, int) else q for q in s] for s in sets]
        for sym in (0, 1):
            con = '%swrite_eqns(%d, %d, %s)' % (W, n, sym, sets[1:])
            ctx.guard('writer', con, emitted, ctx, con, 'coniii.enumerate', 'write_eqns', [T.num(n), T.num(sym), sets, ('str', '_own')], {}, 'ising_eqn/ising_eqn_%d_own.py' % n,
                      lambda mod, path, n=n, sym=sym, sets=sets: ising(ctx, mod, path, n, bool(sym), [q for s in sets for q in s]))
    for n, k in ((3, 2), (3, 3), (4, 2), (3, 5)) + (((4, 3), (5, 2), (3, 8)) if thorough else ()):
        con = 'coniii/enumerate_potts.py:SpecificFieldGenericCouplings(%d, %d).write' % (n, k)
        ctx.guard('writer', con, emitted, ctx, con, 'coniii.enumerate_potts', 'SpecificFieldGenericCouplings', [T.num(n), T.num(k)], {}, 'ising_eqn/potts.py',
                  lambda mod, path, n=n, k=k: potts(ctx, mod, path, n, k))


def emitted(ctx, con, mod, fn, args, kw, name, check):
    """the text the writer puts into its file is taken as a module of the package and analysed like the shipped ones"""
    r = ctx.find(mod, fn)
    files = strings.Files()
    it = I.Interp(ctx.proj, unroll=8192, lib=strings.lib_table(files))
    it.max_paths = 200
    st = I.State()

    def up(a):
        if isinstance(a, list):
            return it.alloc(st, I.ListC([I.Tup([it.alloc(st, I.ListC([T.num(q[j]) for q in s])) for j in range(len(s[0]))]) for s in a]))
        return a
    args = [up(a) for a in args]
    if r[0] == 'class':
        outs = []
        for s, o in it.call(st, I.Cls(r), args, kw, None):
            outs += [s2 for s2, _ in it.call(s, it.getattr(s, o, 'write'), [('str', name)], {}, None)]
    else:
        outs = [s for s, sig in it.run(I.Func(r[2], r[1]), args, kw, st) if sig[0] == 'ret']
    if not outs:
        ctx.bad('writer', con, 'always raises')
        return
    texts = []
    for s in outs:
        got = strings.written(s)
        if name not in got:
            if len(got) == 1 and None not in got:
                ctx.bad('writer', con, 'writes %s instead of %s' % (list(got)[0], name))
                return
            raise Undecided('file name')
        if got[name] is None:
            raise Undecided('text that is not determined')
        if any(isinstance(c, tuple) and c[0] == 'b' and c[1][0] == 'opaque' for c in s.pc):
            raise Undecided('paths')
        if got[name] not in texts:
            texts.append(got[name])
    for t in texts:
        COUNT[0] += 1
        name = 'coniii.ising_eqn.emitted%d' % COUNT[0]
        try:
            ast.parse(t)
        except SyntaxError as e:
            ctx.bad('writer', con, 'the module written does not parse: %s' % e)
            return
        ctx.proj.modules[name] = Module(ctx.proj, name, os.path.join(ctx.proj.repo, 'coniii', 'ising_eqn', 'emitted.py'), t)
        check(name, con)
        del ctx.proj.modules[name]
    ctx.ok('writer', con, '%d texts' % len(texts))


COUNT = [0]


def potts(ctx, modname, path, n, k):
    sts = list(itertools.product(range(k), repeat=n))
    pr = list(itertools.combinations(range(n), 2))
    ix = lambda j: ('idx', 'params', (T.num(j),))
    en = [T.addn([ix(s[i] * n + i) for i in range(n)] + [ix(n * k + c) for c, (i, j) in enumerate(pr) if s[i] == s[j]]) for s in sts]
    w = [('spin %d in state %d' % (i, q), [int(s[i] == q) for s in sts]) for q in range(k) for i in range(n)]
    w += [('pair %s' % (p,), [int(s[p[0]] == s[p[1]]) for s in sts]) for p in pr]
    content(ctx, modname, path, en, sts, w)


def got_norm(L, t):
    """drop zero-coefficient entries from the named sums"""
    ren = {}
    canon = {}
    for n, key in L.reg.items():
        k = tuple(p for p in key if p[1] != 0)
        canon.setdefault(k, n)
        for s in ('.log', '.sign'):
            ren[T.sym(n + s)] = T.sym(canon[k] + s)
        if k and all(p[1] > 0 for p in k):
            ren[T.sym(n + '.sign')] = T.ONE
    return T.subst(t, ren)


def explain(L, got, en, cs, sts, sub):
    names = sorted({x[1].split('.')[0] for x in T.subterms(got) if x[0] == 'sym' and x[1].startswith('lse')})
    msg = ['value is %s' % short(got, 200)]
    es = {T.key(e): s for e, s in zip(en, sts)}
    for nm in names:
        key = L.reg[nm]
        unknown = [short(x, 120) for x, c in key if T.key(x) not in es]
        if unknown:
            msg.append('%s uses energies of no state: %s' % (nm, unknown[:3]))
        missing = [s for k, s in es.items() if k not in {T.key(x) for x, _ in key}]
        if missing:
            msg.append('%s misses states %s' % (nm, missing[:3]))
        d = {T.key(x): c for x, c in key}
        wrong = [(s, d.get(T.key(e)), c) for e, c, s in zip(en, cs, sts) if d.get(T.key(e), c) not in (c,)]
        if wrong and set(d.values()) != {1}:
            msg.append('%s weights state %s with %s instead of %s (%d states differ)' % ((nm,) + wrong[0] + (len(wrong),)))
    return '; '.join(msg)
