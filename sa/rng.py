"""Abstract random generators: every draw is a fresh symbol recorded as an event with its source and distribution."""
from . import terms as T
from . import interp as I


def fresh(it, st, kind):
    st.draws += 1
    return '%s#%d' % (kind, st.draws)


class NeedDraw(Exception):
    """an integer draw beyond the plan of the current run: the driver re-runs with every value of [lo, hi)"""


def scalar(it, st, src, kind, args, integer=False, node=None):
    plan = getattr(it, 'plan', None)
    if plan is not None and kind == 'int' and it.loop_depth == 0:
        lo, hi = T.int_val(args[0]), T.int_val(args[1])
        if lo is not None and hi is not None and 0 < hi - lo <= 16:
            pos = sum(1 for e in st.events if e[0] == 'planned')
            if pos >= len(plan):
                raise NeedDraw(lo, hi)
            k, width = plan[pos]
            if width != hi - lo or not lo <= k < hi:
                return I.opaque('draw plan mismatch')
            st.events.append(('planned', src, (lo, hi), k))
            st.events.append(('draw', src, kind, args, T.num(k), getattr(node, 'lineno', 0)))
            return T.num(k)
    if it.loop_depth > 0:
        st.events.append(('draw', src, kind, args, None, getattr(node, 'lineno', 0)))
        return I.opaque('random draw in a summarised loop')
    nm = fresh(it, st, 'd')
    if integer:
        T.INT_SYMS.add(nm)
    v = T.sym(nm)
    st.events.append(('draw', src, kind, args, v, getattr(node, 'lineno', 0)))
    return v


def array(it, st, src, kind, args, shape, integer=False, node=None):
    if it.loop_depth > 0:
        st.events.append(('draw', src, kind, args, None, getattr(node, 'lineno', 0)))
        return I.opaque('random draw in a summarised loop')
    nm = fresh(it, st, 'D')
    r = it.sym_array(st, nm, shape, 'int' if integer else 'float')
    st.events.append(('draw', src, kind, args, ('arr', nm), getattr(node, 'lineno', 0)))
    return r


def shape_of(it, st, v):
    from .libmodel import shape_of
    return shape_of(it, st, v)


def unit(it, st, src, size, node):
    if size is None or size == T.NONE:
        return scalar(it, st, src, 'unit', (), False, node)
    s = shape_of(it, st, size)
    if s is None:
        return I.opaque('random array of unknown shape')
    return array(it, st, src, 'unit', (), s, False, node)


def m_rand(src):
    def h(it, st, args, kw, node):
        if not args:
            return unit(it, st, src, None, node)
        return unit(it, st, src, I.Tup(args), node)
    return h


def m_random(src):
    def h(it, st, args, kw, node):
        return unit(it, st, src, args[0] if args else kw.get('size'), node)
    return h


def m_randint(src):
    def h(it, st, args, kw, node):
        lo = args[0] if args else kw.get('low')
        hi = args[1] if len(args) > 1 else kw.get('high')
        size = args[2] if len(args) > 2 else kw.get('size')
        if hi is None or hi == T.NONE:
            lo, hi = T.ZERO, lo
        for x in (lo, hi):
            if not I.is_term(x):
                return I.opaque('randint bounds')
        if size is None or size == T.NONE:
            v = scalar(it, st, src, 'int', (lo, hi), True, node)
            if v[0] == 'sym':
                st.pc += [T.ge(v, lo), T.lt(v, hi)]
            return v
        s = shape_of(it, st, size)
        if s is None:
            return I.opaque('random array of unknown shape')
        return array(it, st, src, 'int', (lo, hi), s, True, node)
    return h


def m_uniform(src):
    def h(it, st, args, kw, node):
        size = args[2] if len(args) > 2 else kw.get('size')
        u = unit(it, st, src, size, node)
        if not args:
            return u
        lo, hi = args[0], args[1] if len(args) > 1 else T.ONE
        return it.elementwise(st, lambda a: T.add(lo, T.mul(a, T.sub(hi, lo))), u)
    return h


def m_normal(src):
    def h(it, st, args, kw, node):
        size = args[2] if len(args) > 2 else kw.get('size')
        if size is None or size == T.NONE:
            return scalar(it, st, src, 'normal', tuple(args[:2]), False, node)
        s = shape_of(it, st, size)
        if s is None:
            return I.opaque('random array of unknown shape')
        return array(it, st, src, 'normal', tuple(args[:2]), s, False, node)
    return h


def m_choice(src):
    def h(it, st, args, kw, node):
        a = args[0] if args else kw.get('a')
        size = args[1] if len(args) > 1 else kw.get('size')
        p = kw.get('p')
        if p is not None and p != T.NONE:
            return I.opaque('weighted choice')
        repl = kw.get('replace', args[2] if len(args) > 2 else T.TRUE)
        items = None
        if I.is_term(a) and T.int_val(a) is not None:
            items = [T.num(i) for i in range(T.int_val(a))]
        else:
            items = it.items_of(st, a)
        if items is None:
            return I.opaque('choice from unknown population')
        n = T.num(len(items))
        if repl != T.TRUE and size is not None and size != T.NONE:
            nm = fresh(it, st, 'perm')
            s = shape_of(it, st, size)
            if s is None:
                return I.opaque('choice size')
            st.events.append(('draw', src, 'sample_without_replacement', (n,), ('arr', nm), getattr(node, 'lineno', 0)))
            return it.sym_array(st, nm, s, 'int')

        def pick(k):
            r = items[-1]
            for j in range(len(items) - 2, -1, -1):
                if not (I.is_term(items[j]) and I.is_term(r)):
                    return I.opaque('choice among non-numeric items')
                r = T.ite(T.eq(k, T.num(j)), items[j], r)
            return r
        if size is None or size == T.NONE:
            v = scalar(it, st, src, 'int', (T.ZERO, n), True, node)
            if v[0] != 'sym':
                return v
            st.pc += [T.ge(v, T.ZERO), T.lt(v, n)]
            return pick(v) if items != [T.num(i) for i in range(len(items))] else v
        s = shape_of(it, st, size)
        if s is None:
            return I.opaque('choice size')
        d = array(it, st, src, 'int', (T.ZERO, n), s, True, node)
        if I.is_term(d):
            return d
        return it.elementwise(st, pick, d)
    return h


def m_permutation(src):
    def h(it, st, args, kw, node):
        a = args[0]
        n, A = (a, None) if I.is_term(a) else (None, it.arr(st, a))
        if A is not None and len(A[0]) == 1:
            n = A[0][0]
        nm = fresh(it, st, 'perm')
        st.events.append(('draw', src, 'permutation', (n,) if n is not None else (), ('arr', nm), getattr(node, 'lineno', 0)))
        if n is None or it.loop_depth > 0:
            return I.opaque('permutation')
        p = it.sym_array(st, nm, (n,), 'int')
        if A is None or all(A[1]((T.num(i),)) == T.num(i) for i in range(min(3, T.int_val(n) if T.int_val(n) is not None else 0))) and A[1]((T.sym('?i'),)) == T.sym('?i'):
            return p
        m = T.int_val(n)
        if m is None or m > 64:
            return I.opaque('permutation')
        els = [A[1]((T.num(i),)) for i in range(m)]
        if not all(I.is_term(x) for x in els):
            return I.opaque('permutation')

        def pick(k):
            r = els[-1]
            for q in range(m - 2, -1, -1):
                r = T.ite(T.eq(k, T.num(q)), els[q], r)
            return r
        return it.elementwise(st, pick, p)
    return h


def m_seed(src):
    def h(it, st, args, kw, node):
        st.events.append(('seed', src, tuple(args), getattr(node, 'lineno', 0)))
        return T.NONE
    return h


def generator(src):
    """abstract RandomState called src"""
    return I.Extern('rng:' + src, methods={
        'rand': m_rand(src), 'random': m_random(src), 'random_sample': m_random(src), 'ranf': m_random(src), 'sample': m_random(src),
        'randint': m_randint(src), 'integers': m_randint(src), 'uniform': m_uniform(src), 'normal': m_normal(src),
        'standard_normal': m_normal(src), 'randn': m_normal(src), 'choice': m_choice(src), 'permutation': m_permutation(src), 'seed': m_seed(src)})


def lib_table():
    """numpy.random.* functions as draws from the process-wide generator"""
    g = generator('global')
    out = {}
    for k, h in g.methods.items():
        out['numpy.random.' + k] = (lambda h: lambda it, st, args, kw, node, f: h(it, st, args, kw, node))(h)

    def randomstate(it, st, args, kw, node, f):
        seed = args[0] if args else kw.get('seed', T.NONE)
        nm = 'RandomState(%s)' % (seed,) if I.is_term(seed) else 'RandomState(?)'
        st.events.append(('newrng', seed, getattr(node, 'lineno', 0)))
        return generator(nm)
    out['numpy.random.RandomState'] = randomstate
    out['numpy.random.default_rng'] = randomstate
    return out


def explore(it, run, limit=4000):
    """run() under every outcome of the integer draws it makes -> [(probability, plan, result)]"""
    from fractions import Fraction
    from .project import Undecided
    stack, out = [()], []
    while stack:
        plan = stack.pop()
        it.plan = plan
        try:
            r = run()
        except NeedDraw as e:
            lo, hi = e.args
            stack += [plan + ((k, hi - lo),) for k in range(hi - 1, lo - 1, -1)]
            if len(stack) > limit or len(plan) > 12:
                raise Undecided('too many random draws')
            continue
        finally:
            it.plan = None
        p = Fraction(1)
        for _, w in plan:
            p /= w
        out.append((p, plan, r))
    return out
