"""Abstract execution environment of the native classes (lowered by sa/cxx.py) and rules about them."""
import ast
from .. import terms as T
from .. import interp as I
from .. import facts as FX
from .. import rng as R
from .. import cxx
from ..project import Undecided
from .common import *

_unit = {}


def unit():
    if 'u' not in _unit:
        _unit['u'] = cxx.Unit()
    return _unit['u']


class NativeModule:
    """presents the lowered classes to the interpreter as a module"""

    def __init__(self, proj, u):
        self.proj, self.name, self.path, self.rel, self.pkg = proj, 'native', u.path, u.rel, 'native'
        self.src = ''
        self.stars = []
        self.defs = {}
        self.u = u
        for c, d in u.classes.items():
            body = []
            for m, l in d['methods'].items():
                for params, f in l:
                    g = ast.FunctionDef(name=f.name, args=f.args, body=f.body, decorator_list=[], lineno=1, col_offset=0)
                    if m == 'ctor':
                        g.name = 'ctor_%d_%d' % (1 if any('ndarray' in p for p in params) else 0, len(params))
                    else:
                        g.name = m
                    g.problems = f.problems
                    body.append(g)
            self.defs[c] = ('class', ast.ClassDef(name=c, bases=[ast.Name(id=b, ctx=ast.Load()) for b in d['bases']], keywords=[],
                                                  body=body or [ast.Pass()], decorator_list=[], lineno=1, col_offset=0))
        for fn, f in u.frees.items():
            self.defs[fn] = ('func', f)


def const_str(v):
    return v[1] if I.is_term(v) and v[0] == 'str' else None


def make_externs(mod):
    E = {}

    def ext(name, f):
        E['native:' + name] = I.Extern(name, f)

    def vec(it, st, args, kw, node):
        n, fill = args[0], args[1] if len(args) > 1 else T.ZERO
        if not I.is_term(n) or n[0] == 'opaque':
            return I.opaque('vector length')
        if I.is_term(fill):
            return it.new_arr(st, (n,), lambda idx, fill=fill: fill, None)
        a = it.arr(st, fill)
        if a is None:
            return I.opaque('vector fill')
        return it.new_arr(st, (n,) + tuple(a[0]), lambda idx, a=a: a[1](tuple(idx[1:])), a[2])

    def vcopy(it, st, args, kw, node):
        v = args[0]
        if I.is_term(v):
            return v
        if isinstance(v, I.Ref) and isinstance(st.heap[v.id], I.ListC):
            c = st.heap[v.id]
            return it.alloc(st, I.ListC(list(c.items), c.opaque))
        if isinstance(v, (I.Ref, I.Tup)):
            a = it.arr(st, v)
            if a is None:
                return I.opaque('copy of unmodelled vector')
            return it.new_arr(st, a[0], a[1], a[2])
        return I.opaque('copy')

    def clear(it, st, args, kw, node):
        v = args[0]
        if isinstance(v, I.Ref):
            st.heap[v.id] = I.ListC([])
            return v
        return it.alloc(st, I.ListC([]))

    def resize(it, st, args, kw, node):
        return I.opaque('vector resize')

    def vassign(it, st, args, kw, node):
        v = args[0]
        n = vec(it, st, args[1:], kw, node)
        if isinstance(v, I.Ref) and isinstance(n, I.Ref):
            st.heap[v.id] = st.heap[n.id]
            return v
        return n

    def uniform_int(it, st, args, kw, node):
        lo = args[0] if args else T.ZERO
        hi = args[1] if len(args) > 1 else I.opaque('int max')

        def draw(it, st, a, kw, node):
            src = a[0].name if a and isinstance(a[0], I.Extern) else 'unknown engine'
            v = R.scalar(it, st, src, 'int', (lo, T.add(hi, T.ONE) if I.is_term(hi) and hi[0] != 'opaque' else hi), True, node)
            if v[0] == 'sym' and I.is_term(hi) and hi[0] != 'opaque':
                st.pc += [T.ge(v, lo), T.le(v, hi)]
            return v
        return I.Extern('uniform_int', draw)

    def uniform_real(it, st, args, kw, node):
        lo = args[0] if args else T.ZERO
        hi = args[1] if len(args) > 1 else T.ONE

        def draw(it, st, a, kw, node):
            src = a[0].name if a and isinstance(a[0], I.Extern) else 'unknown engine'
            if lo == T.ZERO and hi == T.ONE:
                return R.scalar(it, st, src, 'unit', (), False, node)
            return R.scalar(it, st, src, 'real', (lo, hi), False, node)
        return I.Extern('uniform_real', draw)

    def mt(it, st, args, kw, node):
        st.events.append(('engine', tuple(args)))
        e = I.Extern('engine', lambda it, st, a, kw, node: R.scalar(it, st, 'engine', 'raw', (), True, node))
        e.seed = tuple(args)
        return e

    def random_device(it, st, args, kw, node):
        return I.Extern('random_device', lambda it, st, a, kw, node: T.sym('entropy'))

    def nonneg(st, x):
        v = T.num_val(x)
        if v is not None:
            return v >= 0
        return FX.Facts(st.pc).entails(T.ge(x, T.ZERO)) is True or sum_nonneg(st, x)

    def sum_nonneg(st, x):
        fx = FX.Facts(st.pc)
        for m, c in T.to_poly(x).items():
            if c < 0:
                return False
            for a, p in m:
                if fx.entails(T.ge(T.from_poly({((a, 1),): 1}), T.ZERO)) is not True:
                    return False
        return True

    def idiv(it, st, args, kw, node):
        a, b = args
        if not (I.is_term(a) and I.is_term(b)):
            return I.opaque('division')
        x, y = T.int_val(a), T.int_val(b)
        if x is not None and y:
            q = abs(x) // abs(y)
            return T.num(q if (x < 0) == (y < 0) else -q)
        if nonneg(st, a) and nonneg(st, b):
            return T.floordiv(a, b)
        return I.opaque('integer division of possibly negative operands')

    def imod(it, st, args, kw, node):
        a, b = args
        if not (I.is_term(a) and I.is_term(b)):
            return I.opaque('remainder')
        x, y = T.int_val(a), T.int_val(b)
        if x is not None and y:
            r = abs(x) % abs(y)
            return T.num(r if x >= 0 else -r)
        if nonneg(st, a) and nonneg(st, b):
            return T.mod(a, b)
        return I.opaque('remainder of possibly negative operand')

    def nd_shape(it, st, args, kw, node):
        a = it.arr(st, args[0])
        k = T.int_val(args[1])
        if a is None or k is None or k >= len(a[0]):
            return I.opaque('shape')
        return a[0][k]

    def nd_astype(it, st, args, kw, node):
        st.events.append(('astype', args[0], const_str(args[1])))
        a = it.arr(st, args[0])
        if a is None:
            return I.opaque('astype')
        t = const_str(args[1]) or ''
        r = it.new_arr(st, a[0], a[1], 'float' if 'double' in t else 'int')
        st.events.append(('converted', r, t))
        return r

    def nd_get_data(it, st, args, kw, node):
        st.events.append(('get_data', args[0]))
        return args[0]

    def reinterpret(it, st, args, kw, node):
        st.events.append(('reinterpret', args[0], const_str(args[1])))
        return args[0]

    def nd_copy(it, st, args, kw, node):
        st.events.append(('nd_copy', args[0]))
        a = it.arr(st, args[0])
        if a is None:
            return args[0]
        r = it.new_arr(st, a[0], a[1], a[2])
        st.events.append(('owned', r))
        return r

    def from_data(it, st, args, kw, node):
        ptr, dt, shape, stride = args[:4]
        a = it.arr(st, ptr)
        sh = it.items_of(st, shape)
        sd = it.items_of(st, stride)
        if a is None or len(a[0]) != 1 or sh is None or sd is None or len(sh) != len(sd):
            return I.opaque('from_data')
        t = const_str(dt) or ''
        size = 8 if 'double' in t else 4 if '<int>' in t else None
        sds = [T.int_val(x) for x in sd]
        if size is None or any(x is None or x % size for x in sds):
            return I.opaque('from_data strides')
        st.events.append(('from_data', a[0], tuple(sh), tuple(sds), t, a[2]))
        steps = [x // size for x in sds]

        def fn(idx, a=a, steps=steps):
            return a[1]((T.addn([T.scale(i, s) for i, s in zip(idx, steps)]),))
        return it.new_arr(st, tuple(sh), fn, 'float' if 'double' in t else 'int')

    def addressof(it, st, args, kw, node):
        return args[0]

    def sizeof(it, st, args, kw, node):
        t = const_str(args[0]) or ''
        return T.num({'int': 4, 'double': 8, 'float': 4, 'long': 8, 'char': 1, 'unsigned long': 8}.get(t, 0)) if t in (
            'int', 'double', 'float', 'long', 'char', 'unsigned long') else I.opaque('sizeof ' + t)

    def trunc(it, st, args, kw, node):
        v = args[0]
        if I.is_term(v) and T.is_int_valued(v):
            return v
        return I.opaque('truncation')

    ext('__vec', vec)
    ext('__vcopy', vcopy)
    ext('__vec_clear', clear)
    ext('__vec_resize', resize)
    ext('__vec_assign', vassign)
    ext('__uniform_int', uniform_int)
    ext('__uniform_real', uniform_real)
    ext('__mt', mt)
    ext('__random_device', random_device)
    ext('__idiv', idiv)
    ext('__imod', imod)
    ext('__nd_shape', nd_shape)
    ext('__nd_astype', nd_astype)
    ext('__nd_get_data', nd_get_data)
    ext('__reinterpret', reinterpret)
    ext('__nd_copy', nd_copy)
    ext('__from_data', from_data)
    ext('__addressof', addressof)
    ext('__sizeof', sizeof)
    ext('__trunc', trunc)
    ext('__print', lambda it, st, a, kw, node: T.NONE)
    ext('__builtin_dtype', lambda it, st, a, kw, node: a[0])
    ext('__default', lambda it, st, a, kw, node: I.opaque('default object'))
    ext('__unknown', lambda it, st, a, kw, node: I.opaque('native: ' + (const_str(a[0]) or '?')))
    for fn, lib in (('exp', 'numpy.exp'), ('log', 'numpy.log'), ('sqrt', 'numpy.sqrt'), ('fabs', 'numpy.abs'), ('abs', 'numpy.abs'),
                    ('pow', 'builtins.pow'), ('tanh', 'numpy.tanh'), ('cosh', 'numpy.cosh'), ('floor', 'numpy.floor'), ('log1p', 'numpy.log1p'),
                    ('expm1', 'numpy.expm1'), ('ceil', 'numpy.ceil')):
        def h(it, st, a, kw, node, lib=lib):
            return it.call(st, I.Lib(lib), a, kw, node)
        ext('__math_' + fn, h)
    for c in mod.u.classes:
        for kind in (0, 1):
            def base(it, st, a, kw, node, c=c, kind=kind):
                cls = mod.proj.resolve(mod, c)
                m = ctor(mod, cls, kind)
                if m is None:
                    return I.opaque('base constructor')
                return it.call_func(st, I.Func(m, mod, None, cls, a[0]), list(a[1:]), {}, node)
            ext('__basector_%s_%d' % (c, kind), base)
    return E


def ctor(mod, cls, kind):
    for s in cls[2].body:
        if isinstance(s, ast.FunctionDef) and s.name.startswith('ctor_%d_' % kind) and not s.name.endswith('_0'):
            return s
    return None


def env(ctx, **ik):
    """(interp, module) for native code"""
    u = unit()
    mod = NativeModule(ctx.proj, u)
    it = I.Interp(ctx.proj, externs=make_externs(mod), unroll=ik.pop('unroll', 4096), **ik)
    it.native = True
    return it, mod


def construct(ctx, it, mod, cname, n, params, st, seed=None, kind=1):
    """run the constructor on symbolic parameters -> [(state, object)]"""
    cls = mod.proj.resolve(mod, cname)
    if cls is None:
        raise Undecided('native class %s not found' % cname)
    m = ctor(mod, cls, kind)
    if m is None:
        raise Undecided('constructor of %s' % cname)
    o = it.alloc(st, I.ObjC(cls, {}, cname))
    outs = it.run(I.Func(m, mod, None, cls, o), [num(n), params, seed if seed is not None else num(7)], {}, st)
    return [(s, o) for s, _ in normal(outs)], cls


def call_method(ctx, it, mod, st, o, cls, name, args):
    m = mod.proj.method(cls, name)
    if m is None:
        raise Undecided('native method %s not found' % name)
    ctx.analysed.add('cpp/samplers.cpp:%s::%s' % (m[3][2].name, name))
    if getattr(m[2], 'problems', None):
        raise Undecided('; '.join(m[2].problems))
    return it.run(I.Func(m[2], m[1], None, m[3], o), args, {}, st)


def nparam(cname, n):
    return (n if cname == 'Ising' else 3 * n) + n * (n - 1) // 2


def obs_native(cname, n, x):
    from . import c02
    return c02.obs_ising(n, x) if cname == 'Ising' else c02.obs_potts(n, x, 3)


def domain_facts(cname, n, nm='X'):
    """facts about the elements of a state"""
    out = []
    for i in range(n):
        e = idx(nm, i)
        if cname == 'Potts3':
            out += [T.ge(e, T.ZERO), T.lt(e, num(3))]
    return out


def potts_cases(t, env):
    return T.subst(t, env)


def energies(ctx, rule):
    for cname in ('Ising', 'Potts3'):
        for n in (2, 3, 4):
            ctx.guard(rule, 'cpp/samplers.cpp:%s::calc_e n=%d' % (cname, n), energy_one, ctx, rule, cname, n)


def same_on_domain(cname, got, want, n, nm='X', facts=()):
    """compare polynomials in the spins; Potts terms are compared on every assignment of the three values"""
    if cname == 'Ising':
        got, want = reduce_spins(got, (nm,)), reduce_spins(want, (nm,))
        return equal(got, want, list(facts)), got, want
    import itertools as itl
    verdict = True
    for s in itl.product(range(3), repeat=n):
        e = {idx(nm, i): num(v) for i, v in enumerate(s)}
        g, w = T.subst(got, e), T.subst(want, e)
        v = equal(g, w, [])
        if v is False:
            return False, g, w
        if v is None:
            verdict = None
    return verdict, got, want


def energy_one(ctx, rule, cname, n):
    it, mod = env(ctx)
    st = I.State()
    th = it.sym_array(st, 'th', (num(nparam(cname, n)),))
    objs, cls = construct(ctx, it, mod, cname, n, th, st)
    con = 'cpp/samplers.cpp:%s::calc_e n=%d' % (cname, n)
    if not objs:
        raise Undecided('constructor has no normal path')
    s0, o = objs[0]
    want = T.neg(T.addn([T.mul(idx('th', k), f) for k, f in enumerate(obs_native(cname, n, lambda i: idx('X', i)))]))
    if cname == 'Ising':
        X = it.sym_array(s0, 'X', (num(n),), 'int')
        outs = call_method(ctx, it, mod, s0, o, cls, 'calc_e', [X])
        check_cases(ctx, rule, con, cname, n, normal(outs), want, 'energy')
        return
    import itertools as itl
    for s in itl.product(range(3), repeat=n):
        st1 = s0.copy()
        X = const_arr(it, st1, s)
        outs = normal(call_method(ctx, it, mod, st1, o, cls, 'calc_e', [X]))
        w = T.subst(want, {idx('X', i): num(v) for i, v in enumerate(s)})
        if len(outs) != 1:
            ctx.undecided(rule, con + ' state %s' % (s,), '%d paths' % len(outs))
            continue
        compare(ctx, rule, con + ' state %s' % (s,), outs[0][1], w)


def const_arr(it, st, vals):
    vals = [num(v) if isinstance(v, int) else v for v in vals]

    def fn(ix, vals=vals):
        k = T.int_val(ix[0])
        if k is None or not -len(vals) <= k < len(vals):
            return I.opaque('index of constant state')
        return vals[k]
    return it.new_arr(st, (num(len(vals)),), fn, 'int')


def check_cases(ctx, rule, con, cname, n, paths, want, what):
    """paths partition the states; every path's value has to agree with `want` on the states it covers"""
    import itertools as itl
    if cname == 'Ising' and len(paths) == 1:
        v, g, w = same_on_domain(cname, paths[0][1], want, n)
        ctx.expect(rule, con, v, '%s is %s, definition gives %s' % (what, short(g), short(w)) if v is False else opaque_why(paths[0][1]))
        return
    vals = (-1, 1) if cname == 'Ising' else (0, 1, 2)
    verdict, msg = True, ''
    for s in itl.product(vals, repeat=n):
        e = {idx('X', i): num(v) for i, v in enumerate(s)}
        hit = 0
        for st, v in paths:
            conds = [T.subst(c, e) for c in st.pc]
            if any(c == T.FALSE for c in conds):
                continue
            hit += 1
            r = equal(T.subst(v, e), T.subst(want, e), [c for c in conds if c != T.TRUE])
            if r is False:
                verdict, msg = False, 'state %s: %s is %s, definition gives %s' % (s, what, short(T.subst(v, e)), short(T.subst(want, e)))
                break
            if r is None:
                verdict, msg = None, opaque_why(v)
        if verdict is False:
            break
        if not hit:
            verdict, msg = None, 'no path for state %s' % (s,)
    ctx.expect(rule, con, verdict, msg)
