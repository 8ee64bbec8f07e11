"""Transfer functions for Python builtins, numpy/scipy and container methods used by the analysed code.

A handler is called as h(interp, st, args, kwargs, node, callee) and returns one value or [(state, value)].
Whatever is not modelled becomes an opaque value, which the rules treat as undecided."""
import itertools
import math
from fractions import Fraction
from . import terms as T
from . import facts as FX
from . import interp as I
from .project import Undecided

TABLE = {}
BUILTINS = {'range', 'len', 'enumerate', 'zip', 'list', 'tuple', 'int', 'float', 'abs', 'min', 'max', 'sum', 'type', 'isinstance',
            'map', 'sorted', 'print', 'str', 'set', 'frozenset', 'reversed', 'all', 'any', 'super', 'bool', 'dict', 'round', 'hasattr',
            'getattr', 'next', 'iter', 'open', 'callable', 'divmod', 'pow', 'filter', 'id', 'repr', 'vars', 'slice', 'complex'}


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
            if n.startswith('numpy.') and n.count('.') == 1:
                TABLE.setdefault('scipy.' + n.split('.')[1], f)
        return f
    return d


def opq(why):
    return I.opaque(why)


def is_ref(v):
    return isinstance(v, I.Ref)


def num01(x):
    return T.ite(x, T.ONE, T.ZERO) if T.is_cond(x) else x


def kwget(args, kw, k, name, default=None):
    if name in kw:
        return kw[name]
    if len(args) > k:
        return args[k]
    return default


def shape_of(it, st, v):
    """shape argument -> tuple of terms or None"""
    if isinstance(v, I.Tup):
        if all(I.is_term(x) for x in v.items):
            return tuple(v.items)
        return None
    if is_ref(v):
        xs = it.items_of(st, v)
        return tuple(xs) if xs is not None and all(I.is_term(x) for x in xs) else None
    if I.is_term(v) and v[0] not in ('opaque', 'none', 'str'):
        return (v,)
    return None


def dtype_of(v, default='float'):
    if v is None:
        return default
    n = None
    if isinstance(v, I.Lib):
        n = v.name.split('.')[-1]
    elif I.is_term(v) and v[0] == 'str':
        n = v[1].split(':')[-1]
    if n is None:
        return default
    if n.startswith('int') or n.startswith('uint') or n in ('i1', 'i8'):
        return 'int'
    if n.startswith('bool'):
        return 'bool'
    if n.startswith('float') or n == 'double':
        return 'float'
    return n


def const_arr(it, st, shape, t, dtype):
    return it.new_arr(st, shape, lambda idx, t=t: t, dtype)


@model('numpy.zeros', 'numpy.empty', 'numpy.ndarray')
def _zeros(it, st, a, kw, node, f):
    shp = shape_of(it, st, kwget(a, kw, 0, 'shape'))
    if shp is None:
        return opq('shape')
    dt = dtype_of(kwget(a, kw, 1, 'dtype'))
    if f.name.endswith('zeros'):
        t = T.FALSE if dt == 'bool' else T.ZERO
        return const_arr(it, st, shp, t, dt)
    u = T.sym('uninit%d' % I.new_id())
    return it.new_arr(st, shp, lambda idx, u=u: ('fn', 'uninit', u) + tuple(idx), dt)


@model('numpy.ones')
def _ones(it, st, a, kw, node, f):
    shp = shape_of(it, st, kwget(a, kw, 0, 'shape'))
    dt = dtype_of(kwget(a, kw, 1, 'dtype'))
    return opq('shape') if shp is None else const_arr(it, st, shp, T.TRUE if dt == 'bool' else T.ONE, dt)


@model('numpy.full')
def _full(it, st, a, kw, node, f):
    shp = shape_of(it, st, kwget(a, kw, 0, 'shape'))
    v = kwget(a, kw, 1, 'fill_value')
    dt = dtype_of(kwget(a, kw, 2, 'dtype'), None)
    import ast
    if dt is None and isinstance(node, ast.Call):
        e = node.args[1] if len(node.args) > 1 else next((k.value for k in node.keywords if k.arg == 'fill_value'), None)
        if isinstance(e, ast.Constant):
            dt = {int: 'int', float: 'float', bool: 'bool'}.get(type(e.value))
        elif isinstance(e, ast.Name) and (it.call_fid, e.id) in it.wholes:
            dt = 'int'
    return const_arr(it, st, shp, I.stored(v, dt, None) if dt in ('int', 'bool') else v, dt) if shp is not None and I.is_term(v) else opq('full')


@model('numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like')
def _zl(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    if x is None:
        return opq('zeros_like')
    return const_arr(it, st, x[0], T.ONE if 'ones' in f.name else T.ZERO, dtype_of(kw.get('dtype'), x[2]))


@model('numpy.eye', 'numpy.identity')
def _eye(it, st, a, kw, node, f):
    n = a[0]
    if not I.is_term(n):
        return opq('eye')
    return it.new_arr(st, (n, n), lambda idx: T.ite(I._cond([T.eq(idx[0], idx[1])]), T.ONE, T.ZERO), 'float')


@model('numpy.tri')
def _tri(it, st, a, kw, node, f):
    n = a[0]
    m = kwget(a, kw, 1, 'M', n)
    k = kwget(a, kw, 2, 'k', T.ZERO)
    if not all(I.is_term(x) for x in (n, m, k)):
        return opq('tri')
    if m == T.NONE:
        m = n
    return it.new_arr(st, (n, m), lambda idx: T.ite(I._cond([T.le(idx[1], T.add(idx[0], k))]), T.ONE, T.ZERO), 'float')


@model('numpy.triu', 'numpy.tril')
def _triu(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    k = kwget(a, kw, 1, 'k', T.ZERO)
    if x is None or len(x[0]) != 2 or not I.is_term(k):
        return opq('triu')
    up = f.name.endswith('triu')

    def fn(idx):
        c = T.ge(idx[1], T.add(idx[0], k)) if up else T.le(idx[1], T.add(idx[0], k))
        return T.ite(I._cond([c]), x[1](idx), T.ZERO)
    return it.new_arr(st, x[0], fn, x[2])


@model('numpy.arange')
def _arange(it, st, a, kw, node, f):
    import ast
    if 'dtype' not in kw and isinstance(node, ast.Call) and any(isinstance(x, ast.Constant) and isinstance(x.value, float) for q in node.args for x in ast.walk(q)):
        kw = {**kw, 'dtype': ('str', 'float')}
    if not all(I.is_term(x) and x[0] != 'opaque' for x in a) or len(a) > 3:
        return opq('arange')
    if len(a) == 3:
        v = [T.int_val(x) for x in a]
        if None in v or v[2] == 0:
            return opq('arange')
        return it.new_arr(st, (T.num(len(range(*v))),), lambda idx: T.add(a[0], T.mul(idx[0], a[2])), dtype_of(kw.get('dtype'), 'int'))
    lo, hi = (T.ZERO, a[0]) if len(a) == 1 else a
    n = T.sub(hi, lo)
    return it.new_arr(st, (n,), lambda idx: T.add(lo, idx[0]), dtype_of(kw.get('dtype'), 'int'))


@model('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.asanyarray', 'numpy.copy', 'numpy.vstack', 'numpy.require')
def _array(it, st, a, kw, node, f):
    v = a[0]
    if isinstance(v, (I.RangeV, I.EnumV, I.ZipV)) and it.arr(st, v) is None:
        xs = it.items_of(st, v)
        if xs is None:
            return opq('array')
        v = I.Tup(xs)
    if f.name.endswith('asarray') or f.name.endswith('asanyarray'):
        if is_ref(v) and isinstance(st.heap[v.id], (I.ArrC, I.View)) and 'dtype' not in kw and len(a) < 2:
            return v
    if f.name.endswith('ascontiguousarray') and len(a) == 1 and not kw and it.contiguous(st, v):
        return v
    if f.name == 'numpy.array' and kw.get('copy') == T.FALSE and len(a) == 1 and 'dtype' not in kw and is_ref(v) and isinstance(st.heap[v.id], (I.ArrC, I.View)):
        return v
    if f.name.endswith('vstack'):
        return _vstack(it, st, v)
    x = it.arr(st, v)
    if x is None:
        return opq('array of unmodelled value')
    dt = dtype_of(kwget(a, kw, 1, 'dtype'), x[2])
    if x[0] == ():
        return x[1](())
    fn = snapshot(it, st, v, x)
    if dt in ('int', 'bool') and x[2] != dt:
        fn = lambda idx, g=x[1], sd=x[2]: I.stored(g(idx), dt, sd)
        return it.new_arr(st, x[0], fn, dt)
    if dt is None and literal_ints(node):
        dt = 'int'
    if dt is None and len(x[0]) == 1 and 0 < (T.int_val(x[0][0]) or 0) <= 64 and all(x[1]((T.num(i),)) in (T.TRUE, T.FALSE) for i in range(T.int_val(x[0][0]))):
        dt = 'bool'
    r = it.new_arr(st, x[0], fn, dt)
    return _inherit(it, st, r, v)


def literal_ints(node):
    """the first argument of a call is written as a (nested) list of integers"""
    import ast

    def lit(e):
        if isinstance(e, (ast.List, ast.Tuple)):
            return bool(e.elts) and all(lit(x) for x in e.elts)
        return isinstance(e, ast.Constant) and type(e.value) is int or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and lit(e.operand)
    return isinstance(node, ast.Call) and bool(node.args) and isinstance(node.args[0], (ast.List, ast.Tuple)) and lit(node.args[0])


def snapshot(it, st, v, x):
    return x[1]


def _inherit(it, st, r, src):
    """copies keep the write records of the source so that quantified records stay visible"""
    if is_ref(src):
        c = st.heap[src.id]
        if isinstance(c, I.ArrC) and c.kind != 'view':
            d = st.heap[r.id]
            st.heap[r.id] = I.ArrC(c.shape, c.fn, c.writes, d.dtype, None, 'arr')
    return r


def _vstack(it, st, v):
    xs = it.items_of(st, v)
    if xs is None:
        a = it.arr(st, v)
        return v if a is not None and len(a[0]) == 2 else opq('vstack')
    parts = [it.arr(st, x) for x in xs]
    if any(p is None for p in parts):
        return opq('vstack')
    ps = []
    for p in parts:
        if len(p[0]) == 1:
            ps.append(((T.ONE,) + tuple(p[0]), (lambda idx, p=p: p[1](idx[1:])), p[2]))
        elif len(p[0]) == 2:
            ps.append(p)
        else:
            return opq('vstack')
    return _concat(it, st, ps, 0)


def _concat(it, st, ps, axis):
    if len({len(p[0]) for p in ps}) != 1:
        return opq('concatenate ranks')
    offs = [T.ZERO]
    for p in ps:
        offs.append(T.add(offs[-1], p[0][axis]))
    shape = list(ps[0][0])
    shape[axis] = offs[-1]

    def fn(idx):
        q = idx[axis]
        r = None
        for k in range(len(ps) - 1, -1, -1):
            def val(k=k):
                return ps[k][1](tuple(idx[:axis]) + (T.sub(q, offs[k]),) + tuple(idx[axis + 1:]))
            if r is None:
                # is q decided to lie in an earlier part?
                r = ('last', k)
                continue
            c = I._cond([T.lt(q, offs[k + 1])])
            if c == T.FALSE:
                continue
            if c == T.TRUE:
                r = ('val', None, k)
                continue
            r = ('ite', c, k, r)
        def build(r):
            if r[0] == 'last':
                k = r[1]
            elif r[0] == 'val':
                k = r[2]
            else:
                k = r[2]
            v = ps[k][1](tuple(idx[:axis]) + (T.sub(q, offs[k]),) + tuple(idx[axis + 1:]))
            if r[0] == 'ite':
                return T.ite(r[1], v, build(r[3]))
            return v
        return build(r)
    dts = {p[2] for p in ps}
    return it.new_arr(st, tuple(shape), fn, dts.pop() if len(dts) == 1 else None)


@model('numpy.concatenate', 'numpy.hstack', 'numpy.append')
def _conc(it, st, a, kw, node, f):
    v = I.Tup(a[:2]) if f.name.endswith('append') else a[0]
    xs = it.items_of(st, v)
    if xs is None:
        return opq('concatenate')
    ps = [it.arr(st, x) for x in xs]
    if any(p is None for p in ps):
        return opq('concatenate')
    if f.name.endswith('hstack') or f.name.endswith('append'):
        ps = [p if p[0] else ((T.ONE,), (lambda idx, p=p: p[1](())), p[2]) for p in ps]
    ax = kwget(a, kw, 1, 'axis', T.ZERO) if f.name.endswith('concatenate') else T.ZERO
    k = T.int_val(ax) if I.is_term(ax) else None
    if f.name.endswith('hstack') and len(ps[0][0]) == 2:
        k = 1
    if k is None or any(not p[0] for p in ps):
        return opq('concatenate axis')
    if k < 0:
        k += len(ps[0][0])
    return _concat(it, st, ps, k)


@model('numpy.insert')
def _insert(it, st, a, kw, node, f):
    if len(a) < 3:
        return opq('insert')
    x, pos, v = it.arr(st, a[0]), a[1], it.arr(st, a[2])
    ax = kwget(a, kw, 3, 'axis', None)
    k = T.int_val(ax) if ax is not None and I.is_term(ax) else None
    many = None
    if not I.is_term(pos):
        many = it.items_of(st, pos)
        many = [T.int_val(q) if I.is_term(q) else None for q in many] if many is not None else None
    if x is not None and v is not None and many is not None and None not in many:
        dims = [T.int_val(d) for d in x[0]]
        if None in dims:
            return opq('insert')
        if k is None:
            tot = 1
            for d in dims:
                tot *= d

            def flat(idx, x=x, dims=dims):
                q = T.int_val(idx[0])
                if q is None:
                    return opq('flattened index')
                ii = []
                for d in reversed(dims):
                    ii.append(T.num(q % d))
                    q //= d
                return x[1](tuple(reversed(ii)))
            x = ((T.num(tot),), flat, x[2])
            dims = [tot]
            k = 0
        if k < 0:
            k += len(dims)
        many = [q + dims[k] if q < 0 else q for q in many]
        if any(q < 0 or q > dims[k] for q in many):
            st.events.append(('oob_insert', getattr(node, 'lineno', 0)))
            return opq('insert out of bounds')
        if len(v[0]) > 1 or (len(dims) > 1 and v[0]):
            return opq('insert values')
        order = sorted(range(len(many)), key=lambda q: many[q])
        newpos = {}
        for rank, q in enumerate(order):
            newpos[many[q] + rank] = q
        src, c = {}, 0
        for q in range(dims[k] + len(many)):
            if q in newpos:
                src[q] = ('v', newpos[q])
            else:
                src[q] = ('x', c)
                c += 1

        def ins(idx, x=x, v=v, src=src, k=k):
            q = T.int_val(idx[k])
            if q is None:
                return opq('index of an insertion')
            if q < 0:
                q += len(src)
            if q not in src:
                return opq('index out of range')
            kind, p = src[q]
            if kind == 'v':
                return v[1](()) if not v[0] else v[1]((T.ZERO if v[0][0] == T.ONE else T.num(p),))
            return x[1](tuple(idx[:k]) + (T.num(p),) + tuple(idx[k + 1:]))
        shp = list(x[0])
        shp[k] = T.num(dims[k] + len(many))
        return it.new_arr(st, tuple(shp), ins, x[2])
    if x is None or v is None or not I.is_term(pos) or pos[0] == 'opaque':
        return opq('insert')
    if k is None:
        if len(x[0]) != 1:
            return opq('insert flat')
        k = 0
    if k < 0:
        k += len(x[0])

    def fn(idx):
        q = idx[k]
        c1, c2 = I._cond([T.lt(q, pos)]), I._cond([T.eq(q, pos)])
        before = lambda: x[1](idx)
        def at():
            r = len(v[0])
            rest = tuple(idx[:k]) + tuple(idx[k + 1:])
            ii = rest[-r:] if r else ()
            ii = tuple(T.ZERO if d == T.ONE else y for d, y in zip(v[0], ii))
            return v[1](ii)
        after = lambda: x[1](tuple(idx[:k]) + (T.sub(q, T.ONE),) + tuple(idx[k + 1:]))
        if c1 == T.TRUE:
            return before()
        if c2 == T.TRUE:
            return at()
        if c1 == T.FALSE and c2 == T.FALSE:
            return after()
        return T.ite(c1, before(), T.ite(c2, at(), after()))
    shp = list(x[0])
    shp[k] = T.add(shp[k], T.ONE)
    return it.new_arr(st, tuple(shp), fn, x[2])


@model('numpy.delete')
def _delete(it, st, a, kw, node, f):
    x, pos = it.arr(st, a[0]), a[1]
    ax = kwget(a, kw, 2, 'axis', None)
    k = T.int_val(ax) if ax is not None and I.is_term(ax) else (0 if x is not None and len(x[0]) == 1 else None)
    if x is None or not I.is_term(pos) or pos[0] == 'opaque' or k is None:
        return opq('delete')
    if k < 0:
        k += len(x[0])

    def fn(idx):
        q = idx[k]
        return T.ite(I._cond([T.lt(q, pos)]), x[1](idx), x[1](tuple(idx[:k]) + (T.add(q, T.ONE),) + tuple(idx[k + 1:])))
    shp = list(x[0])
    shp[k] = T.sub(shp[k], T.ONE)
    return it.new_arr(st, tuple(shp), fn, x[2])


# ------------------------------------------------------------------ elementwise
def _ew(fn):
    def h(it, st, a, kw, node, f):
        if 'out' in kw or 'where' in kw:
            return opq('ufunc options')
        return it.elementwise(st, fn, *a[:fn.__code__.co_argcount])
    return h


def t_abs(x):
    v = T.num_val(x)
    if v is not None:
        return T.num(abs(v))
    u, s = T._canon_sign(x)
    c = T.to_poly(x)
    if len(c) == 1:
        (m, k), = c.items()
        return T.scale(('fn', 'abs', T.from_poly({m: Fraction(1)})), abs(k))
    lead = [k for m, k in x[1] if m != ()][0] if x[0] == 'P' else 1
    return T.scale(('fn', 'abs', u), abs(lead))


def t_sign(x):
    v = T.num_val(x)
    if v is not None:
        return T.num((v > 0) - (v < 0))
    return ('fn', 'sign', x)


def t_sqrt(x):
    v = T.num_val(x)
    if v is not None and v >= 0:
        from math import isqrt
        n, d = v.numerator, v.denominator
        if isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
            return T.num(Fraction(isqrt(n), isqrt(d)))
    # exact square root of the pair count discriminant (1 + 8 C(n,2) = (2n-1)^2)
    r = poly_sqrt(x)
    return r if r is not None else ('fn', 'sqrt', x)


def poly_sqrt(x):
    """square root of a univariate perfect-square quadratic with positive root for large argument"""
    p = T.to_poly(x)
    ats = T.atoms_of_poly(x)
    if len(ats) != 1:
        return None
    a = next(iter(ats))
    c = {}
    for m, k in p.items():
        d = m[0][1] if m else 0
        c[d] = k
    if set(c) - {0, 1, 2} or c.get(2, 0) <= 0:
        return None
    from math import isqrt
    def sq(fr):
        n, d = fr.numerator, fr.denominator
        if n < 0 or isqrt(n) ** 2 != n or isqrt(d) ** 2 != d:
            return None
        return Fraction(isqrt(n), isqrt(d))
    l = sq(c[2])
    if l is None:
        return None
    b = c.get(1, Fraction(0)) / (2 * l)
    if b * b != c.get(0, Fraction(0)):
        return None
    r = T.add(T.scale(a, l), T.num(b))
    return r if a[0] in ('sym', 'len', 'bv') and T.is_int_atom(a) else t_abs(r)      # symbolic sizes are large enough


model('numpy.exp', 'math.exp', 'mpmath.exp')(_ew(lambda x: T.exp(x)))
model('numpy.log', 'math.log', 'mpmath.log')(_ew(lambda x: T.log(x)))
def _log2(x):
    k = T.int_val(x)
    return T.num(k.bit_length() - 1) if k is not None and k > 0 and k & (k - 1) == 0 else ('fn', 'log2', x)


model('numpy.log2', 'math.log2')(_ew(_log2))
model('numpy.sqrt', 'math.sqrt')(_ew(lambda x: t_sqrt(x)))
model('numpy.abs', 'numpy.absolute', 'math.fabs', 'numpy.fabs')(_ew(lambda x: t_abs(x)))
model('numpy.sign')(_ew(lambda x: t_sign(x)))
model('numpy.tanh', 'math.tanh')(_ew(lambda x: ('fn', 'tanh', x)))
model('numpy.arctanh')(_ew(lambda x: ('fn', 'arctanh', x)))
model('numpy.cosh')(_ew(lambda x: ('fn', 'cosh', x)))
model('numpy.sinh')(_ew(lambda x: ('fn', 'sinh', x)))
model('numpy.log1p', 'math.log1p')(_ew(lambda x: T.log(T.add(T.ONE, x))))
model('numpy.expm1', 'math.expm1')(_ew(lambda x: T.sub(T.exp(x), T.ONE)))
model('numpy.logaddexp')(_ew(lambda x, y: T.log(T.add(T.exp(x), T.exp(y)))))
model('scipy.special.expit')(_ew(lambda x: T.div(T.ONE, T.add(T.ONE, T.exp(T.neg(x))))))
model('scipy.special.xlogy')(_ew(lambda x, y: T.mul(x, T.log(y))))
model('numpy.multiply')(_ew(lambda x, y: T.mul(num01(x), num01(y))))
model('numpy.add')(_ew(lambda x, y: T.add(num01(x), num01(y))))
model('numpy.subtract')(_ew(lambda x, y: T.sub(num01(x), num01(y))))
model('numpy.divide', 'numpy.true_divide')(_ew(lambda x, y: T.div(num01(x), num01(y))))
model('numpy.mod', 'numpy.remainder', 'numpy.fmod')(_ew(lambda x, y: T.mod(x, y)))
model('numpy.floor_divide')(_ew(lambda x, y: T.floordiv(x, y)))
model('numpy.negative')(_ew(lambda x: T.neg(x)))
model('numpy.square')(_ew(lambda x: T.mul(x, x)))
model('numpy.floor', 'math.floor')(_ew(lambda x: T.floordiv(x, T.ONE)))
model('numpy.ceil', 'math.ceil')(_ew(lambda x: T.neg(T.floordiv(T.neg(x), T.ONE))))


def _power(it, st, a, kw, node, f):
    import ast
    return it.binop(st, ast.Pow(), a[0], a[1])


model('numpy.power')(_power)


def _cmp(op):
    def h(it, st, a, kw, node, f):
        return it.elementwise(st, op, a[0], a[1], dtype='bool')
    return h


model('numpy.equal')(_cmp(T.eq))
model('numpy.not_equal')(_cmp(T.ne))
model('numpy.less')(_cmp(T.lt))
model('numpy.greater')(_cmp(T.gt))
model('numpy.logical_and')(_cmp(lambda x, y: T.land([x, y])))
model('numpy.logical_or')(_cmp(lambda x, y: T.lor([x, y])))


@model('numpy.logical_not', 'numpy.invert')
def _lnot(it, st, a, kw, node, f):
    return it.elementwise(st, lambda x: T.lnot(x) if T.is_cond(x) else opq('not'), a[0], dtype='bool')


@model('numpy.isnan', 'numpy.isinf', 'numpy.isfinite')
def _isnan(it, st, a, kw, node, f):
    nm = f.name.split('.')[-1]
    return it.elementwise(st, lambda x: ('b', ('fn', nm, x)), a[0], dtype='bool')


@model('numpy.where')
def _where(it, st, a, kw, node, f):
    if len(a) == 1 and not kw:
        return _nonzero(it, st, a, kw, node, I.Lib('numpy.nonzero'))
    if len(a) != 3:
        return opq('where')
    return it.elementwise(st, lambda c, x, y: T.ite(c, x, y) if T.is_cond(c) else opq('where'), *a)


@model('numpy.minimum', 'numpy.fmin')
def _minimum(it, st, a, kw, node, f):
    return it.elementwise(st, lambda x, y: t_max([x, y], 'min'), *a[:2])


@model('numpy.maximum', 'numpy.fmax')
def _maximum(it, st, a, kw, node, f):
    return it.elementwise(st, lambda x, y: t_max([x, y], 'max'), *a[:2])


@model('numpy.clip')
def _clip(it, st, a, kw, node, f):
    return it.elementwise(st, lambda x, lo, hi: t_max([t_max([x, lo], 'max'), hi], 'min'), *a[:3])


def infinite(t):
    """1 / -1 when the term is plus / minus infinity whatever its finite parts are"""
    p = T.to_poly(t)
    c = [k for m, k in p.items() if m == ((('fn', 'inf'), 1),)]
    if c and not any(x == ('fn', 'inf') for m, k in p.items() if m != ((('fn', 'inf'), 1),) for a, _ in m for x in T.subterms(a)):
        return 1 if c[0] > 0 else -1
    return 0


def t_max(xs, which='max'):
    if not xs:
        return opq(which + ' of nothing')
    if all(T.num_val(x) is not None for x in xs):
        vs = [T.num_val(x) for x in xs]
        return T.num(max(vs) if which == 'max' else min(vs))
    xs = sorted(set(xs), key=T.key)
    bad, best = (-1, 1) if which == 'max' else (1, -1)
    if any(infinite(x) == best for x in xs):
        return T.num(best * float('inf'))
    if any(infinite(x) == bad for x in xs):
        xs = [x for x in xs if infinite(x) != bad] or xs[:1]
    if len(xs) == 1:
        return xs[0]
    # common shift:  max(x+c, y+c) = max(x,y)+c
    ps = [T.to_poly(x) for x in xs]
    common = {m: c for m, c in ps[0].items() if all(p.get(m) == c for p in ps[1:])}
    if common:
        c = T.from_poly(common)
        return T.add(c, t_max([T.sub(x, c) for x in xs], which))
    return ('fn', which) + tuple(xs)


# ------------------------------------------------------------------ reductions
MISS = I.__dict__.setdefault('MISS', [])


def sum_axis(it, st, x, axis):
    """Σ over one axis of snapshot x=(shape,fn,dtype) -> snapshot"""
    shape, fn, dt = x
    n = shape[axis]
    out = tuple(shape[:axis]) + tuple(shape[axis + 1:])
    k = T.int_val(n)
    pc = list(st.pc)

    def g(idx):
        def at(q):
            return num01(fn(tuple(idx[:axis]) + (q,) + tuple(idx[axis:])))
        if k is not None and k <= 4096:
            return T.addn([at(T.num(j)) for j in range(k)])
        return sum_sym(at, n)
    return out, g, ('int' if dt in ('int', 'bool') else dt)


def sum_sym(at, n):
    b = T.fresh_bv()
    fx = FX.current()
    mark = len(MISS)
    with FX.using(fx.conds + I.range_cons(b, n)):
        body = at(b)
    if not has_opaque(body):
        r = T.mk_sum((b,), I.range_cons(b, n), body)
        return FX.current().simplify(r)
    # a quantified write record covers the axis: enumerate its binders instead
    for rec, idx in MISS[mark:]:
        if len(rec.bvs) not in (2, 3):
            continue
        for s, q in zip(rec.sel, idx):
            if s[0] != 'int' or not T.contains(q, b):
                continue
            off = T.sub(q, b)
            if T.contains(off, b):
                continue
            fresh = [T.fresh_bv() for _ in rec.bvs]
            ren = dict(zip(rec.bvs, fresh))
            ordt = T.subst(T.sub(s[1], off), ren)
            cons = [T.subst(c, ren) for c in rec.cons]
            m = pair_domain(fresh, cons)
            if m is None:
                continue
            order, cnt, want = m
            if T.sub(ordt, want) != T.ZERO or T.sub(cnt, n) != T.ZERO:
                continue
            with FX.using(fx.conds + cons):
                body = at(ordt)
            if not has_opaque(body):
                return FX.current().simplify(T.mk_sum(tuple(fresh), cons, body))
    return opq('sum over unresolved range')


def pair_domain(bvs, cons):
    """recognise 0<=i<j<n (or triple) domains, possibly written with shifted binders (j = i+1+b)
    -> (ordered index terms, count, row-major position)"""
    cons = set(c for c in cons if c != T.TRUE)
    for perm in itertools.permutations(bvs):
        for shifted in itertools.product((False, True), repeat=len(perm) - 1):
            ix = [perm[0]]
            for b, sh in zip(perm[1:], shifted):
                ix.append(T.addn([ix[-1], b, T.ONE]) if sh else b)
            # domain in terms of the index values themselves (binder names reused)
            back = {}
            for k in range(1, len(perm)):
                if shifted[k - 1]:
                    back[perm[k]] = T.addn([perm[k], T.neg(perm[k - 1]), T.num(-1)])
            cons2 = [T.subst(c, back) for c in cons] if back else list(cons)
            if T.FALSE in cons2:
                continue
            cons2 = [c for c in cons2 if c != T.TRUE]
            ns = set()
            for c in cons2:
                p = T.to_poly(c[1]) if c[0] == 'lt0' else {}
                if p.get(((perm[-1], 1),)) == 1:
                    r = T.neg(T.sub(c[1], perm[-1]))
                    if not any(T.contains(r, b) for b in bvs):
                        ns.add(r)
            for n in ns:
                cn = I.pair_cons(*perm, n) if len(perm) == 2 else I.triple_cons(*perm, n)
                fw, fc = FX.Facts(cn), FX.Facts(cons2)
                if not all(fw.entails(c) is True for c in cons2) or not all(fc.entails(c) is True for c in cn):
                    # outer-loop ranges that are implied only when the inner domain is non-empty
                    continue
                if len(perm) == 2:
                    return ix, T.scale(T.mul(n, T.sub(n, T.ONE)), Fraction(1, 2)), I.tri_index(n, *ix)
                return ix, T.scale(T.mul(T.mul(n, T.sub(n, T.ONE)), T.sub(n, T.num(2))), Fraction(1, 6)), I.triple_index(n, *ix)
    return None


def has_opaque(t):
    return any(x[0] == 'opaque' for x in T.subterms(t))


def finish(it, st, snap):
    shape, fn, dt = snap
    if shape == ():
        with FX.using(st.pc):
            return FX.current().simplify(fn(()))
    return it.new_arr(st, shape, fn, dt)


@model('numpy.sum', 'method.sum', 'numpy.nansum')
def _sum(it, st, a, kw, node, f):
    v = a[0]
    ax = kwget(a, kw, 1, 'axis', T.NONE)
    if isinstance(v, I.Ref) and isinstance(st.heap[v.id], I.DictC):
        return opq('sum')
    x = it.arr(st, v)
    if x is None:
        xs = it.items_of(st, v)
        if xs is not None and all(I.is_term(y) for y in xs) and ax in (T.NONE, T.ZERO):
            return T.addn([num01(y) for y in xs])
        return opq('sum of unmodelled value')
    if 'weights' in kw:
        return opq('sum weights')
    if ax == T.NONE:
        for _ in range(len(x[0])):
            x = sum_axis(it, st, x, len(x[0]) - 1)
        return finish(it, st, x)
    if not I.is_term(ax):
        ks = it.items_of(st, ax)
        ks = None if ks is None else [T.int_val(y) if I.is_term(y) else None for y in ks]
        if not ks or None in ks or not all(-len(x[0]) <= y < len(x[0]) for y in ks):
            return opq('axis')
        for y in sorted({y % len(x[0]) for y in ks}, reverse=True):
            x = sum_axis(it, st, x, y)
        return finish(it, st, x)
    k = T.int_val(ax)
    if k is None:
        return opq('axis')
    if k < 0:
        k += len(x[0])
    if not 0 <= k < len(x[0]):
        return opq('axis range')
    return finish(it, st, sum_axis(it, st, x, k))


@model('builtins.sum')
def _bsum(it, st, a, kw, node, f):
    xs = it.items_of(st, a[0])
    start = kwget(a, kw, 1, 'start', T.ZERO)
    if xs is not None and all(I.is_term(y) for y in xs):
        return T.addn([start] + [num01(y) for y in xs])
    x = it.arr(st, a[0])
    if x is not None and x[0]:
        r = finish(it, st, sum_axis(it, st, x, 0))
        if start == T.ZERO:
            return r
        return it.elementwise(st, T.add, r, start)
    return opq('sum')


@model('numpy.mean', 'method.mean', 'numpy.average')
def _mean(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    ax = kwget(a, kw, 1, 'axis', T.NONE)
    w = kwget(a, kw, 2, 'weights', T.NONE) if f.name.endswith('average') else T.NONE
    if w != T.NONE and x is not None:
        y = it.arr(st, w)
        if y is None or (len(y[0]) != len(x[0]) and (len(y[0]) != 1 or ax == T.NONE)):
            return opq('average')
        if len(y[0]) != len(x[0]):
            k = T.int_val(ax)
            if k is None:
                return opq('average')
            k %= len(x[0])
            w = it.new_arr(st, tuple(y[0][0] if q == k else T.ONE for q in range(len(x[0]))),
                           lambda q, y=y, k=k: y[1]((q[k],)), y[2])
        num_ = _sum(it, st, [it.elementwise(st, lambda p, q: T.mul(num01(p), num01(q)), a[0], w), ax], {}, node, I.Lib('numpy.sum'))
        one = it.new_arr(st, x[0], lambda q: T.ONE, 'float')
        den = _sum(it, st, [it.elementwise(st, lambda p, q: T.mul(p, num01(q)), one, w), ax], {}, node, I.Lib('numpy.sum'))
        return it.elementwise(st, T.div, num_, den)
    if x is None or 'weights' in kw:
        return opq('mean')
    if ax == T.NONE:
        n = T.ONE
        for d in x[0]:
            n = T.mul(n, d)
    else:
        k = T.int_val(ax)
        if k is None:
            return opq('mean axis')
        n = x[0][k]
    s = _sum(it, st, [a[0], ax], {}, node, f)
    return it.elementwise(st, lambda y: T.div(y, n), s)


@model('numpy.prod', 'method.prod')
def _prod(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    ax = kwget(a, kw, 1, 'axis', T.NONE)
    if x is None:
        return opq('prod')
    if ax == T.NONE:
        axes = list(range(len(x[0])))
    else:
        k = T.int_val(ax)
        if k is None:
            return opq('prod')
        axes = [k % len(x[0])]
    for k in sorted(axes, reverse=True):
        n = T.int_val(x[0][k])
        if n is None or n > 64:
            return opq('prod over symbolic extent')
        shape, fn = x[0], x[1]

        def g(idx, fn=fn, k=k, n=n):
            r = T.ONE
            for j in range(n):
                r = T.mul(r, num01(fn(tuple(idx[:k]) + (T.num(j),) + tuple(idx[k:]))))
            return r
        x = (tuple(shape[:k]) + tuple(shape[k + 1:]), g, x[2])
    return finish(it, st, x)


@model('numpy.count_nonzero')
def _count_nonzero(it, st, a, kw, node, f):
    if isinstance(a[0], I.Masked):
        return T.addn([T.ite(T.land([c, it.truth(st, v)]), T.ONE, T.ZERO) for c, v in zip(a[0].conds, a[0].vals)])
    nz = it.elementwise(st, lambda x: T.ite(it.truth(st, x), T.ONE, T.ZERO), a[0])
    return _sum(it, st, [nz] + list(a[1:]), kw, node, I.Lib('numpy.sum'))


@model('numpy.einsum')
def _einsum(it, st, a, kw, node, f):
    if kw or not a or not (I.is_term(a[0]) and a[0][0] == 'str'):
        return opq('einsum')
    spec = a[0][1].replace(' ', '')
    if '.' in spec or '->' not in spec:
        return opq('einsum')
    ins, out = spec.split('->')
    ins = ins.split(',')
    xs = [it.arr(st, v) for v in a[1:]]
    if len(ins) != len(xs) or any(x is None or len(x[0]) != len(s) for x, s in zip(xs, ins)):
        return opq('einsum')
    dim = {}
    for x, s in zip(xs, ins):
        for c, d in zip(s, x[0]):
            if dim.setdefault(c, d) != d:
                return opq('einsum extents')
    inner = [c for c in dim if c not in out]
    ns = [T.int_val(dim[c]) for c in inner]
    tot = 1
    for n in ns:
        if n is None:
            return opq('einsum over symbolic extent')
        tot *= n
    if tot > 4096 or any(c not in dim for c in out):
        return opq('einsum')

    def fn(idx):
        env = dict(zip(out, idx))
        r = []
        for q in itertools.product(*[range(n) for n in ns]):
            e = dict(env, **{c: T.num(v) for c, v in zip(inner, q)})
            p = T.ONE
            for x, s in zip(xs, ins):
                p = T.mul(p, num01(x[1](tuple(e[c] for c in s))))
            r.append(p)
        return T.addn(r)
    return finish(it, st, (tuple(dim[c] for c in out), fn, None))


def over_axis(it, st, x, ax, red, what):
    k = T.int_val(ax) if I.is_term(ax) else None
    if k is None or not -len(x[0]) <= k < len(x[0]):
        return opq(what + ' axis')
    k %= len(x[0])
    n = T.int_val(x[0][k])
    if n is None or n > 256:
        return opq(what + ' over symbolic extent')

    def fn(idx):
        return red([x[1](tuple(idx[:k]) + (T.num(j),) + tuple(idx[k:])) for j in range(n)])
    return finish(it, st, (tuple(x[0][:k]) + tuple(x[0][k + 1:]), fn, x[2]))


def _minmax(which):
    def h(it, st, a, kw, node, f):
        v = a[0]
        if f.name.startswith('builtins') and len(a) > 1:
            if all(I.is_term(y) for y in a):
                return t_max(list(a), which)
            one = []
            for y in a:
                if not I.is_term(y):
                    x = it.arr(st, y)
                    if x is None or any(T.int_val(d) != 1 for d in x[0]):
                        return opq(which)
                    y = x[1](tuple(T.ZERO for _ in x[0]))
                one.append(y)
            return t_max(one, which)
        x = it.arr(st, v)
        if x is None:
            return opq(which)
        ax = kwget(a, kw, 1, 'axis', T.NONE)
        if ax != T.NONE:
            return over_axis(it, st, x, ax, lambda xs: t_max(xs, which), which)
        if len(x[0]) > 1 and all(T.int_val(d) is not None for d in x[0]):
            with FX.using(st.pc):
                return t_max([x[1](tuple(T.num(j) for j in q)) for q in itertools.product(*[range(T.int_val(d)) for d in x[0]])], which)
        if len(x[0]) == 1:
            n = T.int_val(x[0][0])
            if n is not None and n <= 64:
                with FX.using(st.pc):
                    return t_max([x[1]((T.num(j),)) for j in range(n)], which)
            b = T.fresh_bv()
            with FX.using(st.pc + I.range_cons(b, x[0][0])):
                body = x[1]((b,))
            if has_opaque(body):
                return opq(which)
            cb = ('sym', '__mx')
            return ('fn', 'max_over' if which == 'max' else 'min_over', x[0][0], T.subst(body, {b: cb}))
        return opq(which)
    return h


for _n in ('builtins.max', 'numpy.max', 'numpy.amax', 'method.max', 'numpy.nanmax'):
    model(_n)(_minmax('max'))
for _n in ('builtins.min', 'numpy.min', 'numpy.amin', 'method.min', 'numpy.nanmin'):
    model(_n)(_minmax('min'))


def _allany(isall):
    def h(it, st, a, kw, node, f):
        x = it.arr(st, a[0])
        if x is None:
            xs = it.items_of(st, a[0])
            if xs is not None:
                cs = [it.truth(st, y) for y in xs]
                return T.land(cs) if isall else T.lor(cs)
            return ('b', opq('all/any'))
        if x[0] == ():
            return it.truth(st, x[1](()))
        ns = [T.int_val(d) for d in x[0]]
        ax = kwget(a, kw, 1, 'axis', T.NONE)
        if ax != T.NONE:
            r = over_axis(it, st, (x[0], x[1], 'bool'), ax, lambda xs: (T.land if isall else T.lor)([it.truth(st, y) for y in xs]), 'all/any')
            return ('b', r) if I.is_term(r) and r[0] == 'opaque' else r
        if all(n is not None for n in ns):
            tot = 1
            for n in ns:
                tot *= n
            if tot <= 256:
                with FX.using(st.pc):
                    cs = [it.truth(st, x[1](tuple(T.num(j) for j in ix))) for ix in itertools.product(*[range(n) for n in ns])]
                return T.land(cs) if isall else T.lor(cs)
        bs = [('sym', '__q%d' % k) for k in range(len(x[0]))]
        with FX.using(st.pc):
            body = x[1](tuple(bs))
        c = it.truth(st, body)
        if c in (T.TRUE, T.FALSE):
            return c
        return ('b', ('fn', 'forall' if isall else 'exists') + tuple(x[0]) + (c,))
    return h


model('numpy.all', 'method.all', 'builtins.all', 'numpy.alltrue')(_allany(True))
model('numpy.any', 'method.any', 'builtins.any')(_allany(False))


def dot(it, st, a, b):
    x, y = it.arr(st, a), it.arr(st, b)
    if x is None or y is None:
        return opq('dot of unmodelled value')
    r, s = len(x[0]), len(y[0])
    if r == 0 or s == 0:
        return it.elementwise(st, T.mul, a, b)
    n = x[0][-1]
    m = y[0][0] if s == 1 else y[0][-2]
    if T.int_val(n) is not None and T.int_val(m) is not None and n != m:
        return opq('dot extents')
    shape = tuple(x[0][:-1]) + (tuple(y[0][:-2]) + (y[0][-1],) if s > 1 else ())

    def fn(idx):
        ia = tuple(idx[:r - 1])
        ib = tuple(idx[r - 1:])

        def at(q):
            yi = (q,) if s == 1 else ib[:-1] + (q,) + ib[-1:]
            return T.mul(num01(x[1](ia + (q,))), num01(y[1](yi)))
        k = T.int_val(n)
        if k is None:
            k = T.int_val(m)
        if k is not None and k <= 4096:
            return T.addn([at(T.num(j)) for j in range(k)])
        return sum_sym(at, n)
    return finish(it, st, (shape, fn, None))


@model('numpy.dot', 'method.dot', 'numpy.matmul', 'numpy.inner', 'numpy.vdot')
def _dot(it, st, a, kw, node, f):
    return dot(it, st, a[0], a[1])


@model('numpy.outer')
def _outer(it, st, a, kw, node, f):
    x, y = it.arr(st, a[0]), it.arr(st, a[1])
    if x is None or y is None or len(x[0]) != 1 or len(y[0]) != 1:
        return opq('outer')
    return it.new_arr(st, (x[0][0], y[0][0]), lambda idx: T.mul(num01(x[1]((idx[0],))), num01(y[1]((idx[1],)))), None)


@model('numpy.cumsum', 'method.cumsum')
def _cumsum(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    if x is None or len(x[0]) != 1:
        return opq('cumsum')

    def fn(idx):
        k = T.int_val(idx[0])
        if k is not None and k <= 4096:
            return T.addn([x[1]((T.num(j),)) for j in range(k + 1)])
        b = T.fresh_bv()
        return T.mk_sum((b,), I.range_cons(b, T.add(idx[0], T.ONE)), x[1]((b,)))
    return it.new_arr(st, x[0], fn, x[2])


# ------------------------------------------------------------------ structure
@model('numpy.triu_indices', 'numpy.triu_indices_from')
def _triui(it, st, a, kw, node, f):
    n = a[0]
    k = kwget(a, kw, 1, 'k', T.ZERO)
    if f.name.endswith('from'):
        x = it.arr(st, n)
        n = x[0][0] if x else None
    if n is not None and I.is_term(n) and T.int_val(n) is not None and T.int_val(k) not in (None, 1) and T.int_val(n) <= 24:
        c, d = T.int_val(n), T.int_val(k)
        ps = [(i, j) for i in range(c) for j in range(c) if j - i >= d]
        return I.Tup([it.new_arr(st, (T.num(len(ps)),), lambda idx, ps=ps, q=q: _table([p[q] for p in ps], idx[0]), 'int') for q in (0, 1)])
    if n is not None and I.is_term(n) and k == T.ONE:
        c = T.int_val(n)
        if c is not None and c <= 24:
            ps = list(itertools.combinations(range(c), 2))
            return I.Tup([it.new_arr(st, (T.num(len(ps)),), lambda idx, ps=ps, q=q: _table([p[q] for p in ps], idx[0]), 'int') for q in (0, 1)])
        return I.TriIdx(n)
    return opq('triu_indices')


def _table(vals, q):
    k = T.int_val(q)
    if k is not None:
        return T.num(vals[k]) if -len(vals) <= k < len(vals) else opq('index out of range')
    r = T.num(vals[-1]) if vals else opq('empty')
    for j in range(len(vals) - 2, -1, -1):
        r = T.ite(I._cond([T.eq(q, T.num(j))]), T.num(vals[j]), r)
    return r


@model('numpy.tril_indices')
def _trili(it, st, a, kw, node, f):
    k = kwget(a, kw, 1, 'k', T.ZERO)
    c, d = T.int_val(a[0]) if I.is_term(a[0]) else None, T.int_val(k)
    if c is None or d is None or c > 24:
        return opq('tril_indices')
    ps = [(i, j) for i in range(c) for j in range(c) if j - i <= d]
    return I.Tup([it.new_arr(st, (T.num(len(ps)),), lambda idx, ps=ps, q=q: _table([p[q] for p in ps], idx[0]), 'int') for q in (0, 1)])


@model('numpy.ix_')
def _ix(it, st, a, kw, node, f):
    xs = [it.arr(st, x) for x in a]
    if len(xs) != 2 or any(x is None or len(x[0]) != 1 or x[2] == 'bool' for x in xs):
        return opq('ix_')
    (m, fm, dm), (n, fn, dn) = [(x[0][0], x[1], x[2]) for x in xs]
    return I.Tup([it.new_arr(st, (m, T.ONE), lambda q: fm((q[0],)), 'int'), it.new_arr(st, (T.ONE, n), lambda q: fn((q[1],)), 'int')])


@model('numpy.diag_indices')
def _diagi(it, st, a, kw, node, f):
    n = a[0]
    if not I.is_term(n):
        return opq('diag_indices')
    mk = lambda: it.new_arr(st, (n,), lambda idx: idx[0], 'int')
    return I.Tup([mk(), mk()])


@model('numpy.fill_diagonal')
def _filld(it, st, a, kw, node, f):
    x = it.arr(st, a[0]) if a and isinstance(a[0], I.Ref) else None
    v = kwget(a, kw, 1, 'val', None)
    ds = None if x is None else [T.int_val(d) for d in x[0]]
    va = None if v is None or I.is_term(v) else it.arr(st, v)
    if not ds or None in ds or len(ds) != 2 or v is None or len(a) > 2 or set(kw) - {'val'} or (not I.is_term(v) and (va is None or len(va[0]) != 1 or T.int_val(va[0][0]) is None)):
        raise Undecided('fill_diagonal')
    for i in range(min(ds)):
        w = v if va is None else va[1]((T.num(i % T.int_val(va[0][0])),))
        it.setitem(st, a[0], (T.num(i), T.num(i)), w, 'set', node)
    return T.NONE


@model('numpy.copyto', 'numpy.put', 'numpy.place', 'numpy.putmask', 'numpy.put_along_axis', 'numpy.random.shuffle', 'random.shuffle', 'method.put', 'method.itemset', 'method.partition',
       'method.setfield', 'method.byteswap')
def _unmodelled_write(it, st, a, kw, node, f):
    if f.name == 'numpy.copyto' and len(a) == 2 and not kw and isinstance(a[0], I.Ref) and it.arr(st, a[0]) is not None:
        it.store_whole(st, a[0], a[1], node)
        return T.NONE
    raise Undecided('%s writes in place' % f.name)


@model('numpy.diag', 'numpy.diagonal', 'method.diagonal')
def _diag(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    dg = f.name.endswith('diag')
    k = T.int_val(kwget(a, kw, 1, 'k' if dg else 'offset', T.ZERO))
    if x is None or k is None or len(a) > 2 or set(kw) - {'k', 'offset'}:
        return opq('diag')
    if len(x[0]) == 2:
        r, c = x[0]
        if k:
            r, c = T.int_val(r), T.int_val(c)
            if r is None or c is None:
                return opq('diag')
            return it.view(st, a[0], (T.num(max(0, min(r + min(k, 0), c - max(k, 0)))),),
                           lambda idx: (T.add(idx[0], T.num(max(-k, 0))), T.add(idx[0], T.num(max(k, 0)))))
        return it.view(st, a[0], (r,), lambda idx: (idx[0], idx[0]))
    if len(x[0]) == 1 and dg:
        n = T.add(x[0][0], T.num(abs(k)))
        return it.new_arr(st, (n, n), lambda idx: T.ite(I._cond([T.eq(T.add(idx[0], T.num(k)), idx[1])]),
                                                        x[1]((T.sub(idx[0], T.num(max(-k, 0))),)), T.ZERO), x[2])
    return opq('diag')


@model('scipy.spatial.distance.squareform')
def _sqf(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    if x is None:
        return opq('squareform')
    if len(x[0]) == 1:
        L = x[0][0]
        # n(n-1)/2 = L
        n = pair_root(L)
        if n is None:
            return opq('squareform length')

        def fn(idx):
            i, j = idx
            lo = I._cond([T.lt(i, j)])
            hi = I._cond([T.lt(j, i)])
            up = lambda: x[1]((I.tri_index(n, i, j),))
            dn = lambda: x[1]((I.tri_index(n, j, i),))
            if lo == T.TRUE:
                return up()
            if hi == T.TRUE:
                return dn()
            if I._cond([T.eq(i, j)]) == T.TRUE:
                return T.ZERO
            with FX.using([T.lt(i, j)]):
                u = up()
            with FX.using([T.lt(j, i)]):
                d = dn()
            return T.ite(lo, u, T.ite(hi, d, T.ZERO))
        return it.new_arr(st, (n, n), fn, x[2])
    if len(x[0]) == 2:
        n = x[0][0]
        c = T.int_val(n)
        if c is not None and c <= 24:
            ps = list(itertools.combinations(range(c), 2))
            return it.alloc(st, I.ListC([])) if not ps else it.new_arr(
                st, (T.num(len(ps)),), lambda idx, ps=ps: pick(ps, idx[0], x), x[2])
        i, j = T.fresh_bv(), T.fresh_bv()
        rec = I.W((i, j), I.pair_cons(i, j, n), [('int', I.tri_index(n, i, j))], lambda pos: x[1]((i, j)), 'set')
        cnt = T.scale(T.mul(n, T.sub(n, T.ONE)), Fraction(1, 2))
        return it.alloc(st, I.ArrC((cnt,), lambda idx: opq('outside pair range'), (('w', rec),), x[2]))
    return opq('squareform rank')


def pick(ps, q, x):
    k = T.int_val(q)
    if k is not None:
        return x[1](tuple(T.num(v) for v in ps[k])) if -len(ps) <= k < len(ps) else opq('index out of range')
    r = None
    for j in range(len(ps) - 1, -1, -1):
        v = x[1](tuple(T.num(w) for w in ps[j]))
        r = v if r is None else T.ite(I._cond([T.eq(q, T.num(j))]), v, r)
    return r


def pair_root(L):
    v = T.int_val(L)
    if v is not None:
        for n in range(0, 200):
            if n * (n - 1) // 2 == v:
                return T.num(n)
        return None
    # L = n(n-1)/2 with n = a*s + b :  (2n-1)^2 = 1 + 8L
    r = poly_sqrt(T.add(T.ONE, T.scale(L, 8)))
    if r is None:
        return None
    return T.scale(T.add(r, T.ONE), Fraction(1, 2))


@model('scipy.special.binom', 'scipy.special.comb', 'math.comb')
def _binom(it, st, a, kw, node, f):
    n, k = a[0], a[1]
    if not I.is_term(n) or not I.is_term(k):
        return opq('binom')
    c = T.int_val(k)
    if c is None or not 0 <= c <= 6:
        return ('fn', 'binom', n, k)
    r = T.ONE
    fct = 1
    for q in range(c):
        r = T.mul(r, T.sub(n, T.num(q)))
        fct *= q + 1
    return T.scale(r, Fraction(1, fct))


def _blockview(it, st, v, x, shape, fn, share):
    """reshaped array: shares elements when v is one block of memory, else a copy"""
    if share:
        fn.rowmajor = True
        return it.view(st, v, shape, fn)
    return it.new_arr(st, shape, lambda idx: x[1](fn(idx)), x[2])


def _sym_reshape(fn, ms, ns):
    def g(idx):
        r = fn(idx)
        if r is not None:
            return r
        k = T.ZERO
        for d, q in zip(ms, idx):
            k = T.add(T.scale(k, d), q)
        return (k,) if len(ns) == 1 else (T.floordiv(k, T.num(ns[1])), T.mod(k, T.num(ns[1]))) if len(ns) == 2 else ()
    g.rowmajor = True
    return g


@model('numpy.reshape', 'method.reshape')
def _reshape(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    shp = I.Tup(a[1:]) if len(a) > 2 else a[1] if len(a) > 1 else kw.get('newshape')
    s = shape_of(it, st, shp)
    if x is None or s is None or kw.get('order') not in (None, ('str', 'C')):
        return opq('reshape')
    s = list(s)
    tot = T.ONE
    for d in x[0]:
        tot = T.mul(tot, d)
    for k, d in enumerate(s):
        if T.int_val(d) == -1:
            rest = T.ONE
            for j, e in enumerate(s):
                if j != k:
                    rest = T.mul(rest, e)
            s[k] = T.div(tot, rest)
    s = tuple(s)
    if s == tuple(x[0]):
        return a[0]
    share = it.contiguous(st, a[0])
    if len(s) == 2 and len(x[0]) == 1:
        if s[0] == T.ONE and is_ref(a[0]) and isinstance(st.heap[a[0].id], (I.ArrC, I.View)):
            return it.alloc(st, I.View(a[0], (('new',), ('sl', T.ZERO, x[0][0], T.ONE, 'full')), s))
        fn = (lambda idx: (idx[1],)) if s[0] == T.ONE else (lambda idx: (idx[0],)) if s[1] == T.ONE else \
            (lambda idx: (T.add(T.mul(idx[0], s[1]), idx[1]),))
        return _blockview(it, st, a[0], x, s, fn, share)
    if len(s) == 1 and len(x[0]) == 2:
        w = x[0][1]
        return _blockview(it, st, a[0], x, s, lambda idx: (T.floordiv(idx[0], w), T.mod(idx[0], w)), share)
    ns, ms = [T.int_val(d) for d in x[0]], [T.int_val(d) for d in s]
    if None in ns or None in ms:
        return opq('reshape')

    def fn(idx):
        k = T.ZERO
        for d, q in zip(ms, idx):
            k = T.add(T.scale(k, d), q)
        k = T.int_val(k)
        if k is None:
            return None
        out = []
        for d in reversed(ns):
            out.append(T.num(k % d if d else 0))
            k = k // d if d else 0
        return tuple(reversed(out))
    if share:
        fn.rowmajor = True
        if 1 <= len(ns) <= 2 and all(q is not None for q in ns):
            return it.view(st, a[0], s, _sym_reshape(fn, ms, ns))
    return it.new_arr(st, s, lambda idx: x[1](fn(idx)) if fn(idx) is not None else opq('reshape at symbolic index'), x[2])


@model('method.ravel', 'method.flatten', 'numpy.ravel')
def _ravel(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    order = kwget(a, kw, 1, 'order', ('str', 'C'))
    if x is None or order not in (('str', 'C'), ('str', 'F')):
        return opq('ravel')
    if order == ('str', 'F') and len(x[0]) > 1:
        ds = [T.int_val(d) for d in x[0]]
        if None in ds:
            return opq('ravel')
        els = [x[1](tuple(T.num(k) for k in reversed(q))) for q in itertools.product(*[range(d) for d in reversed(ds)])]
        return _tabulate(it, st, (T.num(len(els)),), lambda ix: els[T.int_val(ix[0])], x[2])
    if len(x[0]) == 1:
        return a[0] if f.name.endswith('ravel') else _array(it, st, [a[0]], {}, node, f)
    if len(x[0]) == 2:
        w = x[0][1]
        return _blockview(it, st, a[0], x, (T.mul(x[0][0], w),), lambda idx: (T.floordiv(idx[0], w), T.mod(idx[0], w)),
                          f.name.endswith('ravel') and it.contiguous(st, a[0]))
    if len(x[0]) > 2 and all(T.int_val(d) is not None for d in x[0]):
        return _reshape(it, st, [_array(it, st, [a[0]], {}, node, f), T.num(-1)], {}, node, f)
    return opq('ravel')


@model('numpy.transpose', 'method.transpose')
def _transp(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    if x is None:
        return opq('transpose')
    ax = kw.get('axes', a[1] if len(a) == 2 else None)
    if len(a) > 2:
        ax = I.Tup(a[1:])
    if ax is None or ax == T.NONE:
        return a[0] if len(x[0]) < 2 and is_ref(a[0]) else it.view(st, a[0], tuple(reversed(x[0])), lambda idx: tuple(reversed(idx)))
    ks = it.items_of(st, ax)
    ks = [T.int_val(k) for k in ks] if ks is not None and all(I.is_term(k) for k in ks) else None
    if ks is None or None in ks or sorted(k % len(x[0]) for k in ks) != list(range(len(x[0]))):
        return opq('transpose axes')
    ks = [k % len(x[0]) for k in ks]
    return it.view(st, a[0], tuple(x[0][k] for k in ks), lambda idx: tuple(idx[ks.index(d)] for d in range(len(ks))))


@model('numpy.roll')
def _roll(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    sh = a[1] if len(a) > 1 else kw.get('shift')
    k = T.int_val(sh) if sh is not None and I.is_term(sh) else None
    ax = kwget(a, kw, 2, 'axis', T.NONE)
    if x is None or k is None or not x[0]:
        return opq('roll')
    if ax == T.NONE:
        if len(x[0]) != 1:
            return opq('roll')
        d = 0
    else:
        d = T.int_val(ax) if I.is_term(ax) else None
        if d is None:
            return opq('roll axis')
        d %= len(x[0])
    n = T.int_val(x[0][d])
    if n is None or n == 0:
        return opq('roll of symbolic extent')

    def fn(idx):
        v = T.int_val(idx[d])
        if v is None:
            return opq('roll at symbolic index')
        return x[1](tuple(idx[:d]) + (T.num((v - k) % n),) + tuple(idx[d + 1:]))
    return it.new_arr(st, x[0], fn, x[2])


@model('numpy.swapaxes', 'method.swapaxes')
def _swapaxes(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    if x is None or len(a) != 3 or T.int_val(a[1]) is None or T.int_val(a[2]) is None:
        return opq('swapaxes')
    ks = list(range(len(x[0])))
    i, j = T.int_val(a[1]), T.int_val(a[2])
    ks[i], ks[j] = ks[j], ks[i]
    return it.view(st, a[0], tuple(x[0][k] for k in ks), lambda idx: tuple(idx[k] for k in ks))


@model('numpy.tile')
def _tile(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    r = a[1] if len(a) > 1 else kw.get('reps')
    rs = [r] if I.is_term(r) else it.items_of(st, r)
    if x is None or rs is None or not all(I.is_term(q) for q in rs):
        return opq('tile')
    nd = max(len(rs), len(x[0]))
    shp = [T.ONE] * (nd - len(x[0])) + list(x[0])
    rs = [T.ONE] * (nd - len(rs)) + list(rs)
    dims = [T.int_val(d) for d in shp]
    if any(d is None and q != T.ONE for d, q in zip(dims, rs)):
        return opq('tile of symbolic extent')
    lead = nd - len(x[0])

    def fn(idx):
        q = []
        for k in range(lead, nd):
            if rs[k] == T.ONE:
                q.append(idx[k])
            elif dims[k] == 1:
                q.append(T.ZERO)
            else:
                v = T.int_val(idx[k])
                if v is None:
                    return opq('tile at symbolic index')
                q.append(T.num(v % dims[k]))
        return x[1](tuple(q))
    return it.new_arr(st, tuple(T.mul(d, q) for d, q in zip(shp, rs)), fn, x[2])


@model('numpy.repeat', 'method.repeat')
def _repeat(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    n = a[1] if len(a) > 1 else kw.get('repeats')
    if x is None or not I.is_term(n):
        return opq('repeat')
    if x[0] == ():
        return const_arr(it, st, (n,), x[1](()), None)
    ax = kwget(a, kw, 2, 'axis', T.NONE)
    m = T.int_val(n)
    if ax == T.NONE:
        if len(x[0]) != 1:
            return opq('repeat')
        k = 0
    else:
        k = T.int_val(ax) if I.is_term(ax) else None
        if k is None:
            return opq('repeat axis')
        k %= len(x[0])

    def fn(idx):
        if x[0][k] == T.ONE:
            q = T.ZERO
        else:
            v = T.int_val(idx[k])
            if v is None or m is None:
                return opq('repeat at symbolic index')
            q = T.num(v // m)
        return x[1](tuple(idx[:k]) + (q,) + tuple(idx[k + 1:]))
    return it.new_arr(st, tuple(x[0][:k]) + (T.mul(x[0][k], n),) + tuple(x[0][k + 1:]), fn, x[2])


@model('numpy.shape')
def _shape(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    return I.Tup(x[0]) if x is not None else opq('shape')


def const_vec(it, st, v, inf=False, flat=False):
    """numbers of a fixed vector (of a fixed array, row by row, if flat), or None"""
    x = it.arr(st, v)
    if flat and x is not None and len(x[0]) > 1:
        ds = [T.int_val(d) for d in x[0]]
        if None in ds or math.prod(ds) > 4096:
            return None
        r = [num01(x[1](tuple(T.num(i) for i in q))) for q in itertools.product(*map(range, ds))]
        r = [ext_val(y) if inf else T.num_val(y) for y in r]
        return None if None in r else r
    d = None if x is None or len(x[0]) != 1 else T.int_val(x[0][0])
    if d is None or d > 4096:
        return None
    r = [ext_val(num01(x[1]((T.num(i),)))) if inf else T.num_val(num01(x[1]((T.num(i),)))) for i in range(d)]
    return None if None in r else r


def ext_val(t):
    """a number or infinity"""
    if t == ('fn', 'inf'):
        return float('inf')
    if t == T.neg(('fn', 'inf')):
        return float('-inf')
    return T.num_val(t)


@model('numpy.intersect1d', 'numpy.union1d', 'numpy.setdiff1d', 'numpy.setxor1d')
def _sets1d(it, st, a, kw, node, f):
    x, y = (const_vec(it, st, v) for v in a[:2]) if len(a) == 2 else (None, None)
    if x is None or y is None or set(kw) - {'assume_unique'}:
        return opq(f.name)
    op = {'intersect1d': set.__and__, 'union1d': set.__or__, 'setdiff1d': set.__sub__, 'setxor1d': set.__xor__}[f.name.split('.')[-1]]
    r = sorted(op(set(x), set(y)))
    dt = it.arr(st, a[0])[2]
    return _tabulate(it, st, (T.num(len(r)),), lambda q: T.num(r[T.int_val(q[0])]), dt)


def _setop(nm):
    def h(it, st, a, kw, node, f):
        if len(a) != 2:
            return opq('set method')
        b = a[1]
        if is_ref(b) and isinstance(st.heap[b.id], I.ListC) and not st.heap[b.id].isset:
            b = _set(it, st, [b], {}, node, f)
        r = it.set_op(st, nm, a[0], b) if is_ref(b) else None
        return r if r is not None else opq('set method')
    return h


for _m, _o in (('union', 'BitOr'), ('intersection', 'BitAnd'), ('difference', 'Sub'), ('symmetric_difference', 'BitXor')):
    model('method.' + _m)(_setop(_o))


@model('method.remove')
def _lremove(it, st, a, kw, node, f):
    v = a[0]
    if is_ref(v) and isinstance(st.heap[v.id], I.ListC) and len(a) == 2:
        c = st.heap[v.id]
        xs = list(c.items)
        if not c.opaque and I.is_term(a[1]) and all(I.is_term(x) for x in xs):
            for k, x in enumerate(xs):
                e = T.eq(x, a[1])
                if e == T.TRUE:
                    st.heap[v.id] = I.ListC(xs[:k] + xs[k+1:])
                    return T.NONE
                if e != T.FALSE:
                    break
        st.heap[v.id] = I.ListC(c.items, True)
        return T.NONE
    return opq('remove')


@model('numpy.argmax', 'numpy.argmin', 'numpy.argsort', 'numpy.sort', 'method.argmax', 'method.argmin', 'method.argsort')
def _order(it, st, a, kw, node, f):
    x = const_vec(it, st, a[0], f.name[-4:] != 'sort', f.name[-4:] != 'sort') if len(a) == 1 and not kw and not I.is_term(a[0]) else None
    if x:
        nm = f.name.split('.')[-1]
        if nm in ('argmax', 'argmin'):
            return T.num(x.index(max(x) if nm == 'argmax' else min(x)))
        r = sorted(x) if nm == 'sort' else sorted(range(len(x)), key=lambda i: x[i])
        return _tabulate(it, st, (T.num(len(r)),), lambda q: T.num(r[T.int_val(q[0])]), it.arr(st, a[0])[2] if nm == 'sort' else 'int')
    return _uninterpreted(it, st, a, kw, node, f)


@model('numpy.unravel_index')
def _unravel(it, st, a, kw, node, f):
    if len(a) == 2 and not kw and I.is_term(a[0]) and T.int_val(a[0]) is not None:
        ds = [a[1]] if I.is_term(a[1]) else it.items_of(st, a[1])
        ds = None if ds is None else [T.int_val(d) if I.is_term(d) else None for d in ds]
        if ds and None not in ds:
            k, out = T.int_val(a[0]), []
            if not 0 <= k < math.prod(ds):
                return opq('unravel_index')
            for d in reversed(ds):
                out.append(T.num(k % d))
                k //= d
            return I.Tup(out[::-1])
    return _uninterpreted(it, st, a, kw, node, f)


@model('numpy.array_equal', 'numpy.allclose', 'numpy.isclose')
def _uninterpreted(it, st, a, kw, node, f):
    """pure function kept as an uninterpreted symbol of the (snapshot) arguments when they are scalars"""
    if all(I.is_term(x) for x in a) and all(I.is_term(v) for v in kw.values()) and not any(x[0] == 'opaque' for x in a):
        return ('fn', f.name) + tuple(a) + tuple(('kw', k, v) for k, v in sorted(kw.items()))
    return opq(f.name)


@model('numpy.nonzero', 'numpy.argwhere', 'numpy.flatnonzero')
def _nonzero(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    ds = None if x is None else [T.int_val(d) for d in x[0]]
    if not ds or None in ds or kw or len(a) > 1:
        return opq('nonzero')
    pos = list(itertools.product(*[range(d) for d in ds]))
    if len(pos) > 512:
        return opq('nonzero')
    with I.FX.using(st.pc):
        cs = [I.FX.current().simplify(it.truth(st, x[1](tuple(T.num(i) for i in q)))) for q in pos]
    if any(c not in (T.TRUE, T.FALSE) for c in cs):
        sts = it.decide_all(st, cs)
        if sts is None:
            return opq('nonzero of undecided conditions')
        out = []
        for s1 in sts:
            r = _nonzero(it, s1, a, kw, node, f)
            out.extend(r if isinstance(r, list) else [(s1, r)])
        return out
    keep = [q for q, c in zip(pos, cs) if c == T.TRUE]
    n = T.num(len(keep))
    if f.name.endswith('argwhere'):
        return _tabulate(it, st, (n, T.num(len(ds))), lambda ix: T.num(keep[T.int_val(ix[0])][T.int_val(ix[1])]), 'int')
    if f.name.endswith('flatnonzero'):
        return _tabulate(it, st, (n,), lambda ix: T.num(pos.index(keep[T.int_val(ix[0])])), 'int')
    return I.Tup([_tabulate(it, st, (n,), lambda ix, k=k: T.num(keep[T.int_val(ix[0])][k]), 'int') for k in range(len(ds))])


@model('importlib.import_module')
def _import_module(it, st, a, kw, node, f):
    if len(a) == 1 and not kw and I.is_term(a[0]) and a[0][0] == 'str':
        m = it.proj.module(a[0][1])
        if m is not None:
            return I.ModV(m)
    return opq('imported module')


@model('numpy.isclose')
def _isclose(it, st, a, kw, node, f):
    tol = (kwget(a, kw, 2, 'rtol', T.num(I.Fraction(1, 10 ** 5))), kwget(a, kw, 3, 'atol', T.num(I.Fraction(1, 10 ** 8))))

    def g(x, y):
        u, v = T.num_val(num01(x)), T.num_val(num01(y))
        if u is not None and v is not None:
            rt, at = T.num_val(tol[0]), T.num_val(tol[1])
            if rt is not None and at is not None:
                return T.TRUE if abs(u - v) <= at + rt * abs(v) else T.FALSE
        return ('b', ('fn', 'isclose', x, y) + (() if tol == (T.num(I.Fraction(1, 10 ** 5)), T.num(I.Fraction(1, 10 ** 8))) else tol))
    return it.elementwise(st, g, a[0], a[1], dtype='bool')


@model('numpy.unique')
def _unique(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    ax = kw.get('axis', T.NONE)
    opts = {k: kw.get('return_' + k, T.FALSE) for k in ('index', 'inverse', 'counts')}
    ds = None if x is None else [T.int_val(d) for d in x[0]]
    if not ds or None in ds or len(a) > 1 or set(kw) - {'axis', 'return_index', 'return_inverse', 'return_counts'} or any(v not in (T.TRUE, T.FALSE) for v in opts.values()):
        return opq('unique')
    if ax != T.NONE and T.int_val(ax) != 0:
        return opq('unique axis')
    get = lambda q: T.num_val(num01(x[1](tuple(T.num(i) for i in q))))
    if ax == T.NONE or len(ds) == 1:
        rows = [get(q) for q in itertools.product(*[range(d) for d in ds])]
    else:
        rows = [tuple(get((i,) + q) for q in itertools.product(*[range(d) for d in ds[1:]])) for i in range(ds[0])]
    if any(v is None or (isinstance(v, tuple) and None in v) for v in rows):
        return opq('unique of symbolic values')
    us = sorted(set(rows))
    mk = lambda vals: _tabulate(it, st, (T.num(len(vals)),), lambda q: T.num(vals[T.int_val(q[0])]), 'int')
    if us and isinstance(us[0], tuple):
        rest = list(itertools.product(*[range(d) for d in ds[1:]]))
        u = _tabulate(it, st, (T.num(len(us)),) + tuple(x[0][1:]), lambda q: T.num(us[T.int_val(q[0])][rest.index(tuple(T.int_val(i) for i in q[1:]))]), x[2])
    else:
        u = mk(us)
        st.heap[u.id].dtype = x[2]
    out = [u]
    if opts['index'] == T.TRUE:
        out.append(mk([rows.index(v) for v in us]))
    if opts['inverse'] == T.TRUE:
        out.append(mk([us.index(v) for v in rows]))
    if opts['counts'] == T.TRUE:
        out.append(mk([rows.count(v) for v in us]))
    return I.Tup(out) if len(out) > 1 else u


@model('numpy.binary_repr')
def _binrepr(it, st, a, kw, node, f):
    v = T.int_val(a[0]) if I.is_term(a[0]) else None
    w = kwget(a, kw, 1, 'width', T.NONE)
    wv = None if w == T.NONE else T.int_val(w)
    if v is None or v < 0 or (w != T.NONE and wv is None):
        return opq('binary_repr')
    return ('str', format(v, 'b').zfill(wv or 0))


@model('scipy.special.logsumexp')
def _logsumexp(it, st, a, kw, node, f):
    if set(kw) - {'axis', 'b', 'keepdims', 'a'}:
        return opq('logsumexp options')
    v = a[0] if a else kw['a']
    e = it.elementwise(st, lambda x: T.exp(num01(x)), v)
    b = kwget(a, kw, 2, 'b', T.NONE)
    if b != T.NONE:
        e = it.elementwise(st, lambda x, y: T.mul(x, num01(y)), e, b)
    k2 = {k: x for k, x in kw.items() if k in ('axis', 'keepdims')}
    if len(a) > 1:
        k2['axis'] = a[1]
    s = _sum(it, st, [e], k2, node, I.Lib('numpy.sum'))
    return it.elementwise(st, lambda x: T.log(x), s)


@model('numpy.bincount')
def _bincount(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    w = kwget(a, kw, 1, 'weights', T.NONE)
    ml = kwget(a, kw, 2, 'minlength', T.ZERO)
    n = T.int_val(x[0][0]) if x is not None and len(x[0]) == 1 else None
    if n is None or T.int_val(ml) is None:
        return opq('bincount')
    ks = [T.int_val(x[1]((T.num(i),))) for i in range(n)]
    if any(k is None or k < 0 for k in ks):
        return opq('bincount of unknown values')
    wa = None
    if w != T.NONE:
        wa = it.arr(st, w)
        if wa is None or len(wa[0]) != 1:
            return opq('bincount weights')
    m = max([k + 1 for k in ks] + [T.int_val(ml)])
    out = [T.addn([num01(wa[1]((T.num(i),))) if wa else T.ONE for i in range(n) if ks[i] == j]) for j in range(m)]
    return it.new_arr(st, (T.num(m),), lambda q: out[T.int_val(q[0])] if T.int_val(q[0]) is not None else opq('bincount index'), 'float' if wa else 'int')


# ------------------------------------------------------------------ array methods
@model('method.copy', 'copy.copy', 'copy.deepcopy')
def _copy(it, st, a, kw, node, f):
    v = a[0]
    if I.is_term(v) or isinstance(v, I.Tup):
        return v
    if is_ref(v):
        c = st.heap[v.id]
        if isinstance(c, I.ArrC):
            return it.alloc(st, I.ArrC(c.shape, c.fn, c.writes, c.dtype, None, c.kind))
        if isinstance(c, I.View):
            x = it.arr(st, v)
            return it.new_arr(st, x[0], x[1], x[2]) if x is not None else opq('copy')
        if isinstance(c, I.ListC):
            return it.alloc(st, I.ListC(c.items, c.opaque))
        if isinstance(c, I.DictC):
            return it.alloc(st, I.DictC(c.items, c.opaque))
    return opq('copy')


def _tabulate(it, st, shape, fn, dtype):
    ds = [T.int_val(d) for d in shape]
    tab = {ix: fn(tuple(T.num(i) for i in ix)) for ix in itertools.product(*[range(d) for d in ds])}

    def el(idx):
        k = tuple(T.int_val(i) for i in idx)
        if None not in k:
            return tab.get(k, T.ZERO)
        v = opq('table element')
        for ix in reversed(list(tab)):
            v = T.ite(I._cond([T.eq(i, T.num(j)) for i, j in zip(idx, ix)]), tab[ix], v)
        return v
    return it.new_arr(st, shape, el, dtype)


@model('method.astype')
def _astype(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    if x is None:
        return opq('astype')
    if x[0] != () and dtype_of(kwget(a, kw, 1, 'dtype'), None) == 'int' and all(T.int_val(d) is not None for d in x[0]):
        z = x[1](tuple(T.ZERO for d in x[0])) if all(T.int_val(d) for d in x[0]) else None
        if I.is_term(z) and z[0] == 'str':
            def conv(idx):
                v = x[1](idx)
                if v[0] == 'str':
                    return T.num(int(v[1])) if v[1].strip().lstrip('+-').isdigit() else opq('int of string')
                return opq('int of string')
            return _tabulate(it, st, x[0], conv, 'int')
    dt = dtype_of(kwget(a, kw, 1, 'dtype'), None)
    cast = kw.get('copy')
    if x[0] == ():
        return num01(x[1](()))
    if dt == 'bool':
        return it.new_arr(st, x[0], lambda idx: it.truth(st, x[1](idx)), 'bool')
    if x[2] == 'bool':
        return it.new_arr(st, x[0], lambda idx: num01(x[1](idx)), dt)
    if dt == 'int' and x[2] != 'int':
        return it.new_arr(st, x[0], lambda idx: t_int(x[1](idx)), dt)
    return _inherit(it, st, it.new_arr(st, x[0], x[1], dt), a[0])


@model('method.tolist')
def _tolist(it, st, a, kw, node, f):
    xs = it.items_of(st, a[0])
    if xs is not None:
        out = []
        for x in xs:
            out.append(it.alloc(st, I.ListC(it.items_of(st, x))) if is_ref(x) and it.items_of(st, x) is not None else x)
        return it.alloc(st, I.ListC(out))
    return opq('tolist')


@model('method.fill')
def _fill(it, st, a, kw, node, f):
    if is_ref(a[0]) and isinstance(st.heap[a[0].id], (I.ArrC, I.View)):
        it.store_whole(st, a[0], a[1], node)
    return T.NONE


@model('method.sort', 'method.reverse', 'method.clear')
def _inplace(it, st, a, kw, node, f):
    """list.sort, list.reverse, clear, and sort of an array of numbers"""
    nm = f.name[7:]
    v = a[0]
    c = st.heap[v.id] if is_ref(v) else None
    if isinstance(c, I.DictC) and nm == 'clear':
        st.heap[v.id] = I.DictC({}, False)
        return T.NONE
    if isinstance(c, I.ListC):
        if nm == 'clear':
            st.heap[v.id] = I.ListC([])
            return T.NONE
        xs = list(c.items)
        if c.opaque or len(a) > 1:
            raise Undecided('%s of an unknown list' % nm)
        if nm == 'reverse' and not kw:
            st.heap[v.id] = I.ListC(xs[::-1])
            return T.NONE
        ns = [T.num_val(x) if I.is_term(x) else None for x in xs]
        rv = kw.get('reverse', T.FALSE)
        if nm == 'sort' and set(kw) <= {'reverse'} and None not in ns and rv in (T.TRUE, T.FALSE):
            st.heap[v.id] = I.ListC(sorted(xs, key=T.num_val, reverse=rv == T.TRUE))
            return T.NONE
        raise Undecided('%s of an unknown list' % nm)
    if isinstance(c, (I.ArrC, I.View)) and nm == 'sort' and len(a) == 1 and not kw:
        ns = const_vec(it, st, v)
        if ns is not None:
            r = sorted(ns)
            it.store_whole(st, v, _tabulate(it, st, (T.num(len(r)),), lambda q: T.num(r[T.int_val(q[0])]), it.arr(st, v)[2]), node)
            return T.NONE
    if isinstance(c, I.ObjC) or c is None and not isinstance(v, I.Tup):
        return opq(nm)
    raise Undecided('%s writes in place' % f.name)


@model('method.append')
def _append(it, st, a, kw, node, f):
    v = a[0]
    if is_ref(v) and isinstance(st.heap[v.id], I.ListC):
        c = st.heap[v.id]
        st.events.append(('append', v, a[1], getattr(node, 'lineno', 0)))
        st.heap[v.id] = I.ListC(c.items + [a[1]], c.opaque)
        return T.NONE
    if is_ref(v) and isinstance(st.heap[v.id], I.ArrC) and st.heap[v.id].kind == 'list':
        st.events.append(('append', v, a[1], getattr(node, 'lineno', 0)))
        c = st.heap[v.id]
        x = (c.shape, c.elem, c.dtype)
        if I.is_term(a[1]) and len(c.shape) == 1:
            y = ((T.ONE,), lambda idx, t=a[1]: t, None)
            r = _concat(it, st, [x, y], 0)
            st.heap[v.id] = st.heap[r.id]
            st.heap[v.id].kind = 'list'
            return T.NONE
        st.heap[v.id] = I.ListC([], True)
        return T.NONE
    return opq('append')


@model('method.extend')
def _extend(it, st, a, kw, node, f):
    v = a[0]
    if is_ref(v) and isinstance(st.heap[v.id], I.ListC):
        c = st.heap[v.id]
        xs = it.items_of(st, a[1])
        st.heap[v.id] = I.ListC(c.items + xs, c.opaque) if xs is not None else I.ListC(c.items, True)
        return T.NONE
    return opq('extend')


@model('method.insert')
def _linsert(it, st, a, kw, node, f):
    v = a[0]
    if is_ref(v) and isinstance(st.heap[v.id], I.ListC) and len(a) == 3:
        c = st.heap[v.id]
        k = T.int_val(a[1]) if I.is_term(a[1]) else None
        if k is not None and not c.opaque:
            xs = list(c.items)
            xs.insert(k, a[2])
            st.heap[v.id] = I.ListC(xs)
        else:
            st.heap[v.id] = I.ListC(c.items, True)
        return T.NONE
    return opq('insert')


@model('method.pop')
def _pop(it, st, a, kw, node, f):
    v = a[0]
    if is_ref(v) and isinstance(st.heap[v.id], I.ListC):
        c = st.heap[v.id]
        k = -1 if len(a) == 1 else (T.int_val(a[1]) if I.is_term(a[1]) else None)
        if k is not None and not c.opaque and -len(c.items) <= k < len(c.items):
            xs = list(c.items)
            r = xs.pop(k)
            st.heap[v.id] = I.ListC(xs)
            return r
        st.heap[v.id] = I.ListC(c.items, True)
        return opq('pop')
    if is_ref(v) and isinstance(st.heap[v.id], I.DictC):
        c = st.heap[v.id]
        if I.is_term(a[1]):
            d = dict(c.items)
            if a[1] in d:
                r = d.pop(a[1])
                st.heap[v.id] = I.DictC(d, c.opaque)
                return r
            if not c.opaque and len(a) > 2:
                return a[2]
        return opq('pop')
    return opq('pop')


@model('method.get')
def _get(it, st, a, kw, node, f):
    v = a[0]
    if is_ref(v) and isinstance(st.heap[v.id], I.DictC) and I.is_term(a[1]):
        c = st.heap[v.id]
        if a[1] in c.items:
            return c.items[a[1]]
        if not c.opaque and I.const_keys(c, a[1]):
            return a[2] if len(a) > 2 else T.NONE
    return opq('get')


@model('method.setdefault')
def _setdefault(it, st, a, kw, node, f):
    v = a[0]
    if is_ref(v) and isinstance(st.heap[v.id], I.DictC) and I.is_term(a[1]):
        c = st.heap[v.id]
        if a[1] in c.items:
            return c.items[a[1]]
        if not c.opaque and I.const_keys(c, a[1]):
            d = dict(c.items)
            d[a[1]] = a[2] if len(a) > 2 else T.NONE
            st.heap[v.id] = I.DictC(d)
            return d[a[1]]
        v2 = opq('setdefault')
        return v2
    return opq('setdefault')


@model('method.update')
def _update(it, st, a, kw, node, f):
    v = a[0]
    if is_ref(v) and isinstance(st.heap[v.id], I.DictC):
        c = st.heap[v.id]
        d = dict(c.items)
        op = c.opaque
        if len(a) > 1:
            if is_ref(a[1]) and isinstance(st.heap[a[1].id], I.DictC):
                d.update(st.heap[a[1].id].items)
                op = op or st.heap[a[1].id].opaque
            else:
                op = True
        for k, x in kw.items():
            d[('str', k)] = x
        st.heap[v.id] = I.DictC(d, op)
        return T.NONE
    return opq('update')


@model('method.keys')
def _keys(it, st, a, kw, node, f):
    v = a[0]
    if is_ref(v) and isinstance(st.heap[v.id], I.DictC) and not st.heap[v.id].opaque:
        return it.alloc(st, I.ListC([I.from_key(k) for k in st.heap[v.id].items]))
    return opq('keys')


@model('method.values')
def _values(it, st, a, kw, node, f):
    v = a[0]
    if is_ref(v) and isinstance(st.heap[v.id], I.DictC) and not st.heap[v.id].opaque:
        return it.alloc(st, I.ListC(list(st.heap[v.id].items.values())))
    return opq('values')


@model('method.items')
def _items(it, st, a, kw, node, f):
    v = a[0]
    if is_ref(v) and isinstance(st.heap[v.id], I.DictC) and not st.heap[v.id].opaque:
        return it.alloc(st, I.ListC([I.Tup((I.from_key(k), x)) for k, x in st.heap[v.id].items.items()]))
    return opq('items')


def _strm(fn):
    def h(it, st, a, kw, node, f):
        if all(I.is_term(x) and x[0] == 'str' for x in a):
            return fn(*[x[1] for x in a])
        return opq('string method')
    return h


model('method.lower')(_strm(lambda s: ('str', s.lower())))
model('method.upper')(_strm(lambda s: ('str', s.upper())))
model('method.strip')(_strm(lambda s, *x: ('str', s.strip(*x))))
model('method.replace')(_strm(lambda s, x, y: ('str', s.replace(x, y))))
model('method.startswith')(_strm(lambda s, x: T.TRUE if s.startswith(x) else T.FALSE))
model('method.endswith')(_strm(lambda s, x: T.TRUE if s.endswith(x) else T.FALSE))


@model('method.join')
def _join(it, st, a, kw, node, f):
    xs = it.items_of(st, a[1])
    if a[0][0] == 'str' and xs is not None and all(I.is_term(x) and x[0] == 'str' for x in xs):
        return ('str', a[0][1].join(x[1] for x in xs))
    return opq('join')


@model('method.index')
def _index(it, st, a, kw, node, f):
    xs = it.items_of(st, a[0])
    if xs is not None and a[1] in xs:
        return T.num(xs.index(a[1]))
    return opq('index')


# ------------------------------------------------------------------ builtins
@model('builtins.range')
def _range(it, st, a, kw, node, f):
    if not all(I.is_term(x) for x in a):
        return opq('range')
    if any(x[0] == 'opaque' for x in a):
        return opq('range of ' + str([x for x in a if x[0] == 'opaque'][0][2]))
    if len(a) == 1:
        return I.RangeV(T.ZERO, a[0], T.ONE)
    if len(a) == 2:
        return I.RangeV(a[0], a[1], T.ONE)
    return I.RangeV(a[0], a[1], a[2])


model('numba.prange')(_range)


@model('builtins.len')
def _len(it, st, a, kw, node, f):
    if isinstance(a[0], I.Masked):
        return a[0].count()
    v = a[0]
    if isinstance(v, I.Tup):
        return T.num(len(v.items))
    if is_ref(v):
        c = st.heap[v.id]
        if isinstance(c, I.ListC):
            return T.num(len(c.items)) if not c.opaque else opq('len')
        if isinstance(c, I.DictC):
            return T.num(len(c.items)) if not c.opaque else opq('len')
        if isinstance(c, (I.ArrC, I.View)) and c.shape:
            return c.shape[0]
    if isinstance(v, I.RangeV) and v.step == T.ONE:
        return T.sub(v.hi, v.lo)
    if I.is_term(v) and v[0] == 'str':
        return T.num(len(v[1]))
    return opq('len')


@model('builtins.enumerate')
def _enum(it, st, a, kw, node, f):
    return I.EnumV(a[0], kwget(a, kw, 1, 'start', T.ZERO))


@model('builtins.zip')
def _zip(it, st, a, kw, node, f):
    return I.ZipV(list(a))


@model('itertools.combinations')
def _comb(it, st, a, kw, node, f):
    k = T.int_val(a[1]) if I.is_term(a[1]) else None
    return I.CombV(a[0], k) if k is not None else opq('combinations')


def once(it, st, items):
    r = it.alloc(st, I.ListC(items))
    st.heap[r.id].once = True
    return r


@model('itertools.permutations', 'itertools.combinations_with_replacement')
def _perms(it, st, a, kw, node, f):
    xs = it.items_of(st, a[0])
    if xs is None or len(xs) > 7 or not (len(a) == 2 or len(a) == 1 and f.name.endswith('permutations')):
        return opq(f.name)
    k = T.int_val(a[1]) if len(a) == 2 and I.is_term(a[1]) else len(xs) if len(a) == 1 else None
    if k is None or k > 7:
        return opq(f.name)
    return once(it, st, [I.Tup(p) for p in getattr(itertools, f.name.split('.')[1])(xs, k)])


@model('itertools.chain', 'itertools.chain.from_iterable')
def _chain(it, st, a, kw, node, f):
    if f.name.endswith('from_iterable'):
        a = it.items_of(st, a[0]) if len(a) == 1 else None
    xs = None if a is None else [it.items_of(st, x) for x in a]
    if xs is None or any(x is None for x in xs):
        return opq('chain')
    return once(it, st, [y for x in xs for y in x])


@model('builtins.iter')
def _iter(it, st, a, kw, node, f):
    if len(a) != 1:
        return opq('iter')
    if it.one_shot(st, a[0]):
        return a[0]
    xs = it.items_of(st, a[0])
    return opq('iter') if xs is None else once(it, st, xs)


@model('builtins.next')
def _next(it, st, a, kw, node, f):
    if not it.one_shot(st, a[0]):
        return opq('next')
    k = ('ref', a[0].id) if isinstance(a[0], I.Ref) else id(a[0])
    done = st.spent.get(k, (a[0], None, 0))
    xs = it.items_of_raw(st, a[0])
    if xs is None or done[1] == 'part':
        raise Undecided('next of an unmodelled iterator')
    n = done[2] if done[1] in (None, 'from') else len(xs)
    if n >= len(xs):
        if len(a) > 1:
            return a[1]
        raise Undecided('next of an exhausted iterator')
    st.spent[k] = (a[0], 'from', n + 1)
    return xs[n]


@model('builtins.filter')
def _filter(it, st, a, kw, node, f):
    xs = it.items_of(st, a[1]) if len(a) == 2 else None
    if xs is None:
        return opq('filter')
    cur = [(st, [])]
    for x in xs:
        nxt = []
        for s, acc in cur:
            for s2, v in ([(s, x)] if a[0] == T.NONE else it.call(s, a[0], [x], {}, node)):
                nxt.extend((s3, acc + [x] if tv else acc) for s3, tv in it.branch(s2, it.truth(s2, v)))
        cur = nxt
    return [(s, once(it, s, vs)) for s, vs in cur]


@model('functools.reduce')
def _reduce(it, st, a, kw, node, f):
    xs = it.items_of(st, a[1]) if len(a) in (2, 3) else None
    if xs is None or not (xs or len(a) == 3):
        return opq('reduce')
    xs = (a[2:3] if len(a) == 3 else []) + xs
    cur = [(st, xs[0])]
    for x in xs[1:]:
        cur = [r for s, acc in cur for r in it.call(s, a[0], [acc, x], {}, node)]
    return cur


@model('itertools.product')
def _prodit(it, st, a, kw, node, f):
    xs = [it.items_of(st, x) for x in a]
    rep = T.int_val(kw['repeat']) if 'repeat' in kw and I.is_term(kw['repeat']) else 1
    if all(x is not None for x in xs) and rep is not None:
        tot = 1
        for x in xs:
            tot *= len(x)
        if tot ** rep <= 4096:
            return once(it, st, [I.Tup(p) for p in itertools.product(*xs, repeat=rep)])
    return opq('product')


@model('builtins.list', 'builtins.tuple', 'builtins.sorted', 'builtins.reversed')
def _list(it, st, a, kw, node, f):
    nm = f.name.split('.')[-1]
    if not a:
        return I.Tup(()) if nm == 'tuple' else it.alloc(st, I.ListC([]))
    xs = it.items_of(st, a[0])
    if xs is None:
        x = it.arr(st, a[0])
        d = T.int_val(x[0][0]) if x is not None and len(x[0]) == 1 else None
        if d is not None and d <= 64 and nm in ('list', 'tuple', 'sorted') and not kw:
            es = [x[1]((T.num(i),)) for i in range(d)]
            if all(T.num_val(e) is not None for e in es):
                if nm == 'sorted':
                    es.sort(key=T.num_val)
                return I.Tup(es) if nm == 'tuple' else it.alloc(st, I.ListC(es))
        if x is not None and len(x[0]) == 1 and nm in ('list', 'tuple'):
            r = it.new_arr(st, x[0], x[1], x[2])
            st.heap[r.id].kind = 'list'
            return r
        return opq(nm)
    if nm == 'sorted':
        if all(I.is_term(x) and T.num_val(x) is not None for x in xs) and not kw:
            return it.alloc(st, I.ListC(sorted(xs, key=T.num_val)))
        return opq('sorted')
    if nm == 'reversed':
        return once(it, st, xs[::-1])
    return I.Tup(xs) if nm == 'tuple' else it.alloc(st, I.ListC(xs))


@model('builtins.set', 'builtins.frozenset')
def _set(it, st, a, kw, node, f):
    xs = it.items_of(st, a[0]) if a else []
    if xs is not None and all(I.is_term(x) or isinstance(x, I.Tup) and all(I.is_term(y) and T.num_val(y) is not None for y in x.items) for x in xs):
        out = []
        for x in xs:
            if x not in out:
                out.append(x)
        r = it.alloc(st, I.ListC(out))
        st.heap[r.id].isset = True
        return r
    return opq('set')


def dict_key(it, st, k):
    if I.is_term(k):
        return k
    if isinstance(k, I.Tup) and all(I.is_term(x) for x in k.items):
        return ('tupkey',) + tuple(k.items)
    return None


@model('builtins.dict', 'collections.OrderedDict')
def _dict(it, st, a, kw, node, f):
    d = {('str', k): v for k, v in kw.items() if k != '**'}
    if a:
        src = st.heap.get(a[0].id) if isinstance(a[0], I.Ref) else None
        base = None
        if isinstance(src, I.DictC):
            if not src.opaque:
                base = dict(src.items)
        else:
            xs = it.items_of(st, a[0])
            if xs is not None:
                base = {}
                for x in xs:
                    kv = it.items_of(st, x)
                    if kv is None or len(kv) != 2:
                        base = None
                        break
                    k = dict_key(it, st, kv[0])
                    if k is None:
                        base = None
                        break
                    base[k] = kv[1]
        if base is None:
            return it.alloc(st, I.DictC(d, True))
        base.update(d)
        return it.alloc(st, I.DictC(base, '**' in kw))
    return it.alloc(st, I.DictC(d, '**' in kw))


def t_int(x):
    x = num01(x)
    v = T.num_val(x)
    if v is not None:
        return T.num(int(v))
    if T.is_int_valued(x):
        return x
    return ('fn', 'int', x)


def log_ratio(v):
    """(i, b) if v is log(i)/log(b) for integers i >= 1, b >= 2"""
    if v[0] != 'P' or len(v[1]) != 1 or v[1][0][1] != 1 or len(v[1][0][0]) != 2:
        return None
    r = {}
    for at, e in v[1][0][0]:
        if at[0] != 'fn' or at[1] != 'log' or len(at) != 3 or e not in (1, -1) or e in r:
            return None
        r[e] = T.int_val(at[2])
    i, b = r.get(1), r.get(-1)
    return (i, b) if i is not None and b is not None and i >= 1 and b >= 2 else None


@model('builtins.int', 'numpy.int64', 'numpy.int32', 'numpy.int8')
def _int(it, st, a, kw, node, f):
    if not a:
        return T.ZERO
    v = a[0]
    if I.is_term(v):
        if v[0] in ('opaque',):
            return v
        f = T.closed_value(v) if T.num_val(v) is None else None
        if f is not None and abs(f - round(f)) > 1e-9:
            return T.num(int(f))
        lr = log_ratio(v)
        if lr is not None:
            i, b = lr
            k = 0
            while b ** (k + 1) <= i:
                k += 1
            if b ** k != i or k == 0:
                return T.num(k)
            # the quotient of the rounded logarithms may fall on either side of the exact integer
            s2 = st.copy()
            st.events.append(('round', 'up'))
            s2.events.append(('round', 'down'))
            return [(st, T.num(k)), (s2, T.num(k - 1))]
        if v[0] == 'str':
            base = kwget(a, kw, 1, 'base', T.num(10))
            base = T.int_val(base) if I.is_term(base) else None
            try:
                return T.num(int(v[1], base)) if base is not None else opq('int of string')
            except ValueError:
                return opq('int of string')
        return t_int(v)
    x = it.arr(st, v)
    if x is not None and x[0] == ():
        return t_int(x[1](()))
    return opq('int')


@model('builtins.float', 'numpy.float64')
def _float(it, st, a, kw, node, f):
    v = a[0]
    return num01(v) if I.is_term(v) and v[0] != 'str' else opq('float')


@model('builtins.bool', 'numpy.bool_')
def _bool(it, st, a, kw, node, f):
    return it.truth(st, a[0]) if a else T.FALSE


model('builtins.abs')(_ew(lambda x: t_abs(x)))
model('builtins.pow')(_power)


@model('builtins.print', 'warnings.warn', 'method.flush')
def _print(it, st, a, kw, node, f):
    st.events.append(('effect', f.name, getattr(node, 'lineno', 0)))
    return T.NONE


@model('builtins.type')
def _type(it, st, a, kw, node, f):
    v = a[0]
    if is_ref(v):
        c = st.heap[v.id]
        if isinstance(c, (I.ArrC, I.View)):
            k = getattr(c, 'kind', 'arr')
            return ('type', 'list' if k == 'list' else 'ndarray')
        if isinstance(c, I.ListC):
            return ('type', 'list')
        if isinstance(c, I.DictC):
            return ('type', 'dict')
        if isinstance(c, I.ObjC) and c.cls is not None:
            return I.Cls(c.cls)
    if isinstance(v, I.Tup):
        return ('type', 'tuple')
    if isinstance(v, I.Func):
        return ('type', 'function')
    if I.is_term(v):
        if v[0] == 'str':
            return ('type', 'str')
        if v == T.NONE:
            return ('type', 'NoneType')
        if v in (T.TRUE, T.FALSE):
            return ('type', 'bool')
        if v[0] == 'opaque':
            return ('type', None, v[1])
        if T.is_int_valued(v):
            return ('type', 'int')
        n = T.num_val(v) if v[0] == 'P' else None
        if n is not None or v[0] in ('fn', 'idx', 'sum', 'P'):
            return ('type', 'float')
        return ('type', None, v)
    return ('type', None, repr(v))


@model('builtins.isinstance')
def _isinst(it, st, a, kw, node, f):
    t = _type(it, st, [a[0]], {}, node, f)
    ks = a[1].items if isinstance(a[1], I.Tup) else [a[1]]
    names = []
    for k in ks:
        if isinstance(k, I.Lib):
            names.append(k.name.split('.')[-1])
        elif isinstance(k, I.Cls):
            names.append(k)
        else:
            return ('b', opq('isinstance'))
    if isinstance(t, I.Cls):
        mro = it.proj.mro(t.info)
        return T.TRUE if any(isinstance(n, I.Cls) and any(m[2] is n.info[2] for m in mro) for n in names) else T.FALSE
    if t[1] is None:
        return ('b', opq('isinstance'))
    al = {'int': {'int', 'integer', 'Integral', 'Number', 'int64', 'Real'}, 'float': {'float', 'floating', 'Number', 'Real', 'float64'},
          'bool': {'bool', 'int'}, 'NoneType': {'NoneType'}, 'str': {'str'}, 'list': {'list', 'Sequence', 'Iterable'}, 'tuple': {'tuple', 'Sequence', 'Iterable'},
          'dict': {'dict'}, 'ndarray': {'ndarray', 'Iterable'}, 'function': {'function', 'Callable'}}.get(t[1], {t[1]})
    return T.TRUE if any(n in al for n in names if isinstance(n, str)) else T.FALSE


@model('builtins.callable')
def _callable(it, st, a, kw, node, f):
    v = a[0]
    if isinstance(v, (I.Func, I.Lib, I.Cls, I.Extern)):
        return T.TRUE
    if I.is_term(v) and v[0] == 'opaque':
        return ('b', opq('callable'))
    return T.FALSE


@model('builtins.map')
def _map(it, st, a, kw, node, f):
    if len(a) == 2:
        xs = it.items_of(st, a[1])
        if xs is not None:
            cur = [(st, [])]
            for x in xs:
                nxt = []
                for s, acc in cur:
                    for s2, v in it.call(s, a[0], [x], {}, node):
                        nxt.append((s2, acc + [v]))
                cur = nxt
            return [(s, once(it, s, vs)) for s, vs in cur]
        # lazily mapped symbolic range: treated as a comprehension
        import ast
        sp = it.space(st, a[1])
        if sp is not None and len(sp[0]) == 1:
            s2 = st.copy()
            s2.pc.extend(c for c in sp[1] if c != T.TRUE)
            rs = it.call(s2, a[0], [sp[2](s2)], {}, node)
            if len(rs) == 1:
                s3, v = rs[0]
                x = it.arr(s3, v)
                if x is not None:
                    b = sp[0][0]
                    return it.alloc(st, I.ArrC((sp[4],) + tuple(x[0]), lambda idx: T.subst(x[1](tuple(idx[1:])), {b: idx[0]}), (), x[2], None, 'list'))
    return opq('map')


@model('builtins.super')
def _super(it, st, a, kw, node, f):
    return opq('super')


@model('builtins.hasattr')
def _hasattr(it, st, a, kw, node, f):
    if is_ref(a[0]) and isinstance(st.heap[a[0].id], I.ObjC) and a[1][0] == 'str':
        c = st.heap[a[0].id]
        if a[1][1] in c.attrs:
            return T.TRUE
        if c.cls is not None and it.proj.method(c.cls, a[1][1]):
            return T.TRUE
        return T.FALSE if c.dyn is None else ('b', opq('hasattr'))
    if I.is_term(a[1]) and a[1][0] == 'str' and a[1][1] in ('__len__', '__iter__', '__getitem__', 'shape', 'ndim', 'size', 'dtype', 'append', 'keys'):
        nm = a[1][1]
        x = a[0]
        arrlike = nm in ('shape', 'ndim', 'size', 'dtype')
        if isinstance(x, I.Tup):
            return T.FALSE if arrlike or nm in ('append', 'keys') else T.TRUE
        if is_ref(x):
            c = st.heap[x.id]
            if isinstance(c, I.ListC):
                return T.FALSE if arrlike or nm == 'keys' else T.TRUE
            if isinstance(c, I.DictC):
                return T.FALSE if arrlike or nm == 'append' else T.TRUE
            if it.arr(st, x) is not None:
                return T.FALSE if nm in ('append', 'keys') else T.TRUE
        if I.is_term(x) and T.num_val(x) is not None and not arrlike:
            return T.FALSE
    return ('b', opq('hasattr'))


@model('builtins.getattr')
def _getattr(it, st, a, kw, node, f):
    if I.is_term(a[1]) and a[1][0] == 'str':
        v = it.getattr(st, a[0], a[1][1], node)
        if len(a) > 2 and I.is_term(v) and v[0] == 'opaque' and v[2].startswith('attribute '):
            return a[2]
        return v
    return opq('getattr')


@model('builtins.str', 'builtins.repr')
def _str(it, st, a, kw, node, f):
    v = a[0] if a else ('str', '')
    if I.is_term(v):
        if v[0] == 'str':
            return v
        n = T.int_val(v) if v[0] == 'P' else None
        if n is not None:
            return ('str', str(n))
        return ('fn', 'str', v)
    return opq('str')


@model('method.__init__')
def _minit(it, st, a, kw, node, f):
    return T.NONE


@model('numba.njit', 'numba.jit')
def _njit(it, st, a, kw, node, f):
    # decorator factory used as a call: njit(f) or njit(signature)
    if a and isinstance(a[0], I.Func):
        return a[0]
    return I.Extern('decorator', lambda it, st, a, kw, node: a[0])


@model('mpmath.mpf', 'mpmath.mpmathify')
def _mpf(it, st, a, kw, node, f):
    return a[0] if a else opq('mpf')


@model('numpy.iinfo', 'numpy.finfo')
def _finfo(it, st, a, kw, node, f):
    return opq('finfo')


@model('os.path.join')
def _pjoin(it, st, a, kw, node, f):
    if all(I.is_term(x) and x[0] == 'str' for x in a):
        import os
        return ('str', os.path.join(*[x[1] for x in a]))
    return opq('path')


# ------------------------------------------------------------------ keepdims on reductions
def masked_reduce(it, st, a, kw, f):
    m = a[0]
    op = f.name.split('.')[-1]
    if (len(a) > 1 and a[1] != T.NONE) or kw.get('axis', T.NONE) not in (T.NONE, T.ZERO) or 'keepdims' in kw:
        return opq('reduction of a masked array')
    s = T.addn([T.ite(c, num01(v), T.ZERO) for c, v in zip(m.conds, m.vals)])
    if op in ('sum', 'nansum'):
        return s
    if op in ('mean', 'average') and 'weights' not in kw:
        return T.div(s, m.count())
    if op == 'prod':
        r = T.ONE
        for c, v in zip(m.conds, m.vals):
            r = T.mul(r, T.ite(c, num01(v), T.ONE))
        return r
    return opq('reduction of a masked array')


def _keepdims(fn):
    def h(it, st, a, kw, node, f):
        if set(kw) & {'where', 'out', 'initial', 'ddof', 'return_sign'}:
            return opq('reduction options')
        if a and isinstance(a[0], I.Masked):
            return masked_reduce(it, st, a, kw, f)
        kd = kw.get('keepdims')
        if kd is None or kd == T.FALSE:
            return fn(it, st, a, {k: v for k, v in kw.items() if k != 'keepdims'}, node, f)
        x = it.arr(st, a[0]) if a else None
        if kd != T.TRUE or x is None:
            return opq('keepdims')
        kw = {k: v for k, v in kw.items() if k != 'keepdims'}
        r = fn(it, st, a, kw, node, f)
        ax = kwget(a, kw, 1, 'axis', T.NONE)
        y = it.arr(st, r)
        if y is None:
            return opq('keepdims')
        if ax == T.NONE:
            return it.new_arr(st, tuple(T.ONE for _ in x[0]), lambda q: y[1](()), y[2])
        k = T.int_val(ax)
        if k is None:
            return opq('keepdims axis')
        k %= len(x[0])
        return it.new_arr(st, tuple(y[0][:k]) + (T.ONE,) + tuple(y[0][k:]), lambda q: y[1](tuple(q[:k]) + tuple(q[k + 1:])), y[2])
    return h


for _n in list(TABLE):
    if _n.split('.')[-1] in ('sum', 'mean', 'prod', 'max', 'min', 'amax', 'amin', 'all', 'any', 'nansum', 'logsumexp', 'average') and not _n.startswith('builtins.'):
        TABLE[_n] = _keepdims(TABLE[_n])


@model('builtins.divmod')
def _divmod(it, st, a, kw, node, f):
    if len(a) != 2 or not all(I.is_term(x) for x in a) or any(x[0] == 'opaque' for x in a):
        return opq('divmod')
    return I.Tup([T.floordiv(a[0], a[1]), T.mod(a[0], a[1])])


@model('numpy.linalg.norm')
def _norm(it, st, a, kw, node, f):
    x = it.arr(st, a[0]) if a else None
    o = kwget(a, kw, 1, 'ord', T.NONE)
    ax = kwget(a, kw, 2, 'axis', T.NONE)
    ds = [T.int_val(d) for d in x[0]] if x is not None else None
    if ds is None or None in ds or not ds or len(ds) > 2 or not (o == T.NONE or len(ds) == 1 and I.is_term(o) and T.int_val(o) in (1, 2)):
        return opq('norm')
    one = o != T.NONE and T.int_val(o) == 1

    def nrm(els):
        if any(not I.is_term(e) or e[0] == 'opaque' for e in els):
            return opq('norm of unmodelled elements')
        if one:
            return T.addn([('fn', 'abs', e) if T.num_val(e) is None else T.num(abs(T.num_val(e))) for e in els])
        return t_sqrt(T.addn([T.mul(e, e) for e in els]))
    if ax == T.NONE:
        return nrm([x[1](tuple(T.num(k) for k in q)) for q in itertools.product(*map(range, ds))])
    k = T.int_val(ax) if I.is_term(ax) else None
    if k is None or len(ds) != 2:
        return nrm([x[1]((T.num(q),)) for q in range(ds[0])]) if k in (0, -1) and len(ds) == 1 else opq('norm axis')
    k %= 2
    return _tabulate(it, st, (x[0][1 - k],), lambda ix: nrm([x[1]((T.num(q), ix[0]) if k == 0 else (ix[0], T.num(q))) for q in range(ds[k])]), 'float')


@model('numpy.linspace')
def _linspace(it, st, a, kw, node, f):
    lo, hi = kwget(a, kw, 0, 'start'), kwget(a, kw, 1, 'stop')
    n = kwget(a, kw, 2, 'num', T.num(50))
    end = kwget(a, kw, 3, 'endpoint', T.TRUE)
    k = T.int_val(n) if I.is_term(n) else None
    if lo is None or hi is None or not I.is_term(lo) or not I.is_term(hi) or k is None or k < 1 or end not in (T.TRUE, T.FALSE) or set(kw) - {'start', 'stop', 'num', 'endpoint', 'dtype'}:
        return opq('linspace')
    d = k - 1 if end == T.TRUE else k
    els = [T.add(lo, T.scale(T.sub(hi, lo), Fraction(i, d))) if d else lo for i in range(k)]
    return it.new_arr(st, (T.num(k),), lambda q: els[T.int_val(q[0])] if T.int_val(q[0]) is not None else ('fn', 'linspace', lo, hi, n, q[0]), 'float')


@model('numpy.diff')
def _diff(it, st, a, kw, node, f):
    x = it.arr(st, a[0]) if a else None
    if x is None or len(x[0]) != 1 or len(a) > 1 or kw or T.int_val(x[0][0]) is None:
        return opq('diff')
    els = [x[1]((T.num(i),)) for i in range(T.int_val(x[0][0]))]
    ds = [T.sub(q, p) for p, q in zip(els, els[1:])]
    return it.new_arr(st, (T.num(len(ds)),), lambda q: ds[T.int_val(q[0])] if T.int_val(q[0]) is not None else ('fn', 'diff', q[0]), x[2] if len(x) > 2 else None)

from . import libmore  # noqa: E402,F401  (registers further models)
