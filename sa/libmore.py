"""further library models: rearranging and constant-table functions, all on arrays of fixed shape"""
import itertools
from . import terms as T
from . import interp as I
from .libmodel import model, opq, kwget, const_vec, num01, is_ref, shape_of, dtype_of, once, _tabulate, _concat, TABLE, const_arr, literal_ints, _ew


def fixed(it, st, v):
    """(dims, element of a tuple of ints, dtype) of an array of fixed shape, or None"""
    x = it.arr(st, v)
    if x is None:
        return None
    ds = tuple(T.int_val(d) for d in x[0])
    if None in ds or _size(ds) > 4096:
        return None
    return ds, (lambda q: x[1](tuple(T.num(i) for i in q))), x[2]


def _size(ds):
    n = 1
    for d in ds:
        n *= d
    return n


def rearranged(it, st, ds, fn, dt):
    """a copy whose element at q is fn(q)"""
    return _tabulate(it, st, tuple(T.num(d) for d in ds), lambda q: fn(tuple(T.int_val(i) for i in q)), dt)


def axis_of(v, nd, default=None):
    if v is None:
        return default
    k = T.int_val(v) if I.is_term(v) else None
    if k is None or not -nd <= k < nd:
        raise I.Undecided('axis')
    return k % nd


@model('numpy.flip', 'numpy.fliplr', 'numpy.flipud')
def _flip(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    if x is None:
        return opq('flip')
    nd = len(x[0])
    if f.name.endswith('flip'):
        ax = kwget(a, kw, 1, 'axis')
        axes = list(range(nd)) if ax is None or ax == T.NONE else [axis_of(ax, nd)]
    else:
        axes = [1 if f.name.endswith('lr') else 0]
        if nd <= axes[0]:
            return opq('flip')

    def m(q):
        return tuple(T.sub(T.sub(x[0][k], T.ONE), i) if k in axes else i for k, i in enumerate(q))
    return it.view(st, a[0], x[0], m) if is_ref(a[0]) else it.new_arr(st, x[0], lambda q: x[1](m(q)), x[2])


@model('numpy.stack', 'numpy.column_stack', 'numpy.row_stack', 'numpy.dstack')
def _stack(it, st, a, kw, node, f):
    if f.name.endswith('row_stack'):
        return TABLE['numpy.vstack'](it, st, a, kw, node, f)
    v = kwget(a, kw, 0, 'arrays' if f.name == 'numpy.stack' else 'tup')
    xs = it.items_of(st, v)
    ps = [it.arr(st, x) for x in xs] if xs else None
    if not ps or any(p is None for p in ps):
        return opq(f.name)
    dts = {p[2] for p in ps}
    dt = dts.pop() if len(dts) == 1 else None
    if f.name.endswith('column_stack'):
        qs = [((p[0][0], T.ONE), (lambda q, p=p: p[1](q[:1])), p[2]) if len(p[0]) == 1 else p for p in ps]
        return _concat(it, st, qs, 1) if all(len(q[0]) == 2 for q in qs) else opq(f.name)
    if f.name.endswith('dstack') or len({tuple(p[0]) for p in ps}) != 1:
        return opq(f.name)
    nd = len(ps[0][0])
    k = axis_of(kwget(a, kw, 1, 'axis'), nd + 1, 0)
    qs = [(tuple(p[0][:k]) + (T.ONE,) + tuple(p[0][k:]), (lambda q, p=p: p[1](tuple(q[:k]) + tuple(q[k + 1:]))), dt) for p in ps]
    return _concat(it, st, qs, k)


@model('numpy.expand_dims')
def _expand(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    if x is None:
        return opq('expand_dims')
    k = axis_of(kwget(a, kw, 1, 'axis'), len(x[0]) + 1)
    if k is None:
        return opq('expand_dims')
    m = lambda q: tuple(q[:k]) + tuple(q[k + 1:])
    shp = tuple(x[0][:k]) + (T.ONE,) + tuple(x[0][k:])
    return it.view(st, a[0], shp, m) if is_ref(a[0]) else it.new_arr(st, shp, lambda q: x[1](m(q)), x[2])


@model('numpy.squeeze', 'method.squeeze')
def _squeeze(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    if x is None or any(T.int_val(d) is None for d in x[0]):
        return opq('squeeze')
    ax = kwget(a, kw, 1, 'axis')
    drop = {k for k, d in enumerate(x[0]) if d == T.ONE} if ax is None or ax == T.NONE else {axis_of(ax, len(x[0]))}
    if any(x[0][k] != T.ONE for k in drop):
        return opq('squeeze of a longer axis')
    keep = [k for k in range(len(x[0])) if k not in drop]
    m = lambda q: tuple(q[keep.index(k)] if k in keep else T.ZERO for k in range(len(x[0])))
    shp = tuple(x[0][k] for k in keep)
    return it.view(st, a[0], shp, m) if is_ref(a[0]) else it.new_arr(st, shp, lambda q: x[1](m(q)), x[2])


@model('numpy.atleast_1d', 'numpy.atleast_2d')
def _atleast(it, st, a, kw, node, f):
    if len(a) != 1:
        return opq(f.name)
    x = it.arr(st, a[0])
    if x is None:
        return opq(f.name)
    nd = int(f.name[-2])
    if len(x[0]) >= nd:
        return a[0] if is_ref(a[0]) and isinstance(st.heap[a[0].id], (I.ArrC, I.View)) else it.new_arr(st, x[0], x[1], x[2])
    add = nd - len(x[0])
    shp = (T.ONE,) * add + tuple(x[0])
    m = lambda q: tuple(q[add:])
    if is_ref(a[0]) and isinstance(st.heap[a[0].id], (I.ArrC, I.View)):
        return it.view(st, a[0], shp, m)
    return it.new_arr(st, shp, lambda q: x[1](m(q)), x[2])


@model('numpy.take', 'method.take')
def _take(it, st, a, kw, node, f):
    x = fixed(it, st, a[0])
    y = kwget(a, kw, 1, 'indices')
    ax = kwget(a, kw, 2, 'axis')
    if x is None or y is None:
        return opq('take')
    ks = fixed(it, st, y)
    if ks is None:
        return opq('take')
    if ax is None or ax == T.NONE:
        if len(x[0]) != 1:
            return opq('take')
        k = 0
    else:
        k = axis_of(ax, len(x[0]))
    ind = {q: T.int_val(num01(ks[1](q))) for q in itertools.product(*map(range, ks[0]))}
    d = x[0][k]
    if any(i is None for i in ind.values()):
        return opq('take')
    if any(not -d <= i < d for i in ind.values()):
        st.events.append(('oob', 'index outside an axis of length %d' % d))
        return opq('index out of range')
    n = len(ks[0])
    r = rearranged(it, st, x[0][:k] + ks[0] + x[0][k + 1:], lambda q: x[1](q[:k] + (ind[q[k:k + n]] % d,) + q[k + n:]), x[2])
    z = it.arr(st, r)
    return z[1](()) if z[0] == () else r


@model('numpy.isin', 'numpy.in1d')
def _isin(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    y = kwget(a, kw, 1, 'test_elements' if f.name.endswith('isin') else 'ar2')
    inv = kw.get('invert', T.FALSE)
    e = None if y is None else fixed(it, st, y)
    if x is None or e is None or inv not in (T.TRUE, T.FALSE) or len(e[0]) != 1 or e[0][0] > 64 or (f.name.endswith('in1d') and len(x[0]) != 1):
        return opq(f.name)
    vals = [num01(e[1]((i,))) for i in range(e[0][0])]

    def g(q):
        t = num01(x[1](q))
        c = T.lor([T.eq(t, v) for v in vals]) if vals else T.FALSE
        return T.lnot(c) if inv == T.TRUE else c
    return it.new_arr(st, x[0], g, 'bool') if x[0] != () else g(())


@model('numpy.searchsorted', 'method.searchsorted')
def _searchsorted(it, st, a, kw, node, f):
    import bisect
    x = const_vec(it, st, a[0])
    v = kwget(a, kw, 1, 'v')
    side = kwget(a, kw, 2, 'side', ('str', 'left'))
    y = None if v is None else fixed(it, st, v)
    if x is None or y is None or side not in (('str', 'left'), ('str', 'right')) or x != sorted(x):
        return opq('searchsorted')
    fun = bisect.bisect_left if side[1] == 'left' else bisect.bisect_right
    vals = {q: T.num_val(num01(y[1](q))) for q in itertools.product(*map(range, y[0]))}
    if None in vals.values():
        return opq('searchsorted')
    if y[0] == ():
        return T.num(fun(x, vals[()]))
    return rearranged(it, st, y[0], lambda q: T.num(fun(x, vals[q])), 'int')


@model('numpy.lexsort')
def _lexsort(it, st, a, kw, node, f):
    xs = it.items_of(st, a[0])
    if xs is None:
        x = fixed(it, st, a[0])
        keys = None if x is None or len(x[0]) != 2 else [[T.num_val(num01(x[1]((i, j)))) for j in range(x[0][1])] for i in range(x[0][0])]
    else:
        keys = [const_vec(it, st, y) for y in xs]
    if not keys or any(k is None or None in k for k in keys) or len({len(k) for k in keys}) != 1:
        return opq('lexsort')
    r = sorted(range(len(keys[0])), key=lambda i: tuple(k[i] for k in reversed(keys)))
    return rearranged(it, st, (len(r),), lambda q: T.num(r[q[0]]), 'int')


@model('numpy.trace', 'method.trace')
def _trace(it, st, a, kw, node, f):
    x = fixed(it, st, a[0])
    if len(a) != 1 or x is None or len(x[0]) != 2:
        return opq('trace')
    return T.addn([num01(x[1]((i, i))) for i in range(min(x[0]))])


@model('numpy.full_like')
def _full_like(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    v = kwget(a, kw, 1, 'fill_value')
    if x is None or v is None or not I.is_term(v):
        return opq('full_like')
    dt = dtype_of(kwget(a, kw, 2, 'dtype'), x[2])
    return const_arr(it, st, x[0], I.stored(v, dt, None) if dt in ('int', 'bool') else v, dt)


@model('numpy.fromiter')
def _fromiter(it, st, a, kw, node, f):
    xs = it.items_of(st, a[0])
    dt = dtype_of(kwget(a, kw, 1, 'dtype'), None)
    if xs is None or not all(I.is_term(x) for x in xs):
        return opq('fromiter')
    return rearranged(it, st, (len(xs),), lambda q: I.stored(xs[q[0]], dt, None) if dt in ('int', 'bool') else xs[q[0]], dt)


@model('numpy.split', 'numpy.array_split', 'numpy.hsplit', 'numpy.vsplit')
def _split(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    if x is None:
        return opq('split')
    s = kwget(a, kw, 1, 'indices_or_sections')
    k = axis_of(kwget(a, kw, 2, 'axis'), len(x[0]), 0) if f.name[6] in 'sa' else (0 if f.name[6] == 'v' or len(x[0]) == 1 else 1)
    n = T.int_val(x[0][k])
    m = T.int_val(s) if s is not None and I.is_term(s) else None
    if n is None or s is None:
        return opq('split')
    if m is not None:
        if m <= 0 or n % m and not f.name.endswith('array_split'):
            return opq('split')
        b = [0]
        for i in range(m):
            b.append(b[-1] + n // m + (i < n % m))
    else:
        c = const_vec(it, st, s)
        if c is None or any(z != int(z) for z in c):
            return opq('split')
        b = [0] + [min(max(int(z) if z >= 0 else int(z) + n, 0), n) for z in c] + [n]
    out = []
    for lo, hi in zip(b, b[1:]):
        g = lambda q, lo=lo: tuple(q[:k]) + (T.add(q[k], T.num(lo)),) + tuple(q[k + 1:])
        shp = tuple(x[0][:k]) + (T.num(max(hi - lo, 0)),) + tuple(x[0][k + 1:])
        out.append(it.view(st, a[0], shp, g) if is_ref(a[0]) else it.new_arr(st, shp, lambda q, g=g: x[1](g(q)), x[2]))
    return it.alloc(st, I.ListC(out))


@model('numpy.broadcast_to')
def _bto(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    shp = shape_of(it, st, kwget(a, kw, 1, 'shape'))
    if x is None or shp is None or len(shp) < len(x[0]):
        return opq('broadcast_to')
    off = len(shp) - len(x[0])
    if any(d != T.ONE and d != shp[off + k] for k, d in enumerate(x[0])):
        return opq('broadcast_to')
    return it.new_arr(st, shp, lambda q: x[1](tuple(T.ZERO if d == T.ONE else q[off + k] for k, d in enumerate(x[0]))), x[2])


@model('numpy.round', 'numpy.around', 'numpy.rint', 'method.round')
def _round(it, st, a, kw, node, f):
    x = fixed(it, st, a[0])
    d = kwget(a, kw, 1, 'decimals', T.ZERO)
    if x is None or d != T.ZERO:
        return opq('round')
    vals = {q: T.num_val(num01(x[1](q))) for q in itertools.product(*map(range, x[0]))}
    if None in vals.values():
        return opq('round')
    r = lambda v: T.num(round(v))
    return r(vals[()]) if x[0] == () else rearranged(it, st, x[0], lambda q: r(vals[q]), x[2] if x[2] == 'int' else 'float')


@model('numpy.kron')
def _kron(it, st, a, kw, node, f):
    x, y = (fixed(it, st, v) for v in a[:2]) if len(a) == 2 else (None, None)
    if x is None or y is None or len(x[0]) != len(y[0]) or _size(x[0]) * _size(y[0]) > 4096:
        return opq('kron')
    ds = tuple(i * j for i, j in zip(x[0], y[0]))
    dt = x[2] if x[2] == y[2] else None
    return rearranged(it, st, ds, lambda q: T.mul(num01(x[1](tuple(i // n for i, n in zip(q, y[0])))), num01(y[1](tuple(i % n for i, n in zip(q, y[0]))))), dt)


@model('numpy.cumprod', 'method.cumprod')
def _cumprod(it, st, a, kw, node, f):
    x = fixed(it, st, a[0])
    ax = kwget(a, kw, 1, 'axis', T.NONE)
    if x is None or len(x[0]) != 1 or ax not in (T.NONE, T.ZERO):
        return opq('cumprod')
    out = []
    for i in range(x[0][0]):
        v = num01(x[1]((i,)))
        out.append(T.mul(out[-1], v) if out else v)
    return rearranged(it, st, x[0], lambda q: out[q[0]], x[2])


@model('numpy.meshgrid')
def _meshgrid(it, st, a, kw, node, f):
    xs = [it.arr(st, v) for v in a]
    ix = kw.get('indexing', ('str', 'xy'))
    if len(xs) < 2 or any(x is None or len(x[0]) != 1 for x in xs) or ix not in (('str', 'xy'), ('str', 'ij')):
        return opq('meshgrid')
    pos = list(range(len(xs)))
    if ix[1] == 'xy':
        pos[0], pos[1] = 1, 0
    shp = [None] * len(xs)
    for k, x in enumerate(xs):
        shp[pos[k]] = x[0][0]
    return it.alloc(st, I.ListC([it.new_arr(st, tuple(shp), lambda q, x=x, k=k: x[1]((q[pos[k]],)), x[2]) for k, x in enumerate(xs)]))


@model('numpy.tril_indices_from', 'numpy.diag_indices_from')
def _from(it, st, a, kw, node, f):
    x = it.arr(st, a[0])
    if x is None or len(x[0]) != 2 or x[0][0] != x[0][1]:
        return opq(f.name)
    h = TABLE.get(f.name[:-5])
    return h(it, st, I.SeenArgs([x[0][0]] + list(a[1:])), kw, node, f) if h is not None else opq(f.name)


@model('itertools.islice')
def _islice(it, st, a, kw, node, f):
    if it.one_shot(st, a[0]):
        return opq('islice of an iterator')
    xs = it.items_of(st, a[0])
    ks = [None if v == T.NONE else T.int_val(v) if I.is_term(v) else 'x' for v in a[1:]]
    if xs is None or not ks or 'x' in ks or any(k is None and a[1 + i] != T.NONE for i, k in enumerate(ks)):
        return opq('islice')
    return once(it, st, list(itertools.islice(xs, *ks)))


@model('itertools.repeat')
def _rep(it, st, a, kw, node, f):
    n = kwget(a, kw, 1, 'times')
    k = T.int_val(n) if n is not None and I.is_term(n) else None
    return opq('endless repeat') if k is None or k > 4096 else once(it, st, [a[0]] * max(k, 0))


@model('itertools.pairwise')
def _pairwise(it, st, a, kw, node, f):
    xs = it.items_of(st, a[0])
    return opq('pairwise') if xs is None else once(it, st, [I.Tup(p) for p in zip(xs, xs[1:])])


@model('itertools.accumulate')
def _accumulate(it, st, a, kw, node, f):
    xs = it.items_of(st, a[0])
    if xs is None or len(a) != 1 or not all(I.is_term(x) and x[0] not in ('str', 'none') for x in xs):
        return opq('accumulate')
    return once(it, st, list(itertools.accumulate([num01(x) for x in xs], T.add)))


for _m, _n in (('method.clip', 'numpy.clip'), ('method.nonzero', 'numpy.nonzero')):
    if _m not in TABLE and _n in TABLE:
        TABLE[_m] = TABLE[_n]


# --------------------------------------------------------------- trigonometry
def _trig(nm):
    at0 = {'sin': T.ZERO, 'cos': T.ONE, 'tan': T.ZERO, 'arctan': T.ZERO, 'arcsin': T.ZERO}.get(nm)

    def g(x):
        x = num01(x)
        if T.num_val(x) == 0 and at0 is not None:
            return at0
        return ('fn', nm, x)
    return g


for _n, _m in (('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'), ('arcsin', 'asin'), ('arccos', 'acos'), ('arctan', 'atan')):
    if 'numpy.' + _n not in TABLE:
        model('numpy.' + _n, 'math.' + _m)(_ew(_trig(_n)))


# --------------------------------------------------------------- sets
def hashed(it, v):
    """v as an element whose equality with other elements is decided"""
    return I.is_term(v) and (v[0] in ('str', 'T', 'F', 'none') or T.num_val(v) is not None) or isinstance(v, I.Tup) and all(hashed(it, x) for x in v.items)


def set_items(it, st, v):
    """elements of a set, or of an iterable turned into one; None when not all are known"""
    xs = it.items_of(st, v)
    if xs is None or not all(hashed(it, x) for x in xs):
        return None
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def the_set(it, st, v):
    return st.heap[v.id] if is_ref(v) and isinstance(st.heap[v.id], I.ListC) and st.heap[v.id].isset else None


def put_set(it, st, v, xs):
    c = I.ListC(xs or [], xs is None)
    c.isset = True
    if v is None:
        return it.alloc(st, c)
    st.heap[v.id] = c
    return T.NONE


def _combine(nm, fn, inplace):
    old = TABLE.get('method.' + nm)

    def h(it, st, a, kw, node, f):
        c = the_set(it, st, a[0])
        if c is None:
            if old is not None:
                return old(it, st, a, kw, node, f)
            return opq(nm)
        xs = None if c.opaque else set_items(it, st, a[0])
        for b in list(a)[1:]:
            ys = set_items(it, st, b)
            xs = None if xs is None or ys is None else fn(xs, ys)
        return put_set(it, st, a[0] if inplace else None, xs)
    TABLE['method.' + nm] = h


def _union(xs, ys):
    return xs + [y for y in ys if y not in xs]


def _less(xs, ys):
    return [x for x in xs if x not in ys]


def _common(xs, ys):
    return [x for x in xs if x in ys]


for _n, _f in (('union', _union), ('difference', _less), ('intersection', _common), ('symmetric_difference', lambda x, y: _less(x, y) + _less(y, x))):
    _combine(_n, _f, False)
for _n, _f in (('update', _union), ('difference_update', _less), ('intersection_update', _common), ('symmetric_difference_update', lambda x, y: _less(x, y) + _less(y, x))):
    _combine(_n, _f, True)


@model('method.add')
def _sadd(it, st, a, kw, node, f):
    c = the_set(it, st, a[0])
    if c is None:
        raise I.Undecided('method.add of an object that is not modelled')
    ok = not c.opaque and hashed(it, a[1]) and all(hashed(it, x) for x in c.items)
    return put_set(it, st, a[0], _union(c.items, [a[1]]) if ok else None)


@model('method.discard')
def _sdiscard(it, st, a, kw, node, f):
    c = the_set(it, st, a[0])
    if c is None:
        raise I.Undecided('method.discard of an object that is not modelled')
    ok = not c.opaque and hashed(it, a[1]) and all(hashed(it, x) for x in c.items)
    return put_set(it, st, a[0], _less(c.items, [a[1]]) if ok else None)


def _subset(nm, fn):
    @model('method.' + nm)
    def h(it, st, a, kw, node, f):
        xs, ys = set_items(it, st, a[0]), set_items(it, st, a[1])
        if xs is None or ys is None:
            return opq(nm)
        return T.TRUE if fn(xs, ys) else T.FALSE


_subset('issubset', lambda x, y: all(q in y for q in x))
_subset('issuperset', lambda x, y: all(q in x for q in y))
_subset('isdisjoint', lambda x, y: not any(q in y for q in x))

_list_pop = TABLE['method.pop']


@model('method.pop')
def _spop(it, st, a, kw, node, f):
    """a set gives up any of its elements: each is followed"""
    c = the_set(it, st, a[0])
    if c is None or len(a) > 1:
        return _list_pop(it, st, a, kw, node, f)
    if c.opaque or not c.items:
        put_set(it, st, a[0], None)
        return opq('pop')
    out = []
    for k, x in enumerate(c.items):
        s = st if k == len(c.items) - 1 else st.copy()
        out.append((s, x))
    for k, (s, x) in enumerate(out):
        put_set(it, s, a[0], c.items[:k] + c.items[k + 1:])
    return out


# --------------------------------------------------------------- block matrices
@model('scipy.linalg.block_diag')
def _blockdiag(it, st, a, kw, node, f):
    bs = [fixed(it, st, x) for x in a]
    if not bs or any(b is None or len(b[0]) != 2 for b in bs):
        return opq('block_diag')
    where, r, c = {}, 0, 0
    for k, (ds, _, _) in enumerate(bs):
        for i in range(ds[0]):
            for j in range(ds[1]):
                where[r + i, c + j] = (k, i, j)
        r, c = r + ds[0], c + ds[1]

    def fn(q):
        if q not in where:
            return T.ZERO
        k, i, j = where[q]
        return bs[k][1]((i, j))
    return rearranged(it, st, (r, c), fn, 'int' if all(b[2] in ('int', 'bool') for b in bs) else 'float')
