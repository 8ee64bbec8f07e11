"""Shared by the rules: helper-family instantiation, spin algebra reductions, comparison of abstract results."""
import itertools
import re
from fractions import Fraction
from .. import terms as T
from .. import interp as I
from .. import facts as FX
from ..project import Undecided
from ..ctx import short, equal

num = T.num


def func(r, **k):
    """Func value of a Ctx.find result"""
    return I.Func(r[2], r[1], None, r[3] if len(r) > 3 else None, **k)


def idx(name, *ix):
    return ('idx', name, tuple(num(i) if isinstance(i, int) else i for i in ix))


# ---------------------------------------------------------------- algebra of spins
def reduce_spins(t, names=('X',), kind='pm'):
    """use s*s = 1 (kind 'pm') or s*s = s (kind '01') on the elements of the named arrays"""
    def f(a):
        if a[0] == 'P':
            d = {}
            for m, c in a[1]:
                mm = []
                for atom, p in m:
                    if atom[0] == 'idx' and atom[1] in names and isinstance(p, (int, Fraction)) and p == int(p) and p > 0:
                        p = int(p) % 2 if kind == 'pm' else 1
                        if p == 0:
                            continue
                    mm.append((atom, p))
                mm = tuple(mm)
                d[mm] = d.get(mm, 0) + c
            return T.from_poly({m: c for m, c in d.items() if c != 0})
        return a
    return T.map_term(t, lambda a: a, f)


def opaque_why(t):
    w = [x[2] for x in T.subterms(t) if x[0] == 'opaque'] if I.is_term(t) else []
    return w[0] if w else 'not reduced'


def normal(outs):
    return [(s, o[1]) for s, o in outs if o[0] == 'ret']


def pairs(n):
    return list(itertools.combinations(range(n), 2))


def triples(n):
    return list(itertools.combinations(range(n), 3))


class Run:
    """a value in the state of one path, with element access and length"""

    def __init__(self, it, st, v):
        self.it, self.st, self.v = it, st, v

    def shape(self):
        a = self.it.arr(self.st, self.v)
        return None if a is None else a[0]

    def dims(self):
        s = self.shape()
        return None if s is None else tuple(T.int_val(x) for x in s)

    def __getitem__(self, ix):
        ix = ix if isinstance(ix, tuple) else (ix,)
        return self.it.elem(self.st, self.v, tuple(num(i) if isinstance(i, int) else i for i in ix))

    def items(self):
        return [Run(self.it, self.st, x) for x in self.it.items_of(self.st, self.v)]


def closures(ctx, mod, qual, args, st=None, it=None, **ik):
    """abstractly call a factory; -> (interp, state, [returned callables])"""
    r = ctx.find(mod, qual)
    it = it or I.Interp(ctx.proj, **ik)
    st = st or I.State()
    outs = normal(it.run(func(r), args, {}, st))
    if len(outs) != 1:
        raise Undecided('%s has %d normal paths' % (qual, len(outs)))
    st, v = outs[0]
    items = it.items_of(st, v)
    if items is None:
        raise Undecided('%s does not return a fixed tuple' % qual)
    return it, st, list(items)


def size_constants(pcs, name):
    """integers the size symbol is compared with on the explored paths"""
    out = set()
    for pc in pcs:
        for c in pc:
            for x in T.subterms(c):
                if x[0] in ('lt0', 'eq0'):
                    p = T.to_poly(x[1])
                    lin = {m: k for m, k in p.items() if m}
                    if len(lin) == 1:
                        (m, k), = lin.items()
                        if len(m) == 1 and m[0][0] == ('sym', name) and m[0][1] == 1 and k != 0:
                            v = -p.get((), 0) / k
                            if v == int(v) and 0 <= v <= 24:
                                out |= {int(v) - 1, int(v), int(v) + 1}
    return {v for v in out if v >= 1}


def compare(ctx, rule, con, got, want, facts=(), red=None, msg='', note='', key=None):
    """record one equality obligation"""
    if got is None or not I.is_term(got):
        ctx.undecided(rule, con, 'value not modelled')
        return None
    if red:
        got, want = red(got), red(want)
    v = equal(got, want, facts)
    if v is True:
        ctx.ok(rule, con, note)
    elif v is False:
        ctx.bad(rule, con, '%sanalysed value %s ; required %s' % (msg + ': ' if msg else '', short(got), short(want)), key=key)
    else:
        ctx.undecided(rule, con, '%s (%s)' % (short(got, 160), opaque_why(got)))
    return v


def canon_shift(t):
    """choose summation binders so that array subscripts that are 'binder + affine rest' become plain binders"""
    def fix(a):
        if a[0] != 'sum':
            return a
        bvs, cons, body = a[1], list(a[2]), a[3]
        for _ in range(4):
            hit = None
            for x in T.subterms(body):
                if x[0] != 'idx':
                    continue
                for c in x[2]:
                    p = T.to_poly(c)
                    if len(p) < 2 or any(len(m) > 1 or (m and m[0][1] != 1) for m in p):
                        continue
                    mine = [m[0][0] for m, k in p.items() if m and m[0][0] in bvs and k == 1]
                    if mine and all(not m or m[0][0] in bvs for m in p):
                        b = sorted(mine, key=T.key)[-1]
                        e = T.sub(c, b)
                        hit = (b, T.sub(b, e))
                        break
                if hit:
                    break
            if not hit:
                break
            body = T.subst(body, {hit[0]: hit[1]})
            cons = [T.subst(c, {hit[0]: hit[1]}) for c in cons]
            r = T.mk_sum(bvs, cons, body)
            if r[0] == 'sum':
                bvs, cons, body = r[1], list(r[2]), r[3]
            else:
                return r
        return T.mk_sum(bvs, cons, body)
    return T.map_term(t, fix)


# ---------------------------------------------------------------- numeric reading of extracted formulas
class NoValue(Exception):
    pass


def evalnum(t, env):
    """value of a term under an assignment of its leaves (env: dict term -> number, or callable)"""
    import math
    if isinstance(t, (int, float, Fraction)):
        return t
    h = t[0]
    if h in ('T', 'F'):
        return h == 'T'
    if callable(env):
        v = env(t)
    else:
        v = env.get(t)
    if v is not None:
        return v
    if h == 'P':
        r = 0
        for m, c in t[1]:
            x = c
            for a, p in m:
                base = evalnum(a, env)
                if isinstance(p, tuple):
                    p = evalnum(p, env)
                x = x * (base ** p)
            r = r + x
        return r
    if h == 'ite':
        return evalnum(t[2], env) if evalnum(t[1], env) else evalnum(t[3], env)
    if h == 'b':
        return bool(evalnum(t[1], env))
    if h == 'lt0':
        return evalnum(t[1], env) < 0
    if h == 'eq0':
        return evalnum(t[1], env) == 0
    if h == 'eqc':
        return evalnum(t[1], env) == evalnum(t[2], env)
    if h == 'not':
        return not evalnum(t[1], env)
    if h == 'and':
        return all(evalnum(x, env) for x in t[1])
    if h == 'or':
        return any(evalnum(x, env) for x in t[1])
    if h == 'grp':
        return evalnum(t[1], env)
    if h in ('floordiv', 'mod'):
        a, b = evalnum(t[1], env), evalnum(t[2], env)
        return a // b if h == 'floordiv' else a % b
    if h == 'fn':
        f = {'pi': lambda: math.pi, 'e': lambda: math.e, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp, 'log': math.log, 'sqrt': math.sqrt, 'abs': abs, 'tanh': math.tanh, 'cosh': math.cosh, 'sinh': math.sinh, 'min': min, 'max': max,
             'log2': math.log2, 'int': int, 'arctanh': math.atanh, 'log1p': math.log1p, 'expm1': math.expm1, 'floor': math.floor, 'ceil': math.ceil, 'sign': lambda x: (x > 0) - (x < 0)}.get(t[1])
        if f is not None:
            try:
                return f(*[evalnum(x, env) for x in t[2:]])
            except (ValueError, OverflowError):
                raise NoValue('domain')
    raise NoValue(str(t)[:80])


def cutoffs(nodes, cap=24):
    """integers the code compares sizes with: each one may start a different regime, so the rules also look just around it"""
    import ast
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            vals = []
            if isinstance(x, ast.Compare):
                vals = [x.left] + list(x.comparators)
            elif isinstance(x, ast.Call) and getattr(x.func, 'id', getattr(x.func, 'attr', '')) in ('min', 'max', 'minimum', 'maximum'):
                vals = x.args
            elif isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Mod, ast.FloorDiv)):
                vals = [x.right]
            for v in vals:
                if isinstance(v, ast.Constant) and type(v.value) is int and 1 < v.value <= cap:
                    out |= {v.value - 1, v.value, v.value + 1}
    return sorted(out)


def oob_of(s):
    """first definite out-of-range access of a path, or None"""
    for e in s.events:
        if e[0] == 'oob':
            return e[1]
    return None


def vec(els):
    """element function of a fixed vector (last index)"""
    def fn(ix):
        k = T.int_val(ix[-1])
        return els[k] if k is not None and 0 <= k < len(els) else I.opaque('index out of range')
    return fn


def evaluate(ctx, rule, con, mod, qual, build, judge, unroll=4096, externs=None, selfv=None):
    """run one function on the arguments build(it, st) -> (args, kw) and hand every normal path to judge(Run-like it, st, value).
    A function that can only raise on this valid input is a violation; code the engine cannot follow is undecided."""
    r = ctx.find(mod, qual)
    it = I.Interp(ctx.proj, unroll=unroll)
    if externs:
        it.externs.update(externs)
    st = I.State()
    args, kw = build(it, st)
    outs = it.run(func(r, selfv=selfv(it, st)) if selfv else func(r), args, kw, st)
    res = normal(outs)
    if not res:
        if outs and all(o[0] == 'raise' for _, o in outs):
            ctx.bad(rule, con, 'always raises %s on valid input' % (outs[0][1][1],))
        else:
            ctx.undecided(rule, con, 'no path returns')
        return 0
    for s, v in res:
        o = oob_of(s)
        if o and not s.pc:
            ctx.bad(rule, con, 'an element outside its array is accessed: ' + o)
            continue
        judge(it, s, v)
    return len(res)


def expect_vec(ctx, rule, con, it, s, v, want, red=None, labels=None, key=None):
    """v must be a vector with exactly these elements"""
    R = Run(it, s, v)
    d = R.dims()
    if d is None or len(d) != 1 or d[0] is None:
        if d is not None and len(d) != 1:
            ctx.bad(rule, con, 'result has %d axes instead of one' % len(d), key=key)
        else:
            ctx.undecided(rule, con, 'result is not a fixed vector')
        return
    if d[0] != len(want):
        ctx.bad(rule, con, 'has %s elements instead of %d' % (d[0], len(want)), key=key)
        return
    for q, w in enumerate(want):
        compare(ctx, rule, '%s [%s]' % (con, labels[q] if labels else q), R[q], w, s.pc, red, key=key)


def expect_mat(ctx, rule, con, it, s, v, want, red=None, key=None):
    R = Run(it, s, v)
    d = R.dims()
    if d is None or len(d) != 2 or None in d:
        if d is not None and len(d) != 2:
            ctx.bad(rule, con, 'result has %d axes instead of two' % len(d), key=key)
        else:
            ctx.undecided(rule, con, 'result is not a fixed matrix')
        return
    if d != (len(want), len(want[0]) if want else 0):
        ctx.bad(rule, con, 'shape is %s instead of %s' % (d, (len(want), len(want[0]))), key=key)
        return
    for i, row in enumerate(want):
        for j, w in enumerate(row):
            compare(ctx, rule, '%s [%d,%d]' % (con, i, j), R[i, j], w, s.pc, red, key=key)


def one_of(it, s, v, n):
    """the n values of a returned tuple or list, or None"""
    xs = it.items_of(s, v)
    return xs if xs is not None and len(xs) == n else None


def sym_mat(it, st, name, n, diag=None, dtype='float'):
    """symmetric n x n array with elements name[min,max] and the given diagonal (default zero)"""
    def fn(ix):
        i, j = T.int_val(ix[0]), T.int_val(ix[1])
        if i is None or j is None:
            return I.opaque('symbolic index into a symmetric matrix')
        if i == j:
            return T.ZERO if diag is None else diag(i)
        return idx(name, min(i, j), max(i, j))
    return it.new_arr(st, (num(n), num(n)), fn, dtype)
