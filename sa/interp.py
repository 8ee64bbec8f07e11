"""Abstract interpreter over the Python AST (and over C++ functions lowered to it, see cxx.py).

Domain: canonical terms (terms.py) for scalars, arrays as (shape, element function, write records),
loops summarised by recurrence analysis (closed forms of induction variables, write records quantified
over the iteration space, reductions as canonical sums).  Branches are followed separately, calls into
the project are inlined, anything not modelled becomes an 'opaque' atom; rules treat a result that
contains an opaque atom as undecided.
"""
import ast
import itertools
from fractions import Fraction
from . import terms as T
from . import facts as FX
from .project import Undecided

MAX_PATHS = 600
MAX_DEPTH = 14


class Ref:
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i

    def __repr__(self):
        return 'Ref%d' % self.id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('Ref', self.id))


class Tup:
    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'Tup%r' % (self.items,)

    def __eq__(self, o):
        return isinstance(o, Tup) and o.items == self.items

    def __hash__(self):
        return hash(self.items)


class Func:
    def __init__(self, node, mod, frame=None, cls=None, selfv=None, name=None, defaults=None):
        self.node, self.mod, self.frame, self.cls, self.selfv = node, mod, frame, cls, selfv
        self.name = name or getattr(node, 'name', '<lambda>')
        self.defaults = defaults or {}

    def bind(self, selfv):
        f = Func(self.node, self.mod, self.frame, self.cls, selfv, self.name, self.defaults)
        return f

    def __repr__(self):
        return 'Func(%s)' % self.name

    def __eq__(self, o):
        return isinstance(o, Func) and o.node is self.node and o.selfv == self.selfv and o.frame == self.frame

    def __hash__(self):
        return hash(id(self.node))


class Lib:
    def __init__(self, name, recv=None):
        self.name, self.recv = name, recv

    def __repr__(self):
        return 'Lib(%s)' % self.name

    def __eq__(self, o):
        return isinstance(o, Lib) and o.name == self.name and o.recv == self.recv

    def __hash__(self):
        return hash(self.name)


class ModV:
    def __init__(self, mod):
        self.mod = mod

    def __eq__(self, o):
        return isinstance(o, ModV) and o.mod is self.mod

    def __hash__(self):
        return hash(self.mod.name)


class Cls:
    def __init__(self, info):
        self.info = info          # ('class', Module, node)

    def __eq__(self, o):
        return isinstance(o, Cls) and o.info[2] is self.info[2]

    def __hash__(self):
        return hash(id(self.info[2]))

    def __repr__(self):
        return 'Cls(%s)' % self.info[2].name


LIBCONST = {'newaxis': T.NONE, 'inf': ('fn', 'inf'), 'Inf': ('fn', 'inf'), 'nan': ('fn', 'nan'), 'pi': ('fn', 'pi'), 'e': ('fn', 'e')}


class Extern:
    """value whose call / attribute behaviour is given by the rule"""

    def __init__(self, name, call=None, attr=None, methods=None):
        self.name, self.call, self.attr, self.methods = name, call, attr, methods or {}

    def __repr__(self):
        return 'Extern(%s)' % self.name


class RangeV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class EnumV:
    def __init__(self, it, start):
        self.it, self.start = it, start


class ZipV:
    def __init__(self, its):
        self.its = its


class CombV:
    def __init__(self, it, k):
        self.it, self.k = it, k


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class TriIdx:
    """np.triu_indices(n,k=1) : pair index set, optionally one component"""

    def __init__(self, n, comp=None):
        self.n, self.comp = n, comp


class Masked:
    """A[mask] of a fixed vector under symbolic conditions: which elements are kept is not known"""

    def __init__(self, conds, vals):
        self.conds, self.vals = conds, vals

    def count(self):
        return T.addn([T.ite(c, T.ONE, T.ZERO) for c in self.conds])


# ------------------------------------------------------------------ heap contents
class ArrC:
    def __init__(self, shape, fn, writes=(), dtype=None, name=None, kind='arr'):
        self.shape, self.fn, self.writes, self.dtype, self.name, self.kind = shape, fn, writes, dtype, name, kind

    def with_write(self, w):
        if w[0] == 'dict' and self.writes and self.writes[-1][0] == 'dict':
            d = dict(self.writes[-1][1])
            d.update(w[1])
            ws = self.writes[:-1] + (('dict', d),)
        else:
            ws = self.writes + (w,)
        return ArrC(self.shape, self.fn, ws, self.dtype, self.name, self.kind)

    def elem(self, idx):
        return _read(self, tuple(idx), len(self.writes))


class View:
    def __init__(self, ref, sel, shape):
        self.ref, self.sel, self.shape = ref, sel, shape


CONSTMODS = frozenset(('numpy', 'math', 'scipy', 'scipy.constants'))


class ListC:
    isset = False
    once = False

    def __init__(self, items, opaque=False):
        self.items = list(items)
        self.opaque = opaque


class DictC:
    def __init__(self, items, opaque=False):
        self.items = dict(items)
        self.opaque = opaque


def const_key(k):
    return k[0] in ('str', 'T', 'F', 'none') or T.num_val(k) is not None or (k[0] == 'tupkey' and all(const_key(x) for x in k[1:]))


def const_keys(c, k):
    """the key and all keys of the dict are literal values, so membership is decided by comparing them"""
    return const_key(k) and all(const_key(x) for x in c.items)


def to_key(k):
    if isinstance(k, Tup) and all(is_term(x) for x in k.items):
        return ('tupkey',) + tuple(k.items)
    return k


def from_key(k):
    return Tup(k[1:]) if k[0] == 'tupkey' else k


class ObjC:
    def __init__(self, cls, attrs, name=None, dyn=None):
        self.cls, self.attrs, self.name = cls, dict(attrs), name
        self.dyn = dyn            # callable(attrname)-> value for undeclared attributes


class W:
    """write record: for all binders satisfying cons: A[idx] (op)= value(slice axes positions)"""

    def __init__(self, bvs, cons, sel, val, mode):
        self.bvs, self.cons, self.sel, self.val, self.mode = tuple(bvs), tuple(cons), tuple(sel), val, mode
        # sel: per axis ('int',term) or ('sl',start,len,step) ; val: fn(positions on slice axes)->term


def _sel_match(sel, idx):
    """conditions for idx to be hit by sel, and positions along the slice axes"""
    conds, pos = [], []
    for s, q in zip(sel, idx):
        if s[0] == 'int':
            conds.append(T.eq(q, s[1]))
        else:
            start, ln, step = s[1], s[2], s[3]
            if step == T.ONE:
                p = T.sub(q, start)
            elif T.num_val(step) == -1:
                p = T.sub(start, q)
            else:
                p = T.floordiv(T.sub(q, start), step)
                conds.append(T.eq(T.mod(T.sub(q, start), step), T.ZERO))
            full = (start == T.ZERO and s[4:] == ('full',))
            if not full:
                conds.append(T.ge(p, T.ZERO))
                if ln is not None:
                    conds.append(T.lt(p, ln))
            pos.append(p)
    return conds, pos


def _cond(cs):
    fx = FX.current()
    c = T.land(cs)
    r = fx.entails(c)
    if r is True:
        return T.TRUE
    if r is False:
        return T.FALSE
    if c[0] == 'and':
        rest = []
        for x in c[1]:
            e = fx.entails(x)
            if e is False:
                return T.FALSE
            if e is not True:
                rest.append(x)
        return T.land(rest)
    return c


_opq = itertools.count()


def opaque(why):
    return ('opaque', next(_opq), why)


def _read(arr, idx, k):
    if k == 0:
        return arr.fn(idx)
    w = arr.writes[k - 1]
    if w[0] == 'dict':
        iv = []
        for q in idx:
            v = T.int_val(q)
            if v is None:
                iv = None
                break
            iv.append(v)
        if iv is not None:
            if tuple(iv) in w[1]:
                return w[1][tuple(iv)]
            return _read(arr, idx, k - 1)
        r = _read(arr, idx, k - 1)
        if len(w[1]) > 64:
            return opaque('symbolic read of a large constant-index table')
        for j, v in w[1].items():
            c = _cond([T.eq(q, T.num(x)) for q, x in zip(idx, j)])
            r = T.ite(c, v, r) if c != T.TRUE else v
        return r
    if w[0] == 'mask':
        c = w[1](idx)
        fx = FX.current().entails(c)
        if fx is True:
            return w[2](idx)
        if fx is False:
            return _read(arr, idx, k - 1)
        return T.ite(c, w[2](idx), _read(arr, idx, k - 1))
    if w[0] == 'havoc':
        return opaque(w[1])
    rec = w[1]
    conds, pos = _sel_match(rec.sel, idx)
    if rec.mode == 'add':
        # the selector condition is part of the summation domain
        val = rec.val(pos)
        if rec.bvs:
            s = T.mk_sum(rec.bvs, list(rec.cons) + conds, val)
            s = FX.current().simplify(s)
        else:
            s = T.mul_guard(_cond(list(rec.cons) + conds), val)
        return T.add(_read(arr, idx, k - 1), s)
    if not rec.bvs:
        c = _cond(list(rec.cons) + conds)
        if c == T.FALSE:
            return _read(arr, idx, k - 1)
        if c == T.TRUE:
            return rec.val(pos)
        return T.ite(c, rec.val(pos), _read(arr, idx, k - 1))
    # quantified set: solve the selector equations for the binders
    r = _solve_binders(rec, conds, pos, idx)
    if r == 'no':
        return _read(arr, idx, k - 1)
    if r is None:
        MISS.append((rec, idx))
        return opaque('write index not resolved')
    c, v = r
    if c == T.TRUE:
        return v
    return T.ite(c, v, _read(arr, idx, k - 1))


def _solve_binders(rec, conds, pos, idx):
    env = {}
    eqs = [c for c in conds if c[0] == 'eq0']
    if T.FALSE in conds:
        return 'no'
    others = [c for c in conds if c[0] != 'eq0' and c != T.TRUE]
    pend = list(eqs)
    remaining = list(rec.bvs)
    progress = True
    while pend and progress:
        progress = False
        for c in list(pend):
            t = T.subst(c[1], env) if env else c[1]
            vs = [b for b in remaining if T.contains(t, b)]
            if not vs:
                pend.remove(c)
                if t != T.ZERO:
                    others.append(T.eq(t, T.ZERO))
                progress = True
                continue
            if len(vs) == 1:
                s = T.solve_for(t, vs[0])
                if s is not None:
                    env = {k: T.subst(v, {vs[0]: s}) for k, v in env.items()}
                    env[vs[0]] = s
                    remaining.remove(vs[0])
                    pend.remove(c)
                    progress = True
    if not pend and not remaining:
        dom = [T.subst(c, env) for c in list(rec.cons) + others]
        c = _cond(dom)
        if c == T.FALSE:
            return 'no'
        v = T.subst(rec.val(pos), env)
        return (c, FX.current().simplify(v))
    if pend and remaining:
        # disjointness: positions swept by a pair/triple counter stay inside [off, off+count)
        if interval_disjoint(rec, idx, remaining, env):
            return 'no'
        # unification: binders are matched with integer expressions over the atoms of the query index
        for e2 in _unify(remaining, env, pend, idx):
            dom = [T.subst(c, e2) for c in list(rec.cons) + others]
            c = _cond(dom)
            if c == T.TRUE:
                return (T.TRUE, FX.current().simplify(T.subst(rec.val(pos), e2)))
        return None
    # binder not determined by the index (every iteration writes the same cell): last one wins -> unknown
    dom = [T.subst(c, env) for c in list(rec.cons) + others]
    if _cond(dom) == T.FALSE:
        return 'no'
    v = T.subst(rec.val(pos), env)
    if not any(T.contains(v, b) for b in remaining) and not any(T.contains(c, b) for c in others for b in remaining):
        free = [c for c in dom if not any(T.contains(c, b) for b in remaining)]
        return (_cond(free), v) if not any(T.contains(c, b) for c in dom for b in remaining) else None
    return None


MISS = []           # quantified records that could not be resolved for a symbolic index


def _unify(remaining, env, pend, idx):
    atoms = set()
    for q in idx:
        atoms |= {a for a in T.atoms_of_poly(q) if T.is_int_atom(a)}
    atoms = sorted(atoms, key=T.key)
    if len(atoms) > 6 or len(remaining) > 3:
        return
    cands = [a for a in atoms]
    for a in atoms:
        for b in atoms:
            if a != b:
                cands.append(T.addn([a, T.neg(b), T.num(-1)]))
                if T.key(a) < T.key(b):
                    cands.append(T.addn([a, b, T.ONE]))
    n = 0
    for combo in itertools.product(cands, repeat=len(remaining)):
        n += 1
        if n > 4000:
            return
        ren = dict(zip(remaining, combo))
        e2 = {k: T.subst(v, ren) for k, v in env.items()}
        e2.update(ren)
        if all(T.subst(c[1], e2) == T.ZERO for c in pend):
            yield e2


def interval_disjoint(rec, idx, remaining, env):
    from . import libmodel as LM
    if len(remaining) not in (2, 3):
        return False
    cons = [T.subst(c, env) for c in rec.cons]
    cons = [c for c in cons if any(T.contains(c, b) for b in remaining)]
    m = LM.pair_domain(remaining, cons)
    if m is None:
        return False
    ix, cnt, want = m
    fx = FX.current()
    for s, q in zip(rec.sel, idx):
        if s[0] != 'int':
            continue
        off = T.sub(T.subst(s[1], env), want)
        if any(T.contains(off, b) for b in remaining):
            continue
        if fx.entails(T.lt(q, off)) is True or fx.entails(T.ge(q, T.add(off, cnt))) is True:
            return True
    return False


# ------------------------------------------------------------------ state
class State:
    def __init__(self):
        self.heap = {}
        self.frames = {}
        self.pc = []
        self.events = []
        self.draws = 0
        self.spent = {}

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.pc = list(self.pc)
        s.events = list(self.events)
        s.draws = self.draws
        s.spent = dict(self.spent)
        return s


class Frame:
    """static description of a lexical frame (variables live in State.frames[id])"""

    def __init__(self, fid, parent, mod, func=None):
        self.id, self.parent, self.mod, self.func = fid, parent, mod, func
        self.globals = set()
        self.nonlocals = set()


_ids = itertools.count(1)


def new_id():
    return next(_ids)


def is_term(v):
    return isinstance(v, tuple) and len(v) > 0 and isinstance(v[0], str)


def lift(x):
    """python constant -> value"""
    if x is None:
        return T.NONE
    if x is True:
        return T.TRUE
    if x is False:
        return T.FALSE
    if isinstance(x, (int, float, Fraction)):
        return T.num(x)
    if isinstance(x, str):
        return ('str', x)
    if isinstance(x, bytes):
        return ('str', x.decode('latin1'))
    return opaque('constant %r' % (x,))


class Seen(dict):
    """the keyword arguments of a library call, remembering which of them the model looked at"""
    QUIET = {'checks', 'verbose', 'disp', 'flush', 'file', 'chunksize', 'optimize', 'copy', 'casting', 'subok', 'maxtasksperchild'}

    def __init__(self, kw):
        super().__init__(kw)
        self.read = set()

    def get(self, k, d=None):
        self.read.add(k)
        return super().get(k, d)

    def __getitem__(self, k):
        self.read.add(k)
        return super().__getitem__(k)

    def __contains__(self, k):
        self.read.add(k)
        return super().__contains__(k)

    def pop(self, k, *d):
        self.read.add(k)
        return super().pop(k, *d)

    def _all(self):
        self.read.update(super().keys())

    def __iter__(self):
        self._all()
        return super().__iter__()

    def keys(self):
        self._all()
        return super().keys()

    def items(self):
        self._all()
        return super().items()

    def values(self):
        self._all()
        return super().values()

    def __bool__(self):
        self._all()
        return len(self) > 0

    def unseen(self, st):
        return {k for k in dict.keys(self) if k not in self.read and k not in self.QUIET and dict.__getitem__(self, k) != T.NONE}


class SeenArgs(list):
    """the positional arguments of a library call, likewise"""

    def __init__(self, xs):
        super().__init__(xs)
        self.read = set()

    def __getitem__(self, k):
        self.read.update(range(len(self))[k] if isinstance(k, slice) else [k % len(self) if self else k])
        return super().__getitem__(k)

    def __iter__(self):
        self.read.update(range(len(self)))
        return super().__iter__()

    def __len__(self):
        return super().__len__()

    def __add__(self, o):
        self.read.update(range(len(self)))
        return super().__add__(o)

    def __radd__(self, o):
        self.read.update(range(len(self)))
        return o + list.__getitem__(self, slice(None))

    def unseen(self):
        return {k for k in range(len(self)) if k not in self.read}


FLOAT_ARRS = set()
REAL_FNS = {'exp', 'log', 'log2', 'sqrt', 'tanh', 'arctanh', 'cosh', 'sinh', 'cos', 'sin', 'logsumexp', 'log1p', 'expm1', 'uniform'}


def stored(x, target, source):
    """what numpy keeps of x when it is written into an array of whole numbers or truth values"""
    from . import libmodel as LM
    if not is_term(x) or x[0] in ('opaque', 'str', 'none'):
        return x
    if target == 'bool':
        v = T.num_val(x)
        return x if v is None else T.TRUE if v else T.FALSE
    x = LM.num01(x)
    if T.num_val(x) is not None:
        return T.num(int(T.num_val(x)))
    if source in ('int', 'bool') or T.is_int_valued(x) or x[0] not in ('P', 'idx', 'fn', 'sym', 'exp', 'log', 'tanh'):
        return x
    ats = T.atoms_of_poly(x)
    if source == 'float' and all(a[0] in ('idx', 'sym', 'fn') and a[1] not in T.INT_ARRS and not T.is_int_atom(a) and a[1] != 'int' for a in ats) \
            or any(a[0] in REAL_FNS or a[0] == 'fn' and a[1] in REAL_FNS or a[0] == 'idx' and a[1] in FLOAT_ARRS - T.INT_ARRS for a in ats):
        return ('fn', 'int', x)
    return x


WHOLE = {}


def whole_defaults(node):
    """parameters whose default is a literal integer and that the function never rebinds"""
    if node not in WHOLE:
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        ds = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(k.arg, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        hit = {n for n, d in ds if isinstance(d, ast.Constant) and type(d.value) is int}
        WHOLE[node] = hit - {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} if hit else hit
    return WHOLE[node]


class Interp:
    def __init__(self, proj, externs=None, lib=None, max_paths=MAX_PATHS, attr_hook=None, unroll=64):
        from . import libmodel
        self.proj = proj
        self.externs = externs or {}      # 'module:qual' -> handler(interp, st, args, kwargs, node) -> [(st,val)]
        self.lib = dict(libmodel.TABLE)
        if lib:
            self.lib.update(lib)
        self.libmodel = libmodel
        self.op = self.nops = 0
        self.max_paths = max_paths
        self.fork_while = 0       # > 0: while loops are executed iteration by iteration on up to this many paths even if their condition is not decided
        self.depth = 0
        self.recursion = 0        # nested calls of one function that are followed
        self.attr_hook = attr_hook
        self.frameinfo = {}
        self.unroll = unroll
        self.native = False
        self.notes = []
        self.stack = []
        self.wholes = set()       # (frame, parameter) left at a default that is a literal integer
        self.defaulted = []
        self.call_fid = None
        self.loop_depth = 0

    # -------------------------------------------------------------- allocation
    def alloc(self, st, content):
        r = Ref(new_id())
        st.heap[r.id] = content
        return r

    def sym_array(self, st, name, shape, dtype='float', values=None):
        """fresh input array with symbolic elements"""
        if dtype == 'int':
            T.INT_ARRS.add(name)
        elif dtype == 'float':
            FLOAT_ARRS.add(name)
        return self.alloc(st, ArrC(tuple(shape), lambda idx, n=name: ('idx', n, tuple(idx)), (), dtype, name))

    def new_arr(self, st, shape, fn, dtype=None):
        return self.alloc(st, ArrC(tuple(shape), fn, (), dtype))

    # -------------------------------------------------------------- arrays
    def arr(self, st, v):
        """snapshot (shape, fn, dtype) of an array-like value or None"""
        if is_term(v):
            if v[0] in ('str', 'none', 'opaque'):
                return None
            return ((), lambda idx, v=v: v, None)
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, ArrC):
                if c.shape is None:
                    return None
                return (c.shape, c.elem, c.dtype)
            if isinstance(c, View):
                b = self.arr(st, c.ref)
                if b is None:
                    return None
                sel = c.sel

                def fn(idx, b=b, sel=sel):
                    return b[1](view_index(sel, idx))
                return (c.shape, fn, b[2])
            if isinstance(c, ListC):
                if c.opaque:
                    return None
                if c.once:
                    return self._seq_arr(st, self.consume(st, v, list(c.items)))
                return self._seq_arr(st, c.items)
            return None
        if isinstance(v, Tup):
            return self._seq_arr(st, v.items)
        if isinstance(v, RangeV):
            if v.step == T.ONE:
                return ((T.sub(v.hi, v.lo),), lambda idx, v=v: T.add(v.lo, idx[0]), 'int')
            return None
        return None

    def _seq_arr(self, st, items):
        subs = [((), lambda idx, x=x: x, 'str') if is_term(x) and x[0] == 'str' else self.arr(st, x) for x in items]
        if any(s is None for s in subs):
            return None
        n = len(subs)
        shp = subs[0][0] if subs else ()
        if any(len(s[0]) != len(shp) for s in subs):
            return None

        def fn(idx, subs=subs):
            k = T.int_val(idx[0])
            if k is not None:
                if -len(subs) <= k < len(subs):
                    return subs[k][1](idx[1:])
                return opaque('index out of range')
            if len(subs) > 64:
                return opaque('symbolic read of large literal')
            r = subs[-1][1](idx[1:]) if subs else opaque('empty')
            for j in range(len(subs) - 2, -1, -1):
                r = T.ite(_cond([T.eq(idx[0], T.num(j))]), subs[j][1](idx[1:]), r)
            return r
        dts = {s[2] for s in subs}
        return ((T.num(n),) + tuple(shp), fn, dts.pop() if len(dts) == 1 else None)

    def elementwise(self, st, f, *vals, dtype=None):
        """apply scalar term function f with broadcasting; returns value (term or Ref)"""
        if all(is_term(v) for v in vals):
            if any(v[0] == 'opaque' for v in vals):
                return opaque('op on ' + next(v for v in vals if v[0] == 'opaque')[2])
            return f(*vals)
        arrs = []
        for v in vals:
            a = self.arr(st, v)
            if a is None:
                return opaque('elementwise op on unmodelled value')
            arrs.append(a)
        shape, maps = broadcast([a[0] for a in arrs])
        if shape is None:
            return opaque('broadcast')

        def fn(idx, arrs=arrs, maps=maps):
            return f(*[a[1](m(idx)) for a, m in zip(arrs, maps)])
        if shape == ():
            return fn(())
        return self.new_arr(st, shape, fn, dtype)

    def elem(self, st, v, idx):
        with FX.using(st.pc):
            a = self.arr(st, v)
            if a is None:
                return opaque('not an array')
            if len(a[0]) != len(idx):
                return opaque('rank mismatch')
            return FX.current().simplify(a[1](tuple(idx)))

    # -------------------------------------------------------------- truth
    def truth(self, st, v):
        if is_term(v):
            if T.is_cond(v):
                return v
            if v[0] == 'none':
                return T.FALSE
            if v[0] == 'str':
                return T.TRUE if v[1] else T.FALSE
            n = T.num_val(v) if v[0] == 'P' else None
            if n is not None:
                return T.TRUE if n != 0 else T.FALSE
            if v[0] == 'opaque':
                return ('b', v)
            if v[0] == 'ite':
                a, b = self.truth(st, v[2]), self.truth(st, v[3])
                return T.lor([T.land([v[1], a]), T.land([T.lnot(v[1]), b])])
            if v[0] == 'sym' and v[1] in BOOL_SYMS:
                return ('b', v)
            return T.ne(v, T.ZERO)
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, ListC) and not c.opaque:
                return T.TRUE if c.items else T.FALSE
            if isinstance(c, DictC) and not c.opaque:
                return T.TRUE if c.items else T.FALSE
            if isinstance(c, ObjC):
                return T.TRUE
            a = self.arr(st, v)
            if a is not None and all(T.int_val(d) == 1 for d in a[0]):
                return self.truth(st, a[1](tuple(T.ZERO for _ in a[0])))
            return ('b', ('fn', 'truth_arr', ('sym', 'ref%d' % v.id)))
        if isinstance(v, Tup):
            return T.TRUE if v.items else T.FALSE
        return T.TRUE

    def assume(self, st, c):
        """add condition to path; False if infeasible"""
        if c == T.TRUE:
            return True
        if c == T.FALSE:
            return False
        fx = FX.Facts(st.pc)
        r = fx.entails(c)
        if r is False:
            return False
        if r is True:
            return True
        if c[0] == 'or':
            # unit resolution against known facts
            rest = [x for x in c[1] if fx.entails(x) is not False]
            c = T.lor(rest)
            if c == T.FALSE:
                return False
        st.pc.append(c)
        return True

    def branch(self, st, c):
        """-> [(state, True/False)] feasible branches"""
        if c == T.TRUE:
            return [(st, True)]
        if c == T.FALSE:
            return [(st, False)]
        s2 = st.copy()
        out = []
        if self.assume(st, c):
            out.append((st, True))
        if self.assume(s2, T.lnot(c)):
            out.append((s2, False))
        return out

    def decide_all(self, st, cs, limit=6):
        """states in which every one of the conditions is decided; None if there are too many undecided ones"""
        with FX.using(st.pc):
            cs = [FX.current().simplify(c) for c in cs]
        n = len({c for c in cs if c not in (T.TRUE, T.FALSE)})
        if not n:
            return [st]
        if not self.fork_while or n > limit or any(x[0] == 'opaque' for c in cs for x in T.subterms(c)):
            return None
        out = [st]
        for c in cs:
            out = [s2 for s1 in out for s2, _ in self.branch(s1, c)]
            if len(out) > self.max_paths:
                raise Undecided('paths')
        return out

    # -------------------------------------------------------------- frames / names
    def new_frame(self, st, parent, mod, func=None):
        fid = new_id()
        self.frameinfo[fid] = Frame(fid, parent, mod, func)
        st.frames[fid] = {}
        return fid

    def lookup(self, st, fid, name):
        f = fid
        while f is not None:
            fr = self.frameinfo[f]
            if name in st.frames[f]:
                return st.frames[f][name]
            f = fr.parent
        mod = self.frameinfo[fid].mod
        return self.global_value(st, mod, name)

    def global_value(self, st, mod, name):
        k = mod.name + ':' + name
        if k in self.externs and not callable(self.externs[k]):
            return self.externs[k]
        r = self.proj.resolve(mod, name)
        if r is None:
            if name in self.libmodel.BUILTINS:
                return Lib('builtins.' + name)
            if hasattr(__import__('builtins'), name):
                return Lib('builtins.' + name)
            return opaque('undefined name ' + name)
        return self.wrap_resolved(st, r)

    def wrap_resolved(self, st, r):
        if r[0] == 'func':
            return Func(r[2], r[1])
        if r[0] == 'class':
            return Cls(r)
        if r[0] == 'lib':
            pkg, _, last = r[1].rpartition('.')
            if pkg in CONSTMODS and last in LIBCONST:
                return LIBCONST[last]
            return Lib(r[1])
        if r[0] == 'mod':
            return ModV(r[1])
        if r[0] == 'const':
            e = r[2]
            if isinstance(e, ast.Constant):
                return lift(e.value)
            if e is None:
                return opaque('module variable')
            fid = self.new_frame(st, None, r[1])
            try:
                outs = self.ev(e, st, fid)
            except Undecided:
                return opaque('module constant')
            if len(outs) == 1:
                return outs[0][1]
        return opaque('module value')

    def assign_name(self, st, fid, name, v):
        fr = self.frameinfo[fid]
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in st.frames[f]:
                    st.frames[f][name] = v
                    return
                f = self.frameinfo[f].parent
        st.frames[fid][name] = v

    # -------------------------------------------------------------- statements
    def exec_block(self, body, st, fid):
        """-> list of (state, signal)"""
        cur = [(st, None)]
        for s in body:
            nxt = []
            for st1, sig in cur:
                if sig is not None:
                    nxt.append((st1, sig))
                    continue
                nxt.extend(self.exec_stmt(s, st1, fid))
            cur = nxt
            if len(cur) > self.max_paths:
                raise Undecided('more than %d paths' % self.max_paths)
        return cur

    def exec_stmt(self, s, st, fid):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Undecided('statement %s' % type(s).__name__)
        return m(s, st, fid)

    def st_Pass(self, s, st, fid):
        return [(st, None)]

    def st_Expr(self, s, st, fid):
        if isinstance(s.value, ast.Constant):
            return [(st, None)]
        return [(st1, v[1] if isinstance(v, tuple) and v and v[0] == '__raise__' else None) for st1, v in self.ev_sig(s.value, st, fid)]

    def ev_sig(self, e, st, fid):
        return self.ev(e, st, fid)

    def st_Import(self, s, st, fid):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            tgt = a.name if a.asname else a.name.split('.')[0]
            m = self.proj.module(tgt)
            self.assign_name(st, fid, nm, ModV(m) if m else Lib(tgt))
        return [(st, None)]

    def st_ImportFrom(self, s, st, fid):
        mod = self.frameinfo[fid].mod
        tgt = mod._abs(s.module, s.level)
        m = self.proj.module(tgt)
        for a in s.names:
            if a.name == '*':
                continue
            nm = a.asname or a.name
            if m:
                r = self.proj.resolve(m, a.name)
                self.assign_name(st, fid, nm, self.wrap_resolved(st, r) if r else opaque('import ' + a.name))
            else:
                self.assign_name(st, fid, nm, Lib(tgt + '.' + a.name))
        return [(st, None)]

    def st_Global(self, s, st, fid):
        return [(st, None)]

    def st_Nonlocal(self, s, st, fid):
        self.frameinfo[fid].nonlocals.update(s.names)
        return [(st, None)]

    def st_FunctionDef(self, s, st, fid):
        outs = self._defaults(s, st, fid)
        res = []
        for st1, d in outs:
            self.assign_name(st1, fid, s.name, Func(s, self.frameinfo[fid].mod, fid, defaults=d))
            res.append((st1, None))
        return res

    def _defaults(self, node, st, fid):
        """evaluate default expressions in definition scope -> [(st, {name: value})]"""
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        pairs = list(zip(names[len(names) - len(a.defaults):], a.defaults))
        pairs += [(k.arg, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        cur = [(st, {})]
        for n, e in pairs:
            nxt = []
            for st1, d in cur:
                for st2, v in self.ev(e, st1, fid):
                    d2 = dict(d)
                    d2[n] = v
                    nxt.append((st2, d2))
            cur = nxt
        return cur

    def st_ClassDef(self, s, st, fid):
        self.assign_name(st, fid, s.name, opaque('local class'))
        return [(st, None)]

    def st_Return(self, s, st, fid):
        if s.value is None:
            return [(st, ('ret', T.NONE))]
        return [(st1, ('ret', v)) for st1, v in self.ev(s.value, st, fid)]

    def st_Raise(self, s, st, fid):
        nm = 'raise'
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            nm = ast.unparse(e)
        st.events.append(('raise', nm, s.lineno))
        return [(st, ('raise', nm))]

    def st_Assert(self, s, st, fid):
        out = []
        try:
            res = self.ev(s.test, st.copy(), fid)
        except Undecided:
            return [(st, None)]
        for st1, v in res:
            c = self.truth(st1, v)
            st1.events.append(('assert', c, s.lineno))
            if c == T.FALSE:
                st1.events.append(('raise', 'AssertionError', s.lineno))
                out.append((st1, ('raise', 'AssertionError')))
                continue
            self.assume(st1, c)
            out.append((st1, None))
        return out

    def st_Delete(self, s, st, fid):
        cur = [st]
        for t in s.targets:
            if isinstance(t, ast.Name):
                for x in cur:
                    x.frames[fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                nxt = []
                for x in cur:
                    for st1, o in self.ev(t.value, x, fid):
                        for st2, ix in self.ev_index(t.slice, st1, fid, o):
                            self.delitem(st2, o, ix)
                            nxt.append(st2)
                cur = nxt
            else:
                raise Undecided('del')
        return [(x, None) for x in cur]

    def delitem(self, st, o, ix):
        c = st.heap[o.id] if isinstance(o, Ref) else None
        if isinstance(c, ListC):
            k = T.int_val(ix[0]) if len(ix) == 1 and is_term(ix[0]) else None
            if k is not None and not c.opaque and -len(c.items) <= k < len(c.items):
                items = list(c.items)
                del items[k]
                st.heap[o.id] = ListC(items)
            else:
                st.heap[o.id] = ListC(c.items, True)
            return
        if isinstance(c, DictC):
            kk = to_key(ix[0]) if len(ix) == 1 and isinstance(ix[0], Tup) else ix[0] if len(ix) == 1 and is_term(ix[0]) else None
            d = dict(c.items)
            known = kk is not None and kk in d
            if known:
                del d[kk]
            st.heap[o.id] = DictC(d, c.opaque or not known)
            return
        raise Undecided('del of an item')

    def st_Break(self, s, st, fid):
        return [(st, 'break')]

    def st_Continue(self, s, st, fid):
        return [(st, 'continue')]

    def st_If(self, s, st, fid):
        out = []
        for st1, c in self.ev_cond(s.test, st, fid):
            for st2, tv in self.branch(st1, c):
                out.extend(self.exec_block(s.body if tv else s.orelse, st2, fid))
        return out

    def ev_cond(self, e, st, fid):
        """evaluate as condition -> [(st, cond)] ; short-circuit operators fork only when an operand has effects"""
        return [(st1, self.truth(st1, v)) for st1, v in self.ev(e, st, fid)]

    def st_With(self, s, st, fid):
        cur = [st]
        for it in s.items:
            nxt = []
            for st1 in cur:
                for st2, v in self.ev(it.context_expr, st1, fid):
                    st2.events.append(('with', v, s.lineno))
                    if it.optional_vars is not None:
                        for st3, _ in self.assign(it.optional_vars, v, st2, fid):
                            nxt.append(st3)
                    else:
                        nxt.append(st2)
            cur = nxt
        out = []
        for st1 in cur:
            out.extend(self.exec_block(s.body, st1, fid))
        return out

    def st_Try(self, s, st, fid):
        pre = st.copy()
        out = []
        for st1, sig in self.exec_block(s.body, st, fid):
            if isinstance(sig, tuple) and sig[0] == 'raise' and s.handlers:
                for h in s.handlers:
                    out.extend(self.exec_block(h.body, st1.copy(), fid))
            elif sig is None:
                out.extend(self.exec_block(s.orelse, st1, fid))
            else:
                out.append((st1, sig))
        settled = self._import_only(s, pre, fid)
        if settled == 'missing':
            out = []
            for h in s.handlers[:1]:
                out.extend(self.exec_block(h.body, pre.copy(), fid))
        for h in s.handlers:
            if settled:
                break
            p = pre.copy()
            p.pc.append(('b', ('sym', 'exception@%d' % s.lineno)))
            p.events.append(('except', ast.unparse(h.type) if h.type else None, s.lineno))
            if h.name:
                self.assign_name(p, fid, h.name, opaque('exception'))
            out.extend(self.exec_block(h.body, p, fid))
        if s.finalbody:
            res = []
            for st1, sig in out:
                for st2, sig2 in self.exec_block(s.finalbody, st1, fid):
                    res.append((st2, sig2 if sig2 is not None else sig))
            out = res
        return out

    def _import_only(self, s, st, fid):
        """the guarded block only looks up modules, and whether they exist is known from the source tree"""
        names = [ast.unparse(h.type).split('.')[-1] if h.type is not None else '' for h in s.handlers]
        if not names or any(n not in ('ModuleNotFoundError', 'ImportError') for n in names):
            return False
        calls = [n for b in s.body for n in ast.walk(b) if isinstance(n, ast.Call)]
        if not calls or any(isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise)) for b in s.body for n in ast.walk(b)):
            return False
        for c in calls:
            fs = self.ev(c.func, st.copy(), fid)
            if len(fs) != 1 or not isinstance(fs[0][1], Lib) or fs[0][1].name != 'importlib.import_module':
                return False
            a = self.ev(c.args[0], st.copy(), fid) if c.args else []
            if len(a) != 1 or not is_term(a[0][1]) or a[0][1][0] != 'str' or not a[0][1][1].startswith('coniii.'):
                return False
            if self.proj.module(a[0][1][1]) is None:
                return 'missing'
        return 'found'

    def st_Assign(self, s, st, fid):
        out = []
        for st1, v in self.ev(s.value, st, fid):
            cur = [st1]
            for t in s.targets:
                nxt = []
                for x in cur:
                    nxt.extend(y for y, _ in self.assign(t, v, x, fid))
                cur = nxt
            out.extend((x, None) for x in cur)
        return out

    def st_AnnAssign(self, s, st, fid):
        if s.value is None:
            return [(st, None)]
        out = []
        for st1, v in self.ev(s.value, st, fid):
            out.extend((x, None) for x, _ in self.assign(s.target, v, st1, fid))
        return out

    def assign(self, t, v, st, fid):
        if isinstance(t, ast.Name):
            self.assign_name(st, fid, t.id, v)
            return [(st, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            old = self.new_op()
            try:
                items = self.unpack(st, v, len(t.elts))
            finally:
                self.op = old
            cur = [st]
            for e, x in zip(t.elts, items):
                if isinstance(e, ast.Starred):
                    e, x = e.value, opaque('starred')
                nxt = []
                for y in cur:
                    nxt.extend(z for z, _ in self.assign(e, x, y, fid))
                cur = nxt
            return [(x, None) for x in cur]
        if isinstance(t, ast.Attribute):
            out = []
            for st1, o in self.ev(t.value, st, fid):
                self.setattr(st1, o, t.attr, v, t)
                out.append((st1, None))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for st1, o in self.ev(t.value, st, fid):
                for st2, ix in self.ev_index(t.slice, st1, fid, o):
                    self.setitem(st2, o, ix, v, 'set', t)
                    out.append((st2, None))
            return out
        raise Undecided('assignment target')

    def setattr(self, st, o, name, v, node=None):
        if isinstance(o, Ref) and isinstance(st.heap[o.id], ObjC):
            c = st.heap[o.id]
            n = ObjC(c.cls, c.attrs, c.name, c.dyn)
            n.attrs[name] = v
            st.heap[o.id] = n
            st.events.append(('setattr', o, name, v, getattr(node, 'lineno', 0)))
            return
        if isinstance(o, Extern):
            st.events.append(('setattr', o, name, v, getattr(node, 'lineno', 0)))
            return
        if isinstance(o, Ref) and isinstance(st.heap[o.id], (ArrC, View)):
            raise Undecided('attribute of an array is set')
        st.events.append(('setattr', o, name, v, getattr(node, 'lineno', 0)))

    def unpack(self, st, v, n):
        if isinstance(v, Tup):
            if len(v.items) == n:
                return list(v.items)
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, ListC) and not c.opaque and len(c.items) == n:
                return list(c.items)
            a = self.arr(st, v)
            if a is not None and len(a[0]) >= 1:
                return [self.getitem_v(st, v, [('int', T.num(i))]) for i in range(n)]
        if isinstance(v, TriIdx) and n == 2:
            return [TriIdx(v.n, 0), TriIdx(v.n, 1)]
        if is_term(v) and v[0] == 'opaque':
            return [opaque(v[2]) for _ in range(n)]
        return [opaque('unpack') for _ in range(n)]

    def st_AugAssign(self, s, st, fid):
        t = s.target
        out = []
        if isinstance(t, ast.Subscript):
            for st1, o in self.ev(t.value, st, fid):
                for st2, ix in self.ev_index(t.slice, st1, fid, o):
                    for st3, rhs in self.ev(s.value, st2, fid):
                        sel = self.norm_sel(st3, o, ix)
                        if isinstance(s.op, (ast.Add, ast.Sub)) and self._is_num_arr(st3, o) and sel is not None:
                            r = rhs if isinstance(s.op, ast.Add) else self.elementwise(st3, T.neg, rhs)
                            self.setitem(st3, o, ix, r, 'add', t)
                        else:
                            old = self.getitem(st3, o, ix, t)
                            nv = self.binop(st3, s.op, old, rhs)
                            self.setitem(st3, o, ix, nv, 'set', t)
                        out.append((st3, None))
            return out
        if isinstance(t, ast.Name):
            old_l = [(st, self.lookup(st, fid, t.id))]
        else:
            old_l = self.ev(ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load(), lineno=t.lineno, col_offset=0), st, fid)
        for st1, old in old_l:
            for st2, rhs in self.ev(s.value, st1, fid):
                if isinstance(old, Ref) and isinstance(st2.heap[old.id], (ArrC, View)):
                    # in-place array update: visible through every alias
                    nv = self.binop(st2, s.op, old, rhs)
                    self.store_whole(st2, old, nv, t)
                    out.append((st2, None))
                    continue
                if isinstance(old, Ref) and isinstance(st2.heap[old.id], ListC) and isinstance(s.op, ast.Add):
                    c = st2.heap[old.id]
                    add = self.items_of(st2, rhs)
                    st2.heap[old.id] = ListC(c.items + add) if add is not None and not c.opaque else ListC(c.items, True)
                    out.append((st2, None))
                    continue
                nv = self.binop(st2, s.op, old, rhs)
                if isinstance(t, ast.Name):
                    self.assign_name(st2, fid, t.id, nv)
                    out.append((st2, None))
                else:
                    out.extend(self.assign(t, nv, st2, fid))
        return out

    def _is_num_arr(self, st, o):
        return isinstance(o, Ref) and isinstance(st.heap[o.id], (ArrC, View))

    def store_whole(self, st, ref, nv, node=None):
        """write every element of the array object ref (used by in-place operators and x[:] = )"""
        shp = st.heap[ref.id].shape
        if shp is None:
            return
        sel = [('sl', T.ZERO, n, T.ONE, 'full') for n in shp]
        self.store(st, ref, sel, nv, 'set', node)

    # -------------------------------------------------------------- indexing
    def ev_index(self, sl, st, fid, o=None):
        """-> [(st, [component values])]; components: value | SliceV | None(newaxis)"""
        elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        cur = [(st, [])]
        for e in elts:
            nxt = []
            for st1, acc in cur:
                if isinstance(e, ast.Slice):
                    parts = [e.lower, e.upper, e.step]
                    sub = [(st1, [])]
                    for p in parts:
                        n2 = []
                        for st2, a in sub:
                            if p is None:
                                n2.append((st2, a + [None]))
                            else:
                                n2.extend((st3, a + [v]) for st3, v in self.ev(p, st2, fid))
                        sub = n2
                    nxt.extend((st2, acc + [SliceV(*a)]) for st2, a in sub)
                else:
                    nxt.extend((st2, acc + [v]) for st2, v in self.ev(e, st1, fid))
            cur = nxt
        # a tuple-valued single index is a multi-index
        out = []
        for st1, acc in cur:
            if len(acc) == 1 and isinstance(acc[0], Tup) and not isinstance(sl, ast.Tuple) and \
               not (isinstance(o, Ref) and isinstance(st1.heap.get(o.id), DictC)):
                acc = list(acc[0].items)
            out.append((st1, acc))
        return out

    def unmask(self, st, ix):
        """one-dimensional decided truth masks among several index components become the positions they select"""
        if len(ix) < 2:
            return ix
        out = list(ix)
        for k, x in enumerate(ix):
            if not isinstance(x, Ref) or not isinstance(st.heap[x.id], (ArrC, View)):
                continue
            a = self.arr(st, x)
            n = T.int_val(a[0][0]) if a is not None and len(a[0]) == 1 else None
            if n is None or a[2] != 'bool' or n > 4 * self.unroll:
                continue
            with FX.using(st.pc):
                bits = [a[1]((T.num(i),)) for i in range(n)]
            if any(b not in (T.TRUE, T.FALSE) for b in bits):
                continue
            pos = [T.num(i) for i, b in enumerate(bits) if b == T.TRUE]
            out[k] = self.new_arr(st, (T.num(len(pos)),), lambda q, pos=pos: pos[T.int_val(q[0])] if T.int_val(q[0]) is not None and 0 <= T.int_val(q[0]) < len(pos) else opaque('index'), 'int')
        return tuple(out) if isinstance(ix, tuple) else out

    def norm_sel(self, st, o, ix):
        """numpy basic indexing -> selector list for the array o, or None when it is not basic"""
        if not isinstance(o, Ref):
            return None
        c = st.heap[o.id]
        if not isinstance(c, (ArrC, View)) or c.shape is None:
            return None
        shape = c.shape
        sel = []
        k = 0
        nreal = sum(1 for x in ix if not (is_term(x) and x == T.NONE))
        for x in ix:
            if is_term(x) and x[0] == 'str' and x[1] == '...':
                for _ in range(len(shape) - (nreal - 1)):
                    sel.append(('sl', T.ZERO, shape[k], T.ONE, 'full'))
                    k += 1
                continue
            if is_term(x) and x == T.NONE:
                sel.append(('new',))
                continue
            if k >= len(shape):
                return None
            if isinstance(x, SliceV):
                s = norm_slice(x, shape[k])
                if s is None:
                    return None
                sel.append(s)
                k += 1
            elif is_term(x) and x[0] not in ('str', 'T', 'F') and not T.is_cond(x):
                if x[0] == 'opaque':
                    return None
                v = T.num_val(x)
                d = T.int_val(shape[k])
                if v is not None and (self.native and v < 0 or d is not None and not -d <= v < d):
                    st.events.append(('oob', 'index %s of an axis of length %s' % (v, d)))
                    x = opaque('index out of range')
                elif v is not None and v < 0:
                    x = T.add(shape[k], x)
                sel.append(('int', x))
                k += 1
            else:
                return None
        while k < len(shape):
            sel.append(('sl', T.ZERO, shape[k], T.ONE, 'full'))
            k += 1
        return sel

    def getitem(self, st, o, ix, node=None):
        if isinstance(o, Tup) or (isinstance(o, Ref) and isinstance(st.heap[o.id], ListC)):
            items = o.items if isinstance(o, Tup) else st.heap[o.id].items
            if isinstance(o, Ref) and st.heap[o.id].opaque:
                return opaque('list element')
            if len(ix) == 1:
                x = ix[0]
                if isinstance(x, SliceV):
                    lo, hi, stp = [None if p is None else T.int_val(p) if is_term(p) else 'x' for p in (x.lo, x.hi, x.step)]
                    if all(p is None or isinstance(p, int) for p in (lo, hi, stp)) and \
                       all((p is None) == (q is None) for p, q in zip((lo, hi, stp), (x.lo, x.hi, x.step))):
                        r = list(items)[slice(lo, hi, stp)]
                        return Tup(r) if isinstance(o, Tup) else self.alloc(st, ListC(r))
                    return opaque('list slice')
                k = T.int_val(x) if is_term(x) else None
                if k is not None:
                    if (0 if self.native else -len(items)) <= k < len(items):
                        return items[k]
                    st.events.append(('oob', 'index %d of a sequence of length %d' % (k, len(items))))
                    return opaque('index out of range')
                if is_term(x) and all(is_term(i) for i in items) and 0 < len(items) <= 16:
                    a = self._seq_arr(st, items)
                    with FX.using(st.pc):
                        return a[1]((x,))
            return opaque('sequence index')
        if isinstance(o, Ref) and isinstance(st.heap[o.id], DictC):
            c = st.heap[o.id]
            if len(ix) == 1 and isinstance(ix[0], Tup):
                ix = (to_key(ix[0]),)
            if len(ix) == 1 and is_term(ix[0]) and ix[0] in c.items:
                return c.items[ix[0]]
            if len(ix) > 1 and all(is_term(x) for x in ix) and ('tupkey',) + tuple(ix) in c.items:
                return c.items[('tupkey',) + tuple(ix)]
            return opaque('dict item')
        if is_term(o) and o[0] == 'str' and len(ix) == 1 and isinstance(ix[0], SliceV):
            b = [None if x is None or x == T.NONE else T.int_val(x) if is_term(x) else 'x' for x in (ix[0].lo, ix[0].hi, ix[0].step)]
            if all((x is None or x == T.NONE) == (y is None) for x, y in zip((ix[0].lo, ix[0].hi, ix[0].step), b)) and 'x' not in b and b[2] != 0:
                return ('str', o[1][b[0]:b[1]:b[2]])
            return opaque('part of a text')
        if is_term(o) and o[0] == 'str' and len(ix) == 1 and is_term(ix[0]):
            k = T.int_val(ix[0])
            if k is not None and -len(o[1]) <= k < len(o[1]):
                return ('str', o[1][k])
            return ('fn', 'strget', o, ix[0])
        if isinstance(o, TriIdx):
            k = T.int_val(ix[0]) if len(ix) == 1 and is_term(ix[0]) else None
            if k in (0, 1) and o.comp is None:
                return TriIdx(o.n, k)
            return opaque('triu index')
        if isinstance(o, Ref):
            return self.getitem_v(st, o, ix)
        if isinstance(o, RangeV) and len(ix) == 1 and is_term(ix[0]):
            return T.add(o.lo, T.mul(ix[0], o.step))
        return opaque('subscript of unmodelled value')

    def getitem_v(self, st, o, ix):
        if ix and isinstance(ix[0], tuple) and ix[0][0] == 'int' and len(ix[0]) == 2:
            ix = [x[1] for x in ix]
        ix = self.unmask(st, ix)
        sel = self.norm_sel(st, o, ix)
        if sel is None:
            return self.fancy_get(st, o, ix)
        if all(s[0] == 'int' for s in sel):
            with FX.using(st.pc):
                a = self.arr(st, o)
                if a is None:
                    return opaque('array')
                return a[1](tuple(s[1] for s in sel))
        shape = tuple(T.ONE if s[0] == 'new' else s[2] for s in sel if s[0] != 'int')
        return self.alloc(st, View(o, tuple(sel), shape))

    def mask_get(self, st, a, m, nix):
        if nix != 1:
            return None
        dims = [T.int_val(d) for d in m[0]]
        if None in dims or len(dims) > len(a[0]) or [T.int_val(d) for d in a[0][:len(dims)]] != dims:
            return None
        pos = list(itertools.product(*[range(d) for d in dims]))
        if len(pos) > 512:
            return None
        with FX.using(st.pc):
            cs = [FX.current().simplify(self.truth(st, m[1](tuple(T.num(i) for i in q)))) for q in pos]
        rest = a[0][len(dims):]
        if all(c in (T.TRUE, T.FALSE) for c in cs):
            keep = [tuple(T.num(i) for i in q) for q, c in zip(pos, cs) if c == T.TRUE]

            def fn(idx):
                k = T.int_val(idx[0])
                if k is None:
                    r = opaque('empty') if not keep else a[1](keep[-1] + tuple(idx[1:]))
                    for j in range(len(keep) - 2, -1, -1):
                        r = T.ite(T.eq(idx[0], T.num(j)), a[1](keep[j] + tuple(idx[1:])), r)
                    return r
                return a[1](keep[k] + tuple(idx[1:])) if -len(keep) <= k < len(keep) else opaque('index out of range')
            return self.new_arr(st, (T.num(len(keep)),) + tuple(rest), fn, a[2])
        if rest:
            return None
        return Masked(cs, [a[1](tuple(T.num(i) for i in q)) for q in pos])

    def fancy_get(self, st, o, ix):
        a = self.arr(st, o)
        if a is None:
            return opaque('index of unmodelled array')
        shape = a[0]
        while len(ix) > 1 and isinstance(ix[-1], SliceV) and ix[-1].lo is ix[-1].hi is ix[-1].step is None and len(ix) <= len(shape) \
                and not isinstance(ix[0], SliceV) and isinstance(ix[0], Ref):
            ix = tuple(ix[:-1])           # trailing full slices select everything
        if len(ix) == 1 and isinstance(ix[0], Tup):
            ix = tuple(ix[0].items)
            if all(is_term(x) or isinstance(x, SliceV) for x in ix):
                return self.getitem(st, o, ix)
        # (X)[np.triu_indices(n,k=1)] or X[iu, ju]
        tri = None
        if len(ix) == 1 and isinstance(ix[0], TriIdx) and ix[0].comp is None:
            tri = ix[0]
        if len(ix) == 2 and all(isinstance(x, TriIdx) for x in ix) and ix[0].comp == 0 and ix[1].comp == 1:
            tri = ix[0]
        if tri is not None and len(shape) == 2:
            n = tri.n
            i, j = T.fresh_bv(), T.fresh_bv()
            cons = pair_cons(i, j, n)
            rec = W((i, j), cons, [('int', tri_index(n, i, j))], None, 'set')
            rec.val = lambda pos, a=a, i=i, j=j: a[1]((i, j))
            cnt = T.scale(T.mul(n, T.sub(n, T.ONE)), Fraction(1, 2))
            return self.alloc(st, ArrC((cnt,), lambda idx: opaque('outside pair range'), (('w', rec),), a[2]))
        if len(ix) == 1 and isinstance(ix[0], TriIdx) and ix[0].comp is not None and len(shape) == 1:
            n, comp = ix[0].n, ix[0].comp
            i, j = T.fresh_bv(), T.fresh_bv()
            rec = W((i, j), pair_cons(i, j, n), [('int', tri_index(n, i, j))], None, 'set')
            rec.val = lambda pos, a=a, v=(i, j)[comp]: a[1]((v,))
            cnt = T.scale(T.mul(n, T.sub(n, T.ONE)), Fraction(1, 2))
            return self.alloc(st, ArrC((cnt,), lambda idx: opaque('outside pair range'), (('w', rec),), a[2]))
        # X[:, iu] style and 1-d integer-array indices
        arrs = []
        nfancy = 0
        for x in ix:
            if isinstance(x, SliceV):
                arrs.append(x)
            elif isinstance(x, TriIdx) and x.comp is not None:
                arrs.append(x)
                nfancy += 1
            elif is_term(x):
                if x == T.NONE or T.is_cond(x) or x[0] == 'opaque':
                    return opaque('fancy index')
                arrs.append(x)
            else:
                ia = self.arr(st, x)
                if ia is not None and ia[2] == 'bool':
                    r = self.mask_get(st, a, ia, len(ix))
                    return r if r is not None else opaque('mask')
                if ia is not None and len(ia[0]) == 2 and len(ix) == 2 == len(shape):
                    # an open grid: rows of one list, columns of the other
                    ib = self.arr(st, ix[1]) if not is_term(ix[1]) and not isinstance(ix[1], (SliceV, TriIdx)) else None
                    if x is ix[0] and ib is not None and len(ib[0]) == 2 and ia[0][1] == ib[0][0] == T.ONE and ib[2] != 'bool':
                        return self.new_arr(st, (ia[0][0], ib[0][1]), lambda q, a=a, ia=ia, ib=ib: a[1]((ia[1]((q[0], T.ZERO)), ib[1]((T.ZERO, q[1])))), a[2])
                if ia is None or len(ia[0]) != 1:
                    return opaque('fancy index')
                arrs.append(ia)
                nfancy += 1
        fan = [k for k, x in enumerate(arrs) if isinstance(x, tuple) and not is_term(x)]
        if nfancy == len(fan) > 1 and len(arrs) <= len(shape):
            # several index lists of one length walk together; the result axis takes their place
            pos = [k for k, x in enumerate(arrs) if not isinstance(x, SliceV)]
            lens = [arrs[k][0][0] for k in fan]
            if pos != list(range(pos[0], pos[0] + len(pos))) or any(x != lens[0] for x in lens):
                return opaque('fancy index')
            out_shape, first = [], True
            maps = []
            for k in range(len(shape)):
                x = arrs[k] if k < len(arrs) else SliceV(None, None, None)
                if isinstance(x, SliceV):
                    s = norm_slice(x, shape[k])
                    if s is None:
                        return opaque('fancy slice')
                    out_shape.append(s[2])
                    maps.append(('sl', s))
                elif is_term(x):
                    maps.append(('int', x))
                else:
                    if first:
                        out_shape.append(x[0][0])
                    maps.append(('arr', x, first))
                    first = False

            def fn2(idx, a=a, maps=maps):
                p = list(idx)
                out, walk = [], None
                for m in maps:
                    if m[0] == 'int':
                        out.append(m[1])
                    elif m[0] == 'arr':
                        if m[2]:
                            walk = p.pop(0)
                        out.append(m[1][1]((walk,)))
                    else:
                        out.append(slice_pos(m[1], p.pop(0)))
                return a[1](tuple(out))
            return self.new_arr(st, out_shape, fn2, a[2])
        if nfancy == 1 and len(arrs) <= len(shape):
            # one fancy axis
            out_shape, maps = [], []
            for k, x in enumerate(arrs):
                if isinstance(x, SliceV):
                    s = norm_slice(x, shape[k])
                    if s is None:
                        return opaque('fancy slice')
                    out_shape.append(s[2])
                    maps.append(('sl', s))
                elif isinstance(x, TriIdx):
                    cnt = T.scale(T.mul(x.n, T.sub(x.n, T.ONE)), Fraction(1, 2))
                    out_shape.append(cnt)
                    maps.append(('tri', x))
                elif is_term(x):
                    maps.append(('int', x))
                else:
                    out_shape.append(x[0][0])
                    maps.append(('arr', x))
            for k in range(len(arrs), len(shape)):
                out_shape.append(shape[k])
                maps.append(('sl', ('sl', T.ZERO, shape[k], T.ONE, 'full')))
            if any(m[0] == 'tri' for m in maps):
                # quantified record per pair
                t = [m[1] for m in maps if m[0] == 'tri'][0]
                i, j = T.fresh_bv(), T.fresh_bv()
                sel = []
                for m in maps:
                    if m[0] == 'tri':
                        sel.append(('int', tri_index(t.n, i, j)))
                    elif m[0] == 'sl':
                        sel.append(('sl', T.ZERO, m[1][2], T.ONE, 'full'))
                rec = W((i, j), pair_cons(i, j, t.n), sel, None, 'set')

                def val(pos, a=a, maps=maps, v=(i, j)[t.comp]):
                    p = list(pos)
                    out = []
                    for m in maps:
                        if m[0] == 'tri':
                            out.append(v)
                        elif m[0] == 'int':
                            out.append(m[1])
                        else:
                            out.append(slice_pos(m[1], p.pop(0)))
                    return a[1](tuple(out))
                rec.val = val
                return self.alloc(st, ArrC(tuple(out_shape), lambda idx: opaque('outside pair range'), (('w', rec),), a[2]))

            def fn(idx, a=a, maps=maps):
                p = list(idx)
                out = []
                for m in maps:
                    if m[0] == 'int':
                        out.append(m[1])
                    elif m[0] == 'arr':
                        out.append(m[1][1]((p.pop(0),)))
                    else:
                        out.append(slice_pos(m[1], p.pop(0)))
                return a[1](tuple(out))
            return self.new_arr(st, out_shape, fn, a[2])
        return opaque('fancy index')

    def setitem(self, st, o, ix, v, mode, node=None):
        if isinstance(o, Ref):
            c = st.heap[o.id]
            if isinstance(c, ListC):
                k = T.int_val(ix[0]) if len(ix) == 1 and is_term(ix[0]) else None
                st.events.append(('setitem', o, ix, v, getattr(node, 'lineno', 0)))
                if k is not None and not c.opaque and -len(c.items) <= k < len(c.items):
                    items = list(c.items)
                    if mode == 'add':
                        v = self.binop(st, ast.Add(), items[k], v)
                    items[k] = v
                    st.heap[o.id] = ListC(items)
                else:
                    st.heap[o.id] = ListC(c.items, True)
                return
            if isinstance(c, DictC):
                if len(ix) == 1 and isinstance(ix[0], Tup):
                    ix = (to_key(ix[0]),)
                kk = ix[0] if len(ix) == 1 and is_term(ix[0]) else ('tupkey',) + tuple(ix) if all(is_term(x) for x in ix) else None
                if kk is not None:
                    d = dict(c.items)
                    d[kk] = v
                    st.heap[o.id] = DictC(d, c.opaque)
                else:
                    st.heap[o.id] = DictC(c.items, True)
                return
            if isinstance(c, (ArrC, View)):
                ix = self.unmask(st, ix)
                sel = self.norm_sel(st, o, ix)
                if sel is None:
                    self.fancy_set(st, o, ix, v, mode, node)
                    return
                self.store(st, o, sel, v, mode, node)
                return
            if isinstance(c, ObjC):
                st.events.append(('setitem', o, ix, v, getattr(node, 'lineno', 0)))
                return
        if isinstance(o, Lib) or (is_term(o) and o[0] == 'opaque'):
            raise Undecided('write into an object that is not modelled')
        st.events.append(('setitem', o, ix, v, getattr(node, 'lineno', 0)))

    def fancy_set_fixed(self, st, o, ix, v, mode, node):
        """A[.., [i0,i1,..], ..] = v with index lists of known length: one store per position"""
        c = st.heap[o.id]
        if c.shape is None:
            return False
        comps = list(ix[0].items) if len(ix) == 1 and isinstance(ix[0], Tup) else list(ix)
        if len(comps) > len(c.shape):
            return False
        lists, m, adv = {}, None, []
        if len(comps) == 2 and all(isinstance(x, (Ref, Tup)) for x in comps):
            x, y = (self.arr(st, q) for q in comps)
            if x and y and len(x[0]) == len(y[0]) == 2 and x[0][1] == T.ONE and y[0][0] == T.ONE and x[2] != 'bool' and y[2] != 'bool':
                # open mesh (np.ix_)
                n1, n2, va = T.int_val(x[0][0]), T.int_val(y[0][1]), self.arr(st, v)
                if n1 is None or n2 is None or va is None or n1 * n2 > 4 * self.unroll:
                    return False
                vd = [T.int_val(d) for d in va[0]]
                if None in vd or len(vd) > 2 or any(d not in (1, n) for d, n in zip(vd[::-1], (n2, n1))):
                    return False
                pos = [(x[1]((T.num(i), T.ZERO)), y[1]((T.ZERO, T.num(j))), (i, j)) for i in range(n1) for j in range(n2)]
                if any(T.int_val(p) is None or T.int_val(q) is None for p, q, _ in pos) or (mode != 'set' and len({p[:2] for p in pos}) != len(pos)):
                    return False
                for p, q, ij in pos:
                    w = va[1](tuple(T.num(0 if d == 1 else k) for d, k in zip(vd, ij[2 - len(vd):])))
                    sel = self.norm_sel(st, o, (p, q))
                    if sel is None:
                        return False
                    self.store(st, o, sel, w, mode, node)
                return True
        for k, x in enumerate(comps):
            if isinstance(x, SliceV):
                continue
            if is_term(x) and x[0] not in ('str', 'T', 'F', 'none', 'opaque') and not T.is_cond(x):
                adv.append(k)
                continue
            a = self.arr(st, x) if isinstance(x, (Ref, Tup)) else None
            n = T.int_val(a[0][0]) if a is not None and len(a[0]) == 1 else None
            if n is None or a[2] == 'bool' or n > 4 * self.unroll or (m is not None and m != n):
                return False
            lists[k] = [a[1]((T.num(i),)) for i in range(n)]
            if any(t[0] in ('opaque', 'T', 'F') for t in lists[k]):
                return False
            m = n
            adv.append(k)
        if not lists or adv != list(range(adv[0], adv[0] + len(adv))):
            return False
        rows = list(zip(*lists.values()))
        if mode != 'set' and (len(set(rows)) != len(rows) or not all(T.num_val(t) is not None for r in rows for t in r)):
            return False
        va = self.arr(st, v)
        if va is None:
            return False
        nout = len(c.shape) - len(adv) + 1
        ax = adv[0] - (nout - len(va[0]))              # axis of the value that runs over the list
        for r in range(m):
            sub = [x if k not in lists else lists[k][r] for k, x in enumerate(comps)]
            if va[0] == ():
                w = va[1](())
            elif ax < 0:
                w = v
            else:
                d = T.int_val(va[0][ax])
                if d is None:
                    return False
                j = T.num(r if d != 1 else 0)
                if d not in (1, m):
                    st.events.append(('oob', 'cannot store %d values at %d positions' % (d, m)))
                    return False
                if len(va[0]) == 1:
                    w = va[1]((j,))
                else:
                    w = self.new_arr(st, va[0][:ax] + va[0][ax + 1:], lambda q, j=j: va[1](tuple(q[:ax]) + (j,) + tuple(q[ax:])), va[2])
            sel = self.norm_sel(st, o, tuple(sub))
            if sel is None:
                return False
            self.store(st, o, sel, w, mode, node)
        return True

    def mask_set_fixed(self, st, o, m, v, mode, node):
        """A[mask] = values, where every element of the mask is decided"""
        c = st.heap[o.id]
        ds = [T.int_val(d) for d in m[0]]
        va = None if is_term(v) else self.arr(st, v)
        if None in ds or c.shape is None or [T.int_val(d) for d in c.shape] != ds or va is not None and len(va[0]) > 1 or (va is None and not is_term(v)):
            return False
        pos = list(itertools.product(*[range(d) for d in ds]))
        if len(pos) > 1024:
            return False
        with FX.using(st.pc):
            bits = [m[1](tuple(T.num(k) for k in p)) for p in pos]
        if any(b not in (T.TRUE, T.FALSE) for b in bits):
            return False
        hit = [p for p, b in zip(pos, bits) if b == T.TRUE]
        if va is not None and va[0]:
            k = T.int_val(va[0][0])
            if k is None or k not in (1, len(hit)):
                if k is not None:
                    st.events.append(('oob', 'cannot store %d values at %d positions' % (k, len(hit))))
                return False
            vals = [va[1]((T.num(0 if k == 1 else q),)) for q in range(len(hit))]
        else:
            vals = [v if va is None else va[1](())] * len(hit)
        for p, w in zip(hit, vals):
            sel = self.norm_sel(st, o, tuple(T.num(k) for k in p))
            if sel is None:
                return False
            self.store(st, o, sel, w, mode, node)
        return True

    def fancy_set(self, st, o, ix, v, mode, node):
        base, bsel = self.base_of(st, o)
        st.events.append(('store', base, None, v, mode, getattr(node, 'lineno', 0), o))
        c = st.heap[o.id]
        if len(ix) == 1 and isinstance(c, ArrC) and mode == 'set' and isinstance(ix[0], (Ref,)):
            m = self.arr(st, ix[0])
            if m is not None and m[2] == 'bool' and c.shape is not None and len(m[0]) == len(c.shape):
                val = v if is_term(v) else None
                if val is not None and c.dtype in ('int', 'bool'):
                    val = stored(val, c.dtype, None)
                if val is not None and val[0] != 'opaque':
                    st.heap[o.id] = c.with_write(('mask', m[1], lambda idx, val=val: val))
                    return
            if m is not None and m[2] == 'bool' and self.mask_set_fixed(st, o, m, v, mode, node):
                return
            if m is not None and len(m[0]) == 1 and T.int_val(m[0][0]) is not None and self.fancy_set_fixed(st, o, ix, v, mode, node):
                return
            if m is not None and len(m[0]) == 1 and c.shape is not None and len(c.shape) == 1:
                # A[index_array] = value(s)
                b = T.fresh_bv()
                va = self.arr(st, v)
                if va is not None and len(va[0]) <= 1:
                    rec = W((b,), range_cons(b, m[0][0]), [('int', m[1]((b,)))], None, 'set')
                    if va[0] == ():
                        rec.val = lambda pos, va=va: va[1](())
                    else:
                        rec.val = lambda pos, va=va, b=b: va[1]((b,))
                    st.heap[o.id] = c.with_write(('w', rec))
                    return
        if self.fancy_set_fixed(st, o, ix, v, mode, node):
            return
        if len(ix) == 1 and isinstance(ix[0], Tup) or len(ix) == 2:
            comps = ix[0].items if len(ix) == 1 else ix
            if len(comps) == 2 and all(isinstance(x, TriIdx) for x in comps):
                ix = [TriIdx(comps[0].n)] if (comps[0].comp, comps[1].comp) == (0, 1) else ix
        if len(ix) == 1 and isinstance(ix[0], TriIdx) and isinstance(c, ArrC) and c.shape is not None and len(c.shape) == 2:
            va = self.arr(st, v)
            if va is not None and len(va[0]) <= 1:
                i, j = T.fresh_bv(), T.fresh_bv()
                n = ix[0].n
                rec = W((i, j), pair_cons(i, j, n), [('int', i), ('int', j)], None, mode)
                if va[0] == ():
                    rec.val = lambda pos, va=va: va[1](())
                else:
                    rec.val = lambda pos, va=va, i=i, j=j, n=n: va[1]((tri_index(n, i, j),))
                st.heap[o.id] = c.with_write(('w', rec))
                return
        if len(ix) == 1 and isinstance(ix[0], Ref) is False and ix[0] == ('diag',):
            pass
        # unknown selection
        st.heap[base.id] = ArrC(st.heap[base.id].shape, lambda idx: opaque('array after unmodelled indexed write'), (),
                                st.heap[base.id].dtype, st.heap[base.id].name) if isinstance(st.heap[base.id], ArrC) else st.heap[base.id]

    def base_of(self, st, ref):
        sels = []
        while isinstance(st.heap[ref.id], View):
            c = st.heap[ref.id]
            sels.append(c.sel)
            ref = c.ref
        return ref, sels

    def store(self, st, ref, sel, v, mode, node=None):
        """write through views down to the owning array"""
        c = st.heap[ref.id]
        va = None
        orig = ref
        if is_term(v):
            valfn = (lambda pos, v=v: v)
            vshape = ()
        else:
            va = self.arr(st, v)
            vshape = va[0] if va is not None else None
            valfn = None
        nslice = [s for s in sel if s[0] in ('sl', 'new')]
        if valfn is None:
            if va is None:
                valfn = lambda pos: opaque('stored value not modelled')
            else:
                tgt = tuple(T.ONE if s[0] == 'new' else s[2] for s in nslice)

                def valfn(pos, va=va, tgt=tgt):
                    r = len(va[0])
                    p = list(pos)[-r:] if r else []
                    if len(pos) < r:
                        # extra leading axes of the value must have extent one
                        p = [T.ZERO] * (r - len(pos)) + list(pos)
                    idx = []
                    for d, x in zip(va[0], p):
                        idx.append(T.ZERO if d == T.ONE else x)
                    return va[1](tuple(idx))
        while isinstance(st.heap[ref.id], View):
            vw = st.heap[ref.id]
            if vw.sel and vw.sel[0][0] == 'map' and not all(s[0] == 'int' for s in sel) and mode != '+=' \
                    and all(s[0] == 'int' or s[0] == 'sl' and T.int_val(s[2]) is not None for s in sel):
                # element by element through an index map (transposed, reshaped and diagonal views)
                dims = [range(T.int_val(s[2])) for s in sel if s[0] == 'sl']
                tot = 1
                for d in dims:
                    tot *= len(d)
                if tot <= 512:
                    vals = {q: valfn(tuple(T.num(k) for k in q)) for q in itertools.product(*dims)}
                    for q, x in vals.items():
                        k = list(q)
                        s1 = [('int', s[1]) if s[0] == 'int' else ('int', slice_pos(s, T.num(k.pop(0)))) for s in sel]
                        self.store(st, ref, s1, x, mode, node)
                    return
            sel = compose_sel(vw.sel, sel)
            if sel is None:
                base, _ = self.base_of(st, ref)
                b = st.heap[base.id]
                st.heap[base.id] = b.with_write(('havoc', 'write through unmodelled view'))
                st.events.append(('store', base, None, v, mode, getattr(node, 'lineno', 0), orig))
                return
            ref = vw.ref
        c = st.heap[ref.id]
        if not isinstance(c, ArrC):
            return
        sel2 = [s for s in sel if s[0] != 'new']
        st.events.append(('store', ref, sel2, v, mode, getattr(node, 'lineno', 0), orig))
        cast = c.dtype in ('int', 'bool') and c.kind != 'list'
        if cast and mode == 'set':
            valfn = lambda pos, g=valfn, d=c.dtype, sd=va[2] if va is not None else None: stored(g(pos), d, sd)
        if all(s[0] == 'int' for s in sel2):
            ks = [T.int_val(s[1]) for s in sel2]
            if all(k is not None for k in ks):
                val = valfn(())
                if mode == 'add':
                    val = T.add(c.elem([T.num(k) for k in ks]), val)
                    if cast:
                        val = stored(val, c.dtype, None)
                st.heap[ref.id] = c.with_write(('dict', {tuple(ks): val}))
                return
        if mode == 'set' and all(s[0] == 'sl' and s[4:] == ('full',) for s in sel2):
            snapshot = valfn
            st.heap[ref.id] = ArrC(c.shape, lambda idx, f=snapshot: f(list(idx)), (), c.dtype, c.name, c.kind)
            return
        if mode == 'set' and all(s[0] == 'int' for s in sel2):
            val = valfn(())
            valfn = lambda pos, val=val: val
        st.heap[ref.id] = c.with_write(('w', W((), (), sel2, valfn, mode)))

    # -------------------------------------------------------------- sequences
    def items_of(self, st, v):
        """concrete list of element values or None"""
        once = self.one_shot(st, v)
        r = self.items_of_raw(st, v)
        return r if r is None or not once else self.consume(st, v, r)

    def one_shot(self, st, v):
        """v is an iterator: a second pass over it finds nothing"""
        return isinstance(v, (EnumV, ZipV, CombV)) or isinstance(v, Ref) and isinstance(st.heap[v.id], ListC) and st.heap[v.id].once

    def consume(self, st, v, r):
        k = ('ref', v.id) if isinstance(v, Ref) else id(v)
        done = st.spent.get(k, (v, None, 0))
        if done[1] == 'part':
            raise Undecided('iterator left part way')
        if done[1] is None or done[1] == 'from':
            st.spent[k] = (v, self.op, done[2])
            return r[done[2]:]
        return r[done[2]:] if done[1] == self.op else []

    def new_op(self):
        """begins an operation that may pass over an iterator; returns what the caller restores afterwards"""
        old = self.op
        self.nops += 1
        self.op = self.nops
        return old

    def items_of_raw(self, st, v):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, ListC) and not c.opaque:
                return list(c.items)
            if isinstance(c, DictC) and not c.opaque:
                return [from_key(k) for k in c.items]
            if isinstance(c, (ArrC, View)) and c.shape:
                n = T.int_val(c.shape[0])
                if n is not None and n <= self.unroll:
                    return [self.getitem_v(st, v, [('int', T.num(i))]) for i in range(n)]
        if isinstance(v, RangeV):
            lo, hi, stp = T.int_val(v.lo), T.int_val(v.hi), T.int_val(v.step)
            if None not in (lo, hi, stp) and stp != 0 and len(range(lo, hi, stp)) <= self.unroll:
                return [T.num(i) for i in range(lo, hi, stp)]
        if isinstance(v, EnumV):
            it = self.items_of(st, v.it)
            if it is not None:
                return [Tup((T.add(v.start, T.num(i)), x)) for i, x in enumerate(it)]
        if isinstance(v, ZipV):
            its = [self.items_of(st, x) for x in v.its]
            if all(i is not None for i in its):
                return [Tup(x) for x in zip(*its)]
        if isinstance(v, CombV):
            it = self.items_of(st, v.it)
            if it is not None and isinstance(v.k, int):
                r = [Tup(x) for x in itertools.combinations(it, v.k)]
                if len(r) <= 4 * self.unroll:
                    return r
        if is_term(v) and v[0] == 'str':
            return [('str', ch) for ch in v[1]]
        return None

    # space: (binders, cons, item(st)->value, ordinal term, length term or None)
    def space(self, st, v):
        if isinstance(v, RangeV):
            s = T.int_val(v.step)
            b = T.fresh_bv()
            if s == 1:
                ln = T.sub(v.hi, v.lo)
                return ((b,), range_cons(b, ln), lambda st, b=b: T.add(v.lo, b), b, ln)
            if s == -1:
                ln = T.sub(v.lo, v.hi)
                return ((b,), range_cons(b, ln), lambda st, b=b: T.sub(v.lo, b), b, ln)
            if s and s > 1:
                ln = T.floordiv(T.add(T.sub(v.hi, v.lo), T.num(s - 1)), v.step)
                return ((b,), range_cons(b, ln), lambda st, b=b: T.add(v.lo, T.mul(b, v.step)), b, ln)
            return None
        if isinstance(v, EnumV):
            sp = self.space(st, v.it)
            if sp is None:
                return None
            return (sp[0], sp[1], lambda st, sp=sp: Tup((T.add(v.start, sp[3]), sp[2](st))), sp[3], sp[4])
        if isinstance(v, ZipV):
            sps = [self.space(st, x) for x in v.its]
            if any(s is None or len(s[0]) != 1 for s in sps):
                return None
            b = T.fresh_bv()

            def item(st, sps=sps, b=b):
                out = []
                for s in sps:
                    out.append(self.subst_val(st, s[2](st), {s[0][0]: b}))
                return Tup(out)
            return ((b,), range_cons(b, sps[0][4]), item, b, sps[0][4])
        if isinstance(v, CombV):
            if v.k not in (2, 3):
                return None
            a = self.arr(st, v.it)
            if a is None or len(a[0]) != 1:
                return None
            n = a[0][0]
            bs = [T.fresh_bv() for _ in range(v.k)]
            if v.k == 2:
                cons = pair_cons(bs[0], bs[1], n)
                ordn = tri_index(n, *bs)
                ln = T.scale(T.mul(n, T.sub(n, T.ONE)), Fraction(1, 2))
            else:
                cons = triple_cons(*bs, n)
                ordn = triple_index(n, *bs)
                ln = T.scale(T.mul(T.mul(n, T.sub(n, T.ONE)), T.sub(n, T.num(2))), Fraction(1, 6))
            return (tuple(bs), cons, lambda st, bs=bs, a=a: Tup([a[1]((b,)) for b in bs]), ordn, ln)
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, (ArrC, View)) and c.shape:
                b = T.fresh_bv()
                ln = c.shape[0]
                return ((b,), range_cons(b, ln), lambda st, b=b: self.getitem_v(st, v, [('int', b)]), b, ln)
        if isinstance(v, TriIdx) and v.comp is not None:
            i, j = T.fresh_bv(), T.fresh_bv()
            n = v.n
            ln = T.scale(T.mul(n, T.sub(n, T.ONE)), Fraction(1, 2))
            return ((i, j), pair_cons(i, j, n), lambda st: (i, j)[v.comp], tri_index(n, i, j), ln)
        return None

    def subst_val(self, st, v, env):
        if is_term(v):
            return T.subst(v, env)
        if isinstance(v, Tup):
            return Tup([self.subst_val(st, x, env) for x in v.items])
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, View):
                sel = []
                for s in c.sel:
                    if s[0] == 'map':
                        sel.append(('map', lambda idx, g=s[1]: tuple(T.subst(q, env) for q in g(idx))))
                    elif s[0] == 'int':
                        sel.append(('int', T.subst(s[1], env)))
                    elif s[0] == 'sl':
                        sel.append(('sl', T.subst(s[1], env), T.subst(s[2], env), s[3]) + s[4:])
                    else:
                        sel.append(s)
                return self.alloc(st, View(c.ref, tuple(sel), tuple(T.subst(x, env) for x in c.shape)))
        return v

    def view(self, st, v, shape, fn, dtype=None):
        """array that shares its elements with v: element idx is element fn(idx) of v"""
        a = self.arr(st, v)
        if isinstance(v, Ref) and isinstance(st.heap[v.id], (ArrC, View)):
            return self.alloc(st, View(v, (('map', fn),), tuple(shape)))
        return self.new_arr(st, shape, lambda idx: a[1](fn(idx)), a[2])

    def contiguous(self, st, v):
        """elements lie in one block in row order (reshape and ravel then share memory)"""
        if not isinstance(v, Ref):
            return False
        c = st.heap[v.id]
        if isinstance(c, ArrC):
            return True
        if isinstance(c, View) and self.contiguous(st, c.ref):
            full = False
            for s in c.sel:
                if s[0] == 'map':
                    return getattr(s[1], 'rowmajor', False)
                if s[0] == 'int' and full or s[0] == 'sl' and s[3] != T.ONE:
                    return False
                if s[0] == 'sl':
                    if full and s[4:] != ('full',):
                        return False
                    full = True
            return True
        return False

    # -------------------------------------------------------------- loops
    def st_For(self, s, st, fid):
        out = []
        for st1, it in self.ev(s.iter, st, fid):
            old = self.new_op()
            items = self.items_of(st1, it)
            if items is not None and self.one_shot(st1, it) and any(isinstance(x, (ast.Break, ast.Return)) for b in s.body for x in ast.walk(b)):
                k = ('ref', it.id) if isinstance(it, Ref) else id(it)
                st1.spent[k] = (it, 'part', 0)
            self.op = old
            if items is not None and len(items) <= self.unroll:
                out.extend(self._unrolled(s, st1, fid, items))
                continue
            out.extend(self._loop(s, st1, fid, it))
        return out

    def _unrolled(self, s, st, fid, items):
        cur = [(st, None)]
        done = []
        for x in items:
            nxt = []
            for st1, sig in cur:
                for st2, _ in self.assign(s.target, x, st1, fid):
                    for st3, sg in self.exec_block(s.body, st2, fid):
                        if sg in (None, 'continue'):
                            nxt.append((st3, None))
                        elif sg == 'break':
                            done.append((st3, 'broke'))
                        else:
                            done.append((st3, sg))
            cur = nxt
            if len(cur) + len(done) > self.max_paths:
                raise Undecided('paths')
        out = []
        for st1, _ in cur:
            out.extend(self.exec_block(s.orelse, st1, fid) if s.orelse else [(st1, None)])
        out.extend((a, None if b == 'broke' else b) for a, b in done)
        return out

    def st_While(self, s, st, fid):
        r = self._while_unrolled(s, st, fid)
        if r is not None:
            return r
        return self._loop(s, st, fid, None)

    def _while_unrolled(self, s, st, fid):
        """a while loop whose condition is decided before every iteration is executed iteration by iteration;
        None when the condition is not decided (then the loop is summarised instead)"""
        const = isinstance(s.test, ast.Constant)
        if const and not any(isinstance(x, ast.Break) for b in s.body for x in ast.walk(b)):
            return None
        nraised = len(self.raised)
        cur, out = [st.copy()], []
        forks = 0
        try:
            for _ in range(self.unroll + 1):
                nxt = []
                for st1 in cur:
                    before = len(st1.pc)
                    for st2, c in self.ev_cond(s.test, st1, fid):
                        br = self.branch(st2, c)
                        if len(br) != 1 and not self.fork_while:
                            raise Undecided('condition not decided')
                        for st3, tv in br:
                            if not tv:
                                out.extend(self.exec_block(s.orelse, st3, fid) if s.orelse else [(st3, None)])
                                continue
                            res = self.exec_block(s.body, st3, fid)
                            forks += max(0, len(res) - 1)
                            for st4, sg in res:
                                if sg in (None, 'continue'):
                                    nxt.append(st4)
                                elif sg == 'break':
                                    out.append((st4, None))
                                else:
                                    out.append((st4, sg))
                if self.fork_while:
                    from .merge import merge
                    nxt = merge(nxt)
                    out = [(s1, None) for s1 in merge([s1 for s1, sg in out if sg is None])] + [(s1, sg) for s1, sg in out if sg is not None]
                if not nxt:
                    return out
                lim = self.fork_while or 64
                if len(nxt) > lim or len(out) > lim or (const and forks > 2 and not self.fork_while):
                    raise Undecided('unrolling forks')
                cur = nxt
        except Undecided:
            pass
        del self.raised[nraised:]
        return None

    def _loop(self, s, st, fid, it):
        """loop summarisation; it=None for while loops"""
        is_while = it is None
        self.loop_depth += 1
        try:
            if is_while:
                b = T.fresh_bv()
                sp = ((b,), [T.ge(b, T.ZERO)], None, b, None)
            else:
                sp = self.space(st, it)
                if sp is None:
                    # unknown iteration space: opaque trip count, opaque items
                    b = T.fresh_bv()
                    ln = opaque('trip count')
                    sp = ((b,), [T.ge(b, T.ZERO)], lambda st: opaque('loop item'), b, None)
            return self._loop2(s, st, fid, sp, is_while)
        finally:
            self.loop_depth -= 1

    def _run_body(self, s, st, fid, sp, is_while):
        """one symbolic iteration from st -> list of (st, signal); while: the condition is assumed"""
        st = st.copy()
        n0 = len(st.pc)
        e0 = len(st.events)
        for c in sp[1]:
            if c != T.TRUE:
                st.pc.append(c)
        starts = []
        if is_while:
            for st1, c in self.ev_cond(s.test, st, fid):
                for st2, tv in self.branch(st1, c):
                    if tv:
                        starts.append(st2)
        else:
            x = sp[2](st)
            for st1, _ in self.assign(s.target, x, st, fid):
                starts.append(st1)
        out = []
        for st1 in starts:
            out.extend(self.exec_block(s.body, st1, fid))
        return out, n0, e0

    def _loop2(self, s, st, fid, sp, is_while):
        bvs, cons, item, ordn, length = sp
        carried = {}       # location -> symbol;  location = ('v',frame,name) | ('a',objid,attr)
        harr = {}          # heap id -> uid symbol (arrays)
        hother = set()
        init = st
        for _round in range(8):
            cur = self._with_carried(init, carried, harr, hother)
            outs, n0, e0 = self._run_body(s, cur, fid, sp, is_while)
            new = False
            for st1, sig in outs:
                for f, vars_ in cur.frames.items():
                    for nm, val in vars_.items():
                        v2 = st1.frames.get(f, {}).get(nm, val)
                        if not same(val, v2) and ('v', f, nm) not in carried:
                            if not is_while and self._is_target(s.target, nm) and f == fid:
                                continue
                            carried[('v', f, nm)] = ('sym', 'lc%d' % new_id())
                            if self._intlike(val) and self._intlike2(v2):
                                T.INT_SYMS.add(carried[('v', f, nm)][1])
                            new = True
                for h, c in cur.heap.items():
                    c2 = st1.heap.get(h, c)
                    if c2 is c:
                        continue
                    if isinstance(c, ArrC):
                        if h not in harr and h not in hother:
                            harr[h] = 'ca%d' % new_id()
                            new = True
                    elif isinstance(c, ObjC):
                        for a in set(c.attrs) | set(c2.attrs):
                            if not same(c.attrs.get(a), c2.attrs.get(a)) and ('a', h, a) not in carried:
                                carried[('a', h, a)] = ('sym', 'lc%d' % new_id())
                                new = True
                    elif h not in hother:
                        hother.add(h)
                        new = True
            if not new:
                break
        else:
            raise Undecided('loop did not stabilise')
        cur = self._with_carried(init, carried, harr, hother)
        outs, n0, e0 = self._run_body(s, cur, fid, sp, is_while)
        # ---- recurrences of scalars
        closed = {}
        lcsyms = {v: k for k, v in carried.items()}
        init_val = {}
        for loc, symv in carried.items():
            init_val[loc] = self._loc_get(init, loc)
        normal = [(st1, sig) for st1, sig in outs if sig in (None, 'continue')]
        newvals = {}
        for loc, symv in carried.items():
            vals = []
            ok = True
            for st1, sig in normal:
                v = self._loc_get(st1, loc)
                if not is_term(v):
                    ok = False
                    break
                vals.append((T.land(st1.pc[n0:]), v))
            if not ok or not vals or not is_term(init_val[loc]) or init_val[loc][0] in ('none', 'str', 'opaque'):
                continue
            if all(v == vals[0][1] for _, v in vals):
                newvals[loc] = vals[0][1]
            else:
                r = vals[-1][1]
                guard_common = list(cons)
                for c, v in reversed(vals[:-1]):
                    r = T.ite(strip_conds(c, guard_common), v, r)
                newvals[loc] = r
        progress = True
        while progress:
            progress = False
            for loc, nv in list(newvals.items()):
                if loc in closed:
                    continue
                symv = carried[loc]
                nv = T.subst(nv, {carried[l]: v for l, v in closed.items()})
                delta = self._delta(nv, symv)
                if delta is None or any(T.contains(delta, x) for x in lcsyms):
                    continue
                if any(h[0] == 'cidx' for h in T.subterms(delta)):
                    continue
                c = self._accumulate(init_val[loc], delta, bvs, cons, ordn)
                if c is None:
                    continue
                closed[loc] = c
                progress = True
        # congruent induction variables: same (unsolved) increment
        unsolved = [l for l in newvals if l not in closed]
        reps = []
        cong = {}
        for loc in unsolved:
            nv = T.subst(newvals[loc], {carried[l]: v for l, v in closed.items()})
            d = self._delta(nv, carried[loc])
            if d is None:
                continue
            for r, dr in reps:
                if d == dr:
                    cong[loc] = T.add(carried[r], T.sub(init_val[loc], init_val[r]))
                    break
            else:
                reps.append((loc, d))
        # ---- while: trip count
        if is_while:
            length = self._trip_count(s, init, cur, fid, carried, closed, bvs[0], n0)
            if length is not None:
                cons = range_cons(bvs[0], length)
            sp = (bvs, cons, None, ordn, length)
        # ---- final run with closed forms in place
        fin = self._with_carried(init, carried, harr, hother, {**closed, **cong})
        outs, n0, e0 = self._run_body(s, fin, fid, sp, is_while)
        exits = [(st1, sig) for st1, sig in outs if sig not in (None, 'continue')]
        normal = [(st1, sig) for st1, sig in outs if sig in (None, 'continue')]
        loopev = ('loop', {'binders': bvs, 'cons': cons, 'length': length, 'node': s, 'while': is_while,
                           'carried': {carried[l]: (l, init_val[l], closed.get(l)) for l in carried},
                           'paths': [(st1.pc[n0:], st1.events[e0:], sig, {l: self._loc_get(st1, l) for l in carried})
                                     for st1, sig in outs]})
        # ---- state after normal completion
        after = init.copy()
        after.events.append(loopev)
        endsub = {}
        for loc in carried:
            if loc in closed and length is not None:
                v = self._at_end(init_val[loc], closed[loc], newvals.get(loc), carried[loc], closed, carried, bvs, cons, ordn, length)
            elif loc in newvals and length is not None and not any(T.contains(newvals[loc], x) for x in lcsyms) and len(bvs) == 1 \
                    and not any(x[0] == 'cidx' for x in T.subterms(newvals[loc])):
                last = T.subst(newvals[loc], {bvs[0]: T.sub(length, T.ONE)})
                c = FX.Facts(init.pc).entails(T.gt(length, T.ZERO))
                v = last if c is True else T.ite(T.gt(length, T.ZERO), last, init_val[loc]) if is_term(init_val[loc]) else opaque('after loop')
            else:
                v = opaque('value after loop of ' + str(loc[-1]))
            self._loc_set(after, loc, v)
        for h, uid in harr.items():
            self._apply_array(after, init, h, uid, normal, exits, bvs, cons, length, n0)
        for h in hother:
            c = init.heap[h]
            grown = self._grown_list(init, normal, h, bvs, cons, length, n0)
            if grown is not None:
                after.heap[h] = grown
            elif isinstance(c, ListC):
                after.heap[h] = ListC(c.items, True)
            elif isinstance(c, DictC):
                after.heap[h] = DictC(c.items, True)
            else:
                after.heap[h] = c
        # variables first assigned inside the body
        for st1, sig in normal[:1]:
            for f, vars_ in st1.frames.items():
                if f in after.frames:
                    for nm, v in vars_.items():
                        if nm not in after.frames[f]:
                            after.frames[f][nm] = self._after_value(v, bvs, length, lcsyms, after)
        if not is_while and normal:
            # loop target keeps the last item
            for nm in target_names(s.target):
                v = normal[0][0].frames[fid].get(nm)
                if v is not None:
                    after.frames[fid][nm] = self._after_value(v, bvs, length, lcsyms, after)
        res = []
        feasible_normal = True
        if is_while:
            # exit condition holds after the loop
            try:
                for st1, c in self.ev_cond(s.test, after, fid):
                    if length is None:
                        if not self.assume(st1, T.lnot(c)):
                            feasible_normal = False
                    after = st1
            except Undecided:
                pass
        if feasible_normal:
            if s.orelse:
                res.extend(self.exec_block(s.orelse, after, fid))
            else:
                res.append((after, None))
        for st1, sig in exits:
            # leaving from inside an arbitrary iteration; carried arrays: unknown prefix of iterations
            st2 = st1
            for h, uid in harr.items():
                if h in st2.heap and isinstance(st2.heap[h], ArrC):
                    c = st2.heap[h]
                    base0 = init.heap[h]
                    st2.heap[h] = ArrC(c.shape, (lambda idx, uid=uid: ('cidx', uid, tuple(idx))), c.writes, c.dtype, c.name)
            st2.events = init.events + [loopev] + st1.events[e0:]
            res.append((st2, None if sig == 'break' else sig))
        if len(res) > self.max_paths:
            raise Undecided('paths')
        return res

    def _after_value(self, v, bvs, length, lcsyms, st):
        if is_term(v):
            if any(T.contains(v, x) for x in lcsyms) or any(x[0] == 'cidx' for x in T.subterms(v)):
                return opaque('last iteration value')
            if any(T.contains(v, b) for b in bvs):
                if length is not None and len(bvs) == 1:
                    return T.subst(v, {bvs[0]: T.sub(length, T.ONE)})
                return opaque('last iteration value')
            return v
        if isinstance(v, Ref) and v.id in st.heap:
            return v
        if isinstance(v, (Func, Lib, Cls, ModV, Extern)):
            return v
        return opaque('last iteration value')

    def _grown_list(self, init, normal, h, bvs, cons, length, n0):
        """list that only receives appends of scalar terms, exactly one per iteration and initially empty ->
        array-like sequence indexed by the iteration number"""
        c = init.heap[h]
        if not isinstance(c, ListC) or c.items or c.opaque or len(bvs) != 1 or length is None or len(normal) != 1:
            return None
        c2 = normal[0][0].heap.get(h)
        if not isinstance(c2, ListC) or c2.opaque or len(c2.items) != 1 or not is_term(c2.items[0]):
            return None
        v = c2.items[0]
        if any(x[0] in ('cidx',) or (x[0] == 'sym' and x[1].startswith('lc')) for x in T.subterms(v)):
            return None
        b = bvs[0]
        return ArrC((length,), lambda idx, v=v, b=b: T.subst(v, {b: idx[0]}), (), None, None, 'list')

    def _is_target(self, t, nm):
        return nm in target_names(t)

    def _intlike(self, v):
        return is_term(v) and v[0] not in ('none', 'str', 'opaque') and T.is_int_valued(v)

    def _intlike2(self, v):
        if not is_term(v):
            return False
        if v[0] == 'ite':
            return self._intlike2(v[2]) and self._intlike2(v[3])
        return v[0] not in ('none', 'str', 'opaque') and T.is_int_valued(v)

    def _delta(self, nv, symv):
        """nv = symv + delta (with ite's pushed) -> delta or None"""
        if nv[0] == 'ite':
            a, b = self._delta(nv[2], symv), self._delta(nv[3], symv)
            if a is None or b is None:
                return None
            return T.ite(nv[1], a, b)
        p = T.to_poly(nv)
        if p.get(((symv, 1),)) != 1:
            return None
        d = T.sub(nv, symv)
        if T.contains(d, symv):
            return None
        return d

    def _accumulate(self, v0, delta, bvs, cons, ordn):
        """value at the start of the iteration given by the binders"""
        if not any(T.contains(delta, b) for b in bvs):
            return T.add(v0, T.mul(delta, ordn))
        if len(bvs) != 1:
            return None
        b = bvs[0]
        t = T.fresh_bv()
        d = T.subst(delta, {b: t})
        s = poly_sum(d, t, b)
        if s is not None:
            return T.add(v0, s)
        # Σ_{0<=t<b} delta(t)
        s = T.mk_sum((t,), [T.ge(t, T.ZERO), T.lt(t, b)], d)
        return T.add(v0, s)

    def _at_end(self, v0, closed, nv, symv, allclosed, carried, bvs, cons, ordn, length):
        if len(bvs) == 1:
            return T.subst(closed, {bvs[0]: length})
        if nv is not None:
            d = self._delta(T.subst(nv, {carried[l]: v for l, v in allclosed.items() if carried[l] != symv}), symv)
            if d is not None:
                return T.add(v0, T.mk_sum(bvs, cons, d)) if any(T.contains(d, b) for b in bvs) else T.add(v0, T.mul(d, length))
        return opaque('after loop')

    def _trip_count(self, s, init, cur, fid, carried, closed, b, n0):
        fin = self._with_carried(init, carried, {}, set(), closed)
        fin.pc.append(T.ge(b, T.ZERO))
        try:
            cs = self.ev_cond(s.test, fin, fid)
        except Undecided:
            return None
        if len(cs) != 1:
            return None
        c = cs[0][1]
        if c[0] == 'lt0':
            p = T.to_poly(c[1])
            if p.get(((b, 1),)) == 1:
                rest = T.sub(c[1], b)
                if not T.contains(rest, b) and not any(x[0] == 'sym' and x[1].startswith('lc') for x in T.subterms(rest)):
                    return T.neg(rest)
        if c[0] == 'not' and c[1][0] == 'eq0':
            r = T.solve_for(c[1][1], b)
            if r is not None and not any(x[0] == 'sym' and x[1].startswith('lc') for x in T.subterms(r)):
                return r
        return None

    def _loc_get(self, st, loc):
        if loc[0] == 'v':
            return st.frames[loc[1]].get(loc[2], T.NONE)
        c = st.heap[loc[1]]
        return c.attrs.get(loc[2], T.NONE)

    def _loc_set(self, st, loc, v):
        if loc[0] == 'v':
            st.frames[loc[1]][loc[2]] = v
        else:
            c = st.heap[loc[1]]
            n = ObjC(c.cls, c.attrs, c.name, c.dyn)
            n.attrs[loc[2]] = v
            st.heap[loc[1]] = n

    def _with_carried(self, init, carried, harr, hother, values=None):
        st = init.copy()
        for loc, symv in carried.items():
            v = symv
            if values and loc in values:
                v = values[loc]
            else:
                iv = self._loc_get(init, loc)
                if not is_term(iv):
                    # non-scalar rebound in the loop: unknown object, keep a symbolic placeholder
                    v = ('opaque', symv[1], 'loop-carried object %s' % loc[-1])
            self._loc_set(st, loc, v)
        for h, uid in harr.items():
            c = st.heap[h]
            st.heap[h] = ArrC(c.shape, (lambda idx, uid=uid: ('cidx', uid, tuple(idx))), (), c.dtype, c.name, c.kind)
        for h in hother:
            c = st.heap[h]
            if isinstance(c, DictC):
                st.heap[h] = DictC(c.items, True)
        return st

    def _apply_array(self, after, init, h, uid, normal, exits, bvs, cons, length, n0):
        base = init.heap[h]
        recs = []
        bad = None
        if length is None and not cons:
            bad = 'unbounded loop'
        multi = len(normal) > 1
        seen = []
        for st1, sig in normal:
            c = st1.heap[h]
            extra = [x for x in st1.pc[n0:] if x not in cons]
            if c.fn is None or not self._is_carried_fn(c, uid):
                bad = 'whole array replaced in loop'
                break
            for w in c.writes:
                if w[0] == 'dict':
                    for k, v in w[1].items():
                        seen.append((W((), (), [('int', T.num(i)) for i in k], (lambda pos, v=v: v), 'set'), extra))
                elif w[0] == 'w':
                    seen.append((w[1], extra))
                else:
                    bad = 'unmodelled write in loop'
        if bad is None:
            # identical on all paths?
            for rec, extra in seen:
                g = [x for x in extra] if multi else []
                nsl = [s for s in rec.sel if s[0] != 'int']
                ph = [('sym', '__pos%d' % i) for i in range(len(nsl))]
                T.INT_SYMS.update(p[1] for p in ph)
                try:
                    v = rec.val(ph)
                except Undecided:
                    bad = 'value'
                    break
                mode = rec.mode
                if mode == 'set':
                    # A[i] = A[i] + x  ==  A[i] += x
                    me = self._self_read(rec, uid, ph)
                    d = self._delta(v, me) if me is not None and T.contains(v, me) else None
                    if d is not None:
                        v, mode = d, 'add'
                if any(x[0] == 'cidx' and x[1] == uid for x in T.subterms(v)):
                    bad = 'loop-carried array dependence'
                    break
                if any(x[0] == 'sym' and x[1].startswith('lc') for x in T.subterms(v)) or \
                   any(x[0] == 'sym' and x[1].startswith('lc') for s in rec.sel if s[0] == 'int' for x in T.subterms(s[1])):
                    bad = 'unsolved recurrence in write'
                    break

                def val(pos, v=v, ph=ph):
                    return T.subst(v, dict(zip(ph, pos)))
                recs.append(W(tuple(bvs) + rec.bvs, tuple(cons) + tuple(g) + rec.cons, rec.sel, val, mode))
        if exits and bad is None and any(sig == 'break' for _, sig in exits):
            bad = 'loop with break'
        if bad is not None:
            after.heap[h] = ArrC(base.shape, (lambda idx, bad=bad: opaque(bad)), (), base.dtype, base.name, base.kind)
            return
        c = base
        for r in recs:
            c = c.with_write(('w', r))
        after.heap[h] = c

    def _self_read(self, rec, uid, ph):
        p = list(ph)
        idx = []
        for s in rec.sel:
            if s[0] == 'int':
                idx.append(s[1])
            else:
                q = p.pop(0)
                idx.append(T.add(s[1], q) if s[3] == T.ONE else None)
        if any(x is None for x in idx):
            return None
        return ('cidx', uid, tuple(idx))

    def _is_carried_fn(self, c, uid):
        q = tuple(('sym', '__probe%d' % i) for i in range(len(c.shape)))
        try:
            r = c.fn(q)
        except Exception:
            return False
        return r == ('cidx', uid, q)

    # -------------------------------------------------------------- expressions
    def ev(self, e, st, fid):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            return [(st, opaque('expression %s' % type(e).__name__))]
        return m(e, st, fid)

    def ev_list(self, es, st, fid):
        cur = [(st, [])]
        for e in es:
            nxt = []
            for st1, acc in cur:
                if isinstance(e, ast.Starred):
                    for st2, v in self.ev(e.value, st1, fid):
                        it = self.items_of(st2, v)
                        nxt.append((st2, acc + (it if it is not None else [Extern('*', None)])))
                else:
                    for st2, v in self.ev(e, st1, fid):
                        nxt.append((st2, acc + [v]))
            cur = nxt
            if len(cur) > self.max_paths:
                raise Undecided('paths')
        return cur

    def ex_Constant(self, e, st, fid):
        if e.value is Ellipsis:
            return [(st, ('str', '...'))]
        return [(st, lift(e.value))]

    def ex_Name(self, e, st, fid):
        return [(st, self.lookup(st, fid, e.id))]

    def ex_Tuple(self, e, st, fid):
        return [(st1, Tup(vs)) for st1, vs in self.ev_list(e.elts, st, fid)]

    def ex_List(self, e, st, fid):
        return [(st1, self.alloc(st1, ListC(vs))) for st1, vs in self.ev_list(e.elts, st, fid)]

    def new_set(self, st, vs):
        out = []
        for x in vs:
            if not any(x == y for y in out):
                out.append(x)
        r = self.alloc(st, ListC(out))
        st.heap[r.id].isset = True
        return r

    def ex_Set(self, e, st, fid):
        return [(st1, self.new_set(st1, vs)) for st1, vs in self.ev_list(e.elts, st, fid)]

    def ex_Dict(self, e, st, fid):
        if any(k is None for k in e.keys):
            return [(st, self.alloc(st, DictC({}, True)))]
        out = []
        for st1, vs in self.ev_list(list(e.keys) + list(e.values), st, fid):
            n = len(e.keys)
            d = {}
            op = False
            for k, v in zip(vs[:n], vs[n:]):
                k = to_key(k)
                if is_term(k):
                    d[k] = v
                else:
                    op = True
            out.append((st1, self.alloc(st1, DictC(d, op))))
        return out

    def ex_Lambda(self, e, st, fid):
        return [(st1, Func(e, self.frameinfo[fid].mod, fid, defaults=d)) for st1, d in self._defaults(e, st, fid)]

    def ex_JoinedStr(self, e, st, fid):
        parts = [v.value if isinstance(v, ast.FormattedValue) else v for v in e.values]
        out = []
        for st1, vs in self.ev_list(parts, st, fid):
            t = ''
            for v, x in zip(e.values, vs):
                spec = ''
                if isinstance(v, ast.FormattedValue):
                    f = v.format_spec
                    spec = ''.join(c.value for c in f.values) if f is not None and all(isinstance(c, ast.Constant) for c in f.values) else '' if f is None else None
                k = x[1] if is_term(x) and x[0] == 'str' else T.int_val(x) if is_term(x) else None
                if k is None or spec is None or isinstance(v, ast.FormattedValue) and v.conversion not in (-1, 115):
                    t = None
                    break
                try:
                    t += format(k, spec)
                except ValueError:
                    t = None
                    break
            out.append((st1, ('str', t) if t is not None else opaque('fstring')))
        return out

    def ex_Starred(self, e, st, fid):
        return self.ev(e.value, st, fid)

    def ex_NamedExpr(self, e, st, fid):
        out = []
        for st1, v in self.ev(e.value, st, fid):
            self.assign_name(st1, fid, e.target.id, v)
            out.append((st1, v))
        return out

    def ex_Await(self, e, st, fid):
        return self.ev(e.value, st, fid)

    def ex_Yield(self, e, st, fid):
        out = []
        for st1, v in ([(st, T.NONE)] if e.value is None else self.ev(e.value, st, fid)):
            y = st1.frames[fid].get('$yield')
            if y is None:
                raise Undecided('yield outside a generator')
            self.call(st1, Lib('method.append', y), [v], {}, e)
            out.append((st1, T.NONE))
        return out

    def ex_IfExp(self, e, st, fid):
        out = []
        for st1, c in self.ev_cond(e.test, st, fid):
            for st2, tv in self.branch(st1, c):
                out.extend(self.ev(e.body if tv else e.orelse, st2, fid))
        return out

    def ex_BoolOp(self, e, st, fid):
        isand = isinstance(e.op, ast.And)
        # fast path: effect-free boolean terms become one condition
        out = []
        cur = [(st, [])]
        res = []
        for i, sub in enumerate(e.values):
            nxt = []
            for st1, acc in cur:
                for st2, v in self.ev(sub, st1, fid):
                    c = self.truth(st2, v)
                    if i == len(e.values) - 1:
                        if acc and all(T.is_cond(x) for x in acc) and is_term(v) and T.is_cond(v):
                            res.append((st2, T.land(acc + [v]) if isand else T.lor(acc + [v])))
                        else:
                            # remaining accumulated conditions were decided by branching
                            res.append((st2, v))
                        continue
                    if c == (T.FALSE if isand else T.TRUE):
                        res.append((st2, v))
                        continue
                    if c == (T.TRUE if isand else T.FALSE):
                        nxt.append((st2, acc))
                        continue
                    # undetermined: branch so that later operands are evaluated only when reached
                    for st3, tv in self.branch(st2, c):
                        if tv == isand:
                            nxt.append((st3, acc))
                        else:
                            vv = v
                            if is_term(v) and T.is_cond(v):
                                vv = T.FALSE if isand else T.TRUE
                            res.append((st3, vv))
            cur = nxt
        return res

    def ex_UnaryOp(self, e, st, fid):
        out = []
        for st1, v in self.ev(e.operand, st, fid):
            if isinstance(e.op, ast.Not):
                out.append((st1, T.lnot(self.truth(st1, v))))
            elif isinstance(e.op, ast.USub):
                out.append((st1, self.elementwise(st1, T.neg, v)))
            elif isinstance(e.op, ast.UAdd):
                out.append((st1, v))
            else:
                a = self.arr(st1, v)
                if a is not None and a[2] == 'bool':
                    out.append((st1, self.elementwise(st1, T.lnot, v, dtype='bool')))
                else:
                    out.append((st1, opaque('invert')))
        return out

    def ex_BinOp(self, e, st, fid):
        out = []
        for st1, (a, b) in self.ev_list([e.left, e.right], st, fid):
            out.append((st1, self.binop(st1, e.op, a, b)))
        return out

    def set_op(self, st, nm, a, b):
        """Python sets of literal values"""
        ca, cb = [st.heap.get(x.id) if isinstance(x, Ref) else None for x in (a, b)]
        if not (isinstance(ca, ListC) and isinstance(cb, ListC) and ca.isset and cb.isset):
            return None
        if ca.opaque or cb.opaque or not all(is_term(x) and const_key(x) for x in list(ca.items) + list(cb.items)):
            return opaque('set operation')
        A, B = list(ca.items), list(cb.items)
        out = {'BitAnd': [x for x in A if x in B], 'BitOr': A + [x for x in B if x not in A], 'Sub': [x for x in A if x not in B],
               'BitXor': [x for x in A if x not in B] + [x for x in B if x not in A]}[nm]
        r = self.alloc(st, ListC(out))
        st.heap[r.id].isset = True
        return r

    def arith_dtype(self, st, a, b):
        """element type of a sum, difference or product of arrays where it is known"""
        ds = []
        for v in (a, b):
            if is_term(v):
                ds.append('int' if T.is_int_valued(v) and (T.num_val(v) is None) else None)
            else:
                x = self.arr(st, v) if not (isinstance(v, Ref) and isinstance(st.heap[v.id], ListC)) else None
                ds.append(x[2] if x is not None else None)
        return 'float' if 'float' in ds else None if None in ds else 'int'

    def binop(self, st, op, a, b):
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)) and isinstance(a, Ref) and isinstance(b, Ref):
            r = self.set_op(st, type(op).__name__, a, b)
            if r is not None:
                return r
        if isinstance(op, ast.Add):
            # sequences
            la, lb = self._is_seq(st, a), self._is_seq(st, b)
            if la and lb:
                ia, ib = self.items_of(st, a), self.items_of(st, b)
                if ia is not None and ib is not None:
                    if isinstance(a, Tup):
                        return Tup(ia + ib)
                    return self.alloc(st, ListC(ia + ib))
                return opaque('list concatenation')
            if is_term(a) and is_term(b) and a[0] == 'str' and b[0] == 'str':
                return ('str', a[1] + b[1])
            if (is_term(a) and a[0] == 'str') or (is_term(b) and b[0] == 'str'):
                return ('fn', 'strcat', a if is_term(a) else opaque('x'), b if is_term(b) else opaque('x'))
            return self.elementwise(st, _n2(T.add), a, b, dtype=self.arith_dtype(st, a, b))
        if isinstance(op, ast.Sub):
            return self.elementwise(st, _n2(T.sub), a, b, dtype=self.arith_dtype(st, a, b))
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if is_term(x) and x[0] == 'str':
                    k = T.int_val(y) if is_term(y) else None
                    return ('str', x[1] * k) if k is not None and k < 10000 else opaque('repeated text')
            if self._is_seq(st, a) or self._is_seq(st, b):
                s, n = (a, b) if self._is_seq(st, a) else (b, a)
                k = T.int_val(n) if is_term(n) else None
                it = self.items_of(st, s)
                if k is not None and it is not None and k * len(it) <= 256:
                    return Tup(it * k) if isinstance(s, Tup) else self.alloc(st, ListC(it * k))
                if it is not None and len(it) == 1 and is_term(it[0]) and is_term(n):
                    v = it[0]
                    return self.alloc(st, ArrC((n,), lambda idx, v=v: v, (), None, None, 'list'))
                return opaque('list repetition')
            return self.elementwise(st, _n2(T.mul), a, b, dtype=self.arith_dtype(st, a, b))
        if isinstance(op, ast.Div):
            return self.elementwise(st, _n2(T.div), a, b, dtype='float')
        if isinstance(op, ast.FloorDiv):
            return self.elementwise(st, T.floordiv, a, b)
        if isinstance(op, ast.Mod):
            if is_term(a) and a[0] == 'str':
                return self._strmod(st, a, b)
            return self.elementwise(st, T.mod, a, b)
        if isinstance(op, ast.Pow):
            def pw(x, y):
                k = T.int_val(y)
                if k is not None and abs(k) <= 8:
                    return T.power(x, k)
                v = T.num_val(y)
                if v == Fraction(1, 2):
                    return ('fn', 'sqrt', x)
                if T.num_val(x) is not None and k is not None and abs(k) <= 64:
                    return T.num(T.num_val(x) ** k)
                return ('fn', 'pow', x, y)
            return self.elementwise(st, pw, a, b)
        if isinstance(op, ast.MatMult):
            return self.libmodel.dot(self, st, a, b)
        if isinstance(op, ast.BitAnd):
            if all(is_term(x) and T.is_cond(x) for x in (a, b)):
                return T.land([a, b])
            return self.elementwise(st, lambda x, y: T.land([x, y]) if T.is_cond(x) and T.is_cond(y) else _bits(x, y, lambda p, q: p & q, '&'), a, b,
                                    dtype=self._bitdt(st, a, b))
        if isinstance(op, ast.BitOr):
            return self.elementwise(st, lambda x, y: T.lor([x, y]) if T.is_cond(x) and T.is_cond(y) else _bits(x, y, lambda p, q: p | q, '|'), a, b,
                                    dtype=self._bitdt(st, a, b))
        if isinstance(op, ast.RShift):
            return self.elementwise(st, lambda x, y: T.floordiv(x, T.num(2 ** T.int_val(y))) if T.int_val(y) is not None and 0 <= T.int_val(y) < 64 else
                                    _bits(x, y, lambda p, q: p >> q if q >= 0 else None, '>>'), a, b, dtype='int')
        if isinstance(op, ast.LShift):
            return self.elementwise(st, lambda x, y: T.mul(x, T.num(2 ** T.int_val(y))) if T.int_val(y) is not None and 0 <= T.int_val(y) < 64 else
                                    _bits(x, y, lambda p, q: p << q if q >= 0 else None, '<<'), a, b, dtype='int')
        return opaque('operator %s' % type(op).__name__)

    def _bitdt(self, st, a, b):
        x, y = self.arr(st, a), self.arr(st, b)
        return 'int' if x is not None and y is not None and 'int' in (x[2], y[2]) else 'bool'

    def _strmod(self, st, a, b):
        items = list(b.items) if isinstance(b, Tup) else [b]
        vals = [x[1] if is_term(x) and x[0] == 'str' else T.int_val(x) if is_term(x) else None for x in items]
        if None not in vals:
            try:
                return ('str', a[1] % tuple(vals))
            except (TypeError, ValueError):
                pass
        return ('fn', 'strfmt', a) + tuple(x if is_term(x) else opaque('fmt arg') for x in items)

    def _is_seq(self, st, v):
        if isinstance(v, Tup):
            return True
        return isinstance(v, Ref) and isinstance(st.heap[v.id], ListC)

    def ex_Compare(self, e, st, fid):
        out = []
        for st1, vs in self.ev_list([e.left] + e.comparators, st, fid):
            cs = []
            for op, a, b in zip(e.ops, vs, vs[1:]):
                cs.append(self.compare(st1, op, a, b))
            if len(cs) == 1:
                out.append((st1, cs[0]))
            elif all(is_term(c) for c in cs):
                out.append((st1, T.land([self.truth(st1, c) for c in cs])))
            else:
                out.append((st1, opaque('chained comparison')))
        return out

    def same_dtype(self, d, n):
        """the engine keeps kinds only: 'int' stands for int64, 'float' for float64"""
        kind = 'int' if n.startswith(('int', 'uint')) else 'float' if n.startswith(('float', 'double')) else 'bool' if n.startswith('bool') else n
        if d in ('None', 'none') or d not in ('int', 'float', 'bool'):
            return T.TRUE if d == n else ('b', ('fn', 'dtype', ('str', d), ('str', n)))
        if d != kind:
            return T.FALSE
        return T.TRUE if n in ('int', 'int64', 'int_', 'float', 'float64', 'float_', 'double', 'bool', 'bool_') else ('b', ('fn', 'dtype', ('str', d), ('str', n)))

    def compare(self, st, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_same(st, a, b)
            return T.lnot(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.is_in(st, a, b)
            return T.lnot(r) if isinstance(op, ast.NotIn) else r
        f = {ast.Eq: T.eq, ast.NotEq: T.ne, ast.Lt: T.lt, ast.LtE: T.le, ast.Gt: T.gt, ast.GtE: T.ge}.get(type(op))
        if f is None:
            return opaque('compare')
        for x, y in ((a, b), (b, a)):
            if is_term(x) and x[0] == 'str' and x[1].startswith('dtype:') and (isinstance(y, Lib) or is_term(y) and y[0] == 'str'):
                r = self.same_dtype(x[1][6:], y.name.split('.')[-1] if isinstance(y, Lib) else y[1].replace('dtype:', ''))
                return T.lnot(r) if isinstance(op, ast.NotEq) else r
        if isinstance(a, (Func, Cls, Lib, ModV)) or isinstance(b, (Func, Cls, Lib, ModV)):
            r = T.TRUE if a == b else T.FALSE
            return T.lnot(r) if isinstance(op, ast.NotEq) else r
        for x in (a, b):
            if is_term(x) and x[0] == 'opaque':
                y = b if x is a else a
                if is_term(y):
                    return ('b', ('fn', 'cmp_' + type(op).__name__, a, b))
        if isinstance(a, (Tup,)) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                r = T.FALSE
            elif all(is_term(x) for x in a.items + b.items):
                r = T.land([T.eq(x, y) for x, y in zip(a.items, b.items)])
            else:
                return ('b', ('fn', 'tuplecmp'))
            return T.lnot(r) if isinstance(op, ast.NotEq) else r
        if isinstance(a, Ref) and isinstance(b, Ref):
            ca, cb = st.heap[a.id], st.heap[b.id]
            if isinstance(ca, ListC) and isinstance(cb, ListC) and ca.isset and cb.isset and not ca.opaque and not cb.opaque:
                sub = lambda p, q: T.land([T.lor([T.eq(x, y) for y in q.items]) for x in p.items])
                if isinstance(op, (ast.LtE, ast.GtE, ast.Eq, ast.NotEq)):
                    r = T.land(([sub(ca, cb)] if not isinstance(op, ast.GtE) else []) + ([sub(cb, ca)] if not isinstance(op, ast.LtE) else []))
                    return T.lnot(r) if isinstance(op, ast.NotEq) else r
                return ('b', opaque('set comparison'))
        v = self.elementwise(st, f, a, b, dtype='bool')
        return v

    def is_same(self, st, a, b):
        if is_term(a) and is_term(b):
            if a == b:
                return T.TRUE
            if a == T.NONE or b == T.NONE:
                x = b if a == T.NONE else a
                if x[0] in ('sym', 'opaque') and x[0] == 'opaque' or (x[0] == 'sym' and x[1] in NONEABLE):
                    return ('eqc', x, T.NONE)
                return T.FALSE
            if a in (T.TRUE, T.FALSE) or b in (T.TRUE, T.FALSE):
                x, y = (b, a) if a in (T.TRUE, T.FALSE) else (a, b)
                if T.is_cond(x):
                    return x if y == T.TRUE else T.lnot(x)
                return ('b', ('fn', 'is', x, y))
            return T.eq(a, b)
        if is_term(a) and a[0] in ('opaque',) or is_term(b) and b[0] in ('opaque',):
            return ('b', ('fn', 'is', a if is_term(a) else ('str', repr(a)), b if is_term(b) else ('str', repr(b))))
        if type(a) is type(b):
            return T.TRUE if a == b else T.FALSE
        if isinstance(a, Extern) and a.attr and b == T.NONE:
            return T.FALSE
        # type(x) is <class>
        if is_term(a) and a[0] == 'type' or is_term(b) and b[0] == 'type':
            t, o = (a, b) if is_term(a) and a[0] == 'type' else (b, a)
            nm = o.name.split('.')[-1] if isinstance(o, Lib) else o.info[2].name if isinstance(o, Cls) else None
            if t[1] is not None and nm is not None:
                return T.TRUE if t[1] == nm else T.FALSE
            return ('b', ('fn', 'typeis', ('str', str(t)), ('str', str(nm))))
        return T.FALSE

    def is_in(self, st, a, b):
        if isinstance(b, Ref) and isinstance(st.heap[b.id], DictC):
            c = st.heap[b.id]
            a = to_key(a)
            if is_term(a) and a in c.items:
                return T.TRUE
            if not c.opaque and is_term(a) and const_keys(c, a):
                return T.FALSE
            if not c.opaque and is_term(a) and a[0] != 'tupkey' and not any(k[0] == 'tupkey' for k in c.items):
                return T.lor([T.eq(a, x) for x in c.items])
            return ('b', opaque('in dict'))
        if is_term(a) and is_term(b) and a[0] == b[0] == 'str':
            return T.TRUE if a[1] in b[1] else T.FALSE
        items = self.items_of(st, b)
        if items is not None and is_term(a) and all(is_term(x) for x in items):
            return T.lor([T.eq(a, x) for x in items])
        if isinstance(b, RangeV) and is_term(a) and b.step == T.ONE:
            return T.land([T.ge(a, b.lo), T.lt(a, b.hi)])
        if items is not None and isinstance(a, Tup) and all(is_term(x) for x in a.items):
            alts = []
            for x in items:
                if isinstance(x, Tup):
                    if len(x.items) != len(a.items):
                        continue
                    if not all(is_term(y) for y in x.items):
                        return ('b', opaque('in'))
                    alts.append(T.land([T.eq(p, q) for p, q in zip(a.items, x.items)]))
                elif not is_term(x):
                    return ('b', opaque('in'))
            return T.lor(alts)
        if items is not None and isinstance(a, Ref) and isinstance(st.heap[a.id], ListC):
            mine = self.items_of(st, a)
            alts = []
            for x in items:
                his = self.items_of(st, x) if isinstance(x, Ref) and isinstance(st.heap[x.id], ListC) else None
                if mine is None or his is None or not all(is_term(y) for y in list(mine) + list(his)):
                    return ('b', opaque('in'))
                if len(his) == len(mine):
                    alts.append(T.land([T.eq(p, q) for p, q in zip(mine, his)]))
            return T.lor(alts)
        return ('b', opaque('in'))

    def ex_Subscript(self, e, st, fid):
        out = []
        for st1, o in self.ev(e.value, st, fid):
            for st2, ix in self.ev_index(e.slice, st1, fid, o):
                if isinstance(o, Extern) and o.methods.get('__getitem__'):
                    out.extend(o.methods['__getitem__'](self, st2, ix, {}, e))
                    continue
                for st3 in self.mask_states(st2, o, ix):
                    out.append((st3, self.getitem(st3, o, ix, e)))
        return out

    def mask_states(self, st, o, ix):
        """the state, split by the undecided conditions of a short boolean index when paths are kept apart"""
        if not self.fork_while or not isinstance(o, Ref) or len(ix) != 1 or not isinstance(ix[0], Ref) or not isinstance(st.heap[ix[0].id], (ArrC, View)):
            return [st]
        m = self.arr(st, ix[0])
        d = None if m is None or m[2] != 'bool' or len(m[0]) != 1 else T.int_val(m[0][0])
        if d is None or d > 6:
            return [st]
        return self.decide_all(st, [self.truth(st, m[1]((T.num(i),))) for i in range(d)]) or [st]

    def ex_Attribute(self, e, st, fid):
        out = []
        for st1, o in self.ev(e.value, st, fid):
            out.append((st1, self.getattr(st1, o, e.attr, e)))
        return out

    def getattr(self, st, o, name, node=None):
        if self.attr_hook:
            r = self.attr_hook(self, st, o, name)
            if r is not None:
                return r
        if isinstance(o, Ref):
            c = st.heap[o.id]
            if isinstance(c, ObjC):
                if name in c.attrs:
                    return c.attrs[name]
                if c.cls is not None:
                    m = self.proj.method(c.cls, name)
                    if m is not None:
                        f = Func(m[2], m[1], None, m[3])
                        decs = [d.id for d in m[2].decorator_list if isinstance(d, ast.Name)]
                        if 'staticmethod' in decs:
                            return f
                        if 'property' in decs:
                            return opaque('property')
                        return f.bind(o)
                if c.dyn:
                    v = c.dyn(name)
                    if v is not None:
                        n = ObjC(c.cls, c.attrs, c.name, c.dyn)
                        n.attrs[name] = v
                        st.heap[o.id] = n
                        return v
                return opaque('attribute %s' % name)
            if isinstance(c, (ArrC, View)):
                if name == 'shape':
                    return Tup(c.shape) if c.shape is not None else opaque('shape')
                if name == 'size':
                    if c.shape is None:
                        return opaque('size')
                    r = T.ONE
                    for d in c.shape:
                        r = T.mul(r, d)
                    return r
                if name == 'ndim':
                    return T.num(len(c.shape)) if c.shape is not None else opaque('ndim')
                if name == 'T':
                    a = self.arr(st, o)
                    return o if len(a[0]) < 2 else self.view(st, o, tuple(reversed(a[0])), lambda idx: tuple(reversed(idx)))
                if name == 'dtype':
                    return ('str', 'dtype:%s' % (self.arr(st, o) or (0, 0, None))[2])
            if isinstance(c, DictC) and getattr(c, 'attrdict', False) and ('str', name) in c.items:
                return c.items[('str', name)]
            return Lib('method.' + name, o)
        if isinstance(o, ModV):
            r = self.proj.resolve(o.mod, name)
            return self.wrap_resolved(st, r) if r else opaque('module attribute')
        if isinstance(o, Lib):
            if o.name in CONSTMODS and name in LIBCONST:
                return LIBCONST[name]
            return Lib(o.name + '.' + name)
        if isinstance(o, Extern):
            if name in o.methods:
                return Extern(o.name + '.' + name, o.methods[name])
            if o.attr:
                return o.attr(self, st, name)
            return opaque('attribute of %s' % o.name)
        if isinstance(o, Cls):
            m = self.proj.method(o.info, name)
            if m:
                return Func(m[2], m[1], None, m[3])
            a = self.proj.class_attr(o.info, name)
            return opaque('class attribute')
        if isinstance(o, (Tup, RangeV, Masked)) or is_term(o):
            return Lib('method.' + name, o)
        return opaque('attribute %s' % name)

    # comprehensions
    def ex_ListComp(self, e, st, fid):
        return self._comp(e, st, fid, [e.elt])

    def ex_GeneratorExp(self, e, st, fid):
        r = self._comp(e, st, fid, [e.elt])
        for st1, v in r:
            if isinstance(v, Ref) and isinstance(st1.heap[v.id], ListC):
                st1.heap[v.id].once = True
        return r

    def ex_SetComp(self, e, st, fid):
        out = []
        for st1, v in self._comp(e, st, fid, [e.elt]):
            c = st1.heap[v.id] if isinstance(v, Ref) else None
            out.append((st1, self.new_set(st1, c.items) if isinstance(c, ListC) and not c.opaque else v))
        return out

    def ex_DictComp(self, e, st, fid):
        pair = ast.copy_location(ast.Tuple([e.key, e.value], ast.Load()), e)
        out = []
        for st1, v in self._comp(e, st, fid, [pair]):
            xs = self.items_of(st1, v) if isinstance(v, Ref) and isinstance(st1.heap[v.id], ListC) else None
            d, op = {}, xs is None
            for x in xs or ():
                k = to_key(x.items[0]) if isinstance(x, Tup) and len(x.items) == 2 else None
                if k is None or not is_term(k):
                    op = True
                else:
                    d[k] = x.items[1]
            out.append((st1, self.alloc(st1, DictC(d, op))))
        return out

    def _comp(self, e, st, fid, elts):
        f2 = self.new_frame(st, fid, self.frameinfo[fid].mod, self.frameinfo[fid].func)
        gens = e.generators
        out = []
        first = self.ev(gens[0].iter, st, f2)
        for st1, it in first:
            old = self.new_op()
            items = self.items_of(st1, it)
            self.op = old
            if items is not None and len(items) <= 4 * self.unroll:
                res = self._comp_concrete(e, gens, 0, items, st1, f2, elts[0])
                for st2, vals in res:
                    out.append((st2, self.alloc(st2, ListC(vals))))
                continue
            if len(gens) != 1 or gens[0].ifs:
                out.append((st1, opaque('comprehension')))
                continue
            sp = self.space(st1, it)
            if sp is None:
                out.append((st1, opaque('comprehension over unmodelled iterable')))
                continue
            bvs, cons, item, ordn, ln = sp
            st2 = st1.copy()
            st2.pc.extend(c for c in cons if c != T.TRUE)
            e0 = len(st2.events)
            x = item(st2)
            r = []
            for st3, _ in self.assign(gens[0].target, x, st2, f2):
                r.extend(self.ev(elts[0], st3, f2))
            # merge branches of the element expression
            if not r:
                out.append((st1, opaque('comprehension element')))
                continue
            n1 = len(st1.pc)
            vals = [(T.land([c for c in s.pc[n1:] if c not in cons]), v) for s, v in r]
            if all(is_term(v) for _, v in vals):
                v = vals[-1][1]
                for c, x in reversed(vals[:-1]):
                    v = T.ite(c, x, v)
                evs = [ev for s, _ in r for ev in s.events[e0:]]
                if evs:
                    st1.events.append(('loop', {'binders': bvs, 'cons': cons, 'length': ln, 'node': e, 'while': False, 'carried': {},
                                                'paths': [(s.pc[n1:], s.events[e0:], None, {}) for s, _ in r]}))
                if any(x[0] == 'opaque' for x in T.subterms(v)):
                    out.append((st1, opaque('comprehension of unmodelled element')))
                    continue
                if len(bvs) == 1:
                    out.append((st1, self.alloc(st1, ArrC((ln,), lambda idx, v=v, b=bvs[0]: T.subst(v, {b: idx[0]}), (), None, None, 'list'))))
                else:
                    rec = W(bvs, cons, [('int', ordn)], lambda pos, v=v: v, 'set')
                    out.append((st1, self.alloc(st1, ArrC((ln,), lambda idx: opaque('outside'), (('w', rec),), None, None, 'list'))))
                continue
            # element is itself an array: stack along a new leading axis
            if len(r) == 1 and len(bvs) == 1:
                s3, v = r[0]
                a = self.arr(s3, v)
                if a is not None and not any(T.contains(d, bvs[0]) for d in a[0]):
                    st1.events.extend(s3.events[e0:] and [('loop', {'binders': bvs, 'cons': cons, 'length': ln, 'node': e, 'while': False, 'carried': {}, 'paths': [(s3.pc[n1:], s3.events[e0:], None, {})]})])
                    out.append((st1, self.alloc(st1, ArrC((ln,) + tuple(a[0]),
                                lambda idx, a=a, b=bvs[0]: T.subst(a[1](tuple(idx[1:])), {b: idx[0]}), (), a[2], None, 'list'))))
                    continue
            out.append((st1, opaque('comprehension element')))
        return out

    def _comp_concrete(self, e, gens, k, items, st, f2, elt):
        cur = [(st, [])]
        for x in items:
            nxt = []
            for st1, acc in cur:
                for st2, _ in self.assign(gens[k].target, x, st1, f2):
                    conds = [(st2, True)]
                    for ifx in gens[k].ifs:
                        n2 = []
                        for st3, ok in conds:
                            if not ok:
                                n2.append((st3, False))
                                continue
                            for st4, c in self.ev_cond(ifx, st3, f2):
                                n2.extend(self.branch(st4, c))
                        conds = n2
                    for st3, ok in conds:
                        if not ok:
                            nxt.append((st3, acc))
                        elif k + 1 < len(gens):
                            for st4, it in self.ev(gens[k + 1].iter, st3, f2):
                                old = self.new_op()
                                its = self.items_of(st4, it)
                                self.op = old
                                if its is None:
                                    raise Undecided('nested comprehension')
                                for st5, vs in self._comp_concrete(e, gens, k + 1, its, st4, f2, elt):
                                    nxt.append((st5, acc + vs))
                        else:
                            for st4, v in self.ev(elt, st3, f2):
                                nxt.append((st4, acc + [v]))
            cur = nxt
            if len(cur) > self.max_paths:
                raise Undecided('paths')
        return cur

    # -------------------------------------------------------------- calls
    def ex_Call(self, e, st, fid):
        out = []
        for st1, f in self.ev(e.func, st, fid):
            for st2, args in self.ev_list(e.args, st1, fid):
                kwn = [k.arg for k in e.keywords]
                for st3, kv in self.ev_list([k.value for k in e.keywords], st2, fid):
                    kw = {}
                    for n, v in zip(kwn, kv):
                        if n is None:
                            if isinstance(v, Ref) and isinstance(st3.heap[v.id], DictC):
                                for kk, vv in st3.heap[v.id].items.items():
                                    if kk[0] == 'str':
                                        kw[kk[1]] = vv
                                if st3.heap[v.id].opaque:
                                    kw['**'] = v
                            else:
                                kw['**'] = v
                        else:
                            kw[n] = v
                    out.extend(self.call(st3, f, args, kw, e, fid))
            if len(out) > self.max_paths:
                raise Undecided('paths')
        return out

    def call(self, st, f, args, kw, node=None, fid=None):
        if isinstance(f, Extern):
            if f.call is None:
                return [(st, opaque('call of %s' % f.name))]
            old = self.new_op()
            try:
                r = f.call(self, st, args, kw, node)
            finally:
                self.op = old
            return r if isinstance(r, list) else [(st, r)]
        if isinstance(f, Lib):
            h = self.lib.get(f.name)
            last = f.name.rsplit('.', 1)[-1]
            out = kw.get('out')
            if out is None and f.name.startswith('numpy.') and len(args) > UFUNCS.get(last, 99):
                args, out = args[:UFUNCS[last]], args[UFUNCS[last]]
            if out is not None and out != T.NONE:
                return self.call_out(st, f, args, {k: v for k, v in kw.items() if k != 'out'}, node, fid, out)
            if last in WRITERS and f.name.startswith('method.') and is_term(f.recv) and f.recv[0] == 'opaque':
                raise Undecided('%s of an object that is not modelled' % f.name)
            if h is None and (last == 'at' and f.name.startswith('numpy.') or f.name.startswith('method.') and self.writes_in_place(st, f, last)
                              or f.name.startswith(('builtins.list.', 'builtins.dict.', 'numpy.ndarray.', 'operator.i', 'operator.set', 'operator.del'))):
                raise Undecided('%s writes in place' % f.name)
            if h is None and f.name.startswith('method.'):
                h = self.lib.get('method.*')
            if h is None:
                st.events.append(('libcall', f.name, args, kw, getattr(node, 'lineno', 0)))
                return [(st, opaque('call of ' + f.name))]
            kw1 = Seen(kw)
            a1 = SeenArgs(([f.recv] if f.name.startswith('method.') else []) + list(args))
            old = self.new_op()
            self.call_fid = fid
            try:
                r = h(self, st, a1, kw1, node, f) if not isinstance(h, str) else None
            finally:
                self.op = old
            left = kw1.unseen(st) | a1.unseen() if last not in DEFAULTED and h is self.libmodel.TABLE.get(f.name) and f.name.startswith(
                ('numpy.', 'scipy.', 'math.', 'builtins.', 'method.', 'functools.', 'itertools.', 'operator.', 'collections.')) else ()
            r = r if isinstance(r, list) else [(st, r)]
            if left:
                r = [(s, v if is_term(v) and (v == T.NONE or v[0] == 'opaque') else opaque('%s: argument %s is not modelled' % (f.name, ', '.join(sorted(map(str, left)))))) for s, v in r]
            return r
        if isinstance(f, Cls):
            return self.construct(st, f, args, kw, node)
        if isinstance(f, Func):
            return self.call_func(st, f, args, kw, node)
        if isinstance(f, Ref) and isinstance(st.heap[f.id], ObjC) and st.heap[f.id].cls is not None:
            m = self.proj.method(st.heap[f.id].cls, '__call__')
            if m:
                return self.call_func(st, Func(m[2], m[1], None, m[3], f), args, kw, node)
        st.events.append(('unknowncall', f, args, kw, getattr(node, 'lineno', 0)))
        return [(st, opaque('call of unknown function'))]

    def writes_in_place(self, st, f, name):
        c = st.heap.get(f.recv.id) if isinstance(f.recv, Ref) else None
        if isinstance(f.recv, Lib) or c is None or isinstance(c, ObjC):
            return False
        return name in WRITERS or name.startswith('__i') or name in ('__setitem__', '__delitem__')

    def call_out(self, st, f, args, kw, node, fid, out):
        """library call with a target for the result"""
        if isinstance(out, Tup) and len(out.items) == 1:
            out = out.items[0]
        if not isinstance(out, Ref) or not isinstance(st.heap[out.id], (ArrC, View)) or 'where' in kw:
            raise Undecided('out argument')
        res = []
        for st1, v in self.call(st, f, args, kw, node, fid):
            if is_term(v) and v[0] == 'opaque':
                raise Undecided('result of %s' % f.name)
            self.store_whole(st1, out, v, node)
            res.append((st1, out))
        return res

    def construct(self, st, cls, args, kw, node):
        k = cls.info[1].name + ':' + cls.info[2].name
        if k in self.externs:
            r = self.externs[k](self, st, args, kw, node)
            return r if isinstance(r, list) else [(st, r)]
        o = self.alloc(st, ObjC(cls.info, {}, cls.info[2].name))
        m = self.proj.method(cls.info, '__init__')
        if m is None:
            return [(st, o)]
        out = []
        for st1, v in self.call_func(st, Func(m[2], m[1], None, m[3], o), args, kw, node, want_sig=True):
            out.append((st1, o))
        return out

    def bind_args(self, f, args, kw, st):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        pos = list(args)
        if f.selfv is not None:
            pos = [f.selfv] + pos
        star = [p for p in pos if isinstance(p, Extern) and p.name == '*']
        if star:
            raise Undecided('starred call of unknown length')
        for n, v in zip(names, pos):
            vals[n] = v
        if len(pos) > len(names):
            if a.vararg:
                vals[a.vararg.arg] = Tup(pos[len(names):])
            else:
                return None
        elif a.vararg:
            vals[a.vararg.arg] = Tup(())
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        unknown_kw = False
        for n, v in kw.items():
            if n == '**':
                unknown_kw = True
                continue
            if n in names or n in kwonly:
                vals[n] = v
            elif a.kwarg:
                extra[('str', n)] = v
            else:
                return None
        if a.kwarg:
            vals[a.kwarg.arg] = self.alloc(st, DictC(extra, unknown_kw))
        self.defaulted = []
        for n, v in f.defaults.items():
            if n not in vals:
                self.defaulted.append(n)
                vals[n] = v if not (unknown_kw) else v
        missing = [n for n in names + kwonly if n not in vals]
        return vals, missing

    def call_func(self, st, f, args, kw, node=None, want_sig=False):
        q = f.mod.name + ':' + ((f.cls[2].name + '.') if f.cls else '') + f.name
        h = self.externs.get(q)
        if h is not None and f.frame is None:
            r = h(self, st, ([f.selfv] if f.selfv is not None else []) + list(args), kw, node)
            return r if isinstance(r, list) else [(st, r)]
        if self.depth > MAX_DEPTH or sum(s is f.node for s in self.stack) > self.recursion:
            st.events.append(('recursion', q))
            return [(st, opaque('recursive call'))]
        gen = isinstance(f.node, ast.FunctionDef) and is_generator(f.node)
        # defaults of module-level functions are evaluated lazily in module scope
        if not f.defaults and (f.node.args.defaults or f.node.args.kw_defaults):
            mf = self.new_frame(st, f.frame, f.mod)
            ds = self._defaults(f.node, st, mf)
            st, f.defaults = ds[0][0], ds[0][1]
        b = self.bind_args(f, args, kw, st)
        if b is None:
            st.events.append(('badcall', q, getattr(node, 'lineno', 0)))
            return [(st, opaque('call does not match signature of ' + q))]
        vals, missing = b
        for m in missing:
            vals[m] = opaque('missing argument ' + m)
        fid = self.new_frame(st, f.frame, f.mod, f)
        st.frames[fid].update(vals)
        whole = whole_defaults(f.node) if self.defaulted else ()
        self.wholes |= {(fid, n) for n in self.defaulted if n in whole}
        if gen:
            # the values are computed when the generator is created: only sound for bodies without effects, see below
            ylist = self.alloc(st, ListC([]))
            st.frames[fid]['$yield'] = ylist
            nev = len(st.events)
        self.depth += 1
        self.stack.append(f.node)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, st, fid)
            out = []
            for st1, sig in self.exec_block(f.node.body, st, fid):
                if gen:
                    if any(e[0] not in ('oob', 'append', 'assert', 'round', 'loop') for e in st1.events[nev:]):
                        out.append((st1, opaque('generator with effects')))
                    elif isinstance(sig, tuple) and sig[0] == 'raise':
                        out.append((st1, opaque('generator that raises')))
                    else:
                        if isinstance(st1.heap[ylist.id], ListC):
                            st1.heap[ylist.id].once = True
                        out.append((st1, ylist))
                elif sig is None:
                    out.append((st1, T.NONE))
                elif isinstance(sig, tuple) and sig[0] == 'ret':
                    out.append((st1, sig[1]))
                elif isinstance(sig, tuple) and sig[0] == 'raise':
                    # an exception leaving the callee ends this path for the caller as well
                    st1.events.append(('propagate', sig[1]))
                    self.raised.append((st1, sig))
                else:
                    out.append((st1, T.NONE))
            return out
        finally:
            self.depth -= 1
            self.stack.pop()

    raised = []

    def run(self, f, args, kw, st):
        """analyse f(*args, **kw) from st -> list of (state, ('ret',value)|('raise',name))"""
        self.raised = []
        res = [(s, ('ret', v)) for s, v in self.call_func(st, f, args, kw)]
        return res + self.raised


def _bits(x, y, f, what):
    p, q = T.int_val(x), T.int_val(y)
    r = f(p, q) if p is not None and q is not None else None
    return T.num(r) if r is not None else opaque(what)


def _n2(f):
    # booleans take part in arithmetic as 0/1
    def g(x, y):
        if T.is_cond(x):
            x = T.ite(x, T.ONE, T.ZERO)
        if T.is_cond(y):
            y = T.ite(y, T.ONE, T.ZERO)
        return f(x, y)
    return g


BOOL_SYMS = set()
NONEABLE = set()


# ------------------------------------------------------------------ helpers
def target_names(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def is_generator(node):
    for x in ast.walk(node):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            # not inside nested function
            if not any(isinstance(f, (ast.FunctionDef, ast.Lambda)) and f is not node and any(y is x for y in ast.walk(f))
                       for f in ast.walk(node)):
                return True
    return False


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    try:
        return a == b
    except Exception:
        return False


def strip_conds(c, known):
    if c[0] == 'and':
        return T.land([x for x in c[1] if x not in known])
    return T.TRUE if c in known else c


def range_cons(b, n):
    return [T.ge(b, T.ZERO), T.lt(b, n)]


def pair_cons(i, j, n):
    return [T.ge(i, T.ZERO), T.lt(i, j), T.lt(j, n)]


def triple_cons(i, j, k, n):
    return [T.ge(i, T.ZERO), T.lt(i, j), T.lt(j, k), T.lt(k, n)]


def tri_index(n, i, j):
    """position of the pair i<j in the row-major list of pairs:  i*n - i(i+1)/2 + j - i - 1"""
    return T.addn([T.mul(i, n), T.scale(T.mul(i, T.add(i, T.ONE)), Fraction(-1, 2)), j, T.neg(i), T.num(-1)])


def triple_index(n, i, j, k):
    # C(n,3) - C(n-i,3)  +  [C(n-i-1,2) - C(n-j,2)]  + (k-j-1)
    def c3(m):
        return T.scale(T.mul(T.mul(m, T.sub(m, T.ONE)), T.sub(m, T.num(2))), Fraction(1, 6))

    def c2(m):
        return T.scale(T.mul(m, T.sub(m, T.ONE)), Fraction(1, 2))
    return T.addn([c3(n), T.neg(c3(T.sub(n, i))), c2(T.sub(T.sub(n, i), T.ONE)), T.neg(c2(T.sub(n, j))), k, T.neg(j), T.num(-1)])


def norm_slice(x, n):
    stp = T.ONE if x.step is None else x.step
    if not is_term(stp) or any(p is not None and (not is_term(p) or p[0] == 'opaque') for p in (x.lo, x.hi)):
        return None
    s = T.int_val(stp)
    if s is None:
        return None
    known = [T.int_val(q) if q is not None and q != T.NONE else 0 for q in (n, x.lo, x.hi)]
    if None not in known and s != 0:
        lo, hi, _ = slice(*[None if q is None or q == T.NONE else T.int_val(q) for q in (x.lo, x.hi)], s).indices(known[0])
        m = len(range(lo, hi, s))
        if s == 1:
            return ('sl', T.ZERO, n, T.ONE, 'full') if m == known[0] else ('sl', T.num(lo), T.num(m), T.ONE)
        return ('sl', T.num(lo), T.num(m), T.num(s))

    def fix(p):
        v = T.num_val(p)
        if v is not None and v < 0:
            return T.add(n, p)
        return p
    if x.lo == T.NONE:
        x = SliceV(None, x.hi, x.step)
    if x.hi == T.NONE:
        x = SliceV(x.lo, None, x.step)
    if s == 1:
        lo = T.ZERO if x.lo is None else fix(x.lo)
        hi = n if x.hi is None else fix(x.hi)
        nv, hv = T.num_val(n), T.num_val(hi)
        if nv is not None and hv is not None and hv > nv:
            hi = n
        if lo == T.ZERO and hi == n:
            return ('sl', T.ZERO, n, T.ONE, 'full')
        return ('sl', lo, T.sub(hi, lo), T.ONE)
    if s == -1 and x.lo is None and x.hi is None:
        return ('sl', T.sub(n, T.ONE), n, T.num(-1))
    if s > 1:
        lo = T.ZERO if x.lo is None else fix(x.lo)
        hi = n if x.hi is None else fix(x.hi)
        return ('sl', lo, T.floordiv(T.add(T.sub(hi, lo), T.num(s - 1)), stp), stp)
    return None


def slice_pos(s, p):
    return T.add(s[1], T.mul(p, s[3]))


UFUNCS = dict({k: 1 for k in ('exp', 'exp2', 'expm1', 'log', 'log2', 'log10', 'log1p', 'sqrt', 'square', 'negative', 'positive', 'abs', 'absolute', 'fabs', 'sign', 'sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh',
                               'arctanh', 'reciprocal', 'floor', 'ceil', 'rint', 'trunc', 'isnan', 'isfinite', 'isinf', 'logical_not', 'invert', 'conj')},
              **{k: 2 for k in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'floor_divide', 'mod', 'remainder', 'power', 'float_power', 'maximum', 'minimum', 'fmax', 'fmin', 'equal', 'not_equal',
                                'less', 'less_equal', 'greater', 'greater_equal', 'logical_and', 'logical_or', 'logical_xor', 'bitwise_and', 'bitwise_or', 'bitwise_xor', 'left_shift', 'right_shift',
                                'matmul', 'dot', 'arctan2', 'hypot', 'copysign', 'logaddexp')}, clip=3)
# calls whose last argument matters only when there is nothing else to return
DEFAULTED = frozenset(('get', 'pop', 'setdefault', 'getattr', 'next'))
WRITERS = frozenset(('sort', 'resize', 'fill', 'put', 'itemset', 'partition', 'byteswap', 'setfield', 'reverse', 'clear', 'insert', 'extend', 'remove', 'append', 'pop', 'popitem', 'update', 'setdefault', 'add',
                     'discard', 'appendleft', 'popleft', 'rotate', 'intersection_update', 'difference_update', 'symmetric_difference_update'))


def view_index(sel, idx):
    if sel and sel[0][0] == 'map':
        return tuple(sel[0][1](tuple(idx)))
    out = []
    p = list(idx)
    for s in sel:
        if s[0] == 'int':
            out.append(s[1])
        elif s[0] == 'new':
            p.pop(0)
        else:
            out.append(slice_pos(s, p.pop(0)))
    return tuple(out)


def compose_sel(vsel, sel):
    """selection sel on a view with selector vsel -> selector on the base"""
    if vsel and vsel[0][0] == 'map':
        if all(x[0] == 'int' for x in sel):
            return [('int', q) for q in vsel[0][1](tuple(x[1] for x in sel))]
        return None
    out = []
    it = list(sel)
    for s in vsel:
        if s[0] == 'int':
            out.append(s)
        elif s[0] == 'new':
            if not it:
                return None
            x = it.pop(0)
            # an axis of extent one: index 0 or full slice both address it
            continue
        else:
            if not it:
                return None
            x = it.pop(0)
            if x[0] == 'int':
                out.append(('int', slice_pos(s, x[1])))
            elif x[0] == 'sl':
                if s[4:] == ('full',) :
                    out.append(x)
                elif x[3] == T.ONE:
                    out.append(('sl', slice_pos(s, x[1]), x[2], s[3]))
                else:
                    return None
            else:
                return None
    if it:
        return None
    return out


def broadcast(shapes):
    r = max(len(s) for s in shapes)
    out = []
    for k in range(r):
        dims = []
        for s in shapes:
            j = k - (r - len(s))
            dims.append(s[j] if j >= 0 else None)
        real = [d for d in dims if d is not None and d != T.ONE]
        if not real:
            out.append(T.ONE)
        else:
            nums = {T.num_val(d) for d in real if T.num_val(d) is not None}
            if len(nums) > 1:
                return None, None
            # prefer the symbolic extent that is not numeric-less
            out.append(real[0])
    maps = []
    for s in shapes:
        off = r - len(s)

        def m(idx, s=s, off=off):
            return tuple(T.ZERO if d == T.ONE else idx[off + k] for k, d in enumerate(s))
        maps.append(m)
    return tuple(out), maps


def poly_sum(d, t, upper):
    """Σ_{t=0}^{upper-1} d(t) for d polynomial in t -> closed polynomial, else None"""
    p = T.to_poly(d)
    acc = []
    for m, c in p.items():
        deg = 0
        rest = []
        for a, pw in m:
            if a == t:
                deg = pw
            elif T.contains(a, t):
                return None
            else:
                rest.append((a, pw))
        if deg < 0:
            return None
        s = faulhaber(deg, upper)
        acc.append(T.scale(T.mul(T.from_poly({tuple(rest): Fraction(1)}), s), c))
    return T.addn(acc)


def faulhaber(k, n):
    """Σ_{t=0}^{n-1} t^k as polynomial in n (via interpolation-free Bernoulli recurrence)"""
    # S_k(n) = (n^{k+1} - Σ_{j<k} C(k+1,j) S_j(n)) / (k+1)
    from math import comb
    S = []
    for q in range(k + 1):
        r = T.power(n, q + 1)
        for j in range(q):
            r = T.sub(r, T.scale(S[j], comb(q + 1, j)))
        S.append(T.scale(r, Fraction(1, q + 1)))
    return S[k]
