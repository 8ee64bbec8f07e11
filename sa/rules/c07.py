"""Arguments are not changed: alias and effect analysis over the syntax tree of every module. A value carries the arguments and attributes it may share
memory with; functions are summarised by the arguments they write into, the arguments their result shares memory with and the attributes they leave
aliased; summaries are propagated over resolved calls to a fixpoint."""
import ast
from .c09 import Mods, Classes, Calls, FN, COMP, params, stored

LEVEL = 'proof'

# attributes, methods and functions whose result shares memory with the array they are given
VIEW_ATTR = {'T', 'real', 'imag', 'flat', 'mT', 'data'}
VIEW_METH = {'reshape', 'ravel', 'view', 'squeeze', 'transpose', 'swapaxes', 'diagonal', '__array__', 'toarray_view'}
VIEW_FUNC = {'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'ravel', 'reshape', 'squeeze',
             'transpose', 'swapaxes', 'moveaxis', 'rollaxis', 'expand_dims', 'broadcast_to', 'real', 'imag', 'diagonal', 'asmatrix', 'array_split',
             'split', 'hsplit', 'vsplit', 'require', 'flip', 'fliplr', 'flipud', 'rot90', 'asarray_chkfinite'}
INPLACE_METH = {'sort', 'fill', 'resize', 'itemset', 'put', 'partition', 'append', 'extend', 'insert', 'remove', 'clear', 'reverse', 'update',
                'setdefault', 'popitem', 'pop', 'add', 'discard', 'setfield', '__setitem__', '__delitem__', '__iadd__', 'appendleft', 'popleft'}
INPLACE_FUNC = {'fill_diagonal', 'copyto', 'put', 'place', 'putmask', 'put_along_axis', 'shuffle', 'heappush', 'heappop', 'heapify', 'insort', 'setitem', 'delitem',
                'iadd', 'imul', 'isub'}
UFUNC2 = {'add', 'subtract', 'multiply', 'divide', 'true_divide', 'power', 'maximum', 'minimum', 'logaddexp', 'dot', 'mod', 'floor_divide', 'remainder',
          'logical_and', 'logical_or', 'logical_xor', 'matmul', 'fmax', 'fmin'}
UFUNC1 = {'negative', 'abs', 'absolute', 'exp', 'log', 'sqrt', 'square', 'sign', 'log2', 'tanh', 'cosh', 'sinh', 'clip_', 'floor', 'ceil', 'rint', 'invert',
          'logical_not', 'log1p', 'expm1', 'reciprocal'}
ARRAY_ATTR = {'shape', 'ndim', 'size', 'T', 'dtype', 'dot', 'mean', 'sum', 'ravel', 'reshape', 'astype', 'copy', 'flatten', 'min', 'max', 'argmin', 'argmax',
              'any', 'all', 'std', 'tolist', 'clip'}
NONE = frozenset()


def shift(v, d):
    """containers of (d>0), elements of (d<0)"""
    return frozenset((o, max(k+d, 0)) for o, k in v)


class Sum:
    """summary of a function"""

    def __init__(self):
        self.mut = {}              # argument or ('f', attribute) -> line of a write
        self.ret = NONE
        self.fields = {}           # attribute -> value at exit

    def key(self):
        return frozenset(self.mut), self.ret, frozenset(self.fields.items())


class Func:
    def __init__(self, m, cls, node, where, me, outer):
        self.m, self.cls, self.node, self.where, self.me, self.outer = m, cls, node, where, me, outer
        self.sum = Sum()
        self.kids = []
        self.env_after = {}        # free names of nested functions: what the enclosing function gives them
        self.local = {}


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.M = Mods(ctx)
        self.C = Classes(self.M)
        self.K = Calls(ctx, self.M, self.C)
        self.funcs = {}
        self.methods = {x.name for c in self.C.cls.values() for x in c[2].body if isinstance(x, ast.FunctionDef)}
        for n, m in self.M.mods.items():
            self.collect(m, m.tree.body, None, '', None, {}, None)
        self.memo, self.uses, self.resolved, self.writes = {}, {}, 0, 0
        self.ctor = {id(f.node.args): f.node for f in self.funcs.values()}
        work, count = list(self.funcs), {}
        while work:
            k = work.pop(0)
            f = self.funcs[k]
            count[k] = count.get(k, 0)+1
            if count[k] > 40:
                ctx.undecided('arguments', f.m.rel+':'+f.where, 'the summary does not settle')
                continue
            before = f.sum.key()
            inner = {id(nd): self.funcs[id(nd)].env_after for nd in f.kids}
            Body(self, f).run()
            redo = set()
            if f.sum.key() != before:
                redo |= self.uses.get(k, set())
                if f.outer is not None:
                    redo.add(id(f.outer.node))
            redo |= {x for x, e in inner.items() if self.funcs[x].env_after != e}
            work += [x for x in redo if x not in work]

    def target(self, f, c):
        k = id(f.node), id(c)
        if k not in self.memo:
            t = self.memo[k] = self.K.target(f.m, c, f.cls, f.node, f.local, f.me)
            for x in t or ():
                nd = x[3] if x[3] is not None else self.ctor.get(id(x[1]))
                self.uses.setdefault(id(nd), set()).add(id(f.node))
            self.resolved += bool(t)
        return self.memo[k]

    def collect(self, m, body, cls, where, me, local, outer):
        for s in body:
            self.one(m, s, cls, where, me, local, outer)

    def one(self, m, s, cls, where, me, local, outer):
        if id(s) in self.M.dead[m.name]:
            return
        if isinstance(s, ast.ClassDef):
            self.collect(m, s.body, s if outer is None else None, (where+'.' if where else '')+s.name, me, local, outer)
            return
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            w = (where+'.' if where else '')+s.name
            me2 = me if me and me not in params(s.args) else None
            if outer is None and cls is not None:
                st = any(getattr(d, 'id', None) in ('staticmethod', 'classmethod') for d in s.decorator_list)
                me2 = s.args.args[0].arg if s.args.args and not st else None
            f = Func(m, cls, s, w, me2, outer)
            names, g, nl = stored(s.body)
            loc = dict(local)
            for x in (names - g) | set(params(s.args)):
                loc[x] = None
            defs = {}
            for x in ast.walk(s):
                if isinstance(x, ast.FunctionDef) and x is not s:
                    defs.setdefault(x.name, []).append(x)
            st = [x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
            for nm, ds in defs.items():
                if len(ds) == 1 and nm not in st and nm not in params(s.args):
                    loc[nm] = ds[0]
            if me2:
                loc.pop(me2, None)
            f.local, f.glob = loc, g
            self.funcs[id(s)] = f
            if outer is not None:
                outer.kids.append(s)
            for x in s.body:
                self.one(m, x, cls, w, me2, loc, f)
            return
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.stmt) or isinstance(c, ast.ExceptHandler):
                self.one(m, c, cls, where, me, local, outer)


class Body:
    def __init__(self, W, f):
        self.W, self.f = W, f
        self.sum = Sum()
        self.params = params(f.node.args)
        self.doc = doc_types(f)
        self.usage, self.arr = None, set()
        self.nested = []
        self.later = {}

    # ---- evidence that a name holds something += changes in place
    def inplace(self, nm):
        if self.usage is None:
            self.usage = set()
            for x in ast.walk(self.f.node):
                v = x.value if isinstance(x, (ast.Subscript, ast.Attribute)) else None
                if isinstance(x, ast.Attribute) and x.attr not in ARRAY_ATTR:
                    continue
                if isinstance(v, ast.Name):
                    self.usage.add(v.id)
        return nm in self.usage or nm in self.arr or nm in self.doc and self.doc[nm] in ('array', 'list')

    def run(self):
        f = self.f
        env = {}
        for p in self.params:
            if p != f.me or f.outer is not None:
                env[p] = frozenset([(('p', p), 0)])
        if f.outer is not None:
            for nm, v in f.env_after.items():
                env.setdefault(nm, v)
        out = self.block(f.node.body, env)
        if out is not None:
            self.exit(out)
        for nd, e in self.nested:
            g = self.W.funcs.get(id(nd))
            if g is None:
                continue
            free = {}
            for nm in set(e) | set(self.later):
                v = e.get(nm, NONE) | frozenset(o for ln, val in self.later.get(nm, ()) if ln > nd.lineno for o in val)
                if nm.startswith('self.'):
                    v = v | frozenset([(('f', nm[5:]), 0)])
                v = frozenset((('up',)+o if o[0] in ('p', 'up') else o, k) for o, k in v)
                if v:
                    free[nm] = v
            g.env_after = free
            # writes of the nested function into what it shares with this one
            for o, ln in g.sum.mut.items():
                if o[0] == 'up':
                    self.sum.mut.setdefault(o[1:], ln)
                elif o[0] == 'f':
                    self.sum.mut.setdefault(o, ln)
        f.sum = self.sum

    def exit(self, env):
        for k, v in env.items():
            if isinstance(k, str) and k.startswith('self.'):
                self.sum.fields[k[5:]] = self.sum.fields.get(k[5:], NONE) | v

    # ---- effects
    def write(self, v, node):
        self.W.writes += 1
        for o, k in v:
            if k == 0:
                self.sum.mut.setdefault(o, node.lineno)

    # ---- expressions
    def ev(self, e, env):
        if e is None:
            return NONE
        t = getattr(self, 'e_'+type(e).__name__, None)
        if t:
            return t(e, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return NONE

    def e_Name(self, e, env):
        return env.get(e.id, NONE)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env[e.target.id] = v
        return v

    def e_Starred(self, e, env):
        return self.ev(e.value, env)

    def e_IfExp(self, e, env):
        self.ev(e.test, env)
        return self.ev(e.body, env) | self.ev(e.orelse, env)

    def e_BoolOp(self, e, env):
        return frozenset().union(*[self.ev(x, env) for x in e.values])

    def e_Tuple(self, e, env):
        return frozenset().union(*[self.ev(x.value, env) if isinstance(x, ast.Starred) else shift(self.ev(x, env), 1) for x in e.elts]) if e.elts else NONE
    e_List = e_Set = e_Tuple

    def e_Dict(self, e, env):
        for k in e.keys:
            self.ev(k, env)
        return frozenset().union(*[shift(self.ev(x, env), 1) for x in e.values]) if e.values else NONE

    def e_Lambda(self, e, env):
        inner = dict(env)
        for p in params(e.args):
            inner[p] = NONE
        self.ev(e.body, inner)
        return NONE

    def comp(self, e, env, elts):
        env = dict(env)
        for g in e.generators:
            self.bind_iter(g.target, g.iter, env)
            for c in g.ifs:
                self.ev(c, env)
        out = NONE
        for x in elts:
            out |= shift(self.ev(x, env), 1)
        return out

    def e_ListComp(self, e, env):
        return self.comp(e, env, [e.elt])
    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env):
        return self.comp(e, env, [e.key, e.value])

    def selfname(self, e):
        return self.f.me and isinstance(e.value, ast.Name) and e.value.id == self.f.me

    def e_Attribute(self, e, env):
        if self.selfname(e):
            k = 'self.'+e.attr
            if k in env:
                return env[k]
            return frozenset([(('f', e.attr), 0)])
        v = self.ev(e.value, env)
        return v if e.attr in VIEW_ATTR else NONE

    def scalar_index(self, x, env):
        """the index surely selects by position (no copy is made)"""
        if isinstance(x, ast.Constant):
            return True
        if isinstance(x, ast.Slice):
            return True
        if isinstance(x, ast.UnaryOp):
            return self.scalar_index(x.operand, env)
        if isinstance(x, ast.Tuple):
            return all(self.scalar_index(y, env) for y in x.elts)
        if isinstance(x, ast.BinOp):
            return self.scalar_index(x.left, env) and self.scalar_index(x.right, env)
        if isinstance(x, ast.Name):
            return ('int', x.id) in env
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('int', 'len'):
            return True
        if isinstance(x, ast.Attribute) and x.attr in ('newaxis',):
            return True
        return False

    def e_Subscript(self, e, env):
        v = self.ev(e.value, env)
        self.ev(e.slice, env)
        if not v:
            return NONE
        if not self.scalar_index(e.slice, env):
            return shift(frozenset(x for x in v if x[1] > 0), -1)
        if isinstance(e.slice, ast.Slice) and all(k > 0 for _, k in v):
            return v
        if isinstance(e.slice, ast.Slice) and isinstance(e.value, ast.Name) and self.doc.get(e.value.id) == 'list':
            return shift(v, 1)
        return shift(v, -1)

    e_Slice = None

    def args(self, c, env):
        return [self.ev(a, env) for a in c.args], {k.arg: self.ev(k.value, env) for k in c.keywords}

    def e_Call(self, c, env):
        fn = c.func
        A, K = self.args(c, env)
        if 'out' in K:
            self.write(K['out'], c)
            self.write(shift(frozenset(x for x in K['out'] if x[1] > 0), -1), c)
        name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else None
        t = self.W.target(self.f, c)
        if t:
            return self.project(c, t, A, K, env) | (K.get('out', NONE))
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and getattr(fn.value.func, 'id', None) == 'super':
            return NONE
        if name is None:
            self.ev(fn, env)
            return NONE
        lib = self.library(fn)
        if isinstance(fn, ast.Attribute) and not lib:
            if self.selfname(fn):
                return NONE
            recv = self.ev(fn.value, env)
            if fn.attr in INPLACE_METH and fn.attr not in self.W.methods:
                self.write(recv, c)
                if fn.attr in ('append', 'extend', 'insert', 'add', 'update', 'setdefault') and isinstance(fn.value, ast.Name) and A:
                    add = A[-1] if fn.attr in ('extend', 'update') else shift(A[-1], 1)
                    env[fn.value.id] = env.get(fn.value.id, NONE) | add
                if fn.attr in ('pop', 'setdefault'):
                    return shift(recv, -1)
                return NONE
            if fn.attr == 'shuffle' and A:
                self.write(A[0], c)
                return NONE
            if fn.attr in VIEW_METH:
                return recv
            if fn.attr == 'astype' and self.nocopy(c):
                return recv
            if fn.attr in ('values', 'items', 'get'):
                return shift(recv, -1) if fn.attr == 'get' else recv
            return K.get('out', NONE)
        if lib:
            if name in INPLACE_FUNC and A:
                self.write(A[0], c)
                return NONE
            if name == 'at' and isinstance(fn, ast.Attribute) and A:
                self.write(A[0], c)
                return NONE
            if name in UFUNC2 and len(A) > 2:
                self.write(A[2], c)
                return A[2]
            if name in UFUNC1 and len(A) > 1:
                self.write(A[1], c)
                return A[1]
            if name == 'clip' and len(A) > 3:
                self.write(A[3], c)
                return A[3]
            if name == 'nan_to_num' and self.nocopy(c) and A:
                self.write(A[0], c)
                return A[0]
            if name in VIEW_FUNC and A:
                if name in ('array_split', 'split', 'hsplit', 'vsplit'):
                    return shift(A[0], 1)
                return A[0]
            if name == 'array' and A and self.nocopy(c):
                return A[0]
            return K.get('out', NONE)
        if isinstance(fn, ast.Name):
            if fn.id in ('list', 'tuple', 'sorted', 'reversed', 'set', 'iter'):
                if fn.id == 'iter':
                    return A[0] if A else NONE
                return shift(frozenset().union(*A), 1) if A and all(k == 0 for _, k in A[0]) else (A[0] if A else NONE)
            if fn.id in ('zip', 'enumerate', 'dict', 'filter'):
                return shift(frozenset().union(*A, *K.values()), 1) if A or K else NONE
            if fn.id == 'next':
                return shift(A[0], -1) if A else NONE
            if fn.id == 'getattr' and len(c.args) > 1 and isinstance(c.args[1], ast.Constant) and isinstance(c.args[1].value, str):
                return self.e_Attribute(ast.copy_location(ast.Attribute(c.args[0], c.args[1].value, ast.Load()), c), env)
            if fn.id == 'shuffle' and A:
                self.write(A[0], c)
        return NONE

    def nocopy(self, c):
        for k in c.keywords:
            if k.arg == 'copy':
                return isinstance(k.value, ast.Constant) and k.value.value in (False, None)
        return False

    def library(self, fn):
        """numpy, scipy and other modules outside the package"""
        e = fn
        while isinstance(e, ast.Attribute):
            e = e.value
        if not isinstance(e, ast.Name) or e.id in self.f.local or e.id == self.f.me:
            return False
        r = self.W.ctx.proj.resolve(self.f.m, e.id)
        return bool(r) and r[0] == 'lib'

    def project(self, c, targets, A, K, env):
        out = NONE
        star = any(isinstance(a, ast.Starred) for a in c.args)
        newf = {}
        for lab, sig, bound, node in targets:
            ctor = node is None
            if ctor:
                node = self.W.ctor.get(id(sig))
            g = self.W.funcs.get(id(node))
            if g is None:
                continue
            pos = [x.arg for x in sig.posonlyargs + sig.args]
            if bound:
                pos = pos[1:]
            bind = {}
            for i, a in enumerate(A):
                if star:
                    break
                if i < len(pos):
                    bind[pos[i]] = a
                elif sig.vararg:
                    bind[sig.vararg.arg] = bind.get(sig.vararg.arg, NONE) | shift(a, 1)
            for k, a in K.items():
                if k in pos or k in [x.arg for x in sig.kwonlyargs]:
                    bind[k] = a
                elif k is not None and sig.kwarg:
                    bind[sig.kwarg.arg] = bind.get(sig.kwarg.arg, NONE) | shift(a, 1)
            own = not ctor and bound and self.own(c)

            def sub(v):
                r = set()
                for o, k in v:
                    if o[0] == 'p':
                        for o2, k2 in bind.get(o[1], NONE):
                            r.add((o2, k2+k))
                    elif o[0] == 'f':
                        if own:
                            for o2, k2 in env.get('self.'+o[1], frozenset([(o, 0)])):
                                r.add((o2, k2+k))
                    elif o[0] == 'up' and g.outer is self.f:
                        r.add((o[1:], k))
                return frozenset(r)
            for o, ln in g.sum.mut.items():
                self.write(sub(frozenset([(o, 0)])), c)
            if not ctor:
                out |= sub(g.sum.ret)
            if own:
                for fld, v in g.sum.fields.items():
                    newf.setdefault(fld, []).append(sub(v))
        for fld, vs in newf.items():
            v = frozenset().union(*vs)
            if len(vs) < len(targets):
                v |= env.get('self.'+fld, frozenset([(('f', fld), 0)]))
            env['self.'+fld] = v
        return out

    def own(self, c):
        fn = c.func
        if isinstance(fn, ast.Attribute):
            if self.selfname(fn):
                return True
            v = fn.value
            return isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super'
        return False

    # ---- statements
    def setname(self, nm, v, env, node, isint=False):
        env[nm] = v
        if isint:
            env[('int', nm)] = NONE
        else:
            env.pop(('int', nm), None)
        self.later.setdefault(nm, []).append((node.lineno, v))

    def viewing(self, e):
        if isinstance(e, ast.Attribute):
            return e.attr in VIEW_ATTR and not self.selfname(e)
        if isinstance(e, ast.Subscript):
            return isinstance(e.slice, ast.Slice) or isinstance(e.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in e.slice.elts)
        if isinstance(e, ast.Name):
            return self.inplace(e.id)
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in VIEW_FUNC | VIEW_METH

    def is_int(self, e, env):
        if isinstance(e, ast.Constant):
            return isinstance(e.value, int) and not isinstance(e.value, bool)
        if isinstance(e, ast.Name):
            return ('int', e.id) in env
        if isinstance(e, ast.BinOp):
            return self.is_int(e.left, env) and self.is_int(e.right, env)
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('len', 'int')

    def assign(self, t, v, env, node, value=None):
        if isinstance(t, ast.Name):
            if value is not None and self.viewing(value):
                self.arr.add(t.id)
            self.setname(t.id, v, env, node, value is not None and self.is_int(value, env))
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in list(t.elts)+list(value.elts)):
                vals = [(self.ev(x, env), x) for x in value.elts]
                for x, (y, z) in zip(t.elts, vals):
                    self.assign(x, y, env, node, z)
                return
            for x in t.elts:
                if isinstance(x, ast.Starred):
                    self.assign(x.value, v, env, node)
                else:
                    self.assign(x, shift(v, -1), env, node)
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice, env)
            self.write(self.ev(t.value, env), node)
            if isinstance(t.value, ast.Name) and v and env.get(t.value.id, NONE) == NONE:
                pass                # storing into an array copies; into a container it does not, but what is stored there is not tracked
        elif isinstance(t, ast.Attribute):
            if self.selfname(t):
                env['self.'+t.attr] = v
            else:
                self.ev(t.value, env)
                if t.attr in ('flat', 'T', 'real', 'imag', 'shape'):
                    self.write(self.ev(t.value, env), node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, node)

    def bind_iter(self, t, it, env):
        fn = it.func.id if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) else None
        if fn == 'range':
            self.ev(it, env)
            if isinstance(t, ast.Name):
                self.setname(t.id, NONE, env, it, True)
                return
        if fn == 'enumerate' and isinstance(t, ast.Tuple) and len(t.elts) == 2 and it.args:
            if isinstance(t.elts[0], ast.Name):
                self.setname(t.elts[0].id, NONE, env, it, True)
            self.bind_iter(t.elts[1], it.args[0], env)
            return
        if fn == 'zip' and isinstance(t, ast.Tuple) and len(t.elts) == len(it.args):
            for x, a in zip(t.elts, it.args):
                self.bind_iter(x, a, env)
            return
        v = self.ev(it, env)
        self.assign(t, shift(v, -1), env, it)

    def join(self, *es):
        es = [e for e in es if e is not None]
        if not es:
            return None
        out = {}
        for e in es:
            for k, v in e.items():
                if isinstance(k, tuple):
                    if all(k in x for x in es):
                        out[k] = NONE
                    continue
                out[k] = out.get(k, NONE) | v
                if k.startswith('self.') and not all(k in x for x in es):
                    out[k] |= frozenset([(('f', k[5:]), 0)])
        return out

    def block(self, body, env):
        for s in body:
            if id(s) in self.W.M.dead[self.f.m.name]:
                continue
            env = self.stmt(s, env)
            if env is None:
                return None
        return env

    def loop(self, s, env, head):
        brk = self.brk
        self.brk = []
        cur = dict(env)
        for _ in range(4):
            e = dict(cur)
            head(e)
            out = self.block(s.body, e)
            conts = self.brk
            new = self.join(cur, out, *[x for x in conts])
            if new == cur:
                break
            cur = new
        outs = self.brk
        self.brk = brk
        e = self.join(cur, *outs)
        return self.block(s.orelse, e) if s.orelse else e
    brk = ()

    def stmt(self, s, env):
        if isinstance(s, FN):
            for d in s.args.defaults + [x for x in s.args.kw_defaults if x]:
                self.ev(d, env)
            self.nested.append((s, dict((k, v) for k, v in env.items() if isinstance(k, str))))
            env[s.name] = NONE
            return env
        if isinstance(s, ast.ClassDef):
            return env
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env, s, s.value)
            return env
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env, s, s.value)
            return env
        if isinstance(s, ast.AugAssign):
            self.ev(s.value, env)
            t = s.target
            if isinstance(t, ast.Name):
                v = env.get(t.id, NONE)
                if v and self.inplace(t.id):
                    self.write(v, s)
                elif v:
                    env[t.id] = v
                env.pop(('int', t.id), None) if not self.is_int(s.value, env) else None
            elif isinstance(t, ast.Subscript):
                self.write(self.ev(t.value, env), s)
                self.ev(t.slice, env)
            elif isinstance(t, ast.Attribute):
                if self.selfname(t):
                    self.write(frozenset(x for x in self.ev(t, env) if self.is_array_field(t.attr)), s)
                elif t.attr in VIEW_ATTR:
                    self.write(self.ev(t, env), s)
            return env
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.write(self.ev(t.value, env), s)
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
            return env
        if isinstance(s, ast.Return):
            self.sum.ret |= self.ev(s.value, env)
            self.exit(env)
            return None
        if isinstance(s, ast.Raise):
            self.ev(s.exc, env)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            if isinstance(self.brk, list):
                self.brk.append(env)
            return None
        if isinstance(s, ast.If):
            self.ev(s.test, env)
            return self.join(self.block(s.body, dict(env)), self.block(s.orelse, dict(env)))
        if isinstance(s, (ast.For, ast.AsyncFor)):
            return self.loop(s, env, lambda e: self.bind_iter(s.target, s.iter, e))
        if isinstance(s, ast.While):
            return self.loop(s, env, lambda e: self.ev(s.test, e))
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, NONE if isinstance(i.context_expr, ast.Call) else v, env, s)
            return self.block(s.body, env)
        if isinstance(s, ast.Try):
            e1 = self.block(s.body, dict(env))
            hs = [self.block(h.body, self.join(env, e1) if e1 is not None else dict(env)) for h in s.handlers]
            if e1 is not None and s.orelse:
                e1 = self.block(s.orelse, e1)
            out = self.join(e1, *hs)
            if s.finalbody:
                out2 = self.block(s.finalbody, dict(out) if out is not None else dict(env))
                return out2 if out is not None else None
            return out
        if isinstance(s, ast.Match):
            self.ev(s.subject, env)
            return self.join(env, *[self.block(c.body, dict(env)) for c in s.cases])
        if isinstance(s, ast.Expr):
            if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
                self.sum.ret |= shift(self.ev(s.value.value, env), 1 if isinstance(s.value, ast.Yield) else 0)
                return env
            self.ev(s.value, env)
            return env
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return env

    def is_array_field(self, attr):
        """self.attr is subscripted or used as an array somewhere in the class"""
        if self.f.cls is None:
            return False
        for x in ast.walk(self.f.cls):
            if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.value, ast.Attribute) and x.value.attr == attr \
                    and isinstance(x.value.value, ast.Name) and x.value.value.id == self.f.me and (isinstance(x, ast.Subscript) or x.attr in ARRAY_ATTR):
                return True
        return False


del Body.e_Slice


def doc_types(f):
    """types the docstring gives the arguments: array, list or something else"""
    out = {}
    nodes = [f.node] + ([f.cls] if f.cls is not None and f.node.name == '__init__' else [])
    ps = params(f.node.args)
    for nd in nodes:
        d = ast.get_docstring(nd)
        for line in (d or '').splitlines():
            if ':' not in line:
                continue
            a, b = line.split(':', 1)
            names = [x.strip().lstrip('*') for x in a.split(',')]
            if all(x in ps for x in names):
                b = b.lower()
                kind = 'array' if 'array' in b else 'list' if 'list' in b or 'dict' in b else 'other'
                for x in names:
                    out.setdefault(x, kind)
    return out


MUTABLE_CALL = {'list', 'dict', 'set', 'zeros', 'ones', 'array', 'empty', 'arange', 'full', 'eye', 'defaultdict', 'OrderedDict', 'deque'}


def mutable(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    return isinstance(e, ast.Call) and (getattr(e.func, 'id', None) or getattr(e.func, 'attr', None)) in MUTABLE_CALL


# ---------------------------------------------------------------- rules
# work done in place by documented or evident design: function -> positions (without the object) of the arguments written
INPLACE = {
    'coniii/enumerate_potts.py:insert_newlines': {0},
    'coniii/samplers.py:WolffIsing.one_step': {0},
    'coniii/samplers.py:Metropolis.sample_metropolis': {0},
    'coniii/samplers.py:Potts3.sample_metropolis': {0},
    'coniii/samplers.py:jit_sample': {1},
    'coniii/samplers.py:cross_': {2},
    'coniii/solvers.py:ClusterExpansion.deltaS': {2, 3},
    'coniii/utils.py:adj': {0},
    'coniii/utils.py:adj_sym': {0},
    'coniii/solvers.py:ClusterExpansion.solve': {2, 3},
    'coniii/ising/automaton.py:Ising2D.flip_metropolis': {4},
}


def label(f):
    return '%s:%s' % (f.m.rel, f.where)


def frozen():
    import os
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c07_api.txt')) as g:
        return {x.strip() for x in g if x.strip()}


def positions(f):
    ps = params(f.node.args)
    if f.me and f.outer is None and ps and ps[0] == f.me:
        ps = ps[1:]
    return ps


def arguments(ctx, W, api):
    seen = set()
    for f in W.funcs.values():
        lab = label(f)
        if lab not in api and not f.m.name.startswith('coniii.ising_eqn'):
            continue
        seen.add(lab)
        ps = positions(f)
        hit = sorted((ps.index(o[1]), o[1], ln) for o, ln in f.sum.mut.items() if o[0] == 'p' and o[1] in ps)
        hit = [h for h in hit if h[0] not in INPLACE.get(lab, ())]
        for i, nm, ln in hit:
            ctx.bad('arguments', '%s argument %s' % (lab, nm), 'line %d writes into memory the caller gave as %s' % (ln, nm))
        if not hit:
            ctx.ok('arguments', lab, '%d arguments' % len(ps))
    return seen


def resolve(W, k, nm):
    r = W.ctx.proj.method(W.C.cls[k], nm)
    return W.funcs.get(id(r[2])) if r else None


def fields(ctx, W, api):
    """an attribute that keeps an argument is not written in place"""
    for k in sorted(W.C.cls):
        fs = [W.funcs[id(f)] for c, f in W.C.methods(k) if id(f) in W.funcs]
        if not fs:
            continue
        kept, wrote = {}, {}
        for f in fs:
            ps = positions(f)
            if label(f) in api:
                for a, v in f.sum.fields.items():
                    for o, d in v:
                        if d == 0 and o[0] == 'p' and o[1] in ps and ps.index(o[1]) not in INPLACE.get(label(f), ()):
                            kept.setdefault(a, []).append((f, o[1]))
            for o, ln in f.sum.mut.items():
                if o[0] == 'f':
                    wrote.setdefault(o[1], []).append((f, ln))
        bad = 0
        for a in sorted(set(kept) & set(wrote)):
            (f, nm), (g, ln) = kept[a][0], wrote[a][0]
            bad += 1
            ctx.bad('attributes', '%s.%s' % (k[1], a), '%s keeps the argument %s as self.%s, and line %d of %s writes into it' % (f.where, nm, a, ln, g.where))
        if not bad:
            ctx.ok('attributes', '%s:%s' % (W.M.mods[k[0]].rel, k[1]), '%d attributes keep arguments, %d are written in place' % (len(kept), len(wrote)))


def defaults(ctx, W):
    """default values are made once and must not be written"""
    for f in W.funcs.values():
        a = f.node.args
        pos = a.posonlyargs + a.args
        ds = list(zip(pos[len(pos)-len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for x, d in ds:
            if not mutable(d):
                continue
            con = '%s default %s' % (label(f), x.arg)
            ln = f.sum.mut.get(('p', x.arg))
            if ln is None and f.cls is not None and f.outer is None:
                for at, v in f.sum.fields.items():
                    if (('p', x.arg), 0) in v:
                        for k in W.C.subs.get((f.m.name, f.cls.name), ()):
                            for c, g in W.C.methods(k):
                                s = W.funcs.get(id(g))
                                if s is not None and ('f', at) in s.sum.mut:
                                    ln = s.sum.mut['f', at]
            if ln is not None:
                ctx.bad('defaults', con, 'line %d writes into the default value all calls share' % ln)
            else:
                ctx.ok('defaults', con, 'never written')


def shared(ctx, W):
    """containers bound in a class body are not written through objects that have none of their own"""
    n = bad = 0
    for k in sorted(W.C.cls):
        c = W.C.cls[k][2]
        for s in c.body:
            if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and mutable(s.value)):
                continue
            a = s.targets[0].id
            n += 1
            for j in W.C.subs[k]:
                i = resolve(W, j, '__init__')
                v = i.sum.fields.get(a) if i is not None else None
                if v is not None and (('f', a), 0) not in v:
                    continue
                for _, g in W.C.methods(j):
                    w = W.funcs.get(id(g))
                    if w is not None and ('f', a) in w.sum.mut:
                        bad += 1
                        ctx.bad('defaults', '%s.%s' % (k[1], a), 'line %d of %s writes into the value all objects of the class share' % (w.sum.mut['f', a], w.where))
                        break
    if not bad:
        ctx.ok('defaults', 'class bodies', '%d mutable values' % n)


def run(ctx):
    ctx.rule('arguments', 'no public function writes, itself or through what it calls, into an array, list or dictionary it was given')
    ctx.rule('attributes', 'an attribute that shares memory with an argument is not written in place')
    ctx.rule('defaults', 'default values and values bound in class bodies, which all calls share, are not written')
    W = World(ctx)
    api = frozen()
    seen = arguments(ctx, W, api)
    for lab in sorted(api - seen):
        ctx.undecided('arguments', lab, 'no such function any more')
    fields(ctx, W, api)
    defaults(ctx, W)
    shared(ctx, W)
    ctx.ok('arguments', 'package', '%d functions, %d calls of project functions followed, %d writes into containers' % (len(W.funcs), W.resolved, W.writes))
