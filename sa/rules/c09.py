"""Names, own attributes, module attributes, arguments and unpacked results: scope analysis, attribute universes of the class hierarchy and signature
binding over the syntax tree of every module of the package."""
import ast
import builtins
from ..project import Undecided

LEVEL = 'proof'
OWN = ('__class__', '__dict__', '__doc__', '__name__', '__module__', '__qualname__')
FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def params(a):
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def stored(nodes):
    """names bound directly in a scope (not in nested ones), names declared global, names declared nonlocal"""
    out, glob, nonl = set(), set(), set()

    def walk(n):
        if isinstance(n, FN):
            if not isinstance(n, ast.Lambda):
                out.add(n.name)
                for d in n.decorator_list:
                    walk(d)
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                walk(d)
            return
        if isinstance(n, ast.ClassDef):
            out.add(n.name)
            return
        if isinstance(n, COMP):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            walk(n.generators[0].iter)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.alias):
            out.add(n.asname or n.name.split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for n in nodes:
        walk(n)
    return out, glob, nonl


# ---------------------------------------------------------------- statements that are never reached
def tri(t, facts):
    """truth of a test under known truth of some names: True, False or None"""
    if isinstance(t, ast.Constant):
        return bool(t.value)
    if isinstance(t, ast.Name):
        return facts.get(t.id)
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        v = tri(t.operand, facts)
        return None if v is None else not v
    if isinstance(t, ast.BoolOp):
        vs = [tri(x, facts) for x in t.values]
        stop = isinstance(t.op, ast.Or)
        if stop in vs:
            return stop
        return None if None in vs else not stop
    return None


def learn(t, val, facts, fixed):
    """facts that follow from a test being val"""
    f = dict(facts)
    if isinstance(t, ast.Name) and t.id in fixed:
        f[t.id] = val
    elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        f = learn(t.operand, not val, f, fixed)
    elif isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) == val:
        for x in t.values:
            f = learn(x, val, f, fixed)
    return f


class Dead:
    """ids of statements that no execution reaches: after a raise or return, under tests that cannot hold, in functions that are replaced
    before use and in methods of classes whose constructor always raises"""

    def __init__(self, m, hopeless=()):
        self.dead = set()
        self.hopeless = hopeless
        self.block(m.tree.body, {}, set())

    def kill(self, body):
        for s in body:
            for x in ast.walk(s):
                self.dead.add(id(x))

    def fn(self, f, facts, fixed):
        s, g, nl = stored(f.body)
        inner = {}
        p = set(params(f.args))
        stores = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        fix = {x for x in fixed if x not in s and x not in p} | {x for x in p if x not in stores}
        inner = {k: v for k, v in facts.items() if k in fix and k not in p}
        self.block(f.body, inner, fix)

    def block(self, body, facts, fixed):
        """-> facts after the block, None when its end is never reached"""
        names = {}
        for k, s in enumerate(body):
            if isinstance(s, FN + (ast.ClassDef,)) and not isinstance(s, ast.Lambda):
                names.setdefault(s.name, []).append(k)
        for nm, ks in names.items():
            for a, b in zip(ks, ks[1:]):
                used = any(isinstance(x, ast.Name) and x.id == nm for s in body[a+1:b] if not isinstance(s, FN) for x in ast.walk(s))
                if not used and not body[a].decorator_list and not body[b].decorator_list:
                    self.kill([body[a]])
        for k, s in enumerate(body):
            if id(s) in self.dead:
                continue
            if isinstance(s, FN) and not isinstance(s, ast.Lambda):
                self.fn(s, facts, fixed)
            elif isinstance(s, ast.ClassDef):
                if s.name in self.hopeless:
                    self.kill([x for x in s.body if isinstance(x, FN) and x.name != '__init__'])
                self.block(s.body, facts, set())
            elif isinstance(s, ast.If):
                v = tri(s.test, facts)
                ends = []
                for val, part in ((True, s.body), (False, s.orelse)):
                    if v is not None and v != val:
                        self.kill(part)
                        continue
                    ends.append(self.block(part, learn(s.test, val, facts, fixed), fixed))
                ends = [e for e in ends if e is not None]
                if not ends:
                    self.kill(body[k+1:])
                    return None
                facts = {x: y for x, y in ends[0].items() if all(e.get(x) == y for e in ends)}
            elif isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                self.kill(body[k+1:])
                return None
            elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
                self.block(s.body, facts, fixed)
                self.block(s.orelse, facts, fixed)
            elif isinstance(s, (ast.With, ast.AsyncWith)):
                self.block(s.body, facts, fixed)
            elif isinstance(s, ast.Try):
                self.block(s.body, facts, fixed)
                for h in s.handlers:
                    self.block(h.body, facts, fixed)
                self.block(s.orelse, facts, fixed)
                self.block(s.finalbody, facts, fixed)
        return facts


def hopeless(m):
    """classes that no object can be made of: their constructor always raises"""
    out = set()
    for c in m.tree.body:
        if isinstance(c, ast.ClassDef):
            for f in c.body:
                if isinstance(f, ast.FunctionDef) and f.name == '__init__':
                    fl = Flow(set())
                    fl.jump = [None]
                    rets = [x for x in ast.walk(f) if isinstance(x, ast.Return)]
                    if not rets and fl.block(f.body, set()) is None:
                        out.add(c.name)
    # a subclass with a constructor of its own uses the methods
    for c in m.tree.body:
        if isinstance(c, ast.ClassDef) and c.name not in out:
            for b in c.bases:
                out.discard(getattr(b, 'id', None))
    return out


class Mods:
    """all modules of the package with the names bound at their top level"""

    def __init__(self, ctx):
        self.proj = ctx.proj
        self.mods = {n: self.proj.module(n) for n in self.proj.source_modules()}
        self.mods = {n: m for n, m in self.mods.items() if m is not None}
        self.names, self.open = {}, {}
        self.dead = {n: Dead(m, hopeless(m)).dead for n, m in self.mods.items()}
        for n, m in self.mods.items():
            s, _, _ = stored(m.tree.body)
            s.discard('*')
            for f in ast.walk(m.tree):
                if isinstance(f, FN) and not isinstance(f, ast.Lambda):
                    a, g, _ = stored(f.body)
                    s |= g & a
            self.names[n] = s | {'__name__', '__file__', '__doc__', '__package__', '__spec__', '__path__', '__builtins__'}
            self.open[n] = None

    def star(self, n, seen=()):
        """names a module exports by *, None when they are not known"""
        m = self.proj.module(n)
        if m is None or n in seen:
            return None if m is None else set()
        al = self.proj.dunder_all(m) if '__all__' in m.defs else None
        if al:
            return set(al)
        x = self.all(n, seen + (n,))
        return None if x is None else {k for k in x if not k.startswith('_')}

    def all(self, n, seen=()):
        if n not in self.names:
            return None
        out = set(self.names[n])
        for s in self.mods[n].stars:
            if s == n:
                continue
            x = self.star(s, seen)
            if x is None:
                self.open[n] = s
                continue
            out |= x
        return out


def tolerates(t, names):
    """a handler of the try statement names one of the exceptions"""
    return any(isinstance(x, ast.Name) and x.id in names for h in t.handlers if h.type is not None for x in ast.walk(h.type))


def loads(ctx, M, n):
    """every name that is read is bound in an enclosing scope, at the top of the module, or built in"""
    m = M.mods[n]
    top = M.all(n)
    state = {'n': 0, 'bad': 0}
    dead = M.dead[n]

    def visit(node, scopes, where, incls):
        """scopes: enclosing function scopes; incls: names of the class body being executed"""
        if id(node) in dead:
            return
        if isinstance(node, ast.Try) and tolerates(node, ('NameError',)):
            for c in node.handlers + node.orelse + node.finalbody:
                visit(c, scopes, where, incls)
            return
        if isinstance(node, FN):
            for d in node.args.defaults + [x for x in node.args.kw_defaults if x] + (node.decorator_list if not isinstance(node, ast.Lambda) else []):
                visit(d, scopes, where, incls)
            body = [node.body] if isinstance(node, ast.Lambda) else node.body
            s, g, nl = stored(body)
            loc = (s - g - nl) | set(params(node.args))
            if not isinstance(node, ast.Lambda):
                where = (where+'.' if where else '') + node.name
            for b in body:
                visit(b, scopes + [(loc, g)], where, None)
            return
        if isinstance(node, ast.ClassDef):
            for x in node.bases + [k.value for k in node.keywords] + node.decorator_list:
                visit(x, scopes, where, incls)
            s, _, _ = stored(node.body)
            for b in node.body:
                visit(b, scopes, (where+'.' if where else '') + node.name, s)
            return
        if isinstance(node, COMP):
            visit(node.generators[0].iter, scopes, where, incls)
            loc = set()
            for g in node.generators:
                loc |= stored([g.target])[0]
            sc = scopes + [(loc, set())]
            for k, g in enumerate(node.generators):
                if k:
                    visit(g.iter, sc, where, None)
                for c in g.ifs:
                    visit(c, sc, where, None)
            for f in ('elt', 'key', 'value'):
                if hasattr(node, f):
                    visit(getattr(node, f), sc, where, None)
            return
        if isinstance(node, (ast.Name,)) and isinstance(node.ctx, ast.Load):
            state['n'] += 1
            x = node.id
            if (incls and x in incls) or any(x in loc for loc, _ in scopes) or x in top or hasattr(builtins, x):
                return
            if x == '__class__' and scopes:
                return
            state['bad'] += 1
            con = '%s:%s name %s' % (m.rel, where or 'module', x)
            if M.open[n]:
                ctx.undecided('names', con, 'may come from %s' % M.open[n])
            else:
                ctx.bad('names', con, 'line %d reads %s, which is bound nowhere' % (node.lineno, x))
            return
        if isinstance(node, ast.AnnAssign) and scopes:
            for c in (node.target, node.value):
                if c is not None:
                    visit(c, scopes, where, incls)
            return
        for c in ast.iter_child_nodes(node):
            visit(c, scopes, where, incls)
    for b in m.tree.body:
        visit(b, [], '', None)
    ctx.analysed.add(m.rel)
    if not state['bad']:
        ctx.ok('names', m.rel, '%d reads' % state['n'])


# ---------------------------------------------------------------- reads before any assignment
class Flow:
    """names that may have been assigned, in program order"""

    def __init__(self, loc):
        self.loc = loc
        self.bad = []

    def expr(self, e, S):
        if e is None:
            return S
        if isinstance(e, FN):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                S = self.expr(d, S)
            return S
        if isinstance(e, COMP):
            self.expr(e.generators[0].iter, S)
            own = set()
            for g in e.generators:
                own |= stored([g.target])[0]
            for x in ast.walk(e):
                if isinstance(x, ast.NamedExpr):
                    S = S | {x.target.id}
            # bodies see the names of the function
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.loc and x.id not in own and x.id not in S and not any(isinstance(y, FN) for y in ast.walk(e)):
                    self.bad.append(x)
            return S
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.loc and e.id not in S:
                self.bad.append(e)
            return S
        if isinstance(e, ast.NamedExpr):
            S = self.expr(e.value, S)
            return S | {e.target.id}
        for c in ast.iter_child_nodes(e):
            S = self.expr(c, S)
        return S

    def target(self, t, S):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                self.expr(x, S)
        return S | {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

    def block(self, body, S):
        """-> names that may be assigned after the block, None when its end is never reached"""
        for s in body:
            if S is None:
                return None
            S = self.stmt(s, S)
        return S

    def join(self, *Ss):
        Ss = [s for s in Ss if s is not None]
        return set().union(*Ss) if Ss else None

    def stmt(self, s, S):
        if isinstance(s, FN):
            for d in s.decorator_list:
                S = self.expr(d, S)
            self.expr(ast.Lambda(args=s.args, body=ast.Constant(0)), S)
            return S | {s.name}
        if isinstance(s, ast.ClassDef):
            for d in s.bases + s.decorator_list:
                S = self.expr(d, S)
            return S | {s.name}
        if isinstance(s, ast.Assign):
            S = self.expr(s.value, S)
            for t in s.targets:
                S = self.target(t, S)
            return S
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                self.expr(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), S)
            else:
                self.expr(s.target, S)
            return self.expr(s.value, S)
        if isinstance(s, ast.AnnAssign):
            S = self.expr(s.value, S)
            return self.target(s.target, S) if s.value is not None else S
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                S = self.expr(c, S)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            self.jump[-1] = self.join(self.jump[-1], S)
            return None
        if isinstance(s, ast.If):
            S = self.expr(s.test, S)
            return self.join(self.block(s.body, S), self.block(s.orelse, S))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            S0 = self.expr(s.iter if not isinstance(s, ast.While) else s.test, S)
            for _ in range(2):
                nb = len(self.bad)
                self.jump.append(None)
                T0 = self.target(s.target, S0) if not isinstance(s, ast.While) else self.expr(s.test, S0)
                E = self.block(s.body, T0)
                J = self.jump.pop()
                nxt = self.join(S0, E, J)
                if nxt != S0:
                    del self.bad[nb:]        # names assigned in an earlier round
                    S0 = nxt
            forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
            E = self.block(s.orelse, S0) if not forever else None
            return self.join(E, J)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                S = self.expr(i.context_expr, S)
                if i.optional_vars is not None:
                    S = self.target(i.optional_vars, S)
            mid = set(S) | stored(s.body)[0]
            E = self.block(s.body, S)
            return E
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            inner = S | stored(s.body)[0]
            E = self.block(s.body, S)
            E = self.block(s.orelse, E) if E is not None else None
            outs = [E]
            for h in s.handlers:
                if h.type is not None:
                    self.expr(h.type, inner)
                outs.append(self.block(h.body, inner | ({h.name} if h.name else set())))
            R = self.join(*outs)
            if s.finalbody:
                allin = inner | set().union(*[stored(h.body)[0] for h in s.handlers] or [set()]) | stored(s.orelse)[0]
                F = self.block(s.finalbody, allin)
                if F is None:
                    return None
                R = None if R is None else R | (F - allin) | stored(s.finalbody)[0]
            return R
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.expr(ast.copy_location(ast.Name(t.id, ast.Load()), t), S)
                    S = S - {t.id}
            return S
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return S | {a.asname or a.name.split('.')[0] for a in s.names}
        if s.__class__.__name__ == 'Match':
            S = self.expr(s.subject, S)
            outs = [S]
            for c in s.cases:
                outs.append(self.block(c.body, S | stored([c.pattern])[0]))
            return self.join(*outs)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                S = self.expr(c, S)
        return S


def order(ctx, M, n):
    m = M.mods[n]
    count = [0, 0]

    def fn(node, where):
        s, g, nl = stored(node.body)
        p = set(params(node.args))
        loc = s - g - nl - p
        fl = Flow(loc)
        fl.jump = [None]
        fl.block(node.body, set(p))
        count[0] += 1
        for x in fl.bad:
            if id(x) in M.dead[n] or not getattr(x, 'lineno', 0):
                continue
            count[1] += 1
            con = '%s:%s local %s' % (m.rel, where, x.id)
            ctx.bad('order', con, 'line %d reads the local %s before anything can have been assigned to it' % (x.lineno, x.id))

    def walk(body, where):
        for b in ast.iter_child_nodes(body):
            w = where
            if isinstance(b, FN) and not isinstance(b, ast.Lambda):
                w = (where+'.' if where else '')+b.name
                fn(b, w)
            elif isinstance(b, ast.ClassDef):
                w = (where+'.' if where else '')+b.name
            walk(b, w)
    walk(m.tree, '')
    if not count[1]:
        ctx.ok('order', m.rel, '%d functions' % count[0])


# ---------------------------------------------------------------- classes
class Classes:
    def __init__(self, M):
        self.M, self.proj = M, M.proj
        self.cls = {}
        self.stores = {n: set() for n in M.mods}       # attributes stored on anything but self, per module
        for n, m in M.mods.items():
            for c in m.tree.body:
                if isinstance(c, ast.ClassDef) and m.defs.get(c.name) == ('class', c):
                    self.cls[(n, c.name)] = ('class', m, c)
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and not (isinstance(x.value, ast.Name) and x.value.id == 'self'):
                    self.stores[n].add(x.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                    self.stores[n].add(x.args[1].value)
        self.mros = {k: self.proj.mro(c) for k, c in self.cls.items()}
        self.subs = {k: [j for j, mr in self.mros.items() if any(x[2] is c[2] for x in mr)] for k, c in self.cls.items()}
        self.memo, self.fmemo = {}, {}

    def foreign(self, k):
        """attributes stored from outside by the modules that know a class of the hierarchy"""
        if k in self.fmemo:
            return self.fmemo[k]
        out = set()
        fam = [(c[1].name, c[2]) for j in self.subs[k] for c in self.mros[j]]
        for n, m in self.M.mods.items():
            know = False
            for mn, c in fam:
                r = self.proj.resolve(m, c.name)
                if n == mn or (r and r[0] == 'class' and r[2] is c) or any(d[0] in ('from', 'import') and (d[1] == mn or d[1:] == tuple(mn.rsplit('.', 1))) for d in m.defs.values()):
                    know = True
                    break
            if know:
                out |= self.stores[n]
        self.fmemo[k] = out
        return out

    def closed(self, c):
        """bases are project classes or object, and attributes are only set by name"""
        for b in c[2].bases:
            r = self.proj.resolve_expr(c[1], b)
            if isinstance(b, ast.Name) and b.id == 'object':
                continue
            if not r or r[0] != 'class':
                return False
        if c[2].keywords or c[2].decorator_list:
            return False
        for x in ast.walk(c[2]):
            if isinstance(x, ast.FunctionDef) and x.name in ('__getattr__', '__getattribute__'):
                return False
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and not (len(x.args) > 1 and isinstance(x.args[1], ast.Constant)):
                return False
            if isinstance(x, ast.Attribute) and x.attr == '__dict__' and isinstance(x.value, ast.Name) and x.value.id == 'self':
                return False
        return True

    def own(self, c):
        k = id(c[2])
        if k not in self.memo:
            s, _, _ = stored(c[2].body)
            for x in ast.walk(c[2]):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                    s.add(x.attr)
            self.memo[k] = s
        return self.memo[k]

    def attrs(self, k):
        """attributes an object of this very class can have; None when not known"""
        out = set(self.foreign(k))
        for c in self.mros[k]:
            if not self.closed(c):
                return None
            out |= self.own(c)
        return out

    def methods(self, k):
        """[(class, function)] run for objects of this class"""
        out, seen = [], set()
        for c in self.mros[k]:
            for f in c[2].body:
                if isinstance(f, ast.FunctionDef) and f.name not in seen:
                    seen.add(f.name)
                    out.append((c, f))
        return out


def self_uses(f):
    if not f.args.args or any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in f.decorator_list):
        return None, []
    me = f.args.args[0].arg
    out = []

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, FN) and me in params(c.args):
                continue
            if isinstance(c, ast.ClassDef):
                continue
            if isinstance(c, ast.Attribute) and isinstance(c.value, ast.Name) and c.value.id == me and isinstance(c.ctx, ast.Load):
                out.append(c)
            walk(c)
    walk(f)
    return me, out


def attributes(ctx, C):
    for k, c in sorted(C.cls.items()):
        leafs = [C.attrs(j) for j in C.subs[k]]
        if any(x is None for x in leafs):
            ctx.undecided('attributes', '%s:%s' % (c[1].rel, k[1]), 'attributes of this class are set by computed names')
            continue
        allof = set().union(*leafs)
        n = bad = 0
        for f in c[2].body:
            if not isinstance(f, ast.FunctionDef):
                continue
            me, uses = self_uses(f)
            guarded = guards(f, me)
            for u in uses:
                if id(u) in C.M.dead[k[0]]:
                    continue
                n += 1
                if u.attr in allof or (u.attr.startswith('__') and u.attr.endswith('__')) or u.attr in guarded:
                    continue
                bad += 1
                con = '%s:%s.%s attribute %s' % (c[1].rel, k[1], f.name, u.attr)
                ctx.bad('attributes', con, 'line %d reads %s.%s, which no class of the hierarchy provides or sets' % (u.lineno, me, u.attr))
        if not bad:
            ctx.ok('attributes', '%s:%s' % (c[1].rel, k[1]), '%d reads' % n)


def held(ctx, M, C):
    """attributes read from objects kept in own attributes or locals that are made by project constructors"""
    every = set().union(*C.stores.values())
    for k in C.cls:
        every |= C.attrs(k) or set()

    def made(m, v):
        """-> class key for a constructor call, '' for None, None otherwise"""
        if isinstance(v, ast.Constant) and v.value is None:
            return ''
        r = M.proj.resolve_expr(m, v.func) if isinstance(v, ast.Call) else None
        k = (r[1].name, r[2].name) if r and r[0] == 'class' else None
        return k if k in C.cls else None

    def check(m, where, u, ks):
        ks = set(ks) - {''}
        known = [C.attrs(k) for k in ks if k is not None]
        if not known or any(x is None for x in known) or u.attr.startswith('__'):
            return None
        if any(u.attr in x for x in known) or (None in ks and u.attr in every):
            return True
        con = '%s:%s attribute %s' % (m.rel, where, u.attr)
        ctx.bad('attributes', con, 'line %d reads %s, which %s does not have' % (u.lineno, ast.unparse(u), ' or '.join(sorted(k[1] for k in ks if k))))
        return False
    for k, c in sorted(C.cls.items()):
        st = {}
        for j in C.subs[k]:
            for d in C.mros[j]:
                for x in ast.walk(d[2]):
                    for t in x.targets if isinstance(x, ast.Assign) else []:
                        for y in ast.walk(t):
                            if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and isinstance(y.value, ast.Name) and y.value.id == 'self':
                                st.setdefault(y.attr, []).append(made(d[1], x.value) if y is t else None)
        n = bad = 0
        for f in c[2].body:
            if not isinstance(f, ast.FunctionDef):
                continue
            me, _ = self_uses(f)
            g = guards(f, me)
            for u in ast.walk(f):
                if isinstance(u, ast.Attribute) and isinstance(u.ctx, ast.Load) and isinstance(u.value, ast.Attribute) and isinstance(u.value.value, ast.Name) and u.value.value.id == me \
                        and u.value.attr in st and id(u) not in M.dead[k[0]] and u.attr not in g and u.value.attr not in C.foreign(k):
                    r = check(c[1], '%s.%s' % (k[1], f.name), u, st[u.value.attr])
                    n += r is not None
                    bad += r is False
        if n and not bad:
            ctx.ok('attributes', '%s:%s objects it holds' % (c[1].rel, k[1]), '%d reads' % n)
    for nm, m in sorted(M.mods.items()):
        n = bad = 0
        for f in ast.walk(m.tree):
            if not isinstance(f, ast.FunctionDef) or id(f) in M.dead[nm]:
                continue
            stores = {}
            for x in ast.walk(f):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    stores.setdefault(x.id, []).append(None)
            for x in ast.walk(f):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                    y = x.targets[0].id
                    stores[y].remove(None)
                    stores[y].append(made(m, x.value))
            ps = {p for g in ast.walk(f) if isinstance(g, FN) for p in params(g.args)}
            for u in ast.walk(f):
                if isinstance(u, ast.Attribute) and isinstance(u.ctx, ast.Load) and isinstance(u.value, ast.Name) and u.value.id in stores and u.value.id not in ps \
                        and None not in stores[u.value.id] and id(u) not in M.dead[nm]:
                    r = check(m, f.name, u, stores[u.value.id])
                    n += r is not None
                    bad += r is False
        if n and not bad:
            ctx.ok('attributes', '%s locals' % m.rel, '%d reads' % n)


def guards(f, me):
    """attributes whose presence is tested with hasattr/getattr or an AttributeError handler"""
    out = set()
    for x in ast.walk(f):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr') and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
            out.add(x.args[1].value)
        if isinstance(x, ast.Try) and any(h.type is None or 'AttributeError' in ast.dump(h.type) or "'Exception'" in ast.dump(h.type) for h in x.handlers):
            for b in x.body:
                for y in ast.walk(b):
                    if isinstance(y, ast.Attribute):
                        out.add(y.attr)
    return out


# ---------------------------------------------------------------- signatures
KEEP = {'staticmethod', 'classmethod', 'njit', 'jit', 'property', 'contextmanager'}


def sig_ok(f):
    """decorators leave the signature as it is"""
    for d in f.decorator_list:
        x = d.func if isinstance(d, ast.Call) else d
        nm = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
        if nm not in KEEP:
            return False
    return True


def binds(a, npos, kws, star, dstar, bound):
    """None when the call binds, else what is wrong"""
    pos = [x.arg for x in a.posonlyargs + a.args]
    if bound:
        if not pos and not a.vararg:
            return 'takes no argument, but is called on an object'
        pos = pos[1:]
    only = [x.arg for x in a.posonlyargs][1 if bound else 0:]
    nd = len(a.defaults)
    kwo = [x.arg for x in a.kwonlyargs]
    kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    if npos > len(pos) and not a.vararg:
        return 'takes %d positional arguments but %d are given' % (len(pos), npos)
    given = set(pos[:npos])
    for k in kws:
        if k in only or (k not in pos and k not in kwo):
            if not a.kwarg:
                return 'has no argument %s' % k
        elif k in given:
            return 'is given %s twice' % k
        given.add(k)
    if not star and not dstar:
        req = pos[:len(pos)-nd] if nd else pos
        miss = [x for x in list(req) + kwreq if x not in given]
        if miss:
            return 'is called without %s' % ', '.join(miss)
    return None


def call_args(c):
    star = any(isinstance(x, ast.Starred) for x in c.args)
    npos = sum(1 for x in c.args if not isinstance(x, ast.Starred))
    return npos, [k.arg for k in c.keywords if k.arg], star, any(k.arg is None for k in c.keywords)


def lengths(f):
    """possible lengths of returned tuples; None when some result is not a tuple display"""
    out = set()

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, FN) or isinstance(c, ast.ClassDef):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                out.add(None)
            if isinstance(c, ast.Return):
                if isinstance(c.value, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in c.value.elts):
                    out.add(len(c.value.elts))
                else:
                    out.add(None)
            walk(c)
    walk(f)
    return None if None in out or not out else out


class Calls:
    def __init__(self, ctx, M, C):
        self.ctx, self.M, self.C, self.proj = ctx, M, C, M.proj
        self.memo, self.mc = {}, {}

    def model_classes(self, k, attr):
        """project classes whose objects the class stores in self.attr; None when something else may be stored"""
        if (k, attr) in self.mc:
            return self.mc[k, attr]
        out = self.mc[k, attr] = set()
        for c in self.C.mros[k]:
            for x in ast.walk(c[2]):
                if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and t.value.id == 'self' for t in x.targets):
                    r = self.proj.resolve_expr(c[1], x.value.func) if isinstance(x.value, ast.Call) else None
                    if r and r[0] == 'class':
                        out.add((r[1].name, r[2].name))
        return out

    def target(self, m, call, cls, f, local, me):
        """-> [(label, FunctionDef arguments, bound, node)] possible project targets; None when unknown"""
        fn = call.func
        if isinstance(fn, ast.Name):
            if fn.id in local:
                d = local[fn.id]
                return [(fn.id, d.args, False, d)] if d is not None and sig_ok(d) else None
            r = self.proj.resolve(m, fn.id)
            return self.of(r, fn.id)
        if isinstance(fn, ast.Attribute):
            v = fn.value
            if isinstance(v, ast.Name) and v.id in local:
                return None
            if isinstance(v, ast.Name) and me and v.id == me and cls is not None:
                k = (m.name, cls.name)
                if k not in self.C.cls or any(fn.attr in self.inst(j) for j in self.C.subs[k]):
                    return None
                out = []
                for j in self.C.subs[k]:
                    r = self.proj.method(self.C.cls[j], fn.attr)
                    if r is None:
                        continue
                    if not sig_ok(r[2]):
                        return None
                    dec = {getattr(d, 'id', None) for d in r[2].decorator_list}
                    if 'property' in dec:
                        return None
                    if all(r[2] is not x[3] for x in out):
                        out.append(('%s.%s' % (r[3][2].name, fn.attr), r[2].args, 'staticmethod' not in dec, r[2]))
                return out or None
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and cls is not None and not v.args:
                for c in self.C.mros.get((m.name, cls.name), [])[1:]:
                    for d in c[2].body:
                        if isinstance(d, ast.FunctionDef) and d.name == fn.attr and sig_ok(d):
                            return [('%s.%s' % (c[2].name, fn.attr), d.args, True, d)]
                return None
            if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and me and v.value.id == me and cls is not None and (m.name, cls.name) in self.C.cls:
                cs = self.model_classes((m.name, cls.name), v.attr)
                out = []
                for j in cs:
                    if j not in self.C.cls or fn.attr in self.inst(j):
                        return None
                    r = self.proj.method(self.C.cls[j], fn.attr)
                    if r is None or not sig_ok(r[2]):
                        return None
                    dec = {getattr(d, 'id', None) for d in r[2].decorator_list}
                    out.append(('%s.%s' % (r[3][2].name, fn.attr), r[2].args, 'staticmethod' not in dec, r[2]))
                return out or None
            r = self.proj.resolve_expr(m, fn)
            return self.of(r, fn.attr)
        return None

    def inst(self, k):
        """attributes set on objects, which hide methods"""
        if k in self.memo:
            return self.memo[k]
        out = set(self.C.foreign(k))
        for c in self.C.mros[k]:
            for x in ast.walk(c[2]):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                    out.add(x.attr)
        self.memo[k] = out
        return out

    def of(self, r, nm):
        if not r or r[0] not in ('func', 'class'):
            return None
        if r[0] == 'func':
            return [(nm, r[2].args, False, r[2])] if sig_ok(r[2]) else None
        if r[2].decorator_list or not all(self.C.closed(c) for c in self.proj.mro(r)):
            return None
        i = self.proj.method(r, '__init__')
        if i is None or any(isinstance(x, ast.FunctionDef) and x.name == '__new__' for c in self.proj.mro(r) for x in c[2].body):
            return None
        return [(nm, i[2].args, True, None)]

    def module(self, n):
        m = self.M.mods[n]
        ctx = self.ctx
        st = {'calls': 0, 'unp': 0, 'bad': 0}

        def locals_of(node, outer):
            s, g, nl = stored(node.body if isinstance(node.body, list) else [node.body])
            loc = dict(outer)
            for x in (s - g) | set(params(node.args)):
                loc[x] = None
            defs = {}
            if isinstance(node.body, list):
                for x in ast.walk(node):
                    if isinstance(x, ast.FunctionDef) and x is not node:
                        defs.setdefault(x.name, []).append(x)
                stores = [x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
                for x in node.body:
                    if isinstance(x, ast.FunctionDef) and len(defs[x.name]) == 1 and x.name not in stores and x.name not in params(node.args):
                        loc[x.name] = x
            return loc

        def visit(node, cls, f, local, me, where):
            if id(node) in self.M.dead[n]:
                return
            if isinstance(node, ast.ClassDef):
                for b in node.body:
                    visit(b, node if f is None else None, f, local, me, (where+'.' if where else '')+node.name)
                return
            if isinstance(node, FN):
                w = where if isinstance(node, ast.Lambda) else (where+'.' if where else '')+node.name
                loc = locals_of(node, local)
                me2 = me
                if f is None and cls is not None and not isinstance(node, ast.Lambda):
                    me2 = self_uses(node)[0]
                if me2 in loc and not (f is None and cls is not None):
                    me2 = me2 if me2 not in params(node.args) else None
                if me2:
                    loc.pop(me2, None)
                body = node.body if isinstance(node.body, list) else [node.body]
                for b in body:
                    visit(b, cls, node, loc, me2, w)
                return
            if isinstance(node, COMP):
                loc = dict(local)
                for g in node.generators:
                    for x in stored([g.target])[0]:
                        loc[x] = None
                for c in ast.iter_child_nodes(node):
                    visit(c, cls, f, loc, me, where)
                return
            if isinstance(node, ast.Call):
                t = self.target(m, node, cls, f, local, me)
                if t:
                    st['calls'] += 1
                    npos, kws, star, ds = call_args(node)
                    res = [(lab, binds(a, npos, kws, star, ds, bd)) for lab, a, bd, _ in t]
                    if all(x is not None for _, x in res):
                        st['bad'] += 1
                        con = '%s:%s calls %s' % (m.rel, where or 'module', res[0][0])
                        ctx.bad('calls', con, 'line %d: %s %s' % (node.lineno, res[0][0], res[0][1]))
            if isinstance(node, ast.Assign) and isinstance(node.value, ast.Call) and len(node.targets) == 1 and isinstance(node.targets[0], (ast.Tuple, ast.List)) \
                    and not any(isinstance(x, ast.Starred) for x in node.targets[0].elts):
                t = self.target(m, node.value, cls, f, local, me)
                if t and all(x[3] is not None for x in t):
                    L = [lengths(x[3]) for x in t]
                    if all(x is not None for x in L):
                        st['unp'] += 1
                        k = len(node.targets[0].elts)
                        if all(k not in x for x in L):
                            st['bad'] += 1
                            con = '%s:%s unpacks %s' % (m.rel, where or 'module', t[0][0])
                            ctx.bad('calls', con, 'line %d: %d names for the %s values that %s returns' % (node.lineno, k, '/'.join(map(str, sorted(L[0]))), t[0][0]))
            for c in ast.iter_child_nodes(node):
                visit(c, cls, f, local, me, where)
        for b in m.tree.body:
            visit(b, None, None, {}, None, '')
        if not st['bad']:
            ctx.ok('calls', m.rel, '%d calls of project functions, %d unpacked results' % (st['calls'], st['unp']))


def native(M):
    """extension modules the build makes"""
    import os
    p = os.path.join(M.proj.repo, 'setup.py')
    out = set()
    if os.path.isfile(p):
        with open(p, encoding='utf-8') as f:
            t = ast.parse(f.read())
        out = {x.value.split('.')[-1].split('/')[-1] for x in ast.walk(t) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
    return out


def imports(ctx, M, n):
    """imported and dotted names of project modules exist"""
    m = M.mods[n]
    bad = k = 0
    optional = {id(y) for x in ast.walk(m.tree) if isinstance(x, ast.Try) and tolerates(x, ('ImportError', 'ModuleNotFoundError', 'Exception')) for b in x.body for y in ast.walk(b)}
    for x in ast.walk(m.tree):
        if id(x) in M.dead[n] or id(x) in optional:
            continue
        if isinstance(x, ast.ImportFrom):
            t = m._abs(x.module, x.level)
            if not t.startswith('coniii'):
                continue
            for a in x.names:
                k += 1
                tm = M.proj.module(t)
                if tm is None:
                    if t.split('.')[-1] in native(M):
                        continue
                    bad += 1
                    con = '%s imports %s' % (m.rel, t)
                    ctx.bad('imports', con, 'line %d imports from %s, which is not part of the package' % (x.lineno, t))
                    continue
                if a.name == '*':
                    continue
                A = M.all(t) if t in M.names else None
                if A is None or a.name in A or M.proj.module(t+'.'+a.name) is not None or M.open.get(t):
                    continue
                bad += 1
                con = '%s imports %s from %s' % (m.rel, a.name, t)
                ctx.bad('imports', con, 'line %d: %s has no %s' % (x.lineno, t, a.name))
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name):
            r = M.proj.resolve(m, x.value.id)
            if r and r[0] == 'mod' and r[1].name in M.names:
                k += 1
                t = r[1].name
                if x.attr in M.all(t) or M.open.get(t) or M.proj.module(t+'.'+x.attr) is not None or x.attr.startswith('__'):
                    continue
                if shadowed(m.tree, x):
                    continue
                bad += 1
                con = '%s uses %s.%s' % (m.rel, t, x.attr)
                ctx.bad('imports', con, 'line %d: module %s has no %s' % (x.lineno, t, x.attr))
    if not bad:
        ctx.ok('imports', m.rel, '%d names' % k)


def shadowed(tree, x):
    for f in ast.walk(tree):
        if isinstance(f, FN) and any(y is x for y in ast.walk(f)):
            s, g, _ = stored(f.body if isinstance(f.body, list) else [f.body])
            if x.value.id in (s | set(params(f.args))) - g:
                return True
    return False


def run(ctx):
    ctx.rule('names', 'every name that is read is bound in an enclosing scope, at module level, by an import or built in')
    ctx.rule('order', 'no local is read where nothing can have been assigned to it')
    ctx.rule('imports', 'imported and dotted names of project modules exist')
    ctx.rule('attributes', 'own attributes that are read are provided or set by a class of the hierarchy')
    ctx.rule('calls', 'calls of project functions, methods and constructors bind, unpacked tuples have the length that is returned')
    M = Mods(ctx)
    for n in sorted(M.mods):
        ctx.guard('names', n, loads, ctx, M, n)
        ctx.guard('order', n, order, ctx, M, n)
        ctx.guard('imports', n, imports, ctx, M, n)
    C = Classes(M)
    ctx.guard('attributes', 'classes', attributes, ctx, C)
    ctx.guard('attributes', 'objects held', held, ctx, M, C)
    K = Calls(ctx, M, C)
    for n in sorted(M.mods):
        ctx.guard('calls', n, K.module, n)
