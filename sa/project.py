"""Loading and name resolution of the analysed Python project (stdlib ast only)."""
import ast
import os

REPO = os.environ.get('VERIF_REPO', '/repo')


class AnalysisBroken(Exception):
    """the analysis cannot give an answer (a public anchor vanished, file does not parse, ...)"""


class Undecided(Exception):
    pass


class Module:
    def __init__(self, proj, name, path, src=None):
        self.proj, self.name, self.path = proj, name, path
        if src is None:
            with open(path, encoding='utf-8') as f:
                src = f.read()
        self.src = src
        try:
            self.tree = ast.parse(self.src, path)
        except SyntaxError as e:
            raise AnalysisBroken('%s does not parse: %s' % (path, e))
        self.rel = os.path.relpath(path, REPO)
        self.pkg = name.rsplit('.', 1)[0] if '.' in name else name
        if os.path.basename(path) == '__init__.py':
            self.pkg = name
        self.defs = {}        # name -> ('func', node) | ('class', node) | ('import', dotted) | ('from', mod, name) | ('const', expr)
        self.stars = []
        self._collect(self.tree.body)

    def _abs(self, module, level):
        if not level:
            return module or ''
        base = self.pkg.split('.')
        if level > 1:
            base = base[:-(level - 1)]
        return '.'.join(base + ([module] if module else []))

    def _collect(self, body, cond=False):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.defs[st.name] = ('func', st)
            elif isinstance(st, ast.ClassDef):
                self.defs[st.name] = ('class', st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.defs[a.asname or a.name.split('.')[0]] = ('import', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                m = self._abs(st.module, st.level)
                for a in st.names:
                    if a.name == '*':
                        self.stars.append(m)
                    else:
                        self.defs[a.asname or a.name] = ('from', m, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.defs.setdefault(t.id, ('const', st.value))
                        if not cond:
                            self.defs[t.id] = ('const', st.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        vals = st.value.elts if isinstance(st.value, (ast.Tuple, ast.List)) and len(st.value.elts) == len(t.elts) else [None] * len(t.elts)
                        if any(isinstance(e, ast.Starred) for e in list(t.elts) + [x for x in vals if x is not None]):
                            vals = [None] * len(t.elts)
                        for e, v in zip(t.elts, vals):
                            if isinstance(e, ast.Name):
                                self.defs[e.id] = ('const', v)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.defs[st.target.id] = ('const', st.value)
            elif isinstance(st, ast.If):
                self._collect(st.body, True)
                self._collect(st.orelse, True)
            elif isinstance(st, ast.Try):
                self._collect(st.body, True)
                for h in st.handlers:
                    self._collect(h.body, True)
                self._collect(st.orelse, True)
                self._collect(st.finalbody, True)
            elif isinstance(st, (ast.For, ast.While, ast.With)):
                self._collect(st.body, True)
                if isinstance(st, ast.For):
                    for e in ast.walk(st.target):
                        if isinstance(e, ast.Name):
                            self.defs.setdefault(e.id, ('const', None))


class Project:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self._res = {}

    def module(self, name):
        """dotted repo module -> Module or None"""
        if name in self.modules:
            return self.modules[name]
        p = os.path.join(self.repo, *name.split('.'))
        m = None
        if os.path.isfile(p + '.py'):
            m = Module(self, name, p + '.py')
        elif os.path.isfile(os.path.join(p, '__init__.py')):
            m = Module(self, name, os.path.join(p, '__init__.py'))
        self.modules[name] = m
        return m

    def resolve(self, mod, name, _seen=None):
        """resolve a module-level name -> ('func',Module,node) ('class',Module,node) ('const',Module,expr)
        ('lib',dotted) ('mod',Module) or None"""
        k = (mod.name, name)
        if k in self._res:
            return self._res[k]
        _seen = _seen or set()
        if k in _seen:
            return None
        _seen.add(k)
        r = self._resolve(mod, name, _seen)
        self._res[k] = r
        return r

    def _resolve(self, mod, name, seen):
        d = mod.defs.get(name)
        if d:
            if d[0] in ('func', 'class', 'const'):
                return (d[0], mod, d[1])
            if d[0] == 'import':
                m = self.module(d[1])
                return ('mod', m) if m else ('lib', d[1])
            if d[0] == 'from':
                m = self.module(d[1])
                if m is not None:
                    sub = self.module(d[1] + '.' + d[2])
                    r = self.resolve(m, d[2], seen)
                    if r:
                        return r
                    if sub:
                        return ('mod', sub)
                    return None
                return ('lib', d[1] + '.' + d[2])
        for s in reversed(mod.stars):
            m = self.module(s)
            if m is not None:
                if name.startswith('_') and name not in self.dunder_all(m):
                    continue
                al = self.dunder_all(m)
                if al and name not in al:
                    continue
                r = self.resolve(m, name, seen)
                if r:
                    return r
            else:
                ex = LIB_STAR.get(s)
                if ex and name in ex:
                    return ('lib', s + '.' + name)
        return None

    def dunder_all(self, m):
        d = m.defs.get('__all__')
        if d and d[0] == 'const' and isinstance(d[1], (ast.List, ast.Tuple)):
            return [e.value for e in d[1].elts if isinstance(e, ast.Constant)]
        return []

    def find(self, modname, qual):
        """module-level function/class.method node by name; None if absent"""
        m = self.module(modname)
        if m is None:
            return None
        parts = qual.split('.')
        r = self.resolve(m, parts[0])
        if not r or r[0] not in ('func', 'class'):
            return None
        if len(parts) == 1:
            return r
        return self.method(r, parts[1])

    def mro(self, cls):
        """('class',Module,node) -> list of repo classes in linearised order (simple DFS)"""
        out = [cls]
        for b in cls[2].bases:
            r = self.resolve_expr(cls[1], b)
            if r and r[0] == 'class':
                for x in self.mro(r):
                    if x not in out:
                        out.append(x)
        return out

    def resolve_expr(self, mod, e):
        if isinstance(e, ast.Name):
            return self.resolve(mod, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(mod, e.value)
            if b and b[0] == 'mod':
                return self.resolve(b[1], e.attr)
            if b and b[0] == 'lib':
                return ('lib', b[1] + '.' + e.attr)
        return None

    def method(self, cls, name):
        for c in self.mro(cls):
            for st in c[2].body:
                if isinstance(st, ast.FunctionDef) and st.name == name:
                    return ('func', c[1], st, c)
        return None

    def class_attr(self, cls, name):
        for c in self.mro(cls):
            for st in c[2].body:
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name) and t.id == name:
                            return c[1], st.value
        return None

    def source_modules(self):
        """all non-test package modules"""
        out = []
        for root, dirs, files in os.walk(os.path.join(self.repo, 'coniii')):
            dirs.sort()
            for f in sorted(files):
                if f.endswith('.py') and not f.startswith('test'):
                    rel = os.path.relpath(os.path.join(root, f), self.repo)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    out.append(rel)
        return out


LIB_STAR = {
    'scipy.special': {'binom', 'logsumexp', 'factorial', 'gamma', 'comb', 'expit'},
}
