"""Integer difference-bound facts and entailment (closure of x - y <= k constraints).

Used to discharge bounds conditions (0 <= q < n ...) while reading array contents."""
from fractions import Fraction
from . import terms as T


def _form(c):
    """lt0 term -> list of (x, y, k) meaning x - y <= k over monomials; None when not of that form"""
    if c[0] != 'lt0':
        return None
    p = dict(T.to_poly(c[1]))
    k = p.pop((), Fraction(0))
    pos = [m for m, v in p.items() if v == 1]
    ng = [m for m, v in p.items() if v == -1]
    if len(pos) + len(ng) != len(p) or len(pos) > 1 or len(ng) > 1 or k.denominator != 1:
        return None
    return (pos[0] if pos else (), ng[0] if ng else (), -k - 1)


class Facts:
    def __init__(self, conds=()):
        self.conds = []
        self.raw = set()
        self.bounds = {}
        self.nodes = {()}
        for c in conds:
            self._add(c)
        self._close()

    def _add(self, c):
        if c[0] == 'and':
            for x in c[1]:
                self._add(x)
            return
        if c in self.raw:
            return
        self.raw.add(c)
        self.conds.append(c)
        fs = []
        f = _form(c)
        if f:
            fs.append(f)
        if c[0] == 'eq0':
            for cc in (T.lt0(T.sub(c[1], T.ONE)), T.lt0(T.sub(T.neg(c[1]), T.ONE))):
                f = _form(cc)
                if f:
                    fs.append(f)
        for x, y, k in fs:
            self.nodes.add(x)
            self.nodes.add(y)
            if (y, x) not in self.bounds or self.bounds[(y, x)] > k:
                self.bounds[(y, x)] = k

    def _close(self):
        d = self.bounds
        ns = list(self.nodes)
        for w in ns:
            for u in ns:
                if (u, w) not in d:
                    continue
                for v in ns:
                    if (w, v) in d:
                        s = d[(u, w)] + d[(w, v)]
                        if (u, v) not in d or d[(u, v)] > s:
                            d[(u, v)] = s

    def plus(self, conds):
        conds = [c for c in conds if c not in self.raw]
        if not conds:
            return self
        f = Facts.__new__(Facts)
        f.conds = list(self.conds)
        f.raw = set(self.raw)
        f.bounds = dict(self.bounds)
        f.nodes = set(self.nodes)
        for c in conds:
            f._add(c)
        f._close()
        return f

    def inconsistent(self):
        return any(self.bounds.get((u, u), 0) < 0 for u in self.nodes)

    def upper(self, t):
        """upper bound of polynomial t of form sum of monomials using pairwise differences"""
        p = dict(T.to_poly(t))
        k = p.pop((), Fraction(0))
        pos, ng = [], []
        for m, v in p.items():
            if v.denominator != 1 or abs(v) > 6:
                return None
            (pos if v > 0 else ng).extend([m] * int(abs(v)))
        if len(pos) > 4 or len(ng) > 4:
            return None
        # match positives with negatives (or constant)
        size = max(len(pos), len(ng))
        pos += [()] * (size - len(pos))
        ng += [()] * (size - len(ng))
        best = None
        import itertools
        # also allow both to go against the constant
        def rec(ps, ns):
            if not ps:
                return Fraction(0)
            b = None
            x = ps[0]
            for i, y in enumerate(ns):
                w = Fraction(0) if x == y else self.bounds.get((y, x))
                if w is None and x != () and y != ():
                    w1, w2 = self.bounds.get(((), x)), self.bounds.get((y, ()))
                    if w1 is not None and w2 is not None:
                        w = w1 + w2
                if w is None:
                    continue
                r = rec(ps[1:], ns[:i] + ns[i + 1:])
                if r is not None and (b is None or w + r < b):
                    b = w + r
            return b
        r = rec(pos, ng)
        if r is None:
            return None
        return r + k

    def entails(self, c):
        """True / False(contradicted) / None"""
        if c == T.TRUE:
            return True
        if c == T.FALSE:
            return False
        if c in self.raw:
            return True
        n = T.lnot(c)
        if n in self.raw:
            return False
        if c[0] == 'lt0':
            u = self.upper(c[1])
            if u is not None and u < 0:
                return True
            l = self.upper(T.neg(c[1]))
            if l is not None and l <= 0:
                return False
            return None
        if c[0] == 'eq0':
            u = self.upper(c[1])
            l = self.upper(T.neg(c[1]))
            if u is not None and u < 0:
                return False
            if l is not None and l < 0:
                return False
            if u == 0 and l == 0:
                return True
            return None
        if c[0] == 'not':
            r = self.entails(c[1])
            return None if r is None else not r
        if c[0] == 'and':
            rs = [self.entails(x) for x in c[1]]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        if c[0] == 'or':
            rs = [self.entails(x) for x in c[1]]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        return None

    def simplify(self, t):
        def f(a):
            if a[0] == 'ite':
                r = self.entails(a[1])
                if r is True:
                    return a[2]
                if r is False:
                    return a[3]
            elif a[0] in ('lt0', 'eq0', 'not', 'and', 'or', 'eqc'):
                r = self.entails(a)
                if r is True:
                    return T.TRUE
                if r is False:
                    return T.FALSE
            return a
        return T.map_term(t, f)


_stack = [Facts()]


def current():
    return _stack[-1]


class using:
    def __init__(self, conds):
        self.f = current().plus(conds)

    def __enter__(self):
        _stack.append(self.f)
        return self.f

    def __exit__(self, *a):
        _stack.pop()
