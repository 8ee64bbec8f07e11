"""Equality of rational functions (with exponentials as independent generators): both sides are brought over a common
denominator and the difference of the numerators is expanded.  exp(a + k*log X) is rewritten to exp(a)*X^k first."""
from fractions import Fraction
from . import terms as T
from . import facts as FX


class TooBig(Exception):
    pass


def _clean(t):
    """exp of logarithms"""
    def f(a):
        if a[0] == 'fn' and a[1] == 'exp':
            p = T.to_poly(a[2])
            rest, out = {}, T.ONE
            hit = False
            for m, c in p.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0][:2] == ('fn', 'log') and c == int(c):
                    out = T.mul(out, T.power(m[0][0][2], int(c)))
                    hit = True
                else:
                    rest[m] = c
            if hit:
                return T.mul(T.exp(T.from_poly(rest)), out)
        return a
    for _ in range(3):
        u = T.map_term(t, f)
        if u == t:
            return t
        t = u
    return t


def frac(t, limit=20000):
    """(numerator term, {denominator factor: power})"""
    if t[0] != 'P':
        return _atom(t, 1, limit)
    parts = []
    for m, c in t[1]:
        n, d = T.num(c), {}
        for a, p in m:
            if isinstance(p, (int, Fraction)) and p == int(p):
                an, ad = _atom(a, int(p), limit)
            else:
                an, ad = T.from_poly({((a, p),): Fraction(1)}), {}
            n = T.mul(n, an)
            for k, q in ad.items():
                d[k] = d.get(k, 0) + q
        parts.append((n, d))
    return _sum(parts, limit)


def _sum(parts, limit):
    if not parts:
        return T.ZERO, {}
    l = {}
    for _, d in parts:
        for k, q in d.items():
            l[k] = max(l.get(k, 0), q)
    ns = []
    for n, d in parts:
        for k, q in l.items():
            for _ in range(q - d.get(k, 0)):
                n = T.mul(n, k)
                if n[0] == 'P' and len(n[1]) > limit:
                    raise TooBig()
        ns.append(n)
    return T.addn(ns), l


def _atom(a, p, limit):
    if a[0] == 'grp':
        n, d = frac(a[1], limit)
        if p > 0:
            return T.power(n, p), {k: q * p for k, q in d.items()}
        p = -p
        num = T.ONE
        for k, q in d.items():
            num = T.mul(num, T.power(k, q * p))
        return _over(num, n, p)
    if p < 0:
        return T.ONE, {a: -p}
    return T.power(a, p), {}


def _over(num, den, p):
    """num / den^p with monomials of the denominator split off"""
    d = T.to_poly(den)
    if len(d) == 1:
        (m, c), = d.items()
        num = T.scale(num, Fraction(1) / c ** p)
        out = {}
        for a, q in m:
            if a[:2] == ('fn', 'exp'):
                num = T.mul(num, T.exp(T.scale(a[2], -q * p)))
            elif q == int(q) and q > 0:
                out[a] = int(q) * p
            else:
                num = T.mul(num, T.from_poly({((a, -q * p),): Fraction(1)}))
        return num, out
    lead = next(iter(d.values()))
    return T.scale(num, Fraction(1) / lead ** p), {T.scale(den, Fraction(1) / lead): p}


def same(a, b, limit=20000):
    """True if a and b are the same rational function, False if they differ as such, None if too large.
    Atoms other than exponentials are treated as independent."""
    try:
        a, b = _clean(a), _clean(b)
        if a == b:
            return True
        n, _ = _sum([frac(a, limit), (lambda x: (T.neg(x[0]), x[1]))(frac(b, limit))], limit)
        if n != T.ZERO:
            n = FX.current().simplify(n)
        return n == T.ZERO
    except TooBig:
        return None
