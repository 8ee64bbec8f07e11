"""symbolic differentiation of canonical terms"""
from fractions import Fraction
from . import terms as T


class NoDerivative(Exception):
    pass


def d(t, v):
    """derivative of the term t by the leaf v"""
    if t == v:
        return T.ONE
    if not T.contains(t, v):
        return T.ZERO
    h = t[0]
    if h == 'P':
        out = []
        for m, c in t[1]:
            for k, (a, p) in enumerate(m):
                da = d(a, v)
                if da == T.ZERO:
                    continue
                rest = T.from_poly({tuple(m[:k] + m[k + 1:]): Fraction(c) * Fraction(p)})
                if p != 1:
                    rest = T.mul(rest, T.from_poly({((a, p - 1),): Fraction(1)}))
                out.append(T.mul(rest, da))
        return T.addn(out)
    if h == 'grp':
        return d(t[1], v)
    if h == 'ite':
        if T.contains(t[1], v):
            raise NoDerivative('condition depends on the parameter')
        return T.ite(t[1], d(t[2], v), d(t[3], v))
    if h == 'sum':
        return T.mk_sum(t[1], t[2], d(t[3], v))
    if h == 'fn' and len(t) == 3:
        x = t[2]
        dx = d(x, v)
        if t[1] == 'exp':
            return T.mul(t, dx)
        if t[1] == 'log':
            return T.div(dx, x)
        if t[1] == 'log1p':
            return T.div(dx, T.add(T.ONE, x))
        if t[1] == 'sqrt':
            return T.div(dx, T.scale(t, 2))
        if t[1] == 'tanh':
            return T.mul(dx, T.sub(T.ONE, T.mul(t, t)))
        if t[1] == 'cosh':
            return T.mul(dx, ('fn', 'sinh', x))
        if t[1] == 'sinh':
            return T.mul(dx, ('fn', 'cosh', x))
    raise NoDerivative('%s' % (t[1] if h == 'fn' else h))
