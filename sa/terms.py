"""Term algebra used as the value domain of the abstract interpreter.

A scalar term is a hashable tuple.  Arithmetic is kept in a canonical sum-of-monomials form:
    ('P', ((monomial, coeff), ...))      monomial = ((atom, power), ...)   coeff = Fraction
A lone atom with coefficient 1 is stored as the atom itself; everything that is not 'P' is an atom.
Equality of two terms that contain only interpreted operations is decided by comparing canonical
forms.  There is no solver and nothing is evaluated on concrete inputs.
"""
from fractions import Fraction
import itertools
import math

F0, F1 = Fraction(0), Fraction(1)
ZERO = ('P', ())
NONE = ('none',)
TRUE = ('T',)
FALSE = ('F',)

_key_cache = {}


def key(t):
    """total order on terms (structural)"""
    k = _key_cache.get(t)
    if k is None:
        k = _key_cache[t] = repr(t)
    return k


def num(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float):
        if c != c:
            return ('fn', 'nan')
        if c in (float('inf'), float('-inf')):
            return ('fn', 'inf') if c > 0 else mul(num(-1), ('fn', 'inf'))
        c = Fraction(repr(c))
    c = Fraction(c)
    if c == 0:
        return ZERO
    return ('P', (((), c),))


ONE = num(1)


def is_num(t):
    return t[0] == 'P' and (t[1] == () or (len(t[1]) == 1 and t[1][0][0] == ()))


def num_val(t):
    """Fraction value of a numeric constant term, else None"""
    if t[0] != 'P':
        return None
    if t[1] == ():
        return F0
    if len(t[1]) == 1 and t[1][0][0] == ():
        return t[1][0][1]
    return None


def int_val(t):
    v = num_val(t)
    if v is not None and v.denominator == 1:
        return int(v)
    return None


def sym(name):
    return ('sym', name)


def to_poly(t):
    if t[0] == 'P':
        return dict(t[1])
    if t == TRUE:
        return {(): F1}
    if t == FALSE:
        return {}
    return {((t, 1),): F1}


def from_poly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) == 1:
        (m, c) = items[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    if len(items) > 1:
        items.sort(key=lambda mc: key(mc[0]))
    return ('P', tuple(items))


def add(a, b):
    if a == ZERO:
        return b
    if b == ZERO:
        return a
    d = to_poly(a)
    d = dict(d)
    for m, c in to_poly(b).items():
        d[m] = d.get(m, F0) + c
    return from_poly(d)


def addn(ts):
    d = {}
    for t in ts:
        for m, c in to_poly(t).items():
            d[m] = d.get(m, F0) + c
    return from_poly(d)


def scale(t, c):
    c = Fraction(c)
    if c == 0:
        return ZERO
    return from_poly({m: v * c for m, v in to_poly(t).items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, p in m2:
        d[a] = d.get(a, 0) + p
    return _norm_mono(d)


def _norm_mono(d):
    ex = [(a, p) for a, p in d.items() if p != 0 and a[0] == 'fn' and a[1] == 'exp']
    items = [(a, p) for a, p in d.items() if p != 0]
    if ex and (len(ex) > 1 or ex[0][1] != 1):
        # exp(x)^p exp(y)^q = exp(p x + q y)
        items = [(a, p) for a, p in items if not (a[0] == 'fn' and a[1] == 'exp')]
        arg = addn([scale(a[2], p) for a, p in ex])
        if arg != ZERO:
            items.append((('fn', 'exp', arg), 1))
    items.sort(key=lambda ap: key(ap[0]))
    return tuple(items)


_INF = ((('fn', 'inf'), 1),)


def exp(t):
    if t[0] == 'P' and any(m == _INF and c < 0 for m, c in t[1]) and not any(a == ('fn', 'inf') for m, c in t[1] if m != _INF for a, _ in m):
        return ZERO
    return ONE if t == ZERO else ('fn', 'exp', t)


def log(t):
    if t == ONE:
        return ZERO
    p = to_poly(t)
    if len(p) == 1:
        # log of a single monomial exp(x) * c : only the pure exponential is rewritten
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][0][0] == 'fn' and m[0][0][1] == 'exp' and m[0][1] == 1:
            return m[0][0][2]
    return ('fn', 'log', t)


# atoms known to be idempotent (0/1 valued) or involutive (+-1 valued) can be registered by the rules
def mul(a, b):
    if a == ZERO or b == ZERO:
        return ZERO
    va = num_val(a) if a[0] == 'P' else None
    if va is not None:
        return scale(b, va)
    vb = num_val(b) if b[0] == 'P' else None
    if vb is not None:
        return scale(a, vb)
    pa, pb = to_poly(a), to_poly(b)
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono_mul(m1, m2)
            d[m] = d.get(m, F0) + c1 * c2
    return from_poly(d)


def inv(t):
    v = num_val(t) if t[0] == 'P' else None
    if v is not None:
        if v == 0:
            return ('fn', 'inf')
        return num(1 / v)
    d = to_poly(t)
    if len(d) == 1:
        (m, c), = d.items()
        d2 = {a: -p for a, p in m}
        if len(d2) == 1:
            (a, p), = d2.items()
            if a[0] == 'grp' and p > 0:
                return scale(power(a[1], p), 1 / c)
        return from_poly({_norm_mono(d2): 1 / c})
    # pull out leading coefficient so that a scaled polynomial gives the same atom
    items = t[1]
    lead = items[0][1]
    base = scale(t, 1 / lead)
    return from_poly({((base_atom(base), -1),): 1 / lead})


def base_atom(t):
    """wrap a multi-term polynomial as an atom (only ever used with negative/non-integer power)"""
    if t[0] != 'P':
        return t
    return ('grp', t)


def div(a, b):
    if b == ZERO:
        return ('fn', 'div0', a)
    if a == b:
        return ONE
    # exact multiple?
    r = exact_ratio(a, b)
    if r is not None:
        return num(r)
    return mul(a, inv(b))


def exact_ratio(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) != len(pb) or not pa:
        return None
    r = None
    for m, c in pa.items():
        if m not in pb:
            return None
        q = c / pb[m]
        if r is None:
            r = q
        elif r != q:
            return None
    return r


def power(a, n):
    if n == 0:
        return ONE
    if n < 0:
        return inv(power(a, -n))
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


# ---------------------------------------------------------------- integer-valued polynomials
def atoms_of_poly(t):
    s = set()
    for m, _ in to_poly(t).items():
        for a, p in m:
            s.add(a)
    return s


_int_atom_pred = []


def is_int_atom(a):
    if a[0] == 'sym':
        return a[1] in INT_SYMS
    if a[0] == 'bv':
        return True
    if a[0] in ('floordiv', 'mod', 'len', 'T', 'F'):
        return True
    if a[0] == 'idx':
        return a[1] in INT_ARRS
    return False


INT_SYMS = set()
INT_ARRS = set()


def is_int_valued(t):
    """True if t is a polynomial in integer atoms taking integer values for all integer arguments
    (decided exactly: an integer-valued polynomial of degree d in each variable is determined by its
    values on {0..d} per variable, expressed in the binomial basis)."""
    p = to_poly(t)
    ats = sorted(atoms_of_poly(t), key=key)
    for a in ats:
        if not is_int_atom(a):
            return False
    for m in p:
        if any(pw < 0 for _, pw in m):
            return False
    if all(c.denominator == 1 for c in p.values()):
        return True
    deg = {a: max([dict(m).get(a, 0) for m in p] + [0]) for a in ats}
    size = 1
    for a in ats:
        size *= deg[a] + 1
    if size > 20000:
        return False
    for pt in itertools.product(*[range(deg[a] + 1) for a in ats]):
        env = dict(zip(ats, pt))
        v = F0
        for m, c in p.items():
            x = c
            for a, pw in m:
                x *= Fraction(env[a]) ** pw
            v += x
        if v.denominator != 1:
            return False
    return True


def floordiv(a, b):
    va, vb = num_val(a), num_val(b)
    if va is not None and vb:
        return num(va // vb)
    f = closed_value(a)
    if f is not None and vb:
        k = math.floor(f / float(vb))
        if f / float(vb) - k > 1e-9 and k + 1 - f / float(vb) > 1e-9:
            return num(k)
    if vb:
        q = div(a, b)
        if is_int_valued(q):
            return q
        # (m*k + r)//k with integer polynomial part: split multiples
        if vb.denominator == 1 and vb > 0:
            intpart, rest = {}, {}
            for m, c in to_poly(q).items():
                mono = from_poly({m: F1})
                if c.denominator == 1 and is_int_valued(mono):
                    intpart[m] = c
                elif is_int_valued(mono):
                    fl = c.numerator // c.denominator
                    if fl:
                        intpart[m] = Fraction(fl)
                    rest[m] = c - fl
                else:
                    rest[m] = c
            if intpart:
                r = from_poly(rest)
                rr = mul(r, b)
                rv = num_val(rr)
                restt = num(rv // vb) if rv is not None else ('floordiv', rr, b)
                return add(from_poly(intpart), restt)
    return ('floordiv', a, b)


def mod(a, b):
    if is_cond(a):
        a = ite(a, ONE, ZERO)
    va, vb = num_val(a), num_val(b)
    if va is not None and vb:
        return num(va % vb)
    return ('mod', a, b)


# ---------------------------------------------------------------- conditions
def _canon_sign(t):
    p = t[1] if t[0] == 'P' else ((((t, 1),), F1),)
    # leading non-constant coefficient positive, scaled to 1
    for m, c in p:
        if m != ():
            return scale(t, 1 / abs(c)), (1 if c > 0 else -1)
    return t, 1


def closed_value(t):
    """float value of a constant built with roots, logarithms and exponentials, else None"""
    if t[0] == 'P':
        r = 0.0
        for m, c in t[1]:
            x = float(c)
            for a, p in m:
                if a[0] != 'fn' or not isinstance(p, (int, Fraction)):
                    return None
                v = closed_value(a)
                if v is None or (v == 0 and p < 0) or (v < 0 and p != int(p)):
                    return None
                x *= v ** (int(p) if p == int(p) else float(p))
            r += x
        return r
    if t[0] == 'fn' and len(t) == 3 and t[1] in ('sqrt', 'log', 'log2', 'log10', 'exp'):
        v = num_val(t[2])
        if v is None:
            return None
        v = float(v)
        if t[1] == 'sqrt':
            return None if v < 0 else v ** 0.5
        if t[1] == 'exp':
            return math.exp(v) if abs(v) < 600 else None
        return None if v <= 0 else getattr(math, t[1])(v)
    return None


def lt0(t):
    """t < 0"""
    v = num_val(t)
    if v is not None:
        return TRUE if v < 0 else FALSE
    f = closed_value(t)
    if f is not None and abs(f) > 1e-9:
        return TRUE if f < 0 else FALSE
    u, s = _canon_sign(t)
    return ('lt0', u)


def lt(a, b):
    return lt0(sub(a, b))


def gt(a, b):
    return lt0(sub(b, a))


def le(a, b):
    return lnot(gt(a, b))


def ge(a, b):
    return lnot(lt(a, b))


def _const_kind(t):
    if t[0] == 'P':
        return 'num' if is_num(t) else None
    if t[0] in ('str', 'none', 'T', 'F', 'type'):
        return t[0]
    return None


def eq(a, b):
    if a == b:
        return TRUE
    ka, kb = _const_kind(a), _const_kind(b)
    if ka and kb:
        na = ONE if a == TRUE else ZERO if a == FALSE else a
        nb = ONE if b == TRUE else ZERO if b == FALSE else b
        return TRUE if na == nb else FALSE
    if (ka in ('none', 'str', 'type')) or (kb in ('none', 'str', 'type')):
        # compare an unknown with a non-numeric constant
        if ka in ('none', 'str', 'type'):
            a, b = b, a
        if a[0] == 'P' or a[0] in ('fn', 'sum') :
            return FALSE
        return ('eqc', a, b)
    d = sub(a, b)
    v = num_val(d)
    if v is not None:
        return TRUE if v == 0 else FALSE
    f = closed_value(d)
    if f is not None and abs(f) > 1e-9:
        return FALSE
    u, s = _canon_sign(d)
    if s < 0:
        u = neg(u)
    return ('eq0', u)


def ne(a, b):
    return lnot(eq(a, b))


def lnot(c):
    if c == TRUE:
        return FALSE
    if c == FALSE:
        return TRUE
    if c[0] == 'not':
        return c[1]
    if c[0] == 'and':
        return lor([lnot(x) for x in c[1]])
    if c[0] == 'or':
        return land([lnot(x) for x in c[1]])
    # integers: not (t<0)  is kept symbolic; for integer t normalise  t>=0
    if c[0] == 'lt0' and is_int_valued(c[1]):
        # not (t < 0)  <=>  -t-1 < 0
        return ('lt0', sub(neg(c[1]), ONE))
    return ('not', c)


def land(cs):
    out = []
    for c in cs:
        if c == FALSE:
            return FALSE
        if c == TRUE:
            continue
        if c[0] == 'and':
            out.extend(c[1])
        else:
            out.append(c)
    s = []
    for c in out:
        if c not in s:
            s.append(c)
    for c in s:
        if lnot(c) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return ('and', tuple(sorted(s, key=key)))


def lor(cs):
    out = []
    for c in cs:
        if c == TRUE:
            return TRUE
        if c == FALSE:
            continue
        if c[0] == 'or':
            out.extend(c[1])
        else:
            out.append(c)
    s = []
    for c in out:
        if c not in s:
            s.append(c)
    for c in s:
        if lnot(c) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    return ('or', tuple(sorted(s, key=key)))


def is_cond(t):
    return t[0] in ('lt0', 'eq0', 'eqc', 'not', 'and', 'or', 'T', 'F', 'b')


def ite(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    if c[0] == 'not':
        return ite(c[1], b, a)
    # pull common additive structure: ite(c, x+y, x) stays; keep simple
    if a[0] == 'ite' and a[1] == c:
        a = a[2]
    if b[0] == 'ite' and b[1] == c:
        b = b[3]
    if a == b:
        return a
    return ('ite', c, a, b)


# ---------------------------------------------------------------- traversal
def map_term(t, f, onpoly=None):
    """bottom-up rewrite; f is applied to rebuilt atoms (non-'P' nodes) and may return any term; onpoly to every rebuilt polynomial"""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        h = t[0]
        if h == 'P':
            acc = []
            for m, c in t[1]:
                x = num(c)
                for a, p in m:
                    aa = go(a)
                    if aa[0] == 'grp':
                        aa = aa if p < 0 else aa[1]
                    if p > 0:
                        x = mul(x, power(aa, p))
                    else:
                        g = aa[1] if aa[0] == 'grp' else aa
                        x = mul(x, inv(power(g, -p)))
                acc.append(x)
            r = addn(acc)
            if onpoly is not None and r[0] == 'P':
                r = onpoly(r)
        else:
            r = f(rebuild(t, go))
        memo[t] = r
        return r
    return go(t)


def rebuild(t, go):
    h = t[0]
    if h in ('sym', 'str', 'none', 'T', 'F', 'type', 'b', 'opaque', 'bv'):
        return t
    if h == 'not':
        return lnot(go(t[1]))
    if h == 'and':
        return land([go(x) for x in t[1]])
    if h == 'or':
        return lor([go(x) for x in t[1]])
    if h == 'lt0':
        return lt0(go(t[1]))
    if h == 'eq0':
        return eq(go(t[1]), ZERO)
    if h == 'eqc':
        return eq(go(t[1]), go(t[2]))
    if h == 'ite':
        return ite(go(t[1]), go(t[2]), go(t[3]))
    if h == 'idx':
        return ('idx', t[1], tuple(go(x) for x in t[2]))
    if h == 'floordiv':
        return floordiv(go(t[1]), go(t[2]))
    if h == 'mod':
        return mod(go(t[1]), go(t[2]))
    if h == 'grp':
        return ('grp', go(t[1]))
    if h == 'sum':
        # ('sum', nb, (constraints...), body)  with de Bruijn-free named bvs
        return mk_sum(t[1], [go(c) for c in t[2]], go(t[3]))
    out = []
    for x in t:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            out.append(go(x))
        elif isinstance(x, tuple):
            out.append(tuple(go(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in x))
        else:
            out.append(x)
    return tuple(out)


def subst(t, env):
    """replace atoms"""
    if not env:
        return t

    def f(a):
        return env.get(a, a)
    return map_term(t, f)


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple) or x in seen:
            continue
        seen.add(x)
        if x and isinstance(x[0], str):
            yield x
        for y in x:
            if isinstance(y, tuple):
                stack.append(y)


def contains(t, atom):
    for x in subterms(t):
        if x == atom:
            return True
    return False


def heads(t):
    return {x[0] for x in subterms(t)}


# ---------------------------------------------------------------- sums over integer domains
_bv_counter = itertools.count()


def fresh_bv(hint='i'):
    return ('bv', next(_bv_counter))


def _as_diff(c):
    """Constraint term (P<0 on integers) ->  list of linear inequality t<=0, i.e. t+1<=0 ; None if not linear"""
    if c[0] != 'lt0':
        return None
    return add(c[1], ONE)     # t<0  <=> t+1<=0


def mk_sum(bvs, cons, body):
    """Σ over integer binders bvs subject to cons (each ('lt0', P) ) of body, canonicalised.
    * distributes over +,  pulls out factors that do not mention the binders
    * binder-independent / unused binders are counted when the domain is a plain interval
    """
    bvs = tuple(bvs)
    cons = list(cons)
    for c in cons:
        if c == FALSE:
            return ZERO
    cons = [c for c in cons if c != TRUE]
    flat = []
    for c in cons:
        if c[0] == 'and':
            flat.extend(c[1])
        else:
            flat.append(c)
    cons = flat
    # equality constraints that pin a binder
    for c in list(cons):
        if c[0] == 'eq0':
            for b in bvs:
                s = solve_for(c[1], b)
                if s is not None:
                    rest = [subst(x, {b: s}) for x in cons if x is not c]
                    nb = tuple(x for x in bvs if x != b)
                    body2 = subst(body, {b: s})
                    if nb:
                        return mk_sum(nb, rest, body2)
                    cond = land(rest)
                    return mul_guard(cond, body2)
    if body == ZERO:
        return ZERO
    # merge nested sums appearing as single factor
    p = to_poly(body)
    out = []
    for m, c in p.items():
        out.append(scale(_sum_mono(bvs, cons, m), c))
    return addn(out)


def mul_guard(cond, body):
    if cond == TRUE:
        return body
    return ite(cond, body, ZERO)


def solve_for(t, b):
    """solve linear t==0 for binder b with unit coefficient"""
    p = to_poly(t)
    coef = None
    rest = {}
    for m, c in p.items():
        if m == ((b, 1),):
            coef = c
        elif any(a == b or contains(a, b) for a, _ in m):
            return None
        else:
            rest[m] = c
    if coef is None or abs(coef) != 1:
        return None
    return scale(from_poly(rest), -1 / coef)


def _sum_mono(bvs, cons, mono):
    inside, outside = [], []
    inner_sum = None
    for a, p in mono:
        if a[0] == 'ite' and p == 1 and a[3] == ZERO and any(contains(a[1], b) for b in bvs):
            # guarded term -> domain constraint
            rest = tuple((x, q) for x, q in mono if x != a)
            return mk_sum(bvs, list(cons) + [a[1]], mul(a[2], from_poly({rest: F1})))
        if a[0] == 'ite' and p == 1 and any(contains(a[1], b) for b in bvs):
            rest = tuple((x, q) for x, q in mono if x != a)
            rp = from_poly({rest: F1})
            return add(mk_sum(bvs, list(cons) + [a[1]], mul(a[2], rp)),
                       mk_sum(bvs, list(cons) + [lnot(a[1])], mul(a[3], rp)))
        if any(contains(a, b) for b in bvs):
            if a[0] == 'sum' and p == 1 and inner_sum is None:
                inner_sum = a
            else:
                inside.append((a, p))
        else:
            outside.append((a, p))
    out = from_poly({tuple(outside): F1})
    if inner_sum is not None:
        ren = {b: fresh_bv() for b in inner_sum[1]}
        ibv = tuple(ren[b] for b in inner_sum[1])
        icons = [subst(c, ren) for c in inner_sum[2]]
        ibody = subst(inner_sum[3], ren)
        body = mul(from_poly({tuple(inside): F1}), ibody)
        return mul(out, mk_sum(bvs + ibv, list(cons) + icons, body))
    body = from_poly({tuple(inside): F1})
    # drop binders not used in body nor in constraints shared with other binders
    used = list(bvs)
    factor = ONE
    changed = True
    cons = list(cons)
    while changed:
        changed = False
        for b in list(used):
            if contains(body, b):
                continue
            mine = [c for c in cons if contains(c, b)]
            others = [x for x in used if x != b]
            if any(contains(c, x) for c in mine for x in others):
                cnt = _interval_count(b, mine)
                if cnt is None:
                    continue
                # count depends on other binders: becomes part of the body
                body = mul(cnt, body)
                used = others
                cons = [c for c in cons if c not in mine] + _nonempty(b, mine)
                if not used:
                    return mul(out, mul_guard(land(cons), mul(factor, body)))
                return mul(mul(out, factor), mk_sum(used, cons, body))
            cnt = _interval_count(b, mine)
            if cnt is None:
                continue
            factor = mul(factor, cnt)
            used = others
            cons = [c for c in cons if c not in mine]
            changed = True
    if not used:
        return mul(out, mul(factor, mul_guard(land(cons), body)))
    cons = _reduce(used, cons)
    if cons == FALSE:
        return ZERO
    return mul(mul(out, factor), _canon_binders(used, cons, body))


def _nonempty(b, mine):
    return []


def _interval_count(b, mine):
    """number of integers b satisfying lo<=b<hi given exactly as two linear constraints"""
    los, his = [], []
    for c in mine:
        if c[0] != 'lt0':
            return None
        p = to_poly(c[1])
        cf = p.get(((b, 1),), F0)
        rest = from_poly({m: v for m, v in p.items() if m != ((b, 1),)})
        if contains(rest, b) or abs(cf) != 1:
            return None
        if cf == 1:
            his.append(neg(rest))          # b < -rest
        else:
            los.append(add(rest, ONE))     # -b + rest < 0 -> b > rest -> b>=rest+1
    if len(los) == 1 and len(his) == 1:
        return sub(his[0], los[0])
    return None


def _reduce(bvs, cons):
    """remove linear integer constraints implied by the others through difference-bound closure"""
    diffs = []
    other = []
    for c in cons:
        if c[0] == 'lt0':
            diffs.append(c)
        else:
            other.append(c)
    # nodes: binders and symbolic bounds, built from difference form  x - y <= k  (x,y monomials)
    forms = []
    nonlin = []
    for c in diffs:
        p = dict(to_poly(c[1]))
        k = p.pop((), F0)
        pos = [m for m, v in p.items() if v == 1]
        ng = [m for m, v in p.items() if v == -1]
        if len(pos) + len(ng) == len(p) and len(pos) <= 1 and len(ng) <= 1 and k.denominator == 1:
            x = pos[0] if pos else ()
            y = ng[0] if ng else ()
            forms.append((x, y, -k - 1, c))      # x - y + k <= -1
        else:
            nonlin.append(c)
    nodes = {()}
    for x, y, k, c in forms:
        nodes.add(x)
        nodes.add(y)

    def closure(fs):
        d = {}
        for x, y, k, c in fs:
            # x - y <= k ; edge y->x weight k
            if (y, x) not in d or d[(y, x)] > k:
                d[(y, x)] = k
        for w in nodes:
            for u in nodes:
                for v in nodes:
                    if (u, w) in d and (w, v) in d:
                        s = d[(u, w)] + d[(w, v)]
                        if (u, v) not in d or d[(u, v)] > s:
                            d[(u, v)] = s
        return d
    d = closure(forms)
    for u in nodes:
        if d.get((u, u), 0) < 0:
            return FALSE
    keep = list(forms)
    # drop duplicates / implied, deterministic order: try to drop constraints with more slack first
    for f in sorted(forms, key=lambda f: (key(f[3]))):
        trial = [g for g in keep if g is not f]
        dd = closure(trial)
        x, y, k, c = f
        if (y, x) in dd and dd[(y, x)] <= k:
            keep = trial
    # note: minimal difference-bound systems are unique up to zero-weight cycles, which do not occur
    # in the strict orderings used by the loops analysed here
    return [f[3] for f in keep] + nonlin + other


def _canon_binders(bvs, cons, body):
    """canonical binder names: try all orders for <=4 binders and take the least representation"""
    best = None
    bvs = list(bvs)
    orders = itertools.permutations(bvs) if len(bvs) <= 4 else [tuple(bvs)]
    depth = 0
    for x in itertools.chain(subterms(body), *[subterms(c) for c in cons]):
        if x[0] == 'sum':
            for b in x[1]:
                if isinstance(b[1], str):
                    depth = max(depth, int(b[1][1:].split('_')[0]) + 1)
    for order in orders:
        ren = {b: ('bv', 'c%d_%d' % (depth, i)) for i, b in enumerate(order)}
        # avoid capture: inner sums already canonical with the same names are closed terms
        body2 = _rename(body, ren)
        cons2 = tuple(sorted((_rename(c, ren) for c in cons), key=key))
        cand = ('sum', tuple(ren[b] for b in order), cons2, body2)
        k = key(cand)
        if best is None or k < best[0]:
            best = (k, cand)
    return best[1]


def _rename(t, ren):
    return subst(t, ren)
