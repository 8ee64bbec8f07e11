"""helpers for solver rules: solver objects, and optimiser calls whose objective is interpreted at a vector of symbols"""
from .. import terms as T
from .. import interp as I
from .. import libmodel as LM
from ..project import Undecided
from .common import *

SOL = 'coniii.solvers'


class Opt:
    """one call of an optimiser: the objective was interpreted at the symbols <name>[0..m-1]"""

    def __init__(self, k, kind, m, outs, x0, kw, line, fails=()):
        self.fails = list(fails)
        self.k, self.kind, self.m, self.outs, self.x0, self.kw, self.line = k, kind, m, outs, x0, kw, line

    def p(self, i):
        return idx('p%d' % self.k, i)

    def sol(self, i):
        return idx('sol%d' % self.k, i)


def flat(it, st, v):
    """elements of a one-dimensional value, or None"""
    a = it.arr(st, v)
    if a is None or len(a[0]) != 1 or T.int_val(a[0][0]) is None:
        return None
    return [a[1]((T.num(i),)) for i in range(T.int_val(a[0][0]))]


def optimiser(kind):
    def h(it, st, a, kw, node, f):
        fun = a[0] if a else kw.get('fun', kw.get('func'))
        x0 = a[1] if len(a) > 1 else kw.get('x0')
        x = flat(it, st, x0) if x0 is not None else None
        if x is None:
            raise Undecided('optimiser called with an unmodelled starting point')
        m = len(x)
        k = sum(1 for e in st.events if e[0] == 'opt')
        outs = []
        npc, nev = len(st.pc), len(st.events)
        raised = it.raised
        it.raised = []
        s = st.copy()
        # the objective is called many times: a first call must not change what the second one returns
        firsts = it.call(s, fun, [it.sym_array(s, 'q%d' % k, (num(m),))], {}, node)
        for s1, _ in firsts:
            outs += it.call(s1, fun, [it.sym_array(s1, 'p%d' % k, (num(m),))], {}, node)
        fails = ['raises %s' % sg[1] for s1, sg in it.raised if len(s1.pc) == npc]
        it.raised = raised
        jac = kw.get('jac', a[4] if len(a) > 4 and kind == 'minimize' else kw.get('fprime'))
        hess = kw.get('fhess', kw.get('hess'))
        if kind == 'fmin':
            jac = a[2] if len(a) > 2 else jac
        res = []
        for s2, v in outs:
            n = len(s2.events)
            r = {'val': v, 'grad': None, 'hess': None, 'st': s2}
            if isinstance(v, I.Tup) and len(v.items) == 2:
                r['val'], r['grad'] = v.items
                r['pair'] = True
            for nm, g in (('grad', jac), ('hess', hess)):
                if g is not None and not I.is_term(g):
                    z = it.call(s2, g, [it.sym_array(s2, 'p%d' % k, (num(m),))], {}, node)
                    if len(z) == 1:
                        r[nm] = z[0][1]
            res.append(r)
        for r in res:
            o = [e[1] for e in r['st'].events[nev:] if e[0] == 'oob']
            if o and len(r['st'].pc) == npc:
                fails.append(o[0])
        st.events.append(('opt', Opt(k, kind, m, res, x, dict(kw, jac=jac), getattr(node, 'lineno', 0), fails)))
        sol = it.sym_array(st, 'sol%d' % k, (num(m),))
        if kind == 'fmin':
            return sol
        d = it.alloc(st, I.DictC({('str', 'x'): sol, ('str', 'success'): T.TRUE, ('str', 'fun'): ('sym', 'fun%d' % k)}))
        st.heap[d.id].attrdict = True
        return d
    return h


def engine(ctx, unroll=4096, lib=None):
    t = dict(LM.TABLE)
    t['scipy.optimize.minimize'] = optimiser('minimize')
    t['scipy.optimize.root'] = optimiser('root')
    t['scipy.optimize.fsolve'] = optimiser('fmin')
    t['scipy.optimize.fmin_ncg'] = optimiser('fmin')
    t.update(lib or {})
    return I.Interp(ctx.proj, unroll=unroll, lib=t)


def const_mat(it, st, rows, dtype='int'):
    rows = [list(r) for r in rows]
    els = [[num(x) for x in r] for r in rows]

    def fn(q):
        i, j = (T.int_val(x) for x in q)
        if i is None or j is None:
            return ('fn', 'data', q[0], q[1])
        return els[i][j]
    return it.new_arr(st, (num(len(rows)), num(len(rows[0]))), fn, dtype)


def build(ctx, it, st, mod, cls, args, kw):
    """instances the constructor can leave -> [(state, object)]; conditions nothing is known about are dropped (they only guard warnings)"""
    r = ctx.find(mod, cls)
    it.raised = []
    res = it.call(st, I.Cls(r), args, kw)
    if not res:
        raise Undecided('constructor of %s' % cls)
    return res


def member(it, st, o, name):
    f = it.getattr(st, o, name)
    if not isinstance(f, I.Func):
        raise Undecided('method ' + name)
    return f


def opts(s):
    return [e[1] for e in s.events if e[0] == 'opt']
