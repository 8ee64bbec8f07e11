"""Abstract process pool: map applies the function to private copies of the items; nothing a worker does to objects that existed
before the call is visible afterwards (each worker is another process)."""
from . import terms as T
from . import interp as I


def private(it, st, v, memo=None):
    """deep copy, as made by sending a value to another process"""
    memo = {} if memo is None else memo
    if isinstance(v, I.Tup):
        return I.Tup([private(it, st, x, memo) for x in v.items])
    if isinstance(v, I.Func) and isinstance(v.selfv, I.Ref):
        return v.bind(private(it, st, v.selfv, memo))
    if isinstance(v, I.Ref):
        if v.id in memo:
            return memo[v.id]
        c = st.heap[v.id]
        if isinstance(c, I.ListC):
            r = it.alloc(st, I.ListC([], c.opaque))
            memo[v.id] = r
            n = I.ListC([private(it, st, x, memo) for x in c.items], c.opaque)
            n.isset = c.isset
            n.once = c.once
            st.heap[r.id] = n
            return r
        if isinstance(c, I.DictC):
            r = it.alloc(st, I.DictC({}, c.opaque))
            memo[v.id] = r
            n = I.DictC({k: private(it, st, x, memo) for k, x in c.items.items()}, c.opaque)
            if getattr(c, 'attrdict', False):
                n.attrdict = True
            st.heap[r.id] = n
            return r
        if isinstance(c, I.ObjC) and c.cls is not None:
            r = it.alloc(st, I.ObjC(c.cls, {}, c.name, c.dyn))
            memo[v.id] = r
            st.heap[r.id] = I.ObjC(c.cls, {k: private(it, st, x, memo) for k, x in c.attrs.items()}, c.name, c.dyn)
            return r
        if isinstance(c, (I.ArrC, I.View)):
            a = it.arr(st, v)
            if a is not None:
                memo[v.id] = it.new_arr(st, a[0], a[1], a[2])
                return memo[v.id]
    return v


def generators(st, v, seen=None):
    """names of the generators a value carries"""
    seen = set() if seen is None else seen
    if isinstance(v, I.Extern):
        return {v.name[4:]} if v.name.startswith('rng:') else set()
    if isinstance(v, I.Tup):
        return set().union(*[generators(st, x, seen) for x in v.items]) if v.items else set()
    if isinstance(v, I.Ref) and v.id not in seen:
        seen.add(v.id)
        c = st.heap[v.id]
        xs = c.items if isinstance(c, I.ListC) else c.items.values() if isinstance(c, I.DictC) else c.attrs.values() if isinstance(c, I.ObjC) else []
        out = set()
        for x in xs:
            out |= generators(st, x, seen)
        return out
    return set()


def pool_object(name='pool'):
    def do_map(star):
        def h(it, st, args, kw, node):
            f = args[0]
            xs = it.items_of(st, args[1]) if len(args) > 1 else None
            if xs is None:
                st.events.append(('pool', name, 'unknown items', getattr(node, 'lineno', 0)))
                return I.opaque('pool.map over unknown items')
            st.events.append(('pool', name, 'map', getattr(node, 'lineno', 0)))
            cur = [(st, [])]
            for k, x in enumerate(xs):
                nxt = []
                for s, acc in cur:
                    s = s.copy()
                    arg = private(it, s, x)
                    before = dict(s.heap)
                    s.events.append(('worker', k))
                    if star:
                        ai = it.items_of(s, arg)
                        rs = it.call(s, f, ai, {}, node) if ai is not None else [(s, I.opaque('starmap'))]
                    else:
                        rs = it.call(s, f, [arg], {}, node)
                    for s2, v in rs:
                        v = private(it, s2, v)
                        for i, c in before.items():
                            s2.heap[i] = c
                        s2.events.append(('worker', None, tuple(generators(s2, v))))
                        nxt.append((s2, acc + [v]))
                cur = nxt
            return [(s, it.alloc(s, I.ListC(vs))) for s, vs in cur]
        return h

    def ev(what):
        def h(it, st, args, kw, node):
            st.events.append(('pool', name, what, getattr(node, 'lineno', 0)))
            return T.NONE
        return h
    P = I.Extern('pool', None, methods={'map': do_map(False), 'imap': do_map(False), 'starmap': do_map(True), 'close': ev('close'), 'join': ev('join'),
                                        'terminate': ev('terminate')})
    P.methods['__enter__'] = lambda it, st, a, kw, node: P
    P.methods['__exit__'] = ev('close')
    return P


def lib_table(ncpu=2):
    out = {}

    def mk(it, st, args, kw, node, f):
        st.events.append(('pool', 'pool', 'open', getattr(node, 'lineno', 0)))
        return pool_object()
    for m in ('multiprocess', 'multiprocessing'):
        out[m + '.Pool'] = mk
        out[m + '.cpu_count'] = lambda it, st, args, kw, node, f: T.num(ncpu)
    return out
