"""joining of states that differ only in the conditions they were reached under"""
from . import terms as T
from . import interp as I


def _same(a, b, A, B, seen):
    if a is b:
        if not isinstance(a, (I.Ref, I.Tup, I.Func, list, dict)):
            return True
    if type(a) is not type(b):
        return False
    if isinstance(a, I.Ref):
        k = (a.id, b.id)
        if k in seen:
            return True
        seen.add(k)
        x, y = A.heap.get(a.id), B.heap.get(b.id)
        if x is None or y is None:
            return False
        return _content(x, y, A, B, seen)
    if isinstance(a, I.Tup):
        return len(a.items) == len(b.items) and all(_same(x, y, A, B, seen) for x, y in zip(a.items, b.items))
    if isinstance(a, I.Func):
        return a.node is b.node and a.frame is b.frame and a.mod is b.mod and a.cls == b.cls and a.defaults == b.defaults and _same(a.selfv, b.selfv, A, B, seen)
    if isinstance(a, tuple):
        return a == b
    return a is b


def _content(x, y, A, B, seen):
    if type(x) is not type(y):
        return False
    if isinstance(x, I.ArrC):
        return x is y or (x.fn is y.fn and x.shape == y.shape and x.writes == y.writes and x.dtype == y.dtype)
    if isinstance(x, I.View):
        return _same(x.ref, y.ref, A, B, seen) and (x is y or x.sel == y.sel and x.shape == y.shape)
    if isinstance(x, I.ListC):
        return x.opaque == y.opaque and x.isset == y.isset and x.once == y.once and len(x.items) == len(y.items) and all(_same(p, q, A, B, seen) for p, q in zip(x.items, y.items))
    if isinstance(x, I.DictC):
        return x.opaque == y.opaque and list(x.items) == list(y.items) and all(_same(p, q, A, B, seen) for p, q in zip(x.items.values(), y.items.values()))
    if isinstance(x, I.ObjC):
        return x.cls == y.cls and set(x.attrs) == set(y.attrs) and x.dyn is y.dyn and all(_same(x.attrs[k], y.attrs[k], A, B, seen) for k in x.attrs)
    return x is y


def same(A, B):
    if A.draws != B.draws or len(A.events) != len(B.events):
        return False
    for p, q in zip(A.events, B.events):
        if p is not q and p != q:
            return False
    seen = set()
    for f in set(A.frames) & set(B.frames):
        x, y = A.frames[f], B.frames[f]
        if set(x) != set(y) or not all(_same(x[k], y[k], A, B, seen) for k in x):
            return False
    # one object on one side corresponds to one object on the other
    return len({a for a, _ in seen}) == len(seen) == len({b for _, b in seen})


def merge(states):
    """states -> fewer states; the condition of a joined state is the disjunction of the conditions"""
    out = []
    for s in states:
        for k, o in enumerate(out):
            if same(o, s):
                n = 0
                while n < len(o.pc) and n < len(s.pc) and o.pc[n] == s.pc[n]:
                    n += 1
                j = o.copy()
                d = T.lor([T.land(o.pc[n:]), T.land(s.pc[n:])])
                j.pc = o.pc[:n] + ([] if d == T.TRUE else [d])
                out[k] = j
                break
        else:
            out.append(s)
    return out
