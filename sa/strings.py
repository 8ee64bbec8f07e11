"""Text: transfer functions for constant strings, the printed form of integer arrays, and files that are written."""
import re
from . import terms as T
from . import interp as I
from . import libmodel as LM


def const(it, st, v):
    """python value of a constant string, number or flat list of them; None otherwise"""
    if I.is_term(v):
        if v[0] == 'str':
            return v[1]
        if v == T.NONE:
            return None
        k = T.int_val(v)
        if k is not None:
            return k
        q = T.num_val(v)
        return None if q is None else float(q)
    return None


def show_array(xs, width=75, threshold=None):
    """str() of a one-dimensional integer array as numpy prints it"""
    if threshold is not None and len(xs) > threshold:
        return None
    if not xs:
        return '[]'
    w = max(len(str(x)) for x in xs)
    out, line = '', ' '
    for i, x in enumerate(xs):
        word = '%*d' % (w, x)
        # the last element leaves room for the bracket like all others
        if len(line) + len(word) > width - 1 and len(line) > 1:
            out += line.rstrip() + '\n'
            line = ' '
        line += word
        if i < len(xs) - 1:
            line += ' '
    return '[' + (out + line)[1:] + ']'


def text(it, st, v):
    """str(v) when it is determined"""
    c = const(it, st, v)
    if c is not None and not isinstance(c, float):
        return str(c)
    if not I.is_term(v):
        x = it.arr(st, v)
        if x is not None and len(x[0]) == 1 and isinstance(st.heap[v.id] if isinstance(v, I.Ref) else None, (I.ArrC, I.View)):
            n = T.int_val(x[0][0])
            if n is not None and x[2] in ('int', 'int64', None):
                xs = [T.int_val(x[1]((T.num(i),))) for i in range(n)]
                if None not in xs:
                    return show_array(xs)
    return None


def unknown(what):
    return I.opaque('text: ' + what)


def h_str(it, st, a, kw, node, f):
    t = text(it, st, a[0]) if a else ''
    return ('str', t) if t is not None else LM.TABLE0['builtins.str'](it, st, a, kw, node, f)


def h_format(it, st, a, kw, node, f):
    if I.is_term(a[0]) and a[0][0] == 'str':
        v = [const(it, st, x) for x in a[1:]]
        k = {n: const(it, st, x) for n, x in kw.items()}
        if None not in v and None not in k.values():
            try:
                return ('str', a[0][1].format(*v, **k))
            except (ValueError, IndexError, KeyError):
                pass
    return unknown('format')


def h_format2(it, st, a, kw, node, f):
    v = const(it, st, a[0])
    s = const(it, st, a[1]) if len(a) > 1 else ''
    if v is not None and s is not None:
        try:
            return ('str', format(v, s))
        except ValueError:
            pass
    return unknown('format')


def h_sub(it, st, a, kw, node, f):
    v = [const(it, st, x) for x in a]
    if kw or len(v) != 3 or not all(isinstance(x, str) for x in v):
        return unknown('re.sub')
    try:
        return ('str', re.sub(*v))
    except re.error:
        return unknown('re.sub')


def h_split(it, st, a, kw, node, f):
    v = [const(it, st, x) for x in a]
    if kw or not all(isinstance(x, (str, int)) for x in v):
        return unknown('split')
    return it.alloc(st, I.ListC([('str', x) for x in v[0].split(*v[1:])]))


def pad(name):
    def h(it, st, a, kw, node, f):
        v = [const(it, st, x) for x in a]
        if kw or None in v or not isinstance(v[0], str):
            return unknown(name)
        r = getattr(v[0], name)(*v[1:])
        return ('str', r) if isinstance(r, str) else T.num(r)
    return h


class Files:
    """files opened for writing collect their text; files opened for reading give two lines"""

    def __init__(self):
        self.made = []

    def open(self, it, st, a, kw, node, f):
        name = const(it, st, a[0] if a else kw.get('file'))
        m = a[1] if len(a) > 1 else kw.get('mode', ('str', 'r'))
        mode = const(it, st, m)
        if not isinstance(name, str) or not isinstance(mode, str):
            return unknown('open')
        k = len(self.made)

        def ev(kind, *more):
            st.events.append(('file', kind, k) + more)
        st.events.append(('file', 'open', k, name, mode))
        self.made.append(name)

        def write(it, st, a, kw, node):
            t = const(it, st, a[-1])
            st.events.append(('file', 'write', k, t if isinstance(t, str) else None))
            return T.NONE

        def lines(it, st, a, kw, node):
            xs = it.items_of(st, a[-1])
            for x in xs if xs is not None else [None]:
                t = None if x is None else const(it, st, x)
                st.events.append(('file', 'write', k, t if isinstance(t, str) else None))
            return T.NONE

        def done(it, st, a, kw, node):
            st.events.append(('file', 'close', k))
            return T.NONE
        return I.Extern('file%d' % k, None, None, {
            'write': write, 'writelines': lines, 'close': done, 'flush': lambda *a: T.NONE,
            'readlines': lambda it, st, a, kw, node: it.alloc(st, I.ListC([('str', 'one\n'), ('str', '\n'), ('str', 'two\n')])),
            'read': lambda it, st, a, kw, node: ('str', 'one\n\ntwo\n')})


def written(st):
    """{name: text or None} from the events of a path; a file reopened for writing starts again"""
    out, name = {}, {}
    for e in st.events:
        if e[0] != 'file':
            continue
        if e[1] == 'open':
            name[e[2]] = e[3]
            if e[4].startswith(('w', 'x')):
                out[e[3]] = ''
            elif e[4].startswith('a'):
                out.setdefault(e[3], '')
        elif e[1] == 'write' and name.get(e[2]) in out:
            t = out[name[e[2]]]
            out[name[e[2]]] = None if t is None or e[3] is None else t + e[3]
    return out


def lib_table(files):
    LM.TABLE0 = LM.TABLE
    t = dict(LM.TABLE)
    t.update({
        'builtins.str': h_str, 'method.format': h_format, 'builtins.format': h_format2, 're.sub': h_sub, 'method.split': h_split,
        'builtins.open': files.open,
        'os.path.isdir': lambda it, st, a, kw, node, f: T.TRUE, 'os.path.isfile': lambda it, st, a, kw, node, f: T.FALSE,
        'os.path.exists': lambda it, st, a, kw, node, f: T.TRUE,
        'os.makedirs': lambda it, st, a, kw, node, f: T.NONE, 'os.mkdir': lambda it, st, a, kw, node, f: T.NONE,
        'time.strftime': lambda it, st, a, kw, node, f: ('str', 'DATE'), 'time.ctime': lambda it, st, a, kw, node, f: ('str', 'DATE'),
        'datetime.datetime.now': lambda it, st, a, kw, node, f: ('str', 'DATE'),
    })
    for n in ('zfill', 'rjust', 'ljust', 'rstrip', 'lstrip', 'count', 'find', 'rfind'):
        t['method.' + n] = (lambda g, old: lambda it, st, a, kw, node, f: g(it, st, a, kw, node, f) if I.is_term(a[0]) and a[0][0] == 'str' or old is None
                            else old(it, st, a, kw, node, f))(pad(n), LM.TABLE.get('method.' + n))
    return t
