"""Lowering of the native sources to the statement language of the interpreter.

`clang++ -fsyntax-only -Xclang -ast-dump=json` gives the type-checked AST; every member function is translated to an
equivalent Python AST (value semantics of std::vector made explicit by __vcopy, random distributions as calls of
__uniform_int / __uniform_real objects).  Whatever is not understood becomes a call of __unknown, which the
interpreter treats as an uninterpreted value, so obligations that depend on it stay undecided."""
import ast
import json
import os
import shutil
import subprocess
import sysconfig
from .project import REPO, Undecided

FLAGS = ['-std=c++11', '-DNDEBUG', '-fsyntax-only', '-w', '-ferror-limit=1']


def include_dirs():
    out = [os.path.join(REPO, 'cpp')]
    for c in ['/usr/include/python3.12', sysconfig.get_paths()['include']]:
        if os.path.exists(os.path.join(c, 'Python.h')) and c not in out:
            out.append(c)
    return out


def dump(src, filt):
    cc = shutil.which('clang++') or shutil.which('clang++-18')
    if cc is None:
        raise Undecided('clang++ not available')
    cmd = [cc] + FLAGS + ['-I' + d for d in include_dirs()] + ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, src]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if p.returncode != 0:
        raise Undecided('clang: ' + p.stderr.decode('utf8', 'replace')[:200])
    s = p.stdout.decode('utf8', 'replace')
    d = json.JSONDecoder()
    i, out = 0, []
    while True:
        i = s.find('{', i)
        if i < 0:
            break
        # objects start at line beginnings
        o, i = d.raw_decode(s, i)
        out.append(o)
    return out


N = ast.Name
LOAD, STORE = ast.Load(), ast.Store()


def name(x, store=False):
    return ast.Name(id=x, ctx=STORE if store else LOAD)


def const(v):
    return ast.Constant(value=v)


def call(f, *args):
    return ast.Call(func=name(f) if isinstance(f, str) else f, args=list(args), keywords=[])


def unknown(why):
    return call('__unknown', const(why))


BINOPS = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '%': ast.Mod, '&': ast.BitAnd, '|': ast.BitOr, '^': ast.BitXor,
          '<<': ast.LShift, '>>': ast.RShift}
CMPS = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq}
PASS = {'ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr',
        'CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXReinterpretCastExpr', 'CXXConstCastExpr', 'SubstNonTypeTemplateParmExpr'}
MATH = {'exp', 'log', 'sqrt', 'fabs', 'abs', 'pow', 'floor', 'ceil', 'tanh', 'cosh', 'log1p', 'expm1', 'expf'}


def qtype(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType') or ''


def sugared(n):
    return n.get('type', {}).get('qualType', '')


def is_int_type(t):
    t = t.replace('const', '').replace('&', '').strip()
    return t in ('int', 'unsigned int', 'long', 'unsigned long', 'short', 'size_t', 'long long', 'unsigned long long', 'bool', 'char',
                 'std::size_t', 'Py_intptr_t', 'size_type', 'std::vector<int>::size_type', 'value_type_int', 'unsigned', 'int32_t', 'int64_t')


def is_vec(t):
    t = t.replace('const', '').strip()
    return t.startswith('std::vector') or t.startswith('vector<')


def inner(n):
    return [c for c in n.get('inner', []) if isinstance(c, dict)]


def kids(n):
    return [c for c in inner(n) if 'kind' in c and not c['kind'].endswith('Comment') and not c['kind'].endswith('Attr')]


def strip(n):
    while n.get('kind') in PASS and kids(n):
        # only unwrap casts with a single operand
        n = kids(n)[-1] if n['kind'] != 'CXXFunctionalCastExpr' else kids(n)[0]
    return n


class FnLower:
    def __init__(self, unit, fn):
        self.unit, self.fn = unit, fn
        self.names, self.used = {}, set()
        self.pre = []
        self.iters = {}        # iterator var id -> loop variable
        self.problems = []

    # ------------------------------------------------ names
    def declare(self, d):
        nm = d.get('name') or '_anon'
        base, k = nm, 1
        while nm in self.used:
            k += 1
            nm = '%s__%d' % (base, k)
        self.used.add(nm)
        self.names[d['id']] = nm
        return nm

    # ------------------------------------------------ expressions
    def ex(self, n):
        k = n['kind']
        m = getattr(self, 'ex_' + k, None)
        if m:
            return m(n)
        if k in PASS:
            return self.cast(n)
        return unknown(k)

    def cast(self, n):
        sub = kids(n)
        if not sub:
            return unknown(n['kind'])
        e = self.ex(sub[-1])
        ck = n.get('castKind')
        if ck == 'FloatingToIntegral':
            return call('__trunc', e)
        if n['kind'] == 'CXXReinterpretCastExpr':
            return call('__reinterpret', e, const(sugared(n)))
        return e

    def ex_IntegerLiteral(self, n):
        return const(int(n['value']))

    def ex_FloatingLiteral(self, n):
        return const(float(n['value']))

    def ex_CXXBoolLiteralExpr(self, n):
        return const(bool(n['value']))

    def ex_StringLiteral(self, n):
        return const(str(n.get('value', '')))

    def ex_UnaryExprOrTypeTraitExpr(self, n):
        t = (n.get('argType') or {}).get('qualType', '')
        if not t and kids(n):
            t = qtype(kids(n)[0])
        t2 = (n.get('argType') or {}).get('desugaredQualType', t)
        return call('__sizeof', const(t2 or t))

    def ex_CXXThisExpr(self, n):
        return name('self')

    def ex_DeclRefExpr(self, n):
        r = n.get('referencedDecl', {})
        i = r.get('id')
        if i in self.names:
            return name(self.names[i])
        if r.get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
            return name(self.unit.free(r))
        if r.get('kind') == 'VarDecl':
            return name(r.get('name', '_'))
        if r.get('kind') == 'EnumConstantDecl':
            return unknown('enum')
        return name(r.get('name', '_'))

    def ex_MemberExpr(self, n):
        base = self.ex(kids(n)[0]) if kids(n) else name('self')
        return ast.Attribute(value=base, attr=n['name'], ctx=LOAD)

    def ex_CXXDefaultArgExpr(self, n):
        return unknown('default argument')

    def ex_ConditionalOperator(self, n):
        a, b, c = kids(n)
        return ast.IfExp(test=self.ex(a), body=self.ex(b), orelse=self.ex(c))

    def ex_ArraySubscriptExpr(self, n):
        a, b = kids(n)
        return ast.Subscript(value=self.ex(a), slice=self.ex(b), ctx=LOAD)

    def ex_UnaryOperator(self, n):
        op, s = n['opcode'], kids(n)[0]
        if op in ('++', '--'):
            t = self.ex(s)
            inc = ast.AugAssign(target=self.as_store(t), op=ast.Add() if op == '++' else ast.Sub(), value=const(1))
            if n.get('isPostfix'):
                tmp = self.temp()
                self.pre.append(ast.Assign(targets=[name(tmp, True)], value=t))
                self.pre.append(inc)
                return name(tmp)
            self.pre.append(inc)
            return t
        if op == '-':
            v = self.ex(s)
            if isinstance(v, ast.Constant) and isinstance(v.value, (int, float)):
                return const(-v.value)
            return ast.UnaryOp(op=ast.USub(), operand=v)
        if op == '+':
            return self.ex(s)
        if op in ('!', 'not'):
            return ast.UnaryOp(op=ast.Not(), operand=self.ex(s))
        if op == '*':
            p = strip(s)
            if p['kind'] == 'BinaryOperator' and p['opcode'] in '+-' and '*' in qtype(p):
                a, b = kids(p)
                if '*' in qtype(a):
                    off = self.ex(b)
                    if p['opcode'] == '-':
                        off = ast.UnaryOp(op=ast.USub(), operand=off)
                    return ast.Subscript(value=self.ex(a), slice=off, ctx=LOAD)
                return ast.Subscript(value=self.ex(b), slice=self.ex(a), ctx=LOAD)
            if p['kind'] == 'CXXThisExpr':
                return name('self')
            return ast.Subscript(value=self.ex(s), slice=const(0), ctx=LOAD)
        if op == '&':
            t = strip(s)
            if t['kind'] == 'CXXOperatorCallExpr' and strip(kids(t)[0]).get('referencedDecl', {}).get('name') == 'operator[]' and \
                    strip(kids(t)[2])['kind'] == 'IntegerLiteral' and int(strip(kids(t)[2])['value']) == 0:
                return self.ex(kids(t)[1])
            return call('__addressof', self.ex(s))
        return unknown('unary ' + op)

    def ex_BinaryOperator(self, n):
        op = n['opcode']
        a, b = kids(n)
        if op == '=':
            self.assign(a, b)
            return self.ex(a)
        if op == ',':
            self.pre.append(ast.Expr(value=self.ex(a)))
            return self.ex(b)
        if op in ('&&', '||'):
            x = self.ex(a)
            np_ = len(self.pre)
            y = self.ex(b)
            if len(self.pre) > np_:
                # the right operand has effects: evaluate it only when reached
                eff = self.pre[np_:]
                del self.pre[np_:]
                t = self.temp()
                self.pre.append(ast.Assign(targets=[name(t, True)], value=x))
                test = name(t) if op == '&&' else ast.UnaryOp(op=ast.Not(), operand=name(t))
                self.pre.append(ast.If(test=test, body=eff + [ast.Assign(targets=[name(t, True)], value=y)], orelse=[]))
                return name(t)
            return ast.BoolOp(op=ast.And() if op == '&&' else ast.Or(), values=[x, y])
        x, y = self.ex(a), self.ex(b)
        if op in CMPS:
            return ast.Compare(left=x, ops=[CMPS[op]()], comparators=[y])
        if op == '/' and is_int_type(sugared(n)):
            return call('__idiv', x, y)
        if op == '%':
            return call('__imod', x, y)
        if op in BINOPS:
            return ast.BinOp(left=x, op=BINOPS[op](), right=y)
        return unknown('binary ' + op)

    def ex_CompoundAssignOperator(self, n):
        self.compound(n)
        return self.ex(kids(n)[0])

    def compound(self, n):
        a, b = kids(n)
        op = n['opcode'][:-1]
        v = self.ex(b)
        t = self.ex(a)
        if op == '/' and is_int_type(sugared(n)):
            self.pre.append(ast.Assign(targets=[self.as_store(t)], value=call('__idiv', self.ex(a), v)))
            return
        if op == '%':
            self.pre.append(ast.Assign(targets=[self.as_store(t)], value=call('__imod', self.ex(a), v)))
            return
        self.pre.append(ast.AugAssign(target=self.as_store(t), op=BINOPS[op](), value=v))

    def temp(self):
        k = 0
        while '_t%d' % k in self.used:
            k += 1
        self.used.add('_t%d' % k)
        return '_t%d' % k

    def as_store(self, e):
        if isinstance(e, ast.Name):
            return name(e.id, True)
        if isinstance(e, ast.Attribute):
            return ast.Attribute(value=e.value, attr=e.attr, ctx=STORE)
        if isinstance(e, ast.Subscript):
            return ast.Subscript(value=e.value, slice=e.slice, ctx=STORE)
        raise Undecided('assignment target')

    def assign(self, a, b):
        v = self.value(b)
        self.pre.append(ast.Assign(targets=[self.as_store(self.ex(a))], value=v))

    def value(self, b):
        """right-hand side of an initialisation / assignment, with value semantics for vectors"""
        v = self.ex(b)
        if is_vec(sugared(b)) or is_vec(qtype(b)):
            s = strip(b)
            if s['kind'] in ('CXXMemberCallExpr', 'CallExpr', 'CXXTemporaryObjectExpr') or (s['kind'] == 'CXXConstructExpr' and not isinstance(v, ast.Name)):
                return v if isinstance(v, ast.Call) else call('__vcopy', v)
            return call('__vcopy', v)
        return v

    # calls
    def ex_CXXOperatorCallExpr(self, n):
        f, args = kids(n)[0], kids(n)[1:]
        op = strip(f).get('referencedDecl', {}).get('name', '')
        if op == 'operator[]':
            return ast.Subscript(value=self.ex(args[0]), slice=self.ex(args[1]), ctx=LOAD)
        if op == 'operator()':
            return ast.Call(func=self.ex(args[0]), args=[self.ex(x) for x in args[1:]], keywords=[])
        if op == 'operator=':
            self.assign(args[0], args[1])
            return self.ex(args[0])
        if op == 'operator*' and len(args) == 1:
            return self.iter_deref(args[0])
        if op == 'operator++' and len(args) >= 1:
            return unknown('iterator increment')
        if op == 'operator<<':
            return call('__print', *[self.ex(a) for a in args])
        return unknown('operator call ' + op)

    def iter_deref(self, a):
        s = strip(a)
        i = s.get('referencedDecl', {}).get('id')
        if i in self.iters:
            return name(self.iters[i])
        return unknown('iterator dereference')

    def ex_CXXMemberCallExpr(self, n):
        f, args = kids(n)[0], kids(n)[1:]
        f = strip(f)
        if f['kind'] != 'MemberExpr':
            return unknown('member call')
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        m = f['name']
        base = kids(f)[0] if kids(f) else None
        b = self.ex(base) if base is not None else name('self')
        bt = (sugared(base) + ' ' + qtype(base)) if base is not None else ''
        if is_vec(sugared(base)) or 'std::vector' in bt:
            vals = [self.value(a) for a in args]
            if m in ('push_back', 'emplace_back'):
                return ast.Call(func=ast.Attribute(value=b, attr='append', ctx=LOAD), args=vals, keywords=[])
            if m == 'size':
                return call('len', b)
            if m == 'empty':
                return ast.Compare(left=call('len', b), ops=[ast.Eq()], comparators=[const(0)])
            if m == 'reserve':
                return const(None)
            if m == 'at':
                return ast.Subscript(value=b, slice=vals[0], ctx=LOAD)
            if m == 'front':
                return ast.Subscript(value=b, slice=const(0), ctx=LOAD)
            if m == 'back':
                return ast.Subscript(value=b, slice=const(-1), ctx=LOAD)
            if m == 'data':
                return b
            if m in ('clear', 'resize', 'assign'):
                self.pre.append(ast.Assign(targets=[self.as_store(self.ex(base))], value=call('__vec_' + m, b, *vals)))
                return const(None)
            return unknown('vector method ' + m)
        if 'ndarray' in bt:
            return call('__nd_' + m, b, *[self.ex(a) for a in args])
        return ast.Call(func=ast.Attribute(value=b, attr=m, ctx=LOAD), args=[self.arg(a) for a in args], keywords=[])

    def arg(self, a):
        """by-value vector parameters are copied by their CXXConstructExpr"""
        s = a
        while s['kind'] in ('CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups') and kids(s):
            s = kids(s)[0]
        if s['kind'] == 'CXXConstructExpr' and is_vec(sugared(s)) and kids(s):
            return call('__vcopy', self.ex(kids(s)[0]))
        return self.ex(a)

    def ex_CallExpr(self, n):
        f, args = strip(kids(n)[0]), kids(n)[1:]
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        r = f.get('referencedDecl', {})
        fn = r.get('name', '')
        vals = [self.arg(a) for a in args]
        if fn in MATH:
            return call('__math_' + fn, *vals)
        if fn == 'make_tuple':
            return ast.Tuple(elts=vals, ctx=LOAD)
        if fn == 'get_builtin':
            t = r.get('type', {}).get('qualType', '')
            return call('__builtin_dtype', const(self.unit.text(n) or ''))
        if fn == 'from_data':
            return call('__from_data', *vals)
        if fn in ('min', 'max', 'fmin', 'fmax'):
            return call(fn[-3:], *vals)
        if fn == 'swap' and len(args) == 2:
            a, b = self.ex(args[0]), self.ex(args[1])
            self.pre.append(ast.Assign(targets=[ast.Tuple(elts=[self.as_store(a), self.as_store(b)], ctx=STORE)],
                                       value=ast.Tuple(elts=[b, a], ctx=LOAD)))
            return const(None)
        if r.get('kind') in ('FunctionDecl', 'CXXMethodDecl') and fn and not fn.startswith('operator'):
            return call(self.unit.free(r), *vals)
        return unknown('call ' + fn)

    def ex_CXXConstructExpr(self, n):
        t = sugared(n).replace('const ', '').strip()
        args = [a for a in kids(n) if a['kind'] != 'CXXDefaultArgExpr']
        if 'uniform_int_distribution' in t or 'uniform_int_distribution' in qtype(n):
            if args and 'uniform_int_distribution' in (sugared(args[0]) + qtype(args[0])) and len(args) == 1:
                return self.ex(args[0])
            return call('__uniform_int', *[self.ex(a) for a in args])
        if 'uniform_real_distribution' in t or 'uniform_real_distribution' in qtype(n):
            if args and 'uniform_real_distribution' in (sugared(args[0]) + qtype(args[0])) and len(args) == 1:
                return self.ex(args[0])
            return call('__uniform_real', *[self.ex(a) for a in args])
        if 'mersenne_twister' in qtype(n) or 'mt19937' in t:
            if len(args) == 1 and ('mersenne' in qtype(args[0]) or 'mt19937' in sugared(args[0])):
                return self.ex(args[0])
            return call('__mt', *[self.ex(a) for a in args])
        if 'random_device' in t or 'random_device' in qtype(n):
            return call('__random_device')
        if is_vec(t) or is_vec(qtype(n)):
            if not args:
                return ast.List(elts=[], ctx=LOAD)
            if len(args) == 1 and (is_vec(sugared(args[0])) or is_vec(qtype(args[0]))):
                s = strip(args[0])
                if s['kind'] in ('CXXTemporaryObjectExpr', 'CXXMemberCallExpr', 'CallExpr'):
                    return self.ex(args[0])
                return call('__vcopy', self.ex(args[0]))
            if len(args) == 1 and args[0]['kind'] in ('InitListExpr', 'CXXStdInitializerListExpr'):
                return self.ex(args[0])
            fill = self.ex(args[1]) if len(args) > 1 else const(0)
            return call('__vec', self.ex(args[0]), fill)
        if len(args) == 1:
            return self.ex(args[0])
        if not args:
            return call('__default', const(t))
        return unknown('construct ' + t)

    ex_CXXTemporaryObjectExpr = ex_CXXConstructExpr

    def ex_CXXStdInitializerListExpr(self, n):
        return self.ex(kids(n)[0])

    def ex_InitListExpr(self, n):
        return ast.List(elts=[self.ex(a) for a in kids(n)], ctx=LOAD)

    # ------------------------------------------------ statements
    def flush(self, out, extra=()):
        out.extend(self.pre)
        out.extend(extra)
        self.pre = []

    def stmts(self, n):
        """-> list of python statements"""
        k = n['kind']
        out = []
        if k == 'CompoundStmt':
            for c in kids(n):
                out.extend(self.stmts(c))
            return out or [ast.Pass()]
        if k == 'DeclStmt':
            for d in kids(n):
                if d['kind'] != 'VarDecl':
                    continue
                ini = [c for c in kids(d)]
                t = sugared(d)
                if ini:
                    e = ini[-1]
                    if '&' in t or '*' in t:
                        v = self.ex(e)
                        if not is_vec(t) and '&' in t and 'const' not in t:
                            v = self.ref_alias(e, v)
                    else:
                        v = self.value(e)
                else:
                    v = unknown('uninitialised ' + d.get('name', '')) if not is_vec(t) else ast.List(elts=[], ctx=LOAD)
                nm = self.declare(d)
                self.flush(out, [ast.Assign(targets=[name(nm, True)], value=v)])
            return out or [ast.Pass()]
        if k == 'IfStmt':
            ks = kids(n)
            if n.get('hasVar') or n.get('hasInit'):
                out.extend(self.stmts(ks[0]))
                ks = ks[1:]
            t = self.ex(ks[0])
            self.flush(out)
            body = self.stmts(ks[1])
            orelse = self.stmts(ks[2]) if len(ks) > 2 else []
            out.append(ast.If(test=t, body=body, orelse=orelse))
            return out
        if k == 'ForStmt':
            return self.for_(n)
        if k == 'CXXForRangeStmt':
            return self.for_range(n)
        if k == 'WhileStmt':
            ks = kids(n)
            t = self.ex(ks[0])
            pre, self.pre = self.pre, []
            body = self.stmts(ks[-1])
            if pre:
                body = pre + [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=t), body=[ast.Break()], orelse=[])] + body
                t = const(True)
            return [ast.While(test=t, body=body, orelse=[])]
        if k == 'DoStmt':
            ks = kids(n)
            body = self.stmts(ks[0])
            t = self.ex(ks[1])
            pre, self.pre = self.pre, []
            return [ast.While(test=const(True), body=body + pre + [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=t), body=[ast.Break()], orelse=[])], orelse=[])]
        if k == 'ReturnStmt':
            ks = kids(n)
            v = self.value_ret(ks[0]) if ks else None
            self.flush(out, [ast.Return(value=v)])
            return out
        if k == 'BreakStmt':
            return [ast.Break()]
        if k == 'ContinueStmt':
            return [ast.Continue()]
        if k == 'NullStmt':
            return [ast.Pass()]
        if k == 'SwitchStmt':
            return self.switch(n)
        if k == 'CompoundAssignOperator':
            self.compound(n)
            self.flush(out)
            return out
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            t = self.ex(kids(n)[0])
            self.flush(out, [ast.AugAssign(target=self.as_store(t), op=ast.Add() if n['opcode'] == '++' else ast.Sub(), value=const(1))])
            return out
        if k == 'BinaryOperator' and n['opcode'] == '=':
            self.assign(*kids(n))
            self.flush(out)
            return out
        if k in ('ExprWithCleanups',) and kids(n):
            return self.stmts(kids(n)[0])
        if k == 'CXXOperatorCallExpr' and strip(kids(n)[0]).get('referencedDecl', {}).get('name') == 'operator=':
            self.assign(kids(n)[1], kids(n)[2])
            self.flush(out)
            return out
        e = self.ex(n)
        self.flush(out, [ast.Expr(value=e)])
        return out

    def ref_alias(self, e, v):
        s = strip(e)
        return call('__unknown', const('reference to scalar'))

    def value_ret(self, e):
        return self.ex(e) if not (is_vec(sugared(e))) else self.ex(e)

    def switch(self, n):
        ks = kids(n)
        v = self.ex(ks[0])
        t = self.temp()
        out = []
        self.flush(out, [ast.Assign(targets=[name(t, True)], value=v)])
        # only switches whose cases all end in break/return
        cases, cur = [], None
        for c in kids(ks[-1]):
            labels = []
            while c['kind'] in ('CaseStmt', 'DefaultStmt'):
                if c['kind'] == 'CaseStmt':
                    labels.append(self.ex(kids(c)[0]))
                else:
                    labels.append(None)
                c = kids(c)[-1]
            if labels:
                cur = [labels, []]
                cases.append(cur)
            if cur is None:
                return [ast.Expr(value=unknown('switch'))]
            cur[1].append(c)
        chain = []
        for labels, body in reversed(cases):
            st = []
            ended = False
            for b in body:
                if b['kind'] == 'BreakStmt':
                    ended = True
                    break
                if b['kind'] == 'CompoundStmt' and kids(b) and kids(b)[-1]['kind'] == 'BreakStmt':
                    for x in kids(b)[:-1]:
                        st.extend(self.stmts(x))
                    ended = True
                    break
                st.extend(self.stmts(b))
                if b['kind'] == 'ReturnStmt':
                    ended = True
                    break
            if not ended and body is not cases[-1][1]:
                return out + [ast.Expr(value=unknown('switch fallthrough'))]
            if None in labels:
                chain = st or [ast.Pass()]
                continue
            test = [ast.Compare(left=name(t), ops=[ast.Eq()], comparators=[l]) for l in labels]
            test = test[0] if len(test) == 1 else ast.BoolOp(op=ast.Or(), values=test)
            chain = [ast.If(test=test, body=st or [ast.Pass()], orelse=chain)]
        return out + chain

    def for_range(self, n):
        ks = kids(n)
        # range decl, begin decl, end decl, cond, inc, loop variable decl, body
        decls = [c for c in ks if c['kind'] == 'DeclStmt']
        body = ks[-1]
        rng = None
        for d in decls:
            v = kids(d)[0]
            if v.get('name') == '__range1' or v.get('name', '').startswith('__range'):
                rng = self.ex(kids(v)[-1])
        var = kids(decls[-1])[0]
        out = []
        self.flush(out)
        if rng is None:
            return [ast.Expr(value=unknown('range for'))]
        nm = self.declare(var)
        b = self.stmts(body)
        if '&' in sugared(var) and 'const' not in sugared(var) and not is_vec(sugared(var)) and not is_vec(qtype(var)):
            # writes through the reference go to the container
            ix = self.temp()

            class R(ast.NodeTransformer):
                def visit_Name(s, x):
                    if x.id == nm:
                        return ast.Subscript(value=rng, slice=name(ix), ctx=x.ctx)
                    return x
            b = [R().visit(x) for x in b]
            return out + [ast.For(target=name(ix, True), iter=call('range', call('len', rng)), body=b, orelse=[])]
        return out + [ast.For(target=name(nm, True), iter=rng, body=b, orelse=[])]

    def for_(self, n):
        raw = n.get('inner', [])
        raw = [c if isinstance(c, dict) and 'kind' in c else None for c in raw]
        if len(raw) == 5:
            init, _, cond, inc, body = raw
        else:
            return [ast.Expr(value=unknown('for statement'))]
        it = self.iterator_loop(init, cond, inc, body)
        if it is not None:
            return it
        out = []
        if init is not None:
            out.extend(self.stmts(init))
        simple = self.simple_range(init, cond, inc, body)
        if simple is not None:
            var, rng = simple
            b = self.stmts(body)
            return out + [ast.For(target=name(var, True), iter=rng, body=b, orelse=[])]
        t = const(True)
        pre = []
        if cond is not None:
            t = self.ex(cond)
            pre, self.pre = self.pre, []
        b = self.stmts(body)
        incs = self.stmts(inc) if inc is not None else []
        b = replace_continue(b, incs) + incs
        if pre:
            b = pre + [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=t), body=[ast.Break()], orelse=[])] + b
            t = const(True)
        return out + [ast.While(test=t, body=b, orelse=[])]

    def iterator_loop(self, init, cond, inc, body):
        """for (auto it = C.begin(); it != C.end(); ++it)"""
        if init is None or init['kind'] != 'DeclStmt' or len(kids(init)) != 1:
            return None
        v = kids(init)[0]
        if 'iterator' not in sugared(v) and 'iterator' not in qtype(v):
            return None
        src = strip(kids(v)[-1]) if kids(v) else None
        while src is not None and src['kind'] == 'CXXConstructExpr' and kids(src):
            src = strip(kids(src)[0])
        if src is None or src['kind'] != 'CXXMemberCallExpr' or strip(kids(src)[0]).get('name') not in ('begin', 'cbegin'):
            return None
        cont = kids(strip(kids(src)[0]))[0]
        c = strip(cond)
        ok = c['kind'] == 'CXXOperatorCallExpr' and strip(kids(c)[0]).get('referencedDecl', {}).get('name') == 'operator!='
        if not ok:
            return None
        e = strip(kids(c)[2])
        if e['kind'] != 'CXXMemberCallExpr' or strip(kids(e)[0]).get('name') not in ('end', 'cend'):
            return None
        i = strip(inc)
        if not (i['kind'] == 'CXXOperatorCallExpr' and strip(kids(i)[0]).get('referencedDecl', {}).get('name') == 'operator++'):
            return None
        rng = self.ex(cont)
        nm = self.declare(v)
        self.iters[v['id']] = nm
        b = self.stmts(body)
        return [ast.For(target=name(nm, True), iter=rng, body=b, orelse=[])]

    def simple_range(self, init, cond, inc, body):
        if init is None or cond is None or inc is None:
            return None
        if init['kind'] == 'DeclStmt' and len(kids(init)) == 1:
            vid = kids(init)[0]['id']
            lo = name(self.names[vid])
        else:
            return None
        c = strip(cond)
        if c['kind'] != 'BinaryOperator' or c['opcode'] not in ('<', '<=', '>', '>=', '!='):
            return None
        l, r = kids(c)
        if strip(l).get('referencedDecl', {}).get('id') != vid:
            return None
        i = strip(inc)
        step = None
        if i['kind'] == 'UnaryOperator' and i['opcode'] in ('++', '--') and strip(kids(i)[0]).get('referencedDecl', {}).get('id') == vid:
            step = 1 if i['opcode'] == '++' else -1
        elif i['kind'] == 'CompoundAssignOperator' and i['opcode'] == '+=' and strip(kids(i)[0]).get('referencedDecl', {}).get('id') == vid and \
                strip(kids(i)[1])['kind'] == 'IntegerLiteral':
            step = int(strip(kids(i)[1])['value'])
        if step is None or (step > 0) != (c['opcode'] in ('<', '<=', '!=')):
            return None
        w = written(body)
        if vid in w:
            return None
        if reads(r) & w or any(x in ('self.' + m) for m in ()):
            return None
        hi = self.ex(r)
        if self.pre:
            self.pre = []
            return None
        if c['opcode'] == '<=':
            hi = ast.BinOp(left=hi, op=ast.Add(), right=const(1))
        if c['opcode'] == '>=':
            hi = ast.BinOp(left=hi, op=ast.Sub(), right=const(1))
        args = [lo, hi] + ([const(step)] if step != 1 else [])
        return self.names[vid], call('range', *args)


def replace_continue(body, incs):
    class R(ast.NodeTransformer):
        def visit_For(self, n):
            return n

        def visit_While(self, n):
            return n

        def visit_Continue(self, n):
            return incs + [n]
    out = []
    for b in body:
        r = R().visit(b)
        out.extend(r if isinstance(r, list) else [r])
    return out


def walk(n):
    yield n
    for c in inner(n):
        yield from walk(c)


def written(n):
    """ids of variables assigned in the subtree"""
    out = set()
    for x in walk(n):
        k = x.get('kind')
        if (k == 'BinaryOperator' and x.get('opcode') == '=') or k == 'CompoundAssignOperator' or \
                (k == 'UnaryOperator' and x.get('opcode') in ('++', '--', '&')):
            t = strip(kids(x)[0])
            if t['kind'] == 'DeclRefExpr':
                out.add(t.get('referencedDecl', {}).get('id'))
    return out


def reads(n):
    return {x.get('referencedDecl', {}).get('id') for x in walk(n) if x.get('kind') == 'DeclRefExpr'} - {None}


class Unit:
    """all member functions of the native sources, lowered"""

    def __init__(self, src='cpp/samplers.cpp', classes=('Sampler', 'Ising', 'Potts3')):
        self.path = os.path.join(REPO, src)
        self.rel = src
        with open(self.path, encoding='utf8') as f:
            self.src = f.read()
        self.classes = {}
        self.frees = {}
        self.want_free = {}
        self.records = {}
        objs = []
        seen = set()
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(3) as ex:
            for o in ex.map(lambda c: dump(self.path, c), classes):
                for x in o:
                    if x.get('id') and (x['kind'], x.get('name'), x.get('loc', {}).get('offset'), sugared(x)) not in seen:
                        seen.add((x['kind'], x.get('name'), x.get('loc', {}).get('offset'), sugared(x)))
                        objs.append(x)
        recs = [o for o in objs if o['kind'] == 'CXXRecordDecl' and o.get('name') in classes]
        for r in recs:
            self.records[r['name']] = r
            self.classes.setdefault(r['name'], {'methods': {}, 'bases': [b['type']['qualType'] for b in r.get('bases', [])]})
        self.sigs = {}
        for r in recs:
            for m in kids(r):
                if m['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl'):
                    self.add(r['name'], m)
        for o in objs:
            if o['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl'):
                cls = self.owner(o, recs, classes)
                if cls:
                    self.add(cls, o)
        # free functions referenced from the lowered code
        done = set()
        for _ in range(4):
            todo = [f for f in self.want_free if f not in done]
            if not todo:
                break
            for f in todo:
                done.add(f)
                if f in ('exp', 'log'):
                    continue
                try:
                    for o in dump(self.path, f):
                        if o['kind'] == 'FunctionDecl' and o.get('name') == f and any(c['kind'] == 'CompoundStmt' for c in kids(o)):
                            self.frees[f] = self.lower(o, False)
                except Undecided:
                    pass

    def owner(self, o, recs, classes):
        if o['kind'] == 'CXXConstructorDecl':
            return o['name'] if o['name'] in classes else None
        prev = o.get('previousDecl')
        for r in recs:
            if o.get('parentDeclContextId') == r['id']:
                return r['name']
        # contexts of different dumps have different ids: use the qualified name in the source text
        off = o.get('loc', {}).get('offset')
        if off is not None:
            line_start = max(0, off - 60)
            seg = self.src.encode('utf8')[line_start:off].decode('utf8', 'replace')
            for c in classes:
                if seg.rstrip().endswith(c + '::'):
                    return c
        return None

    def free(self, r):
        self.want_free[r.get('name')] = r
        return r.get('name')

    def text(self, n):
        rg = n.get('range', {})
        b, e = rg.get('begin', {}), rg.get('end', {})
        if 'offset' in b and 'offset' in e:
            return self.src.encode('utf8')[b['offset']:e['offset'] + e.get('tokLen', 0)].decode('utf8', 'replace')
        return None

    def add(self, cls, o):
        if not any(c['kind'] == 'CompoundStmt' for c in kids(o)):
            return
        if o.get('isImplicit'):
            return
        f = self.lower(o, True)
        nm = o['name'] if o['kind'] == 'CXXMethodDecl' else 'ctor'
        params = [sugared(p) for p in kids(o) if p['kind'] == 'ParmVarDecl']
        c = self.classes.setdefault(cls, {'methods': {}, 'bases': []})
        c['methods'].setdefault(nm, []).append((params, f))

    def lower(self, o, method):
        fl = FnLower(self, o)
        params = [p for p in kids(o) if p['kind'] == 'ParmVarDecl']
        args = [ast.arg(arg='self')] if method else []
        fl.used.add('self')
        pre = []
        for p in params:
            nm = fl.declare(p)
            args.append(ast.arg(arg=nm))
            t = sugared(p)
            if '&' in t and 'const' not in t and not is_vec(t) and 'vector' not in t:
                fl.problems.append('reference parameter %s' % nm)
        body = []
        for c in kids(o):
            if c['kind'] == 'CXXCtorInitializer':
                if 'baseInit' in c:
                    e = strip(kids(c)[0])
                    b = c['baseInit'].get('qualType', '')
                    a2 = [fl.arg(a) for a in kids(e)] if e['kind'] == 'CXXConstructExpr' else []
                    fl.flush(body, [ast.Expr(value=call('__basector_%s_%d' % (b, self.ctor_kind(kids(e))), name('self'), *a2))])
                elif 'anyInit' in c:
                    e = kids(c)[0]
                    if e['kind'] == 'CXXDefaultInitExpr':
                        continue
                    v = fl.value(e)
                    fl.flush(body, [ast.Assign(targets=[ast.Attribute(value=name('self'), attr=c['anyInit']['name'], ctx=STORE)], value=v)])
        comp = [c for c in kids(o) if c['kind'] == 'CompoundStmt'][0]
        body += fl.stmts(comp)
        f = ast.FunctionDef(name=o['name'], args=ast.arguments(posonlyargs=[], args=args, kwonlyargs=[], kw_defaults=[], defaults=[]),
                            body=body or [ast.Pass()], decorator_list=[])
        line = o.get('loc', {}).get('line', 0)
        for x in ast.walk(f):
            if not hasattr(x, 'lineno') and isinstance(x, (ast.stmt, ast.expr)):
                x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = line, 0, line, 0
        f.problems = fl.problems
        return f

    def ctor_kind(self, args):
        for a in args:
            if 'ndarray' in sugared(a):
                return 1
        return 0

    def method(self, cls, nm, want=None):
        """lowered function node of cls::nm, searching bases; `want(params)` selects an overload"""
        c = self.classes.get(cls)
        if c is None:
            return None
        for params, f in c['methods'].get(nm, []):
            if want is None or want(params):
                return (cls, f)
        if nm != 'ctor':
            for b in c['bases']:
                r = self.method(b, nm, want)
                if r:
                    return r
        return None
