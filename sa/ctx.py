"""Obligation bookkeeping shared by all rules: violations, discharged and undecided obligations, evidence."""
import json
import os
import signal
import time
import traceback
from .project import Project, AnalysisBroken, Undecided
from . import terms as T
from . import interp as I
from . import facts as FX
from . import ratio

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')   # overridden only while developing
KNOWN = os.path.join(VERIF, 'known-findings.txt')


class Ctx:
    def __init__(self, pid, tier='quick'):
        self.pid, self.tier = pid, tier
        self.proj = Project()
        self.t0 = time.time()
        quick = tier == 'quick'
        self.deadline = time.monotonic() + (400 if quick else 3000)
        self.step_limit = 100 if quick else 1200
        self.ends = []
        self.done = []          # (rule, construct, note)
        self.viol = []          # (key, rule, construct, message)
        self.und = []           # (rule, construct, why)
        self.rules = {}
        self.analysed = set()
        self.assumptions = []

    # -- declaring what a rule means, once
    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, construct, note=''):
        self.done.append((rule, construct, note))

    def bad(self, rule, construct, message, key=None):
        """construct: file:qualified name plus call site / field description"""
        k = key or '%s|%s' % (rule, construct)
        if any(v[0] == k for v in self.viol):
            return
        self.viol.append((k, rule, construct, message))

    def undecided(self, rule, construct, why):
        self.und.append((rule, construct, str(why)[:300]))

    def expect(self, rule, construct, verdict, message, note=''):
        """verdict True/False/None"""
        if verdict is True:
            self.ok(rule, construct, note)
        elif verdict is False:
            self.bad(rule, construct, message)
        else:
            self.undecided(rule, construct, message)

    def find(self, mod, qual, required=True):
        r = self.proj.find(mod, qual)
        if r is None:
            if required:
                raise Undecided('anchor %s:%s not found' % (mod, qual))
            return None
        self.analysed.add('%s:%s' % (mod, qual))
        return r

    def guard(self, rule, construct, f, *a):
        """run one analysis step; whatever the engine cannot follow is undecided, never an alarm"""
        now = time.monotonic()
        end = min([self.deadline, now + self.step_limit] + self.ends[-1:])
        if end <= now:
            self.undecided(rule, construct, 'engine: out of time')
            return
        self.ends.append(end)
        try:
            signal.signal(signal.SIGALRM, _ring)
            signal.setitimer(signal.ITIMER_REAL, end - now)
            return f(*a)
        except TimeUp:
            self.undecided(rule, construct, 'engine: out of time')
        except MemoryError:
            self.undecided(rule, construct, 'engine: out of memory')
        except Undecided as e:
            self.undecided(rule, construct, 'engine: %s' % e)
        except AnalysisBroken:
            raise
        except RecursionError:
            self.undecided(rule, construct, 'engine: recursion limit')
        except Exception as e:
            self.undecided(rule, construct, 'engine error %s: %s | %s' % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3:]))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.ends.pop()
            if self.ends:
                signal.setitimer(signal.ITIMER_REAL, max(self.ends[-1] - time.monotonic(), 0.001))


class TimeUp(BaseException):
    """the time of a step is over"""


def _ring(*a):
    raise TimeUp()


def load_known(pid):
    out = {}
    fixed = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith('known: '):
                # known: property=<id> key=<key> :: text
                head, _, text = ln[7:].partition(' :: ')
                p, _, k = head.partition(' key=')
                if p == 'property=' + pid:
                    out[k.strip()] = text
    return out


def fmt(t):
    """readable term"""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    h = t[0]
    if h == 'P':
        if not t[1]:
            return '0'
        out = []
        for m, c in t[1]:
            s = '*'.join(fmt(a) + ('' if p == 1 else '^%s' % p) for a, p in m)
            out.append(s if c == 1 and s else '-' + s if c == -1 and s else '%s%s' % (c, '*' + s if s else ''))
        return ' + '.join(out)
    if h == 'sym':
        return t[1]
    if h == 'bv':
        return 'b%s' % t[1]
    if h in ('idx', 'cidx'):
        return '%s[%s]' % (t[1], ','.join(map(fmt, t[2])))
    if h == 'sum':
        return 'SUM{%s : %s}(%s)' % (','.join(map(fmt, t[1])), '; '.join(map(fmt, t[2])), fmt(t[3]))
    if h == 'lt0':
        return '(%s < 0)' % fmt(t[1])
    if h == 'eq0':
        return '(%s == 0)' % fmt(t[1])
    if h == 'eqc':
        return '(%s == %s)' % (fmt(t[1]), fmt(t[2]))
    if h == 'ite':
        return '(%s ? %s : %s)' % tuple(map(fmt, t[1:]))
    if h == 'opaque':
        return '??%s' % t[2]
    if h in ('and', 'or'):
        return (' %s ' % h).join(map(fmt, t[1]))
    if h == 'not':
        return 'not ' + fmt(t[1])
    if h == 'fn':
        return '%s(%s)' % (t[1], ', '.join(fmt(x) if isinstance(x, tuple) else str(x) for x in t[2:]))
    if h == 'grp':
        return '(%s)' % fmt(t[1])
    if h == 'b':
        return fmt(t[1])
    if h == 'str':
        return repr(t[1])
    if h in ('floordiv', 'mod'):
        return '(%s %s %s)' % (fmt(t[1]), '//' if h == 'floordiv' else '%', fmt(t[2]))
    return str(t)


def short(t, n=400):
    s = fmt(t)
    return s if len(s) <= n else s[:n] + '...'


def has_opaque(t):
    return any(x[0] in ('opaque', 'cidx') or (x[0] == 'sym' and x[1].startswith('lc')) for x in T.subterms(t))


def equal(a, b, facts=(), depth=0):
    """decide a == b, see _equal; a difference must be witnessed by some values of the leaves before it counts"""
    v = _equal(a, b, facts, depth)
    if v is False and depth == 0 and witness(a, b) is False:
        return None
    if v is None and depth == 0 and I.is_term(a) and I.is_term(b) and cuts_reals(a) != cuts_reals(b) and witness(a, b):
        return False
    return v


def cuts_reals(t):
    """the formula contains a quantity that is real by construction, cut to a whole number"""
    return any(x[0] == 'fn' and x[1] == 'int' and any(
        y[0] == 'fn' and y[1] in I.REAL_FNS or y[0] in I.REAL_FNS or y[0] in ('idx', 'sym') and y[1] in I.FLOAT_ARRS - T.INT_ARRS for y in T.subterms(x)) for x in T.subterms(t))


def witness(a, b):
    """True: values of the leaves were found at which the formulas differ; False: none among many; None: cannot be evaluated"""
    from .rules.common import evalnum, NoValue
    import random
    leaves = sorted({x for t in (a, b) for x in T.subterms(t) if x[0] in ('idx', 'sym', 'bv')}, key=T.key)
    rnd = random.Random(11)
    got = 0
    for k in range(60):
        env = {x: (rnd.choice((-1, 0, 1, 2, 3)) if k % 3 == 0 else rnd.choice((-1, 1)) if k % 3 == 1 else rnd.uniform(-2, 2)) for x in leaves}
        try:
            u, v = evalnum(a, env), evalnum(b, env)
            if isinstance(u, bool) or isinstance(v, bool):
                if bool(u) != bool(v):
                    return True
            elif isinstance(u, complex) or isinstance(v, complex):
                continue
            elif not abs(u - v) <= 1e-7 * (1 + abs(u) + abs(v)):
                return True
            got += 1
        except (NoValue, ZeroDivisionError, OverflowError, ValueError, TypeError):
            continue
    return False if got >= 8 else None


def _equal(a, b, facts=(), depth=0):
    """decide a == b on canonical terms: True / False / None.  Conditional values are compared case by case;
    uninterpreted leftovers make the answer None unless the terms coincide."""
    if a == b:
        return True
    if not (I.is_term(a) and I.is_term(b)):
        return None
    fx = FX.Facts(list(facts)) if depth == 0 else facts
    a, b = fx.simplify(a), fx.simplify(b)
    if a == b:
        return True
    conds = [x[1] for t in (a, b) for x in T.subterms(t) if x[0] == 'ite' and not any(y[0] == 'bv' for y in T.subterms(x[1]))]
    conds = [c for c in conds if c not in (T.TRUE, T.FALSE)]
    atoms = []
    for c in conds:
        for x in T.subterms(c):
            if x[0] in ('lt0', 'eq0', 'eqc', 'b') and x not in atoms:
                atoms.append(x)
    if atoms and depth < 7:
        c = atoms[0]
        res = []
        for cc in (c, T.lnot(c)):
            if fx.entails(T.lnot(cc)) is True:
                continue
            f2 = fx.plus([cc])
            v = T.TRUE if cc == c else T.FALSE
            a2, b2 = repl_cond(a, c, v), repl_cond(b, c, v)
            if cc[0] == 'eq0':
                # use the equation to rewrite one integer symbol
                env = eq_env(cc)
                a2, b2 = T.subst(a2, env), T.subst(b2, env)
                z = zero_mono(cc)
                if z is not None:
                    a2, b2 = drop_multiples(a2, z), drop_multiples(b2, z)
            res.append(_equal(a2, b2, f2, depth + 1))
        if any(r is False for r in res):
            return False
        if any(r is None for r in res):
            return None
        return True
    if has_opaque(a) or has_opaque(b):
        return None
    return rational(a, b)


def rational(a, b):
    """last step: identities of fractions and exponentials, and of the elementary functions the normal form does not know"""
    subs = list(T.subterms(a)) + list(T.subterms(b))
    fns = {x[1] for x in subs if x[0] == 'fn'}
    big = False
    if fns or any(x[0] == 'grp' for x in subs):
        try:
            v = ratio.same(a, b, 1500)
            if v is True:
                return True
            big = v is None
        except RecursionError:
            big = True
    if fns - {'exp'} or big:
        return identity(a, b, subs)
    return False


def identity(a, b, subs):
    """compare two closed formulas as functions of their leaves at fixed generic points (formula identity testing on the extracted terms)"""
    from .rules.common import evalnum, NoValue
    import random
    leaves = sorted({x for x in subs if x[0] in ('idx', 'sym', 'bv')}, key=T.key)
    rnd = random.Random(7)
    got = 0
    for lo, hi in ((-1.5, 1.5), (0.1, 0.9), (-0.9, 0.9), (0.05, 3.0), (1.2, 4.0), (-0.3, 0.3)) * 2:
        env = {x: rnd.uniform(lo, hi) for x in leaves}
        try:
            u, v = evalnum(a, env), evalnum(b, env)
            if isinstance(u, complex) or isinstance(v, complex):
                continue
            d = abs(u - v)
            if not d <= 1e-7 * (1 + abs(u) + abs(v)):
                return False
            got += 1
        except (NoValue, ZeroDivisionError, OverflowError, ValueError):
            continue
    return True if got >= 3 else None


def zero_mono(c):
    """the condition says that one product is zero"""
    p = T.to_poly(c[1])
    if len(p) == 1:
        (m, k), = p.items()
        if len(m) > 1 and all(isinstance(q, int) and q > 0 or q == int(q) and q > 0 for _, q in m):
            return dict(m)
    return None


def drop_multiples(t, z):
    def g(a):
        d = {}
        for m, c in a[1]:
            mm = dict(m)
            if not all(mm.get(x, 0) >= p for x, p in z.items()):
                d[m] = c
        return T.from_poly(d)
    return T.map_term(t, lambda a: a, g)


def eq_env(c):
    p = T.to_poly(c[1])
    for m, k in p.items():
        if len(m) == 1 and m[0][1] == 1 and abs(k) == 1 and m[0][0][0] in ('sym', 'bv', 'idx'):
            s = T.solve_for(c[1], m[0][0])
            if s is not None:
                return {m[0][0]: s}
    return {}


def repl_cond(t, c, v):
    nc = T.lnot(c)

    def f(x):
        if x == c:
            return v
        if x == nc:
            return T.lnot(v)
        return x
    return T.map_term(t, f)


# ---------------------------------------------------------------- driver
def run_check(pid, tier, seed, verbose=False):
    import importlib
    import sys
    import resource
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    mod = importlib.import_module('sa.rules.%s' % pid.lower())
    ctx = Ctx(pid, tier)
    broken = None
    try:
        mod.run(ctx)
    except AnalysisBroken as e:
        broken = str(e)
    except Exception as e:
        ctx.undecided('engine', pid, '%s: %s' % (type(e).__name__, e))
    known = load_known(pid)
    new, old = [], []
    for v in ctx.viol:
        (old if v[0] in known else new).append(v)
    wall = time.time() - ctx.t0
    decided = len(ctx.done) + len(ctx.viol)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'other'),
        'coverage': {
            'explanation': mod.__doc__.strip() if mod.__doc__ else '',
            'obligations': decided + len(ctx.und), 'discharged': len(ctx.done),
            'violated': len(new), 'known_findings': len(old), 'undecided': len(ctx.und),
            'violation_list': [{'key': v[0], 'rule': v[1], 'construct': v[2], 'message': v[3]} for v in new],
            'rules': ctx.rules, 'functions_analysed': sorted(ctx.analysed),
            'decided_samples': ['%s @ %s%s' % (a, b, (' : ' + c) if c else '') for a, b, c in ctx.done[:400]],
            'undecided_list': ['%s @ %s : %s' % x for x in ctx.und[:200]],
            'checker_cmd': 'python3 check.py %s' % pid,
            'trusted_base': ['CPython ast parser', 'clang 18 AST dump (native sources)', 'transfer functions in sa/libmodel.py',
                             'term normaliser sa/terms.py'],
        },
        'wall_s': round(wall, 3), 'violations': len(new),
        'assumptions': ctx.assumptions,
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for v in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, known[v[0]] or v[3]))
    if verbose:
        for x in ctx.done:
            print('ok   %s @ %s %s' % x)
        for x in ctx.und:
            print('UND  %s @ %s : %s' % x)
    print('%s: %d obligations discharged, %d undecided, %d violated, %d known, %.1fs' % (pid, len(ctx.done), len(ctx.und), len(new), len(old), wall))
    if new:
        os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
        for k, v in enumerate(new):
            path = os.path.join(EVID, 'replay', '%s-%d.txt' % (pid, k))
            with open(path, 'w') as f:
                f.write('property %s\nrule %s: %s\nconstruct %s\nkey %s\n\n%s\n\nre-run: python3 /verif/check.py %s\n' % (
                    pid, v[1], ctx.rules.get(v[1], ''), v[2], v[0], v[3], pid))
            print('  [%s] %s: %s' % (v[1], v[2], v[3][:600]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if broken:
        print('note %s: %s' % (pid, broken))
    if decided == 0:
        print('ANALYSIS-ERROR %s: nothing could be decided' % pid)
        return 2
    return 0
