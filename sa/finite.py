"""C02 by abstract interpretation of the C++ syntax trees: intervals of floating point numbers with NaN.

Every number is abstracted by  [lo, hi] (may include the infinities), `nan` (may be NaN) and `bad` (is certainly not
finite).  Arrays are abstracted by their generic element, loops over all elements of an array by one pass for that
element, objects with virtual functions by each of the classes derived from their base in turn.  The space of linear
predictors, responses and weights is cut into boxes; for each box, link and method, the abstract result either is
finite (obligation discharged), certainly not finite (violation, with the box), or undecided.  Nothing is executed.
Transfer functions are those of the floating point operations themselves (correctly rounded operations are monotone);
library functions get a relative slack.
"""
import math

INF = math.inf
TINY = 5e-324
MAXN = 1e6      # elements of a sum


class Unknown(Exception):
    pass


class Num:
    __slots__ = ('lo', 'hi', 'nan', 'bad')

    def __init__(self, lo, hi=None, nan=False, bad=False):
        if hi is None and lo is not None:
            hi = lo
        if lo is not None and lo > hi:
            lo = hi = None
        self.lo, self.hi, self.nan = lo, hi, nan
        self.bad = (bad or (lo is None and nan) or (lo is not None and lo == hi and math.isinf(lo))) and not (lo is None and not nan)

    def empty(self):
        return self.lo is None and not self.nan

    def maybad(self):
        return self.bad or self.nan or (self.lo is not None and (self.lo == -INF or self.hi == INF))

    def point(self):
        return self.lo is not None and self.lo == self.hi and not self.nan

    def __repr__(self):
        return '[%s, %s]%s%s' % (self.lo, self.hi, ' or NaN' if self.nan else '', ' (not finite)' if self.bad else '')


class Arr:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'array of ' + repr(self.e)


class Obj:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c


class Lam:
    __slots__ = ('e', 'vars', 'this')

    def __init__(self, e, vars, this):
        self.e, self.vars, self.this = e, vars, this


class Idx:
    """the index of the generic element"""
    pass


IDX = Idx()
SIZE = 'n'
TOP = Num(-INF, INF, True)
NAN = Num(None, None, True)


def join(a, b):
    if a is b:
        return a
    if a is None or b is None:
        return a if b is None else b
    if isinstance(a, Num) and isinstance(b, Num):
        if a.empty():
            return b
        if b.empty():
            return a
        if a.lo is None or b.lo is None:
            x = b if a.lo is None else a
            return Num(x.lo, x.hi, True, a.bad and b.bad)
        return Num(min(a.lo, b.lo), max(a.hi, b.hi), a.nan or b.nan, a.bad and b.bad)
    if isinstance(a, Arr) and isinstance(b, Arr):
        return Arr(join(a.e, b.e))
    if type(a) is type(b) and not isinstance(a, (Num, Arr)) and (a == b or isinstance(a, Obj) and a.c == b.c):
        return a
    raise Unknown('join of %r and %r' % (a, b))


# ------------------------------------------------------------------ floating point
def guard(f):
    def g(*a):
        for x in a:
            if isinstance(x, Num) and x.empty():
                return Num(None)
        return f(*a)
    return g


@guard
def neg(a):
    return Num(None if a.lo is None else -a.hi, None if a.lo is None else -a.lo, a.nan, a.bad)


@guard
def add(a, b):
    bad = a.bad or b.bad
    nan = a.nan or b.nan
    if a.lo is None or b.lo is None:
        return NAN
    lo, hi = a.lo + b.lo, a.hi + b.hi
    if (a.hi == INF and b.lo == -INF) or (a.lo == -INF and b.hi == INF):
        nan = True
    if math.isnan(lo):
        lo = -INF
        if a.point() and b.point():
            return NAN
    if math.isnan(hi):
        hi = INF
    return Num(lo, hi, nan, bad)


def sub(a, b):
    return add(a, neg(b))


@guard
def mul(a, b):
    bad = a.bad or b.bad
    nan = a.nan or b.nan
    if a.lo is None or b.lo is None:
        return NAN
    ps = []
    for x in (a.lo, a.hi):
        for y in (b.lo, b.hi):
            p = x * y
            if math.isnan(p):
                nan = True
            else:
                ps.append(p)
    if (a.lo <= 0 <= a.hi and (b.hi == INF or b.lo == -INF)) or (b.lo <= 0 <= b.hi and (a.hi == INF or a.lo == -INF)):
        nan = True
        ps.append(0.0) if not (a.bad or b.bad) else None
    if not ps:
        return NAN
    if bad and a.lo <= 0 <= a.hi and b.lo <= 0 <= b.hi:
        ps += [-INF, INF]
    return Num(min(ps), max(ps), nan, bad)


@guard
def div(a, b):
    if a.lo is None or b.lo is None:
        return NAN
    nan = a.nan or b.nan
    bad = a.bad
    if b.lo == b.hi == 0:
        if a.lo == a.hi == 0:
            return NAN
        if a.lo <= 0 <= a.hi:
            nan = True
        lo, hi = (INF, INF) if a.lo > 0 else (-INF, -INF) if a.hi < 0 else (-INF, INF)
        return Num(lo, hi, nan, True)
    if b.lo <= 0 <= b.hi:
        if a.lo <= 0 <= a.hi:
            nan = True
        if a.lo == a.hi == 0:
            return Num(0.0, 0.0, True)
        if (a.lo == -INF or a.hi == INF) and (b.lo == -INF or b.hi == INF):
            nan = True
        if b.lo == 0 and a.lo >= 0:
            q = a.lo / b.hi if a.lo != INF and b.hi != INF else (0.0 if a.lo != INF else (INF if b.hi != INF else 0.0))
            return Num(q, INF, nan, bad)
        if b.lo == 0 and a.hi <= 0:
            q = a.hi / b.hi if a.hi != -INF and b.hi != INF else (0.0 if a.hi != -INF else (-INF if b.hi != INF else 0.0))
            return Num(-INF, q, nan, bad)
        return Num(-INF, INF, nan, bad)
    ps = []
    for x in (a.lo, a.hi):
        for y in (b.lo, b.hi):
            if math.isinf(x) and math.isinf(y):
                nan = True
                continue
            ps.append(x / y)
    if any(math.isinf(x) for x in (a.lo, a.hi)) and any(math.isinf(y) for y in (b.lo, b.hi)):
        if not (a.bad and b.bad):
            ps += [0.0, INF if (a.hi == INF) == (b.hi == INF) else -INF]
    if not ps:
        return NAN
    return Num(min(ps), max(ps), nan, bad)


def fexp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return INF


def flog(x):
    return -INF if x == 0 else math.log(x) if x != INF else INF


def up(x, r=4e-16):
    return x if x == 0 or math.isinf(x) else x + abs(x) * r


def dn(x, r=4e-16):
    return x if x == 0 or math.isinf(x) else x - abs(x) * r


def mono(f, lo=-INF, hi=INF, outside=None, exact=(), slack=4e-16, badinf=False):
    """increasing function on [lo, hi], NaN outside"""
    @guard
    def g(a):
        if a.lo is None:
            return NAN
        nan = a.nan or a.lo < lo or a.hi > hi
        l, h = max(a.lo, lo), min(a.hi, hi)
        if l > h:
            return NAN
        x, y = f(l), f(h)
        if a.bad and a.lo < a.hi:     # one of the infinities
            return Num(x, y, True, False)
        if l not in exact:
            x = dn(x, slack)
        if h not in exact:
            y = up(y, slack)
        return Num(x, y, nan, (x == y and math.isinf(x)))
    return g


f_exp = mono(fexp, exact=(0.0,))
f_log = mono(flog, 0.0, exact=(1.0,))
f_log1p = mono(lambda x: -INF if x == -1 else INF if x == INF else math.log1p(x), -1.0, exact=(0.0,))
f_expm1 = mono(lambda x: INF if x > 709.8 else math.expm1(x), exact=(0.0,))
f_sqrt = mono(lambda x: math.sqrt(x), 0.0, exact=(0.0, 1.0))
f_tanh = mono(math.tanh, exact=(0.0,))
f_erf = mono(math.erf, exact=(0.0,), slack=1e-13)
f_floor = mono(lambda x: x if math.isinf(x) else float(math.floor(x)), slack=0)
f_ceil = mono(lambda x: x if math.isinf(x) else float(math.ceil(x)), slack=0)
f_atan = mono(math.atan, exact=(0.0,))


def f_erfc(a):
    r = mono(lambda x: -math.erfc(x), slack=1e-13)(a)
    return neg(r)


def f_cdf(a):
    r = mono(lambda x: 0.5 * math.erfc(-x / math.sqrt(2)), slack=1e-13)(a)
    if r.hi is not None and r.hi > 1:
        r = Num(r.lo, 1.0, r.nan)
    return r


@guard
def f_pdf(a):
    if a.lo is None:
        return NAN

    def f(x):
        return 0.0 if abs(x) > 1e3 else math.exp(-x * x / 2) / math.sqrt(2 * math.pi)
    v = [f(a.lo), f(a.hi)] + ([f(0.0)] if a.lo <= 0 <= a.hi else [])
    return Num(dn(min(v), 1e-13), up(max(v), 1e-13), a.nan)


@guard
def f_abs(a):
    if a.lo is None:
        return NAN
    if a.lo >= 0:
        return a
    if a.hi <= 0:
        return neg(a)
    return Num(INF if a.bad else 0.0, max(-a.lo, a.hi), a.nan, a.bad)


def fpow(x, k):
    try:
        return math.pow(x, k)
    except OverflowError:
        return -INF if x < 0 and k % 2 else INF
    except ValueError:
        return None


@guard
def f_pow(a, b):
    if b.nan or b.lo is None or a.lo is None:
        return NAN if (a.lo is None and b.point() and b.lo != 0) else TOP
    if not b.point():
        raise Unknown('power with an exponent that is not constant')
    k = b.lo
    if k == 0:
        return Num(1.0)
    if k == int(k) and not math.isinf(k):
        if k > 0:
            v = [fpow(a.lo, k), fpow(a.hi, k)]
            if k % 2 == 0 and a.lo <= 0 <= a.hi:
                v.append(INF if a.bad else 0.0)
            s = 0 if k in (1, 2) else 4e-16
            return Num(dn(min(v), s), up(max(v), s), a.nan, a.bad)
        return div(Num(1.0), f_pow(Num(a.lo, a.hi, a.nan, a.bad), Num(-k)))
    nan = a.nan or a.lo < 0
    l, h = max(a.lo, 0.0), a.hi
    if h < 0:
        return NAN
    v = [fpow(l, k) if not (l == 0 and k < 0) else INF, fpow(h, k) if not (h == 0 and k < 0) else INF]
    return Num(dn(min(v)), up(max(v)), nan)


def f_min(a, b):
    if a.lo is None or b.lo is None:
        return join(a, b)
    return Num(min(a.lo, b.lo), min(a.hi, b.hi), a.nan or b.nan)


def f_max(a, b):
    if a.lo is None or b.lo is None:
        return join(a, b)
    return Num(max(a.lo, b.lo), max(a.hi, b.hi), a.nan or b.nan)


def f_sum(a):
    if a.lo is None:
        return a
    return Num(min(a.lo, a.lo * MAXN), max(a.hi, a.hi * MAXN), a.nan, a.bad)


UN = {'exp': f_exp, 'log': f_log, 'log1p': f_log1p, 'expm1': f_expm1, 'sqrt': f_sqrt, 'tanh': f_tanh, 'erf': f_erf, 'erfc': f_erfc,
      'abs': f_abs, 'fabs': f_abs, 'floor': f_floor, 'ceil': f_ceil, 'atan': f_atan,
      'square': lambda a: f_pow(a, Num(2.0)), 'cube': lambda a: f_pow(a, Num(3.0)), 'inverse': lambda a: div(Num(1.0), a),
      'abs2': lambda a: f_pow(a, Num(2.0))}
BIN = {'+': add, '-': sub, '*': mul, '/': div, 'min': f_min, 'max': f_max, 'fmin': f_min, 'fmax': f_max, 'pow': f_pow,
       'cwiseProduct': mul, 'cwiseQuotient': div, 'cwiseMin': f_min, 'cwiseMax': f_max}


def lift(f, *xs):
    if any(x is IDX or x == SIZE or not isinstance(x, (Num, Arr)) for x in xs):
        raise Unknown('arithmetic on ' + ', '.join(type(x).__name__ for x in xs))
    if any(isinstance(x, Arr) for x in xs):
        return Arr(f(*[x.e if isinstance(x, Arr) else x for x in xs]))
    return f(*xs)


# ------------------------------------------------------------------ conditions
def compare(op, a, b):
    """(may be true, may be false)"""
    if not isinstance(a, Num) or not isinstance(b, Num):
        return True, True
    nan = a.nan or b.nan
    if op == '!=':
        t, f = compare('==', a, b)
        return f, t
    if a.lo is None or b.lo is None:
        return False, True
    if op == '<':
        return a.lo < b.hi, a.hi >= b.lo or nan
    if op == '<=':
        return a.lo <= b.hi, a.hi > b.lo or nan
    if op == '>':
        return compare('<', b, a)
    if op == '>=':
        return compare('<=', b, a)
    if op == '==':
        return a.lo <= b.hi and b.lo <= a.hi, not (a.point() and b.point() and a.lo == b.lo)
    return True, True


def restrict(op, a, b, truth):
    """a where (a op b) has the given truth value"""
    if not isinstance(a, Num) or not isinstance(b, Num) or b.lo is None or a.lo is None:
        return a if not (isinstance(a, Num) and a.lo is None and truth and op != '!=') else Num(None)
    if not truth:
        nan = a.nan
        if b.nan:
            return a
        o = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[op]
        r = restrict(o, Num(a.lo, a.hi, False, a.bad), b, True)
        return Num(r.lo, r.hi, nan and op != '!=', a.bad if r.lo is not None else nan)
    lo, hi = a.lo, a.hi
    if op == '<':
        hi = min(hi, b.hi if math.isinf(b.hi) and b.hi < 0 else math.nextafter(b.hi, -INF))
    elif op == '<=':
        hi = min(hi, b.hi)
    elif op == '>':
        lo = max(lo, math.nextafter(b.lo, INF))
    elif op == '>=':
        lo = max(lo, b.lo)
    elif op == '==':
        lo, hi = max(lo, b.lo), min(hi, b.hi)
    elif op == '!=':
        if b.point():
            if lo == b.lo:
                lo = math.nextafter(lo, INF)
            if hi == b.lo:
                hi = math.nextafter(hi, -INF)
        return Num(lo, hi, a.nan, a.bad)
    if lo > hi:
        return Num(None)
    return Num(lo, hi, False, a.bad)


SWAP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}


class LV:
    """a variable, or the generic element of one"""
    __slots__ = ('cell', 'el')

    def __init__(self, cell, el=False):
        self.cell, self.el = cell, el


class Frame:
    def __init__(self, f, this):
        self.f, self.this, self.vars, self.rets, self.up = f, this, {}, [], None


class Interp:
    def __init__(self, prog, dyn):
        self.p, self.dyn = prog, dyn
        self.store, self.n, self.depth = {}, 0, 0
        self.dead = False
        self.loop = 0

    # -------------------------------------------------------------- store
    def new(self, v):
        self.n += 1
        self.store[self.n] = v
        return LV(self.n)

    def get(self, x):
        if isinstance(x, LV):
            v = self.store[x.cell]
            if x.el:
                if not isinstance(v, Arr):
                    raise Unknown('element of ' + type(v).__name__)
                if v.e is None:
                    return TOP
                return v.e
            if isinstance(v, Arr) and v.e is None:
                return Arr(TOP)
            if v is None:
                return TOP
            return v
        return x

    def put(self, x, v, weak=False):
        if not isinstance(x, LV):
            raise Unknown('assignment to a temporary')
        if x.el:
            old = self.store[x.cell]
            if not isinstance(v, Num):
                raise Unknown('element assigned a ' + type(v).__name__)
            if weak and isinstance(old, Arr) and old.e is not None:
                v = join(old.e, v)
            self.store[x.cell] = Arr(v)
        else:
            self.store[x.cell] = v

    # -------------------------------------------------------------- functions
    def call(self, key, this, args):
        f = self.p['functions'].get(key)
        if f is None or f.get('body') is None:
            raise Unknown('no definition of ' + key)
        if self.depth > 20:
            raise Unknown('recursion')
        fr = Frame(f, this)
        for p, a in zip(f['params'], args):
            if p.get('ref') and isinstance(a, LV):
                fr.vars[p['id']] = a
            else:
                fr.vars[p['id']] = self.new(self.get(a))
        odead, oloop = self.dead, self.loop
        self.dead, self.loop = False, 0
        self.depth += 1
        try:
            self.stmt(f['body'], fr)
        finally:
            self.depth -= 1
        return self.result(fr, odead, oloop)

    def result(self, fr, odead, oloop):
        v, st = None, None
        live = None if self.dead else self.store
        for r, s in fr.rets:
            v = r if v is None else join(v, r)
            st = s if st is None else self.merge(st, s)
        if live is not None:
            st = live if st is None else self.merge(st, live)
        self.dead, self.loop = odead, oloop
        if st is None:          # always throws
            self.dead = True
            return Num(None)
        self.store = st
        return v

    def merge(self, a, b):
        out = {}
        for k in a:
            if k in b:
                try:
                    out[k] = join(a[k], b[k])
                except Unknown:
                    out[k] = TOP
        return out

    # -------------------------------------------------------------- statements
    def stmt(self, s, fr):
        if s is None or self.dead:
            return
        k = s['k']
        if k == 'blk':
            for x in s['s']:
                self.stmt(x, fr)
        elif k == 'expr':
            self.ev(s['e'], fr)
        elif k == 'decl':
            for v in s['v']:
                self.decl(v, fr)
        elif k == 'if':
            self.branch(s, fr)
        elif k == 'ret':
            v = self.get(self.ev(s['e'], fr)) if s.get('e') is not None else None
            if self.loop:
                raise Unknown('return inside a loop')
            fr.rets.append((v, self.store))
            self.dead = True
        elif k in ('for', 'rfor', 'while'):
            self.iterate(s, fr)
        elif k in ('cont',):
            fr.conts.append(self.store)
            self.dead = True
        elif k == 'nop':
            pass
        else:
            raise Unknown('statement ' + k)

    def decl(self, v, fr):
        i = v.get('init')
        x = None
        if i is not None:
            x = self.ev(i, fr)
            if v.get('ref') and isinstance(x, LV):
                fr.vars[v['id']] = x
                return
            x = self.get(x)
        t = v['t']
        if isinstance(x, Num) and t in ('i', 'u') and x.lo is not None and not x.maybad():
            x = Num(float(math.trunc(x.lo)), float(math.trunc(x.hi)))
        if x is None and t[:2] in ('EA', 'EM'):
            x = Arr(None)
        fr.vars[v['id']] = self.new(x)

    def branch(self, s, fr):
        if s.get('init') is not None:
            self.stmt(s['init'], fr)
        base = self.store
        outs = []
        for truth, b in ((True, s.get('a')), (False, s.get('b'))):
            self.store, self.dead = dict(base), False
            if self.assume(s['c'], fr, truth):
                self.stmt(b, fr)
                if not self.dead:
                    outs.append(self.store)
        if not outs:
            self.dead = True
            self.store = base
            return
        self.dead = False
        self.store = outs[0] if len(outs) == 1 else self.merge(*outs)

    def assume(self, c, fr, truth):
        """restrict the store to where c has this truth value; False when that cannot be"""
        k = c['k']
        if k == 'un' and c['op'] == '!':
            return self.assume(c['e'], fr, not truth)
        if k in ('copy', 'cast'):
            return self.assume(c['e'], fr, truth)
        if k == 'bool':
            return bool(c['v']) == truth
        if k == 'bin' and c['op'] in ('&&', '||'):
            if (c['op'] == '&&') == truth:
                return self.assume(c['a'], fr, truth) and self.assume(c['b'], fr, truth)
            base = dict(self.store)
            ok1 = self.assume(c['a'], fr, truth)
            s1 = self.store
            self.store = dict(base)
            ok2 = self.assume(c['a'], fr, not truth) and self.assume(c['b'], fr, truth)
            s2 = self.store
            if ok1 and ok2:
                self.store = self.merge(s1, s2)
            else:
                self.store = s1 if ok1 else s2
            return ok1 or ok2
        if k == 'bin' and c['op'] in SWAP:
            a, b = self.ev(c['a'], fr), self.ev(c['b'], fr)
            x, y = self.get(a), self.get(b)
            if isinstance(x, str) and isinstance(y, str) and x != SIZE and y != SIZE:
                return ((x == y) == (c['op'] == '==')) == truth
            t, f = compare(c['op'], x, y)
            if not (t if truth else f):
                return False
            if isinstance(a, LV) and isinstance(x, Num) and isinstance(y, Num):
                r = restrict(c['op'], x, y, truth)
                if r.empty():
                    return False
                self.put(a, r)
            if isinstance(b, LV) and isinstance(y, Num) and isinstance(x, Num):
                r = restrict(SWAP[c['op']], y, x, truth)
                if r.empty():
                    return False
                self.put(b, r)
            return True
        if k in ('call', 'op') and (c.get('f') or {}).get('n') in ('isnan', 'isfinite', 'isinf') and c.get('a'):
            a = self.ev(c['a'][0], fr)
            x = self.get(a)
            if isinstance(x, Num):
                n = c['f']['n']
                if n == 'isnan':
                    r = (NAN if x.nan else Num(None)) if truth else Num(x.lo, x.hi, False, x.bad and x.lo is not None)
                elif n == 'isfinite':
                    big = 1.7976931348623157e308
                    if truth:
                        r = Num(max(x.lo, -big), min(x.hi, big)) if x.lo is not None and not x.bad else Num(None)
                    else:
                        r = Num(x.lo, x.hi, x.nan, True) if x.maybad() else Num(None)
                else:
                    r = x
                if r.empty():
                    return False
                if isinstance(a, LV):
                    self.put(a, r)
                return True
        if k == 'op' and c.get('op') in SWAP and len(c['a']) == 2:
            x, y = self.get(self.ev(c['a'][0], fr)), self.get(self.ev(c['a'][1], fr))
            if isinstance(x, str) and isinstance(y, str):
                return ((x == y) == (c['op'] == '==')) == truth
        v = self.get(self.ev(c, fr))
        if isinstance(v, tuple):
            return v[0] if truth else v[1]
        return True

    def whole(self, s):
        """for(i = 0; i < size; ++i)"""
        if s['k'] != 'for' or not s.get('init') or s['init']['k'] != 'decl' or len(s['init']['v']) != 1:
            return None
        v = s['init']['v'][0]
        i = v.get('init')
        while i and i['k'] in ('cast', 'copy'):
            i = i['e']
        c, inc = s.get('c'), s.get('inc')
        if not i or not c or not inc:
            return None

        def isv(x):
            while x['k'] in ('cast', 'copy'):
                x = x['e']
            return x['k'] == 'ref' and x.get('id') == v['id']
        if i['k'] == 'int' and i['v'] == 0 and c['k'] == 'bin' and c['op'] in ('<', '!=') and isv(c['a']) and \
                inc['k'] == 'un' and inc['op'].startswith('++') and isv(inc['e']):
            return v, c['b']
        return None

    def iterate(self, s, fr):
        w = self.whole(s)
        if w is None:
            if s['k'] == 'rfor':
                r = self.ev(s['r'], fr)
                if not isinstance(self.get(r), Arr):
                    raise Unknown('loop over something else')
                if not isinstance(r, LV):
                    r = self.new(r)
                v = s['v']
                el = LV(r.cell, True)
                fr.vars[v['id']] = el if v.get('ref') else self.new(self.get(el))
            else:
                raise Unknown('a loop that is not over all elements')
        else:
            v, bound = w
            if self.get(self.ev(bound, fr)) != SIZE:
                raise Unknown('a loop whose bound is not the size of an array')
            fr.vars[v['id']] = self.new(IDX)
        oc = getattr(fr, 'conts', None)
        fr.conts = []
        self.loop += 1
        self.stmt(s['body'], fr)
        self.loop -= 1
        outs = fr.conts + ([] if self.dead else [self.store])
        fr.conts = oc
        if not outs:
            raise Unknown('a loop that always leaves')
        self.dead = False
        st = outs[0]
        for o in outs[1:]:
            st = self.merge(st, o)
        self.store = st

    # -------------------------------------------------------------- expressions
    def ev(self, e, fr):
        k = e['k']
        if k == 'int':
            return Num(float(e['v']))
        if k == 'flt':
            return Num(float(e['v']))
        if k == 'bool':
            return (bool(e['v']), not e['v'])
        if k == 'str':
            return e['v']
        if k == 'this':
            return fr.this
        if k == 'ref':
            if e['d'] in ('parm', 'local'):
                f = fr
                while f is not None:
                    if e['id'] in f.vars:
                        return f.vars[e['id']]
                    f = f.up
            raise Unknown('variable ' + str(e.get('n') or e.get('q')))
        if k in ('copy', 'dflt'):
            return self.get(self.ev(e['e'], fr))
        if k == 'cast':
            v = self.ev(e['e'], fr)
            if e.get('t') in ('i', 'u') and isinstance(self.get(v), Num):
                x = self.get(v)
                if x.lo is not None and not x.maybad():
                    return Num(float(math.trunc(x.lo)), float(math.trunc(x.hi)))
            return v
        if k == 'mem':
            return self.member(e, fr)
        if k == 'un':
            return self.unary(e, fr)
        if k == 'bin':
            if e['op'] in BIN:
                return lift(BIN[e['op']], self.get(self.ev(e['a'], fr)), self.get(self.ev(e['b'], fr)))
            if e['op'] in SWAP:
                x, y = self.get(self.ev(e['a'], fr)), self.get(self.ev(e['b'], fr))
                return compare(e['op'], x, y)
            if e['op'] in ('&&', '||'):
                x, y = self.get(self.ev(e['a'], fr)), self.get(self.ev(e['b'], fr))
                if isinstance(x, tuple) and isinstance(y, tuple):
                    return (x[0] and y[0], x[1] or y[1]) if e['op'] == '&&' else (x[0] or y[0], x[1] and y[1])
            raise Unknown('operator ' + e['op'])
        if k == 'asg':
            return self.assign(e['op'], e['a'], e['b'], fr)
        if k == 'cond':
            base = self.store
            v, sts = None, []
            for truth, b in ((True, e['a']), (False, e['b'])):
                self.store = dict(base)
                if self.assume(e['c'], fr, truth):
                    x = self.get(self.ev(b, fr))
                    v = x if v is None else join(v, x)
                    sts.append(self.store)
            if not sts:
                raise Unknown('condition')
            self.store = sts[0] if len(sts) == 1 else self.merge(*sts)
            # what was assumed in the alternatives holds in neither afterwards
            self.store = {c: (base[c] if c in base and not self.written(e) else x) for c, x in self.store.items()}
            return v
        if k == 'op':
            return self.operator(e, fr)
        if k in ('call', 'mcall'):
            return self.function(e, fr)
        if k == 'ctor':
            return self.construct(e, fr)
        if k == 'lambda':
            return Lam(e, fr, fr.this)
        if k == 'throw':
            self.dead = True
            return Num(None)
        if k == 'subs':
            return self.element(e['a'], [e['b']] if 'b' in e else e.get('i', []), fr)
        if k == 'zero':
            return Num(0.0)
        raise Unknown('expression ' + k)

    def written(self, e):
        if isinstance(e, dict):
            if e.get('k') == 'asg' or e.get('k') == 'un' and e.get('op', '')[:2] in ('++', '--'):
                return True
            return any(self.written(x) for x in e.values())
        if isinstance(e, list):
            return any(self.written(x) for x in e)
        return False

    def member(self, e, fr):
        b = e['b']
        o = fr.this if b['k'] == 'this' else self.get(self.ev(b, fr))
        if not isinstance(o, Obj):
            raise Unknown('field of ' + type(o).__name__)
        for c in self.mro(o.c):
            for x in self.p['classes'].get(c, {}).get('fields', ()):
                if x['n'] == e['n']:
                    return self.field(o.c, x)
        raise Unknown('field ' + e['n'])

    def mro(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            for b in self.p['classes'].get(x, {}).get('bases', ()):
                todo.append(b if isinstance(b, str) else b.get('n') or b.get('c'))
        return out

    def field(self, cls, x):
        t = x['t']
        if t in ('d', 'i', 'u'):
            if x.get('init') is not None:
                return self.ev(x['init'], Frame({}, Obj(cls)))
            raise Unknown('value of the field ' + x['n'])
        if t.startswith('std::shared_ptr<') or t.startswith('std::unique_ptr<'):
            return Obj(t[t.index('<') + 1:-1].split(',')[0].strip())
        if t[:2] in ('EA', 'EM'):
            raise Unknown('value of the field ' + x['n'])
        return Obj(t.lstrip('*'))

    def unary(self, e, fr):
        op = e['op'].replace('post', '').strip()
        if op == '-':
            return lift(neg, self.get(self.ev(e['e'], fr)))
        if op == '+':
            return self.get(self.ev(e['e'], fr))
        if op in ('*', '&'):
            return self.ev(e['e'], fr)
        if op == '!':
            v = self.get(self.ev(e['e'], fr))
            if isinstance(v, tuple):
                return (v[1], v[0])
        raise Unknown('operator ' + op)

    def assign(self, op, a, b, fr):
        lv = self.ev(a, fr)
        v = self.get(self.ev(b, fr))
        if isinstance(v, Arr) and v.e is None:
            v = Arr(TOP)
        if op == '=':
            old = self.get(lv) if isinstance(lv, LV) else None
            if isinstance(old, Arr) and isinstance(v, Num):
                v = Arr(v)
            self.put(lv, v)
            return lv
        o = op[0]
        if o not in BIN:
            raise Unknown('operator ' + op)
        if self.loop and isinstance(lv, LV) and not lv.el and isinstance(self.get(lv), Num):
            if o in '+-' and isinstance(v, Num):      # a sum over all elements
                self.put(lv, BIN[o](self.get(lv), f_sum(v)))
                return lv
            raise Unknown('accumulation')
        self.put(lv, lift(BIN[o], self.get(lv), v))
        return lv

    def element(self, base, idx, fr):
        b = self.ev(base, fr)
        i = self.get(self.ev(idx[0], fr)) if idx else None
        if not isinstance(self.get(b), Arr):
            raise Unknown('element of ' + type(self.get(b)).__name__)
        if isinstance(b, LV) and i is IDX:
            return LV(b.cell, True)
        v = self.get(b)
        if i is IDX:
            return v.e
        raise Unknown('another element than the one of the loop')

    def operator(self, e, fr):
        op, a = e['op'], e['a']
        f = e.get('f') or {}
        if op in ('()', '[]'):
            o = self.get(self.ev(a[0], fr))
            if isinstance(o, Lam):
                return self.apply(o, [self.ev(x, fr) for x in a[1:]])
            return self.element(a[0], a[1:], fr)
        if op in ('->', '*') and len(a) == 1:
            return self.ev(a[0], fr)
        if op == '-' and len(a) == 1:
            return lift(neg, self.get(self.ev(a[0], fr)))
        if f.get('p'):
            return self.function(e, fr)
        if op in ('=', '+=', '-=', '*=', '/='):
            return self.assign(op, a[0], a[1], fr)
        if op in BIN and len(a) == 2:
            return lift(BIN[op], self.get(self.ev(a[0], fr)), self.get(self.ev(a[1], fr)))
        raise Unknown('operator ' + op)

    def apply(self, lam, args):
        fr = Frame(lam.e, lam.this)
        fr.up = lam.vars
        for p, a in zip(lam.e['params'], args):
            fr.vars[p['id']] = a if p.get('ref') and isinstance(a, LV) else self.new(self.get(a))
        odead, oloop = self.dead, self.loop
        self.dead, self.loop = False, 0
        self.depth += 1
        if self.depth > 20:
            raise Unknown('recursion')
        try:
            self.stmt(lam.e['body'], fr)
        finally:
            self.depth -= 1
        return self.result(fr, odead, oloop)

    def function(self, e, fr):
        f = e.get('f') or {}
        n = f.get('n') or ''
        if not f and e.get('callee'):
            o = self.get(self.ev(e['callee'], fr))
            if isinstance(o, Lam):
                return self.apply(o, [self.ev(x, fr) for x in e['a']])
            raise Unknown('call of a value')
        args = e.get('a', [])
        obj = None
        if e['k'] == 'mcall':
            obj = fr.this if e['o']['k'] == 'this' else self.ev(e['o'], fr)
        elif e['k'] == 'op' and f.get('c'):
            obj, args = self.ev(args[0], fr), args[1:]
        if f.get('p'):
            key = f['s']
            if f.get('virt') and not e.get('nonvirt'):
                o = self.get(obj)
                c = o.c if isinstance(o, Obj) else None
                c = self.dyn.get(c, c)
                key = self.resolve(c, f)
                obj = Obj(c)
            return self.call(key, self.get(obj) if obj is not None else None, [self.ev(x, fr) for x in args])
        ov = self.get(obj) if obj is not None else None
        if isinstance(ov, Arr):
            if n in ('size', 'rows', 'cols'):
                if n == 'cols':
                    return Num(1.0)
                return SIZE
            if n in ('array', 'matrix', 'eval', 'derived', 'transpose', 'noalias', 'col'):
                return obj
            if n in ('sum',):
                return f_sum(ov.e)
            if n == 'dot':
                y = self.get(self.ev(args[0], fr))
                return f_sum(lift(mul, ov, y).e)
            if n == 'mean':
                return ov.e
            if n in ('minCoeff', 'maxCoeff'):
                return ov.e
            if n in ('operator()', 'coeff', 'coeffRef', 'operator[]'):
                return self.element(e['o'], args, fr)
            if n in ('min', 'max', 'cwiseMin', 'cwiseMax', 'pow', 'cwiseProduct', 'cwiseQuotient') and len(args) == 1:
                return lift(BIN[n], ov, self.get(self.ev(args[0], fr)))
            if n.startswith('cwise') and not args and n[5:6].lower() + n[6:] in UN:
                return lift(UN[n[5:6].lower() + n[6:]], ov)
            if n in UN and not args:
                return lift(UN[n], ov)
            if n in ('unaryExpr',) and len(args) == 1:
                lam = self.get(self.ev(args[0], fr))
                if isinstance(lam, Lam):
                    return Arr(self.get(self.apply(lam, [ov.e])))
            if n in ('setZero', 'setOnes', 'setConstant', 'fill'):
                v = Num(0.0) if n == 'setZero' else Num(1.0) if n == 'setOnes' else self.get(self.ev(args[-1], fr))
                self.put(obj, Arr(v))
                return obj
            if n in ('begin', 'end', 'data'):
                return ('it', obj, n)
            raise Unknown('method ' + n)
        if n in ('get', 'operator->', 'operator*') and isinstance(ov, Obj):
            return ov
        if e['k'] == 'mcall':
            if n == 'size':
                return SIZE
            raise Unknown('method ' + n)
        vs = [self.ev(x, fr) for x in args]
        gs = [self.get(x) for x in vs]
        if n in UN and len(gs) == 1 and isinstance(gs[0], (Num, Arr)):
            return lift(UN[n], gs[0])
        if n in ('pow', 'min', 'max', 'fmin', 'fmax') and len(gs) == 2:
            return lift(BIN[n], *gs)
        if n == 'exp2' and len(gs) == 1:
            return lift(lambda x: f_exp(mul(x, Num(math.log(2)))), gs[0])
        if n in ('pdf', 'cdf') and len(gs) == 2 and isinstance(gs[0], Obj):
            return lift(f_pdf if n == 'pdf' else f_cdf, gs[1])
        if n in ('Zero', 'Ones', 'Constant'):
            return Arr(Num(0.0) if n == 'Zero' else Num(1.0) if n == 'Ones' else gs[-1])
        if n in ('move', 'forward', 'ref', 'cref') and len(vs) == 1:
            return vs[0]
        if n == 'complement' and len(gs) == 2:
            raise Unknown('complement')
        raise Unknown('function ' + n)

    def resolve(self, cls, f):
        tail = f['s'].split('::', f['q'].count('::'))[-1] if '::' in f['q'] else f['s']
        for c in self.mro(cls) if cls else ():
            k = c + '::' + tail
            if k in self.p['functions'] and self.p['functions'][k].get('body') is not None:
                return k
        raise Unknown('virtual function %s of %s' % (f['n'], cls))

    def construct(self, e, fr):
        args = e.get('a', [])
        args = [x for x in args if x['k'] != 'dflt']
        t = e.get('t', '')
        if t[:2] in ('EA', 'EM'):
            if not args:
                return Arr(None)
            v = self.get(self.ev(args[0], fr))
            if len(args) == 1 and isinstance(v, Arr):
                return v
            if v == SIZE or isinstance(v, Num):
                if len(args) == 1:
                    return Arr(None)
                if len(args) == 2 and args[1].get('t') in ('d', 'f'):
                    return Arr(self.get(self.ev(args[1], fr)))
                return Arr(None)
        if t.startswith('std::vector<double') and args:
            v = self.get(self.ev(args[0], fr))
            if isinstance(v, Arr):
                return v
            if v == SIZE:
                return Arr(self.get(self.ev(args[1], fr)) if len(args) > 1 else Num(0.0))
        if len(args) == 1:
            v = self.get(self.ev(args[0], fr))
            if isinstance(v, (str, Obj, Lam)):
                return v
        if t and t not in ('d', 'i') and not args:
            return Obj(t)
        if 'normal_distribution' in t or 'boost::math::normal' in t:
            return Obj(t)
        raise Unknown('constructor of ' + t)


# ------------------------------------------------------------------ the property
XS = [-1e100, -1e60, -1e20, -1e8, -1000.0, -710.0, -300.0, -100.0, -40.0, -37.0, -20.0, -8.0, -4.0, -1.0, 0.0]


def boxes():
    xs = XS + [-x for x in reversed(XS[:-1])]
    cells = [Num(a, b) for a, b in zip(xs, xs[1:])] + [Num(x) for x in (0.0, 1000.0, -1000.0, 40.0, -40.0, 1e100, -1e100)]
    ys = [Num(0.0), Num(1.0), Num(TINY, 1 - 2.0 ** -53)]
    ws = [Num(0.0), Num(TINY, 1e6)]
    for x in cells:
        for y in ys:
            for w in ws:
                yield x, y, w


def derived(p, base):
    out = []
    for n, c in p['classes'].items():
        bs = [b if isinstance(b, str) else b.get('n') or b.get('c') for b in c.get('bases', ())]
        if base in bs:
            out.append(n)
    return sorted(out)


def analyse(p, deep=False):
    """results: list of (verdict, link, family, function, file, line, text); statistics"""
    fam = [k for k, f in p['functions'].items() if f.get('c') == 'Family' and f['n'].startswith('evaluate') and len(f['params']) == 3 and
           all(x['t'] == 'EA1' for x in f['params']) and f.get('body')]
    links, fams = derived(p, 'LinkBase'), derived(p, 'FamilyBase')
    res, stats = [], dict(methods=len(fam), links=links, families=fams, boxes=0, discharged=0)
    for k in sorted(fam):
        f = p['functions'][k]
        for l in links:
            for b in fams:
                ok = n = 0
                worst = None
                for x, y, w in boxes():
                    n += 1
                    v, t = judge(p, k, {'LinkBase': l, 'FamilyBase': b}, x, y, w, 4 if deep else 2)
                    if v == 'finite':
                        ok += 1
                    elif worst is None or (v == 'violation' and worst[0] != 'violation'):
                        worst = (v, t)
                stats['boxes'] += n
                stats['discharged'] += ok
                if worst:
                    res.append((worst[0], l, b, k, f['file'], f['line'], worst[1] + '; %d of %d boxes are finite' % (ok, n)))
    return res, stats


def judge(p, key, dyn, x, y, w, depth):
    it = Interp(p, dyn)
    try:
        r = it.call(key, Obj('Family'), [it.new(Arr(x)), it.new(Arr(y)), it.new(Arr(w))])
        r = it.get(r)
        if isinstance(r, Arr):
            r = r.e
    except Unknown as e:
        return 'undecided', 'not modelled: %s' % e
    except (KeyError, AttributeError, TypeError, IndexError, OverflowError, ValueError, RecursionError) as e:
        return 'undecided', 'not modelled: %s %s' % (type(e).__name__, e)
    if not isinstance(r, Num):
        return 'undecided', 'not modelled: result'
    if r.bad:
        return 'violation', 'the result is not finite for linear predictors in %r, responses in %r, weights in %r: %r' % (x, y, w, r)
    if not r.maybad() or r.empty():
        return 'finite', ''
    if depth and x.hi > x.lo:
        m = (x.lo + x.hi) / 2 if x.lo * x.hi <= 0 or x.hi / x.lo < 10 and x.lo / x.hi < 10 else math.copysign(math.sqrt(x.lo * x.hi), x.lo) \
            if abs(x.lo) < 1e150 else (x.lo + x.hi) / 2
        out = [judge(p, key, dyn, Num(a, b), y, w, depth - 1) for a, b in ((x.lo, m), (m, x.hi))]
        for o in out:
            if o[0] == 'violation':
                return o
        if all(o[0] == 'finite' for o in out):
            return 'finite', ''
    return 'undecided', 'the result may not be finite for linear predictors in %r, responses in %r, weights in %r: %r' % (x, y, w, r)
