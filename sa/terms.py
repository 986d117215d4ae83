"""Hash-consed value-graph terms and their algebraic normal forms.

A term is an immutable node (op, args).  Everything a front end computes is put
in normal form as it is built, so that two expressions which denote the same
value by the algebra known here are the same object:

  * elementwise arithmetic  -> polynomials over atoms, with exact rationals
  * matrix products         -> words, with transposition pushed to the letters
  * booleans                -> and/or sets, one orientation of each comparison
  * conditionals (gamma)    -> pushed towards the arguments that differ
  * bound variables         -> de Bruijn indices
"""
import zlib
from fractions import Fraction
import itertools

_table = {}
_counter = itertools.count()
ORIGIN = {}          # term -> (file, line): first place of the analysed code that built it
CUR = [None]         # current source location, or None


class T:
    __slots__ = ('op', 'args', 'id', 'maxbv', '_fv', 'sk', '__weakref__')

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


def _mb(a):
    if isinstance(a, T):
        return a.maxbv
    if isinstance(a, tuple):
        m = 0
        for x in a:
            v = _mb(x)
            if v > m:
                m = v
        return m
    return 0


def _sk(a, flat):
    if isinstance(a, T):
        return a.sk
    if isinstance(a, tuple):
        if flat:
            return sum(_sk(x, False) for x in a) & 0xffffffffffff
        r = 7
        for x in a:
            r = (r * 1000003 + _sk(x, False)) & 0xffffffffffff
        return r
    return zlib.crc32(str(a).encode())


def _skel(op, args):
    """hash of the structure: the same whatever the age of the terms and the names of bound variables"""
    if op in ('var', 'bv'):
        return 12345
    flat = op in ('poly', 'or', 'eq')
    r = zlib.crc32(op.encode())
    if op == 'poly':
        for c, m in args[0]:
            q = zlib.crc32(str(c).encode())
            for a, e in m:
                q += a.sk * (zlib.crc32(str(e).encode()) | 1)
            r += (q * 2654435761) & 0xffffffffffff
        return r & 0xffffffffffff
    if op == 'eq':
        return (r + _sk(args[0], flat) + _sk(args[1], flat)) & 0xffffffffffff
    for a in args:
        r = (r * 1000003 + _sk(a, flat)) & 0xffffffffffff
    return r


def skey(t):
    return (bool(free_vars(t)), t.sk, t.id)


def mk(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = next(_counter)
        t._fv = None
        t.sk = _skel(op, args)
        if op == 'bv':
            t.maxbv = args[0] + 1
        elif op == 'lam':
            t.maxbv = max(0, args[1].maxbv - args[0])
        else:
            t.maxbv = _mb(args)
        _table[key] = t
    if CUR[0] is not None and t not in ORIGIN:
        ORIGIN[t] = CUR[0]
    return t


# ------------------------------------------------------------------ atoms
def num(v):
    return mk('num', Fraction(v))


def s_(v):
    return mk('str', v)


def sym(n):
    return mk('sym', n)


TRUE = mk('lgl', True)
FALSE = mk('lgl', False)
NULL = mk('null')
MISSING = mk('missing')
ZERO = num(0)
ONE = num(1)
_fresh = itertools.count()


def fresh(hint='v'):
    return mk('var', hint, next(_fresh))


def lgl(b):
    return TRUE if b else FALSE


def isnum(t):
    return t.op == 'num'


def children(t):
    out = []

    def go(a):
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            for x in a:
                go(x)
    for a in t.args:
        go(a)
    return out


def free_vars(t):
    """set of 'var' terms in t"""
    if t._fv is not None:
        return t._fv
    if t.op == 'var':
        r = frozenset([t])
    else:
        cs = children(t)
        if not cs:
            r = frozenset()
        else:
            r = frozenset().union(*[free_vars(c) for c in cs])
    t._fv = r
    return r


def contains(t, sub):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x is sub:
            return True
        if x in seen:
            continue
        seen.add(x)
        stack.extend(children(x))
    return False


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


# ---------------------------------------------------------- reconstruction
def rebuild(t, f):
    """t with f applied to its children, through the normalising constructors"""
    def go(a):
        if isinstance(a, T):
            return f(a)
        if isinstance(a, tuple):
            return tuple(go(x) for x in a)
        return a
    op = t.op
    if op == 'poly':
        acc = []
        for c, mono in t.args[0]:
            m = num(c)
            for at, e in mono:
                m = mul(m, pow_(f(at), num(e)))
            acc.append(m)
        return add(*acc)
    a = tuple(go(x) for x in t.args)
    b = _BUILD.get(op)
    if b:
        return b(*a)
    return mk(op, *a)


def subst(t, m):
    """m: dict term -> term (replaces whole terms, no capture issues: bvs stay)"""
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        if x in memo:
            return memo[x]
        if not children(x):
            r = x
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def subst_vars(t, m):
    keys = frozenset(m)

    memo = {}

    def go(x):
        if x in m:
            return m[x]
        if not (free_vars(x) & keys):
            return x
        if x in memo:
            return memo[x]
        r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def lam(vars_, body):
    """abstract over the given 'var' terms (first var = bv n-1 ... last = bv 0)"""
    n = len(vars_)
    pos = {v: n - 1 - i for i, v in enumerate(vars_)}
    vs = frozenset(vars_)
    memo = {}

    def go(x, d):
        if x.op == 'var' and x in pos:
            return mk('bv', pos[x] + d)
        if x.op == 'bv':
            return x if x.args[0] < d else mk('bv', x.args[0] + n)
        if not (free_vars(x) & vs) and x.maxbv <= d:
            return x
        k = (x, d)
        if k in memo:
            return memo[k]
        if x.op == 'lam':
            r = mk('lam', x.args[0], go(x.args[1], d + x.args[0]))
        else:
            r = rebuild(x, lambda y: go(y, d))
        memo[k] = r
        return r
    b = go(body, 0)
    # eta: \i. f(i) stays as it is
    return mk('lam', n, b)


def apply_lam(l, args):
    n = l.args[0]
    assert n == len(args)
    memo = {}

    def shift(x, k, d=0):
        if k == 0 or x.maxbv <= d:
            return x
        if x.op == 'bv':
            return mk('bv', x.args[0] + k)
        if x.op == 'lam':
            return mk('lam', x.args[0], shift(x.args[1], k, d + x.args[0]))
        return rebuild(x, lambda y: shift(y, k, d))

    def go(x, d):
        if x.maxbv <= d:
            return x
        k = (x, d)
        if k in memo:
            return memo[k]
        if x.op == 'bv':
            i = x.args[0] - d
            if i < n:
                r = shift(args[n - 1 - i], d)
            else:
                r = mk('bv', x.args[0] - n)
        elif x.op == 'lam':
            r = mk('lam', x.args[0], go(x.args[1], d + x.args[0]))
        else:
            r = rebuild(x, lambda y: go(y, d))
        memo[k] = r
        return r
    return go(l.args[1], 0)


# ------------------------------------------------------------- polynomials
def terms_of(t):
    """dict mono -> coef"""
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return {m: c for c, m in t.args[0]}
    return {((t, Fraction(1)),): Fraction(1)}


ZHOOK = [None]


def from_terms(d):
    d = {m: c for m, c in d.items() if c != 0}
    if ZHOOK[0]:
        d = ZHOOK[0](d)
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = sorted(((c, m) for m, c in d.items()),
                   key=lambda cm: (tuple((a.id, e) for a, e in cm[1]), cm[0]))
    return mk('poly', tuple(items))


def add(*ts):
    d = {}
    for t in ts:
        for m, c in terms_of(t).items():
            d[m] = d.get(m, 0) + c
    return from_terms(d)


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    # exp(a)^i * exp(b)^j = exp(i a + j b)
    exps = [(a, e) for a, e in d.items() if a.op == 'call' and a.args[0] == 'exp' and e != 0]
    if len(exps) > 1 or (exps and exps[0][1] != 1):
        tot = ZERO
        for a, e in exps:
            tot = add(tot, mul(num(e), a.args[1][0][1]))
            del d[a]
        if not (isnum(tot) and tot.args[0] == 0):
            k = call('exp', tot)
            if k.op == 'call':
                d[k] = d.get(k, 0) + 1
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda ae: ae[0].id))


MAXTERMS = 400


def mul(*ts):
    d = {(): Fraction(1)}
    for t in ts:
        td = terms_of(t)
        if len(d) * len(td) > MAXTERMS:
            td = {((t, Fraction(1)),): Fraction(1)}
            if len(d) > 1 and len(d) * len(td) > MAXTERMS:
                x = from_terms(d)
                d = {((x, Fraction(1)),): Fraction(1)}
        n = {}
        for m1, c1 in d.items():
            for m2, c2 in td.items():
                m = _mono_mul(m1, m2)
                n[m] = n.get(m, 0) + c1 * c2
        d = n
    return from_terms(d)


def pow_(x, e):
    if not isnum(e):
        if isnum(x) and x.args[0] == 1:
            return ONE
        return mk('power', x, e)
    k = e.args[0]
    if k == 0:
        return ONE
    if k == 1:
        return x
    if isnum(x):
        v = x.args[0]
        if k.denominator == 1 and (v != 0 or k > 0) and abs(k) <= 64:
            return num(v ** int(k))
        return from_terms({((x, k),): Fraction(1)})
    td = terms_of(x)
    if len(td) == 1:
        (m, c), = td.items()
        if k.denominator == 1:
            nm = ()
            for a, ee in m:
                nm = _mono_mul(nm, ((a, ee * k),))
            return from_terms({nm: c ** int(k)})
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return from_terms({m and ((m[0][0], k),): Fraction(1)})
        return from_terms({((x, k),): Fraction(1)})
    if k.denominator == 1 and 1 < k <= 5 and len(td) ** int(k) <= MAXTERMS:
        r = x
        for _ in range(int(k) - 1):
            r = mul(r, x)
        return r
    # power of a sum: monic base
    lead = min(td.items(), key=lambda mc: mkey(mc[0]))[1]
    if k.denominator == 1:
        base = from_terms({m: c / lead for m, c in td.items()})
        return from_terms({((base, k),): lead ** int(k)})
    return from_terms({((x, k),): Fraction(1)})


def div(a, b):
    return mul(a, pow_(b, num(-1)))


# ---------------------------------------------------------------- booleans
def not_(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == 'not':
        return x.args[0]
    if x.op == 'and':
        return or_(*[not_(y) for y in x.args[0]])
    if x.op == 'or' and False:
        return and_(*[not_(y) for y in x.args[0]])
    if x.op == 'any':
        return mk('all', elementwise_not(x.args[0])) if False else mk('not', x)
    if x.op == 'ite':
        return ite(x.args[0], not_(x.args[1]), not_(x.args[2]))
    return mk('not', x)


def elementwise_not(x):
    return not_(x)


def or_(*xs):
    s = set()
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == 'or':
            s.update(x.args[0])
        else:
            s.add(x)
    for x in list(s):
        if not_(x) in s:
            return TRUE
    # absorption: a | (!a & b) is not simplified, a | (a & b) is
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    # not_(or) is represented as not(or(...)); 'and' as not(or(not..))
    return mk('or', tuple(sorted(s)))


def and_(*xs):
    return _nor(*[not_(x) for x in xs])


def _nor(*xs):
    o = or_(*xs)
    if o is TRUE:
        return FALSE
    if o is FALSE:
        return TRUE
    return o.args[0] if o.op == 'not' else mk('not', o)


def conjuncts(x):
    """list of terms whose conjunction is x"""
    if x is TRUE:
        return []
    if x.op == 'not' and x.args[0].op == 'or':
        out = []
        for y in x.args[0].args[0]:
            out.extend(conjuncts(not_(y)))
        return out
    return [x]


def disjuncts(x):
    if x is FALSE:
        return []
    if x.op == 'or':
        return list(x.args[0])
    return [x]


INTLIKE_CALLS = {'length', 'dim', 'nrow', 'ncol', 'NROW', 'NCOL', 'nchar', 'size', 'rows', 'cols', 'nlevels'}


def intlike(t):
    if t.op == 'num':
        return t.args[0].denominator == 1
    if t.op == 'poly':
        return all(c.denominator == 1 and all(e.denominator == 1 and e > 0 and intlike(a) for a, e in m)
                   for c, m in t.args[0])
    if t.op == 'call':
        return t.args[0] in INTLIKE_CALLS
    if t.op == 'idx' and t.args[0].op == 'call' and t.args[0].args[0] == 'dim':
        return True
    if t.op in ('size', 'ix'):
        return True
    if t.op == 'var':
        return t.args[0] in ('k', 'ix')
    if t in INTS:
        return True
    return False


def sizelike(t):
    """integer and >= 0"""
    if t.op == 'num':
        return t.args[0].denominator == 1 and t.args[0] >= 0
    if t.op == 'call':
        return t.args[0] in INTLIKE_CALLS
    return t.op in ('size', 'ix') or (t.op == 'var' and t.args[0] in ('k', 'ix'))


def mkey(m):
    """order of monomials: those without free variables first, so that the age of a bound variable does not matter"""
    return tuple(sorted((bool(free_vars(x)), x.sk, x.id, e) for x, e in m))


def truth_atom(d):
    """a truth value in a sum of truth values"""
    if d.op != 'poly' or len(d.args[0]) > 5:
        return None
    ats = [a for c, m in d.args[0] for a, e in m]
    if ats and all(isbool(a) for a in ats):
        return min(ats, key=skey)
    return None


def lt(a, b):
    """a < b"""
    if isnum(a) and isnum(b):
        return lgl(a.args[0] < b.args[0])
    if a.op == 'ite' and isnum(b):
        return ite(a.args[0], lt(a.args[1], b), lt(a.args[2], b))
    if b.op == 'ite' and isnum(a):
        return ite(b.args[0], lt(a, b.args[1]), lt(a, b.args[2]))
    d = sub(b, a)           # 0 < d
    if isnum(d):
        return lgl(d.args[0] > 0)
    x = truth_atom(d)
    if x is not None:
        return ite(x, lt(ZERO, subst(d, {x: ONE})), lt(ZERO, subst(d, {x: ZERO})))
    if intlike(d):
        td = terms_of(d)
        c = td.get((), Fraction(0))
        rest = from_terms({m: v for m, v in td.items() if m != ()})
        # 0 < rest + c   <=>  -c < rest
        if sizelike(rest):
            if c == 0:
                return not_(empty_of_size(rest))
            if c > 0:
                return TRUE
        nr = neg(rest)
        if sizelike(nr):     # 0 < c - n  <=> n < c
            if c == 1:
                return empty_of_size(nr)
            if c <= 0:
                return FALSE
        # integers: 0 < d  with the canonical orientation chosen by leading sign
        lead = min(terms_of(rest).items(), key=lambda mc: mkey(mc[0]))[1]
        if lead < 0:
            # 0 < d <=> !(0 < 1 - d)
            return not_(mk('lt0', sub(ONE, d)))
        return mk('lt0', d)
    # scale: make the leading coefficient +-1
    td = terms_of(d)
    key = min((m for m in td if m != ()), key=mkey)
    lead = td[key]
    d = from_terms({m: c / abs(lead) for m, c in td.items()})
    return mk('lt0', d)


def empty_of_size(n):
    if n.op == 'call' and n.args[0] == 'length':
        return empty(n.args[1][0][1])
    return mk('eq', ZERO, n)


def empty(x):
    if x is NULL:
        return TRUE
    if x.op in ('str', 'num', 'lgl'):
        return FALSE
    if x.op == 'list':
        return lgl(len(x.args[0]) == 0)
    if x.op == 'ite':
        return ite(x.args[0], empty(x.args[1]), empty(x.args[2]))
    if x.op == 'map':
        return empty_of_size(x.args[0])
    return mk('empty', x)


def le(a, b):
    return not_(lt(b, a))


def eq(a, b):
    if a is b:
        return TRUE
    if isnum(a) and isnum(b):
        return FALSE
    if a.op in ('str', 'lgl', 'num', 'null') and b.op in ('str', 'lgl', 'num', 'null'):
        return FALSE
    if a.op == 'ite' and b.op in ('str', 'lgl', 'num', 'null'):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and a.op in ('str', 'lgl', 'num', 'null'):
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if b is TRUE:
        return a
    if a is TRUE:
        return b
    if b is FALSE:
        return not_(a)
    if a is FALSE:
        return not_(b)
    if isnum(a) and a.args[0] == 0 and sizelike(b):
        return empty_of_size(b)
    if isnum(b) and b.args[0] == 0 and sizelike(a):
        return empty_of_size(a)
    if a.op in ('poly', 'num') or b.op in ('poly', 'num'):
        d = sub(a, b)
        if isnum(d):
            return lgl(d.args[0] == 0)
        x = truth_atom(d)
        if x is not None:
            return ite(x, eq(subst(d, {x: ONE}), ZERO), eq(subst(d, {x: ZERO}), ZERO))
        td = terms_of(d)
        if a.op == 'poly' or b.op == 'poly':
            # canonical: move everything to one side
            key = min((m for m in td if m != ()), key=mkey)
            lead = td[key]
            d = from_terms({m: c / lead for m, c in td.items()})
            c = terms_of(d).get((), Fraction(0))
            rest = from_terms({m: v for m, v in terms_of(d).items() if m != ()})
            a, b = num(-c), rest
            if c == 0 and sizelike(rest):
                return empty_of_size(rest)
            return mk('eq', a, b)
    x, y = sorted((a, b), key=lambda t: (t.op not in ('num', 'str', 'lgl', 'null'), skey(t)))
    return mk('eq', x, y)


# -------------------------------------------------------------- conditionals
def assume(t, c, val):
    """t with the condition c known to be val"""
    if c.op == 'not':
        return assume(t, c.args[0], not val)
    known = {}
    if val:
        for x in conjuncts(c):
            if x.op == 'not':
                known[x.args[0]] = FALSE
            else:
                known[x] = TRUE
        known[c] = TRUE
        if c.op == 'eq' and c.args[0].op in ('str', 'num'):
            pass
    else:
        for x in disjuncts(c):
            if x.op == 'not':
                known[x.args[0]] = TRUE
            else:
                known[x] = FALSE
        known[c] = FALSE
    if val and c.op == 'eq' and c.args[0].op == 'str':
        # t == 'a'  makes  t == 'b' false
        for x in subterms(t):
            if x.op == 'eq' and x.args[1] is c.args[1] and x.args[0].op == 'str' and x is not c:
                known[x] = FALSE
    if val and c.op == 'eq' and c.args[0].op == 'num' and c.args[0].args[0] == 0:
        # nothing among no elements
        for x in subterms(t):
            if x.op == 'exists' and x.args[0] is c.args[1]:
                known[x] = FALSE
    if not any(contains(t, k) for k in known):
        return t
    return subst(t, known)


NOPUSH_CALLS = {'length', 'size', 'rows', 'cols'}
PUSH = {'call', 'idx', 'el', 'setf', 'rec', 'list', 'mm', 't', 'map', 'sum', 'mcall', 'setattr', 'updix', 'obj'}

OUTER = {'t', 'coef', 'ocoef', 'seg', 'blk', 'row', 'col'}     # accesses taken inside a choice between containers


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'ite':
        # conditions are booleans: write with and/or
        c = or_(and_(c.args[0], c.args[1]), and_(not_(c.args[0]), c.args[2]))
        return ite(c, a, b)
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a is TRUE:
        return or_(c, b) if isbool(b) else mk('ite', c, a, b)
    if b is FALSE and isbool(a):
        return and_(c, a)
    if a is FALSE and isbool(b):
        return and_(not_(c), b)
    if b is TRUE and isbool(a):
        return or_(not_(c), a)
    # nested, same value: ite(c, a, ite(d, a, b)) = ite(c|d, a, b)
    if b.op == 'ite':
        if b.args[1] is a:
            return ite(or_(c, b.args[0]), a, b.args[2])
        if b.args[2] is a:
            return ite(or_(c, not_(b.args[0])), a, b.args[1])
    if a.op == 'ite':
        if a.args[2] is b:
            return ite(and_(c, a.args[0]), a.args[1], b)
        if a.args[1] is b:
            return ite(and_(c, not_(a.args[0])), a.args[2], b)
    # switch-like chains on one scrutinee, sorted by constant
    if b.op == 'ite' and c.op == 'eq' and b.args[0].op == 'eq':
        c2 = b.args[0]
        if c.args[1] is c2.args[1] and c.args[0].op == 'str' and c2.args[0].op == 'str' \
                and c2.args[0].args[0] < c.args[0].args[0]:
            return ite(c2, b.args[1], ite(c, a, b.args[2]))
    # arithmetic: common part outside
    if a.op in ('poly', 'num') or b.op in ('poly', 'num'):
        ta, tb = terms_of(a), terms_of(b)
        common = {m: k for m, k in ta.items() if tb.get(m) == k}
        if common and (len(ta) > len(common) or len(tb) > len(common)):
            ra = from_terms({m: k for m, k in ta.items() if m not in common})
            rb = from_terms({m: k for m, k in tb.items() if m not in common})
            return add(from_terms(common), ite(c, ra, rb))
        if len(ta) == 1 and len(tb) == 1:
            (ma, ka), = ta.items()
            (mb, kb), = tb.items()
            db = dict(mb)
            g = {x: e for x, e in ma if x in db and db[x] == e}
            if g:
                gm = from_terms({tuple(sorted(g.items(), key=lambda ae: ae[0].id)): Fraction(1)})
                ra = from_terms({tuple((x, e) for x, e in ma if x not in g): ka})
                rb = from_terms({tuple((x, e) for x, e in mb if x not in g): kb})
                return mul(gm, ite(c, ra, rb))
    if a.op == b.op and a.op in PUSH and len(a.args) == len(b.args):
        r = _push(c, a, b)
        if r is not None:
            return r
    return mk('ite', c, a, b)


def _push(c, a, b):
    """ite(c, f(x, p), f(x, q)) -> f(x, ite(c, p, q)) if some argument is shared"""
    if a.op == 'call' and a.args[0] in NOPUSH_CALLS:
        return None
    diffs = []

    def same_shape(x, y):
        if isinstance(x, T) and isinstance(y, T):
            if x is not y:
                diffs.append((x, y))
            return True
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(same_shape(p, q) for p, q in zip(x, y))
        return x == y
    if not same_shape(a.args, b.args):
        return None
    if a.op in ('map', 'sum'):
        if a.args[0] is not b.args[0]:
            return None
    total = len(children(a))
    if len(diffs) != 1 or (total < 2 and a.op not in ('t',)):
        if not (total == 1 and a.op in ('t', 'fld')):
            if not (total == 1 and a.op == 'call'):
                return None
    if len(diffs) != 1:
        return None
    x, y = diffs[0]
    if x is MISSING or y is MISSING:
        return None
    if a.op in OUTER and x is a.args[0]:
        return None
    done = [False]
    if x.op == 'lam' or y.op == 'lam':
        if x.op != y.op or x.args[0] != y.args[0]:
            return None
        if c.maxbv:
            return None
        z = mk('lam', x.args[0], ite(c, x.args[1], y.args[1]))
    else:
        z = ite(c, x, y)

    def go(p, q):
        if isinstance(p, T):
            if p is not q:
                return z
            return p
        if isinstance(p, tuple):
            return tuple(go(u, v) for u, v in zip(p, q))
        return p
    args = tuple(go(p, q) for p, q in zip(a.args, b.args))
    bld = _BUILD.get(a.op)
    return bld(*args) if bld else mk(a.op, *args)


BOOLOPS = {'not', 'or', 'lt0', 'eq', 'empty', 'lgl', 'any', 'all', 'isin'}
BOOLCALLS = {'is.null', 'is.factor', 'is.numeric', 'is.list', 'is.name', 'is.call', 'is.atomic', 'is.function',
             'is.character', 'is.matrix', 'is.element', 'identical', 'exists', 'all', 'any', 'is.pairlist',
             'is.logical', 'isfinite', 'isnormal', 'isnan', 'is.environment', 'inherits', 'isTRUE', 'is.na'}


def isbool(t):
    if t.op in BOOLOPS:
        return True
    if t.op == 'call' and t.args[0] in BOOLCALLS:
        return True
    if t.op == 'ite':
        return isbool(t.args[1]) and isbool(t.args[2])
    return False


# -------------------------------------------------------- calls and products
def call(f, *pos, **kw):
    """uninterpreted pure function; named arguments as a tuple of (name, term)"""
    args = tuple(('', p) for p in pos) + tuple(sorted(kw.items()))
    return callt(f, args)


_SIMPL = {}


def simpl(f):
    def deco(fn):
        _SIMPL[f] = fn
        return fn
    return deco


def callt(f, args):
    fn = _SIMPL.get(f)
    if fn:
        r = fn(args)
        if r is not None:
            return r
    return mk('call', f, args)


@simpl('exp')
def _exp(args):
    x = args[0][1]
    if isnum(x) and x.args[0] == 0:
        return ONE
    if x.op == 'call' and x.args[0] == 'log':
        return x.args[1][0][1]
    return None


@simpl('log')
def _log(args):
    if len(args) != 1:
        return None
    x = args[0][1]
    if isnum(x) and x.args[0] == 1:
        return ZERO
    if x.op == 'call' and x.args[0] == 'exp':
        return x.args[1][0][1]
    return None


@simpl('abs')
def _abs(args):
    x = args[0][1]
    if isnum(x):
        return num(abs(x.args[0]))
    if x.op == 'poly' and len(x.args[0]) == 1:
        c, m = x.args[0][0]
        return mul(num(abs(c)), *[pow_(y, num(e)) if e.denominator != 1 or e % 2 == 0 else pow_(call('abs', y), num(e)) for y, e in m])
    td = terms_of(x)
    lead = min(td.items(), key=lambda mc: mkey(mc[0]))[1]
    if lead < 0:
        return call('abs', neg(x))
    return None


@simpl('pnorm')
def _pnorm(args):
    d = dict(args)
    if 'q' not in d or set(d) - {'q', 'lower.tail'} or d.get('lower.tail', TRUE) not in (TRUE, FALSE):
        return None
    td = terms_of(d['q'])
    if not td or min(td.items(), key=lambda mc: mkey(mc[0]))[1] >= 0:
        return None
    if d.get('lower.tail', TRUE) is TRUE:
        return mk('call', 'pnorm', (('q', neg(d['q'])), ('lower.tail', FALSE)))
    return mk('call', 'pnorm', (('q', neg(d['q'])),))


@simpl('any')
def _any(args):
    if len(args) == 1:
        x = args[0][1]
        if x.op == 'or' or x in (TRUE, FALSE):
            return None if x.op == 'or' else x
    return None


@simpl('all')
def _all(args):
    if len(args) == 1:
        return not_(call('any', not_(args[0][1])))
    return None


def trans(x):
    if x.op == 't':
        return x.args[0]
    if x.op == 'fld' and x.args[1] == 'hessian' and x.args[0].op == 'call' and x.args[0].args[0] in ('optim', 'optimHess'):
        return x                # made symmetric there
    if x.op == 'mm':
        return mm(*[trans(f) for f in reversed(x.args[0])])
    if isnum(x):
        return x
    if x.op == 'poly':
        # transposition is linear, and elementwise products commute with it
        return rebuild(x, lambda a: a if isscalar(a) else trans(a))
    if isscalar(x) or x.op == 'ident' or (x.op == 'call' and x.args[0] in ('asDiagonal',)):
        return x
    if x.op == 'inv':
        return mk('inv', trans(x.args[0]))
    if x.op == 'call' and x.args[0] in SYM1:
        return callt(x.args[0], tuple((n, trans(a)) for n, a in x.args[1]))
    if x.op == 'ite':
        return ite(x.args[0], trans(x.args[1]), trans(x.args[2]))
    return mk('t', x)


SYM1 = set()
SCALARS = set()     # terms known to be scalars


def isscalar(t):
    if t in SCALARS or t.op in ('num',):
        return True
    if t.op == 'call' and t.args[0] in ('sum', 'length', 'det', 'dot', 'squaredNorm', 'rows', 'cols', 'size', 'norm',
                                        'nrow', 'ncol', 'NROW', 'NCOL'):
        return True
    if t.op in ('sum', 'scalar'):
        return True
    if t.op == 'poly':
        return all(isscalar(a) for c, m in t.args[0] for a, e in m)
    if t.op == 'mm':
        return is_quadratic(t.args[0])
    return False


def is_quadratic(w):
    return (len(w) >= 2 and isvector(w[-1]) and w[0].op == 't' and isvector(w[0].args[0]))


VECTORS = set()
DOT = [None]       # how the product of a row and a column is written (C++ front end)
INTS = set()        # terms known to be integers


def isvector(t):
    return t in VECTORS or (t.op == 'call' and t.args[0] in ('vecOf',))


def mm(*fs):
    """matrix product of the factors"""
    coef = []
    out = []
    for f in fs:
        if f.op == 'mm':
            out.extend(f.args[0])
        elif f.op == 'ident':
            continue
        elif f.op == 'num':
            coef.append(f)
        elif f.op == 'poly' and len(f.args[0]) > 1 and _ismatpoly(f):
            # distribute
            i = fs.index(f)
            pre, post = fs[:i], fs[i + 1:]
            return add(*[mm(*pre, from_terms({m: c}), *post) for c, m in f.args[0]])
        elif f.op == 'poly' and len(f.args[0]) == 1:
            c, m = f.args[0][0]
            sc = [(a, e) for a, e in m if isscalar(a)]
            ma = [(a, e) for a, e in m if not isscalar(a)]
            coef.append(from_terms({tuple(sc): c}))
            if len(ma) == 1 and ma[0][1] == 1:
                if ma[0][0].op == 'mm':
                    out.extend(ma[0][0].args[0])
                else:
                    out.append(ma[0][0])
            elif ma:
                out.append(from_terms({tuple(ma): Fraction(1)}))
        elif isscalar(f):
            coef.append(f)
        else:
            out.append(f)
    # cancel A inv(A)
    i = 0
    while i + 1 < len(out):
        p, q = out[i], out[i + 1]
        if (q.op == 'inv' and q.args[0] is p) or (p.op == 'inv' and p.args[0] is q):
            del out[i:i + 2]
            i = max(0, i - 1)
        else:
            i += 1
    if not out:
        w = mk('ident')
    elif len(out) == 1:
        w = out[0]
    else:
        if is_quadratic(out):
            rev = [trans(f) for f in reversed(out)]
            if tuple(skey(f) for f in rev) < tuple(skey(f) for f in out):
                out = rev
        if DOT[0] and len(out) == 2 and is_quadratic(out):
            w = DOT[0](mul(out[0].args[0], out[1]))
        else:
            w = mk('mm', tuple(out))
    for c in coef:
        w = mul(c, w)
    return w


def _ismatpoly(f):
    """every monomial is (scalars) * at most one matrix atom: the sum distributes"""
    for c, m in f.args[0]:
        k = [a for a, e in m if not isscalar(a)]
        if len(k) != 1 or any(e != 1 for a, e in m if not isscalar(a)):
            return False
    return True


def inv(x):
    if x.op == 'inv':
        return x.args[0]
    if x.op == 'ident':
        return x
    if x.op == 'poly':
        td = terms_of(x)
        if len(td) == 1:
            (m, c), = td.items()
            if c != 1 and len(m) == 1 and m[0][1] == 1 and not m[0][0].op == 'num':
                return mul(num(1 / Fraction(c)), inv(m[0][0]))
    return mk('inv', x)


# -------------------------------------------------------------- aggregates
def rec(fields):
    """named list / record"""
    return mk('rec', tuple(fields))


def fld(o, n):
    if o.op == 'rec':
        for k, v in o.args[0]:
            if k == n:
                return v
        return NULL if not any(k in ('', '...') for k, v in o.args[0]) else mk('fld', o, n)
    if o.op == 'setf':
        if o.args[1] == n:
            return o.args[2]
        return fld(o.args[0], n)
    if o.op == 'ite':
        a, b = fld(o.args[1], n), fld(o.args[2], n)
        return ite(o.args[0], a, b)
    if o is NULL:
        return NULL
    return mk('fld', o, n)


def setf(o, n, v):
    """record update; updates of different fields in one canonical order"""
    if o.op == 'rec':
        fs = list(o.args[0])
        for i, (k, w) in enumerate(fs):
            if k == n:
                fs[i] = (k, v)
                return rec(fs)
        if not any(k in ('', '...') for k, w in fs):
            return rec(fs + [(n, v)])
    if o is NULL:
        return rec([(n, v)])
    if v is fld(o, n):
        return o
    if o.op == 'setf':
        if o.args[1] == n:
            return setf(o.args[0], n, v)
        if o.args[1] > n:
            return mk('setf', setf(o.args[0], n, v), o.args[1], o.args[2])
    return mk('setf', o, n, v)


def el(o, i):
    if o.op == 'list' and isnum(i):
        k = int(i.args[0]) - 1
        if 0 <= k < len(o.args[0]):
            return o.args[0][k]
    if o.op == 'rec' and isnum(i):
        k = int(i.args[0]) - 1
        if 0 <= k < len(o.args[0]):
            return o.args[0][k][1]
    if o.op == 'map':
        return apply_lam(o.args[1], [i])
    if i.op == 'str':
        return fld(o, i.args[0])
    if o.op == 'call' and o.args[0] == 'as.list' and len(o.args[1]) == 1:
        return el(o.args[1][0][1], i)
    return mk('el', o, i)


def map_(n, f):
    return mk('map', n, f)


def sum_(n, f):
    body = f.args[1]
    if body is ZERO:
        return ZERO
    return mk('sum', n, f)


_BUILD = {
    'call': lambda f, args: callt(f, args),
    'ite': ite, 'not': not_, 'or': lambda xs: or_(*xs), 'eq': eq,
    'lt0': lambda d: lt(ZERO, d), 'empty': empty,
    'mm': lambda fs: mm(*fs), 't': trans, 'inv': inv,
    'fld': fld, 'setf': setf, 'el': el, 'power': lambda x, e: pow_(x, e),
    'rec': lambda fs: rec(fs), 'map': map_, 'sum': sum_, 'tup': lambda xs: tup(xs),
    'outcome': lambda v, effs: mk('outcome', v, tuple(e for e in effs if not (e.op == 'eff' and e.args[1] is FALSE))),
}


def tup(xs):
    return mk('tup', tuple(e for e in xs if not (e.op == 'eff' and e.args[1] is FALSE)))


# ------------------------------------------------------------------ printing
def show(t, depth=6):
    if depth == 0:
        return '...'
    d = depth - 1

    def sh(x):
        if isinstance(x, T):
            return show(x, d)
        if isinstance(x, tuple):
            return '(' + ', '.join(sh(y) for y in x) + ')'
        return str(x)
    op, a = t.op, t.args
    if op == 'num':
        return str(a[0]) if a[0].denominator < 10 ** 6 else repr(float(a[0]))
    if op == 'str':
        return repr(a[0])
    if op == 'lgl':
        return str(a[0]).upper()
    if op == 'null':
        return 'NULL'
    if op == 'sym':
        return a[0]
    if op == 'var':
        return '%s#%d' % a
    if op == 'bv':
        return '$%d' % a[0]
    if op == 'poly':
        out = []
        for c, m in a[0]:
            fs = [show(x, d) + ('' if e == 1 else '^%s' % e) for x, e in m]
            if c != 1 or not fs:
                fs.insert(0, str(c) if c.denominator < 10 ** 6 else repr(float(c)))
            out.append('*'.join(fs))
        return '(' + ' + '.join(out) + ')'
    if op == 'call':
        return a[0] + '(' + ', '.join((n + '=' if n else '') + show(x, d) for n, x in a[1]) + ')'
    if op == 'fld':
        return show(a[0], d) + '$' + str(a[1])
    if op == 'el':
        return show(a[0], d) + '[[' + show(a[1], d) + ']]'
    if op == 'idx':
        return show(a[0], d) + '[' + ', '.join(sh(x) for x in a[1:]) + ']'
    if op == 'ite':
        return 'if(' + show(a[0], d) + ', ' + show(a[1], d) + ', ' + show(a[2], d) + ')'
    if op == 'not':
        return '!' + show(a[0], d)
    if op == 'or':
        return '(' + ' | '.join(show(x, d) for x in a[0]) + ')'
    if op == 'lt0':
        return '(0 < ' + show(a[0], d) + ')'
    if op == 'eq':
        return '(' + show(a[0], d) + ' == ' + show(a[1], d) + ')'
    if op == 'mm':
        return ' %*% '.join(show(x, d) for x in a[0])
    if op == 't':
        return show(a[0], d) + "'"
    if op == 'lam':
        return '\\%d.%s' % (a[0], show(a[1], d))
    if op == 'missing':
        return '_'
    return op + '(' + ', '.join(sh(x) for x in a) + ')'
