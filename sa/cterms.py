"""Normal forms for the values C++ code computes: arrays, vectors, matrices, containers, loops."""
from fractions import Fraction
import terms as T_
from terms import *   # noqa

ERR = mk('error')
VOID = mk('void')
EMPTY = mk('list', ())          # an empty container
BOOLS = set()                    # terms known to be truth values

# functions applied to each element of an array
EW = {'exp', 'log', 'abs', 'cdf', 'pdf', 'quantile', 'expm1', 'log1p', 'sin', 'cos', 'tan', 'tanh', 'erf', 'erfc', 'max', 'min',
      'floor', 'ceil', 'round', 'trunc', 'isfinite', 'isnan', 'isnormal', 'complement', 'atan', 'sinh', 'cosh', 'log10', 'log2'}
WHOLE = {'veq'}                  # truth values about whole objects


def ewcall(f, *args):
    return call(f, *args)


def simpl_minmax(f):
    def go(args):
        xs = []
        for _, a in args:
            if a.op == 'call' and a.args[0] == f:
                xs += [v for _, v in a.args[1]]
            else:
                xs.append(a)
        xs = sorted(set(xs))
        if len(xs) == 1:
            return xs[0]
        ns = [x for x in xs if isnum(x)]
        if len(ns) > 1:
            k = (max if f == 'max' else min)(ns, key=lambda t: t.args[0])
            xs = sorted([x for x in xs if not isnum(x)] + [k])
            if len(xs) == 1:
                return xs[0]
        return mk('call', f, tuple(('', x) for x in xs))
    return go


T_._SIMPL.setdefault('max', simpl_minmax('max'))
T_._SIMPL.setdefault('min', simpl_minmax('min'))


def veq(a, b):
    """equality of whole objects"""
    if a is b:
        return TRUE
    if a.op == 'str' and b.op == 'str':
        return FALSE
    x, y = sorted((a, b), key=lambda t: (t.op not in ('num', 'str', 'lgl', 'null'), skey(t)))
    return mk('call', 'veq', (('', x), ('', y)))


def scalarish(t):
    return isscalar(t) or t.op in ('lgl', 'str') or t in INTS or t in BOOLS


def lift(v, f):
    """f distributed over elementwise arithmetic down to the array atoms; None when v is itself an atom"""
    op = v.op
    if op == 'num' or isscalar(v):
        return v
    if op == 'poly':
        acc = []
        for c, m in v.args[0]:
            t = num(c)
            for a, e in m:
                t = mul(t, pow_(a if isscalar(a) else f(a), num(e)))
            acc.append(t)
        return add(*acc)
    if op == 'call' and v.args[0] in EW:
        return callt(v.args[0], tuple((n, a if (scalarish(a) or a.op == 'call' and a.args[0] == 'normal' or a.op == 'fld' and a not in VECTORS and v.args[0] in ('cdf', 'pdf', 'quantile') and i == 0) else f(a))
                                      for i, (n, a) in enumerate(v.args[1])))
    if op == 'power':
        b, e = v.args
        return pow_(b if isscalar(b) else f(b), e if isscalar(e) else f(e))
    if op == 'ite':
        return ite(liftb(v.args[0], f), f(v.args[1]) if not scalarish(v.args[1]) else v.args[1],
                   f(v.args[2]) if not scalarish(v.args[2]) else v.args[2])
    if op in ('lt0', 'eq', 'not', 'or'):
        return liftb(v, f)
    return None


def liftb(c, f):
    op = c.op
    if op == 'lgl':
        return c
    if op == 'not':
        return not_(liftb(c.args[0], f))
    if op == 'or':
        return or_(*[liftb(x, f) for x in c.args[0]])
    if op == 'lt0':
        return lt(ZERO, c.args[0] if scalarish(c.args[0]) else f(c.args[0]))
    if op == 'eq':
        return eq(*[a if scalarish(a) else f(a) for a in c.args])
    if op == 'call' and c.args[0] in EW:
        r = lift(c, f)
        return c if r is None else r
    return c


def dims(t):
    """known dimensions of an allocated object, or None"""
    if t.op in ('uninit', 'zeros', 'ones', 'const'):
        return t.args[0]
    return None


def same_idx(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


PARTS = [lambda a, b: False]    # certainly disjoint parts (set by the engine)
PUTPART = [None]
GETPART = [None]


def diff_idx(a, b):
    """certainly different positions"""
    if len(a) != len(b):
        return False
    if a and (isinstance(a[0], str) or isinstance(b[0], str)):
        return PARTS[0](a, b)
    for x, y in zip(a, b):
        d = sub(x, y)
        if isnum(d) and d.args[0] != 0:
            return True
    return False


def coef(v, idx):
    op = v.op
    if op == 'num':
        return v
    if isscalar(v) and all(isnum(i) and i.args[0] == 0 for i in idx):
        return v
    r = lift(v, lambda a: coef(a, idx))
    if r is not None:
        return r
    if op == 'zeros':
        return ZERO
    if op == 'ones':
        return ONE
    if op == 'const':
        return v.args[1]
    if op == 'map' and len(idx) == 1:
        return apply_lam(v.args[1], list(idx))
    if op == 'map2' and len(idx) == 2:
        return apply_lam(v.args[2], list(idx))
    if op == 't':
        if len(idx) == 1:
            return coef(v.args[0], idx)
        return coef(v.args[0], (idx[1], idx[0]))
    if op == 'ident' and len(idx) == 2:
        return ite(eq(idx[0], idx[1]), ONE, ZERO)
    if op == 'seg' and len(idx) == 1:
        return coef(v.args[0], (add(v.args[1], idx[0]),))
    if op == 'blk' and len(idx) == 2:
        return coef(v.args[0], (add(v.args[1], idx[0]), add(v.args[2], idx[1])))
    if op == 'row':
        j = idx[0] if len(idx) == 1 else idx[1]
        return coef(v.args[0], (v.args[1], j))
    if op == 'col':
        return coef(v.args[0], (idx[0], v.args[1]))
    if op == 'upd':
        if same_idx(v.args[1], idx):
            return v.args[2]
        if diff_idx(v.args[1], idx):
            return coef(v.args[0], idx)
    if op == 'list' and len(idx) == 1 and isnum(idx[0]):
        k = int(idx[0].args[0])
        if 0 <= k < len(v.args[0]):
            return v.args[0][k]
    if op == 'append' and len(idx) == 1:
        n = size(v.args[0])
        if idx[0] is n:
            return v.args[1]
        d = sub(n, idx[0])
        if isnum(d) and d.args[0] > 0:
            return coef(v.args[0], idx)
    if op == 'cat' and len(idx) == 1:
        d = sub(size(v.args[0]), idx[0])
        if isnum(d) and d.args[0] > 0:
            return coef(v.args[0], idx)
    if op == 'ite':
        return ite(v.args[0], coef(v.args[1], idx), coef(v.args[2], idx))
    t = mk('coef', v, tuple(idx))
    return t


def upd(v, idx, x):
    if v.op == 'upd':
        if same_idx(v.args[1], idx):
            return upd(v.args[0], idx, x)
        if diff_idx(v.args[1], idx) and _ikey(v.args[1]) > _ikey(idx):
            return mk('upd', upd(v.args[0], idx, x), v.args[1], v.args[2])
    if v.op == 'list' and len(idx) == 1 and isnum(idx[0]):
        k = int(idx[0].args[0])
        if 0 <= k < len(v.args[0]):
            xs = list(v.args[0])
            xs[k] = x
            return mk('list', tuple(xs))
    if x.op == 'coef' and x.args[0] is v and same_idx(x.args[1], idx):
        return v
    return mk('upd', v, tuple(idx), x)


def _ikey(idx):
    return tuple(skey(i) for i in idx)


def _first_size(xs, f):
    for x in xs:
        if not scalarish(x):
            return f(x)
    return None


def _alen(v, f):
    """f (size / rows / cols) of an elementwise expression: that of one of its arrays"""
    if v.op == 'poly':
        ats = sorted({a for c, m in v.args[0] for a, e in m if not isscalar(a)}, key=skey)
        return _first_size(ats, f)
    if v.op == 'call' and v.args[0] in EW:
        return _first_size([a for _, a in v.args[1]][::-1], f)
    if v.op == 'power':
        return f(v.args[0])
    if v.op in ('lt0', 'eq'):
        return _first_size(v.args, f)
    if v.op == 'ite':
        a, b = v.args[1], v.args[2]
        if scalarish(a) and not scalarish(b):
            return f(b)
        if scalarish(b) and not scalarish(a):
            return f(a)
        if scalarish(a):
            return None
        return ite(v.args[0], f(a), f(b))
    return None


def size(v):
    op = v.op
    r = _alen(v, size)
    if r is not None:
        return r
    if op in ('uninit', 'zeros', 'ones', 'const', 'resized'):
        return mul(*v.args[0]) if v.args[0] else ZERO
    if op == 'map':
        return v.args[0]
    if op == 'map2':
        return mul(v.args[0], v.args[1])
    if op in ('upd', 'put'):
        return size(v.args[0])
    if op == 'append':
        return add(size(v.args[0]), ONE)
    if op == 'cat':
        return add(size(v.args[0]), size(v.args[1]))
    if op == 'list':
        return num(len(v.args[0]))
    if op == 'mm':
        return mul(rows(v), cols(v))
    if op in ('t', 'inv'):
        return size(v.args[0])
    if op == 'seg':
        return v.args[2]
    if op == 'blk':
        return mul(v.args[3], v.args[4])
    if op == 'row':
        return cols(v.args[0])
    if op == 'col':
        return rows(v.args[0])
    if op == 'call' and v.args[0] == 'sort':
        return size(v.args[1][0][1])
    if op == 'call' and v.args[0] == 'resize':
        return v.args[1][1][1]
    if op == 'scat' and not _pushes(v.args[1]):
        return size(v.args[0])
    if op == 'nrepl':
        return v.args[0]
    t = call('size', v)
    INTS.add(t)
    return t


def _pushes(p):
    return any(x.op == 'wpush' for x in subterms(p))


def rows(v):
    op = v.op
    r = _alen(v, rows)
    if r is not None:
        return r
    if v in VECTORS:
        return size(v)
    if op in ('uninit', 'zeros', 'ones', 'const', 'resized'):
        return v.args[0][0] if v.args[0] else ZERO
    if op == 'map':
        return v.args[0]
    if op == 'map2':
        return v.args[0]
    if op in ('upd', 'put', 'inv'):
        return rows(v.args[0])
    if op == 'mm':
        return rows(v.args[0][0])
    if op == 't':
        return cols(v.args[0])
    if op == 'seg':
        return v.args[2]
    if op == 'blk':
        return v.args[3]
    if op == 'row':
        return ONE
    if op == 'col':
        return rows(v.args[0])
    if op == 'scat':
        return rows(v.args[0])
    t = call('rows', v)
    return t


def cols(v):
    op = v.op
    r = _alen(v, cols)
    if r is not None:
        return r
    if v in VECTORS:
        return ONE
    if op in ('uninit', 'zeros', 'ones', 'const', 'resized'):
        return v.args[0][1] if len(v.args[0]) > 1 else (ONE if v.args[0] else ZERO)
    if op == 'map':
        return ONE
    if op == 'map2':
        return v.args[1]
    if op in ('upd', 'put', 'inv'):
        return cols(v.args[0])
    if op == 'mm':
        return cols(v.args[0][-1])
    if op == 't':
        return rows(v.args[0])
    if op == 'seg':
        return ONE
    if op == 'blk':
        return v.args[4]
    if op == 'row':
        return cols(v.args[0])
    if op == 'col':
        return ONE
    if op == 'scat':
        return cols(v.args[0])
    return call('cols', v)


def seg(v, s, n):
    if isnum(s) and s.args[0] == 0 and n is size(v):
        return v
    r = lift(v, lambda a: seg(a, s, n))
    if r is not None:
        return r
    if v.op == 'seg':
        return seg(v.args[0], add(v.args[1], s), n)
    if v.op in ('zeros', 'ones'):
        return mk(v.op, (n,))
    t = mk('seg', v, s, n)
    VECTORS.add(t)
    return t


def blk(v, i, j, n, m):
    r = lift(v, lambda a: blk(a, i, j, n, m))
    if r is not None:
        return r
    if v.op == 't':
        return trans(blk(v.args[0], j, i, m, n))
    return mk('blk', v, i, j, n, m)


def row(v, i):
    r = lift(v, lambda a: row(a, i))
    if r is not None:
        return r
    if v.op == 't':
        return trans(col(v.args[0], i))
    if v.op == 'mm':
        return mm(row(v.args[0][0], i), *v.args[0][1:])
    return mk('row', v, i)


def col(v, j):
    r = lift(v, lambda a: col(a, j))
    if r is not None:
        return r
    if v.op == 't':
        return trans(row(v.args[0], j))
    t = mk('col', v, j)
    VECTORS.add(t)
    return t


def esum(v):
    """sum of the elements"""
    if isscalar(v):
        return v
    if v.op == 'poly':
        acc = []
        for c, m in v.args[0]:
            s = [(a, e) for a, e in m if isscalar(a)]
            r = [(a, e) for a, e in m if not isscalar(a)]
            if not r:
                acc = None
                break
            acc.append(mul(from_terms({tuple(s): c}), _esum1(from_terms({tuple(r): Fraction(1)}))))
        if acc is not None:
            return add(*acc)
    return _esum1(v)


def _esum1(v):
    if v.op in ('zeros',):
        return ZERO
    if v.op == 'map':
        return csum(v.args[0], v.args[1])
    t = mk('esum', v)
    return t


_isscalar = T_.isscalar


def isscalar_c(t):
    if t.op in ('coef', 'esum', 'findidx', 'first', 'count') or (t.op == 'call' and t.args[0] in ('idiv', 'imod', 'maxCoeff', 'minCoeff', 'prod', 'choose')):
        return t.op != 'coef' or t not in NONSCALAR
    if t.op == 'call' and t.args[0] in EW:
        return all(isscalar_c(a) or a.op == 'call' and a.args[0] == 'normal' or (i == 0 and t.args[0] in ('cdf', 'pdf', 'quantile'))
                   for i, (n, a) in enumerate(t.args[1]))
    if t.op == 'power':
        return isscalar_c(t.args[0]) and isscalar_c(t.args[1])
    if t.op == 'ite':
        return isscalar_c(t.args[1]) and isscalar_c(t.args[2])
    if t in INTS:
        return True
    return _isscalar(t)


def nil_terms(d):
    """products with an array of zeros"""
    if not any(a.op == 'zeros' for m in d for a, e in m):
        return d
    n = {}
    for m, c in d.items():
        z = [(a, e) for a, e in m if a.op == 'zeros' and e > 0]
        if z and (len(m) > 1 or c != 1):
            m, c = ((z[0][0], Fraction(1)),), Fraction(1)
        n[m] = Fraction(1) if z else n.get(m, 0) + c
    return n


NONSCALAR = set()       # elements of containers that are no numbers


def install():
    """switch the shared algebra to the C++ conventions"""
    T_.isscalar = isscalar_c
    T_.ZHOOK[0] = nil_terms
    globals()['isscalar'] = isscalar_c
    T_.DOT[0] = esum
    T_._BUILD.update({
        'coef': lambda v, idx: coef(v, idx), 'upd': lambda v, idx, x: upd(v, idx, x), 'esum': esum, 'seg': seg, 'blk': blk,
        'row': row, 'col': col, 'scat': scat, 'map': cmap, 'sum': csum, 'exists': exists,
        'wseq': lambda ps: wseq(ps), 'wif': wif, 'wfor': wfor, 'first': first})
    T_.PUSH |= {'coef', 'pcall', 'pstate', 'esum', 'seg', 'blk', 'row', 'inv'}


def has(t, k):
    return k in free_vars(t)


# ------------------------------------------------------------------- loops
def devec(n, l):
    """\\i. F(v[i]) over all of v as F(v), or None"""
    if l.args[0] != 1:
        return None
    k = fresh('ix')
    body = apply_lam(l, [k])
    if not has(body, k):
        return None
    if not isscalar_c(body) and not T_.isbool(body):
        return None
    src = []
    memo = {}

    def go(t):
        if not has(t, k):
            return t if (scalarish(t) or t.op == 'call' and t.args[0] == 'normal' or t.op == 'fld') else None
        if t in memo:
            return memo[t]
        r = None
        if t.op == 'coef' and len(t.args[1]) == 1 and t.args[1][0] is k and not has(t.args[0], k):
            src.append(t.args[0])
            r = t.args[0]
        elif t.op == 'poly':
            acc = []
            for c, m in t.args[0]:
                x = num(c)
                for a, e in m:
                    y = go(a)
                    if y is None:
                        return None
                    x = mul(x, pow_(y, num(e)))
                acc.append(x)
            r = add(*acc)
        elif t.op == 'call' and t.args[0] in EW:
            xs = [(nm, go(a)) for nm, a in t.args[1]]
            if any(x is None for _, x in xs):
                return None
            r = callt(t.args[0], tuple(xs))
        elif t.op == 'power':
            xs = [go(a) for a in t.args]
            if None in xs:
                return None
            r = pow_(*xs)
        elif t.op == 'ite':
            xs = [go(a) for a in t.args]
            if None in xs:
                return None
            r = ite(*xs)
        elif t.op in ('not', 'lt0'):
            x = go(t.args[0])
            if x is None:
                return None
            r = not_(x) if t.op == 'not' else lt(ZERO, x)
        elif t.op == 'eq':
            xs = [go(a) for a in t.args]
            if None in xs:
                return None
            r = eq(*xs)
        elif t.op == 'or':
            xs = [go(a) for a in t.args[0]]
            if None in xs:
                return None
            r = or_(*xs)
        memo[t] = r
        return r
    r = go(body)
    if r is None or not src:
        return None
    if not any(size(s) is n for s in src):
        return None
    return r


def cmap(n, l):
    """container of n elements \\i"""
    if isnum(n) and n.args[0] == 0:
        return EMPTY
    r = devec(n, l)
    if r is not None:
        return r
    if l.args[0] == 1:
        b = l.args[1]
        if b.op == 'coef' and b.args[0].maxbv == 0 and len(b.args[1]) == 1 and b.args[1][0].op == 'bv' and size(b.args[0]) is n:
            return b.args[0]
        if b.maxbv == 0 and isscalar_c(b):
            if isnum(b) and b.args[0] == 0:
                return mk('zeros', (n,))
            return mk('const', (n,), b)
    t = mk('map', n, l)
    if isscalar_c(l.args[1]):
        VECTORS.add(t)
    return t


def csum(n, l):
    b = l.args[1]
    if b is ZERO or (isnum(n) and n.args[0] == 0):
        return ZERO
    if l.args[0] == 1:
        if b.maxbv == 0:
            return mul(n, b)
        if b.op == 'poly':
            # linear: term by term, constants outside
            k = fresh('ix')
            body = apply_lam(l, [k])
            acc = []
            for m, c in terms_of(body).items():
                out = [(a, e) for a, e in m if not has(a, k) and isscalar_c(a)]
                ins = [(a, e) for a, e in m if has(a, k) or not isscalar_c(a)]
                if not ins:
                    acc.append(mul(n, from_terms({tuple(out): c})))
                else:
                    acc.append(mul(from_terms({tuple(out): c}), _csum1(n, lam([k], from_terms({tuple(ins): Fraction(1)})))))
            return add(*acc)
    return _csum1(n, l)


def _csum1(n, l):
    r = devec(n, l)
    if r is not None:
        return esum(r)
    if l.args[1].maxbv == 0:
        return mul(n, l.args[1])
    t = mk('sum', n, l)
    if not isscalar_c(l.args[1]):
        NONSCALAR.add(t)
    return t


def exists(n, l):
    b = l.args[1]
    if b is FALSE or (isnum(n) and n.args[0] == 0):
        return FALSE
    if l.args[0] == 1:
        if b.maxbv == 0:
            return and_(not_(T_.empty_of_size(n)), b)
        k = fresh('ix')
        body = apply_lam(l, [k])
        # something equal to x among v
        if body.op in ('eq', 'call') and (body.op == 'eq' or body.args[0] == 'veq'):
            x, y = body.args if body.op == 'eq' else (body.args[1][0][1], body.args[1][1][1])
            for p, q in ((x, y), (y, x)):
                if p.op == 'coef' and len(p.args[1]) == 1 and p.args[1][0] is k and not has(p.args[0], k) and not has(q, k) \
                        and size(p.args[0]) is n:
                    return mk('isin', q, p.args[0])
        if body.op == 'or':
            return or_(*[exists(n, lam([k], x)) for x in body.args[0]])
        # a part that does not depend on the element
        cs = conjuncts(body)
        outer = [c for c in cs if not has(c, k)]
        if outer:
            return and_(*outer, exists(n, lam([k], and_(*[c for c in cs if has(c, k)]))))
    t = mk('exists', n, l)
    BOOLS.add(t)
    return t


def first(n, l):
    """index of the first element for which \\i holds"""
    if l.args[0] == 1:
        k = fresh('ix')
        body = apply_lam(l, [k])
        if body is TRUE:
            return ZERO
        if n.op == 'inf':
            neg_ = body.op == 'not'
            y = body.args[0] if neg_ else body
            if y.op == 'lt0':
                c = {m: x for m, x in terms_of(y.args[0]).items() if any(has(a, k) for a, e in m)}
                if list(c) == [((k, 1),)] and (c[((k, 1),)] > 0) == neg_:
                    return ite(subst(body, {k: ZERO}), ZERO, n)      # at once or never
        if body.op in ('eq', 'call') and (body.op == 'eq' or body.args[0] == 'veq'):
            x, y = body.args if body.op == 'eq' else (body.args[1][0][1], body.args[1][1][1])
            for p, q in ((x, y), (y, x)):
                if p.op == 'coef' and len(p.args[1]) == 1 and p.args[1][0] is k and not has(p.args[0], k) and not has(q, k) \
                        and size(p.args[0]) is n:
                    return findidx(p.args[0], q)
    t = mk('first', n, l)
    INTS.add(t)
    return t


def findidx(v, x):
    t = mk('findidx', v, x)
    INTS.add(t)
    return t


# programs of writes to one container
SKIP = mk('wskip')


def wseq(ps):
    out = []
    for p in ps:
        if p is SKIP:
            continue
        if p.op == 'wseq':
            out += p.args[0]
        else:
            out.append(p)
    # adjacent independent writes in one order
    for _ in range(len(out)):
        done = True
        for i in range(len(out) - 1):
            p, q = out[i], out[i + 1]
            if commute(p, q) and p.id > q.id:
                out[i], out[i + 1] = q, p
                done = False
        if done:
            break
    if not out:
        return SKIP
    return out[0] if len(out) == 1 else mk('wseq', tuple(out))


def commute(p, q):
    if p.op == 'wacc' and q.op == 'wacc':
        return True
    if p.op in ('wput', 'wacc', 'wmod') and q.op in ('wput', 'wacc', 'wmod'):
        return diff_idx(p.args[0], q.args[0])
    return False


def wif(c, p, q):
    if c is TRUE or p is q:
        return p
    if c is FALSE:
        return q
    if c.op == 'not':
        return wif(c.args[0], q, p)
    if p.op == q.op and p.op in ('wput', 'wacc') and p.args[0] == q.args[0]:
        return mk(p.op, p.args[0], ite(c, p.args[1], q.args[1]))
    if p.op == q.op == 'wpush':
        return mk('wpush', ite(c, p.args[0], q.args[0]))
    if p.op == 'wacc' and q is SKIP:
        return mk('wacc', p.args[0], ite(c, p.args[1], ZERO))
    if q.op == 'wacc' and p is SKIP:
        return mk('wacc', q.args[0], ite(c, ZERO, q.args[1]))
    return mk('wif', c, p, q)


def wfor(n, l):
    b = l.args[1]
    if b is SKIP or (isnum(n) and n.args[0] == 0):
        return SKIP
    # order of two nested independent loops: the one whose index comes first outside
    if b.op == 'wfor' and b.args[0].maxbv == 0 and b.args[1].args[1].op in ('wput', 'wacc', 'wmod'):
        i, j = fresh('ix'), fresh('ix')
        inner = apply_lam(l, [i])
        w = apply_lam(inner.args[1], [j])
        idx = w.args[0]
        fi = [p for p, x in enumerate(idx) if not isinstance(x, str) and has(x, i)]
        fj = [p for p, x in enumerate(idx) if not isinstance(x, str) and has(x, j)]
        if fi and fj and fj[0] < fi[0] or not fi and any(x is j for x in idx):
            return mk('wfor', inner.args[0], lam([j], mk('wfor', n, lam([i], w))))
    return mk('wfor', n, l)


def scat(base, p):
    """base after the writes of p"""
    if p is SKIP:
        return base
    op = p.op
    if op == 'wseq':
        for q in p.args[0]:
            base = scat(base, q)
        return base
    if op == 'wput':
        return putat(base, p.args[0], p.args[1])
    if op == 'wacc':
        return putat(base, p.args[0], add(getat(base, p.args[0]), p.args[1]))
    if op == 'wmod':
        return putat(base, p.args[0], apply_lam(p.args[1], [getat(base, p.args[0])]))
    if op == 'wpush':
        return append(base, p.args[0])
    if op == 'wfor':
        n, l = p.args
        k = fresh('ix')
        b = apply_lam(l, [k])
        if b.op == 'wpush':
            return cat(base, cmap(n, lam([k], b.args[0])))
        if b.op == 'wif' and {b.args[1].op, b.args[2].op} == {'wpush', 'wskip'}:
            c, x = (b.args[0], b.args[1].args[0]) if b.args[1].op == 'wpush' else (not_(b.args[0]), b.args[2].args[0])
            return cat(base, filt(n, lam([k], c), lam([k], x)))
        if b.op in ('wput', 'wacc', 'wmod') and len(b.args[0]) == 1 and b.args[0][0] is k and size(base) is n:
            x = b.args[1]
            if b.op == 'wacc':
                x = add(coef(base, (k,)), x)
            elif b.op == 'wmod':
                x = apply_lam(x, [coef(base, (k,))])
            return cmap(n, lam([k], x))
        if b.op == 'wfor' and not has(b.args[0], k):
            j = fresh('ix')
            w = apply_lam(b.args[1], [j])
            if w.op in ('wput', 'wacc', 'wmod') and len(w.args[0]) == 2 and w.args[0][0] is k and w.args[0][1] is j \
                    and rows(base) is n and cols(base) is b.args[0]:
                x = w.args[1]
                if w.op == 'wacc':
                    x = add(coef(base, (k, j)), x)
                elif w.op == 'wmod':
                    x = apply_lam(x, [coef(base, (k, j))])
                return mk('map2', n, b.args[0], lam([k, j], x))
    return mk('scat', base, p)


def getat(base, idx):
    if idx and isinstance(idx[0], str):
        return GETPART[0](base, idx)
    return coef(base, idx)


def putat(base, idx, x):
    if idx and isinstance(idx[0], str):
        return PUTPART[0](base, idx, x)
    return upd(base, idx, x)


def append(v, x):
    if v.op == 'list':
        return mk('list', v.args[0] + (x,))
    if v.op in ('uninit', 'zeros') and all(isnum(d) and d.args[0] == 0 for d in v.args[0]):
        return mk('list', (x,))
    return mk('append', v, x)


def cat(a, b):
    if emptyc(a):
        return b
    if emptyc(b):
        return a
    if b.op == 'list':
        for x in b.args[0]:
            a = append(a, x)
        return a
    if b.op == 'cat':
        return cat(cat(a, b.args[0]), b.args[1])
    return mk('cat', a, b)


def emptyc(a):
    return (a.op == 'list' and not a.args[0]) or (a.op in ('uninit', 'zeros') and all(isnum(d) and d.args[0] == 0 for d in a.args[0]))


def filt(n, c, x):
    """the \\i x for which \\i c, in order"""
    if c.args[1] is TRUE:
        return cmap(n, x)
    if c.args[1] is FALSE:
        return EMPTY
    return mk('filter', n, c, x)


def pow2(e):
    """2^e with the constant part taken out"""
    td = dict(terms_of(e))
    c = td.pop((), Fraction(0))
    if c.denominator == 1 and abs(c) <= 64:
        r = from_terms(td)
        k = num(Fraction(2) ** int(c))
        if r is ZERO:
            return k
        p = mk('power', num(2), r)
        SCALARS.add(p)
        if all(x.denominator == 1 and x > 0 for x in terms_of(r).values()):
            INTS.add(p)
        return mul(k, p)
    p = mk('power', num(2), e)
    SCALARS.add(p)
    return p


def merge(c, a, b):
    """value after a branch: a when c, else b"""
    if a is b:
        return a
    # one branch wrote to a container
    for x, y, cc in ((a, b, c), (b, a, not_(c))):
        if x.op == 'upd':
            base, writes = x, []
            while base.op == 'upd' and base is not y:
                writes.append((base.args[1], base.args[2]))
                base = base.args[0]
            if base is y:
                r = y
                for idx, v in reversed(writes):
                    r = upd(r, idx, merge(cc, v, coef(r, idx)))
                return r
    if a.op == 'upd' and b.op == 'upd' and a.args[0] is b.args[0] and same_idx(a.args[1], b.args[1]):
        return upd(a.args[0], a.args[1], merge(c, a.args[2], b.args[2]))
    if a.op == 'setf' and b.op == 'setf' or a.op == 'setf' and rooted(a) is rooted(b) or b.op == 'setf' and rooted(a) is rooted(b):
        ra, da = chain(a)
        rb, db = chain(b)
        if ra is rb:
            r = ra
            for f in sorted(set(da) | set(db)):
                r = setf(r, f, merge(c, da.get(f, fld(ra, f)), db.get(f, fld(ra, f))))
            return r
    if a.op == 'append' and b.op == 'append' and a.args[0] is b.args[0]:
        return append(a.args[0], merge(c, a.args[1], b.args[1]))
    # the larger / smaller of two
    if c.op == 'lt0' or (c.op == 'not' and c.args[0].op == 'lt0'):
        p, q = (a, b) if c.op == 'lt0' else (b, a)
        d = (c if c.op == 'lt0' else c.args[0]).args[0]
        if (scalarish(a) or isnum(a)) and (scalarish(b) or isnum(b)):
            # lt0(d): 0 < d
            e = sub(p, q)
            if e is d:
                return call('max', a, b)
            if e is neg(d):
                return call('min', a, b)
            f = sub(d, e)
            if isnum(f) and intlike(d) and (f.args[0] in (0, 1)):
                return call('max', a, b)
            f = add(d, e)
            if isnum(f) and intlike(d) and (f.args[0] in (0, 1)):
                return call('min', a, b)
            if isprop(e, d):
                return call('max' if isprop(e, d) > 0 else 'min', a, b)
    if c.op == 'or' and (scalarish(a) or isnum(a)) and (scalarish(b) or isnum(b)):
        # the larger / smaller, or the first
        for x in c.args[0]:
            if x.op == 'lt0' or x.op == 'not' and x.args[0].op == 'lt0':
                m = merge(x, a, b)
                if m.op == 'call' and m.args[0] in ('max', 'min'):
                    return ite(or_(*[y for y in c.args[0] if y is not x]), a, m)
    return ite(c, a, b)


def isprop(e, d):
    """sign of the factor when e is a numeric multiple of d, else 0"""
    te, td = terms_of(e), terms_of(d)
    if set(te) != set(td) or not te:
        return 0
    k = None
    for m in te:
        r = te[m] / td[m]
        if k is None:
            k = r
        elif r != k:
            return 0
    return 1 if k > 0 else -1


def rooted(t):
    while t.op == 'setf':
        t = t.args[0]
    return t


def chain(t):
    d = {}
    while t.op == 'setf':
        d.setdefault(t.args[1], t.args[2])
        t = t.args[0]
    return t, d
