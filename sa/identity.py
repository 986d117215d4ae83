"""Algebraic identity of two expressions in the same atoms, tested at random points to 40 digits (Schwartz-Zippel):
used only to recognise expressions as equal that the normal forms keep apart."""
import hashlib
import mpmath as mp
from terms import *   # noqa
import terms as T_

FUN = {
    'exp': mp.exp, 'log': mp.log, 'abs': mp.fabs, 'sin': mp.sin, 'cos': mp.cos, 'tan': mp.tan, 'tanh': mp.tanh, 'sinh': mp.sinh,
    'cosh': mp.cosh, 'expm1': mp.expm1, 'log1p': lambda x: mp.log(1 + x), 'erf': mp.erf, 'erfc': mp.erfc, 'atan': mp.atan,
    'log10': lambda x: mp.log(x) / mp.log(10), 'log2': lambda x: mp.log(x) / mp.log(2), 'sqrt': mp.sqrt,
    'gamma': mp.gamma, 'lgamma': mp.loggamma, 'square': lambda x: x * x,
}


class NoValue(Exception):
    pass


def value(t, seed, memo):
    if t in memo:
        return memo[t]
    op = t.op
    if op == 'num':
        r = mp.mpf(t.args[0].numerator) / t.args[0].denominator if hasattr(t.args[0], 'numerator') else mp.mpf(t.args[0])
    elif op == 'poly':
        r = mp.mpf(0)
        for c, m in t.args[0]:
            x = mp.mpf(c.numerator) / c.denominator
            for a, e in m:
                v = value(a, seed, memo)
                x = x * power(v, mp.mpf(e.numerator) / e.denominator, e.denominator == 1)
            r = r + x
    elif op == 'power':
        b, e = value(t.args[0], seed, memo), value(t.args[1], seed, memo)
        r = power(b, e, isnum(t.args[1]) and t.args[1].args[0].denominator == 1)
    elif op == 'call' and t.args[0] in FUN and all(not n for n, _ in t.args[1]) and not (t.args[0] in ('log',) and len(t.args[1]) > 1):
        xs = [value(a, seed, memo) for _, a in t.args[1]]
        if t.args[0] in ('log', 'log10', 'log2', 'lgamma', 'sqrt') and xs[0] <= 0:
            raise NoValue
        try:
            r = FUN[t.args[0]](*xs)
        except (ValueError, ZeroDivisionError, TypeError, OverflowError):
            raise NoValue
    elif op == 'call' and t.args[0] in ('pdf', 'cdf', 'complement') and len(t.args[1]) == 2 and std(t.args[1][0][1]):
        x = value(t.args[1][1][1], seed, memo)
        r = mp.npdf(x) if t.args[0] == 'pdf' else mp.ncdf(x)
    elif op == 'call' and t.args[0] == 'pi':
        r = mp.pi
    else:
        h = hashlib.sha256(('%d %d' % (t.id, seed)).encode()).digest()
        u = mp.mpf(int.from_bytes(h[:16], 'big')) / mp.mpf(2) ** 128
        r = (u + mp.mpf('0.1')) * (1 if seed % 2 == 0 or h[20] % 2 else -1) * mp.mpf('1.7')
        if t in T_.INTS:
            r = mp.mpf(1 + h[21] % 6)
    memo[t] = r
    return r


def std(n):
    return n.op == 'call' and n.args[0] == 'normal' and n.args[1] == (('', ZERO), ('', ONE))


def power(b, e, integer):
    if integer:
        if b == 0 and e < 0:
            raise NoValue
        return b ** int(e) if abs(e) < 1e6 else b ** e
    if b <= 0:
        raise NoValue
    return b ** e


def same(a, b):
    if a.op in ('error', 'unk', 'lam') or b.op in ('error', 'unk', 'lam') or not (numeric(a) and numeric(b)):
        return False
    old = mp.mp.dps
    mp.mp.dps = 60
    try:
        good = 0
        for seed in range(30):
            memo = {}
            try:
                x, y = value(a, seed, memo), value(b, seed, memo)
            except (NoValue, OverflowError, ZeroDivisionError, ValueError, TypeError):
                continue
            if not (mp.isfinite(x) and mp.isfinite(y)):
                continue
            if abs(x - y) > mp.mpf(10) ** -35 * (1 + abs(x)):
                return False
            good += 1
            if good >= 10:
                return True
        return False
    finally:
        mp.mp.dps = old


def domains(a, b):
    """is one of two expressions defined at points where the other is not?"""
    for seed in range(30):
        d = []
        for t in (a, b):
            try:
                d.append(bool(mp.isfinite(value(t, seed, {}))))
            except (NoValue, OverflowError, ZeroDivisionError, ValueError, TypeError):
                d.append(False)
        if d[0] != d[1]:
            return True
    return False


def numeric(t):
    return t.op in ('num', 'poly', 'power') or t.op == 'call' and (t.args[0] in FUN or t.args[0] in ('pdf', 'cdf'))


# ------------------------------------------------------------------ matrices
N = 3


def mvalue(t, seed, memo):
    """an N x N matrix for a matrix or a vector (one with more columns), a number for a scalar"""
    k = ('m', t)
    if k in memo:
        return memo[k]
    if t.op == 'num' or T_.isscalar(t):
        r = value(t, seed, memo)
    elif t.op == 'ident':
        r = mp.eye(N)
    elif t.op == 'mm':
        r = None
        for x in t.args[0]:
            v = mvalue(x, seed, memo)
            r = v if r is None else r * v
    elif t.op == 'inv':
        v = mvalue(t.args[0], seed, memo)
        if not isinstance(v, mp.matrix):
            raise NoValue
        r = v ** -1
    elif t.op == 't':
        v = mvalue(t.args[0], seed, memo)
        r = v.T if isinstance(v, mp.matrix) else v
    elif t.op == 'poly':
        r = None
        for c, m in t.args[0]:
            x, mats = mp.mpf(c.numerator) / c.denominator, 0
            for a, e in m:
                v = mvalue(a, seed, memo)
                if isinstance(v, mp.matrix):
                    mats += 1
                    if e != 1 or mats > 1:
                        raise NoValue        # elementwise
                    x = v * x
                else:
                    x = x * power(v, mp.mpf(e.numerator) / e.denominator, e.denominator == 1)
            if r is not None and isinstance(r, mp.matrix) != isinstance(x, mp.matrix):
                raise NoValue
            r = x if r is None else r + x
        if r is None:
            raise NoValue
    else:
        r = mp.matrix(N, N)
        h = b''
        for i in range(N):
            for j in range(N):
                h = hashlib.sha256(('%d %d %d %d' % (t.id, seed, i, j)).encode()).digest()
                r[i, j] = mp.mpf(int.from_bytes(h[:16], 'big')) / mp.mpf(2) ** 127 - 1
    memo[k] = r
    return r


def msame(a, b):
    """identities of matrices that need  inv(x) %*% x = 1"""
    if not {a.op, b.op} <= {'poly', 'mm', 'inv', 't'} or not any(x.op == 'inv' for x in subterms(a)) or not any(x.op == 'inv' for x in subterms(b)):
        return False
    old = mp.mp.dps
    mp.mp.dps = 60
    try:
        for seed in range(3):
            memo = {}
            x, y = mvalue(a, seed, memo), mvalue(b, seed, memo)
            if not isinstance(x, mp.matrix) or not isinstance(y, mp.matrix):
                return False
            if mp.mnorm(x - y) > mp.mpf(10) ** -30 * (1 + mp.mnorm(x)):
                return False
        return True
    except (NoValue, OverflowError, ZeroDivisionError, ValueError, TypeError):
        return False
    finally:
        mp.mp.dps = old
