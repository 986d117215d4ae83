"""Random interpretation of loop-free terms (Gulwani, Necula: a decision procedure for the disequality of terms).

Two terms over the same unknowns denote different functions when they take different values under one assignment to the unknowns
that satisfies what is known where they stand.  Unknowns are all subterms whose meaning is not fixed here; each gets a value of the kind the
specification uses it as.  Only used to tell "another form" of the same thing from a different thing; loops are never interpreted.

LANG: 'R' (vectors of length >= 0, positions from 1) or 'C' (scalars, arrays, matrices, positions from 0)."""
import hashlib
import math
import random
import numpy as np
from terms import *   # noqa
import terms as T_

LANG = ['R']


class Ill(Exception):
    """no value under this assignment"""


class Opaque(Exception):
    """outside of what is interpreted"""


class S(tuple):
    """character vector"""


class L:
    def __init__(self, v):
        self.v = list(v)


def isnumv(x):
    return isinstance(x, (np.ndarray, float, int, np.floating, np.bool_, bool, np.integer))


def arr(x):
    """R: at least one-dimensional"""
    if isinstance(x, (S, L)) or x is None:
        raise Ill
    x = np.asarray(x)
    if x.dtype == object:
        raise Ill
    if LANG[0] == 'R' and x.ndim == 0:
        x = x.reshape(1)
    return x


def fin(x):
    x = arr(x)
    if x.dtype != bool and not np.all(np.isfinite(x)):
        raise Ill
    return x


def scalar(x):
    x = arr(x)
    if x.size != 1:
        raise Ill
    return float(x.reshape(-1)[0])


def integer(x):
    v = scalar(x)
    if v != int(v) or abs(v) > 40:
        raise Ill
    return int(v)


def truth(x):
    x = arr(x)
    if x.size != 1:
        raise Ill
    return bool(x.reshape(-1)[0])


def both(x, y):
    """elementwise operands"""
    x, y = arr(x), arr(y)
    if x.size == 1 and x.ndim <= 1 or y.size == 1 and y.ndim <= 1:
        if x.size == 1 and x.ndim <= 1:
            x = x.reshape(-1)[0]
        else:
            y = y.reshape(-1)[0]
        return x, y
    if x.shape == y.shape:
        return x, y
    if LANG[0] == 'R' and x.ndim == 2 and y.ndim == 1 and x.shape[0] == y.shape[0]:
        return x, y.reshape(-1, 1)
    if LANG[0] == 'R' and y.ndim == 2 and x.ndim == 1 and y.shape[0] == x.shape[0]:
        return x.reshape(-1, 1), y
    raise Ill


def res(x):
    return fin(x)


def num_(x):
    x = arr(x)
    return x.astype(float) if x.dtype == bool else x


_erf = np.vectorize(math.erf, otypes=[float])
EW1 = {
    'exp': np.exp, 'log': np.log, 'abs': np.abs, 'sqrt': np.sqrt, 'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'tanh': np.tanh,
    'sinh': np.sinh, 'cosh': np.cosh, 'expm1': np.expm1, 'log1p': np.log1p, 'atan': np.arctan, 'log10': np.log10, 'log2': np.log2,
    'floor': np.floor, 'ceiling': np.ceil, 'ceil': np.ceil, 'trunc': np.trunc, 'sign': np.sign, 'square': np.square,
}
IDENT = {'as.numeric', 'as.vector', 'as.double', 'unname', 'copy', 'as.matrix', 'drop', 'force', 'identity', 'invisible', 'as.integer',
         'static_cast', 'c_'}
AGG = {'sum': np.sum, 'prod': np.prod, 'mean': np.mean}
RFUN = set(EW1) | IDENT | set(AGG) | {
    'round', 'max', 'min', 'any', 'all', 'range', 'rev', 'sort', 'unique', 'cumsum', 'cumprod', 'which', 'rep', 'colon', 'seqlen', 'count1',
    'rowSums', 'colSums', 'rowMeans', 'colMeans', 'matrix', 'cbind', 'rbind', 'nrow', 'ncol', 'length', 'dim', 'c', 'diag', 'determinant', 'chol', 'dnorm',
    'pnorm', 'nchar', 'substr', 'paste', 'isin', 'setdiff', 'union', 'intersect', 'match', 'is.na', 'simplify', 'unlist', 'head', 'tail',
    'which.max', 'which.min', 'diff', 'crossprod', 'tcrossprod', 'outer', 'pmax', 'pmin', 'sub', 'gsub', 'ifelse', 'identical', 'setequal', 'duplicated',
    'det', 'numeric', 'norm', 'grepl', 'startsWith', 'order', 'is.finite', 'var', 'as.logical', 'is.nan', 'rowsum_',
    'backsolve', 'forwardsolve', 'chol2inv', 'pchisq', 'mod', 'isTRUE', 'isFALSE'}
CFUN = set(EW1) | {
    'max', 'min', 'rows', 'cols', 'size', 'det', 'idiv', 'imod', 'prodover', 'maxover', 'minover', 'dot', 'squaredNorm', 'norm', 'asDiagonal', 'maxCoeff',
    'minCoeff', 'pdf', 'cdf', 'round', 'isfinite', 'isnan', 'veq', 'isinf', 'sort', 'mean', 'prod', 'sum', 'trace', 'diagonal', 'reverse'}
ROPS = {'num', 'str', 'lgl', 'null', 'poly', 'power', 'ite', 'or', 'not', 'lt0', 'eq', 'empty', 'mm', 't', 'inv', 'call', 'idx', 'el', 'map', 'sum', 'exists',
        'bv', 'missing', 'list', 'fld', 'ident', 'lam', 'setf'}
COPS = {'num', 'str', 'lgl', 'poly', 'power', 'ite', 'or', 'not', 'lt0', 'eq', 'mm', 't', 'inv', 'call', 'coef', 'ocoef', 'seg', 'blk', 'row', 'col', 'zeros', 'ones',
        'const', 'map', 'map2', 'sum', 'esum', 'exists', 'bv', 'list', 'lam', 'vcat', 'cat', 'empty', 'upd', 'ident', 'append', 'rev', 'scalar'}


def known(t):
    """has a fixed meaning"""
    op = t.op
    if LANG[0] == 'R':
        if op == 'call':
            return t.args[0] in RFUN
        if op == 'fld':
            return t.args[1] == 'modulus' and t.args[0].op == 'call' and t.args[0].args[0] == 'determinant'
        if op == 'setf':
            return t.args[1] in ('#names', '#dimnames', 'names', '#attr:names')
        return op in ROPS
    if op == 'call':
        if t.args[0] in ('pdf', 'cdf'):
            n = t.args[1][0][1]
            return n.op == 'call' and n.args[0] == 'normal' and n.args[1] == (('', ZERO), ('', ONE))
        return t.args[0] in CFUN
    return op in COPS


BAD = {'loop', 'while', 'unk', 'error', 'scat', 'outcome', 'fnbody', 'fn', 'loopstate', 'loopexit', 'wput', 'foreach', 'trycatch', 'rng', 'reduce', 'fails',
       'first', 'filter', 'findidx', 'undef', 'uninit', 'inf', 'tup', 'eff', 'apply', 'do.call'}


def atoms(t, out, depth=0, memo=None):
    """unknowns: (term, binder depth at which it stands)"""
    memo = set() if memo is None else memo
    k = (t, depth)
    if k in memo:
        return
    memo.add(k)
    if len(memo) > 4000:
        raise Opaque
    if t.op == 'bv':
        if t.args[0] >= depth:
            out.add(mk('bv', t.args[0] - depth))
        return
    if t.op == 'lam':
        atoms(t.args[1], out, depth + t.args[0], memo)
        return
    if not known(t):
        if t.op in BAD:
            raise Opaque
        low = unshift(t, depth)
        if low is None:
            raise Opaque            # depends on a variable bound inside
        out.add(low)
        return
    for c in children(t):
        atoms(c, out, depth, memo)


def unshift(t, d):
    """t seen from outside d binders, or None"""
    if d == 0 or t.maxbv == 0:
        return t
    ok = [True]

    def go(x, k):
        if x.maxbv <= k:
            return x
        if x.op == 'bv':
            if x.args[0] < k:
                return x
            if x.args[0] - k < d:
                ok[0] = False
                return x
            return mk('bv', x.args[0] - d)
        if x.op == 'lam':
            return mk('lam', x.args[0], go(x.args[1], k + x.args[0]))
        return rebuild(x, lambda y: go(y, k))
    r = go(t, 0)
    return r if ok[0] else None


# ------------------------------------------------------------------ kinds
RANK = ['num', 'vec', 'index', 'count', 'arr', 'mat', 'sq', 'spd']


class Kinds:
    def __init__(self):
        self.k = {}

    def want(self, a, kind):
        old = self.k.get(a)
        if old is None or old == 'any':
            self.k[a] = kind
        elif kind == 'any' or kind == old:
            pass
        elif old in RANK and kind in RANK:
            self.k[a] = max(old, kind, key=RANK.index)
        elif {old, kind} <= {'bool', 'num', 'vec', 'bools', 'any'}:
            self.k[a] = 'bools' if 'vec' in (old, kind) or 'bools' in (old, kind) else 'bool'
        elif {old, kind} <= {'str', 'strs', 'vec'}:
            self.k[a] = 'strs'
        else:
            raise Opaque

    def walk(self, t, kind, depth=0, seen=None):
        seen = set() if seen is None else seen
        key = (t, kind, depth)
        if key in seen:
            return
        seen.add(key)
        op = t.op
        w = lambda x, k: self.walk(x, k, depth, seen)
        if op == 'bv':
            if t.args[0] >= depth:
                self.want(mk('bv', t.args[0] - depth), kind)
            return
        if op == 'lam':
            return self.walk(t.args[1], kind, depth + t.args[0], seen)
        if not known(t):
            low = unshift(t, depth)
            if low is None:
                raise Opaque
            if T_.isbool(t):
                kind = 'bools' if kind in ('bools', 'vec') else 'bool'
            elif t in T_.INTS and kind in ('num', 'any'):
                kind = 'count'
            elif t in T_.VECTORS and kind in ('num', 'any'):
                kind = 'vec'
            elif t in T_.SCALARS and kind in ('any',):
                kind = 'num'
            return self.want(low, kind)
        if op in ('num', 'str', 'lgl', 'null', 'missing', 'ident'):
            return
        if op in ('or', 'not'):
            b = 'bools' if kind in ('bools', 'vec') else 'bool'
            for c in children(t):
                w(c, b)
            return
        if op == 'poly':
            for c, m in t.args[0]:
                for a, e in m:
                    w(a, kind if kind in ('num', 'vec', 'count', 'index', 'mat') else 'num')
            return
        if op in ('lt0',):
            return w(t.args[0], 'vec' if kind in ('bools', 'vec') else 'num')
        if op == 'eq':
            ks = [y for y in t.args if y.op == 'str']
            k = 'str' if ks else 'bool' if any(y.op == 'lgl' for y in t.args) else 'num' if any(y.op in ('num', 'poly') for y in t.args) else 'any'
            if kind in ('bools', 'vec') and k in ('str', 'num'):
                k = {'str': 'strs', 'num': 'vec'}[k]
            for y in t.args:
                w(y, k)
            return
        if op == 'ite':
            w(t.args[0], 'bools' if kind in ('vec', 'bools') and LANG[0] == 'C' else 'bool')
            w(t.args[1], kind)
            return w(t.args[2], kind)
        if op == 'empty':
            return w(t.args[0], 'vec')
        if op == 'mm':
            n = len(t.args[0])
            for i, f in enumerate(t.args[0]):
                w(f, 'mat' if i < n - 1 else 'arr')
            return
        if op == 't':
            return w(t.args[0], 'arr')
        if op == 'inv':
            return w(t.args[0], 'spd')
        if op == 'idx':
            ix = t.args[1]
            w(t.args[0], ('mat' if len(ix) == 2 else 'vec'))
            for x in ix:
                w(x, 'index')
            return
        if op in ('coef', 'ocoef'):
            ix = t.args[1]
            w(t.args[0], 'mat' if len(ix) == 2 else 'vec')
            for x in ix:
                w(x, 'count')
            return
        if op == 'seg':
            w(t.args[0], 'vec')
            w(t.args[1], 'count')
            return w(t.args[2], 'count')
        if op in ('blk', 'row', 'col'):
            w(t.args[0], 'mat')
            for x in t.args[1:]:
                w(x, 'count')
            return
        if op in ('map', 'sum', 'exists'):
            w(t.args[0], 'count')
            return w(t.args[1], 'bool' if op == 'exists' else 'num')
        if op == 'map2':
            w(t.args[0], 'count')
            w(t.args[1], 'count')
            return w(t.args[2], 'num')
        if op == 'esum':
            return w(t.args[0], 'vec')
        if op == 'call':
            f = t.args[0]
            vec = {'length', 'sum', 'any', 'all', 'max', 'min', 'rev', 'cumsum', 'cumprod', 'sort', 'unique', 'mean', 'prod', 'which', 'range', 'size', 'diff',
                   'which.max', 'which.min', 'order', 'norm', 'squaredNorm', 'dot', 'reverse', 'duplicated', 'setdiff', 'union', 'intersect', 'maxCoeff', 'minCoeff'}
            pos = [v for n, v in t.args[1]]
            if f in ('max', 'min') and len(pos) > 1:
                for v in pos:
                    w(v, 'num' if kind not in ('vec', 'count') else kind)
                return
            if f in vec:
                for v in pos:
                    w(v, 'bools' if f in ('any', 'all', 'which') else 'vec')
            elif f in ('nrow', 'ncol', 'rowSums', 'colSums', 'rowMeans', 'colMeans', 'rows', 'cols', 'diag', 'as.matrix', 'crossprod', 'tcrossprod', 'dim', 'trace', 'diagonal'):
                for v in pos:
                    w(v, 'mat')
            elif f in ('backsolve', 'forwardsolve', 'chol2inv'):
                w(pos[0], 'spd')
                if len(pos) > 1:
                    w(pos[1], 'arr')
            elif f in ('determinant', 'det', 'chol'):
                for v in pos:
                    w(v, 'spd')
            elif f in ('as.numeric', 'as.vector', 'as.double', 'unname', 'copy', 'drop', 'identity'):
                for v in pos:
                    w(v, kind)
            elif f in ('nchar', 'substr', 'sub', 'gsub', 'grepl', 'startsWith', 'paste'):
                for n, v in t.args[1]:
                    if n in ('start', 'stop'):
                        w(v, 'count')
                    elif v.op == 'lgl':
                        pass
                    else:
                        w(v, 'str' if f != 'paste' else 'any')
            elif f in ('rep', 'colon', 'seqlen', 'count1', 'matrix', 'head', 'tail', 'numeric'):
                for n, v in t.args[1]:
                    w(v, 'count' if n in ('times', 'each', 'nrow', 'ncol', 'n', 'length.out') or f in ('colon', 'seqlen', 'count1', 'numeric') else 'num')
            elif f in ('isin', 'match', 'identical', 'setequal', 'c', 'unlist', 'simplify', 'cbind', 'rbind', 'is.na'):
                for v in pos:
                    w(v, 'any')
            elif f in ('idiv', 'imod'):
                for v in pos:
                    w(v, 'count')
            elif f in ('prodover', 'maxover', 'minover'):
                w(pos[0], 'count')
                w(pos[1], 'num')
            else:
                for v in pos:
                    if v.op != 'lgl':
                        w(v, kind if kind in ('num', 'vec', 'mat') else 'num')
            return
        for c in children(t):
            w(c, 'any' if op in ('list', 'append', 'cat', 'vcat') else kind)


# -------------------------------------------------------------- evaluation
class Ev:
    def __init__(self, env, atomv):
        self.env0, self.atomv = env, atomv
        self.memo = {}
        self.n = 0

    def ev(self, t, env=()):
        """env: values of the binders met inside; free indices beyond refer to the frames outside"""
        k = (t, env if t.maxbv else ())
        try:
            r = self.memo.get(k, self)
        except TypeError:
            r = self
        if r is not self:
            if isinstance(r, Exception):
                raise r
            return r
        self.n += 1
        if self.n > 6000:
            raise Opaque
        try:
            r = self.ev1(t, env)
        except (Ill, Opaque) as e:
            self.memo[k] = e
            raise
        except (ValueError, FloatingPointError, ZeroDivisionError, OverflowError, np.linalg.LinAlgError, IndexError, TypeError):
            self.memo[k] = Ill()
            raise Ill
        self.memo[k] = r
        return r

    def ev1(self, t, env):
        op = t.op
        if op == 'bv':
            i = t.args[0]
            if i < len(env):
                v = env[-1 - i]
                return np.array([float(v)]) if LANG[0] == 'R' else float(v)
            return self.atomv[mk('bv', i - len(env))]
        if not known(t):
            return self.atomv[unshift(t, len(env))]
        f = getattr(self, 'e_' + op, None)
        if f is None:
            raise Opaque
        return f(t, env)

    def body(self, l, env, *vals):
        return self.ev(l.args[1], env + tuple(vals))

    def e_num(self, t, env):
        v = float(t.args[0])
        return np.array([v]) if LANG[0] == 'R' else v

    def e_str(self, t, env):
        return S((t.args[0],))

    def e_lgl(self, t, env):
        return np.array([t.args[0]]) if LANG[0] == 'R' else t.args[0]

    def e_null(self, t, env):
        return None

    def e_scalar(self, t, env):
        return self.ev(t.args[0], env)

    def e_poly(self, t, env):
        acc = None
        for c, m in t.args[0]:
            x = np.array([float(c)]) if LANG[0] == 'R' else float(c)
            for a, e in m:
                v = num_(self.ev(a, env))
                ef = float(e)
                if ef != 1:
                    if ef < 0 and np.any(v == 0) or ef != int(ef) and np.any(v < 0):
                        raise Ill
                    v = v ** ef
                p, q = both(x, v)
                x = arr(p * q)
            if acc is None:
                acc = x
            else:
                p, q = both(acc, x)
                acc = arr(p + q)
        return res(acc if acc is not None else 0.0)

    def e_power(self, t, env):
        b, e = both(num_(self.ev(t.args[0], env)), num_(self.ev(t.args[1], env)))
        with np.errstate(all='ignore'):
            return res(np.power(b, e))

    def e_ite(self, t, env):
        c = arr(self.ev(t.args[0], env))
        if c.size == 1:
            return self.ev(t.args[1 if bool(c.reshape(-1)[0]) else 2], env)
        if LANG[0] == 'R':
            raise Ill
        x, y = arr(self.ev(t.args[1], env)), arr(self.ev(t.args[2], env))
        for z in (x, y):
            if z.size != 1 and z.shape != c.shape:
                raise Ill
        return np.where(c, x, y)

    def e_or(self, t, env):
        acc = None
        ill = None
        for x in t.args[0]:
            try:
                v = arr(self.ev(x, env)).astype(bool)
            except Ill as e:
                ill = e
                continue
            if v.size == 1 and v.reshape(-1)[0] and LANG[0] == 'C':
                return True
            acc = v if acc is None else np.logical_or(*both(acc, v))
        if ill:
            if acc is not None and np.size(acc) == 1 and bool(np.reshape(acc, -1)[0]):
                return np.array([True])
            raise ill
        return arr(acc)

    def e_not(self, t, env):
        return arr(np.logical_not(arr(self.ev(t.args[0], env)).astype(bool)))

    def e_lt0(self, t, env):
        v = num_(self.ev(t.args[0], env))
        if np.any((np.abs(v) < 1e-9) & (v != 0)):
            raise Ill
        return arr(v > 0)

    def e_eq(self, t, env):
        x, y = (self.ev(a, env) for a in t.args)
        if isinstance(x, S) or isinstance(y, S):
            if not (isinstance(x, S) and isinstance(y, S)):
                raise Ill
            if len(x) != 1 and len(y) != 1 and len(x) != len(y):
                raise Ill
            n = max(len(x), len(y)) if x and y else 0
            return np.array([(x[i if len(x) > 1 else 0] == y[i if len(y) > 1 else 0]) for i in range(n)], dtype=bool)
        if isinstance(x, L) or isinstance(y, L) or x is None or y is None:
            raise Ill
        p, q = both(num_(x), num_(y))
        return arr(np.abs(p - q) < 1e-10)

    def e_empty(self, t, env):
        return np.array([length(self.ev(t.args[0], env)) == 0])

    def e_mm(self, t, env):
        fs = [num_(self.ev(f, env)) for f in t.args[0]]
        r = fs[0]
        if LANG[0] == 'R' and r.ndim == 1:
            # a vector on the left is a row or a column, whichever fits
            r = r.reshape(1, -1) if not (fs[1].ndim == 2 and fs[1].shape[0] != r.size) else r.reshape(-1, 1)
        for f in fs[1:]:
            if f.ndim == 0:
                raise Ill
            if LANG[0] == 'R' and f.ndim == 1:
                f = f.reshape(-1, 1) if r.shape[-1] == f.size else f.reshape(1, -1)
            r = r @ f
        return res(r)

    def e_t(self, t, env):
        v = num_(self.ev(t.args[0], env))
        if v.ndim == 2:
            return v.T
        if v.ndim == 1:
            return v.reshape(1, -1)
        raise Ill

    def e_inv(self, t, env):
        v = num_(self.ev(t.args[0], env))
        if v.ndim != 2 or v.shape[0] != v.shape[1] or abs(np.linalg.det(v)) < 1e-6:
            raise Ill
        return res(np.linalg.inv(v))

    def e_list(self, t, env):
        vs = [self.ev(x, env) for x in t.args[0]]
        if LANG[0] == 'C':
            if all(isnumv(v) and np.ndim(v) == 0 for v in vs):
                return np.array([float(v) for v in vs])
            raise Opaque
        return L(vs)

    def e_setf(self, t, env):
        return self.ev(t.args[0], env)          # names do not change the elements

    def e_fld(self, t, env):                    # determinant(x)$modulus
        x = t.args[0]
        d = dict(x.args[1])
        if set(d) - {'x', '', 'logarithm'}:
            raise Opaque
        v = num_(self.ev(d.get('x', d.get('')), env))
        if v.ndim != 2 or v.shape[0] != v.shape[1]:
            raise Ill
        s, ld = np.linalg.slogdet(v)
        if s == 0:
            raise Ill
        lg = d.get('logarithm', TRUE)
        if lg not in (TRUE, FALSE):
            raise Opaque
        return res([ld if lg is TRUE else math.exp(ld)])

    # positions
    def e_idx(self, t, env):
        if len(t.args) > 2 and any(x is not FALSE and x is not TRUE for x in t.args[2:]):
            raise Opaque
        drop = not (len(t.args) > 2 and t.args[2] is FALSE)
        x, ix = self.ev(t.args[0], env), t.args[1]
        if not isinstance(ix, tuple):
            raise Opaque

        def sel(i, n):
            if i is MISSING:
                return list(range(n))
            v = self.ev(i, env)
            if isinstance(v, (S, L)) or v is None:
                raise Ill
            v = arr(v)
            if v.ndim != 1:
                raise Ill
            if v.dtype == bool:
                if len(v) != n:
                    raise Ill
                return [k for k in range(n) if v[k]]
            if np.any(v != np.round(v)):
                raise Ill
            v = [int(k) for k in v if k != 0]
            if all(k < 0 for k in v) and v:
                return [k for k in range(n) if -(k + 1) not in v]
            if any(k < 0 or k > n for k in v):
                raise Ill
            return [k - 1 for k in v]
        if len(ix) == 1:
            if isinstance(x, S):
                return S(x[k] for k in sel(ix[0], len(x)))
            if isinstance(x, L):
                return L(x.v[k] for k in sel(ix[0], len(x.v)))
            x = arr(x)
            if x.ndim != 1:
                x = x.reshape(-1, order='F')
            return x[sel(ix[0], len(x))]
        x = arr(x)
        if len(ix) != 2 or x.ndim != 2:
            raise Ill
        r = x[np.ix_(sel(ix[0], x.shape[0]), sel(ix[1], x.shape[1]))]
        return r.reshape(-1) if drop and 1 in r.shape else r

    def e_el(self, t, env):
        x, i = self.ev(t.args[0], env), integer(self.ev(t.args[1], env))
        n = length(x)
        if not 1 <= i <= n:
            raise Ill
        if isinstance(x, S):
            return S((x[i - 1],))
        if isinstance(x, L):
            return x.v[i - 1]
        return arr(x).reshape(-1, order='F')[i - 1:i]

    def e_coef(self, t, env):
        x = arr(self.ev(t.args[0], env))
        ix = [integer(self.ev(i, env)) for i in t.args[1]]
        if len(ix) != x.ndim:
            if x.ndim == 2 and len(ix) == 1 and 1 in x.shape:
                x = x.reshape(-1)
            else:
                raise Ill
        if any(not 0 <= i < n for i, n in zip(ix, x.shape)):
            raise Ill
        return float(x[tuple(ix)])

    e_ocoef = e_coef

    def e_seg(self, t, env):
        x = arr(self.ev(t.args[0], env))
        o, n = (integer(self.ev(i, env)) for i in t.args[1:3])
        if x.ndim != 1 or o < 0 or n < 0 or o + n > len(x):
            raise Ill
        return x[o:o + n]

    def e_blk(self, t, env):
        x = arr(self.ev(t.args[0], env))
        r, c, n, m = (integer(self.ev(i, env)) for i in t.args[1:5])
        if x.ndim != 2 or min(r, c, n, m) < 0 or r + n > x.shape[0] or c + m > x.shape[1]:
            raise Ill
        return x[r:r + n, c:c + m]

    def e_row(self, t, env):
        x, i = arr(self.ev(t.args[0], env)), integer(self.ev(t.args[1], env))
        if x.ndim != 2 or not 0 <= i < x.shape[0]:
            raise Ill
        return x[i:i + 1, :]

    def e_col(self, t, env):
        x, i = arr(self.ev(t.args[0], env)), integer(self.ev(t.args[1], env))
        if x.ndim != 2 or not 0 <= i < x.shape[1]:
            raise Ill
        return x[:, i]

    def shape_(self, dims, env):
        n = tuple(integer(self.ev(i, env)) for i in dims)
        if any(k < 0 or k > 12 for k in n):
            raise Ill
        return n

    def e_zeros(self, t, env):
        return np.zeros(self.shape_(t.args[0], env))

    def e_ones(self, t, env):
        return np.ones(self.shape_(t.args[0], env))

    def e_const(self, t, env):
        return np.full(self.shape_(t.args[0], env), scalar(self.ev(t.args[1], env)))

    def e_upd(self, t, env):
        x = np.array(arr(self.ev(t.args[0], env)), dtype=float)
        ix = tuple(integer(self.ev(i, env)) for i in t.args[1])
        if len(ix) != x.ndim or any(not 0 <= i < n for i, n in zip(ix, x.shape)):
            raise Ill
        x[ix] = scalar(self.ev(t.args[2], env))
        return x

    def rng(self, n):
        return range(1, n + 1) if LANG[0] == 'R' else range(n)

    def e_map(self, t, env):
        n = integer(self.ev(t.args[0], env))
        vs = [self.body(t.args[1], env, i) for i in self.rng(n)]
        if LANG[0] == 'R':
            return L(vs)
        if all(isnumv(v) and np.ndim(v) == 0 for v in vs):
            return np.array([float(v) for v in vs])
        raise Opaque

    def e_map2(self, t, env):
        n, m = integer(self.ev(t.args[0], env)), integer(self.ev(t.args[1], env))
        return np.array([[scalar(self.body(t.args[2], env, i, j)) for j in range(m)] for i in range(n)]).reshape(n, m)

    def e_sum(self, t, env):
        n = integer(self.ev(t.args[0], env))
        acc = 0.0
        for i in self.rng(n):
            acc = acc + num_(self.body(t.args[1], env, i))
        return arr(acc)

    def e_exists(self, t, env):
        n = integer(self.ev(t.args[0], env))
        return arr(any(truth(self.body(t.args[1], env, i)) for i in self.rng(n)))

    def e_esum(self, t, env):
        return float(np.sum(num_(self.ev(t.args[0], env))))

    def e_vcat(self, t, env):
        xs = [arr(self.ev(x, env)) for x in t.args[0]]
        return np.concatenate(xs, axis=0)

    def e_ident(self, t, env):
        raise Opaque

    # calls
    def e_call(self, t, env):
        f = t.args[0]
        kw = {n: v for n, v in t.args[1] if n}
        pos = [v for n, v in t.args[1] if not n]
        E = lambda x: self.ev(x, env)
        allv = [v for n, v in t.args[1]]
        with np.errstate(all='ignore'):
            if f in EW1:
                if len(allv) != 1:
                    raise Opaque
                return res(EW1[f](num_(E(allv[0]))))
            return getattr(self, ('r_' if LANG[0] == 'R' else 'c_') + f.replace('.', '_'), self.other)(f, kw, pos, allv, E)

    def other(self, f, kw, pos, allv, E):
        if LANG[0] == 'R':
            if f in IDENT:
                if len(allv) != 1:
                    raise Opaque
                x = E(allv[0])
                if f in ('as.numeric', 'as.vector', 'as.double', 'as.integer') and isnumv(x):
                    x = num_(x).reshape(-1, order='F') if np.ndim(x) == 2 else num_(x)
                    if f == 'as.integer':
                        x = np.trunc(x)
                if f == 'as.matrix' and arr(x).ndim == 1:
                    x = arr(x).reshape(-1, 1)
                if f == 'drop' and isnumv(x) and np.ndim(x) == 2 and 1 in np.shape(x):
                    x = arr(x).reshape(-1)
                return x
            if f in AGG:
                if kw and set(kw) - {'x'}:
                    raise Opaque
                xs = np.concatenate([num_(E(v)).reshape(-1) for v in allv])
                if f == 'mean' and not len(xs):
                    raise Ill
                return res([AGG[f](xs)])
        raise Opaque

    def r_round(self, f, kw, pos, allv, E):
        if len(allv) != 1:
            raise Opaque
        return res(np.round(num_(E(allv[0]))))

    def r_max(self, f, kw, pos, allv, E):
        if kw and set(kw) - {'x'}:
            raise Opaque
        xs = np.concatenate([num_(E(v)).reshape(-1) for v in allv])
        if not len(xs):
            raise Ill
        return res([xs.max() if f == 'max' else xs.min()])

    r_min = r_max

    def r_pmax(self, f, kw, pos, allv, E):
        if kw:
            raise Opaque
        r = num_(E(pos[0]))
        for v in pos[1:]:
            r = (np.maximum if f == 'pmax' else np.minimum)(*both(r, num_(E(v))))
        return res(r)

    r_pmin = r_pmax

    def r_range(self, f, kw, pos, allv, E):
        x = num_(E(allv[0])).reshape(-1)
        return res([x.min(), x.max()])

    def r_any(self, f, kw, pos, allv, E):
        if kw and set(kw) - {'x'}:
            raise Opaque
        xs = [E(v) for v in allv]
        if any(x is None for x in xs):
            raise Ill
        xs = [arr(x).astype(bool).reshape(-1) for x in xs]
        x = np.concatenate(xs)
        return np.array([bool(x.any() if f == 'any' else x.all())])

    r_all = r_any

    def r_rev(self, f, kw, pos, allv, E):
        x = E(allv[0])
        if isinstance(x, S):
            return S(reversed(x))
        if isinstance(x, L):
            return L(reversed(x.v))
        return arr(x)[::-1]

    def r_sort(self, f, kw, pos, allv, E):
        if len(allv) != 1:
            raise Opaque
        x = E(allv[0])
        return S(sorted(x)) if isinstance(x, S) else np.sort(arr(x))

    def r_unique(self, f, kw, pos, allv, E):
        if len(allv) != 1:
            raise Opaque
        x = E(allv[0])
        if isinstance(x, S):
            return S(dict.fromkeys(x))
        x = arr(x)
        if x.ndim != 1:
            raise Ill
        return np.array(list(dict.fromkeys(x.tolist())), dtype=x.dtype)

    def r_cumsum(self, f, kw, pos, allv, E):
        x = num_(E(allv[0])).reshape(-1)
        return np.cumsum(x) if f == 'cumsum' else np.cumprod(x)

    r_cumprod = r_cumsum

    def r_which(self, f, kw, pos, allv, E):
        x = arr(E(allv[0]))
        if x.ndim != 1 or x.dtype != bool or len(allv) != 1:
            raise Ill
        return np.array([i + 1.0 for i in range(len(x)) if x[i]])

    def r_which_max(self, f, kw, pos, allv, E):
        x = num_(E(allv[0])).reshape(-1)
        return np.array([1.0 + (np.argmax(x) if f == 'which.max' else np.argmin(x))])

    r_which_min = r_which_max

    def r_order(self, f, kw, pos, allv, E):
        if len(allv) != 1:
            raise Opaque
        return np.argsort(num_(E(allv[0])), kind='stable') + 1.0

    def r_diff(self, f, kw, pos, allv, E):
        if len(allv) != 1:
            raise Opaque
        return np.diff(num_(E(allv[0])))

    def r_duplicated(self, f, kw, pos, allv, E):
        x = E(allv[0])
        x = list(x) if isinstance(x, S) else arr(x).tolist()
        return np.array([x[i] in x[:i] for i in range(len(x))], dtype=bool)

    def r_rep(self, f, kw, pos, allv, E):
        d = dict(kw)
        for n in ('x', 'times'):
            if n not in d and pos:
                d[n] = pos.pop(0)
        if set(d) - {'x', 'times', 'each', 'length.out'} or pos:
            raise Opaque
        x = E(d['x'])
        x = list(x) if isinstance(x, S) else num_(x).reshape(-1, order='F').tolist() if isnumv(x) else 0
        if x == 0:
            raise Opaque
        st = isinstance(E(d['x']), S)
        if 'each' in d:
            k = integer(E(d['each']))
            if k < 0:
                raise Ill
            x = [y for y in x for _ in range(k)]
        if 'times' in d:
            tv = arr(E(d['times']))
            if tv.size == 1:
                k = integer(tv)
                if k < 0:
                    raise Ill
                x = x * k
            elif tv.size == len(x):
                x = [y for y, k in zip(x, tv) for _ in range(int(k))]
            else:
                raise Ill
        if 'length.out' in d:
            k = integer(E(d['length.out']))
            if not x or k < 0:
                raise Ill
            x = [x[i % len(x)] for i in range(k)]
        if len(x) > 400:
            raise Ill
        return S(x) if st else np.array(x, dtype=float)

    def r_colon(self, f, kw, pos, allv, E):
        a, b = (scalar(E(v)) for v in allv[:2])
        if len(allv) != 2 or abs(a) > 60 or abs(b) > 60:
            raise Ill
        n = int(math.floor(abs(b - a) + 1e-9)) + 1
        return np.array([a + i if b >= a else a - i for i in range(n)])

    def r_seqlen(self, f, kw, pos, allv, E):
        n = integer(E(allv[0]))
        if n < 0:
            raise Ill
        return np.array([1.0 + i for i in range(n)])

    def r_count1(self, f, kw, pos, allv, E):
        n = integer(E(allv[0]))
        if n < 1:
            raise Ill
        return np.array([float(n)])

    def r_rowSums(self, f, kw, pos, allv, E):
        x = num_(E(allv[0]))
        if len(allv) != 1:
            raise Opaque
        if x.ndim != 2:
            raise Ill
        ax = 1 if f.startswith('row') else 0
        return res(x.sum(axis=ax) if f.endswith('Sums') else x.mean(axis=ax))

    r_colSums = r_rowMeans = r_colMeans = r_rowSums

    def r_matrix(self, f, kw, pos, allv, E):
        d = dict(kw)
        for n in ('data', 'nrow', 'ncol', 'byrow'):
            if n not in d and pos:
                d[n] = pos.pop(0)
        if set(d) - {'data', 'nrow', 'ncol', 'byrow'} or pos or 'data' not in d:
            raise Opaque
        x = num_(E(d['data'])).reshape(-1, order='F')
        n = integer(E(d['nrow'])) if 'nrow' in d else None
        m = integer(E(d['ncol'])) if 'ncol' in d else None
        if n is None and m is None:
            n, m = len(x), 1
        elif m is None:
            if n <= 0 or len(x) % n:
                raise Ill
            m = len(x) // n
        elif n is None:
            if m <= 0 or len(x) % m:
                raise Ill
            n = len(x) // m
        if len(x) == 1:
            x = np.repeat(x, n * m)
        if len(x) != n * m:
            raise Ill
        by = d.get('byrow', FALSE)
        if by not in (TRUE, FALSE):
            raise Opaque
        return x.reshape(n, m, order='C' if by is TRUE else 'F')

    def r_cbind(self, f, kw, pos, allv, E):
        xs = [num_(E(v)) for v in allv]
        if f == 'cbind':
            return np.concatenate([x.reshape(-1, 1) if x.ndim == 1 else x for x in xs], axis=1)
        return np.concatenate([x.reshape(1, -1) if x.ndim == 1 else x for x in xs], axis=0)

    r_rbind = r_cbind

    def r_nrow(self, f, kw, pos, allv, E):
        x = arr(E(allv[0]))
        if x.ndim != 2:
            raise Ill
        return np.array([float(x.shape[0 if f == 'nrow' else 1])])

    r_ncol = r_nrow

    def r_dim(self, f, kw, pos, allv, E):
        x = arr(E(allv[0]))
        if x.ndim != 2:
            raise Ill
        return np.array([float(k) for k in x.shape])

    def r_length(self, f, kw, pos, allv, E):
        return np.array([float(length(E(allv[0])))])

    def r_c(self, f, kw, pos, allv, E):
        xs = [E(v) for v in allv]
        xs = [x for x in xs if x is not None]
        if xs and all(isinstance(x, S) for x in xs):
            return S(y for x in xs for y in x)
        if any(isinstance(x, L) for x in xs):
            return L(z for x in xs for z in (x.v if isinstance(x, L) else single(x)))
        if any(isinstance(x, S) for x in xs):
            raise Opaque
        if not xs:
            return None
        if all(arr(x).dtype == bool for x in xs):
            return np.concatenate([arr(x).reshape(-1, order='F') for x in xs])
        return np.concatenate([num_(x).reshape(-1, order='F') for x in xs])

    def r_unlist(self, f, kw, pos, allv, E):
        if set(kw) - {'x', 'use.names'}:
            raise Opaque
        x = E(kw.get('x', pos[0] if pos else allv[0]))
        return flatten(x)

    def r_simplify(self, f, kw, pos, allv, E):
        x = E(allv[0])
        if isinstance(x, L) and x.v and all(length(v) == 1 for v in x.v):
            return flatten(x)
        if isinstance(x, L) and x.v and all(isnumv(v) and length(v) == length(x.v[0]) for v in x.v):
            return np.stack([num_(v) for v in x.v], axis=1)
        if isinstance(x, L):
            raise Ill
        return x

    def r_diag(self, f, kw, pos, allv, E):
        x = num_(E(allv[0]))
        if len(allv) != 1 or x.ndim != 2:
            raise Ill
        return np.diag(x).copy()

    def r_det(self, f, kw, pos, allv, E):
        return res([np.linalg.det(num_(E(allv[0])))])

    def r_chol(self, f, kw, pos, allv, E):
        if len(allv) != 1:
            raise Opaque
        return np.linalg.cholesky(num_(E(allv[0]))).T

    def r_crossprod(self, f, kw, pos, allv, E):
        x = [num_(E(v)) for v in allv]
        x = [v.reshape(-1, 1) if v.ndim == 1 else v for v in x]
        a, b = x[0], x[-1]
        return a.T @ b if f == 'crossprod' else a @ b.T

    r_tcrossprod = r_crossprod

    def r_outer(self, f, kw, pos, allv, E):
        if len(allv) != 2:
            raise Opaque
        return np.outer(num_(E(allv[0])), num_(E(allv[1])))

    def r_dnorm(self, f, kw, pos, allv, E):
        if set(kw) - {'x', 'log'} or kw.get('log', FALSE) not in (TRUE, FALSE):
            raise Opaque
        x = num_(E(kw.get('x', pos[0] if pos else None)))
        v = -0.5 * x * x - 0.5 * math.log(2 * math.pi)
        return res(v if kw.get('log', FALSE) is TRUE else np.exp(v))

    def r_pnorm(self, f, kw, pos, allv, E):
        if set(kw) - {'q', 'lower.tail'} or kw.get('lower.tail', TRUE) not in (TRUE, FALSE):
            raise Opaque
        x = num_(E(kw.get('q', pos[0] if pos else None)))
        s = 1 if kw.get('lower.tail', TRUE) is TRUE else -1
        return res(0.5 * (1 + _erf(s * x / math.sqrt(2))))

    def r_backsolve(self, f, kw, pos, allv, E):
        d = dict(kw)
        if set(d) - {'r', 'l', 'x', 'transpose', 'upper.tri'} or any(d.get(n, TRUE) not in (TRUE, FALSE) for n in ('transpose', 'upper.tri')):
            raise Opaque
        pos = list(pos)
        m = d.get('r', d.get('l'))
        m = num_(E(m if m is not None else pos.pop(0)))
        x = num_(E(d['x'] if 'x' in d else pos.pop(0)))
        if pos:
            raise Opaque
        upper = d.get('upper.tri', TRUE if f == 'backsolve' else FALSE) is TRUE
        m = np.triu(m) if upper else np.tril(m)
        if d.get('transpose', FALSE) is TRUE:
            m = m.T
        if m.ndim != 2 or m.shape[0] != m.shape[1] or abs(np.linalg.det(m)) < 1e-6:
            raise Ill
        return np.linalg.solve(m, x)

    r_forwardsolve = r_backsolve

    def r_chol2inv(self, f, kw, pos, allv, E):
        if len(allv) != 1:
            raise Opaque
        m = np.triu(num_(E(allv[0])))
        if m.ndim != 2 or m.shape[0] != m.shape[1] or abs(np.linalg.det(m)) < 1e-6:
            raise Ill
        return np.linalg.inv(m.T @ m)

    def r_pchisq(self, f, kw, pos, allv, E):
        import scipy.special
        if set(kw) - {'q', 'df', 'lower.tail'} or kw.get('lower.tail', TRUE) not in (TRUE, FALSE):
            raise Opaque
        pos = list(pos)
        q = num_(E(kw['q'] if 'q' in kw else pos.pop(0)))
        df = num_(E(kw['df'] if 'df' in kw else pos.pop(0)))
        if pos:
            raise Opaque
        q, df = both(q, df)
        return res((scipy.special.gammainc if kw.get('lower.tail', TRUE) is TRUE else scipy.special.gammaincc)(df / 2, np.maximum(q, 0) / 2))

    def r_mod(self, f, kw, pos, allv, E):
        x, y = both(*[num_(E(v)) for v in allv])
        if (y == 0).any():
            raise Ill
        return res(np.mod(x, y))

    def r_isTRUE(self, f, kw, pos, allv, E):
        x = arr(E(allv[0]))
        return res([x.dtype == bool and x.size == 1 and bool(x.reshape(-1)[0]) == (f == 'isTRUE')])

    r_isFALSE = r_isTRUE

    def r_ifelse(self, f, kw, pos, allv, E):
        if kw and set(kw) - {'test', 'yes', 'no'}:
            raise Opaque
        d = dict(kw)
        for n in ('test', 'yes', 'no'):
            if n not in d:
                d[n] = pos.pop(0)
        c = arr(E(d['test']))
        x, y = num_(E(d['yes'])), num_(E(d['no']))
        for z in (x, y):
            if z.size != 1 and z.shape != c.shape:
                raise Ill
        return np.where(c, x, y)

    def r_is_na(self, f, kw, pos, allv, E):
        x = E(allv[0])
        return np.zeros(length(x), dtype=bool)

    def r_is_finite(self, f, kw, pos, allv, E):
        return np.ones(length(E(allv[0])), dtype=bool)

    def r_isin(self, f, kw, pos, allv, E):
        x, y = E(allv[0]), E(allv[1])
        if isinstance(x, S) != isinstance(y, S):
            raise Ill
        xs, ys = aslist(x), aslist(y)
        return np.array([z in ys for z in xs], dtype=bool)

    def r_match(self, f, kw, pos, allv, E):
        if len(allv) != 2:
            raise Opaque
        xs, ys = aslist(E(allv[0])), aslist(E(allv[1]))
        if any(x not in ys for x in xs):
            raise Ill
        return np.array([ys.index(x) + 1.0 for x in xs])

    def r_setdiff(self, f, kw, pos, allv, E):
        d = dict(kw)
        for n in ('x', 'y'):
            if n not in d:
                d[n] = pos.pop(0)
        X, Y = E(d['x']), E(d['y'])
        xs, ys = aslist(X), aslist(Y)
        r = list(dict.fromkeys(xs + ys)) if f == 'union' else [z for z in dict.fromkeys(xs) if (z in ys) == (f == 'intersect')]
        return S(r) if isinstance(X, S) else np.array(r, dtype=float)

    r_union = r_intersect = r_setdiff

    def r_setequal(self, f, kw, pos, allv, E):
        return np.array([set(aslist(E(allv[0]))) == set(aslist(E(allv[1])))])

    def r_identical(self, f, kw, pos, allv, E):
        if len(allv) != 2:
            raise Opaque
        return np.array([aslist(E(allv[0])) == aslist(E(allv[1]))])

    def r_head(self, f, kw, pos, allv, E):
        d = dict(kw)
        for n in ('x', 'n'):
            if n not in d and pos:
                d[n] = pos.pop(0)
        x = E(d['x'])
        if isnumv(x) and np.ndim(x) != 1:
            raise Ill
        y = x if isinstance(x, S) else x.v if isinstance(x, L) else arr(x)
        n = integer(E(d['n'])) if 'n' in d else 6
        N = len(y)
        k = min(n, N) if n >= 0 else max(N + n, 0)
        y = y[:k] if f == 'head' else y[N - k:]
        return S(y) if isinstance(x, S) else L(y) if isinstance(x, L) else y

    r_tail = r_head

    # character strings
    def r_nchar(self, f, kw, pos, allv, E):
        x = E(allv[0])
        if not isinstance(x, S) or len(allv) != 1:
            raise Ill
        return np.array([float(len(y)) for y in x])

    def r_substr(self, f, kw, pos, allv, E):
        d = dict(kw)
        for n in ('x', 'start', 'stop'):
            if n not in d:
                d[n] = pos.pop(0)
        x = E(d['x'])
        if not isinstance(x, S):
            raise Ill
        a, b = integer(E(d['start'])), integer(E(d['stop']))
        return S(y[max(a, 1) - 1:max(b, 0)] for y in x)

    def r_sub(self, f, kw, pos, allv, E):
        d = dict(kw)
        for n in ('pattern', 'replacement', 'x'):
            if n not in d:
                d[n] = pos.pop(0)
        if set(d) - {'pattern', 'replacement', 'x', 'fixed'} or d.get('fixed') is not TRUE:
            raise Opaque
        p, r, x = E(d['pattern']), E(d['replacement']), E(d['x'])
        if not all(isinstance(v, S) for v in (p, r, x)) or len(p) != 1 or len(r) != 1 or not p[0]:
            raise Ill
        return S(y.replace(p[0], r[0], 1 if f == 'sub' else -1) for y in x)

    r_gsub = r_sub

    def r_grepl(self, f, kw, pos, allv, E):
        d = dict(kw)
        for n in ('pattern', 'x'):
            if n not in d:
                d[n] = pos.pop(0)
        if set(d) - {'pattern', 'x', 'fixed'} or d.get('fixed') is not TRUE:
            raise Opaque
        p, x = E(d['pattern']), E(d['x'])
        if not isinstance(p, S) or not isinstance(x, S):
            raise Ill
        return np.array([p[0] in y for y in x], dtype=bool)

    def r_startsWith(self, f, kw, pos, allv, E):
        x, p = E(allv[0]), E(allv[1])
        if not isinstance(p, S) or not isinstance(x, S):
            raise Ill
        return np.array([y.startswith(p[0]) for y in x], dtype=bool)

    def r_paste(self, f, kw, pos, allv, E):
        sep, col = kw.get('sep', s_(' ')), kw.get('collapse', NULL)
        if set(kw) - {'sep', 'collapse'} or sep.op != 'str' or col.op not in ('str', 'null'):
            raise Opaque
        xs = []
        for v in pos:
            x = E(v)
            if isinstance(x, S):
                xs.append(list(x))
            elif isnumv(x) and arr(x).dtype != bool and np.all(arr(x) == np.round(arr(x))):
                xs.append(['%d' % int(y) for y in arr(x).reshape(-1, order='F')])
            elif x is None:
                xs.append([])
            else:
                raise Ill
        xs = [x for x in xs if x]
        n = max([len(x) for x in xs] or [0])
        r = [sep.args[0].join(x[i % len(x)] for x in xs) for i in range(n)]
        return S((col.args[0].join(r),)) if col.op == 'str' else S(r)

    # ------------------------------------------------------------- C++
    def c_max(self, f, kw, pos, allv, E):
        r = num_(E(pos[0]))
        for v in pos[1:]:
            r = (np.maximum if f == 'max' else np.minimum)(*both(r, num_(E(v))))
        return res(r)

    c_min = c_max

    def c_rows(self, f, kw, pos, allv, E):
        x = arr(E(pos[0]))
        if x.ndim == 1:
            return float(len(x)) if f == 'rows' else 1.0
        return float(x.shape[0 if f == 'rows' else 1])

    c_cols = c_rows

    def c_size(self, f, kw, pos, allv, E):
        return float(arr(E(pos[0])).size)

    def c_det(self, f, kw, pos, allv, E):
        return float(res(np.linalg.det(num_(E(pos[0])))))

    def c_dot(self, f, kw, pos, allv, E):
        return float(np.dot(num_(E(pos[0])).reshape(-1), num_(E(pos[-1])).reshape(-1)))

    def c_squaredNorm(self, f, kw, pos, allv, E):
        return float(np.sum(num_(E(pos[0])) ** 2))

    def c_norm(self, f, kw, pos, allv, E):
        return float(np.sqrt(np.sum(num_(E(pos[0])) ** 2)))

    def c_asDiagonal(self, f, kw, pos, allv, E):
        return np.diag(num_(E(pos[0])).reshape(-1))

    def c_diagonal(self, f, kw, pos, allv, E):
        return np.diag(num_(E(pos[0]))).copy()

    def c_trace(self, f, kw, pos, allv, E):
        return float(np.trace(num_(E(pos[0]))))

    def c_maxCoeff(self, f, kw, pos, allv, E):
        x = num_(E(pos[0]))
        return float(x.max() if f == 'maxCoeff' else x.min())

    c_minCoeff = c_maxCoeff

    def c_mean(self, f, kw, pos, allv, E):
        return float(getattr(np, f)(num_(E(pos[0]))))

    c_prod = c_sum = c_mean

    def c_reverse(self, f, kw, pos, allv, E):
        return arr(E(pos[0]))[::-1]

    def c_sort(self, f, kw, pos, allv, E):
        return np.sort(arr(E(pos[0])))

    def c_idiv(self, f, kw, pos, allv, E):
        raise Opaque

    def c_imod(self, f, kw, pos, allv, E):
        raise Opaque

    def c_prodover(self, f, kw, pos, allv, E):
        raise Opaque

    c_maxover = c_minover = c_prodover

    def c_pdf(self, f, kw, pos, allv, E):
        x = num_(E(pos[1]))
        return res(np.exp(-0.5 * x * x) / math.sqrt(2 * math.pi))

    def c_cdf(self, f, kw, pos, allv, E):
        return res(0.5 * (1 + _erf(num_(E(pos[1])) / math.sqrt(2))))

    def c_round(self, f, kw, pos, allv, E):
        x = num_(E(pos[0]))
        return np.sign(x) * np.floor(np.abs(x) + 0.5)

    def c_isfinite(self, f, kw, pos, allv, E):
        return np.isfinite(num_(E(pos[0])))

    def c_isnan(self, f, kw, pos, allv, E):
        return np.isnan(num_(E(pos[0])))

    def c_isinf(self, f, kw, pos, allv, E):
        return np.isinf(num_(E(pos[0])))

    def c_veq(self, f, kw, pos, allv, E):
        x, y = E(pos[0]), E(pos[1])
        if isinstance(x, S) or isinstance(y, S):
            if not (isinstance(x, S) and isinstance(y, S)):
                raise Ill
            return x == y
        x, y = arr(x), arr(y)
        if x.shape != y.shape:
            raise Ill
        return bool(np.all(x == y))


def single(x):
    return [S((y,)) for y in x] if isinstance(x, S) else [np.array([y]) for y in arr(x).reshape(-1)]


def flatten(x):
    if isinstance(x, L):
        ys = [flatten(v) for v in x.v]
        ys = [y for y in ys if y is not None]
        if not ys:
            return None
        if all(isinstance(y, S) for y in ys):
            return S(z for y in ys for z in y)
        if any(isinstance(y, S) for y in ys):
            raise Opaque
        if all(y.dtype == bool for y in ys):
            return np.concatenate(ys)
        return np.concatenate([num_(y).reshape(-1, order='F') for y in ys])
    return x


def aslist(x):
    if x is None:
        return []
    if isinstance(x, S):
        return list(x)
    if isinstance(x, L):
        raise Opaque
    return num_(x).reshape(-1, order='F').tolist()


def length(x):
    if x is None:
        return 0
    if isinstance(x, S):
        return len(x)
    if isinstance(x, L):
        return len(x.v)
    return int(np.size(x))


def agree(x, y):
    """True / False, or None when not comparable"""
    if x is None or y is None:
        return True if x is None and y is None else None
    if isinstance(x, S) or isinstance(y, S):
        return x == y if isinstance(x, S) and isinstance(y, S) else None
    if isinstance(x, L) or isinstance(y, L):
        if not (isinstance(x, L) and isinstance(y, L)):
            return None
        if len(x.v) != len(y.v):
            return False
        rs = [agree(p, q) for p, q in zip(x.v, y.v)]
        return None if None in rs else all(rs)
    x, y = arr(x), arr(y)
    if (x.dtype == bool) != (y.dtype == bool):
        return None
    if x.ndim != y.ndim:
        if x.size == y.size and np.allclose(x.reshape(-1, order='F'), y.reshape(-1, order='F'), rtol=1e-6, atol=1e-9):
            return True
        return None
    if x.shape != y.shape:
        return False
    return bool(np.all(x == y)) if x.dtype == bool else bool(np.allclose(x, y, rtol=1e-6, atol=1e-8))


# ------------------------------------------------------------------ sampling
STR = ['a', 'b', 'ab', 'x_1', 'foo']


def draw(kind, r, sizes, positive):
    n, m = sizes

    def val():
        c = r.random()
        v = r.randint(-24, 24) / 8 if c < .5 else float(r.randint(-3, 4)) if c < .8 else r.choice([0.0, 1.0, 5.25, 0.5, 6.0, -7.0])
        return abs(v) + (0.125 if v == 0 else 0) if positive else v
    R = LANG[0] == 'R'
    if kind == 'num':
        return np.array([val()]) if R else val()
    if kind in ('vec', 'index') and R and kind == 'index':
        return np.array([float(r.randint(1, 3))])
    if kind == 'index':
        return float(r.randint(0, 3))
    if kind == 'vec':
        if not positive and r.random() < .3:
            return np.array([float(r.randint(0, 4)) for _ in range(n)])
        return np.array([val() for _ in range(n)])
    if kind == 'count':
        v = float(r.randint(1, 4)) if R else float(r.randint(0, 4))
        return np.array([v]) if R else v
    if kind == 'mat':
        return np.array([[val() for _ in range(m)] for _ in range(n)])
    if kind == 'arr':
        return np.array([val() for _ in range(n)]) if r.random() < .5 else np.array([[val() for _ in range(m)] for _ in range(n)])
    if kind in ('spd', 'sq'):
        k = max(n, 2)
        A = np.array([[r.randint(-8, 8) / 8 for _ in range(k)] for _ in range(k)])
        return A @ A.T + np.diag([0.5 + r.random() for _ in range(k)])
    if kind == 'bool':
        b = r.random() < .5
        return np.array([b]) if R else b
    if kind == 'bools':
        return np.array([r.random() < .5 for _ in range(n)])
    if kind == 'str':
        return S((r.choice(STR),))
    if kind == 'strs':
        return S(r.choice(STR) for _ in range(n))
    raise Opaque


def strings_of(ts):
    out = set()
    for t in ts:
        for x in subterms(t):
            if x.op == 'str':
                out.add(x.args[0])
    return out


_cache = {}
TRIALS = 240


def differs(a, b, assume=(), frames=()):
    """True: proved different (see above); False otherwise.
    assume: conditions (term, truth, number of frames in scope); frames: counts of the binders around, or None."""
    k = (a, b, tuple(assume), tuple(frames))
    if k not in _cache:
        try:
            _cache[k] = _differs(a, b, assume, frames)
        except (Opaque, Ill, RecursionError):
            _cache[k] = False
    return _cache[k]


def _differs(a, b, assume, frames):
    if not known(a) and not known(b):
        return False
    A, B = set(), set()
    atoms(a, A)
    atoms(b, B)
    if not B <= A:
        return False
    ks = Kinds()
    top = 'bool' if T_.isbool(a) else 'num'
    ks.walk(a, top)
    nf = len(frames)
    # what is known here
    conds = []
    extra = set()
    for c, v, depth in assume:
        try:
            C = set()
            atoms(c, C)
        except Opaque:
            if related(c, A):
                return False
            continue
        if depth != nf and c.maxbv:
            if related(c, A):
                return False
            continue
        if C & A or C & extra:
            conds.append((c, v))
            extra |= C - A
            try:
                ks.walk(c, 'bool')
            except Opaque:
                return False
    counts = {}
    for i, n in enumerate(reversed(frames)):
        v = mk('bv', i)
        if v in A or v in extra:
            if n is None:
                continue
            if n == 'loop' or n.maxbv:
                return False
            C = set()
            atoms(n, C)
            extra |= C - A
            ks.walk(n, 'count')
            counts[v] = n
    allatoms = sorted(A | extra, key=lambda t: t.id)
    # strings matter: draw from what both sides mention
    pool = sorted(strings_of([a, b] + [c for c, _ in conds])) + STR
    structured = any(x.op == 'call' and x.args[0] in ('substr', 'sub', 'gsub', 'grepl', 'startsWith', 'nchar') for t in (a, b) for x in subterms(t))
    ambiguous = [x for x in allatoms if ks.k.get(x, 'any') in ('any',)]
    if len(ambiguous) > 3:
        return False
    lone = [x for x in allatoms if ks.k.get(x) == 'num']
    # sizes that are not told apart are taken to be the same, where the specification has values then
    for tied in (True, False):
        r = sampled(a, b, conds, counts, allatoms, ks, lone, ambiguous, pool, structured, tied)
        if r is not None:
            return r
    return False


def sampled(a, b, conds, counts, allatoms, ks, lone, ambiguous, pool, structured, tied):
    seed = int(hashlib.sha256(('%d' % len(allatoms)).encode()).hexdigest()[:8], 16)
    rnd = random.Random(seed)
    results = {}
    for trial in range(TRIALS):
        cls = {}
        for x in ambiguous:
            cls[x] = rnd.choice(['num', 'vec', 'mat'] if LANG[0] == 'R' else ['num', 'vec', 'mat'])
        if LANG[0] == 'R':
            allvec = rnd.random() < .5
            for x in lone:
                if x.op != 'bv' or x in counts:
                    cls[x] = 'vec' if allvec and x not in counts else 'num'
                else:
                    cls[x] = 'vec' if allvec else 'num'
        else:
            for x in lone:
                cls[x] = 'vec' if x in T_.VECTORS else 'num' if x in T_.SCALARS or x in T_.INTS else ('vec' if trial % 2 else 'num')
        n, m = rnd.choice([(2, 3), (3, 2), (2, 2), (3, 3), (1, 2), (4, 2), (3, 1)])
        positive = rnd.random() < .4
        vals = {}
        for x in allatoms:
            kd = cls.get(x) or ks.k[x]
            if kd in ('str', 'strs'):
                if structured:
                    base = rnd.choice(['x', 'x[i]', 'f(x)', 'f(g(x))', 'x[a[i], ]', '(a)(b)', 'Sub(x)'])
                    vals[x] = S(('Sub(' + base + ')',))
                else:
                    vals[x] = S(rnd.choice(pool) for _ in range(1 if kd == 'str' else n))
            else:
                sz = (n, m) if tied or rnd.random() < .8 else (m, n)
                vals[x] = draw(kd, rnd, sz, positive)
        ev = Ev((), vals)
        try:
            okc = True
            for v, c in counts.items():
                k = integer(ev.ev(c))
                if k < 1:
                    okc = False
                    break
                i = rnd.randint(1, k) if LANG[0] == 'R' else rnd.randint(0, k - 1)
                vals[v] = np.array([float(i)]) if LANG[0] == 'R' else float(i)
            if not okc:
                continue
            ev = Ev((), vals)
            if not all(truth(ev.ev(c)) == v for c, v in conds):
                continue
            x = ev.ev(a)
            y = ev.ev(b)
        except Ill:
            continue
        r = agree(x, y)
        if r is None:
            continue
        key = tuple(cls.get(z) for z in lone + ambiguous)
        e = results.setdefault(key, [0, 0])
        e[0 if r else 1] += 1
    total = sum(x + y for x, y in results.values())
    if total < 8:
        return None
    # under every reading of the kinds the two are different functions
    return all(y > 0 for x, y in results.values() if x + y >= 3) and any(y > 0 for x, y in results.values())


def related(c, A):
    ca = set(subterms(c))
    return any(x in ca for x in A)
