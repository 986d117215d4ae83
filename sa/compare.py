"""Localised comparison of two normalised terms: what is specified, and what the code computes.

diff(a, b) walks both terms together and returns the places where they differ.
A place is *decisive* when the two sides provably denote different things in the
vocabulary both are written in (another constant, input, field or operator; a
term, case, condition or call that was dropped, or that was added without
anything being replaced).  Where one construct has been exchanged for another
which the normal forms do not relate, the place is *undecided*: nothing is
claimed about it.
"""
import itertools
from terms import *   # noqa
import terms as T_
import cases as C_
import identity
import interp

WEAK_CALLS = {'as.numeric', 'as.vector', 'unname', 'copy', 'simplify', 'as.integer', 'drop', 'invisible', 'as.matrix',
              'identity', 'force', 'as.character', 'as.list', 'c', 'fill', 'eval_', 'static_cast', 'as.double', 'is.null',
              'suppressWarnings', 'suppressMessages', 'rownames'}

# functions that compute different things from the same arguments
DISTINCT = [
    {'max', 'min', 'pmax', 'pmin', 'range'},
    {'floor', 'round', 'ceiling', 'trunc', 'ceil'},
    {'nrow', 'ncol', 'length', 'rows', 'cols', 'size'},
    {'rbind', 'cbind'},
    {'union', 'intersect', 'setdiff'},
    {'rowSums', 'colSums', 'rowMeans', 'colMeans'},
    {'cumsum', 'cumprod'},
    {'exp', 'log', 'abs', 'sin', 'cos', 'expm1', 'log1p'},
    {'pnorm', 'dnorm', 'qnorm'},
    {'rnorm', 'runif', 'rexp'},
    {'which.min', 'which.max'},
    {'model.offset', 'model.weights', 'model.response'},
    {'row', 'col'},
    {'grad', 'hessian', 'jacobian'},
    {'glFormula', 'lFormula'},
    {'sin', 'cos'},
    {'is.factor', 'is.numeric', 'is.character', 'is.list', 'is.function'},
    {'head', 'tail'},
    {'sum', 'mean', 'prod', 'max', 'min'},
    {'pdf', 'cdf'},
    {'array', 'matrix_'},
    {'inverse', 'transpose'},
    {'coeff', 'sum'},
    {'linkinv', 'linkfun', 'mu.eta', 'variance', 'dev.resids'},
    {'evaluate', 'evaluate_d1', 'evaluate_d2', 'evaluate_d3', 'evaluate_d4'},
]

INPUTS = {'arg', 'bv', 'var', 'gsym', 'sym', 'cell', 'param'}
CONSTS = {'num', 'str', 'lgl', 'null', 'inf', 'qsym', 'pfun', 'pi', 'boundary'}


class Diff:
    __slots__ = ('decisive', 'path', 'a', 'b', 'why', 'origin')

    def __init__(self, decisive, path, a, b, why, origin=None):
        self.decisive, self.path, self.a, self.b, self.why, self.origin = decisive, path, a, b, why, origin

    def text(self, n=5):
        w = 'differs' if self.decisive else 'undecided'
        sa = show(self.a, n) if self.a is not None else 'nothing'
        sb = show(self.b, n) if self.b is not None else 'nothing'
        return '%s at %s: %s: specified %s, found %s' % (w, '/'.join(self.path) or 'value', self.why, sa[:400], sb[:400])


def heads(t, memo=None):
    """the vocabulary of a term"""
    out = set()
    for x in subterms(t):
        h = head(x)
        if h:
            out.add(h)
    return out


STRUCT = {'poly', 'rec', 'list', 'lam', 'tup', 'outcome', 'fnbody', 'or', 'not', 'num', 'lgl', 'bv', 'null', 'eff',
          'missing', 'el', 'idx', 'setf', 'updix', 'updsub', 'mm', 't', 'strs', 'dots', 'dotsym', 'unbound', 'fn', 'fn0',
          'epoch0', 'binding', 'str', 'scalar'}


def head(x):
    if x.op == 'call':
        return x.args[0]
    if x.op in ('pcall', 'ctor', 'pstate'):
        return 'p:' + str(x.args[0])
    if x.op == 'mcall':
        return '$' + str(x.args[1])
    if x.op == 'sread':
        return '$' + str(x.args[1])
    if x.op == 'fld':
        return '.' + str(x.args[1])
    if x.op in ('arg', 'gsym', 'sym', 'param'):
        return '@' + str(x.args[0])
    if x.op == 'str':
        return None
    if x.op in STRUCT:
        return None
    return x.op


MAXCASES = 3000


def arithmetic(t):
    return t.op in ('poly', 'power') or t.op == 'call' and t.args[0] in identity.FUN


def minmax_cases(t):
    """min / max as a case distinction"""
    xs = [v for _, v in t.args[1]]
    r = xs[0]
    for x in xs[1:]:
        r = ite(lt(r, x), x, r) if t.args[0] == 'max' else ite(lt(x, r), x, r)
    return r


_mm_cache = {}


def minmaxes(t):
    if t not in _mm_cache:
        _mm_cache[t] = frozenset(x for x in subterms(t) if x.op == 'call' and x.args[0] in ('max', 'min') and len(x.args[1]) == 2)
    return _mm_cache[t]


def unminmax(t, other):
    """t with the maxima written as cases that the other side distinguishes itself"""
    mine = minmaxes(t) - minmaxes(other)
    if not mine:
        return t
    known = {}
    for x in mine:
        r = minmax_cases(x)
        if r.op == 'ite':
            acc = set()
            C_.atoms_in(r.args[0], acc)
            conds = [y for y in subterms(other) if y.op == 'lt0'] if x.maxbv else C_.cond_atoms_deep(other)
            if any(same_condition(c, d) or same_condition(c, not_(d)) or opposite(c, d) for c in acc for d in conds):
                known[x] = r
    return subst(t, known) if known else t


def opposite(c, d):
    """x < y against y < x: they only differ when x = y"""
    return c.op == d.op == 'lt0' and c.args[0] is neg(d.args[0])


RESHAPED = {'another form', 'another case distinction', 'another loop', 'a case distinction is added', 'a case distinction is missing',
            'one construct for another', 'not comparable'}


def reshaped(ds):
    """where the whole has another shape, parts that are paired need not correspond"""
    if any(not d.decisive and d.why in RESHAPED for d in ds):
        for d in ds:
            if d.decisive and (d.why == 'another combination of the same quantities' or d.why.startswith('depends on')):
                d.decisive = False
                d.why += ' (in another shape)'
    return ds


class TooMany(Exception):
    pass


class Comparer:
    rlang = True

    def known_head(self, h):
        return h in KNOWN_HEADS or h[0] in '@.' or self.rlang and h[:2] == 'p:'
    def __init__(self, a, b, known_fields=()):
        self.va, self.vb = heads(a), heads(b)
        self.gained = self.vb - self.va
        self.lost = self.va - self.vb
        self.memo = {}
        self.soft_heads = set()
        self.assume, self.frames, self.counted = [], [], None
        self.loose = 0      # inside branches of conditions that differ

    def run(self, a, b):
        self.ncases = 0
        try:
            return reshaped(self.diff(a, b, ()))
        except TooMany:
            return self.D(False, (), a, b, 'too many cases')

    def loc(self, b, path):
        o = None
        if b is not None:
            o = T_.ORIGIN.get(b)
            if o is None:
                for x in subterms(b):
                    if x in T_.ORIGIN:
                        o = T_.ORIGIN[x]
                        break
        return o

    def D(self, dec, path, a, b, why):
        return [Diff(dec, path, a, b, why, self.loc(b, path))]

    def diff(self, a, b, path):
        if a is b:
            return []
        k = (a, b)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = []          # a pair met again below itself adds nothing
        r = self.cases(a, b, path)
        if r and not any(d.decisive for d in r) and self.distinct(a, b):
            r = self.D(True, path, a, b, 'another value')
        # one origin for differences inside: nearest enclosing code term that is new
        o = self.loc(b, path)
        if len(r) > 1:
            r = list({id(d): d for d in r}.values())
        for d in r:
            if d.origin is None:
                d.origin = o
        self.memo[k] = r
        return r

    def distinct(self, a, b):
        """decided by random interpretation"""
        if max(a.maxbv, b.maxbv) > len(self.frames):
            return False
        return interp.differs(a, b, tuple(self.assume), tuple(self.frames))

    def under(self, c, v):
        self.assume.append((c, v, len(self.frames)))
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.assume.pop()

    def cases(self, a, b, path):
        """case by case over the conditions both sides test"""
        if a.op == b.op and a.op not in ('ite', 'or', 'not', 'poly', 'setf', 'tup'):
            return self._diff(a, b, path)
        a, b = unminmax(a, b), unminmax(b, a)
        if a is b:
            return []
        if C_.pick(a, b) is None:
            return self._diff(a, b, path)
        out, seen = [], set()
        pairs = set()

        def go(x, y, depth, known=()):
            if x is y or (x, y) in pairs:
                return
            pairs.add((x, y))
            c = C_.pick(x, y) if depth < 60 else None
            if c is None:
                if (x, y) == (a, b):
                    r = self._diff(x, y, path)
                else:
                    r = self.diff(x, y, path)
                for d in r:
                    k = (d.a, d.b, d.why)
                    if k not in seen:
                        seen.add(k)
                        out.append(d)
                return
            self.ncases += 1
            if self.ncases > MAXCASES:
                raise TooMany()
            for v in (True, False):
                with self.under(c, v):
                    now = known + ((c, v),)
                    p, q = C_.restrict(x, c, v), C_.restrict(y, c, v)
                    more = found(now)
                    if more is None:
                        continue
                    for e, w in more:
                        p, q = C_.restrict(p, e, w), C_.restrict(q, e, w)
                    go(p, q, depth + 1, now)
        go(a, b, 0)
        if out and not any(d.decisive for d in out):
            for x, y in pairs:
                if x is not a and (y, x) in pairs and x.op != 'ite' and y.op != 'ite' and self.memo.get((x, y)) and self.memo.get((y, x)):
                    return self.D(True, path, a, b, 'the values of two cases are exchanged')
        return out

    def _diff(self, a, b, path):
        if weak(a) is weak(b):
            if self.rlang and labels(a) != labels(b):
                return self.D(True, path, a, b, 'the label of a level and its number')
            return self.D(False, path, a, b, 'conversion')
        if (arithmetic(a) or arithmetic(b)) and identity.same(a, b):
            if ('abs' in heads(a)) != ('abs' in heads(b)) and identity.domains(a, b):
                return self.D(True, path, a, b, 'defined for other values')
            return []
        if identity.msame(a, b):
            return []
        r = self.chosen(a, b, path) if self.rlang else None
        if r:
            return r
        for x, y in ((a, b), (b, a)):
            if x.op == 'call' and x.args[0] in ('max', 'min') and y.op == 'ite' and len(x.args[1]) >= 2:
                return self.cases(*((minmax_cases(x), y) if x is a else (y, minmax_cases(x))), path)
        if a.op == b.op:
            f = getattr(self, 'd_' + a.op.replace('.', '_'), None)
            if f:
                return f(a, b, path)
            if a.op in CONSTS or a.op in INPUTS:
                return self.D(not rounding(a, b), path, a, b, 'another %s' % ('constant' if a.op in CONSTS else 'variable'))
            return self.generic(a, b, path)
        if {a.op, b.op} == {'put', 'upd'}:
            return self.d_put(a, b, path)
        if {a.op, b.op} == {'wput', 'wmod'} and a.args[0] == b.args[0]:
            m = b if b.op == 'wmod' else a
            z = fresh('z')
            x, y = (t.args[1] if t is not m else apply_lam(t.args[1], [z]) for t in (a, b))
            x, y = lam([z], x), lam([z], y)
            self.frames.append(None)
            try:
                return self.diff(x.args[1], y.args[1], path + ('element',))
            finally:
                self.frames.pop()
        sa, sb = (x.args[0] if x.op == 'not' else x for x in (a, b))
        if sa.op in ORDERS and sb.op in ORDERS:
            r = self.relation(a, b, path)
            if r is not None:
                return r
        if a.op == 'not' and b.op != 'not' or b.op == 'not' and a.op != 'not':
            r = self.bools(a, b, path)
            if r is not None:
                return r
        if a.op == 'or' or b.op == 'or':
            r = self.bools(a, b, path)
            if r is not None:
                return r
        if a.op == 'ite' and b in a.args or b.op == 'ite' and a in b.args:
            return self.gamma(a, b, path)
        if a.op == 'poly' or b.op == 'poly':
            return self.d_poly(a, b, path)
        if a.op == 'setf' or b.op == 'setf':
            return self.d_setf(a, b, path)
        if a.op == 'ite' or b.op == 'ite':
            return self.gamma(a, b, path)
        return self.leaf(a, b, path)

    def chosen(self, a, b, path):
        """some of the elements, or all of them in another order, instead of all of them"""
        if b.op == 'call' and b.args[0] == 'drop0' and b.args[1][0][1] is a:
            if len(b.args[1]) > 1:
                return self.D(True, path, a, b, 'small entries are removed')
            if '$Lambdat' in path:
                return self.D(True, path, a, b, 'entries that are 0 at first are removed')
        if b.op != 'idx' or b.args[0] is not a or not isinstance(b.args[1], tuple) or len(b.args[1]) != 1 or len(b.args) > 2 and b.args[2:] != (TRUE,) and b.args[2:] != (FALSE,):
            return None
        ix = b.args[1][0]
        if set(path) & UNORDERED or self.unknown(ix) and ix.op != 'call':
            return None
        if ix.op == 'call' and ix.args[0] == 'order':
            return self.D(True, path, a, b, 'in another order')
        if isbool(ix) and not heads(ix) & {'is.na', 'is.finite', 'is.nan', 'is.null', 'complete.cases'} and heads(ix) & {'max', 'min', 'mean'} and \
                not always(ix) and not self.about(a):
            return self.D(True, path, a, b, 'only some of the elements')
        return None

    # ------------------------------------------------------------ structure
    def generic(self, a, b, path):
        if len(a.args) != len(b.args):
            return self.leaf(a, b, path)
        ca, cb = [], []
        if not shape(a.args, b.args, ca, cb):
            return self.leaf(a, b, path)
        out = []
        for i, (x, y) in enumerate(zip(ca, cb)):
            self.counted = 'fn' if a.op in ('fn', 'fn0') else None
            out += self.diff(x, y, path + (a.op + str(i),))
            self.counted = None
        return out

    def d_outcome(self, a, b, path):
        out = self.diff(a.args[0], b.args[0], path + ('value',))
        if a.args[1] != b.args[1]:
            out += self.diff(mk('tup', a.args[1]), mk('tup', b.args[1]), path + ('effects',))
        return out

    def d_tup(self, a, b, path):
        x, y = a.args[0], b.args[0]
        if (x or y) and all(t.op == 'eff' for t in x + y):
            return self.effects(x, y, path)
        if len(x) != len(y):
            return self.leaf(a, b, path)
        return sum((self.diff(p, q, path + (str(i),)) for i, (p, q) in enumerate(zip(x, y))), [])

    def effects(self, ea, eb, path):
        if ea == eb:
            return []
        out = []
        # align by longest common subsequence on (kind, head)
        ka = [ekey(e) for e in ea]
        kb = [ekey(e) for e in eb]
        pairs = align(ea, eb, ka, kb)
        if sorted(ea) == sorted(eb):
            # same effects in another order
            return self.D(order_matters(ea), path, ea[0], eb[0], 'effects in another order')
        for i, j in pairs:
            if i is None:
                e = eb[j]
                # an effect the specification does not have
                dec = not self.lost
                out += self.D(dec, path, None, e, 'an effect that is not specified')
            elif j is None:
                dec = not self.gained_effects(eb, kb)
                out += self.D(dec, path, ea[i], None, 'an effect is missing')
            else:
                out += self.diff(ea[i], eb[j], path + (ekey(ea[i]),))
        return out

    def gained_effects(self, eb, kb):
        return bool(self.gained - {'exists'})

    def d_eff(self, a, b, path):
        if a.args[0] != b.args[0]:
            return self.leaf(a, b, path)
        out = self.diff(a.args[1], b.args[1], path + ('when',))
        ca, cb = [], []
        if len(a.args) == len(b.args) and all(arglike(x) == arglike(y) for x, y in zip(a.args[2:], b.args[2:])):
            for x, y in zip(a.args[2:], b.args[2:]):
                if x is y or x == y:
                    continue
                if arglike(x):
                    out += self.args(a, b, x, y, path)
                elif isinstance(x, T) and isinstance(y, T):
                    out += self.diff(x, y, path)
                else:
                    xx, yy = [], []
                    if not shape(x, y, xx, yy):
                        return out + self.leaf(mk('tupx', *a.args[2:]), mk('tupx', *b.args[2:]), path)
                    for p, q in zip(xx, yy):
                        out += self.diff(p, q, path)
            return out
        if not shape(a.args[2:], b.args[2:], ca, cb):
            xa = mk('tupx', *a.args[2:])
            xb = mk('tupx', *b.args[2:])
            return out + self.leaf(xa, xb, path)
        for x, y in zip(ca, cb):
            out += self.diff(x, y, path)
        return out

    def d_put(self, a, b, path):
        """writes of parts, one after the other"""
        def chain(t):
            w = []
            while t.op in ('put', 'upd'):
                w.append((t.op, t.args[1], t.args[2]))
                t = t.args[0]
            return t, w[::-1]
        xa, wa = chain(a)
        xb, wb = chain(b)
        if sorted(wa, key=str) == sorted(wb, key=str) and xa is xb:
            return self.D(False, path, a, b, 'writes in another order')
        ra = [w for w in wa if w not in wb]
        rb = [w for w in wb if w not in wa]
        out = self.diff(xa, xb, path)
        if len(ra) == len(rb) and len(wa) == len(wb):
            # the same places written, other values; else paired in order
            places = [(w[0], w[1]) for w in rb]
            if sorted(((w[0], w[1]) for w in ra), key=str) == sorted(places, key=str):
                ra.sort(key=lambda w: places.index((w[0], w[1])))
            for x, y in zip(ra, rb):
                if x[0] != y[0]:
                    return self.leaf(a, b, path)
                ca, cb = [], []
                if not shape(x[1:], y[1:], ca, cb):
                    out += self.leaf(a, b, path)
                    continue
                for p, q in zip(ca, cb):
                    out += self.diff(p, q, path + (x[0],))
            return out
        if out and any(d.decisive for d in out) or xa is not xb:
            return out or self.leaf(a, b, path)
        if not rb:
            return self.D(not self.gained, path, a, b, 'a part is not written')
        return self.leaf(a, b, path)

    d_upd = d_put

    def d_lam(self, a, b, path):
        if a.args[0] != b.args[0]:
            return self.leaf(a, b, path)
        n = self.counted
        self.counted = None
        k = a.args[0]
        self.frames += [n] * k if n is None or k == 1 else [None] * k
        if n is None:
            self.frames[len(self.frames) - k:] = ['loop'] * k
        elif n == 'fn':
            self.frames[len(self.frames) - k:] = [None] * k
        try:
            return self.diff(a.args[1], b.args[1], path)
        finally:
            del self.frames[len(self.frames) - k:]

    def d_call(self, a, b, path):
        if a.args[0] != b.args[0]:
            return self.leaf(a, b, path)
        if a.args[0] in ('max', 'min') and not any(n for n, _ in a.args[1] + b.args[1]):
            xs, ys = [v for _, v in a.args[1]], [v for _, v in b.args[1]]
            rx, ry = [v for v in xs if v not in ys], [v for v in ys if v not in xs]
            if len(rx) == 1 and len(ry) == 1 and len(xs) == len(ys):
                return self.diff(rx[0], ry[0], path + (a.args[0],))
        return self.args(a, b, a.args[1], b.args[1], path + (a.args[0],))

    def d_pcall(self, a, b, path):
        if a.args[0] != b.args[0]:
            return self.leaf(a, b, path)
        return self.args(a, b, a.args[1], b.args[1], path + (a.args[0],))

    def d_mcall(self, a, b, path):
        if a.args[1] != b.args[1]:
            return self.leaf(a, b, path)
        out = self.diff(a.args[0], b.args[0], path + (str(a.args[1]),))
        return out + self.args(a, b, a.args[2], b.args[2], path + (str(a.args[1]),))

    def d_apply(self, a, b, path):
        out = self.diff(a.args[0], b.args[0], path)
        return out + self.args(a, b, a.args[1], b.args[1], path)

    def d_qcall(self, a, b, path):
        if len(a.args[1]) != len(b.args[1]):
            return self.leaf(a, b, path)
        out = self.diff(a.args[0], b.args[0], path)
        for (n, x), (m, y) in zip(a.args[1], b.args[1]):
            out += self.diff(x, y, path)
        return out

    def args(self, a, b, xa, xb, path):
        na, nb = dict((n, v) for n, v in xa if n), dict((n, v) for n, v in xb if n)
        pa, pb = [v for n, v in xa if not n], [v for n, v in xb if not n]
        out = []
        if len(na) == len(nb) and set(na) == set(nb) and pa == pb or not na and not nb and len(pa) == len(pb):
            va, vb = (list(na.values()), [nb[n] for n in na]) if na and pa == pb else (pa, pb)
            if va != vb and sorted(va) == sorted(vb) and not (a.op == 'call' and a.args[0] in COMMUTES):
                return self.D(True, path, a, b, 'arguments exchanged')
        for n in na:
            if n in nb:
                out += self.diff(na[n], nb[n], path + (n,))
            else:
                out += self.D(self.pure_loss(na[n]), path, a, b, 'argument %s is missing' % n)
        for n in nb:
            if n not in na:
                out += self.D(not self.lost, path, a, b, 'argument %s is added' % n)
        if len(pa) == len(pb):
            for i, (x, y) in enumerate(zip(pa, pb)):
                out += self.diff(x, y, path + (str(i + 1),))
        elif pa != pb:
            out += self.seqdiff(pa, pb, a, b, path)
        return out

    def seqdiff(self, pa, pb, a, b, path):
        small, big = (pa, pb) if len(pa) < len(pb) else (pb, pa)
        it = iter(big)
        sub_ = all(any(x is y for y in it) for x in small)
        if sub_:
            dec = (not self.gained) if len(pb) < len(pa) else (not self.lost)
            return self.D(dec, path, a, b, 'an element is %s' % ('missing' if len(pb) < len(pa) else 'added'))
        return self.leaf(a, b, path)

    def pure_loss(self, x):
        return not (self.gained - {'ite'})

    def d_fld(self, a, b, path):
        if a.args[1] != b.args[1]:
            if a.args[0] is b.args[0]:
                p, q = str(a.args[1]), str(b.args[1])
                if p.startswith(q) or q.startswith(p):
                    return self.D(False, path, a, b, 'a field by part of its name')
                return self.D(True, path, a, b, 'another field')
            return self.leaf(a, b, path)
        return self.diff(a.args[0], b.args[0], path + ('$' + str(a.args[1]),))

    def d_sread(self, a, b, path):
        if a.args[1] != b.args[1]:
            return self.leaf(a, b, path)
        if a.args[:3] == b.args[:3] and len(a.args) > 4 or len(a.args) == 4 == len(b.args):
            x, y = a.args[-1], b.args[-1]
            if a.args[:-1] == b.args[:-1] and 'epoch0' in (x.op, y.op) and x.op != y.op:
                return self.D(True, path, a, b, 'the state is read at another time')
        return self.generic(a, b, path)

    def d_rec(self, a, b, path):
        ka, kb = [k for k, v in a.args[0]], [k for k, v in b.args[0]]
        if len(set(ka)) != len(ka) or len(set(kb)) != len(kb):
            return self.leaf(a, b, path)
        da, db = dict(a.args[0]), dict(b.args[0])
        out = []
        for k in ka:
            if k in db:
                out += self.diff(da[k], db[k], path + ('$' + k,))
            else:
                out += self.D(len(kb) <= len(ka), path, a, b, 'field %s is missing' % k)
        for k in kb:
            if k not in da:
                out += self.D(False, path, a, b, 'field %s is added' % k)
        if not out and ka != kb:
            return self.D(False, path, a, b, 'fields in another order')
        return out

    def d_list(self, a, b, path):
        if len(a.args[0]) == len(b.args[0]):
            return sum((self.diff(x, y, path + ('[%d]' % i,)) for i, (x, y) in enumerate(zip(a.args[0], b.args[0]))), [])
        return self.seqdiff(a.args[0], b.args[0], a, b, path)

    def d_setf(self, a, b, path):
        def chain(t):
            d = {}
            while t.op == 'setf':
                d.setdefault(t.args[1], t.args[2])
                t = t.args[0]
            return t, d
        xa, da = chain(a)
        xb, db = chain(b)
        if xa.op == 'ite' or xb.op == 'ite':
            if xa is not xb and (xa.op != xb.op):
                if a.op == 'ite' or b.op == 'ite':
                    return self.gamma(a, b, path)

                def inside(x, t):
                    if x.op != 'ite':
                        return t

                    def on(y):
                        for u in ws:
                            y = setf(y, *u)
                        return y
                    ws = []
                    while t.op == 'setf':
                        ws.append(t.args[1:])
                        t = t.args[0]
                    ws.reverse()
                    return ite(x.args[0], on(x.args[1]), on(x.args[2]))
                p, q = inside(xa, a), inside(xb, b)
                if p.op == 'ite' or q.op == 'ite':
                    return self.gamma(p, q, path)
                return self.leaf(a, b, path)
        if (xa is a) != (xb is b) and xa is not xb and xa.op != xb.op and \
                not (xa.op in ('rec', 'list') and xb.op in ('rec', 'list')):
            return self.leaf(a, b, path)
        if xa is not xb and 'pstate' in (xa.op, xb.op) and set(da) != set(db):
            return self.D(False, path, a, b, 'fields set in another order')
        if xa is not xb and xa.op == xb.op == 'loop' and set(da) != set(db) and all(
                any(y.op == 'setf' and y.args[1] == k for y in subterms(x)) for x, k in [(xb, k) for k in da if k not in db] + [(xa, k) for k in db if k not in da]):
            return self.D(False, path, a, b, 'fields set before a loop instead of after it')
        out = self.diff(xa, xb, path)
        for k in da:
            if k in db:
                out += self.diff(da[k], db[k], path + ('$' + k,))
            else:
                dec = not (self.gained) and k not in ('#names',)
                out += self.D(dec, path, a, b, 'field %s is not set' % k)
        for k in db:
            if k not in da:
                out += self.D(not self.lost and k not in ('#names', '#dimnames'), path, a, b, 'field %s is set' % k)
        return out

    def d_idx(self, a, b, path):
        if len(a.args) == 3 and len(b.args) == 2:
            if a.args[:2] == b.args[:2] and a.args[2] is FALSE:
                return self.D(True, path, a, b, 'drop = FALSE is missing')
        out = self.diff(a.args[0], b.args[0], path)
        ia, ib = a.args[1], b.args[1]
        if not isinstance(ia, tuple) or not isinstance(ib, tuple):
            return self.leaf(a, b, path)
        if len(ia) != len(ib):
            return self.leaf(a, b, path)
        for x, y in zip(ia, ib):
            if (x is MISSING) != (y is MISSING):
                return self.D(True, path, a, b, 'another index')
            out += self.diff(x, y, path + ('index',))
        if a.args[2:] != b.args[2:] and not out:
            out += self.D(len(a.args) > len(b.args) and a.args[2] is FALSE, path, a, b, 'drop')
        return out

    def d_ite(self, a, b, path):
        return self.gamma(a, b, path)

    def d_mm(self, a, b, path):
        x, y = a.args[0], b.args[0]
        if len(x) == len(y):
            if sorted(x) == sorted(y):
                return self.D(True, path, a, b, 'factors of a product in another order')
            out = []
            for i, (p, q) in enumerate(zip(x, y)):
                if p is not q:
                    if trans(p) is q:
                        out += self.D(True, path, a, b, 'a factor is transposed')
                    elif inv(p) is q:
                        out += self.D(True, path, a, b, 'a factor is inverted')
                    else:
                        out += self.diff(p, q, path + ('factor',))
            return out
        return self.leaf(a, b, path)

    def d_t(self, a, b, path):
        return self.diff(a.args[0], b.args[0], path)

    def d_loop(self, a, b, path):
        return self.looplike(a, b, path)

    def d_while(self, a, b, path):
        return self.looplike(a, b, path)

    def looplike(self, a, b, path):
        b = aligned(a, b)
        if a is b:
            return []
        ca, cb = [], []
        if shape(a.args, b.args, ca, cb):
            out = []
            for x, y in zip(ca, cb):
                out += self.diff(x, y, path + (a.op,))
            return out
        return self.D(False, path, a, b, 'another loop')

    def d_map(self, a, b, path):
        r = self.count(a.args[0], b.args[0], path)
        self.counted = a.args[0]
        r = r + self.diff(a.args[1], b.args[1], path + ('each',))
        self.counted = None
        return r

    d_sum = d_exists = d_map

    def count(self, a, b, path):
        if a is b:
            return []
        if a.op == 'call' and a.args[0] == 'count1' and a.args[1][0][1] is b:
            return []           # 1:n became seq_len(n): the same, or better
        if b.op == 'call' and b.args[0] == 'count1' and b.args[1][0][1] is a:
            return self.D(True, path, a, b, '1:n where n can be 0')
        return self.diff(a, b, path + ('count',))

    # --------------------------------------------------------------- algebra
    def d_poly(self, a, b, path):
        ta, tb = terms_of(a), terms_of(b)
        ra = {m: c for m, c in ta.items() if tb.get(m) != c}
        rb = {m: c for m, c in tb.items() if ta.get(m) != c}
        if not ra and not rb:
            return []
        # same monomials, other coefficients
        common = [m for m in ra if m in rb]
        if common:
            if all(abs(float(ra[m] - rb[m])) < 1e-7 * abs(float(ra[m])) for m in common) and len(common) == len(ra) == len(rb):
                return self.D(False, path, a, b, 'another approximation of the coefficient')
            if all(m == () or self.known_mono(m) for m in common) and len(common) == len(ra) == len(rb):
                return self.D(True, path, a, b, 'another coefficient')
            only_a = [m for m in ra if m not in rb]
            only_b = [m for m in rb if m not in ra]
            if not only_a and not only_b:
                return self.D(True, path, a, b, 'another coefficient')
        if len(ra) == 1 and len(rb) == 1:
            (ma, ca), (mb, cb) = list(ra.items())[0], list(rb.items())[0]
            return self.mono(ma, ca, mb, cb, a, b, path)
        # pair the monomials that share most
        if ra and rb:
            pairs = self.pair(ra, rb)
            if pairs is not None:
                out = []
                for ma, mb in pairs:
                    out += self.mono(ma, ra[ma], mb, rb[mb], a, b, path)
                return out
        if not rb:
            lost = from_terms(ra)
            dec = not self.gained_outside(b)
            return self.D(dec, path, a, b, 'the term %s is missing' % show(lost, 4)[:200])
        if not ra:
            dec = not self.lost and not self.unknown(from_terms(rb))
            if not dec and all(self.familiar(x) for m in rb for x, e in m) and not self.lost:
                dec = True
            return self.D(dec, path, a, b, 'the term %s is added' % show(from_terms(rb), 4)[:200])
        return self.leaf(from_terms(ra), from_terms(rb), path)

    def known_mono(self, m):
        return True

    def pair(self, ra, rb):
        if len(ra) != len(rb) or len(ra) > 6:
            return None
        left = list(rb)
        out = []
        for ma in ra:
            best, bs = None, 0
            for mb in left:
                s = len(set(x for x, e in ma) & set(x for x, e in mb)) * 2 + (ra[ma] == rb[mb]) + \
                    (len(ma) == len(mb))
                if s > bs:
                    best, bs = mb, s
            if best is None:
                return None
            out.append((ma, best))
            left.remove(best)
        return out

    def mono(self, ma, ca, mb, cb, a, b, path):
        da, db = dict(ma), dict(mb)
        ea = {x: e for x, e in da.items() if db.get(x) != e}
        eb = {x: e for x, e in db.items() if da.get(x) != e}
        if not ea and not eb:
            return self.D(abs(float(ca - cb)) >= 1e-7 * abs(float(ca)), path, a, b, 'another coefficient')
        if len(ea) == 1 and len(eb) == 1:
            (x, p), (y, q) = list(ea.items())[0], list(eb.items())[0]
            if x is y:
                return self.D(True, path, a, b, 'another power')
            if p == q and ca == cb:
                return self.diff(x, y, path)
            if p == q and ca == -cb:
                r = self.diff(x, y, path)
                if any(d.decisive for d in r):
                    return r
                return self.D(False, path, a, b, 'sign, with another factor')
        if not eb or not ea:
            fa = from_terms({tuple(sorted(ea.items(), key=lambda ae: ae[0].id)): ca})
            fb = from_terms({tuple(sorted(eb.items(), key=lambda ae: ae[0].id)): cb})
            if not eb:
                dec = not self.gained_outside(b)
                return self.D(dec, path, a, b, 'the factor %s is missing' % show(fa, 4)[:200])
            dec = not self.lost and all(self.familiar(x) for x in eb)
            return self.D(dec, path, a, b, 'the factor %s is added' % show(fb, 4)[:200])
        fa = from_terms({tuple(sorted(ea.items(), key=lambda ae: ae[0].id)): ca})
        fb = from_terms({tuple(sorted(eb.items(), key=lambda ae: ae[0].id)): cb})
        if len(ea) == 1 and len(eb) == 1 or True:
            return self.leaf(fa, fb, path)

    def gained_outside(self, b):
        return bool(self.gained - {'ite'} - WEAK_CALLS)

    # -------------------------------------------------------------- booleans
    def bools(self, a, b, path):
        """conditions: align the parts of (possibly negated) disjunctions"""
        na, nb = a.op == 'not', b.op == 'not'
        if na and nb:
            return self.diff(a.args[0], b.args[0], path)
        if na != nb:
            xa, xb = (a.args[0] if na else a), (b.args[0] if nb else b)
            if xa is xb:
                return self.D(True, path, a, b, 'the condition is negated')
            if xa.op == 'or' and xb.op == 'or' and set(xa.args[0]) == set(xb.args[0]):
                return self.D(True, path, a, b, 'the condition is negated')
            # x & y against x (or against y & z): conjuncts
            pa, pb = conj_set(a), conj_set(b)
            if len(pa) > 1 or len(pb) > 1:
                inter = pa & pb
                if inter:
                    return self.partdiff(pa - inter, pb - inter, a, b, path, 'conjunct')
                # one flipped to a disjunction of the same parts
                if set(disjuncts(a)) == pb or pa == set(disjuncts(b)):
                    return self.D(True, path, a, b, 'and / or')
            if xa.op in ('lt0', 'eq') and xb.op in ('lt0', 'eq'):
                r = self.relation(a, b, path)
                if r is not None:
                    return r
            return None
        a1, b1 = absorbed(a), absorbed(b)
        if a1 is not a or b1 is not b:
            return self.diff(a1, b1, path)
        pa, pb = set(disjuncts(a)), set(disjuncts(b))
        inter = pa & pb
        return self.partdiff(pa - inter, pb - inter, a, b, path, 'alternative')

    def d_or(self, a, b, path):
        return self.bools(a, b, path)

    def d_not(self, a, b, path):
        return self.diff(a.args[0], b.args[0], path)

    def partdiff(self, ra, rb, a, b, path, what):
        if len(ra) == 1 and len(rb) == 1:
            return self.diff(next(iter(ra)), next(iter(rb)), path)
        if ra and not rb:
            x = sorted(ra)[0]
            if all(degenerate(y) for y in ra):
                return self.D(False, path, a, b, 'a condition on emptiness is missing')
            dec = not self.gained_outside(b)
            return self.D(dec, path, x, None, 'the %s is missing from a condition' % what)
        if rb and not ra:
            x = sorted(rb)[0]
            if all(degenerate(y) for y in rb):
                return self.D(False, path, a, b, 'a condition on emptiness is added')
            dec = not (self.lost - WEAK_CALLS)
            return self.D(dec, path, None, x, 'the %s is added to a condition' % what)
        if len(ra) == len(rb):
            out = []
            left = list(sorted(rb))
            for x in sorted(ra):
                y = best_match(x, left)
                left.remove(y)
                out += self.diff(x, y, path)
            return out
        return self.leaf(or_(*ra), or_(*rb), path)

    def relation(self, a, b, path):
        """orders between the same quantities"""
        def norm(x):
            neg_ = x.op == 'not'
            y = x.args[0] if neg_ else x
            if y.op == 'lt0':
                return ('le' if neg_ else 'lt', neg(y.args[0]) if neg_ else y.args[0])
            if y.op == 'eq':
                return ('ne' if neg_ else 'eq', sub(y.args[1], y.args[0]))
            if y.op == 'empty':
                return ('ne' if neg_ else 'eq', call('length', y.args[0]))
            return None
        p, q = norm(a), norm(b)
        if p is None or q is None:
            return None
        d1, d2 = p[1], q[1]
        if d1 is d2 or d1 is neg(d2) or isnum(sub(d1, d2)) or isnum(add(d1, d2)):
            if same_condition(a, b):
                return []
            if same_condition(a, b, True):
                return self.D(False, path, a, b, 'another comparison, which agrees on whole numbers from 0')
            if same_condition(a, b, 'whole'):
                return self.D(False, path, a, b, 'another comparison, which agrees on whole numbers')
            if inrange(a, b):
                return self.D(False, path, a, b, 'another comparison, which agrees on the indices of a loop')
            if len(path) > 1 and path[-2] == 'loop' and {p[0], q[0]} & {'eq'} and {p[0], q[0]} & {'lt', 'le'}:
                (e, de), (o, do) = (p, q) if p[0] == 'eq' else (q, p)
                for k in (sub(do, de), add(do, de)):
                    if isnum(k) and (k.args[0] > 0 or o == 'le' and k.args[0] == 0):
                        return self.D(False, path, a, b, 'another test for the end of a loop')
            return self.D(True, path, a, b, 'another comparison')
        return None

    def d_lt0(self, a, b, path):
        if degenerate(a) and degenerate(b) and {h for h in heads(a) ^ heads(b)} <= DEGEN and heads(a) != heads(b):
            return self.D(False, path, a, b, 'another way to ask for the size')
        r = self.relation(a, b, path)
        if r is not None:
            return r
        return self.diff(a.args[0], b.args[0], path + ('compare',))

    def d_eq(self, a, b, path):
        if degenerate(a) and degenerate(b) and {h for h in heads(a) ^ heads(b)} <= DEGEN and heads(a) != heads(b):
            return self.D(False, path, a, b, 'another way to ask for the size')
        x, y = a.args
        u, v = b.args
        if x is u:
            return self.diff(y, v, path + ('compare',))
        if y is v:
            return self.diff(x, u, path + ('compare',))
        if x is v:
            return self.diff(y, u, path + ('compare',))
        if y is u:
            return self.diff(x, v, path + ('compare',))
        return self.diff(x, u, path) + self.diff(y, v, path)

    # ---------------------------------------------------------------- gammas
    def gamma(self, a, b, path):
        x, y = decided(a), decided(b)
        if x is not a or y is not b:
            return self.diff(x, y, path)
        if a.op == 'ite' and b.op == 'ite':
            c, p, q = a.args
            d, r, s = b.args
            if c is d:
                with self.under(c, True):
                    r1 = self.diff(p, r, path + ('then',))
                with self.under(c, False):
                    return r1 + self.diff(q, s, path + ('else',))
            if p is r and q is s:
                return self.diff(c, d, path + ('condition',))
            if p is s and q is r:
                if not_(c) is d:
                    return []
                return self.diff(c, not_(d), path + ('condition',))
            if sametable(a, b):
                return []
            if p.op == 'error' and r.op == 'error':
                r1 = self.diff(c, d, path + ('error condition',))
                with self.under(c, False), self.under(d, False):
                    return r1 + self.diff(q, s, path)
            if p is r or q is s:
                # same in one branch: the conditions and the other branch differ
                r1 = self.diff(c, d, path + ('condition',))
                return r1 + self.branches(c, d, p, r, q, s, path)
            # leaves as a decision table
            r_ = self.table(a, b, path)
            if r_ is not None:
                return r_
            if related(c, d):
                return self.diff(c, d, path + ('condition',)) + self.branches(c, d, p, r, q, s, path)
            if related(c, not_(d)):
                return self.diff(c, not_(d), path + ('condition',)) + self.branches(c, not_(d), p, s, q, r, path)
            # one side has one more case than the other
            for t, x, y in ((1, q, b), (1, p, b), (2, a, s), (2, a, r)):
                if x is y:
                    cond, other = (c, (p if x is q else q)) if t == 1 else (d, (r if y is s else s))
                    return self.case(t, cond, other, x, a, b, path)
            return self.D(False, path, a, b, 'another case distinction')
        if a.op == 'ite':
            c, p, q = a.args
            if p.op == 'error':
                r1 = self.D(self.dropped_ok(c, b), path, a, b, 'an error condition is missing')
                with self.under(c, False):
                    return r1 + self.diff(q, b, path)
            if q is b or p is b:
                return self.case(1, c, p if q is b else q, b, a, b, path)
            with self.under(c, True):
                dp = self.diff(p, b, path)
            with self.under(c, False):
                dq = self.diff(q, b, path)
            if dp and dq and all(d.decisive for d in dp[:1]) and all(d.decisive for d in dq[:1]) and \
                    not self.gained_outside(b):
                return self.D(True, path, a, b, 'a case distinction is missing')
            for d in dp + dq:
                if d.decisive and d.why in ('another field', 'another operand', 'another variable') and not contains(c, d.a) and \
                        not contains(c, d.b):
                    return self.D(True, path, a, b, 'another value in one of the cases')
            return self.D(False, path, a, b, 'a case distinction is missing')
        c, p, q = b.args
        if p.op == 'error':
            r1 = self.D(self.added_ok(c) and not (a.op == 'error' and self.unreached()), path, a, b, 'an error condition is added')
            with self.under(c, False):
                return r1 + self.diff(a, q, path)
        if q is a or p is a:
            return self.case(2, c, p if q is a else q, a, a, b, path)
        acc = set()
        batoms(c, acc)
        for c in [c] + (sorted(acc, key=lambda t: t.id)[:4] if len(acc) > 1 else []):
            p, q = (p, q) if c is b.args[0] else (C_.restrict(b, c, True), C_.restrict(b, c, False))
            with self.under(c, True):
                dp = self.diff(a, p, path)
            with self.under(c, False):
                dq = self.diff(a, q, path)
            if not dp and dq and dq[0].decisive:
                return self.case(2, c, q, a, a, b, path)
            if not dq and dp and dp[0].decisive:
                return self.case(2, c, p, a, a, b, path)
        return self.D(False, path, a, b, 'a case distinction is added')

    def branches(self, c, d, p, r, q, s, path):
        self.loose += c is not d
        try:
            with self.under(c, True), self.under(d, True):
                r1 = self.diff(p, r, path + ('then',))
            with self.under(c, False), self.under(d, False):
                return r1 + self.diff(q, s, path + ('else',))
        finally:
            self.loose -= c is not d

    def table(self, a, b, path):
        """same decision conditions in both, nested in another way: compare case by case"""
        ca, cb = cond_atoms(a), cond_atoms(b)
        if len(ca | cb) > 6 or not (ca & cb):
            return None
        if ca != cb:
            return None
        atoms = sorted(ca)
        out = []
        seen = set()

        def go(i, x, y):
            if x is y:
                return
            if i == len(atoms):
                if (x, y) not in seen:
                    seen.add((x, y))
                    out.extend(self.diff(x, y, path + ('case',)) if not (x.op == 'ite' or y.op == 'ite')
                               else self.D(False, path, x, y, 'another case distinction'))
                return
            for v in (True, False):
                go(i + 1, assume(x, atoms[i], v), assume(y, atoms[i], v))
        go(0, a, b)
        return out

    def dropped_ok(self, c, b):
        return not self.gained_outside(c)

    def added_ok(self, c):
        cs = c.args[0] if c.op == 'or' else (c,)
        cs = [x.args[1].args[1] if x.op == 'exists' else x for x in cs]
        if all(x.op == 'fails' and x.args[0].op == 'pcall' and 'p:' + x.args[0].args[0] in self.va for x in cs):
            return False            # the specification calls that, too
        return not (self.lost - WEAK_CALLS) and not degenerate(c)

    def case(self, t, cond, other, same, a, b, path):
        """t=1: the specification has one more case; t=2: the code has"""
        whole = a if t == 1 else b
        used = cond if other is whole.args[1] else not_(cond)
        if degenerate(cond) and not general(used) and (blank(other) or t == 2 and not (self.beside(cond, same) and not self.lost)):
            return self.D(False, path, a, b, 'a special case for an empty object')
        if consistent(cond, other, same):
            return self.D(False, path, a, b, 'a special case that agrees with the general one')
        if t == 1:
            return self.D(not self.gained_outside(b), path, a, b, 'a special case is missing: ' + show(cond, 4)[:200])
        dec = not (self.lost - WEAK_CALLS) and not self.opaque_cond(cond) and not (a.op == 'error' and self.unreached())
        return self.D(dec, path, a, b, 'a special case is added: ' + show(cond, 4)[:200])

    def beside(self, cond, same):
        """a condition on what the general value does not speak of"""
        acc = set()
        batoms(cond, acc)
        for c in acc:
            for x in ([c.args[0]] if c.op == 'empty' else [v for y in subterms(c) if y.op == 'call' and y.args[0] in DEGEN for n, v in y.args[1]]):
                if contains(same, x) or x.op == 'bv':
                    return False
        return True

    def opaque_cond(self, c):
        return False

    # ---------------------------------------------------------------- leaves
    def familiar(self, x):
        """made of things the specification also speaks of"""
        return heads(x) <= self.va

    def aggregated(self, a, b, Va, Vb):
        """any(|x| > tol) against |sum(x)| > tol"""
        if self.rlang and Va & QUANT and T_.isbool(b) and 'all.equal' in Vb - Va and not Vb & QUANT and not (Va - QUANT) - Vb - WEAK_CALLS - {'abs'} \
                and any(y.op == 'lt0' for y in subterms(a)):
            return True         # the mean relative difference
        if not (Va & QUANT) or Vb & (QUANT | ORDERED) or not T_.isbool(b) or not Vb & {'sum', 'mean'}:
            return False
        if (Va - QUANT) - Vb - WEAK_CALLS or (Vb - Va) - {'sum', 'mean'} - WEAK_CALLS:
            return False
        return not any(y.op in ('sum',) and any(T_.isbool(z) for z in subterms(y)) or
                       y.op == 'call' and y.args[0] in ('sum', 'mean') and any(T_.isbool(z) for z in subterms(y)) for y in subterms(b))

    def special(self, a, b, path):
        return None

    def about(self, x):
        """is something assumed about x?"""
        return any(contains(c, x) for c, v, n in self.assume)

    def positions(self, a, b, path):
        """ranges of positions: the first before it, and how many"""
        def pos(t):
            f = t.args[0] if t.op == 'call' else None
            if f == 'seqlen':
                return ZERO, t.args[1][0][1], False
            if f == 'colon':
                x, y = t.args[1][0][1], t.args[1][1][1]
                return sub(x, ONE), sub(add(y, ONE), x), True
            if t.op == 'poly':
                td = terms_of(t)
                rs = [m for m in td if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'call' and m[0][0].args[0] in ('seqlen', 'colon') and td[m] == 1]
                if len(rs) == 1:
                    k, n, c = pos(rs[0][0][0])
                    return add(k, from_terms({m: v for m, v in td.items() if m is not rs[0]})), n, c
            return None
        p, q = pos(a), pos(b)
        if p is None or q is None or p[2] == q[2]:
            return None
        out = []
        if p[0] is not q[0]:
            out += self.diff(p[0], q[0], path + ('first',))
        if p[1] is not q[1]:
            out += self.diff(p[1], q[1], path + ('count',))
        return out or self.D(self.rlang and maybezero(p[1]), path, a, b, 'another way to count, where the count can be 0')

    def unreached(self):
        """here the specification stops only because a call for one of many elements does"""
        return any(v and c.op == 'exists' and any(y.op == 'fails' for y in subterms(c)) for c, v, n in self.assume)

    def unknown(self, x):
        return any(y.op in ('loop', 'while', 'selfclo', 'unk') for y in subterms(x))

    def leaf(self, a, b, path):
        r = self.special(a, b, path)
        if r is not None:
            return r
        if a.op == 'error' and b.op not in UNSURE:
            return self.D(not self.gained and not self.loose and not self.unreached(), path, a, b, 'a value where the specification stops')
        if b.op == 'error' and a.op not in UNSURE:
            return self.D(not self.lost and not self.loose, path, a, b, 'stops where the specification gives a value')
        A = a.op in CONSTS
        B = b.op in CONSTS
        if A and B:
            return self.D(not rounding(a, b), path, a, b, 'another constant')
        IA, IB = a.op in INPUTS, b.op in INPUTS
        if (A or IA) and (B or IB):
            return self.D(True, path, a, b, 'another operand')
        if a.op in ('arg', 'fld') and inputpath(a) and closed(b) and b.op != 'obj' and not self.about(a):
            return self.D(True, path, a, b, 'a fixed value instead of %s' % show(a))
        if a.op == 'arg' and not contains(b, a) and not {x.op for x in subterms(b)} & {'unk', 'dots', 'loopstate'} and \
                not heads(b) & OPAQUE and not self.about(a):
            return self.D(True, path, a, b, 'no longer %s' % show(a))
        if b.op == 'pcall' and place(a) and contains(b, a) and heads(b) - {'var'} <= self.va and not self.unknown(b):
            return self.D(True, path, a, b, 'what is computed from it instead of the value itself')
        if a.op == 'pcall' and (place(b) or not self.rlang and b.op == 'pcall' and any(v is b for _, v in a.args[1])) and contains(a, b) and \
                heads(a) - {'var'} <= self.vb and not self.unknown(a):
            return self.D(True, path, a, b, 'the value itself instead of what is computed from it')
        for x, y, w in ((a, b, 'added'), (b, a, 'missing')):
            if y.op == 'trycatch' and y.args[0] is x:
                return self.D(not (self.lost if w == 'added' else self.gained), path, a, b, 'catching of errors is ' + w)
        if a.op in ('reduce', 'map', 'sum', 'loop', 'simplify', 'exists') and not self.loose:
            x, k = b, 0
            if x.op in ('idx', 'el') and (isnum(x.args[1]) or isinstance(x.args[1], tuple) and len(x.args[1]) == 1 and isnum(x.args[1][0])) \
                    and contains(a, x.args[0]) and not contains(a, x) and not self.about(x.args[0]):
                return self.D(not self.gained, path, a, b, 'only one element of many')
        if a.op == 'updsub':
            for y in subterms(a.args[2]):
                if y.op == 'idx' and y.args[0] is a.args[0] and subst(a.args[2], {y: a.args[0]}) is b:
                    return self.D(True, path, a, b, 'done to all instead of a part')
        if self.unknown(a) and self.unknown(b):
            la, lb = loops_in(a), loops_in(b)
            if len(la) == len(lb) > 0 and a not in la and b not in lb and not any(x.op in ('unk', 'selfclo') for x in la + lb):
                ma, mb, out = {}, {}, []
                for x, y in zip(la, lb):
                    out += self.diff(x, y, path + (x.op,))
                    ma[x] = mb[y] = fresh('s')
                if len(mb) == len(ma):
                    return out + self.diff(subst(a, ma), subst(b, mb), path)
        if self.unknown(a) or self.unknown(b):
            weaker = WEAK_OPS | WEAK_CALLS
            lost = self.lost - weaker
            if lost and self.rlang and not (self.gained - weaker) and not any(y.op in ('unk', 'selfclo') for x in (a, b) for y in subterms(x)):
                if (lost & heads(a)) - heads(b):
                    return self.D(True, path, a, b, 'no longer depends on ' + ', '.join(sorted((lost & heads(a)) - heads(b)))[:120])
            return self.D(False, path, a, b, 'not comparable')
        r = self.positions(a, b, path)
        if r is not None:
            return r
        ha, hb = head(a), head(b)
        if ha and hb and ha != hb:
            na, nb = ha.lstrip('$p:').strip(), hb.lstrip('$p:').strip()
            for g in DISTINCT:
                if na in g and nb in g:
                    return self.D(True, path, a, b, '%s instead of %s' % (nb, na))
        for x, y in ((a, b), (b, a)):
            if x.op == 'eq' and y.op == 'call' and y.args[0] in LOOSE_EQ and len(y.args[1]) == 2:
                if {v for _, v in y.args[1]} == set(x.args):
                    return self.D(True, path, a, b, 'another notion of equality')
        Va, Vb = heads(a), heads(b)
        if self.aggregated(a, b, Va, Vb):
            return self.D(True, path, a, b, 'the condition on each element became one on an aggregate')
        lost = {h for h in Va - self.vb if h not in WEAK_CALLS}
        gained = {h for h in Vb - self.va if h not in WEAK_CALLS}
        if set(Va) & WEAK_OPS or set(Vb) & WEAK_OPS:
            if (Va & WEAK_OPS) != (Vb & WEAK_OPS):
                if not (Vb - Va) and {h for h in lost if h not in WEAK_OPS} and not (self.gained - WEAK_CALLS):
                    return self.D(True, path, a, b, 'no longer depends on ' + ', '.join(sorted(h for h in lost if h not in WEAK_OPS))[:120])
                more = {h for h in gained if h not in WEAK_OPS}
                if more and not lost and not (self.lost - WEAK_CALLS) and all(self.known_head(h) for h in more):
                    return self.D(True, path, a, b, 'depends on ' + ', '.join(sorted(more))[:120])
                return self.D(False, path, a, b, 'another form')
        if not gained and not lost:
            wl = (Va - Vb) | (Vb - Va)
            if wl and wl <= WEAK_CALLS:
                return self.D(False, path, a, b, 'conversion')
            return self.D(True, path, a, b, 'another combination of the same quantities')
        if lost and not gained and not (self.gained - WEAK_CALLS):
            return self.D(True, path, a, b, 'no longer depends on ' + ', '.join(sorted(lost))[:120])
        if gained and not lost and not (self.lost - WEAK_CALLS):
            if all(self.known_head(h) for h in gained):
                return self.D(True, path, a, b, 'depends on ' + ', '.join(sorted(gained))[:120])
            return self.D(False, path, a, b, 'depends on ' + ', '.join(sorted(gained))[:120])
        if not self.rlang and a.maxbv == b.maxbv == 0:
            pa, pb = parts(a), parts(b)
            if pa and pb and not (pa & pb):
                return self.D(True, path, a, b, 'another part of the argument is read')
        return self.D(False, path, a, b, 'one construct for another')


ORDERS = {'lt0', 'eq', 'empty'}

UNORDERED = {'sum', 'any', 'all', 'max', 'min', 'mean', 'prod', 'exists', 'sort', 'order', 'table', 'setequal', 'is.element', 'isin'}

UNSURE = {'ite', 'loop', 'while', 'trycatch', 'eval', 'apply', 'unk', 'firstval', 'last', 'map', 'error', 'selfclo'}

COMMUTES = {'max', 'min', 'union', 'intersect', 'pmax', 'pmin', 'sum', 'any', 'all', 'identical', 'setequal', 'prod', 'range', 'all.equal', 'veq'}

# weaker than equality
LOOSE_EQ = {'setequal', 'all.equal', 'is.element', '%in%', 'match', 'inherits'}
QUANT = {'any', 'exists', 'all'}
ORDERED = {'max', 'min', 'range', 'which', 'length', 'identical', 'all.equal', 'is.element', 'match', 'setdiff', 'sort', 'pmax',
           'pmin', 'unique', 'duplicated', 'table', 'tabulate', 'which.max', 'which.min', 'loop', 'while', 'prod', 'nrow', 'ncol',
           'setequal', 'norm', 'lpNorm', 'empty', 'nchar', 'ite', 'reduce', 'apply'}


WEAK_OPS = {'map', 'sum', 'loop', 'while', 'reduce', 'exists', 'unlist', 'ite', 'apply', 'firstval', 'last', 'simplify',
            'empty', 'do.call', 'trycatch', 'foreach', 'colon', 'seqlen', 'count1', 'which'}

OPAQUE = {'eval', 'get', 'mget', 'parse', 'sys.call', 'match.call', 'environment', 'parent.frame', 'do.call', 'sys.function', 'match.arg',
          'missing', 'nargs', 'substitute'}

KNOWN_HEADS = {'det', 'determinant', 'row', 'col', 'setdiff', 'union', 'intersect', 'exp', 'log', 'abs', 'sum', 'sqrt', 'max', 'min', 'pmax', 'pmin', 'round', 'floor', 'ceiling', 'rev', 'sort',
               'unique', 'length', 'nrow', 'ncol', 'diag', 'inv', 'cumsum', 'cumprod', 'dnorm', 'pnorm', 'any', 'power',
               'mean', 'inf', 'idiv', 'imod'}


def labels(t):
    """as.numeric(as.character(x))"""
    if t.op == 'call' and t.args[0] in ('as.numeric', 'as.integer', 'as.double') and len(t.args[1]) == 1:
        x = t.args[1][0][1]
        return x.op == 'call' and x.args[0] in ('as.character', 'levels', 'format', 'paste')
    return False


def same_condition(a, b, counts=False):
    """conditions on one linear form that hold for the same values (counts: the same non-negative ones)"""
    na, nb = a.op == 'not', b.op == 'not'
    x, y = (a.args[0] if na else a), (b.args[0] if nb else b)
    if counts == 'whole':
        la, lb = C_.lin(x), C_.lin(y)
        if not la or not lb or la[0] is not lb[0] or not any(C_.sizelike(v) for m, k in terms_of(la[0]).items() for v, e in m):
            return False
        if any(k.denominator != 1 for k in terms_of(la[0]).values()):
            return False
        pts = sorted({int(z) + e for z in la[2] + lb[2] for e in (-2, -1, 0, 1, 2)})
        return all((bool(la[1](z)) != na) == (bool(lb[1](z)) != nb) for z in pts)
    if counts:
        la = C_.lin(x)
        if not la or not la[3] or any(k < 0 for m, k in terms_of(la[0]).items() if m):
            return False         # a difference can be negative
    p, q = C_.implied(x, True, y, counts), C_.implied(x, False, y, counts)
    if p is None or q is None:
        return False
    return (p != na) == (True != nb) and (q != na) == (False != nb) if False else (p is (na == nb)) and (q is (na != nb))


def inrange(a, b):
    """conditions on  size - index  that agree as long as the index is below the size"""
    x, y = (t.args[0] if t.op == 'not' else t for t in (a, b))
    p, q = C_.lin(x), C_.lin(y)
    if not p or not q or p[0] is not q[0]:
        return False
    sign = {1: 0, -1: 0}
    for m, k in terms_of(p[0]).items():
        if len(m) != 1 or m[0][1] != 1 or abs(k) != 1:
            return False
        sign[k] += 1
    (u, ku), (v, kv) = [(m[0][0], k) for m, k in terms_of(p[0]).items()] if sign == {1: 1, -1: 1} else ((None, 0), (None, 0))
    if u is None:
        return False
    if u.op != 'bv':
        (u, ku), (v, kv) = (v, kv), (u, ku)
    if u.op != 'bv' or v.op == 'bv' or not C_.sizelike(v):
        return False
    pts = sorted({int(z) + e for z in p[2] + q[2] for e in (-1, 0, 1)} | set(range(-3, 4)))
    # value of the form is  ku * (index - size); the index is below the size
    return all((bool(p[1](z)) != (a.op == 'not')) == (bool(q[1](z)) != (b.op == 'not')) for z in pts if ku * z <= -1)


def inputpath(t):
    while t.op == 'fld':
        t = t.args[0]
    return t.op == 'arg' or t.op == 'sym' and (t.args[0] == 'THIS' or t.args[0][:4] == 'arg:')


PARTS_THROUGH = {'size', 'rows', 'cols', 'poly', 'coef', 'ocoef'}


def parts(t):
    """the members of arguments whose own members are all that t reads, else None"""
    out = set()

    def go(x):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                return all(go(y) for y in x)
            return True
        if x.op in CONSTS:
            return True
        if x.op == 'fld':
            names, o = [], x
            while o.op == 'fld':
                if o.args[1] != 'ptr':
                    names.append(o.args[1])
                o = o.args[0]
            if not (o.op == 'arg' or o.op == 'sym' and o.args[0][:4] == 'arg:') or len(names) < 2:
                return False
            out.add((o, names[-1]))
            return True
        if x.op in PARTS_THROUGH or x.op == 'call' and x.args[0] in PARTS_THROUGH:
            return all(go(y) for y in x.args)
        return False
    return out if go(t) else None


def rounding(a, b):
    """the same constant, written with more or fewer digits"""
    if not (isnum(a) and isnum(b)):
        return False
    x, y = float(a.args[0]), float(b.args[0])
    return x != y and x != round(x) and abs(x - y) < 1e-9 * abs(x)


def place(t):
    """an element or a field of something"""
    return t.op in ('fld', 'coef', 'ocoef', 'idx', 'el')


def closed(t):
    """made of constants only"""
    return t.maxbv == 0 and not any((x.op in INPUTS or x.op in UNSURE) and x.op not in ('bv', 'map', 'loop') or x.op in ('sread', 'dots', 'unbound', 'pstate', 'undef', 'fn', 'clo')
                                    or x.op == 'call' and x.args[0] in OPAQUE for x in subterms(t))


def weak(t):
    while t.op == 'call' and t.args[0] in WEAK_CALLS and len(t.args[1]) == 1 and t.args[0] not in ('is.null',):
        t = t.args[1][0][1]
    return t


def shape(x, y, ca, cb):
    if isinstance(x, T) and isinstance(y, T):
        ca.append(x)
        cb.append(y)
        return True
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(shape(p, q, ca, cb) for p, q in zip(x, y))
    if isinstance(x, T) or isinstance(y, T) or isinstance(x, tuple) or isinstance(y, tuple):
        return False
    return x == y


def arglike(x):
    return isinstance(x, tuple) and len(x) > 0 and all(isinstance(p, tuple) and len(p) == 2 and (p[0] is None or isinstance(p[0], str)) and
                                                       isinstance(p[1], T) for p in x)


def loop_parts(t):
    """which variable, how often, initial values, next values, and how to put them together in another order"""
    if t.op != 'loop':
        return None
    if len(t.args) == 4 and isinstance(t.args[3], tuple):
        pos, n, l, inits = t.args
        first = 1
    elif len(t.args) == 3 and isinstance(t.args[1], tuple):
        n, inits, l = t.args
        pos, first = 0, 0
    else:
        return None
    vs = [fresh('v') for _ in range(l.args[0])]
    body = apply_lam(l, vs)
    if body.op != 'tup':
        return None
    hs = vs[first:first + len(inits)]
    nx = body.args[0]
    if len(hs) != len(inits) or len(nx) < len(inits):
        return None

    def build(perm):
        hp = [hs[i] for i in perm]
        b = mk('tup', tuple(nx[i] for i in perm) + tuple(nx[len(inits):]))
        i2 = tuple(inits[i] for i in perm)
        if first:
            return mk('loop', perm.index(pos) if isinstance(pos, int) else pos, n, lam(vs[:1] + hp + vs[1 + len(hs):], b), i2)
        return mk('loop', n, i2, lam(hp + vs[len(hs):], b))
    return pos, inits, nx, build


def aligned(a, b):
    """b with the variables carried by the loop in the order of those of a that they resemble"""
    p, q = loop_parts(a), loop_parts(b)
    if p is None or q is None or len(p[1]) != len(q[1]) or len(p[1]) < 2 or \
            isinstance(p[0], int) != isinstance(q[0], int):
        return b
    k = len(p[1])

    def near(x, y):
        if x is y:
            return 8
        hx, hy = heads(x), heads(y)
        return 4 * len(hx & hy) / max(1, len(hx | hy)) + (1 if x.op == y.op else 0)
    sim = [[near(p[1][i], q[1][j]) + near(p[2][i], q[2][j]) + (1e-3 if i == j else 0) for j in range(k)] for i in range(k)]
    rest_a, rest_b = [i for i in range(k) if i != p[0]], [j for j in range(k) if j != q[0]]
    if k <= 6:
        best = max(itertools.permutations(rest_b), key=lambda pm: sum(sim[i][j] for i, j in zip(rest_a, pm)))
    else:
        best, free = [], list(rest_b)
        for i in rest_a:
            j = max(free, key=lambda j: sim[i][j])
            free.remove(j)
            best.append(j)
    perm = [None] * k
    if isinstance(p[0], int):
        perm[p[0]] = q[0]
    for i, j in zip(rest_a, best):
        perm[i] = j
    if perm == list(range(k)):
        return b
    return q[3](perm)


def loops_in(t):
    """the outermost loops"""
    out, seen = [], set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op in ('loop', 'while', 'loopstate', 'selfclo', 'unk'):
            if not x.maxbv:
                out.append(x)
            else:
                out.append(mk('unk', x))
            return
        for c in children(x):
            go(c)
    go(t)
    return out


def conj_set(x):
    return set(conjuncts(x))


def ekey(e):
    k = str(e.args[0])
    if k in ('call', 'mcall') and len(e.args) > 2:
        for x in e.args[2:4]:
            if isinstance(x, str):
                k += ':' + x
    if k == 'pcall' and len(e.args) > 2 and isinstance(e.args[2], T) and e.args[2].op == 'pcall':
        k += ':' + str(e.args[2].args[0])
    return k


def align(ea, eb, ka, kb):
    n, m = len(ka), len(kb)
    L = [[0] * (m + 1) for _ in range(n + 1)]

    def sc(i, j):
        if ea[i] is eb[j]:
            return 100
        if ka[i] == kb[j]:
            return 10 + sum(1 for x, y in zip(ea[i].args, eb[j].args) if x is y or x == y)
        return 0
    for i in range(n - 1, -1, -1):
        for j in range(m - 1, -1, -1):
            s = sc(i, j)
            L[i][j] = max(L[i + 1][j], L[i][j + 1], (L[i + 1][j + 1] + s) if s else 0)
    out = []
    i = j = 0
    while i < n and j < m:
        s = sc(i, j)
        if s and L[i][j] == L[i + 1][j + 1] + s:
            out.append((i, j))
            i, j = i + 1, j + 1
        elif L[i][j] == L[i + 1][j]:
            out.append((i, None))
            i += 1
        else:
            out.append((None, j))
            j += 1
    out += [(k, None) for k in range(i, n)] + [(None, k) for k in range(j, m)]
    return out


def order_matters(es):
    kinds = {str(e.args[0]) for e in es}
    return bool(kinds & {'mcall', 'call', 'write', 'foreach'}) and not kinds <= {'warning', 'pcall'}


def related(c, d):
    """do two conditions talk about the same thing?"""
    ha, hb = heads(c), heads(d)
    return bool(ha & hb)


def cond_atoms(t, acc=None):
    acc = set() if acc is None else acc
    if t.op == 'ite':
        batoms(t.args[0], acc)
        cond_atoms(t.args[1], acc)
        cond_atoms(t.args[2], acc)
    return acc


def truth(c, known):
    """value of a condition where some atoms are known: True, False or None"""
    if c is TRUE or c is FALSE:
        return c is TRUE
    if c.op == 'not':
        v = truth(c.args[0], known)
        return None if v is None else not v
    if c.op == 'or':
        vs = [truth(x, known) for x in c.args[0]]
        return True if True in vs else None if None in vs else False
    return known.get(c)


def absorbed(t):
    """P or Q: where Q is looked at, P does not hold"""
    if t.op != 'or':
        return t
    parts = list(t.args[0])
    for x in [y for y in parts if y.op not in ('or', 'not')]:
        parts = [y if y is x else C_.restrict(y, x, False) for y in parts]
    return or_(*parts)


_always = {}


def always(c):
    """True/False if the condition is so whatever its atoms are, else None"""
    if c in _always:
        return _always[c]
    acc = set()
    batoms(c, acc)
    if len(acc) > 14:
        return None
    atoms = sorted(acc)

    def go(i, known):
        v = truth(c, known)
        if v is not None or i == len(atoms):
            return v
        r = None
        for w in (True, False):
            known[atoms[i]] = w
            x = go(i + 1, known)
            del known[atoms[i]]
            if x is None or r is not None and x != r:
                return None
            r = x
        return r
    _always[c] = go(0, {})
    return _always[c]


def decided(t):
    while t.op == 'ite':
        v = always(t.args[0])
        if v is None:
            return t
        t = t.args[1] if v else t.args[2]
    return t


def searches(atoms):
    """(conditions of which one holds) => (conditions of which one holds): what a search that succeeds has found satisfies"""
    out = []
    for f in {x for a in atoms for x in subterms(a) if x.op == 'first'}:
        n, l = f.args
        k = fresh('ix')
        ps = disjuncts(apply_lam(l, [k]))
        import cterms
        out.append(([cterms.exists(n, lam([k], p)) for p in ps], [subst(p, {k: f}) for p in ps]))
    return out


def found(now):
    """what follows when the element a search stops at fails all the conditions it was looking for: there is none"""
    known = dict(now)
    if not any(x.op == 'first' for c, v in now for x in subterms(c)):
        return []
    out = []
    for p, q in searches([x for x, v in now]):
        if all(truth(x, known) is False for x in q):
            if any(truth(e, known) for e in p):
                return None             # cannot be
            out += [(e, False) for e in p]
    return out


def sametable(a, b):
    """the same decisions on the same conditions, nested in another way"""
    ca, cb = cond_atoms(a), cond_atoms(b)
    if ca != cb or not 0 < len(ca) <= 8:
        return False
    atoms = sorted(ca)
    laws = searches(atoms)

    def leaf(t, known):
        while t.op == 'ite':
            t = t.args[1] if truth(t.args[0], known) else t.args[2]
        return t
    for bits in range(1 << len(atoms)):
        known = {x: bool(bits >> i & 1) for i, x in enumerate(atoms)}
        if any(any(truth(x, known) for x in p) and all(truth(x, known) is False for x in q) for p, q in laws):
            continue
        if leaf(a, known) is not leaf(b, known):
            return False
    return True


def batoms(c, acc):
    if c.op == 'not':
        batoms(c.args[0], acc)
    elif c.op == 'or':
        for x in c.args[0]:
            batoms(x, acc)
    else:
        acc.add(c)


DEGEN = {'length', 'nrow', 'ncol', 'rows', 'cols', 'size', 'is.null', 'dim', 'empty', 'NROW', 'NCOL', 'nchar', 'count1', 'is.na'}


def degenerate(c):
    """a condition about an object being empty (or of size 0 / 1)"""
    acc = set()
    batoms(c, acc)
    for x in acc:
        if x.op == 'empty':
            continue
        if x.op == 'call' and x.args[0] in ('is.null', 'is.na', 'missing'):
            continue
        if x.op in ('eq', 'lt0'):
            ns = [k for t in x.args for k in ([t] if t.op != 'poly' else [a for co, m in t.args[0] for a, e in m])]
            if all(k.op == 'num' or (k.op == 'call' and k.args[0] in DEGEN) for k in ns):
                # compared with a small constant
                cs = [abs(k.args[0]) for t in x.args for k in subterms(t) if k.op == 'num'] + \
                     [abs(co) for t in x.args if t.op == 'poly' for co, m in t.args[0] if m == ()]
                if all(v <= 1 for v in cs) and not apart(x):
                    continue
        return False
    return True


def maybezero(n):
    """the number of columns of the design matrix, 0 if there are no fixed effects"""
    return n.op == 'call' and n.args[0] == 'ncol' and n.args[1][0][1].op == 'fld' and n.args[1][0][1].args[1] == 'X'


def apart(x):
    """one size exceeds another by more than 1: neither is 0 for that"""
    if x.op != 'lt0' or x.args[0].op != 'poly':
        return False
    td = terms_of(x.args[0])
    return len({v > 0 for m, v in td.items() if m}) == 2 and bool(td.get((), 0))


def general(c):
    """does a condition on sizes hold for large objects?"""
    if c.op == 'not':
        return not general(c.args[0])
    if c.op == 'or':
        return any(general(x) for x in c.args[0])
    l = C_.lin(c)
    if l and c.op != 'empty':
        return bool(l[1](10 ** 6))
    return False


def blank(t):
    return t is NULL or t.op in ('unbound', 'error') or (t.op in ('list', 'rec') and not t.args[0]) or t is ZERO or \
        (t.op == 'call' and t.args[0] in ('vector', 'numeric', 'character', 'integer', 'list') and
         all(isnum(v) or v.op == 'str' for _, v in t.args[1]))


def consistent(cond, other, same):
    """under the condition an equality holds which makes both branches the same"""
    for x in conjuncts(cond):
        if x.op == 'eq':
            l, r = x.args
            for p, q in ((l, r), (r, l)):
                if p.op in ('num',) or q.op in ('num',) or True:
                    try:
                        if subst(same, {q: p}) is subst(other, {q: p}):
                            return True
                    except Exception:
                        pass
    return False


def best_match(x, ys):
    hx = heads(x)
    return max(ys, key=lambda y: (y.op == x.op, len(hx & heads(y)) - len(hx ^ heads(y)) * 0.1, -y.id))
