"""Comparison of value graphs of C++ functions."""
from terms import *   # noqa
import terms as T_
import compare
import interp
import cterms as C
from compare import Comparer, Diff, heads, head, place

compare.WEAK_OPS |= {'scat', 'wfor', 'wseq', 'wif', 'wput', 'wacc', 'wmod', 'wpush', 'wcat', 'filter', 'append', 'cat', 'findidx', 'first', 'isin',
                     'uninit', 'map2', 'removed', 'vcat', 'prodover', 'maxover', 'minover', 'iter', 'inner', 'setf', 'veq',
                     'nrepl', 'const', 'zeros', 'ones', 'put', 'upd', 'esum', 'loopstop', 'impure', 'resize', 'default', 'mapset',
                     'set_union', 'sort', 'backins', 'undef', 'static_cast', 'trunc'}
compare.STRUCT |= {'coef', 'ocoef', 'seg', 'blk', 'row', 'col', 'wskip', 'void'}
compare.DISTINCT += [{'wput', 'wacc'}, {'symL', 'symU'}, {'row', 'col'}, {'floor', 'ceil', 'trunc', 'round'},
                     {'set_union', 'set_intersection', 'set_difference', 'set_symmetric_difference'}]
REPEATS = {'loop', 'while', 'map', 'map2', 'sum', 'wfor', 'filter', 'exists', 'scat', 'first', 'findidx', 'esum', 'prodover', 'maxover', 'minover',
           'iter', 'inner', 'loopstop', 'loopstate', 'removed', 'unk', 'selfclo', 'impure', 'isin', 'wseq'}
compare.CONSTS |= {'void'}
interp.LANG[0] = 'C'


# classes of floating-point numbers
FPCLASS = {'isnan': {'nan'}, 'isinf': {'inf'}, 'isfinite': {'zero', 'sub', 'normal'}, 'isnormal': {'normal'}}
FPALL = {'nan', 'inf', 'zero', 'sub', 'normal'}


def fpclass(c):
    """(x, classes of x for which the condition holds), or None"""
    if c.op == 'not':
        r = fpclass(c.args[0])
        return r and (r[0], FPALL - r[1])
    if c.op == 'call' and c.args[0] in FPCLASS and len(c.args[1]) == 1:
        return c.args[1][0][1], FPCLASS[c.args[0]]
    if c.op == 'eq' and ZERO in c.args:
        return [x for x in c.args if x is not ZERO][0], {'zero'}
    if c.op == 'or':
        rs = [fpclass(x) for x in c.args[0]]
        if all(rs) and len({r[0] for r in rs}) == 1:
            return rs[0][0], set.union(*[set(r[1]) for r in rs])
    return None


def coef_(v, z):
    return mk('coef', v, (z,)), mk('ocoef', v, (z,)), C.coef(v, (z,))


def rootof(t):
    while t.op == 'fld':
        t = t.args[0]
    return t


def isroot(t):
    return t.op == 'sym' and (t.args[0] == 'THIS' or t.args[0][:4] == 'arg:')


def fixes(x, bases):
    """the name of a field of one of bases to which x only assigns a constant"""
    if x.op != 'setf' or x.args[0] not in bases:
        return None
    if compare.closed(x.args[2]):
        return x.args[1]
    n = fixes(x.args[2], [fld(y, x.args[1]) for y in bases])
    return n and x.args[1] + '.' + n


def prefix(x, p):
    """does the read x include p?"""
    while p.op == 'fld':
        p = p.args[0]
        if p is x:
            return True
    return False


def flagged(b):
    for x in subterms(b):
        if x.op == 'exists' and x.args[0].op == 'bv':
            return True
    return False


def sizesof(p):
    out = []
    for f in ('size', 'rows', 'cols'):
        out += [mk('call', f, (('', p),)), mk(f, p)]
    return out + [C.rows(p), C.cols(p), C.size(p)]


def fixedpos(i, p):
    """the first, the last, ... position in p"""
    if isnum(i):
        return True
    d = sub(i, C.size(p))
    return isnum(d) and d.args[0] < 0


def reads(t, p):
    """the positions at which p is read, and whether it is read in another way"""
    pos, other, seen = set(), [False], set()
    szs = set(sizesof(p))

    def go(x):
        if x in seen or x in szs:
            return
        seen.add(x)
        if x is p:
            other[0] = True
            return
        if x.op in ('coef', 'ocoef') and x.args[0] is p and len(x.args[1]) == 1:
            pos.add(x.args[1][0])
            go(x.args[1][0])
            return
        for c in children(x):
            go(c)
    go(t)
    return pos, other[0]


def inputs(t):
    """the parts of the arguments that are read (other than for their sizes)"""
    out, seen = set(), set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if isroot(x) or x.op == 'fld' and isroot(rootof(x)):
            out.add(x)
            return
        if x.op in ('size', 'rows', 'cols') or x.op == 'call' and x.args[0] in ('size', 'rows', 'cols'):
            y = x.args[0] if x.op != 'call' else x.args[1][0][1]
            if isinstance(y, T) and isroot(rootof(y)):
                return
        for c in children(x):
            go(c)
    go(t)
    return out


# searches of the standard library: defined for everything, they report nothing
NOTHROW = {'lower_bound', 'upper_bound', 'max_element', 'min_element', 'binary_search'}


class CComparer(Comparer):
    rlang = False
    newfields = {}
    classes = {}
    cls = None

    def __init__(self, a, b, known_fields=()):
        super().__init__(a, b, known_fields)
        # how an element is written
        self.gained -= {'wput', 'wmod', 'wacc', 'undef'}
        self.lost -= {'wput', 'wmod', 'wacc', 'undef'}

    def D(self, dec, path, a, b, why):
        if dec and b is not None and flagged(b):
            dec = False         # a search with a flag, in a form that is not followed
        return super().D(dec, path, a, b, why)

    def dropped_ok(self, c, b):
        more = self.gained - {'ite'} - compare.WEAK_CALLS
        return not more or more <= NOTHROW and not any(x.op in ('error', 'pcall', 'unk', 'call_fn', 'vcall', 'impure') for x in subterms(b))

    def run(self, a, b):
        ds = super().run(a, b)
        if ds and not any(d.decisive for d in ds):
            ds = self.whole(a, b) + ds
        return ds

    def whole(self, a, b):
        """what the whole function no longer uses, or no longer does"""
        if any(x.op in ('unk', 'selfclo') for t in (a, b) for x in subterms(t)):
            return []
        if {h for h in self.gained - compare.WEAK_OPS - compare.WEAK_CALLS if not h.startswith('.')}:
            return []
        ia, ib = inputs(a), inputs(b)
        out = []
        if ib <= ia:
            for p in sorted(ia - ib, key=show):
                if p.op == 'sym' and any(x is p or x.op == 'fld' and rootof(x) is p for x in ib):
                    continue
                if any(prefix(x, p) for x in ib):
                    continue
                if p.op == 'sym' and p.args[0] != 'THIS' and not C.isscalar(p) and p not in T_.INTS or p.op == 'fld' and self.ftype(p) in ('b', 'd'):
                    out += self.D(True, ('whole',), p, b, 'the function no longer depends on %s' % show(p))
        for p in ia & ib:
            if p.op != 'fld':
                continue
            (ka, oa), (kb, ob) = reads(a, p), reads(b, p)
            if kb and not ob and not oa and all(fixedpos(i, p) for i in kb) and not any(isnum(i) or fixedpos(i, p) for i in ka) and \
                    any(i.op == 'bv' for i in ka):
                out += self.D(True, ('whole',), p, b, 'only one element of %s is used' % show(p))
        for h in sorted(self.lost):
            ts = {x['t'] for c in self.classes.values() for x in c['fields'] if '.' + x['n'] == h}
            if ts and ts <= {'b', 'd'} and not out:
                out += self.D(True, ('whole',), None, b, 'the function no longer depends on the field ' + h[1:])
        sa = {(x.args[0], x.args[1]) for x in subterms(a) if x.op == 'pstate'}
        sb = {(x.args[0], x.args[1]) for x in subterms(b) if x.op == 'pstate'}
        for f, k in sorted(sa - sb, key=str):
            if any(g == f for g, _ in sb) and sb <= sa:
                out += self.D(True, ('whole',), None, b, 'what %s does to its %s is lost' % (f, k))
        return out

    def ftype(self, p):
        """the type of a field, if all the fields of that name have it"""
        ts = {x['t'] for c in self.classes.values() for x in c['fields'] if x['n'] == p.args[1]}
        return ts.pop() if len(ts) == 1 else None

    def repeated(self, a, b, path):
        """one call where the specification has a loop of calls"""
        if a.op != 'loop' or b.op in REPEATS or isnum(a.args[1]) or self.about(a.args[1]):
            return None
        fs = {(x.op, x.args[0]) for x in subterms(a.args[2]) if x.op in ('pcall', 'pstate')}
        gs = {(x.op, x.args[0]) for x in subterms(b) if x.op in ('pcall', 'pstate')}
        if not fs & gs or heads(b) & REPEATS or heads(b) - heads(a) - {'ite', 'lt0', 'eq', 'not', 'or'}:
            return None
        return self.D(True, path, a, b, 'done once, where the specification repeats it')

    def d_unk(self, a, b, path):
        return self.D(False, path, a, b, 'could not be analysed')

    def d_pstate(self, a, b, path):
        if a.args[:2] != b.args[:2]:
            return self.leaf(a, b, path)
        return self.args(a, b, a.args[2], b.args[2], path + (str(a.args[0]).split('(')[0],))

    def leaf(self, a, b, path):
        for x, y in ((a, b), (b, a)):
            if x.op == 'call' and x.args[0] in ('isApprox', 'isMuchSmallerThan') and y.op == 'call' and y.args[0] == 'veq':
                return self.D(True, path, a, b, 'another notion of equality')
        return super().leaf(a, b, path)

    def known_head(self, h):
        return super().known_head(h) or h in FPCLASS

    def d_setf(self, a, b, path):
        ds = super().d_setf(a, b, path)
        xa, sa_ = a, {}
        while xa.op == 'setf':
            sa_.setdefault(xa.args[1], xa.args[2])
            xa = xa.args[0]
        xb, sb_ = b, {}
        while xb.op == 'setf':
            sb_.setdefault(xb.args[1], xb.args[2])
            xb = xb.args[0]
        if xa is xb and place(xa):
            # the specified value comes from the arguments, what is left there does not
            for k, v in sa_.items():
                if k not in sb_ and not any(x is xa or x is fld(xa, k) for x in subterms(v)) and \
                        any(x.op == 'sym' and str(x.args[0]).startswith('arg:') for x in subterms(v)):
                    return self.D(True, path, a, b, 'field %s is not set' % k)
        if ds and not any(d.decisive for d in ds):
            base, have = a, set()
            while base.op == 'setf':
                have.add(base.args[1])
                base = base.args[0]
            if place(base) or isroot(base):
                x, seen = b, set()
                while x.op == 'setf':
                    if x.args[1] not in seen | have:
                        ds = self.leaf(fld(base, x.args[1]), x.args[2], path + ('$' + x.args[1],)) + ds
                    seen.add(x.args[1])
                    x = x.args[0]
        return ds

    def d_eq(self, a, b, path):
        if ('idiv' in heads(a)) != ('idiv' in heads(b)):
            return self.D(False, path, a, b, 'a whole division against another form')
        return super().d_eq(a, b, path)

    def effects(self, ea, eb, path):
        new = set()
        for v in self.newfields.values():
            new |= v
        eb2 = tuple(e for e in eb if not (e.args[0] == 'set' and e.args[2].startswith('this.') and e.args[2][5:] in new))
        return super().effects(ea, eb2, path)

    def _diff(self, a, b, path):
        if b.op == 'ite' and {x.op for x in b.args[1:]} & {'inf'} and all(x.op in ('inf', 'num') for x in b.args[1:]) and \
                not any(x.op == 'inf' for x in subterms(a)):
            return self.D(True, path, a, b, 'the loop runs for another number of times, or for ever')
        r = self.repeated(a, b, path)
        if r is not None:
            return r
        if a.op == 'map' and b.op != 'map' and a.args[0] is C.size(b):
            z = fresh('z')
            x = apply_lam(a.args[1], [z])
            n = fixes(x, coef_(b, z))
            if not n and place(b) and not self.about(b) and not self.gained and x.op == 'setf':
                y = x
                while y.op == 'setf':
                    n, y = y.args[1], y.args[0]
                if y not in coef_(b, z):
                    n = None
            if n:
                return self.D(True, path, a, b, 'field %s of the elements is not set' % n)
        if a.op == 'filter' and b.op == 'map' and a.args[0] is b.args[0] and a.args[2] is b.args[1]:
            return self.D(True, path, a, b, 'also the elements that the specification leaves out')
        if a.op == 'sum' and a.args[0] is b and a.args[1].args[1].op == 'ite' and set(a.args[1].args[1].args[1:]) == {ONE, ZERO}:
            return self.D(True, path, a, b, 'also counts the elements that the specification leaves out')
        if b.op == 'seg' and b.args[0].op == 'removed' and b.args[1] is C.size(b.args[0].args[1]) and not any(x.op == 'removed' for x in subterms(a)):
            return self.D(True, path, a, b, 'what is left behind the elements that are kept, which is unspecified')
        if place(a) and b.op in ('zeros', 'ones', 'const') and not self.about(a) and (b.op != 'const' or compare.closed(b.args[1])) and \
                inputs(a) and not self.unknown(a) and not any(x.op == 'pstate' for x in subterms(a)):
            return self.D(True, path, a, b, 'fixed values instead of %s' % show(a))
        if 'diagonal' in heads(b) and 'diagonal' in self.gained:
            for x in subterms(b):
                if x.op == 'call' and x.args[0] == 'diagonal' and x.args[1][0][1].op == 'fld' and isroot(rootof(x.args[1][0][1])):
                    p = x.args[1][0][1]
                    if contains(subst(a, {y: fresh('s') for y in sizesof(p)}), p) and \
                            not contains(subst(b, {y: fresh('s') for y in sizesof(p) + [x]}), p):
                        return self.D(True, path, a, b, 'only the diagonal of %s' % show(p))
        if {a.op, b.op} == {'removed', 'filter'}:
            return self.D(True, path, a, b, 'the elements are moved but not removed' if b.op == 'removed' else 'the elements are removed')
        if a.op == 'append' and b.op == 'list' and b.args[0] and b.args[0][-1] is a.args[1]:
            return self.diff(a.args[0], mk('list', b.args[0][:-1]), path)
        if a.op == 'loop' and isinstance(a.args[0], int) and b.op == 'list' and not b.args[0] and not self.gained:
            nx = a.args[2].args[1].args[0][a.args[0]]
            if any(x.op == 'append' for x in subterms(nx)):
                return self.D(True, path, a, b, 'the elements are not collected')
        p, q = fpclass(a), fpclass(b)
        if p and q and p[0] is q[0]:
            if p[1] == q[1]:
                return []
            more, less = q[1] - p[1], p[1] - q[1]
            return self.D(True, path, a, b, 'another class of numbers' + (', with ' + '/'.join(sorted(more)) if more else '') +
                          (', without ' + '/'.join(sorted(less)) if less else ''))
        return super()._diff(a, b, path)

    def case(self, t, cond, other, same, a, b, path):
        whole = a if t == 1 else b
        for x in conjuncts(cond if other is whole.args[1] else not_(cond)):
            if x.op == 'call' and x.args[0] == 'veq' and {v for _, v in x.args[1]} == {other, same}:
                return []           # equal there
        if t == 1 and b.op == 'error':
            for x in conjuncts(cond if other is whole.args[1] else not_(cond)):
                if x.op == 'eq' and ZERO in x.args and any(y.op == 'call' and y.args[0] == 'size' or y.op == 'size' for y in x.args):
                    return self.D(False, path, a, b, 'stops where there is nothing to look through')
        if t == 1:
            zero = {y for c, v, _ in self.assume if v and c.op == 'eq' and ZERO in c.args for y in c.args if y is not ZERO}
            used = cond if other is whole.args[1] else not_(cond)
            if any(x.op == 'exists' and x.args[0] in zero for x in conjuncts(used)):
                return []           # nothing among no elements
            left = used.args[0] if used.op == 'not' else None
            if left is not None and 'loop' in path and left.op == 'lt0' and self.last(left.args[0]):
                return self.D(False, path, a, b, 'also at the last turn of a loop')
            for x in conjuncts(cond if other is whole.args[1] else not_(cond)):
                n = [y for y in x.args if y is not ZERO] if x.op == 'eq' and ZERO in x.args else []
                if n and other.op in ('uninit', 'zeros', 'ones', 'const', 'list') and C.size(other) in (n[0], ZERO):
                    return self.D(False, path, a, b, 'a special case of no elements')
        if t == 1 and other.op == 'fld' and same.op != 'fld' and any(x.op == 'call' and x.args[0] == 'veq' for x in subterms(cond)):
            return self.D(False, path, a, b, 'computed afresh where the specification keeps what it has')
        return super().case(t, cond, other, same, a, b, path)

    def last(self, d):
        """d is what is left of the turns of a loop after this one"""
        return any(k.op == 'bv' and sub(d, sub(sub(n, ONE), k)) is ZERO for n in self.turns(d) for k in subterms(d))

    def turns(self, d):
        return [x for x in subterms(d) if x.op in ('call', 'size', 'rows', 'cols')]

    def unset(self, a, b, path):
        """elements that the specification sets and the code leaves alone"""
        n = C.size(b)
        if n is ZERO:
            return None
        if b.op == 'uninit':
            return self.D(True, path, a, b, 'the elements are never set')
        if b.op == 'scat' and b.args[1].op == 'wfor' and b.args[1].args[1].args[1].op in ('wput', 'wmod') and \
                b.args[0].op not in ('upd', 'scat', 'ite'):
            m = sub(n, b.args[1].args[0])
            k = b.args[1].args[0]
            short = k.op == 'call' and k.args[0] == 'min' and any(v is n for _, v in k.args[1])
            if isnum(m) and m.args[0] > 0 or short:
                return self.D(True, path, a, b, 'not every element is set')
            if b.args[1].args[0] is ZERO:
                return self.D(True, path, a, b, 'the elements are never set')
        return None

    def special(self, a, b, path):
        BOX = {'list', 'zeros', 'ones', 'const', 'uninit', 'map', 'cat', 'nrepl', 'append', 'map2', 'scat', 'upd', 'filter'}
        elementwise = a.op in ('poly', 'power') or a.op == 'call' and a.args[0] in ('pdf', 'cdf', 'exp', 'log', 'abs', 'max', 'min', 'power')
        if elementwise and b.op in ('uninit', 'scat') and not any(x.op in ('uninit', 'undef') for x in subterms(a)):
            r = self.unset(a, b, path)
            if r is not None:
                return r
        if (elementwise and b.op in ('const', 'map') or a.op in ('const', 'map') and (b.op in ('poly', 'power') or b.op == 'call')) \
                and not C.isscalar(a) and not C.isscalar(b):
            n = C.size(a)
            if n is C.size(b):
                z = fresh('z')
                T_.INTS.add(z)
                C.SCALARS.add(z)
                x, y = C.coef(a, (z,)), C.coef(b, (z,))
                if not any(t.op == 'coef' and t.args[0] in (a, b) for t in (x, y)):
                    x, y = lam([z], x), lam([z], y)
                    self.frames.append(n)
                    try:
                        return self.diff(x.args[1], y.args[1], path + ('each',))
                    finally:
                        self.frames.pop()
        if a.op in BOX and b.op in BOX:
            FILL = {'zeros': ZERO, 'ones': ONE}
            if a.op in ('zeros', 'ones', 'const') and b.op in ('zeros', 'ones', 'const') and a.args[0] == b.args[0]:
                return self.diff(FILL.get(a.op) or a.args[1], FILL.get(b.op) or b.args[1], path + ('each',))
            try:
                d = sub(C.size(a), C.size(b))
            except Exception:
                d = ZERO
            if isnum(d) and d.args[0] != 0:
                return self.D(True, path, a, b, 'another number of elements')
            if b.op == 'uninit' and a.op != 'uninit' and not any(x.op == 'uninit' for x in subterms(a)) and \
                    not (C.size(b) is ZERO) and (a.op in ('map', 'map2', 'zeros', 'ones', 'const')):
                return self.D(True, path, a, b, 'the elements are never set')
            if b.op == 'scat' and b.args[0].op == 'uninit' and a.op == 'map' and b.args[1].op == 'wfor':
                n, l = b.args[1].args
                d = sub(C.size(b), n)
                if isnum(d) and d.args[0] > 0 and l.args[1].op == 'wput':
                    return self.D(True, path, a, b, 'not every element is set')
        return None
