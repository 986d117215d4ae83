"""Case analysis for the comparison: conditions that both terms test, and what one condition says about another."""
from terms import *   # noqa
import terms as T_

EXCLUSIVE = [
    {'is.name', 'is.call', 'is.pairlist'}, {'is.name', 'is.call', 'is.atomic'},
    {'is.function', 'is.character', 'is.list', 'is.name', 'is.call'}, {'is.numeric', 'is.character', 'is.list', 'is.function', 'is.factor'},
]


def atoms_in(c, acc):
    """boolean atoms of a condition"""
    if c.op == 'not':
        atoms_in(c.args[0], acc)
    elif c.op == 'or':
        for x in c.args[0]:
            atoms_in(x, acc)
    elif c.op == 'ite':
        for x in c.args:
            atoms_in(x, acc)
    elif c.op != 'lgl':
        acc.add(c)


_cond_cache = {}


def cond_atoms_deep(t):
    """atoms of the conditions anywhere in t that no binder captures: frozenset"""
    stack = [(t, False)]
    while stack:
        x, ready = stack.pop()
        if x in _cond_cache:
            continue
        ch = children(x)
        if not ready:
            stack.append((x, True))
            stack.extend((c, False) for c in ch if c not in _cond_cache)
            continue
        acc = set()
        if x.op == 'ite':
            atoms_in(x.args[0], acc)
        elif x.op == 'eff':
            atoms_in(x.args[1], acc)
        elif x.op in ('or', 'not'):
            if not x.maxbv:
                atoms_in(x, acc)
        for c in ch:
            acc |= _cond_cache[c]
        _cond_cache[x] = frozenset(y for y in acc if y.maxbv == 0) if acc else frozenset()
    return _cond_cache[t]


def linear(atom):
    """(form, function value -> truth, breakpoints, integer, nonnegative): a condition on one linear form"""
    if atom.op == 'empty':
        return call('length', atom.args[0]), (lambda v: v == 0), [0], True, True
    if atom.op == 'eq':
        a, b = atom.args
        if a.op != 'num':
            return None
        d = sub(b, a)
        f = lambda v: v == 0
    elif atom.op == 'lt0':
        d = atom.args[0]
        f = lambda v: v > 0
    else:
        return None
    td = dict(terms_of(d))
    c = td.pop((), Fraction(0))
    if not td:
        return None
    rest = from_terms(td)
    lead = min(terms_of(rest).items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))[1]
    form = mul(num(1 / lead), rest)
    nonneg = sizelike(form)
    return form, (lambda v, f=f, c=c, l=lead: f(l * v + c)), [-c / lead], intlike(form), nonneg


_lin_cache = {}


def lin(atom):
    if atom not in _lin_cache:
        _lin_cache[atom] = linear(atom)
    return _lin_cache[atom]


def implied(a, val, b, counts=False):
    """truth of b when a is val, or None"""
    if a is b:
        return val
    if val and a.op == 'eq' and b.op == 'eq' and a.args[1] is b.args[1] and a.args[0].op == b.args[0].op in ('str', 'qsym'):
        return False
    if a.op == 'call' and b.op == 'call' and val and a.args[1] == b.args[1]:
        for g in EXCLUSIVE:
            if a.args[0] in g and b.args[0] in g:
                return False
    la, lb = lin(a), lin(b)
    if la and lb and la[0] is lb[0]:
        integer, nonneg = la[3] and lb[3], la[4] or lb[4] or counts
        pts = set()
        for p in la[2] + lb[2]:
            if integer:
                k = p.numerator // p.denominator if isinstance(p, Fraction) else int(p)
                pts |= {k - 1, k, k + 1, k + 2}
            else:
                pts |= {p - 1, p, p + 1}
        ps = sorted(pts)
        if not integer:
            pts |= {(x + y) / Fraction(2) for x, y in zip(ps, ps[1:])}
        ok = {bool(lb[1](v)) for v in pts if bool(la[1](v)) == val and not (nonneg and v < 0)}
        if len(ok) == 1:
            return ok.pop()
    return None


def restrict(t, atom, val):
    """t where the atom, and all that follows from it, is known"""
    known = {}
    for x in cond_atoms_deep(t):
        r = implied(atom, val, x)
        if r is not None:
            known[x] = TRUE if r else FALSE
    known[atom] = TRUE if val else FALSE
    return subst(t, known)


def pick(a, b):
    """a condition both sides test, which itself depends on no other; None if there is none"""
    ca, cb = cond_atoms_deep(a), cond_atoms_deep(b)
    common = ca & cb
    if not common:
        return None
    best = [x for x in common if not any(y in common for y in cond_atoms_deep(x))]
    if not best:
        best = list(common)
    return min(best, key=lambda x: x.id)
