"""Comparison of two R packages, function by function, with inlining where both a function and its callers changed."""
import os
import sys
import rengine as R
import terms as T_
from terms import *   # noqa
from compare import Comparer, Diff

sys.setrecursionlimit(50000)


# what users call
EXPORTED = {'glmm', 'find_lfun_glmm', 'find_modfr_glmm', 'set_lme4_control', 'print.glmmFit', 'print.summaryGlmmFit',
            'summary.glmmFit', 'vcov.glmmFit', 'coef.glmmFit'}


class RComparison:
    exported = EXPORTED

    def __init__(self, ref, code, observables=()):
        self.ref, self.code = ref, code
        self.observables = set(observables)
        self.common = [f for f in ref.funs if f in code.funs]
        self.new = {f for f in code.funs if f not in ref.funs}
        self.gone = {f for f in ref.funs if f not in code.funs}
        self.canon = {}
        for f in self.common:
            rp = [p for p, d in ref.funs[f].params]
            cp = [p for p, d in code.funs[f].params]
            if rp != cp and len(rp) == len(cp):
                self.canon[f] = {p: (p if p in rp else r) for p, r in zip(cp, rp)}
        self.mayfail = ref.mayfail
        self.effectful = ref.effectful
        self.errors = {}
        self.cache = {}

    def summ(self, which, f, inline):
        """outcome term of f in one of the packages"""
        k = (which, f, frozenset(inline))
        if k in self.cache:
            return self.cache[k]
        pkg = self.ref if which == 'ref' else self.code
        extra = self.gone if which == 'ref' else self.new
        e = R.Engine(pkg, inline=set(inline) | extra, record=(which == 'code'),
                     canon=self.canon if which == 'code' else {}, mayfail=self.mayfail, effectful=self.effectful)
        try:
            sig, out = e.summary(f)
        except (R.Unmodelled, RecursionError, KeyError, AttributeError, IndexError, AssertionError, TypeError, ValueError) as ex:
            self.errors[k] = '%s: %s' % (type(ex).__name__, ex)
            sig, out = None, mk('unk', s_('%s of %s could not be analysed' % (f, which)), fresh('u'))
        finally:
            T_.CUR[0] = None
        self.cache[k] = (sig, out)
        return sig, out

    def sigterm(self, f, sig, which):
        if sig is None:
            return None
        c = self.canon.get(f, {}) if which == 'code' else {}
        return tuple((c.get(p, p), d) for p, d in sig)

    def compare(self, ro, co, f):
        return Comparer(ro, co).run(ro, co)

    def defaults(self, f):
        """arguments of exported functions that have another constant as their default"""
        if f not in self.exported or f not in self.sigdiff:
            return []
        rs, cs = self.sigdiff[f]
        rs, cs = dict(self.sigterm(f, rs, 'ref') or ()), dict(self.sigterm(f, cs, 'code') or ())
        const = ('num', 'str', 'lgl', 'null')
        return [Diff(True, ('arguments', p), rs[p], cs[p], 'another default', self.where(f)) for p in rs if p in cs and
                isinstance(rs[p], T) and isinstance(cs[p], T) and rs[p] is not cs[p] and rs[p].op in const and cs[p].op in const]

    def deeper(self, f, ro, co, inl, found):
        """one side calls a function that the other does not: compare with that inlined in both"""
        for k in range(3):
            p, q = ({x.args[0] for x in subterms(t) if x.op in ('pcall', 'pstate')} for t in (ro, co))
            p = p ^ q
            p = {g for g in p if g in self.common} - {f} - set(inl)
            if not p:
                return found
            inl = set(inl) | p
            ro, co = self.summ('ref', f, inl)[1], self.summ('code', f, inl)[1]
            if ro.op == 'unk' or co.op == 'unk':
                return found
            if ro is co:
                return []
            found = self.compare(ro, co, f)
            if any(d.decisive for d in found):
                return found
        return found

    def where(self, f):
        return self.code.funs[f].file, self.code.funs[f].line

    def run(self):
        """per function: 'same', or a list of differences"""
        for f in self.common:      # reference first, so that origins are the code's own
            self.summ('ref', f, ())
        changed = {}
        self.sigdiff = {}
        for f in self.common:
            rs, ro = self.summ('ref', f, ())
            cs, co = self.summ('code', f, ())
            if self.sigterm(f, rs, 'ref') != self.sigterm(f, cs, 'code'):
                self.sigdiff[f] = (rs, cs)
            if ro is not co or f in self.sigdiff:
                changed[f] = True
        self.changed = set(changed)
        verdicts = {f: [] for f in self.common}
        self.how = {f: 'same value graph' for f in self.common}
        if not self.changed:
            return verdicts
        # which changed functions call which
        callers = {f: {g for g in self.changed if g != f and
                       (f in self.ref.calls[g] or f in self.code.calls[g] or
                        any(f in self.code.calls.get(h, ()) for h in self.code.calls[g] & self.new))}
                   for f in self.changed}
        sigonly = {f for f in self.changed if f in self.sigdiff}
        for f in sorted(self.changed):
            cal = callers[f]
            obs = f in self.observables
            rs, ro = self.summ('ref', f, ())
            cs, co = self.summ('code', f, ())
            own = self.compare(ro, co, f) if ro is not co else []
            if f in self.sigdiff and ro is co:
                own = [Diff(bool(obs), ('arguments',), None, None, 'the argument list differs',
                            self.where(f))]
            own = self.defaults(f) + own
            if own and not any(d.decisive for d in own) and ro is not co:
                own = self.deeper(f, ro, co, set(), own)
            if not obs and cal:
                # judged where it is used together with its changed callers
                self.how[f] = 'judged in ' + ', '.join(sorted(cal))
                verdicts[f] = []
                continue
            # inline everything that changed below it
            inl = self.below(f)
            if inl:
                rs, ro2 = self.summ('ref', f, inl)
                cs, co2 = self.summ('code', f, inl)
                if ro2 is co2:
                    if f in self.sigdiff and obs:
                        verdicts[f] = own if ro is co else self.defaults(f)
                    self.how[f] = 'same value graph with %s inlined' % ', '.join(sorted(inl))
                    continue
                d2 = self.defaults(f) + self.compare(ro2, co2, f)
                if d2 and not any(d.decisive for d in d2):
                    d2 = self.deeper(f, ro2, co2, inl, d2)
                if any(x.decisive for x in d2) or not d2:
                    verdicts[f] = d2
                else:
                    verdicts[f] = d2
                self.how[f] = 'compared with %s inlined' % ', '.join(sorted(inl))
                self.related = getattr(self, 'related', {})
                self.related[f] = set(inl)
                continue
            verdicts[f] = own
            self.how[f] = 'compared'
        # a changed helper of a changed function, that is also used by unchanged functions
        for f in sorted(self.changed):
            if verdicts[f] or not self.how[f].startswith('judged'):
                continue
            others = [g for g in self.common if g not in self.changed and
                      (f in self.ref.calls[g] or f in self.code.calls[g])]
            top = self.roots(f)
            ok = all(not verdicts[g] for g in top)
            if others or not ok:
                rs, ro = self.summ('ref', f, ())
                cs, co = self.summ('code', f, ())
                d = self.compare(ro, co, f) if ro is not co else []
                if f in self.sigdiff and not d:
                    continue
                tops_decisive = any(x.decisive for g in top for x in verdicts[g])
                if others or tops_decisive:
                    verdicts[f] = d
                    self.how[f] += '; compared on its own'
        return verdicts

    def roots(self, f):
        seen, todo, out = set(), [f], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            cal = [g for g in self.changed if g != x and (x in self.ref.calls[g] or x in self.code.calls[g])]
            if not cal or x in self.observables:
                out.add(x)
            todo += cal
        out.discard(f)
        return out

    def below(self, f):
        """changed functions reachable from f through changed (or new) functions"""
        seen, todo = set(), [f]
        while todo:
            x = todo.pop()
            for pkg in (self.ref, self.code):
                for g in pkg.calls.get(x, ()):
                    if (g in self.changed or (g in pkg.funs and (g in self.new or g in self.gone))) and g not in seen and g != f:
                        seen.add(g)
                        todo.append(g)
        return {g for g in seen if g in self.changed}
