"""Comparison of two versions of the C++ sources, function by function, with inlining where both a function and its callers changed."""
import collections
import gzip
import json
import os
import sys
import cparse
import cengine as E
import terms as T_
from terms import *   # noqa
import compare
from compare import Comparer, Diff
import ccompare
import rcheck

sys.setrecursionlimit(50000)
ANALYSIS_ERRORS = (E.Unmodelled, RecursionError, KeyError, AttributeError, IndexError, AssertionError, TypeError, ValueError, ZeroDivisionError,
                   OverflowError)


def reference(root):
    """the parsed reference, committed compressed next to its sources; parsed again when it does not belong to them"""
    src = os.path.join(root, 'ref', 'cpp')
    d = cparse.digest(src)
    p = os.path.join(root, 'ref', 'cpp.json.gz')
    if os.path.exists(p):
        with gzip.open(p, 'rt') as f:
            j = json.load(f)
        if j['digest'] == d:
            return j['parsed']
    return cparse.parse(src)


def write_reference(root):
    src = os.path.join(root, 'ref', 'cpp')
    p = os.path.join(root, 'ref', 'cpp.json.gz')
    j = dict(digest=cparse.digest(src), parsed=cparse.parse(src))
    with open(p, 'wb') as raw, gzip.GzipFile(fileobj=raw, mode='wb', mtime=0) as f:
        f.write(json.dumps(j, sort_keys=True).encode())


def has_code(f):
    return bool(f.get('body') or f.get('inits')) and not f['file'].endswith('RcppExports.cpp')


def field_renames(ref, code):
    """(class, new name) -> old name for members that only changed their name"""
    out = {}
    for n, c in code['classes'].items():
        r = ref['classes'].get(n)
        if not r:
            continue
        rn = {x['n']: x for x in r['fields']}
        cn = {x['n']: x for x in c['fields']}
        gone = [x for x in r['fields'] if x['n'] not in cn]
        new = [x for x in c['fields'] if x['n'] not in rn]
        for x in new:
            same = [y for y in gone if y['t'] == x['t']]
            if len(same) == 1 and len([z for z in new if z['t'] == x['t']]) == 1:
                out[(n, x['n'])] = same[0]['n']
            elif len(gone) == len(new):
                ig, ic = [y['n'] for y in r['fields']], [y['n'] for y in c['fields']]
                at = [y for y in same if ig.index(y['n']) == ic.index(x['n'])]
                if len(at) == 1 and len(ig) == len(ic):
                    out[(n, x['n'])] = at[0]['n']
    return out


def apply_renames(code, ren):
    if not ren:
        return code
    names = collections.defaultdict(dict)
    for (c, n), o in ren.items():
        names[n][c] = o
    code = json.loads(json.dumps(code))

    def rec(x):
        if isinstance(x, dict):
            if x.get('k') == 'mem' and x.get('n') in names and x.get('c') in names[x['n']]:
                x['n'] = names[x['n']][x['c']]
            for v in x.values():
                rec(v)
        elif isinstance(x, list):
            for v in x:
                rec(v)
    for f in code['functions'].values():
        rec(f.get('body'))
        for i in f.get('inits') or ():
            if i.get('m') in names and f.get('c') in names[i['m']]:
                i['m'] = names[i['m']][f['c']]
            rec(i.get('e'))
    for n, c in code['classes'].items():
        for x in c['fields']:
            if (n, x['n']) in ren:
                x['n'] = ren[(n, x['n'])]
    return code


class CComparison(rcheck.RComparison):
    def __init__(self, refp, codep, observables=()):
        self.fren = field_renames(refp, codep)
        codep = apply_renames(codep, self.fren)
        self.ref = E.Prog(refp)
        self.refclasses = refp['classes']
        ren = self.function_renames(self.ref, E.Prog(codep))
        self.code = E.Prog(codep, ren)
        self.renamed = ren
        R = {k for k, f in self.ref.funs.items() if has_code(f)}
        C = {k for k, f in self.code.funs.items() if has_code(f)}
        self.common = sorted(R & C)
        self.new, self.gone = C - R, R - C
        self.observables = {k for k in self.common if self.observable(k, observables)}
        self.trivials = {k for p in (self.ref, self.code) for k in p.funs if p.trivial(k)}
        self.errors, self.cache, self.engines = {}, {}, {}
        self.newfields = {n: {x['n'] for x in c['fields']} - {x['n'] for x in refp['classes'].get(n, {'fields': ()})['fields']}
                          for n, c in codep['classes'].items()}

    def function_renames(self, ref, code):
        """a function whose parameter types were respelled keeps its key"""
        gone = [k for k in ref.funs if k not in code.funs and has_code(ref.funs[k])]
        new = [k for k in code.funs if k not in ref.funs and has_code(code.funs[k])]
        ren = {}
        for k in new:
            f = code.funs[k]
            m = [g for g in gone if ref.funs[g]['q'] == f['q'] and len(ref.funs[g]['params']) == len(f['params'])]
            back = [g for g in new if code.funs[g]['q'] == f['q'] and len(code.funs[g]['params']) == len(f['params'])]
            if len(m) == 1 and len(back) == 1:
                ren[k] = m[0]
        return ren

    def observable(self, k, obs):
        f = self.ref.funs[k]
        return k in obs or f['q'] in obs or bool(f.get('virt')) or k in self.ref.over or f.get('c', '') in obs and f.get('access') == 'public'

    def engine(self, which, inline):
        k = (which, frozenset(inline))
        if k not in self.engines:
            p = self.ref if which == 'ref' else self.code
            extra = self.gone if which == 'ref' else self.new
            self.engines[k] = E.Engine(p, inline=set(inline) | extra, record=(which == 'code'), trivial=self.trivials)
        return self.engines[k]

    def summ(self, which, f, inline):
        k = (which, f, frozenset(inline))
        if k in self.cache:
            return self.cache[k]
        try:
            out = self.engine(which, inline).summary(f)
        except ANALYSIS_ERRORS as ex:
            self.errors[k] = '%s: %s' % (type(ex).__name__, str(ex)[:300])
            out = mk('unk', s_('%s could not be analysed: %s' % (f, self.errors[k])))
        finally:
            T_.CUR[0] = None
        self.cache[k] = (None, out)
        return None, out

    def sigterm(self, f, sig, which):
        return None

    def compare(self, ro, co, f):
        E.set_regs(*[e.regs.get(f) for e in self.engines.values()])
        c = ccompare.CComparer(ro, co)
        c.newfields = self.newfields
        c.classes = self.refclasses
        c.cls = self.ref.funs[f].get('c')
        return c.run(ro, co)

    def run(self):
        v = super().run()
        # a field that a constructor leaves empty is not filled later when nothing else of the class has changed
        for f, ds in v.items():
            c = self.ref.funs[f].get('c')
            if not self.ref.funs[f].get('ctor') or not ds or any(d.decisive for d in ds):
                continue
            if any(self.code.funs[g].get('c') == c for g in self.new) or \
                    any(self.ref.funs[g].get('c') == c and not self.constructing(g) for g in self.changed):
                continue
            for d in ds:
                if d.b is not None and d.b.op == 'uninit' and d.a.op != 'uninit' and d.path[:2] == ('effects', 'set') and all(x[:1] == '$' for x in d.path[2:]):
                    d.decisive = True
                    d.why = 'the constructor does not set the field'
        return v

    def constructing(self, g, seen=()):
        """only used when an object is constructed"""
        if self.ref.funs[g].get('ctor'):
            return True
        callers = [h for h in self.common if g in self.ref.calls[h] and h != g and h not in seen]
        return bool(callers) and all(self.constructing(h, seen + (g,)) for h in callers)

    def where(self, f):
        return self.code.funs[f]['file'], self.code.funs[f]['line']


def compare_trees(repo, root, observables):
    refp = reference(root)
    codep = cparse.parse(repo)
    c = CComparison(refp, codep, observables)
    return c, codep
