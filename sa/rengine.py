"""Value graphs for R functions.

Every function of the package is turned into a summary: the value it returns
(as a normalised term over its arguments), the errors it raises (an ERROR leaf
below its condition), and the ordered list of its other effects.  Nothing is
run: branches are merged with gamma terms, loops become map/sum/fold terms,
and calls of functions outside the package are uninterpreted.
"""
import json
import os
import subprocess
import sys
from fractions import Fraction
import terms as T_
from terms import *   # noqa

HERE = os.path.dirname(os.path.abspath(__file__))
ERR = mk('error')
UNBOUND = mk('unbound')
FORMALS = None
PKGS = ['base', 'stats', 'utils', 'methods', 'Matrix', 'lme4', 'numDeriv']


def formals_of(pkg, f):
    global FORMALS
    if FORMALS is None:
        FORMALS = json.load(open(os.path.join(HERE, 'formals.json')))
    if pkg:
        r = FORMALS.get(pkg + '::' + f)
        if r is not None:
            return r
    for p in PKGS:
        r = FORMALS.get(p + '::' + f)
        if r is not None:
            return r
    return None


# argument lists of internal generics that args() does not show well
EXTRA_FORMALS = {
    'is.element': [['el', None], ['table', None]],
    'length': [['x', None]], 'rep': [['x', None], ['times', None], ['each', None], ['length.out', None]],
    'seq_len': [['length.out', None]], 'seq_along': [['along.with', None]],
    'tapply': [['X', None], ['INDEX', None], ['FUN', None], ['...', None], ['default', None], ['simplify', True]],
    'round': [['x', None], ['digits', 0]],
    'mapply': [['FUN', None], ['...', None], ['MoreArgs', '<NULL>'], ['SIMPLIFY', True], ['USE.NAMES', True]],
    'setdiff': [['x', None], ['y', None]],
    'unlist': [['x', None], ['recursive', True], ['use.names', True]],
    'matrix': [['data', None], ['nrow', None], ['ncol', None], ['byrow', False], ['dimnames', '<NULL>']],
    'solve': [['a', None], ['b', None], ['...', None]],
    'diag': [['x', None], ['nrow', None], ['ncol', None], ['names', True]],
    'as.numeric': [['x', None], ['...', None]], 'as.double': [['x', None], ['...', None]],
    'log': [['x', None], ['base', None]],
    'update.formula': [['old', None], ['new', None], ['...', None]],
    'attr': [['x', None], ['which', None], ['exact', False]],
    'drop.terms': [['termobj', None], ['dropx', '<NULL>'], ['keep.response', False]],
    'unique': [['x', None], ['incomparables', False], ['...', None]],
    'sort': [['x', None], ['decreasing', False], ['...', None]],
    'as': [['object', None], ['Class', None]],
    'determinant': [['x', None], ['logarithm', True], ['...', None]],
}


def parse(files):
    out = subprocess.run(['Rscript', '--vanilla', os.path.join(HERE, 'rparse.R')] + files,
                         capture_output=True, text=True)
    if out.returncode != 0:
        raise RuntimeError('R sources do not parse: ' + out.stderr[-2000:])
    return json.loads(out.stdout)


def reads_of(body, par):
    out = set()

    def rec(n):
        if n is None:
            return True
        if isinstance(n, list):
            return all(rec(x) for x in n)
        if not isinstance(n, dict):
            return True
        if n.get('k') == 'sym':
            return n.get('n') != par
        if n.get('k') == 'call':
            f, a = n.get('f', {}).get('n'), n.get('a', [])
            if f == '$' and len(a) == 2 and a[0][1].get('k') == 'sym' and a[0][1].get('n') == par and a[1][1].get('k') in ('sym', 'str'):
                out.add(a[1][1].get('n') or a[1][1].get('v'))
                return True
            if f in ('%in%', 'is.element', '==', 'match') and len(a) == 2:
                for x, y in ((a[0][1], a[1][1]), (a[1][1], a[0][1])):
                    if x.get('k') == 'str' and y.get('k') == 'call' and y['f'].get('n') == 'names' and len(y['a']) == 1 and \
                            y['a'][0][1].get('n') == par:
                        out.add(x['v'])
                        return True
            if f in ('[[', 'getElement') and len(a) == 2 and a[0][1].get('k') == 'sym' and a[0][1].get('n') == par and a[1][1].get('k') == 'str':
                out.add(a[1][1]['v'])
                return True
        return all(rec(v) for v in n.values() if isinstance(v, (dict, list)))
    return frozenset(out) if rec(body) else None


class Fun:
    """a function definition of the package"""
    def __init__(self, name, node, file, line):
        self.name, self.node, self.file, self.line = name, node, file, line
        self.params = [(p[0], p[1]) for p in node['p']]


class Package:
    def __init__(self, root, ast=None):
        self.root = root
        d = os.path.join(root, 'R')
        files = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.R'))
        self.files = files
        self.ast = ast if ast is not None else parse(files)
        self.funs = {}
        self.toplevel = []
        for f in files:
            for x in self.ast[f]:
                e = x['e']
                if e['k'] == 'call' and e['f'].get('n') in ('<-', '=', 'assign') and len(e['a']) == 2 \
                        and e['a'][0][1] and e['a'][0][1]['k'] in ('sym', 'str') and e['a'][1][1]['k'] == 'fn':
                    n = e['a'][0][1].get('n') or e['a'][0][1].get('v')
                    self.funs[n] = Fun(n, e['a'][1][1], os.path.basename(f), x['l'])
                else:
                    self.toplevel.append((os.path.basename(f), x['l'], e))
        self.r6 = {}
        for f, l, e in self.toplevel:
            for cls, where, m, fn in r6_members(e):
                n = cls + ('$' if where == 'public' else '@') + m
                self.funs[n] = Fun(n, fn, f, fn.get('l') or l)
                self.r6.setdefault(cls, {})[m] = where
        self.analyse_effects()

    def fields_read(self, name, par):
        """the fields of a parameter that a function looks at, or None when it uses the whole"""
        k = (name, par)
        c = self.__dict__.setdefault('_fields_read', {})
        if k not in c:
            c[k] = reads_of(self.funs[name].node['b'], par)
        return c[k]

    def analyse_effects(self):
        """functions that may raise an error of their own, or have effects (transitively)"""
        direct = {n: called(f.node['b']) for n, f in self.funs.items()}
        fail = {n for n, c in direct.items() if c & {'stop', 'stopifnot', 'match.arg'}}
        eff = {n for n, c in direct.items() if c & EFFECT_NAMES}
        ch = True
        while ch:
            ch = False
            for n, c in direct.items():
                if n not in fail and c & fail:
                    fail.add(n)
                    ch = True
                if n not in eff and c & eff:
                    eff.add(n)
                    ch = True
        self.mayfail, self.effectful, self.calls = fail, eff, direct


def r6_members(e):
    """the methods and active fields of an R6 class definition"""
    if e['k'] != 'call' or e['f'].get('n') not in ('<-', '=') or len(e['a']) != 2 or not e['a'][1][1] or e['a'][1][1]['k'] != 'call':
        return
    c = e['a'][1][1]
    f = c['f']
    if f['k'] == 'call' and f['f'].get('n') in ('::', ':::'):
        f = f['a'][1][1]
    if f.get('n') != 'R6Class':
        return
    cls = None
    for k, v in c['a']:
        if v and v['k'] == 'str' and k in (None, 'classname'):
            cls = v['v']
    for k, v in c['a']:
        if k in ('public', 'active', 'private') and v and v['k'] == 'call':
            for m, fn in v['a']:
                if m and fn and fn['k'] == 'fn':
                    yield cls, k, m, fn


EFFECT_NAMES = {'warning', 'cat', 'print', 'unlink', 'message', 'set.seed', 'assign', 'options'}


def called(node, acc=None):
    """names called, or passed as values, in a syntax tree"""
    return callees(node, acc)


class Env:
    __slots__ = ('vars', 'parent', 'top')

    def __init__(self, parent=None):
        self.vars = {}
        self.parent = parent


class Clo:
    def __init__(self, node, env, file):
        self.node, self.env, self.file = node, env, file
        self.params = [(p[0], p[1]) for p in node['p']]


CLOS = {}


def callees(node, acc=None):
    """names used as functions or as values anywhere in a syntax tree"""
    if acc is None:
        acc = set()
    if isinstance(node, list):
        for x in node:
            callees(x, acc)
    elif isinstance(node, dict):
        if node.get('k') == 'sym':
            acc.add(node['n'])
        for v in node.values():
            callees(v, acc)
    return acc


def assigned(node, acc=None, sup=None):
    """variables assigned in this syntax tree (not in nested functions)"""
    if acc is None:
        acc = []
    if isinstance(node, list):
        for x in node:
            assigned(x, acc)
    elif isinstance(node, dict):
        if node.get('k') == 'fn':
            return acc
        if node.get('k') == 'call' and node['f'].get('k') == 'sym':
            n = node['f']['n']
            if n in ('<-', '=', '<<-') and node['a']:
                t = node['a'][0][1]
                while t and t['k'] == 'call':
                    t = t['a'][0][1]
                if t and t['k'] in ('sym', 'str'):
                    v = t.get('n') or t.get('v')
                    if v not in acc:
                        acc.append(v)
            if n == 'for':
                v = node['a'][0][1]['n']
                if v not in acc:
                    acc.append(v)
        for v in node.values():
            assigned(v, acc)
    return acc


def superassigned(node, acc=None):
    if acc is None:
        acc = set()
    if isinstance(node, list):
        for x in node:
            superassigned(x, acc)
    elif isinstance(node, dict):
        if node.get('k') == 'call' and node['f'].get('n') == '<<-':
            t = node['a'][0][1]
            while t['k'] == 'call':
                t = t['a'][0][1]
            acc.add(t.get('n') or t.get('v'))
        for v in node.values():
            superassigned(v, acc)
    return acc


class Frame:
    def __init__(self):
        self.exits = []       # (cond, value), in order
        self.dead = False
        self.loopctl = []     # (cond, 'break'/'next')


class Unmodelled(Exception):
    pass


NUMERIC_CALLS = {'sum', 'sqrt', 'exp', 'log', 'abs', 'length', 'nrow', 'ncol', 'NROW', 'NCOL', 'colSums', 'rowSums',
                 'dnorm', 'pnorm', 'rnorm', 'max', 'min', 'mean', 'cumprod', 'cumsum', 'round', 'floor', 'diag',
                 'as.numeric', 'as.integer', 'colon', 'seqlen', 'which', 'nchar', 'count1', 'det', 'logdet'}


def isnumeric(t):
    if t.op in ('num', 'poly', 'mm', 'sum', 'inv'):
        return True
    if t.op == 'call':
        return t.args[0] in NUMERIC_CALLS
    if t.op == 'ite':
        return isnumeric(t.args[1]) and isnumeric(t.args[2])
    return False


def colon(a, b):
    if isnum(a) and isnum(b) and a is b:
        return a
    return call('colon', a, b)


def count1(n):
    """number of elements of 1:n, as used where n is at least 1"""
    if isnum(n) and n.args[0] >= 1:
        return n
    return call('count1', n)


class Engine:
    def __init__(self, pkg, inline=(), record=True, canon=None, mayfail=None, effectful=None):
        self.pkg = pkg
        self.canon = canon or {}
        self.mayfail = pkg.mayfail if mayfail is None else mayfail
        self.effectful = pkg.effectful if effectful is None else effectful
        self.inline = set(inline)        # names of package functions to inline
        self.depth = 0
        self.effects = []
        self.guard = TRUE
        self.facts = TRUE
        self.frames = []
        self.envs = []
        self.epoch = mk('epoch0')
        self.stack = []
        self.file = None
        self.record = record
        self.unmodelled = []
        self.cells = []
        self.closure_depth = 0
        self.names_of = {}
        self.loopdepth = 0

    # ----------------------------------------------------------- summaries
    def summary(self, fname):
        """(parameter names, default terms, outcome) of a package function"""
        f = self.pkg.funs[fname]
        self.file = f.file
        env = self.new_env(None)
        sig = []
        psyms = {}
        canon = self.canon.get(fname, {})
        for p, d in f.params:
            v = mk('arg', canon.get(p, p))
            psyms[p] = v
            env.vars[p] = v
        if any(p == '...' for p, d in f.params):
            env.vars['...'] = mk('dots', (('...', mk('arg', '...')),))
        for i, (p, d) in enumerate(f.params):
            if d is not None:
                dv = self.in_scratch(lambda: self.eval(d, env))
                sig.append((p, dv))
            else:
                sig.append((p, MISSING))
        self.stack.append(fname)
        out = self.run_body(f.node['b'], env, f.file)
        self.stack.pop()
        return sig, out

    def in_scratch(self, fn):
        fr = Frame()
        self.frames.append(fr)
        se, sg, sk = self.effects, self.guard, self.facts
        self.effects = []
        v = fn()
        self.effects, self.guard, self.facts = se, sg, sk
        self.frames.pop()
        return v

    def run_body(self, body, env, file):
        """outcome term: value and effects of a function body, in a frame of its own"""
        fr = Frame()
        self.frames.append(fr)
        se, sg, sf, sep, sk = self.effects, self.guard, self.file, self.epoch, self.facts
        self.effects, self.guard, self.file, self.facts = [], TRUE, file, TRUE
        v = self.eval(body, env)
        v = self.reify(v)
        out = self.fold(fr, v)
        eff = self.effects
        self.effects, self.guard, self.file, self.epoch, self.facts = se, sg, sf, sep, sk
        self.frames.pop()
        return mk('outcome', out, tuple(eff))

    def fold(self, fr, v):
        out = ERR if fr.dead and not fr.exits else v
        if fr.dead:
            # the last exit is unconditional
            out = fr.exits[-1][1]
            rest = fr.exits[:-1]
        else:
            rest = fr.exits
        for c, x in reversed(rest):
            out = ite(c, x, out)
        return out

    def new_env(self, parent):
        e = Env(parent)
        self.envs.append(e)
        return e

    # ------------------------------------------------------------ branching
    def snapshot(self):
        return [(e, dict(e.vars)) for e in self.envs]

    def restore(self, snap):
        for e, d in snap:
            e.vars = dict(d)

    def branch(self, c, fa, fb):
        c = assume(assume(c, self.guard, True), self.facts, True)
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb()
        fr = self.frames[-1]
        snap = self.snapshot()
        g0, ep0, f0 = self.guard, self.epoch, self.facts
        base_exits = fr.exits
        base_ctl = fr.loopctl

        def run(fn, cond):
            fr.exits, fr.dead, fr.loopctl = [], False, []
            self.guard = and_(g0, cond)
            self.facts = f0
            self.epoch = ep0
            v = fn()
            r = (v, fr.exits, fr.dead, {id(e): e.vars for e in self.envs}, fr.loopctl, self.epoch)
            return r
        nenv = len(self.envs)
        va, ea, da, envA, la, epA = run(fa, c)
        self.restore(snap)
        vb, eb, db, envB, lb, epB = run(fb, not_(c))
        fr.exits = base_exits + [(and_(c, x), v) for x, v in ea] + [(and_(not_(c), x), v) for x, v in eb]
        fr.loopctl = base_ctl + [(and_(c, x), v) for x, v in la] + [(and_(not_(c), x), v) for x, v in lb]
        fr.dead = False
        self.guard = g0
        self.facts = f0
        if da and db:
            fr.dead = True
            # make the last one unconditional: fold() needs it
            c2, v2 = fr.exits[-1]
            tot = self.fold_list(fr.exits)
            fr.exits = base_exits + [(TRUE, tot)] if not base_exits else base_exits + \
                [(TRUE, self.fold_list(fr.exits[len(base_exits):]))]
            return UNBOUND
        for e, d in snap:
            A, B = envA.get(id(e), {}), envB.get(id(e), {})
            if da:
                e.vars = dict(B)
            elif db:
                e.vars = dict(A)
            else:
                m = {}
                for k in list(A) + [k for k in B if k not in A]:
                    x, y = A.get(k, UNBOUND), B.get(k, UNBOUND)
                    if x is y:
                        m[k] = x
                    else:
                        m[k] = ite(c, self.reify(x), self.reify(y))
                e.vars = m
        if da:
            if all(only_err(v) for x, v in ea):
                self.facts = and_(f0, not_(c))
            else:
                self.guard = and_(g0, not_(c))
            self.epoch = epB
            return vb
        if db:
            if all(only_err(v) for x, v in eb):
                self.facts = and_(f0, c)
            else:
                self.guard = and_(g0, c)
            self.epoch = epA
            return va
        self.epoch = epA if epA is epB else mk('ite', c, epA, epB)
        # exits inside one branch: what follows runs only without them
        for x, v in ea + eb:
            pass
        if va is vb:
            return va
        if va.op == 'clo' or vb.op == 'clo':
            va, vb = self.reify(va), self.reify(vb)
        return ite(c, va, vb)

    def fold_list(self, exits):
        out = exits[-1][1]
        for c, x in reversed(exits[:-1]):
            out = ite(c, x, out)
        return out

    def exit_(self, v, cond=TRUE):
        fr = self.frames[-1]
        if fr.dead:
            return
        if cond is FALSE:
            return
        fr.exits.append((cond, v))
        if cond is TRUE:
            fr.dead = True
        elif v is ERR:
            self.facts = and_(self.facts, not_(cond))
        else:
            self.guard = and_(self.guard, not_(cond))

    def effect(self, kind, *args):
        if self.frames and self.frames[-1].dead:
            return
        self.effects.append(mk('eff', kind, self.guard, *args))

    # ------------------------------------------------------------- closures
    def closure(self, node, env):
        t = mk('clo', fresh('clo').args[1])
        CLOS[t] = Clo(node, env, self.file)
        return t

    def reify(self, v):
        """a closure as a term (a lambda over its outcome)"""
        if v.op != 'clo':
            if v.op in ('rec', 'list', 'setf', 'ite', 'call') and any(x.op == 'clo' for x in subterms(v)):
                m = {x: self.reify(x) for x in subterms(v) if x.op == 'clo'}
                return subst(v, m)
            return v
        cl = CLOS[v]
        if v in self.stack:
            return mk('selfclo')
        if len(self.stack) > 30:
            raise Unmodelled('closure nesting')
        self.stack.append(v)
        snap = self.snapshot()
        env = self.new_env(cl.env)
        ps = []
        # variables assigned with <<- are cells of state
        sup = superassigned(cl.node['b'])
        for n in sup:
            e = self.lookup_env(cl.env, n)
            if e is not None:
                e.vars[n] = mk('cell', n)
        self.closure_depth += 1
        sig = []
        for p, d in cl.params:
            x = fresh('p')
            ps.append(x)
            env.vars[p] = x
        for p, d in cl.params:
            sig.append(MISSING if d is None else self.in_scratch(lambda: self.eval(d, env)))
        out = self.run_body(cl.node['b'], env, cl.file)
        self.closure_depth -= 1
        self.restore(snap)
        self.stack.pop()
        body = mk('fnbody', out, tuple(sig))
        if len(ps) == 0:
            return mk('fn0', body)
        return mk('fn', lam(ps, body))

    def apply_closure(self, t, args, node):
        """inline a call; args: list of (name or None, term)"""
        cl = CLOS[t]
        return self.inline_call(cl.params, cl.node['b'], cl.env, cl.file, args, node, t)

    def inline_call(self, params, body, penv, file, args, node, key):
        if self.stack.count(key) >= 1 or len(self.stack) > 40:
            raise Unmodelled('recursion')
        m, dots = match_args([p for p, d in params], args)
        env = self.new_env(penv)
        for p, d in params:
            if p == '...':
                env.vars['...'] = mk('dots', tuple(dots))
            elif p in m:
                env.vars[p] = m[p]
            else:
                env.vars[p] = MISSING
        self.stack.append(key)
        sf = self.file
        self.file = file
        missing = set()
        for p, d in params:
            if env.vars.get(p) is MISSING and d is not None:
                missing.add(p)
                try:
                    env.vars[p] = self.eval(d, env)
                except KeyError:
                    raise Unmodelled('default argument')
        env.vars['\0missing'] = mk('strs', tuple(sorted(missing | {p for p, d in params
                                                                  if env.vars.get(p) is MISSING})))
        fr = Frame()
        outer = self.frames[-1]
        self.frames.append(fr)
        g0, k0 = self.guard, self.facts
        v = self.eval(body, env)
        self.frames.pop()
        self.guard, self.facts = g0, k0
        self.file = sf
        self.stack.pop()
        # errors leave the caller too
        vals = []
        prev = TRUE
        for c, x in fr.exits:
            cc = and_(prev, c)
            for ec, ev in split_err(x):
                if ev is ERR:
                    self.exit_(ERR, and_(cc, ec))
            prev = and_(prev, not_(c))
            if x is not ERR:
                vals.append((c, drop_err(x)))
            else:
                vals.append((c, None))
        if fr.dead:
            out = None
            seq = vals
        else:
            out = v
            seq = vals
        for c, x in reversed(seq):
            if x is None:
                continue
            if out is None:
                out = x
            else:
                out = x if c is TRUE else ite(c, x, out)
        if out is None:
            return UNBOUND
        if out.op == 'clo':
            return out
        return out

    def lookup_env(self, env, n):
        e = env
        while e is not None:
            if n in e.vars:
                return e
            e = e.parent
        return None

    def lookup(self, env, n):
        e = self.lookup_env(env, n)
        if e is not None:
            v = e.vars[n]
            if v is UNBOUND:
                pass
            return v
        if n in self.pkg.funs:
            return mk('pfun', n)
        if n in ('T', 'TRUE'):
            return TRUE
        if n in ('F', 'FALSE'):
            return FALSE
        if n == 'Inf':
            return mk('inf')
        if n == 'pi':
            return mk('pi')
        if n.startswith('..') and n[2:].isdigit():
            return mk('sym', n)
        return mk('gsym', n)

    # ------------------------------------------------------------ evaluation
    def eval(self, n, env):
        if n is None:
            return MISSING
        fr = self.frames[-1] if self.frames else None
        if fr is not None and fr.dead:
            return UNBOUND
        k = n['k']
        if k == 'num':
            return num(Fraction(n['v'].strip()) if n['v'].strip() not in ('Inf', 'NA', 'NaN') else 0) \
                if n['v'].strip() not in ('Inf', 'NA', 'NaN') else mk('sym', n['v'].strip())
        if k == 'str':
            return s_(n['v'])
        if k == 'lgl':
            return mk('sym', 'NA') if n['v'] is None else lgl(n['v'])
        if k == 'null':
            return NULL
        if k == 'sym':
            return self.lookup(env, n['n'])
        if k == 'fn':
            return self.closure(n, env)
        if k == 'blk':
            v = NULL
            for s in n['s']:
                if self.frames[-1].dead:
                    break
                v = self.eval(s, env)
            return v
        old = T_.CUR[0]
        if self.record:
            T_.CUR[0] = (self.file, n['l'])
        try:
            return self.eval_call(n, env)
        finally:
            T_.CUR[0] = old

    def eval_call(self, n, env):
        f = n['f']
        a = n['a']
        if f['k'] == 'sym':
            name = f['n']
            h = SPECIAL.get(name)
            le = self.lookup_env(env, name)
            if le is not None and name not in ('(', '{', 'if', 'for', '<-'):
                v = le.vars[name]
                if v.op in ('clo', 'pfun', 'arg', 'fn', 'fn0', 'var', 'bv', 'apply') or h is None:
                    if v.op not in ('str', 'num', 'rec'):
                        if not (v.op in ('var', 'arg') and name in SPECIAL_FUNS and False):
                            return self.call_value(v, self.args(a, env), n, env)
            if h is not None:
                return h(self, n, a, env)
            if name in self.pkg.funs:
                return self.call_pkg(name, self.args(a, env), n)
            return self.builtin(None, name, self.args(a, env), n)
        if f['k'] == 'str':
            n2 = dict(n)
            n2['f'] = {'k': 'sym', 'n': f['v']}
            return self.eval_call(n2, env)
        if f['k'] == 'call' and f['f'].get('n') in ('::', ':::'):
            pkg = f['a'][0][1].get('n') or f['a'][0][1].get('v')
            name = f['a'][1][1].get('n') or f['a'][1][1].get('v')
            if pkg == 'glmmsr' and name in self.pkg.funs:
                return self.call_pkg(name, self.args(a, env), n)
            h = SPECIAL.get(name)
            if h is not None and name in SPECIAL_FUNS:
                return h(self, n, a, env)
            return self.builtin(pkg, name, self.args(a, env), n)
        if f['k'] == 'call' and f['f'].get('n') in ('$', '@'):
            obj = self.eval(f['a'][0][1], env)
            name = f['a'][1][1].get('n') or f['a'][1][1].get('v')
            args = self.args(a, env)
            if obj.op == 'rec' or obj.op == 'setf':
                v = fld(obj, name)
                if v.op == 'clo':
                    return self.call_value(v, args, n, env)
            return self.method_call(obj, name, args)
        v = self.eval(f, env)
        return self.call_value(v, self.args(a, env), n, env)

    def method_call(self, obj, name, args):
        args = tuple((nm or '', self.reify(v)) for nm, v in args)
        if name.startswith('append_'):
            args = norm_named(METHOD_FORMALS.get(name), args)
            self.effect('mcall', obj, name, args)
            return NULL
        if name in METHOD_FORMALS:
            args = norm_named(METHOD_FORMALS[name], args)
        if stateful(obj):
            return mk('sread', obj, name, args, self.epoch)
        return mk('mcall', obj, name, args)

    def args(self, a, env):
        out = []
        for nm, v in a:
            if v is not None and v['k'] == 'sym' and v['n'] == '...':
                d = self.lookup(env, '...')
                if d.op == 'dots':
                    out.extend([(x[0] or None, x[1]) for x in d.args[0]])
                else:
                    out.append((None, mk('dotsym')))
                continue
            out.append((nm, self.eval(v, env)))
        return out

    def call_value(self, v, args, n, env):
        if v.op == 'clo':
            try:
                return self.apply_closure(v, args, n)
            except Unmodelled:
                return mk('apply', mk('selfclo'), tuple((nm or '', self.reify(x)) for nm, x in args))
        if v.op == 'pfun':
            return self.call_pkg(v.args[0], args, n)
        if v.op == 'gsym':
            return self.builtin(None, v.args[0], args, n)
        if v.op == 'str':
            return self.builtin(None, v.args[0], args, n)
        if v.op == 'fn' and all(nm is None for nm, x in args) and v.args[0].args[0] == len(args):
            body = apply_lam(v.args[0], [x for nm, x in args])
            out, sig = body.args
            if not out.args[1]:
                return out.args[0]
        t = mk('apply', v, tuple((nm or '', self.reify(x)) for nm, x in args))
        if self.is_function_param(v):
            self.epoch = t
        return t

    def is_function_param(self, v):
        return v.op in ('arg', 'var') or v.op == 'pcall' or v.op == 'call'

    def call_pkg(self, name, args, n):
        f = self.pkg.funs[name]
        if name in self.inline and name not in self.stack:
            try:
                return self.inline_call(f.params, f.node['b'], None, f.file, args, n, name)
            except Unmodelled:
                pass
        try:
            m, dots = match_args([p for p, d in f.params], args)
        except Unmodelled:
            return mk('pcall', name, tuple((nm or '', self.reify(x)) for nm, x in args))
        # arguments in order; those left out take the term of their default
        env = self.new_env(None)
        for p, d in f.params:
            if p in m:
                env.vars[p] = m[p]
        out = []
        canon = self.canon.get(name, {})
        for p, d in f.params:
            if p == '...':
                for nm, x in dots:
                    out.append((nm or '', self.reify(x)))
            elif p in m:
                v = self.reify(m[p])
                if v.op == 'setf' or v.op == 'ite':
                    rd = self.pkg.fields_read(name, p)
                    if rd is not None:
                        v = unset_fields(v, rd)
                out.append((canon.get(p, p), v))
            elif d is not None:
                out.append((canon.get(p, p), self.reify(self.in_scratch(lambda: self.eval(d, env)))))
        t = mk('pcall', name, tuple(out))
        if name in self.effectful:
            self.effect('pcall', t)
        if name in self.mayfail:
            self.exit_(ERR, mk('fails', t))
        return t

    # -------------------------------------------------------------- builtins
    def builtin(self, pkg, name, args, n):
        fo = EXTRA_FORMALS.get(name) or formals_of(pkg, name)
        h = BUILTIN.get(name)
        if h is not None:
            if name in RAWARGS or fo is None:
                r = h(self, args, n)
            else:
                try:
                    m, dots = match_args([p for p, d in fo], args)
                except Unmodelled:
                    m, dots = None, None
                r = h(self, m, dots, n) if m is not None else None
            if r is not None:
                return r
        args = [(nm, self.reify(v)) for nm, v in args]
        if fo is not None:
            try:
                m, dots = match_args([p for p, d in fo], args)
                out = []
                for p, d in fo:
                    if p == '...':
                        out.extend((nm or '', x) for nm, x in dots)
                    elif p in m and not is_default(m[p], d):
                        out.append((p, m[p]))
                args2 = tuple(out)
            except Unmodelled:
                args2 = tuple((nm or '', v) for nm, v in args)
        else:
            args2 = tuple((nm or '', v) for nm, v in args)
        name = ALIASES.get(name, name)
        if name in IMPURE:
            self.effect('call', name, args2)
            return NULL
        if name in RNG:
            return mk('rng', name, args2, self.closure_depth)
        if name in HOF and len(args2) >= 1:
            args2 = self.partial(name, args2)
        return callt(name, args2)

    def partial(self, name, args2):
        """grad(f, x, extra...) as grad(function(p) f(p, extra...), x)"""
        d = dict(args2)
        fnm = 'func' if 'func' in d else 'fn'
        f = d.get(fnm)
        if f is None:
            return args2
        known = {p for p, _ in (formals_of(None, name) or [])}
        extra = [(k, v) for k, v in args2 if k not in known]
        if f.op == 'pfun':
            x = fresh('p')
            g0 = self.effects
            v = self.run_scratch_call(f, [(None, x)] + [(k or None, v) for k, v in extra])
            g = mk('fn', lam([x], mk('fnbody', v, (MISSING,))))
            return tuple((k, v) if k != fnm else (k, g) for k, v in args2 if k in known)
        return args2

    def run_scratch_call(self, f, args):
        fr = Frame()
        self.frames.append(fr)
        se, sg, sk = self.effects, self.guard, self.facts
        self.effects, self.guard, self.facts = [], TRUE, TRUE
        v = self.reify(self.call_value(f, args, None, None))
        out = mk('outcome', self.fold(fr, v), tuple(self.effects))
        self.effects, self.guard, self.facts = se, sg, sk
        self.frames.pop()
        return out

    # ------------------------------------------------------------ assignment
    def assign(self, target, v, env, sup=False):
        if target['k'] in ('sym', 'str'):
            n = target.get('n') or target.get('v')
            if sup:
                e = self.lookup_env(env.parent, n) if env.parent else None
                if self.closure_depth and e is not None and e.vars[n].op in ('cell',):
                    self.effect('superassign', s_(n), self.reify(v))
                if e is None:
                    self.effect('superassign', s_(n), self.reify(v))
                    return
                if e.vars[n].op != 'cell':
                    e.vars[n] = v
                else:
                    e.vars[n] = v
            else:
                env.vars[n] = v
            return
        # f(x, args) <- v   is   x <- `f<-`(x, args, value = v)
        f = target['f']
        a = target['a']
        fn = f.get('n')
        inner = a[0][1]
        cur = self.eval(inner, env)
        new = self.replace(fn, cur, a[1:], v, env)
        self.assign(inner, new, env, sup)

    def replace(self, fn, cur, rest, v, env):
        if v.op != 'clo':
            pass
        if fn in ('$', '@'):
            nm = rest[0][1].get('n') or rest[0][1].get('v')
            if fn == '@':
                nm = '@' + nm
            return setf(cur, nm, self.reify(v))
        v = self.reify(v)
        if fn == '[[':
            i = self.eval(rest[0][1], env)
            if len(rest) > 1:
                return mk('call', 'updmat', (('', cur), ('', i), ('', self.eval(rest[1][1], env)), ('', v)))
            if i.op == 'str':
                return setf(cur, i.args[0], v)
            return updix(cur, i, v)
        if fn == '[':
            if all(r[1] is None for r in rest):
                return v if not (isnum(v)) else call('fill', cur, v)
            ix = [self.eval(r[1], env) for r in rest]
            if len(ix) == 1:
                return updsub(cur, ix[0], v)
            return mk('call', 'updmat', tuple([('', cur)] + [('', i) for i in ix] + [('', v)]))
        if fn == 'names':
            return setnames(self, cur, v)
        if fn == 'class':
            return setf(cur, '#class', v)
        if fn == 'dimnames' and v.op == 'list' and len(v.args[0]) == 2:
            return setf(setf(cur, '#rownames', v.args[0][0]), '#colnames', v.args[0][1])
        if fn in ('rownames', 'colnames', 'dimnames', 'levels', 'dim', 'body', 'formals', 'environment', 'diag'):
            return setf(cur, '#' + fn, v)
        if fn == 'attr':
            w = self.eval(rest[0][1], env)
            if w.op == 'str':
                nm = {'names': '#names', 'class': '#class', 'dim': '#dim', 'dimnames': '#dimnames'}.get(
                    w.args[0], '#attr:' + w.args[0])
                return setf(cur, nm, v)
        args = [('', cur)] + [(nm or '', self.eval(x, env)) for nm, x in rest] + [('value', v)]
        return mk('call', str(fn) + '<-', tuple(args))

    # ----------------------------------------------------------------- loops
    def iterate(self, X):
        """(count, element as function of 1-based index) of a vector to loop over"""
        if X.op == 'call' and X.args[0] == 'seqlen':
            return X.args[1][0][1], lambda i: i
        if X.op == 'call' and X.args[0] == 'colon':
            a, b = X.args[1][0][1], X.args[1][1][1]
            if isnum(a) and a.args[0] == 1:
                return count1(b), lambda i: i
            return add(sub(b, a), ONE), lambda i: add(a, i, num(-1))
        if X.op == 'num':
            return ONE, lambda i: X
        return length(X), lambda i: elr(X, i) if chosen(X) is not None else el(X, i)

    def loop_body(self, run, names, env):
        """run a loop body once on symbolic state.
        names: variables assigned in it.  returns (fresh, new values, exits, effects)"""
        pre = {}
        frs = {}
        for v in names:
            e = env.vars.get(v)
            pre[v] = e
            if e is not None:
                x = fresh('s_' + v)
                frs[v] = x
                env.vars[v] = x
        fr = self.frames[-1]
        be, bd, bc = fr.exits, fr.dead, fr.loopctl
        fr.exits, fr.dead, fr.loopctl = [], False, []
        se, sg, sk = self.effects, self.guard, self.facts
        self.effects, self.guard, self.facts = [], TRUE, TRUE
        self.loopdepth += 1
        run()
        self.loopdepth -= 1
        res = (pre, frs, {v: env.vars.get(v, UNBOUND) for v in names}, fr.exits, self.effects, fr.loopctl, fr.dead)
        self.effects, self.guard, self.facts = se, sg, sk
        fr.exits, fr.dead, fr.loopctl = be, bd, bc
        return res

    def do_for(self, n, a, env):
        var = a[0][1]['n']
        X = self.reify(self.eval(a[1][1], env))
        body = a[2][1]
        if X.op == 'list' and len(X.args[0]) <= 4 or X.op == 'call' and X.args[0] == 'c' and len(X.args[1]) <= 4:
            items = X.args[0] if X.op == 'list' else [x for _, x in X.args[1]]
            for x in items:
                env.vars[var] = x
                self.eval(body, env)
            return NULL
        cnt, elem = self.iterate(X)
        self.loop(cnt, elem, var, body, env, None)
        return NULL

    def loop(self, cnt, elem, var, body, env, skip):
        ix = fresh('ix')
        names = [v for v in assigned(body) if v != var]
        if skip:
            names = [v for v in names if v not in skip]

        def run():
            if var is not None:
                env.vars[var] = elem(ix)
            self.eval(body, env)
        pre, frs, new, exits, effs, ctl, dead = self.loop_body(run, names, env)
        carried = set(frs.values())
        results = {}
        odd = bool(ctl) or any(x is not ERR for _, x in exits)
        changed = {v: self.reify(new[v]) for v in names if not (v in frs and new[v] is frs[v])}
        for v in names:
            if v in frs and new[v] is frs[v]:
                results[v] = pre[v]
        done = {}
        if not odd:
            for v in changed:
                nv = changed[v]
                sv = frs.get(v)
                r = self.simple_loop(v, sv, nv, pre[v], cnt, ix, carried)
                if r is not None:
                    done[v] = r
        rest = [v for v in changed if v not in done]
        if rest:
            # general recurrence over the variables that depend on one another
            groups = {}
            sv_of = {frs[v]: v for v in frs}
            for v in rest:
                order = []
                todo = [v]
                while todo:
                    w = todo.pop(0)
                    if w in order:
                        continue
                    order.append(w)
                    t = changed.get(w)
                    if t is None:
                        continue
                    for x in ordered_vars(t):
                        if x in sv_of and sv_of[x] not in order and sv_of[x] in changed:
                            todo.append(sv_of[x])
                order = [w for w in order]
                vs = [frs[w] for w in order if w in frs]
                bodies = [changed[w] for w in order]
                inits = [pre[w] if pre[w] is not None else UNBOUND for w in order]
                if v not in frs and not (set(free_vars(changed[v])) & carried) and not odd:
                    results[v] = mk('last', cnt, lam([ix], changed[v]))
                    continue
                ex = tuple(mk('loopexit', c, x) for c, x in exits) + tuple(mk('loopctl', c, s_(x)) for c, x in ctl)
                results[v] = mk('loop', cnt, tuple(self.reify(i) for i in inits),
                                lam(vs + [ix], mk('tup', tuple(bodies) + ex)))
        results.update(done)
        for v in names:
            env.vars[v] = results[v]
        if var is not None:
            env.vars[var] = mk('last', cnt, lam([ix], elem(ix)))
        if exits:
            sub_ = {}
            cond = FALSE
            for c, x in exits:
                if x is ERR:
                    if free_vars(c) & carried:
                        m = {frs[v]: mk('loopstate', s_(''), results.get(v, UNBOUND)) for v in frs}
                        c = subst_vars(c, m)
                    cond = or_(cond, anyix(cnt, ix, c))
                else:
                    m = {frs[v]: mk('loopstate', s_(''), results.get(v, UNBOUND)) for v in frs}
                    v = lam([ix], subst_vars(self.reify(x), m))
                    self.exit_(mk('firstval', cnt, v) if v.args[1].maxbv else v.args[1],
                               anyix(cnt, ix, subst_vars(c, m)))
            if cond is not FALSE:
                self.exit_(ERR, cond)
        if effs:
            m = {frs[v]: mk('loopstate', s_(''), results.get(v, UNBOUND)) for v in frs}
            self.effect('foreach', cnt, lam([ix], subst_vars(mk('tup', tuple(effs)), m)))
        if dead:
            pass

    def simple_loop(self, v, sv, nv, init, cnt, ix, carried):
        fv = free_vars(nv)
        others = (fv & carried) - ({sv} if sv is not None else set())
        if others:
            return None
        if sv is None or sv not in fv:
            return None
        # accumulation of a sum
        td = terms_of(nv)
        key = ((sv, Fraction(1)),)
        if td.get(key) == 1:
            d = sub(nv, sv)
            if sv not in free_vars(d):
                return add(init, mksum(cnt, lam([ix], d)))
        # filling of a vector or list
        if nv.op == 'updix' and nv.args[0] is sv and sv not in free_vars(nv.args[2]):
            if nv.args[1] is ix and is_blank(init):
                return vectorise(cnt, ix, nv.args[2], init)
            if nv.args[1] is add(length(sv), ONE) and is_blank(init):
                return map_(cnt, lam([ix], nv.args[2]))
        if nv.op == 'call' and nv.args[0] == 'c' and is_blank(init):
            fs = [x for _, x in nv.args[1]]
            if len(fs) == 2 and fs[0] is sv and sv not in free_vars(fs[1]):
                if fs[1].op == 'list' and len(fs[1].args[0]) == 1:
                    return map_(cnt, lam([ix], fs[1].args[0][0]))
                return call('unlist', map_(cnt, lam([ix], fs[1])))
        return None

    def do_while(self, cond, body, env):
        names = assigned(body)
        # while(i <= n) { ...; i <- i + 1 } is a counted loop
        r = self.counted_while(cond, body, env, names)
        if r:
            return NULL
        box = {}

        def run():
            c = self.eval(cond, env)
            box['c'] = c
            self.eval(body, env)
        pre, frs, new, exits, effs, ctl, dead = self.loop_body(run, names, env)
        order = [v for v in names if v in frs]
        for v in names:
            if v in frs and new[v] is frs[v]:
                env.vars[v] = pre[v]
            else:
                o = [v] + [w for w in order if w != v]
                env.vars[v] = mk('while', tuple(self.reify(pre[w]) if pre[w] is not None else UNBOUND for w in o),
                                 lam([frs[w] for w in o if w in frs], mk('tup', (box['c'],) + tuple(self.reify(new[w]) for w in o))))
        if effs or exits:
            self.effect('while', box['c'], tuple(effs))
        return NULL

    def counted_while(self, cond, body, env, names):
        if body['k'] != 'blk' or not body['s']:
            return False
        if cond['k'] != 'call' or cond['f'].get('n') not in ('<=', '<', '>=', '>', '!='):
            return False
        last = body['s'][-1]
        if not (last['k'] == 'call' and last['f'].get('n') in ('<-', '=') and last['a'][0][1]['k'] == 'sym'):
            return False
        v = last['a'][0][1]['n']
        e = last['a'][1][1]
        if not (e['k'] == 'call' and e['f'].get('n') == '+' and len(e['a']) == 2):
            return False
        xs = [e['a'][0][1], e['a'][1][1]]
        if not any(x['k'] == 'sym' and x['n'] == v for x in xs) or not any(x['k'] == 'num' and x['v'].strip() == '1' for x in xs):
            return False
        rest = {'k': 'blk', 'l': body['l'], 's': body['s'][:-1]}
        nm = assigned(rest)
        if v in nm:
            return False
        init = env.vars.get(v)
        if init is None:
            return False
        used = callees(cond)
        if used & set(nm):
            return False
        x = fresh('ix')
        env.vars[v] = x
        c = self.eval(cond, env)
        env.vars[v] = init
        # solve  x < e / x <= e
        f = cond['f']['n']
        l, r = [self.eval(y[1], dict_env(self, env, v, x)) for y in cond['a']]
        if f in ('>=', '>'):
            l, r = r, l
            f = {'>=': '<=', '>': '<'}[f]
        if l is not x or x in free_vars(r):
            return False
        cnt = sub(r, init) if f == '<' else add(sub(r, init), ONE)
        if init is ONE and f == '<=':
            cnt = r
        self.loop(cnt, (lambda i: add(init, i, num(-1))), v, rest, env, None)
        env.vars[v] = add(init, cnt)
        return True


def dict_env(eng, env, v, x):
    e = Env(env)
    e.vars[v] = x
    return e


def anyix(cnt, ix, c):
    if ix in free_vars(c):
        return mk('exists', cnt, lam([ix], c))
    return and_(lt(ZERO, cnt), c) if not isnum(cnt) else c


def ordered_vars(t):
    """free variables of t in order of first occurrence"""
    seen = set()
    out = []

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == 'var':
            out.append(x)
        for c in children(x):
            go(c)
    go(t)
    return out


def is_blank(t):
    if t is None:
        return False
    if t is NULL or (t.op == 'list' and not t.args[0]) or (t.op == 'rec' and not t.args[0]):
        return True
    if t.op == 'call' and t.args[0] in ('vector', 'numeric', 'character', 'integer', 'logical', 'rep'):
        return True
    return False


def vectorise(cnt, ix, body, init=None):
    """map(cnt, i -> body) as a vector expression, when body is elementwise in vectors of that length"""
    atomic = init is None or (init.op == 'call' and init.args[0] in ('numeric', 'integer', 'logical', 'rep', 'character')) \
        or (init.op == 'call' and init.args[0] == 'vector' and not any(a[1].op == 'str' and a[1].args[0] == 'list' for a in init.args[1]))
    if atomic:
        r = devec(cnt, ix, body)
        if r is not None:
            return r
        return call('simplify', map_(cnt, lam([ix], body)))
    return map_(cnt, lam([ix], body))


def devec(cnt, ix, body):
    if ix not in free_vars(body):
        return None
    okv = [True]

    def go(x):
        if not okv[0]:
            return x
        if x is ix:
            okv[0] = False
            return x
        if ix not in free_vars(x):
            return x
        if x.op in ('el', 'idx') and x.args[1] is ix or (x.op == 'idx' and x.args[1] == (ix,)):
            if ix not in free_vars(x.args[0]) and (length(x.args[0]) is cnt):
                return x.args[0]
            okv[0] = False
            return x
        if x.op in ('poly', 'not', 'or', 'eq', 'lt0', 'ite') or (x.op == 'call' and x.args[0] in ELEMENTWISE):
            return rebuild(x, go)
        okv[0] = False
        return x
    r = go(body)
    return r if okv[0] else None


def margins(cnt, ix, body):
    """sums of functions of each column (or row), for each column (or row)"""
    state = dict(X=None, w=None, ok=True)

    def inside(x):
        if not state['ok'] or ix not in free_vars(x):
            return x
        if x.op == 'idx' and isinstance(x.args[1], tuple) and len(x.args[1]) == 2 and len(x.args) == 2 and ix not in free_vars(x.args[0]):
            i, j = x.args[1]
            w = 'colSums' if i is MISSING and j is ix else 'rowSums' if j is MISSING and i is ix else None
            if w and state['X'] in (None, x.args[0]) and state['w'] in (None, w):
                state['X'], state['w'] = x.args[0], w
                return x.args[0]
        elif x.op in ('poly', 'power') or x.op == 'call' and x.args[0] in ELEMENTWISE:
            if x.op != 'poly' or all(isscalar(a) or ix in free_vars(a) for c, m in x.args[0] for a, e in m):
                return rebuild(x, inside)
        state['ok'] = False
        return x

    def go(x):
        if x is ix:
            state['ok'] = False
        if not state['ok'] or ix not in free_vars(x):
            return x
        if x.op == 'call' and x.args[0] == 'sum' and len(x.args[1]) == 1:
            e = inside(x.args[1][0][1])
            return callt(state['w'], (('x', e),)) if state['ok'] and state['w'] else x
        if x.op == 'poly' and all(isscalar(a) or a.op == 'call' and a.args[0] == 'sum' for c, m in x.args[0] for a, e in m):
            return rebuild(x, go)
        state['ok'] = False
        return x
    if ix not in free_vars(body):
        return None
    r = go(body)
    if not state['ok'] or state['w'] is None or ix in free_vars(r):
        return None
    n = call('ncol' if state['w'] == 'colSums' else 'nrow', state['X'])
    return r if cnt is n else None


ELEMENTWISE = {'exp', 'log', 'abs', 'dnorm', 'pnorm', 'round', 'floor', 'sqrt'}


def mksum(cnt, l):
    body = l.args[1]
    # constants out
    ix = fresh('ix')
    b = apply_lam(l, [ix])
    v = devec(cnt, ix, b)
    if v is not None:
        return sumof(v)
    if ix not in free_vars(b):
        return mul(cnt, b)
    return sum_(cnt, l)


def sumof(x):
    if x.op == 'poly':
        out = ZERO
        ms = x.args[0]
        if any(m == () for c, m in ms):
            return callt('sum', (('', x),))
        for c, m in ms:
            out = add(out, mul(num(c), callt('sum', (('', from_terms({m: Fraction(1)})),))))
        return out
    if x.op == 'call' and x.args[0] == 'simplify' and x.args[1][0][1].op == 'map':
        m = x.args[1][0][1]
        return mksum(m.args[0], m.args[1])
    if x.op == 'map':
        return mksum(x.args[0], x.args[1])
    return callt('sum', (('', x),))


NAMEFUNS = {'names', 'setdiff', 'unique', 'all.vars', 'as.character', 'colnames', 'union', 'intersect', 'rownames'}


def chosen(x):
    """the names by which elements are taken: x[names], or None"""
    if x.op == 'idx' and len(x.args) == 2 and len(x.args[1]) == 1:
        s = x.args[1][0]
        if s.op == 'arg' and 'var' in str(s.args[0]) or s.op == 'call' and s.args[0] in NAMEFUNS:
            return s
    return None


def length(x):
    if x is NULL:
        return ZERO
    if x.op in ('str', 'lgl', 'num'):
        return ONE
    if x.op == 'list':
        return num(len(x.args[0]))
    if x.op == 'rec' and not any(k == '...' for k, v in x.args[0]):
        return num(len(x.args[0]))
    if x.op == 'map':
        return x.args[0]
    if x.op == 'ite':
        return ite(x.args[0], length(x.args[1]), length(x.args[2]))
    if x.op == 'call':
        f, a = x.args
        if f == 'seqlen':
            return a[0][1]
        if f == 'colon' and isnum(a[0][1]) and a[0][1].args[0] == 1:
            return count1(a[1][1])
        if f in ('names', 'unname', 'as.list', 'abs', 'simplify', 'round', 'exp', 'log', 'as.numeric', 'as.character'):
            return length(a[0][1])
        if f == 'c' and all(y.op in ('str', 'num', 'lgl') for _, y in a):
            return num(len(a))
    if chosen(x) is not None:
        return length(chosen(x))
    if x.op == 'setf' and x.args[1].startswith('#'):
        return length(x.args[0])
    if x.op == 'fld' and x.args[1] == '#names':
        return length(x.args[0])
    if x.op == 'poly':
        # elementwise arithmetic on one vector
        at = {a for c, m in x.args[0] for a, e in m if not isscalar(a)}
        if len(at) == 1:
            return length(next(iter(at)))
    return mk('call', 'length', (('', x),))


def _length_simpl(args):
    r = length(args[0][1])
    return None if r.op == 'call' and r.args == ('length', args) else r


def _cum(f, unit):
    def go(args):
        if len(args) != 1:
            return None
        x = args[0][1]
        if x.op == 'call' and x.args[0] == 'c' and len(x.args[1]) == 2 and x.args[1][0][1] is unit:
            return mk('call', 'c', (x.args[1][0], ('', callt(f, ((args[0][0], x.args[1][1][1]),)))))
        if x.op == 'idx' and len(x.args) == 2 and len(x.args[1]) == 1 and x.args[1][0] is neg(length(x.args[0])):
            return mk('idx', callt(f, ((args[0][0], x.args[0]),)), x.args[1])
        return None
    return go


T_._SIMPL['cumprod'] = _cum('cumprod', ONE)
T_._SIMPL['cumsum'] = _cum('cumsum', ZERO)


def length_raw(x):
    return mk('call', 'length', (('', x),))


T_._SIMPL['length'] = _length_simpl


def updix(o, i, v):
    if isnum(i) and i.args[0].denominator == 1 and i.args[0] >= 1:
        k = int(i.args[0]) - 1
        if o.op == 'list' and k <= len(o.args[0]):
            l = list(o.args[0])
            if k < len(l):
                l[k] = v
            else:
                l.append(v)
            return mk('list', tuple(l))
    if v is el(o, i):
        return o
    return mk('updix', o, i, v)


def updsub(o, i, v):
    if i.op in ('var', 'str') or isnum(i):
        return updix(o, i, v)
    return mk('updsub', o, i, v)


def setnames(eng, cur, v):
    if cur.op == 'call' and cur.args[0] == 'unname':
        cur = cur.args[1][0][1]
    if v is NULL:
        return call('unname', cur)
    if cur.op == 'list' and len(cur.args[0]) == 1 and v.op != 'str':
        return setf(cur, '#names', v)
    if cur.op in ('list', 'rec') and v.op == 'call' and v.args[0] == 'c' and all(x.op == 'str' for _, x in v.args[1]):
        vals = cur.args[0] if cur.op == 'list' else [x for _, x in cur.args[0]]
        if len(vals) == len(v.args[1]):
            return rec([(x.args[0], y) for (_, x), y in zip(v.args[1], vals)])
    if cur.op == 'setf' and cur.args[1] == '#names':
        cur = cur.args[0]
    return mk('setf', cur, '#names', v) if v is not fld(cur, '#names') else cur


def stateful(t):
    return any(x.op == 'call' and x.args[0] == 'environment' for x in subterms(t))


def is_default(t, d):
    if d is None:
        return False
    if d == '<NULL>':
        return t is NULL
    if isinstance(d, bool):
        return t is lgl(d)
    if isinstance(d, (int, float)):
        return t.op == 'num' and float(t.args[0]) == float(d)
    return t.op == 'str' and t.args[0] == d


def match_args(formals, args):
    """R argument matching: exact, partial, positional"""
    m = {}
    dots = []
    rest = []
    hasdots = '...' in formals
    before = formals[:formals.index('...')] if hasdots else formals
    named = [(n, v) for n, v in args if n]
    used = set()
    for i, (n, v) in enumerate(args):
        if n and n in formals and n not in m:
            m[n] = v
            used.add(i)
    for i, (n, v) in enumerate(args):
        if i in used or not n:
            continue
        c = [p for p in before if p.startswith(n) and p not in m]
        if len(c) == 1:
            m[c[0]] = v
            used.add(i)
    pos = [p for p in before if p not in m]
    for i, (n, v) in enumerate(args):
        if i in used:
            continue
        if not n and pos:
            p = pos.pop(0)
            if v is not MISSING:
                m[p] = v
        elif hasdots:
            dots.append((n, v))
        else:
            raise Unmodelled('unmatched argument')
    return m, dots


def norm_named(formals, args):
    if not formals:
        return args
    try:
        m, dots = match_args(formals, [(n or None, v) for n, v in args])
    except Unmodelled:
        return args
    if dots:
        return args
    return tuple((p, m[p]) for p in formals if p in m)


METHOD_FORMALS = {}


def only_err(v):
    if v.op == 'ite':
        return only_err(v.args[1]) and only_err(v.args[2])
    return v is ERR


def split_err(x):
    """[(cond, ERR or value)] leaves of a gamma tree"""
    if x.op == 'ite':
        c, a, b = x.args
        return [(and_(c, k), v) for k, v in split_err(a)] + [(and_(not_(c), k), v) for k, v in split_err(b)]
    return [(TRUE, x)]


def drop_err(x):
    if x.op == 'ite':
        c, a, b = x.args
        if a is ERR:
            return drop_err(b)
        if b is ERR:
            return drop_err(a)
        return ite(c, drop_err(a), drop_err(b))
    return x


# ------------------------------------------------------------- special forms
SPECIAL = {}
SPECIAL_FUNS = set()
BUILTIN = {}
RAWARGS = set()
IMPURE = {'cat', 'print', 'unlink', 'message', 'library.dynam.unload', 'set.seed', 'assign', 'Sys.setenv', 'options',
          'setattr', 'writeLines', 'write', 'rm', 'setTimeLimit', 'library', 'require', 'attach', 'sink', 'invokeRestart',
          'warning', 'lockBinding', 'eapply', 'delayedAssign', 'makeActiveBinding', 'gc', 'on.exit'}
RNG = {'rnorm', 'runif', 'sample', 'rbinom', 'rexp', 'rgamma', 'rt', 'sample.int'}
HOF = {'grad', 'hessian', 'jacobian'}
ALIASES = {'as.double': 'as.numeric', 'is.symbol': 'is.name', 'as.symbol': 'as.name', 'is.double': 'is.numeric',
           'updateglmerdevfun': 'updateGlmerDevfun'}


def special(*names):
    def deco(f):
        for n in names:
            SPECIAL[n] = f
        return f
    return deco


def builtin(*names, raw=False):
    def deco(f):
        for n in names:
            BUILTIN[n] = f
            if raw:
                RAWARGS.add(n)
        return f
    return deco


@special('(')
def _paren(E, n, a, env):
    return E.eval(a[0][1], env)


@special('{')
def _brace(E, n, a, env):
    v = NULL
    for _, x in a:
        v = E.eval(x, env)
    return v


def tobool(c):
    if isnum(c):
        return lgl(c.args[0] != 0)
    if c.op == 'call' and c.args[0] == 'length':
        return not_(empty(c.args[1][0][1]))
    if c.op == 'call' and c.args[0] == 'any' and len(c.args[1]) == 1:
        return c
    if c.op == 'ite' and (c.args[1] in (TRUE, FALSE) or c.args[2] in (TRUE, FALSE)):
        k, x, y = c.args
        if y is FALSE:
            return and_(k, tobool(x))
        if y is TRUE:
            return or_(not_(k), tobool(x))
        if x is FALSE:
            return and_(not_(k), tobool(y))
        return or_(k, tobool(y))
    return c


@special('&&', '||')
def _short(E, n, a, env):
    """the second operand is only looked at when the first does not decide"""
    conj = n['f']['n'] == '&&'
    c = tobool(E.reify(E.eval(a[0][1], env)))
    if E.frames[-1].dead:
        return UNBOUND
    join = and_ if conj else or_
    box = []

    def second():
        box.append(tobool(E.reify(E.eval(a[1][1], env))))
        return box[0]
    if conj:
        E.branch(c, second, lambda: FALSE)
    else:
        E.branch(c, lambda: TRUE, second)
    if E.frames[-1].dead:
        return UNBOUND
    return join(c, box[0]) if box else c


@special('if')
def _if(E, n, a, env):
    c = tobool(E.reify(E.eval(a[0][1], env)))
    if E.frames[-1].dead:
        return UNBOUND
    return E.branch(c, lambda: E.eval(a[1][1], env),
                    (lambda: E.eval(a[2][1], env)) if len(a) > 2 else (lambda: NULL))


@special('<-', '=')
def _assign(E, n, a, env):
    v = E.eval(a[1][1], env)
    if E.frames[-1].dead:
        return UNBOUND
    E.assign(a[0][1], v, env)
    return v


@special('<<-')
def _sassign(E, n, a, env):
    v = E.eval(a[1][1], env)
    E.assign(a[0][1], v, env, sup=True)
    return v


@special('return')
def _return(E, n, a, env):
    v = E.eval(a[0][1], env) if a else NULL
    if E.frames[-1].dead:
        return UNBOUND
    fr = E.frames[-1]
    fr.exits.append((TRUE, v if E.stack_is_inline() else E.reify(v)))
    fr.dead = True
    return UNBOUND


def _stack_is_inline(self):
    return len(self.frames) > 1 and self.stack and self.stack[-1] in self.inline


Engine.stack_is_inline = _stack_is_inline


@special('stop')
def _stop(E, n, a, env):
    E.exit_(ERR)
    return UNBOUND


@special('stopifnot')
def _stopifnot(E, n, a, env):
    for _, x in a:
        E.exit_(ERR, not_(call('all', tobool(E.eval(x, env)))))
    return NULL


@special('warning')
def _warning(E, n, a, env):
    E.effect('warning')
    return NULL


@special('for')
def _for(E, n, a, env):
    return E.do_for(n, a, env)


@special('while')
def _while(E, n, a, env):
    return E.do_while(a[0][1], a[1][1], env)


@special('repeat')
def _repeat(E, n, a, env):
    return E.do_while({'k': 'lgl', 'v': True}, a[0][1], env)


@special('break', 'next')
def _brk(E, n, a, env):
    fr = E.frames[-1]
    fr.loopctl.append((E.guard, n['f']['n']))
    return NULL


@special('function')
def _fun(E, n, a, env):
    raise Unmodelled('function call form')


@special('quote')
def _quote(E, n, a, env):
    return quoted(a[0][1])


SPECIAL_FUNS.update(['quote', 'stop', 'warning', 'switch', 'lapply', 'tryCatch'])


def quoted(x):
    if x is None:
        return MISSING
    if x['k'] == 'sym':
        return mk('qsym', x['n'])
    if x['k'] == 'call':
        return mk('qcall', quoted(x['f']), tuple((nm or '', quoted(v)) for nm, v in x['a']))
    if x['k'] == 'num':
        return num(Fraction(x['v'].strip()))
    if x['k'] == 'str':
        return s_(x['v'])
    if x['k'] == 'lgl':
        return lgl(bool(x['v']))
    if x['k'] == 'null':
        return NULL
    if x['k'] == 'blk':
        return mk('qblk', tuple(quoted(y) for y in x['s']))
    return mk('qfn', json.dumps(x, sort_keys=True))


@special('~')
def _tilde(E, n, a, env):
    return mk('qcall', mk('qsym', '~'), tuple((nm or '', quoted(v)) for nm, v in a))


@special('missing')
def _missing(E, n, a, env):
    p = a[0][1].get('n')
    m = env.vars.get('\0missing')
    if m is not None:
        return lgl(p in m.args[0])
    return call('missing', s_(p))


@special('switch')
def _switch(E, n, a, env):
    x = E.eval(a[0][1], env)
    alts = a[1:]
    if a[0][0] not in (None, 'EXPR'):
        return call('switch', x)
    cases = []
    default = None
    pend = []
    for nm, v in alts:
        if nm is None:
            default = v
        else:
            if v is None:
                pend.append(nm)
            else:
                cases.append((pend + [nm], v))
                pend = []

    def go(i):
        if i == len(cases):
            return E.eval(default, env) if default is not None else NULL
        labels, v = cases[i]
        c = or_(*[eq(x, s_(l)) for l in labels])
        return E.branch(c, lambda: E.eval(v, env), lambda: go(i + 1))
    return go(0)


@special('tryCatch')
def _trycatch(E, n, a, env):
    expr = None
    handlers = []
    for nm, v in a:
        if nm in (None, 'expr') and expr is None:
            expr = v
        else:
            handlers.append((nm or '', v))
    fr = Frame()
    outer = E.frames[-1]
    E.frames.append(fr)
    v = E.eval(expr, env)
    v = E.reify(v)
    E.frames.pop()
    val = E.fold(fr, v)
    hs = tuple((nm, E.reify(E.eval(h, env))) for nm, h in handlers)
    # a handler that always raises an error leaves the value alone
    raises = False
    for nm, h in hs:
        if nm == 'error' and h.op == 'fn' and h.args[0].args[1].args[0].args[0] is ERR:
            raises = True
    t = mk('trycatch', val, hs)
    if raises and len(hs) == 1:
        for nm in assigned(expr):
            pass
        return val
    return t


@special('try')
def _try(E, n, a, env):
    fr = Frame()
    E.frames.append(fr)
    v = E.reify(E.eval(a[0][1], env))
    E.frames.pop()
    return mk('trycatch', E.fold(fr, v), (('error', mk('tryfn')),))


@special('system.time')
def _systime(E, n, a, env):
    v = E.reify(E.eval(a[0][1], env))
    return mk('call', 'system.time', ())


@special('$')
def _dollar(E, n, a, env):
    o = E.eval(a[0][1], env)
    nm = a[1][1].get('n') or a[1][1].get('v')
    if stateful(o):
        return mk('sread', o, nm, (), E.epoch)
    return fld(o, nm)


@special('@')
def _at(E, n, a, env):
    o = E.eval(a[0][1], env)
    nm = a[1][1].get('n') or a[1][1].get('v')
    return fld(o, '@' + nm)


@special('[[')
def _dbl(E, n, a, env):
    o = E.reify(E.eval(a[0][1], env))
    ix = [(nm, E.eval(v, env)) for nm, v in a[1:]]
    ix = [x for nm, x in ix if nm not in ('exact', 'drop')]
    if len(ix) == 1:
        i = ix[0]
        if i.op == 'str' and stateful(o):
            return mk('sread', o, i.args[0], (), E.epoch)
        return elr(o, i)
    return mk('idx', o, tuple(ix))


def elr(o, i):
    if chosen(o) is not None:
        return elr(o.args[0], elr(chosen(o), i))
    if o.op == 'call' and o.args[0] == 'colon' and i.op in ('var', 'bv'):
        a = o.args[1][0][1]
        return add(a, i, num(-1))
    if o.op == 'call' and o.args[0] == 'seqlen' and i.op in ('var', 'bv'):
        return i
    if o.op == 'call' and o.args[0] == 'simplify':
        return elr(o.args[1][0][1], i)
    if o.op == 'call' and o.args[0] == 'c' and isnum(i) and all(x.op in ('str', 'num', 'lgl') for _, x in o.args[1]):
        k = int(i.args[0]) - 1
        if 0 <= k < len(o.args[1]):
            return o.args[1][k][1]
    if o.op == 'updix' and isnum(i) and isnum(o.args[1]):
        if o.args[1] is i:
            return o.args[2]
        return elr(o.args[0], i)
    if o.op == 'updix' and o.args[1] is i:
        return o.args[2]
    return el(o, i)


@special('[')
def _idx(E, n, a, env):
    o = E.reify(E.eval(a[0][1], env))
    ix = []
    drop = None
    for nm, v in a[1:]:
        if nm == 'drop':
            drop = E.eval(v, env)
        elif nm == 'exact':
            pass
        else:
            ix.append(E.reify(E.eval(v, env)) if v is not None else MISSING)
    return idx(o, ix, drop)


def idx(o, ix, drop=None):
    if len(ix) == 1:
        i = ix[0]
        if i is MISSING:
            return o
        if i.op in ('var', 'bv') and i.op == 'var' and i.args[0] == 'ix':
            return elr(o, i)
        if isnum(i) and i.args[0] == 1 and o.op in ('str', 'num', 'lgl'):
            return o
        if o.op == 'call' and o.args[0] == 'c' and isnum(i) and i.args[0] > 0 and all(x.op in ('str', 'num', 'lgl') for _, x in o.args[1]):
            return elr(o, i)
        if o.op == 'call' and o.args[0] in ('lFormula', 'glFormula') and i.op == 'call' and i.args[0] == 'c' and all(x.op == 'str' for _, x in i.args[1]):
            return rec([(x.args[0], fld(o, x.args[0])) for _, x in i.args[1]])
        if o.op == 'call' and o.args[0] == 'dim' and isnum(i) and i.args[0] in (1, 2) and len(o.args[1]) == 1:
            return call('nrow' if i.args[0] == 1 else 'ncol', o.args[1][0][1])
        return mk('idx', o, (i,))
    if drop is TRUE:
        drop = None
    t = tuple(ix)
    if drop is not None:
        return mk('idx', o, t, drop)
    return mk('idx', o, t)


def arith(op):
    def f(E, n, a, env):
        xs = [E.reify(E.eval(v, env)) for _, v in a]
        if E.frames[-1].dead:
            return UNBOUND
        return do_arith(op, xs)
    SPECIAL[op] = f

    def g(E, args, n):
        return do_arith(op, [E.reify(v) for _, v in args])
    BUILTIN[op] = g
    RAWARGS.add(op)


def do_arith(op, xs):
    if op == '+':
        if len(xs) == 1:
            return xs[0]
        r = add(*xs)
        if (xs[0] is ZERO or xs[1] is ZERO) and not isnum(r):
            return call('copy', r)
        return r
    if op == '-':
        if len(xs) == 1:
            if xs[0].op in ('lgl',) or isbool(xs[0]):
                return mk('call', 'neg', (('', xs[0]),))
            return neg(xs[0])
        return sub(xs[0], xs[1])
    if op == '*':
        r = mul(*xs)
        if (xs[0] is ONE or xs[1] is ONE) and not isnum(r):
            return call('copy', r)
        return r
    if op == '/':
        return div(xs[0], xs[1])
    if op in ('^', '**'):
        return pow_(xs[0], xs[1])
    if op == '%%':
        return call('mod', *xs)
    if op == '%/%':
        return call('intdiv', *xs)
    if op == '<':
        return lt(xs[0], xs[1])
    if op == '>':
        return lt(xs[1], xs[0])
    if op == '<=':
        return le(xs[0], xs[1])
    if op == '>=':
        return le(xs[1], xs[0])
    if op == '==':
        return eq_(xs[0], xs[1])
    if op == '!=':
        return not_(eq_(xs[0], xs[1]))
    if op in ('&', '&&'):
        return and_(tobool(xs[0]), tobool(xs[1]))
    if op in ('|', '||'):
        return or_(tobool(xs[0]), tobool(xs[1]))
    if op == '!':
        return not_(tobool(xs[0]))
    if op == '%*%':
        return mm(*xs)
    if op == '%in%':
        return isin(xs[0], xs[1])
    if op == ':':
        return colon(xs[0], xs[1])
    raise Unmodelled(op)


def eq_(a, b):
    # as.character(x) == "name"  and  identical(x, quote(name))
    return eq(a, b)


for _op in ['+', '-', '*', '/', '^', '**', '%%', '%/%', '<', '>', '<=', '>=', '==', '!=', '&', '|', '!',
            '%*%', '%in%', ':']:
    arith(_op)


def isin(x, y):
    if y.op == 'call' and y.args[0] == 'c' and all(v.op in ('str', 'num') for _, v in y.args[1]) :
        vals = sorted({v for _, v in y.args[1]}, key=lambda v: str(v.args[0]))
        return or_(*[eq(x, v) for v in vals])
    if y.op in ('str',):
        return eq(x, y)
    if y.op == 'fld' and y.args[1] == '#names' and x.op == 'str':
        return mk('call', 'hasname', (('', y.args[0]), ('', x)))
    return mk('call', 'isin', (('', x), ('', y)))


# ----------------------------------------------------------- builtin functions
@builtin('length')
def b_length(E, m, dots, n):
    return length(E.reify(m['x'])) if 'x' in m else None


@builtin('is.null')
def b_isnull(E, m, dots, n):
    return empty(E.reify(m['x']))


@builtin('c', raw=True)
def b_c(E, args, n):
    out = []
    for nm, v in args:
        v = E.reify(v)
        if nm in ('recursive', 'use.names'):
            out.append((nm, v))
            continue
        if v is NULL and not nm:
            continue
        if not nm and v.op == 'call' and v.args[0] == 'c':
            out.extend(v.args[1])
            continue
        out.append((nm or '', v))
    if not out:
        return NULL
    if all(v.op in ('list', 'rec') for nm, v in out) and not any(nm for nm, v in out):
        if all(v.op == 'list' for _, v in out):
            return mk('list', tuple(x for _, v in out for x in v.args[0]))
        if all(v.op == 'rec' or not v.args[0] for _, v in out):
            return rec([p for _, v in out for p in (v.args[0] if v.op == 'rec' else ())])
    out = [(nm, v) for nm, v in out if not (v.op == 'list' and not v.args[0] and not nm)]
    if not out:
        return mk('list', ())
    if len(out) == 1 and not out[0][0]:
        return out[0][1]
    return mk('call', 'c', tuple(out))


@builtin('list', raw=True)
def b_list(E, args, n):
    args = [(nm, v) for nm, v in args]
    if any(nm for nm, v in args):
        return rec([(nm or '', v if v.op == 'clo' else E.reify(v)) for nm, v in args])
    return mk('list', tuple(v if v.op == 'clo' else E.reify(v) for nm, v in args))


@builtin('names')
def b_names(E, m, dots, n):
    x = E.reify(m['x'])
    return namesof(E, x)


def unset_fields(v, keep):
    """v without the updates of fields that are not looked at"""
    if v.op == 'setf':
        if not v.args[1].startswith('#') and v.args[1] not in keep and not any(k.startswith(v.args[1]) or v.args[1].startswith(k) for k in keep):
            return unset_fields(v.args[0], keep)
        o = unset_fields(v.args[0], keep)
        return setf(o, v.args[1], v.args[2]) if o is not v.args[0] else v
    if v.op == 'ite':
        return ite(v.args[0], unset_fields(v.args[1], keep), unset_fields(v.args[2], keep))
    return v


def namesof(E, x):
    if x.op == 'idx' and len(x.args) == 2 and len(x.args[1]) == 1:
        return idx(namesof(E, x.args[0]), [x.args[1][0]])
    if x.op == 'ite':
        return ite(x.args[0], namesof(E, x.args[1]), namesof(E, x.args[2]))
    if x in E.names_of:
        return namesof(E, E.names_of[x])
    if x.op == 'rec' and all(k for k, v in x.args[0]):
        return mk('call', 'c', tuple(('', s_(k)) for k, v in x.args[0])) if len(x.args[0]) != 1 else s_(x.args[0][0][0])
    if x.op == 'list' and not x.args[0]:
        return NULL
    if x.op == 'call' and x.args[0] == 'c' and all(v.op == 'rec' or (v.op == 'list' and not v.args[0]) for _, v in x.args[1]):
        return mk('call', 'c', tuple(('', s_(k)) for _, v in x.args[1] for k, _v in v.args[0]))
    return fld(x, '#names') if x.op != 'rec' else mk('fld', x, '#names')


@builtin('unname')
def b_unname(E, m, dots, n):
    x = E.reify(m['obj'])
    if isnumeric(x):
        return x
    return None


@builtin('setNames')
def b_setnames(E, m, dots, n):
    return setnames(E, E.reify(m.get('object', NULL)), E.reify(m.get('nm', NULL)))


@builtin('structure', raw=True)
def b_structure(E, args, n):
    x = E.reify(args[0][1])
    for nm, v in args[1:]:
        v = E.reify(v)
        if nm in ('names', '.Names'):
            x = setnames(E, x, v)
        elif nm == 'class':
            x = setf(x, '#class', v)
        else:
            x = setf(x, '#attr:' + str(nm), v)
    return x


@builtin('attr')
def b_attr(E, m, dots, n):
    w = m.get('which')
    if w is None or w.op != 'str':
        return None
    nm = {'names': '#names', 'class': '#class', 'dim': '#dim', 'dimnames': '#dimnames'}.get(w.args[0], '#attr:' + w.args[0])
    return fldattr(E.reify(m['x']), nm)


def fldattr(o, nm):
    if o.op in ('rec', 'list'):
        return mk('fld', o, nm)
    return fld(o, nm)


@builtin('dimnames')
def b_dimnames(E, m, dots, n):
    return fldattr(E.reify(m['x']), '#dimnames')


@builtin('colnames')
def b_colnames(E, m, dots, n):
    return el(fldattr(E.reify(m['x']), '#dimnames'), num(2))


@builtin('rownames')
def b_rownames(E, m, dots, n):
    return el(fldattr(E.reify(m['x']), '#dimnames'), num(1))


@builtin('as.numeric', 'as.double', 'as.vector')
def b_asnum(E, m, dots, n):
    x = E.reify(m['x'])
    if isnumeric(x) or (isbool(x) and False):
        return x
    if 'mode' in m:
        return None
    return callt('as.numeric', (('x', x),)) if n is None or n['f'].get('n') != 'as.vector' else callt('as.vector', (('x', x),))


@builtin('drop')
def b_drop(E, m, dots, n):
    return E.reify(m['x'])


@builtin('invisible')
def b_invisible(E, m, dots, n):
    return E.reify(m['x']) if 'x' in m else NULL


@builtin('identity', 'force', raw=True)
def b_identity(E, args, n):
    return args[0][1]


@builtin('suppressWarnings', 'suppressMessages', raw=True)
def b_suppress(E, args, n):
    return None


@builtin('sqrt')
def b_sqrt(E, m, dots, n):
    return pow_(E.reify(m['x']), num(Fraction(1, 2)))


@builtin('exp')
def b_exp(E, m, dots, n):
    return call('exp', E.reify(m['x']))


@builtin('log')
def b_log(E, m, dots, n):
    if 'base' in m:
        return None
    return call('log', E.reify(m['x']))


@builtin('abs')
def b_abs(E, m, dots, n):
    return call('abs', E.reify(m['x']))


@builtin('sum', raw=True)
def b_sum(E, args, n):
    if len(args) == 1:
        return sumof(E.reify(args[0][1]))
    return None


@builtin('mean')
def b_mean(E, m, dots, n):
    if dots:
        return None
    x = E.reify(m['x'])
    return div(sumof(x), length(x))


def each_of(x):
    """a condition on vectors found element by element, compared with single values, as one on each element"""
    if x.op == 'call' and x.args[0] == 'simplify':
        return x
    found = []

    def go(y):
        if y.op == 'call' and y.args[0] == 'simplify' and y.args[1][0][1].op == 'map':
            found.append(y)
            return True
        if y.op in ('eq', 'lt0', 'not', 'or', 'poly'):
            return all([go(c) for c in children(y)])
        return isscalar(y) or y.op in ('num', 'str', 'lgl')
    if x.op not in ('eq', 'lt0', 'not', 'or') or not go(x) or len({y.args[1][0][1].args[0] for y in found}) != 1:
        return x
    ix = fresh('ix')
    n = found[0].args[1][0][1].args[0]
    return call('simplify', map_(n, lam([ix], subst(x, {y: apply_lam(y.args[1][0][1].args[1], [ix]) for y in found}))))


@builtin('any', raw=True)
def b_any(E, args, n):
    if len(args) != 1:
        return None
    x = each_of(tobool(E.reify(args[0][1])))
    if x.op == 'call' and x.args[0] == 'simplify' and x.args[1][0][1].op == 'map':
        mp = x.args[1][0][1]
        return mk('exists', mp.args[0], mp.args[1])
    return call('any', x)


@builtin('all', raw=True)
def b_all(E, args, n):
    if len(args) != 1:
        return None
    x = each_of(tobool(E.reify(args[0][1])))
    if x.op == 'call' and x.args[0] == 'simplify' and x.args[1][0][1].op == 'map':
        mp = x.args[1][0][1]
        ix = fresh('ix')
        return not_(mk('exists', mp.args[0], lam([ix], not_(apply_lam(mp.args[1], [ix])))))
    if x.op == 'not' and x.args[0].op == 'call' and x.args[0].args[0] == 'simplify' and x.args[0].args[1][0][1].op == 'map':
        mp = x.args[0].args[1][0][1]
        return not_(mk('exists', mp.args[0], mp.args[1]))
    return not_(call('any', not_(x)))


@builtin('xor', raw=True)
def b_xor(E, args, n):
    a, b = [tobool(E.reify(v)) for _, v in args]
    return or_(and_(a, not_(b)), and_(not_(a), b))


@builtin('isTRUE', raw=True)
def b_istrue(E, args, n):
    x = E.reify(args[0][1])
    return x if isbool(x) else None


@builtin('isFALSE', raw=True)
def b_isfalse(E, args, n):
    x = E.reify(args[0][1])
    return not_(x) if isbool(x) else None


@builtin('identical')
def b_identical(E, m, dots, n):
    x, y = E.reify(m['x']), E.reify(m['y'])
    return eq(x, y)


@builtin('is.element')
def b_iselement(E, m, dots, n):
    return isin(E.reify(m['el']), E.reify(m['table']))


@builtin('exists')
def b_exists(E, m, dots, n):
    x, w = E.reify(m['x']), E.reify(m.get('where', MISSING))
    return mk('call', 'exists', (('', x), ('', w)))


@builtin('ifelse')
def b_ifelse(E, m, dots, n):
    return ite(tobool(E.reify(m['test'])), E.reify(m['yes']), E.reify(m['no']))


@builtin('seq_len')
def b_seqlen(E, m, dots, n):
    x = E.reify(m['length.out'])
    return call('seqlen', x)


@builtin('seq_along')
def b_seqalong(E, m, dots, n):
    return call('seqlen', length(E.reify(m['along.with'])))


@builtin('seq', 'seq.int', raw=True)
def b_seq(E, args, n):
    if len(args) == 2 and not any(nm in ('by', 'length.out', 'along.with') for nm, v in args):
        return colon(E.reify(args[0][1]), E.reify(args[1][1]))
    return None


@builtin('as.name', raw=True)
def b_asname(E, args, n):
    if len(args) == 1:
        x = E.reify(args[0][1])
        if x.op == 'str':
            return mk('qsym', x.args[0])
    return None


@builtin('rep', 'rep_len', 'rep.int')
def b_rep(E, m, dots, n):
    return None


@builtin('t')
def b_t(E, m, dots, n):
    return trans(E.reify(m['x']))


@builtin('crossprod')
def b_crossprod(E, m, dots, n):
    x = E.reify(m['x'])
    y = E.reify(m.get('y', x))
    if y is NULL:
        y = x
    return mm(trans(x), y)


@builtin('tcrossprod')
def b_tcrossprod(E, m, dots, n):
    x = E.reify(m['x'])
    y = E.reify(m.get('y', x))
    if y is NULL:
        y = x
    return mm(x, trans(y))


@builtin('solve')
def b_solve(E, m, dots, n):
    a = E.reify(m['a'])
    if 'b' in m:
        b = E.reify(m['b'])
        if not (b.op == 'call' and b.args[0] == 'diag' and len(b.args[1]) == 1 and b.args[1][0][1].op == 'call'
                and b.args[1][0][1].args[0] in ('nrow', 'ncol', 'length')):      # the unit matrix
            return mm(inv(a), b)
    return inv(a)


@builtin('determinant')
def b_determinant(E, m, dots, n):
    return None


@builtin('NROW', 'nrow')
def b_nrow(E, m, dots, n):
    return call('nrow', E.reify(m['x']))


@builtin('NCOL', 'ncol')
def b_ncol(E, m, dots, n):
    return call('ncol', E.reify(m['x']))


@builtin('dim')
def b_dim(E, m, dots, n):
    return call('dim', E.reify(m['x']))


@builtin('paste0', raw=True)
def b_paste0(E, args, n):
    return paste(E, args, s_(''))


@builtin('paste', raw=True)
def b_paste(E, args, n):
    return paste(E, args, s_(' '))


def paste(E, args, sep):
    xs = []
    col = NULL
    for nm, v in args:
        v = E.reify(v)
        if nm == 'sep':
            sep = v
        elif nm == 'collapse':
            col = v
        elif nm == 'recycle0':
            pass
        else:
            xs.append(v)
    # literal strings next to each other are one string
    if sep.op == 'str':
        ys = []
        for i, x in enumerate(xs):
            if i:
                ys.append(sep)
            ys.append(x)
        zs = []
        for y in ys:
            if y.op == 'str' and y.args[0] == '' and len(ys) > 1:
                continue
            if y.op == 'str' and zs and zs[-1].op == 'str':
                zs[-1] = s_(zs[-1].args[0] + y.args[0])
            else:
                zs.append(y)
        if len(zs) == 1 and zs[0].op == 'str':
            return zs[0]
        return mk('call', 'paste', tuple(('', z) for z in zs) + (() if col is NULL else (('collapse', col),)))
    return mk('call', 'paste', tuple(('', x) for x in xs) + (('sep', sep),) + (() if col is NULL else (('collapse', col),)))


def apply_fun(E, f, args, n):
    """call FUN (closure, package function, builtin or string) on terms"""
    return E.reify(E.call_value(f, args, n, None))


def mapper(kind):
    def h(E, n, a, env):
        args = E.args(a, env)
        fo = [p for p, d in (formals_of(None, kind) or [])]
        try:
            m, dots = match_args(fo, args)
        except Unmodelled:
            return callt(kind, tuple((nm or '', E.reify(v)) for nm, v in args))
        if 'X' not in m or 'FUN' not in m:
            return callt(kind, tuple((nm or '', E.reify(v)) for nm, v in args))
        X = E.reify(m['X'])
        f = m['FUN']
        r = do_map(E, X, f, dots, n, env)
        E.names_of.setdefault(r, X)
        if kind in ('vapply', 'sapply'):
            if kind == 'sapply' and m.get('simplify') is FALSE:
                return r
            v = None
            if r.op == 'map':
                ix = fresh('ix')
                v = devec(r.args[0], ix, apply_lam(r.args[1], [ix]))
                if v is None:
                    v = margins(r.args[0], ix, apply_lam(r.args[1], [ix]))
            return v if v is not None else call('simplify', r)
        return r
    SPECIAL[kind] = h
    SPECIAL_FUNS.add(kind)


def do_map(E, X, f, extra, n, env):
    cnt, elem = E.iterate(X)
    ix = fresh('ix')
    fr = Frame()
    E.frames.append(fr)
    se, sg, sep, sk = E.effects, E.guard, E.epoch, E.facts
    E.effects, E.guard, E.facts = [], TRUE, TRUE
    E.loopdepth += 1
    v = apply_fun(E, f, [(None, elem(ix))] + [(k, x) for k, x in extra], n)
    E.loopdepth -= 1
    effs = E.effects
    E.effects, E.guard, E.facts = se, sg, sk
    E.frames.pop()
    for c, x in fr.exits:
        if x is ERR:
            E.exit_(ERR, anyix(cnt, ix, c))
    if effs:
        E.effect('foreach', cnt, lam([ix], mk('tup', tuple(effs))))
    if fr.dead and not [1 for c, x in fr.exits if x is not ERR]:
        v = UNBOUND
    if v is elem(ix):
        return X if X.op not in ('call',) or X.args[0] not in ('colon', 'seqlen') else map_(cnt, lam([ix], v))
    return map_(cnt, lam([ix], v))


for _k in ['lapply', 'sapply', 'vapply']:
    mapper(_k)


def over_margin(E, n, a, env):
    args = E.args(a, env)
    plain = lambda: callt('apply', tuple((nm or '', E.reify(v)) for nm, v in args))
    try:
        m, dots = match_args(['X', 'MARGIN', 'FUN', '...', 'simplify'], args)
    except Unmodelled:
        return plain()
    if dots or set(m) != {'X', 'MARGIN', 'FUN'}:
        return plain()
    X, k = E.reify(m['X']), E.reify(m['MARGIN'])
    if k not in (ONE, num(2)):
        return plain()
    f = m['FUN']
    E.effects, se = [], E.effects
    fr = Frame()
    E.frames.append(fr)
    E.loopdepth += 1
    ix = fresh('ix')
    try:
        v = apply_fun(E, f, [(None, mk('idx', X, (MISSING, ix) if k is not ONE else (ix, MISSING)))], n)
    finally:
        E.loopdepth -= 1
        E.frames.pop()
        E.effects, now = se, E.effects
    if now or fr.exits or fr.dead:
        return plain()
    r = margins(call('nrow' if k is ONE else 'ncol', X), ix, v)
    return r if r is not None else plain()


SPECIAL['apply'] = over_margin
SPECIAL_FUNS.add('apply')


@builtin('mapply', raw=True)
def b_mapply(E, args, n):
    m, dots = match_args([p for p, d in EXTRA_FORMALS['mapply']], args)
    f = m.get('FUN')
    if f is None or not dots or 'MoreArgs' in m:
        return None
    return do_mapply(E, f, dots, m.get('SIMPLIFY', TRUE), n)


@builtin('Map', raw=True)
def b_map(E, args, n):
    m, dots = match_args(['f', '...'], args)
    return do_mapply(E, m['f'], dots, FALSE, n)


def do_mapply(E, f, dots, simp, n):
    ix = fresh('ix')
    xs = [(nm, E.reify(v)) for nm, v in dots]
    cnt = length(xs[0][1])
    v = apply_fun(E, f, [(nm, el(x, ix)) for nm, x in xs], n)
    r = map_(cnt, lam([ix], v))
    E.names_of.setdefault(r, xs[0][1])
    return r if simp is FALSE else call('simplify', r)


@builtin('Reduce')
def b_reduce(E, m, dots, n):
    f = m['f']
    x = E.reify(m['x'])
    p, q = fresh('p'), fresh('p')
    v = apply_fun(E, f, [(None, p), (None, q)], n)
    g = lam([p, q], v)
    rest = tuple((k, E.reify(m[k])) for k in ('init', 'right', 'accumulate') if k in m and m[k] is not FALSE)
    return mk('reduce', g, x, rest)


@builtin('do.call', raw=True)
def b_docall(E, args, n):
    return None


@builtin('unlist')
def b_unlist(E, m, dots, n):
    x = E.reify(m['x'])
    if x.op == 'map' and 'recursive' not in m:
        return callt('unlist', (('x', x),))
    return None


@builtin('is.list', 'is.function', 'is.character', 'is.numeric', 'is.name', 'is.symbol', 'is.call', 'is.atomic', 'is.pairlist', 'is.matrix', 'is.factor')
def b_istype(E, m, dots, n):
    x = E.reify(next(iter(m.values())))
    f = n['f'].get('n') if n and n['f']['k'] == 'sym' else None
    return None


@builtin('environment', raw=True)
def b_environment(E, args, n):
    if len(args) == 1:
        return callt('environment', (('', E.reify(args[0][1])),))
    return None


@builtin('get', 'get0', raw=True)
def b_get(E, args, n):
    m, dots = match_args(['x', 'envir', 'mode', 'inherits'], [(('envir' if nm in ('pos',) else nm), v) for nm, v in args])
    x = E.reify(m['x'])
    e = E.reify(m['envir']) if 'envir' in m else None
    if e is not None and e.op == 'call' and e.args[0] == 'environment' and x.op == 'str':
        return mk('sread', e, x.args[0], (), mk('binding'))
    return None


@builtin('exists', 'mget', raw=True)
def b_mget(E, args, n):
    return None


@builtin('nlevels', raw=True)
def b_nlevels(E, args, n):
    return length(callt('levels', (('x', E.reify(args[0][1])),)))


@builtin('lengths', raw=True)
def b_lengths(E, args, n):
    if len(args) != 1:
        return None
    x = E.reify(args[0][1])
    ix = fresh('ix')
    return call('simplify', map_(length(x), lam([ix], length(el(x, ix)))))


@builtin('as.character', 'as.list', raw=True)
def b_asx(E, args, n):
    return None


@builtin('tail', raw=True)
def b_tail(E, args, n):
    if len(args) == 2 and all(nm in (None, 'x', 'n') for nm, v in args):
        x, k = E.reify(args[0][1]), E.reify(args[1][1])
        if isnum(k) and k.args[0] == 1:
            return idx(x, [length(x)])
        if isnum(k) and k.args[0] == -1:
            return idx(x, [k])
    return None


@builtin('head', raw=True)
def b_head(E, args, n):
    if len(args) == 2 and all(nm in (None, 'x', 'n') for nm, v in args):
        x, k = E.reify(args[0][1]), E.reify(args[1][1])
        if isnum(k) and k.args[0] < 0:
            return idx(x, [neg(length(x))]) if k.args[0] == -1 else None
        return idx(E.reify(args[0][1]), [call('seqlen', E.reify(args[1][1]))])
    return None


@builtin('eval', raw=True)
def b_eval(E, args, n):
    return None


@builtin('Recall', raw=True)
def b_recall(E, args, n):
    nm = next((s for s in reversed(E.stack) if isinstance(s, str)), None)
    return E.call_pkg(nm, args, n) if nm else None


def norm_exists(E):
    pass
