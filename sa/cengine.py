"""Value graphs of the C++ functions, computed from the syntax trees of the extractor.  Nothing is executed."""
import json
from fractions import Fraction
import terms as T_
import cterms as C
from cterms import *   # noqa
from terms import *    # noqa
C.install()
from cterms import coef, upd, size, rows, cols, seg, blk, row, col, esum, isscalar_c as isscalar   # noqa

BOOLS = C.BOOLS
VOIDT = ('v', None, '')


LIMITS = {('double', 'epsilon'): Fraction(1, 2 ** 52), ('double', 'min'): Fraction(1, 2 ** 1022), ('double', 'max'): (2 ** 53 - 1) * Fraction(2) ** 971,
          ('double', 'lowest'): -(2 ** 53 - 1) * Fraction(2) ** 971, ('int', 'max'): Fraction(2 ** 31 - 1), ('int', 'min'): Fraction(-2 ** 31),
          ('int', 'lowest'): Fraction(-2 ** 31)}


class Unmodelled(Exception):
    pass


# ------------------------------------------------------------------ program
class Prog:
    def __init__(self, parsed, rename=None):
        self.raw = parsed
        self.rename = rename or {}
        self.funs, self.bysig = {}, {}
        for s, f in parsed['functions'].items():
            k = self.canon(s)
            self.bysig[s] = k
            if k in self.funs and not f.get('body'):
                continue
            f['key'] = k
            self.funs[k] = f
        self.classes = parsed['classes']
        self.over = {}
        for c in self.classes.values():
            for m in c.get('methods', ()):
                for o in m.get('over') or ():
                    self.over.setdefault(self.canon(o), set()).add(self.canon(m['s']))
        self._calls, self._mut, self._reads, self._triv = {}, {}, {}, {}
        self.calls = {k: self.callees(k) for k in self.funs}

    def canon(self, s):
        i = s.find('(')
        t = s[i:]
        j = t.rfind(')')
        r = s[:i] + t[:j].replace('&', '') + ')' + (t[j + 1:] if '@' in t[j + 1:] else '')
        return self.rename.get(r, r)

    def fields(self, cls):
        out = []
        c = self.classes.get(cls)
        if not c:
            return out
        for b in c.get('bases', ()):
            out += self.fields(b)
        return out + c['fields']

    def bases(self, cls):
        out = [cls]
        for b in self.classes.get(cls, {}).get('bases', ()):
            out += self.bases(b)
        return out

    def walk(self, n):
        stack = [n]
        while stack:
            x = stack.pop()
            if isinstance(x, dict):
                yield x
                stack.extend(reversed(list(x.values())))
            elif isinstance(x, list):
                stack.extend(reversed(x))

    def nodes(self, f):
        yield from self.walk([f.get('inits'), f.get('body')])

    def callees(self, k):
        if k not in self._calls:
            out = set()
            for n in self.nodes(self.funs[k]):
                f = n.get('f')
                if isinstance(f, dict) and f.get('p') and 's' in f:
                    out.add(self.canon(f['s']))
            self._calls[k] = {x for x in out if x in self.funs}
        return self._calls[k]

    def trivial(self, k):
        if k not in self._triv:
            f = self.funs.get(k)
            r = False
            if f and f.get('body') is not None and not f.get('virt') and not self.over.get(k):
                ns = list(self.nodes(f))
                b = f['body']
                r = len(b.get('s', ())) <= (0 if f.get('ctor') else 1) and not any(
                    n.get('k') in ('for', 'while', 'do', 'rfor', 'lambda', 'throw', 'if', 'try') for n in ns)
                if f.get('ctor') and f.get('inits'):
                    for i in f['inits']:
                        e = i.get('e')
                        for n in self.walk(e):
                            if n.get('k') in ('call', 'mcall', 'ctor', 'new') and isinstance(n.get('f'), dict) and n['f'].get('p') \
                                    and self.canon(n['f'].get('s', '')) in self.funs and not self.trivial(self.canon(n['f']['s'])) \
                                    and n['k'] != 'ctor':
                                r = False
            self._triv[k] = r
        return self._triv[k]

    def reads(self, k, _st=None):
        """fields of its object that a method may read (None: the object as a whole)"""
        if k in self._reads:
            return self._reads[k]
        _st = _st or set()
        if k in _st:
            return set()
        _st = _st | {k}
        f = self.funs.get(k)
        if f is None:
            return None
        if f.get('virt') and self.over.get(k):
            return None
        out = set()
        ok = True

        def rec(n, par):
            nonlocal ok, out
            if not ok:
                return
            if isinstance(n, list):
                for x in n:
                    rec(x, par)
                return
            if not isinstance(n, dict):
                return
            if n.get('k') == 'this':
                ok = False
                return
            if n.get('k') == 'mem' and isinstance(n.get('b'), dict) and n['b'].get('k') == 'this':
                out.add(n['n'])
                return
            if n.get('k') == 'lambda':
                rec(n.get('body'), n)
                return
            if n.get('k') == 'mcall' and isinstance(n.get('o'), dict) and n['o'].get('k') == 'this' and n['f'].get('p'):
                g = self.canon(n['f'].get('s', ''))
                r = None if (n['f'].get('virt') and self.over.get(g)) else self.reads(g, _st)
                if r is None:
                    ok = False
                    return
                out |= r
                rec(n['a'], n)
                return
            for kk, v in n.items():
                if kk not in ('t', 'f', 'l'):
                    rec(v, n)
        rec([f.get('inits'), f.get('body')], None)
        r = out if ok else None
        if len(_st) == 1:
            self._reads[k] = r
        return r


# ------------------------------------------------------------------- values
class LV:
    """a place: root cell and path"""
    __slots__ = ('root', 'path', 't')

    def __init__(self, root, path=(), t=None):
        if root == 'THIS' and path and path[0][0] == 'f':
            root, path = ('this', path[0][1]), tuple(path[1:])
        self.root, self.path, self.t = root, tuple(path), t

    def ext(self, step, t=None):
        return LV(self.root, self.path + (step,), t)

    def key(self):
        return (self.root, self.path)


class It:
    """iterator / pointer into a container"""
    def __init__(self, lv, idx, rev=False, et=None, end=None, ct=None):
        self.lv, self.idx, self.rev, self.et, self.end, self.ct = lv, idx, rev, et, end, ct

    def same(self, o):
        return isinstance(o, It) and samelv(self.lv, o.lv) and self.rev == o.rev

    def at(self, idx):
        return It(self.lv, idx, self.rev, self.et, self.end, self.ct)


def samelv(a, b):
    if isinstance(a, LV) and isinstance(b, LV):
        return a.key() == b.key()
    return a is b


class Inner:
    """Eigen sparse inner iterator"""
    def __init__(self, lv, outer, pos):
        self.lv, self.outer, self.pos = lv, outer, pos


class Clo:
    def __init__(self, node, fr, caps):
        self.node, self.fr, self.caps = node, fr, caps


class BackIns:
    def __init__(self, lv):
        self.lv = lv


class Tie:
    def __init__(self, lvs):
        self.lvs = lvs


class Pair:
    def __init__(self, a, b):
        self.a, self.b = a, b


class Comma:
    def __init__(self, lv, parts):
        self.lv, self.parts = lv, parts


class State:
    def __init__(self, c=None):
        self.c = c if c is not None else {}
        self.dead = False

    def copy(self):
        s = State(dict(self.c))
        s.dead = self.dead
        return s


class Ctx:
    def __init__(self, kind):
        self.kind = kind
        self.pc = TRUE
        self.exits = []          # (kind, cond, value, cells)


class Frame:
    def __init__(self, f, key, this=None, up=None):
        self.f, self.key, self.this, self.up = f, key, this, up
        self.vars = {}
        self.cls = f.get('c') if f else None


_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


def arith(t):
    return t in ('i', 'u', 'd', 'b', 'f')


def isE(t):
    return t[:2] in ('EA', 'EM', 'ES', 'ED')


def _regs():
    return (INTS, SCALARS, VECTORS, BOOLS, C.NONSCALAR)


def take_regs():
    return tuple(set(s) for s in _regs())


def set_regs(*rs):
    """what is known about the types of atoms: exactly that of the given summaries"""
    for i, s in enumerate(_regs()):
        s.clear()
        for r in rs:
            if r is not None:
                s |= r[i]


def reg(t, v):
    """note the static type t of the atom v"""
    if not isinstance(v, T) or t is None:
        return v
    if t in ('i', 'u'):
        if v.op not in ('num', 'poly'):
            INTS.add(v)
            SCALARS.add(v)
    elif t in ('d', 'f'):
        if v.op not in ('num', 'poly'):
            SCALARS.add(v)
    elif t == 'b':
        BOOLS.add(v)
    elif t[:3] in ('EM1', 'EA1'):
        if v.op not in ('poly', 'num'):
            VECTORS.add(v)
    return v


_old_rebuild = T_.rebuild


def _rebuild(t, f):
    r = _old_rebuild(t, f)
    if r is not t and r.op == t.op:
        for s in (SCALARS, INTS, BOOLS, VECTORS, C.NONSCALAR):
            if t in s:
                s.add(r)
    return r


for _m in (T_, C):
    _m.rebuild = _rebuild
rebuild = _rebuild


def ceq(a, b):
    """equality of two numbers"""
    for x, y in ((a, b), (b, a)):
        if x.op == 'findidx' and y is size(x.args[0]):
            return not_(mk('isin', x.args[1], x.args[0]))
    d = sub(a, b) if (a.op in ('poly', 'num') or b.op in ('poly', 'num')) else None
    if d is not None and d.op == 'poly':
        td = terms_of(d)
        fi = [m[0][0] for m, c in td.items() if len(m) == 1 and m[0][0].op == 'findidx' and m[0][1] == 1]
        if len(fi) == 1 and sub(size(fi[0].args[0]), fi[0]) in (d, neg(d)):
            return not_(mk('isin', fi[0].args[1], fi[0].args[0]))
    return eq(a, b)


def fldt(o, n, t):
    r = fld(o, n)
    return reg(t, r) if r.op == 'fld' else r


def tobool(v):
    return v


class Engine:
    def __init__(self, prog, inline=(), record=True, ref=None, trivial=None):
        self.p = prog
        self.inline = set(inline)
        self.record = record
        self.sums = {}
        self.regs = {}
        self.stack = []
        self.st = State()
        self.ctx = Ctx('fun')
        self.ctx0 = self.ctx
        self.trivials = trivial
        self.file = None
        self.effs = []
        self.steps = 0
        self.notes = []

    # ------------------------------------------------------------- summary
    def summary(self, key):
        if key in self.sums:
            return self.sums[key]
        f = self.p.funs[key]
        saved = (self.st, self.ctx, self.stack, self.file, self.effs)
        oreg = take_regs()
        set_regs(None)
        self.st, self.ctx, self.stack, self.effs = State(), Ctx('fun'), [key], []
        self.file = f['file']
        try:
            fr = Frame(f, key, this=LV('THIS') if f.get('c') and not f.get('smeth') else None)
            if f.get('ctor'):
                self.init_fields(fr.this, f['c'])
            pars = []
            for i, p in enumerate(f['params']):
                v = reg(p['t'], sym('arg:%d' % i))
                k = ('l', uid())
                self.st.c[k] = v
                fr.vars[p['id']] = LV(k, (), p['t'])
                pars.append((i, p, k))
            if f.get('ctor'):
                self.run_inits(fr)
            if f.get('body'):
                self.stmt(f['body'], fr)
            val, fin = self.fold(self.ctx, f.get('ret', 'v'))
            effs = list(self.effs)
            if fr.this is not None:
                seen = {k for k in fin if isinstance(k, tuple) and k[0] == 'this'}
                for k in sorted(seen):
                    v0 = self.this0(k[1], f['c'])
                    v1 = fin[k]
                    v1 = self.reify(v1)
                    if v1 is not v0 or f.get('ctor'):
                        effs.append(mk('eff', 'set', TRUE, 'this.' + k[1], v1))
            for i, p, k in pars:
                if p.get('ref') and (p.get('mut') or p.get('mutptr')) or 'RcppR6::RcppR6<' in p['t']:     # also a handle
                    v1 = self.reify(fin[k])
                    if v1 is not sym('arg:%d' % i):
                        effs.append(mk('eff', 'set', TRUE, 'arg.%d' % i, v1))
            r = mk('outcome', self.reify(val), tuple(effs))
        finally:
            self.st, self.ctx, self.stack, self.file, self.effs = saved
            T_.CUR[0] = None
            self.regs[key] = take_regs()
            set_regs(oreg)
        self.sums[key] = r
        return r

    def this0(self, name, cls):
        for x in self.p.fields(cls):
            if x['n'] == name:
                return fldt(sym('THIS'), name, x['t'])
        return fld(sym('THIS'), name)

    def init_fields(self, lv, cls):
        for x in self.p.fields(cls):
            self.put(lv.ext(('f', x['n']), x['t']), self.default(x['t'], x.get('full')))

    def default(self, t, full=None):
        """value of a default initialised object"""
        if t.startswith('std::vector') or t.startswith('std::map') or t.startswith('std::basic_string') or t.startswith('std::set'):
            return EMPTY
        if t[:3] in ('EM1', 'EA1', 'EMr', 'EAr'):
            return mk('uninit', (ZERO,))
        if isE(t):
            return mk('uninit', (ZERO, ZERO))
        if t in self.p.classes:
            return mk('default', t)
        if t.startswith('std::shared_ptr') or t.startswith('std::function'):
            return NULL
        return reg(t, mk('undef', t if not arith(t) else 'n'))

    def fold(self, ctx, ret):
        """value and final cells of a function from its exits"""
        st = self.st
        val = None
        fin = failed = None
        if not st.dead:
            val = VOID
            fin = dict(st.c)
        for kind, cond, v, cells in reversed(ctx.exits):
            if kind == 'ret':
                val = v if val is None else (self.mergev(cond, v, val) if val is not VOID or v is VOID else v)
                fin = dict(cells) if fin is None else self.mergec(cond, cells, fin)
            elif kind == 'err':
                val = ERR if val is None else (self.mergev(cond, ERR, val) if isinstance(val, T) else val)
                if fin is None and failed is None:
                    failed = dict(cells)
        if fin is None:
            fin = failed
        if val is None:
            val = VOID
        return val, fin if fin is not None else dict(st.c)

    def mergec(self, c, a, b):
        if c is TRUE:
            return dict(a)
        out = {}
        for k in a:
            if k in b:
                x, y = a[k], b[k]
                out[k] = x if x is y else self.mergev(c, x, y)
        for k in b:
            if k not in a and isinstance(k, tuple) and k[0] == 'this':
                out[k] = self.mergev(c, self.orig(k), b[k])
        for k in a:
            if k not in b and isinstance(k, tuple) and k[0] == 'this':
                out[k] = self.mergev(c, a[k], self.orig(k))
        return out

    def orig(self, k):
        return self.this0(k[1], self.stack and self.p.funs[self.stack[0]].get('c'))

    def mergev(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            if c is TRUE:
                return a
            if c is FALSE:
                return b
            r = merge(c, a, b)
            if r.op == 'ite':
                for s in (SCALARS, INTS, BOOLS, VECTORS):
                    if (a in s or isnum(a)) and (b in s or isnum(b)) and (a in s or b in s):
                        s.add(r)
            return r
        if isinstance(a, It) and a.same(b):
            return a.at(self.mergev(c, a.idx, b.idx))
        if isinstance(a, Inner) and isinstance(b, Inner) and samelv(a.lv, b.lv):
            return Inner(a.lv, self.mergev(c, a.outer, b.outer), self.mergev(c, a.pos, b.pos))
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is VOID or b is VOID:
            return VOID
        return self.mergev(c, self.reify(a), self.reify(b))

    # ----------------------------------------------------------- reification
    def reify(self, v):
        if isinstance(v, T):
            return v
        if isinstance(v, It):
            base = self.get(v.lv) if isinstance(v.lv, LV) else v.lv
            return mk('iter', base, v.idx, v.rev)
        if isinstance(v, Inner):
            return mk('inner', self.get(v.lv) if isinstance(v.lv, LV) else v.lv, v.outer, v.pos)
        if isinstance(v, Clo):
            return self.reify_clo(v)
        if isinstance(v, LV):
            return self.get(v)
        if isinstance(v, Pair):
            return mk('tup', (self.reify(v.a), self.reify(v.b)))
        if isinstance(v, Comma):
            return VOID
        if isinstance(v, BackIns):
            return mk('backins', self.reify(v.lv))
        raise Unmodelled('value %r' % (v,))

    def reify_clo(self, v):
        ps = v.node['params']
        xs = [reg(p['t'], fresh('ix' if False else 'p')) for p in ps]
        for p, x in zip(ps, xs):
            reg(p['t'], x)

        def once():
            r = self.apply_clo(v, list(xs), pure=True)
            return self.reify(r)
        saved = self.st
        self.st = saved.copy()
        before = dict(self.st.c)
        r1 = once()
        changed = [k for k in before if self.st.c.get(k) is not before[k]]
        if changed:
            # scratch captured by reference: the value may not depend on what the last call left there
            sub_ = {}
            for k in changed:
                h = fresh('h')
                b = before[k]
                if not isinstance(b, T):
                    raise Unmodelled('closure state')
                copyreg(b, h)
                sub_[k] = h
            s2 = State(dict(before))
            # the scratch as any earlier calls may have left it: the last write of a call is overwritten by the next
            s2.c.update({k: self.st.c[k] for k in changed})
            ys = [reg(p['t'], fresh('p')) for p in ps]
            s2.c = {k: (subst_vars(x, dict(zip(xs, ys))) if isinstance(x, T) else x) for k, x in s2.c.items()}
            self.st = s2
            r2 = once()
            if r2 is not r1:
                self.st = saved
                return mk('impure', mk('lam', len(xs), lam(xs, r1).args[1]) if xs else r1)
        self.st = saved
        return lam(xs, r1) if xs else mk('lam', 0, r1)

    def apply_clo(self, v, args, pure=False):
        """value of a closure on rvalues / places"""
        node = v.node
        key = ('clo', id(node))
        if self.stack.count(key) > 1:
            raise Unmodelled('recursive closure')
        fr = Frame(v.fr.f, v.fr.key, this=v.caps.get('this', v.fr.this), up=v.fr)
        fr.vars = dict(v.fr.vars)
        for cid, x in v.caps.items():
            if cid != 'this':
                fr.vars[cid] = x
        for p, a in zip(node['params'], args):
            self.bind(fr, p, a)
        return self.body(fr, node['body'], node.get('ret', 'v'), key)

    def body(self, fr, b, ret, key, pre=None):
        """run a body as a function called here; its value"""
        octx = self.ctx
        self.ctx = Ctx('fun')
        self.stack.append(key)
        try:
            if pre:
                pre()
            if b is not None:
                self.stmt(b, fr)
            val, fin = self.fold(self.ctx, ret)
            errs = []
            prior = []
            for kind, cond, v, cells in self.ctx.exits:
                if kind == 'err':
                    errs.append(and_(cond, *[not_(c) for c in prior]))
                elif kind == 'ret':
                    prior.append(cond)
            alldead = self.st.dead and not any(e[0] == 'ret' for e in self.ctx.exits)
        finally:
            self.stack.pop()
            self.ctx = octx
        for c in errs:
            self.exit('err', and_(self.ctx.pc, c), ERR)
        s = State(fin)
        s.dead = alldead
        self.st = s
        if errs and isinstance(val, T) and val.op == 'ite':
            for c in errs:
                val = assume(val, c, False)
        if errs and isinstance(val, T):
            val = dropERR(val)
        return val

    def exit(self, kind, cond, val):
        if cond is FALSE:
            return
        self.ctx.exits.append((kind, cond, val, dict(self.st.c)))

    def bind(self, fr, p, a):
        if p.get('ref') and isinstance(a, LV):
            fr.vars[p['id']] = a
            return
        if isinstance(a, LV):
            a = self.get(a)
        k = ('l', uid())
        self.st.c[k] = a
        fr.vars[p['id']] = LV(k, (), p['t'])

    # ------------------------------------------------------------ places
    def cell(self, root):
        c = self.st.c
        if root in c:
            return c[root]
        if root == 'THIS':
            t = sym('THIS')
            for k, v in sorted(((k, v) for k, v in c.items() if isinstance(k, tuple) and k[0] == 'this'), key=lambda kv: kv[0]):
                t = setf(t, k[1], self.reify(v))
            return t
        if isinstance(root, tuple) and root[0] == 'this':
            return self.orig(root)
        raise Unmodelled('no cell %r' % (root,))

    def get(self, lv):
        if isinstance(lv, T):
            return lv
        v = self.cell(lv.root)
        for s in lv.path:
            v = self.step(v, s)
        if isinstance(v, T) and lv.t and v.op in ('fld', 'coef', 'ocoef', 'mapat', 'sym', 'var'):
            reg(lv.t, v)
        return v

    def step(self, v, s):
        if not isinstance(v, T):
            raise Unmodelled('step into %r' % (v,))
        k = s[0]
        if k == 'f':
            if v.op == 'tup' and s[1] in ('first', 'second'):
                return v.args[0][0 if s[1] == 'first' else 1]
            if v.op == 'default':
                return self.deffield(v, s[1])
            return fld(v, s[1])
        if k == 'i':
            return coef(v, s[1])
        if k == 'o':
            return ocoef(v, s[1])
        if k == 'seg':
            return getput(v, s, lambda: seg(v, s[1], s[2]))
        if k == 'blk':
            return getput(v, s, lambda: blk(v, *s[1:]))
        if k == 'row':
            return getput(v, s, lambda: row(v, s[1]))
        if k == 'col':
            return getput(v, s, lambda: col(v, s[1]))
        if k == 'key':
            return mapat(v, s[1])
        if k == 'nz':
            return getput(v, s, lambda: reg('d', mk('nzat', nzbase(v), s[1], s[2])))
        if k == 't':
            return trans(v)
        raise Unmodelled('step %s' % k)

    def deffield(self, v, n):
        for x in self.p.fields(v.args[0]):
            if x['n'] == n:
                return reg(x['t'], mk('fld', v, n)) if not x['t'].startswith('std::vector') else fld(v, n)
        return fld(v, n)

    def put(self, lv, x):
        if not isinstance(lv, LV):
            raise Unmodelled('assignment to a value')
        if lv.root == 'THIS':
            if not isinstance(x, T):
                raise Unmodelled('assignment to this')
            for f in self.p.fields(self.p.funs[self.stack[0]]['c']):
                self.st.c[('this', f['n'])] = fldt(x, f['n'], f['t'])
            return
        if not lv.path:
            self.st.c[lv.root] = x
            return
        x = self.reify(x)

        def go(v, path):
            if not path:
                return x
            s = path[0]
            k = s[0]
            if len(path) > 1:
                new = go(self.step(v, s), path[1:])
            else:
                new = x
            if k == 'f':
                return setf(v, s[1], new)
            if k in ('i', 'o'):
                return updc(v, s[1], new)
            if k in ('seg', 'blk', 'row', 'col', 'nz'):
                return putput(v, s, new)
            if k == 'key':
                return mk('mapset', v, s[1], new) if not (v.op == 'mapset' and v.args[1] is s[1]) else mk('mapset', v.args[0], s[1], new)
            if k == 't':
                return trans(new)
            raise Unmodelled('put %s' % k)
        self.st.c[lv.root] = go(self.cell(lv.root), lv.path)

    # ------------------------------------------------------------- branching
    def branch(self, c, fa, fb):
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb()
        base, pc = self.st, self.ctx.pc
        self.st = base.copy()
        self.ctx.pc = and_(pc, c)
        va = fa()
        sa = self.st
        self.st = base.copy()
        self.ctx.pc = and_(pc, not_(c))
        vb = fb()
        sb = self.st
        self.ctx.pc = pc
        if sa.dead and sb.dead:
            self.st = sb
            return None
        if sa.dead:
            self.st = sb
            return vb
        if sb.dead:
            self.st = sa
            return va
        self.st = State(self.mergec(c, sa.c, sb.c))
        if va is None or vb is None:
            return va if vb is None else vb
        return self.mergev(c, va, vb)

    # ------------------------------------------------------------ statements
    def stmt(self, s, fr):
        if s is None or self.st.dead:
            return
        self.steps += 1
        if self.steps > 400000:
            raise Unmodelled('too long')
        if self.record and s.get('l'):
            T_.CUR[0] = (self.file, s['l'])
        k = s['k']
        if k == 'expr':
            self.ev(s['e'], fr)
        elif k == 'blk':
            for x in s['s']:
                if self.st.dead:
                    return
                self.stmt(x, fr)
        elif k == 'decl':
            for v in s['v']:
                self.decl(v, fr)
        elif k == 'if':
            if s.get('init'):
                self.stmt(s['init'], fr)
            if s.get('cv'):
                self.decl(s['cv'], fr)
            c = self.cond(s['c'], fr)
            self.branch(c, lambda: self.stmt(s['a'], fr), lambda: self.stmt(s.get('b'), fr))
        elif k == 'for':
            if s.get('init'):
                self.stmt(s['init'], fr)
            self.loop(fr, s.get('c'), s.get('inc'), s['body'])
        elif k == 'rfor':
            self.rfor(s, fr)
        elif k == 'while':
            self.loop(fr, s['c'], None, s['body'])
        elif k == 'do':
            ctx = self.ctx
            self.ctx = Ctx('loop')
            self.stmt(s['body'], fr)
            if self.ctx.exits:
                raise Unmodelled('exits from a do loop')
            self.ctx = ctx
            self.loop(fr, s['c'], None, s['body'])
        elif k == 'ret':
            v = VOID
            if s.get('e') is not None:
                v = self.ev(s['e'], fr)
                rt = self.rett(fr)
                if isinstance(v, LV) and getattr(fr, 'keepref', False):
                    self.exit('ret', self.ctx.pc, v)
                    self.st.dead = True
                    return
                v = self.conv(v, s['e'].get('t'), rt)
                if isinstance(v, LV):
                    v = self.get(v)
            self.exit('ret', self.ctx.pc, v)
            self.st.dead = True
        elif k == 'break':
            self.exit('brk', self.ctx.pc, None)
            self.st.dead = True
        elif k == 'cont':
            self.exit('cnt', self.ctx.pc, None)
            self.st.dead = True
        elif k == 'nop':
            pass
        elif k == 'try':
            raise Unmodelled('try')
        elif k == 'switch':
            self.switch(s, fr)
        else:
            raise Unmodelled('statement %s' % (s.get('w') or k))

    def rett(self, fr):
        k = self.stack[-1]
        if isinstance(k, tuple) and k[0] == 'clo':
            return None
        return self.p.funs[k].get('ret') if k in self.p.funs else None

    def switch(self, s, fr):
        raise Unmodelled('switch')

    def decl(self, v, fr):
        if v['k'] != 'var':
            return
        e = v.get('init')
        if v.get('ref'):
            x = self.ev(e, fr, lvok=True)
            if isinstance(x, LV):
                fr.vars[v['id']] = x
                return
            if isinstance(x, T) and x.op == 'ite' and False:
                pass
        elif e is None:
            x = self.default(v['t'], v.get('full'))
        else:
            x = self.ev(e, fr)
            x = self.conv(x, e.get('t'), v['t'])
        if isinstance(x, LV):
            x = self.get(x)
        k = ('l', uid())
        self.st.c[k] = x
        fr.vars[v['id']] = LV(k, (), v['t'])

    def cond(self, e, fr):
        v = self.rv(e, fr)
        t = e.get('t')
        if t in ('i', 'u', 'd') and not T_.isbool(v) and v not in BOOLS:
            v = not_(ceq(v, ZERO))
        return v

    # ----------------------------------------------------------- expressions
    def rv(self, e, fr):
        v = self.ev(e, fr)
        if isinstance(v, LV):
            v = self.get(v)
        return v

    def term(self, e, fr):
        return self.reify(self.rv(e, fr))

    def conv(self, v, a, b):
        if b is None or a is None or a == b or isinstance(v, LV):
            return v
        if not isinstance(v, T):
            return v
        ra, rb = a[:3] in ('EMr', 'EAr'), b[:3] in ('EM1', 'EA1')
        if ra and rb:
            return trans(v)
        if a[:3] in ('EM1', 'EA1') and b[:3] in ('EMr', 'EAr'):
            return trans(v)
        if a == 'd' and b in ('i', 'u'):
            return trunc(v)
        if a == 'b' and b in ('i', 'u', 'd'):
            return ite(v, ONE, ZERO)
        if a in ('i', 'u', 'd') and b == 'b':
            return not_(ceq(v, ZERO))
        return v

    def ev(self, e, fr, lvok=False):
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            if k == 'unk':
                raise Unmodelled('expression %s' % e.get('w'))
            raise Unmodelled('expression %s' % k)
        return m(e, fr)

    def e_int(self, e, fr):
        return num(e['v'])

    def e_flt(self, e, fr):
        s = str(e.get('src', '')).rstrip('fFlL')
        try:
            return num(Fraction(s)) if s else num(Fraction(repr(e['v'])))
        except (ValueError, ZeroDivisionError):
            return num(Fraction(repr(float(e['v']))))

    def e_bool(self, e, fr):
        return lgl(bool(e['v']))

    def e_str(self, e, fr):
        return s_(e['v'])

    def e_null(self, e, fr):
        return NULL

    def e_zero(self, e, fr):
        t = e.get('t', 'd')
        if arith(t):
            return FALSE if t == 'b' else ZERO
        return self.default(t)

    def e_this(self, e, fr):
        if fr.this is None:
            raise Unmodelled('this')
        return It(fr.this, None)

    def e_ref(self, e, fr):
        d = e['d']
        if d in ('parm', 'local', 'slocal'):
            lv = fr.vars.get(e['id'])
            if lv is None:
                raise Unmodelled('unknown variable ' + e['n'])
            if isinstance(lv, LV) and lv.t is None:
                lv.t = e['t']
            return lv
        if d == 'enum':
            return mk('enum', e.get('q') or e['n'])
        if d == 'fn':
            f = e.get('f') or {}
            return mk('fnref', self.p.canon(f['s']) if f.get('p') and 's' in f else e.get('q', e['n']))
        return reg(e['t'], mk('global', e.get('q') or e['n']))

    def e_mem(self, e, fr):
        b = e.get('b')
        if b is None:
            return reg(e['t'], mk('global', e['n']))
        if b['k'] == 'this':
            if fr.this is None:
                raise Unmodelled('this')
            if isinstance(fr.this, LV):
                return fr.this.ext(('f', e['n']), e['t'])
            return fldt(fr.this, e['n'], e['t'])
        o = self.ev(b, fr)
        o = self.deref(o) if e.get('arrow') else o
        if isinstance(o, LV):
            return o.ext(('f', e['n']), e['t'])
        if isinstance(o, Pair):
            return o.a if e['n'] == 'first' else o.b
        o = self.reify(o)
        return reg(e['t'], self.step(o, ('f', e['n'])))

    def deref(self, o):
        if isinstance(o, LV):
            v = self.get(o)
            if isinstance(v, It):
                return self.deref(v)
            return o          # pointers are transparent
        if isinstance(o, It):
            if o.idx is None:
                return o.lv
            i = o.idx
            if o.rev:
                base = self.get(o.lv) if isinstance(o.lv, LV) else o.lv
                i = sub(sub(size(base), ONE), i)
            st = ('i' if o.et is None or arith(o.et) else 'o', (i,))
            if isinstance(o.lv, LV):
                return o.lv.ext(st, o.et)
            return reg(o.et, self.step(o.lv, st))
        if isinstance(o, BackIns):
            return o
        return o

    def e_copy(self, e, fr):
        v = self.ev(e['e'], fr)
        if isinstance(v, LV):
            v = self.get(v)
        return self.conv(v, e['e'].get('t'), e.get('t'))

    def e_dflt(self, e, fr):
        return self.ev(e['e'], fr) if e.get('e') else MISSING

    def e_cast(self, e, fr):
        v = self.rv(e['e'], fr)
        ck = e['ck']
        if ck == 'FloatingToIntegral':
            return trunc(self.reify(v))
        if ck == 'IntegralToBoolean':
            return not_(ceq(self.reify(v), ZERO)) if not (T_.isbool(v) or v in BOOLS) else v
        if ck == 'IntegralToFloating':
            if isinstance(v, T) and (T_.isbool(v) or v in BOOLS):
                return ite(v, ONE, ZERO)
            return v
        return self.conv(v, e['e'].get('t'), e.get('t')) if ck != 'ConstructorConversion' else self.conv(v, e['e'].get('t'), e.get('t'))

    def e_cond(self, e, fr):
        c = self.cond(e['c'], fr)
        return self.branch(c, lambda: self.rv(e['a'], fr), lambda: self.rv(e['b'], fr))

    def e_throw(self, e, fr):
        self.exit('err', self.ctx.pc, ERR)
        self.st.dead = True
        return VOID

    def e_lambda(self, e, fr):
        caps = {}
        for c in e.get('caps', ()):
            if c.get('this'):
                caps['this'] = fr.this
                continue
            if c.get('byref'):
                caps[c['id']] = fr.vars[c['id']]
            else:
                x = fr.vars[c['id']]
                v = self.get(x) if isinstance(x, LV) else x
                k = ('l', uid())
                self.st.c[k] = v
                caps[c['id']] = LV(k, (), c.get('t'))
        return Clo(e, fr, caps)

    def e_ilist(self, e, fr):
        return mk('list', tuple(self.term(x, fr) for x in e['a']))

    def e_new(self, e, fr):
        return self.ev(e['e'], fr)

    def e_delete(self, e, fr):
        return VOID

    def e_subs(self, e, fr):
        o = self.ev(e['a'], fr)
        i = self.term(e['b'], fr)
        return self.index(o, (i,), e['t'])

    def e_un(self, e, fr):
        op = e['op']
        if op in ('++', '--'):
            lv = self.ev(e['e'], fr)
            if not isinstance(lv, LV):
                raise Unmodelled('++ of a value')
            v = self.get(lv)
            n = self.advance(v, ONE if op == '++' else num(-1))
            self.put(lv, n)
            return v if e.get('post') else lv
        if op == '*':
            return self.deref(self.ev(e['e'], fr))
        if op == '&':
            o = self.ev(e['e'], fr)
            return It(o, None) if isinstance(o, LV) else o
        v = self.rv(e['e'], fr)
        v = self.reify(v)
        if op == '-':
            return neg(v)
        if op == '+':
            return v
        if op == '!':
            if e['e'].get('t') in ('i', 'u', 'd') and not T_.isbool(v) and v not in BOOLS:
                return ceq(v, ZERO)
            return not_(v)
        return mk('call', 'un' + op, (('', v),))

    def advance(self, v, d):
        if isinstance(v, It):
            return v.at(add(v.idx, d))
        if isinstance(v, Inner):
            return Inner(v.lv, v.outer, add(v.pos, d))
        return reg('i', add(v, d))

    def e_bin(self, e, fr):
        op = e['op']
        if op in ('&&', '||'):
            a = self.cond(e['a'], fr)
            if op == '&&':
                r = self.branch(a, lambda: self.cond(e['b'], fr), lambda: FALSE)
            else:
                r = self.branch(a, lambda: TRUE, lambda: self.cond(e['b'], fr))
            return r if r is not None else FALSE
        if op == ',':
            self.ev(e['a'], fr)
            return self.ev(e['b'], fr)
        a, b = self.rv(e['a'], fr), self.rv(e['b'], fr)
        return self.binop(op, a, b, e['a'].get('t'), e['b'].get('t'), e.get('t'))

    def binop(self, op, a, b, ta, tb, t):
        if isinstance(a, It) and op in ('+', '-') and not isinstance(b, It):
            return a.at(add(a.idx, b if op == '+' else neg(b)))
        if isinstance(a, It) and isinstance(b, It):
            if not samelv(a.lv, b.lv) or a.idx is None or b.idx is None:
                return reg('b', mk('call', 'ptr' + op, (('', self.reify(a) if a.idx is not None else sym('ptr')), ('', self.reify(b) if b.idx is not None else sym('ptr')))))
            if op == '-':
                return sub(a.idx, b.idx)
            a, b, ta, tb = a.idx, b.idx, 'i', 'i'
        a, b = self.reify(a), self.reify(b)
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return self.times(a, b, ta or '', tb or '')
        if op == '/':
            if ta in ('i', 'u', 'b') and tb in ('i', 'u', 'b') and t in ('i', 'u'):
                return idiv(a, b)
            return div(a, b)
        if op == '%':
            return imod(a, b)
        if op == '<':
            return self.clt(a, b)
        if op == '>':
            return self.clt(b, a)
        if op == '<=':
            return not_(self.clt(b, a))
        if op == '>=':
            return not_(self.clt(a, b))
        if op in ('==', '!='):
            if ta is not None and (arith(ta) or ta.startswith('E:')) and tb is not None and (arith(tb) or tb.startswith('E:')):
                r = ceq(a, b)
            else:
                r = veq(a, b)
            return r if op == '==' else not_(r)
        if op == '<<':
            return mul(a, pow2(b))
        if op == '>>':
            return idiv(a, pow2(b))
        if op in ('&', '|', '^') and (ta == 'b' or T_.isbool(a) or a in BOOLS) and (tb == 'b' or T_.isbool(b) or b in BOOLS):
            return and_(a, b) if op == '&' else or_(a, b) if op == '|' else not_(eq(a, b))
        if op in ('&', '|', '^'):
            return reg(t, call('bit' + op, a, b))
        raise Unmodelled('operator ' + op)

    def clt(self, a, b):
        # comparisons of a findidx with the size of its container
        for x, y, r in ((a, b, True),):
            if x.op == 'findidx' and y is size(x.args[0]):
                return mk('isin', x.args[1], x.args[0])
        return lt(a, b)

    def times(self, a, b, ta, tb):
        if isE(ta) and isE(tb) and not (ta.startswith('EA') and tb.startswith('EA')):
            return mm(a, b)
        return mul(a, b)

    def e_asg(self, e, fr):
        op = e['op']
        if op == '=':
            x = self.rv(e['b'], fr)
            lv = self.ev(e['a'], fr)
            x = self.conv(x, e['b'].get('t'), e['a'].get('t'))
            self.put(lv, x)
            return lv
        x = self.rv(e['b'], fr)
        lv = self.ev(e['a'], fr)
        v = self.get(lv) if isinstance(lv, LV) else lv
        ta = e['a'].get('t')
        r = self.binop(op[:-1], v, x, e.get('ct') or ta, e['b'].get('t') if (e.get('ct') or ta) != 'd' else 'd', e.get('ct') or ta)
        if e.get('ct') == 'd' and ta in ('i', 'u'):
            r = trunc(r)
        self.put(lv, r)
        return lv

    # ---------------------------------------------------- overloaded operators
    def e_op(self, e, fr):
        op, f, a = e['op'], e['f'], e['a']
        if f.get('p'):
            if f.get('c') and not f.get('static'):
                return self.project(f, a[0], a[1:], fr, e)
            return self.project(f, None, a, fr, e)
        t0 = a[0].get('t', '')
        if op == '=':
            x = self.rv(a[1], fr)
            lv = self.ev(a[0], fr)
            x = self.conv(x, a[1].get('t'), t0)
            if isinstance(lv, Tie):
                self.assign_tie(lv, x)
                return lv
            if isinstance(lv, BackIns):
                self.put(lv.lv, append(self.get(lv.lv), self.reify(x)))
                return lv
            if isinstance(x, T) and isE(t0) and scalarish(x) and not isE(a[1].get('t', '')) and isnum(x) and isinstance(lv, LV):
                x = mk('const', (size(self.get(lv)),), x)
            self.put(lv, x)
            return lv
        if op in ('+=', '-=', '*=', '/='):
            x = self.rv(a[1], fr)
            lv = self.ev(a[0], fr)
            v = self.get(lv) if isinstance(lv, LV) else lv
            if isinstance(v, It):
                self.put(lv, v.at(add(v.idx, x if op == '+=' else neg(x))))
                return lv
            tb = a[1].get('t', '')
            if isinstance(v, T) and t0.startswith('std::basic_string') or isinstance(x, T) and x.op == 'str':
                self.put(lv, mk('call', 'strcat', (('', v), ('', x))))
                return lv
            x = self.conv(x, tb, t0) if t0[:1] == 'E' else x
            self.put(lv, self.binop(op[0], v, x, t0, tb, t0))
            return lv
        if op == '()':
            o = self.ev(a[0], fr)
            if t0 == 'lambda' or t0.startswith('std::function') or isinstance(self.peek(o), Clo):
                fn = self.get(o) if isinstance(o, LV) else o
                return self.callval(fn, a[1:], fr, e)
            idx = tuple(self.term(x, fr) for x in a[1:])
            return self.index(o, idx, e['t'])
        if op == '[]':
            o = self.ev(a[0], fr)
            if t0.startswith('std::map'):
                i = self.term(a[1], fr)
                return o.ext(('key', i), e['t']) if isinstance(o, LV) else mapat(o, i)
            if t0.startswith('boost::adjacency_list'):
                i = self.term(a[1], fr)
                return o.ext(('key', i), e['t']) if isinstance(o, LV) else mapat(o, i)
            i = self.term(a[1], fr)
            if isinstance(self.peek(o), It):
                it = self.peek(o)
                return self.deref(it.at(add(it.idx, i)))
            return self.index(o, (i,), e['t'])
        if op in ('*', '->') and len(a) == 1:
            o = self.ev(a[0], fr)
            v = self.peek(o)
            if isinstance(v, It):
                if v.et is None and arith(e['t']):
                    v = It(v.lv, v.idx, v.rev, e['t'], v.end, v.ct)
                elif v.et is None and op == '*':
                    v = It(v.lv, v.idx, v.rev, e['t'], v.end, v.ct)
                if v.ct == 'vertices':
                    return v.idx
                if v.ct == 'adjacent':
                    return reg('u', ocoef(v.lv, (v.idx,)))
                if op == '->' and v.et is None:
                    v = It(v.lv, v.idx, v.rev, 'o', v.end, v.ct)
                return self.deref(v)
            return o if op == '->' else self.deref(o)
        if op in ('++', '--'):
            lv = self.ev(a[0], fr)
            v = self.peek(lv)
            if isinstance(v, BackIns):
                return lv
            n = self.advance(v, ONE if op == '++' else num(-1))
            self.put(lv, n)
            return v if len(a) > 1 else lv
        if op == '<<' and (isE(t0)):
            lv = self.ev(a[0], fr)
            x = self.conv(self.term(a[1], fr), None, None)
            self.put(lv, vcat([x], t0, a[1].get('t', '')))
            return Comma(lv, [x])
        if op == ',':
            c = self.ev(a[0], fr)
            if isinstance(c, Comma):
                x = self.term(a[1], fr)
                parts = c.parts + [x]
                self.put(c.lv, vcat(parts, t0, a[1].get('t', '')))
                return Comma(c.lv, parts)
            return self.ev(a[1], fr)
        if op == '-' and len(a) == 1:
            return neg(self.term(a[0], fr))
        if op == '!' and len(a) == 1:
            return not_(self.term(a[0], fr))
        if len(a) == 2:
            x, y = self.rv(a[0], fr), self.rv(a[1], fr)
            if isinstance(x, It) and isinstance(y, It) and x.end is not None:
                pass
            if op in ('==', '!=') and isinstance(x, It) and isinstance(y, It):
                if x.lv is y.lv or samelv(x.lv, y.lv):
                    r = ceq(x.idx, y.idx)
                    return r if op == '==' else not_(r)
            t1 = a[1].get('t', '')
            if op == '+' and (t0.startswith('std::basic_string') or t1.startswith('std::basic_string')):
                return mk('call', 'strcat', (('', self.reify(x)), ('', self.reify(y))))
            if op == '<<':
                return mk('call', 'stream', (('', self.reify(x)), ('', self.reify(y))))
            return self.binop(op, x, y, t0, t1, e.get('t'))
        raise Unmodelled('operator ' + op)

    def peek(self, o):
        if isinstance(o, LV):
            try:
                return self.get(o)
            except Unmodelled:
                return None
        return o

    def index(self, o, idx, t):
        st = ('i' if arith(t) else 'o', idx)
        if isinstance(o, LV):
            v = self.peek(o)
            if isinstance(v, It):
                return self.deref(It(v.lv, add(v.idx, idx[0]), v.rev, t, v.end, v.ct))
            return o.ext(st, t)
        o = self.reify(o)
        return reg(t, self.step(o, st))

    def assign_tie(self, tie, x):
        if isinstance(x, Pair):
            xs = [x.a, x.b]
        else:
            x = self.reify(x)
            xs = [self.step(x, ('f', 'first')), self.step(x, ('f', 'second'))]
        for lv, v in zip(tie.lvs, xs):
            if lv is not None:
                self.put(lv, v)

    def callval(self, fn, args, fr, e):
        if isinstance(fn, Clo):
            xs = []
            for p, a in zip(fn.node['params'], args):
                v = self.ev(a, fr)
                if isinstance(v, LV) and not p.get('ref'):
                    v = self.get(v)
                xs.append(v)
            return self.apply_clo(fn, xs)
        fn = self.reify(fn)
        xs = tuple(self.term(a, fr) for a in args)
        if fn.op == 'lam' and fn.args[0] == len(xs):
            return apply_lam(fn, list(xs))
        return reg(e['t'], mk('app', fn, xs))

    # -------------------------------------------------------------- calls
    def e_ctor(self, e, fr):
        f, t, a = e.get('f') or {}, e['t'], [x for x in e['a'] if x.get('k') != 'dflt' or x.get('e')]
        if f.get('p') and 's' in f:
            return self.construct(f, e, fr)
        cls = e.get('c', '')
        if t in self.p.classes:
            if not a:
                return self.default_obj(t, fr)
            return self.rv(a[0], fr)
        if t.startswith('std::vector'):
            a = [x for x in a if not (x.get('t', '').startswith('std::allocator'))]
            if not a:
                return EMPTY
            if e.get('sil') or a[0]['k'] == 'ilist':
                return self.rv(a[0], fr)
            vs = [self.rv(x, fr) for x in a]
            if len(vs) == 2 and isinstance(vs[0], It) and isinstance(vs[1], It):
                return self.range(vs[0], vs[1])
            if len(vs) == 1 and (a[0].get('t') in ('i', 'u')):
                et = t[t.find('<') + 1:-1]
                if et in ('int', 'double', 'unsigned int', 'bool', 'unsigned long', 'long', 'float'):
                    n = self.reify(vs[0])
                    if isnum(n) and n.args[0] == 0:
                        return EMPTY
                    return mk('zeros', (n,)) if et != 'bool' else mk('const', (n,), FALSE)
                if isnum(vs[0]) and vs[0].args[0] == 0:
                    return EMPTY
                return mk('nrepl', self.reify(vs[0]), self.default(et))
            if len(vs) == 2 and a[0].get('t') in ('i', 'u'):
                n = self.reify(vs[0])
                return cmap(n, mk('lam', 1, self.reify(vs[1])))
            return self.reify(vs[0]) if len(vs) == 1 else mk('call', 'vector', tuple(('', self.reify(v)) for v in vs))
        if t.startswith('E:') and 'InnerIterator' in t:
            lv = self.ev(a[0], fr)
            return Inner(lv, self.term(a[1], fr), ZERO)
        if t.startswith('E:SelfAdjointEigenSolver'):
            return mk('call', 'saes', (('', self.term(a[0], fr)),)) if a else mk('call', 'saes', ())
        if isE(t) or 'PrivateType' in cls or cls.startswith('Eigen::'):
            if not a:
                return self.default(t)
            ts = [x.get('t', '') for x in a]
            if all(x in ('i', 'u') for x in ts) and (isE(t) and not t.startswith('ED')):
                ns = tuple(self.term(x, fr) for x in a[:2])
                return reg(t, mk('uninit', ns))
            v = self.rv(a[0], fr)
            return self.conv(v, ts[0], t)
        if t.startswith('std::shared_ptr') or t.startswith('std::unique_ptr'):
            return self.rv(a[0], fr) if a else NULL
        if t.startswith('std::function'):
            return self.rv(a[0], fr) if a else NULL
        if t.startswith('boost::math::normal'):
            vs = [self.term(x, fr) for x in a]
            vs += [ZERO, ONE][len(vs):]
            return call('normal', *vs)
        if 'iterator' in t:
            if not a:
                return NULL
            return self.rv(a[0], fr)
        if t.startswith('std::basic_string'):
            a = [x for x in a if not x.get('t', '').startswith('std::allocator')]
            return self.term(a[0], fr) if len(a) == 1 else (s_('') if not a else mk('call', 'string', tuple(('', self.term(x, fr)) for x in a)))
        if t.startswith(('std::map', 'std::set')) and not a:
            return EMPTY
        if t.startswith('boost::adjacency_list') and not [x for x in a if x.get('t') not in ('boost::no_property',)]:
            return mk('call', 'graph', ())
        if len(a) == 1 and a[0].get('t') == t:
            return self.rv(a[0], fr)
        return mk('call', 'new:' + cls, tuple(('', self.term(x, fr)) for x in a))

    def default_obj(self, t, fr):
        return mk('default', t)

    def construct(self, f, e, fr):
        key = self.p.canon(f['s'])
        g = self.p.funs.get(key)
        args = e['a']
        if g is None or g.get('body') is None and not g.get('inits'):
            if not args:
                return mk('default', e['t'])
            if len(args) == 1 and args[0].get('t') == e['t']:
                return self.rv(args[0], fr)
            return mk('pcall', key, tuple(('', self.term(x, fr)) for x in args))
        if self.inlinable(key, g, fr, None):
            k = ('l', uid())
            self.st.c[k] = mk('obj', g['c'])
            lv = LV(k, (), e['t'])
            self.inline_call(key, g, lv, args, fr)
            return self.st.c[k] if not self.st.dead else mk('obj', g['c'])
        xs = [self.ev(x, fr) for x in args]
        return self.opaque(key, g, None, xs, args, f, e['t'])

    def emplaced(self, et, args, fr):
        c = [k for k, g in self.p.funs.items() if g.get('ctor') and g['c'] == et and len(g['params']) == len(args)]
        if len(c) != 1:
            raise Unmodelled('emplace_back')
        return self.construct({'s': c[0]}, {'a': args, 't': et}, fr)

    def run_inits(self, fr):
        f = fr.f
        for i in f.get('inits') or ():
            if self.record and i.get('l'):
                T_.CUR[0] = (self.file, i['l'])
            e = i.get('e')
            if i.get('base') or i.get('dele'):
                self.base_init(e, fr)
                continue
            if e is None:
                continue
            ft = self.fieldtype(f['c'], i['m'])
            if e.get('k') == 'ctor' and not e['a'] and not (e.get('f') or {}).get('p'):
                v = self.default(ft) if ft in self.p.classes else self.ev(e, fr)
            else:
                v = self.ev(e, fr)
                v = self.conv(v, e.get('t'), ft)
            if isinstance(v, LV):
                v = self.get(v)
            self.put(fr.this.ext(('f', i['m']), ft), v)

    def fieldtype(self, cls, name):
        for x in self.p.fields(cls):
            if x['n'] == name:
                return x['t']
        return None

    def base_init(self, e, fr):
        if e is None or e.get('k') != 'ctor':
            return
        f = e.get('f') or {}
        if not (f.get('p') and 's' in f):
            return
        key = self.p.canon(f['s'])
        g = self.p.funs.get(key)
        if g is None or (g.get('body') is None and not g.get('inits')):
            return
        self.inline_call(key, g, fr.this, e['a'], fr)

    def e_mcall(self, e, fr):
        f = e['f']
        if f.get('p'):
            return self.project(f, e['o'], e['a'], fr, e)
        return self.libmethod(e, fr)

    def e_call(self, e, fr):
        f = e.get('f')
        if not isinstance(f, dict):
            fn = self.rv(e['callee'], fr)
            return self.callval(fn, e['a'], fr, e)
        if f.get('p'):
            return self.project(f, None, e['a'], fr, e)
        return self.libcall(f, e, fr)

    def project(self, f, o, args, fr, e):
        if 's' not in f:
            raise Unmodelled('call of ' + f.get('q', '?'))
        key = self.p.canon(f['s'])
        g = self.p.funs.get(key)
        obj = None
        if o is not None and f.get('c') and not f.get('static'):
            if o['k'] == 'this':
                obj = fr.this
            else:
                obj = self.ev(o, fr)
                obj = self.deref(obj) if (e.get('arrow') or isinstance(self.peek(obj), It)) else obj
        elif o is not None:
            self.ev(o, fr)
        if f['n'] == 'operator=' and (g is None or g.get('body') is None) and len(args) == 1:
            v = self.rv(args[0], fr)
            self.put(obj, v)
            return obj
        if g is not None and g.get('body') is not None and self.inlinable(key, g, fr, f):
            if obj is not None and not isinstance(obj, LV):
                k = ('l', uid())
                self.st.c[k] = obj
                obj = LV(k, ())
            return self.inline_call(key, g, obj, args, fr, e)
        xs = [self.ev(x, fr) for x in args]
        return self.opaque(key, g, obj, xs, args, f, e['t'])

    def inlinable(self, key, g, fr, f):
        if key in self.stack or len(self.stack) > 14:
            return False
        if f is not None and f.get('virt') and self.p.over.get(key):
            return False
        if key in self.inline:
            return True
        if g.get('static') or g.get('anon'):
            return True
        if (self.trivials is not None and key in self.trivials) or self.p.trivial(key):
            return True
        if g.get('access') in ('private', 'protected') and not g.get('virt') and not g.get('ctor') and fr.cls and \
                g.get('c') in self.p.bases(fr.cls):
            return not self.recursive(key)
        return False

    def recursive(self, key):
        seen, todo = set(), list(self.p.calls.get(key, ()))
        while todo:
            x = todo.pop()
            if x == key:
                return True
            if x in seen:
                continue
            seen.add(x)
            todo.extend(self.p.calls.get(x, ()))
        return False

    def inline_call(self, key, g, obj, args, fr, e=None):
        nf = Frame(g, key, this=obj)
        vals = []
        for p, a in zip(g['params'], args):
            v = self.ev(a, fr)
            if isinstance(v, LV) and not p.get('ref'):
                v = self.get(v)
            elif isinstance(v, LV) and p.get('ref') and not p.get('mut') and p['t'] != a.get('t') and a.get('t'):
                v = self.conv(self.get(v), a.get('t'), p['t'])
            elif not isinstance(v, LV):
                v = self.conv(v, a.get('t'), p['t'])
            vals.append(v)
        for p, v in zip(g['params'], vals):
            self.bind(nf, p, v)
        ofile = self.file
        self.file = g['file']
        b = g.get('body')
        if g.get('retref') and b and b['k'] == 'blk' and len(b['s']) == 1 and b['s'][0]['k'] == 'ret':
            nf.keepref = True       # the caller may write through the reference

        def pre():
            if g.get('ctor'):
                self.run_inits(nf)
        try:
            v = self.body(nf, g.get('body'), g.get('ret', 'v'), key, pre)
        finally:
            self.file = ofile
        return v

    def mutations(self, key, g, f):
        """(fields of the object or '*' for all, indices of parameters) that a call may change"""
        if f is not None and f.get('virt') and self.p.over.get(key) or g is None or g.get('body') is None or key in self.stack \
                or key in self.p._mut and self.p._mut[key] == 'busy':
            return self.syntactic(g, f)
        if key not in self.p._mut:
            self.p._mut[key] = 'busy'
            try:
                s = Engine(self.p, self.inline, record=False, trivial=self.trivials).summary(key)
                fs, ps = set(), set()
                for ef in s.args[1]:
                    if ef.op == 'eff' and ef.args[0] == 'set':
                        if ef.args[2].startswith('this.'):
                            fs.add(ef.args[2][5:])
                        else:
                            ps.add(int(ef.args[2][4:]))
                thr = contains(s, ERR)
                self.p._mut[key] = (fs, ps, thr)
            except (Unmodelled, RecursionError, KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError):
                self.p._mut[key] = self.syntactic(g, f)
        return self.p._mut[key]

    def syntactic(self, g, f):
        ps = set()
        if g is not None:
            for i, p in enumerate(g['params']):
                if p.get('ref') and (p.get('mut') or p.get('mutptr')):
                    ps.add(i)
        const = (f or {}).get('const') or (g or {}).get('const')
        virt = (f or {}).get('virt')
        # virtual calls on shared implementation objects: their caches are no observable state
        return (set() if const or virt or g is None or g.get('ctor') else '*', ps, False)

    def opaque(self, key, g, obj, xs, args, f, t):
        """an uninterpreted call of a project function"""
        fs, ps, thr = self.mutations(key, g, f)
        targs = []
        if obj is not None:
            ov = self.get(obj) if isinstance(obj, LV) else self.reify(obj)
            ov = self.reify(ov)
            rd = None if (f.get('virt') and self.p.over.get(key)) else self.p.reads(key)
            if rd is not None:
                ov = stripf(ov, rd)
            targs.append(('', ov))
        for x, a in zip(xs, args):
            p = None
            v = self.get(x) if isinstance(x, LV) else x
            targs.append(('', v))
        if g is not None:
            off = 1 if obj is not None else 0
            for i, p in enumerate(g['params']):
                if i + off < len(targs) and isinstance(targs[i + off][1], T):
                    targs[i + off] = ('', self.conv(targs[i + off][1], args[i].get('t'), p['t']))
        targs = tuple((n, self.reify(v)) for n, v in targs)
        val = reg(t, pcall(key, targs))
        cls = g.get('c') if g is not None else None
        for i in sorted(ps):
            if i < len(xs) and isinstance(xs[i], LV):
                pt = g['params'][i]['t']
                self.put(xs[i], reg(pt, mk('pstate', key, 'arg.%d' % i, targs)))
        if obj is not None and fs:
            if isinstance(obj, LV):
                if fs == '*':
                    self.put(obj, mk('pstate', key, 'this', targs))
                else:
                    for n in sorted(fs):
                        ft = self.fieldtype(cls, n)
                        self.put(obj.ext(('f', n), ft), reg(ft, mk('pstate', key, 'this.' + n, targs)))
        if (t == 'v' or thr == 'x') and not fs and not ps:
            if g is None or f.get('virt') or True:
                self.effs.append(mk('eff', 'call', self.ctx.pc, val))
        return val

    # ------------------------------------------------------------- library
    def range(self, a, b):
        """elements from iterator a to iterator b, as a container"""
        if not samelv(a.lv, b.lv):
            raise Unmodelled('range')
        base = self.get(a.lv) if isinstance(a.lv, LV) else a.lv
        if a.rev:
            base = mk('call', 'rev', (('', base),))
        return seg0(base, a.idx, sub(b.idx, a.idx))

    def full(self, a, b):
        """container term if a..b is all of it"""
        return self.range(a, b)

    def fnvalue(self, fn, *xs):
        """value of a function object on terms, in a copy of the state (the function must not change anything)"""
        if isinstance(fn, Clo):
            before = dict(self.st.c)
            xs2 = []
            for p, x in zip(fn.node['params'], xs):
                xs2.append(reg(p['t'], x) if not isinstance(x, LV) else x)
            r = self.apply_clo(fn, xs2)
            for k, v in before.items():
                if self.st.c.get(k) is not v:
                    raise Unmodelled('closure with state in an algorithm')
            return self.reify(r)
        fn = self.reify(fn)
        if fn.op == 'lam' and fn.args[0] == len(xs):
            return apply_lam(fn, list(xs))
        return mk('app', fn, tuple(xs))

    def libmethod(self, e, fr):
        n, t = e['f']['n'], e['t']
        on = e['o']
        ot = on.get('t', '')
        o = self.ev(on, fr)
        if e.get('arrow'):
            o = self.deref(o)
        a = e['a']
        cls = e['f'].get('c', '')
        if 'vector' in cls.split('<')[0] or cls.startswith(('std::basic_string', 'std::map', 'std::set')):
            return self.container(n, o, a, e, fr, ot)
        if 'InnerIterator' in cls:
            v = self.peek(o)
            if n == 'operator bool':
                return lt(v.pos, nnz(self.reify(v.lv), v.outer))
            if n in ('valueRef', 'value'):
                return v.lv.ext(('nz', v.outer, v.pos), 'd') if isinstance(v.lv, LV) else self.step(v.lv, ('nz', v.outer, v.pos))
            if n in ('index', 'row'):
                return reg('i', mk('nzrow', nzbase(self.reify(v.lv)), v.outer, v.pos))
            if n in ('col', 'outer'):
                return v.outer
            raise Unmodelled('InnerIterator::' + n)
        if n in ('get', 'operator->') and ('shared_ptr' in cls or 'unique_ptr' in cls):
            return o
        if n == 'reset' and ('shared_ptr' in cls or 'unique_ptr' in cls) and isinstance(o, LV):
            self.put(o, self.rv(a[0], fr) if a else NULL)
            return VOID
        if n == 'operator bool' and 'shared_ptr' in cls:
            return not_(veq(self.reify(o), NULL))
        if n.startswith('operator ') and arith(t):
            v = self.reify(self.peek(o))
            return v if isinstance(v, T) and (isscalar(v) or not isE(ot)) else coef(v, (ZERO, ZERO))
        # Eigen: views keep their place
        if isinstance(o, LV) and isinstance(self.peek(o), T):
            lv = o
        else:
            lv = None
        v = self.reify(o)
        T1 = lambda: [self.term(x, fr) for x in a]   # noqa: E731

        def view(step, fn, vt=None):
            if lv is not None:
                return lv.ext(step, t)
            return reg(t, fn())
        if n == 'toDenseMatrix' and v.op == 'call' and v.args[0] == 'asDiagonal':
            return o
        if n in ('array', 'matrix', 'derived', 'noalias', 'eval', 'const_cast_derived', 'value', 'real', 'nestedExpression'):
            return o
        if n in ('colPivHouseholderQr', 'householderQr', 'fullPivLu', 'partialPivLu', 'lu', 'fullPivHouseholderQr', 'llt', 'ldlt'):
            return mk('qr', v)
        if n == 'solve':
            b = T1()[0]
            return reg(t, mm(inv(v.args[0] if v.op == 'qr' else v), b))
        if n == 'size':
            return reg('i', size(v))
        if n == 'rows':
            return reg('i', rows(v))
        if n in ('cols', 'outerSize'):
            return reg('i', cols(v))
        if n == 'transpose':
            return trans(v) if lv is None else trans(v)
        if n == 'inverse':
            return mul(ONE, pow_(v, num(-1))) if ot.startswith('EA') else inv(v)
        if n == 'determinant':
            return reg('d', call('det', v))
        if n == 'dot':
            return esum(mul(v, T1()[0]))
        if n == 'squaredNorm':
            return esum(mul(v, v))
        if n == 'norm':
            return pow_(esum(mul(v, v)), num(Fraction(1, 2)))
        if n == 'sum':
            return esum(v)
        if n == 'mean':
            return div(esum(v), size(v))
        if n in ('prod', 'maxCoeff', 'minCoeff', 'trace', 'all', 'any', 'count', 'allFinite', 'hasNaN', 'isZero'):
            return reg(t, call(n, v))
        if n == 'asDiagonal':
            return call('asDiagonal', v)
        if n == 'diagonal':
            return reg('EM1', call('diagonal', v))
        if n == 'selfadjointView':
            return call({None: 'symL', 1: 'symL', 2: 'symU'}.get(e['f'].get('ta'), 'symX'), v)
        if n in ('eigenvalues', 'eigenvectors', 'operatorSqrt', 'operatorInverseSqrt'):
            return reg('EM1' if n == 'eigenvalues' else 'EM2', call(n, v))
        if n == 'row':
            i = T1()[0]
            return view(('row', i), lambda: row(v, i))
        if n == 'col':
            i = T1()[0]
            return view(('col', i), lambda: col(v, i))
        if n in ('head', 'tail', 'segment'):
            x = T1()
            N = size(v)
            s, m = (ZERO, x[0]) if n == 'head' else (sub(N, x[0]), x[0]) if n == 'tail' else (x[0], x[1])
            return view(('seg', s, m), lambda: seg(v, s, m))
        if n in ('block', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'topLeftCorner', 'topRightCorner', 'bottomLeftCorner',
                 'bottomRightCorner', 'middleRows', 'middleCols'):
            x = T1()
            R_, C_ = rows(v), cols(v)
            b = {'block': lambda: (x[0], x[1], x[2], x[3]), 'topRows': lambda: (ZERO, ZERO, x[0], C_),
                 'bottomRows': lambda: (sub(R_, x[0]), ZERO, x[0], C_), 'leftCols': lambda: (ZERO, ZERO, R_, x[0]),
                 'rightCols': lambda: (ZERO, sub(C_, x[0]), R_, x[0]), 'topLeftCorner': lambda: (ZERO, ZERO, x[0], x[1]),
                 'topRightCorner': lambda: (ZERO, sub(C_, x[1]), x[0], x[1]), 'bottomLeftCorner': lambda: (sub(R_, x[0]), ZERO, x[0], x[1]),
                 'bottomRightCorner': lambda: (sub(R_, x[0]), sub(C_, x[1]), x[0], x[1]),
                 'middleRows': lambda: (x[0], ZERO, x[1], C_), 'middleCols': lambda: (ZERO, x[0], R_, x[1])}[n]()
            return view(('blk',) + b, lambda: blk(v, *b))
        if n in ('coeff', 'coeffRef', 'operator()', 'operator[]'):
            x = tuple(T1())
            return view(('i', x), lambda: coef(v, x))
        if n in ('resize', 'setZero', 'setOnes', 'setConstant', 'fill', 'conservativeResize', 'setIdentity', 'makeCompressed', 'reserve'):
            x = T1()
            if lv is None:
                raise Unmodelled(n + ' of a value')
            if n in ('makeCompressed', 'reserve'):
                return VOID
            if n == 'resize':
                # assignment afterwards decides the size: keep the contents when the shape is the same
                cur = v
                same = (len(x) == 1 and size(cur) is x[0]) or (len(x) == 2 and rows(cur) is x[0] and cols(cur) is x[1])
                self.put(lv, cur if same else reg(ot, mk('resized', tuple(x))))
            elif n in ('setZero', 'setOnes'):
                d = tuple(x) or ((size(v),) if ot[:3] in ('EM1', 'EA1') else (rows(v), cols(v)))
                self.put(lv, reg(ot, mk('zeros' if n == 'setZero' else 'ones', d)))
            elif n in ('setConstant', 'fill'):
                d = tuple(x[:-1]) or ((size(v),) if ot[:3] in ('EM1', 'EA1') else (rows(v), cols(v)))
                self.put(lv, reg(ot, mk('const', d, x[-1])))
            elif n == 'setIdentity':
                self.put(lv, mk('ident'))
            else:
                self.put(lv, reg(ot, mk('call', 'cresize', tuple(('', y) for y in [v] + x))))
            return lv
        un = {'exp': 'exp', 'log': 'log', 'abs': 'abs', 'cwiseAbs': 'abs', 'isFinite': 'isfinite', 'isNaN': 'isnan', 'tanh': 'tanh'}
        if n in un:
            return call(un[n], v)
        if n in ('sqrt', 'cwiseSqrt'):
            return pow_(v, num(Fraction(1, 2)))
        if n in ('square', 'abs2', 'cwiseAbs2'):
            return mul(v, v)
        if n == 'cube':
            return mul(v, v, v)
        if n == 'pow':
            return cpow(v, T1()[0])
        if n == 'cwiseInverse':
            return pow_(v, num(-1))
        if n in ('cwiseProduct',):
            return mul(v, T1()[0])
        if n in ('cwiseQuotient',):
            return div(v, T1()[0])
        if n in ('cwiseMax', 'max', 'cwiseMin', 'min'):
            return call('max' if 'ax' in n else 'min', v, T1()[0])
        if n == 'unaryExpr':
            fn = self.rv(a[0], fr)
            k = fresh('ix')
            if t[:3] in ('EM1', 'EA1'):
                return reg(t, cmap(size(v), lam([k], self.fnvalue(fn, coef(v, (k,))))))
            j = fresh('ix')
            return mk('map2', rows(v), cols(v), lam([k, j], self.fnvalue(fn, coef(v, (k, j)))))
        if n in ('begin', 'end', 'data'):
            return self.container(n, o, a, e, fr, ot)
        if n in ('cast', 'template cast'):
            return v
        if n in ('isApprox',):
            return reg('b', mk('call', n, tuple(('', y) for y in [v] + T1())))
        if n in ('select',):
            x = T1()
            return ite(v, x[0], x[1])
        if ot.startswith(('Rcpp', 'SEXP')) or True:
            if e['f'].get('const') or True:
                return reg(t, mk('call', 'lib:' + n, tuple(('', y) for y in [v] + [self.term(x, fr) for x in a])))

    def container(self, n, o, a, e, fr, ot):
        t = e['t']
        lv = o if isinstance(o, LV) else None
        T1 = lambda: [self.term(x, fr) for x in a]   # noqa: E731

        def val():
            return self.get(lv) if lv is not None else self.reify(o)
        place = lv if lv is not None else o
        et = elemtype(ot)
        if n in ('begin', 'cbegin', 'data'):
            return It(place, ZERO, et=et)
        if n in ('end', 'cend'):
            return It(place, size(val()), et=et)
        if n in ('rbegin', 'crbegin'):
            return It(place, ZERO, True, et=et)
        if n in ('rend', 'crend'):
            return It(place, size(val()), True, et=et)
        if n in ('at', 'operator[]') and ot.startswith('std::map'):
            i = T1()[0]
            return lv.ext(('key', i), t) if lv is not None else reg(t, mapat(val(), i))
        if n in ('at', 'operator[]'):
            return self.index(o, (T1()[0],), t)
        if n == 'front':
            return self.index(o, (ZERO,), t)
        if n == 'back':
            return self.index(o, (sub(size(val()), ONE),), t)
        if n == 'size' or n == 'length':
            return reg('u', size(val()))
        if n == 'empty':
            return eq(ZERO, size(val()))
        if n in ('push_back', 'emplace_back'):
            if n == 'emplace_back' and not (len(a) == 1 and a[0].get('t') == et):
                x = [self.emplaced(et, a, fr)]
            else:
                x = T1()
            self.put(lv, append(val(), x[0]))
            return VOID
        if n == 'pop_back':
            self.put(lv, seg0(val(), ZERO, sub(size(val()), ONE)))
            return VOID
        if n == 'clear':
            self.put(lv, EMPTY)
            return VOID
        if n == 'reserve' or n == 'shrink_to_fit':
            return VOID
        if n == 'resize':
            x = T1()
            self.put(lv, resizev(val(), x[0]))
            return VOID
        if n == 'assign':
            vs = [self.rv(y, fr) for y in a]
            if len(vs) == 2 and isinstance(vs[0], It):
                self.put(lv, self.range(vs[0], vs[1]))
            else:
                self.put(lv, cmap(self.reify(vs[0]), mk('lam', 1, self.reify(vs[1]))))
            return VOID
        if n == 'erase':
            vs = [self.rv(y, fr) for y in a]
            v = val()
            if all(isinstance(x, It) for x in vs):
                if len(vs) == 2 and vs[1].idx is size(v):
                    self.put(lv, resizev(v, vs[0].idx))
                    return It(place, vs[0].idx, et=et)
                if len(vs) == 1:
                    self.put(lv, mk('call', 'erase', (('', v), ('', vs[0].idx))))
                    return It(place, vs[0].idx, et=et)
            raise Unmodelled('erase')
        if n == 'insert':
            vs = [self.rv(y, fr) for y in a]
            v = val()
            if len(vs) == 3 and all(isinstance(x, It) for x in vs) and vs[0].idx is size(v):
                self.put(lv, cat(v, self.range(vs[1], vs[2])))
                return It(place, vs[0].idx, et=et)
            if len(vs) == 2 and isinstance(vs[0], It) and vs[0].idx is size(v):
                self.put(lv, append(v, self.reify(vs[1])))
                return It(place, vs[0].idx, et=et)
            raise Unmodelled('insert')
        if n in ('count', 'find') and ot.startswith('std::map'):
            return reg('i', mk('call', 'map' + n, (('', val()), ('', T1()[0]))))
        if n in ('c_str', 'str'):
            return val()
        if n == 'swap':
            x = self.ev(a[0], fr)
            p, q = val(), self.get(x)
            self.put(lv, q)
            self.put(x, p)
            return VOID
        raise Unmodelled('container method ' + n)

    def libcall(self, f, e, fr):
        n, t, a = f['n'], e['t'], e['a']
        c = f.get('c', '')
        q = f.get('q', n)

        def T1():
            return [self.term(x, fr) for x in a]
        if n in ('Zero', 'Ones', 'Identity', 'Constant', 'Random', 'LinSpaced'):
            x = T1()
            if n == 'Identity':
                return mk('ident')
            if n in ('Random', 'LinSpaced'):
                return mk('call', n, tuple(('', y) for y in x))
            if n == 'Constant':
                return reg(t, mk('const', tuple(x[:-1]), x[-1]))
            return reg(t, mk('zeros' if n == 'Zero' else 'ones', tuple(x)))
        if n in ('exp', 'log', 'fabs', 'floor', 'ceil', 'round', 'trunc', 'isfinite', 'isnan', 'isnormal', 'isinf', 'expm1', 'log1p', 'log2', 'log10',
                 'tanh', 'sin', 'cos', 'erf', 'erfc', 'atan', 'lgamma'):
            x = T1()[0]
            if n == 'fabs':
                n = 'abs'
            if n == 'expm1':
                return sub(call('exp', x), ONE)
            if n == 'log1p':
                return call('log', add(x, ONE))
            return reg(t if arith(t) else None, call(n, x))
        if n == 'abs':
            return reg(t if arith(t) else None, call('abs', T1()[0]))
        if n == 'sqrt':
            return pow_(T1()[0], num(Fraction(1, 2)))
        if n == 'pow':
            x = T1()
            return cpow(x[0], x[1])
        if n in ('max', 'min') and len(a) == 2:
            x = T1()
            return reg(t, call(n, *x))
        if n in ('cdf', 'pdf', 'quantile'):
            x = T1()
            return reg('d', call(n, *x))
        if n == 'complement':
            x = T1()
            return mk('call', 'complement', tuple(('', y) for y in x))
        if n in ('move', 'forward', 'as_const', 'ref', 'cref'):
            return self.ev(a[0], fr)
        if n == 'make_shared' or n == 'make_unique':
            raise Unmodelled(n)
        if n in ('begin', 'end', 'cbegin', 'cend'):
            return self.container(n, self.ev(a[0], fr), [], e, fr, a[0].get('t', ''))
        if n == 'swap':
            x, y = self.ev(a[0], fr), self.ev(a[1], fr)
            p, r = self.get(x), self.get(y)
            self.put(x, r)
            self.put(y, p)
            return VOID
        if n in ('next', 'prev'):
            v = self.rv(a[0], fr)
            d = self.term(a[1], fr) if len(a) > 1 and a[1].get('k') != 'dflt' else ONE
            return self.advance(v, d if n == 'next' else neg(d))
        if n == 'advance':
            lv = self.ev(a[0], fr)
            self.put(lv, self.advance(self.get(lv), self.term(a[1], fr)))
            return VOID
        if n == 'distance':
            x, y = self.rv(a[0], fr), self.rv(a[1], fr)
            return sub(y.idx, x.idx)
        if n == 'tie':
            return Tie([self.ev(x, fr) for x in a])
        if n == 'back_inserter':
            return BackIns(self.ev(a[0], fr))
        if n in ('make_pair',):
            x = T1()
            return mk('tup', tuple(x))
        if n == 'vertices':
            g = self.term(a[0], fr)
            vs = call('nvertices', gshape(g))
            INTS.add(vs)
            return Pair(It(g, ZERO, ct='vertices'), It(g, vs, ct='vertices'))
        if n == 'num_vertices':
            vs = call('nvertices', gshape(self.term(a[0], fr)))
            INTS.add(vs)
            return vs
        if n == 'adjacent_vertices':
            v, g = T1()
            s = call('adjacent', gshape(g), v)
            return Pair(It(s, ZERO, ct='adjacent'), It(s, reg('i', size(s)), ct='adjacent'))
        if n in ('degree', 'out_degree', 'in_degree') and len(a) == 2:
            v, g = T1()
            return reg('i', size(call('adjacent', gshape(g), v)))
        if n == 'edge' and len(a) == 3:
            return mk('call', 'edge', tuple(('', y) for y in T1()[:2]) + (('', gshape(self.term(a[2], fr))),))
        if n in ('add_vertex', 'add_edge') and isinstance(self.peek(self.ev(a[-1], fr)), T):
            lv = self.ev(a[-1], fr)
            g = self.get(lv)
            x = [self.term(y, fr) for y in a[:-1]]
            if n == 'add_vertex':
                r = call('nvertices', gshape(g))
                INTS.add(r)
                self.put(lv, mk('call', 'add_vertex', (('', g),) + tuple(('', y) for y in x)))
                return r
            if len(x) == 2:
                x = sorted(x)
            self.put(lv, mk('call', 'add_edge', (('', g),) + tuple(('', y) for y in x)))
            return mk('call', 'edge_added', (('', gshape(g)),) + tuple(('', y) for y in x))
        if q.startswith('std::numeric_limits<') and not a:
            x = LIMITS.get((q[20:].split('>')[0].strip(), n))
            if x is not None:
                return reg(t, num(x))
            return reg(t, mk('call', 'lib:' + q, ()))
        if q.startswith('std::') or q.startswith('boost::range') or True:
            r = self.algorithm(n, a, e, fr)
            if r is not None:
                return r
        vs = [self.rv(x, fr) for x in a]
        return reg(t, mk('call', 'lib:' + q.split('<')[0], tuple(('', self.reify(v)) for v in vs)))

    def algorithm(self, n, a, e, fr):
        t = e['t']
        if n == 'sort':
            x, y = self.rv(a[0], fr), self.rv(a[1], fr)
            if isinstance(x, It) and isinstance(x.lv, LV):
                v = self.range(x, y)
                if v is self.get(x.lv):
                    extra = tuple(('', self.reify(self.rv(z, fr))) for z in a[2:])
                    self.put(x.lv, sort_(v) if not extra else mk('call', 'sort', (('', v),) + extra))
                    return VOID
            raise Unmodelled('sort')
        if n == 'find':
            x, y = self.rv(a[0], fr), self.rv(a[1], fr)
            v = self.range(x, y)
            i = findidx(v, self.term(a[2], fr))
            return x.at(add(x.idx, i))
        if n in ('find_if', 'any_of', 'all_of', 'none_of', 'count_if', 'find_if_not'):
            x, y, fn = self.rv(a[0], fr), self.rv(a[1], fr), self.rv(a[2], fr)
            v = self.range(x, y)
            k = fresh('ix')
            b = self.fnvalue(fn, elem(v, k, x.et))
            N = size(v)
            if n == 'find_if':
                return x.at(add(x.idx, mergeany(N, k, b)))
            if n == 'find_if_not':
                return x.at(add(x.idx, mergeany(N, k, not_(b))))
            if n == 'any_of':
                return exists(N, lam([k], b))
            if n == 'none_of':
                return not_(exists(N, lam([k], b)))
            if n == 'all_of':
                return not_(exists(N, lam([k], not_(b))))
            return csum(N, lam([k], ite(b, ONE, ZERO)))
        if n == 'count':
            x, y = self.rv(a[0], fr), self.rv(a[1], fr)
            v = self.range(x, y)
            k = fresh('ix')
            z = self.term(a[2], fr)
            el_ = elem(v, k, x.et)
            return csum(size(v), lam([k], ite(ceq(el_, z) if arith(x.et or 'i') else veq(el_, z), ONE, ZERO)))
        if n == 'accumulate':
            x, y = self.rv(a[0], fr), self.rv(a[1], fr)
            v = self.range(x, y)
            k = fresh('ix')
            init = self.term(a[2], fr)
            if len(a) == 3:
                return add(init, csum(size(v), lam([k], elem(v, k, x.et))))
            fn = self.rv(a[3], fr)
            acc = reg(t, fresh('acc'))
            b = self.fnvalue(fn, acc, elem(v, k, x.et))
            return self.fold1(size(v), k, acc, b, init)
        if n in ('includes',):
            r = [self.rv(x, fr) for x in a[:4]]
            return reg('b', call('includes', self.range(r[0], r[1]), self.range(r[2], r[3])))
        if n in ('set_union', 'set_difference', 'set_intersection'):
            r = [self.rv(x, fr) for x in a[:4]]
            out = self.rv(a[4], fr)
            if isinstance(out, BackIns):
                x, y = self.range(r[0], r[1]), self.range(r[2], r[3])
                if n != 'set_difference':
                    x, y = sorted((x, y))
                self.put(out.lv, cat(self.get(out.lv), call(n, x, y)))
                return out
            raise Unmodelled(n)
        if n in ('copy_if', 'remove_copy_if', 'copy', 'transform'):
            x, y = self.rv(a[0], fr), self.rv(a[1], fr)
            out = self.rv(a[2], fr)
            v = self.range(x, y)
            k = fresh('ix')
            if n == 'copy':
                new = v
            elif n == 'transform':
                if len(a) != 4:
                    raise Unmodelled('transform')
                new = cmap(size(v), lam([k], self.fnvalue(self.rv(a[3], fr), elem(v, k, x.et))))
            else:
                c = self.fnvalue(self.rv(a[3], fr), elem(v, k, x.et))
                if n == 'remove_copy_if':
                    c = not_(c)
                new = filt(size(v), lam([k], c), lam([k], elem(v, k, x.et)))
            if isinstance(out, BackIns):
                self.put(out.lv, cat(self.get(out.lv), new))
                return out
            if isinstance(out, It) and isinstance(out.lv, LV) and out.idx is ZERO and size(self.get(out.lv)) is size(new):
                self.put(out.lv, new)
                return out.at(size(new))
            raise Unmodelled(n)
        if n in ('remove_if', 'remove'):
            x, y = self.rv(a[0], fr), self.rv(a[1], fr)
            v = self.range(x, y)
            if v is not self.get(x.lv):
                raise Unmodelled('remove_if')
            k = fresh('ix')
            if n == 'remove_if':
                c = self.fnvalue(self.rv(a[2], fr), elem(v, k, x.et))
            else:
                c = ceq(elem(v, k, x.et), self.term(a[2], fr))
            keep = filt(size(v), lam([k], not_(c)), lam([k], elem(v, k, x.et)))
            self.put(x.lv, mk('removed', v, keep))
            return x.at(reg('i', size(keep)))
        if n == 'for_each':
            x, y, fn = self.rv(a[0], fr), self.rv(a[1], fr), self.rv(a[2], fr)
            if not isinstance(fn, Clo):
                raise Unmodelled('for_each')
            self.range(x, y)
            n_ = sub(y.idx, x.idx)
            k = ('l', uid())
            self.st.c[k] = ZERO
            klv = LV(k, (), 'i')

            def step():
                i = self.get(klv)
                self.apply_clo(fn, [self.deref(x.at(add(x.idx, i)))])

            self.loopf(fr, lambda: lt(self.get(klv), n_), step, lambda: self.put(klv, add(self.get(klv), ONE)))
            return fn
        if n in ('fill', 'iota'):
            x, y = self.rv(a[0], fr), self.rv(a[1], fr)
            v = self.range(x, y)
            if v is self.get(x.lv):
                z = self.term(a[2], fr)
                if n == 'fill':
                    self.put(x.lv, cmap(size(v), mk('lam', 1, z)))
                else:
                    k = fresh('ix')
                    self.put(x.lv, cmap(size(v), lam([k], add(z, k))))
                return VOID
            raise Unmodelled(n)
        if n in ('lower_bound', 'upper_bound') and len(a) == 3:
            x, y = self.rv(a[0], fr), self.rv(a[1], fr)
            return x.at(reg('i', add(x.idx, reg('i', call(n, self.range(x, y), self.term(a[2], fr))))))
        if n in ('max_element', 'min_element') and len(a) == 2:
            x, y = self.rv(a[0], fr), self.rv(a[1], fr)
            return x.at(reg('i', add(x.idx, reg('i', call(n, self.range(x, y))))))
        if n == 'binary_search' and len(a) == 3:
            x, y = self.rv(a[0], fr), self.rv(a[1], fr)
            return reg('b', call(n, self.range(x, y), self.term(a[2], fr)))
        if n in ('max_element', 'min_element', 'reverse', 'unique', 'lower_bound', 'upper_bound', 'binary_search', 'nth_element', 'stable_sort', 'fill_n', 'generate', 'inner_product', 'rotate', 'swap_ranges', 'partial_sum'):
            raise Unmodelled('algorithm ' + n)
        return None

    def fold1(self, n, k, acc, b, init):
        """value of acc after n steps acc := b(k, acc)"""
        r = self.resolve(n, k, {0: acc}, {0: b}, {0: init})
        return r[0](n)

    # ----------------------------------------------------------------- loops
    def rfor(self, s, fr):
        r = self.ev(s['r'], fr)
        v = s['v']
        if not isinstance(r, LV):
            key = ('l', uid())
            self.st.c[key] = self.reify(r)
            r = LV(key, (), s['r'].get('t'))
        k = ('l', uid())
        self.st.c[k] = ZERO
        klv = LV(k, (), 'i')
        et = v['t']
        n0 = size(self.reify(self.get(r)))

        def body():
            i = self.get(klv)
            st = ('i' if arith(et) else 'o', (i,))
            el_ = r.ext(st, et)
            if v.get('ref') or v.get('cref'):
                fr.vars[v['id']] = el_
            else:
                kk = ('l', uid())
                self.st.c[kk] = self.get(el_)
                fr.vars[v['id']] = LV(kk, (), et)
            self.stmt(s['body'], fr)
        self.loopf(fr, lambda: lt(self.get(klv), n0), body, lambda: self.put(klv, add(self.get(klv), ONE)))

    def loop(self, fr, c, inc, body):
        self.loopf(fr, (lambda: self.cond(c, fr)) if c is not None else (lambda: TRUE),
                   lambda: self.stmt(body, fr),
                   (lambda: self.ev(inc, fr)) if inc is not None else (lambda: None))

    def iterate(self, cells, cond, body, inc):
        """one iteration from the given cells: (condition, cells after, events)"""
        octx = self.ctx
        oeffs = self.effs
        self.ctx = Ctx('loop')
        self.effs = []
        self.st = State(dict(cells))
        try:
            c = cond()
            if self.st.dead:
                raise Unmodelled('loop condition')
            ccells = dict(self.st.c)
            body()
            exits = self.ctx.exits
            events = []
            nots = []
            cnts = []
            for kind, cd, v, cl in exits:
                cd = and_(cd, *nots)
                if kind == 'cnt':
                    cnts.append((cd, cl))
                    nots.append(not_(cd))
                else:
                    events.append((kind, cd, v, cl))
            end = None if self.st.dead else dict(self.st.c)
            for cd, cl in reversed(cnts):
                end = dict(cl) if end is None else self.mergec(cd, cl, end)
            if end is not None:
                self.ctx.exits = []
                self.st = State(end)
                inc()
                if self.st.dead or self.ctx.exits:
                    raise Unmodelled('loop increment')
                end = dict(self.st.c)
            if self.effs:
                raise Unmodelled('call for its effect in a loop')
            return c, end, events, ccells
        finally:
            self.ctx = octx
            self.effs = oeffs

    def loopf(self, fr, cond, body, inc):
        start = dict(self.st.c)
        # few iterations, known in number
        r = self.unroll(start, cond, body, inc)
        if r:
            return
        # which cells change
        var = {}
        cur = dict(start)
        for _ in range(12):
            c, end, events, _cc = self.iterate(cur, cond, body, inc)
            ends = [end] if end is not None else []
            ends += [x[3] for x in events]
            new = []
            for en in ends:
                for k, v in en.items():
                    if k in cur:
                        if not same(v, cur[k]) and k not in var:
                            new.append(k)
                    elif isinstance(k, tuple) and k[0] == 'this' and k not in var:
                        new.append(k)
            # a change of a local of an enclosing frame that is only reached by reference is a cell as well
            if not new:
                break
            for k in dict.fromkeys(new):
                v = start[k] if k in start else self.orig(k)
                if k not in start:
                    start[k] = v
                h = self.freshlike(v)
                var[k] = h
                cur[k] = h
        else:
            raise Unmodelled('loop does not settle')
        if end is None and not events:
            raise Unmodelled('loop body')
        # flatten to terms
        carr, nxt, init = {}, {}, {}
        for k, h in var.items():
            if isinstance(h, It):
                kk = (k, 'idx')
                carr[kk], init[kk] = h.idx, start[k].idx
                if end is not None:
                    if not h.same(end[k]):
                        raise Unmodelled('iterator changes container')
                    nxt[kk] = end[k].idx
            elif isinstance(h, Inner):
                for part in ('outer', 'pos'):
                    kk = (k, part)
                    carr[kk], init[kk] = getattr(h, part), getattr(start[k], part)
                    if end is not None:
                        nxt[kk] = getattr(end[k], part)
            else:
                kk = (k, '')
                carr[kk], init[kk] = h, start[k]
                if end is not None:
                    e = end[k]
                    nxt[kk] = self.reify(e)
        if end is None:
            nxt = dict(carr)
        for kk in carr:
            copyreg(init[kk], carr[kk])
        # sizes that stay
        inva = {}
        for kk, h in carr.items():
            if isnumeric(h):
                continue
            for fn in (size, rows, cols):
                s0 = fn(h)
                if fn(nxt[kk]) is s0:
                    inva[s0] = fn(init[kk])
            # sparsity, shape of a graph
            for x in set(subterms(c)) | set(y for z in nxt.values() for y in subterms(z)):
                if x.op == 'call' and x.args[0] == 'nnz' and x.args[1][0][1] is h:
                    inva[x] = nnz(init[kk], x.args[1][1][1])
                if x.op == 'call' and x.args[0] in ('nvertices', 'adjacent', 'edge') and any(y is h for _, y in x.args[1]) \
                        and gshape(nxt[kk]) is h:
                    inva[x] = mk('call', x.args[0], tuple((nm, gshape(init[kk]) if y is h else y) for nm, y in x.args[1]))
        inva = {a: b for a, b in inva.items() if a is not b}
        if inva:
            sb = lambda t: subst(t, inva)   # noqa: E731
            c = sb(c)
            nxt = {k: sb(v) for k, v in nxt.items()}
            events = [(kd, sb(cd), sbv(v, sb), {k: sbv(x, sb) for k, x in cl.items()}) for kd, cd, v, cl in events]
        # pretended changes
        for kk in [kk for kk in carr if nxt[kk] is carr[kk]]:
            sub_ = {carr[kk]: init[kk]}
            nxt = {k: subst_vars(v, sub_) for k, v in nxt.items() if k != kk}
            c = subst_vars(c, sub_)
            events = [(kd, subst_vars(cd, sub_), sbv(v, lambda t: subst_vars(t, sub_)),
                       {k: sbv(x, lambda t: subst_vars(t, sub_)) for k, x in cl.items()}) for kd, cd, v, cl in events]
            del carr[kk]
        vs = frozenset(carr.values())
        # iteration variables
        ivs = {}
        for kk, h in carr.items():
            d = sub(nxt[kk], h) if isnumeric(h) or h in INTS or h in SCALARS else None
            if d is not None and isnum(d) and (h in INTS or intlike(init[kk])):
                ivs[kk] = d.args[0]
        ivv = {carr[kk]: kk for kk in ivs}
        # number of iterations
        n, prim, rest = None, None, []
        for cj in conjuncts(c):
            got = None
            if n is None:
                inside = free_vars(cj) & vs
                if len(inside) == 1 and next(iter(inside)) in ivv:
                    kk = ivv[next(iter(inside))]
                    got = count(cj, carr[kk], init[kk], ivs[kk])
            if got is not None:
                n, prim = got, kk
            else:
                rest.append(cj)
        ix = fresh('ix')
        if n is None:
            n = INF
        m = {carr[kk]: add(init[kk], mul(num(s), ix)) for kk, s in ivs.items()}
        for h, x in m.items():
            copyreg(h, x)
        for kk, x in ((kk, m[carr[kk]]) for kk in ivs):
            pass
        sv = lambda t: subst_vars(t, m)   # noqa: E731
        rest = [sv(x) for x in rest]
        # a conjunct the count decides
        rest = [x for x in rest if x is not TRUE]
        nx = {kk: sv(v) for kk, v in nxt.items() if kk not in ivs}
        carr2 = {kk: h for kk, h in carr.items() if kk not in ivs}
        ini2 = {kk: init[kk] for kk in carr2}
        evs = []
        if rest:
            evs.append(('top', not_(and_(*rest)), None, cur))
        for kd, cd, v, cl in events:
            evs.append((kd, cd, v, cl))
        evs = [(kd, sv(cd), v, cl) for kd, cd, v, cl in evs]
        rev = prim is not None and ivs[prim] == -1
        tail = None
        if len(evs) > 1 and evs[-1][0] == 'err' and n is not INF:
            # an error in the last iteration, unless it stops otherwise: an error behind the loop
            last = ceq(ix, sub(n, ONE))
            others = set(cj for _, cd, _, _ in evs[:-1] for cj in conjuncts(not_(cd)))
            cjs = conjuncts(evs[-1][1])
            if any(cj is last for cj in cjs) and all(cj is last or cj in others for cj in cjs) and \
                    all(kd in ('brk', 'ret') for kd, _, _, _ in evs[:-1]):
                tail = evs.pop()
        stopcond = or_(*[cd for _, cd, _, _ in evs]) if evs else FALSE
        F = self.resolve(n, ix, carr2, nx, ini2, stopcond, rev)
        vals = {carr2[kk]: F[kk](ix) for kk in carr2}
        for h, x in vals.items():
            copyreg(h, x)

        def at(t, i):
            """t (over the carried variables and ix) at iteration i"""
            if isinstance(t, T):
                t = subst_vars(sv(t), vals)
                return subst_vars(t, {ix: i}) if i is not ix else t
            if isinstance(t, It):
                return It(at(t.lv, i) if isinstance(t.lv, T) else t.lv, at(t.idx, i) if t.idx is not None else None, t.rev, t.et, t.end, t.ct)
            if isinstance(t, Inner):
                return Inner(t.lv, at(t.outer, i), at(t.pos, i))
            return t

        def cells_at(cl, i):
            out = {}
            for k, v in cl.items():
                if k in start or (isinstance(k, tuple) and k[0] == 'this'):
                    out[k] = at(v, i)
            return out

        def after(i):
            out = dict(start)
            for k, h in var.items():
                if isinstance(h, It):
                    kk = (k, 'idx')
                    out[k] = start[k].at(self.final(kk, i, ivs, init, F, carr))
                elif isinstance(h, Inner):
                    out[k] = Inner(start[k].lv, self.final((k, 'outer'), i, ivs, init, F, carr) if (k, 'outer') in carr else start[k].outer,
                                   self.final((k, 'pos'), i, ivs, init, F, carr) if (k, 'pos') in carr else start[k].pos)
                elif (k, '') in carr:
                    out[k] = self.final((k, ''), i, ivs, init, F, carr)
            return out
        self.st = State()
        if not evs:
            if n is INF:
                raise Unmodelled('loop without end')
            self.st.c = after(n)
            return
        E = at(stopcond, ix)
        if F.get('stopped'):
            # general loop with a stop condition: the carried values are those at the stop
            l_, in_ = F['stopped']
            fi = reg('i', mk('loop', 'ix', n, l_, in_))
            any_ = reg('b', mk('loop', 'stop', n, l_, in_)) if n is not INF else TRUE
            E = TRUE
        else:
            fi = first(n, lam([ix], E)) if n is not INF else first(INF, lam([ix], E))
            any_ = exists(n, lam([ix], E)) if n is not INF else TRUE
        if any_ is FALSE:
            self.st.c = after(n)
            return
        known = {}

        def atf(t):
            return at(t, fi)
        conds = [atf(cd) for _, cd, _, _ in evs]
        if len(evs) == 1:
            conds = [TRUE]
        stay = None           # cells after leaving by break / condition
        pend = []
        prior = []
        for (kd, cd, v, cl), cf in zip(evs, conds):
            here = and_(cf, *[not_(x) for x in prior])
            pend.append((kd, here, v, cl))
            prior.append(cf)
        onlyerr = all(kd == 'err' for kd, _, _, _ in evs)
        for kd, here, v, cl in reversed(pend):
            if kd in ('top', 'brk'):
                cc = cells_at(cl, fi)
                stay = cc if stay is None else self.mergec(here, cc, stay)
        outs = []
        for kd, here, v, cl in pend:
            if kd in ('ret', 'err'):
                self.st.c = cells_at(cl, fi)
                cnd = any_ if (onlyerr or len(evs) == 1) else and_(any_, here)
                vv = at(v, fi) if isinstance(v, (T, It)) else v
                if isinstance(vv, T) and E.op != 'lgl':
                    vv = assume(vv, subst_vars(E, {ix: fi}), True)
                self.ctx.exits.append((kd, and_(self.ctx.pc, cnd), vv, dict(self.st.c)))
                if onlyerr:
                    break
        if tail:
            self.ctx.exits.append(('err', and_(self.ctx.pc, not_(any_), lt(ZERO, n)), tail[2], after(n)))
        self.st = State()
        if stay is not None:
            fin = after(n) if n is not INF else None
            if fin is None:
                self.st.c = dict(stay)
                for k in start:
                    self.st.c.setdefault(k, start[k])
            else:
                # leaving early or at the end: a cell whose value at index n would be the same form
                out = {}
                for k in fin:
                    a_, b_ = stay.get(k, fin[k]), fin[k]
                    out[k] = a_ if same(a_, b_) else self.mergev(any_, a_, b_)
                self.st.c = out
                for k in stay:
                    if k not in out:
                        out[k] = stay[k]
        else:
            if n is INF:
                self.st.c = dict(start)
                self.st.dead = True
            else:
                self.st.c = after(n)

    def final(self, kk, i, ivs, init, F, carr):
        if kk in ivs:
            return add(init[kk], mul(num(ivs[kk]), i))
        r = F[kk](i)
        copyreg(carr[kk], r)
        return r

    def freshlike(self, v):
        if isinstance(v, It):
            if v.idx is None:
                raise Unmodelled('pointer changes in a loop')
            h = fresh('c')
            INTS.add(h)
            SCALARS.add(h)
            return v.at(h)
        if isinstance(v, Inner):
            a, b = fresh('c'), fresh('c')
            for x in (a, b):
                INTS.add(x)
                SCALARS.add(x)
            return Inner(v.lv, a, b)
        if isinstance(v, T):
            h = fresh('c')
            copyreg(v, h)
            return h
        raise Unmodelled('loop changes %r' % (v,))

    def unroll(self, start, cond, body, inc):
        cells = dict(start)
        first_ = None
        for it in range(17):
            try:
                c, end, events, cc = self.iterate(cells, cond, body, inc)
            except Unmodelled:
                self.st = State(dict(start))
                return False
            if c is FALSE:
                if it == 0 and False:
                    return False
                self.st = State({k: v for k, v in cc.items()})
                return True
            if c is not TRUE or events or end is None:
                self.st = State(dict(start))
                return False
            cells = end
        self.st = State(dict(start))
        return False

    def resolve(self, n, ix, carr, nxt, init, stop=FALSE, rev=False):
        """prefix functions: cell -> (number of iterations -> value)"""
        F = {}
        nxt = dict(nxt)
        todo = dict(carr)
        vs = frozenset(carr.values())

        def flip(body):
            if rev and n is not INF:
                return subst_vars(body, {ix: sub(sub(n, ONE), ix)})
            return body

        def fl(fn):
            """order-insensitive fold: for the full count the reversed index may be used"""
            return fn
        progress = True
        while todo and progress:
            progress = False
            for kk in list(todo):
                h = todo[kk]
                e = nxt[kk]
                others = free_vars(e) & vs
                if others - {h}:
                    continue
                g = self.closed(n, ix, h, e, init[kk], flip if rev else None)
                if g is None:
                    continue
                F[kk] = g
                del todo[kk]
                v = g(ix)
                copyreg(h, v)
                for k2 in todo:
                    if h in free_vars(nxt[k2]):
                        nxt[k2] = subst_vars(nxt[k2], {h: v})
                progress = True
        if todo:
            # independent of themselves though carried by others: value of the previous iteration
            ks = list(todo)
            dep = {kk: {k2 for k2 in ks if todo[k2] in free_vars(nxt[kk])} for kk in ks}
            stopdep = {k2 for k2 in ks if todo[k2] in free_vars(stop)}

            def closure(kk):
                seen, st = set(), [kk] + sorted(stopdep, key=str)
                while st:
                    x = st.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    st.extend(dep[x])
                return seen
            resolved = {}
            for kk in F:
                if kk in carr:
                    resolved[carr[kk]] = F[kk](ix)
            for kk in ks:
                cl = sorted(closure(kk), key=lambda x: (init[x].id, ks.index(x)))
                hs = [todo[x] for x in cl]
                body = [nxt[x] for x in cl] + ([subst_vars(stop, resolved)] if stopdep else [])
                l = lam([ix] + hs, mk('tup', tuple(body)))
                pos = cl.index(kk)
                inits = tuple(init[x] for x in cl)

                def mkf(pos=pos, l=l, inits=inits, h=todo[kk]):
                    def g(m):
                        if isnum(m) and m.args[0] == 0 and not stopdep:
                            return inits[pos]
                        r = mk('loop', pos, m if not stopdep else n, l, inits)
                        copyreg(h, r)
                        return r
                    return g
                F[kk] = mkf()
            if stopdep:
                cl = sorted(closure(sorted(stopdep, key=str)[0]), key=lambda x: (init[x].id, ks.index(x)))
                F['stopped'] = (lam([ix] + [todo[x] for x in cl], mk('tup', tuple([nxt[x] for x in cl] + [subst_vars(stop, resolved)]))),
                                tuple(init[x] for x in cl))
        return F

    def closed(self, n, ix, h, e, i0, flip):
        """closed form of h := e(ix, h), or None"""
        dep = h in free_vars(e)
        fz = flip or (lambda b: b)

        def L(b):
            return lam([ix], b)

        def fullrev(fn):
            # fold over the first m iterations; for m == n the index may run the other way
            if flip is None:
                return lambda m: fn(m, lambda b: b)
            return lambda m: fn(m, (fz if m is n else (lambda b: b)))
        if not dep:
            def last(m):
                if isnum(m) and m.args[0] == 0:
                    return i0
                val = subst_vars(e, {ix: sub(m, ONE)})
                if e is i0:
                    return i0
                z = eq(ZERO, m)
                return val if z is FALSE else ite(z, i0, val)
            return last
        numeric = isnumeric(h) or h in SCALARS or h in INTS
        # sums
        d = sub(e, h)
        if h not in free_vars(d) and e.op in ('poly',):
            return fullrev(lambda m, z: add(i0, csum(m, L(z(d)))))
        # products
        if e.op == 'poly':
            td = terms_of(e)
            if all(dict(mn).get(h) == 1 for mn in td):
                q = from_terms({tuple((a, x) for a, x in mn if a is not h): c for mn, c in td.items()})
                if h not in free_vars(q):
                    if ix not in free_vars(q):
                        return lambda m: mul(i0, powm(q, m))
                    return fullrev(lambda m, z: mul(i0, reg('d', mk('call', 'prodover', (('', m), ('', L(z(q))))))))
        # truth values
        if e.op == 'or' and h in e.args[0]:
            r = or_(*[x for x in e.args[0] if x is not h])
            if h not in free_vars(r):
                return fullrev(lambda m, z: or_(i0, exists(m, L(z(r)))))
        cs = conjuncts(e)
        if len(cs) > 1 and h in cs:
            r = and_(*[x for x in cs if x is not h])
            if h not in free_vars(r):
                return fullrev(lambda m, z: and_(i0, not_(exists(m, L(z(not_(r)))))))
        if e.op == 'call' and e.args[0] in ('max', 'min'):
            xs = [a for _, a in e.args[1]]
            if h in xs:
                r = [x for x in xs if x is not h]
                r = r[0] if len(r) == 1 else call(e.args[0], *r)
                if h not in free_vars(r):
                    f = e.args[0]
                    return fullrev(lambda m, z: call(f, i0, reg('d', mk('call', f + 'over', (('', m), ('', L(z(r))))))))
        if e.op == 'ite':
            g, a, b = e.args
            for x, y, gg in ((a, b, g), (b, a, not_(g))):
                if flip is None and gg is eq(ZERO, ix) and h not in free_vars(x) and y.op == 'call' and y.args[0] in ('max', 'min') and \
                        {v for _, v in y.args[1]} == {x, h}:
                    # starts from the first
                    def running(m, z, f=y.args[0], x=x):
                        if isnum(m) and not m.args[0]:
                            return i0
                        r = reg('d', mk('call', f + 'over', (('', m), ('', L(z(x))))))
                        return r if isnum(m) or i0.op == 'undef' else ite(eq(ZERO, m), i0, r)
                    return fullrev(running)
                if y is h and h not in free_vars(x) and h not in free_vars(gg):
                    if ix not in free_vars(x):
                        return fullrev(lambda m, z, x=x, gg=gg: ite(exists(m, L(z(gg))), x, i0))
        # writes to a container
        p = prog(e, h)
        if p is not None and h not in free_vars(p):
            ins = not any(x.op in ('wpush', 'wmod', 'wcat') for x in subterms(p)) and not overlap(p, ix)
            if flip is not None and not ins:
                return lambda m: scat(i0, wfor(m, L(p)))
            return fullrev(lambda m, z: scat(i0, wfor(m, L(z(p)))))
        return None


INF = mk('inf')


def same(a, b):
    if a is b:
        return True
    if isinstance(a, It) and a.same(b):
        return a.idx is b.idx
    if isinstance(a, Inner) and isinstance(b, Inner):
        return samelv(a.lv, b.lv) and a.outer is b.outer and a.pos is b.pos
    if isinstance(a, Clo) and isinstance(b, Clo):
        return a.node is b.node
    return False


def sbv(v, f):
    if isinstance(v, T):
        return f(v)
    if isinstance(v, It):
        return It(f(v.lv) if isinstance(v.lv, T) else v.lv, f(v.idx) if v.idx is not None else None, v.rev, v.et, v.end, v.ct)
    if isinstance(v, Inner):
        return Inner(v.lv, f(v.outer), f(v.pos))
    return v


def copyreg(a, b):
    if not (isinstance(a, T) and isinstance(b, T)) or b.op in ('num', 'poly'):
        return
    for s in (SCALARS, INTS, VECTORS, BOOLS):
        if a in s:
            s.add(b)
    if isnum(a) or (a.op == 'poly' and isscalar(a)):
        SCALARS.add(b)
        if intlike(a):
            INTS.add(b)
    elif intlike(a):
        INTS.add(b)
        SCALARS.add(b)
    elif isscalar(a):
        SCALARS.add(b)
    if T_.isbool(a):
        BOOLS.add(b)
    if a.op in ('zeros', 'ones', 'uninit', 'const', 'resized') and len(a.args[0]) == 1:
        VECTORS.add(b)


def isnumeric(h):
    return h in SCALARS or h in INTS


def count(cj, h, i0, s):
    """iterations while cj (over h = i0 + s*ix) holds, or None"""
    neg_ = cj.op == 'not'
    x = cj.args[0] if neg_ else cj
    if x.op == 'lt0':
        d = x.args[0]
        if neg_:
            d = sub(ONE, d)          # integers
    elif x.op == 'eq' and neg_:
        d = sub(x.args[0], x.args[1])
    elif x.op == 'empty' and neg_:
        return None
    else:
        return None
    td = terms_of(d)
    a = td.get(((h, Fraction(1)),))
    if a is None:
        return None
    r = from_terms({m: c for m, c in td.items() if m != ((h, Fraction(1)),)})
    if h in free_vars(r):
        return None
    k = a * s                        # d = a*i0 + r + k*ix
    base = add(mul(num(a), i0), r)
    if x.op == 'eq':
        if abs(k) == 1:
            return mul(num(-1 / k), base)
        return None
    if k >= 0:
        return None
    if k == -1:
        return base
    # number of ix >= 0 with 0 < base + k*ix : ceil(base / -k)
    return idiv(add(base, num(-k - 1)), num(-k))


def prog(e, h):
    """the writes that turn h into e, or None"""
    if e is h:
        return SKIP
    op = e.op
    if op == 'upd':
        p = prog(e.args[0], h)
        if p is None:
            return None
        return wadd(p, h, e.args[0], e.args[1], e.args[2])
    if op == 'put':
        p = prog(e.args[0], h)
        if p is None:
            return None
        x, ix = e.args[2], e.args[1]
        if h in free_vars(x):
            if any(isinstance(i, T) and h in free_vars(i) for i in ix):
                return None
            old = part(e.args[0], ix)
            if old.op not in ('nzat', 'seg', 'blk', 'row', 'col') or not contains(x, old):
                return None
            z = fresh('z')
            if ix[0] == 'nz':
                SCALARS.add(z)
            y = subst(x, {old: z})
            if h in free_vars(y):
                return None
            return wseq([p, mk('wmod', ix, lam([z], y))])
        return wseq([p, mk('wput', e.args[1], x)])
    if op == 'append':
        p = prog(e.args[0], h)
        if p is None or h in free_vars(e.args[1]):
            return None
        return wseq([p, mk('wpush', e.args[1])])
    if op == 'cat':
        p = prog(e.args[0], h)
        if p is None or h in free_vars(e.args[1]):
            return None
        return wseq([p, mk('wcat', e.args[1])])
    if op == 'ite':
        p, q = prog(e.args[1], h), prog(e.args[2], h)
        if p is None or q is None:
            return None
        if h in free_vars(e.args[0]):
            return guarded(e.args[0], p, q, h)
        return wif(e.args[0], p, q)
    if op == 'scat':
        p = prog(e.args[0], h)
        if p is None or h in free_vars(e.args[1]):
            return None
        return wseq([p, e.args[1]])
    return None


def guarded(g, p, q, h):
    """a write that depends on the element it replaces"""
    w = p if q is SKIP else q
    if (p is SKIP) == (q is SKIP) or w.op not in ('wput', 'wacc', 'wmod'):
        return None
    idx = w.args[0]
    olds = (reg('d', mk('nzat', nzbase(h), idx[1], idx[2])),) if idx[0] == 'nz' else (coef(h, idx), ocoef(h, idx))
    for old in olds:
        if old.op not in ('coef', 'ocoef', 'ite', 'nzat') or not contains(g, old):
            continue
        z = fresh('z')
        SCALARS.add(z)
        c = subst(g, {old: z})
        if h in free_vars(c):
            continue
        if w.op == 'wput':
            x = w.args[1]
        elif w.op == 'wacc':
            x = add(z, w.args[1])
        else:
            x = apply_lam(w.args[1], [z])
        return mk('wmod', idx, lam([z], ite(c, x, z) if q is SKIP else ite(c, z, x)))
    return None


def wadd(p, h, cur, idx, x):
    """program p, then cur[idx] := x"""
    if any(isinstance(i, T) and h in free_vars(i) for i in idx):
        return None
    if h not in free_vars(x):
        return wseq([p, mk('wput', idx, x)])
    # the old element
    for op in ('coef', 'ocoef'):
        old = coef(cur, idx) if op == 'coef' else ocoef(cur, idx)
        d = sub(x, old)
        if h not in free_vars(d) and x.op == 'poly':
            return wseq([p, mk('wacc', idx, d)])
        if old.op in ('coef', 'ocoef', 'ite') and contains(x, old):
            z = fresh('z')
            SCALARS.add(z)
            y = subst(x, {old: z})
            if h not in free_vars(y):
                return wseq([p, mk('wmod', idx, lam([z], y))])
    return None


def overlap(p, ix):
    """may two iterations write the same place with different values?"""
    for x in subterms(p):
        if x.op == 'wput':
            if not any(isinstance(i, T) and ix in free_vars(i) for i in x.args[0]):
                return True
            # position must be a non constant linear function of ix
            if not any(isinstance(i, T) and ix in free_vars(i) and all(len(m) == 0 or not any(ix in free_vars(a) for a, _ in m)
                       or m == ((ix, Fraction(1)),) for m in terms_of(i)) for i in x.args[0]):
                return True
    return False


def powm(q, m):
    if isnum(q) and q.args[0] == 1:
        return ONE
    if isnum(q) and q.args[0] == 2:
        return pow2(m)
    if isnum(m):
        return pow_(q, m)
    r = mk('power', q, m)
    SCALARS.add(r)
    return r


def cpow(x, e):
    if isnum(x) and x.args[0] == 2:
        return pow2(e)
    if isnum(e):
        return pow_(x, e)
    r = mk('power', x, e)
    if isscalar(x):
        SCALARS.add(r)
    return r


def trunc(v):
    if intlike(v) or v in INTS:
        return v
    if isnum(v):
        return num(int(v.args[0]))
    r = call('trunc', v)
    INTS.add(r)
    return r


def idiv(a, b):
    if isnum(a) and isnum(b) and b.args[0] != 0:
        q = abs(a.args[0]) // abs(b.args[0])
        return num(q if (a.args[0] < 0) == (b.args[0] < 0) else -q)
    if isnum(b) and b.args[0] == 1:
        return a
    r = call('idiv', a, b)
    INTS.add(r)
    return r


def imod(a, b):
    r = call('imod', a, b)
    INTS.add(r)
    return r


def ocoef(v, idx):
    op = v.op
    if op == 'upd':
        if C.same_idx(v.args[1], idx):
            return v.args[2]
        if C.diff_idx(v.args[1], idx):
            return ocoef(v.args[0], idx)
    if op == 'map' and len(idx) == 1:
        return apply_lam(v.args[1], list(idx))
    if op == 'list' and isnum(idx[0]):
        k = int(idx[0].args[0])
        if 0 <= k < len(v.args[0]):
            return v.args[0][k]
    if op == 'append':
        n = size(v.args[0])
        if idx[0] is n:
            return v.args[1]
        d = sub(n, idx[0])
        if isnum(d) and d.args[0] > 0:
            return ocoef(v.args[0], idx)
    if op == 'nrepl':
        return v.args[1]
    if op == 'ite':
        return ite(v.args[0], ocoef(v.args[1], idx), ocoef(v.args[2], idx))
    return mk('ocoef', v, tuple(idx))


T_._BUILD['ocoef'] = lambda v, idx: ocoef(v, idx)
T_.PUSH.add('ocoef')


def updc(v, idx, x):
    if x.op == 'ocoef' and x.args[0] is v and C.same_idx(x.args[1], idx):
        return v
    return upd(v, idx, x)


def elem(v, k, et):
    if et is None or arith(et):
        r = coef(v, (k,))
        return reg(et or 'i', r) if r.op == 'coef' else r
    return reg(et, ocoef(v, (k,)))


def elemtype(t):
    if t.startswith('std::vector<'):
        x = t[12:-1]
        return {'int': 'i', 'double': 'd', 'bool': 'b', 'unsigned int': 'u', 'unsigned long': 'u', 'long': 'i', 'float': 'd'}.get(x, x)
    if t[:2] in ('EA', 'EM'):
        return 'd'
    return 'o'


def seg0(v, s, n):
    if isnum(s) and s.args[0] == 0 and n is size(v):
        return v
    if isnum(s) and s.args[0] == 0 and isnum(n) and n.args[0] == 0:
        return EMPTY
    t = mk('seg', v, s, n)
    return t


def sort_(v):
    return callt('sort', (('', v),))


@simpl('sort')
def _sort(args):
    v = args[0][1]
    if len(args) == 1 and (v is EMPTY or v.op == 'call' and v.args[0] in ('sort', 'set_union') or v.op == 'list' and len(v.args[0]) == 1):
        return v
    return None


@simpl('set_union')
def _set_union(args):
    xs = [a for _, a in args]
    if xs[0] is EMPTY:
        return xs[1]
    if len(xs) > 1 and xs[1] is EMPTY:
        return xs[0]
    return None


def resizev(v, n):
    if size(v) is n:
        return v
    if v.op == 'removed' and size(v.args[1]) is n:
        return v.args[1]
    if isnum(n) and n.args[0] == 0:
        return EMPTY
    return mk('call', 'resize', (('', v), ('', n)))


def mergeany(N, k, b):
    l = lam([k], b)
    f = first(N, l)
    if f.op == 'findidx':
        return f
    return ite(exists(N, l), f, N)


def getput(v, s, f):
    """read of a part after writes of parts"""
    if v.op == 'put' and v.args[1] == tuple(s):
        return v.args[2]
    if v.op == 'put' and s[0] == v.args[1][0] == 'nz' and C.diff_idx(s[1:], v.args[1][1:]):
        return getput(v.args[0], s, lambda: reg('d', mk('nzat', nzbase(v.args[0]), s[1], s[2])))
    return f()


def putput(v, s, x):
    s = tuple(s)
    if v.op == 'put' and v.args[1] == s:
        v = v.args[0]
    if s[0] == 'seg' and s[1] is ZERO and s[2] is size(v):
        return x
    if s[0] == 'blk' and s[1] is ZERO and s[2] is ZERO and s[3] is rows(v) and s[4] is cols(v):
        return x
    # parts in one order when they do not overlap
    if v.op == 'put' and disjoint(v.args[1], s) and tuple(skey(y) for y in v.args[1][1:]) > tuple(skey(y) for y in s[1:]):
        return mk('put', putput(v.args[0], s, x), v.args[1], v.args[2])
    return mk('put', v, s, x)


def disjoint(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'nz':
        return C.diff_idx(a[1:], b[1:])
    if a[0] in ('row', 'col'):
        return C.diff_idx(a[1:], b[1:])
    if a[0] == 'seg':
        return add(a[1], a[2]) is b[1] or add(b[1], b[2]) is a[1]
    if a[0] == 'blk':
        return any(add(p[1], p[3]) is q[1] or add(p[2], p[4]) is q[2] for p, q in ((a, b), (b, a)))
    return False


def part(v, s):
    """the part of v that step s denotes"""
    k = s[0]
    if k == 'seg':
        return getput(v, s, lambda: seg(v, s[1], s[2]))
    if k == 'blk':
        return getput(v, s, lambda: blk(v, *s[1:]))
    if k == 'row':
        return getput(v, s, lambda: row(v, s[1]))
    if k == 'col':
        return getput(v, s, lambda: col(v, s[1]))
    if k == 'nz':
        return getput(v, s, lambda: reg('d', mk('nzat', nzbase(v), s[1], s[2])))
    raise Unmodelled('part %s' % k)


C.PARTS[0] = lambda a, b: disjoint(a, b)
C.PUTPART[0] = lambda v, s, x: putput(v, s, x)
C.GETPART[0] = part


def nzbase(v):
    return v


def nnz(v, j):
    while v.op in ('put', 'scat', 'upd'):
        v = v.args[0]
    t = mk('call', 'nnz', (('', v), ('', j)))
    INTS.add(t)
    SCALARS.add(t)
    return t


def gshape(g):
    """graph without its vertex properties"""
    while g.op == 'mapset':
        g = g.args[0]
    return g


def mapat(v, k):
    if v.op == 'mapset':
        if v.args[1] is k:
            return v.args[2]
        if isnum(sub(v.args[1], k)):
            return mapat(v.args[0], k)
    return mk('mapat', v, k)


T_._BUILD['mapat'] = mapat
T_._BUILD['put'] = lambda v, s, x: putput(v, s, x)


def vcat(parts, t, pt):
    if len(parts) == 1:
        return parts[0]
    return mk('vcat', tuple(parts))


def stripf(o, fields):
    """o without the updates of fields outside the given set"""
    if o.op == 'setf':
        b = stripf(o.args[0], fields)
        if o.args[1] in fields:
            return setf(b, o.args[1], o.args[2])
        return b
    return o


def pcall(key, args):
    if key.startswith(('getVectorWithout(', 'getMatrixWithout(', 'getVectorSubset(', 'getMatrixSubset(')) and args and args[-1][1].op == 'poly':
        # these select from a vector or a matrix: a number comes out as a factor
        out = []
        for c, m in args[-1][1].args[0]:
            k = [num(c)]
            rest = []
            for x, e in m:
                y = from_terms({((x, e),): 1})
                (k if isscalar(y) else rest).append(y)
            if not rest:
                return mk('pcall', key, args)
            out.append(mul(*k, mk('pcall', key, args[:-1] + ((args[-1][0], mul(*rest)),))))
        return add(*out)
    return mk('pcall', key, args)


def dropERR(v):
    """value where an error has been recorded as an exit"""
    if v.op == 'ite':
        a, b = v.args[1], v.args[2]
        if a is ERR:
            return dropERR(b)
        if b is ERR:
            return dropERR(a)
    return v
