"""Lifetime and initialisation rules over the C++ AST (C23).

D  a reference, iterator or lazy expression outlives the temporary or local it refers to
L  a closure outlives what it captured by reference
I  a reference or iterator into a container is used after the container may have moved its elements
U  a local is read although nothing on any path before the read can have set it
F  a member is read although the constructor cannot have set it
B  a subscript is certainly outside its container in the last round of a loop
M  the two ends of a range belong to different containers

All rules are "may be set" / "certainly refers": they report only what no path excuses."""

SCALAR = {'i', 'u', 'd', 'b'}
SIZED = {'EA1', 'EM1', 'EA2', 'EM2', 'EAr', 'EMr'}
GROW = {'push_back', 'emplace_back', 'insert', 'erase', 'resize', 'clear', 'pop_back', 'reserve', 'assign', 'emplace', 'swap', 'shrink_to_fit'}
ACCESS = {'operator[]', 'at', 'front', 'back', 'operator()', 'coeffRef', 'data', 'col', 'row', 'head', 'tail', 'segment', 'block', 'second', 'first'}
DECOMP = ('LDLT', 'LLT', 'FullPivLU', 'PartialPivLU', 'HouseholderQR', 'ColPivHouseholderQR', 'FullPivHouseholderQR', 'SelfAdjointEigenSolver',
          'SimplicialLDLT', 'SimplicialLLT', 'SparseLU', 'JacobiSVD', 'EigenSolver')
SEARCH = {'find', 'find_if', 'find_if_not', 'lower_bound', 'upper_bound', 'max_element', 'min_element', 'remove', 'remove_if', 'unique', 'search'}
SETTERS = {'swap', 'tie', 'ref', 'exchange', 'move', 'forward', 'iota', 'fill', 'copy', 'transform', 'generate'}
BEGIN, END = {'begin', 'cbegin', 'rbegin', 'crbegin'}, {'end', 'cend', 'rend', 'crend'}


def plain(t):
    return t in SIZED or t in ('ES2', 'EA', 'EM') or (isinstance(t, str) and len(t) <= 3 and t[:2] in ('EA', 'EM', 'ES'))


def lazy(t):
    return isinstance(t, str) and t[:1] == 'E' and t.endswith('x') and len(t) <= 4


def kids(n):
    """sub-expressions and statements of a node, in order of evaluation as far as it matters"""
    if isinstance(n, list):
        for x in n:
            yield x
        return
    for k in ('o', 'callee', 'a', 'b', 'c', 'e', 'i', 'args', 'init'):
        v = n.get(k)
        if isinstance(v, (dict, list)):
            yield v


def walk(n, into=True):
    """every node below n"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if 'k' in x or 'e' in x:
                yield x
            for k, v in x.items():
                if k in ('f', 't', 'caps', 'params') or not isinstance(v, (dict, list)):
                    continue
                if k == 'body' and x.get('k') == 'lambda' and not into:
                    continue
                st.append(v)
        elif isinstance(x, list):
            st += [y for y in x if isinstance(y, (dict, list))]


def fname(e):
    f = e.get('f')
    return f.get('n') if isinstance(f, dict) else None


def strip(e):
    while isinstance(e, dict) and e.get('k') in ('copy', 'cast', 'dflt') and isinstance(e.get('e'), dict):
        e = e['e']
    return e


def path(e):
    """a name for an lvalue that certainly denotes one object: local, parameter or (nested) member of this"""
    k = e.get('k')
    if k == 'ref' and e.get('d') in ('parm', 'local', 'slocal'):
        return (e['id'],)
    if k == 'this':
        return ('this',)
    if k == 'un' and e.get('op') == '*' and strip(e['e']).get('k') == 'this':
        return ('this',)
    if k == 'mem':
        b = path(e['b'])
        return b + (e['n'],) if b else None
    return None


class Life:
    def __init__(self, p, add, ref=None):
        self.p = p
        self.confirmed = set()
        self.ref = None
        if ref:
            # members that the reviewed tree sets after construction (by a method that its users call first)
            self.ref = Life(ref, lambda *a: None)
            self.ref.rule_f()
            self.confirmed = self.ref.reported
        self.reported = set()
        self.F = p['functions']
        self.C = p['classes']
        self.add_ = add
        self.n = dict.fromkeys('DLIUFBM', 0)
        self.bodies = [(k, f) for k, f in sorted(self.F.items()) if f.get('body') and not f['file'].endswith('RcppExports.cpp')]
        self._kept, self._grow, self._acc = {}, {}, {}
        self._mw, self._fr = {}, {}

    def add(self, decisive, f, line, text, rule):
        self.add_(decisive, '%s:%s' % (f['file'], line or f['line']), f.get('q') or f['n'], 'rule %s: %s' % (rule, text))

    def callee(self, e):
        f = e.get('f')
        if not isinstance(f, dict):
            return None
        s = f.get('s')
        return self.F.get(s) if s in self.F else None

    # ---------------------------------------------------------- temporaries
    def interior(self, g):
        """a function of the package that returns a reference into its object"""
        k = id(g)
        if k not in self._acc:
            self._acc[k] = False
            if g.get('retref') and g.get('c') and not g.get('static'):
                rs = [strip(r['e']) for r in walk(g['body'], False) if r.get('k') == 'ret' and isinstance(r.get('e'), dict)]
                self._acc[k] = bool(rs) and all(self.inside_this(r) for r in rs)
        return self._acc[k]

    def inside_this(self, e):
        e = strip(e)
        k = e.get('k')
        if k == 'mem':
            return self.inside_this(e['b']) and not str(e['b'].get('t', '')).startswith('std::shared_ptr')
        if k == 'this' or k == 'un' and e.get('op') == '*' and strip(e['e']).get('k') == 'this':
            return True
        if k == 'subs':
            return self.inside_this(e['a'])
        if k == 'mcall' and e.get('lv') or k == 'op' and e.get('lv') and e.get('op') in ('[]', '()'):
            o = e.get('o') or (e['a'][0] if e.get('a') else None)
            if o is None or not self.inside_this(o):
                return False
            t = strip(o).get('t', '')
            if fname(e) in ACCESS and (t.startswith('std::vector') or t.startswith('std::map') or plain(t)):
                return True
            g = self.callee(e)
            return bool(g and g.get('body') and self.interior(g))
        return False

    def prv(self, e):
        """the expression makes a new object"""
        k = e.get('k')
        t = str(e.get('t', ''))
        if k in ('mcall', 'op', 'call'):
            return not e.get('lv') and t not in SCALAR and t != 'v' and not t.startswith('*')
        if k in ('ctor', 'copy', 'lambda', 'ilist'):
            return True
        if k == 'cond':
            return self.prv(e['a']) and self.prv(e['b'])
        return False

    def temp(self, e):
        """the object denoted dies with the full expression it occurs in"""
        k = e.get('k')
        if k == 'copy' and e.get('t') and False:
            return True
        if self.prv(e):
            return True
        if k == 'mem' and not e.get('arrow'):
            return self.temp(e['b'])
        if k == 'cast':
            return self.temp(e['e']) if isinstance(e.get('e'), dict) else False
        if k in ('mcall', 'op') and e.get('lv'):
            o = e.get('o') or (e['a'][0] if e.get('a') else None)
            if o is None or e.get('arrow') or not self.temp(o):
                return False
            t = str(o.get('t', ''))
            if k == 'mcall' and t.startswith('*'):
                return False
            if fname(e) in ACCESS and (t.startswith('std::vector') or t.startswith('std::map') or plain(t)):
                return True
            if t.startswith('E:') and fname(e) in ('eigenvalues', 'eigenvectors', 'matrixLLT', 'matrixLDLT', 'vectorD'):
                return True
            g = self.callee(e)
            return bool(g and g.get('body') and self.interior(g))
        return False

    def dangling(self, e):
        """a plain temporary a lazy expression refers to"""
        k = e.get('k')
        if k in ('copy', 'cast') or k == 'ctor' and lazy(e.get('t')):
            for x in ([e['e']] if isinstance(e.get('e'), dict) else e.get('a') or ()):
                d = self.dangling(x)
                if d:
                    return d
            return None
        if k in ('mcall', 'op', 'call') and lazy(e.get('t')):
            ops = ([e['o']] if isinstance(e.get('o'), dict) else []) + [a for a in e.get('a') or () if isinstance(a, dict)]
            for x in ops:
                t = str(x.get('t', ''))
                if plain(t) or t.startswith('E:') and t[2:].split('<')[0] in DECOMP:
                    if self.temp(x):
                        return x
                elif lazy(t):
                    d = self.dangling(x)
                    if d:
                        return d
        return None

    def used_later(self, f, vid, decl):
        for x in walk(f['body']):
            if x.get('k') == 'ref' and x.get('id') == vid:
                return True
            if x.get('k') == 'lambda' and any(c.get('id') == vid for c in x.get('caps') or ()):
                return True
        return False

    def what(self, e):
        f = e.get('f')
        if isinstance(f, dict) and f.get('n'):
            return 'the result of ' + f['n']
        return 'a temporary'

    def rule_d(self, k, f):
        body = f['body']
        for x in walk(body):
            if x.get('k') == 'decl':
                for v in x.get('v') or ():
                    i = v.get('init')
                    if not isinstance(i, dict):
                        continue
                    self.n['D'] += 1
                    if lazy(v.get('t')):
                        d = self.dangling(i)
                        if d and self.used_later(f, v['id'], x):
                            self.add(True, f, v.get('l') or x.get('l'), '%s is an unevaluated expression that refers to %s, which no longer exists when it is used' % (v['n'], self.what(d)), 'D')
                    elif v.get('ref'):
                        j = i
                        while j.get('k') == 'cast':
                            j = j['e']
                        if not self.prv(j) and self.temp(j) and self.used_later(f, v['id'], x):
                            self.add(True, f, v.get('l') or x.get('l'), '%s refers into a temporary object, which no longer exists when it is used' % v['n'], 'D')
                    else:
                        j = strip(i)
                        while j.get('k') == 'ctor' and len(j.get('a') or ()) == 1:
                            j = strip(j['a'][0])
                        if j.get('k') == 'mcall' and fname(j) in BEGIN | END and isinstance(j.get('o'), dict) and not j.get('arrow') and self.temp(j['o']):
                            if self.used_later(f, v['id'], x):
                                self.add(True, f, v.get('l') or x.get('l'), '%s is a position in a temporary container (%s), which no longer exists when it is used' % (v['n'], self.what(j['o'])), 'D')
            elif x.get('k') == 'rfor' and isinstance(x.get('r'), dict):
                self.n['D'] += 1
                r = x['r']
                while r.get('k') == 'cast':
                    r = r['e']
                if not self.prv(r) and self.temp(r):
                    self.add(True, f, x.get('l'), 'the loop runs over a part of a temporary object, which no longer exists', 'D')
                elif lazy(r.get('t')):
                    d = self.dangling(r)
                    if d:
                        self.add(True, f, x.get('l'), 'the loop runs over an expression that refers to %s, which no longer exists' % self.what(d), 'D')
        if f.get('retref'):
            own = {}
            for x in walk(body, False):
                if x.get('k') == 'decl':
                    for v in x.get('v') or ():
                        own[v.get('id')] = v
            byval = {q['id'] for q in f['params'] if not q.get('ref') and not str(q.get('t', '')).startswith('*')}
            for x in walk(body, False):
                if x.get('k') == 'ret' and isinstance(x.get('e'), dict):
                    self.n['D'] += 1
                    e = x['e']
                    if e.get('k') == 'copy':
                        continue
                    if self.temp(e):
                        self.add(True, f, x.get('l'), 'a reference to a temporary object is returned', 'D')
                        continue
                    r = self.root(e)
                    if r is not None and r.get('k') == 'ref' and r.get('d') in ('local', 'parm'):
                        v = own.get(r['id'])
                        if r['id'] in byval or v is not None and not v.get('ref') and not v.get('static') and not str(v.get('t', '')).startswith('*') and \
                                'terator' not in str(v.get('full') or v.get('t')) and not str(v.get('t', '')).startswith(('std::shared_ptr', 'Rcpp::XPtr')):
                            self.add(True, f, x.get('l'), 'a reference to the local %s is returned' % r['n'], 'D')
        # functions and closures that return a lazy expression
        for x in [dict(ret=f.get('ret'), body=body, params=f['params'], l=f['line'])] + [x for x in walk(body) if x.get('k') == 'lambda']:
            if not lazy(x.get('ret')):
                continue
            own = {v.get('id') for y in walk(x['body'], False) if y.get('k') == 'decl' for v in y.get('v') or () if not v.get('ref')}
            own |= {q['id'] for q in x.get('params') or () if not q.get('ref')}
            for y in walk(x['body'], False):
                if y.get('k') == 'ret' and isinstance(y.get('e'), dict):
                    self.n['D'] += 1
                    d = self.dangling(y['e']) or self.lazy_local(y['e'], own)
                    if d:
                        self.add(True, f, y.get('l'), 'an unevaluated expression is returned that refers to %s, which no longer exists when it is evaluated' %
                                 ('the local ' + d['n'] if d.get('k') == 'ref' else self.what(d)), 'D')

    def lazy_local(self, e, own):
        k = e.get('k')
        if k in ('copy', 'cast') and isinstance(e.get('e'), dict):
            return self.lazy_local(e['e'], own)
        if k in ('mcall', 'op', 'call') and lazy(e.get('t')):
            for x in ([e['o']] if isinstance(e.get('o'), dict) else []) + [a for a in e.get('a') or () if isinstance(a, dict)]:
                if plain(x.get('t')) and x.get('k') == 'ref' and x.get('id') in own and x.get('d') in ('local', 'parm'):
                    return x
                if lazy(x.get('t')):
                    d = self.lazy_local(x, own)
                    if d:
                        return d
        return None

    def root(self, e):
        """the object an lvalue expression is part of"""
        while True:
            k = e.get('k')
            if k == 'cast' and isinstance(e.get('e'), dict):
                e = e['e']
            elif k == 'mem' and not e.get('arrow'):
                e = e['b']
            elif k == 'subs':
                e = e['a']
            elif k in ('mcall', 'op') and not e.get('arrow'):
                o = e.get('o') or (e['a'][0] if e.get('a') else None)
                if o is None:
                    return None
                t = str(o.get('t', ''))
                if (k == 'op' and e.get('op') in ('[]', '()') or fname(e) in ACCESS) and (t.startswith('std::vector') or t.startswith('std::map') or plain(t)):
                    e = o
                else:
                    g = self.callee(e)
                    if g and g.get('body') and self.interior(g):
                        e = o
                    else:
                        return None
            else:
                return e

    # ---------------------------------------------------------- ranges
    def rule_m(self, k, f):
        start = {}
        reflocals = set()
        for x in walk(f['body']):
            if x.get('k') == 'decl':
                for v in x.get('v') or ():
                    if v.get('ref'):
                        reflocals.add(v.get('id'))
                    i = v.get('init')
                    if isinstance(i, dict):
                        j = strip(i)
                        while j.get('k') == 'ctor' and len(j.get('a') or ()) == 1:
                            j = strip(j['a'][0])
                        if j.get('k') == 'mcall' and fname(j) in BEGIN and isinstance(j.get('o'), dict):
                            start[v['id']] = j['o']
        for x in walk(f['body']):
            if x.get('k') == 'asg' and x['a'].get('k') == 'ref' or x.get('k') == 'op' and x.get('op') == '=' and len(x.get('a') or ()) == 2 and x['a'][0].get('k') == 'ref':
                start.pop((x['a'] if x['k'] == 'asg' else x['a'][0]).get('id'), None)
        refs = reflocals

        def differ(a, b):
            ta, tb = self.prv(a), self.prv(b)
            if ta and tb or ta and path(b) or tb and path(a):
                return True
            pa, pb = path(a), path(b)
            if not pa or not pb or pa == pb:
                return False
            # different members of one object, or one of them a local object
            if pa[0] == pb[0] and len(pa) == len(pb):
                return True
            for p, q in ((pa, pb), (pb, pa)):
                if len(p) == 1 and p[0] != 'this' and p[0] not in refs:
                    return True
            return False
        for x in walk(f['body']):
            a = x.get('a') if isinstance(x.get('a'), list) else None
            if x.get('k') in ('call', 'ctor', 'mcall') and a:
                for u, v in zip(a, a[1:]):
                    u, v = strip(u), strip(v)
                    while u.get('k') == 'ctor' and len(u.get('a') or ()) == 1:
                        u = strip(u['a'][0])
                    while v.get('k') == 'ctor' and len(v.get('a') or ()) == 1:
                        v = strip(v['a'][0])
                    if u.get('k') == v.get('k') == 'mcall' and fname(u) in BEGIN and fname(v) in END and isinstance(u.get('o'), dict) and isinstance(v.get('o'), dict):
                        self.n['M'] += 1
                        if differ(u['o'], v['o']):
                            self.add(True, f, x.get('l'), 'the range begins in one container and ends in another', 'M')
            elif x.get('k') == 'op' and x.get('op') in ('!=', '==') and a and len(a) == 2:
                for u, v in ((a[0], a[1]), (a[1], a[0])):
                    u, v = strip(u), strip(v)
                    if u.get('k') == 'call' and str((u.get('f') or {}).get('q', '')).startswith('std::') and fname(u) in SEARCH and u.get('a'):
                        w = strip(u['a'][0])
                        while w.get('k') == 'ctor' and len(w.get('a') or ()) == 1:
                            w = strip(w['a'][0])
                        z = v
                        while z.get('k') == 'ctor' and len(z.get('a') or ()) == 1:
                            z = strip(z['a'][0])
                        if w.get('k') == z.get('k') == 'mcall' and fname(w) in BEGIN and fname(z) in END and isinstance(w.get('o'), dict) and isinstance(z.get('o'), dict):
                            self.n['M'] += 1
                            if differ(w['o'], z['o']):
                                self.add(True, f, x.get('l'), 'a position in one container is compared with the end of another', 'M')
                    while v.get('k') == 'ctor' and len(v.get('a') or ()) == 1:
                        v = strip(v['a'][0])
                    while u.get('k') == 'ctor' and len(u.get('a') or ()) == 1:
                        u = strip(u['a'][0])
                    if u.get('k') == 'ref' and u.get('id') in start and v.get('k') == 'mcall' and fname(v) in END and isinstance(v.get('o'), dict):
                        self.n['M'] += 1
                        if differ(start[u['id']], v['o']):
                            self.add(True, f, x.get('l'), '%s runs in one container and is compared with the end of another' % u['n'], 'M')

    # ---------------------------------------------------------- closures
    def kept(self, key):
        """which parameters of a function are kept in its object or in its result"""
        if key not in self._kept:
            self._kept[key] = frozenset()
            for _ in range(4):
                r = self.kept_once(key)
                if r == self._kept[key]:
                    break
                self._kept[key] = r
        return self._kept[key]

    def holds(self, f, e, held, depth=0):
        """labels of what the value of e keeps: parameter indices and short lived closures.  held: labels by local id."""
        if not isinstance(e, dict) or depth > 40:
            return frozenset()
        k = e.get('k')
        out = frozenset()
        if k == 'ref':
            return held.get(e.get('id'), out)
        if k in ('copy', 'cast'):
            return self.holds(f, e['e'], held, depth + 1) if isinstance(e.get('e'), dict) else out
        if k == 'cond':
            return self.holds(f, e['a'], held, depth + 1) | self.holds(f, e['b'], held, depth + 1)
        if k == 'lambda':
            for c in e.get('caps') or ():
                if c.get('byref') and not c.get('this'):
                    if not c.get('isref'):
                        out |= {('dead', c.get('n'), e.get('l') or e.get('line'))}
                elif c.get('id') in held:
                    out |= held[c['id']]
            return out
        if k in ('ctor', 'call', 'mcall', 'new'):
            if k == 'new':
                return self.holds(f, e.get('e') or {}, held, depth + 1)
            a = e.get('a') or []
            t = str(e.get('t', ''))
            if k == 'ctor' and t.startswith('std::function'):
                for x in a:
                    out |= self.holds(f, x, held, depth + 1)
                return out
            if e.get('f', {}).get('q', '').startswith('std::') if isinstance(e.get('f'), dict) else False:
                n = fname(e)
                if n in ('move', 'ref', 'forward', 'bind', 'make_shared', 'make_unique', 'make_pair') or k == 'ctor':
                    for x in a:
                        out |= self.holds(f, x, held, depth + 1)
                return out
            g = e.get('f') if isinstance(e.get('f'), dict) else {}
            s = g.get('s')
            if s in self.F:
                kp = self.kept(s)
                for i, x in enumerate(a):
                    if i in kp:
                        out |= self.holds(f, x, held, depth + 1)
            return out
        return out

    def kept_once(self, key):
        f = self.F[key]
        if not f.get('body') and not f.get('inits'):
            return frozenset()
        labels, _ = self.flows(f, {q['id']: frozenset([('p', i)]) for i, q in enumerate(f['params'])
                                   if 'function' in str(q.get('t', '')) or q.get('t') == 'lambda' or not q.get('ref') or q.get('t') in self.C})
        return frozenset(l[1] for l in labels if l[0] == 'p')

    def flows(self, f, held):
        """labels that reach a member of the object, the result, a static or a by-reference parameter"""
        out = frozenset()
        where = {}
        held = dict(held)
        outer = {q['id'] for q in f['params'] if q.get('mut')}

        def note(l, line, how):
            nonlocal out
            for x in l:
                if x not in out:
                    where[x] = (line, how)
            out |= l
        for i in f.get('inits') or ():
            e = i.get('e')
            if isinstance(e, dict) and (i.get('m') or i.get('base') or i.get('dele')):
                l = self.holds(f, e, held)
                note(l, i.get('l'), 'kept in a member')
        if not f.get('body'):
            return out, where
        for _ in range(3):
            for x in walk(f['body'], False):
                k = x.get('k')
                if k == 'decl':
                    for v in x.get('v') or ():
                        if isinstance(v.get('init'), dict):
                            l = self.holds(f, v['init'], held)
                            if l:
                                held[v['id']] = held.get(v['id'], frozenset()) | l
                elif k == 'ret' and isinstance(x.get('e'), dict):
                    note(self.holds(f, x['e'], held), x.get('l'), 'returned')
                elif k == 'asg' and x.get('op') == '=' or k == 'op' and x.get('op') == '=' and len(x.get('a') or ()) == 2:
                    a, b = (x['a'], x['b']) if k == 'asg' else x['a']
                    l = self.holds(f, b, held)
                    if l:
                        r = self.root(a)
                        if r is None:
                            continue
                        if r.get('k') in ('this', 'mem') or r.get('k') == 'ref' and (r.get('d') in ('slocal', 'global') or r.get('id') in outer):
                            note(l, x.get('l'), 'kept in a member')
                        elif r.get('k') == 'ref':
                            held[r['id']] = held.get(r['id'], frozenset()) | l
                elif k == 'mcall' and isinstance(x.get('o'), dict):
                    s = x['f'].get('s') if isinstance(x.get('f'), dict) else None
                    l = frozenset()
                    if s in self.F:
                        kp = self.kept(s)
                        for i, y in enumerate(x.get('a') or ()):
                            if i in kp and not self.F[s].get('const'):
                                l |= self.holds(f, y, held)
                    elif fname(x) in ('push_back', 'emplace_back', 'insert', 'reset', 'assign'):
                        for y in x.get('a') or ():
                            l |= self.holds(f, y, held)
                    if l:
                        r = {'k': 'this'} if x['o'].get('k') == 'this' else self.root(x['o'])
                        if r is None:
                            continue
                        if r.get('k') in ('this', 'mem') or r.get('k') == 'ref' and (r.get('d') in ('slocal', 'global') or r.get('id') in outer):
                            note(l, x.get('l'), 'kept in a member')
                        elif r.get('k') == 'ref':
                            held[r['id']] = held.get(r['id'], frozenset()) | l
        return out, where

    def rule_l(self, k, f):
        ls = [x for x in walk(f['body']) if x.get('k') == 'lambda']
        ls += [y for i in f.get('inits') or () if isinstance(i.get('e'), dict) for y in walk(i['e']) if y.get('k') == 'lambda']
        self.n['L'] += len(ls)
        if not ls:
            return
        out, where = self.flows(f, {})
        for x in sorted(out, key=str):
            if x[0] == 'dead':
                self.add(True, f, where[x][0] or x[2], 'a closure that refers to the local %s is %s, where %s no longer exists' % (x[1], where[x][1], x[1]), 'L')

    # ---------------------------------------------------------- invalidation
    def grows(self, key, seen=()):
        """members of its object whose elements a method may move"""
        if key not in self._grow:
            if key in seen:
                return frozenset()
            out = set()
            f = self.F[key]
            for x in walk(f.get('body') or {}):
                out |= {q[1] for q in self.moved(x, seen + (key,)) if q[0] == 'this' and len(q) > 1}
            if seen:
                return frozenset(out)
            self._grow[key] = frozenset(out)
        return self._grow[key]

    def moved(self, x, seen=()):
        """paths of the containers whose elements the node itself may move"""
        k = x.get('k')
        if k == 'mcall' and isinstance(x.get('o'), dict):
            t = str(x['o'].get('t', ''))
            p = path(x['o'])
            if p and t.startswith('std::vector') and fname(x) in GROW:
                return [p]
            s = x['f'].get('s') if isinstance(x.get('f'), dict) else None
            if s in self.F and not self.F[s].get('const') and self.F[s].get('body') and not self.F[s].get('virt'):
                p = path(x['o'])
                if p:
                    return [p + (m,) for m in self.grows(s, seen)]
        elif k == 'op' and x.get('op') == '=' and len(x.get('a') or ()) == 2:
            p = path(x['a'][0])
            if p and str(x['a'][0].get('t', '')).startswith('std::vector'):
                return [p]
        return []

    def leaves(self, s):
        """control certainly does not go on after the statement"""
        k = s.get('k')
        if k in ('ret', 'break', 'cont'):
            return True
        if k == 'expr' and isinstance(s.get('e'), dict) and (s['e'].get('k') == 'throw' or s['e'].get('k') == 'call' and
                                                             fname(s['e']) in ('stop', 'abort', 'exit', 'terminate', 'Rf_error', 'rethrow_exception', 'throw_exception')):
            return True
        if k == 'blk':
            return any(self.leaves(x) for x in s.get('s') or ())
        if k == 'if':
            return isinstance(s.get('b'), dict) and self.leaves(s['a']) and self.leaves(s['b'])
        return False

    def moves(self, s):
        """containers moved by a statement that control may leave normally; with the assigned names"""
        out = []
        k = s.get('k') if isinstance(s, dict) else None
        if k is None:
            return out
        if k == 'blk':
            for x in s.get('s') or ():
                out += self.moves(x)
                if self.leaves(x):
                    return [] if x.get('k') != 'if' else out
            return out
        if k == 'if':
            for b in ('a', 'b'):
                if isinstance(s.get(b), dict) and not self.leaves(s[b]):
                    out += self.moves(s[b])
            for x in walk([s.get('c'), s.get('cv')], False):
                out += [(p, x.get('l')) for p in self.moved(x)]
            return out
        for x in walk(s, False):
            out += [(p, x.get('l')) for p in self.moved(x)]
        return out

    def rule_i(self, k, f):
        for blk in [x for x in walk(f['body']) if x.get('k') == 'blk']:
            ss = blk.get('s') or ()
            for i, s in enumerate(ss):
                if s.get('k') == 'rfor' and isinstance(s.get('r'), dict):
                    p = path(strip(s['r']))
                    if p and str(strip(s['r']).get('t', '')).startswith('std::vector') and s['r'].get('k') != 'copy':
                        self.n['I'] += 1
                        for q, l in self.moves(s.get('body') or {}):
                            if q == p:
                                self.add(True, f, l, 'the loop runs over a container whose elements it moves', 'I')
                if s.get('k') != 'decl':
                    continue
                for v in s.get('v') or ():
                    c = self.points_into(v)
                    if not c:
                        continue
                    self.n['I'] += 1
                    gone = None
                    for t in ss[i + 1:]:
                        if gone and any(y.get('k') == 'ref' and y.get('id') == v['id'] for y in walk(t)):
                            if self.reassigned(t, v['id']):
                                break
                            self.add(True, f, t.get('l') or gone, '%s refers into a container whose elements were moved at line %s' % (v['n'], gone), 'I')
                            break
                        if self.leaves(t):
                            break
                        if any(self.reassigned(y, v['id']) for y in walk(t)):
                            break
                        for q, l in self.moves(t):
                            if q == c:
                                gone = gone or l

    def reassigned(self, t, vid):
        if t.get('k') == 'expr':
            t = t['e']
        if t.get('k') == 'asg' and t.get('op') == '=':
            return t['a'].get('k') == 'ref' and t['a'].get('id') == vid
        if t.get('k') == 'op' and t.get('op') == '=' and t.get('a'):
            return t['a'][0].get('k') == 'ref' and t['a'][0].get('id') == vid
        return False

    def points_into(self, v):
        i = v.get('init')
        if not isinstance(i, dict):
            return None
        if v.get('ref'):
            while i.get('k') == 'cast':
                i = i['e']
            if i.get('k') in ('mcall', 'op') and (i.get('lv') or i.get('op') == '[]'):
                o = i.get('o') or i['a'][0]
                if fname(i) in ('operator[]', 'at', 'front', 'back') and str(o.get('t', '')).startswith('std::vector'):
                    return path(o)
        else:
            j = strip(i)
            while j.get('k') == 'ctor' and len(j.get('a') or ()) == 1:
                j = strip(j['a'][0])
            if j.get('k') == 'mcall' and fname(j) in BEGIN | END and isinstance(j.get('o'), dict) and str(j['o'].get('t', '')).startswith('std::vector'):
                return path(j['o'])
        return None

    # ---------------------------------------------------------- unset locals
    def rule_u(self, k, f):
        self.scan_unset(f, f['body'])
        self.one_if(f)
        for x in walk(f['body']):
            if x.get('k') == 'lambda':
                self.scan_unset(f, x['body'])

    def sets(self, s, vid):
        """the statement certainly sets the local, or control does not go on; loops and the like count as setting when they may set"""
        k = s.get('k')
        if not any(self.may_set(x, vid) for x in walk(s)):
            return self.leaves(s)
        if k == 'blk':
            return any(self.sets(x, vid) for x in s.get('s') or ())
        if k == 'if':
            if any(self.may_set(x, vid) for x in walk([s.get('c'), s.get('cv'), s.get('init')])):
                return True
            return isinstance(s.get('b'), dict) and self.sets(s['a'], vid) and self.sets(s['b'], vid)
        return True

    def may_set(self, x, vid):
        k = x.get('k')
        if k == 'asg' or k == 'un' and x.get('op') in ('++', '--', '&'):
            y = x['a'] if k == 'asg' else x['e']
            return y.get('k') == 'ref' and y.get('id') == vid
        if k in ('call', 'mcall', 'ctor', 'op'):
            g = self.callee(x)
            return any(y.get('k') == 'ref' and y.get('id') == vid and (g is None or i < len(g['params']) and g['params'][i].get('mut'))
                       for i, y in enumerate(x.get('a') or ()))
        if k == 'lambda':
            return any(c.get('id') == vid and c.get('byref') for c in x.get('caps') or ())
        if k == 'decl':
            return any(v.get('ref') and isinstance(v.get('init'), dict) and v['init'].get('id') == vid for v in x.get('v') or ())
        return False

    def one_if(self, f):
        """a local without initialiser that one if statement alone sets, on some of its ways, and that is read after it in any case"""
        for blk in [x for x in walk(f['body']) if x.get('k') == 'blk']:
            ss = blk.get('s') or ()
            for i, s in enumerate(ss):
                for v in (s.get('v') or ()) if s.get('k') == 'decl' else ():
                    if v.get('t') not in SCALAR or v.get('init') is not None or v.get('ref') or v.get('static'):
                        continue
                    pend = None
                    for t in ss[i + 1:]:
                        if any(self.may_set(x, v['id']) for x in walk(t)):
                            if pend is not None or t.get('k') != 'if' or self.sets(t, v['id']):
                                break
                            pend = t
                            continue
                        if pend is None:
                            continue
                        e = t.get('e') if t.get('k') in ('ret', 'expr') else t.get('c') if t.get('k') == 'if' else None
                        if isinstance(e, dict):
                            while e.get('k') in ('bin', 'cast', 'copy', 'asg'):
                                e = e['b'] if e['k'] == 'asg' else e['a'] if e['k'] == 'bin' else e['e']
                            if e.get('k') == 'ref' and e.get('id') == v['id']:
                                self.add(True, f, t.get('l'), '%s is read here, and the if statement at line %s does not set it on all of its ways' % (v['n'], pend.get('l')), 'U')
                                break
                        if t.get('k') == 'if' or self.leaves(t):
                            break

    def scan_unset(self, f, body):
        unset = {}
        owned = {}
        reported = set()

        def writes(n):
            """locals that a node may set"""
            out = set()
            for x in walk(n):
                k = x.get('k')
                if k == 'asg' and x.get('op') == '=' or k == 'op' and x.get('op') in ('=', '<<', '>>'):
                    a = x['a'] if k == 'asg' else x['a'][0]
                    for y in walk(a):
                        if y.get('k') == 'ref':
                            out.add(y.get('id'))
                elif k == 'un' and x.get('op') == '&':
                    for y in walk(x['e']):
                        if y.get('k') == 'ref':
                            out.add(y.get('id'))
                elif k in ('call', 'mcall', 'ctor', 'op'):
                    fn = x.get('f') if isinstance(x.get('f'), dict) else {}
                    g = self.F.get(fn.get('s'))
                    a = x.get('a') or []
                    if g:
                        for q, y in zip(g['params'], a):
                            if q.get('mut') or str(q.get('t', '')).startswith('*'):
                                out |= {z.get('id') for z in walk(y) if z.get('k') == 'ref'}
                    elif k != 'op':
                        # an unknown function may set what it is given by name
                        for y in a:
                            if y.get('k') == 'ref' and (y.get('t') not in SCALAR or fn.get('n') in SETTERS):
                                out.add(y.get('id'))
                    o = x.get('o')
                    if isinstance(o, dict) and not fn.get('const'):
                        out |= {z.get('id') for z in walk(o) if z.get('k') == 'ref'}
                elif k == 'lambda':
                    out |= {c.get('id') for c in x.get('caps') or () if c.get('byref')}
                elif k == 'decl':
                    for v in x.get('v') or ():
                        if v.get('ref') and isinstance(v.get('init'), dict):
                            out |= {z.get('id') for z in walk(v['init']) if z.get('k') == 'ref'}
                elif k == 'rfor':
                    out |= {z.get('id') for z in walk(x.get('r') or {}) if z.get('k') == 'ref'}
                elif k == 'subs' and False:
                    pass
            return out

        def read(e, st, sure=True):
            """certain reads of elements or values of unset locals in an expression"""
            if not isinstance(e, dict):
                return
            k = e.get('k')
            if k == 'lambda':
                return
            if k == 'ref':
                v = unset.get(e.get('id'))
                if v and e['id'] not in st and sure and e['id'] not in reported:
                    reported.add(e['id'])
                    self.add(True, f, e.get('l'), '%s is read here, and nothing before can have set it' % v['n'], 'U')
                return
            if k == 'asg':
                if x_is_ref(e['a']) and e.get('op') == '=':
                    read(e['b'], st, sure)
                    return
                if e.get('op') == '=':
                    lhs(e['a'], st, sure)
                else:
                    read(e['a'], st, sure)
                read(e['b'], st, sure)
                return
            if k == 'op':
                a = e.get('a') or []
                if e.get('op') == '=':
                    if not x_is_ref(a[0]):
                        lhs(a[0], st, sure)
                    for y in a[1:]:
                        read(y, st, sure)
                    return
                if e.get('op') in ('<<', '>>'):
                    for y in a[1:]:
                        read(y, st, sure)
                    if not x_is_ref(a[0]):
                        read(a[0], st, sure)
                    return
                if e.get('op') in ('()', '[]', '+', '-', '*', '/', '+=', '-=', '*=', '/=', '==', '!='):
                    for y in a:
                        read(y, st, sure)
                    return
                return
            if k == 'mcall':
                o = e.get('o')
                n = fname(e)
                for y in e.get('a') or ():
                    read(y, st, sure)
                if isinstance(o, dict) and not x_is_ref(o):
                    read(o, st, sure)
                elif isinstance(o, dict) and plain(o.get('t')) and n in ('sum', 'prod', 'dot', 'norm', 'squaredNorm', 'maxCoeff', 'minCoeff', 'coeff', 'determinant',
                                                                    'inverse', 'log', 'exp', 'abs', 'square', 'mean', 'operator()', 'operator[]'):
                    read(o, st, sure)
                return
            if k in ('call', 'ctor'):
                g = self.F.get(e['f'].get('s')) if isinstance(e.get('f'), dict) else None
                for i, y in enumerate(e.get('a') or ()):
                    if x_is_ref(y) and str(y.get('t')) not in SCALAR:
                        continue
                    if g and i < len(g['params']) and g['params'][i].get('mut'):
                        continue
                    if not g and x_is_ref(y):
                        continue
                    read(y, st, sure)
                return
            if k == 'copy':
                read(e.get('e'), st, sure)
                return
            if k == 'bin':
                read(e['a'], st, sure)
                read(e['b'], st, sure and e.get('op') not in ('&&', '||'))
                return
            if k == 'cond':
                read(e['c'], st, sure)
                return
            if k in ('un', 'cast'):
                if e.get('op') == '&':
                    return
                read(e.get('e'), st, sure)
                return
            if k == 'mem':
                if not x_is_ref(e['b']):
                    read(e['b'], st, sure)
                return
            if k == 'subs':
                read(e['a'], st, sure)
                read(e['b'], st, sure)

        def lhs(a, st, sure):
            """the subscripts of a written element are read"""
            k = a.get('k')
            if k == 'op' and a.get('op') in ('()', '[]'):
                for y in (a.get('a') or [])[1:]:
                    read(y, st, sure)
            elif k == 'mcall':
                for y in a.get('a') or ():
                    read(y, st, sure)
            elif k == 'subs':
                read(a['b'], st, sure)

        def x_is_ref(e):
            return e.get('k') == 'ref'

        def stmt(s, st):
            if not isinstance(s, dict):
                return st
            k = s.get('k')
            if k == 'blk':
                for x in s.get('s') or ():
                    st = stmt(x, st)
                return st
            if k == 'decl':
                for v in s.get('v') or ():
                    i = v.get('init')
                    t = v.get('t')
                    self.n['U'] += 1
                    if isinstance(i, dict):
                        read(i, st)
                        st = st | writes(i)
                    if v.get('ref') or v.get('static'):
                        if isinstance(i, dict):
                            st = st | {z.get('id') for z in walk(i) if z.get('k') == 'ref'}
                        continue
                    if t in SIZED:
                        owned[v['id']] = v
                    if t in SCALAR and i is None:
                        unset[v['id']] = v
                        st = st - {v['id']}
                    elif t in SIZED and (i is None or i.get('k') == 'ctor' and all(y.get('t') in ('i', 'u') or y.get('k') == 'dflt' for y in i.get('a') or ())
                                         and not (len(i.get('a') or ()) == 1 and i['a'][0].get('k') == 'int' and str(i['a'][0].get('v')) == '0')):
                        unset[v['id']] = v
                        st = st - {v['id']}
                return st
            if k == 'expr':
                read(s.get('e'), st)
                e = s.get('e')
                if isinstance(e, dict) and e.get('k') == 'mcall' and fname(e) == 'resize' and isinstance(e.get('o'), dict) and x_is_ref(e['o']) and \
                        e['o'].get('d') == 'local' and e['o'].get('t') in SIZED and e['o'].get('id') in owned:
                    unset[e['o']['id']] = owned[e['o']['id']]
                    return st - {e['o']['id']}
                return st | writes(s)
            if k == 'ret':
                if isinstance(s.get('e'), dict):
                    e = strip(s['e'])
                    if e.get('k') == 'ref' and str(e.get('t')) not in SCALAR and e.get('id') in unset and e['id'] not in st and e['id'] not in reported:
                        v = unset[e['id']]
                        i = v.get('init')
                        if isinstance(i, dict) and i.get('a'):
                            reported.add(e['id'])
                            self.add(True, f, s.get('l'), '%s is returned here, and nothing before can have set its elements' % v['n'], 'U')
                    else:
                        read(s['e'], st)
                return st | writes(s)
            if k == 'if':
                for x in (s.get('init'), s.get('cv')):
                    if isinstance(x, dict):
                        st = stmt(x, st) if x.get('k') == 'decl' else st
                if isinstance(s.get('c'), dict):
                    read(s['c'], st)
                    st = st | writes(s['c'])
                a = stmt(s.get('a'), st)
                b = stmt(s.get('b'), st)
                return a | b
            if k in ('for', 'while', 'do', 'rfor'):
                i = s.get('init') if k == 'for' else None
                if isinstance(i, dict):
                    st = stmt(i, st)
                if k == 'rfor':
                    st = st | writes(s.get('r') or {})
                c = s.get('c')
                if isinstance(c, dict) and k != 'do':
                    read(c, st)
                    st = st | writes(c)
                body = s.get('body')
                body = body if isinstance(body, dict) else {}
                # the first round, as far as it is straight
                cur = st
                every = st | writes(body) | (writes(s['i']) if isinstance(s.get('i'), dict) else set()) | writes([x for x in (s.get('inc'),) if x])
                for x in (body.get('s') if body.get('k') == 'blk' else [body]) or ():
                    if x.get('k') in ('expr', 'decl'):
                        cur = stmt(x, cur)
                    else:
                        if x.get('k') == 'if' and isinstance(x.get('c'), dict) and not x.get('init') and not x.get('cv'):
                            read(x['c'], cur)
                        stmt(x, every)
                        cur = cur | writes(x)
                        if self.exits(x):
                            cur = every
                return every | cur
            if k == 'switch' or k == 'try' or k == 'unk':
                return st | writes(s)
            return st | writes(s)

        stmt(body, frozenset())

    def exits(self, s):
        return any(x.get('k') in ('break', 'cont', 'ret') for x in walk(s, False))

    # ---------------------------------------------------------- unset members
    def fields(self, c):
        out = {}
        for x in self.C.get(c, {}).get('fields', ()):
            out[x['n']] = x
        return out

    def may_write(self, key):
        """members a method may set"""
        if key not in self._mw:
            self._mw[key] = frozenset()
            out = set()
            f = self.F[key]
            for n in [f.get('body') or {}] + [i['e'] for i in f.get('inits') or () if isinstance(i.get('e'), dict)]:
                for x in walk(n):
                    out |= self.member_writes(x)
            for i in f.get('inits') or ():
                if i.get('m') and i.get('written'):
                    out.add(i['m'])
            self._mw[key] = frozenset(out)
        return self._mw[key]

    def member_writes(self, x):
        k = x.get('k')
        out = set()

        def mem(n):
            for y in walk(n):
                if y.get('k') == 'mem' and y.get('b', {}).get('k') in ('this', 'cast'):
                    out.add(y['n'])
        if k == 'asg':
            mem(x['a'])
        elif k == 'op' and (x.get('op') in ('=', '<<', '>>', '+=', '-=', '*=', '/=')):
            mem(x['a'][0])
            if len(x['a']) and path(x['a'][0]) == ('this',):
                out.add('*')
        elif k == 'un' and x.get('op') in ('++', '--', '&'):
            mem(x['e'])
        elif k in ('call', 'mcall', 'ctor'):
            fn = x.get('f') if isinstance(x.get('f'), dict) else {}
            g = self.F.get(fn.get('s'))
            for i, y in enumerate(x.get('a') or ()):
                if g is None or i < len(g['params']) and g['params'][i].get('mut'):
                    if y.get('k') == 'mem' and (g or y.get('t') not in SCALAR or fn.get('n') in SETTERS):
                        mem(y)
                if y.get('k') == 'this' or path(y) == ('this',):
                    if g is None or i < len(g['params']) and (g['params'][i].get('mut') or str(g['params'][i].get('t')).startswith('*')):
                        out.add('*')
            o = x.get('o')
            if isinstance(o, dict) and not fn.get('const'):
                if strip(o).get('k') == 'this':
                    out |= self.may_write(fn['s']) if fn.get('s') in self.F else {'*'}
                else:
                    mem(o)
        elif k == 'decl':
            for v in x.get('v') or ():
                if v.get('ref') and isinstance(v.get('init'), dict):
                    mem(v['init'])
        elif k == 'lambda':
            for c in x.get('caps') or ():
                if c.get('this'):
                    pass        # the body is walked as well
        elif k == 'rfor':
            mem(x.get('r') or {})
        return out

    def reads_before(self, key, want, seen=(), loops=False):
        """members of want that a method certainly reads (not below a condition) before anything can have set them: {name: (line, function)}"""
        f = self.F.get(key)
        out = {}
        if not f or not f.get('body') or key in seen or len(seen) > 6:
            return out
        st = set()

        def expr(n):
            # certain reads, left to right
            if not isinstance(n, dict):
                return
            k = n.get('k')
            if k == 'lambda':
                return
            if k == 'mem' and n.get('b', {}).get('k') == 'this' and n['n'] in want and n['n'] not in st and '*' not in st:
                out.setdefault(n['n'], (n.get('l'), f))
                return
            if k == 'asg' or k == 'op' and n.get('op') == '=' and len(n.get('a') or ()) == 2:
                a, b = (n['a'], n['b']) if k == 'asg' else n['a']
                expr(b)
                if n.get('op') != '=':
                    expr(a)
                elif a.get('k') != 'mem':
                    expr(a)
            elif k == 'bin':
                expr(n['a'])
                if n.get('op') not in ('&&', '||'):
                    expr(n['b'])
            elif k == 'cond':
                expr(n['c'])
            elif k == 'un' and n.get('op') == '&':
                pass
            else:
                for c in kids(n):
                    for y in (c if isinstance(c, list) else [c]):
                        expr(y)
                if k == 'mcall' and isinstance(n.get('o'), dict) and strip(n['o']).get('k') == 'this' and isinstance(n.get('f'), dict):
                    s = n['f'].get('s')
                    if s in self.F and not (self.F[s].get('virt') and not n.get('nonvirt')):
                        for m, v in self.reads_before(s, {w for w in want if w not in st} if '*' not in st else set(), seen + (key,), loops).items():
                            out.setdefault(m, v)
            for z in self.member_writes(n):
                st.add(z)

        def stmt(s):
            """false when control may not go on, or only below a condition"""
            k = s.get('k')
            if k == 'blk':
                for x in s.get('s') or ():
                    if not stmt(x):
                        return False
                return True
            if k == 'decl':
                for v in s.get('v') or ():
                    if isinstance(v.get('init'), dict):
                        expr(v['init'])
                        for x in walk(s, False):
                            st.update(self.member_writes(x))
                return True
            if k == 'expr':
                expr(s['e'])
            elif k == 'ret':
                if isinstance(s.get('e'), dict):
                    expr(s['e'])
                return False
            elif k == 'if':
                if isinstance(s.get('c'), dict):
                    expr(s['c'])
            elif k in ('for', 'while', 'rfor', 'do'):
                if k == 'for' and isinstance(s.get('init'), dict):
                    stmt(s['init'])
                if k != 'do' and isinstance(s.get('c'), dict):
                    expr(s['c'])
                if isinstance(s.get('r'), dict):
                    expr(s['r'])
                if isinstance(s.get('body'), dict) and loops:
                    stmt(s['body'])
            for x in walk(s):
                st.update(self.member_writes(x))
            return not any(x.get('k') in ('ret',) for x in walk(s, False)) and not any(x.get('k') == 'throw' for x in walk(s, False)) or k == 'expr'
        for i in f.get('inits') or ():
            if isinstance(i.get('e'), dict):
                expr(i['e'])
            if i.get('m') and (i.get('written') or self.fields(f.get('c')).get(i['m'], {}).get('t') not in SCALAR):
                st.add(i['m'])
        stmt(f['body'])
        return out

    def rule_f(self):
        for c, cl in sorted(self.C.items()):
            fs = self.fields(c)
            sc = {n for n, x in fs.items() if x['t'] in SCALAR and not x.get('init')}
            ctors = [(k, f) for k, f in sorted(self.F.items()) if f.get('c') == c and f.get('ctor') and (f.get('body') is not None or f.get('inits'))]
            methods = [k for k, f in sorted(self.F.items()) if f.get('c') == c and not f.get('ctor') and not f.get('dtor') and not f.get('static') and f.get('body')]
            for k, f in ctors:
                if any(i.get('dele') for i in f.get('inits') or ()):
                    continue
                self.n['F'] += len(fs)
                # within the constructor: everything counts, in the order of initialisation
                inits = {i.get('m') for i in f.get('inits') or () if i.get('written')}
                want = set(sc)
                # members of other types are default constructed at their turn
                for m, (l, g) in sorted(self.reads_before(k, want, (), True).items()):
                    self.add(True, f if g is f else g, l, 'the constructor reads the member %s of %s before it is set' % (m, c), 'F')
                order = [x['n'] for x in cl['fields']]
                for i in f.get('inits') or ():
                    if i.get('m') in order and isinstance(i.get('e'), dict):
                        for y in walk(i['e'], False):
                            if y.get('k') == 'mem' and y.get('b', {}).get('k') == 'this' and y['n'] in order and order.index(y['n']) > order.index(i['m']) and y['n'] not in sc:
                                self.add(True, f, i.get('l') or f['line'], 'the initialiser of %s uses the member %s of %s, which is initialised later' % (i['m'], y['n'], c), 'F')
                left = sc - inits - self.may_write(k)
                if '*' in self.may_write(k):
                    continue
                if not left:
                    continue
                copyish = f['params'] and len(f['params']) == 1 and f['params'][0].get('t') == c
                if not f['params'] or copyish:
                    # judged where such an object is used
                    self.fresh(c, k, left, methods)
                    continue
                for m in sorted(left):
                    for q in methods:
                        if self.F[q].get('access') == 'private' and False:
                            continue
                        r = self.reads_before(q, {m})
                        if m in r and (c, m, k) not in self.confirmed:
                            self.reported.add((c, m, k))
                            self.add(self.always(c, m), f, f['line'], 'this constructor leaves the member %s of %s unset, and %s reads it' % (m, c, self.F[q]['n']), 'F')
                            break

    def writers(self, c, m):
        return {f['n'] for k, f in self.F.items() if f.get('c') == c and not f.get('ctor') and not f.get('dtor') and f.get('body') and {m, '*'} & self.may_write(k)}

    def always(self, c, m):
        """no method is there to set the member after construction, other than those of the reviewed tree, which do not serve for that"""
        w = {x for x in self.writers(c, m) if not x.startswith('operator')}
        if not self.ref or m not in self.ref.fields(c):
            return not w
        return w <= self.ref.writers(c, m)

    def fresh(self, c, k, left, methods):
        """objects made by the default constructor k, and used before anything is assigned to them"""
        reads = {}
        for q in methods:
            r = self.reads_before(q, left)
            if r:
                reads[q] = sorted(r)[0]
        if not reads:
            return
        for key, f in self.bodies:
            for blk in [x for x in walk(f['body']) if x.get('k') == 'blk']:
                ss = blk.get('s') or ()
                for i, s in enumerate(ss):
                    if s.get('k') != 'decl':
                        continue
                    for v in s.get('v') or ():
                        n = v.get('init')
                        if v.get('t') != c or v.get('ref') or not (n is None or isinstance(n, dict) and n.get('k') == 'ctor' and not n.get('a')):
                            continue
                        for t in ss[i + 1:]:
                            hit = [x for x in walk(t) if x.get('k') == 'ref' and x.get('id') == v['id']]
                            if not hit:
                                continue
                            e = t.get('e') if t.get('k') in ('expr', 'ret') else None
                            for x in ([e] if e else []) + [w.get('init') for w in t.get('v') or ()]:
                                x = strip(x) if isinstance(x, dict) else {}
                                if x.get('k') == 'mcall' and isinstance(x.get('o'), dict) and x['o'].get('k') == 'ref' and x['o'].get('id') == v['id'] and \
                                        isinstance(x.get('f'), dict) and x['f'].get('s') in reads:
                                    self.add(True, f, t.get('l'), '%s is used with the member %s unset' % (v['n'], reads[x['f']['s']]), 'F')
                            break

    # ---------------------------------------------------------- bounds
    def size_of(self, e, al):
        """(path of a container, which size, constant added) for an expression that is a size of a container"""
        e = strip(e)
        k = e.get('k')
        if k == 'bin' and e.get('op') in ('+', '-') and strip(e['b']).get('k') == 'int':
            r = self.size_of(e['a'], al)
            n = int(strip(e['b'])['v'])
            return r and (r[0], r[1], r[2] + (n if e['op'] == '+' else -n))
        if k == 'ref' and e.get('id') in al:
            return self.size_of(al[e['id']], {})
        if k == 'mcall' and isinstance(e.get('o'), dict):
            if fname(e) in ('size', 'rows', 'cols', 'length') and not e.get('a'):
                p = path(e['o'])
                return p and (p, 'size' if fname(e) == 'length' else fname(e), 0)
            g = self.callee(e)
            if g and g.get('body') and not g['params'] and strip(e['o']).get('k') == 'this' and not g.get('virt'):
                ss = g['body'].get('s') or ()
                if len(ss) == 1 and ss[0].get('k') == 'ret' and isinstance(ss[0].get('e'), dict):
                    r = self.size_of(ss[0]['e'], {})
                    return r if r and r[0][0] == 'this' else None
        return None

    def aliases(self, f):
        """locals that are set once, to a size"""
        out, gone = {}, set()
        for x in walk(f['body']):
            if x.get('k') == 'decl':
                for v in x.get('v') or ():
                    if v.get('t') in ('i', 'u') and isinstance(v.get('init'), dict) and not v.get('ref'):
                        out[v['id']] = v['init']
                    elif v.get('ref') and isinstance(v.get('init'), dict) and v['init'].get('k') == 'ref':
                        gone.add(v['init'].get('id'))
            elif x.get('k') == 'asg' or x.get('k') == 'un' and x.get('op') in ('++', '--', '&'):
                y = x['a'] if x['k'] == 'asg' else x['e']
                if y.get('k') == 'ref':
                    gone.add(y.get('id'))
            elif x.get('k') == 'lambda':
                gone |= {c.get('id') for c in x.get('caps') or () if c.get('byref')}
            elif x.get('k') in ('call', 'mcall', 'ctor'):
                g = self.callee(x)
                for i, y in enumerate(x.get('a') or ()):
                    if y.get('k') == 'ref' and g and i < len(g['params']) and g['params'][i].get('mut'):
                        gone.add(y.get('id'))
        return {k: v for k, v in out.items() if k not in gone}

    def subscripts(self, n):
        for y in walk(n, False):
            if y.get('k') == 'op' and y.get('op') in ('()', '[]') and len(y.get('a') or ()) == 2:
                yield y, y['a'][0], y['a'][1], ('size', 'rows')
            elif y.get('k') == 'mcall' and fname(y) in ('at', 'coeff', 'coeffRef', 'row', 'col') and len(y.get('a') or ()) == 1 and isinstance(y.get('o'), dict):
                yield y, y['o'], y['a'][0], {'row': ('rows',), 'col': ('cols',)}.get(fname(y), ('size',))

    def rule_b(self, k, f):
        al = self.aliases(f)
        changed = {q for q, _ in self.moves(f['body'])}
        for y, o, idx, kinds in self.subscripts(f['body']):
            self.n['B'] += 1
            r = self.size_of(idx, al)
            t = str(o.get('t', ''))
            if r and r[2] >= 0 and path(o) == r[0] and r[1] in kinds and (t.startswith('std::vector') or plain(t)) and not (strip(idx).get('k') == 'ref' and r[0] in changed):
                self.add(True, f, y.get('l'), 'the element size() of a container is used, which ends at size() - 1', 'B')
        for x in walk(f['body']):
            if x.get('k') not in ('for', 'while'):
                continue
            c = x.get('c')
            if not isinstance(c, dict) or c.get('k') != 'bin':
                continue
            self.n['B'] += 1
            op, a, b = c.get('op'), strip(c['a']), strip(c['b'])
            if op == '>=':
                if a.get('t') == 'u' and b.get('k') == 'int' and str(b.get('v')) == '0' and a.get('k') == 'ref':
                    self.add(True, f, x.get('l'), '%s is unsigned, so that the loop does not end at 0' % a['n'], 'B')
                op, a, b = '<=', b, a
            elif op == '>':
                op, a, b = '<', b, a
            if a.get('k') != 'ref' or op not in ('<', '<=', '!='):
                continue
            r = self.size_of(b, al)
            if not r:
                continue
            if r[2] + (0 if op == '<=' else -1) < 0:
                continue
            body = x.get('body')
            if not isinstance(body, dict) or r[0] in changed:
                continue
            step = x.get('inc') if isinstance(x.get('inc'), dict) else x.get('i') if isinstance(x.get('i'), dict) else None
            ss = body.get('s') if body.get('k') == 'blk' else [body]
            for s in ss or ():
                sure = s if s.get('k') in ('expr', 'decl') else s.get('c') if s.get('k') == 'if' else s.get('r') if s.get('k') == 'rfor' else None
                if isinstance(sure, dict):
                    if any(y.get('k') == 'un' and y.get('op') in ('++', '--') and strip(y['e']).get('id') == a.get('id') for y in walk(sure)):
                        break
                    for y, o, idx, kinds in self.subscripts(sure):
                        if path(o) == r[0] and r[1] in kinds and strip(idx).get('k') == 'ref' and strip(idx).get('id') == a.get('id'):
                            self.add(True, f, y.get('l'), 'the last round uses the element size() of a container, which ends at size() - 1', 'B')
                if s.get('k') not in ('expr', 'decl') and self.exits(s):
                    break

    def run(self):
        for k, f in self.bodies:
            self.rule_d(k, f)
            self.rule_m(k, f)
            self.rule_l(k, f)
            self.rule_i(k, f)
            self.rule_u(k, f)
            self.rule_b(k, f)
        self.rule_f()
        return dict(functions=len(self.bodies), sites=dict(self.n))


def analyse(p, add, ref=None):
    return Life(p, add, ref).run()


def controls(ref):
    """the rules must fire on mistakes planted in (a copy of) the reviewed tree: an initialiser taken away from a local and from a member, a bound exceeded"""
    import copy
    out = []

    def attempt(what, change):
        for k, f in sorted(ref['functions'].items()):
            if not f.get('body') or f['file'].endswith('RcppExports.cpp'):
                continue
            g = copy.deepcopy(f)
            if not change(g):
                continue
            q = dict(ref, functions=dict(ref['functions']))
            q['functions'][k] = g
            got = []
            Life(q, lambda *a: got.append(a), ref).run()
            if any(a[0] for a in got):
                out.append('%s in %s: %s' % (what, k, [a for a in got if a[0]][0][3]))
                return

    def local(g):
        ss = g['body'].get('s') or ()
        for i, s in enumerate(ss):
            for v in (s.get('v') or ()) if s.get('k') == 'decl' else ():
                if v.get('t') in SCALAR and isinstance(v.get('init'), dict) and v['init'].get('k') in ('int', 'flt') and not v.get('static') and \
                        any(x.get('k') == 'ret' and isinstance(x.get('e'), dict) and strip(x['e']).get('id') == v['id'] for x in ss):
                    v.pop('init')
                    return True
        return False

    def member(g):
        if not g.get('ctor'):
            return False
        for i in g.get('inits') or ():
            if i.get('written') and isinstance(i.get('e'), dict) and i['e'].get('k') in ('int', 'flt', 'bool') and i.get('m'):
                g['inits'] = [x for x in g['inits'] if x is not i]
                return True
        return False

    def bound(g):
        for x in walk(g['body']):
            if x.get('k') == 'for' and isinstance(x.get('c'), dict) and x['c'].get('k') == 'bin' and x['c'].get('op') == '<' and strip(x['c']['b']).get('k') == 'mcall':
                x['c']['op'] = '<='
                return True
        return False
    attempt('a local without initialiser', local)
    attempt('a member without initialiser', member)
    attempt('a loop to size()', bound)
    return out
