"""Agreement of the two sides of the interface between R and the compiled code.

Read from the sources of the tree: the `.Call`s of R/*.R, the registration table and the glue functions of
src/RcppExports.cpp, the entry points and their parameter types (definitions in src/*.cpp), the class traits of
RcppR6_post.hpp, the R6 classes and the directives of NAMESPACE.  Rules:

 B1 every .Call names a registered routine and passes as many arguments as it takes
 B2 every entry of the table points to the glue function it is named after, with its number of parameters
 B3 the glue function converts its k-th SEXP to the type of the parameter of the entry point it is passed to, and
    passes every one, once, where the entry point of the same name has it
 B4 the result of the entry point is wrapped and returned
 B5 the glue function is enclosed by BEGIN_RCPP / END_RCPP, so that exceptions become R errors
 B6 the class traits name R6 classes and generators that exist, with the members in use
 B7 NAMESPACE loads the library, exports the user interface and registers the S3 methods
"""
import glob
import os
import re

USED_EXPORTS = ['find_lfun_glmm', 'find_modfr_glmm', 'glmm', 'set_lme4_control']
S3 = [('coef', 'glmmFit'), ('print', 'glmmFit'), ('print', 'summaryGlmmFit'), ('summary', 'glmmFit'), ('vcov', 'glmmFit')]


def strip(t):
    """comments removed, line structure kept"""
    out, i = [], 0
    for m in re.finditer(r'"(?:\\.|[^"\\])*"|//[^\n]*|/\*.*?\*/', t, re.S):
        out.append(t[i:m.start()])
        s = m.group()
        out.append(s if s[0] == '"' else '\n' * s.count('\n') or ' ')
        i = m.end()
    out.append(t[i:])
    return ''.join(out)


def balanced(t, i, o='(', c=')'):
    d = 0
    for k in range(i, len(t)):
        if t[k] == o:
            d += 1
        elif t[k] == c:
            d -= 1
            if d == 0:
                return k
    return -1


def split_args(t):
    out, d, cur = [], 0, ''
    for ch in t:
        if ch in '(<[{':
            d += 1
        elif ch in ')>]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def norm_type(t):
    t = re.sub(r'\bconst\b|&', ' ', t)
    t = re.sub(r'\s+', ' ', t).strip()
    t = re.sub(r'\s*([<>,:])\s*', r'\1', t)
    t = re.sub(r'\b(glmmsr::RcppR6::)?RcppR6<', 'RcppR6<', t)
    t = re.sub(r'\bstd::|\bEigen::', '', t)
    return t


SCALAR = [('int', r'^(int|long|unsigned|size_t|unsigned int)$'), ('double', r'^(double|float)$'), ('bool', r'^bool$'),
          ('string', r'string'), ('ints', r'vector<int>|VectorXi|ArrayXi|IntegerVector'),
          ('doubles', r'vector<double>|VectorXd|ArrayXd|NumericVector'), ('matrix', r'MatrixXd|NumericMatrix|ArrayXXd'),
          ('sparse', r'SparseMatrix<double'), ('object', r'RcppR6<')]


def kind(t):
    for k, r in SCALAR:
        if re.search(r, t):
            return k
    return t


def glue(text):
    """name -> dict(line, formals, inputs, call, ret, guarded)"""
    out = {}
    for m in re.finditer(r'\bSEXP\s+(\w+)\s*\(', text):
        e = balanced(text, m.end() - 1)
        b = text.find('{', e)
        if e < 0 or b < 0 or text[e + 1:b].strip():
            continue
        f = balanced(text, b, '{', '}')
        body = text[b + 1:f]
        formals = [re.sub(r'^SEXP\s+', '', a) for a in split_args(text[m.end():e])]
        g = dict(line=text.count('\n', 0, m.start()) + 1, formals=formals, inputs={}, call=None, ret=None,
                 guarded=bool(re.match(r'\s*BEGIN_RCPP\b', body)) and bool(re.search(r'\b(VOID_)?END_RCPP\s*$', body)) or
                 bool(re.search(r'\btry\b', body) and re.search(r'catch\s*\(\s*\.\.\.', body)))
        for s in re.finditer(r'input_parameter\s*<(.*?)>\s*::\s*type\s+(\w+)\s*[({]\s*(\w+)\s*[)}]\s*;', body):
            g['inputs'][s.group(2)] = (s.group(1).strip(), s.group(3))
        for s in re.finditer(r'(?:const\s+)?([\w:<> ,]+?)\s*&?\s+(\w+)\s*=\s*(?:Rcpp::)?as\s*<(.*?)>\s*\(\s*(\w+)\s*\)\s*;', body):
            g['inputs'][s.group(2)] = (s.group(3).strip(), s.group(4))
        st = [x.strip() for x in re.sub(r'\b(BEGIN_RCPP|END_RCPP|VOID_END_RCPP)\b', ';', body).split(';') if x.strip()]
        g['statements'] = st
        out[m.group(1)] = g
    return out


def entry_points(texts):
    """definitions of functions in the sources: name -> (file, line, return type, [(type, name)])"""
    out = {}
    for file, t in texts.items():
        for m in re.finditer(r'^([A-Za-z_][\w:<>,& ]*?)\s+(\w+__\w+)\s*\(', t, re.M):
            e = balanced(t, m.end() - 1)
            if e < 0 or not re.match(r'\s*\{', t[e + 1:]):
                continue
            ps = []
            for a in split_args(t[m.end():e]):
                a = a.split('=')[0].strip()
                k = re.match(r'(.*?)(\w+)$', a, re.S)
                ps.append((norm_type(k.group(1)), k.group(2)) if k else (norm_type(a), ''))
            out[m.group(2)] = (file, t.count('\n', 0, m.start()) + 1, norm_type(m.group(1)), ps)
    return out


def calls_of(node, acc):
    """all .Call expressions of a syntax tree"""
    if isinstance(node, dict):
        if node.get('k') == 'call' and node['f'].get('n') == '.Call':
            acc.append(node)
        for v in node.values():
            calls_of(v, acc)
    elif isinstance(node, list):
        for v in node:
            calls_of(v, acc)
    return acc


def dollar_calls(node, acc):
    """x$name(args)"""
    if isinstance(node, dict):
        if node.get('k') == 'call' and node['f'].get('k') == 'call' and node['f']['f'].get('n') == '$':
            a = node['f']['a'][1][1]
            acc.append((a.get('n') or a.get('v'), node))
        for v in node.values():
            dollar_calls(v, acc)
    elif isinstance(node, list):
        for v in node:
            dollar_calls(v, acc)
    return acc


def fields_used(node, acc):
    if isinstance(node, dict):
        if node.get('k') == 'call' and node['f'].get('n') == '$' and len(node['a']) == 2 and node['a'][1][1]:
            a = node['a'][1][1]
            acc.add(a.get('n') or a.get('v'))
        for v in node.values():
            fields_used(v, acc)
    elif isinstance(node, list):
        for v in node:
            fields_used(v, acc)
    return acc


def read(root):
    texts = {}
    for f in sorted(glob.glob(os.path.join(root, 'src', '*.cpp'))):
        texts['src/' + os.path.basename(f)] = strip(open(f, errors='replace').read())
    hpp = os.path.join(root, 'inst/include/glmmsr/RcppR6_post.hpp')
    post = strip(open(hpp).read()) if os.path.exists(hpp) else ''
    ns = open(os.path.join(root, 'NAMESPACE')).read() if os.path.exists(os.path.join(root, 'NAMESPACE')) else ''
    return texts, post, ns


def table_of(text):
    rows = []
    for m in re.finditer(r'\{\s*"([^"]+)"\s*,\s*\(\s*DL_FUNC\s*\)\s*&?\s*(\w+)\s*,\s*(-?\d+)\s*\}', text):
        rows.append((m.group(1), m.group(2), int(m.group(3)), text.count('\n', 0, m.start()) + 1))
    return rows


def traits(post):
    out = {}
    for m in re.finditer(r'(class_name_r|package_name|generator_name)\s*<(.*?)>\s*\(\s*\)\s*\{\s*return\s*"([^"]*)"', post):
        out.setdefault(norm_type(m.group(2)), {})[m.group(1)] = m.group(3)
    return out


class Bindings:
    def __init__(self, root, pkg):
        self.root, self.pkg = root, pkg
        self.texts, self.post, self.ns = read(root)
        self.gluefile = 'src/RcppExports.cpp'
        alltext = {f: t for f, t in self.texts.items() if 'R_CallMethodDef' in t or 'BEGIN_RCPP' in t}
        self.glue, self.table, self.where = {}, [], {}
        for f, t in alltext.items():
            for n, g in glue(t).items():
                self.glue[n] = g
                self.where[n] = '%s:%d' % (f, g['line'])
            self.table += [(a, b, c, '%s:%d' % (f, l)) for a, b, c, l in table_of(t)]
        self.dynamic = not any(re.search(r'R_useDynamicSymbols\s*\(\s*\w+\s*,\s*(FALSE|\(Rboolean\)\s*(FALSE|0))', t) for t in alltext.values())
        self.entries = entry_points({f: t for f, t in self.texts.items() if f not in alltext})
        self.traits = traits(self.post)

    # what one glue function does: (entry point, [index of the SEXP], returned?)
    def link(self, g):
        names = {}
        for x, (t, s) in g['inputs'].items():
            if s in g['formals']:
                names[x] = (g['formals'].index(s), t)
        res = None
        for st in g['statements']:
            for e in self.entries:
                m = re.search(r'\b%s\s*\(' % re.escape(e), st)
                if m:
                    k = balanced(st, m.end() - 1)
                    res = (e, split_args(st[m.end():k]), st)
        if res is None:
            return None
        e, args, st = res
        pos = []
        for a in args:
            a = re.sub(r'^std::move\((.*)\)$', r'\1', a)
            pos.append(names.get(a, (None, a)))
        out = None
        m = re.match(r'(?:Rcpp::RObject\s+|SEXP\s+|auto\s+)?(\w+)\s*=\s*(?:Rcpp::)?wrap\s*\(', st)
        if m:
            out = 'wrapped' if any(re.match(r'return\s+%s$' % m.group(1), x) for x in g['statements']) else 'dropped'
        elif re.match(r'return\s+(?:Rcpp::)?wrap\s*\(', st):
            out = 'wrapped'
        else:
            out = 'dropped'
        return e, pos, out

    def check(self, add, stats):
        registered = {}
        for name, ptr, n, w in self.table:
            registered.setdefault(name, (ptr, n, w))
            stats['obligations'] += 2
            if ptr not in self.glue:
                add(False, w, name, 'B2: the function %s of the registration table was not found' % ptr)
                continue
            k = len(self.glue[ptr]['formals'])
            if n >= 0 and n != k:
                add(True, w, name, 'B2: registered with %d arguments, %s takes %d' % (n, ptr, k))
            if name != ptr and name in self.glue:
                add(True, w, name, 'B2: the name %s is registered for %s' % (name, ptr))
        # R to the table
        used = {}
        for fn in self.pkg.funs.values():
            if '$' in fn.name or '@' in fn.name:
                continue
            for c in calls_of(fn.node, []):
                args = [a for a in c['a'] if a[0] not in ('PACKAGE', '.PACKAGE')]
                if not args or not args[0][1]:
                    continue
                s = args[0][1]
                name = s.get('v') if s['k'] == 'str' else s.get('n')
                w = 'R/%s:%s' % (fn.file, c.get('l') or fn.line)
                stats['calls'] += 1
                stats['obligations'] += 2
                if any(a[1] is not None and a[1].get('n') == '...' for a in args[1:]):
                    continue
                if name in registered:
                    ptr, n, w2 = registered[name]
                    used[name] = fn.name
                    if n >= 0 and n != len(args) - 1:
                        add(True, w, fn.name, 'B1: %s is called with %d arguments and registered with %d (%s)' % (name, len(args) - 1, n, w2))
                elif s['k'] == 'str':
                    if self.table and (not self.dynamic or name not in self.glue):
                        add(True, w, fn.name, 'B1: %s is not a registered routine' % name)
                elif self.table:
                    add(False, w, fn.name, 'B1: routine %s is not in the table' % name)
        # glue
        for ptr in sorted({p for _, p, _, _ in self.table}):
            g = self.glue.get(ptr)
            if g is None:
                continue
            w = self.where[ptr]
            stats['glue'] += 1
            stats['obligations'] += 2
            if not g['guarded']:
                add(True, w, ptr, 'B5: not enclosed by BEGIN_RCPP and END_RCPP: an exception would not become an R error')
            l = self.link(g)
            if l is None:
                add(False, w, ptr, 'B3: the call of the entry point was not recognised')
                continue
            e, pos, out = l
            file, line, ret, params = self.entries[e]
            if '_glmmsr_' + e != ptr and ptr.startswith('_glmmsr_') and ptr[len('_glmmsr_'):] in self.entries:
                add(True, w, ptr, 'B3: calls %s' % e)
                continue
            if len(pos) != len(params):
                add(False, w, ptr, 'B3: %d arguments passed, %s has %d parameters' % (len(pos), e, len(params)))
                continue
            for j, ((i, t), (pt, pn)) in enumerate(zip(pos, params)):
                stats['obligations'] += 2
                if i is None:
                    add(False, w, ptr, 'B3: argument %d (%s) of %s is not one of the converted parameters' % (j + 1, t, e))
                    continue
                a, b = norm_type(t), pt
                if a != b:
                    add(kind(a) != kind(b), w, ptr, 'B3: parameter %s of %s has type %s, but is converted to %s' % (pn, e, b, a))
            seen = [i for i, _ in pos if i is not None]
            if len(set(seen)) != len(seen):
                add(True, w, ptr, 'B3: one SEXP is passed for two parameters of %s' % e)
            elif None not in [i for i, _ in pos] and len(seen) < len(g['formals']):
                add(True, w, ptr, 'B3: an argument is not passed to %s' % e)
            # the order in which R passes them
            rf = [f for f in self.pkg.funs.values() if f.name == used.get(ptr)]
            if rf and len(set(seen)) == len(seen) == len(params):
                order = self.r_order(rf[0], ptr)
                if order and len(order) == len(g['formals']):
                    got = [order[i] for i in seen]
                    want = [pn for _, pn in params]
                    if got != want and sorted(got) == sorted(want):
                        add(True, w, ptr, 'B3: %s receives (%s) for its parameters (%s)' % (e, ', '.join(got), ', '.join(want)))
                    stats['obligations'] += 1
            stats['obligations'] += 1
            if ret != 'void' and out != 'wrapped':
                add(True, w, ptr, 'B4: the result of %s is not returned' % e)
        if not self.table:
            add(False, self.gluefile, 'CallEntries', 'no registration table was found')
        self.classes(add, stats)
        self.namespace(add, stats)

    def r_order(self, fn, name):
        for c in calls_of(fn.node, []):
            args = [a for a in c['a'] if a[0] not in ('PACKAGE', '.PACKAGE')]
            if args and args[0][1] and (args[0][1].get('v') or args[0][1].get('n')) == name:
                return [a[1].get('n') if a[1] and a[1]['k'] == 'sym' else None for a in args[1:]]

    def classes(self, add, stats):
        r6 = self.pkg.r6
        gens = {}
        for f, l, e in self.pkg.toplevel:
            import rengine
            ms = list(rengine.r6_members(e))
            if ms:
                gens[e['a'][0][1].get('n')] = ms[0][0]
        file = 'inst/include/glmmsr/RcppR6_post.hpp'
        for t, d in sorted(self.traits.items()):
            stats['obligations'] += 3
            g, k = d.get('generator_name'), d.get('class_name_r')
            if g is not None and gens:
                if g not in gens:
                    add(True, file, t, 'B6: the generator %s is not defined in R' % g)
                elif k is not None and gens[g] != k:
                    add(True, file, t, 'B6: objects are expected to have class %s, the generator %s makes %s' % (k, g, gens[g]))
            p = d.get('package_name')
            if p is not None and p != 'glmmsr':
                add(True, file, t, 'B6: the generator is looked up in package %s' % p)
        seen = {}
        for t, d in self.traits.items():
            g = d.get('generator_name')
            if g in seen:
                add(True, file, t, 'B6: %s and %s share the generator %s' % (t, seen[g], g))
            seen[g] = t
            k = d.get('class_name_r')
            # the constructor of the R class must make this C++ type
            for e in (k + '__ctor',) if k else ():
                if e in self.entries:
                    stats['obligations'] += 1
                    ret = self.entries[e][2]
                    if ret != t and ret in self.traits:
                        add(True, '%s:%d' % self.entries[e][:2], e, 'B6: makes a %s, not a %s' % (ret, t))
                for name, (f, l, ret, ps) in self.entries.items():
                    if name.startswith(k + '__') and name != e and ps:
                        stats['obligations'] += 1
                        if ps[0][0].startswith('RcppR6<') and ps[0][0] != 'RcppR6<%s>' % t and ps[0][0][7:-1] in self.traits:
                            add(True, '%s:%d' % (f, l), name, 'B6: takes a %s as its object, the class %s is %s' % (ps[0][0], k, t))

    def namespace(self, add, stats):
        ns = re.sub(r'#[^\n]*', '', self.ns)
        if not ns.strip():
            return
        stats['obligations'] += 1 + len(USED_EXPORTS) + 2 * len(S3)
        if not re.search(r'useDynLib\s*\(\s*"?glmmsr"?', ns):
            add(True, 'NAMESPACE', 'useDynLib', 'B7: the compiled code is not loaded')
        exported = set()
        for m in re.finditer(r'export\s*\(([^)]*)\)', ns):
            exported |= {x.strip().strip('"`') for x in m.group(1).split(',')}
        pats = [m.group(1).strip().strip('"') for m in re.finditer(r'exportPattern\s*\(([^)]*)\)', ns)]
        for f in USED_EXPORTS:
            if f not in exported and not pats:
                add(True, 'NAMESPACE', f, 'B7: %s is not exported' % f)
            if f not in self.pkg.funs and (f in exported):
                add(True, 'NAMESPACE', f, 'B7: %s is exported and not defined' % f)
        methods = {}
        for m in re.finditer(r'S3method\s*\(([^)]*)\)', ns):
            a = [x.strip().strip('"`') for x in m.group(1).split(',')]
            if len(a) >= 2:
                methods[(a[0], a[1])] = a[2] if len(a) > 2 else '%s.%s' % (a[0], a[1])
        for k in S3:
            if k not in methods:
                add(True, 'NAMESPACE', '%s.%s' % k, 'B7: the method %s for class %s is not registered' % k)
            elif methods[k] not in self.pkg.funs:
                add(True, 'NAMESPACE', methods[k], 'B7: the registered method %s is not defined' % methods[k])
            elif methods[k] != '%s.%s' % k and '%s.%s' % k in self.pkg.funs:
                add(True, 'NAMESPACE', methods[k], 'B7: %s is registered as the method %s for class %s' % ((methods[k],) + k))


def positional(ref, code, add, stats):
    """members of the R6 classes: those in use exist, and the order of their arguments suits the callers"""
    used = set()
    sites = []
    for fn in code.funs.values():
        fields_used(fn.node, used)
        for m, c in dollar_calls(fn.node, []):
            sites.append((m, c, fn))
    for cls, ms in ref.r6.items():
        for m, where in ms.items():
            stats['obligations'] += 1
            have = code.r6.get(cls, {})
            if m not in have:
                if cls in code.r6 and m in used:
                    add(True, 'R/RcppR6.R', cls, 'B6: the member %s is in use, but not defined' % m)
                continue
            if have[m] != where and {have[m], where} == {'public', 'active'}:
                add(m in used, 'R/RcppR6.R', cls, 'B6: the member %s is now in the %s list' % (m, have[m]))
            k = cls + ('$' if where == 'public' else '@') + m
            if k not in code.funs or where != 'public':
                continue
            a, b = [p for p, _ in ref.funs[k].params], [p for p, _ in code.funs[k].params]
            if a != b and sorted(a) == sorted(b):
                for m2, c, fn in sites:
                    if m2 == m and sum(1 for x in c['a'] if not x[0]) > 1:
                        add(True, 'R/%s:%s' % (fn.file, c.get('l') or fn.line), fn.name,
                            'B6: passes arguments by position to %s, whose parameters are now (%s)' % (m, ', '.join(b)))


def analyse(repo, ref, code, add):
    stats = dict(calls=0, glue=0, obligations=0)
    found = [0]

    def add2(*a):
        found[0] += 1
        add(*a)
    b = Bindings(repo, code)
    b.check(add2, stats)
    positional(ref, code, add2, stats)
    stats['entry_points'] = len(b.entries)
    stats['registered'] = len(b.table)
    stats['classes'] = sorted(b.traits)
    stats['discharged'] = stats['obligations'] - found[0]
    return stats


def control(repo, ref, root):
    """the rules must fire on planted disagreements in the reference's own glue"""
    b = Bindings(root, ref)
    import copy
    fired = []
    if b.table:
        c = copy.copy(b)
        c.table = list(b.table)
        n, p, k, w = c.table[-1]
        c.table[-1] = (n, p, k + 1, w)
        out = []
        c.check(lambda *a: out.append(a), dict(calls=0, glue=0, obligations=0))
        if any(x[0] for x in out):
            fired.append('a wrong number of arguments in the table: ' + out[0][3])
        c = copy.copy(b)
        c.glue = {k: copy.deepcopy(v) for k, v in b.glue.items()}
        g = [v for v in c.glue.values() if len(v['inputs']) > 2][0]
        ks = list(g['inputs'])
        g['inputs'][ks[1]], g['inputs'][ks[2]] = g['inputs'][ks[2]], g['inputs'][ks[1]]
        out = []
        c.check(lambda *a: out.append(a), dict(calls=0, glue=0, obligations=0))
        if any(x[0] for x in out):
            fired.append('two conversions exchanged: ' + [x for x in out if x[0]][0][3])
    return fired
