"""What is analysed in the C++ sources for each property."""
import copy
import os
import re
import random
import propmap
import ccheck
import cengine as E
import ccompare
import terms as T


def base(f):
    return os.path.basename(f).rsplit('.', 1)[0]


def decide(ctx, repo, root):
    if ctx.prop in propmap.CFUN:
        graphs(ctx, repo, root)


INDEXERS = {'subsetEigen', 'matrixHelper', 'itemsHelper', 'counting', 'Point'}      # files whose whole numbers are subscripts and sizes
PLACES = re.compile(r'(uninit|zeros|ones|const|resized|count|erase|insert|put|seg|block|scat|range|size|head|tail|resize|rows|cols)\d*$|(coef|at)1$')


def memory(d, g):
    """the difference is one of a subscript, a size, a range, or of what is set before it is read"""
    if 'never set' in d.why or 'is not set' in d.why or 'does not set' in d.why or d.why == 'a part is not written':
        return True
    if 'a special case is missing' in d.why and d.a is not None and any(x.op == 'error' for x in T.subterms(d.a)):
        return True
    if any(PLACES.match(p) for p in d.path):
        return True
    if d.path and d.path[-1] == 'condition' or 'comparison' in d.why:
        return base(g['file']) in INDEXERS
    return base(g['file']) in INDEXERS and str(g.get('ret')) in ('i', 'u', 'b', 'Point', 'std::vector<int>')


def graphs(ctx, repo, root):
    c, codep = ccheck.compare_trees(repo, root, propmap.COBSERVABLES)
    files = set(propmap.CFUN[ctx.prop])
    for e in codep['errors']:
        ctx.broken.append('not parsed: ' + e[:500])
    verdicts = c.run()
    mine = {f for f in c.common if base(c.ref.funs[f]['file']) in files or base(c.code.funs[f]['file']) in files}
    if not mine:
        ctx.broken.append('none of the C++ functions of this property was found')
    own = set(mine)
    related = getattr(c, 'related', {})
    for g, inl in related.items():
        if inl & own:
            mine.add(g)
    gone = {f for f in c.gone if base(c.ref.funs[f]['file']) in files}
    for g in c.common:
        if c.ref.calls[g] & gone:
            mine.add(g)
    how = {}
    for f in sorted(mine):
        _, t = c.summ('code', f, ())
        n = sum(1 for _ in T.subterms(t))
        g = c.code.funs[f]
        ctx.programs += 1
        ctx.points += n
        how[f] = '%s:%d %s (%d nodes)' % (g['file'], g['line'], c.how.get(f, ''), n)
        for d in verdicts.get(f, ()):
            if ctx.prop == 'C23' and d.decisive and not memory(d, g):
                continue
            w = '%s:%d' % tuple(d.origin[:2]) if d.origin else '%s:%d' % (g['file'], g['line'])
            ctx.add(d.decisive, w, f, d.text())
    for k, e in c.errors.items():
        if k[1] in mine:
            ctx.add(False, c.ref.funs[k[1]]['file'] if k[1] in c.ref.funs else k[1], k[1], 'not analysed (%s): %s' % (k[0], e))
            if k[0] == 'ref' and not k[2]:
                ctx.broken.append('reference not analysed: %s %s' % (k[1], e))
    ctx.cover['C++_functions'] = how
    ctx.samples += ['%s %s' % x for x in how.items()][:8]
    controls(ctx, c, sorted(own), root)


# ------------------------------------------------------------------ positive control
SWAP = {'+': '-', '-': '+', '*': '/', '<': '>', '>': '<', '==': '!=', '!=': '==', '&&': '||', '||': '&&', '<=': '>=', '>=': '<='}


def mutants(f):
    """copies of a function definition with one operator exchanged or one constant changed"""
    sites = []

    def rec(n, path):
        if isinstance(n, dict):
            if n.get('k') == 'bin' and n.get('op') in SWAP:
                sites.append((path, 'op', SWAP[n['op']]))
            elif n.get('k') == 'op' and n.get('op') in ('+', '-') and len(n.get('a', ())) == 2:
                sites.append((path, 'op', SWAP[n['op']]))
            elif n.get('k') in ('int', 'flt') and isinstance(n.get('v'), (int, float)) and not isinstance(n.get('v'), bool):
                sites.append((path, 'v', n['v'] + 1))
            for k, v in n.items():
                if k not in ('f', 't', 'l'):
                    rec(v, path + (k,))
        elif isinstance(n, list):
            for i, v in enumerate(n):
                rec(v, path + (i,))
    rec(f.get('body'), ('body',))
    rec(f.get('inits'), ('inits',))
    for path, key, val in sites:
        g = copy.deepcopy(f)
        x = g
        for p in path:
            x = x[p]
        old = x[key]
        x[key] = val
        if key == 'v':
            x.pop('src', None)
        yield g, '%s for %s at line %s' % (val, old, x.get('l') or f['line'])


def try_mutant(c, key, g):
    p = copy.copy(c.ref)
    p.funs = dict(c.ref.funs)
    p.funs[key] = g
    p._calls, p._mut, p._reads, p._triv = {}, {}, {}, {}
    p.calls = c.ref.calls
    eng = E.Engine(p, inline=c.gone, record=False, trivial=c.trivials)
    try:
        o2 = eng.summary(key)
    except ccheck.ANALYSIS_ERRORS:
        return 'error', None
    _, o1 = c.summ('ref', key, ())
    if o1 is o2:
        return 'same', None
    E.set_regs(c.engine('ref', ()).regs.get(key), eng.regs.get(key))
    ds = ccompare.CComparer(o1, o2).run(o1, o2)
    d = [x for x in ds if x.decisive]
    return ('reported' if d else 'undecided'), (d or ds)


def controls(ctx, c, own, root):
    """the rule must fire on planted differences in the reference itself"""
    done, count = [], dict(reported=0, undecided=0, same=0, error=0)
    limit = 400 if ctx.tier == 'thorough' else 1
    rnd = random.Random(1)
    cand = list(own)
    rnd.shuffle(cand)
    tried = 0
    for f in cand:
        ms = list(mutants(c.ref.funs[f]))
        if ctx.tier == 'thorough':
            rnd.shuffle(ms)
            ms = ms[:12]
        for g, what in ms[:12]:
            tried += 1
            r, d = try_mutant(c, f, g)
            count[r] += 1
            if r == 'reported' and len(done) < 8:
                done.append('%s: %s is reported (%s)' % (f, what, d[0].why))
            if tried >= limit and (done or tried >= 40):
                break
        if (tried >= limit and done) or tried >= max(limit, 40):
            break
    ctx.cover['C++_positive_control'] = dict(examples=done, planted=tried, **count)
    if not done:
        ctx.broken.append('the C++ positive control was not detected')
