"""What is analysed for each property."""
import copy
import json
import os
import subprocess
import sys
import propmap

LEVEL = {}
ASSUMPTIONS = [
    'the reference specification in /verif/ref has been reviewed against the statement of the property',
    'functions of base R, stats, lme4 and the other packages used behave as documented',
    'functions of the package that are themselves unchanged are treated as uninterpreted; their own graphs are compared separately',
]


def decide(ctx, repo, root):
    p = None
    if ctx.prop in propmap.CFUN:
        # in a process of its own: the algebra has other conventions there
        p = subprocess.Popen([sys.executable, os.path.join(root, 'sa', 'crun.py'), repo, root, ctx.prop, ctx.tier], stdout=subprocess.PIPE, text=True)
    if ctx.prop in propmap.RFUN:
        r_side(ctx, repo, root)
    if ctx.prop in EXTRA:
        EXTRA[ctx.prop][2](ctx, repo, root)
    if p is not None:
        out = p.communicate()[0]
        if p.returncode:
            ctx.broken.append('analysis of the C++ sources failed (exit %d)' % p.returncode)
            return
        r = json.loads(out)
        ctx.programs += r['programs']
        ctx.points += r['points']
        ctx.obligations += r['obligations']
        ctx.discharged += r['discharged']
        ctx.broken += r['broken']
        ctx.samples = ctx.samples[:5] + r['samples']
        ctx.cover.update(r['cover'])
        for f in r['findings']:
            ctx.add(*f)


def bindings(ctx, repo, root):
    import bind
    ref, code, c, verdicts = r_compare(repo, root)
    r = bind.analyse(repo, ref, code, ctx.add)
    ctx.obligations += r.pop('obligations')
    ctx.discharged += r.pop('discharged')
    r['controls'] = bind.control(repo, ref, os.path.join(root, 'ref', 'cpp'))
    if len(r['controls']) < 2:
        ctx.broken.append('the planted disagreements of the interface were not detected')
    if not r['registered'] or not r['calls']:
        ctx.broken.append('the interface was not found')
    ctx.cover['bindings'] = r
    ctx.assumptions = ["R's .Call and R6 pass arguments in the written order", 'the conversions between R and C++ types are those of Rcpp']


def finite(ctx, repo, root):
    import cparse
    import finite as F
    p = cparse.parse(repo)
    for e in p['errors']:
        ctx.broken.append('not parsed: ' + e[:500])
    res, st = F.analyse(p, ctx.tier == 'thorough')
    for verdict, link, fam, key, file, line, text in res:
        ctx.add(verdict == 'violation', '%s:%d' % (file, line), key, '%s, %s: %s' % (link, fam, text))
    ctx.programs += st['methods'] * len(st['links']) * len(st['families'])
    ctx.points += st['boxes']
    ctx.obligations += st['boxes']
    ctx.discharged += st['discharged']
    ctx.cover['intervals'] = st
    ctx.cover['checker_cmd'] = 'python3-vt sa/run.py C02'
    ctx.assumptions = ['exp, log, erfc and the boost normal distribution are within 1e-13 of their exact values and monotone',
                       'arrays have at most 1e6 elements', 'IEEE double arithmetic, rounded to nearest']
    ctx.cover['trusted_base'] = ['the clang front end', 'sa/finite.py', 'exp, log, erfc and the boost normal distribution are within 1e-13 of their exact values',
                                 'arrays have at most 1e6 elements']
    ctx.samples += ['%s x %s x %s' % b for b in list(F.boxes())[::37]][:6]
    if not st['methods'] or not st['links'] or not st['families']:
        ctx.add(False, 'src/Family.cpp', 'Family', 'the methods of class Family were not found')
        return
    # the rule must fire when the reference's clamp is taken away
    import ccheck
    r = ccheck.reference(root)
    fired = []
    for k in [k for k, f in r['functions'].items() if f['n'] == 'checkMean' and f.get('c') not in ('FamilyGivenMean', 'FamilyBase')]:
        q = dict(r, functions=dict(r['functions']))
        q['functions'][k] = dict(q['functions'][k], body=dict(k='blk', s=[]))
        fired += [x[3] + ': ' + x[6] for x in F.analyse(q)[0] if x[0] == 'violation'][:1]
    ctx.cover['positive_control'] = fired
    if not fired:
        ctx.broken.append('the positive control was not detected')


def lifetimes(ctx, repo, root):
    import cparse
    import ccheck
    import lifetime
    p = cparse.parse(repo)
    ref = ccheck.reference(root)
    for e in p['errors']:
        ctx.broken.append('not parsed: ' + e[:500])
    r = lifetime.analyse(p, ctx.add, ref)
    ctx.obligations += sum(r['sites'].values())
    ctx.discharged += sum(r['sites'].values()) - sum(1 for f in ctx.findings if f.text.startswith('rule '))
    ctx.programs += r['functions']
    ctx.cover['lifetime_rules'] = r
    ctx.assumptions = ['the reviewed reference makes no access outside a container', 'clang resolves types and overloads as the compiler of the build does',
                       'library functions behave as documented']
    got = lifetime.controls(ref)
    ctx.cover['lifetime_controls'] = got
    if len(got) < 3:
        ctx.broken.append('a planted lifetime mistake was not detected: only ' + ', '.join(got))


LEVEL['C02'] = 'proof'
EXTRA = {'C19': ('agreement rules over the .Call wrappers, R6 classes, registration table, glue functions and NAMESPACE',
                 'The interface is resolved end to end from the sources: routine names, argument counts, order, conversions, results, error guards, class traits and exports must agree. ', bindings),
         'C02': ('abstract interpretation (floating point intervals with NaN) of the C++ AST',
                 'Every evaluation method of Family is interpreted over intervals for each link, with the input space cut into boxes; a box whose result is certainly not finite is a violation, one that cannot be decided is recorded. ', finite),
         'C23': ('lifetime, initialisation and bounds rules over the C++ AST',
                 'Seven exact rules (dangling lazy expressions, references and iterators; escaping closures; invalidated references; unset locals; unset members; subscripts past the end; mixed ranges) '
                 'need no reference. Of the comparison only differences in subscripts, sizes, ranges and initial values count here. ', lifetimes)}


_R = {}


def r_compare(repo, root):
    if repo not in _R:
        import rengine as R
        import rcheck
        ref = R.Package(os.path.join(root, 'ref'))
        code = R.Package(repo)
        c = rcheck.RComparison(ref, code, observables=propmap.OBSERVABLES)
        _R[repo] = (ref, code, c, c.run())
    return _R[repo]


def r_side(ctx, repo, root):
    import terms as T
    import rengine as R
    import rcheck
    ref, code, c, verdicts = r_compare(repo, root)
    funs = propmap.RFUN[ctx.prop] or sorted(f for f in ref.funs if ref.funs[f].file.startswith('Rcpp'))
    missing_ref = [f for f in funs if f not in ref.funs]
    if missing_ref:
        ctx.broken.append('no reference for ' + ', '.join(missing_ref))
    there = [f for f in funs if f in code.funs]
    if not there:
        ctx.broken.append('none of the R functions of this property was found')
    related = getattr(c, 'related', {})
    mine = set(there)
    # a function of this property that was judged inside its callers, or was removed into them
    for f in funs:
        for g, inl in related.items():
            if f in inl:
                mine.add(g)
    for f in [x for x in funs if x not in code.funs]:
        for g in c.common:
            if f in ref.calls[g]:
                mine.add(g)
    how = {}
    for f in sorted(mine):
        sig, out = c.summ('code', f, ())
        n = 0
        for x in T.subterms(out):
            n += 1
        ctx.programs += 1
        ctx.points += n
        how[f] = '%s:%d %s (%d nodes)' % (code.funs[f].file, code.funs[f].line, c.how.get(f, ''), n)
        for d in verdicts.get(f, ()):
            w = '%s:%d' % d.origin[:2] if d.origin else '%s:%d' % (code.funs[f].file, code.funs[f].line)
            ctx.add(d.decisive, 'R/' + w, f, d.text())
    for k, e in c.errors.items():
        if k[1] in mine:
            ctx.add(False, 'R/' + code.funs[k[1]].file if k[1] in code.funs else k[1], k[1], 'not analysed (%s): %s' % (k[0], e))
            if k[0] == 'ref':
                ctx.broken.append('reference not analysed: %s %s' % (k[1], e))
    ctx.cover['R_functions'] = how
    ctx.samples += list('%s %s' % x for x in how.items())[:8]
    if propmap.RFUN[ctx.prop]:
        control_mutant(ctx, ref, funs, root)


def control_mutant(ctx, ref, funs, root):
    """The rule must fire on a planted difference: one arithmetic or logical operator of the reference exchanged."""
    import rengine as R
    import rcheck
    OPS = {'+': '-', '*': '/', '<': '>', '>': '<', '==': '!=', '&&': '||', '||': '&&', 'is.null': None, 'nrow': 'ncol',
           'any': 'all', 'all': 'any', 'max': 'min', 'min': 'max', '!': '(', 'cbind': 'rbind', 'if': None}
    done = []
    for f in funs:
        fn = copy.deepcopy(ref.funs[f].node)
        hit = []

        def rec(n):
            if hit or not isinstance(n, dict):
                return
            if n['k'] == 'call':
                o = n['f'].get('n') if n['f']['k'] == 'sym' else None
                if o in ('stop', 'warning', 'message', 'cat', 'paste', 'paste0', 'print'):
                    return
                if OPS.get(o):
                    n['f'] = {'k': 'sym', 'n': OPS[o]}
                    hit.append((o, OPS[o], n.get('l')))
                    return
                rec(n['f'])
                for a in n['a']:
                    rec(a[1])
            elif n['k'] == 'blk':
                for s in n['s']:
                    rec(s)
            elif n['k'] == 'fn':
                rec(n['b'])
        rec(fn['b'])
        if not hit:
            continue
        mut = copy.copy(ref)
        mut.funs = dict(ref.funs)
        mut.funs[f] = R.Fun(f, fn, ref.funs[f].file, ref.funs[f].line)
        mut.analyse_effects()
        a = R.Engine(ref, inline=set(), record=False, canon={}, mayfail=ref.mayfail, effectful=ref.effectful)
        b = R.Engine(mut, inline=set(), record=False, canon={}, mayfail=ref.mayfail, effectful=ref.effectful)
        from compare import Comparer
        try:
            s1, o1 = a.summary(f)
            s2, o2 = b.summary(f)
            d = [x for x in Comparer(o1, o2).run(o1, o2) if x.decisive] if o1 is not o2 else []
        except Exception:
            continue
        if d:
            done.append('%s: %s for %s is reported (%s)' % (f, hit[0][1], hit[0][0], d[0].why))
            break
    ctx.cover['positive_control'] = done or 'none applicable'
    if not done:
        ctx.broken.append('the positive control was not detected')
