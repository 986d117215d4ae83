"""compares each refactoring with the reference: nothing decisive may be found.   refac.py A.R ..."""
import sys, os, subprocess, tempfile, shutil
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, '..', 'sa'))
import rengine as R, rcheck
REFROOT = os.path.join(H, '..', 'ref')
ref = R.Package(REFROOT)
for f in sys.argv[1:]:
    ast = dict(ref.ast)
    p = os.path.join(H, 'refactorings', f)
    ast.update(R.parse([p]))
    code = R.Package.__new__(R.Package)
    code.root = REFROOT; code.files = list(ref.files) + [p]; code.ast = ast; code.funs = {}; code.toplevel = []
    for ff in code.files:
        for x in ast[ff]:
            e = x['e']
            if e['k'] == 'call' and e['f'].get('n') in ('<-', '=') and e['a'][1][1]['k'] == 'fn':
                n = e['a'][0][1].get('n') or e['a'][0][1].get('v')
                code.funs[n] = R.Fun(n, e['a'][1][1], os.path.basename(ff), x['l'])
    code.analyse_effects()
    c = rcheck.RComparison(ref, code, observables=set())
    v = c.run()
    print('==', f, 'changed', len(c.changed), c.errors)
    for g in v:
        for d in v[g]:
            print('  DECISIVE' if d.decisive else '  soft', g, d.origin, d.text()[:600])
