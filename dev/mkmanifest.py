"""Writes MANIFEST.json."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(R, 'sa'))
import checks, propmap
NA = {
 'C24': 'convergence of the sequential reduction approximation is a statement about numerical error for every model; no sound static argument bounds it, and its structural clauses are already decided under C15-C18',
 'C25': 'termination at the global maximum depends on the shape of the likelihood surface and on optim; the structural clauses (what is optimised, over which region, what is returned, what is warned about) are decided under C21',
 'C26': 'numerical conditioning is a quantity of floating point evaluation of runtime matrices; no sound static bound is in reach',
}
NOTE_R = 'Value graphs (global value numbering with algebraic normal forms, effects and error conditions included) of every R function the property is anchored in are compared with the reviewed reference specification. '
NOTE_C = 'Value graphs of the C++ functions the property is anchored in, built from the clang AST of the current sources, are compared with the reviewed reference specification. '
EXTRA = {}
props = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
ch = []
na = []
for p in props:
    r, c = p in propmap.RFUN, p in getattr(propmap, 'CFUN', {})
    x = getattr(checks, 'EXTRA', {}).get(p)
    if not (r or c or x):
        na.append(dict(property=p, reason=NA.get(p, 'not claimed yet')))
        continue
    note = (NOTE_R if r else '') + (NOTE_C if c else '') + (x[1] if x else '')
    note += 'A difference that is provably one of meaning is a violation; one the normal forms cannot decide is recorded in the evidence and raises nothing. Trusted: the reference, the front ends (R parser, clang), the documented behaviour of library functions.'
    tech = ' + '.join((['value-graph comparison of R source'] if r else []) + (['value-graph comparison of C++ AST'] if c else []) + ([x[0]] if x else []))
    ch.append(dict(property=p, quick_cmd='python3-vt sa/run.py %s quick' % p, thorough_cmd='python3-vt sa/run.py %s thorough' % p,
                   technique='static analysis: ' + tech, level=checks.LEVEL.get(p, 'translation_validation'), level_note=note))
m = dict(version=1, setup_cmd='sh setup.sh', checks=ch, not_applicable=na,
         notes='No hooks in /repo. /repo commits are fix: commits, listed in known_findings.txt.')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(ch), 'claimed;', [x['property'] for x in na])
