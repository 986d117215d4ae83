import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'sa'))
import ccheck, propmap
c, p = ccheck.compare_trees(sys.argv[1], HERE, propmap.COBSERVABLES)
for e in p['errors']:
    print('  PARSE', e[:300])
for f, ds in sorted(c.run().items()):
    for d in ds[:4]:
        print('  ', 'FALSE' if d.decisive else 'soft ', f, '|', d.text(4)[:420])
for k, e in c.errors.items():
    print('  ERROR', k, str(e)[:200])
