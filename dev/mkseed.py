"""writes seeded/<id>/ from dev/seeds_*.py:  mkseed.py [ID ...]"""
import importlib, json, os, subprocess, sys, glob, shutil
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
SEEDS = {}
for f in sorted(glob.glob(os.path.join(H, 'seeds_*.py'))):
    SEEDS.update(importlib.import_module(os.path.basename(f)[:-3]).SEEDS)
W = '/tmp/pl/mkseed'
CPP = """#!/bin/bash
# compiles demo.cpp with /repo's headers and links it with the library that was built
T=$(mktemp -d); trap 'rm -r "$T"' EXIT
P=$(Rscript --vanilla -e 'cat(paste0("-I", c(R.home("include"), system.file("include", package = "Rcpp"), system.file("include", package = "RcppEigen"))))')
g++ -std=gnu++11 -O1 -w -I/repo/inst/include $P "$(dirname "$0")/demo.cpp" /repo/_build/lib/glmmsr/libs/glmmsr.so -L"$(R RHOME)/lib" -lR -Wl,-rpath,"$(R RHOME)/lib:/repo/_build/lib/glmmsr/libs" -o "$T/demo" || exit 2
"$T/demo"
"""
def make(i):
    s = SEEDS[i]
    subprocess.check_call(['rm', '-rf', W]); os.makedirs('/tmp/pl', exist_ok=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', W])
    for f, old, new in s['edits']:
        p = os.path.join(W, f); t = open(p).read()
        assert t.count(old) == 1, (i, f, old, t.count(old))
        open(p, 'w').write(t.replace(old, new))
    d = subprocess.check_output(['git', '-C', W, 'diff']).decode()
    o = os.path.join(V, 'seeded', i); os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(d)
    if 'cpp' in s:
        open(o + '/demo.cpp', 'w').write(s['cpp'].strip() + '\n')
        open(o + '/demo.sh', 'w').write(CPP)
    else:
        open(o + '/demo.sh', 'w').write('#!/bin/bash\nexport R_LIBS=/repo/_build/lib R_LIBS_USER=NULL R_ENVIRON_USER= R_PROFILE_USER= LC_ALL=C.UTF-8\nexec Rscript --vanilla "$(dirname "$0")/demo.R"\n')
        open(o + '/demo.R', 'w').write(s['demo'].strip() + '\n')
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(o + '/meta.json', 'w'), indent=1)
    # lines changed must be of the original repository
    subprocess.check_call(['rm', '-rf', W])
for i in sys.argv[1:] or SEEDS: make(i); print(i)
