"""Parses the C++ sources of a tree (with the clang based extractor) into JSON function definitions.  Nothing is run."""
import concurrent.futures as cf
import hashlib
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BUILD = os.path.join(ROOT, 'build')
EXTRACT = os.path.join(BUILD, 'extract')


def include_dirs():
    out = []
    for base in ('/usr/local/lib/R/site-library', '/usr/lib/R/site-library', '/usr/lib/R/library'):
        for p in ('Rcpp', 'RcppEigen', 'BH'):
            d = os.path.join(base, p, 'include')
            if os.path.isdir(d) and not any(x.endswith('/%s/include' % p) for x in out):
                out.append(d)
    for d in ('/usr/share/R/include', '/usr/lib/R/include'):
        if os.path.isdir(d):
            out.append(d)
            break
    return out


def ensure_extractor():
    src = os.path.join(ROOT, 'cx', 'extract.cpp')
    if not os.path.exists(EXTRACT) or os.path.getmtime(EXTRACT) < os.path.getmtime(src):
        subprocess.run(['make', '-s', '-B', '-C', os.path.join(ROOT, 'cx')], check=True, stdout=subprocess.DEVNULL)
    return EXTRACT


def sources(root):
    s = os.path.join(root, 'src')
    return sorted(os.path.join(s, f) for f in os.listdir(s) if f.endswith(('.cpp', '.cc', '.cxx')))


def digest(root):
    h = hashlib.sha256()
    h.update(open(os.path.join(ROOT, 'cx', 'extract.cpp'), 'rb').read())
    for d in ('src', 'inst/include', 'inst/include/glmmsr'):
        p = os.path.join(root, d)
        if not os.path.isdir(p):
            continue
        for f in sorted(os.listdir(p)):
            q = os.path.join(p, f)
            if os.path.isfile(q) and f.rsplit('.', 1)[-1] in ('cpp', 'cc', 'cxx', 'h', 'hpp', 'hh', 'Makevars'):
                h.update(('%s/%s\n' % (d, f)).encode())
                h.update(open(q, 'rb').read())
    return h.hexdigest()[:32]


def std_of(root):
    p = os.path.join(root, 'src', 'Makevars')
    t = open(p).read() if os.path.exists(p) else ''
    for a, b in (('CXX20', 'gnu++20'), ('CXX17', 'gnu++17'), ('CXX14', 'gnu++14')):
        if 'CXX_STD' in t and a in t:
            return b
    return 'gnu++11'


def run(root, files, tag):
    os.makedirs(BUILD, exist_ok=True)
    keep = os.environ.get('CX_CACHE')       # development only: parsed units by content
    if keep:
        h = hashlib.sha256(open(EXTRACT, 'rb').read())
        inc = os.path.join(root, 'inst/include')
        hs = [os.path.join(d, f) for d, _, fl in sorted(os.walk(inc)) for f in sorted(fl)]
        hs += [f for f in sorted(os.listdir(os.path.join(root, 'src'))) if f.endswith(('.h', '.hpp'))]
        for x in list(files) + [os.path.join(root, 'src', f) if os.sep not in f else f for f in hs]:
            h.update(x[len(root):].encode() + b'\0' + open(x, 'rb').read())
        keep = os.path.join(keep, h.hexdigest()[:32] + '.json')
        if os.path.exists(keep):
            return json.load(open(keep)), ''
    tu = os.path.join(BUILD, 'tu.%d.%s.cpp' % (os.getpid(), tag))
    out = tu + '.json'
    with open(tu, 'w') as f:
        for x in files:
            f.write('#include "%s"\n' % x)
    args = ['clang++', '-std=' + std_of(root), '-w', '-fsyntax-only', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18',
            '-I' + os.path.join(root, 'inst/include'), '-I' + os.path.join(root, 'src')] + ['-I' + d for d in include_dirs()]
    r = subprocess.run([EXTRACT, root, out, tu] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        if r.returncode == 0 and os.path.exists(out):
            if keep:
                os.makedirs(os.path.dirname(keep), exist_ok=True)
                os.replace(out, keep)
            return json.load(open(keep or out)), ''
        return None, r.stdout[-3000:]
    finally:
        for x in (tu, out):
            if os.path.exists(x):
                os.unlink(x)


def parse(root, cache=True):
    root = os.path.abspath(root)
    key = os.path.join(BUILD, 'ast.' + digest(root) + '.json')
    if cache and os.path.exists(key):
        return json.load(open(key))
    ensure_extractor()
    fs = sources(root)
    last = [f for f in fs if os.path.basename(f) == 'RcppExports.cpp']
    r6 = [f for f in fs if os.path.basename(f) in ('RcppR6.cpp', 'accessParameters.cpp')]
    rest = [f for f in fs if f not in last + r6]
    n = 6
    groups = [rest[i::n] for i in range(n)] + [r6, last]
    groups = [g for g in groups if g]
    funs, classes, errors = {}, {}, []

    def go(i):
        d, e = run(root, groups[i], 'g%d' % i)
        if d is None and len(groups[i]) > 1:
            res = []
            for j, f in enumerate(groups[i]):
                d, e = run(root, [f], 'g%d_%d' % (i, j))
                res.append((d, e, f))
            return res
        return [(d, e, groups[i][0])]
    with cf.ThreadPoolExecutor(8) as ex:
        for res in ex.map(go, range(len(groups))):
            for d, e, f in res:
                if d is None:
                    errors.append('%s: %s' % (os.path.basename(f), e))
                    continue
                for x in d['functions']:
                    k = x['s']
                    if x.get('static') and k in funs and funs[k]['file'] != x['file']:
                        k = x['s'] + '@' + x['file']
                    funs.setdefault(k, x)
                for c in d['classes']:
                    classes.setdefault(c['n'], c)
    out = dict(functions=funs, classes=classes, errors=errors)
    if not errors:
        tmp = key + '.%d' % os.getpid()
        with open(tmp, 'w') as f:
            json.dump(out, f)
        os.replace(tmp, key)
    return out


if __name__ == '__main__':
    import time
    t = time.time()
    d = parse(sys.argv[1], cache=False)
    print(len(d['functions']), len(d['classes']), d['errors'], time.time() - t)
    for k, f in sorted(d['functions'].items()):
        print(f['file'], f['line'], k)
    def unk(n, f):
        if isinstance(n, dict):
            if n.get('k') == 'unk':
                print('UNK', f['s'], n.get('l'), n.get('w'))
            for v in n.values():
                unk(v, f)
        elif isinstance(n, list):
            for v in n:
                unk(v, f)
    for f in d['functions'].values():
        unk(f, f)
    json.dump(d, open('/tmp/ast.json', 'w'), indent=1)
