"""Mutation study of the R side: every mutant of the reference's syntax tree, and what the comparison says.
usage: python3-vt dev/mutR.py [function-regex] > out"""
import sys, os, json, copy, re, multiprocessing as mp
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'sa'))
import rengine as R, rcheck

def dep(n):
    if n is None: return ''
    k = n['k']
    if k == 'null': return 'NULL'
    if k == 'sym': return n['n']
    if k == 'num': return n['v']
    if k == 'lgl': return {True:'TRUE', False:'FALSE', None:'NA'}[n['v']]
    if k == 'str': return repr(n['v'])
    if k == 'blk': return '{' + '; '.join(dep(x) for x in n['s']) + '}'
    if k == 'fn': return 'function(' + ','.join((p[0] or '') + ('=' + dep(p[1]) if p[1] else '') for p in n['p']) + ')' + dep(n['b'])
    f = dep(n['f']); a = [(x[0] + '=' if x[0] else '') + dep(x[1]) for x in n['a']]
    if f in ('+','-','*','/','^','<','>','<=','>=','==','!=','&&','||','&','|','<-','=','~',':','$','@','%*%','%in%','<<-') and len(a) == 2:
        return '(' + a[0] + ' ' + f + ' ' + a[1] + ')'
    if f == '[' or f == '[[': return a[0] + f + ','.join(a[1:]) + {'[':']','[[':']]'}[f]
    return f + '(' + ', '.join(a) + ')'

OPS = {'+':['-'], '-':['+'], '*':['/','+'], '/':['*'], '<':['<=','>'], '>':['>=','<'], '<=':['<'], '>=':['>'],
       '==':['!='], '!=':['=='], '&&':['||'], '||':['&&'], '&':['|'], '|':['&'], 'any':['all'], 'all':['any'],
       'min':['max'], 'max':['min'], 'is.null':[], 'nrow':['ncol'], 'ncol':['nrow'], 'colSums':['rowSums'],
       'rowSums':['colSums'], 'stop':['warning'], 'warning':['message'], 'cbind':['rbind'], 'rbind':['cbind'],
       'exp':['log'], 'log':['exp'], 'sqrt':['abs'], 'sum':['mean'], '%in%':[], 'which.max':['which.min'],'solve':['chol2inv'],
       't':['identity'], 'crossprod':['tcrossprod'], 'is.na':['is.null'], 'unique':['identity'], 'rev':['identity'], 'sort':['identity'], 'seq_len':['seq_along'],'head':['tail'],'tail':['head']}

def mutants(fn):
    """(description, path, new node)"""
    out = []
    def rec(n, path, locs):
        if n is None: return
        k = n['k']
        if k == 'call':
            f = n['f'].get('n')
            for o in OPS.get(f, []):
                m = dict(n); m['f'] = {'k':'sym','n':o}
                out.append(('op %s->%s' % (f, o), path, m))
            if f == '!':
                out.append(('drop !', path, n['a'][0][1]))
            if f == 'if':
                m = dict(n); m['a'] = [[None, {'k':'call','l':n['l'],'f':{'k':'sym','n':'!'},'a':[[None,n['a'][0][1]]]}]] + n['a'][1:]
                out.append(('negate if', path, m))
                m = dict(n); m['a'] = [[None, {'k':'lgl','v':True}]] + n['a'][1:]
                out.append(('if TRUE', path, m))
                m = dict(n); m['a'] = [[None, {'k':'lgl','v':False}]] + n['a'][1:]
                out.append(('if FALSE', path, m))
            elif f not in ('<-','=','{','for','while','function','(','$','@','~','quote','substitute','missing','<<-','repeat','::'):
                if len(n['a']) == 2 and f not in ('+','*','==','!=','&&','||') and dep(n['a'][0][1]) != dep(n['a'][1][1]):
                    m = dict(n); m['a'] = [[n['a'][0][0], n['a'][1][1]], [n['a'][1][0], n['a'][0][1]]]
                    out.append(('swap args', path, m))
                if len(n['a']) >= 2 and f not in ('+','-','*','/','==','<','>','[','[[',':','&&','||','<=','>=','!=','^','%*%'):
                    for i in range(len(n['a'])):
                        if i == 0 and f not in ('c','list','any','all'): continue
                        m = dict(n); m['a'] = n['a'][:i] + n['a'][i+1:]
                        out.append(('drop arg %d' % i, path, m))
            if f == '[':
                m = dict(n); m['f'] = {'k':'sym','n':'[['}
                out.append(('[ to [[', path, m))
            if f in ('$','@'):
                rec(n['a'][0][1], path + [('a',0,1)], locs)
                return
            if f in ('<-','='):
                rec(n['a'][1][1], path + [('a',1,1)], locs)
                l = n['a'][0][1]
                if l['k'] == 'call': rec(l, path + [('a',0,1)], locs)
                return
            if f in ('~','::'): return
            for i, x in enumerate(n['a']):
                rec(x[1], path + [('a',i,1)], locs)
        elif k == 'blk':
            for i, x in enumerate(n['s']):
                m = dict(n); m['s'] = n['s'][:i] + n['s'][i+1:]
                out.append(('drop stmt ' + dep(x)[:100], path, m))
                if i + 1 < len(n['s']):
                    m = dict(n); m['s'] = n['s'][:i] + [n['s'][i+1], n['s'][i]] + n['s'][i+2:]
                    out.append(('SWAPSTMT', path, m))
                rec(x, path + [('s',i)], locs)
        elif k == 'num':
            v = float(n['v'])
            for w in ([0, 2] if v == 1 else [1] if v == 0 else [v+1]):
                out.append(('const %s->%s' % (n['v'], w), path, {'k':'num','v':'%g' % w}))
        elif k == 'lgl' and n['v'] is not None:
            out.append(('const flip %s' % n['v'], path, {'k':'lgl','v':not n['v']}))
        elif k == 'str':
            out.append(('str', path, {'k':'str','v':n['v'] + 'x'}))
        elif k == 'sym':
            others = [l for l in locs if l != n['n']]
            if n['n'] in locs and others:
                # the next local in order
                i = locs.index(n['n'])
                o = locs[(i+1) % len(locs)]
                out.append(('sym %s->%s' % (n['n'], o), path, {'k':'sym','n':o}))
        elif k == 'fn':
            for i, p in enumerate(n['p']):
                if p[1] is not None: rec(p[1], path + [('p',i,1)], locs)
            rec(n['b'], path + [('b',)], locs + [p[0] for p in n['p']])
    locs = [p[0] for p in fn['p']]
    def assigned(n):
        if n is None or not isinstance(n, dict): return
        if n['k'] == 'call':
            if n['f'].get('n') in ('<-','=') and n['a'][0][1] and n['a'][0][1]['k'] == 'sym' and n['a'][0][1]['n'] not in locs: locs.append(n['a'][0][1]['n'])
            for x in n['a']: assigned(x[1])
        elif n['k'] == 'blk':
            for x in n['s']: assigned(x)
    assigned(fn['b'])
    rec(fn, [], locs)
    return out

def put(node, path, new):
    if not path: return new
    m = dict(node)
    p = path[0]
    if p[0] == 'a':
        m['a'] = list(node['a']); m['a'][p[1]] = [node['a'][p[1]][0], put(node['a'][p[1]][1], path[1:], new)]
    elif p[0] == 's':
        m['s'] = list(node['s']); m['s'][p[1]] = put(node['s'][p[1]], path[1:], new)
    elif p[0] == 'p':
        m['p'] = list(node['p']); m['p'][p[1]] = [node['p'][p[1]][0], put(node['p'][p[1]][1], path[1:], new)]
    else:
        m['b'] = put(node['b'], path[1:], new)
    return m

def get(node, path):
    for p in path:
        node = node['a'][p[1]][1] if p[0] == 'a' else node['s'][p[1]] if p[0] == 's' else node['p'][p[1]][1] if p[0] == 'p' else node['b']
    return node

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'ref')
REF = None
def job(t):
    f, desc, path, new = t
    ast = dict(REF.ast)
    for fi in ast:
        for j, x in enumerate(ast[fi]):
            e = x['e']
            if e['k'] == 'call' and e['f'].get('n') in ('<-','=') and len(e['a']) == 2 and e['a'][1][1] is REF.funs[f].node:
                l = list(ast[fi]); e2 = dict(e); e2['a'] = [e['a'][0], [None, put(e['a'][1][1], path, new)]]
                l[j] = {'l': x['l'], 'e': e2}; ast[fi] = l
                break
    try:
        code = R.Package(ROOT, ast=ast)
        c = rcheck.RComparison(REF, code, observables=OBS)
        v = c.run()
    except Exception as ex:
        import traceback
        return (t[:2], 'CRASH', traceback.format_exc()[-400:])
    dec = [(g, d) for g in v for d in v[g] if d.decisive]
    und = [(g, d) for g in v for d in v[g] if not d.decisive]
    st = 'KILLED' if dec else 'undecided' if und or c.errors else 'changed-same' if c.changed else 'EQUAL'
    txt = (dec or und)
    return (t[:2], st, '; '.join('%s: %s' % (g, d.text()[:160]) for g, d in txt[:2]) + str(c.errors)[:300] if c.errors else '; '.join('%s: %s' % (g, d.text()[:160]) for g, d in txt[:2]))

OBS = ()
if __name__ == '__main__':
    pat = re.compile(sys.argv[1] if len(sys.argv) > 1 else '.')
    REF = R.Package(ROOT)
    jobs = []
    for f in REF.funs:
        if not pat.search(f): continue
        for d, p, m in mutants(REF.funs[f].node):
            jobs.append((f, d + '   @ ' + dep(get(REF.funs[f].node, p))[:90].replace('\n',' '), p, m))
    with mp.Pool(8) as pool:
        from collections import Counter
        cnt = Counter()
        for r in pool.imap(job, jobs, chunksize=4):
            sw = 'SWAPSTMT' in r[0][1]
            cnt[(r[1], sw)] += 1
            print(r[1], '|', r[0][0], '|', r[0][1], '|', r[2], flush=True)
    print(cnt)
