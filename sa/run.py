"""Driver:  run.py PROPERTY [quick|thorough]
exit 0: nothing found, exit 1: VIOLATION line(s) printed, exit 2: the analysis itself broke."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')


class Finding:
    """decisive: reported as a violation; otherwise recorded as undecided"""

    def __init__(self, decisive, where, function, text, key=None):
        self.decisive, self.where, self.function, self.text = decisive, where, function, text
        self.key = key or '%s %s' % (function, text)


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.findings = []
        self.cover = {}
        self.samples = []
        self.assumptions = []
        self.programs = 0
        self.points = 0
        self.obligations = 0
        self.discharged = 0
        self.broken = []

    def add(self, *a, **k):
        self.findings.append(Finding(*a, **k))


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                out.append(l[len('known: property=%s ' % prop):])
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.setrecursionlimit(100000)
    import checks
    ctx = Ctx(prop, tier)
    ctx.seed = seed
    try:
        checks.decide(ctx, REPO, ROOT)
    except Exception:
        traceback.print_exc()
        ctx.broken.append(traceback.format_exc()[-2000:])
    known = known_findings(prop)
    viol = []
    for f in ctx.findings:
        if not f.decisive:
            continue
        k = [x for x in known if x and x in f.key]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, f.key[:300]))
        else:
            viol.append(f)
    cov = dict(ctx.cover)
    level = checks.LEVEL.get(prop, 'translation_validation')
    cov.update(programs=ctx.programs, disagreements_checked=ctx.points, samples=ctx.samples[:12])
    if ctx.obligations:
        cov.update(obligations=ctx.obligations, discharged=ctx.discharged)
    cov['undecided'] = [dict(where=f.where, function=f.function, text=f.text[:600]) for f in ctx.findings if not f.decisive][:60]
    cov['violations'] = [dict(where=f.where, function=f.function, text=f.text[:1200]) for f in viol][:40]
    if ctx.broken:
        cov['analysis_broken'] = ctx.broken
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=ctx.assumptions or checks.ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(viol))
    d = os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(path + '.tmp', path)
    print('%s: %d functions compared, %d value-graph nodes, %d undecided, %d violations, %.1f s' %
          (prop, ctx.programs, ctx.points, sum(not f.decisive for f in ctx.findings), len(viol), time.time() - t0))
    for f in viol[:20]:
        print('%s: %s: %s' % (f.where, f.function, f.text[:600]))
    if viol:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.stdout.flush()
        os._exit(1)
    if ctx.broken:
        print('analysis broken: ' + ctx.broken[0], file=sys.stderr)
        sys.stdout.flush()
        os._exit(2)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
