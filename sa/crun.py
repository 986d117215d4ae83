"""The C++ side of one check:  crun.py REPO ROOT PROPERTY TIER  -> findings as JSON on stdout."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)


class Out:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.findings, self.cover, self.samples, self.broken = [], {}, [], []
        self.programs = self.points = self.obligations = self.discharged = 0

    def add(self, decisive, where, function, text, key=None):
        self.findings.append((bool(decisive), where, function, text, key))


def main():
    repo, root, prop, tier = sys.argv[1:5]
    out = Out(prop, tier)
    stdout = sys.stdout
    sys.stdout = sys.stderr
    import cchecks
    cchecks.decide(out, repo, root)
    stdout.write(json.dumps(out.__dict__))
    stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
