"""Collecting verdicts, the known-findings file, evidence."""
import json
import os
import time
from .build import VERIF, BUILD

KNOWN = os.path.join(VERIF, 'known-findings.txt')


def known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.rstrip('\n')
            if l.startswith('finding: property=%s key=' % prop):
                r = l[len('finding: property=%s key=' % prop):]
                k, _, what = r.partition(' | ')
                out[k.strip()] = what.strip()
    return out


class Report:
    def __init__(self, prop, tier='quick', seed=1):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.viol = {}
        self.und = {}
        self.obl = 0
        self.ok = 0
        self.samples = []
        self.assume = {}
        self.fns = set()
        self.roots = []
        self.counts = {}
        self.level = 'proof'
        self.rule = ''
        self.trusted = []

    def violation(self, key, msg, detail=()):
        if key not in self.viol:
            self.viol[key] = (msg, list(detail))

    def undecided(self, key, msg):
        self.und.setdefault(key, msg)

    def oblig(self, ok, sample=None):
        self.obl += 1
        if ok:
            self.ok += 1
        if sample and len(self.samples) < 12:
            self.samples.append(sample)

    def finish(self):
        kn = known(self.prop)
        rc = 0
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        new = 0
        for i, (k, (msg, detail)) in enumerate(sorted(self.viol.items())):
            if k in kn:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, kn[k] or msg))
                continue
            new += 1
            path = os.path.join(rd, '%s-%d.txt' % (self.prop, new))
            with open(path, 'w') as f:
                f.write('property %s\nkey %s\n%s\n' % (self.prop, k, msg))
                for d in detail:
                    f.write('  %s\n' % d)
            print('violation: %s: %s' % (k, msg))
            for d in list(detail)[-14:]:
                print('    %s' % d)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            rc = 1
        for k, m in sorted(self.und.items()):
            print('UNDECIDED property=%s %s: %s' % (self.prop, k, m))
        cov = {'obligations': self.obl, 'discharged': self.ok,
               'checker_cmd': 'python3 check.py %s' % self.prop,
               'trusted_base': ['rustc (type checking, MIR construction, instance resolution)', 'driver/ (MIR to JSON)',
                                'sa/ (abstract interpreter and its models of the standard library)', 'harness/src (roots and std models)'] + self.trusted,
               'rule': self.rule, 'samples': self.samples,
               'roots': self.roots, 'functions_analysed': sorted(self.fns), 'undecided': len(self.und)}
        cov.update(self.counts)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': sorted(self.assume), 'wall_s': round(time.time() - self.t0, 3), 'violations': new}
        if self.level == 'other':
            cov['explanation'] = self.rule
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d discharged, %d undecided, %d violation(s), %.1f s' % (
            self.prop, self.obl, self.ok, len(self.und), new, time.time() - self.t0))
        return rc
