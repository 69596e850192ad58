"""Verdicts of one check: obligations, violations, known findings, evidence."""
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known-findings.txt')


def known_findings():
    """{(property, key): text} of the lines 'finding: property=<id> key=<key> :: <text>'"""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith('finding: '):
                head, _, text = l[len('finding: '):].strip().partition(' :: ')
                prop, _, k = head.partition(' key=')
                r[(prop[len('property='):], k)] = text
    return r


class Report:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.rules = {}         # rule -> {ok, undecided, bad, where: set}
        self.violations = []
        self.undecided_items = []
        self.analysed = set()
        self.samples = []
        self.assumptions = set()
        self.counts = {}

    def rule(self, name):
        return self.rules.setdefault(name, {'discharged': 0, 'undecided': 0, 'violated': 0, 'constructs': set()})

    def ok(self, rule, where, what=None):
        r = self.rule(rule)
        r['discharged'] += 1
        r['constructs'].add(where)
        if what and len(self.samples) < 12 and sum(1 for s in self.samples if s['rule'] == rule) < 2:
            self.samples.append({'rule': rule, 'construct': where, 'obligation': what})

    def undecided(self, rule, where, why):
        r = self.rule(rule)
        r['undecided'] += 1
        r['constructs'].add(where)
        self.undecided_items.append({'rule': rule, 'construct': where, 'why': why[:600]})

    def bad(self, rule, where, key, msg):
        """key identifies the violation without line numbers"""
        r = self.rule(rule)
        r['violated'] += 1
        r['constructs'].add(where)
        if not any(v['key'] == key and v['construct'] == where for v in self.violations):
            self.violations.append({'rule': rule, 'construct': where, 'key': key, 'detail': msg[:6000]})

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def finish(self, level='other', explanation=''):
        known = known_findings()
        listed, new = [], []
        for v in self.violations:
            k = (self.prop, v['key'])
            (listed if k in known else new).append(v)
        total = sum(r['discharged'] + r['undecided'] + r['violated'] for r in self.rules.values())
        disch = sum(r['discharged'] for r in self.rules.values())
        cov = {
            'explanation': explanation,
            'obligations': total,
            'discharged': disch,
            'undecided': sum(r['undecided'] for r in self.rules.values()),
            'rules': {k: {'discharged': r['discharged'], 'undecided': r['undecided'], 'violated': r['violated'],
                          'constructs': sorted(r['constructs'])[:60]} for k, r in sorted(self.rules.items())},
            'functions_analysed': sorted(self.analysed),
            'samples': self.samples,
            'undecided_obligations': self.undecided_items[:60],
        }
        cov.update(self.counts)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': level,
            'coverage': cov, 'assumptions': sorted(self.assumptions), 'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
        }
        d = os.path.join(ROOT, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for v in listed:
            print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, v['construct'], known[(self.prop, v['key'])]))
        path = os.path.join(d, self.prop + '.violations.txt')
        if os.path.exists(path):
            os.remove(path)
        if new:
            with open(path, 'w') as f:
                for v in new:
                    f.write('rule: %s\nconstruct: %s\nkey: %s\n%s\n\n' % (v['rule'], v['construct'], v['key'], v['detail']))
            for v in new[:20]:
                print('%s: %s: %s' % (v['rule'], v['construct'], v['detail'].split('\n')[0][:400]))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        print('%s: %d obligations, %d discharged, %d undecided, %d violated, %d known, %.1f s' % (
            self.prop, total, disch, cov['undecided'], len(new), len(listed), time.time() - self.t0))
        return 1 if new else 0
