"""writes MANIFEST.json from the registry and the reasons below"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('lib', 'rules'):
    sys.path.insert(0, os.path.join(ROOT, d))
import registry
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 lib/build.py', 'checks': [], 'not_applicable': []}
for p in props:
    r = registry.PROPS.get(p)
    if r is None:
        m['not_applicable'].append({'property': p, 'reason': registry.NOT.get(p, 'no static rule built for it yet')})
        continue
    m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py %s --thorough' % p,
                        'technique': r.get('technique', 'abstract interpretation of MIR against a decision table'), 'level': 'other',
                        'level_note': r.get('note', 'sound for the listed functions modulo the contracts named in DESIGN.md; an obligation that the analysis cannot settle is reported as undecided and does not alarm')})
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed')
