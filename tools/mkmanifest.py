#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and properties.jsonl."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.loads(subprocess.check_output([root + '/bin/sqverif', '-list']))
props = [json.loads(l) for l in open(root + '/properties.jsonl') if l.strip()]
reasons = {}
p = root + '/tools/not_applicable.json'
if os.path.exists(p):
    reasons = json.load(open(p))
m = {'version': 1, 'setup_cmd': './build.sh', 'checks': [], 'not_applicable': []}
ids = {c['property'] for c in checks}
for c in checks:
    assert c['property'] in {p['id'] for p in props}, c['property']
    assert c['level_note'], c['property']
    m['checks'].append({
        'property': c['property'],
        'quick_cmd': './check.sh ' + c['property'],
        'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + c['property'],
        'evidence_file': 'evidence/%s.json' % c['property'],
        'technique': c['technique'], 'level': c['level'], 'level_note': c['level_note']})
for p in props:
    if p['id'] not in ids:
        m['not_applicable'].append({'property': p['id'], 'reason': reasons.get(p['id'], 'planned; no check has been built yet')})
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
