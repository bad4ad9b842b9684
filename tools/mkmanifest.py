#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import checks
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
na = [dict(property=p, reason=checks.NOT_APPLICABLE.get(p, 'no check yet: the part of the specification that decides it is still being written')) for p in props if p not in checks.CHECKS]
m = dict(version=1, setup_cmd='bash tools/setup.sh',
  hooks=dict(guard='none: no hooks are needed, the public API already returns the whole abstract state', enable='cargo build in /verif/harness (path dependency on /repo)', source_commits=[]),
  checks=[dict(property=p, quick_cmd='python3 tools/vp.py check %s quick' % p, thorough_cmd='python3 tools/vp.py check %s thorough' % p,
    technique='TLA+ specification checked with TLC; recorded runs of the real parser validated against it (%s)' % ', '.join(sorted({x['module'] for x in checks.CHECKS[p]['parts']})),
    level=checks.CHECKS[p]['level'], level_note=checks.CHECKS[p].get('note', checks.NOTE)) for p in props if p in checks.CHECKS],
  not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(m['checks']), 'checks', len(na), 'not applicable')
