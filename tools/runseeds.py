#!/usr/bin/env python3
"""Applies each planted bug to /repo, runs the check of its property, and undoes it.  runseeds.py [ID...]"""
import glob, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
res = []
for i in ids:
    d = '%s/seeded/%s' % (V, i)
    p = json.load(open(d + '/meta.json'))['property']
    assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain', '-uno'], stdout=subprocess.PIPE).stdout
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
    try:
        r = subprocess.run(['python3', V + '/tools/vp.py', 'check', p, 'quick'], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    hit = r.returncode == 1 and 'VIOLATION property=%s ' % p in r.stdout
    print('%-30s %s %s' % (i, p, 'CAUGHT' if hit else 'MISSED rc=%s' % r.returncode), '|', ' '.join(l for l in r.stdout.splitlines() if l.startswith('input'))[:150], flush=True)
    res.append(hit)
print(sum(res), 'of', len(res))
