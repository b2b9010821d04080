#!/usr/bin/env python3
"""run each planted bug's check against a scratch copy with the bug: tools/seeds.py [ID...]; prints who catches what"""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/tmp/sv'
if not os.path.isdir(R):
    subprocess.run('git clone -q /repo %s && cp /repo/Cargo.lock %s/' % (R, R), shell=True, check=True)
subprocess.run('git -C %s checkout -q -- . && git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD' % (R, R, R), shell=True, check=True)
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(ROOT + '/seeded'))
every = '--all' in sys.argv
for i in ids:
    m = json.load(open('%s/seeded/%s/meta.json' % (ROOT, i)))
    subprocess.run(['git', '-C', R, 'apply', '%s/seeded/%s/patch.diff' % (ROOT, i)], check=True)
    pids = [m['property']]
    if every:
        pids += [p['property'] for p in json.load(open(ROOT + '/MANIFEST.json'))['checks'] if p['property'] not in pids]
    out = []
    for p in pids:
        r = subprocess.run([ROOT + '/check', p], cwd=ROOT, env=dict(os.environ, VERIF_REPO=R), capture_output=True, text=True)
        out.append((p, r.returncode, next((l.strip() for l in r.stdout.splitlines() if l.startswith('  [')), '')))
    print('%-34s %s  also %s' % (i, 'CAUGHT' if out[0][1] == 1 else 'MISSED', ' '.join(p for p, c, _ in out[1:] if c == 1) or '-'), out[0][2][:120])
    subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'], check=True)
