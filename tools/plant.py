"""usage: plant.py SPEC.py : SPEC defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo=str python, needs, what)]"""
import sys, os, subprocess, json, shutil, runpy, re
from concurrent.futures import ThreadPoolExecutor
spec = runpy.run_path(sys.argv[1])['BUGS']
only = sys.argv[2:]
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)
def one(b):
    d = '/tmp/pl/' + b['id']
    sh('rm', '-rf', d); os.makedirs('/tmp/pl', exist_ok=True)
    sh('cp', '-a', '/repo', d)
    sh('git', '-C', d, 'checkout', '-q', '--', '.')
    try:
        for f, old, new in b['edits']:
            p = os.path.join(d, f)
            s = open(p, newline='').read()
            if s.count(old) != 1:
                return b['id'], 'EDIT count %d in %s: %r' % (s.count(old), f, old)
            open(p, 'w', newline='').write(s.replace(old, new))
        diff = sh('git', '-C', d, 'diff').stdout
        # changed lines must be original ones
        orig = []
        for f in {e[0] for e in b['edits']}:
            orig += sh('git', '-C', d, 'show', '4f1655c:' + f).stdout.split('\n')
        warn = [l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---') and l[1:] not in orig]
        out = '/verif/seeded/' + b['id']
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(b['demo'].lstrip())
        open(out + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(out + '/meta.json', 'w'), indent=1)
        r0 = sh('timeout', '300', 'bash', out + '/demo.sh', cwd='/repo')
        r1 = sh('timeout', '300', 'bash', out + '/demo.sh', cwd=d)
        msg = []
        if r0.returncode: msg.append('DEMO fails on clean: ' + (r0.stderr or r0.stdout)[-600:])
        if not r1.returncode: msg.append('DEMO passes with bug')
        if warn: msg.append('WARN non-original lines: %r' % warn)
        t = open('/opt/vp/test.sh').read().replace('/repo', d).replace('unset CMAP_PATH PYTHONPATH', 'unset CMAP_PATH; export PYTHONPATH=' + d)
        open(d + '.sh', 'w').write(t)
        sh('bash', d + '.sh', d + '.json')
        try:
            ok = set(json.load(open(d + '.json'))['passed'])
        except Exception as e:
            ok = set(); msg.append('tests: %s' % e)
        bad = sorted(set(base) - ok)
        if bad: msg.append('TESTS fail: %s' % bad[:4])
        if msg and any(m.startswith(('DEMO', 'TESTS', 'tests')) for m in msg) or any('non-original' in m for m in msg):
            shutil.rmtree(out)
        return b['id'], '; '.join(msg) or 'ok  (%s)' % (r1.stderr.strip().split('\n')[-1][:150])
    finally:
        sh('rm', '-rf', d)
with ThreadPoolExecutor(3) as ex:
    for i, m in ex.map(one, [b for b in spec if not only or b['id'] in only]):
        print(i, m, flush=True)
