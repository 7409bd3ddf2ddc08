"""usage: refac.py SPEC.py [ids]: SPEC defines R = [(id, [props], [(file, old, new)])], edits that keep the behaviour:
the checks have to stay quiet on them (run strictly, so an undecided part is shown too)"""
import sys, os, subprocess, runpy
R = runpy.run_path(sys.argv[1])['R']
only = sys.argv[2:]
def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)
for rid, props, edits in R:
    if only and rid not in only:
        continue
    d = '/tmp/rf/' + rid
    sh('rm', '-rf', d); os.makedirs('/tmp/rf', exist_ok=True)
    sh('cp', '-a', '/repo', d); sh('git', '-C', d, 'checkout', '-q', '--', '.')
    try:
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p, newline='').read()
            if s.count(old) != 1:
                print(rid, 'EDIT count %d in %s: %r' % (s.count(old), f, old[:60]), flush=True); break
            open(p, 'w', newline='').write(s.replace(old, new))
        else:
            r = sh('/opt/venv/bin/python', '-m', 'compileall', '-q', d + '/pdfmajor')
            if r.returncode: print(rid, 'COMPILE', r.stdout[-300:], flush=True); continue
            for p in props:
                r = sh('timeout', '600', 'python3-vt', 'run.py', p, cwd='/verif', env=dict(os.environ, SX_REPO=d, SX_STRICT='1'))
                last = [l for l in r.stdout.split('\n') if l.strip()]
                print(rid, p, 'rc=%d' % r.returncode, next((l[len(p)+7:] for l in last if l.startswith(p + ' quick')), '')[:90], flush=True)
                if r.returncode: print('   ' + '\n   '.join(x[:400] for x in last[-9:]), flush=True)
    finally:
        sh('rm', '-rf', d)
