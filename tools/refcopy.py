"""usage: refcopy.py SPEC.py ID DIR: a copy of /repo with one refactoring of the spec"""
import sys, os, subprocess, runpy
R = runpy.run_path(sys.argv[1])['R']
rid, d = sys.argv[2:]
subprocess.run(['rm', '-rf', d]); subprocess.run(['cp', '-a', '/repo', d])
for r, props, edits in R:
    if r == rid:
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p, newline='').read()
            assert s.count(old) == 1, (f, old)
            open(p, 'w', newline='').write(s.replace(old, new))
