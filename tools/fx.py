import re,sys
def sub(path, old, new, cnt=1):
    s=open(path, newline='').read()
    assert s.count(old)==cnt, (path, s.count(old), old)
    open(path,'w', newline='').write(s.replace(old,new))
def commit(msg, *props):
    import subprocess
    subprocess.check_call(['git','-C','/repo','commit','-qam','fix: '+msg])
    h=subprocess.check_output(['git','-C','/repo','rev-parse','--short','HEAD'],text=True).strip()
    with open('/verif/known_findings.txt','a') as f:
        for p,w in props: f.write('fixed: property=%s %s %s\n'%(p,h,w))
