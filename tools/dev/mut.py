import sys,subprocess,shutil,os,tempfile
# mut.py FILE OLD NEW [COUNT-th] -- CHECKS
f,old,new=sys.argv[1:4]; checks=sys.argv[4:]
d=tempfile.mkdtemp(dir='/tmp/w')
shutil.copytree('/repo/ocbpy',d+'/ocbpy',ignore=shutil.ignore_patterns('tests','__pycache__'))
p=d+'/'+f
s=open(p).read()
assert s.count(old)>=1,(s.count(old))
if s.count(old)>1: print('warning: count',s.count(old))
s=s.replace(old,new,1)
open(p,'w').write(s)
for c in checks:
    r=subprocess.run([os.environ.get('VC','/verif/check'),c,'quick'],env=dict(os.environ,OCBMON_REPO=d),capture_output=True,text=True)
    out=[l for l in r.stdout.splitlines() if not l.startswith('KNOWN')]
    print(c,r.returncode,(out or [r.stderr[-300:]])[0][:250])
shutil.rmtree(d)
