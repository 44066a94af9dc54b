import ast,subprocess,shutil,os,tempfile,sys,glob
from concurrent.futures import ThreadPoolExecutor
jobs=[]
for f in glob.glob('/repo/ocbpy/**/*.py',recursive=True):
    if '/tests/' in f: continue
    s=open(f).read(); lines=s.split('\n')
    for i,l in enumerate(lines):
        for lev in ('warning','error'):
            if 'logger.%s('%lev in l:
                jobs.append((f[6:],i,'logger.%s('%lev,'logger.debug('))
def run(j):
    f,i,o,n=j
    d=tempfile.mkdtemp(dir='/tmp/w')
    shutil.copytree('/repo/ocbpy',d+'/ocbpy',ignore=shutil.ignore_patterns('tests','__pycache__'))
    p=d+'/'+f; L=open(p).read().split('\n'); L[i]=L[i].replace(o,n); open(p,'w').write('\n'.join(L))
    r=subprocess.run(['/tmp/ve/check','P30','quick'],env=dict(os.environ,OCBMON_REPO=d),capture_output=True,text=True)
    shutil.rmtree(d)
    out=[l for l in r.stdout.splitlines() if not l.startswith('KNOWN')]
    print(r.returncode,f,i+1,L[i].strip()[:50],'|',(out or [r.stderr[-200:]])[0][:120],flush=True)
with ThreadPoolExecutor(2) as ex: list(ex.map(run,jobs))
