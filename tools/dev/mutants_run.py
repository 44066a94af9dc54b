"""run.py NPAR [start end]: run the mutants."""
import json, os, subprocess, sys, threading, time, shutil, re
npar=int(sys.argv[1]); lo=int(sys.argv[2]) if len(sys.argv)>2 else 0; hi=int(sys.argv[3]) if len(sys.argv)>3 else 10**9
only=os.environ.get('MTKINDS','').split(',') if os.environ.get('MTKINDS') else None
muts=json.load(open('/tmp/mt/mutants.json'))
RES='/tmp/mt/results.jsonl'
done={json.loads(l)['id'] for l in open(RES)} if os.path.exists(RES) else set()
todo=[m for m in muts if lo<=m['id']<hi and m['id'] not in done and (not only or m['kind'] in only)]
lock=threading.Lock()
def order(m):
    r=order0(m)
    return r if 'P30' in r else r+['P30']
def order0(m):
    f,fn=m['file'],m['func']
    if f.endswith('_boundary.py') and 'cycle' not in f:
        b=fn
        if b.startswith('DualBoundary'):
            if '__init__' in b: return ['P28','P06','P26','P05']
            if '__repr__' in b or '__str__' in b: return ['P26']
            if 'rec_ind' in b or 'set_good' in b or 'get_next' in b: return ['P06','P08','P07']
            if 'normal' in b: return ['P05','P29','P23','P03','P28','P02']
            if 'revert' in b: return ['P05','P02','P03','P23','P29','P28']
            if 'calc_r' in b: return ['P13','P23','P29','P05']
            return ['P04','P05','P29']
        if b.startswith('EAB'): return ['P09','P19','P28','P26']
        if '__repr__' in b or '__str__' in b: return ['P26']
        if 'get_next' in b: return ['P07','P28']
        if 'normal' in b: return ['P01','P03','P23','P22','P28']
        if 'revert' in b: return ['P02','P03','P23','P28']
        if 'get_aacgm' in b: return ['P04','P23','P29']
        return ['P09','P28','P19','P26','P01','P22']
    if 'cycle_boundary' in f:
        if 'sat' in fn: return ['P25','P28']
        return ['P08','P07','P22','P06']
    if 'ocb_time' in f: return ['P10','P11','P18','P28','P23']
    if 'correction' in f: return ['P24','P28']
    if 'ocb_scaling' in f:
        if '__repr__' in fn or '__str__' in fn: return ['P26']
        if 'VectorData' not in fn: return ['P14','P23']
        return ['P13','P28','P26','P23','P29']
    if 'vectors' in f: return ['P12','P23','P29','P28','P13']
    if f.endswith('boundaries/files.py'): return ['P19','P28']
    if 'dmsp' in f: return ['P20','P21','P28']
    if 'general' in f: return ['P18','P27','P22']
    if 'supermag' in f: return ['P27','P15','P28'] if 'load' in fn else ['P15','P28','P22']
    if 'vort' in f: return ['P27','P16','P28'] if 'load' in fn else ['P16','P28','P22']
    return ['P17','P28','P22']
TESTS={'ocbpy/_boundary.py':['boundary_dual','boundary_eab','boundary_ocb','cycle_boundary','ocb_scaling'],'ocbpy/cycle_boundary.py':['cycle_boundary','boundary_dual','vort','supermag'],'ocbpy/ocb_time.py':['ocb_time','boundary_ocb','general','vectors'],'ocbpy/ocb_correction.py':['ocb_correction'],'ocbpy/ocb_scaling.py':['ocb_scaling','supermag'],'ocbpy/vectors.py':['vectors','ocb_scaling'],'ocbpy/boundaries/files.py':['files','boundary_ocb'],'ocbpy/boundaries/dmsp_ssj_files.py':['dmsp_ssj_files'],'ocbpy/instruments/general.py':['general','supermag'],'ocbpy/instruments/supermag.py':['supermag'],'ocbpy/instruments/vort.py':['vort'],'ocbpy/instruments/pysat_instruments.py':['pysat']}
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def check(c,d):
    try:
        r=subprocess.run(['/tmp/vm/check',c,'quick'],env=dict(os.environ,OCBMON_REPO=d),capture_output=True,text=True,timeout=150)
    except subprocess.TimeoutExpired:
        return 'hang',''
    o=[l for l in r.stdout.splitlines() if not l.startswith('KNOWN')]
    return r.returncode,(o or [r.stderr[-200:]])[0][:200]
def tests(f,d,home):
    env=dict(os.environ,HOME=home,PYTHONHASHSEED='0',TZ='UTC',PYTHONDONTWRITEBYTECODE='1',OMP_NUM_THREADS='1',PYTHONPATH=d)
    os.makedirs(home+'/pysatData',exist_ok=True)
    subprocess.run(['/opt/venv/bin/python','-c',"import pysat; pysat.params['data_dirs']='%s/pysatData'"%home],env=env,capture_output=True)
    try:
        subprocess.run(['/opt/venv/bin/python','-m','pytest','-q','-p','no:cacheprovider','--timeout=100','-o','junit_family=xunit2','--junitxml=%s/j.xml'%home]+['ocbpy/tests/test_%s.py'%t for t in TESTS[f]],cwd=d,env=env,capture_output=True,timeout=400)
    except subprocess.TimeoutExpired:
        return 'hang'
    subprocess.run(['python3','/opt/vp/results.py',home+'/o.json','junit:%s/j.xml'%home],capture_output=True)
    try: p=json.load(open(home+'/o.json'))
    except Exception: return 'noresult'
    os.remove(home+'/j.xml'); os.remove(home+'/o.json')
    mods=tuple('ocbpy.tests.test_%s.'%t for t in TESTS[f])
    want={s for s in stable if s.startswith(mods)}
    bad=want-set(p['passed'])
    return sorted(bad)[:2]
PROPS={json.loads(l)['id']:json.loads(l)['anchors']['files'] for l in open('/verif/properties.jsonl')}
def work(n):
    d='/tmp/mt/w%d'%n
    if not os.path.isdir(d): subprocess.check_call(['cp','-a','/repo',d])
    while True:
        with lock:
            if not todo or os.path.exists('/tmp/mt/stop'): return
            m=todo.pop(0)
        p=d+'/'+m['file']; src=open('/repo/'+m['file']).read()
        if src[m['start']:m['end']]!=m['old']: print('mismatch',m['id']); continue
        open(p,'w').write(src[:m['start']]+m['new']+src[m['end']:])
        r={'id':m['id']}; t0=time.time()
        try:
            tried=[]
            first=order(m)
            st=None
            for c in first:
                rc,o=check(c,d); tried.append((c,rc))
                if rc!=0: st=('caught',c,rc,o); break
            if st is None:
                b=tests(m['file'],d,'/tmp/mt/home%d'%n)
                if b: st=('tests',b)
            if st is None:
                for c in sorted(PROPS):
                    if c in first or m['file'] not in PROPS[c]: continue
                    rc,o=check(c,d); tried.append((c,rc))
                    if rc!=0: st=('caught2',c,rc,o); break
            r['st']=st or ('MISS',); r['t']=round(time.time()-t0,1)
        finally:
            open(p,'w').write(src)
        with lock:
            open(RES,'a').write(json.dumps(r)+'\n')
ths=[threading.Thread(target=work,args=(i,)) for i in range(npar)]
[t.start() for t in ths]; [t.join() for t in ths]
