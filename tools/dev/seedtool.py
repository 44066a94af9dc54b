"""seedtool.py SPEC.py [notest] : validates and stores a seeded bug."""
import sys, subprocess, shutil, os, json, runpy, re
spec = sys.argv[1]; notest = 'notest' in sys.argv; sid = os.path.basename(spec)[:-3]
sys.path.insert(0,"/tmp/w/seeds"); s = runpy.run_path(spec)
d = '/tmp/seed/' + sid; home = '/tmp/w/seedhome/' + sid
shutil.rmtree(d, ignore_errors=True); shutil.rmtree(home, ignore_errors=True)
os.makedirs('/tmp/seed', exist_ok=True); os.makedirs(home + '/pysatData')
subprocess.check_call(['cp', '-a', '/repo', d])
def die(m):
    print(sid, 'FAIL', m); shutil.rmtree(d); shutil.rmtree(home); sys.exit(1)
for f, old, new in s['EDITS']:
    p = d + '/' + f; t = open(p).read()
    if t.count(old) != 1: die('count %d of %r' % (t.count(old), old))
    open(p, 'w').write(t.replace(old, new))
diff = subprocess.check_output(['git', '-C', d, 'diff'], text=True)
# originality of removed lines
base = '8a93b1d'
mine = []
cur = None
for l in diff.splitlines():
    if l.startswith('--- a/'): cur = l[6:]; bl = subprocess.check_output(['git', '-C', d, 'blame', '-s', base + '..HEAD', '--', cur], text=True).splitlines()
    elif l.startswith('@@'): n = int(re.match(r'@@ -(\d+)', l).group(1))
    elif l.startswith('-') and not l.startswith('---'):
        if not bl[n - 1].startswith('^'): mine.append((cur, n, l))
        n += 1
    elif l.startswith(' '): n += 1
if mine: print(sid, 'WARN not original:', mine)
out = os.environ.get('OUTSEED', '/verif/seeded') + '/' + sid
os.makedirs(out, exist_ok=True)
open(out + '/patch.diff', 'w').write(diff)
open(out + '/demo.py', 'w').write(s['DEMO'].lstrip())
open(out + '/demo.sh', 'w').write('#!/bin/bash\n' + s.get('DEMOENV', '') + 'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
json.dump({'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
env = dict(os.environ, HOME=home, PYTHONHASHSEED='0', TZ='UTC', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PIP_NO_INDEX='1', http_proxy='http://127.0.0.1:9', https_proxy='http://127.0.0.1:9')
env2 = dict(env, PYTHONPATH=d)
subprocess.run(['/opt/venv/bin/python', '-c', "import pysat; pysat.params['data_dirs']='%s/pysatData'" % home], env=env, capture_output=True)
r0 = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', env=env, capture_output=True, text=True)
r1 = subprocess.run(['bash', out + '/demo.sh'], cwd=d, env=env, capture_output=True, text=True)
ok = r0.returncode == 0 and r1.returncode != 0
print(sid, 'demo', r0.returncode, r1.returncode, (r1.stderr + r1.stdout).strip().splitlines()[-1:][0:1])
if r0.returncode: print(r0.stderr[-600:])
if not notest and ok:
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=%s/junit.xml' % home, 'ocbpy/tests'], cwd=d, env=env2, capture_output=True)
    subprocess.run(['python3', '/opt/vp/results.py', home + '/out.json', 'junit:%s/junit.xml' % home], capture_output=True)
    b = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r = set(json.load(open(home + '/out.json'))['passed'])
    ok = b <= r
    print(sid, 'tests', len(b & r), len(b), sorted(b - r)[:5])
for c in [s['PROP']] + s.get('ALSO', []):
    r = subprocess.run(['/verif/check', c, 'quick'], env=dict(os.environ, OCBMON_REPO=d), capture_output=True, text=True)
    o = [l for l in r.stdout.splitlines() if not l.startswith('KNOWN')]
    print(sid, c, 'rc', r.returncode, (o or [r.stderr[-200:]])[0][:200])
print(sid, 'VALID' if ok else 'INVALID')
shutil.rmtree(d); shutil.rmtree(home)
