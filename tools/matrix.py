"""Which run of its property's check finds each planted bug. Not used by any check. usage: matrix.py [--workers N] [ids]"""
import json, os, re, shutil, subprocess, sys, time
W = '/tmp/mx'
ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir('/verif/seeded'))
wk = [a[10:] for a in sys.argv if a.startswith('--workers=')] or ['4']
for s in ids:
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    subprocess.run(['git', 'clone', '-q', '/repo', W + '/repo'], check=True)
    shutil.copy('/verif/known_findings.txt', W)
    d = '/verif/seeded/' + s
    if subprocess.run(['git', '-C', W + '/repo', 'apply', d + '/patch.diff']).returncode: print(s, 'NOT APPLIED', flush=True); continue
    p = json.load(open(d + '/meta.json'))['property']
    b = subprocess.run(['/verif/sim/build.sh'], env=dict(os.environ, SIM_REPO=W + '/repo'), capture_output=True, text=True)
    if b.returncode: print(s, 'BUILD', b.stderr[-800:], flush=True); continue
    t0 = time.time()
    r = subprocess.run([b.stdout.strip(), 'check', p, '--root', W, '--workers', wk[0]], capture_output=True)
    o = (r.stdout + r.stderr).decode('utf8', 'replace')
    m = re.search(r'run (\d+)', o)
    print(s, p, 'caught' if r.returncode == 1 and 'VIOLATION property=%s ' % p in o else 'MISSED rc=%d' % r.returncode, m.group(1) if m else '-', '%.0f s' % (time.time() - t0), flush=True)
    os.remove(b.stdout.strip())
shutil.rmtree(W, ignore_errors=True)
