"""Light probes: applies edits to a scratch clone of /repo, runs its tests and the named checks. Not used by any check.
   probe.py FILE.py [ids]: FILE.py defines `probes`: dict(id, prop='C01,C02', edits=[(file, old, new)])."""
import importlib.util, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(__file__))
R = '/tmp/probe/repo'
def sh(c, t=900):
    try: return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', timeout=t)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 99, '', 'timeout')
if not os.path.exists(R): sh(f'mkdir -p /tmp/probe; git clone -q /repo {R}')
os.makedirs('/tmp/probe/root', exist_ok=True); sh('cp /verif/known_findings.txt /tmp/probe/root/')
s = importlib.util.spec_from_file_location('p', sys.argv[1]); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
want = [a for a in sys.argv[2:] if not a.startswith('--')]
for b in m.probes:
    if want and b['id'] not in want: continue
    sh(f'git -C {R} checkout -q -- .'); bad = None
    for f, old, new in b['edits']:
        p = f'{R}/{f}'; t = open(p).read(); body, sep, tail = t.partition('#[cfg(test)]\nmod tests')
        n = body.count(old)
        if n == 0 or (n > 1 and not b.get('all')): bad = f'{n} matches of {old[:50]!r}'; break
        open(p, 'w').write(body.replace(old, new) + sep + tail)
    if bad: print(b['id'], bad, flush=True); continue
    r = sh(f'cd {R} && CARGO_TARGET_DIR=/tmp/probe/target timeout 80 cargo test --offline -q 2>&1 | grep -aE "^test result|^error" -A3')
    if '247 passed; 0 failed' not in r.stdout: print(b['id'], 'TESTS', r.stdout[:400], flush=True); continue
    o = sh(f'SIM_REPO={R} /verif/sim/build.sh'); B = o.stdout.strip()
    if o.returncode: print(b['id'], 'BUILD', o.stderr[-300:], flush=True); continue
    for c in b['prop'].split(','):
        t0 = time.time(); r = sh(f'{B} check {c} --seed 1 --root /tmp/probe/root')
        v = [l for l in (r.stdout + r.stderr).splitlines() if 'minimised' in l]
        print(b['id'], c, 'caught' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else f'RC{r.returncode}', f'{time.time()-t0:.0f}s', v[0][:160] if v else '', flush=True)
sh(f'git -C {R} checkout -q -- .')
