#!/usr/bin/env python3
"""plant.py ID [--notest] [--check P ...]: confirms a planted bug of seeded/ID: demo passes clean, patch applies, builds, stable tests pass, demo fails; then runs the checks."""
import sys, os, subprocess, json, shutil, tempfile
V = '/verif'; sid = sys.argv[1]; d = os.path.join(V, 'seeded', sid); meta = json.load(open(d + '/meta.json'))
def run(c, t=900, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **k)
props = sys.argv[sys.argv.index('--check') + 1:] if '--check' in sys.argv else [meta['property']]
assert not run('git -C /repo status --porcelain --untracked-files=no').stdout.strip(), 'repo dirty'
tmp = tempfile.mkdtemp(); shutil.copytree(d, tmp + '/x'); [os.unlink(tmp + '/x/' + f) for f in ('patch.diff', 'meta.json')]
demo = 'bash %s/x/demo.sh' % tmp
ok = True
try:
    r = run('bash /opt/vp/build.sh'); assert r.returncode == 0, r.stdout[-500:]
    r = run(demo, cwd='/repo', t=300); print('demo clean: rc', r.returncode, r.stdout[-200:].strip()); ok &= r.returncode == 0
    r = run('git -C /repo apply %s/patch.diff' % d); assert r.returncode == 0, r.stdout
    if '--notest' in sys.argv: r = run('bash /opt/vp/build.sh'); assert r.returncode == 0, r.stdout[-1500:]
    else:
        r = run('bash /opt/vp/test.sh /tmp/plant.json'); j = json.load(open('/tmp/plant.json')); base = json.load(open('/opt/vp/BASELINE.json'))
        b = set(base['passed'] if isinstance(base, dict) and 'passed' in base else base.get('stable', [])); miss = sorted(b - set(j['passed']))
        print('tests: %d passed, %d stable missing %s' % (len(j['passed']), len(miss), miss[:4])); ok &= not miss and len(b) > 0
        if miss: print(r.stdout[-600:])
    r = run(demo, cwd='/repo', t=300); print('demo patched: rc', r.returncode, r.stdout[-300:].strip()); ok &= r.returncode != 0
    for p in props:
        r = run('VERIF_TIER=quick VERIF_SEED=1 python3 %s/lib/check.py %s' % (V, p)); print('check %s: rc %d %s' % (p, r.returncode, '\n'.join(l[:200] for l in r.stdout.split('\n')[:3])))
finally:
    run('git -C /repo checkout -- .'); shutil.rmtree(tmp)
print('PLANT', sid, 'CONFIRMED' if ok else 'NOT CONFIRMED')
