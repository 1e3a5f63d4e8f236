#!/usr/bin/env python3
"""Run the checks against planted bugs: matrix.py [-a] [-s seeds] [-t tier] [-d dir] [id...]
Applies each to a copy of /repo with a copy of the harness (-a: every check, not only the bug's own property; -s 5,6,7:
with these seeds, one after the other, and the seconds each took)."""
import json, os, subprocess, sys, re, time
a = sys.argv[1:]
allc = '-a' in a
tier = a[a.index('-t') + 1] if '-t' in a else 'quick'
D = a[a.index('-d') + 1] if '-d' in a else '/verif/seeded'
seeds = a[a.index('-s') + 1].split(',') if '-s' in a else ['1']
W = os.environ.get('MX', '/tmp/w/mx')
ids = [x for k, x in enumerate(a) if not x.startswith('-') and (k == 0 or a[k - 1] not in ('-t', '-d', '-s'))]
R, H, T, LV = W + '/repo', W + '/h', W + '/t', W + '/lvh'
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
os.makedirs(LV, exist_ok=True)
sh(f'mkdir -p {W}; rm -rf {R} {H}; cp -a /repo {R}; rm -rf {R}/target; cp -a /verif/harness {H}; rm -rf {H}/target; cp /verif/known-findings.txt {LV}/; sed -i s,/repo,{R}, {H}/Cargo.toml')
checks = [c['property_id'] if 'property_id' in c else c.get('property') or c.get('id') for c in json.load(open('/verif/MANIFEST.json'))['checks']]
for i in sorted(os.listdir(D)):
    if ids and i not in ids: continue
    p = json.load(open(f'{D}/{i}/meta.json'))['property']
    sh('git checkout -q -- .', cwd=R)
    r = sh(f'git apply {D}/{i}/patch.diff', cwd=R)
    if r.returncode: print(i, 'does not apply', r.stdout); continue
    sh(f'rm -rf {T}/release/.fingerprint/redox_liner*')
    r = sh('cargo build --release --offline', cwd=H, env=dict(os.environ, CARGO_TARGET_DIR=T))
    if r.returncode: print(i, 'does not build', r.stdout[-800:]); continue
    res = []
    took = []
    for s, c in [(s, c) for s in seeds for c in ([p] + [x for x in checks if x != p] if allc else [p])]:
        t0 = time.time()
        r = sh(f'{T}/release/lv check {c} {tier}', env=dict(os.environ, LV_HOME=LV, VERIF_SEED=s))
        took.append(f'{time.time() - t0:.1f}s')
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        if r.returncode == 1 and v: res.append(c)
        elif r.returncode: res.append(f'{c}?{r.returncode}')
        if c == p:
            m = [l for l in r.stdout.splitlines() if not l.startswith('VIOLATION')]
            why = (m[-1] if m else '')[:160]
    print(i, p, 'CAUGHT' if p in res else 'MISSED', ' '.join(res), '|', ' '.join(took) if len(seeds) > 1 else why, flush=True)
