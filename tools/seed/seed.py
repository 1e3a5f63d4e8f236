#!/usr/bin/env python3
"""Make a planted bug: seed.py DEFS.py [id...]

DEFS.py holds SEEDS, a list of dicts: id, property, needs, what_it_breaks, edits [(file, old, new)...], demo (the body
of main, and what else main.rs needs). Each is tried in a copy of /repo: it has to build, pass the stable tests, and its
demo has to pass without it and fail with it; then it is written to /verif/seeded/<id>.
"""
import json, os, shutil, subprocess, sys
W = '/tmp/w/sd'
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = '/verif/seeded'

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def tests_ok():
    """The stable tests pass in W."""
    base = json.load(open('/opt/vp/BASELINE.json'))
    env = dict(os.environ, CARGO_TARGET_DIR='/tmp/w/sdt')
    r = sh('cargo test --offline 2>&1', cwd=W, env=env, timeout=600)
    failed = [l for l in r.stdout.splitlines() if 'FAILED' in l or l.startswith('error')]
    n = sum(int(l.split('ok. ')[1].split(' ')[0]) for l in r.stdout.splitlines() if l.startswith('test result: ok.'))
    return (r.returncode == 0 and n >= 176), '\n'.join(failed[:6]) + f'\n{n} passed'

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    prelude = open(HERE + '/prelude.rs').read()
    os.makedirs(W, exist_ok=True)
    for s in ns['SEEDS']:
        i = s['id']
        if want and i not in want:
            continue
        if not want and os.path.exists(f'{OUT}/{i}/patch.diff'):
            continue
        sh(f'rsync -a --delete --exclude target /repo/ {W}/ || (rm -rf {W} && cp -a /repo {W})')
        sh('git checkout -q -- .', cwd=W)
        bad = None
        for f, old, new in s['edits']:
            t = open(f'{W}/src/{f}').read()
            if t.count(old) != 1:
                bad = f'{f}: {t.count(old)} matches for {old!r}'
                break
            open(f'{W}/src/{f}', 'w').write(t.replace(old, new))
        if bad:
            print(i, 'BAD', bad); continue
        diff = sh('git diff', cwd=W).stdout
        # removed lines have to be lines of the original repository
        mine = []
        for f in {e[0] for e in s['edits']}:
            blame = sh(f'git blame -s HEAD -- src/{f}', cwd=W).stdout.splitlines()
            for l in sh(f'git diff -U0 -- src/{f}', cwd=W).stdout.splitlines():
                if l.startswith('@@'):
                    a = l.split(' ')[1][1:].split(',')
                    n = int(a[1]) if len(a) > 1 else 1
                    for k in range(int(a[0]), int(a[0]) + n):
                        if not blame[k - 1].startswith('^'):
                            mine.append((f, k))
        ok, msg = tests_ok()
        if not ok:
            print(i, 'BAD tests', msg); continue
        d = f'/tmp/w/seeddir/{i}'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        body = s['demo']
        if 'fn main' not in body:
            body = 'fn main() {\n' + body + '\n}\n'
        open(d + '/main.rs', 'w').write(prelude + body)
        if s.get('py'):
            open(d + '/drive.py', 'w').write(s['py'])
        shutil.copy(HERE + '/demo.sh', d + '/demo.sh')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({k: s[k] for k in ('property', 'needs', 'what_it_breaks')}, open(d + '/meta.json', 'w'), indent=1)
        a = sh(f'{d}/demo.sh', cwd='/repo')
        b = sh(f'{d}/demo.sh', cwd=W)
        if a.returncode != 0 or b.returncode in (0, 2, 3, 126, 127):
            print(i, 'BAD demo', a.returncode, a.stdout[-1500:], b.returncode, b.stdout[-1500:]); continue
        os.makedirs(OUT, exist_ok=True)
        shutil.rmtree(f'{OUT}/{i}', ignore_errors=True)
        shutil.copytree(d, f'{OUT}/{i}')
        print(i, 'kept', ('changes my own lines: %s' % mine) if mine else '', '|', b.stdout.strip()[-200:])
        sys.stdout.flush()
main()
