#!/usr/bin/env python3
"""Mutation runs, to find what the checks miss: mutate.py REPO OUT.jsonl [every N [offset K]] [files...]

Makes one small change after the other in a copy of REPO's src (outside the unit tests). Those that compile and pass the
stable tests are given to the checks, with a few seconds each, until one reports a violation. Survivors are to be looked
at by hand: they are either equivalent or show a gap.
"""
import json, os, re, shutil, subprocess, sys, random
REPO, OUT = sys.argv[1:3]
EVERY, OFF = int(sys.argv[3]), int(sys.argv[4])
FILES = sys.argv[5:]
W = f'/tmp/w/mu/{os.getpid()}'
R, H, HT, LV = W + '/repo', W + '/harness', W + '/ht', W + '/lv'
SECONDS = os.environ.get('SECONDS_EACH', '4')
ALL = [f'C{i:02}' for i in range(1, 28)]
ORDER = {
    'buffer.rs': ['C23', 'C07', 'C14', 'C03'],
    'complete.rs': ['C19', 'C18'],
    'history.rs': ['C14', 'C15', 'C16', 'C17', 'C13', 'C11', 'C12'],
    'util.rs': ['C08', 'C18', 'C21'],
    'context.rs': ['C20', 'C02', 'C26', 'C21', 'C24'],
    'editor.rs': ['C25', 'C08', 'C09', 'C12', 'C11', 'C18', 'C10', 'C20', 'C24'],
    'keymap/mod.rs': ['C22', 'C02', 'C18', 'C24'],
    'keymap/emacs.rs': ['C03', 'C11', 'C24'],
    'keymap/vi.rs': ['C05', 'C06', 'C04', 'C01', 'C24'],
    'event.rs': ['C22'], 'prompt.rs': ['C08', 'C04'],
}

def sh(cmd, **k):
    try:
        return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
    except subprocess.TimeoutExpired:
        class T: returncode = 124; stdout = 'timeout'
        return T

def mutants(f, text):
    lines = text.split('\n')
    end = next((i for i, l in enumerate(lines) if l.strip().startswith('#[cfg(test)]') and i + 1 < len(lines) and 'mod ' in lines[i + 1]), len(lines))
    subs = [
        (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
        (r' < ', ' == '), (r' > ', ' == '),
        (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ (?!1\b)', ' - '), (r' - (?!1\b)', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '),
        (r' && ', ' || '), (r' \|\| ', ' && '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
        (r'\bif !', 'if '), (r'\bwhile !', 'while '), (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'cmp::min\(', 'cmp::max('), (r'cmp::max\(', 'cmp::min('),
        (r'\bif (?!let\b)(?!.*=>)([^{]+) \{', 'if true {'), (r'\bif (?!let\b)(?!.*=>)([^{]+) \{', 'if false {'),
        (r' if (?!let\b)([^={]|==)+ =>', ' =>'), (r'\bSome\((\w+ [+-] 1|0)\)$', 'None'),
        (r'\.rev\(\)', ''), (r'\.skip\(1\)', ''), (r'\b0\b', '1'), (r'\b1\b', '2'),
        (r'\.rfind\(', '.find('), (r'\.find\(', '.rfind('), (r'\.rposition\(', '.position('), (r'\.position\(', '.rposition('),
        (r'pop_front', 'pop_back'), (r'push_back', 'push_front'), (r'\.any\(', '.all('), (r'\.all\(', '.any('),
        (r'\.next\(\)', '.last()'), (r'saturating_sub\(1\)', 'saturating_sub(0)'), (r'is_alphanumeric', 'is_alphabetic'), (r'is_whitespace', 'is_ascii_whitespace'),
        (r'\?;$', '.ok();'), (r"Key::Char\('(.)'\) \| ", ''), (r" \| Key::Char\('(.)'\)", ''),
        (r'Left\b', 'Right'), (r'Right\b', 'Left'), (r'_left\b', '_right'), (r'_right\b', '_left'), (r'start\b', 'end'), (r'\bend\b', 'start'),
    ]
    for i, l in enumerate(lines[:end]):
        s = l.strip()
        if not s or s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('pub use') or 'fn ' in s and not '{ ' in s:
            continue
        for a, b in subs:
            for m in re.finditer(a, l):
                if "'" in l[max(0, m.start() - 1):m.start()] :
                    continue
                new = l[:m.start()] + re.sub(a, b, l[m.start():], count=1)
                if new != l:
                    yield i, new
        if s.endswith(';') and not s.startswith(('let ', 'return', 'use ', 'type ', 'const ', '}', ')', 'break', 'continue')) and s.count('(') == s.count(')') and s.count('{') == s.count('}') and not s.startswith(('.', '&&', '||')):
            yield i, l[:len(l) - len(l.lstrip())] + '// ' + s
        if re.match(r"[^{}]* => [^{}]*,$", s) and s.count('(') == s.count(')') and not s.startswith('_'):
            yield i, l[:len(l) - len(l.lstrip())] + '// ' + s

def main():
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    sh(f'git clone -q {REPO} {R} && cp {REPO}/Cargo.lock {R}/; rsync -a --exclude target /verif/harness/ {H}/')
    sh(f"sed -i s,/repo,{R}, {H}/Cargo.toml")
    os.makedirs(LV)
    shutil.copy('/verif/known-findings.txt', LV)
    todo = []
    for f in FILES or ORDER:
        p = f'{R}/src/{f}'
        if os.path.exists(p):
            t = open(p).read()
            todo += [(f, i, new) for i, new in mutants(f, t)]
    random.Random(7).shuffle(todo)
    todo = todo[OFF::EVERY][int(os.environ.get('SKIP', '0')):]
    print(len(todo), 'mutants', flush=True)
    n = dict(build=0, tests=0, killed=0, survived=0)
    for f, i, new in todo:
        p = f'{R}/src/{f}'
        orig = open(p).read()
        ls = orig.split('\n')
        old = ls[i]
        ls[i] = new
        open(p, 'w').write('\n'.join(ls))
        try:
            env = dict(os.environ, CARGO_TARGET_DIR=W + '/t')
            r = sh('timeout 120 cargo test --offline --no-run 2>&1', cwd=R, env=env)
            if r.returncode:
                n['build'] += 1; continue
            r = sh('timeout 60 cargo test --offline 2>&1', cwd=R, env=env)
            if r.returncode:
                n['tests'] += 1; continue
            r = sh('timeout 300 cargo build --release --offline 2>&1', cwd=H, env=dict(os.environ, CARGO_TARGET_DIR=HT, CARGO_PROFILE_RELEASE_INCREMENTAL='true'))
            if r.returncode:
                n['build'] += 1; continue
            by = None
            order = ORDER.get(f, []) 
            for c in order + [c for c in ALL if c not in order]:
                r = sh(f'timeout 120 {HT}/release/lv check {c} quick', env=dict(os.environ, LV_HOME=LV, LV_DEADLINE=SECONDS, VERIF_SEED='1'))
                if f'VIOLATION property={c}' in r.stdout:
                    by = c; break
            n['killed' if by else 'survived'] += 1
            with open(OUT, 'a') as o:
                o.write(json.dumps(dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), by=by)) + '\n')
        finally:
            open(p, 'w').write(orig)
        print(n, flush=True)
    shutil.rmtree(W, ignore_errors=True)
main()
