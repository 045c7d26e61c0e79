#!/usr/bin/env python3
"""Development tool: makes and confirms planted bugs in a scratch copy (/tmp/scratch).

  seed.py make SPEC.py      SPEC defines SEEDS = [dict(id, property, needs, breaks, edits, demo | demo_rs [, script])]
  seed.py check ID [CHECK]  applies seeded/ID to /repo, runs the check, reverts
"""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/scratch'
DEMO = '''#!/bin/bash
# Runs a script and compares what it prints with what it printed before the change.
D="$(cd "$(dirname "$0")" && pwd)"
out="$(timeout 60 target/debug/examples/dyonrun "$D/demo.dyon" 2>/dev/null)"
[ "$out" = "$(cat "$D/expected.txt")" ]
'''
DEMO_RS = '''#!/bin/bash
# Builds a small host program against the library in the current directory and runs it.
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$D/demo.rs" "$W/src/main.rs"
cp "$R/Cargo.lock" "$W/Cargo.lock" 2>/dev/null
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\ndyon = { path = "%s" }\\n[workspace]\\n' "$R" > "$W/Cargo.toml"
cd "$W" && cargo build --offline -q --target-dir "$W/target" >/dev/null 2>"$W/err" || { cat "$W/err" >&2; exit 3; }
timeout 60 "$W/target/debug/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, capture_output=True, **k)


def reset():
    if not os.path.exists(S):
        assert sh('cp -a /repo %s' % S).returncode == 0
    assert sh('git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD && git -C %s clean -fdq' % (S, S, S)).returncode == 0


def build():
    r = sh('cargo test --workspace --no-run --offline', cwd=S)
    return r.returncode == 0, r.stderr[-3000:]


def make(spec, only=None):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        d = os.path.join(V, 'seeded', s['id'])
        if os.path.exists(os.path.join(d, 'meta.json')) and not only:
            continue
        reset()
        os.makedirs(d, exist_ok=True)
        w = lambda n, t: open(os.path.join(d, n), 'w').write(t)
        if 'demo' in s:
            w('demo.dyon', s['demo'])
            w('demo.sh', s.get('script', DEMO))
        else:
            w('demo.rs', s['demo_rs'])
            w('demo.sh', DEMO_RS)
        for n, t in s.get('files', {}).items():
            w(n, t)
        ok, e = build()
        assert ok, e
        if 'demo' in s and 'script' not in s:
            r = sh('timeout 60 target/debug/examples/dyonrun %s/demo.dyon' % d, cwd=S)
            print(s['id'], 'expected:', r.stdout.strip()[-300:], r.stderr[-600:] if r.returncode else '')
            w('expected.txt', r.stdout)
        r = sh('bash %s/demo.sh' % d, cwd=S)
        if r.returncode:
            print(s['id'], 'demo fails on the unchanged tree', r.stdout[-300:], r.stderr[-600:])
            continue
        for f, a, b in s['edits']:
            p = os.path.join(S, f)
            t = open(p).read()
            assert t.count(a) == 1, (s['id'], f, t.count(a), a)
            open(p, 'w').write(t.replace(a, b))
        w('patch.diff', sh('git -C %s diff' % S).stdout)
        ok, e = build()
        if not ok:
            print(s['id'], 'DOES NOT BUILD', e)
            continue
        r = sh('timeout 600 cargo test --workspace --no-fail-fast --offline 2>&1 | grep -c "^test .*FAILED"', cwd=S)
        if r.stdout.strip() != '0':
            print(s['id'], 'TESTS FAIL', r.stdout)
            continue
        r = sh('timeout 300 bash %s/demo.sh' % d, cwd=S)
        if r.returncode == 0:
            print(s['id'], 'DEMO PASSES WITH THE CHANGE')
            continue
        w('meta.json', json.dumps({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, indent=1) + '\n')
        print(s['id'], 'confirmed')
    reset()


def check(sid, pid=None, extra=''):
    d = os.path.join(V, 'seeded', sid)
    pid = pid or json.load(open(d + '/meta.json'))['property']
    assert sh('git -C /repo status --porcelain').stdout == ''
    assert sh('git -C /repo apply %s/patch.diff' % d).returncode == 0
    try:
        r = sh('python3 check.py %s %s' % (pid, extra), cwd=V)
    finally:
        sh('git -C /repo checkout -- .')
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print('%-28s %s exit=%d %s' % (sid, pid, r.returncode, 'CAUGHT' if v and r.returncode == 1 else 'MISSED'))
    for l in [l for l in r.stdout.splitlines() if l][:0 if v else 6]:
        print('    ', l[:300])
    return bool(v)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2], sys.argv[3:])
    else:
        if sys.argv[2] == 'all':
            for x in sorted(os.listdir(V + '/seeded')):
                check(x)
        else:
            check(sys.argv[2], *sys.argv[3:])
