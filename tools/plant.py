#!/usr/bin/env python3
"""plant.py ID PROPERTY NEEDS BREAKS FILE OLD NEW [FILE OLD NEW...]: (developer tool) makes seeded/ID/patch.diff and confirms it in
a scratch copy: builds, tests pass, demo passes without and fails with it; then says what the property's check makes of it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/seedrepo'


def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    sid, prop, needs, breaks = sys.argv[1:5]
    edits = sys.argv[5:]
    d = V + '/seeded/' + sid
    sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (S, S, S))
    for f in ('demo.sh', 'lib.py'):
        shutil.copy(V + '/tools/seed/' + f, d + '/' + f)
    if edits:
        for i in range(0, len(edits), 3):
            p = S + '/' + edits[i]
            s = open(p).read()
            old, new = edits[i + 1], edits[i + 2]
            if s.count(old) != 1: print('old text found %d times: %r' % (s.count(old), old[:60])); return 2
            open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % S).stdout)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        sh('git -C %s checkout -q -- .' % S)
    r = sh('bash %s/demo.sh' % d, cwd=S)
    print('clean demo', r.returncode, r.stdout[-600:].strip())
    if r.returncode: return 1
    r = sh('git -C %s apply %s/patch.diff' % (S, d))
    if r.returncode: print(r.stdout); return 1
    env = '. /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target; cd %s; ' % (S, S)
    r = sh(env + 'cargo check -q --all-features --offline 2>&1 | grep -A5 ^error ; cargo check -q --no-default-features --offline 2>&1 | grep -A5 ^error; cargo test -q --workspace --offline -- --test-threads 8 2>&1 | grep -E "^test result|FAILED|failed|^error" ', executable='/bin/bash')
    print('tests', r.stdout[-700:].strip())
    r = sh('bash %s/demo.sh' % d, cwd=S)
    print('patched demo', r.returncode, r.stdout[-600:].strip())
    sh('git -C %s checkout -q -- .' % S)
    # originality of the changed lines
    import re
    orig = sh('git -C /repo log --reverse --format=%h | head -1').stdout.strip()
    cur = None
    for l in open(d + '/patch.diff').read().split('\n'):
        if l.startswith('--- a/'): cur = set(sh('git -C /repo show %s:%s' % (orig, l[6:])).stdout.split('\n'))
        elif l.startswith('-') and l[1:] not in cur: print('NOT ORIGINAL:', l)
    if os.path.exists(V + '/props/%s.py' % prop.lower()):
        sh('git -C /repo apply %s/patch.diff' % d)
        try: r = sh('./check %s' % prop, cwd=V)
        finally: sh('git -C /repo checkout -- .')
        print('check', r.returncode, r.stdout[-500:].strip())


sys.exit(main())
