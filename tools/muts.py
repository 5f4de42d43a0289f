#!/usr/bin/env python3
"""muts.py FILE [FILTER]: apply each textual change of FILE's list M to a scratch copy of /repo, run the named check, undo it, and say
whether the outcome is the expected one. M holds (expect, label, check, file, old, new) with expect 'bad' or 'ok'."""
import atexit, os, shutil, subprocess, sys, runpy
M = runpy.run_path(sys.argv[1])['M']
flt = sys.argv[2] if len(sys.argv) > 2 else ''
wrong = 0
R = '/tmp/mutrepo.%d' % os.getpid()
os.makedirs(R)
subprocess.run('git -C /repo archive HEAD | tar -x -C %s; cp /repo/Cargo.lock %s/' % (R, R), shell=True, check=True)
E = dict(os.environ, LISO_REPO=R)
atexit.register(shutil.rmtree, R)
for exp, label, check, *edits in M:
    if flt and flt not in label and flt != check: continue
    saved = {}
    lost = False
    for i in range(0, len(edits), 3):
        f, old, new = edits[i:i + 3]
        p = R + '/src/' + f
        t = open(p).read()
        saved.setdefault(p, t)
        lost |= t.count(old) < 1
        open(p, 'w').write(t.replace(old, new, 1))
    try:
        if lost:
            print('NOT FOUND', label); wrong += 1; continue
        r = subprocess.run(['./check', check], cwd='/verif', env=E, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        for p, t in saved.items(): open(p, 'w').write(t)
    ls = r.stdout.strip().split('\n')
    good = r.returncode == (1 if exp == 'bad' else 0)
    if good and exp == 'bad' and ('broken' in ls[0] or 'does not build' in r.stdout): good = False
    wrong += not good
    print('as expected' if good else '*** UNEXPECTED', exp, check, label, '|', ls[0][:170])
    sys.stdout.flush()
print('unexpected:', wrong)
