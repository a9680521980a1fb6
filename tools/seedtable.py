#!/usr/bin/env python3
"""Prints which rules report each planted bug (applies each patch to a scratch copy of /repo)."""
import json, os, subprocess, shutil, sys, glob
rows = []
for d in sorted(glob.glob('/verif/seeded/*/')):
    sid = os.path.basename(d.rstrip('/'))
    m = json.load(open(d + 'meta.json'))
    tmp = '/tmp/seedtable-' + sid
    shutil.rmtree(tmp, ignore_errors=True)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-f', '--detach', tmp, 'HEAD'], check=True, capture_output=True)
    try:
        subprocess.run(['git', '-C', tmp, 'apply', d + 'patch.diff'], check=True)
        os.makedirs(tmp + '-out')
        shutil.copy('/verif/known_findings.txt', tmp + '-out')
        out = subprocess.run(['/verif/bin/analyzer', '-property', 'all', '-repo', tmp, '-verif', tmp + '-out'], capture_output=True, text=True).stdout
    finally:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', tmp], capture_output=True)
        shutil.rmtree(tmp + '-out', ignore_errors=True)
    viol = sorted({l.split('property=')[1].split()[0] for l in out.splitlines() if l.startswith('VIOLATION')})
    rules = sorted({l.split()[1] for l in out.splitlines() if l.startswith('rule ')})
    print('| %s | %s (reported by %s) |' % (sid, ', '.join(rules), ', '.join(viol)), flush=True)
