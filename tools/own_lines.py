"""lists planted changes whose removed lines all stem from later commits of /repo, or that no longer apply"""
import glob
import os
import re
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = subprocess.run('git -C /repo rev-list --max-parents=0 HEAD', shell=True, capture_output=True, text=True).stdout.strip()


def original(fn, cache={}):
    if fn not in cache:
        out = subprocess.run(['git', '-C', '/repo', 'blame', '-l', '-s', '--root', fn], capture_output=True, text=True).stdout
        cache[fn] = [i.split()[0].lstrip('^')[:39] == ROOT[:39] for i in out.splitlines()]
    return cache[fn]


for p in sorted(glob.glob(V + '/seeded/*/patch.diff')):
    name = p.split('/')[-2]
    if subprocess.run(['git', '-C', '/repo', 'apply', '--check', p], capture_output=True).returncode:
        print(name, 'does not apply')
    ok = removed = 0
    fn = None
    for l in open(p):
        if l.startswith('--- a/'):
            fn = l[6:].strip()
        elif l.startswith('@@'):
            k = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            if l[1:].strip() and not l[1:].strip().startswith('#'):
                removed += 1
                ok += original(fn)[k - 1]
            k += 1
        elif l.startswith(' ') or l == '\n':
            k += 1
    if not ok:
        print(name, 'removes %d lines, none of them original' % removed)
