"""List planted bugs whose removed lines are all lines of our own commits."""
import glob
import os
import re
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0',
                       'HEAD'], stdout=subprocess.PIPE).stdout.decode().strip()
blame = {}


def commit(f, n):
    if f not in blame:
        o = subprocess.run(['git', '-C', '/repo', 'blame', '-l', '-s', f],
                           stdout=subprocess.PIPE).stdout.decode()
        blame[f] = [x.split()[0].lstrip('^') for x in o.split('\n') if x]
    return blame[f][n - 1]


for p in sorted(glob.glob(HERE + '/seeded/*/patch.diff')):
    f, n, own, old = None, 0, 0, 0
    for line in open(p, newline='').read().split('\n'):
        if line.startswith('--- '):
            f = line[6:].strip()
        elif line.startswith('+++ '):
            pass
        elif line.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', line).group(1))
        elif line.startswith('-'):
            if line[1:].strip():
                if BASE.startswith(commit(f, n)[:39]):
                    old += 1
                else:
                    own += 1
            n += 1
        elif line.startswith(' '):
            n += 1
    if not old:
        print(p.split('/')[-2], 'original lines:', old, 'own:', own)
