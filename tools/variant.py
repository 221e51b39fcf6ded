#!/usr/bin/env python3
"""Try a check on an edited scratch copy of the program:

    variant.py 'C18 C19' parallel.py < edits

where edits is a list of `old ==== new` texts separated by `####`.  One
variant is made of each (`&&&&` separates edits made together); the verdict
lines are printed."""
import os
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = sys.argv[1].split()
name = sys.argv[2]
edits = sys.stdin.read().split('\n####\n')
for i, e in enumerate(edits):
    d = tempfile.mkdtemp(prefix='variant')
    try:
        subprocess.check_call('cp -a /repo/openquake /repo/bin %s/' % d,
                              shell=True)
        f = os.path.join(d, 'openquake/commonlib', name)
        s = open(f).read()
        bad = False
        for one in e.split('\n&&&&\n'):
            old, new = one.split('\n====\n') if '\n====\n' in one else (
                one[:one.index('====')], one[one.index('====') + 5:])
            old = old.strip('\n')
            new = new.strip('\n')
            if s.count(old) != 1:
                print('variant %d: %d occurrences' % (i, s.count(old)))
                bad = True
            s = s.replace(old, new)
        if bad:
            continue
        open(f, 'w').write(s)
        for p in props:
            r = subprocess.run(['timeout', '100', sys.executable, os.path.join(V, 'check.py'),
                                p], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, SA_REPO=d, SA_EVIDENCE=d))
            lines = [l[:230] for l in r.stdout.split('\n')
                     if l.startswith(p + ':') or 'violated' in l
                     or 'BROKEN' in l or 'Error' in l]
            print('variant %d %s exit %d: %s' % (
                i, p, r.returncode, '\n    '.join(lines[:3])))
    finally:
        shutil.rmtree(d)
