#!/usr/bin/env python3
"""Make and confirm a planted bug.

usage: mkseed.py ID PROPERTY file-under-openquake/commonlib < edits
edits: old ==== new, separated by ####; demo.py (and meta.json fields 'needs'
and 'what_it_breaks' given by --needs/--breaks) must be in seeded/ID."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('id')
ap.add_argument('prop')
ap.add_argument('file')
ap.add_argument('--needs', required=True)
ap.add_argument('--breaks', required=True)
a = ap.parse_args()
d = os.path.join(V, 'seeded', a.id)
for f in ('demo.sh', 'stubs.py'):
    shutil.copy(os.path.join(V, 'tools', 'demo', f), d)
if 'import libs' in open(os.path.join(d, 'demo.py')).read():
    shutil.copy(os.path.join(V, 'tools', 'demo', 'libs.py'), d)
    shutil.copy(os.path.join(V, 'sa', 'models.py2'), d + '/models.py')
w = tempfile.mkdtemp(prefix='seed')
try:
    r = os.path.join(w, 'repo')
    subprocess.check_call(['cp', '-a', '/repo', r])
    path = os.path.join(r, a.file if '/' in a.file
                        else 'openquake/commonlib/' + a.file)
    s = open(path).read()
    for e in sys.stdin.read().strip('\n').split('\n####\n'):
        old, new = e.split('\n====\n')
        assert s.count(old) == 1, (s.count(old), old)
        s = s.replace(old, new)
    run = lambda: subprocess.run(
        ['bash', os.path.join(d, 'demo.sh')], cwd=r, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, text=True)
    good = run()
    assert good.returncode == 0, good.stdout[-1500:]
    open(path, 'w').write(s)
    patch = subprocess.check_output(['git', '-C', r, 'diff'], text=True)
    bad = run()
    print('patched demo rc', bad.returncode, bad.stdout[-300:])
    assert bad.returncode != 0
    open(os.path.join(d, 'patch.diff'), 'w').write(patch)
    json.dump(dict(property=a.prop, needs=a.needs, what_it_breaks=a.breaks),
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    ev = tempfile.mkdtemp(dir=w)
    c = subprocess.run(['timeout', '300', 'python3', V + '/check.py', a.prop],
                       cwd=V, env=dict(os.environ, SA_REPO=r, SA_EVIDENCE=ev),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    print('CHECK rc', c.returncode, c.stdout[-600:])
finally:
    shutil.rmtree(w)
