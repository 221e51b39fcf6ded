"""Front end: the exact Python 2 syntax trees of the analysed sources.

Jython's own parser (ast.parse) produces the trees; the result is cached by
the digest of every file consulted.
"""
import hashlib
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SA_REPO', '/repo')
sys.setrecursionlimit(20000)


class AnalysisBroken(Exception):
    """The analysis itself could not be carried out (vanished anchor...)."""


class N(object):
    """A syntax tree node."""
    __slots__ = ('_', 'l', 'c', 'f', 'file', 'func')

    def __init__(self, kind, l, c, f):
        self._ = kind
        self.l = l
        self.c = c
        self.f = f
        self.file = None

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        try:
            return self.f[name]
        except KeyError:
            raise AttributeError('%s.%s' % (self._, name))

    def get(self, name, d=None):
        return self.f.get(name, d)

    def __repr__(self):
        return '<%s:%s>' % (self._, self.l)

    def children(self):
        for v in self.f.values():
            if isinstance(v, N):
                yield v
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, N):
                        yield x

    def walk(self):
        yield self
        for c in self.children():
            yield from c.walk()


class Float(object):
    __slots__ = ('r',)

    def __init__(self, r):
        self.r = r


def build(d, file):
    if isinstance(d, dict):
        if '_u' in d:
            return d['_u']
        if '_f' in d:
            return float(d['_f'])
        if '_x' in d:
            return ('opaque', d['r'])
        f = {k: build(v, file) for k, v in d.items()
             if k not in ('_', 'l', 'c')}
        n = N(d['_'], d.get('l'), d.get('c'), f)
        n.file = file
        return n
    if isinstance(d, list):
        return [build(x, file) for x in d]
    return d


def source_files(repo=None):
    """Every non-test source file of the repository the library consists of."""
    repo = repo or REPO
    out = []
    lib = os.path.join(repo, 'openquake')
    for base, dirs, files in os.walk(lib):
        dirs[:] = sorted(d for d in dirs if d not in ('tests', '.git'))
        for f in sorted(files):
            if f.endswith('.py'):
                out.append(os.path.join(base, f))
    bind = os.path.join(repo, 'bin')
    if os.path.isdir(bind):
        for f in sorted(os.listdir(bind)):
            if f.endswith('.py'):
                out.append(os.path.join(bind, f))
    return out


def parse_files(files):
    """-> {path: json tree}, cached by digest"""
    h = hashlib.sha256()
    for f in [os.path.join(HERE, 'conv.py')] + list(files):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    digest = h.hexdigest()
    cachedir = os.environ.get('SA_CACHE') or os.path.join(
        tempfile.gettempdir(), 'sa_cache_%d' % os.getuid())
    os.makedirs(cachedir, exist_ok=True)
    cached = os.path.join(cachedir, digest + '.json')
    if not os.path.exists(cached):
        fd, tmp = tempfile.mkstemp(dir=cachedir)
        os.close(fd)
        env = {k: v for k, v in os.environ.items() if k != 'JYTHONPATH'}
        p = subprocess.run(
            ['jython', '-B', '-Dpython.cachedir.skip=true',
             os.path.join(HERE, 'conv.py'), tmp] + list(files),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env,
            timeout=300)
        if p.returncode != 0:
            raise AnalysisBroken('the parser failed: %s' %
                                 p.stdout.decode('utf8', 'replace')[-2000:])
        os.rename(tmp, cached)
    with open(cached) as f:
        return json.load(f), digest


def modname(path, repo=None):
    rel = os.path.relpath(path, repo or REPO)
    rel = rel[:-3].replace(os.sep, '.')
    if rel.endswith('.__init__'):
        rel = rel[:-9]
    return rel


def load(repo=None, override=None):
    """-> {module name: Module tree}; override replaces trees (for tests)"""
    files = source_files(repo)
    prelude = os.path.join(HERE, 'prelude.py2')
    harness = os.path.join(HERE, 'harness.py2')
    world = os.path.join(HERE, 'world.py2')
    models = os.path.join(HERE, 'models.py2')
    extra = [prelude, world, models, harness]
    own = {prelude: 'prelude', harness: 'harness', world: 'world',
           models: 'models'}
    trees, digest = parse_files(files + extra)
    if override:
        trees = dict(trees)
        trees.update(override)
    mods = {}
    for f in files + extra:
        t = build(trees[f], f)
        if t._ == 'SyntaxError':
            raise AnalysisBroken('%s does not parse: %s' % (f, t.msg))
        name = own[f] if f in own else modname(f, repo)
        mods[name] = t
    return mods, digest, files
