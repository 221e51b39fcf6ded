"""C11: the three kinds of archive honour one contract."""
import itertools
from rules.common import *
from terms import K

C = 'openquake.commonlib.csvmanager.'
CLS = {'mem': 'MemArchive', 'zip': 'ZipArchive', 'dir': 'DirArchive'}
NAMES = ('a.csv', 'ab.csv', 'b__x.csv')
N = tuple(S('n%d' % i) for i in range(3))


def run(ctx):
    ctx.rule('missing', 'opening for reading a name which is not there raises '
             'NotInArchive, otherwise its content is returned')
    ctx.rule('create', 'opening for writing creates the file, which is then '
             'found, listed and read back')
    ctx.rule('member', 'membership is True exactly when the name can be '
             'opened for reading, and leaves no open file')
    ctx.rule('list', 'the names listed are those with the given prefix')
    ctx.rule('closed', 'closing the archive closes every file handed out, '
             'whatever the way it was opened')
    ctx.assumptions.append('files, directories, zip files and StringIO '
                           'behave as the models in world.py2')
    eng = ctx.engine(stubs=FILES, prims=merge(
        [(n, 'str') for n in N], S('q'), 'str', S('p'), 'str'))
    ks = range(4 if ctx.tier == 'thorough' else 3)
    for kind in CLS:
        con = C + CLS[kind]
        for k in ks:
            ns = ('tuple',) + N[:k]
            one = '%s (%d files)' % (con, k)
            envs = [merge(zip(N[:k], names), S('q'), q)
                    for names in itertools.permutations(NAMES, k)
                    for q in NAMES + ('c', '', 'A.csv')]

            def content(e, k=k):
                q = e[S('q')]
                return q if q in [e[n] for n in N[:k]] else None

            def read(e, full):
                c = content(e)
                if c is None:
                    return 'raise', ('NotInArchive',)
                return 'return', (([c, c], []) if full else [c, c])
            model(ctx, eng, 'missing', one, 'harness.arc_read',
                  [K(kind), ns, S('q')], envs, lambda e: read(e, True),
                  shown=con)
            model(ctx, eng, 'missing', one + ', default mode',
                  'harness.arc_read_default', [K(kind), ns, S('q')], envs,
                  lambda e: read(e, False), shown=con)
            model(ctx, eng, 'member', one, 'harness.arc_contains',
                  [K(kind), ns, S('q')], envs,
                  lambda e: ('return', (content(e) is not None, [])),
                  shown=con)
            for mode in ('w', 'w+'):
                wenvs = [merge(e.items(), S('d'), 'row') for e in envs]
                model(ctx, eng, 'create', '%s, mode %s' % (one, mode),
                      'harness.arc_write',
                      [K(kind), ns, S('q'), K(mode), S('d')], wenvs,
                      lambda e: ('return', (['row'], True, True)),
                      shown=con)
            penvs = [merge(zip(N[:k], names), S('p'), p)
                     for names in itertools.permutations(NAMES, k)
                     for p in ('', 'a', 'b', 'ab', 'x', 'a.csv')]
            model(ctx, eng, 'list', one, 'harness.arc_list',
                  [K(kind), ns, S('p')], penvs,
                  lambda e: ('return', sorted(
                      e[n] for n in N[:k] if e[n].startswith(e[S('p')]))),
                  cmp=lambda g, w: sorted(g) == w, shown=con)
            model(ctx, eng, 'list', one + ', no prefix',
                  'harness.arc_list_all', [K(kind), ns], penvs,
                  lambda e: ('return', sorted(e[n] for n in N[:k])),
                  cmp=lambda g, w: sorted(g) == w, shown=con)
            for modes in itertools.product('rw', repeat=k):
                for how in ('plain', 'one closed', 'again', 'contains',
                            'two', 'manager'):
                    if not k and how not in ('plain', 'manager'):
                        continue
                    if how in ('again', 'contains', 'two') and kind == \
                            'zip' and modes[0] == 'w':
                        pass
                    cenvs = [dict(zip(N[:k], NAMES))]
                    model(ctx, eng, 'closed', '%s of modes %s, %s' % (
                        one, '/'.join(modes), how), 'harness.arc_close',
                        [K(kind), ns, ('tuple',) + tuple(map(K, modes)),
                         K(how)], cenvs, lambda e: ('return', []),
                        shown=con)
    envs = [merge([(N[0], 'a.csv'), (N[1], 'b.csv')], S('q'), q,
                  S('bad'), bad) for q in ('a.csv', 'b.csv', 'c.csv')
            for bad in ('a.csv', 'x.csv')]
    model(ctx, eng, 'member', C + 'DirArchive (unreadable file)',
          'harness.dir_contains', [('tuple',) + N[:2], S('q'), S('bad')],
          envs, lambda e: ('return', e[S('q')] in ('a.csv', 'b.csv') and
                           e[S('q')] != e[S('bad')]),
          shown=C + 'DirArchive')


def merge(items, *more):
    d = dict(items)
    for i in range(0, len(more), 2):
        d[more[i]] = more[i + 1]
    return d
