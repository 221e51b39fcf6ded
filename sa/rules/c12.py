"""C12: what is written in a zip archive is stored once, at close."""
from rules.common import *
from terms import K

C = 'openquake.commonlib.csvmanager.'


NAMES = ['name.csv', 'dir/sub/name.csv', 'NAME', ' a b.CSV ',
         'p__T.csv', '\xe9.csv']
DATA = [lambda i: 'row%d' % i, lambda i: 'same', lambda i: 'r%d\n' % i,
        lambda i: ' %d \r\n\r\n' % i, lambda i: '\n', lambda i: '\0%d\xff' % i]


def run(ctx):
    ctx.rule('stored', 'after closing, the archive holds one entry with the '
             'name the file was opened with and all the data written, and '
             'nothing was stored before')
    ctx.rule('released', 'the temporary file is closed and removed')
    ctx.rule('memory', 'an in-memory file gives its full content each time it '
             'is read after a close')
    ctx.assumptions.append('files, zip files and StringIO behave as the '
                           'models in world.py2: writes are buffered until '
                           'flush, seek or close; ZipFile.write reads the '
                           'file named; a NamedTemporaryFile disappears at '
                           'close; StringIO refuses operations after close')
    names = {S('n'): 'str', S('n0'): 'str', S('n1'): 'str'}
    eng = ctx.engine(stubs=FILES, prims=names)
    top = 5 if ctx.tier == 'thorough' else 3
    for k in range(top + 1):
        ds = tuple(S('d%d' % i) for i in range(k))
        envs = []
        for name in NAMES:
            for data in DATA:
                envs.append({S('n'): name})
                envs[-1].update((d, data(i)) for i, d in enumerate(ds))
        stored = lambda e: [(e[S('n')], [e[d] for d in ds])]
        rows = lambda e: [e[d] for d in ds]
        for mode in ('w', 'w+', 'r+'):
            for how in ('close', 'twice', 'flush', 'with', 'archive'):
                con = '%s, mode %s, %d writes)' % (how, mode, k)
                args = [S('n'), K(mode), ('tuple',) + ds, K(how)]
                before = 0 if how == 'archive' else 1
                model(ctx, eng, 'stored', C + 'TempFile.close (' + con,
                      'harness.zip_write', args, envs,
                      lambda e: ('return', (stored(e), before)),
                      shown=C + 'TempFile.close',
                      value=lambda p, e: (lambda v: (v[0], v[3]))(
                          evalt.ev(p.value, e)))
                model(ctx, eng, 'released', C + 'TempFile.close (' + con,
                      'harness.zip_write', args, envs,
                      lambda e: ('return', ([], 0)),
                      shown=C + 'TempFile.close',
                      value=lambda p, e: evalt.ev(p.value, e)[1:3])
        for how in ('none', 'part', 'twice', 'with', 'iter'):
            model(ctx, eng, 'memory', C + 'FileObject (%s, %d writes)' % (
                how, k), 'harness.mem_file',
                [S('n'), ('tuple',) + ds, NONE, K(how)], envs,
                lambda e: ('return', ([rows(e)] * (3 if how == 'iter' else 2),
                                      e[S('n')])), shown=C + 'FileObject')
        for how in ('file', 'archive', 'both'):
            model(ctx, eng, 'memory', C + 'MemArchive (%s closed, %d writes)'
                  % (how, k), 'harness.mem_archive',
                  [S('n'), ('tuple',) + ds, K(how)], envs,
                  lambda e: ('return', [rows(e), rows(e)]), shown=C + 'MemArchive')
    two = []
    for a, b in (('a.csv', 'b.csv'), ('x/a.csv', 'y/a.csv'), ('a', 'A'),
                 ('a.csv', 'x/a.csv'), ('a', 'a.csv')):
        two.append({S('n0'): a, S('n1'): b})
        two[-1].update((S('d%d' % i), 'row%d' % i) for i in range(4))
    model(ctx, eng, 'stored', C + 'TempFile.close (two files)',
          'harness.zip_two', [S('n0'), S('n1')] + [
              S('d%d' % i) for i in range(4)], two,
          lambda e: ('return', (sorted([(e[S('n0')], ['row0', 'row2']),
                                        (e[S('n1')], ['row1', 'row3'])]),
                                [], 0)),
          shown=C + 'TempFile.close',
          cmp=lambda g, w: (sorted(g[0]), g[1], g[2]) == w)
