"""C20: context managers release on every exit and hide no exception."""
from rules.common import *
from terms import K

C = 'openquake.commonlib.csvmanager.'
P = 'openquake.commonlib.parallel.PerformanceMonitor'
RUN = ('ext', 'opaque_body.run')
MADE = (('ext', 'StringIO.StringIO'), ('ext', 'tempfile.NamedTemporaryFile'))
RUN2 = ('ext', 'opaque_body.run2')


def run(ctx):
    ctx.rule('enter', 'the object bound by `with` is the context manager')
    ctx.rule('release', 'the release step runs after the block, whether the '
             'block ends normally or by an exception')
    ctx.rule('propagate', 'an exception of the block leaves the `with` '
             'statement unchanged')
    ctx.assumptions.append('the block is an uninterpreted call which may '
                           'raise anything')
    eng = ctx.engine(strict_exc=True)
    use(ctx, eng, 'monitor_use', [('tuple', K(1))], P, monitor)
    use(ctx, eng, 'monitor_use', [('tuple', K(1), K(2))],
        P + ' (two processes)', monitor)
    use(ctx, eng, 'monitor_plain', [('tuple', K(1))], P + ' (own on_exit)',
        monitor_plain)
    use(ctx, eng, 'monitor_twice', [('tuple', K(1))], P + ' (used again)',
        monitor_again)
    use(ctx, eng, 'file_use', [K('mem'), S('n'), S('d')], C + 'FileObject',
        touched)
    use(ctx, eng, 'file_use', [K('tmp'), S('n'), S('d')], C + 'TempFile',
        stored)
    use(ctx, eng, 'wrapper_use', [S('f')], C + 'FileWrapper', closes(S('f')))
    for kind, mode in (('mem', 'r'), ('zip', 'r'), ('zip', 'w'),
                       ('dir', 'r'), ('dir', 'w')):
        for m0, m1 in (('r', 'r'), ('w', 'w'), ('r', 'w')):
            cls = {'mem': 'MemArchive', 'zip': 'ZipArchive',
                   'dir': 'DirArchive'}[kind]
            args = [K(kind), S('path'), K(mode), K(m0), K(m1)]
            use(ctx, eng, 'archive_use', args, C + '%s (mode %s, files %s '
                'and %s)' % (cls, mode, m0, m1), files_closed)
            use(ctx, eng, 'manager_use', args, C + 'CSVManager over a %s '
                '(mode %s, files %s and %s)' % (cls, mode, m0, m1),
                files_closed)


def body(p):
    """index of the last event of the block and the exception it raised"""
    last, exc = None, None
    for i, e in enumerate(p.ev):
        if e.kind in ('call', 'failed') and e.fn in (RUN, RUN2):
            last = i
            if e.kind == 'failed':
                exc = e
    return last, exc


def use(ctx, eng, fn, args, con, release):
    ps = paths(ctx, eng, 'release', 'harness.' + fn, args,
               shown=con.split(' ')[0])
    if ps is None:
        return
    bad = {'enter': [], 'release': [], 'propagate': []}
    und = {'enter': [], 'release': [], 'propagate': []}
    n = 0
    for p in ps:
        if any(b and a[0] == 'eq' and {a[1][0], a[2][0]} <= {'call', 'obj'}
               for a, b in p.lits):
            continue           # two files handed out are different objects
        last, exc = body(p)
        if last is None:
            continue           # it failed before the block
        n += 1
        after = p.ev[last + 1:]
        late = [e for e in after if e.kind == 'failed']
        if exc is not None and p.ev[last] is exc:
            own = p.kind == 'raise' and p.value == ('extexc', exc.res)
            if not own and p.kind == 'raise' and p.value[0] == 'extexc' \
                    and any(e.res == p.value[1] for e in late):
                pass           # the release itself failed
            elif p.kind == 'return':
                bad['propagate'].append(
                    'the exception of the block is swallowed')
            elif not own:
                und['propagate'].append('raises %s' % pp(p.value)[:90])
        elif p.kind == 'return':
            got = p.value[1] if p.value[0] == 'tuple' else p.value
            if got == FALSE:
                bad['enter'].append('another object is bound')
            elif got != TRUE:
                und['enter'].append(pp(got)[:80])
        elif not (p.value[0] == 'extexc' and any(
                e.res == p.value[1] for e in p.ev if e.kind == 'failed')):
            bad['release'].append('leaving the block raises %s' %
                                  pp(p.value)[:90])
        if late and p.kind == 'raise' and p.value[0] == 'extexc' and any(
                e.res == p.value[1] for e in late):
            continue           # the release step was interrupted
        r = release(p, after, exc if exc is not None and
                    p.ev[last] is exc else None)
        if r is None:
            und['release'].append('release step not resolved')
        elif r is not True:
            bad['release'].append('%s, when the block %s: %s' % (
                r, 'raises' if exc else 'ends', where(p, 120)))
    for rule in bad:
        if bad[rule]:
            ctx.violated(rule, con, '; '.join(bad[rule][:2]))
        elif und[rule]:
            ctx.unknown(rule, con, und[rule][0])
        elif n:
            ctx.proved(rule, con, '%d paths' % n)
        else:
            ctx.unknown(rule, con, 'no path reaches the block')


def method_calls(evs, recv, name):
    return [e for e in evs if e.kind == 'call' and
            e.fn == ('attr', recv, name)]


def closes(recv):
    def release(p, after, exc):
        return True if method_calls(after, recv, 'close') else \
            '%s is not closed' % pp(recv)
    return release


def touched(p, after, exc):
    """an in-memory file is rewound, or its content moved to a new one"""
    return True if any(
        e.kind == 'call' and e.fn[0] == 'attr' and e.fn[1][0] == 'call' and
        e.fn[1][1] == ('ext', 'StringIO.StringIO') for e in after) else \
        'the file object is not reset'


def stored(p, after, exc):
    tmp = [e.res for e in p.ev if e.kind == 'call' and e.fn ==
           ('ext', 'tempfile.NamedTemporaryFile')]
    if len(tmp) != 1:
        return None
    ok = [i for i, e in enumerate(after) if e.kind == 'call' and
          e.fn in (('ext', 'opaque_body.zip.write'),
                   ('ext', 'opaque_body.zip.writestr'))]
    cl = [i for i, e in enumerate(after) if e.kind == 'call' and
          e.fn == ('attr', tmp[0], 'close')]
    if not ok:
        return 'nothing is stored in the archive'
    if not cl:
        return 'the temporary file is not closed'
    return True


def files_closed(p, after, exc):
    """every file handed out is closed after the block"""
    for e in p.ev:
        if e.kind == 'call' and e.fn == ('ext', 'opaque_body.mark'):
            f = e.res[2][0]
            if f[0] == 'obj':
                f = ([v for k, v in f[2] if v[0] == 'call' and v[1] in MADE]
                     or [f])[0]
            if f[0] == 'call' and f[1] == ('ext', 'StringIO.StringIO'):
                if not any(x.kind == 'call' and x.fn[0] == 'attr' and
                           x.fn[1] == f for x in after):
                    return 'the in-memory file is not reset'
            elif f[0] == 'call':
                if not method_calls(after, f, 'close'):
                    return '%s is not closed' % pp(f)[:80]
            else:
                return None
    return True


def monitor_state(p, hookargs, exc):
    e, dur, mem = hookargs
    if exc is None and e != NONE:
        return 'exc is %s' % pp(e)[:60]
    if exc is not None and e != ('extexc', exc.res):
        return 'exc is %s' % pp(e)[:60]
    clock = ('call', ('ext', 'time.time'), (), ())
    t = [x.res for x in p.ev if x.kind == 'call' and
         x.fn == ('ext', 'time.time')]
    if dur == NONE:
        return 'the duration is not recorded'
    if mem == NONE:
        return 'the memory is not recorded'
    if dur != ('bin', '-', t[-1], t[-2]) and dur[0] == 'bin' and \
            len(t) >= 2:
        return None
    return True


def hooks(after):
    return [e for e in after if e.kind == 'call' and
            e.fn == ('ext', 'opaque_body.hook')]


def monitor(p, after, exc):
    h = hooks(after)
    if len(h) != 1:
        return 'on_exit is called %d times' % len(h)
    return monitor_state(p, h[0].args, exc)


def last_set(p, name):
    v = [e for e in p.ev if e.kind == 'setattr' and e.fn == name]
    return v[-1].args[1] if v else NONE


def monitor_plain(p, after, exc):
    return monitor_state(p, [last_set(p, n)
                             for n in ('exc', 'duration', 'mem')], exc)


def monitor_again(p, after, exc):
    if not any(e.fn == RUN2 for e in p.ev if e.kind in ('call', 'failed')):
        return True            # it failed before the second block
    return monitor(p, after, exc)
