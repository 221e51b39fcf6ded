"""C17: writetmp writes the whole content and leaves no open descriptor."""
import itertools
from rules.common import *
from terms import K

Q = 'openquake.commonlib.general.writetmp'
MK = ('ext', 'tempfile.mkstemp')
EXISTS = ('os.path.exists', 'os.path.isdir', 'os.access', 'os.path.lexists')


def run(ctx):
    ctx.rule('descriptor', 'on every returning path the descriptor obtained '
             'from mkstemp has been closed: by os.close or by closing (or '
             'leaving the with block of) a file made from it; so has every '
             'other file opened')
    ctx.rule('content', 'what is written to the new file on a returning '
             'path is exactly the content, nothing if it is None or empty')
    ctx.rule('place', 'the directory is created exactly when it is given and '
             'missing, the file is made there with the given prefix and '
             'suffix and its path is returned')
    ctx.assumptions.append('os.fdopen/open/write/close behave as documented '
                           'and do not fail')
    eng = ctx.engine()
    names = ('content', 'dir', 'prefix', 'suffix')
    ps = paths(ctx, eng, 'content', Q, [], [(n, S(n)) for n in names])
    if ps is None:
        return
    judge(ctx, ps, Q, True)
    ps = paths(ctx, eng, 'content', 'harness.tmp_defaults', [], shown=Q)
    if ps is not None:
        judge(ctx, ps, Q + ' (no arguments)', False)


def cases(given):
    if not given:
        yield dict(content=None, dir=None, prefix='tmp', suffix='tmp',
                   there=True)
        return
    for c in (None, '', 'abc', '\n', '  '):
        for d, there in ((None, True), ('D', True), ('D', False)):
            yield dict(content=c, dir=d, prefix='P', suffix='S', there=there)


def judge(ctx, ps, con, given):
    bad = {'descriptor': [], 'content': [], 'place': []}
    und, n = [], 0
    # a failing makedirs has a path of its own
    caught = ['D'] if any(
        e.kind == 'failed' and e.fn in (('ext', 'os.makedirs'),
                                        ('ext', 'os.mkdir'))
        for p in ps for e in p.ev) else []
    for c in cases(given):
        env = {S(k): c[k] for k in ('content', 'dir', 'prefix', 'suffix')}
        some = False
        for p in ps:
            r = follow(p, c, env, caught)
            if r == 'skip':
                continue
            if isinstance(r, str):
                und.append(r)
                continue
            some = True
            n += 1
            for k, msg in r:
                bad[k].append('content=%r dir=%r (%s): %s' % (
                    c['content'], c['dir'], 'existing' if c['there']
                    else 'missing', msg))
        if not some and not und:
            und.append('no path for %r' % c)
    for k in bad:
        if bad[k]:
            ctx.violated(k, con, '; '.join(bad[k][:2]))
        elif und:
            ctx.unknown(k, con, und[0])
        else:
            ctx.proved(k, con, '%d paths, %d cases' % (len(ps), n))


def follow(p, c, env, caught=()):
    """the trace of one path: 'skip', a text if undecided, or the list of
    what is wrong"""
    env = dict(env)
    there = c['there']
    made = []
    fd = path = None
    files = {}          # file term -> open?
    wrote = []
    out = []
    for a, b in p.lits:
        for t in subterms(a):
            if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in EXISTS:
                env[t] = there
        if a[0] == 'raises':
            e = a[1][1] if a[1][0] == 'extexc' else None
            if e and e[0] == 'call' and e[1] in (('ext', 'os.makedirs'),
                                                 ('ext', 'os.mkdir')):
                if not b or not there:
                    return 'skip'
                continue
            return 'skip'      # nothing else fails
        try:
            if bool(evalt.lit(a, env)) != b:
                return 'skip'
        except evalt.Raised:
            return 'skip'
        except evalt.Unsup:
            return 'condition %s' % pp(a)[:100]
    evs = list(p.ev)
    fdopen = True
    for i, e in enumerate(evs):
        if e.kind in ('enter', 'exit'):
            t = e.args[0]
            if t in files and e.kind == 'exit':
                files[t] = False
                if t[2] and t[2][0] == fd:
                    fdopen = False
            continue
        if e.kind == 'print':
            return 'print statement'
        if e.kind == 'loop':
            return 'a loop'
        if e.kind == 'failed':
            if e.fn[0] == 'ext' and e.fn[1] in ('os.makedirs', 'os.mkdir'):
                if not there:
                    return 'skip'
                made and made.pop()
                continue
            return 'skip'
        if e.kind != 'call':
            continue
        f, a, kw = e.fn, list(e.args), dict(e.kw)
        if f == MK:
            if fd is not None:
                return 'two temporary files'
            for nm, x in zip(('suffix', 'prefix', 'dir', 'text'), a):
                kw[nm] = x
            fd, path = ('item', e.res, K(0)), ('item', e.res, K(1))
            if c['dir'] is not None and not there and not made:
                out.append(('place', 'the missing directory is not created'))
            for nm, deflt in (('suffix', ''), ('prefix', 'tmp'),
                              ('dir', None)):
                try:
                    v = evalt.ev(kw.get(nm, K(deflt)), env)
                except (evalt.Unsup, evalt.Raised):
                    return 'argument %s' % pp(kw[nm])[:80]
                if v != c[nm]:
                    out.append(('place', 'mkstemp is given %s=%r' % (nm, v)))
        elif f[0] == 'ext' and f[1] in ('os.makedirs', 'os.mkdir'):
            nxt = evs[i + 1] if i + 1 < len(evs) else None
            if nxt is not None and nxt.kind == 'failed' and nxt.fn == f:
                continue
            if f[1] == 'os.mkdir' and not there:
                out.append(('place', 'os.mkdir does not create the parent '
                            'directories'))
            try:
                v = evalt.ev(a[0], env)
            except (evalt.Unsup, evalt.Raised):
                return 'argument %s' % pp(a[0])[:80]
            if v != c['dir']:
                out.append(('place', 'creates %r' % (v,)))
            elif there:
                if c['dir'] in caught:
                    return 'skip'
                out.append(('place', 'creates an existing directory'))
            made.append(v)
        elif f[0] == 'ext' and f[1] in ('os.fdopen', '__builtin__.open',
                                        '__builtin__.file', 'io.open',
                                        'codecs.open'):
            files[e.res] = True
            mode = kw.get('mode', a[1] if len(a) > 1 else K('r'))
            if not isk(mode):
                return 'mode %s' % pp(mode)
            if not set(str(kval(mode))) & set('wa+'):
                out.append(('content', 'the file is opened for reading'))
            if f[1] != 'os.fdopen' and a[0] != path:
                return 'opens %s' % pp(a[0])[:80]
            if f[1] == 'os.fdopen' and (a[0] == path or a[0][0] == 's' or
                                        isk(a[0])):
                out.append(('descriptor', 'fdopen of %s' % pp(a[0])[:80]))
            elif f[1] == 'os.fdopen' and a[0] != fd:
                return 'opens %s' % pp(a[0])[:80]
        elif f == ('ext', 'os.close'):
            if a[0] != fd:
                return 'closes %s' % pp(a[0])[:60]
            fdopen = False
        elif f == ('ext', 'os.write') and a[0] == fd:
            wrote.append(a[1])
        elif f[0] == 'attr' and f[1] in files:
            t = f[1]
            if f[2] == 'write':
                if not files[t]:
                    out.append(('content', 'written after closing'))
                wrote.append(a[0])
            elif f[2] == 'close':
                files[t] = False
                if t[2][0] == fd:
                    fdopen = False
            elif f[2] not in ('flush', 'fileno', 'seek', 'tell'):
                return 'file method %s' % f[2]
        elif f[0] == 'ext' and f[1] in EXISTS + ('os.fsync',):
            pass
        else:
            return 'call of %s' % pp(f)[:80]
    if p.kind == 'raise':
        out.append(('content', 'raises %s' % evalt.excname(p.value)))
        return out
    if fd is None:
        return 'mkstemp is not used'
    if fdopen:
        out.append(('descriptor', 'returns without closing the descriptor '
                    'from mkstemp'))
    for t, o in files.items():
        if o and t[2][0] != fd:
            out.append(('descriptor', 'returns without closing %s'
                        % pp(t)[:60]))
    try:
        text = [evalt.ev(w, env) for w in wrote]
    except (evalt.Unsup, evalt.Raised):
        return 'content %s' % pp(wrote[0])[:80]
    if None in text:
        out.append(('content', 'writes None'))
    elif ''.join(text) != (c['content'] or ''):
        out.append(('content', 'writes %r' % ''.join(text)))
    v = p.value
    if v == fd or v in (NONE, e.res) or v[0] in ('k', 's'):
        out.append(('place', 'returns %s' % pp(v)[:60]))
    elif v != path:
        return 'returns %s' % pp(v)[:80]
    return out

