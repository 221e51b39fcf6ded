"""C14: the weight of a weighted sequence is the sum of what was put in."""
import evalt
from rules.common import *
from terms import K

G = 'openquake.commonlib.general.WeightedSequence.'
POINTS = [{i: 3 ** i for i in range(12)}, {i: 7 + 11 * i * i
                                          for i in range(12)},
          {i: 0 for i in range(12)}]


def pairs(x, n):
    return ('tuple',) + tuple(
        ('tuple', S('%s%d' % (x, i)), S('w%s%d' % (x, i))) for i in range(n))


def run(ctx):
    ctx.rule('content', 'for sequences of zero to three pairs, the items, in '
             'order, and the length after each operation are those of a list '
             'subject to the same operation, operands unchanged')
    ctx.rule('weight', 'the weight term of the result equals the sum of the '
             'weights put in (linear forms compared at generic points)')
    ctx.rule('order', 'w1 < w2 compares the weights only')
    ctx.rule('access', 'reading, searching, setting and deleting items and '
             'slices are those of the list of the items, and what is read '
             'is not shared')
    ctx.assumptions.append('weights are exact numbers: rounding of float '
                           'sums is not considered')
    eng = ctx.engine(recursion=4)
    for n in range(4):
        p = pairs('x', n)
        xs = items('x', n)
        check(ctx, eng, 'ws_build', [p], [xs], '__init__', n)
        for kind, a in (('append', None),):
            check(ctx, eng, 'ws_append', [p, pairs('y', 1)[1]],
                  [xs + items('y', 1)], 'append', n)
        for i in (0, 1, -1, 9):
            l = list(xs)
            l.insert(i, ('y', 0))
            check(ctx, eng, 'ws_insert', [p, K(i), pairs('y', 1)[1]], [l],
                  'insert at %d' % i, n)
        for m in range(3):
            more = xs + items('y', m)
            for fn, what in (('ws_extend', 'extend'),
                             ('ws_iadd', '__iadd__')):
                check(ctx, eng, fn, [p, pairs('y', m)], [more], what, n, m)
            check(ctx, eng, 'ws_add', [p, pairs('y', m)],
                  [more, xs, items('y', m)], '__add__', n, m)
            check(ctx, eng, 'ws_add_edit', [p, pairs('y', m),
                                            pairs('z', 1)[1]],
                  [more + items('z', 1), xs, items('y', m)],
                  '__add__ then append', n, m)
            check(ctx, eng, 'ws_lazy', [p, pairs('y', m)],
                  [more + items('y', m), more, items('y', m)],
                  '__init__ from iterators', n, m)
            check(ctx, eng, 'ws_merge', [p, pairs('y', m), pairs('z', 1)],
                  [more + items('z', 1), xs, items('y', m), items('z', 1)],
                  'merge', n, m)
    check(ctx, eng, 'ws_default', [], [[]], '__init__', 0)
    check(ctx, eng, 'ws_merge_none', [], [[]], 'merge', 0)
    order(ctx, eng)
    access(ctx, eng)


def access(ctx, eng):
    v = S('v')
    for n in range(5):
        xs = [S('x%d' % i) for i in range(n)]
        p = pairs('x', n)
        envs = []
        for part in partitions(n + 1):
            env = dict(zip(xs + [v], ['k%s' % x for x in part]))
            env.update((S('wx%d' % i), i + 1) for i in range(n))
            envs.append(env)

        def views(e):
            l = [e[x] for x in xs]
            return ('return', (l, l[::-1], l + [e[v]], l[1:], l[:2], l[::-1],
                               e[v] in l, l.count(e[v]), bool(l), l[::-1], l))

        def find(e):
            l = [e[x] for x in xs]
            return ('return', l.index(e[v])) if e[v] in l else (
                'raise', ['ValueError'])

        def same(g, w):
            return len(g) == len(w) and all(
                (list(a) if isinstance(b, list) else a) == b
                for a, b in zip(g, w))
        model(ctx, eng, 'access', G + '__getitem__, %d items' % n,
              'harness.ws_view', [p, v], envs, views,
              shown=G + '__getitem__', cmp=same)
        model(ctx, eng, 'access', G + 'index, %d items' % n,
              'harness.ws_find', [p, v], envs, find, shown=G + '__getitem__')
        for i in range(-n - 1, n + 1):
            def put(e):
                l = [e[x] for x in xs]
                try:
                    l[i] = e[v]
                except IndexError:
                    return ('raise', ['IndexError'])
                return ('return', (l, n))

            def cut(e, j=None):
                l = [e[x] for x in xs]
                try:
                    if j is None:
                        del l[i]
                    else:
                        del l[i:j]
                except IndexError:
                    return ('raise', ['IndexError'])
                return ('return', (l, len(l)))
            model(ctx, eng, 'access', G + '__setitem__, %d of %d items' % (
                i, n), 'harness.ws_set', [p, K(i), v], envs[:1], put,
                shown=G + '__setitem__', cmp=same)
            model(ctx, eng, 'access', G + '__delitem__, %d of %d items' % (
                i, n), 'harness.ws_del', [p, K(i), K(None)], envs[:1], cut,
                shown=G + '__delitem__', cmp=same)
            for j in (0, 2, 9):
                model(ctx, eng, 'access', G + '__delitem__, %d:%d of %d items'
                      % (i, j, n), 'harness.ws_del', [p, K(i), K(j)],
                      envs[:1], lambda e: cut(e, j),
                      shown=G + '__delitem__', cmp=same)


def items(x, n):
    return [(x, i) for i in range(n)]


def weightenv(pt):
    env = {}
    for base, x in enumerate('xyz'):
        for i in range(3):
            env[S('w%s%d' % (x, i))] = pt[base * 3 + i]
            env[S('%s%d' % (x, i))] = '%s%d' % (x, i)
    return env


def check(ctx, eng, fn, args, want, what, *sizes):
    con = '%s (%s items)' % (G + what, ' and '.join(map(str, sizes)))
    ps = paths(ctx, eng, 'content', 'harness.' + fn, args,
               shown=G + what.split()[0])
    if ps is None:
        return
    bad, wbad, und = [], [], []
    for pt in POINTS:
        env = weightenv(pt)
        sel = select(ps, env)
        if isinstance(sel, str):
            und.append(sel)
            continue
        for p in sel:
            if p.kind == 'raise':
                bad.append('raises %s' % evalt.excname(p.value))
                continue
            try:
                v = evalt.ev(p.value, env)
            except (evalt.Unsup, evalt.Raised) as e:
                und.append('%s in %s' % (str(e)[:60], pp(p.value)[:100]))
                continue
            if fn.startswith(('ws_add', 'ws_merge', 'ws_lazy')) and \
                    fn != 'ws_merge_none':
                states = [v[0]] + (list(v[1]) if fn == 'ws_merge' else
                                   list(v[1:]))
                if fn == 'ws_merge' and v[2] != 3:
                    bad.append('merging changes the given list')
            else:
                states = [v]
            for k, (st, w) in enumerate(zip(states, want)):
                who = 'the result' if k == 0 else 'operand %d' % k
                names = ['%s%d' % x for x in w]
                if list(st[0]) != names:
                    bad.append('%s holds %s instead of %s' % (
                        who, list(st[0]), names))
                if st[2] != len(names):
                    bad.append('%s has length %r' % (who, st[2]))
                total = sum(env[S('w%s%d' % x)] for x in w)
                if st[1] != total:
                    wbad.append('%s weighs %r instead of %r, with weights %s'
                                % (who, st[1], total,
                                   [env[S('w%s%d' % x)] for x in w]))
    for rule, b in (('content', bad), ('weight', wbad)):
        if b:
            ctx.violated(rule, con, '; '.join(b[:2]))
        elif und:
            ctx.unknown(rule, con, und[0])
        else:
            ctx.proved(rule, con)


def order(ctx, eng):
    for n, m in ((1, 1), (2, 1), (0, 1), (2, 2)):
        con = G + '__lt__ (%d and %d items)' % (n, m)
        ps = paths(ctx, eng, 'order', 'harness.ws_lt',
                   [pairs('x', n), pairs('y', m)], shown=G + '__lt__')
        if ps is None:
            continue
        bad, und = [], []
        for a in (0, 1, 2, 5):
            for b in (0, 1, 2, 5):
                for flip in (False, True):
                    env = {}
                    for i in range(2):
                        env[S('wx%d' % i)] = a
                        env[S('wy%d' % i)] = b
                        env[S('x%d' % i)] = -i if flip else i
                        env[S('y%d' % i)] = i
                    sel = select(ps, env)
                    if isinstance(sel, str):
                        und.append(sel)
                        continue
                    for p in sel:
                        try:
                            v = evalt.ev(p.value, env)
                        except (evalt.Unsup, evalt.Raised):
                            und.append(pp(p.value)[:80])
                            continue
                        if p.kind != 'return' or v != (n * a < m * b):
                            bad.append('weights %d and %d: < gives %r' % (
                                n * a, m * b, v))
        if bad:
            ctx.violated('order', con, bad[0])
        elif und:
            ctx.unknown('order', con, und[0])
        else:
            ctx.proved('order', con)
