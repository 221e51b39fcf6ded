"""C15: block_splitter and split_in_blocks partition the items."""
import itertools
import math
from rules.common import *

G = 'openquake.commonlib.general.'


def fn(name, x):
    return ('call', ('ext', 'opaque_fn.' + name), (x,), ())


def run(ctx):
    ctx.rule('blocks', 'the blocks are those of the stated rule: items of '
             'non-zero weight in order, a new block exactly when the kind '
             'changes or the weight would exceed the maximum, the weight of '
             'a block being the sum of its items')
    ctx.rule('partition', 'concatenating the blocks gives the items of '
             'non-zero weight; no empty or mixed block; no block of several '
             'items over the maximum')
    ctx.rule('errors', 'a negative weight or a maximum <= 0 is an error, a '
             'hint <= 0 too')
    ctx.rule('hint', 'split_in_blocks is block_splitter with the ceiling of '
             'total weight / hint as the maximum')
    ctx.assumptions.append('weight and kind are deterministic functions of '
                           'the item; weights are exact numbers')
    eng = ctx.engine(recursion=3, MAXSTATES=6000)
    top = 4 if ctx.tier == 'thorough' else 3
    for n in range(top + 1):
        xs = tuple(S('x%d' % i) for i in range(n))
        for f, what in (('split', 'block_splitter'),
                        ('split_gen', 'block_splitter of an iterator'),
                        ('split_default', 'block_splitter, defaults')):
            check(ctx, eng, f, what, n, xs, False)
        for f, what in (('hint', 'split_in_blocks'),
                        ('hint_gen', 'split_in_blocks of an iterator'),
                        ('hint_default', 'split_in_blocks, defaults')):
            check(ctx, eng, f, what, n, xs, True)


def assignments(n, deflt, hint):
    ws = (-1, 0, 1, 2, 5) if n < 4 else (0, 1, 3)
    ms = (-1, 0, 1, 2, 3, 4, 7) if n < 4 else (1, 3, 4, 6)
    for m in ms:
        if deflt:
            yield m, (1,) * n, (0,) * n
            continue
        for w in itertools.product(ws, repeat=n):
            for k in partitions(n):
                yield m, w, k
    if not deflt and not hint:     # weights below one, max not an integer
        for w in itertools.product((0.25, 0.5, 1.5), repeat=n):
            for m in (0.5, 0.75, 1.5):
                yield m, w, (0,) * n


def spec(m, ws, ks, hint):
    """the blocks wanted, 'error' or None if not specified"""
    if hint:
        if m <= 0:
            return 'error'
        if any(w < 0 for w in ws):
            return 'error'
        total = float(sum(ws))
        if total == 0:
            return None
        m = math.ceil(total / m)
    elif m <= 0:
        return 'error'
    out = []
    last = None
    for i, (w, k) in enumerate(zip(ws, ks)):
        if w < 0:
            return 'error'
        if w == 0:
            continue
        if not out or k != last or out[-1][1] + w > m:
            out.append(([i], w))
        else:
            out[-1] = (out[-1][0] + [i], out[-1][1] + w)
        last = k
    return out


def check(ctx, eng, f, what, n, xs, hint):
    con = G + '%s (%d items)' % (what, n)
    ps = paths(ctx, eng, 'blocks', 'harness.' + f,
               [('tuple',) + xs, S('m')], shown=G + what.split()[0].strip(','))
    if ps is None:
        return
    asked = [t for p in ps for t in subterms(
                 (p.value, tuple(p.lits), tuple((e.fn,) + tuple(e.args)
                                                for e in p.ev)))
             if t[:2] in (('call', ('ext', 'opaque_fn.weigh')),
                          ('call', ('ext', 'opaque_fn.sortof'))) and
             (len(t[2]) != 1 or t[2][0] not in xs and plain(t[2][0]))]
    if asked:
        ctx.violated('blocks', con, 'what is asked is %s' % pp(asked[0])[:150])
        return
    deflt = f.endswith('default')
    bad = {'blocks': [], 'partition': [], 'errors': []}
    und, cases = [], 0
    for m, ws, ks in assignments(n, deflt, hint):
        want = spec(m, ws, ks, hint)
        env = {S('m'): m}
        for i, x in enumerate(xs):
            env[x] = 'item%d' % i
            env[fn('weigh', x)] = ws[i]
            env[fn('sortof', x)] = 'kind%d' % ks[i]
        got = outcomes(ps, env)
        cases += 1
        if isinstance(got, str):
            und.append(got)
            continue
        desc = 'for weights %s, kinds %s, %s %s' % (
            list(ws), list(ks), 'hint' if hint else 'max_weight', m)
        for g in got:
            if want is None:
                continue
            if (want == 'error') != (g[0] == 'raise'):
                bad['errors'].append('%s: %s %s' % (desc, g[0], g[1]))
                continue
            if want == 'error':
                continue
            res = [([int(x[4:]) for x in b], w) for b, w in g[1]]
            flat = [i for b, w in res for i in b]
            mx = math.ceil(float(sum(ws)) / m) if hint else m
            if flat != [i for i in range(n) if ws[i]] or any(
                    not b or len(set(ks[i] for i in b)) > 1 or
                    w != sum(ws[i] for i in b) or (w > mx and len(b) > 1)
                    for b, w in res):
                bad['partition'].append('%s: %s' % (desc, res))
            elif res != want:
                bad['blocks'].append('%s: %s instead of %s' % (
                    desc, res, want))
    for rule in ('partition', 'errors', 'blocks'):
        name = 'hint' if hint and rule == 'blocks' else rule
        if bad[rule]:
            ctx.violated(name, con, '; '.join(bad[rule][:2]))
        elif und:
            ctx.unknown(name, con, und[0])
        else:
            ctx.proved(name, con, '%d paths, %d cases' % (len(ps), cases))
