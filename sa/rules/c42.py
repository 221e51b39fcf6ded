"""C42: the small helpers compute what they document."""
import itertools
import math
from rules.common import *
from terms import K

G = 'openquake.commonlib.general.'
TRUES = ('true', 'yes', 't', '1')


def run(ctx):
    ctx.rule('distinct', 'the distinct keys, in the order in which they '
             'first occur, in a new list')
    ctx.rule('bool', 'a text is true exactly when it is true, yes, t or 1 in '
             'any case')
    ctx.rule('ceil', 'the smallest integer not less than the quotient; a '
             'divisor which is not positive is refused')
    eng = ctx.engine()
    con = G + 'distinct'
    for n in range(6):
        keys = [S('k%d' % i) for i in range(n)]
        arg = ('list', tuple(('one', k) for k in keys))
        for lazy in (False, True):
            def want(e, lazy=lazy):
                out = []
                for k in keys:
                    if e[k] not in out:
                        out.append(e[k])
                return ('return', out if lazy else
                        [out, False, [e[k] for k in keys]])
            model(ctx, eng, 'distinct', '%s, %d keys%s' % (
                con, n, ' in an iterator' if lazy else ''),
                'harness.distinct_of', [arg, K(lazy)],
                [dict(zip(keys, ['k%s' % x for x in v]))
                 for v in partitions(n)], want, shown=con,
                cmp=lambda g, w: lists(g) == w)
    con = G + 'str2bool'
    texts = ['', ' ', '0', 'no', 'false', 'f', 'n', 'on', '10', '01', 'tr',
             'truee', 'yess', 'ye', 'y', ' true', 'true ', '1 ', 'tt', 'T1']
    for t in TRUES:
        texts += [''.join(c) for c in itertools.product(
            *[sorted({x.lower(), x.upper()}) for x in t])]
    model(ctx, eng, 'bool', con, 'harness.bool_of', [S('t')],
          [{S('t'): t} for t in texts],
          lambda e: ('return', e[S('t')].lower() in TRUES), shown=con,
          cmp=lambda g, w: bool(g) == w)
    con = G + 'ceil'
    tops = (0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 99, 100, 101, 1000003, -1,
            -2, -3, -7, 0.5, 1.5, 2.0, -0.5, 7.25)
    bots = (1, 2, 3, 4, 5, 7, 10, 100, 0.5, 2.5, 1e3, 0, -1, -2.5)

    def want(e):
        a, b = e[S('a')], e[S('b')]
        if b <= 0:
            return ('raise', ['AssertionError', 'ValueError'])
        return ('return', math.ceil(a / b))
    model(ctx, eng, 'ceil', con, 'harness.ceil_of', [S('a'), S('b')],
          [{S('a'): a, S('b'): b} for a in tops for b in bots], want,
          shown=con)


def lists(x):
    return [lists(i) for i in x] if isinstance(x, (list, tuple)) else x
