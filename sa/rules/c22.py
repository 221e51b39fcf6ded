"""C22: full enumeration visits every path once with its product weight."""
from decimal import Decimal
from rules.common import *
from rules.c21 import t, exact
from terms import K

V = 'openquake.commonlib.logictree.'
WEIGHTS = ['0.%d' % n for n in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)]


def shapes(deep):
    """branch sets, the first being the root: for each branch the number of
    its child or None"""
    yield [[None]]
    yield [[None, None]]
    yield [[None, None, None]]
    # two levels
    for a in (None, 1):
        for b in (None, 1, 2):
            if a is None and b is None:
                continue
            n = max(x for x in (a, b) if x is not None)
            for k in (1, 2):
                yield [[a, b]] + [[None] * k] * n
    yield [[1, 2, 3], [None], [None, None], [None]]
    yield [[1, None, 1], [None, None, None]]
    # three levels, uneven
    for mid in ([2], [2, None], [None, 2], [2, 2], [2, 3]):
        yield [[1, None], mid, [None, None], [None]]
        yield [[None, 1], mid, [None], [None, None]]
        yield [[1, 1], mid, [None, None], [None]]
    # four levels
    yield [[1], [2], [3], [None]]
    yield [[1, 2], [2, None], [3, 3], [None, None]]
    if deep:
        yield [[1, 2], [3, 4], [4, 3], [None, 5], [5, None], [None, None]]
        yield [[1], [2], [3], [4], [5], [None]]
        for mid in ([2, 3, None], [None, 2, 3], [3, 2, 2]):
            for end in ([None], [None, 4], [4, None], [4, 4]):
                yield [[1, None, 1], mid, end, [None, None], [None, None]]


def walk(shape, i, prefix):
    for j, child in enumerate(shape[i]):
        path = prefix + [(i, j)]
        if child is None:
            yield path
        else:
            for p in walk(shape, child, path):
                yield p


def run(ctx):
    ctx.rule('paths', 'the realizations are the root-to-leaf paths, each one '
             'once, with the value of the first branch, the product of the '
             'weights and the identifiers in order')
    eng = ctx.engine(stubs=WORLD, recursion=9, real=REAL)
    for shape in shapes(ctx.tier == 'thorough'):
        sets, env, n = [], {}, 0
        for i, row in enumerate(shape):
            out = []
            for j, child in enumerate(row):
                b = '%d_%d' % (i, j)
                w = Decimal(WEIGHTS[n % len(WEIGHTS)])
                n += 1
                env.update({S('id' + b): 'id' + b, S('w' + b): w,
                            S('v' + b): 'v' + b})
                out.append((S('id' + b), S('w' + b), S('v' + b), child))
            sets.append(out)

        envs = [env] + [{k: Decimal(w) if isinstance(v, Decimal) else v
                         for k, v in env.items()} for w in ('1', '0')]

        def want(path, env):
            w = Decimal(1)
            for i, j in path:
                w *= env[S('w%d_%d' % (i, j))]
            return w, ['id%d_%d' % p for p in path]

        def real(env):
            return 'return', [('v%d_%d' % p[0],) + want(p, env)
                              for p in paths]
        paths = list(walk(shape, 0, []))
        for kind in ('source', 'gmpe'):
            con = V + {'source': 'SourceModelLogicTree',
                       'gmpe': 'GMPELogicTree'}[kind] + '.__iter__'
            model(ctx, eng, 'paths', '%s, %s' % (con, shape),
                  'harness.lt_enumerate', [K(kind), t(sets)], envs, real,
                  shown=con, cmp=lambda g, w: anyorder(g, w) and all(
                      isinstance(x[2], tuple) for x in g))
        con = V + 'BranchSet.enumerate_paths'
        model(ctx, eng, 'paths', '%s, %s' % (con, shape), 'harness.lt_paths',
              [t(sets)], envs, lambda e: ('return', [want(p, e)
                                                     for p in paths]),
              shown=con, cmp=anyorder)


def anyorder(g, w):
    """the same items, in any order"""
    def key(x):
        return tuple(x[-1]), str(x)
    return isinstance(g, (list, tuple)) and exact(
        sorted(g, key=key), sorted(w, key=key))
