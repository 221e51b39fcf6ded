"""C31: source collectors summarise exactly the sources they hold."""
import itertools
from rules.common import *
from rules.c21 import t
from rules.c28 import Names, V, hz, point
from rules.c29 import area, mesh, spec, truncated
from rules.c30 import characteristic, complex_, pointlike, simple
from terms import K

COL = V + 'SourceCollector'


class Anything(object):
    """whatever the exception"""
    def __contains__(self, name):
        return True

    def __repr__(self):
        return 'an error'


def specs(k, trt=None):
    return t([('S%d' % i, trt or S('trt%d' % i), (S('lo%d' % i),
                                                   S('hi%d' % i)))
              for i in range(k)])


def mags(k):
    """assignments of the magnitudes of k sources"""
    if k < 4:
        los = list(itertools.product((-1.0, 0.0, 4.5), repeat=k))
        his = list(itertools.product((-0.5, 0.0, 8), repeat=k))
    else:
        los = list(itertools.permutations((-1.0, 0.0, 4.5, 4.7, 5.0)[:k]))
        his = list(itertools.permutations((5.0, 7.5, 8, 9, 9.5)[:k]))
    for i, lo in enumerate(los):
        for hi in (his if k < 3 else (his[i % len(his)], his[(
                7 * i + 3) % len(his)], his[-1 - i])):
            env = {S('lo%d' % j): x for j, x in enumerate(lo)}
            env.update((S('hi%d' % j), max(x, lo[j]))
                       for j, x in enumerate(hi))
            yield env


def state(env, idx, trt='A'):
    return (list(idx), min([env[S('lo%d' % i)] for i in idx])
            if idx else None, max([env[S('hi%d' % i)] for i in idx])
            if idx else None, trt)


def built(ctx, eng):
    n = 4 if ctx.tier == 'quick' else 5
    for k in range(0, n):
        for later in range(0, k + 1):
            for as_tuple in (False, True) if later < k else (False,):
                model(ctx, eng, 'extremes', '%s, %d sources, %d of them '
                      'added later%s' % (COL, k, later, ', from a tuple'
                                         if as_tuple else ''),
                      'harness.col_build',
                      [K('A'), specs(k, 'A'), K(later), K(as_tuple)],
                      mags(k), lambda e: ('return', (
                          state(e, range(k)), 0, True)), shown=COL)
        if k:
            model(ctx, eng, 'extremes', '%s, two made without sources, %d '
                  'added to the first' % (COL, k), 'harness.col_separate',
                  [K('A'), specs(k, 'A')], mags(k),
                  lambda e: ('return', (0, None, None)), shown=COL)
    for k in (1, 2, 3):
        def trts(k=k):
            for env in itertools.islice(mags(k), 12):
                for ts in itertools.product(('A', 'B', 'a'), repeat=k):
                    yield dict(env, **{}) | {
                        S('trt%d' % i): x for i, x in enumerate(ts)}

        def made(env):
            if any(env[S('trt%d' % i)] != 'A' for i in range(k)):
                return 'raise', Anything()
            return 'return', (state(env, range(k)), 0, True)
        for later in (0, 1):
            model(ctx, eng, 'refused', '%s, %d sources of any region, %d of '
                  'them added later' % (COL, k, later), 'harness.col_build',
                  [K('A'), specs(k), K(later), K(False)], trts(), made,
                  shown=COL)
        model(ctx, eng, 'refused', '%s, after %d sources' % (COL, k - 1),
              'harness.col_refused', [K('A'), t(
                  [('S%d' % i, 'A', (S('lo%d' % i), S('hi%d' % i)))
                   for i in range(k - 1)] +
                  [('S', 'B', (S('lo%d' % (k - 1)), S('hi%d' % (k - 1))))])],
              mags(k), lambda e: ('return', (True, state(e, range(k - 1)))),
              shown=COL + '.update')


def filtered(ctx, eng):
    for k in range(0, 4 if ctx.tier == 'quick' else 5):
        for verdicts in itertools.product((None, 'sites'), repeat=k):
            idx = [i for i in range(k) if verdicts[i]]
            model(ctx, eng, 'filter', '%s.filter_sources, verdicts %s' % (
                COL, verdicts), 'harness.col_filter',
                [K('A'), specs(k, 'A'), t(verdicts)],
                itertools.islice(mags(k), 40), lambda e: ('return', (
                    state(e, idx), state(e, range(k)), False, True)),
                shown=COL + '.filter_sources')


def counts(ctx, eng):
    for k in (1, 2, 3):
        ws = [S('w%d' % i) for i in range(k)]
        model(ctx, eng, 'count', '%s.update_num_ruptures, %d times' % (
            COL, k), 'harness.col_count', [K('A'), t(ws)],
            [dict(zip(ws, v)) for v in itertools.product((0, 1, 5),
                                                         repeat=k)],
            lambda e: ('return', ([e[w] for w in ws], sum(
                e[w] for w in ws))), shown=COL + '.update_num_ruptures')


# (kind, rates of the bins or number of nodes, weight of a part)
KINDS = [('simple', (0.5, 0.0, 0.25), 3), ('area', 2, 1),
         ('point', None, 7), ('complex', (0.0, 0.125), 2),
         ('characteristic', None, 4), ('simple', (0.0,), 5),
         ('area', 1, 1), ('complex', (0.1, 0.2, 0.3, 0.4), 1)]
MAKE = {'simple': simple, 'complex': complex_, 'point': pointlike,
        'characteristic': characteristic, 'area': area}
CLASS = {'simple': 'SimpleFaultSource', 'complex': 'ComplexFaultSource',
         'area': 'PointSource', 'point': 'PointSource',
         'characteristic': 'CharacteristicFaultSource'}


def blocks(ctx, eng):
    combos = [(0,), (1,), (2,), (5,), (0, 1), (2, 3), (5, 0), (3, 1, 4),
              (0, 2, 5), (4, 6, 7), (5, 2, 5)]
    if ctx.tier != 'quick':
        combos += list(itertools.combinations(range(len(KINDS)), 2)) + \
            list(itertools.combinations(range(len(KINDS)), 3))
    for combo in combos:
        n = Names()
        items, parts = [], []
        for i, j in enumerate(combo):
            kind, what, w = KINDS[j]
            obj = MAKE[kind](n, truncated(n))
            obj[1]['source_id'] = 'S%d' % i
            annual = t([(5.0 + m, r) for m, r in enumerate(what)]) \
                if isinstance(what, tuple) else K(None)
            num = what if isinstance(what, int) else len(
                [r for r in what if r]) if what else 1
            nodes, meshes = mesh(n, what if isinstance(what, int) else 1)
            items.append(('tuple', spec(obj), annual, K(w), meshes))
            parts.append([('S%d' % i, CLASS[kind], w)] * num)
        for verdicts in itertools.product((None, 'sites'),
                                          repeat=len(combo)):
            want = [p for v, ps in zip(verdicts, parts) if v for p in ps]
            for limit in (1, 10, 0.5, 200, 1000, 100000):
                def good(g, w, want=want, limit=limit):
                    if not isinstance(g, tuple) or len(g) != 3:
                        return False
                    bs, held, total = g
                    ids, seen = [], []
                    for ps, weight in bs:
                        if not ps:
                            return False
                        ws = []
                        for sid, cls in ps:
                            ids.append(sid)
                            o = sid.split('-')[0]
                            if len(seen) >= len(want) or \
                                    want[len(seen)][:2] != (o, cls):
                                return False
                            ws.append(want[len(seen)][2])
                            seen.append(o)
                        if weight != sum(ws) or (
                                len(ws) > 1 and weight > limit):
                            return False
                    return len(seen) == len(want) and \
                        len(set(ids)) == len(ids) and held == ids and \
                        total == sum(x[2] for x in want)
                model(ctx, eng, 'blocks', '%s.gen_blocks, %s, verdicts %s, '
                      'limit %s' % (COL, ' '.join(KINDS[j][0] for j in combo),
                                    verdicts, limit), 'harness.col_blocks',
                      [('tuple',) + tuple(items), t(verdicts), K(limit),
                       K(10.0)], [n.env], lambda e: ('return', want),
                      shown=COL + '.gen_blocks', cmp=good)


def run(ctx):
    ctx.rule('extremes', 'a collector holds each source once and knows the '
             'extreme magnitudes; the list given is left alone')
    ctx.rule('refused', 'a source of another region type is refused')
    ctx.rule('filter', 'filtering keeps the accepted sources, in a new '
             'collector')
    ctx.rule('count', 'the number of ruptures of a source is given back and '
             'added to the total')
    ctx.rule('blocks', 'the parts of the accepted sources, in blocks of the '
             'right weight')
    ctx.assumptions.append('the classes of hazardlib behave as in models.py2')
    eng = ctx.engine(stubs=WORLD, recursion=12, real=REAL, UNROLL=60)
    built(ctx, eng)
    filtered(ctx, eng)
    counts(ctx, eng)
    blocks(ctx, eng)
