"""C26: sampling a logic tree depends only on the seed."""
import itertools
from decimal import Decimal
from rules.common import *
from rules.c21 import t
from terms import K

V = 'openquake.commonlib.logictree.'
# where randomness could come from, and what may be used of it
SOURCES = ('random', 'os.urandom', 'uuid', 'numpy.random', 'secrets',
           'tempfile._RandomNameSequence', 'ssl.RAND_bytes')
ALLOWED = ('random.Random', 'numpy.random.RandomState')


def references(tree):
    """(dotted name, node, call or None) of all the references of a module
    to the names of other modules"""
    alias = {}
    for n in tree.walk():
        if n._ == 'Import':
            for a in n.names:
                if a.asname:
                    alias[a.asname] = a.name
                else:
                    alias[a.name.split('.')[0]] = a.name.split('.')[0]
        elif n._ == 'ImportFrom' and n.module and not n.get('level'):
            for a in n.names:
                if a.name == '*':
                    yield n.module + '.*', n, None
                else:
                    alias[a.asname or a.name] = n.module + '.' + a.name
    calls = {id(n.func): n for n in tree.walk() if n._ == 'Call'}

    def dotted(n):
        if n._ == 'Name':
            return alias.get(n.id)
        if n._ == 'Attribute':
            b = dotted(n.value)
            return b and b + '.' + n.attr
    inner = {id(n.value) for n in tree.walk() if n._ == 'Attribute'}
    for n in tree.walk():
        if n._ in ('Name', 'Attribute') and id(n) not in inner:
            d = dotted(n)
            if d:
                yield d, n, calls.get(id(n))


def random_name(d):
    return any(d == s or d.startswith(s + '.') for s in SOURCES)


def paths_of(sets, num, rolls):
    """the sampled paths, or None when a draw fails"""
    rolls = list(rolls)
    out = []
    for _ in range(num):
        at, ids, name = 0, [], None
        while at is not None:
            roll = rolls.pop(0)
            acc = 0
            for b in sets[at]:
                acc += b[1]
                if acc >= roll:
                    break
            else:
                return None
            if not ids:
                name = b[2]
            ids.append(b[0])
            at = b[3]
        out.append((name, tuple(ids)))
    return out


def trees(deep):
    D = Decimal

    def tree(*sets):
        n = itertools.count()
        return [[('b%d_%d' % (i, j), D(w), 'v%d' % next(n), c)
                 for j, (w, c) in enumerate(row)]
                for i, row in enumerate(sets)]
    h, q, f = '0.5', '0.25', '0.75'
    yield tree([('1', None)]), 2
    yield tree([(h, None), (h, None)]), 3
    yield tree([(q, None), (h, None), (q, None)]), 2
    yield tree([(q, None), ('0', None), (f, None)]), 2
    yield tree([(h, 1), (h, None)], [(q, None), (f, None)]), 2
    yield tree([(h, None), (h, 1)], [('1', 2)], [(f, None), (q, None)]), 1
    yield tree([(f, 1), (q, 2)], [(h, None), (h, None)],
               [(q, None), (f, None)]), 2
    # weights not summing up to one
    yield tree([(h, None), (q, None)]), 2
    yield tree([(h, 1), (h, None)], [(q, None), (q, None)]), 1
    if deep:
        yield tree([(q, 1), (h, 2), (q, None)], [(h, 3), (h, 2)],
                   [(q, None), (f, 3)], [(h, None), (h, None)]), 1
        yield tree([(q, None), (h, None), (q, None)]), 3


ROLLS = [0.0, 0.25, 0.2500001, 0.5, 0.5000001, 0.75, 0.7500001, 0.999999]


def run(ctx):
    ctx.rule('references', 'nothing random is referred to except generators '
             'made with a seed')
    ctx.rule('draw', 'a draw gives the first object at which the cumulated '
             'weight reaches the number, AssertionError when none does')
    ctx.rule('paths', 'the requested number of paths, each with one draw for '
             'each branch set from the root, by a generator made with the '
             'configured seed for the iteration')
    ctx.rule('settings', 'the seed and the number of samples of the '
             'calculation are used')
    ctx.assumptions.append('random.Random is deterministic in its seed')
    deep = ctx.tier == 'thorough'
    eng = ctx.engine(stubs=WORLD, recursion=9, real=REAL, UNROLL=60)
    # the references
    total = 0
    for name in sorted(ctx.mods):
        if name in ('prelude', 'world', 'models', 'harness'):
            continue
        bad, und, n = [], [], 0
        # a generator may be given its seed later
        seeded = any(x._ == 'Call' and x.func._ == 'Attribute' and
                     x.func.attr == 'seed' and (x.args or x.keywords)
                     for x in ctx.mods[name].walk())
        for d, node, call in references(ctx.mods[name]):
            n += 1
            if not random_name(d):
                continue
            total += 1
            if d in ALLOWED:
                if call is None:
                    if node._ == 'Name' or True:
                        und.append('%s is not called, line %s' % (d, node.l))
                elif not (call.args or call.keywords or call.starargs or
                          call.kwargs):
                    (und if seeded else bad).append(
                        '%s without a seed, line %s' % (d, node.l))
            elif d == 'random':
                und.append('the module random is passed on, line %s' % node.l)
            else:
                bad.append('%s, line %s' % (d, node.l))
        if bad:
            ctx.violated('references', name, '; '.join(bad[:4]))
        elif und:
            ctx.unknown('references', name, '; '.join(und[:4]))
        else:
            ctx.proved('references', name, '%d references' % n)
    if not total:
        ctx.unknown('references', 'library', 'no generator is made anywhere')
    # the draws
    con = V + 'sample'
    for weights in ((1,), (.5, .5), (.25, .5, .25), (0, 1), (.5, 0, .5),
                    (.25, .25), (.5, 0), ()):
        for dec in (False, True):
            ws = [Decimal(str(w)) if dec else w for w in weights]
            for num in (0, 1, 2):
                rolls = [S('r%d' % i) for i in range(num)]
                envs = [dict(zip(rolls, vs)) for vs in
                        itertools.product(ROLLS, repeat=num)]

                def want(env):
                    out = paths_of([[(i, w, 0, None) for i, w in
                                     enumerate(ws)]], num,
                                   [env[r] for r in rolls])
                    if out is None:
                        return 'raise', ('AssertionError',)
                    return 'return', [p[0] for _, p in out]
                model(ctx, eng, 'draw', '%s, %d of weights %s' % (
                    con, num, ', '.join(map(str, ws)) + (
                        ' (decimals)' if dec else '')), 'harness.smp_draw',
                    [t(ws), t(rolls), K(num)], envs, want, shown=con,
                    cmp=lambda g, w: list(g) == w)
    # the paths
    for k, (sets, num) in enumerate(trees(deep)):
        most = max_draws(sets) * num
        rolls = [S('r%d' % i) for i in range(most)]
        vals = ROLLS if most < 3 else [0.25, 0.5, 0.5000001, 0.999999] \
            if most < 5 else [0.25, 0.6, 0.9]
        envs = [dict(zip(rolls, vs)) for vs in
                itertools.product(vals, repeat=most)]
        for kind in ('source', 'gmpe'):
            con = V + {'source': 'SourceModelLogicTree',
                       'gmpe': 'GMPELogicTree'}[kind] + '.__iter__'

            def want(env):
                out = paths_of(sets, num, [env[r] for r in rolls])
                if out is None:
                    return 'raise', ('AssertionError',)
                return 'return', ([out], [42])
            model(ctx, eng, 'paths', '%s, tree %d, %d samples' % (
                con, k, num), 'harness.smp_tree',
                [K(kind), t(sets), K(num), K(42), t(rolls)], envs, want,
                shown=con, cmp=equal)
    # more samples, several iterations
    rnd = [0.1, 0.9, 0.3, 0.6, 0.2, 0.8, 0.45, 0.55, 0.99, 0.01, 0.5, 0.7,
           0.0, 0.35]
    D = Decimal
    one = [[('a', D('.3'), 'x', 1), ('b', D('.7'), 'y', None)],
           [('c', D('.5'), 'z', None), ('d', D('.5'), 't', None)]]
    for kind in ('source', 'gmpe'):
        con = V + {'source': 'SourceModelLogicTree',
                   'gmpe': 'GMPELogicTree'}[kind] + '.__iter__'
        for num in (1, 2, 5, 7):
            for seed in (42, 0, -3):
                out = paths_of(one, num, rnd)
                for times in (1, 2, 3):
                    model(ctx, eng, 'paths', '%s, %d samples with seed %d, '
                          '%d times' % (con, num, seed, times),
                          'harness.smp_tree', [
                              K(kind), t(one), K(num), K(seed), t(rnd),
                              K(times)], [{}],
                          lambda e: ('return', ([out] * times,
                                                [seed] * times)),
                          shown=con, cmp=equal)
            model(ctx, eng, 'paths', '%s, %d samples, iterations inside '
                  'an iteration' % (con, num), 'harness.smp_mixed',
                  [K(kind), t(one), K(num), K(42), t(rnd)], [{}],
                  lambda e: ('return', [y for x in out for y in [x] + out]),
                  shown=con,
                  cmp=equal)
        levels = [[({'uncertaintyType': 'sourceModel'}, [
            ('a', '0.3', 'x'), ('b', '0.7', 'y')])]] if kind == 'source' \
            else [[({'uncertaintyType': 'gmpeModel',
                     'applyToTectonicRegionType': 'T'}, [
                         ('a', '0.3', 'GsimA'), ('b', '0.7', 'GsimB')])]]
        tree = [[(b[0], D(b[1]), 'gsim ' + b[2][-1] if kind == 'gmpe'
                  else b[2], None) for b in levels[0][0][1]]]
        con = con.replace('__iter__', 'from_hc')
        for num in (1, 4):
            for seed in (42, 13):
                lv = [[(tuple(sorted(at.items())), bs) for at, bs in l]
                      for l in levels]
                model(ctx, eng, 'settings', '%s, %d samples with seed %d' % (
                    con, num, seed), 'harness.smp_hc', [
                        K(kind), t(lv), K(num), K(seed), t(rnd)], [{}],
                    lambda e: ('return', (paths_of(tree, num, rnd), [seed])),
                    shown=con, cmp=equal)


def equal(g, w):
    if isinstance(w, (list, tuple)):
        return isinstance(g, (list, tuple)) and len(g) == len(w) and all(
            equal(x, y) for x, y in zip(g, w))
    return g == w


def max_draws(sets, i=0):
    return 1 + max([max_draws(sets, b[3]) for b in sets[i]
                    if b[3] is not None] or [0])
