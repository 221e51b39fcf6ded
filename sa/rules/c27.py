"""C27: a GSIM realization assigns one GSIM to each selected region type."""
import itertools
from decimal import Decimal
from rules.common import *
from rules.c21 import t, exact
from rules.c23 import W
from terms import K

V = 'openquake.commonlib.logictree.'
TREE = 'applyToTectonicRegionType'
GSIMS = ['GsimA', 'GsimB', 'GsimC', 'GsimD']


def bset(sid, ids, region, gsims=GSIMS, utype='gmpeModel'):
    at = {'uncertaintyType': utype, 'branchSetID': sid}
    if region is not None:
        at[TREE] = region
    return tuple(sorted(at.items())), list(zip(ids, W[len(ids)], gsims))


def naming(deep):
    """the levels, for many identifiers of the branch sets and branches"""
    sizes = [(2, 2), (1, 2), (2, 1), (1, 1), (3, 1)]
    for a, b in sizes:
        for sids in (('x', 'y'), ('y', 'x'), ('bs10', 'bs9')):
            perms = list(itertools.permutations('abcd'[:a + b]))
            if not deep and len(perms) > 12:
                perms = perms[::2]
            for p in perms:
                yield [[bset(sids[0], p[:a], 'T0')],
                       [bset(sids[1], p[a:], 'T1', GSIMS[1:])]]
    for sids in itertools.permutations(('bs1', 'bs2', 'bs10')):
        for p in (('ab', 'cd', 'e'), ('ea', 'd', 'cb'), ('cf', 'be', 'ad'),
                  ('c', 'b', 'a'), ('b', 'ca', 'd')):
            yield [[bset(s, ids, 'T%d' % i, GSIMS[i:] + GSIMS[:i])]
                   for i, (s, ids) in enumerate(zip(sids, p))]
    if deep:
        for sids in itertools.permutations('wxyz'):
            yield [[bset(s, ids, 'T%d' % i)] for i, (s, ids) in
                   enumerate(zip(sids, ('gb', 'ah', 'cf', 'ed')))]


def requests():
    """(what, levels, requested, valid)"""
    a, b = bset('y', 'ab', 'T0'), bset('x', 'cd', 'T1', GSIMS[1:])
    c, z = bset('w', 'efg', 'T2', GSIMS[::-1]), bset('v', 'h', None)
    every = ['T0', 'T1', 'T2']
    for n in (1, 2, 3):
        for req in itertools.permutations(every, n):
            yield 'requested', [[a], [b], [c]], list(req), True
    yield 'same GSIM', [[bset('x', 'ab', 'T0', ['GsimA', 'GsimA'])],
                        [bset('y', 'cd', 'T1', ['GsimA', 'GsimB'])]], \
        every, True
    yield 'blanks', [[bset('x', 'ab', 'T0', [' GsimA\n', '\tGsimB'])]], \
        every, True
    yield 'region of another case', [[bset('x', 'ab', 'T0')],
                                     [bset('y', 'cd', 't1')]], every, True
    yield 'more requested', [[a]], ['T1', 'T0'], True
    yield 'more requested', [[b], [a]], ['T0', 'Z', 'T1'], True
    yield 'none found', [[a]], ['T1'], False
    yield 'none found', [[a], [b]], ['T2'], False
    yield 'none found', [[a], [b]], ['T', 'T00'], False
    yield 'none found', [], ['T0'], False
    yield 'no region', [[z], [a]], ['T0'], True
    yield 'no region', [[a], [z]], ['T0'], True
    yield 'no region', [[z]], ['T0'], False
    for req in (['T0'], ['T1'], every):
        yield 'several sets', [[a, b]], req, False
    yield 'several sets', [[a], [b, c]], ['T0'], False
    yield 'several sets', [[a], [b, c]], every, False
    yield 'several sets', [[c, bset('q', 'z', 'Z')], [a]], every, False
    for ut in ('sourceModel', 'bGRRelative', 'GmpeModel', ''):
        yield 'type', [[bset('y', 'ab', 'T0', utype=ut)]], every, False
        yield 'type', [[a], [bset('x', 'cd', 'T1', utype=ut)]], every, False
        yield 'type', [[a], [bset('x', 'cd', 'T1', utype=ut)]], ['T0'], False
        yield 'type', [[bset('x', 'cd', None, utype=ut)], [a]], ['T0'], False
    for req in (every, ['T0'], ['T1', 'T0'], ['T2']):
        yield 'region twice', [[a], [bset('x', 'cd', 'T0')]], req, False
        yield 'region twice', [[a], [b], [bset('x2', 'ef', 'T0')]], req, \
            False
        yield 'region twice', [[a], [b], [bset('x2', 'ef', 'T1')]], req, \
            False


def realizations(levels, requested):
    kept = [(dict(at), bs) for l in levels for at, bs in l
            if dict(at).get(TREE) in requested]
    out = []
    for combo in itertools.product(*[bs for _, bs in kept]):
        w = Decimal(1)
        for b in combo:
            w *= Decimal(b[1])
        out.append(({at[TREE]: b[2].strip() for (at, _), b in zip(
            kept, combo)}, w, [b[0] for b in combo]))
    return out, {at['branchSetID']: len(bs) for at, bs in kept}


def agrees(got, want):
    """the same realizations in any order, with the branch sets listed in
    the same order by all of them"""
    reals, num, paths = got
    expected, sizes = want
    if num != sizes or paths != len(expected) or \
            len(reals) != len(expected):
        return False
    if not all(isinstance(r[2], tuple) and len(r[2]) == len(
            expected[0][2]) for r in reals):
        return False
    for perm in itertools.permutations(range(len(expected[0][2]))):
        exp = [(v, w, tuple(p[i] for i in perm)) for v, w, p in expected]
        left = list(reals)
        for e in exp:
            for r in left:
                if r[0] == e[0] and exact(r[1], e[1]) and r[2] == e[2]:
                    left.remove(r)
                    break
            else:
                break
        else:
            return True
    return False


def label(levels):
    return ' / '.join(' + '.join('%s(%s)%s' % (
        dict(at)['branchSetID'], ' '.join(b[0] for b in bs),
        '->%s' % dict(at).get(TREE)) for at, bs in l) for l in levels)


def run(ctx):
    ctx.rule('product', 'the realizations are all the combinations of one '
             'branch per kept branch set, whatever the identifiers and '
             'their order; the counts agree')
    ctx.rule('keep', 'the branch sets kept are those of the requested '
             'region types; invalid files are rejected')
    ctx.rule('mapping', 'the path of a realization of the GMPE logic tree is '
             'converted to the mapping from each kept region type to the '
             'GSIM of its branch; a path with another branch is refused')
    ctx.assumptions.append('nodes behave as in world.py2; the identifiers '
                           'of branch sets and branches are unique in a '
                           'file (the schema)')
    con = V + 'GsimLogicTree'
    eng = ctx.engine(stubs=WORLD, recursion=9, real=REAL, UNROLL=60)
    for levels in naming(ctx.tier == 'thorough'):
        req = ['T%d' % i for i in range(len(levels))][::-1]
        model(ctx, eng, 'product', '%s, %s' % (con, label(levels)),
              'harness.gsim_all', [t(levels), t(req)], [{}],
              lambda e: ('return', realizations(levels, req)), shown=con,
              cmp=agrees)
    for what, levels, req, valid in requests():
        model(ctx, eng, 'keep', '%s, %s, %s for %s' % (
            con, what, label(levels), ' '.join(req)), 'harness.gsim_all',
            [t(levels), t(req)], [{}], lambda e: (
                'return', realizations(levels, req)) if valid else
            ('raise', ('InvalidLogicTree',)), shown=con, cmp=agrees)
    mapping(ctx, eng)


REAL_GSIMS = {'GsimA': 'gsim A', 'GsimB': 'gsim B', 'GsimC': 'gsim C'}


def strip(levels):
    return [[(tuple((k, v) for k, v in at if k != 'branchSetID'), bs)
             for at, bs in l] for l in levels]


def mapping(ctx, eng):
    con = V + 'GMPELogicTree.make_trt_to_gsim'
    seen = {}
    for levels in list(naming(False)):
        key = tuple(len(l[0][1]) for l in levels)
        if seen.setdefault(key, 0) > 3:
            continue
        seen[key] += 1
        levels = [[(at, [(b[0], b[1], GSIMS[(i + j) % 3])
                         for j, b in enumerate(bs)])]
                  for i, ((at, bs),) in enumerate(levels)]
        regions = ['T%d' % i for i in range(len(levels))]
        for req, where in ((regions, ''), (regions[:1], ', one requested'),
                           (regions[1:], ', the first not requested')):
            kept = [l[0] for l in levels if dict(l[0][0])[TREE] in req]
            want = {}
            for combo in itertools.product(*[bs for _, bs in kept]):
                want[tuple(b[0] for b in combo)] = {
                    dict(at)[TREE]: REAL_GSIMS[b[2]]
                    for (at, _), b in zip(kept, combo)}

            def cmp(got, w, want=want):
                first, again, ids = got
                return sorted(map(tuple, ids)) == sorted(want) and \
                    first == again == [want[tuple(i)] for i in ids]
            model(ctx, eng, 'mapping', '%s, %s%s' % (
                con, label(levels), where), 'harness.gmpe_mapping',
                [t(strip(levels)), t(req), K(req is regions), K(0)], [{}],
                lambda e: ('return', want), shown=con, cmp=cmp)
        for path in [['zz'] * len(levels)] + [
                [l[0][1][0][0] for l in levels[:-1]] + ['zz'],
                [l[0][1][0][0] for l in levels[::-1]]]:
            if tuple(path) in want or len(levels) < 2:
                continue
            if path[0] in [b[0] for b in levels[0][0][1]] and path[-1] in [
                    b[0] for b in levels[-1][0][1]]:
                continue
            model(ctx, eng, 'mapping', '%s, %s for the path %s' % (
                con, label(levels), ' '.join(path)), 'harness.gmpe_path',
                [t(strip(levels)), t(regions), t(path)], [{}],
                lambda e: ('raise', ['AssertionError', 'ValidationError',
                                     'ValueError', 'KeyError',
                                     'LookupError']), shown=con)
