"""C32: reading a source model groups unique, already modified sources."""
import itertools
from rules.common import *
from rules.c21 import t
from rules.c28 import V
from terms import K

FN = V + 'parse_source_model'
NAMES = ['Volcanic', 'Active Shallow', 'Stable', 'a', 'B']


def want(ids, trts, mags, shifts, used):
    groups = {}
    for i, x in enumerate(ids):
        groups.setdefault(trts[i], []).append(i)
    out = []
    for trt in sorted(groups, key=lambda x: (len(groups[x]), x)):
        idx = groups[trt]
        by = [shifts[i] if used else 0 for i in idx]
        out.append((
            [ids[i] for i in idx],
            min(mags[i][0] + b for i, b in zip(idx, by)),
            max(mags[i][1] + b for i, b in zip(idx, by)), trt, True))
    return out, list(ids), list(ids) if used else []


MAGS = [(5.0, 6.5), (4.5, 7.0), (5.5, 6.0), (4.0, 8.0), (4.25, 6.25)]
SHIFTS = [0.5, -1.0, 2.0, 1.0, 0.25]


def groups(ctx, eng):
    for k in range(0, 5 if ctx.tier == 'quick' else 6):
        for pat in partitions(k):
            m = max(pat) + 1 if pat else 0
            if m > len(NAMES):
                continue
            ids = ['S%d' % i for i in range(k)]
            orders = list(itertools.permutations(NAMES[:max(m, 3)], m))
            for names in (orders if m < 3 else orders[:6]):
                trts = [names[x] for x in pat]
                for used in (True, False):
                    w = want(ids, trts, MAGS, SHIFTS, used)
                    model(ctx, eng, 'groups', '%s, sources of %s%s' % (
                        FN, trts, ', modified' if used else ''),
                        'harness.psm_parse', [
                            t(list(zip(ids, trts, MAGS))), t(SHIFTS),
                            K(used)], [{}], lambda e: ('return', w),
                        shown=FN)


def duplicates(ctx, eng):
    for k in range(1, 4 if ctx.tier == 'quick' else 5):
        ids = [S('id%d' % i) for i in range(k)]
        for pat in partitions(k):
            trts = [NAMES[x % 2] for x in pat]
            specs = t(list(zip(ids, trts, MAGS)))

            def expect(env):
                xs = [env[x] for x in ids]
                if len(set(xs)) < k:
                    return 'raise', ('DuplicateID',)
                return 'return', want(xs, trts, MAGS, SHIFTS, True)
            envs = [dict(zip(ids, ['I%d' % x for x in p]))
                    for p in partitions(k)]
            model(ctx, eng, 'unique', '%s, identifiers of %s' % (FN, trts),
                  'harness.psm_parse', [specs, t(SHIFTS), K(True)], envs,
                  expect, shown=FN)


def run(ctx):
    ctx.rule('groups', 'one collector per region type with its sources, '
             'modified before they are counted, in the total order')
    ctx.rule('unique', 'a second source with an identifier is an error')
    ctx.assumptions.append('the parser of nrmllib gives the sources of the '
                           'file, in order')
    eng = ctx.engine(stubs=WORLD, recursion=12, real=REAL, UNROLL=60)
    groups(ctx, eng)
    duplicates(ctx, eng)
