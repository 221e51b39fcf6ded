"""C23: branch sets attach only to open branches of the previous level."""
import itertools
from rules.common import *
from rules.c21 import t
from terms import K

V = 'openquake.commonlib.logictree.'


class Bad(Exception):
    pass


def parse(kind, levels, regions):
    """the specified tree: ('return', shape), or None when the outcome is not
    specified"""
    branches, last, root = {}, [], None

    def err(line):
        raise Bad(('invalid', line, 'lt.xml', '/base'))
    try:
        for i, level in enumerate(levels):
            new = []
            applied = 0
            for j, (attrs, bs) in enumerate(level):
                line = 1000 * (i + 1) + 100 * j
                if kind == 'gmpe' and attrs['applyToTectonicRegionType'] \
                        not in regions:
                    continue
                bset = [attrs['uncertaintyType'], {
                    k: v for k, v in attrs.items()
                    if k == 'applyToTectonicRegionType'}, []]
                for k, (bid, w, v) in enumerate(bs):
                    if bid in branches:
                        err(line + 10 * (k + 1))
                    b = [bid, w, v, None]
                    branches[bid] = b
                    bset[2].append(b)
                if root is None:
                    root = bset
                elif kind == 'source' and attrs.get('applyToBranches'):
                    for bid in attrs['applyToBranches'].split():
                        b = branches.get(bid)
                        if b is None or b[3] is not None or not any(
                                b is x for x in last):
                            err(line)
                        b[3] = bset
                    applied += 1
                elif applied:
                    return None      # overlapping branch sets
                else:
                    for b in last:
                        b[3] = bset
                    applied += 1
                new.extend(bset[2])
            if new:
                last = new
    except Bad as e:
        return 'return', e.args[0]
    return 'return', root


def show(s):
    """comparable form of an expected tree"""
    if s is None or isinstance(s, tuple):
        return s
    return [s[0], s[1], [[b[0], show(b[3])] for b in s[2]]]


def got(s):
    if s is None or s[0] == 'invalid' or not isinstance(s, (list, tuple)):
        return s
    return [s[0], s[1], [[b[0], got(b[3])] for b in s[2]]]


W = {1: ['1'], 2: ['0.25', '0.75'], 3: ['0.25', '0.25', '0.5']}


def bset(ids, kind, first, apply=None, region=None):
    attrs = {'uncertaintyType': 'gmpeModel' if kind == 'gmpe' else
             'sourceModel' if first else 'bGRRelative'}
    if apply:
        attrs['applyToBranches'] = apply
    if region:
        attrs['applyToTectonicRegionType'] = region
    return attrs, [(x, w, 'GsimA' if kind == 'gmpe' else 'm.xml' if first
                    else '1') for x, w in zip(ids, W[len(ids)])]


def documents(deep):
    def doc(*levels):
        out = []
        for i, level in enumerate(levels):
            out.append([bset(ids, 'source', i == 0, ap) for ids, ap in level])
        return 'source', out, ()
    a = [('ab', None)]
    yield doc([('a', None)])
    yield doc([('aa', None)])
    seconds = [[('c', None)], [('cd', None)], [('c', 'a')], [('c', 'b')],
               [('c', 'a b')], [('c', ' b\n a ')], [('c', 'a'), ('d', 'b')],
               [('c', 'b'), ('de', 'a')], [('c', 'a'), ('d', 'a')],
               [('c', 'a a')], [('c', 'x')], [('c', 'a x')], [('c', 'c')],
               [('c', 'a'), ('d', 'c')], [('a', None)], [('ca', 'b')],
               [('c', 'a'), ('c', 'b')], [('c', 'a'), ('d', 'a b')]]
    for s in seconds:
        yield doc(a, s)
    thirds = [[('e', None)], [('ef', 'c')], [('e', 'a')], [('e', 'b')],
              [('e', 'd')], [('e', 'c d')], [('e', 'c'), ('f', 'd')],
              [('c', None)], [('a', 'c')], [('e', 'b c')],
              [('e', 'c'), ('f', 'e')]]
    for s in ([('c', None)], [('c', 'a')], [('c', 'a'), ('d', 'b')],
              [('cd', 'b')], [('cd', None)]):
        for th in thirds:
            yield doc(a, s, th)
    yield doc(a, [('c', 'a')], [('d', None)], [('e', 'd'), ('f', 'a')])
    yield doc(a, [('cd', 'a')], [('ef', 'd')], [('g', 'f')], [('h', 'g')])
    yield doc(a, [('c', 'a')], [('d', 'c')], [('e', 'c')])
    yield doc(a, [('cd', None)], [('e', 'c'), ('f', 'd')], [('g', None)])
    # levels of the GMPE tree which are or are not kept
    for n in (1, 2, 3, 4) if not deep else (1, 2, 3, 4, 5):
        for kept in itertools.product((True, False), repeat=n):
            levels = []
            for i, k in enumerate(kept):
                ids = [['b%d%d' % (i, j) for j in range(1 + (i + n) % 2)],
                       ][0]
                levels.append([bset(ids, 'gmpe', False, None,
                                    ('T%d' if k else 'Z%d') % i)])
            yield 'gmpe', levels, ['T%d' % i for i in range(n)]
    dup = [[bset(['x'], 'gmpe', False, None, 'T0')],
           [bset(['y', 'x'], 'gmpe', False, None, 'T1')]]
    yield 'gmpe', dup, ['T0', 'T1']
    yield 'gmpe', dup, ['T0']


def run(ctx):
    ctx.rule('attach', 'the tree is the one made by attaching each branch '
             'set to the open or listed branches, or a validation error')
    ctx.assumptions.append('elements behave as in models.py2')
    eng = ctx.engine(stubs=WORLD, recursion=9, real=REAL, UNROLL=60)
    for kind, levels, regions in documents(ctx.tier == 'thorough'):
        want = parse(kind, levels, regions)
        if want is None:
            continue
        want = want[0], show(want[1])
        con = V + {'source': 'SourceModelLogicTree',
                   'gmpe': 'GMPELogicTree'}[kind]
        label = ' / '.join(' + '.join('%s%s' % (
            ''.join(b[0] for b in bs), '->' + (
                at.get('applyToBranches') or
                at.get('applyToTectonicRegionType', '')))
            for at, bs in lv) for lv in levels)
        for validate in (False, True):
            if validate and kind == 'gmpe' and (
                    len(levels) != len([1 for lv in levels for at, _ in lv
                                        if at['applyToTectonicRegionType']
                                        in regions])
                    or len(regions) != len(levels)):
                continue       # another rule applies to these
            lv = [[(tuple(at.items()), bs) for at, bs in l] for l in levels]
            model(ctx, eng, 'attach', '%s, %s%s' % (
                con, label.replace('\n', ' '),
                ' (validated)' if validate else ''),
                'harness.lt_parse',
                [K(kind), t(lv), K(validate),
                 t([('m.xml', [('areaSource', '1', 'T')])]), t(regions)],
                [{}], lambda e: want, shown=con,
                cmp=lambda g, w: got(g) == w)
