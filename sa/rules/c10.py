"""C10: one convention for the names, headers and rows of the CSV files."""
import itertools
from rules.common import *
from terms import K

C = 'openquake.commonlib.csvmanager.'
H = S('h')
FIELDS = ['a', 'b', 'c']
PREFIXES = ('vm', '', 'a-b')
VSET = ['vulnerabilitySetID', 'assetCategory', 'lossCategory', 'IMT']
VFUN = ['vulnerabilitySetID', 'vulnerabilityFunctionID',
        'probabilisticDistribution']
VDATA = ['vulnerabilitySetID', 'vulnerabilityFunctionID', 'IML', 'lossRatio',
         'coefficientsVariation']


def cell(i, j):
    return S('x%d%d' % (i, j))


def trow(i):
    return ('tuple',) + tuple(cell(i, j) for j in range(3))


def L(*xs):
    return ('list', tuple(('one', x) for x in xs))


def lrow(i):
    return L(*[cell(i, j) for j in range(3)])


def files(pairs):
    return sorted([n, c] for n, c in pairs)


def run(ctx):
    ctx.rule('write', 'a record goes to <prefix>__<type>.csv of its type, '
             'after the list of field names if and only if headers are '
             'enabled, one row with all its columns in order')
    ctx.rule('read', 'the records of <prefix>__<type>.csv in order; with '
             'headers a wrong first line is an invalid file, found before '
             'any record, at every read')
    ctx.rule('missing', 'a missing file is NotInArchive')
    ctx.rule('round', 'what is written is read back')
    ctx.rule('groups', 'every file group has a manager with its prefix, the '
             'converter of its types, the same archive and header setting')
    ctx.rule('convert', 'records of a node go to files of its name')
    ctx.rule('table', 'create_table reads rows without a header')
    ctx.assumptions.append('files and csv readers and writers behave as the '
                           'models in world.py2, nodes as its Node')
    eng = ctx.engine(stubs=WORLD, recursion=7, prims=dict(
        (cell(i, j), 'str') for i in range(3) for j in range(3)))
    con = C + 'CSVManager.write'
    hs = [{H: h} for h in (True, False)]

    def rows(e, k):
        return [[e[cell(i, j)] for j in range(3)] for i in range(k)]

    def fresh(k, e):
        return dict(e, **{}) | {cell(i, j): 'r%d%d' % (i, j)
                                for i in range(k) for j in range(3)}
    ks = range(4 if ctx.tier == 'thorough' else 3)
    for kind in ('mem', 'zip', 'dir'):
        for prefix in PREFIXES:
            for k in ks:
                for tiny in ('no', 'first', 'between'):
                    def want(e, k=k, prefix=prefix, tiny=tiny):
                        head = [FIELDS] if e[H] else []
                        out = []
                        if k:
                            out.append([prefix + '__Rec.csv',
                                        head + rows(e, k)])
                        n = {'no': 0, 'first': 1, 'between': k}[tiny]
                        if n:
                            out.append([prefix + '__Tiny.csv',
                                        ([['k']] if e[H] else []) +
                                        [['t0']] * n])
                        return 'return', files(out)
                    model(ctx, eng, 'write',
                          '%s to %s files, prefix %r, %d rows, %s' % (
                              con, kind, prefix, k, tiny),
                          'harness.csv_write',
                          [K(kind), K(prefix), H, ('tuple',) + tuple(
                              trow(i) for i in range(k)), K(tiny)],
                          [fresh(k, e) for e in hs], want,
                          cmp=lambda g, w: files(g) == w, shown=con)
    model(ctx, eng, 'write', con + ', headers by default',
          'harness.csv_write_default', [K('vm'), trow(0)], [fresh(1, {})],
          lambda e: ('return', [['vm__Rec.csv', [FIELDS] + rows(e, 1)]]),
          cmp=lambda g, w: files(g) == w, shown=con)
    model(ctx, eng, 'write', con + ', after reading',
          'harness.csv_mixed', [H, ('tuple', trow(0), trow(1))],
          [fresh(2, e) for e in hs],
          lambda e: ('return', [1 if e[H] else 2] + [
              ([FIELDS] if e[H] else []) + rows(e, 2)] * 2),
          cmp=lambda g, w: lists(g) == w, shown=con)
    read(ctx, eng, ks, hs, fresh, rows)
    groups(ctx, eng, hs)


def read(ctx, eng, ks, hs, fresh, rows):
    con = C + 'CSVManager.read'
    for k in ks:
        # the first row equals the header or differs in some columns
        envs = []
        for e in hs:
            e = fresh(k, e)
            envs.append(e)
            for pat in itertools.product((True, False), repeat=3):
                if k:
                    envs.append(dict(e, **{}) | {
                        cell(0, j): FIELDS[j] for j in range(3) if pat[j]})
            if k:
                envs.append(dict(e) | {cell(0, j): FIELDS[2 - j]
                                       for j in range(3)})
                envs.append(dict(e) | {cell(0, j): FIELDS[j].upper()
                                       for j in range(3)})

        def want(e, k=k):
            r = rows(e, k)
            if e[H] and k:
                if r[0] != FIELDS:
                    return 'return', ['InvalidFile', []]
                r = r[1:]
            return 'return', ['ok', r]
        for prefix in PREFIXES:
            for how in ('plain', 'table', 'again', 'entered'):
                if how == 'again' and k == 0:
                    continue

                def want2(e, want=want, how=how):
                    w = want(e)
                    if how == 'again' and w[1][0] == 'ok':
                        return None
                    return w
                model(ctx, eng, 'read', '%s, prefix %r, %d lines, %s' % (
                    con, prefix, k, how), 'harness.csv_read',
                    [K(prefix), H, L(*[lrow(i) for i in range(k)]), K(how)],
                    envs, want2, cmp=lambda g, w, how=how: lists(g) == w or (
                        how == 'again' and lists(g)[1] == []), shown=con)

        def wround(e, k=k):
            return 'return', rows(e, k)
        model(ctx, eng, 'round', '%s, %d rows' % (con, k),
              'harness.csv_round', [K('vm'), H, ('tuple',) + tuple(
                  trow(i) for i in range(k))],
              envs if k else [], wround, shown=con, need=k and 1,
              cmp=lambda g, w: lists(g) == w) if k else None
        model(ctx, eng, 'table', '%screate_table, %d lines' % (C, k),
              'harness.csv_table', [L(*[lrow(i) for i in range(k)])],
              [fresh(k, {})], wround, shown=C + 'create_table',
              cmp=lambda g, w: lists(g) == w)
    # two files read one after the other
    envs = [fresh(2, e) | {cell(0, j): FIELDS[j] for j in range(3)}
            for e in hs]
    model(ctx, eng, 'read', con + ', two types', 'harness.csv_two',
          [K('vm'), H, L(lrow(0), lrow(1)), L(L(K('k')), L(S('z')))],
          [dict(e) | {S('z'): 'z0'} for e in envs],
          lambda e: ('return', [rows(e, 2)[1 if e[H] else 0:],
                                [['k'], ['z0']][1 if e[H] else 0:]]),
          cmp=lambda g, w: lists(g) == w, shown=con)
    short = [fresh(2, e) for e in hs]
    model(ctx, eng, 'read', con + ', short lines', 'harness.csv_read',
          [K('vm'), H, L(L(*map(K, FIELDS)), L(), L(cell(0, 0)),
                         L(cell(1, 0), cell(1, 1))), K('plain')], short,
          lambda e: ('return', ['ok', [FIELDS][1 if e[H] else 0:] + [
              ['', '', ''], [e[cell(0, 0)], '', ''],
              [e[cell(1, 0)], e[cell(1, 1)], '']]]),
          cmp=lambda g, w: lists(g) == w, shown=con)
    for prefix in ('vm', '', 'xx'):
        model(ctx, eng, 'missing', '%s, prefix %r' % (con, prefix),
              'harness.csv_missing', [K(prefix), H], hs,
              lambda e: ('return', 'NotInArchive'), shown=con)


def groups(ctx, eng, hs):
    con = C + 'CSVManager._getmanagers'
    V, X, D, F, G = ('Vulnerability', 'Exposure', 'FragilityDiscrete',
                     'FragilityContinuous', 'GmfCollection')
    for names, want in (
            ([], []),
            (['junk', 'a.csv', 'x__Unknown.csv', 'a__b__Location.csv',
              'y__Location.txt', 'y__Location'], []),
            (['g1__DiscreteVulnerability.csv', 'g2__Location.csv',
              'g1__DiscreteVulnerabilitySet.csv', 'junk'],
             [('g1', V), ('g2', X)]),
            (['A__Location.txt', 'a__Location.csv', 'b__Location.txt',
              'b__Unknown.csv', 'c', 'd__Asset.csv', 'e__f__Asset.csv',
              'e__x', 'f__GmfSet.csv', 'z'],
             [('a', X), ('d', X), ('f', G)]),
            (['a__FFSetDiscrete.csv', 'b__FFSetContinuous.csv',
              'c__GmfData.csv', 'd__Asset.csv'],
             [('a', D), ('b', F), ('c', G), ('d', X)]),
            (['__CostType.csv', 'e__Gmf.csv'], [('', X), ('e', G)])):
        model(ctx, eng, 'groups', '%s for %s' % (con, ', '.join(names)),
              'harness.csv_groups', [L(*map(K, names)), H], hs,
              lambda e, want=want: ('return', sorted(
                  [p, e[H], c, True] for p, c in want)),
              cmp=lambda g, w: sorted(map(list, g)) == w, shown=con)
    con = C + 'CSVManager.convert_from_node'
    data = [['vm__DiscreteVulnerabilitySet.csv', [
        VSET, ['PAGER', 'population', 'fatalities', 'MMI']]],
        ['vm__DiscreteVulnerability.csv', [
            VFUN, ['PAGER', 'IR', 'LN'], ['PAGER', 'PK', 'BT']]],
        ['vm__DiscreteVulnerabilityData.csv', [
            VDATA, ['PAGER', 'IR', '5.00', '0.01', '0.3'],
            ['PAGER', 'IR', '5.50', '0.02', '0.4'],
            ['PAGER', 'PK', '5.00', '0.05', '0.7'],
            ['PAGER', 'PK', '5.50', '0.06', '0.8']]]]
    for how in ('node', 'own prefix', 'nrml'):
        p = 'own' if how == 'own prefix' else 'vm'

        def want(e, p=p):
            return 'return', [files(
                [n.replace('vm__', p + '__'), rs[0 if e[H] else 1:]]
                for n, rs in data), p, e[H], True]
        model(ctx, eng, 'convert', '%s, %s' % (con, how),
              'harness.csv_from_node',
              [NONE if how == 'own prefix' else K('vm'), H,
               K(how != 'nrml')], hs, want, shown=con,
              cmp=lambda g, w: [files(lists(g[0]))] + list(g[1:]) == w)
    con = C + 'CSVManager.get_tableset'
    fs = L(*[('tuple', K(n), L(*[L(*map(K, r)) for r in rs]))
             for n, rs in data])
    nohead = L(*[('tuple', K(n), L(*[L(*map(K, r)) for r in rs[1:]]))
                 for n, rs in data])
    model(ctx, eng, 'convert', con + ' with headers',
          'harness.csv_to_node', [TRUE, fs], [{}],
          lambda e: ('return', VULN), cmp=lambda g, w: lists(g) == w,
          shown=con)
    model(ctx, eng, 'convert', con + ' without headers',
          'harness.csv_to_node', [FALSE, nohead], [{}],
          lambda e: ('return', VULN), cmp=lambda g, w: lists(g) == w,
          shown=con)


def vf(fid, dist, ratios, coeffs):
    return ['discreteVulnerability', dict(
        vulnerabilityFunctionID=fid, probabilisticDistribution=dist), None,
        [['lossRatio', {}, ratios, []],
         ['coefficientsVariation', {}, coeffs, []]]]


VULN = ['vulnerabilityModel', {}, None, [
    ['discreteVulnerabilitySet', dict(
        vulnerabilitySetID='PAGER', assetCategory='population',
        lossCategory='fatalities'), None, [
            ['IML', dict(IMT='MMI'), '5.00 5.50', []],
            vf('IR', 'LN', '0.01 0.02', '0.3 0.4'),
            vf('PK', 'BT', '0.05 0.06', '0.7 0.8')]]]]


def lists(v):
    return [lists(x) for x in v] if isinstance(v, (list, tuple)) else v
