"""C13: invalid CSV data stops the conversion and is fully reported."""
import itertools
import re
from rules.common import *
from rules.c10 import L, lists
from terms import K

C = 'openquake.commonlib.csvmanager.CSVManager'
c = [S('c%d' % i) for i in range(5)]
GOOD, BAD = '1', 'x'


def F(name, *rows):
    return ('tuple', K(name), L(*[
        L(*[x if type(x) is tuple else K(x) for x in r]) for r in rows]))


def groups(header):
    """two groups, five cells which may be invalid"""
    h = 1 if header else 0
    head = lambda *names: [names] * h
    return L(
        F('readme.txt', ['x']),
        F('h__GmfSet.csv', *head(
            'stochasticEventSetId', 'investigationTime') + [('1', c[0])]),
        F('h__GmfData.csv', *head(
            'stochasticEventSetId', 'imtStr', 'ruptureId', 'lon', 'lat',
            'gmv') + [('1', 'PGA', 'r', '1', '2', '3'),
                      ('1', 'PGA', 'r', c[1], '3', '4'),
                      ('1', 'PGA', 'r', c[2], '4', c[2])]),
        F('g__FFSetContinuous.csv', *head(
            'ordinal', 'taxonomy', 'noDamageLimit', 'type', 'IMT', 'imlUnit',
            'minIML', 'maxIML') + [
                ('1', 't', '', '', 'PGA', 'g', '0.1', c[3])]),
        F('g__FFDataContinuous.csv', *head(
            'limitState', 'ffs_ordinal', 'param', 'value') + [
            ('ls', '1', 'mean', '0.2'), ('ls', '1', 'stddev', c[4])]))


def invalid(e):
    v = [e[x] == BAD for x in c]
    out = []
    if v[0]:
        out.append(['h__GmfSet.csv', 0, '1', ['investigationTime']])
    if v[1]:
        out.append(['h__GmfData.csv', 1, '1', ['lon']])
    if v[2]:
        out.append(['h__GmfData.csv', 2, '1', ['lon', 'gmv']])
    if v[3]:
        out.append(['g__FFSetContinuous.csv', 0, '1', ['maxIML']])
    if v[4]:
        out.append(['g__FFDataContinuous.csv', 1, 'ls', ['value']])
    return out


def run(ctx):
    ctx.rule('search', 'the search finds every invalid record of every file '
             'of every group, with its file, row and columns; with a limit '
             'at most that many of them')
    ctx.rule('stop', 'the script exits with a failure, and writes no XML, '
             'if any record of any group is invalid')
    ctx.rule('report', 'the script prints every problem it found')
    ctx.assumptions.append('files, directories and zip files behave as the '
                           'models in world.py2')
    eng = ctx.engine(stubs=WORLD, recursion=7, prims={x: 'str' for x in c})
    envs = [dict(zip(c, v)) for v in itertools.product((GOOD, BAD), repeat=5)]
    con = C + '.find_invalid'
    for kind in ('dir', 'zip'):
        for header in (True, False):
            for limit in ('default', None, 1, 2, 3, 10):
                def good(g, w, limit=limit):
                    g = lists(g)
                    n = len(w) if limit in ('default', None) else \
                        min(limit, len(w))
                    return len(g) == n and all(x in w for x in g) and \
                        all(x not in g[:i] for i, x in enumerate(g))
                model(ctx, eng, 'search', '%s, %s, header %s, limit %s' % (
                    con, kind, header, limit), 'harness.csv_invalid',
                    [K(kind), groups(header), K(header), K(limit)], envs,
                    lambda e: ('return', invalid(e)), cmp=good, shown=con)
    rows = L(*[L(K('1'), x) for x in c[:3]])
    model(ctx, eng, 'search', 'openquake.commonlib.record.find_invalid',
          'harness.row_invalid', [rows], envs,
          lambda e: ('return', [[i, '1'] for i in range(3)
                                if e[c[i]] == BAD]),
          cmp=lambda g, w: lists(g) == w)
    shown(ctx, eng)
    script(ctx, eng, envs)


def shown(ctx, eng):
    """the text of each problem"""
    head = ['stochasticEventSetId', 'imtStr', 'ruptureId', 'lon', 'lat',
            'gmv']
    rows = [['1', 'PGA', 'r', '0', '0', '1'], ['x1', 'PGA', 'r', '0', 'x2',
                                               'x3'],
            ['2', 'PGA', 'r', '1', '0', '1'], ['3', 'PGA', 'r', '1', 'x4',
                                               '1']]
    bad = [(i, [(j, c) for j, c in enumerate(r) if c[0] == 'x'])
           for i, r in enumerate(rows) if any(c[0] == 'x' for c in r)]
    name = 'g__GmfData.csv'
    for fn, where, args in (
            ('csv_texts', name, [K(name), L(L(*map(K, head)), *[
                L(*map(K, r)) for r in rows])]),
            ('row_texts', 'GmfData', [L(*[L(*map(K, r)) for r in rows])])):
        def names(g, w, where=where):
            g = lists(g)
            if len(g) != len(bad):
                return False
            for text, (i, cells) in zip(g, bad):
                ls = text.split('\n')
                if len(ls) != len(cells):
                    return False
                for l, (j, c) in zip(ls, cells):
                    # the place, then the reason
                    if not (where in l and head[j] in l) or [
                            int(x) for x in re.findall(
                                r'(?<!\w)\d+(?!\w)', l)][:2] != [i, j] or \
                            not l.rstrip()[-1:].isalpha():
                        return False
            return True
        model(ctx, eng, 'report', 'InvalidRecord.__str__ (%s)' % fn,
              'harness.' + fn, args, [{}],
              lambda e: ('return', 'the places'), cmp=names,
              shown='openquake.commonlib.record.InvalidRecord.__str__')


def printed(p, env):
    """the number of problems printed"""
    return sum(1 for e in p.ev if e.kind == 'print' and any(
        x[0] == 'obj' and x[1].endswith('InvalidRecord')
        for x in (e.res[2] if type(e.res) is tuple and len(e.res) > 2
                  else e.args or ())))


def script(ctx, eng, envs):
    con = 'bin.NRMLconvert.main'
    for kind in ('dir', 'zip'):
        for output in (None, 'out', 'out.zip'):
            for limit in (None, 1, '2'):
                def want(e):
                    return ('return', len(invalid(e))) if invalid(e) else None

                def good(g, w):
                    return lists(g[0]) == ['failure', []]

                def shown(g, w, limit=limit):
                    return g[1] == (w if limit is None else
                                    min(int(limit), w))
                for rule, cmp in (('stop', good), ('report', shown)):
                    model(ctx, eng, rule, '%s, %s to %s, limit %s' % (
                        con, kind, output, limit), 'harness.script',
                        [K(kind), groups(True), K(output), K(limit)], envs,
                        want, cmp=cmp, shown=con,
                        value=lambda p, e: (evalt.ev(p.value, e),
                                            printed(p, e)))
            # a complete valid group is converted
            ok = L(
                F('vm__DiscreteVulnerabilitySet.csv', [
                    'vulnerabilitySetID', 'assetCategory', 'lossCategory',
                    'IMT'], ['P', 'population', 'fatalities', 'MMI']),
                F('vm__DiscreteVulnerability.csv', [
                    'vulnerabilitySetID', 'vulnerabilityFunctionID',
                    'probabilisticDistribution'], ['P', 'IR', 'LN']),
                F('vm__DiscreteVulnerabilityData.csv', [
                    'vulnerabilitySetID', 'vulnerabilityFunctionID', 'IML',
                    'lossRatio', 'coefficientsVariation'],
                  ['P', 'IR', '5.0', c[0], '0.3'],
                  ['P', 'IR', '6.0', '0.2', c[1]]))
            here = 'd.zip:vm.xml' if kind == 'zip' else 'd/vm.xml'
            where = {None: here, 'out': 'out/vm.xml',
                     'out.zip': 'out.zip:vm.xml'}[output]
            few = [dict(zip(c, v)) for v in itertools.product(
                ('0.1', BAD), repeat=2)]
            model(ctx, eng, 'stop', '%s, %s to %s, one group' % (
                con, kind, output), 'harness.script',
                [K(kind), ok, K(output), NONE], few,
                lambda e, where=where: ('return', ['failure', []] if BAD in
                                        (e[c[0]], e[c[1]])
                                        else ['done', [where]]),
                cmp=lambda g, w: lists(g) == w, shown=con)
