"""C43: the conversions between XML and CSV files are complete."""
import itertools
from rules.common import *
from rules.c10 import L, lists, files, VSET, VFUN, VDATA
from rules.c13 import printed
from terms import K

C = 'openquake.commonlib.csvmanager.CSVManager'
MAIN = 'bin.NRMLconvert.main'
SET = ['PAGER', 'population', 'fatalities', 'MMI']


def tables(prefix, ratios):
    return [[prefix + '__DiscreteVulnerabilitySet.csv', [VSET, SET]],
            [prefix + '__DiscreteVulnerability.csv', [
                VFUN, ['PAGER', 'IR', 'LN']]],
            [prefix + '__DiscreteVulnerabilityData.csv', [VDATA] + [
                ['PAGER', 'IR', iml, r, cv] for iml, r, cv in zip(
                    ['5.00', '5.50'], ratios.split(), ['0.3', '0.4'])]]]


def node(ratios):
    return ['vulnerabilityModel', {}, None, [
        ['discreteVulnerabilitySet', dict(
            vulnerabilitySetID='PAGER', assetCategory='population',
            lossCategory='fatalities'), None, [
                ['IML', dict(IMT='MMI'), '5.00 5.50', []],
                ['discreteVulnerability', dict(
                    vulnerabilityFunctionID='IR',
                    probabilisticDistribution='LN'), None, [
                        ['lossRatio', {}, ratios, []],
                        ['coefficientsVariation', {}, '0.3 0.4', []]]]]]]]


def given(tabs):
    return L(*[('tuple', K(n), L(*[L(*map(K, r)) for r in rs]))
               for n, rs in tabs])


def run(ctx):
    ctx.rule('csv', 'from an XML file the script writes into the output '
             'directory or zip file exactly the CSV files of its records, '
             'named after the XML file, and closes them')
    ctx.rule('refused', 'without an output the script fails and writes '
             'nothing')
    ctx.rule('invalid', 'the invalid records among those written are '
             'printed, up to the limit, and the script fails')
    ctx.rule('xml', 'from CSV files the script writes one XML file with '
             'the node of their records, in the output or in place, and '
             'leaves the CSV files as they were')
    ctx.rule('single', 'the files of an archive which are not one group '
             'are refused')
    ctx.rule('file', 'an XML file with one model gives the converter of '
             'its content')
    ctx.assumptions.append('files, directories and zip files behave as the '
                           'models in world.py2; the reader and writer of '
                           'nrmllib give and take the nodes of a file')
    eng = ctx.engine(stubs=WORLD, recursion=9)
    from_xml(ctx, eng)
    to_xml(ctx, eng)
    con = C + '._getconverter'
    for names, want in (
            ([], 'NotInArchive'), (['a.csv'], 'NotInArchive'),
            (['x__Rec.csv'], 'NotInArchive'),
            (['x__GmfSet.txt'], 'NotInArchive'),
            (['x__GmfSet.csv', 'y__GmfData.csv'], 'MultipleManagerError'),
            (['x__GmfSet.csv', 'x__GmfData.csv'], 'done'),
            (['x__GmfSet.csv', 'x.xml', 'readme'], 'done'),
            (['x__GmfSet.csv', 'a__b__c.csv'], 'done')):
        for how in ('tables', 'node'):
            if how == 'node' and want == 'done':
                continue
            model(ctx, eng, 'single', '%s for %s (%s)' % (
                con, ', '.join(names) or 'no files', how),
                'harness.no_group', [L(*map(K, names)), K(how)], [{}],
                lambda e: ('return', want), shown=con)
    con = 'openquake.commonlib.converter.Converter.from_nrml'
    for n in (1, 0, 2):
        model(ctx, eng, 'file', '%s, %d models' % (con, n),
              'harness.from_file', [K(n)], [{}],
              lambda e: ('return', ['Vulnerability', node('0.1 0.2')]
                         if n == 1 else 'ValueError'), shown=con,
              cmp=lambda g, w: lists(g) == w)


def from_xml(ctx, eng):
    for path, prefix in (('/in/vm.xml', 'vm'), ('vm.xml', 'vm'),
                         ('a.b/vm.2.xml', 'vm.2'), ('/in.xml/x.xml', 'x')):
        for output, there in (('out', False), ('out', True),
                              ('out.zip', False)):
            sep = '/' if output == 'out' else ':'
            want = files([output + sep + n, rs] for n, rs in
                         tables(prefix, '0.01 0.02'))
            model(ctx, eng, 'csv', '%s, %s to %s%s' % (
                MAIN, path, output, ' (exists)' if there else ''),
                'harness.from_xml', [K(path), K(output), NONE,
                                     K('0.01 0.02'), K(there)], [{}],
                lambda e: ('return', ['done', want, []]), shown=MAIN,
                cmp=lambda g, w: [g[0], files(lists(g[1])),
                                  lists(g[2])] == w)
        model(ctx, eng, 'refused', '%s, %s without output' % (MAIN, path),
              'harness.from_xml', [K(path), NONE, NONE, K('0.01 0.02'),
                                   K(False)], [{}],
              lambda e: ('return', ['failure', [], []]), shown=MAIN,
              cmp=lambda g, w: lists(g) == w)
    for ratios, bad in (('x 0.1', 1), ('0.1 x', 1), ('x y', 2)):
        for output in ('out', 'out.zip'):
            for limit in (None, 1, '5'):
                shown = bad if limit is None else min(bad, int(limit))
                model(ctx, eng, 'invalid', '%s, loss ratios %s to %s, limit '
                      '%s' % (MAIN, ratios, output, limit),
                      'harness.from_xml', [
                          K('/in/vm.xml'), K(output), K(limit), K(ratios),
                          K(False)], [{}],
                      lambda e: ('return', ['failure', shown]), shown=MAIN,
                      value=lambda p, e: [evalt.ev(p.value, e)[0],
                                          printed(p, e)])


def to_xml(ctx, eng):
    tabs = tables('vm', '0.01 0.02')
    here = {'dir': 'd/', 'zip': 'd.zip:'}
    for kind, output, times, there in [
            (k, o, t, there) for k in ('dir', 'zip')
            for o in (None, 'out', 'out.zip', here[k][:-1])
            for t in (1, 2) for there in (False, True)]:
        if times == 2 and (output or kind).endswith('zip') or \
                there and output is None:
            continue     # a zip file keeps both
        where = here[kind] if output is None else \
            output + (':' if output.endswith('.zip') else '/')
        want = files([here[kind] + n, rs] for n, rs in tabs)
        want = sorted(want + [[where + 'vm.xml', [node('0.01 0.02')]]] + [
            [where + 'other', ['x']]] * there)
        model(ctx, eng, 'xml', '%s, %s to %s%s, %d times' % (
            MAIN, kind, output or 'itself',
            ' (has another file)' if there else '', times),
            'harness.to_xml', [K(kind), given(tabs), K(output), K(times),
                               K(there)], [{}],
            lambda e: ('return', want), shown=MAIN,
            cmp=lambda g, w: sorted(lists(g)) == w)
    con = C + '.convert_to_nrml'
    for header in (True, False):
        fs = [[n, rs if header else rs[1:]] for n, rs in tabs]
        for other in (True, False):
            want = [['vm.xml', [node('0.01 0.02')]]]
            want = sorted(want if other else want + fs)
            model(ctx, eng, 'xml', '%s, header %s, %s' % (
                con, header, 'to another archive' if other else 'in place'),
                'harness.in_place', [K(header), given(fs), K(other)], [{}],
                lambda e: ('return', [['vm.xml'], want]), shown=con,
                cmp=lambda g, w: [lists(g[0]), sorted(lists(g[1]))] == w)
