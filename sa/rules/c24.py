"""C24: requested validation is never bypassed and always reports its place."""
import os
from rules.common import *
from rules.c21 import t
from rules.c23 import W
from terms import K

V = 'openquake.commonlib.logictree.'
MODELS = [('m1.xml', [('areaSource', 's1', 'T0'), ('pointSource', 's2', 'T0'),
                      ('simpleFaultSource', 's3', 'T1')]),
          ('m2.xml', [('complexFaultSource', 's4', 'T2'),
                      ('characteristicFaultSource', 's5', 'T0')])]
TREE = 'applyToTectonicRegionType'
TYPE = 'applyToSourceType'
IDS = 'applyToSources'


def bset(utype, ids, values, **attrs):
    d = {'uncertaintyType': utype}
    d.update(attrs)
    return d, list(zip(ids, W[len(ids)], values))


def first(ids='ab', values=('m1.xml', 'm2.xml'), **attrs):
    return bset('sourceModel', ids, values, **attrs)


def bgr(ids='c', values=('1',), **attrs):
    return bset('bGRRelative', ids, values, **attrs)


def source_documents():
    """(rule, levels, line of the violation or None, parses unvalidated)"""
    two = lambda s: [[first()], [s]]
    # the position and the type of the branch sets
    yield 'one model', [[first('a', ['m1.xml'])]], None, True
    yield 'two models', [[first()]], None, True
    for ut in ('bGRRelative', 'maxMagGRRelative', 'maxMagGRAbsolute'):
        yield 'first level of type ' + ut, [[bset(ut, 'a', ['1'])]], 1000, \
            True
    yield 'first level of type gmpeModel', [
        [bset('gmpeModel', 'a', ['1'])]], 1000, True
    yield 'two sets in the first level', [
        [first('a', ['m1.xml']), first('b', ['m2.xml'])]], 1100, True
    yield 'two sets in the first level', [
        [first('a', ['m1.xml']), bgr('b')]], 1100, True
    for at in ({}, {'applyToBranches': 'a'}):
        yield 'sourceModel in the second level', [
            [first()], [bset('sourceModel', 'c', ['m1.xml'], **at)]], 2000, \
            True
        yield 'gmpeModel in the second level', [
            [first()], [bset('gmpeModel', 'c', ['1'], **at)]], 2000, True
    yield 'sourceModel in the third level', [
        [first()], [bgr()], [bset('sourceModel', 'd', ['m1.xml'])]], 3000, \
        True
    yield 'gmpeModel in a second set', [
        [first()], [bgr('c', ['1'], applyToBranches='a'),
                    bset('gmpeModel', 'd', ['1'], applyToBranches='b')]], \
        2100, True
    # the filters
    for f in ({TREE: 'T0'}, {TYPE: 'area'}, {IDS: 's1'}):
        yield 'filter of a source model', [[first(**f)]], 1000, True
    for ut in ('bGRRelative', 'maxMagGRRelative'):
        for f in ({}, {TREE: 'T0'}, {TREE: 'T1'}, {TREE: 'T2'},
                  {TYPE: 'area'}, {TYPE: 'point'}, {TYPE: 'simpleFault'},
                  {TYPE: 'complexFault'}, {TYPE: 'characteristicFault'},
                  {IDS: 's1'}, {IDS: 's5 s2'}, {IDS: ' s3\n s4 '}):
            yield 'filter %s' % sorted(f.items()), two(
                bset(ut, 'c', ['1'], **f)), None, True
        for f in ({TREE: 'T3'}, {TYPE: 'volcano'}, {TYPE: 'areaSource'},
                  {IDS: 's6'}, {IDS: 's1 s6'}, {IDS: 's6 s1'},
                  {TREE: 'T0', TYPE: 'area'}, {TREE: 'T0', IDS: 's1'},
                  {TYPE: 'area', IDS: 's1'},
                  {TYPE: 'area', IDS: 's1', TREE: 'T0'}):
            yield 'filter %s' % sorted(f.items()), two(
                bset(ut, 'c', ['1'], **f)), 2000, True
    # only the sources of the models read so far exist
    yield 'source of an unused model', [
        [first('a', ['m1.xml'])], [bgr(**{IDS: 's4'})]], 2000, True
    yield 'type of an unused model', [
        [first('a', ['m1.xml'])], [bgr(**{TYPE: 'complexFault'})]], 2000, \
        True
    yield 'region of an unused model', [
        [first('a', ['m1.xml'])], [bgr(**{TREE: 'T2'})]], 2000, True
    for ut, val in (('abGRAbsolute', '1 2'), ('maxMagGRAbsolute', '7')):
        for s in ('s1', 's4', ' s5 '):
            yield 'one source', two(bset(ut, 'c', [val], **{IDS: s})), None, \
                True
        for f in ({}, {IDS: 's1 s2'}, {TREE: 'T0'}, {TYPE: 'area'},
                  {IDS: 's6'}, {IDS: 's1', TREE: 'T0'}):
            yield 'filter %s of %s' % (sorted(f.items()), ut), two(
                bset(ut, 'c', [val], **f)), 2000, True
    # the values
    for ut in ('bGRRelative', 'maxMagGRRelative', 'maxMagGRAbsolute'):
        f = {IDS: 's1'} if ut[-1] == 'e' and 'Abs' in ut else {}
        for v in ('1', '-0.5', '+7.25', '.5', ' 6.5\n', '0'):
            yield 'value %r' % v, two(bset(ut, 'c', [v], **f)), None, True
        for v in ('x', '', '1 2', '1,2', '--1', '0x1'):
            yield 'value %r' % v, two(bset(ut, 'c', [v], **f)), 2011, False
        yield 'second value', two(bset(ut, 'cd', ['1', 'x'], **f)), 2021, \
            False
    for v in ('1 2', '-0.5  +.5', ' 4\n1 '):
        yield 'value %r' % v, two(bset('abGRAbsolute', 'c', [v], **{
            IDS: 's1'})), None, True
    for v in ('1', '1 2 3', 'x 1', '1 x', '', '1;2'):
        yield 'value %r' % v, two(bset('abGRAbsolute', 'c', [v], **{
            IDS: 's1'})), 2011, False
    yield 'value in the third level', [
        [first()], [bgr()], [bgr('d', ['y'])]], 3011, False


def gmpe(ids, region, utype='gmpeModel', values=('GsimA', 'GsimB', 'GsimC'),
         **attrs):
    if region:
        attrs[TREE] = region
    return bset(utype, ids, values, **attrs)


def gmpe_documents():
    """the same, with the requested regions"""
    yield 'one level', [[gmpe('a', 'T0')]], None, True, ['T0']
    yield 'two levels', [[gmpe('ab', 'T0')], [gmpe('cde', 'T1')]], None, \
        True, ['T1', 'T0']
    yield 'another region', [[gmpe('ab', 'T0')], [gmpe('c', 'Z')]], None, \
        True, ['T0']
    for ut in ('sourceModel', 'bGRRelative', 'abGRAbsolute'):
        yield 'type', [[gmpe('a', 'T0', ut)]], 1000, True, ['T0']
        yield 'type', [[gmpe('a', 'T0')], [gmpe('b', 'T1', ut)]], 2000, \
            True, ['T0', 'T1']
    yield 'two sets', [[gmpe('a', 'T0'), gmpe('b', 'T1')]], 1100, None, \
        ['T0', 'T1']
    yield 'two sets', [[gmpe('a', 'T0')], [gmpe('b', 'T1'),
                                          gmpe('c', 'T2')]], 2100, None, \
        ['T0', 'T1', 'T2']
    yield 'no filter', [[gmpe('a', None)]], 1000, True, ['T0']
    yield 'no filter', [[gmpe('b', 'T0')], [gmpe('a', None)]], 2000, True, \
        ['T0']
    yield 'other filter', [[gmpe('a', None, **{IDS: 's1'})]], 1000, True, \
        ['T0']
    for f in ({IDS: 's1'}, {TYPE: 'area'}, {IDS: 's', TYPE: 'area'}):
        yield 'two filters', [[gmpe('a', 'T0', **f)]], 1000, True, ['T0']
    yield 'region twice', [[gmpe('a', 'T0')], [gmpe('b', 'T0')]], 2000, \
        True, ['T0']
    yield 'region twice', [[gmpe('a', 'T0')], [gmpe('b', 'T1')],
                           [gmpe('c', 'T0')]], 3000, True, ['T0', 'T1']
    yield 'missing region', [[gmpe('a', 'T0')]], 2, True, ['T0', 'T1']
    yield 'missing region', [[gmpe('a', 'T0')], [gmpe('b', 'T1')]], 2, \
        True, ['T2', 'T0', 'T1']
    yield 'missing region', [[gmpe('a', 'Z')]], 2, True, ['T0']
    yield 'unknown GSIM', [[gmpe('a', 'T0', values=['GsimX'])]], 1011, \
        False, ['T0']
    yield 'unknown GSIM', [[gmpe('abc', 'T0', values=[
        'GsimA', 'gsimA', 'GsimB'])]], 1021, False, ['T0']
    yield 'unknown GSIM', [[gmpe('a', 'T0')], [gmpe(
        'b', 'T1', values=[''])]], 2011, False, ['T0', 'T1']


def run(ctx):
    ctx.rule('rules', 'each documented rule is enforced, the error naming '
             'the line of the node, the file and the base path; trees '
             'obeying the rules are accepted')
    ctx.rule('off', 'without validation the rules are not checked and no '
             'source model is read')
    ctx.rule('read', 'unreadable files are reported as such')
    ctx.rule('schema', 'what the NRML schema refuses is reported as '
             'unreadable: the tree itself, whatever `validate` is, and the '
             'source models which are read')
    ctx.rule('text', 'the error can be shown, with its message, file, base '
             'path and line')
    ctx.assumptions.append('elements behave as in models.py2')
    eng = ctx.engine(stubs=WORLD, recursion=9, real=REAL, UNROLL=60)
    docs = [('source',) + d + ((),) for d in source_documents()] + [
        ('gmpe',) + d for d in gmpe_documents()]
    seen = set()
    for kind, rule, levels, line, parses, regions in docs:
        con = V + {'source': 'SourceModelLogicTree',
                   'gmpe': 'GMPELogicTree'}[kind]
        lv = [[(tuple(sorted(at.items())), bs) for at, bs in l]
              for l in levels]
        label = '%s, %s: %s' % (con, rule.replace('\n', ' '), ' / '.join(
            ' + '.join('%s %s' % (at['uncertaintyType'], ', '.join(
                repr(b[2]) for b in bs)) for at, bs in l) for l in levels))

        def accepted(g, w):
            return g is None or len(g) == 3 and g[0] not in (
                'invalid', 'unreadable')
        args = [K(kind), t(lv), K(True), t(MODELS), t(regions)]
        if line is None:
            model(ctx, eng, 'rules', label, 'harness.lt_parse', args, [{}],
                  lambda e: ('return', 'a tree'), shown=con, cmp=accepted)
        else:
            want = ('invalid', line, 'lt.xml', '/base')
            model(ctx, eng, 'rules', label, 'harness.lt_parse', args, [{}],
                  lambda e: ('return', want), shown=con)
            if rule not in seen:
                seen.add(rule)
                model(ctx, eng, 'text', label, 'harness.lt_message',
                      [K(kind), t(lv), t(MODELS), t(regions)], [{}],
                      lambda e: ('return', 'a text'), shown=con,
                      cmp=lambda g, w: isinstance(g, str) and all(
                          x in g for x in ('/base', 'lt.xml', str(line)))
                      and len(g.split(': ', 1)[-1]) > 5)
        if parses:
            # no model is at hand
            model(ctx, eng, 'off', label, 'harness.lt_parse',
                  [K(kind), t(lv), K(False), t([]), t([
                      r for r in regions])], [{}],
                  lambda e: ('return', 'a tree'), shown=con, cmp=accepted)
    for kind in ('source', 'gmpe'):
        con = V + {'source': 'SourceModelLogicTree',
                   'gmpe': 'GMPELogicTree'}[kind]
        for validate in (True, False):
            model(ctx, eng, 'read', '%s, not XML, validate=%s' % (
                con, validate), 'harness.lt_parse',
                [K(kind), K(None), K(validate), t([]), t(['T0'])], [{}],
                lambda e: ('return', ('unreadable', 'lt.xml', '/base')),
                shown=con)
    for kind in ('source', 'gmpe'):
        con = V + {'source': 'SourceModelLogicTree',
                   'gmpe': 'GMPELogicTree'}[kind]
        levels, regions = [(d[2], d[5]) for d in docs
                           if d[0] == kind and d[3] is None][0]
        lv = [[(tuple(sorted(at.items())), bs) for at, bs in l]
              for l in levels]
        for validate in (True, False):
            for name, fails in (('the content', True), (
                    '/base/m1.xml', validate and kind == 'source')):
                model(ctx, eng, 'schema', '%s, the schema refuses %s, '
                      'validate=%s' % (con, name, validate),
                      'harness.lt_refused',
                      [K(kind), t(lv), K(validate), t(MODELS), t(regions),
                       K(name)], [{}],
                      lambda e: ('return', ('unreadable', os.path.basename(
                          name) if name[0] == '/' else 'lt.xml', '/base')
                          if fails else 'a tree'), shown=con,
                      cmp=(lambda g, w: g == w) if fails else accepted)
    con = V + 'SourceModelLogicTree'
    for i, name in enumerate(('m1.xml', 'm2.xml')):
        for what in ('missing', 'bad'):
            files = [m for m in MODELS if m[0] != name]
            if what == 'bad':
                files.append((name, None))
            lv = [[(tuple(sorted(at.items())), bs) for at, bs in l]
                  for l in [[first()]]]
            model(ctx, eng, 'read', '%s, %s %s' % (con, name, what),
                  'harness.lt_parse', [K('source'), t(lv), K(True),
                                       t(files), t([])], [{}],
                  lambda e: ('return', ('unreadable', name, '/base')),
                  shown=con)
