"""C09: NRML to records and back preserves every mapped value."""
import itertools
from rules.common import *
from rules.c10 import lists
from terms import K

V = 'openquake.commonlib.converter.'


ODD = ['0', '0.0', '1e-3', '1E+05', '7', '+0.5', '100000000', '.5', '1.']
PLACES = [('10', '20'), ('11', '21'), ('10', '21'), ('20', '10'),
          ('-10', '20'), ('10', '-20')]


class Doc(object):
    """builds documents whose values are all different"""
    odd = False

    def __init__(self):
        self.n = 0
        self.env = {}

    def key(self):
        """a number, as text, different from the others"""
        self.n += 1
        return '%d.5' % self.n

    def num(self):
        """a number, as text"""
        if self.odd:
            self.n += 1
            return ODD[self.n % len(ODD)]
        return self.key()

    def prob(self):
        self.n += 1
        return '0.%03d' % self.n

    def word(self, w):
        self.n += 1
        return '%s%d' % (w, self.n)

    def opt(self, kind):
        """an optional attribute: None, a value, or a symbol of a value"""
        if kind is None or not kind.startswith('?'):
            return kind
        kind = kind[1:]
        self.n += 1
        s = S('v%d' % self.n)
        self.env[s] = kind
        return s


def N(tag, attrib=(), text=None, nodes=()):
    return tag, tuple((k, v) for k, v in dict(attrib).items()
                      if v is not None), text, tuple(nodes)


def term(x):
    if type(x) is tuple and x and x[0] == 's':
        return x
    if type(x) is tuple:
        return ('tuple',) + tuple(term(y) for y in x)
    return K(x)


def value(spec, env):
    tag, attrib, text, nodes = spec
    return [tag, {k: env[v] if type(v) is tuple else v for k, v in attrib},
            text, [value(n, env) for n in nodes]]


def vulnerability(shape):
    d = Doc()
    sets = []
    for nf, ni in shape:
        fns = []
        for i in range(nf):
            fns.append(N('discreteVulnerability', dict(
                vulnerabilityFunctionID='F%d' % i,
                probabilisticDistribution=d.word('dist')), nodes=[
                N('lossRatio', text=' '.join(d.num() for _ in range(ni))),
                N('coefficientsVariation',
                  text=' '.join(d.num() for _ in range(ni)))]))
        sets.append(N('discreteVulnerabilitySet', dict(
            vulnerabilitySetID='set%d' % len(sets),
            assetCategory=d.word('cat'), lossCategory=d.word('loss')),
            nodes=[N('IML', dict(IMT=d.word('imt')), ' '.join(
                d.key() for _ in range(ni)))] + fns))
    return N('vulnerabilityModel', nodes=sets), d


def fragility(fmt, nls, nffs, ndl, typ, ni):
    d = Doc()
    states = [d.word('ls') for _ in range(nls)]
    ffs = []
    for i in range(nffs):
        kids = [N('taxonomy', text=d.word('tax'))]
        attrib = dict(noDamageLimit=d.opt(ndl[i % len(ndl)]))
        if fmt == 'discrete':
            kids.append(N('IML', dict(IMT=d.word('imt'),
                                      imlUnit=d.word('unit')),
                          ' '.join(d.key() for _ in range(ni))))
            kids.extend(N('ffd', dict(ls=ls), nodes=[N('poEs', text=' '.join(
                d.prob() for _ in range(ni)))]) for ls in states)
        else:
            attrib['type'] = d.opt(typ[i % len(typ)])
            kids.append(N('IML', dict(IMT=d.word('imt'),
                                      imlUnit=d.word('unit'), minIML=d.num(),
                                      maxIML=d.num())))
            kids.extend(N('ffc', dict(ls=ls), nodes=[N('params', dict(
                mean=d.num(), stddev=d.num()))]) for ls in states)
        ffs.append(N('ffs', attrib, nodes=kids))
    return N('fragilityModel', dict(format=fmt), nodes=[
        N('description', text='the description'),
        N('limitStates', text=' '.join(states))] + ffs), d


def exposure(category, area, costtypes, assets, places):
    """costtypes: for each one the optional type and unit; assets: for each
    one the optional area, the costs (optional values) and the periods"""
    d = Doc()
    kids = [N('description', text='the description')]
    conv = []
    if area:
        conv.append(N('area', dict(type='per_asset', unit=d.word('unit'))))
    names = []
    if category == 'buildings':
        cts = []
        for rt, ru in costtypes:
            names.append(d.word('cost'))
            cts.append(N('costType', dict(
                name=names[-1], type=d.word('type'), unit=d.word('unit'),
                retrofittedType=d.opt(rt), retrofittedUnit=d.opt(ru))))
        conv.append(N('costTypes', nodes=cts))
        conv.append(N('deductible', dict(isAbsolute=d.word('ded'))))
        conv.append(N('insuranceLimit', dict(isAbsolute=d.word('ins'))))
    if conv:
        kids.append(N('conversions', nodes=conv))
    out = []
    for i, (ar, costs, periods) in enumerate(assets):
        lon, lat = PLACES[places[i]]
        sub = [N('location', dict(lon=lon, lat=lat))]
        cs = [N('cost', dict(type=t, value=d.num(), retrofitted=d.opt(c[0]),
                             deductible=d.opt(c[1]),
                             insuranceLimit=d.opt(c[2])))
              for t, c in zip(names, costs) if c is not None]
        if cs:
            sub.append(N('costs', nodes=cs))
        os = [N('occupancy', dict(period=p, occupants=d.num()))
              for p in periods]
        if os:
            sub.append(N('occupancies', nodes=os))
        out.append(N('asset', dict(
            id='asset%d' % i, taxonomy=d.word('tax'), number=d.num(),
            area=d.opt(ar)), nodes=sub))
    kids.append(N('assets', nodes=out))
    return N('exposureModel', dict(id='exp', category=category,
                                   taxonomySource='source'), nodes=kids), d


def gmf(kind, shape, imts):
    """shape: for each set the numbers of nodes of its fields"""
    d = Doc()
    sets = []
    for i, fields in enumerate(shape):
        gmfs = []
        for j, nn in enumerate(fields):
            imt = imts[j % len(imts)]
            attr = dict(IMT='SA', saPeriod=imt[3:-1], saDamping='5') \
                if imt.startswith('SA') else dict(IMT=imt)
            if kind == 'collection':
                attr['ruptureId'] = 'rup%d' % (j // 2)
            gmfs.append(N('gmf', attr, nodes=[N('node', dict(
                lon=d.key(), lat=d.key(), gmv=d.num()))
                for _ in range(nn)]))
        sets.append(N('gmfSet', dict(
            stochasticEventSetId='%d' % (i + 1), investigationTime=d.num())
            if kind == 'collection' else (), nodes=gmfs))
    if kind == 'set':
        return sets[0], d
    return N('gmfCollection', dict(sourceModelTreePath='b1|b2',
                                   gsimTreePath='b3'), nodes=sets), d


def padded(node, pad):
    """the same document with other blanks in its texts"""
    tag, attrib, text, nodes = node
    if text is not None:
        text = pad[0] + pad[1].join(text.split()) + pad[2]
    return tag, attrib, text, tuple(padded(n, pad) for n in nodes)


PADS = [('\n  ', ' ', '\n '), ('', ' ', ' '), (' ', ' ', ''),
        ('\t', '  ', '\n'), ('', '\n', '')]


def single(spec):
    """with one blank between the words"""
    return padded(spec, ('', ' ', ''))


def functions(spec):
    """the numbers of each function of a model"""
    nums = lambda n: [float(x) for x in n[2].split()]
    for s in spec[3]:
        iml = [n for n in s[3] if n[0] == 'IML']
        for f in s[3]:
            if f[0] == 'discreteVulnerability':
                yield nums(iml[0]) + [x for n in f[3] for x in nums(n)]
            elif f[0] == 'ffd':
                yield nums(iml[0]) + nums(f[3][0])
            elif f[0] == 'ffc':
                yield [float(x) for x in dict(f[3][0][1]).values()]


def numbers(x):
    if isinstance(x, (list, tuple)):
        return [n for y in x for n in numbers(y)]
    if isinstance(x, dict):
        return numbers(list(x.values()))
    return [x] if isinstance(x, (int, float)) else []


def inner(n):
    """one blank between the words, when there is none around them"""
    x = n[2]
    if isinstance(x, str) and x == x.strip():
        x = ' '.join(x.split())
    return [n[0], n[1], x, [inner(m) for m in n[3]]]


def entries(spec):
    """the records for the limit states, or for the fields"""
    tag, attrib, text, nodes = spec
    if tag == 'fragilityModel':
        name = 'FFLimitState' + dict(attrib)['format'].title()
        return [name], [(name, [ls]) for n in nodes if n[0] == 'limitStates'
                        for ls in n[2].split()]
    out = []
    for s in nodes if tag == 'gmfCollection' else [spec]:
        for g in s[3]:
            at = dict(g[1])
            imt = at['IMT'] + ('(%s)' % at['saPeriod']
                               if 'saPeriod' in at else '')
            out.append(('Gmf', [dict(s[1]).get('stochasticEventSetId', '0'),
                                imt, at.get('ruptureId', '')]))
    return ['Gmf'], out


def same(g, w):
    """equal up to the damping, which is a constant of the format"""
    def drop(n):
        return [n[0], {k: v for k, v in n[1].items() if k != 'saDamping'},
                n[2], [drop(x) for x in n[3]]]
    try:
        return drop(lists(g)) == drop(w)
    except (TypeError, IndexError, AttributeError):
        return False


def documents(deep):
    for shape in ([(1, 1)], [(1, 2)], [(2, 2)], [(2, 3), (1, 2)],
                  [(1, 1), (2, 2)], [(1, 2), (1, 2)]):
        yield 'Vulnerability', shape, vulnerability(shape)
    opts = (None, '0', '0.05')
    for nls, nffs, ni in ((1, 1, 1), (2, 1, 2), (2, 2, 1), (3, 2, 2),
                          (1, 3, 2)):
        for ndl in itertools.product(opts, repeat=min(nffs, 2)):
            yield 'FragilityDiscrete', (nls, nffs, ni, ndl), fragility(
                'discrete', nls, nffs, ndl, (None,), ni)
            for typ in ((None,), ('lognormal',), ('lognormal', None)):
                if ni == 1 or deep:
                    yield 'FragilityContinuous', (nls, nffs, ndl, typ), \
                        fragility('continuous', nls, nffs, ndl, typ, ni)
    for fmt in ('discrete', 'continuous'):
        yield 'Fragility' + fmt.title(), 'any limit', fragility(
            fmt, 1, 1, ('?0.05',), ('?lognormal',), 1)
    for i in range(3):
        cost = tuple('?0' if j == i else '3' for j in range(3))
        yield 'Exposure', ('any', i), exposure(
            'buildings', i == 0, ((None, None),),
            [('?7' if i == 0 else '7', (cost,), ())], (0,))
    full = ('3', '0', '0.5')
    for area in (False, True):
        for ar in (None, '0', '12'):
            for occ in ((), ('day',), ('day', 'night')):
                yield 'Exposure', ('population', area, ar, occ), exposure(
                    'population', area, (), [(ar, (), occ),
                                             (None, (), ('night',))], (0, 1))
        for cts in ((), ((None, None),), (('per_area', None),),
                    ((None, 'EUR'), ('per_asset', 'USD'))):
            for costs in ((None, None), (full, None), (None, full),
                          (full, (None, None, None)),
                          (('0', None, '0'), (None, '0', None))):
                for occ in ((), ('day', 'night', 'transit')):
                    yield 'Exposure', (area, cts, costs, occ), exposure(
                        'buildings', area, cts,
                        [('7', costs, occ), (None, costs[::-1], occ[1:])],
                        (0, 1))
        # assets at one place, and between others
        for places in ((0, 0), (0, 1, 0), (0, 1, 1), (0, 2), (1, 2),
                       (0, 3), (0, 4), (0, 5)):
            yield 'Exposure', (area, places), exposure(
                'buildings', area, ((None, None),),
                [('1', (full,), ('day',))] * len(places), places)
    for imts in (('PGA',), ('SA(0.025)', 'PGA'), ('PGV', 'SA(1.0)')):
        for fields in ((1,), (2,), (2, 1), (2, 2)):
            if len(fields) <= len(imts):
                yield 'GmfCollection', ('set', fields, imts), gmf(
                    'set', [fields], imts)
            if len(imts) == 1 and len(fields) == 2:
                continue
            yield 'GmfCollection', (fields, imts), gmf(
                'collection', [fields], imts)
            yield 'GmfCollection', (fields, fields[::-1], imts), gmf(
                'collection', [fields, fields[::-1]], imts)
    yield 'GmfCollection', 'four fields', gmf(
        'collection', [(1, 2, 1, 1)], ('PGA', 'SA(0.1)'))
    # numbers that are zero or written in other ways
    Doc.odd = True
    yield 'Vulnerability', 'odd numbers', vulnerability([(2, 3), (2, 2)])
    for fmt in ('discrete', 'continuous'):
        yield 'Fragility' + fmt.title(), 'odd numbers', fragility(
            fmt, 3, 4, ('0.0', None, '1e-3'), ('lognormal',), 2)
    for category in ('buildings', 'population'):
        yield 'Exposure', (category, 'odd numbers'), exposure(
            category, True, ((None, None), ('per_area', 'USD')),
            [('0', (full, full), ('day', 'night')),
             ('1e3', (('0', '0.0', '0'), None), ('a', 'b', 'c'))] * 3,
            (0, 1, 2, 3, 4, 5))
    yield 'GmfCollection', 'odd numbers', gmf(
        'collection', [(3, 3), (2, 1)], ('PGA', 'SA(1)'))
    Doc.odd = False
    # many elements: the order of the numbers is not the one of their texts
    yield 'Vulnerability', 'many sets', vulnerability([(1, 1)] * 12)
    yield 'Vulnerability', 'many functions', vulnerability([(12, 1)])
    yield 'Vulnerability', 'many levels', vulnerability([(1, 12)])
    for fmt in ('discrete', 'continuous'):
        yield 'Fragility' + fmt.title(), 'many sets', fragility(
            fmt, 1, 12, (None,), (None,), 1)
        yield 'Fragility' + fmt.title(), 'many limit states', fragility(
            fmt, 12, 1, (None,), (None,), 1)
    yield 'FragilityDiscrete', 'many levels', fragility(
        'discrete', 1, 1, (None,), (None,), 12)
    yield 'Exposure', 'many assets', exposure(
        'buildings', False, ((None, None),), [('1', (full,), ('day',))] * 12,
        [i % 6 for i in range(12)])
    yield 'Exposure', 'many cost types', exposure(
        'buildings', False, ((None, None),) * 12,
        [('1', (full,) * 12, ())], (0,))
    yield 'GmfCollection', 'many sets', gmf('collection', [(1,)] * 12,
                                            ('PGA',))
    yield 'GmfCollection', 'many fields', gmf('collection', [(1,) * 12],
                                              ('PGA', 'SA(0.1)'))
    yield 'GmfCollection', 'many nodes', gmf('collection', [(12,)], ('PGA',))


def run(ctx):
    ctx.rule('back', 'a model read into records and written back has the '
             'same elements, attributes and texts')
    ctx.rule('csv', 'the same through CSV files')
    ctx.rule('records', 'the table of the limit states, or of the fields, has '
             'a record for each one, in their order')
    ctx.rule('curves', 'the risk library is given every function of a model '
             'to check, with its own numbers')
    ctx.rule('field', 'the node of a ground motion field carries its '
             'intensity measure, its period and its rupture')
    ctx.assumptions.append('nodes behave as the Node of world.py2; the '
                           'curves are accepted by the risk library')
    n = 0
    eng = ctx.engine(stubs=WORLD, recursion=9, UNROLL=60,
                     prims={S('v%d' % i): 'str' for i in range(400)})
    for kind, shape, (spec, d) in documents(ctx.tier == 'thorough'):
        want = value(spec, d.env)
        con = V + kind
        n += 1
        model(ctx, eng, 'back', '%s, shape %s' % (con, shape),
              'harness.there_and_back', [term(spec)], [d.env],
              lambda e: ('return', want), shown=con,
              cmp=lambda g, w, kind=kind: g[0] == kind and same(g[1], w))
        if n % 3 == 0 or ctx.tier == 'thorough':
            model(ctx, eng, 'csv', '%s, shape %s' % (con, shape),
                  'harness.through_csv', [term(spec)], [d.env],
                  lambda e: ('return', want), shown=con, cmp=same)
        if kind != 'Vulnerability' and kind != 'Exposure' and n % 2:
            names, rows = entries(spec)
            model(ctx, eng, 'records', '%s, shape %s' % (con, shape),
                  'harness.rows_of', [term(spec), term(tuple(names))],
                  [d.env], lambda e: ('return', rows), shown=con)
    for kind, (spec, d) in (
            ('Vulnerability', vulnerability([(2, 3), (1, 2)])),
            ('FragilityDiscrete', fragility(
                'discrete', 2, 2, ('7', None), (None,), 2)),
            ('FragilityContinuous', fragility(
                'continuous', 2, 2, ('7', None), ('lognormal',), 2)),
            ('Exposure', exposure(
                'buildings', True, ((None, None),),
                [('1', ((None, None, None),), ('day',))], (0,))),
            ('Exposure', exposure(
                'population', False, (), [(None, (), ('day',))], (0,)))):
        want = value(single(spec), d.env)
        for pad in PADS:
            con = V + kind
            model(ctx, eng, 'back', '%s, blanks %r' % (con, pad),
                  'harness.there_and_back', [term(padded(spec, pad))],
                  [d.env], lambda e: ('return', want), shown=con,
                  cmp=lambda g, w, kind=kind: g[0] == kind and same(
                      inner(g[1]), w))
        if kind == 'Exposure':
            continue
        fs = sorted(sorted(f) for f in functions(spec))
        model(ctx, eng, 'curves', V + kind, 'harness.curves_of',
              [term(spec)], [d.env], lambda e: ('return', fs), shown=V + kind,
              cmp=lambda g, w: sorted(sorted(numbers(x)) for x in g) == w)
    con = 'openquake.commonlib.records.Gmf.to_node'
    for imt, rup in itertools.product(
            ('PGA', 'PGV', 'MMI', 'SA(0.1)', 'SA(1)', 'SA(0.025)'),
            ('', '0', 'rup-1')):
        attr = {'IMT': imt.split('(')[0]}
        if rup:
            attr['ruptureId'] = rup
        if imt.startswith('SA'):
            attr['saPeriod'] = imt[3:-1]
        want = ('gmf', attr, None, 0)

        def cmp(g, w):
            at = dict(g[1])
            damping = at.pop('saDamping', None)
            return (g[0], at, g[2], g[3]) == w and (
                damping is None) == (attr['IMT'] != 'SA') and (
                    damping is None or float(damping) == 5)
        model(ctx, eng, 'field', '%s, %s, rupture %r' % (con, imt, rup),
              'harness.gmf_node', [K('1'), K(imt), K(rup)], [{}],
              lambda e: ('return', want), shown=con, cmp=cmp)
