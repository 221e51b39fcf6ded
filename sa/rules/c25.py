"""C25: uncertainties reach exactly the sources their filters select."""
import itertools
from rules.common import *
from rules.c21 import t
from rules.c23 import W
from terms import K

V = 'openquake.commonlib.logictree.'
TREE = 'applyToTectonicRegionType'
TYPE = 'applyToSourceType'
IDS = 'applyToSources'
CLASSES = ['point', 'area', 'simpleFault', 'complexFault',
           'characteristicFault', 'other']
MFDS = ['gr', 'ed', 'other']
# the modification made by each type of uncertainty
KINDS = {'abGRAbsolute': lambda v: ('set_ab', {'a_val': v[0], 'b_val': v[1]}),
         'bGRRelative': lambda v: ('increment_b', {'value': v}),
         'maxMagGRRelative': lambda v: ('increment_max_mag', {'value': v}),
         'maxMagGRAbsolute': lambda v: ('set_max_mag', {'value': v})}
VALUES = {'abGRAbsolute': '4.5 0.9', 'bGRRelative': '-0.1',
          'maxMagGRRelative': '+.25', 'maxMagGRAbsolute': '7'}


def parsed(kind, text):
    if kind == 'abGRAbsolute':
        a, b = text.split()
        return float(a), float(b)
    return float(text)


def selects(filters, source):
    """None when the filters are invalid"""
    cls, sid, trt, _ = source
    for k, v in filters.items():
        if k not in (TREE, TYPE, IDS) or \
                k == TYPE and v not in CLASSES[:-1]:
            return None
    return (filters.get(TREE, trt) == trt and
            filters.get(TYPE, cls) == cls and
            (IDS not in filters or sid in filters[IDS]))


def all_filters():
    out = [{}]
    for trt in ('T0', 'T1', 'T00'):
        out.append({TREE: trt})
    for typ in CLASSES[:-1]:
        out.append({TYPE: typ})
    for ids in (('s1',), ('s2', 's1'), ('s2',), ('s11', 's12'), ()):
        out.append({IDS: ids})
    out.append({TREE: 'T0', TYPE: 'area'})
    out.append({TREE: 'T1', IDS: ('s1',)})
    out.append({TREE: 'T0', IDS: ('s1',)})
    out.append({TYPE: 'point', IDS: ('s1', 's2')})
    out.append({TYPE: 'area', IDS: ('s2',)})
    out.append({TREE: 'T0', TYPE: 'area', IDS: ('s1',)})
    out.append({TREE: 'T0', TYPE: 'simpleFault', IDS: ('s2', 's1')})
    return out


BAD = [{TYPE: 'volcano'}, {TYPE: ''}, {TYPE: 'areaSource'},
       {'applyToEverything': 'x'}, {'applyToBranches': 'b'},
       {TREE: 'T0', 'applyToEverything': 'x'},
       {IDS: ('s1',), TYPE: 'unknown'}]


def text(d):
    return ', '.join('%s=%s' % kv for kv in sorted(d.items())) or 'no filter'


def lit(x):
    """lists and dictionaries as tuples"""
    if isinstance(x, (list, tuple)):
        return tuple(lit(y) for y in x)
    if isinstance(x, dict):
        return ('dict', tuple(sorted((k, lit(v)) for k, v in x.items())))
    return x


def same(g, w):
    return lit(g) == lit(w)


def bset(kind, ids, values, **attrs):
    d = {'uncertaintyType': kind}
    d.update(attrs)
    return tuple(sorted(d.items())), list(zip(ids, W[len(ids)], values))


def trees():
    """(levels, paths)"""
    sm = bset('sourceModel', 'ab', ['m1.xml', 'm2.xml'])
    b = bset('bGRRelative', 'cd', ['0.1', '-0.2'])
    m = bset('maxMagGRRelative', 'ef', ['1', '2'], **{TYPE: 'area'})
    ab = bset('abGRAbsolute', 'gh', ['4 1', '5 .5'], **{IDS: ' s1 '})
    mm = bset('maxMagGRAbsolute', 'i', ['7.25'], **{IDS: 's11'})
    n = bset('bGRRelative', 'jk', ['3', '4'], **{TREE: 'T1'})
    s = bset('maxMagGRRelative', 'lm', ['8', '9'], **{IDS: 's2  s11\n'})
    yield [[sm]], ['a', 'b']
    yield [[sm], [b]], ['ac', 'bd', 'ad']
    yield [[sm], [b], [m]], ['ace', 'bdf', 'acf']
    yield [[sm], [m], [b]], ['aec', 'bfd']
    yield [[sm], [ab], [mm], [b]], ['agic', 'bhid']
    yield [[sm], [b], [n], [m], [ab]], ['acjeg', 'bdkfh', 'adjfg']
    yield [[sm], [s], [n]], ['alj', 'bmk', 'blk']
    # uneven trees
    on = lambda bs, to: (tuple(sorted(bs[0] + (('applyToBranches', to),))),
                         bs[1])
    yield [[sm], [on(b, 'a'), on(m, 'b')]], ['ac', 'be', 'ad', 'bf']
    yield [[sm], [on(b, 'b')]], ['a', 'bc', 'bd']
    yield [[sm], [b], [on(m, 'c'), on(ab, 'd')]], ['ace', 'bdh', 'bcf']
    # the same type of uncertainty twice on a path
    yield [[sm], [b], [bset('bGRRelative', 'xy', ['5', '6'])]], [
        'acx', 'ady', 'bcy']


SOURCES = [('area', 's1', 'T0', 'gr'), ('point', 's2', 'T1', 'gr'),
           ('area', 's11', 'T1', 'ed'), ('simpleFault', 's11', 'T1', 'gr'),
           ('complexFault', 's1', 'T2', 'gr')]


def changes(levels, path):
    """the changes made to each source on a path"""
    out = [[] for _ in SOURCES]
    at = {}
    for level in levels:
        for attrs, branches in level:
            for b in branches:
                at[b[0]] = dict(attrs), b[2]
    for x in path:
        attrs, value = at[x]
        kind = attrs['uncertaintyType']
        if kind == 'sourceModel':
            continue
        flt = dict((k, v) for k, v in attrs.items()
                   if k in (TREE, TYPE, IDS))
        if IDS in flt:
            flt[IDS] = flt[IDS].split()
        for o, s in zip(out, SOURCES):
            if s[3] == 'gr' and selects(flt, s):
                o.append(KINDS[kind](parsed(kind, value)))
    return out


def run(ctx):
    ctx.rule('filter', 'a source passes when it passes every filter; '
             'unknown filters and source types raise')
    ctx.rule('apply', 'a truncated Gutenberg-Richter distribution of a '
             'selected source gets the modification of the uncertainty '
             'type, with its value, and nothing else changes')
    ctx.rule('values', 'the value of a branch is what its text denotes, '
             'whatever the blanks around it')
    ctx.rule('types', 'each source type read is a known filter value')
    ctx.rule('path', 'the function made for a path applies the '
             'uncertainties of its branches in order, to any number of '
             'sources')
    ctx.assumptions.append('elements and sources behave as in models.py2')
    eng = ctx.engine(stubs=WORLD, recursion=9, real=REAL, UNROLL=60)
    con = V + 'BranchSet.filter_source'
    for flt in all_filters() + BAD:
        for cls in CLASSES:
            for sid, trt in (('s1', 'T0'), ('s2', 'T1'), ('s12', 'T00')):
                src = cls, sid, trt, 'gr'
                want = selects(flt, src)
                if want is None and (len(flt) > 1 and (
                        flt.get(TREE, trt) != trt or
                        IDS in flt and sid not in flt[IDS])):
                    continue        # either answer
                model(ctx, eng, 'filter', '%s, %s on a %s source %s of %s' % (
                    con, text(flt), cls, sid, trt), 'harness.unc_filter',
                    [t(sorted(flt.items())), t(src)], [{}],
                    lambda e: ('raise', ('AssertionError',))
                    if want is None else
                    ('return', 'selected' if want else 'not selected'),
                    shown=con)
    con = V + 'BranchSet.apply_uncertainty'
    for kind in sorted(KINDS) + ['foo', 'bGRAbsolute', '']:
        for mfd in MFDS:
            for flt in ({}, {TREE: 'T0'}, {TREE: 'T1'}, {TYPE: 'area'},
                        {TYPE: 'point'}, {IDS: ('s1',)}, {IDS: ('s2',)},
                        {TREE: 'T0', IDS: ('s2',)}):
                src = 'area', 's1', 'T0', mfd
                ok = mfd == 'gr' and selects(flt, src)
                if kind in KINDS:
                    a, b = S('a'), S('b')
                    arg = t((a, b)) if kind == 'abGRAbsolute' else a
                    env = {a: 1.5, b: -2.5}
                    v = (1.5, -2.5) if kind == 'abGRAbsolute' else 1.5
                    want = 'done', [KINDS[kind](v)] if ok else []
                else:
                    if not ok:
                        continue
                    arg, env = S('a'), {S('a'): 1.5}
                    want = 'AssertionError', []
                model(ctx, eng, 'apply', '%s, %r, %s, %s distribution' % (
                    con, kind, text(flt), mfd), 'harness.unc_apply',
                    [K(kind), t(sorted(flt.items())), arg, t(src)], [env],
                    lambda e: ('return', want), shown=con, cmp=same)
    con = V + 'SourceModelLogicTree.SOURCE_TYPES'
    got = []

    def known(g, w):
        got.extend(g)
        return set(CLASSES[:-1]) <= set(g)
    model(ctx, eng, 'types', con, 'harness.unc_types', [], [{}],
          lambda e: ('return', 'all the source types'), cmp=known)
    for typ in got:
        if typ not in CLASSES:
            # a new type: not silently ignored
            model(ctx, eng, 'types', '%s, %s' % (con, typ),
                  'harness.unc_filter', [t([(TYPE, typ)]), t(
                      ('other', 's', 'T', 'gr'))], [{}],
                  lambda e: ('return', 'an answer'),
                  cmp=lambda g, w: g in ('selected', 'not selected'))
    con = V + 'SourceModelLogicTree.make_apply_uncertainties'
    for levels, ps in trees():
        lv = t(levels)
        label = ' / '.join(' + '.join('%s %s' % (
            dict(at)['uncertaintyType'], ''.join(b[0] for b in bs))
            for at, bs in l) for l in levels)
        model(ctx, eng, 'path', '%s, %s' % (con, label), 'harness.unc_tree',
              [lv, t([tuple(p) for p in ps]), t(SOURCES)], [{}],
              lambda e: ('return', [changes(levels, p) for p in ps]),
              shown=con, cmp=same)
    # all the realizations
    for levels, ps in itertools.islice(trees(), 3, 5):
        reals = list(itertools.product(*[[b[0] for b in l[0][1]]
                                         for l in levels]))
        model(ctx, eng, 'path', '%s, realizations of %s' % (con, ' / '.join(
            dict(l[0][0])['uncertaintyType'] for l in levels)),
            'harness.unc_all', [t(levels), t(SOURCES)], [{}],
            lambda e: ('return', [(p, changes(levels, p)) for p in reals]),
            shown=con, cmp=same)
    values(ctx, eng)


def values(ctx, eng):
    con = V + 'SourceModelLogicTree.parse_uncertainty_value'
    texts = [('bGRRelative', x) for x in ('1', ' -0.5\n', '+.25', '0')] + [
        ('maxMagGRRelative', '\n-.75'), ('maxMagGRAbsolute', '7.5 ')] + [
        ('abGRAbsolute', x) for x in ('4 1', '\n 4.5   0.9', '-1  +.5\t')]
    for first in ('m1.xml', ' m1.xml', 'm1.xml\n', '\n  m1.xml  '):
        for kind, x in texts[::1 if first == 'm1.xml' else 5]:
            f = {IDS: 's1'} if kind.endswith('Absolute') else {}
            lv = [[bset('sourceModel', 'a', [first])],
                  [bset(kind, 'c', [x], **f)]]

            def fits(g, w):
                if not (isinstance(g, (list, tuple)) and len(g) == 3 and
                        isinstance(g[2], list)):
                    return False
                (i, _, v, sub), = g[2]
                (j, _, u, _), = sub[2]
                return same([i, v, j, u], w)
            for validate in (True, False):
                model(ctx, eng, 'values', '%s, %s %r / %s %r%s' % (
                    con, 'sourceModel', first, kind, x, '' if validate
                    else ', not validated'), 'harness.lt_parse',
                    [K('source'), t(lv), K(validate), t([('m1.xml', [
                        ('areaSource', 's1', 'T0')])]), t([])], [{}],
                    lambda e: ('return', ['a', 'm1.xml', 'c',
                                          parsed(kind, x)]),
                    shown=con, cmp=fits)
