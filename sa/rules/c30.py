"""C30: splitting a fault source counts each non-zero rate exactly once."""
import itertools
from rules.common import *
from rules.c21 import t
from rules.c28 import Names, V, hz, point, resolve, same, value
from rules.c29 import (area, check_points, close, discretized, distributed,
                       mesh, shared, spec, truncated)
from terms import K

FN = V + 'split_fault_source'
SPLIT = V + 'split_source'


def deep(n):
    return dict(upper_seismogenic_depth=n('upper'),
                lower_seismogenic_depth=n('lower'), rake=n('rake'))


def line(n, name, k):
    return hz('Line', points=[point(n.point('%s%d' % (name, i)))
                              for i in range(k)])


def simple(n, mfd):
    return hz('SimpleFaultSource', mfd=mfd, fault_trace=line(n, 'trace', 2),
              dip=n('dip'), **dict(shared(n), **deep(n)))


def complex_(n, mfd):
    return hz('ComplexFaultSource', mfd=mfd, edges=[
        line(n, 'top', 2), line(n, 'bottom', 3)], rake=n('rake'),
        **shared(n))


def pointlike(n, mfd):
    return hz('PointSource', mfd=mfd, location=point(n.point('at')),
              **dict(shared(n), **distributed(n)))


def characteristic(n, mfd):
    s = shared(n)
    return hz('CharacteristicFaultSource', mfd=mfd, rake=n('rake'),
              surface=n('surface', 'a surface'), **{
        x: s[x] for x in ('source_id', 'name', 'tectonic_region_type',
                          'temporal_occurrence_model')})


def base(n, mfd):
    s = shared(n)
    return hz('BaseSeismicSource', mfd=mfd, **{
        x: s[x] for x in ('source_id', 'name', 'tectonic_region_type')})


def bins(n, mfd, k):
    """the (magnitude, rate) pairs: for the driver, and as terms"""
    if mfd[0] == 'EvenlyDiscretizedMFD':
        return K(None), [
            (lambda e, i=i: e[S('imin')] + i * e[S('ibin')], r)
            for i, r in enumerate(mfd[1]['occurrence_rates'])]
    pairs = [(n('mag%d' % i), n('arate%d' % i)) for i in range(k)]
    return t(pairs), [(lambda e, m=m: e[m], r) for m, r in pairs]


def check_parts(got, src, width, rates):
    """None or what is wrong with the parts of a fault source"""
    want = [(m, r) for m, r in rates if r]
    if len(got) != len(want):
        return '%d parts' % len(got)
    ids, seen = [], []
    for p in got:
        if not isinstance(p, tuple) or p[0] != src[0]:
            return 'a %r' % (p,)
        at, old = dict(p[1]), dict(src[1])
        ids.append(at.pop('source_id'))
        if old.pop('source_id') not in ids[-1]:
            return 'the identifier %r' % (ids[-1],)
        new = at.pop('mfd')
        old.pop('mfd')
        if not isinstance(new, tuple) or new[0] != 'EvenlyDiscretizedMFD' or \
                set(new[1]) != {'min_mag', 'bin_width', 'occurrence_rates'}:
            return 'a distribution %r' % (new,)
        if new[1]['bin_width'] != width or \
                len(new[1]['occurrence_rates']) != 1:
            return 'a distribution %r' % (new,)
        seen.append((new[1]['min_mag'], new[1]['occurrence_rates'][0]))
        if set(at) != set(old):
            return 'attributes %s' % sorted(set(at) ^ set(old))
        for x in sorted(old):
            if not same(at[x], old[x]):
                return '%s %r' % (x, at[x])
    if len(set(ids)) != len(ids):
        return 'equal identifiers'
    for (m, r), (m2, r2) in zip(sorted(seen), sorted(want)):
        if not close(m, m2) or r != r2:
            return 'bins %r' % (seen,)
    return None


def patterns(n, mfd, k):
    """assignments with each pattern of zero rates"""
    names = mfd[1].get('occurrence_rates') or [
        n('arate%d' % i) for i in range(k)]
    if mfd[0] == 'EvenlyDiscretizedMFD':
        n.env[S('ibin')] = 0.5
    for zeros in itertools.product((False, True), repeat=len(names)):
        env = dict(n.env)
        for i, (s, z) in enumerate(zip(names, zeros)):
            if z:
                env[s] = 0.0 if i % 2 else 0
        yield env
    for same_ in ((0.25, 0.25, 0.25, 0.25, 0.25, 0.25), (1e-12, 3, 0, 7, 0,
                                                         1e-300)):
        yield dict(n.env, **{}) | dict(zip(names, same_))


def run(ctx):
    ctx.rule('parts', 'one copy of the fault source for each bin with a '
             'non-zero rate, with a distinct identifier and that bin only')
    ctx.rule('unchanged', 'the source is left as it was')
    ctx.rule('dispatch', 'each kind of source is split by its own rule, the '
             'others are given back')
    ctx.assumptions.append('the classes of hazardlib behave as in models.py2')
    eng = ctx.engine(stubs=WORLD, recursion=12, real=REAL, UNROLL=60)

    def unchanged(label, fn, args, envs, obj, annual):
        def same_(g, w):
            g = g[0], dict(g[1])
            g[1]['mfd'][1].pop('annual', None)
            if 'polygon' in g[1]:
                g[1]['polygon'][1].pop('nodes', None)
            return same(g, w)
        model(ctx, eng, 'unchanged', label, fn, args, envs,
              lambda e: ('return', resolve(obj, e)), shown=label.split(',')[0],
              value=lambda p, e: value(p.value[2], e), cmp=same_)

    def fault(rule, label, fn, args, envs, obj, width, rates):
        def good(g, w):
            return isinstance(g, list) and check_parts(*((g,) + w[1:])) is \
                None
        model(ctx, eng, rule, label, fn, args, envs, lambda e: (
            'return', ('a part for each bin', resolve(obj, e), e[width], [
                (m(e), e[r]) for m, r in rates])),
            shown=label.split(',')[0],
            value=lambda p, e: value(p.value[1], e), cmp=good)
    ks = range(0, 5 if ctx.tier == 'quick' else 7)
    for k in ks:
        for mk in (simple, complex_):
            for mfd in (truncated, discretized):
                n = Names()
                m = mfd(n, k) if mfd is discretized else mfd(n)
                obj = mk(n, m)
                annual, rates = bins(n, m, k)
                width = m[1]['bin_width']
                envs = list(patterns(n, m, k))
                kind = '%s with %s, %d bins' % (obj[0], m[0], k)
                fault('parts', '%s, %s' % (FN, kind), 'harness.src_fault',
                      [spec(obj), annual], envs, obj, width, rates)
                unchanged('%s, %s' % (FN, kind), 'harness.src_fault',
                          [spec(obj), annual], envs, obj, annual)
                if k in (1, 3):
                    nodes, meshes = mesh(n, 2)
                    args = [spec(obj), annual, meshes, K(10.0)]
                    fault('dispatch', '%s, %s' % (SPLIT, kind),
                          'harness.src_split', args, envs, obj, width, rates)
    for mk in (area, pointlike, characteristic, base):
        for mfd in (truncated, discretized):
            n = Names()
            m = mfd(n, 2) if mfd is discretized else mfd(n)
            obj = mk(n, m)
            annual, rates = bins(n, m, 2)
            nodes, meshes = mesh(n, 3)
            envs = list(patterns(n, m, 2))
            label = '%s, %s with %s' % (SPLIT, obj[0], m[0])
            args = [spec(obj), annual, meshes, K(10.0)]
            unchanged(label, 'harness.src_split', args, envs, obj, annual)
            if mk is area:
                def good(g, w, m=m, nodes=nodes):
                    for p in g:
                        p[1]['mfd'][1].pop('annual', None)
                    return check_points(g, w[1][1], 3, m, nodes, w[2]) is None
                model(ctx, eng, 'dispatch', label, 'harness.src_split', args,
                      envs, lambda e: ('return', (
                          'a point for each node', resolve(obj, e), e)),
                      shown=SPLIT, value=lambda p, e: value(p.value[1], e),
                      cmp=good)
            else:
                model(ctx, eng, 'dispatch', label, 'harness.src_split', args,
                      envs, lambda e: ('return', [True]), shown=SPLIT,
                      value=lambda p, e: value(p.value[3], e))
