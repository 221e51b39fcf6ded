"""C29: splitting an area source conserves its rate and attributes."""
import itertools
import math
from rules.common import *
from rules.c21 import t
from rules.c28 import Names, V, hz, leaf, lst, point, resolve, same, value
from terms import K

FN = V + 'area_to_point_sources'


def spec(x):
    """the driver's description of a hazard object"""
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict):
        return ('tuple', K('hz'), K(x[0]), ('tuple',) + tuple(
            ('tuple', K(n), spec(v)) for n, v in sorted(x[1].items())),
            ('tuple',))
    if isinstance(x, list):
        return lst([spec(y) for y in x])
    return leaf(x)


def shared(n):
    """what every kind of source has"""
    return dict(source_id=n('id', 'A7'), name=n('name', 'a name'),
                tectonic_region_type=n('trt', 'a region'),
                rupture_mesh_spacing=n('spacing'),
                magnitude_scaling_relationship=hz('WC1994'),
                rupture_aspect_ratio=n('aspect'),
                temporal_occurrence_model=hz('PoissonTOM',
                                             time_span=n('time')))


def distributed(n):
    """what point and area sources have"""
    return dict(
        upper_seismogenic_depth=n('upper'), lower_seismogenic_depth=n(
            'lower'),
        nodal_plane_distribution=hz('PMF', data=[[n('npp0'), hz(
            'NodalPlane', strike=n('s0'), dip=n('d0'), rake=n('r0'))],
            [n('npp1'), hz('NodalPlane', strike=n('s1'), dip=n('d1'),
                           rake=n('r1'))]]),
        hypocenter_distribution=hz('PMF', data=[[n('hp0'), n('h0')],
                                                [n('hp1'), n('h1')]]))


def area(n, mfd):
    return hz('AreaSource', mfd=mfd, polygon=hz('Polygon', points=[
        point(n.point('corner%d' % i)) for i in range(3)]),
        area_discretization=n('discr'), **dict(shared(n), **distributed(n)))


def truncated(n):
    return hz('TruncatedGRMFD', a_val=n('a'), b_val=n('b'),
              min_mag=n('mmin'), max_mag=n('mmax'), bin_width=n('width'))


def discretized(n, k):
    return hz('EvenlyDiscretizedMFD', min_mag=n('imin'), bin_width=n('ibin'),
              occurrence_rates=[n('rate%d' % i) for i in range(k)])


def close(g, w):
    return isinstance(g, (int, float)) and not isinstance(g, bool) and \
        math.isclose(g, w, rel_tol=1e-9, abs_tol=1e-12)


def mesh(n, k, step=10.0):
    """the nodes for the step and, at other places, for another step"""
    nodes = [n.point('node%d' % i) for i in range(k)]
    others = [n.point('other%d' % i) for i in range(k + 1)]
    return nodes, t([(s, ([x for x, y in ps], [y for x, y in ps]))
                     for s, ps in ((step, nodes), (step / 2, others))])


def check_points(got, src, k, mfd, nodes, env):
    """None or what is wrong with the points of a split area source"""
    if len(got) != k:
        return '%d points' % len(got)
    places, ids = [], []
    for p in got:
        if not isinstance(p, tuple) or p[0] != 'PointSource':
            return 'a %r' % (p[0],)
        at = dict(p[1])
        loc = at.pop('location')
        if not (isinstance(loc, tuple) and loc[0] == 'Point' and
                loc[1]['depth'] == 0.0):
            return 'location %r' % (loc,)
        places.append((loc[1]['longitude'], loc[1]['latitude']))
        ids.append(at.pop('source_id'))
        name = at.pop('name')
        if not isinstance(ids[-1], str) or src['source_id'] not in ids[-1]:
            return 'the identifier %r' % (ids[-1],)
        if not isinstance(name, str) or src['name'] not in name:
            return 'the name %r' % (name,)
        new = at.pop('mfd')
        want = dict(src)
        old = want.pop('mfd')
        if not isinstance(new, tuple) or new[0] != old[0] or \
                set(new[1]) != set(old[1]):
            return 'a distribution %r' % (new,)
        for x, v in sorted(old[1].items()):
            if x == 'a_val':
                if not close(10 ** (new[1][x] - v) * k, 1):
                    return 'a value %r' % (new[1][x],)
            elif x == 'occurrence_rates':
                if len(new[1][x]) != len(v) or not all(
                        close(g * k, w) for g, w in zip(new[1][x], v)):
                    return 'rates %r' % (new[1][x],)
            elif new[1][x] != v:
                return '%s %r of the distribution' % (x, new[1][x])
        for x in ('source_id', 'name', 'polygon', 'area_discretization'):
            want.pop(x)
        if set(at) != set(want):
            return 'attributes %s' % sorted(set(at) ^ set(want))
        for x in sorted(want):
            if not same(at[x], want[x]):
                return '%s %r' % (x, at[x])
    if len(set(ids)) != k:
        return 'equal identifiers'
    if sorted(places) != sorted(
            (env[x], env[y]) for x, y in nodes):
        return 'points at %r' % (places,)
    return None


def run(ctx):
    ctx.rule('rate', 'one point source per node of the mesh, with an equal '
             'share of the rate, a distinct identifier made of the original '
             'one and the other attributes of the area source')
    ctx.rule('unchanged', 'the area source is left as it was')
    ctx.assumptions.append('the classes of hazardlib behave as in models.py2;'
                           ' rates are compared to 1e-9')
    eng = ctx.engine(stubs=WORLD, recursion=12, real=REAL, UNROLL=60)
    ks = range(1, 5 if ctx.tier == 'quick' else 11)
    for k in ks:
        for kind in range(0, 4 if ctx.tier == 'quick' else 6):
            n = Names()
            mfd = discretized(n, kind) if kind else truncated(n)
            obj = area(n, mfd)
            nodes, meshes = mesh(n, k)
            envs = [n.env]
            if kind:
                for vals in ((3, 0.0, 1, 2, 5, 7), (0.0, 5, 0.25, 3, 1, 2)):
                    envs.append(dict(n.env, **{}))
                    for i in range(kind):
                        envs[-1][S('rate%d' % i)] = vals[i]
            else:
                for v in (4, -2, 0, 0.0, -3.5):
                    envs.append(dict(n.env))
                    envs[-1][S('a')] = v
            label = '%s, %d nodes, %s' % (
                FN, k, '%d rates' % kind if kind else 'truncated')
            for rule, val, cmp in (
                    ('rate', lambda p, e: value(p.value[1], e), None),
                    ('unchanged', lambda p, e: value(p.value[2], e), same)):
                def expect(env, rule=rule):
                    w = resolve(obj, env)
                    return 'return', w if rule == 'unchanged' else (
                        'a point for each node', w, env)

                def good(g, w, rule=rule):
                    if rule == 'unchanged':
                        g[1]['polygon'][1].pop('nodes', None)
                        return same(g, w)
                    return isinstance(g, list) and check_points(
                        g, w[1][1], k, mfd, nodes, w[2]) is None
                model(ctx, eng, rule, label, 'harness.src_area',
                      [spec(obj), meshes, K(10.0)], envs, expect,
                      shown=FN, value=val, cmp=good)
