"""C28: each source and rupture parameter keeps its meaning in conversion."""
import itertools
import evalt
from rules.common import *
from rules.c21 import t
from terms import K, isk

V = 'openquake.commonlib.source.'
CONV = V + 'NrmlHazardlibConverter'


class Names(object):
    """distinct symbols for the parameters"""

    def __init__(self):
        self.env = {}
        self.shapes = []

    def __call__(self, name, value=None):
        s = S(name)
        if s not in self.env:
            self.env[s] = 1.5 + len(self.env) * 0.25 if value is None \
                else value
        return s

    def point(self, name, depth=False):
        return tuple(self('%s_%s' % (name, x)) for x in (
            ('lon', 'lat', 'depth') if depth else ('lon', 'lat')))

    def wkt(self, name, num, depth=False, closed=False):
        """a text for a geometry and its coordinates"""
        coords = [self.point('%s_%d' % (name, i), depth) for i in range(num)]
        self.shapes.append(('wkt ' + name,
                            coords + coords[:1] if closed else coords))
        return 'wkt ' + name, coords


def leaf(x):
    return ('tuple', K('leaf'), x if isinstance(x, tuple) and x and
            x[0] in ('s', 'k') else t(x))


def lst(xs):
    return ('tuple', K('list'), ('tuple',) + tuple(xs))


def nrml(cls, **attrs):
    return ('tuple', K('obj'), K(cls), ('tuple',) + tuple(
        ('tuple', K(n), a) for n, a in sorted(attrs.items())))


def hz(cls, **attrs):
    return cls, attrs


def point(coords):
    return hz('Point', longitude=coords[0], latitude=coords[1],
              depth=coords[2] if len(coords) > 2 else 0.0)


def value(term, env):
    """the objects of a summary as (class, attributes)"""
    if term[0] == 'obj':
        name = term[1].split('.')[-1]
        return {'NrmlPoint': 'Point'}.get(name, name), {
            n: value(v, env) for n, v in term[2]}
    if term[0] in ('list', 'tuplist') and all(s[0] == 'one'
                                              for s in term[1]):
        return [value(s[1], env) for s in term[1]]
    if term[0] == 'tuple':
        return [value(x, env) for x in term[1:]]
    if term[0] == 'cls':
        return 'class ' + term[1].split('.')[-1]
    return evalt.ev(term, env)


def resolve(x, env):
    """the expected value under an assignment"""
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict):
        return x[0], {n: resolve(v, env) for n, v in x[1].items()}
    if isinstance(x, tuple) and x and x[0] == 's':
        return env[x]
    if isinstance(x, (list, tuple)):
        return [resolve(y, env) for y in x]
    return x


def same(g, w):
    if isinstance(w, tuple):
        return isinstance(g, tuple) and g[0] == w[0] and \
            set(g[1]) == set(w[1]) and all(
                same(g[1][n], w[1][n]) or
                # no model: whatever is not one
                n == 'temporal_occurrence_model' and w[1][n] is None and
                g[1][n] == 0 for n in w[1])
    if isinstance(w, list):
        return isinstance(g, list) and len(g) == len(w) and all(
            same(a, b) for a, b in zip(g, w))
    return type(g) is type(w) and g == w


# (investigation time, mesh spacing, bin width, area discretization)
def settings(n, inv='inv', width='width'):
    return (n(inv) if isinstance(inv, str) else inv, n('spacing'),
            n(width) if width else None, n('discr'))


def tom(st):
    return hz('PoissonTOM', time_span=st[0]) if st[0] else None


def mfds(n, st):
    """(nrml distribution, hazard distribution) of each kind"""
    if st[2] is not None:
        yield nrml('TGRMFD', a_val=leaf(n('a')), b_val=leaf(n('b')),
                   min_mag=leaf(n('mmin')), max_mag=leaf(n('mmax'))), hz(
            'TruncatedGRMFD', a_val=n('a'), b_val=n('b'), min_mag=n('mmin'),
            max_mag=n('mmax'), bin_width=st[2])
    for k in (1, 3):
        rates = [n('rate%d' % i) for i in range(k)]
        yield nrml('IncrementalMFD', min_mag=leaf(n('imin')),
                   bin_width=leaf(n('ibin')), occur_rates=lst(
                       [leaf(r) for r in rates])), hz(
            'EvenlyDiscretizedMFD', min_mag=n('imin'), bin_width=n('ibin'),
            occurrence_rates=rates)


def common(n, st, msr):
    return (dict(id=leaf(n('id', 'ID7')), name=leaf(n('name', 'a name')),
                 trt=leaf(n('trt', 'a region')),
                 mag_scale_rel=leaf(msr),
                 rupt_aspect_ratio=leaf(n('aspect'))),
            dict(source_id=n('id'), name=n('name'),
                 tectonic_region_type=n('trt'),
                 magnitude_scaling_relationship=hz(msr),
                 rupture_aspect_ratio=n('aspect'),
                 rupture_mesh_spacing=st[1],
                 temporal_occurrence_model=tom(st)))


def planes(n, k):
    return lst([nrml('NodalPlane', probability=leaf(n('npp%d' % i)),
                     strike=leaf(n('str%d' % i)), dip=leaf(n('dip%d' % i)),
                     rake=leaf(n('rake%d' % i))) for i in range(k)]), hz(
        'PMF', data=[[n('npp%d' % i), hz(
            'NodalPlane', strike=n('str%d' % i), dip=n('dip%d' % i),
            rake=n('rake%d' % i))] for i in range(k)])


def depths(n, k):
    return lst([nrml('HypocentralDepth', probability=leaf(n('hdp%d' % i)),
                     depth=leaf(n('hd%d' % i))) for i in range(k)]), hz(
        'PMF', data=[[n('hdp%d' % i), n('hd%d' % i)] for i in range(k)])


def simple_geometry(n, k, depth=False):
    wkt, coords = n.wkt('trace', k, depth)
    return nrml('SimpleFaultGeometry', wkt=leaf(wkt), dip=leaf(n('dip')),
                upper_seismo_depth=leaf(n('upper')),
                lower_seismo_depth=leaf(n('lower'))), hz(
        'Line', points=[point(c) for c in coords])


def complex_geometry(n, k, depth=False):
    top, ctop = n.wkt('top', 2, depth)
    bottom, cbottom = n.wkt('bottom', 3, depth)
    mid = [n.wkt('mid%d' % i, 2 + i, depth) for i in range(k)]
    return nrml('ComplexFaultGeometry', top_edge_wkt=leaf(top),
                bottom_edge_wkt=leaf(bottom), int_edges=lst([
                    leaf(w) for w, _ in mid])), [
        hz('Line', points=[point(c) for c in cs])
        for cs in [ctop] + [c for _, c in mid] + [cbottom]]


def sources(n, st, mfd, msr, k):
    """the five kinds: (name, nrml object, hazard object)"""
    nm, hm = mfd
    a, b = common(n, st, msr)
    flat = dict(upper_seismo_depth=leaf(n('upper')),
                lower_seismo_depth=leaf(n('lower')))
    deep = dict(upper_seismogenic_depth=n('upper'),
                lower_seismogenic_depth=n('lower'))
    np, hp = planes(n, k)
    nd, hd = depths(n, 4 - k)
    wkt, coords = n.wkt('point', 1)
    yield 'point', nrml(
        'Point', mfd=nm, nodal_plane_dist=np, hypo_depth_dist=nd,
        geometry=nrml('PointGeometry', wkt=leaf(wkt), **flat), **a), hz(
        'PointSource', mfd=hm, nodal_plane_distribution=hp,
        hypocenter_distribution=hd, location=point(coords[0]), **dict(
            b, **deep))
    wkt, coords = n.wkt('polygon', 2 + k, closed=True)
    yield 'area', nrml(
        'Area', mfd=nm, nodal_plane_dist=np, hypo_depth_dist=nd,
        geometry=nrml('AreaGeometry', wkt=leaf(wkt), **flat), **a), hz(
        'AreaSource', mfd=hm, nodal_plane_distribution=hp,
        hypocenter_distribution=hd, polygon=hz(
            'Polygon', points=[point(c) for c in coords]),
        area_discretization=st[3], **dict(b, **deep))
    ng, trace = simple_geometry(n, 1 + k)
    yield 'simple fault', nrml(
        'SimpleFault', mfd=nm, geometry=ng, rake=leaf(n('rake')), **a), hz(
        'SimpleFaultSource', mfd=hm, fault_trace=trace, dip=n('dip'),
        rake=n('rake'), **dict(b, **deep))
    ng, edges = complex_geometry(n, k - 1, True)
    yield 'complex fault', nrml(
        'ComplexFault', mfd=nm, geometry=ng, rake=leaf(n('rake')), **a), hz(
        'ComplexFaultSource', mfd=hm, edges=edges, rake=n('rake'), **b)
    for surface, ns, hs in surfaces(n, st, k):
        yield 'characteristic with ' + surface, nrml(
            'Characteristic', mfd=nm, surface=ns, rake=leaf(n('rake')),
            **{x: a[x] for x in ('id', 'name', 'trt')}), hz(
            'CharacteristicFaultSource', mfd=hm, surface=hs, rake=n('rake'),
            **{x: b[x] for x in ('source_id', 'name', 'tectonic_region_type',
                                 'temporal_occurrence_model')})


def fault_surfaces(n, st, k, depth):
    ng, trace = simple_geometry(n, 1 + k, depth)
    yield 'a simple fault', ng, hz(
        'SimpleFaultSurface', fault_trace=trace, dip=n('dip'),
        upper_seismogenic_depth=n('upper'),
        lower_seismogenic_depth=n('lower'), mesh_spacing=st[1])
    ng, edges = complex_geometry(n, k - 1, depth)
    yield 'a complex fault', ng, hz('ComplexFaultSurface', edges=edges,
                                    mesh_spacing=st[1])


def surfaces(n, st, k):
    for s in fault_surfaces(n, st, k, k % 2 == 0):
        yield s
    corners = ['top_left', 'top_right', 'bottom_left', 'bottom_right']
    ns, hs = [], []
    for i in range(k):
        cs = {c: n.point('%s%d' % (c, i), True) for c in corners}
        ns.append(nrml('PlanarSurface', strike=leaf(n('strike%d' % i)),
                       dip=leaf(n('sdip%d' % i)), **{
                           c: nrml('NrmlPoint', longitude=leaf(p[0]),
                                   latitude=leaf(p[1]), depth=leaf(p[2]))
                           for c, p in cs.items()}))
        hs.append(hz('PlanarSurface', strike=n('strike%d' % i),
                     dip=n('sdip%d' % i), mesh_spacing=st[1],
                     **{c: point(p) for c, p in cs.items()}))
    yield '%d planes' % k, lst(ns), hz('MultiSurface', surfaces=hs)


def ruptures(n, st, k):
    hypo = n.point('hypo', True)
    for (name, ng, hs), cls, hcls in zip(
            fault_surfaces(n, st, k, k % 2 == 1),
            ('SimpleFaultRupture', 'ComplexFaultRupture'),
            ('SimpleFaultSource', 'ComplexFaultSource')):
        yield name, nrml(cls, id=leaf(n('id', 'ID7')), geometry=ng,
                         magnitude=leaf(n('mag')), rake=leaf(n('rake')),
                         hypocenter=leaf(hypo)), hz(
            'Rupture', mag=n('mag'), rake=n('rake'),
            tectonic_region_type=None, hypocenter=point(hypo), surface=hs,
            source_typology='class ' + hcls)


def run(ctx):
    ctx.rule('parameters', 'every parameter of the object made is the input '
             'parameter, or the setting, of the same meaning')
    ctx.rule('named', 'a failure while converting a source names it')
    ctx.assumptions.append('the classes of nrmllib, hazardlib and shapely '
                           'behave as in models.py2')
    eng = ctx.engine(stubs=WORLD, recursion=12, real=REAL, UNROLL=60)
    val = lambda p, e: value(p.value, e)
    ks = (1, 2, 3)

    def check(what, n, spec, expected, st):
        model(ctx, eng, 'parameters', '%s, %s' % (CONV, what),
              'harness.src_convert', [spec, t(n.shapes), t(st)], [n.env],
              lambda e: ('return', resolve(expected, e)), shown=CONV,
              value=val, cmp=same)
    for k in ks:
        for inv in ('inv', 50.0, None, 0):
            n = Names()
            st = settings(n, inv)
            msr = 'PeerMSR' if k % 2 else 'WC1994'
            if inv == 'inv':
                n.env[S('inv')] = 33.0
            label = '%d planes, investigation time %s' % (k, inv)
            for i, mfd in enumerate(mfds(n, st)):
                for name, spec, obj in sources(n, st, mfd, msr, k):
                    n2 = Names()
                    check('%s source, %s distribution %d, %s' % (
                        name, mfd[1][0], i, label), n, spec, obj, st)
            for name, spec, obj in ruptures(n, st, k):
                check('rupture of %s, %s' % (name, label), n, spec, obj, st)
    # no bin width when no truncated distribution is used
    n = Names()
    st = settings(n, 50.0, None)
    for mfd in mfds(n, st):
        for name, spec, obj in sources(n, st, mfd, 'WC1994', 1):
            check('%s source, %s distribution with %d rates, no bin width' % (
                name, mfd[1][0], len(mfd[1][1]['occurrence_rates'])), n,
                spec, obj, st)
    # failures
    for bad in ('geometry', 'relation'):
        for k in (1, 2):
            n = Names()
            st = settings(n, 50.0)
            for mfd in itertools.islice(mfds(n, st), 2):
                for name, spec, obj in sources(
                        n, st, mfd, 'unknown' if bad == 'relation' else
                        'WC1994', k):
                    if bad == 'relation' and 'charac' in name or \
                            bad == 'geometry' and 'planes' in name:
                        continue        # they have none
                    model(ctx, eng, 'named', '%s, bad %s of a %s source, '
                          '%s, %d planes' % (CONV, bad, name, mfd[1][0], k),
                          'harness.src_failure', [
                              spec, t([] if bad == 'geometry' else n.shapes),
                              t(st)], [n.env],
                          lambda e: ('return', 'a text with the identifier'),
                          shown=CONV, cmp=lambda g, w: isinstance(g, str) and
                          ('ID7' in g or 'a name' in g))
