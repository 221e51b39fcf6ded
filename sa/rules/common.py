"""Small readers of path summaries shared by the rules."""
import evalt
from engine import Blowup
from terms import isk, kval, pp, pplits, subterms, NONE, TRUE, FALSE


def S(name):
    return ('s', name)


def paths(ctx, eng, rule, fn, args, kw=(), shown=None, **opts):
    """summaries of `fn`, None (and an undecided obligation) on blow-up"""
    f = eng.require(fn) if isinstance(fn, str) else fn
    ctx.saw(shown or (fn if isinstance(fn, str) else pp(fn)))
    try:
        return eng.run(f, list(args), list(kw), **opts)
    except Blowup as e:
        ctx.unknown(rule, shown or str(fn), 'not followed: %s' % e)
        return None


def where(p, n=240):
    return 'on the path [%s]' % pplits(p.lits)[:n]


def lits(p):
    return dict(p.lits)


def ones(t):
    """the elements of a frozen literal list, or None"""
    if t[0] in ('list', 'tuplist', 'set'):
        if all(s[0] == 'one' for s in t[1]):
            return [s[1] for s in t[1]]
        return None
    if t[0] == 'tuple':
        return list(t[1:])
    return None


def attrs(t):
    """the attributes of a frozen object"""
    return dict(t[2]) if t[0] == 'obj' else {}


def failures(p):
    """the uninterpreted calls that raised ValueError, those that raised
    something else, on a path"""
    bad, other = [], []
    for a, b in p.lits:
        if a[0] == 'raises':
            (bad if b else other).append(a[1][1])
    return bad, other


PLAIN = {'k', 's', 'tuple', 'list', 'tuplist', 'dict', 'set', 'nt', 'one',
         'kv', 'obj', 'cls', 'func', 'ext', 'mod', 'str', 'fmt', 'extexc',
         'excinst', 'boolv', 'bound', 'bmeth'}
ATOMS = {'eq', 'lt', 'le', 'in', 'truth', 'isnone', 'isinst', 'raises'}


def plain(t, want=None):
    """only made of constants, the symbols of the driver, constructors and
    calls of the driver's own uninterpreted functions (or of terms that the
    expected value has too): a difference is then a real one"""
    known = set(subterms(want)) if want is not None else set()

    def ok(t):
        if type(t) is not tuple or not t or t in known:
            return True
        h = t[0]
        if h == 'k' or h == 's':
            return True
        if h == 'call':
            return t[1][0] == 'ext' and t[1][1].startswith('opaque_') and \
                all(ok(x) for x in t[2]) and all(ok(v) for k, v in t[3])
        if type(h) is str and h not in PLAIN and h not in ATOMS:
            return False
        return all(ok(x) for x in t)
    return ok(t)


def norm(t):
    if type(t) is not tuple or not t:
        return t
    if t[0] == 'nt':
        return ('tuple',) + tuple(norm(x) for x in t[2:])
    if t[0] == 'call' and len(t) > 4:
        t = t[:4]
    if t[0] == 'tuplist' and all(s[0] == 'one' for s in t[1]):
        return ('tuple',) + tuple(norm(s[1]) for s in t[1])
    return tuple(norm(x) for x in t)


def compare(got, want):
    """True / message / None (outside the vocabulary)"""
    a, b = norm(got), norm(want)
    if a == b:
        return True
    if not plain(a, b):
        return None
    return 'gives %s instead of %s' % (pp(got)[:150], pp(want)[:150])


def drive(ctx, eng, rule, con, fn, args, check, shown=None, need=1, kw=(),
          **opts):
    """apply `check` to every path of a driver: True is fine, a text is a
    violation, None is undecided, 'skip' is not about this rule"""
    ps = paths(ctx, eng, rule, fn, args, kw, shown=shown or con, **opts)
    if ps is None:
        return None
    bad, und, n = [], [], 0
    for p in ps:
        r = check(p)
        if r == 'skip':
            continue
        n += 1
        if r is None:
            und.append('%s: %s %s' % (p.kind, pp(p.value)[:100], where(p)))
        elif r is not True:
            bad.append('%s %s' % (r, where(p)))
    if bad:
        ctx.violated(rule, con, '; '.join(bad[:3]))
    elif und or n < need:
        ctx.unknown(rule, con, und[0] if und else 'only %d paths' % n)
    else:
        ctx.proved(rule, con, '%d paths' % n)
    return ps


def partitions(n):
    """values of n symbols, up to renaming"""
    def rec(i, used):
        if i == n:
            yield ()
            return
        for v in range(used + 1):
            for rest in rec(i + 1, max(used, v + 1)):
                yield (v,) + rest
    return list(rec(0, 0))


def select(ps, env):
    """the paths taken under an assignment"""
    out = []
    for p in ps:
        try:
            if all(bool(evalt.lit(a, env)) == b for a, b in p.lits):
                out.append(p)
        except evalt.Unsup as e:
            return 'condition %s' % (str(e)[:120],)
        except evalt.Raised as e:
            continue
    return out or 'no path applies'


class Any(object):
    """an expected outcome that any value satisfies"""


def outcomes(ps, env, value=None):
    """the outcomes of the paths taken under an assignment: a list of
    ('return', python value, path) / ('raise', class name, path), or a text
    when they cannot be decided"""
    sel = select(ps, env)
    if isinstance(sel, str):
        return sel
    out = []
    for p in sel:
        if p.kind == 'raise':
            n = evalt.excname(p.value)
            out.append(('raise', n, p))
        elif p.kind == 'return':
            try:
                v = value(p, env) if value else evalt.ev(p.value, env)
            except evalt.Raised as e:
                out.append(('raise', e.name, p))
                continue
            except evalt.Unsup as e:
                return '%s in %s' % (str(e)[:80], pp(p.value)[:80])
            out.append(('return', v, p))
        else:
            return p.kind
    return out


def fits(cmp, got, want):
    """a value of another form than the one expected does not fit"""
    try:
        return cmp(got, want)
    except (TypeError, ValueError, LookupError, AttributeError):
        return False


def model(ctx, eng, rule, con, fn, args, envs, expect, show=str, shown=None,
          kw=(), value=None, need=1, cmp=None, **opts):
    """compare the summaries of a driver with a model of the specification
    at every assignment of a finite abstract domain.  expect(env) gives
    ('return', value) / ('raise', names) / None (not specified)"""
    ps = paths(ctx, eng, rule, fn, args, kw, shown=shown or con, **opts)
    if ps is None:
        return None
    bad, und, n = [], [], 0
    for env in envs:
        want = expect(env)
        if want is None:
            continue
        n += 1
        got = outcomes(ps, env, value)
        if want[0] == 'raise' and not isinstance(got, str) and any(
                g[:2] == ('raise', '?') for g in got):
            got = 'an exception of an unknown class'
        if isinstance(got, str):
            und.append('%s, for %s' % (got, show(env)[:120]))
            continue
        for g in got:
            if want[0] == 'raise':
                ok = g[0] == 'raise' and g[1] in want[1]
            else:
                ok = g[0] == 'return' and (
                    fits(cmp, g[1], want[1]) if cmp else g[1] == want[1])
            if not ok:
                bad.append('for %s: %ss %r instead of %s %r' % (
                    show(env)[:160], g[0], g[1], want[0], want[1]))
    if bad:
        ctx.violated(rule, con, '; '.join(bad[:3])[:900])
    elif und or n < need:
        ctx.unknown(rule, con, und[0] if und else 'only %d cases' % n)
    else:
        ctx.proved(rule, con, '%d paths, %d cases' % (len(ps), n))
    return ps


# models of the file system interface (world.py2)
FILES = {'__builtin__.open': 'open_file', '__builtin__.file': 'open_file',
         'StringIO.StringIO': 'String', 'cStringIO.StringIO': 'String',
         'tempfile.NamedTemporaryFile': 'Temp', 'zipfile.ZipFile': 'Zip',
         'os.path.exists': 'exists', 'os.path.isfile': 'isfile',
         'os.mkdir': 'mkdir', 'os.makedirs': 'mkdir', 'os.listdir': 'listdir',
         'os.path.join': 'join', 'os.path.basename': 'basename',
         'os.path.splitext': 'splitext', 'csv.reader': 'Reader',
         'csv.writer': 'Writer', 'os.path.isdir': 'isdir',
         'os.remove': 'remove', 'os.unlink': 'remove', 'os.fsync': 'fsync',
         'zipfile.is_zipfile': 'is_zipfile'}

# models of the NRML nodes
NODES = {'openquake.nrmllib.node.' + n: n for n in (
    'Node', 'node_from_nrml', 'node_from_xml', 'node_to_nrml')}
NODES['openquake.nrmllib.InvalidFile'] = 'InvalidFile'
for _n in ('VulnerabilityFunction', 'FragilityFunctionDiscrete',
           'FragilityFunctionContinuous'):
    NODES['openquake.risklib.scientific.' + _n] = 'accept'
NODES['sys.exit'] = 'sys_exit'
NODES['time.time'] = 'now'
WORLD = dict(FILES, **NODES)

# models of the XML and hazard libraries (models.py2)
REAL = {'lxml.etree.' + n: 'models.' + n for n in (
    'XMLSyntaxError', 'XMLSchema', 'XMLParser', 'fromstring', 'iterparse')}
for _pkg, _mods, _names in (
        ('source', 'point area simple_fault complex_fault characteristic '
         'rupture', 'PointSource AreaSource SimpleFaultSource '
         'ComplexFaultSource CharacteristicFaultSource Rupture'),
        ('geo', 'point line polygon nodalplane mesh surface surface.multi '
         'surface.planar surface.simple_fault surface.complex_fault',
         'Point Line Polygon NodalPlane Mesh SimpleFaultSurface '
         'ComplexFaultSurface PlanarSurface MultiSurface'),
        ('mfd', 'truncated_gr evenly_discretized base', 'TruncatedGRMFD '
         'EvenlyDiscretizedMFD BaseMFD'),
        ('pmf', '', 'PMF'), ('tom', '', 'PoissonTOM'),
        ('scalerel', '', 'get_available_magnitude_scalerel')):
    for _n in _names.split():
        for _m in [''] + ['.' + _x for _x in _mods.split()]:
            REAL['openquake.hazardlib.%s%s.%s' % (_pkg, _m, _n)] = \
                'models.' + _n
for _n in ('Point', 'Area', 'SimpleFault', 'ComplexFault', 'Characteristic'):
    REAL['openquake.nrmllib.models.%sSource' % _n] = 'models.Nrml%sSource' % _n
for _n in ('SimpleFaultRuptureModel', 'ComplexFaultRuptureModel',
           'PointGeometry', 'AreaGeometry', 'SimpleFaultGeometry',
           'ComplexFaultGeometry', 'TGRMFD', 'IncrementalMFD',
           'HypocentralDepth', 'SeismicSource'):
    REAL['openquake.nrmllib.models.' + _n] = 'models.' + _n
for _n in ('NodalPlane', 'PlanarSurface', 'Point'):
    REAL['openquake.nrmllib.models.' + _n] = 'models.Nrml' + _n
REAL.update({
    'shapely.wkt.loads': 'models.loads',
    'openquake.nrmllib.hazard.parsers.SourceModelParser':
    'models.SourceModelParser',
    'openquake.nrmllib.NAMESPACE': 'models.NAMESPACE',
    'openquake.nrmllib.nrml_schema_file': 'models.nrml_schema_file',
    'openquake.hazardlib.gsim.get_available_gsims':
    'models.get_available_gsims',
    'random.Random': 'models.Random'})
