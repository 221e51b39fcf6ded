"""Stand-ins, for the demonstrations, of lxml, shapely, nrmllib, hazardlib and
risklib, none of which is installed.  Importing this module installs them;
only what the library under test needs is there."""
import os
import random
import re
import sys
import types
import stubs
from stubs import mod, Anything
from xml.sax import make_parser, handler, SAXParseException
import StringIO

# models.py is shared: plain classes with the constructors of the libraries
sys.modules.setdefault('world', types.ModuleType('world'))
import models


# ------------------------------------------------------------------ lxml
class Builder(handler.ContentHandler):
    def __init__(self):
        self.stack = [['', {}, '', [], 0]]
        self.ns = [{}]

    def setDocumentLocator(self, loc):
        self.loc = loc

    def name(self, qname, default=True):
        prefix, _, local = qname.rpartition(':')
        uri = self.ns[-1].get(prefix)
        return '{%s}%s' % (uri, local) if uri and (prefix or default) \
            else local

    def startElement(self, qname, attrs):
        ns = dict(self.ns[-1])
        plain = {}
        for k in attrs.getNames():
            v = attrs.getValue(k)
            if k == 'xmlns':
                ns[''] = str(v)
            elif k.startswith('xmlns:'):
                ns[k[6:]] = str(v)
            else:
                plain[k] = v
        self.ns.append(ns)
        attrib = dict((str(self.name(k, False)), str(v))
                      for k, v in plain.items())
        self.stack.append([str(self.name(qname)), attrib, '', [],
                           self.loc.getLineNumber()])

    def characters(self, text):
        self.stack[-1][2] += text

    def endElement(self, qname):
        self.ns.pop()
        tag, attrib, text, nodes, line = self.stack.pop()
        self.stack[-1][3].append(Elem(tag, attrib, text or None, nodes, line))


class Elem(models.XElement):
    pass


def parse_text(text):
    b = Builder()
    p = make_parser()
    p.setFeature(handler.feature_external_ges, False)
    p.setContentHandler(b)
    try:
        p.parse(StringIO.StringIO(text))
    except SAXParseException as exc:
        raise models.XMLSyntaxError(str(exc.getMessage()))
    return b.stack[0][3][0]


def read(source):
    if hasattr(source, 'read'):
        return source.read()
    with open(source) as f:
        return f.read()


class iterparse(object):
    def __init__(self, source, events=('end',), tag=None, schema=None):
        self.source, self.tag, self.events = source, tag, None

    def __iter__(self):
        return self

    def next(self):
        if self.events is None:
            self.events = iter(models.walk(parse_text(read(self.source)),
                                           self.tag))
        return 'end', next(self.events)


mod('lxml')
mod('lxml.etree', XMLSyntaxError=models.XMLSyntaxError,
    XMLSchema=models.XMLSchema, XMLParser=models.XMLParser,
    fromstring=lambda s, parser=None: parse_text(s), iterparse=iterparse,
    parse=lambda f: models.ElementTree(parse_text(read(f))))


# ------------------------------------------------------------- nrmllib.node
class Node(object):
    def __init__(self, fulltag, attrib=None, text=None, nodes=None,
                 lineno=None):
        self.tag = fulltag.split('}')[-1]
        self.attrib = {} if attrib is None else attrib
        self.text = text
        self.nodes = [] if nodes is None else nodes
        self.lineno = lineno

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        for node in self.nodes:
            if node.tag == name:
                return node
        raise NameError('No subnode named %r found in %r' % (name, self.tag))

    def getnodes(self, name):
        return (n for n in self.nodes if n.tag == name)

    def append(self, node):
        self.nodes.append(node)

    def __getitem__(self, i):
        return self.attrib[i] if isinstance(i, basestring) else self.nodes[i]

    def __setitem__(self, i, value):
        if isinstance(i, basestring):
            self.attrib[i] = value
        else:
            self.nodes[i] = value

    def __iter__(self):
        return iter(self.nodes)

    def __len__(self):
        return len(self.nodes)

    def __nonzero__(self):
        return True

    def show(self, depth=0):
        yield '%s%s %s %r' % ('  ' * depth, self.tag, sorted(
            self.attrib.items()), (self.text or '').strip())
        for n in self.nodes:
            for line in n.show(depth + 1):
                yield line

    def __repr__(self):
        return '\n'.join(self.show())


def to_node(el):
    return Node(el.tag, dict(el.attrib), (el.text or '').strip() or None,
                [to_node(n) for n in el.nodes], el.sourceline)


def escape(s, q=False):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    return s.replace('"', '&quot;').replace('\n', '&#10;') if q else s


def write(node, out):
    out.write('<%s%s>' % (node.tag, ''.join(
        ' %s="%s"' % (k, escape(str(v), True))
        for k, v in sorted(node.attrib.items()))))
    if node.text is not None:
        out.write(escape(str(node.text)))
    for n in node.nodes:
        write(n, out)
    out.write('</%s>\n' % node.tag)


def node_to_nrml(node, output):
    output.write('<nrml xmlns="%s" xmlns:gml="http://www.opengis.net/gml">\n'
                 % models.NAMESPACE)
    write(node, output)
    output.write('</nrml>\n')


class InvalidFile(Exception):
    pass


nrmllib = mod('openquake.nrmllib', NAMESPACE=models.NAMESPACE,
              PARSE_NS_MAP=models.PARSE_NS_MAP, InvalidFile=InvalidFile,
              nrml_schema_file=models.nrml_schema_file, SERIALIZE_NS_MAP={})
mod('openquake.nrmllib.node', Node=Node, LiteralNode=Node,
    node_from_xml=lambda f: to_node(parse_text(read(f))),
    node_from_nrml=lambda f: to_node(parse_text(read(f))),
    node_to_nrml=node_to_nrml)


# ------------------------------------------- nrmllib.models and the parsers
class Data(object):
    """an object with the attributes given"""
    def __init__(self, **kw):
        self.__dict__.update(kw)


def data(name, *bases):
    return type(name, bases or (Data,), {})

PointSource = data('PointSource')
SimpleFaultSource = data('SimpleFaultSource')
SimpleFaultRuptureModel = data('SimpleFaultRuptureModel')
nm = mod('openquake.nrmllib.models', PointSource=PointSource,
         AreaSource=data('AreaSource', PointSource),
         SimpleFaultSource=SimpleFaultSource,
         ComplexFaultSource=data('ComplexFaultSource', SimpleFaultSource),
         CharacteristicSource=data('CharacteristicSource'),
         SimpleFaultRuptureModel=SimpleFaultRuptureModel,
         ComplexFaultRuptureModel=data('ComplexFaultRuptureModel',
                                       SimpleFaultRuptureModel),
         **dict((n, data(n)) for n in (
             'PointGeometry AreaGeometry SimpleFaultGeometry '
             'ComplexFaultGeometry TGRMFD IncrementalMFD NodalPlane '
             'HypocentralDepth PlanarSurface Point').split()))

mod('openquake.nrmllib.hazard')
mod('openquake.nrmllib.hazard.parsers',
    SourceModelParser=models.SourceModelParser)
risk_records = {}       # path -> what the parser of the risk models gives
mod('openquake.nrmllib.risk')
mod('openquake.nrmllib.risk.parsers',
    VulnerabilityModelParser=lambda f: iter(risk_records[f]),
    FragilityModelParser=lambda f: iter(risk_records[f]))


# ------------------------------------------------------------------ shapely
def loads(text):
    coords = [tuple(map(float, c.split())) for c in re.findall(
        r'[-\d.]+(?:\s+[-\d.]+)+', text)]
    if not coords:
        raise models.ReadingError(text)
    return models.Shape(coords)

mod('shapely')
mod('shapely.wkt', loads=loads)


# ---------------------------------------------------------------- hazardlib
hz = mod('openquake.hazardlib')
for pkg, mods, names in (
        ('source', 'point area simple_fault complex_fault characteristic '
         'rupture base', 'PointSource AreaSource SimpleFaultSource '
         'ComplexFaultSource CharacteristicFaultSource Rupture'),
        ('geo', 'point line polygon nodalplane mesh surface surface.multi '
         'surface.planar surface.simple_fault surface.complex_fault',
         'Point Line Polygon NodalPlane Mesh SimpleFaultSurface '
         'ComplexFaultSurface PlanarSurface MultiSurface'),
        ('mfd', 'truncated_gr evenly_discretized base', 'TruncatedGRMFD '
         'EvenlyDiscretizedMFD BaseMFD'),
        ('pmf', '', 'PMF'), ('tom', '', 'PoissonTOM'),
        ('scalerel', '', 'get_available_magnitude_scalerel')):
    for m in [''] + ['.' + x for x in mods.split()]:
        mod('openquake.hazardlib.%s%s' % (pkg, m),
            **dict((n, getattr(models, n)) for n in names.split()))


class GSIM(object):
    pass

GSIMS = dict((n, type(n, (GSIM,), {})) for n in (
    'GsimA', 'GsimB', 'GsimC', 'GsimD'))
mod('openquake.hazardlib.gsim', get_available_gsims=lambda: dict(GSIMS))
mod('openquake.hazardlib.gsim.base', GroundShakingIntensityModel=GSIM)


# ------------------------------------------------------------------ risklib
class Function(Anything):
    def __init__(self, *args, **kw):
        self.args = args

    def __repr__(self):
        return '%s%r' % (self.__class__.__name__, self.args)


class VulnerabilityFunction(Function):
    def __init__(self, imt, imls, mean_loss_ratios, covs=None,
                 distribution="LN"):
        self.args = (imt, imls, mean_loss_ratios, covs, distribution)
        if sorted(set(imls)) != list(imls):
            raise ValueError('imls not sorted')
        if not len(imls) == len(mean_loss_ratios) == len(covs):
            raise ValueError('wrong lengths')


mod('openquake.risklib')
mod('openquake.risklib.scientific',
    VulnerabilityFunction=VulnerabilityFunction,
    FragilityFunctionDiscrete=type('FragilityFunctionDiscrete', (Function,),
                                   {}),
    FragilityFunctionContinuous=type('FragilityFunctionContinuous',
                                     (Function,), {}))
mod('openquake.risklib.workflows',
    **dict((n, type(n, (Function,), {})) for n in (
        'Scenario', 'Damage', 'RiskModel')))


def scratch(name, text=None):
    """the path of a file of the scratch directory"""
    path = os.path.join(os.environ['SCRATCH'], name)
    if text is not None:
        d = os.path.dirname(path)
        if not os.path.exists(d):
            os.makedirs(d)
        with open(path, 'w') as f:
            f.write(text)
    return path
