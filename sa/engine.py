"""Path-sensitive dataflow analysis (abstract interpretation) of the Python 2
sources.  Abstract values are provenance terms; every path of a function is
followed with the branch facts that hold on it, loops are summarised from one
pass over their body on havocked inputs (iterated to a fixpoint of the set of
locations the body may change), calls to repository functions are followed
through, everything else is an uninterpreted operation recorded as an event.
Nothing is executed and no solver is used.
"""
from collections import namedtuple
import itertools
import os
import time

import front
from front import AnalysisBroken, N
from terms import (K, NONE, TRUE, FALSE, isk, kval, iskstr, isknum, isref,
                   subst, mentions, contains, pp)

Ev = namedtuple('Ev', 'kind fn args kw res node fq depth')


MODELS = ('world', 'models')    # modules standing for the libraries used
MODEL_FILES = ('world.py2', 'models.py2')
REACHED = set()  # (file, line) of the statements followed


# models with the parameters of the function they stand for
EXACT = {'models.BaseMFD.modify'} | {
    'models.%s.__init__' % c for c in (
        'PointSource', 'AreaSource', 'SimpleFaultSource',
        'ComplexFaultSource', 'CharacteristicFaultSource',
        'EvenlyDiscretizedMFD', 'TruncatedGRMFD', 'Point', 'Line', 'Polygon',
        'NodalPlane', 'PlanarSurface', 'MultiSurface', 'PMF', 'PoissonTOM')}
PY2 = {'str': {'decode'}, 'dict': {'has_key', 'iteritems', 'iterkeys',
                                   'itervalues', 'viewitems', 'viewkeys',
                                   'viewvalues'},
       'float': set(), 'int': set(), 'bool': set(), 'list': set(),
       'tuple': set(), 'set': set()}
TYPES = {'str': str, 'dict': dict, 'float': float, 'int': int, 'bool': bool,
         'list': list, 'tuple': tuple, 'set': set, 'tuplist': tuple}


def lacks(kind, name):
    """no attribute of the values of a builtin type"""
    return kind in TYPES and not name.startswith('__') and \
        not hasattr(TYPES[kind], name) and \
        name not in PY2['tuple' if kind == 'tuplist' else kind]


class ModuleRaises(AnalysisBroken):
    """The statements of a module end in an exception."""

    def __init__(self, module, outs, text):
        AnalysisBroken.__init__(self, text)
        self.module = module
        self.outs = outs


class Blowup(Exception):
    """too many paths: the analysis gives no answer for this entry"""


class X(object):
    """non-local exit from an expression"""
    __slots__ = ('kind', 'val')

    def __init__(self, kind, val):
        self.kind = kind
        self.val = val

    def __repr__(self):
        return 'X(%s,%s)' % (self.kind, pp(self.val))


class Obj(object):
    __slots__ = ('kind', 'cls', 'attrs', 'segs')

    def __init__(self, kind, cls=None, attrs=None, segs=()):
        self.kind = kind
        self.cls = cls
        self.attrs = attrs or {}
        self.segs = segs

    def clone(self, **kw):
        o = Obj(self.kind, self.cls, self.attrs, self.segs)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def __eq__(self, other):
        return (self is other or (
            self.kind == other.kind and self.cls == other.cls
            and self.attrs == other.attrs and self.segs == other.segs))

    def __ne__(self, other):
        return not self == other

    __hash__ = None


class St(object):
    __slots__ = ('envs', 'heap', 'over', 'cont', 'facts', 'lits', 'ev', 'occ')

    def __init__(self):
        self.envs = {}
        self.heap = {}
        self.over = {}
        self.cont = {}
        self.facts = {}
        self.lits = ()
        self.ev = ()
        self.occ = {}

    def fork(self):
        s = St.__new__(St)
        s.envs = dict(self.envs)
        s.heap = dict(self.heap)
        s.over = dict(self.over)
        s.cont = dict(self.cont)
        s.facts = dict(self.facts)
        s.lits = self.lits
        s.ev = self.ev
        s.occ = dict(self.occ)
        return s

    def same(self, o):
        return (self.ev == o.ev and self.envs == o.envs
                and self.heap == o.heap and self.over == o.over
                and self.cont == o.cont)

    def setvar(self, env, name, v):
        d = dict(self.envs[env])
        d[name] = v
        self.envs[env] = d


class FuncInfo(object):
    def __init__(self, fid, node, module, qual, cls):
        self.fid = fid
        self.node = node
        self.module = module
        self.qual = qual
        self.cls = cls
        self.abstract = False
        body = node.body if isinstance(node.body, list) else [node.body]
        self.isgen = any(_has_yield(b) for b in body)
        self.globals = set()
        self.locals = _locals(node)


def _has_yield(n):
    if n._ == 'Yield':
        return True
    if n._ in ('FunctionDef', 'Lambda', 'ClassDef', 'GeneratorExp'):
        return False
    return any(_has_yield(c) for c in n.children())


def target_names(t):
    if t._ == 'Name':
        yield t.id
    elif t._ in ('Tuple', 'List'):
        for e in t.elts:
            yield from target_names(e)


def _locals(node):
    """names bound in the scope of a function"""
    names = set()
    a = node.args
    for p in a.args:
        names.update(target_names(p))
    if a.vararg:
        names.add(a.vararg)
    if a.kwarg:
        names.add(a.kwarg)
    body = node.body if isinstance(node.body, list) else [node.body]
    glob = set()

    def visit(n):
        if n._ in ('FunctionDef', 'ClassDef'):
            names.add(n.name)
            return
        if n._ in ('Lambda', 'GeneratorExp'):
            return
        if n._ == 'Global':
            glob.update(n.names)
        if n._ == 'Name' and n.ctx in ('Store', 'Del', 'Param') or (
                n._ == 'Name' and isinstance(n.ctx, N)
                and n.ctx._ in ('Store', 'Del', 'Param')):
            names.add(n.id)
        if n._ in ('Import', 'ImportFrom'):
            for al in n.names:
                names.add((al.asname or al.name).split('.')[0])
        for c in n.children():
            visit(c)
    for b in body:
        visit(b)
    return names - glob


class Frame(object):
    __slots__ = ('env', 'func', 'module', 'yielder', 'captured', 'parent',
                 'clsname')

    def __init__(self, env, func, module, yielder=None, parent=None):
        self.env = env
        self.func = func
        self.module = module
        self.yielder = yielder
        self.captured = False
        self.parent = parent
        self.clsname = None


class Path(object):
    """One summarised path of an analysed entry point"""

    def __init__(self, kind, value, raw, st):
        self.kind = kind        # return | raise
        self.value = value      # frozen term
        self.raw = raw
        self.st = st
        self.lits = st.lits
        self.ev = st.ev

    def __repr__(self):
        return '[%s] -> %s %s' % (
            ' & '.join(('' if b else 'not ') + pp(a) for a, b in self.lits),
            self.kind, pp(self.value))


class LoopInfo(object):
    """summary of a loop: the set of body paths"""

    def __init__(self, key, paths, phis):
        self.key = key
        self.paths = paths      # list of (lits, events, ctl, updates)
        self.phis = phis        # loc -> initial value

    def __eq__(self, o):
        return self is o or (isinstance(o, LoopInfo) and self.key == o.key
                             and self.paths == o.paths)

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return '<loop over %s: %d paths>' % (pp(self.key), len(self.paths))


# subclass relations between classes of the external packages which the
# documentation of the code states (child -> parents)
EXT_BASES = {
    'openquake.nrmllib.models.AreaSource':
        'openquake.nrmllib.models.PointSource',
    'openquake.nrmllib.models.ComplexFaultSource':
        'openquake.nrmllib.models.SimpleFaultSource',
    'openquake.nrmllib.models.ComplexFaultRuptureModel':
        'openquake.nrmllib.models.SimpleFaultRuptureModel',
    'openquake.nrmllib.models.ComplexFaultGeometry':
        'openquake.nrmllib.models.SimpleFaultGeometry',
    'openquake.hazardlib.source.AreaSource':
        'openquake.hazardlib.source.PointSource',
}
# families of classes an object belongs to exactly one branch of
EXT_FAMILIES = [
    ['openquake.nrmllib.models.' + x for x in
     ('PointSource', 'AreaSource', 'SimpleFaultSource', 'ComplexFaultSource',
      'CharacteristicSource', 'SimpleFaultRuptureModel',
      'ComplexFaultRuptureModel')],
    ['openquake.hazardlib.source.' + x for x in
     ('PointSource', 'AreaSource', 'SimpleFaultSource', 'ComplexFaultSource',
      'CharacteristicFaultSource')],
    ['openquake.nrmllib.models.' + x for x in
     ('SimpleFaultGeometry', 'ComplexFaultGeometry', 'PlanarSurface')],
    ['openquake.nrmllib.models.' + x for x in ('TGRMFD', 'IncrementalMFD')],
    ['openquake.hazardlib.mfd.' + x for x in
     ('TruncatedGRMFD', 'EvenlyDiscretizedMFD')],
]


EXC_BASES = {
    'KeyError': 'LookupError', 'IndexError': 'LookupError',
    'LookupError': 'StandardError', 'ValueError': 'StandardError',
    'UnicodeError': 'ValueError', 'UnicodeDecodeError': 'UnicodeError',
    'UnicodeEncodeError': 'UnicodeError',
    'TypeError': 'StandardError', 'AttributeError': 'StandardError',
    'NameError': 'StandardError', 'AssertionError': 'StandardError',
    'UnboundLocalError': 'NameError',
    'ArithmeticError': 'StandardError', 'OverflowError': 'ArithmeticError',
    'ZeroDivisionError': 'ArithmeticError', 'IOError': 'EnvironmentError',
    'OSError': 'EnvironmentError', 'EnvironmentError': 'StandardError',
    'RuntimeError': 'StandardError', 'NotImplementedError': 'RuntimeError',
    'StandardError': 'Exception', 'StopIteration': 'Exception',
    'Exception': 'BaseException', 'KeyboardInterrupt': 'BaseException',
    'SystemExit': 'BaseException', 'GeneratorExit': 'BaseException',
}


def exc_is(name, base):
    """is the builtin exception class `name` a subclass of `base`"""
    while name:
        if name == base:
            return True
        name = EXC_BASES.get(name)
    return False


def bare(extname):
    return extname.replace('__builtin__.', '').replace('exceptions.', '')


def first(kv):
    return kv[0]


def seg_values(segs):
    for s in segs or ():
        if s[0] == 'one':
            yield s[1]
        elif s[0] == 'kv':
            yield s[2]
        elif s[0] == 'each':
            for l, inner in s[2]:
                yield from seg_values(inner)


CONTAINERS = ('list', 'tuple', 'dict', 'set')


def plain_key(t):
    """(types, value) of a string or a tuple of strings and numbers"""
    if iskstr(t):
        return 'str', t[2]
    if isknum(t) and kval(t) == kval(t):
        return 'num', kval(t)
    if t[0] == 'tuple':
        ks = [plain_key(x) for x in t[1:]]
        if None not in ks:
            return tuple(k[0] for k in ks), tuple(k[1] for k in ks)
    return None


class Engine(object):
    BLOWUP = Blowup
    MAXSTATES = 600
    MAXSTEPS = 60000
    MAXTIME = 60
    UNTIL = None         # wall clock limit of the whole check
    steps = 0
    MAXDEPTH = 24
    UNROLL = 10
    dictrev = False

    def __init__(self, mods, digest=None):
        import lib
        self.lib = lib
        self.mods = mods
        self.ids = itertools.count(1)
        self.pure = {}        # id -> term without references
        self.funcs = {}       # fid -> FuncInfo
        self.defaults = {}    # func term -> list of default terms
        self.clsinfo = {}     # cid -> dict(name, module, node)
        self.modenv = {}      # module -> env id
        self.truediv = set()  # modules with true division
        self.catching = []    # stack of handler descriptions
        self.stack = []       # functions being followed
        self.active = []      # active loop keys
        self.opaque = set()   # qualnames of functions never followed
        self.types = {}       # term -> class id (rule supplied)
        self.attrtypes = {}   # (class simple name, attr) -> class id or 'list:C'
        self.valtype = {}
        self.strict_none = False
        self.strict_val = False
        self.strict_key = False
        self.force_key = 0
        self.hazards = False
        self.watch = set()
        self.dicts = set()
        self.pending_class = None
        self.recursion = 1
        self.rawnames = {}
        self.base = St()
        self.curnode = None
        self.warnings = []
        self.stats = dict(paths=0, calls=0, loops=0, functions=set())
        self.loading = True
        self.steps = 0
        self.deadline = time.process_time() + self.MAXTIME
        order = self._order()
        self.base_modules(order)
        self.loading = False

    # ------------------------------------------------------------ loading
    def _order(self):
        """modules in import order"""
        order = []
        seen = set()

        def visit(m):
            if m in seen:
                return
            seen.add(m)
            for n in self.mods[m].walk():
                if n._ == 'Import':
                    for al in n.names:
                        if al.name in self.mods:
                            visit(al.name)
                elif n._ == 'ImportFrom':
                    base = n.module or ''
                    if base in self.mods:
                        visit(base)
                    for al in n.names:
                        full = base + '.' + al.name
                        if full in self.mods:
                            visit(full)
            order.append(m)
        visit('prelude')
        for m in self.real.values():
            visit(m.split('.')[0])
        for m in sorted(self.mods):
            visit(m)
        return order

    def newid(self, hint):
        return '%s#%d' % (hint, next(self.ids))

    def base_modules(self, order):
        st = self.base
        for m in order:
            env = 'mod:' + m
            st.envs[env] = {'__name__': K(m), '__file__': K(m),
                            '__builtins__': ('ext', '__builtin__')}
            self.modenv[m] = env
        for m in order:
            fr = Frame(self.modenv[m], None, m)
            outs = self.block(self.mods[m].body, st, fr)
            good = [s for s, c in outs if c is None]
            if not good:
                raise ModuleRaises(
                    m, outs, 'module %s cannot be initialised: %s' % (
                        m, [str(c) for s, c in outs]))
            st = good[0]
        st.ev = ()
        st.lits = ()
        st.facts = {}
        st.occ = {}
        self.base = st

    # ------------------------------------------------------------ lookup
    def module_attr(self, mod, name):
        env = self.modenv.get(mod)
        return self.base.envs[env].get(name)

    def find(self, dotted):
        """term of a module level object 'module.name' or 'module.C.m'"""
        parts = dotted.split('.')
        for i in range(len(parts) - 1, 0, -1):
            m = '.'.join(parts[:i])
            if m in self.modenv:
                v = self.module_attr(m, parts[i])
                for p in parts[i + 1:]:
                    if v is None:
                        return None
                    if v[0] == 'cls':
                        v = self.class_lookup(self.base, v[1], p)[0]
                    else:
                        return None
                return v
        return None

    def require(self, dotted):
        v = self.find(dotted)
        if v is None:
            raise AnalysisBroken('anchor %s not found' % dotted)
        return v

    # ------------------------------------------------------------ classes
    def mro(self, st, cid):
        out = [cid]
        for b in st.heap[cid].attrs.get('__bases__', ('tuple',))[1:]:
            if b[0] == 'cls':
                for c in self.mro(st, b[1]):
                    if c not in out:
                        out.append(c)
            elif b not in out:
                out.append(b)
        return out

    def class_lookup(self, st, cid, name, after=None):
        """-> (value, owner class) following the mro"""
        mro = self.mro(st, cid)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for c in mro:
            if isinstance(c, tuple):
                continue
            d = st.heap[c].attrs
            if name in d:
                return d[name], c
        return None, None

    def ext_bases(self, st, cid):
        return [c for c in self.mro(st, cid) if isinstance(c, tuple)]

    def classname(self, cid):
        return self.clsinfo[cid]['name']

    def qualcls(self, cid):
        i = self.clsinfo[cid]
        return '%s.%s' % (i['module'], i['name'])

    def cid(self, dotted):
        v = self.require(dotted)
        if v[0] != 'cls':
            raise AnalysisBroken('%s is not a class' % dotted)
        return v[1]

    def typeof(self, st, t):
        """class id of the value of a term, if known"""
        if isref(t):
            o = st.heap.get(t[1])
            return o.cls if o is not None and o.kind == 'inst' else None
        if t in self.types:
            return self.types[t]
        r = st.facts.get(('typed', t))
        if r:
            return r
        h = t[0]
        if h == 'attr':
            bt = self.typeof(st, t[1])
            if bt:
                for c in self.mro(st, bt):
                    if isinstance(c, tuple):
                        continue
                    r = self.attrtypes.get((self.classname(c), t[2]))
                    if r and not r.startswith('list:'):
                        return self.cid(r)
        elif h in ('elem', 'item'):
            if t[1] in self.types_elem:
                return self.types_elem[t[1]]
            b = t[1]
            if b[0] == 'attr':
                bt = self.typeof(st, b[1])
                if bt:
                    for c in self.mro(st, bt):
                        if isinstance(c, tuple):
                            continue
                        r = self.attrtypes.get((self.classname(c), b[2]))
                        if r and r.startswith('list:'):
                            return self.cid(r[5:])
            if b[0] == 'base' and b[1] in self.valtype:
                return self.valtype[b[1]]
        elif h == 'fold':
            ts = set(self.typeof(st, x[1]) for x in t[3])
            ts.add(self.typeof(st, t[2]) if t[2] != NONE else None)
            ts.discard(None)
            if len(ts) == 1:
                return ts.pop()
        elif h in ('phi', 'acc'):
            return self.valtype.get(t)
        elif h == 'nt':
            return t[1]
        return None

    types_elem = {}

    # ------------------------------------------------------------ heap
    def alloc(self, st, kind, cls=None, attrs=None, segs=()):
        oid = self.newid(kind)
        st.heap[oid] = Obj(kind, cls, attrs, segs)
        return ('ref', oid)

    def obj(self, st, t):
        return st.heap[t[1]] if isref(t) else None

    def setobj(self, st, t, **kw):
        st.heap[t[1]] = st.heap[t[1]].clone(**kw)

    def mklist(self, st, vals, kind='list'):
        return self.alloc(st, kind, segs=tuple(('one', v) for v in vals))

    # contents of containers (heap containers or lifted external ones)
    def segs(self, st, t):
        """segments of a container value, or None"""
        if isref(t):
            o = st.heap[t[1]]
            if o.kind in ('list', 'set', 'dict', 'tuplist') or (
                    o.kind == 'inst' and o.segs is not None
                    and self.is_listclass(st, o.cls)):
                return o.segs
            return None
        if t in st.cont:
            return st.cont[t][1]
        if t[0] == 'tuple':
            return tuple(('one', v) for v in t[1:])
        if t[0] == 'nt':
            return tuple(('one', v) for v in t[2:])
        if t[0] in ('list', 'set', 'dict', 'tuplist'):
            return t[1]
        return None

    def is_listclass(self, st, cid):
        return any(b == ('ext', '__builtin__.list') or
                   b == ('ext', '__builtin__.dict')
                   for b in self.ext_bases(st, cid))

    def ckind(self, st, t):
        if isref(t):
            o = st.heap[t[1]]
            if o.kind == 'inst' and self.is_listclass(st, o.cls):
                return 'list'
            return o.kind
        if t in st.cont:
            return st.cont[t][0]
        if t[0] in ('tuple', 'nt', 'tuplist'):
            return 'tuple'
        if t[0] in ('list', 'set', 'dict'):
            return t[0]
        return None

    def setsegs(self, st, t, segs, kind=None):
        if isref(t):
            self.setobj(st, t, segs=tuple(segs))
        else:
            k = kind or (st.cont[t][0] if t in st.cont else 'list')
            st.cont[t] = (k, tuple(segs))

    def lift(self, st, t, kind):
        """contents of an external container about to be changed"""
        if not isref(t) and t not in st.cont:
            st.cont[t] = (kind, (('splat', t),))

    def freeze(self, st, v, seen=()):
        """value term with the heap contents substituted"""
        if type(v) is not tuple or not v:
            return v
        pure = self.pure
        if id(v) in pure:
            return v
        h = v[0]
        if h == 'ref':
            oid = v[1]
            if oid in seen:
                return ('cyc',)
            o = st.heap.get(oid)
            if o is None:
                return v
            seen = seen + (oid,)
            if o.kind in ('list', 'set', 'dict', 'tuplist'):
                return self.freeze(st, (o.kind, o.segs), seen)
            if o.kind == 'inst':
                extra = ()
                if self.is_listclass(st, o.cls):
                    extra = (('<items>', ('list', o.segs)),)
                return self.freeze(st, ('obj', self.qualcls(o.cls), tuple(
                    sorted(o.attrs.items(), key=first)) + extra), seen)
            if o.kind in ('gen', 'genexp'):
                return self.freeze(st, (
                    'gen', o.attrs.get('qual', '?'),
                    o.attrs.get('args', ())), seen)
            if o.kind == 'iter':
                return self.freeze(st, ('iter', o.attrs['op']) + tuple(
                    o.attrs['args']), seen)
            if o.kind == 'mod':
                return v
            return ('heap', o.kind)
        if h == 'k' or h == 's' or h == 'ext':
            return v
        if h in ('func',):
            f = self.funcs.get(v[1])
            r = v if f is None else ('func', f.qual)
            pure[id(r)] = r
            return r
        if h == 'cls':
            return v
        if h == 'bound':
            pass
        if h == 'nt':
            v = ('tuple',) + v[2:]
        r = []
        same = ok = True
        for x in v:
            if type(x) is tuple and x and id(x) not in pure:
                y = self.freeze(st, x, seen)
                if y is not x:
                    same = False
                if id(y) not in pure and y[:1] not in self.LEAVES:
                    ok = False
                r.append(y)
            else:
                r.append(x)
        r = v if same else tuple(r)
        if ok:
            pure[id(r)] = r
        return r

    LEAVES = {('k',), ('s',), ('ext',), ('cls',), ()}

    # ------------------------------------------------------------ facts
    def fact(self, st, atom):
        """True/False/None"""
        f = st.facts
        if atom in f:
            return f[atom]
        h = atom[0]
        if self.prims and h in ('isinst', 'hasattr', 'isnone', 'callable',
                                'isclass'):
            r = self.prim_fact(atom)
            if r is not None:
                return r
        if h == 'eq':
            a, b = atom[1], atom[2]
            if a == b:
                return True
            if isk(a) and isk(b):
                if isknum(a) and isknum(b):
                    return kval(a) == kval(b)
                return a[1] == b[1] and a[2] == b[2]
            if isk(b):
                for (at, v) in f.items():
                    if v and at[0] == 'eq' and at[1] == a and isk(at[2]) \
                            and at[2] != b:
                        if not (isknum(at[2]) and isknum(b)):
                            return False
                        return kval(at[2]) == kval(b)
                if b == NONE:
                    return self.fact(st, ('isnone', a))
                if f.get(('isnone', a)) is True:
                    return False
                t = f.get(('truth', a))
                if t is not None and bool(kval(b)) != t and b[1] in (
                        'str', 'int', 'float'):
                    return False
        elif h == 'isnone':
            a = atom[1]
            if a == NONE:
                return True
            if self.notnone(st, a):
                return False
            if f.get(('truth', a)) is True:
                return False
            for at, v in f.items():
                if v and at[0] == 'eq' and at[1] == a and isk(at[2]):
                    return False
                if v and at[0] == 'isinst' and at[1] == a:
                    return False
        elif h == 'truth':
            a = atom[1]
            if f.get(('isnone', a)) is True:
                return False
            for at, v in f.items():
                if v and at[0] == 'eq' and at[1] == a and isk(at[2]):
                    return bool(kval(at[2]))
                if v and at[0] == 'eq' and at[2] == a and isk(at[1]):
                    return bool(kval(at[1]))
        elif h == 'isinst':
            return self.isinst_fact(st, atom[1], atom[2])
        elif h == 'in':
            if atom[2] == ('list', ()):
                return False
        elif h in ('lt', 'le'):
            a, b = atom[1], atom[2]
            if isknum(a) and isknum(b):
                return kval(a) < kval(b) if h == 'lt' else kval(a) <= kval(b)
            x, y = plain_key(a), plain_key(b)
            if x is not None and y is not None and x[0] == y[0]:
                return x[1] < y[1] if h == 'lt' else x[1] <= y[1]
            if a == b and h == 'lt':
                return False
        return None

    real = {}              # {external name: 'module.name' of its model}
    stubs = {}             # {external function: its model in world.py2}
    strict_exc = False     # not every exception is an Exception
    prims = {}             # {term: name of a primitive type}

    def prim_fact(self, atom):
        """what the declared primitive type of a term settles"""
        t = self.prims.get(atom[1])
        if t is None:
            return None
        h = atom[0]
        if h in ('isnone', 'callable', 'isclass'):
            return h == 'isnone' and t == 'NoneType'
        if h == 'isinst':
            n = atom[2].replace('__builtin__.', '')
            if n in ('collections.Iterable', 'collections.Sized',
                     'collections.Sequence', 'collections.Container'):
                return t == 'str'
            return n in {'str': ('str', 'basestring'), 'bool': ('bool', 'int'),
                         }.get(t, (t,)) or n == 'object'
        n = atom[2]
        n = kval(n) if isk(n) else n
        v = {'float': 1.0, 'int': 1, 'str': '', 'bool': True, 'long': 1,
             'complex': 1j}.get(t)
        return hasattr(v, n) and n not in ('__iter__', '__dict__')

    def notnone(self, st, a):
        if isk(a):
            return a != NONE
        if isref(a):
            return True
        return a[0] in ('tuple', 'list', 'dict', 'set', 'str', 'func',
                        'cls', 'bound', 'nt', 'tuplist', 'obj', 'mod',
                        'bin', 'idx')

    def isinst_fact(self, st, t, cname):
        f = st.facts
        r = f.get(('isinst', t, cname))
        if r is not None:
            return r
        if f.get(('isnone', t)) is True:
            return False
        for at, v in f.items():
            if at[0] != 'isinst' or at[1] != t:
                continue
            other = at[2]
            if v and self.ext_sub(other, cname):
                return True
            if not v and self.ext_sub(cname, other):
                return False
            if v and not self.ext_sub(cname, other):
                for fam in EXT_FAMILIES:
                    if cname in fam and other in fam:
                        return False
        return None

    @staticmethod
    def ext_sub(a, b):
        while a:
            if a == b:
                return True
            a = EXT_BASES.get(a)
        return False

    def assume(self, st, atom):
        """-> list of (state, bool)"""
        v = self.fact(st, atom)
        if v is not None:
            return [(st, v)]
        s2 = st.fork()
        self.learn(st, atom, True)
        self.learn(s2, atom, False)
        return [(st, True), (s2, False)]

    def learn(self, st, atom, val):
        st.facts[atom] = val
        st.lits = st.lits + ((atom, val),)

    def consistent(self, st, lits):
        for a, b in lits:
            v = self.fact(st, a)
            if v is not None and v != b:
                return False
        return True

    # ------------------------------------------------------------ truth
    def truth(self, st, v, fr):
        if isinstance(v, X):
            return [(st, v)]
        if isk(v):
            return [(st, bool(kval(v)))]
        h = v[0]
        if h == 'boolv':       # boolean valued condition
            return self.assume(st, v[1])
        if h == 'notv':
            return [(s, b if isinstance(b, X) else not b)
                    for s, b in self.truth(st, v[1], fr)]
        if h in ('func', 'bound', 'cls', 'mod'):
            return [(st, True)]
        if self.is_module(v):
            return [(st, True)]
        if h == 'ext' and (v[1].startswith('__builtin__.') and
                           not v[1].endswith('.__debug__') or
                           v[1] == 'os.path' or
                           v[1].startswith('os.path.') and
                           v[1] not in ('os.path.altsep',
                                        'os.path.extsep')):
            return [(st, True)]
        if h == 'bmeth' and not (
                isref(v[1]) and st.heap[v[1][1]].kind == 'inst'):
            return [(st, True)]
        if h == 'str' and any(type(p) is str and p for p in v[1]):
            return [(st, True)]
        segs = None
        if isref(v) or v in st.cont or h in ('tuple', 'nt', 'list', 'dict',
                                             'set', 'tuplist'):
            segs = self.segs(st, v)
        if segs is not None:
            if not segs:
                return [(st, False)]
            if any(s[0] in ('one', 'kv') for s in segs):
                return [(st, True)]
            if len(segs) == 1 and segs[0][0] == 'splat':
                return self.assume(st, ('truth', segs[0][1]))
            return self.assume(st, ('truth', self.freeze(st, v)))
        if isref(v):
            o = st.heap[v[1]]
            if o.kind == 'inst':
                m, own = self.class_lookup(st, o.cls, '__nonzero__')
                if m:
                    return self.truthcall(st, v, '__nonzero__', fr)
                m, own = self.class_lookup(st, o.cls, '__len__')
                if m:
                    return self.truthcall(st, v, '__len__', fr)
            return [(st, True)]
        t = self.typeof(st, v)
        if t and self.class_lookup(st, t, '__len__')[0]:
            return self.truthcall(st, v, '__len__', fr)
        if h == 'call' and v[1] == ('ext', '__builtin__.len'):
            return self.assume(st, ('truth', v[2][0]))
        if h == 'call' and v[1] == ('ext', '__builtin__.bool'):
            return self.truth(st, v[2][0], fr)
        return self.assume(st, ('truth', self.freeze(st, v)))

    def truthcall(self, st, v, meth, fr):
        out = []
        for s, r in self.call_attr(st, v, meth, [], [], fr):
            if isinstance(r, X):
                out.append((s, r))
            else:
                out.extend(self.truth(s, r, fr))
        return out

    # ------------------------------------------------------------ events
    def emit(self, st, kind, fn=None, args=(), kw=(), res=None, node=None):
        fq = self.stack[-1].qual if self.stack else '<module>'
        st.ev = st.ev + (Ev(kind, fn, tuple(args), tuple(kw), res,
                            self.curnode if node is None else node, fq,
                            len(self.stack)),)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        live = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in live:
                for st2, ctl in self.stmt(s, x, fr):
                    if ctl is None:
                        nxt.append(st2)
                    else:
                        done.append((st2, ctl))
            if len(nxt) > 1:
                nxt = self.merge(nxt)
            live = nxt
            if len(live) + len(done) > self.MAXSTATES:
                raise Blowup('%d paths at %s:%s' % (
                    len(live) + len(done), s.file, s.l))
            if not live:
                break
        return done + [(x, None) for x in live]

    def merge(self, states):
        """merge states that differ only by one opposite branch fact"""
        out = list(states)
        if len(out) < 2:
            return out
        sets = [frozenset(x.lits) for x in out]
        i = 0
        while i < len(out):
            a = out[i]
            hit = None
            sa = sets[i]
            for j in range(i + 1, len(out)):
                sb = sets[j]
                if len(sa) != len(sb):
                    continue
                da = sa - sb
                if not da:
                    d = ()
                elif len(da) == 1:
                    (x, vx), = da
                    (y, vy), = sb - sa
                    if x != y or vx == vy:
                        continue
                    d = x
                else:
                    continue
                if a.same(out[j]):
                    hit = j, d
                    break
            if hit is None:
                i += 1
                continue
            j, d = hit
            b = out[j]
            m = a.fork()
            m.lits = tuple(x for x in a.lits if x[0] != d) \
                if d else a.lits
            m.facts = {k: v for k, v in a.facts.items()
                       if b.facts.get(k) == v}
            m.occ = {k: max(v, b.occ.get(k, 0))
                     for k, v in a.occ.items()}
            for k, v in b.occ.items():
                m.occ.setdefault(k, v)
            out[i] = m
            sets[i] = frozenset(m.lits)
            del out[j], sets[j]
            i = 0
        return out

    @staticmethod
    def litdiff(a, b):
        """the one atom on which two literal sets are opposite, () if equal"""
        sa, sb = set(a), set(b)
        if sa == sb:
            return ()
        da, db = sa - sb, sb - sa
        if len(da) == 1 and len(db) == 1:
            (x, vx), = da
            (y, vy), = db
            if x == y and vx != vy:
                return x
        return None

    def stmt(self, n, st, fr):
        self.curnode = n
        REACHED.add((n.file, n.l))
        self.steps += 1
        if self.steps % 256 == 0:
            if time.process_time() > self.deadline:
                raise Blowup('more than %d s' % self.MAXTIME)
            if self.UNTIL and time.time() > self.UNTIL:
                raise Blowup('no time left for the check')
        if self.steps > self.MAXSTEPS:
            raise Blowup('more than %d steps at %s:%s' % (
                self.MAXSTEPS, n.file, n.l))
        m = getattr(self, 's_' + n._, None)
        if m is None:
            raise Blowup('statement %s at %s:%s' % (n._, n.file, n.l))
        return m(n, st, fr)

    def vals2ctl(self, outs):
        r = []
        for s, v in outs:
            if isinstance(v, X):
                r.append((s, (v.kind, v.val)))
            else:
                r.append((s, None))
        return r

    def s_Expr(self, n, st, fr):
        return self.vals2ctl(self.ev(n.value, st, fr))

    def s_Pass(self, n, st, fr):
        return [(st, None)]

    def s_Global(self, n, st, fr):
        fr.func and fr.func.globals.update(n.names)
        return [(st, None)]

    def s_Assign(self, n, st, fr):
        out = []
        for s, v in self.ev(n.value, st, fr):
            if isinstance(v, X):
                out.append((s, (v.kind, v.val)))
                continue
            cur = [(s, None)]
            for t in n.targets:
                nxt = []
                for s1, c in cur:
                    if c is not None:
                        nxt.append((s1, c))
                    else:
                        nxt.extend(self.assign(t, v, s1, fr))
                cur = nxt
            out.extend(cur)
        return out

    def s_AugAssign(self, n, st, fr):
        t = n.target
        out = []
        op = n.op if isinstance(n.op, str) else n.op._

        def fin(s, old, new, setter):
            if isinstance(new, X):
                return [(s, (new.kind, new.val))]
            if op == 'Add' and isref(old):
                tc = self.typeof(s, old)
                if tc and self.class_lookup(s, tc, '__iadd__')[0]:
                    r = []
                    for s1, v in self.call_attr(s, old, '__iadd__', [new],
                                                [], fr):
                        if isinstance(v, X):
                            r.append((s1, (v.kind, v.val)))
                        else:
                            r.extend(setter(s1, v))
                    return r
            segs = self.segs(s, old)
            if op == 'Add' and segs is not None and \
                    self.ckind(s, old) == 'list':
                r = []
                for s1, c in self.vals2ctl(self.call_attr(
                        s, old, 'extend', [new], [], fr)):
                    r.append((s1, c))
                return r
            r = []
            for s1, v in self.binop(s, op, old, new, fr):
                if isinstance(v, X):
                    r.append((s1, (v.kind, v.val)))
                else:
                    r.extend(setter(s1, v))
            return r
        if t._ == 'Name':
            for s, old in self.load_name(t.id, st, fr):
                if isinstance(old, X):
                    out.append((s, (old.kind, old.val)))
                    continue
                for s1, new in self.ev(n.value, s, fr):
                    out.extend(fin(s1, old, new, lambda s2, v: self.assign(
                        t, v, s2, fr)))
        elif t._ == 'Attribute':
            for s, b in self.ev(t.value, st, fr):
                if isinstance(b, X):
                    out.append((s, (b.kind, b.val)))
                    continue
                for s1, old in self.getattr_(s, b, t.attr, fr):
                    if isinstance(old, X):
                        out.append((s1, (old.kind, old.val)))
                        continue
                    for s2, new in self.ev(n.value, s1, fr):
                        out.extend(fin(
                            s2, old, new, lambda s3, v, b=b: self.vals2ctl(
                                self.setattr_(s3, b, t.attr, v, fr))))
        elif t._ == 'Subscript':
            for s, b in self.ev(t.value, st, fr):
                if isinstance(b, X):
                    out.append((s, (b.kind, b.val)))
                    continue
                for s1, k in self.index(t.slice, s, fr):
                    if isinstance(k, X):
                        out.append((s1, (k.kind, k.val)))
                        continue
                    for s2, old in self.getitem(s1, b, k, fr):
                        if isinstance(old, X):
                            out.append((s2, (old.kind, old.val)))
                            continue
                        for s3, new in self.ev(n.value, s2, fr):
                            out.extend(fin(
                                s3, old, new,
                                lambda s4, v, b=b, k=k: self.vals2ctl(
                                    self.setitem(s4, b, k, v, fr))))
        return out

    def s_Return(self, n, st, fr):
        if n.value is None:
            return [(st, ('return', NONE))]
        out = []
        for s, v in self.ev(n.value, st, fr):
            if isinstance(v, X):
                out.append((s, (v.kind, v.val)))
            else:
                out.append((s, ('return', v)))
        return out

    def s_If(self, n, st, fr):
        out = []
        for s, b in self.cond(n.test, st, fr):
            if isinstance(b, X):
                out.append((s, (b.kind, b.val)))
            else:
                out.extend(self.block(n.body if b else n.orelse, s, fr))
        return out

    def s_Assert(self, n, st, fr):
        out = []
        for s, b in self.cond(n.test, st, fr):
            if isinstance(b, X):
                out.append((s, (b.kind, b.val)))
            elif b:
                out.append((s, None))
            elif n.msg is not None:
                for s1, m in self.ev(n.msg, s, fr):
                    if isinstance(m, X):
                        out.append((s1, (m.kind, m.val)))
                    else:
                        out.append((s1, ('raise', self.mkexc(
                            s1, '__builtin__.AssertionError', [m]))))
            else:
                out.append((s, ('raise', self.mkexc(
                    s, '__builtin__.AssertionError', []))))
        return out

    def mkexc(self, st, extname, args):
        if bare(extname) in ('TypeError', 'AttributeError', 'NameError') and \
                self.curnode is not None and \
                args != [K('tag')] and \
                os.path.basename(self.curnode.file) in MODEL_FILES:
            raise Blowup('%s in a model: %s' % (bare(extname), str(args)[:80]))
        return ('excinst', ('ext', extname), ('tuple',) + tuple(
            self.freeze(st, a) for a in args))

    def handled(self, st, fr):
        """the exception being handled"""
        cur = None
        while cur is None and fr is not None:
            cur = st.envs.get(fr.env, {}).get('<exc>')
            fr = fr.parent
        return cur

    def s_Raise(self, n, st, fr):
        parts = [p for p in (n.type, n.inst, n.tback) if p is not None]
        if not parts:
            cur = self.handled(st, fr)
            return [(st, ('raise', cur or ('extexc', ('s', 'reraise'))))]
        out = []
        for s, vs in self.evs(parts, st, fr):
            if isinstance(vs, X):
                out.append((s, (vs.kind, vs.val)))
                continue
            t = vs[0]
            if fr.module in MODELS and 'NotImplementedError' in str(t):
                raise Blowup('not modelled: %s' % fr.func.qual)
            if t[0] == 'cls' or (t[0] == 'ext' and len(vs) > 1) or (
                    t[0] == 'ext'):
                args = [] if len(vs) < 2 or vs[1] == NONE else [vs[1]]
                if args and args[0][0] == 'tuple':
                    args = list(args[0][1:])
                if args and (args[0][0] in ('excinst', 'extexc') or isref(
                        args[0]) and self.is_exc(s, args[0])):
                    out.append((s, ('raise', args[0])))
                    continue
                for s1, e in self.call(s, t, args, [], fr):
                    if isinstance(e, X):
                        out.append((s1, (e.kind, e.val)))
                    else:
                        out.append((s1, ('raise', e)))
            elif len(vs) > 1:
                out.append((s, ('raise', ('excinst', t, ('tuple',) + tuple(
                    self.freeze(s, a) for a in vs[1:])))))
            else:
                out.append((s, ('raise', t)))
        return out

    def s_Print(self, n, st, fr):
        out = []
        nodes = list(n.values)
        for s, vs in self.evs(nodes, st, fr):
            if isinstance(vs, X):
                out.append((s, (vs.kind, vs.val)))
                continue
            cur = [(s, None)]
            for v in vs:
                nxt = []
                for s1, c in cur:
                    if c is not None:
                        nxt.append((s1, c))
                        continue
                    nxt.extend(self.vals2ctl(self.lib.tostr(
                        self, s1, v, fr)))
                cur = nxt
            for s1, c in cur:
                if c is None:
                    self.emit(s1, 'print', None,
                              [self.freeze(s1, v) for v in vs], node=n)
                out.append((s1, c))
        return out

    def s_Exec(self, n, st, fr):
        out = []
        nodes = [n.body] + ([n.globals] if n.globals is not None else [])
        for s, vs in self.evs(nodes, st, fr):
            if isinstance(vs, X):
                out.append((s, (vs.kind, vs.val)))
                continue
            if len(vs) == 1 and vs[0][0] == 'tuple':
                vs = list(vs[0][1:])
            if iskstr(vs[0]) and (len(vs) == 1 or isref(vs[1])):
                out.extend(self.lib.exec_source(
                    self, s, vs[0][2], vs[1] if len(vs) > 1 else None, fr))
                continue
            self.emit(s, 'exec', None, [self.freeze(s, v) for v in vs])
            if len(vs) > 1:
                self.lift(s, vs[1], 'dict')
                self.setsegs(s, vs[1], (self.segs(s, vs[1]) or ()) + (
                    ('splat', ('exec', self.freeze(s, vs[0]))),), 'dict')
            out.append((s, None))
            if self.catching:
                s2 = s.fork()
                out.append((s2, ('raise', ('extexc', ('exec', self.freeze(
                    s, vs[0]))))))
        return out

    def s_Delete(self, n, st, fr):
        cur = [(st, None)]
        for t in n.targets:
            nxt = []
            for s, c in cur:
                if c is not None:
                    nxt.append((s, c))
                    continue
                if t._ == 'Name':
                    d = dict(s.envs[fr.env])
                    d.pop(t.id, None)
                    s.envs[fr.env] = d
                    nxt.append((s, None))
                elif t._ == 'Subscript':
                    for s1, b in self.ev(t.value, s, fr):
                        if isinstance(b, X):
                            nxt.append((s1, (b.kind, b.val)))
                            continue
                        for s2, k in self.index(t.slice, s1, fr):
                            if isinstance(k, X):
                                nxt.append((s2, (k.kind, k.val)))
                            else:
                                nxt.extend(self.vals2ctl(
                                    self.delitem(s2, b, k, fr)))
                elif t._ == 'Attribute':
                    for s1, b in self.ev(t.value, s, fr):
                        if isinstance(b, X):
                            nxt.append((s1, (b.kind, b.val)))
                            continue
                        self.emit(s1, 'delattr', t.attr, [b])
                        nxt.append((s1, None))
                else:
                    nxt.append((s, None))
            cur = nxt
        return cur

    def s_Import(self, n, st, fr):
        for al in n.names:
            top = al.name.split('.')[0]
            if al.asname:
                st.setvar(fr.env, al.asname, self.modterm(al.name))
            else:
                st.setvar(fr.env, top, self.modterm(top))
        return [(st, None)]

    def modterm(self, name):
        if name in self.modenv:
            return ('mod', name)
        return ('ext', name)

    def s_ImportFrom(self, n, st, fr):
        base = n.module or ''
        if base == '__future__' and any(al.name == 'division'
                                        for al in n.names):
            self.truediv.add(fr.module)
        for al in n.names:
            full = base + '.' + al.name
            if full in self.modenv:
                v = ('mod', full)
            elif base in self.modenv:
                v = st.envs[self.modenv[base]].get(al.name)
                if v is None:
                    v = ('ext', full)
            else:
                v = self.model_of(st, full) or ('ext', full)
                if full in self.lib.PRELUDE_NAMES:
                    pv = st.envs[self.modenv['prelude']].get(
                        self.lib.PRELUDE_NAMES[full])
                    if pv is not None:
                        v = pv
            st.setvar(fr.env, al.asname or al.name, v)
        return [(st, None)]

    def s_FunctionDef(self, n, st, fr):
        out = []
        for s, f in self.mkfunc(n, st, fr, n.name):
            if isinstance(f, X):
                out.append((s, (f.kind, f.val)))
                continue
            cur = [(s, f)]
            for dec in reversed(n.decorator_list):
                nxt = []
                for s1, v in cur:
                    if isinstance(v, X):
                        nxt.append((s1, v))
                        continue
                    for s2, d in self.ev(dec, s1, fr):
                        if isinstance(d, X):
                            nxt.append((s2, d))
                            continue
                        if d[0] == 'ext':
                            nm = bare(d[1])
                            if nm == 'property':
                                nxt.append((s2, ('prop', v)))
                                continue
                            if nm == 'classmethod':
                                nxt.append((s2, ('cm', v)))
                                continue
                            if nm == 'staticmethod':
                                nxt.append((s2, ('sm', v)))
                                continue
                            if nm.startswith('abc.abstract'):
                                self.funcs[v[1]].abstract = True
                                nxt.append((s2, v))
                                continue
                        nxt.extend(self.call(s2, d, [v], [], fr))
                cur = nxt
            for s1, v in cur:
                if isinstance(v, X):
                    out.append((s1, (v.kind, v.val)))
                else:
                    s1.setvar(fr.env, n.name, v)
                    out.append((s1, None))
        return out

    def mkfunc(self, n, st, fr, name):
        """-> [(st, func term)]"""
        cls = None
        if fr.clsname:
            qual = '%s.%s.%s' % (fr.module, fr.clsname, name)
            cls = fr.clsname
        elif fr.func is not None:
            qual = '%s.%s' % (fr.func.qual, name)
            cls = fr.func.cls
        else:
            qual = '%s.%s' % (fr.module, name)
        fid = id(n)
        key = '%s@%s' % (qual, fid)
        if key not in self.funcs:
            self.funcs[key] = FuncInfo(key, n, fr.module, qual, cls)
        fr.captured = True
        out = []
        for s, ds in self.evs(n.args.defaults, st, fr):
            if isinstance(ds, X):
                out.append((s, ds))
                continue
            env = fr.env
            if fr.clsname:
                env = fr.parent.env
            out.append((s, ('func', key, env, tuple(ds))))
        return out

    def s_ClassDef(self, n, st, fr):
        out = []
        for s, bases in self.evs(n.bases, st, fr):
            if isinstance(bases, X):
                out.append((s, (bases.kind, bases.val)))
                continue
            bases = [self.lib.prelude_class(self, s, b) for b in bases]
            cid = '%s.%s' % (fr.module, n.name)
            if fr.func is not None:
                cid = '%s.%s' % (fr.func.qual, n.name)
            if cid in self.clsinfo and self.clsinfo[cid]['node'] is not n:
                cid = self.newid(cid)
            self.clsinfo[cid] = dict(name=n.name, module=fr.module, node=n)
            env = self.newid('clsenv')
            s.envs[env] = {}
            if fr.func is not None:
                s.envs[env]['<parent>'] = ('envp', fr.env)
            f2 = Frame(env, fr.func, fr.module, parent=fr)
            f2.clsname = n.name
            for s1, c in self.block(n.body, s, f2):
                if c is not None:
                    out.append((s1, c))
                    continue
                if f2.captured:
                    fr.captured = True
                d = dict(s1.envs.pop(env))
                d.pop('<parent>', None)
                order = [k for k in d]
                d['__bases__'] = ('tuple',) + tuple(bases)
                d.setdefault('__name__', K(n.name))
                d['__order__'] = ('tuple',) + tuple(K(k) for k in order)
                s1.heap[cid] = Obj('class', cid, d)
                for s2, v in self.lib.class_created(self, s1, cid, n, fr):
                    if isinstance(v, X):
                        out.append((s2, (v.kind, v.val)))
                    else:
                        s2.setvar(fr.env, n.name, ('cls', cid))
                        out.append((s2, None))
        return out

    def s_For(self, n, st, fr):
        out = []
        for s, it in self.ev(n.iter, st, fr):
            if isinstance(it, X):
                out.append((s, (it.kind, it.val)))
                continue

            def step(s1, v):
                outs = []
                for s2, c in self.assign(n.target, v, s1, fr):
                    if c is not None:
                        outs.append((s2, c))
                    else:
                        outs.extend(self.block(n.body, s2, fr))
                return [(a, None if b == ('continue',) else b)
                        for a, b in outs]
            for s1, c in self.iterate(s, it, fr, step, n):
                if c == ('break',):
                    out.append((s1, None))
                elif c is None and n.orelse:
                    out.extend(self.block(n.orelse, s1, fr))
                else:
                    out.append((s1, c))
        return out

    def s_While(self, n, st, fr):
        r = self.while_index(n, st, fr)
        if r is None:
            r = self.while_iter(n, st, fr)
        if r is None:
            r = self.while_unroll(n, st, fr)
        if r is not None:
            res = []
            for s1, c in r:
                if c == ('break',):
                    res.append((s1, None))
                elif c is None and n.orelse:
                    res.extend(self.block(n.orelse, s1, fr))
                else:
                    res.append((s1, c))
            return res

        def step(s):
            outs = []
            for s1, b in self.cond(n.test, s, fr):
                if isinstance(b, X):
                    outs.append((s1, (b.kind, b.val)))
                elif not b:
                    outs.append((s1, ('exhausted',)))
                else:
                    for s2, c in self.block(n.body, s1, fr):
                        outs.append(
                            (s2, None if c == ('continue',) else c))
            return outs
        out = []
        key = ('while', K(sum(1 for k in self.active if k[0] == 'while')))
        for s1, c in self.run_loop(st, key, step, n, exhausts=True):
            if c == ('exhausted',):
                if n.orelse:
                    out.extend(self.block(n.orelse, s1, fr))
                else:
                    out.append((s1, None))
            elif c == ('break',):
                out.append((s1, None))
            else:
                out.append((s1, c))
        return out

    def while_unroll(self, n, st, fr):
        """a loop whose condition is settled at each iteration"""
        if not self.stubs and (n.test._ in ('Num', 'Str') or (
                n.test._ == 'Name' and n.test.id in ('True', 'False'))):
            return None
        live, out = [st.fork()], []
        for i in range(400):
            nxt = []
            for s in live:
                before = s.lits
                res = self.cond(n.test, s, fr)
                if len(res) != 1 or isinstance(res[0][1], X) or \
                        res[0][0].lits != before:
                    return None
                s1, b = res[0]
                if not b:
                    out.append((s1, None))
                    continue
                for s2, c in self.block(n.body, s1, fr):
                    if c is None or c == ('continue',):
                        nxt.append(s2)
                    else:
                        out.append((s2, c))
            live = nxt
            if not live:
                return out
            if len(live) + len(out) > 40:
                return None
        return None

    def while_index(self, n, st, fr):
        """while i < len(x): ...; i += 1   ==>   for i in range(len(x))"""
        t = n.test
        if t._ != 'Compare' or len(t.ops) != 1 or t.left._ != 'Name':
            return None
        op = t.ops[0] if isinstance(t.ops[0], str) else t.ops[0]._
        if op not in ('Lt', 'NotEq') or not n.body:
            return None
        i = t.left.id
        last = n.body[-1]
        opn = None
        if last._ == 'AugAssign' and last.target._ == 'Name' and \
                last.target.id == i:
            opn = last.op if isinstance(last.op, str) else last.op._
            val = last.value
            if opn != 'Add' or val._ != 'Num' or val.n != 1:
                return None
        elif last._ == 'Assign' and len(last.targets) == 1 and \
                last.targets[0]._ == 'Name' and last.targets[0].id == i and \
                last.value._ == 'BinOp' and last.value.left._ == 'Name' and \
                last.value.left.id == i and last.value.right._ == 'Num' and \
                last.value.right.n == 1:
            pass
        else:
            return None
        for b in n.body[:-1]:
            for x in b.walk():
                if x._ == 'Continue':
                    return None
                if x._ in ('Assign', 'AugAssign', 'For'):
                    ts = x.targets if x._ == 'Assign' else [x.target]
                    for tt in ts:
                        if i in list(target_names(tt)):
                            return None
        if st.envs[fr.env].get(i) != K(0):
            return None
        outs = self.ev(t.comparators[0], st.fork(), fr)
        if len(outs) != 1 or isinstance(outs[0][1], X) or \
                outs[0][0].ev != st.ev:
            return None
        bound = outs[0][1]

        def step(s1, v):
            s1.setvar(fr.env, i, v)
            return [(a, None if b == ('continue',) else b)
                    for a, b in self.block(n.body[:-1], s1, fr)]
        rng = self.alloc(st, 'iter', attrs=dict(op='range', args=(bound,)))
        res = []
        for s, c in self.iterate(st, rng, fr, step, n):
            if c is None:
                s.setvar(fr.env, i, bound)
            res.append((s, c))
        return res

    def while_iter(self, n, st, fr):
        """while True: try: x = next(it) except StopIteration: break; body
        ==> for x in it: body"""
        if not (n.test._ in ('Name', 'Num')):
            return None
        outs = self.cond(n.test, st.fork(), fr)
        if len(outs) != 1 or outs[0][1] is not True:
            return None
        if not n.body or n.body[0]._ != 'TryExcept':
            return None
        t = n.body[0]
        if len(t.body) != 1 or not t.handlers:
            return None
        h = t.handlers[0]
        if h.type is None or h.type._ != 'Name' or \
                h.type.id != 'StopIteration' or len(h.body) != 1 or \
                h.body[0]._ != 'Break':
            return None
        b = t.body[0]
        if b._ != 'Assign' or len(b.targets) != 1 or b.value._ != 'Call':
            return None
        call = b.value
        if call.func._ == 'Name' and call.func.id == 'next' and \
                len(call.args) == 1:
            itn = call.args[0]
        elif call.func._ == 'Attribute' and call.func.attr == 'next' and \
                not call.args:
            itn = call.func.value
        else:
            return None
        its = self.ev(itn, st, fr)
        if len(its) != 1 or isinstance(its[0][1], X):
            return None
        st, it = its[0]
        if self.stubs and self.typeof(st, it) and self.class_lookup(
                st, self.typeof(st, it), 'next')[0]:
            return None

        def step(s1, v):
            # the remaining handlers see the exceptions of the iteration
            o = []
            if len(t.handlers) > 1:
                s2 = s1.fork()
                exc = ('extexc', ('call', ('attr', self.freeze(s2, it),
                                           'next'), (), (), 0))
                o.extend(self.handle(s2, exc, t.handlers[1:], fr))
            for s2, c in self.assign(b.targets[0], v, s1, fr):
                if c is not None:
                    o.append((s2, c))
                else:
                    o.extend(self.block(list(t.orelse) + n.body[1:], s2, fr))
            return [(a, None if c == ('continue',) else c) for a, c in o]
        return self.iterate(st, it, fr, step, n)

    def s_Break(self, n, st, fr):
        return [(st, ('break',))]

    def s_Continue(self, n, st, fr):
        return [(st, ('continue',))]

    def s_With(self, n, st, fr):
        out = []
        for s, cm in self.ev(n.context_expr, st, fr):
            if isinstance(cm, X):
                out.append((s, (cm.kind, cm.val)))
                continue
            out.extend(self.with_(n, s, cm, fr))
        return out

    def with_(self, n, s, cm, fr):
        out = []
        t = self.typeof(s, cm)
        if t and self.class_lookup(s, t, '__enter__')[0]:
            ents = self.call_attr(s, cm, '__enter__', [], [], fr)
            known = True
        else:
            known = False
            self.emit(s, 'enter', None, [self.freeze(s, cm)])
            ents = [(s, cm)]
        for s1, v in ents:
            if isinstance(v, X):
                out.append((s1, (v.kind, v.val)))
                continue
            cur = [(s1, None)]
            if n.optional_vars is not None:
                cur = self.assign(n.optional_vars, v, s1, fr)
            for s2, c in cur:
                if c is not None:
                    out.append((s2, c))
                    continue
                self.catching.append('with')
                try:
                    outs = self.block(n.body, s2, fr)
                finally:
                    self.catching.pop()
                for s3, c3 in outs:
                    if known:
                        exc = c3[1] if c3 and c3[0] == 'raise' else NONE
                        et = NONE if exc == NONE else ('exctype', exc)
                        tb = NONE if exc == NONE else ('tb',)
                        for s4, r in self.call_attr(
                                s3, cm, '__exit__', [et, exc, tb], [], fr):
                            if isinstance(r, X):
                                out.append((s4, (r.kind, r.val)))
                            elif c3 and c3[0] == 'raise':
                                for s5, b in self.truth(s4, r, fr):
                                    out.append((s5, None if b is True else
                                                c3))
                            else:
                                out.append((s4, c3))
                    else:
                        self.emit(s3, 'exit', None, [self.freeze(s3, cm)],
                                  node=n)
                        out.append((s3, c3))
        return out

    def s_TryFinally(self, n, st, fr):
        self.catching.append('finally')
        try:
            outs = self.block(n.body, st, fr)
        finally:
            self.catching.pop()
        res = []
        for s, c in outs:
            for s1, c1 in self.block(n.finalbody, s, fr):
                res.append((s1, c1 if c1 is not None else c))
        return res

    def handler_names(self, n, st, fr):
        names = []
        for h in n.handlers:
            if h.type is None:
                names.append(None)
                continue
            for s, v in self.ev(h.type, st.fork(), fr)[:1]:
                vs = v[1:] if v[0] == 'tuple' else [v]
                for x in vs:
                    names.append(x)
        return names

    def s_TryExcept(self, n, st, fr):
        names = self.handler_names(n, st, fr)
        self.catching.append(('try', tuple(
            x if x is None else x for x in names)))
        try:
            outs = self.block(n.body, st, fr)
        finally:
            self.catching.pop()
        res = []
        for s, c in outs:
            if c is None:
                res.extend(self.block(n.orelse, s, fr) if n.orelse
                           else [(s, None)])
            elif c[0] == 'raise':
                res.extend(self.handle(s, c[1], n.handlers, fr))
            else:
                res.append((s, c))
        return res

    def exc_class(self, st, e):
        if isref(e):
            o = st.heap[e[1]]
            if o.kind == 'inst':
                return ('cls', o.cls)
        if e[0] == 'excinst':
            return e[1]
        if e[0] == 'obj':
            return None
        return None

    def exc_match(self, st, e, t):
        """does exception e match class term t: True/False/None"""
        c = self.exc_class(st, e)
        if c is None:
            return None
        if c == t:
            return True
        if c[0] == 'cls':
            if t[0] == 'cls':
                return t[1] in self.mro(st, c[1])
            for b in self.ext_bases(st, c[1]):
                if b[0] == 'ext' and t[0] == 'ext' and exc_is(
                        bare(b[1]), bare(t[1])):
                    return True
            return False
        if c[0] == 'ext' and t[0] == 'ext':
            if bare(c[1]) in EXC_BASES or bare(t[1]) in EXC_BASES:
                return exc_is(bare(c[1]), bare(t[1]))
            return None
        if c[0] == 'ext' and t[0] == 'cls':
            return False
        return None

    def handle(self, st, exc, handlers, fr):
        out = []
        live = [st]
        for h in handlers:
            nxt = []
            if h.type is None:
                for s in live:
                    out.extend(self.run_handler(s, exc, h, fr))
                live = []
                break
            for s in live:
                for s1, tv in self.ev(h.type, s, fr):
                    if isinstance(tv, X):
                        out.append((s1, (tv.kind, tv.val)))
                        continue
                    ts = tv[1:] if tv[0] == 'tuple' else (tv,)
                    verdicts = [self.exc_match(s1, exc, t) for t in ts]
                    if True in verdicts or any(
                            t == ('ext', '__builtin__.BaseException') or
                            t == ('ext', '__builtin__.Exception') and not
                            (self.strict_exc and exc[0] == 'extexc')
                            for t in ts):
                        out.extend(self.run_handler(s1, exc, h, fr))
                    elif None in verdicts:
                        cand = tuple(t for t, v in zip(ts, verdicts)
                                     if v is None)
                        atom = ('raises', self.freeze(s1, exc), tuple(
                            self.freeze(s1, t) for t in cand))
                        s2 = s1.fork()
                        self.learn(s1, atom, True)
                        out.extend(self.run_handler(
                            s1, exc, h, fr))
                        self.learn(s2, atom, False)
                        nxt.append(s2)
                    else:
                        nxt.append(s1)
            live = nxt
        out.extend((s, ('raise', exc)) for s in live)
        return out

    def is_exc(self, st, v):
        o = st.heap[v[1]]
        return o.kind == 'inst' and any(
            e[0] == 'ext' and bare(e[1]) in EXC_BASES
            for e in self.ext_bases(st, o.cls))

    def run_handler(self, st, exc, h, fr):
        prev = st.envs[fr.env].get('<exc>')
        st.setvar(fr.env, '<exc>', exc)
        if h.get('name') is not None:
            cur = self.assign(h.name, exc, st, fr) if isinstance(
                h.name, N) else [(st, None)]
            if isinstance(h.name, str):
                st.setvar(fr.env, h.name, exc)
        else:
            cur = [(st, None)]
        out = []
        for s, c in cur:
            if c is not None:
                out.append((s, c))
                continue
            for s1, c1 in self.block(h.body, s, fr):
                if fr.env in s1.envs:
                    d = dict(s1.envs[fr.env])
                    if prev is None:
                        d.pop('<exc>', None)
                    else:
                        d['<exc>'] = prev
                    s1.envs[fr.env] = d
                out.append((s1, c1))
        return out

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, fr):
        if t._ == 'Name':
            if fr.func is not None and t.id in fr.func.globals:
                st.setvar(self.modenv[fr.module], t.id, v)
            else:
                st.setvar(fr.env, t.id, v)
            return [(st, None)]
        if t._ in ('Tuple', 'List'):
            n = len(t.elts)
            if isref(v) and st.heap[v[1]].kind in ('inst', 'gen', 'iter') \
                    and self.segs(st, v) is None:
                o = st.heap[v[1]]
                if o.kind != 'inst' or self.class_lookup(
                        st, o.cls, '__iter__')[0] is not None:
                    out = []
                    for s, l in self.lib.tolist(self, st, v, fr):
                        if isinstance(l, X):
                            out.append((s, (l.kind, l.val)))
                        elif l == v:
                            raise Blowup('unpacking an iterator')
                        else:
                            out.extend(self.assign(t, l, s, fr))
                    return out
            items = self.unpack(st, v, n)
            if items is None:
                return [(st, ('raise', self.mkexc(
                    st, '__builtin__.ValueError', [K('unpack')])))]
            s0 = None
            segs = self.segs(st, v)
            if segs is None and not self.loading and \
                    self.catch_wants('ValueError'):
                s0 = st.fork()
                atom = ('eq', ('call', ('ext', '__builtin__.len'),
                               (self.freeze(st, v),), ()), K(n))
                if self.fact(st, atom) is None:
                    self.learn(st, atom, True)
                    self.learn(s0, atom, False)
                else:
                    s0 = None
            cur = [(st, None)]
            for e, x in zip(t.elts, items):
                nxt = []
                for s, c in cur:
                    if c is not None:
                        nxt.append((s, c))
                    else:
                        nxt.extend(self.assign(e, x, s, fr))
                cur = nxt
            if s0 is not None:
                cur.append((s0, ('raise', self.mkexc(
                    s0, '__builtin__.ValueError', [K('unpack')]))))
            return cur
        if t._ == 'Attribute':
            out = []
            for s, b in self.ev(t.value, st, fr):
                if isinstance(b, X):
                    out.append((s, (b.kind, b.val)))
                else:
                    out.extend(self.vals2ctl(
                        self.setattr_(s, b, t.attr, v, fr)))
            return out
        if t._ == 'Subscript':
            out = []
            for s, b in self.ev(t.value, st, fr):
                if isinstance(b, X):
                    out.append((s, (b.kind, b.val)))
                    continue
                for s1, k in self.index(t.slice, s, fr):
                    if isinstance(k, X):
                        out.append((s1, (k.kind, k.val)))
                    else:
                        out.extend(self.vals2ctl(
                            self.setitem(s1, b, k, v, fr)))
            return out
        raise Blowup('target ' + t._)

    def wants_key(self):
        return self.force_key > 0 or self.strict_key or (
            not self.loading and self.catch_wants('KeyError'))

    def catch_wants(self, excname):
        """is an implicit exception of this class caught by a handler of the
        innermost try statements being analysed"""
        for c in reversed(self.catching):
            if c in ('with', 'finally'):
                return True
            for t in c[1]:
                if t is None:
                    return True
                if t[0] == 'ext' and exc_is(excname, bare(t[1])):
                    return True
        return False

    def unpack(self, st, v, n):
        segs = self.segs(st, v)
        if segs is not None and all(s[0] == 'one' for s in segs):
            if len(segs) != n:
                return None
            return [s[1] for s in segs]
        if segs is not None and len(segs) == 1 and segs[0][0] == 'splat':
            v = segs[0][1]
        if segs is not None and len(segs) == 1 and n == 1 and \
                segs[0][0] == 'each':
            return [('unpack1', self.freeze(st, v))]
        return [self.mkitem(self.freeze(st, v), K(i)) for i in range(n)]

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, fr):
        m = getattr(self, 'e_' + n._, None)
        if m is None:
            raise Blowup('expression %s at %s:%s' % (n._, n.file, n.l))
        outs = m(n, st, fr)
        if len(outs) > self.MAXSTATES:
            raise Blowup('%d values at %s:%s' % (len(outs), n.file, n.l))
        return outs

    def evs(self, nodes, st, fr):
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                if isinstance(vs, X):
                    nxt.append((s, vs))
                    continue
                for s1, v in self.ev(n, s, fr):
                    nxt.append((s1, v if isinstance(v, X) else vs + [v]))
            cur = nxt
        return cur

    def e_Num(self, n, st, fr):
        return [(st, K(n.n))]

    def e_Str(self, n, st, fr):
        return [(st, K(n.s))]

    def e_Name(self, n, st, fr):
        return self.load_name(n.id, st, fr)

    def load_name(self, name, st, fr):
        env = fr.env
        d = st.envs.get(env, {})
        if name in d and not (fr.func is not None
                              and name in fr.func.globals):
            return [(st, d[name])]
        e = d.get('<parent>')
        while e is not None:
            d = st.envs.get(e[1])
            if d is None:
                break
            if name in d:
                return [(st, d[name])]
            e = d.get('<parent>')
        d = st.envs.get(self.modenv[fr.module], {})
        if name in d:
            return [(st, d[name])]
        if name in self.lib.CONSTS:
            return [(st, self.lib.CONSTS[name])]
        pv = st.envs.get(self.modenv.get('prelude'), {}).get('b_' + name) \
            if fr.module != 'prelude' or not (
                fr.func and fr.func.qual == 'prelude.b_' + name) else None
        if pv is not None:
            return [(st, pv)]
        if name in self.lib.BUILTINS:
            return [(st, ('ext', '__builtin__.' + name))]
        if fr.func is not None and name in fr.func.locals:
            return [(st, X('raise', self.mkexc(
                st, '__builtin__.UnboundLocalError', [K(name)])))]
        return [(st, X('raise', self.mkexc(
            st, '__builtin__.NameError', [K(name)])))]

    def e_Tuple(self, n, st, fr):
        return [(s, vs if isinstance(vs, X) else ('tuple',) + tuple(vs))
                for s, vs in self.evs(n.elts, st, fr)]

    def e_List(self, n, st, fr):
        return [(s, vs if isinstance(vs, X) else self.mklist(s, vs))
                for s, vs in self.evs(n.elts, st, fr)]

    def e_Set(self, n, st, fr):
        return [(s, vs if isinstance(vs, X) else self.mklist(s, vs, 'set'))
                for s, vs in self.evs(n.elts, st, fr)]

    def e_Dict(self, n, st, fr):
        out = []
        for s, vs in self.evs(list(n.keys) + list(n.values), st, fr):
            if isinstance(vs, X):
                out.append((s, vs))
                continue
            k = len(n.keys)
            d = self.alloc(s, 'dict')
            cur = [(s, d)]
            for a, b in zip(vs[:k], vs[k:]):
                nxt = []
                for s1, d1 in cur:
                    for s2, r in self.setitem(s1, d1, a, b, fr, quiet=True):
                        nxt.append((s2, r if isinstance(r, X) else d1))
                cur = nxt
            out.extend(cur)
        return out

    def e_Lambda(self, n, st, fr):
        return self.mkfunc(n, st, fr, '<lambda>')

    def e_Repr(self, n, st, fr):
        return [(s, v if isinstance(v, X) else
                 ('str', (('fmt', 'r', self.freeze(s, v)),)))
                for s, v in self.ev(n.value, st, fr)]

    def e_IfExp(self, n, st, fr):
        out = []
        for s, b in self.cond(n.test, st, fr):
            if isinstance(b, X):
                out.append((s, b))
            else:
                out.extend(self.ev(n.body if b else n.orelse, s, fr))
        return out

    def e_BoolOp(self, n, st, fr):
        op = n.op if isinstance(n.op, str) else n.op._
        cur = [(st, None, False)]
        vals = n.values
        for i, v in enumerate(vals):
            nxt = []
            for s, val, fin in cur:
                if fin:
                    nxt.append((s, val, True))
                    continue
                for s1, x in self.ev(v, s, fr):
                    if isinstance(x, X) or i == len(vals) - 1:
                        nxt.append((s1, x, True))
                        continue
                    for s2, b in self.truth(s1, x, fr):
                        if isinstance(b, X):
                            nxt.append((s2, b, True))
                        elif (op == 'And') == b:
                            nxt.append((s2, x, False))
                        else:
                            nxt.append((s2, x, True))
            cur = nxt
        return [(s, v) for s, v, _ in cur]

    def e_UnaryOp(self, n, st, fr):
        op = n.op if isinstance(n.op, str) else n.op._
        out = []
        if op == 'Not':
            for s, b in self.cond(n.operand, st, fr):
                out.append((s, b if isinstance(b, X) else K(not b)))
            return out
        for s, v in self.ev(n.operand, st, fr):
            if isinstance(v, X):
                out.append((s, v))
            elif isknum(v) and op in ('USub', 'UAdd'):
                out.append((s, K(-kval(v) if op == 'USub' else kval(v))))
            else:
                out.append((s, ('un', {'USub': '-', 'UAdd': '+',
                                       'Invert': '~'}[op],
                                self.freeze(s, v))))
        return out

    def e_Compare(self, n, st, fr):
        """value of a comparison: forks in True and False, except that a
        single comparison keeps a symbolic boolean for the caller"""
        return [(s, b if isinstance(b, X) else K(b))
                for s, b in self.cond(n, st, fr)]

    def e_BinOp(self, n, st, fr):
        out = []
        op = n.op if isinstance(n.op, str) else n.op._
        for s, vs in self.evs([n.left, n.right], st, fr):
            if isinstance(vs, X):
                out.append((s, vs))
            else:
                out.extend(self.binop(s, op, vs[0], vs[1], fr))
        return out

    def binop(self, st, op, a, b, fr):
        if op == 'Div' and fr.module in self.truediv:
            op = 'TrueDiv'
        return self.lib.binop(self, st, op, a, b, fr)

    def cond(self, n, st, fr):
        """-> list of (state, bool or X)"""
        k = n._
        if k == 'BoolOp':
            op = n.op if isinstance(n.op, str) else n.op._
            cur = [(st, op == 'And')]
            for v in n.values:
                nxt = []
                for s, b in cur:
                    if isinstance(b, X) or b != (op == 'And'):
                        nxt.append((s, b))
                    else:
                        nxt.extend(self.cond(v, s, fr))
                cur = nxt
            return self.mergeb(cur)
        if k == 'UnaryOp':
            op = n.op if isinstance(n.op, str) else n.op._
            if op == 'Not':
                return [(s, b if isinstance(b, X) else not b)
                        for s, b in self.cond(n.operand, st, fr)]
        if k == 'Compare':
            ops = [o if isinstance(o, str) else o._ for o in n.ops]
            out = []
            for s, vs in self.evs([n.left] + list(n.comparators), st, fr):
                if isinstance(vs, X):
                    out.append((s, vs))
                    continue
                cur = [(s, True)]
                for i, op in enumerate(ops):
                    nxt = []
                    for s1, b in cur:
                        if isinstance(b, X) or not b:
                            nxt.append((s1, b))
                        else:
                            nxt.extend(self.compare(
                                s1, op, vs[i], vs[i + 1], fr))
                    cur = nxt
                out.extend(cur)
            return out
        out = []
        for s, v in self.ev(n, st, fr):
            out.extend(self.truth(s, v, fr))
        return out

    def mergeb(self, outs):
        """merge the states with equal outcome of a condition"""
        res = []
        for want in (True, False):
            ss = [s for s, b in outs if b is want]
            if len(ss) > 1:
                ss = self.merge(ss)
            res.extend((s, want) for s in ss)
        res.extend((s, b) for s, b in outs if isinstance(b, X))
        return res

    def compare(self, st, op, a, b, fr):
        neg = op in ('NotEq', 'IsNot', 'NotIn')

        def flip(outs):
            return [(s, r if isinstance(r, X) else (not r if neg else r))
                    for s, r in outs]
        if op in ('Eq', 'NotEq', 'Is', 'IsNot'):
            return flip(self.equal(st, a, b, fr, op))
        if op in ('In', 'NotIn'):
            return flip(self.contains(st, a, b, fr))
        # overloaded ordering
        dun, refl = {'Lt': ('__lt__', '__gt__'), 'LtE': ('__le__', '__ge__'),
                     'Gt': ('__gt__', '__lt__'), 'GtE': ('__ge__', '__le__')
                     }[op]
        for x, y, nm in ((a, b, dun), (b, a, refl)):
            t = self.typeof(st, x)
            if t and self.class_lookup(st, t, nm)[0]:
                out = []
                for s, r in self.call_attr(st, x, nm, [y], [], fr):
                    out.extend(self.truth(s, r, fr))
                return out
        if op in ('Gt', 'GtE'):
            a, b = b, a
            op = {'Gt': 'Lt', 'GtE': 'LtE'}[op]
        for x, y in ((a, b), (b, a)):
            t = self.typeof(st, x)
            if t and self.class_lookup(st, t, '__cmp__')[0]:
                out = []
                for s, r in self.call_attr(st, x, '__cmp__', [y], [], fr):
                    if isinstance(r, X):
                        out.append((s, r))
                    elif x is a:
                        out.extend(self.compare(s, op, r, K(0), fr))
                    else:
                        out.extend(self.compare(s, op, K(0), r, fr))
                return out
        if a[0] in ('nt', 'tuple') and b[0] == a[0] and self.stubs:
            return self.lib.less_seq(self, st, op, a, b, fr)
        kinds = [self.ckind(st, x) for x in (a, b)]
        for x, y, k in ((a, b, kinds[1]), (b, a, kinds[0])):
            number = isk(x) and x[1] in ('int', 'float') or \
                x[0] == 'call' and x[1] == ('ext', '__builtin__.len')
            if number and k == 'set':
                return [(st, X('raise', self.mkexc(
                    st, '__builtin__.TypeError',
                    [K('can only compare to a set')])))]
            if number and k in ('list', 'dict', 'tuple') and not isref(x) \
                    and not (isref(y) and st.heap[y[1]].kind == 'inst'):
                # numbers are below everything else
                return [(st, x is a)]
        fa, fb = self.freeze(st, a), self.freeze(st, b)
        if NONE in (fa, fb) and all(isk(x) or x[0] == 'str' for x in (fa, fb)):
            # None is below everything else
            return [(st, fa == NONE and (fb != NONE or op == 'LtE'))]
        # comparisons of a length with 0 / 1
        ln = ('ext', '__builtin__.len')
        for x, y, flipd in ((fa, fb, False), (fb, fa, True)):
            if x[0] == 'call' and x[1] == ln and isk(y) and y[1] == 'int':
                # x op y  (or y op x when flipped)
                v = y[2]
                if not flipd:
                    r = {('Lt', 1): False, ('LtE', 0): False,
                         ('Lt', 0): 'F', }.get((op, v))
                else:
                    r = {('Lt', 0): True, ('LtE', 1): True,
                         ('LtE', 0): 'T'}.get((op, v))
                if r is True:
                    return self.truth(st, x[2][0], fr)
                if r is False:
                    return [(s, t if isinstance(t, X) else not t)
                            for s, t in self.truth(st, x[2][0], fr)]
                if r == 'F':
                    return [(st, False)]
                if r == 'T':
                    return [(st, True)]
        return self.assume(st, ('lt' if op == 'Lt' else 'le', fa, fb))

    def by_identity(self, st, ref):
        """an instance compared by identity"""
        o = st.heap[ref[1]]
        return o.kind == 'inst' and o.cls is not None and all(
            e == ('ext', '__builtin__.object')
            for e in self.ext_bases(st, o.cls)) and not any(
            self.class_lookup(st, o.cls, n)[0]
            for n in ('__eq__', '__cmp__', '__ne__'))

    def equal(self, st, a, b, fr, op='Eq'):
        if a == b and a[0] == 'call' and a[1] == (
                'ext', '__builtin__.float') and op in ('Eq', 'NotEq'):
            return [(s, not r) for s, r in self.assume(st, ('nan', a))]
        if a == b and not mentions(a, lambda t: t and t[0] == 'call'):
            return [(st, True)]
        if a == NONE or b == NONE:
            o = b if a == NONE else a
            return self.assume(st, ('isnone', self.freeze(st, o)))
        if a[0] == 'boolv' or b[0] == 'boolv':
            pass
        if op in ('Eq', 'NotEq'):
            for x, y in ((a, b), (b, a)):
                t = self.typeof(st, x)
                if t and op == 'NotEq':
                    # != has its own method, == says nothing about it
                    if self.class_lookup(st, t, '__ne__')[0]:
                        out = []
                        for s, r in self.call_attr(st, x, '__ne__', [y], [],
                                                   fr):
                            out.extend(
                                (s1, b1 if isinstance(b1, X) else not b1)
                                for s1, b1 in self.truth(s, r, fr))
                        return out
                    if self.class_lookup(st, t, '__eq__')[0] and \
                            self.plain_class(st, t) and not \
                            self.class_lookup(st, t, '__cmp__')[0] and \
                            isref(a) and isref(b):
                        return [(st, a == b)]
                if t and self.class_lookup(st, t, '__eq__')[0]:
                    out = []
                    for s, r in self.call_attr(st, x, '__eq__', [y], [], fr):
                        out.extend(self.truth(s, r, fr))
                    return out
        if op in ('Is', 'IsNot') and isref(a) and isref(b):
            return [(st, a == b)]
        if isref(a) and isref(b) and self.by_identity(st, a) and \
                self.by_identity(st, b):
            return [(st, a == b)]
        fa, fb = self.freeze(st, a), self.freeze(st, b)
        if fa == fb and not mentions(fa, lambda t: t and t[0] == 'call'):
            return [(st, True)]
        for x, y in ((fa, fb), (fb, fa)):
            if x[0] in ('cls', 'func') and y[0] in ('cls', 'func'):
                return [(st, x == y)]
            if (x[0] in ('cls', 'func') or x[0] == 'ext' and
                    x[1].startswith('__builtin__.') and
                    x[1] != '__builtin__.__debug__' or
                    self.is_module(x)) and (isk(y) or y[0] == 'str'):
                return [(st, False)]
        # builtin containers never equal values of other builtin types
        ka, kb = [None if self.typeof(st, x) else self.ckind(st, x)
                  for x in (a, b)]
        if ka in CONTAINERS and (isk(fb) or kb in CONTAINERS and ka != kb) \
                or kb in CONTAINERS and isk(fa):
            return [(st, False)]
        # element-wise equality of tuples
        sa, sb = self.segs(st, a), self.segs(st, b)
        if sa is not None and sb is not None and \
                self.ckind(st, a) == self.ckind(st, b) and \
                self.ckind(st, a) in ('tuple', 'list') and \
                all(s[0] == 'one' for s in sa + sb):
            if len(sa) != len(sb):
                return [(st, False)]
            cur = [(st, True)]
            for p, q in zip(sa, sb):
                nxt = []
                for s, r in cur:
                    if r is True:
                        nxt.extend(self.equal(s, p[1], q[1], fr))
                    else:
                        nxt.append((s, r))
                cur = nxt
            return cur
        for x, y, raw in ((fa, fb, a), (fb, fa, b)):
            if y in (('list', ()), ('dict', ()), ('tuple',)) or (
                    y == K('') and x[0] == 'str'):
                return [(s, t if isinstance(t, X) else not t)
                        for s, t in self.truth(st, raw, fr)]
            if x[0] == 'call' and x[1] == ('ext', '__builtin__.len') and \
                    y == K(0):
                return [(s, t if isinstance(t, X) else not t)
                        for s, t in self.truth(st, x[2][0], fr)]
            if y in (TRUE, FALSE) and x[0] == 'boolv':
                return [(s, t if isinstance(t, X) else t == kval(y))
                        for s, t in self.truth(st, x, fr)]
        # constants second, otherwise in canonical order
        if isk(fa) and not isk(fb):
            fa, fb = fb, fa
        elif not isk(fb) and repr(fb) < repr(fa):
            fa, fb = fb, fa
        if fa[0] == 'str' and iskstr(fb):
            parts = fa[1]
            if parts and type(parts[0]) is str and not \
                    fb[2].startswith(parts[0]):
                return [(st, False)]
            if parts and type(parts[-1]) is str and not \
                    fb[2].endswith(parts[-1]):
                return [(st, False)]
        return self.assume(st, ('eq', fa, fb))

    def contains(self, st, a, b, fr):
        """a in b"""
        b = self.lib.plain_vars(self, st, b)
        if isref(b) or self.typeof(st, b):
            t = self.typeof(st, b)
            if t and self.class_lookup(st, t, '__contains__')[0]:
                out = []
                for s, r in self.call_attr(st, b, '__contains__', [a], [],
                                           fr):
                    out.extend(self.truth(s, r, fr))
                return out
        segs = self.segs(st, b)
        k = self.ckind(st, b)
        fa = self.freeze(st, a)
        if segs is not None:
            return self.contains_segs(st, a, fa, b, segs, k, fr)
        if iskstr(b) and iskstr(fa):
            return [(st, fa[2] in b[2])]
        return self.assume(st, ('in', fa, self.freeze(st, b)))

    def contains_segs(self, st, a, fa, b, segs, k, fr):
        if not segs:
            return [(st, False)]
        if k == 'dict':
            ones = [s for s in segs if s[0] == 'kv']
            if len(ones) == len(segs) and all(isk(s[1]) for s in ones):
                segs = tuple(('one', s[1]) for s in ones)
            else:
                r = None
                for s in reversed(segs):
                    if s[0] == 'kv':
                        e = self.key_same(st, a, s[1])
                        if e:
                            return [(st, True)]
                        if e is None:
                            r = 'maybe'
                    elif s[0] == 'del':
                        e = self.key_same(st, a, s[1])
                        if e:
                            return [(st, False)]
                        if e is None:
                            r = 'maybe'
                    elif s[0] == 'splat':
                        if r is None:
                            return self.assume(
                                st, ('in', fa, self.freeze(st, s[1])))
                        break
                    elif s[0] == 'base':
                        if r is None:
                            return self.assume(st, ('in', fa, s))
                        break
                    else:
                        r = 'maybe'
                if r is None:
                    return [(st, False)]
                return self.assume(st, ('in', fa, self.freeze(st, b)))
        if all(s[0] == 'one' for s in segs) and (
                len(segs) <= 12 or isk(fa) and all(
                    isk(s[1]) for s in segs)):
            cur = [(st, False)]
            for s in segs:
                nxt = []
                for s1, r in cur:
                    if r is False:
                        nxt.extend(self.equal(s1, a, s[1], fr))
                    else:
                        nxt.append((s1, r))
                cur = nxt
            return cur
        if len(segs) == 1 and segs[0][0] == 'splat':
            return self.assume(st, ('in', fa, self.freeze(st, segs[0][1])))
        if any(s[0] == 'one' and self.freeze(st, s[1]) == fa for s in segs):
            return [(st, True)]
        return self.assume(st, ('in', fa, self.freeze(st, b)))

    def key_same(self, st, a, b):
        if isref(a) and isref(b) and self.by_identity(st, a) and \
                self.by_identity(st, b):
            return a == b
        for x, y in ((a, b), (b, a)):
            if isk(y) and (x[0] in ('cls', 'func', 'bound') or isref(x) and
                           st.heap[x[1]].kind in ('iter', 'gen', 'genexp')):
                return False
        return self.same_key(st, self.freeze(st, a), self.freeze(st, b))

    def same_key(self, st, a, b):
        if a == b:
            return True
        if isk(a) and isk(b):
            return False
        if a[0] in ('cls', 'func') and b[0] in ('cls', 'func'):
            return False
        v = self.fact(st, ('eq', a, b) if not isk(a) else ('eq', b, a))
        if v is not None:
            return v
        if a[0] == 'tuple' and b[0] == 'tuple':
            if len(a) != len(b):
                return False
            rs = [self.same_key(st, x, y) for x, y in zip(a[1:], b[1:])]
            if False in rs:
                return False
        return None

    # ------------------------------------------------------------ attributes
    def e_Attribute(self, n, st, fr):
        out = []
        for s, b in self.ev(n.value, st, fr):
            if isinstance(b, X):
                out.append((s, b))
            else:
                self.curnode = n
                out.extend(self.getattr_(s, b, n.attr, fr))
        return out

    def unmodelled(self, st, cid, name):
        """no answer when a model lacks a member which the object it
        stands for may have: its class lists these in `_api_`"""
        for c in self.mro(st, cid):
            if self.clsinfo.get(c, {}).get('module') in MODELS:
                api, own = self.class_lookup(st, cid, '_api_')
                if api is None or name in api[2].split():
                    raise Blowup('%s.%s is not modelled' % (
                        self.classname(c), name))
                return

    def class_without(self, st, t, *names):
        """a class whose metaclass has none of the methods"""
        if t[0] != 'cls' or not self.plain_class(st, t[1]):
            return False
        m = self.lib.metaclass(self, st, t[1])
        return not m or not any(
            self.class_lookup(st, m, n)[0] for n in names)

    def is_module(self, t):
        """a module of one of the libraries which have models"""
        return t[0] == 'ext' and bare(t[1]).islower() and \
            t[1] not in self.real and any(
                k.startswith(t[1] + '.') for k in self.real)

    def model_of(self, st, full):
        """the model standing for an external name"""
        where = self.real.get(full)
        if where is None:
            return None
        mod, name = where.split('.')
        return st.envs[self.modenv[mod]].get(name)

    def getattr_(self, st, b, name, fr):
        h = b[0]
        if h == 'slice' and name in ('start', 'stop', 'step'):
            return [(st, b[1 + ('start', 'stop', 'step').index(name)])]
        if h == 'mod':
            d = st.envs[self.modenv[b[1]]]
            if name in d:
                return [(st, d[name])]
            sub = b[1] + '.' + name
            if sub in self.modenv:
                return [(st, ('mod', sub))]
            if any(m.startswith(sub + '.') for m in self.modenv) or \
                    b[1] == 'openquake':
                return [(st, ('ext', sub))]
            return [(st, X('raise', self.mkexc(
                st, '__builtin__.AttributeError', [K(name)])))]
        if h == 'ext':
            if name == '__name__' and b[1].startswith('__builtin__.'):
                return [(st, K(b[1][12:]))]
            full = b[1] + '.' + name
            if full in self.modenv:
                return [(st, ('mod', full))]
            v = self.model_of(st, full)
            if v is not None:
                return [(st, v)]
            pn = self.lib.PRELUDE_NAMES.get(full)
            if pn:
                pv = st.envs[self.modenv['prelude']].get(pn)
                if pv is not None:
                    return [(st, pv)]
            return [(st, ('ext', full))]
        if h == 'k' and b == NONE or st.facts.get(('isnone', b)) is True:
            return [(st, X('raise', self.mkexc(
                st, '__builtin__.AttributeError',
                [K("'NoneType' object has no attribute '%s'" % name)])))]
        if h == 'cls':
            return self.class_getattr(st, b, name, fr)
        if h == 'super':
            cid, selfv = b[1], b[2]
            tid = self.typeof(st, selfv)
            if selfv[0] == 'cls':
                tid = selfv[1]
            v, own = self.class_lookup(st, tid or cid, name, after=cid)
            if v is None:
                return [(st, ('attr', b, name))]
            return self.bind(st, v, selfv, tid or cid, fr)
        if h == 'excinst':
            if name == 'message':
                return [(st, b[2][1] if len(b[2]) == 2 else K(''))]
            if name == 'args':
                return [(st, b[2])]
            if name == '__class__' and b[1][0] == 'ext' and \
                    b[1][1].startswith('__builtin__.'):
                return [(st, b[1])]
        if name == '__class__':
            t = self.typeof(st, b)
            if t:
                return [(st, ('cls', t))]
            k = type(kval(b)).__name__ if isk(b) else None if \
                h == 'nt' or not isref(b) and h != 'tuple' else \
                self.ckind(st, b)
            if k in ('str', 'int', 'float', 'bool', 'list', 'tuple') and (h != 'obj') and (
                         not isref(b) or st.heap[b[1]].kind == k):
                return [(st, ('ext', '__builtin__.' + k))]
            return [(st, ('attr', self.freeze(st, b), name))]
        if h == 'nt':
            fields = st.heap[b[1]].attrs['_fields'][1:]
            for i, f in enumerate(fields):
                if f[2] == name:
                    return [(st, b[2 + i])]
        if isref(b):
            o = st.heap[b[1]]
            if name == '__dict__' and o.kind == 'inst' and \
                    not self.lib.slotted(self, st, o.cls):
                return [(st, ('vars', b))]
            if name in o.attrs and o.kind in ('inst',):
                return [(st, o.attrs[name])]
            if o.kind == 'inst':
                v, own = self.class_lookup(st, o.cls, name)
                if v is not None:
                    return self.bind(st, v, b, o.cls, fr)
                v, own = self.class_lookup(st, o.cls, '__getattr__')
                if v is not None and v[0] == 'func' and \
                        not name.startswith('__'):
                    return self.call(st, v, [b, K(name)], [], fr)
                ext = self.ext_bases(st, o.cls)
                if any(bare(e[1]) in EXC_BASES for e in ext
                       if e[0] == 'ext'):
                    if name == 'message':
                        a = o.attrs.get('args', ('tuple',))
                        return [(st, a[1] if len(a) == 2 else K(''))]
                kinds = [e[1][12:] for e in ext if e[1] in (
                    '__builtin__.list', '__builtin__.dict',
                    '__builtin__.tuple')]
                if len(kinds) == len([e for e in ext if e[1] !=
                                      '__builtin__.object']) == 1 and \
                        lacks(kinds[0], name) and not self.lib.has_getattr(
                            self, st, o.cls):
                    return [(st, X('raise', self.mkexc(
                        st, '__builtin__.AttributeError', [K(name)])))]
                if [e for e in ext if e != ('ext', '__builtin__.object')
                        and e[0] == 'ext'] or self.lib.has_getattr(
                            self, st, o.cls):
                    return [(st, ('bmeth', b, name))]
                self.unmodelled(st, o.cls, name)
                return [(st, X('raise', self.mkexc(
                    st, '__builtin__.AttributeError', [K(name)])))]
            if o.kind in ('list', 'dict', 'set', 'tuplist', 'gen', 'genexp',
                          'iter'):
                if lacks(o.kind, name):
                    return [(st, X('raise', self.mkexc(
                        st, '__builtin__.AttributeError', [K(name)])))]
                return [(st, ('bmeth', b, name))]
            return [(st, ('attr', b, name))]
        if (b, name) in st.over:
            return [(st, st.over[(b, name)])]
        if h == 'vars' and isref(b[1]):
            return [(st, ('bmeth', b, name))]
        if h in ('func', 'bound') and not name.startswith((
                '__', 'func_', 'im_')) and name not in self.stored():
            return [(st, X('raise', self.mkexc(
                st, '__builtin__.AttributeError', [K(name)])))]
        t = self.typeof(st, b)
        if t:
            v, own = self.class_lookup(st, t, name)
            if v is not None and (v[0] in ('func', 'prop', 'cm', 'sm')
                                  or self.is_descriptor(st, v)):
                return self.bind(st, v, b, t, fr)
            if v is not None and not self.assigned_attr(t, name):
                return [(st, v)]
        if b[0] in ('k', 'str', 'tuple', 'list', 'dict', 'set', 'tuplist'):
            if lacks(b[1] if isk(b) else b[0], name):
                return [(st, X('raise', self.mkexc(
                    st, '__builtin__.AttributeError', [K(name)])))]
            return [(st, ('bmeth', b, name))]
        fb = self.freeze(st, b)
        if self.strict_none and self.lib.maybe_none(fb):
            out = []
            for s, isn in self.assume(st, ('isnone', fb)):
                if isn:
                    out.append((s, X('raise', self.mkexc(
                        s, '__builtin__.AttributeError',
                        [K("'NoneType' object has no attribute")]))))
                else:
                    out.append((s, ('attr', fb, name)))
            return out
        if not self.loading and self.catch_attr():
            out = []
            for s, has in self.assume(st, ('hasattr', fb, name)):
                if has:
                    out.append((s, ('attr', fb, name)))
                else:
                    out.append((s, X('raise', ('excinst', (
                        'ext', self.catch_attr()), ('tuple', K(name))))))
            return out
        return [(st, ('attr', fb, name))]

    def catch_attr(self):
        """a handler catching a missing attribute of an external object"""
        for c in reversed(self.catching):
            if c in ('with', 'finally'):
                continue
            for t in c[1]:
                if t is not None and t[0] == 'ext' and bare(t[1]) in (
                        'NameError', 'AttributeError'):
                    return t[1]
        return None

    _assigned = None
    _stored = None

    def stored(self):
        """the names of the attributes which are assigned anywhere"""
        if self._stored is None:
            self._stored = set()
            for m in self.mods.values():
                for x in m.walk():
                    if x._ == 'Attribute' and 'Store' == (
                            x.ctx if isinstance(x.ctx, str) else x.ctx._):
                        self._stored.add(x.attr)
        return self._stored

    def assigned_attr(self, cid, name):
        """is self.<name> assigned somewhere in the class"""
        if self._assigned is None:
            self._assigned = {}
        key = cid
        if key not in self._assigned:
            names = set()
            for c in self.mro(self.base if cid in self.base.heap
                              else self.base, cid):
                if isinstance(c, tuple):
                    continue
                for x in self.clsinfo[c]['node'].walk():
                    if x._ == 'Attribute':
                        ctx = x.ctx if isinstance(x.ctx, str) else x.ctx._
                        if ctx == 'Store':
                            names.add(x.attr)
            self._assigned[key] = names
        return name in self._assigned[key]

    def is_descriptor(self, st, v):
        if isref(v):
            o = st.heap[v[1]]
            return o.kind == 'inst' and self.class_lookup(
                st, o.cls, '__get__')[0] is not None
        return False

    def bind(self, st, v, selfv, cid, fr):
        h = v[0]
        if h == 'func':
            return [(st, ('bound', v, selfv))]
        if h == 'prop':
            return self.call(st, v[1], [selfv], [], fr)
        if h == 'cm':
            return [(st, ('bound', v[1], ('cls', cid)))]
        if h == 'sm':
            return [(st, v[1])]
        if self.is_descriptor(st, v):
            return self.call_attr(st, v, '__get__', [selfv, ('cls', cid)],
                                  [], fr)
        return [(st, v)]

    def class_getattr(self, st, b, name, fr):
        cid = b[1]
        if name == '__name__':
            return [(st, K(self.classname(cid)))]
        if name == '__dict__':
            return [(st, ('vars', b))]
        v, own = self.class_lookup(st, cid, name)
        if v is None:
            mc = self.lib.metaclass(self, st, cid)
            if mc:
                v, own = self.class_lookup(st, mc, name)
                if v is not None:
                    return self.bind(st, v, b, mc, fr)
            for e in self.ext_bases(st, cid):
                if e != ('ext', '__builtin__.object'):
                    return [(st, ('ext', e[1] + '.' + name))] \
                        if e[0] == 'ext' else [(st, ('attr', e, name))]
            self.unmodelled(st, cid, name)
            return [(st, X('raise', self.mkexc(
                st, '__builtin__.AttributeError', [K(name)])))]
        if v[0] == 'cm':
            return [(st, ('bound', v[1], b))]
        if v[0] == 'sm':
            return [(st, v[1])]
        if self.is_descriptor(st, v):
            return self.call_attr(st, v, '__get__', [NONE, b], [], fr)
        return [(st, v)]

    def setattr_(self, st, b, name, v, fr):
        fz = (self.freeze(st, b), self.freeze(st, v))
        if isref(b):
            o = st.heap[b[1]]
            d = dict(o.attrs)
            d[name] = v
            st.heap[b[1]] = o.clone(attrs=d)
            self.emit(st, 'setattr', name, (b, v), fz)
            return [(st, NONE)]
        if b[0] == 'cls':
            o = st.heap[b[1]]
            d = dict(o.attrs)
            d[name] = v
            st.heap[b[1]] = o.clone(attrs=d)
            self.emit(st, 'setattr', name, (b, v), fz)
            return [(st, NONE)]
        if b == NONE or st.facts.get(('isnone', b)) is True:
            return [(st, X('raise', self.mkexc(
                st, '__builtin__.AttributeError', [K(name)])))]
        if b[0] == 'mod':
            st.setvar(self.modenv[b[1]], name, v)
            self.emit(st, 'setattr', name, (b, v), fz)
            return [(st, NONE)]
        st.over[(b, name)] = v
        self.emit(st, 'setattr', name, (b, v), fz)
        return [(st, NONE)]

    # ------------------------------------------------------------ items
    def index(self, sl, st, fr):
        if sl._ == 'Index':
            return self.ev(sl.value, st, fr)
        if sl._ == 'Slice':
            parts = [sl.lower, sl.upper, sl.step]
            out = []
            for s, vs in self.evs([p for p in parts if p is not None],
                                  st, fr):
                if isinstance(vs, X):
                    out.append((s, vs))
                    continue
                it = iter(vs)
                out.append((s, ('slice',) + tuple(
                    NONE if p is None else next(it) for p in parts)))
            return out
        return [(st, ('slice', NONE, NONE, NONE))]

    def e_Subscript(self, n, st, fr):
        out = []
        for s, b in self.ev(n.value, st, fr):
            if isinstance(b, X):
                out.append((s, b))
                continue
            for s1, k in self.index(n.slice, s, fr):
                if isinstance(k, X):
                    out.append((s1, k))
                else:
                    self.curnode = n
                    out.extend(self.getitem(s1, b, k, fr))
        return out

    def mkitem(self, b, k):
        """canonical item term"""
        if k[0] == 'idx':
            return ('elem', b, k[2])
        if b[0] in ('tuple',) and isk(k) and k[1] == 'int' and \
                -len(b) < k[2] < len(b) - 1:
            return b[1:][k[2]]
        return ('item', b, k)

    def getitem(self, st, b, k, fr):
        return self.lib.getitem(self, st, b, k, fr)

    def setitem(self, st, b, k, v, fr, quiet=False):
        return self.lib.setitem(self, st, b, k, v, fr, quiet)

    def delitem(self, st, b, k, fr):
        return self.lib.delitem(self, st, b, k, fr)

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st, fr):
        out = []
        # super(C, self)
        if n.func._ == 'Name' and n.func.id == 'super' and len(n.args) == 2:
            for s, vs in self.evs(n.args, st, fr):
                if isinstance(vs, X):
                    out.append((s, vs))
                elif vs[0][0] == 'cls':
                    out.append((s, ('super', vs[0][1], vs[1])))
                else:
                    out.append((s, ('call', ('ext', '__builtin__.super'),
                                    tuple(vs), ())))
            return out
        if n.func._ == 'Name' and n.func.id in ('globals', 'locals') and \
                not n.args:
            return [(st, ('globals', fr.module))]
        for s, f in self.ev(n.func, st, fr):
            if isinstance(f, X):
                out.append((s, f))
                continue
            nodes = list(n.args)
            kws = [(k.arg, k.value) for k in n.keywords]
            extra = []
            if n.starargs is not None:
                extra.append(n.starargs)
            if n.kwargs is not None:
                extra.append(n.kwargs)
            for s1, vs in self.evs(nodes + [v for _, v in kws] + extra,
                                   s, fr):
                if isinstance(vs, X):
                    out.append((s1, vs))
                    continue
                args = list(vs[:len(nodes)])
                kw = list(zip([k for k, _ in kws],
                              vs[len(nodes):len(nodes) + len(kws)]))
                rest = vs[len(nodes) + len(kws):]
                if n.starargs is not None:
                    sv = rest.pop(0)
                    segs = self.segs(s1, sv)
                    if segs is None and isref(sv) and \
                            s1.heap[sv[1]].kind == 'inst':
                        seq = self.lib.inst_seq(self, s1, sv)
                        if seq is not None:
                            segs = self.segs(s1, seq)
                    if segs is not None and all(
                            x[0] == 'one' for x in segs):
                        args.extend(x[1] for x in segs)
                    else:
                        args.append(('star', sv))
                if n.kwargs is not None:
                    kv = rest.pop(0)
                    segs = self.segs(s1, kv)
                    if segs is not None and all(
                            x[0] == 'kv' and iskstr(x[1]) for x in segs):
                        kw.extend((x[1][2], x[2]) for x in segs)
                    else:
                        kw.append(('**', kv))
                self.curnode = n
                out.extend(self.call(s1, f, args, kw, fr, n))
        return out

    def call_attr(self, st, b, name, args, kw, fr):
        out = []
        for s, f in self.getattr_(st, b, name, fr):
            if isinstance(f, X):
                out.append((s, f))
            else:
                out.extend(self.call(s, f, args, kw, fr))
        return out

    def call(self, st, f, args, kw, fr, node=None):
        h = f[0]
        if node is None:
            node = self.curnode
        if h == 'bound':
            return self.call(st, f[1], [f[2]] + list(args), kw, fr, node)
        if h == 'func':
            return self.call_func(st, f, args, kw, fr, node)
        if h == 'partial':
            return self.call(st, f[1], list(f[2]) + list(args), list(f[3])
                             + list(kw), fr, node)
        if h == 'cls':
            return self.instantiate(st, f[1], args, kw, fr, node)
        if self.is_module(f):
            return [(st, X('raise', self.mkexc(
                st, '__builtin__.TypeError', [K('not callable')])))]
        if h == 'ext':
            sub = self.stubs.get(f[1])
            if sub is not None:
                v = st.envs[self.modenv['world']][sub]
                return self.call(st, v, args, kw, fr, node)
            if f[1] == '__builtin__.list.__init__' and not kw and \
                    1 <= len(args) <= 2 and \
                    self.lib.is_listinst(self, st, args[0]):
                return self.lib.list_init(self, st, args[0], args[1:], fr,
                                          node)
            part = f[1].split('.')
            if len(part) == 3 and part[0] == '__builtin__' and args and \
                    part[1] in ('str', 'list', 'dict', 'set') and \
                    part[2][0] != '_' and part[2] != 'fromkeys':
                # an unbound method
                v = args[0]
                if isk(v) and v[1] == 'str' and part[1] == 'str' or \
                        self.ckind(st, v) == part[1]:
                    return self.lib.call_method(self, st, v, part[2],
                                                args[1:], kw, fr, node)
            return self.lib.call_ext(self, st, f[1], args, kw, fr, node)
        if h == 'bmeth':
            return self.lib.call_method(self, st, f[1], f[2], args, kw, fr,
                                        node)
        if h == 'attr' and isinstance(f[2], str):
            return self.lib.call_method(self, st, f[1], f[2], args, kw, fr,
                                        node)
        if h == 'ntmake':
            return self.lib.ntmake(self, st, f[1], args)
        if h == 'cm' or h == 'sm':
            return self.call(st, f[1], args, kw, fr, node)
        if isref(f) or self.typeof(st, f):
            t = self.typeof(st, f)
            if t and self.class_lookup(st, t, '__call__')[0]:
                return self.call_attr(st, f, '__call__', args, kw, fr)
        t = self.typeof(st, f) if isref(f) else None
        if h in ('k', 'mod') or h in (
                'tuple', 'tuplist', 'list', 'dict', 'set') or \
                isref(f) and (t is None and st.heap[f[1]].kind in (
                    'list', 'tuple', 'dict', 'set') or
                    t and t in self.clsinfo and self.plain_class(st, t)):
            return [(st, X('raise', self.mkexc(
                st, '__builtin__.TypeError', [K('not callable')])))]
        return self.opaque_call(st, f, args, kw, fr, node)

    def opaque_call(self, st, f, args, kw, fr, node, pure=False):
        """an uninterpreted call: event + result term"""
        fz = self.freeze(st, f)
        fa = tuple(self.freeze(st, a) for a in args)
        fk = tuple(sorted((k, self.freeze(st, v)) for k, v in kw))
        if pure:
            return [(st, ('call', fz, fa, fk))]
        key = (fz, fa, fk)
        occ = st.occ.get(key, 0)
        st.occ[key] = occ + 1
        res = ('call', fz, fa, fk) + ((occ,) if occ else ())
        self.stats['calls'] += 1
        out = []
        if self.catching and not self.loading:
            s2 = st.fork()
            self.emit(s2, 'call', fz, tuple(args), tuple(kw), res, node)
            self.emit(s2, 'failed', fz, tuple(args), tuple(kw), res, node)
            out.append((s2, X('raise', ('extexc', res))))
        self.emit(st, 'call', fz, tuple(args), tuple(kw), res, node)
        out.insert(0, (st, res))
        return out

    def call_func(self, st, f, args, kw, fr, node=None):
        info = self.funcs[f[1]]
        if self.is_opaque(info, args):
            return self.opaque_call(st, f, args, kw, fr, node)
        if len(self.stack) >= self.MAXDEPTH:
            raise Blowup('call depth at %s' % info.qual)
        if sum(1 for x in self.stack if x is info) >= self.recursion:
            return self.opaque_call(st, f, args, kw, fr, node)
        env = self.newid('env')
        bound = self.bindargs(st, info, f[3] if len(f) > 3 else (), args, kw)
        if bound is None:
            if info.module in MODELS and info.qual not in EXACT:
                raise Blowup('other arguments for %s' % info.qual)
            return [(st, X('raise', self.mkexc(
                st, '__builtin__.TypeError', [K(
                    'bad arguments for %s' % info.qual)])))]
        d, tuples = bound
        d['<parent>'] = ('envp', f[2])
        if info.isgen:
            # a generator: evaluated where it is consumed
            st.envs[env] = d
            g = self.alloc(st, 'gen', attrs=dict(
                qual=info.qual, func=f, env=env,
                args=tuple(args) + tuple(v for k, v in kw)))
            if tuples:
                fr2 = Frame(env, info, info.module)
                for t, v in tuples:
                    outs = self.assign(t, v, st, fr2)
                    st = outs[0][0]
            return [(st, g)]
        st.envs[env] = d
        fr2 = Frame(env, info, info.module)
        self.stats['functions'].add(info.qual)
        self.stack.append(info)
        try:
            cur = [(st, None)]
            for t, v in tuples:
                nxt = []
                for s, c in cur:
                    if c is None:
                        nxt.extend(self.assign(t, v, s, fr2))
                    else:
                        nxt.append((s, c))
                cur = nxt
            outs = []
            for s, c in cur:
                if c is not None:
                    outs.append((s, c))
                elif info.node._ == 'Lambda':
                    for s1, v in self.ev(info.node.body, s, fr2):
                        outs.append((s1, (v.kind, v.val) if isinstance(v, X)
                                     else ('return', v)))
                else:
                    outs.extend(self.block(info.node.body, s, fr2))
        finally:
            self.stack.pop()
        res = []
        for s, c in outs:
            if not fr2.captured:
                s.envs.pop(env, None)
            if c is None:
                res.append((s, NONE))
            elif c[0] == 'return':
                res.append((s, c[1]))
            elif c[0] in ('raise', 'gexit'):
                res.append((s, X(c[0], c[1])))
            else:
                raise Blowup('control %s leaves %s' % (c, info.qual))
        return self.merge_vals(res)

    def merge_vals(self, res):
        if len(res) < 2:
            return res
        groups = []
        for s, v in res:
            for g in groups:
                gv = g[0]
                if type(gv) is type(v) and (
                        gv == v if not isinstance(v, X) else
                        (gv.kind == v.kind and gv.val == v.val)):
                    g[1].append(s)
                    break
            else:
                groups.append((v, [s]))
        out = []
        for v, ss in groups:
            for s in (self.merge(ss) if len(ss) > 1 else ss):
                out.append((s, v))
        return out

    def is_opaque(self, info, args):
        if info.abstract:
            return True
        q = info.qual
        return q in self.opaque or q.rsplit('.', 1)[-1] in self.opaque

    def bindargs(self, st, info, defaults, args, kw):
        a = info.node.args
        params = a.args
        d = {}
        tuples = []
        n = len(params)
        args = list(args)
        star = None
        if args and args[-1][0] == 'star':
            star = args.pop()
        if any(x[0] == 'star' for x in args):
            return None
        vals = [None] * n
        for i, v in enumerate(args[:n]):
            vals[i] = v
        extra = args[n:]
        if star is not None:
            j = 0
            nd = n - len(defaults)
            for i in range(len(args), n):
                vals[i] = self.mkitem(self.freeze(st, star[1]), K(j))
                j += 1
            if a.vararg:
                extra = extra + [star]
        if extra and not a.vararg:
            return None
        names = [p.id if p._ == 'Name' else None for p in params]
        rest = []
        for k, v in kw:
            if k in names:
                i = names.index(k)
                if vals[i] is not None and star is None:
                    return None
                vals[i] = v
            elif k == '**':
                rest.append((k, v))
            elif a.kwarg:
                rest.append((k, v))
            else:
                return None
        for i in range(n):
            if vals[i] is None:
                j = i - (n - len(defaults))
                if j < 0:
                    stars = [v for k, v in rest if k == '**']
                    if stars:
                        vals[i] = self.mkitem(
                            self.freeze(st, stars[0]), K(names[i]))
                        continue
                    return None
                vals[i] = defaults[j]
        for p, v in zip(params, vals):
            if p._ == 'Name':
                d[p.id] = v
            else:
                tuples.append((p, v))
        if a.vararg:
            if extra and any(x[0] == 'star' for x in extra):
                segs = tuple(('splat', x[1]) if x[0] == 'star' else
                             ('one', x) for x in extra)
                if len(segs) == 1:
                    d[a.vararg] = segs[0][1]
                else:
                    d[a.vararg] = self.alloc(st, 'tuplist', segs=segs)
            else:
                d[a.vararg] = ('tuple',) + tuple(extra)
        if a.kwarg:
            segs = tuple(('kv', K(k), v) for k, v in rest if k != '**')
            segs += tuple(('splat', v) for k, v in rest if k == '**')
            d[a.kwarg] = self.alloc(st, 'dict', segs=segs)
        return d, tuples

    def instantiate(self, st, cid, args, kw, fr, node):
        nt = st.heap[cid].attrs.get('_fields')
        if nt is None:
            for c in self.mro(st, cid)[1:]:
                if not isinstance(c, tuple) and '_fields' in \
                        st.heap[c].attrs:
                    nt = st.heap[c].attrs['_fields']
        if nt is not None and self.class_lookup(st, cid, '__new__')[0] \
                is None:
            fields = [f[2] for f in nt[1:]]
            if args and args[-1][0] == 'star':
                sv = self.freeze(st, args[-1][1])
                args = list(args[:-1]) + [
                    self.mkitem(sv, K(i))
                    for i in range(len(fields) - len(args) + 1)]
            vals = dict(zip(fields, args))
            vals.update(kw)
            if len(args) > len(fields) or set(vals) != set(fields):
                return [(st, X('raise', self.mkexc(
                    st, '__builtin__.TypeError', [K('namedtuple')])))]
            return [(st, ('nt', cid) + tuple(vals[f] for f in fields))]
        ref = self.alloc(st, 'inst', cls=cid)
        init, own = self.class_lookup(st, cid, '__init__')
        self.emit(st, 'new', ('cls', self.qualcls(cid)), tuple(args),
                  tuple(kw), ref, node)
        ext = self.ext_bases(st, cid)
        isexc = any(e[0] == 'ext' and bare(e[1]) in EXC_BASES for e in ext)
        if isexc:
            self.setobj(st, ref, attrs={'args': ('tuple',) + tuple(args)})
        if init is None:
            if self.lib.is_record(self, st, cid):
                return self.lib.record_init(self, st, cid, ref, args, kw, fr)
            if len(args) < 2 and not kw and \
                    self.lib.is_listinst(self, st, ref):
                return [(s, v if isinstance(v, X) else ref)
                        for s, v in self.lib.list_init(self, st, ref, args,
                                                       fr, node)]
            if not isexc and args and not [
                    e for e in ext if e != ('ext', '__builtin__.object')]:
                return [(st, X('raise', self.mkexc(
                    st, '__builtin__.TypeError', [K('no arguments')])))]
            return [(st, ref)]
        out = []
        for s, v in self.call(st, init, [ref] + list(args), kw, fr, node):
            out.append((s, v if isinstance(v, X) else ref))
        return out

    # ------------------------------------------------------------ yields
    def e_Yield(self, n, st, fr):
        out = []
        vals = [(st, NONE)] if n.value is None else self.ev(n.value, st, fr)
        for s, v in vals:
            if isinstance(v, X):
                out.append((s, v))
                continue
            if fr.yielder is None:
                self.emit(s, 'yield', None, [v], [self.freeze(s, v)],
                          node=n)
                out.append((s, NONE))
                continue
            for s1, c in fr.yielder(s, v):
                if c is None:
                    out.append((s1, NONE))
                else:
                    out.append((s1, X('gexit', c)))
        return out

    def run_gen(self, st, gref, fr, step):
        """iterate a repository generator: its body is analysed with the body
        of the consumer in the place of each yield"""
        o = st.heap[gref[1]]
        if o.kind == 'genexp':
            return self.run_comp(st, o, step)
        f = o.attrs['func']
        info = self.funcs[f[1]]
        if sum(1 for x in self.stack if x is info) >= self.recursion or \
                len(self.stack) >= self.MAXDEPTH or \
                self.is_opaque(info, ()):
            term = ('call', self.freeze(st, f), tuple(
                self.freeze(st, a) for a in o.attrs['args']), ())
            self.emit(st, 'call', term[1], o.attrs['args'], (), term)
            return self.generic_loop(st, term, fr, step)
        self.stats['functions'].add(info.qual)
        fr2 = Frame(o.attrs['env'], info, info.module, yielder=step)
        fr2.captured = True
        self.stack.append(info)
        saved = self.stack[:-1]

        def ystep(s, v):
            me = self.stack.pop()
            try:
                return step(s, v)
            finally:
                self.stack.append(me)
        fr2.yielder = ystep
        try:
            outs = self.block(info.node.body, st, fr2)
        finally:
            self.stack.pop()
        res = []
        for s, c in outs:
            if c is None or c[0] == 'return':
                res.append((s, None))
            elif c[0] == 'gexit':
                res.append((s, c[1]))
            elif c[0] == 'raise' and c[1][0] == 'excinst' and \
                    c[1][1] == ('ext', '__builtin__.StopIteration'):
                res.append((s, None))   # ends the generator (Python 2)
            else:
                res.append((s, c))
        return res

    def e_GeneratorExp(self, n, st, fr):
        fr.captured = True
        # the first iterable is evaluated at once
        out = []
        for s, it in self.ev(n.generators[0].iter, st, fr):
            if isinstance(it, X):
                out.append((s, it))
                continue
            g = self.alloc(s, 'genexp', attrs=dict(
                node=n, it=it, env=fr.env, fr=fr, qual='<genexp>', args=(
                    it,)))
            out.append((s, g))
        return out

    def run_comp(self, st, o, step):
        n = o.attrs['node']
        fr = o.attrs['fr']
        env = self.newid('env')
        st.envs[env] = {'<parent>': ('envp', o.attrs['env'])}
        fr2 = Frame(env, fr.func, fr.module, parent=fr)
        fr2.captured = True
        outs = self.comp(n.generators, 0, st, fr2, n.elt, step,
                         o.attrs['it'])
        for s, c in outs:
            s.envs.pop(env, None)
        return outs

    def comp(self, gens, i, st, fr, elt, step, it=None):
        if i == len(gens):
            out = []
            for s, v in (self.ev(elt, st, fr) if isinstance(elt, N)
                         else elt(st, fr)):
                if isinstance(v, X):
                    out.append((s, (v.kind, v.val)))
                else:
                    out.extend(step(s, v))
            return out
        g = gens[i]

        def body(s, v):
            out = []
            for s1, c in self.assign(g.target, v, s, fr):
                if c is not None:
                    out.append((s1, c))
                    continue
                cur = [(s1, True)]
                for t in g.ifs:
                    nxt = []
                    for s2, b in cur:
                        if b is True:
                            nxt.extend(self.cond(t, s2, fr))
                        else:
                            nxt.append((s2, b))
                    cur = nxt
                for s2, b in cur:
                    if isinstance(b, X):
                        out.append((s2, (b.kind, b.val)))
                    elif b:
                        out.extend(self.comp(gens, i + 1, s2, fr, elt, step))
                    else:
                        out.append((s2, None))
            return out
        if it is not None:
            return self.iterate(st, it, fr, body, g)
        out = []
        for s, x in self.ev(g.iter, st, fr):
            if isinstance(x, X):
                out.append((s, (x.kind, x.val)))
            else:
                out.extend(self.iterate(s, x, fr, body, g))
        return out

    def e_ListComp(self, n, st, fr):
        return self.comp_collect(n, st, fr, 'list')

    def e_SetComp(self, n, st, fr):
        return self.comp_collect(n, st, fr, 'set')

    def e_DictComp(self, n, st, fr):
        d = self.alloc(st, 'dict')

        def elt(s, f):
            return [(s1, v if isinstance(v, X) else ('tuple',) + tuple(v))
                    for s1, v in self.evs([n.key, n.value], s, f)]

        def step(s, v):
            return self.vals2ctl(self.setitem(s, d, v[1], v[2], fr,
                                              quiet=True))
        out = []
        for s, c in self.comp(n.generators, 0, st, fr, elt, step):
            out.append((s, d if c is None else X(c[0], c[1])))
        return out

    def comp_collect(self, n, st, fr, kind):
        lst = self.alloc(st, kind)

        def step(s, v):
            o = s.heap[lst[1]]
            s.heap[lst[1]] = o.clone(segs=o.segs + (('one', v),))
            return [(s, None)]
        out = []
        for s, c in self.comp(n.generators, 0, st, fr, n.elt, step):
            out.append((s, lst if c is None else X(c[0], c[1])))
        return out

    # ------------------------------------------------------------ iteration
    def one_shot(self, st, it, o, fr, step, node):
        """iterate an iterator: nothing is left for a second iteration"""
        spent = o.attrs.get('spent')
        if spent == 'all':
            return [(st, None)]
        if spent == 'part' or o.attrs.get('started'):
            return self.generic_loop(st, ('call', ('ext', 'rest_of'),
                                          (self.freeze(st, it),), ()),
                                     fr, step)
        self.setobj(st, it, attrs=dict(o.attrs, spent='all'))
        if o.kind == 'iter':
            outs = self.lib.iterate_iter(self, st, o, fr, step, node)
        else:
            outs = self.run_gen(st, it, fr, step)
        for s, c in outs:
            if c is not None:
                self.setobj(s, it, attrs=dict(s.heap[it[1]].attrs,
                                              spent='part'))
        return outs

    def iterate(self, st, it, fr, step, node):
        """follow `for v in it: step(v)`; -> list of (state, ctl)"""
        it = self.lib.plain_vars(self, st, it)
        if isref(it):
            o = st.heap[it[1]]
            if o.kind in ('gen', 'genexp') or o.kind == 'iter' and \
                    o.attrs['op'] in ('iter', 'reversed', 'enumerate',
                                      'groupby'):
                return self.one_shot(st, it, o, fr, step, node)
            if o.kind == 'iter':
                return self.lib.iterate_iter(self, st, o, fr, step, node)
            segs = self.segs(st, it)
            if segs is not None:
                return self.iter_segs(st, it, segs, o.kind, fr, step, node)
            if o.kind == 'inst':
                return self.iter_inst(st, it, o.cls, fr, step, node)
        segs = self.segs(st, it)
        if segs is not None:
            return self.iter_segs(st, it, segs, self.ckind(st, it), fr, step,
                                  node)
        if iskstr(it) and len(it[2]) <= self.UNROLL:
            return self.unroll(st, [K(c) for c in it[2]], step)
        t = self.typeof(st, it)
        if t and it[0] != 'nt':
            return self.iter_inst(st, it, t, fr, step, node)
        if it == NONE or isk(it) and it[1] in ('int', 'float', 'bool') or \
                it[0] in ('func', 'bound', 'mod') or self.is_module(it) or \
                self.class_without(st, it, '__iter__', '__getitem__'):
            return [(st, ('raise', self.mkexc(
                st, '__builtin__.TypeError', [K('not iterable')])))]
        return self.generic_loop(st, self.freeze(st, it), fr, step)

    def iter_inst(self, st, it, cls, fr, step, node):
        m, own = self.class_lookup(st, cls, '__iter__')
        if m is not None:
            out = []
            for s, r in self.call_attr(st, it, '__iter__', [], [], fr):
                if isinstance(r, X):
                    out.append((s, (r.kind, r.val)))
                elif isref(r) and self.stubs and self.typeof(s, r) and \
                        self.class_lookup(
                        s, self.typeof(s, r), 'next')[0]:
                    out.extend(self.by_next(s, r, fr, step))
                elif r == it:
                    out.extend(self.generic_loop(s, self.freeze(s, it), fr,
                                                 step))
                else:
                    out.extend(self.iterate(s, r, fr, step, node))
            return out
        m, own = self.class_lookup(st, cls, '__getitem__')
        if m is not None:
            seq = self.lib.inst_seq(self, st, it)
            if seq is not None:
                return self.iterate(st, seq, fr, step, node)
        elif own is None and self.plain_class(st, cls):
            return [(st, ('raise', self.mkexc(
                st, '__builtin__.TypeError', [K('not iterable')])))]
        return self.generic_loop(st, self.freeze(st, it), fr, step)

    def plain_class(self, st, cls):
        """a class of the library all of whose bases are known"""
        return self.clsinfo[cls]['module'] not in MODELS and all(
            c == ('ext', '__builtin__.object')
            for c in self.ext_bases(st, cls))

    def by_next(self, st, it, fr, step):
        """the iteration protocol of a modelled object"""
        out, live = [], [st]
        for i in range(60):
            nxt = []
            for s in live:
                for s1, v in self.call_attr(s, it, 'next', [], [], fr):
                    if isinstance(v, X):
                        if v.kind == 'raise' and v.val[:2] == (
                                'excinst', ('ext',
                                            '__builtin__.StopIteration')):
                            out.append((s1, None))
                        else:
                            out.append((s1, (v.kind, v.val)))
                        continue
                    for s2, c in step(s1, v):
                        if c is None:
                            nxt.append(s2)
                        else:
                            out.append((s2, c))
            live = nxt
            if not live:
                return out
            if len(live) + len(out) > self.MAXSTATES:
                break
        raise Blowup('iteration by next')

    def unroll(self, st, vals, step):
        live = [(st, None)]
        for v in vals:
            nxt = []
            for s, c in live:
                if c is None:
                    nxt.extend(step(s, v))
                else:
                    nxt.append((s, c))
            live = nxt
            if len(live) > self.MAXSTATES:
                raise Blowup('unrolled loop')
            cont = [s for s, c in live if c is None]
            if len(cont) > 1:
                cont = self.merge(cont)
                live = [(s, None) for s in cont] + [
                    (s, c) for s, c in live if c is not None]
        return live

    def ordered(self, st, it, segs, kind):
        """with `dictrev`, the items of a dict or set are met in the
        opposite order: what depends on it is not determined"""
        if self.dictrev and segs and kind in (
                'dict', 'set', 'items', 'values', 'keys') and not (
                isref(it) and 'ordered' in st.heap[it[1]].attrs):
            return tuple(reversed(segs))
        return segs

    def iter_segs(self, st, it, segs, kind, fr, step, node):
        live = [(st, None)]
        segs = self.ordered(st, it, segs, kind)
        if len(segs) > self.UNROLL * 4 and not (len(segs) < 400 and all(
                s[0] in ('one', 'kv') and (isk(s[1]) or s[1][0] in (
                    'cls', 'func', 'mod', 'ext')) for s in segs)):
            return self.generic_loop(st, self.freeze(st, it), fr, step)
        if kind == 'dict' and any(s[0] == 'del' for s in segs) or any(
                s[0] in ('upd', 'ins', 'rem', 'popped', 'del')
                for s in segs):
            return self.generic_loop(st, self.freeze(st, it), fr, step)
        for sg in segs:
            nxt = []
            for s, c in live:
                if c is not None:
                    nxt.append((s, c))
                    continue
                nxt.extend(self.iter_seg(s, sg, kind, fr, step, node))
            live = nxt
            cont = [s for s, c in live if c is None]
            if len(cont) > 1:
                cont = self.merge(cont)
                live = [(s, None) for s in cont] + [
                    (s, c) for s, c in live if c is not None]
        return live

    def iter_seg(self, s, sg, kind, fr, step, node):
        if sg[0] == 'one':
            return step(s, sg[1])
        if sg[0] == 'kv':
            if kind == 'items':
                return step(s, ('tuple', sg[1], sg[2]))
            return step(s, sg[2] if kind == 'values' else sg[1])
        if kind in ('items', 'values') and sg[0] in ('splat', 'base'):
            fd = self.freeze(s, sg[1]) if sg[0] == 'splat' else sg
            k = ('key', fd, self.depth_of(fd))
            v = self.mkitem(fd, k)
            return self.run_loop(s, fd, lambda s1: step(
                s1, ('tuple', k, v) if kind == 'items' else v), node)
        if sg[0] == 'splat':
            if kind == 'dict':
                return self.generic_loop(s, self.freeze(s, sg[1]), fr, step,
                                         keys=True)
            if isref(sg[1]):
                return self.iterate(s, sg[1], fr, step, node)
            t = self.typeof(s, sg[1])
            return self.generic_loop(s, self.freeze(s, sg[1]), fr, step)
        if sg[0] == 'base':
            return self.generic_loop(s, sg, fr, step, keys=kind == 'dict')
        if sg[0] == 'each':
            key, alts = sg[1], sg[2]

            def body(s1):
                out = []
                for lits, inner in alts:
                    s2 = s1.fork()
                    if not self.consistent(s2, lits):
                        continue
                    for a, b in lits:
                        if self.fact(s2, a) is None:
                            self.learn(s2, a, b)
                    live = [(s2, None)]
                    for x in inner:
                        nxt = []
                        for s3, c in live:
                            if c is not None:
                                nxt.append((s3, c))
                            else:
                                nxt.extend(self.iter_seg(
                                    s3, x, kind, fr, step, node))
                        live = nxt
                    out.extend(live)
                return out
            return self.run_loop(s, key, body, node)
        return self.generic_loop(s, self.freeze(s, sg), fr, step)

    def depth_of(self, key):
        return sum(1 for k in self.active if k == key)

    def generic_loop(self, st, term, fr, step, keys=False):
        """loop over an external iterable"""
        if term[0] == 'call' and term[1] == ('ext', '__builtin__.range'):
            return self.lib.range_loop(self, st, term[2], fr, step)
        n = self.depth_of(term)
        if keys:
            v = ('key', term, n)
        else:
            v = ('elem', term, n)
        return self.run_loop(st, term, lambda s: step(s, v), None)

    # locations a loop may change
    def changed(self, st0, s):
        locs = set()
        for e, d in st0.envs.items():
            d2 = s.envs.get(e)
            if d2 is None or d2 is d:
                continue
            for k, v in d2.items():
                if d.get(k) != v and k != '<exc>':
                    locs.add(('env', e, k))
        for oid, o in st0.heap.items():
            o2 = s.heap.get(oid)
            if o2 is o or o2 is None:
                continue
            if o2.segs != o.segs:
                locs.add(('segs', oid))
            if o2.attrs != o.attrs:
                for k, v in o2.attrs.items():
                    if o.attrs.get(k) != v:
                        locs.add(('oattr', oid, k))
        for k, v in s.over.items():
            if st0.over.get(k) != v:
                locs.add(('over', k))
        for k, v in s.cont.items():
            if st0.cont.get(k) != v:
                locs.add(('cont', k))
        return locs

    def getloc(self, st, loc):
        k = loc[0]
        if k == 'env':
            return st.envs.get(loc[1], {}).get(loc[2])
        if k == 'oattr':
            return st.heap[loc[1]].attrs.get(loc[2])
        if k == 'over':
            v = st.over.get(loc[1])
            if v is None:
                return ('attr',) + loc[1]
            return v
        if k == 'segs':
            return st.heap[loc[1]].segs
        if k == 'cont':
            v = st.cont.get(loc[1])
            return v[1] if v else (('splat', loc[1]),)

    def setloc(self, st, loc, v, kind=None):
        k = loc[0]
        if k == 'env':
            if v is None:
                d = dict(st.envs[loc[1]])
                d.pop(loc[2], None)
                st.envs[loc[1]] = d
            else:
                st.setvar(loc[1], loc[2], v)
        elif k == 'oattr':
            o = st.heap[loc[1]]
            d = dict(o.attrs)
            if v is None:
                d.pop(loc[2], None)
            else:
                d[loc[2]] = v
            st.heap[loc[1]] = o.clone(attrs=d)
        elif k == 'over':
            st.over[loc[1]] = v
        elif k == 'segs':
            st.heap[loc[1]] = st.heap[loc[1]].clone(segs=v)
        elif k == 'cont':
            st.cont[loc[1]] = (kind or (st.cont[loc[1]][0] if loc[1] in
                               st.cont else 'list'), v)

    def isseg(self, loc):
        return loc[0] in ('segs', 'cont')

    def run_loop(self, st0, key, step, node, exhausts=False):
        """one pass of the body over havocked locations, to a fixpoint of the
        set of changed locations"""
        self.stats['loops'] += 1
        havoc = {}
        kinds = {}
        n = self.depth_of(key)
        lkey = key if not n else ('nest', key, K(n))
        self.active.append(key)
        outs = None
        try:
            for rnd in range(8):
                s = st0.fork()
                s.lits = ()
                s.ev = ()
                for loc, ph in havoc.items():
                    old = self.getloc(st0, loc)
                    if old is None and loc[0] == 'env':
                        continue   # not defined before the loop
                    if self.isseg(loc):
                        self.setloc(s, loc, (ph,), kinds.get(loc))
                    else:
                        self.setloc(s, loc, ph)
                if havoc:
                    s.facts = {a: b for a, b in s.facts.items()
                               if not self.fact_stale(a, havoc)}
                start = s.fork()
                outs = step(s)
                new = set()
                for s1, c in outs:
                    if c is None or c == ('exhausted',):
                        for loc in self.changed(start, s1):
                            if loc not in havoc:
                                new.add(loc)
                        self.note_types(start, s1, havoc)
                    if c is None and exhausts:
                        pass
                    for loc in self.changed(start, s1):
                        if loc[0] == 'cont':
                            kinds[loc] = s1.cont[loc[1]][0]
                if not new:
                    break
                for loc in sorted(new, key=repr):
                    if self.isseg(loc):
                        havoc[loc] = ('base', loc)
                    else:
                        havoc[loc] = ('phi', lkey, loc)
            else:
                raise Blowup('loop does not stabilise')
        finally:
            self.active.pop()
        return self.close_loop(st0, lkey, havoc, kinds, outs, exhausts, node)

    def fact_stale(self, atom, havoc):
        return False

    def note_types(self, start, s1, havoc):
        """remember the class of the values stored in a container or variable
        changed by a loop"""
        for loc in self.changed(start, s1):
            if self.isseg(loc):
                segs = self.getloc(s1, loc)
                for sg in segs:
                    v = sg[1] if sg[0] == 'one' else (
                        sg[2] if sg[0] == 'kv' else None)
                    if v is not None:
                        t = self.typeof(s1, v)
                        if t:
                            self.valtype[loc] = t
            else:
                v = self.getloc(s1, loc)
                t = v is not None and self.typeof(s1, v)
                if t and loc in havoc:
                    self.valtype[havoc[loc]] = t

    def close_loop(self, st0, lkey, havoc, kinds, outs, exhausts, node):
        cont = [s for s, c in outs if c is None]
        if len(cont) > 1:
            cont = self.merge(cont)
        alts = []
        for s in cont:
            alts.append((s.lits, s))
        paths = []
        for s, c in [(s, None) for s in cont] + [
                (s, c) for s, c in outs if c is not None]:
            upd = tuple((loc, self.getloc(s, loc)) for loc in havoc)
            paths.append((s.lits, s.ev, c, upd, s))
        info = LoopInfo(lkey, tuple(
            (l, e, c, u) for l, e, c, u, _ in paths), tuple(
            (loc, self.getloc(st0, loc)) for loc in havoc))
        sub = {}
        final = {}
        for loc, ph in havoc.items():
            old = self.getloc(st0, loc)
            if self.isseg(loc):
                al = []
                ok = True
                for lits, s in alts:
                    segs = self.getloc(s, loc)
                    if not segs or segs[0] != ph:
                        ok = False
                        break
                    al.append((lits, segs[1:]))
                if ok:
                    al = self.simplify_alts(al)
                    if all(not x for _, x in al):
                        final[loc] = old
                    else:
                        final[loc] = old + (('each', lkey, al),)
                else:
                    final[loc] = old + (('changed', lkey, tuple(
                        (l, self.getloc(s, loc)) for l, s in alts)),)
            else:
                al = self.simplify_alts(
                    [(l, self.getloc(s, loc)) for l, s in alts])
                if all(v == ph for _, v in al):
                    final[loc] = old
                elif old is None:
                    if len(al) == 1:
                        final[loc] = ('last', lkey, al[0][1]) if \
                            al[0][1] is not None else None
                    else:
                        final[loc] = ('last', lkey, ('alts',) + al)
                else:
                    al2 = tuple((subst(l, {ph: ('acc',)}),
                                 subst(v, {ph: ('acc',)})) for l, v in al)
                    final[loc] = ('fold', lkey, old, al2)
            if not self.isseg(loc):
                if final[loc] is not None:
                    sub[ph] = final[loc]
        out = []

        def install(s, in_loop):
            """the state of a path that leaves the loop from the body"""
            for loc, ph in havoc.items():
                cur = self.getloc(s, loc)
                if self.isseg(loc):
                    if cur and cur[0] == ph:
                        self.setloc(s, loc, (final[loc] if in_loop else
                                    final[loc]) + cur[1:], kinds.get(loc))
                elif cur is not None:
                    self.setloc(s, loc, subst(cur, sub) if cur == ph or
                                contains(cur, ph) else cur)

        if exhausts:
            # while loops end in the state in which the condition is false
            ends = [(s, c) for s, c in outs if c == ('exhausted',)]
        else:
            e = st0.fork()
            for loc in havoc:
                if loc[0] == 'env' and final[loc] is None:
                    continue
                self.setloc(e, loc, final[loc], kinds.get(loc))
            for s in cont:       # objects created in the body
                for oid, o in s.heap.items():
                    if oid not in e.heap:
                        e.heap[oid] = o
                for ev, d in s.envs.items():
                    if ev not in e.envs:
                        e.envs[ev] = d
                for k, v in s.cont.items():
                    if k not in e.cont and ('cont', k) not in havoc:
                        e.cont[k] = v
                for k, v in s.occ.items():
                    if k not in e.occ:
                        e.occ[k] = v
            if any(l or ev for l, ev, c, u, s in paths):
                self.emit(e, 'loop', lkey, (info,), node=node)
            out.append((e, None))
            ends = []
        for s, c in outs:
            if c is None:
                continue
            install(s, True)
            for s2 in cont:
                for oid, o in s2.heap.items():
                    if oid not in s.heap:
                        s.heap[oid] = o
                for ev, d in s2.envs.items():
                    if ev not in s.envs:
                        s.envs[ev] = d
            pre = st0.ev
            lits = s.lits
            ev = s.ev
            s.ev = pre
            if cont and (any(l or v for l, v, c2, u, _ in paths
                             if c2 is None)) or c == ('exhausted',):
                self.emit(s, 'loop', lkey, (info,), node=node)
            s.ev = s.ev + ev
            s.lits = st0.lits + lits
            if c[0] in ('return', 'raise', 'gexit') and len(c) > 1 and \
                    isinstance(c[1], tuple):
                c = (c[0], subst(c[1], sub))
            out.append((s, c))
        return out

    def simplify_alts(self, al):
        """merge alternatives with equal contents"""
        groups = []
        for l, v in al:
            for g in groups:
                if g[0] == v:
                    g[1].append(l)
                    break
            else:
                groups.append((v, [l]))
        res = []
        if len(groups) == 1:
            return (((), groups[0][0]),)
        for v, ls in groups:
            ls = [tuple(l) for l in ls]
            again = True
            while again and len(ls) > 1:
                again = False
                for i in range(len(ls)):
                    for j in range(i + 1, len(ls)):
                        d = self.litdiff(ls[i], ls[j])
                        if d is not None:
                            ls[i] = tuple(x for x in ls[i] if x[0] != d)
                            del ls[j]
                            again = True
                            break
                    if again:
                        break
            for l in ls:
                res.append((l, v))
        return tuple(res)

    # ------------------------------------------------------------ entries
    def run(self, f, args, kw=(), st=None, consume=False, setup=None):
        """summarise the paths of a call; -> list of Path"""
        s = st.fork() if st is not None else self.base.fork()
        s.ev = () if st is None else s.ev
        fr = Frame(self.modenv['prelude'], None, 'prelude')
        if setup:
            setup(s)
        self.curnode = None
        self.steps = 0
        self.deadline = time.process_time() + self.MAXTIME
        if self.UNTIL and time.time() > self.UNTIL:
            raise Blowup('no time left for the check')
        self.pure.clear()
        outs = self.call(s, f, list(args), list(kw), fr)
        res = []
        for s1, v in outs:
            if isinstance(v, X):
                res.append(Path(v.kind, self.freeze(s1, v.val), v.val, s1))
            elif consume and isref(v) and s1.heap[v[1]].kind in (
                    'gen', 'genexp'):
                def step(s2, x):
                    self.emit(s2, 'yield', None, [x],
                              [self.freeze(s2, x)])
                    return [(s2, None)]
                for s2, c in self.run_gen(s1, v, fr, step):
                    if c is None:
                        res.append(Path('return', NONE, NONE, s2))
                    else:
                        res.append(Path(c[0], self.freeze(s2, c[1]), c[1],
                                        s2))
            else:
                res.append(Path('return', self.freeze(s1, v), v, s1))
        self.stats['paths'] += len(res)
        return res

    def frame(self):
        return Frame(self.modenv['prelude'], None, 'prelude')
