"""Names, members, assigned locals and signatures of a whole program.

A flow-insensitive inference gives the set of possible values of an
expression (functions, classes, instances and modules of the program,
instances of builtin types), or UNK; errors are only reported when every
possible value is known.
"""
import importlib
import json
import os
import re
import string

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, 'stdlib27.json')) as _f:
    STD = json.load(_f)
BUILTINS = set(STD['modules']['__builtin__']) | {
    '__file__', '__name__', '__doc__', '__package__', '__builtins__',
    'WindowsError', 'memoryview', 'bytearray', 'buffer', 'apply', 'intern',
    'reload', '__debug__', 'exit', 'quit', 'raw_input', 'copyright'}
TYPES = STD['types']
NTUPLE = TYPES.pop('collections.' 'namedtuple')
TYPES['str'] = sorted(set(TYPES['str']) - {'isdecimal', 'isnumeric'})
INSTATTRS = {'__dict__', '__class__', '__doc__', '__module__', '__weakref__',
             '__init__', '__new__', '__repr__', '__str__', '__hash__',
             '__setattr__', '__getattribute__', '__delattr__', '__reduce__',
             '__reduce_ex__', '__sizeof__', '__format__',
             '__subclasshook__', '__slots__'}
CLSATTRS = INSTATTRS | {'__name__', '__bases__', '__mro__', 'mro',
                        '__subclasses__', '__base__', '__metaclass__',
                        '__abstractmethods__'}
UNK = 'UNK'
SCOPES = ('FunctionDef', 'Lambda', 'GeneratorExp', 'SetComp', 'DictComp',
          'ClassDef')


class Bug(object):
    def __init__(self, rule, con, what, certain=True):
        self.rule, self.con, self.what, self.certain = rule, con, what, \
            certain


def py3has(mod, name):
    """is it a member of the module of that name of Python 3? (the table of
    Python 2 may be incomplete, which is then no evidence)"""
    try:
        return hasattr(importlib.import_module(mod), name)
    except Exception:
        return False


def own_nodes(body):
    """the nodes of a scope, nested scopes excluded (but for what of them is
    evaluated in this one)"""
    stack = list(body)
    while stack:
        n = stack.pop()
        if n is None:
            continue
        yield n
        if n._ == 'FunctionDef':
            stack.extend(n.decorator_list)
            stack.extend(n.args.defaults)
        elif n._ == 'Lambda':
            stack.extend(n.args.defaults)
        elif n._ == 'ClassDef':
            stack.extend(n.decorator_list)
            stack.extend(n.bases)
        elif n._ in ('GeneratorExp', 'SetComp', 'DictComp'):
            stack.append(n.generators[0].iter)
        else:
            stack.extend(n.children())


def targets(t):
    """the names bound by an assignment target"""
    if t._ == 'Name':
        yield t.id
    elif t._ in ('Tuple', 'List'):
        for x in t.elts:
            for y in targets(x):
                yield y


def param_names(a):
    out = []
    for x in a.args:
        out.extend(targets(x))
    for x in (a.vararg, a.kwarg):
        if x:
            out.append(x if isinstance(x, str) else x.id)
    return out


def bindings(body):
    """name -> list of (kind, node) binding it in the scope"""
    out = {}
    glob = set()

    def add(name, kind, n):
        out.setdefault(name, []).append((kind, n))
    for n in own_nodes(body):
        if n._ == 'FunctionDef':
            add(n.name, 'def', n)
        elif n._ == 'ClassDef':
            add(n.name, 'class', n)
        elif n._ == 'Import':
            for a in n.names:
                add(a.asname or a.name.split('.')[0], 'import', a)
        elif n._ == 'ImportFrom':
            for a in n.names:
                add(a.asname or a.name, 'from', (n, a))
        elif n._ == 'Assign':
            for t in n.targets:
                if t._ == 'Name':
                    add(t.id, 'value', n.value)
                else:
                    for x in targets(t):
                        add(x, 'part', n.value)
        elif n._ == 'AugAssign':
            for x in targets(n.target):
                add(x, 'aug', n)
        elif n._ == 'For':
            for x in targets(n.target):
                add(x, 'loop', n)
        elif n._ == 'ListComp':
            for g in n.generators:
                for x in targets(g.target):
                    add(x, 'loop', g)
        elif n._ == 'With':
            items = [n] if 'context_expr' in n.f else n.items
            for i in items:
                if i.optional_vars is not None:
                    for x in targets(i.optional_vars):
                        add(x, 'with', i)
        elif n._ == 'ExceptHandler' and n.name is not None:
            if isinstance(n.name, str):
                add(n.name, 'exc', n)
            else:
                for x in targets(n.name):
                    add(x, 'exc', n)
        elif n._ == 'Delete':
            for t in n.targets:
                for x in targets(t):
                    add(x, 'del', n)
        elif n._ == 'Global':
            glob.update(n.names)
    for g in glob:
        out.pop(g, None)
    return out, glob


class Scope(object):
    def __init__(self, kind, node, parent, mod, body, params=()):
        self.kind, self.node, self.parent, self.mod = kind, node, parent, mod
        self.body = body
        self.params = list(params)
        self.names, self.globs = bindings(body)
        self.cls = None         # the class of a method
        self.qual = ''

    def has(self, name):
        return name in self.names or name in self.params


class Program(object):
    method_names = None
    foreign = ()        # the names of members of other libraries

    def __init__(self, mods):
        self.mods = {k: v for k, v in mods.items()
                     if k.startswith(('openquake', 'bin'))}
        self.bugs = []
        self.counts = {}
        self.scopes = {}        # id(node) -> Scope
        self.modscope = {}
        self.attrs_set = {}     # attribute -> number of `x.attr = ` sites
        self.infer_stack = []
        self.forwarding = set()
        self.reached = {}
        self.site = {}          # id(attribute node) -> Scope
        for name, tree in sorted(self.mods.items()):
            s = Scope('module', tree, None, name, tree.body)
            s.qual = name
            self.modscope[name] = s
            self.scopes[id(tree)] = s
            self.nest(s)
        for name, tree in self.mods.items():
            for n in tree.walk():
                if n._ == 'Attribute' and n.ctx._ in ('Store', 'AugStore'):
                    self.attrs_set.setdefault(n.attr, []).append(n)
        for s in self.scopes.values():
            for n in own_nodes(s.body):
                if n._ == 'Attribute':
                    self.site[id(n)] = s
        self.subclasses = {}
        for s in self.scopes.values():
            if s.kind == 'ClassDef':
                for b in self.bases(s):
                    if b[0] == 'class':
                        self.subclasses.setdefault(id(b[1].node), []).append(
                            s)

    # ------------------------------------------------------------ scopes
    def nest(self, scope):
        seen = []
        for n in own_nodes(scope.body):
            if n._ in SCOPES:
                seen.append(n)
        for n in seen:
            if n._ == 'FunctionDef':
                s = Scope('FunctionDef', n, scope, scope.mod, n.body,
                          param_names(n.args))
                if scope.kind == 'ClassDef':
                    s.cls = scope
            elif n._ == 'Lambda':
                s = Scope('Lambda', n, scope, scope.mod, [n.body],
                          param_names(n.args))
            elif n._ == 'ClassDef':
                s = Scope('ClassDef', n, scope, scope.mod, n.body)
            else:
                s = Scope(n._, n, scope, scope.mod, self.comp_body(n))
                for i, g in enumerate(n.generators):
                    s.params.extend(targets(g.target))
            s.qual = scope.qual + '.' + (n.get('name') or '<%s>' % n._)
            self.scopes[id(n)] = s
            self.nest(s)

    def comp_body(self, n):
        out = [n.elt] if 'elt' in n.f else [n.key, n.value]
        for i, g in enumerate(n.generators):
            if i:
                out.append(g.iter)
            out.extend(g.ifs)
        return out

    def lookup(self, scope, name):
        """the scope where a name used in a scope is bound, 'builtin' or
        None"""
        s, first = scope, True
        while s is not None:
            if (first or s.kind != 'ClassDef') and name not in s.globs and \
                    s.has(name):
                return s
            if name in s.globs:
                s = self.modscope[s.mod]
                return s if s.has(name) or any(
                    name in x.globs for x in self.scopes.values()
                    if x.mod == s.mod) else None
            if s.kind not in ('GeneratorExp', 'SetComp', 'DictComp'):
                first = False
            s = s.parent
        m = self.modscope[scope.mod]
        if any(name in x.globs and any(
                b._ == 'Name' and b.id == name and b.ctx._ != 'Load'
                for b in own_nodes(x.body))
               for x in self.scopes.values() if x.mod == scope.mod):
            return m
        if name in BUILTINS:
            return 'builtin'
        return None

    def star(self, mod):
        """does the module have `from x import *` (or exec of names)?"""
        for kind, b in self.modscope[mod].names.get('*', ()):
            return True
        return False

    # -------------------------------------------------------- inference
    def bases(self, cls):
        out = []
        for b in cls.node.bases:
            v = self.infer(b, cls.parent)
            if v is UNK:
                out.append(('unknown', None))
            else:
                out.extend(v)
        return out

    def chain(self, cls, seen=None):
        """the classes of the program a class derives from, and whether all
        of its bases are known; bases that are builtin types are given by
        name"""
        if seen is None:
            seen = []
        if cls in seen:
            return seen, True, set()
        seen.append(cls)
        known, ext = True, set()
        for b in self.bases(cls):
            if b[0] == 'class':
                _, k, e = self.chain(b[1], seen)
                known = known and k
                ext |= e
            elif b[0] == 'exttype' and b[1] in TYPES:
                ext.add(b[1])
            elif b[0] == 'nt':
                ext.add(b)
            else:
                known = False
        return seen, known, ext

    def metaclass(self, cls):
        for c in self.chain(cls)[0]:
            for kind, n in c.names.get('__metaclass__', ()):
                if kind == 'value' and n._ in ('Name', 'Attribute') and (
                        n.get('id') or n.attr) in ('ABCMeta', 'type'):
                    continue
                return True
        return False

    def infer(self, e, scope):
        if e is None:
            return UNK
        k = (id(e), id(scope))
        if k in self.infer_stack or len(self.infer_stack) > 40:
            return UNK
        self.infer_stack.append(k)
        try:
            f = getattr(self, 'i_' + e._, None)
            return f(e, scope) if f else UNK
        finally:
            self.infer_stack.pop()

    def i_Str(self, e, scope):
        return {('extinst', 'str')} if isinstance(e.s, str) else {
            ('extinst', 'unicode')}

    def i_List(self, e, scope):
        return {('extinst', 'list')}
    i_ListComp = i_List

    def i_Dict(self, e, scope):
        return {('extinst', 'dict')}
    i_DictComp = i_Dict

    def i_Tuple(self, e, scope):
        return {('extinst', 'tuple')}

    def i_GeneratorExp(self, e, scope):
        return {('extinst', 'generator')}

    def i_Set(self, e, scope):
        return {('extinst', 'set')}
    i_SetComp = i_Set

    def i_Num(self, e, scope):
        return {('extinst', 'float' if isinstance(e.n, float) else 'int')} \
            if isinstance(e.n, (int, float)) else UNK

    def i_Lambda(self, e, scope):
        return {('func', self.scopes[id(e)], False)} \
            if id(e) in self.scopes else UNK

    def i_IfExp(self, e, scope):
        return self.union([self.infer(e.body, scope),
                           self.infer(e.orelse, scope)])

    def i_BoolOp(self, e, scope):
        if e.op._ == 'Or':
            return self.union([self.infer(x, scope) for x in e.values])
        return UNK

    def i_BinOp(self, e, scope):
        if e.op._ == 'Mod' and e.left._ == 'Str':
            return {('extinst', 'str')}
        return UNK

    def union(self, vs):
        out = set()
        for v in vs:
            if v is UNK:
                return UNK
            out |= v
        return out

    def i_Name(self, e, scope):
        if e.id == 'None':
            return {('none', None)}
        if e.id in ('True', 'False') and self.lookup(
                scope, e.id) == 'builtin':
            return {('extinst', 'bool')}
        s = self.lookup(scope, e.id)
        if s == 'builtin':
            if e.id in TYPES:
                return {('exttype', e.id)}
            return {('ext', '__builtin__.' + e.id)}
        if s is None:
            return UNK
        return self.bound_in(s, e.id)

    def bound_in(self, s, name):
        if name in s.params:
            if s.kind == 'FunctionDef' and s.cls is not None and \
                    s.params[0] == name and name not in s.names and \
                    s.node.args.args and s.node.args.args[0]._ == 'Name' \
                    and s.node.args.args[0].id == name:
                how = self.decorations(s.node)
                if how == 'classmethod':
                    return {('selfclass', s.cls)}
                if how in (None, 'property') and s.node.name != '__new__' \
                        and not self.is_meta(s.cls):
                    return {('self', s.cls)}
            return UNK
        out = []
        for kind, b in s.names.get(name, ()):
            if kind == 'def':
                d = self.decorations(b)
                if d == 'unknown':
                    return UNK
                out.append({('func', self.scopes[id(b)], False)}
                           if d is None else UNK)
            elif kind == 'class':
                out.append(UNK if b.decorator_list else {
                    ('class', self.scopes[id(b)])})
            elif kind == 'import':
                out.append({('module', b.name if b.asname else
                             b.name.split('.')[0])})
            elif kind == 'from':
                out.append(self.imported(b[0], b[1], s))
            elif kind == 'value':
                v = self.infer(b, s)
                if v is not UNK:
                    v = {x for x in v if x[0] != 'none'} or v
                out.append(v)
            elif kind in ('aug', 'del'):
                return UNK
            elif kind == 'with':
                out.append(UNK)
            else:
                out.append(UNK)
        if not out:
            return UNK
        return self.union(out)

    def is_meta(self, cls):
        return any(b == ('exttype', 'type') or b[0] == 'unknown'
                   for b in self.bases(cls))

    def absolute(self, n, mod):
        """the module named by an ImportFrom"""
        if n.get('level'):
            base = mod.split('.')
            base = base[:len(base) - n.level]
            return '.'.join(base + ([n.module] if n.module else []))
        return n.module or ''

    def imported(self, n, a, s):
        m = self.absolute(n, s.mod)
        return self.member(m, a.name)

    def member(self, m, name):
        full = m + '.' + name
        if full in self.mods:
            return {('module', full)}
        if m in self.mods:
            ms = self.modscope[m]
            if ms.has(name):
                return self.bound_in(ms, name)
            return UNK
        if full in STD['modules']:
            return {('module', full)}
        if full in TYPES:
            return {('exttype', full)}
        return {('ext', full)}

    def decorations(self, f):
        """None, 'staticmethod', 'classmethod', 'property' or 'unknown'"""
        out = None
        for d in f.decorator_list:
            n = d.get('id') or d.get('attr')
            if n in ('abstractmethod', 'contextmanager'):
                if n == 'contextmanager':
                    out = out or None
                continue
            if n in ('staticmethod', 'classmethod', 'property',
                     'abstractproperty'):
                out = 'property' if n == 'abstractproperty' else n
                continue
            return 'unknown'
        return out

    def classattr(self, cls, name):
        """the definitions of a class attribute along the bases: a list of
        (class, kind, node), the first class defining it"""
        for c in self.chain(cls)[0]:
            if name in c.names:
                return [(c, k, n) for k, n in c.names[name]]
        return []

    def selfstores(self, cls):
        """attributes assigned to self in the methods of the bases, and
        whether others may be set in ways that are not followed"""
        got, open_ = {}, False
        for c in self.chain(cls)[0]:
            for n in c.node.walk():
                if n._ == 'Attribute' and n.ctx._ in ('Store', 'AugStore') \
                        and n.value._ == 'Name':
                    got.setdefault(n.attr, []).append(n)
                elif n._ == 'Call':
                    nm = n.func.get('id') or n.func.get('attr')
                    if nm == 'setattr' or nm in ('update', 'setdefault') \
                            and n.func._ == 'Attribute' and (
                                n.func.value._ == 'Call' or
                                n.func.value.get('attr') == '__dict__'):
                        open_ = True
                elif n._ == 'Attribute' and n.attr == '__dict__':
                    open_ = True
            if '__getattr__' in c.names or '__getattribute__' in c.names:
                open_ = True
        return got, open_

    def family(self, cls, seen=None):
        seen = seen if seen is not None else []
        if cls in seen:
            return seen
        seen.append(cls)
        for s in self.subclasses.get(id(cls.node), ()):
            self.family(s, seen)
        return seen

    def instattr(self, cls, name):
        """the values of an attribute of an instance; None when it has not
        such an attribute"""
        chain, known, ext = self.chain(cls)
        stores, open_ = self.selfstores(cls)
        defs = self.classattr(cls, name)
        if name in stores:
            if defs or open_:
                return UNK
            return UNK
        if defs:
            return self.valueof(defs, cls, True)
        if name in INSTATTRS or not known or open_ or self.metaclass(cls):
            return UNK
        for e in ext:
            if isinstance(e, tuple):
                if name in e[1] or name in NTUPLE:
                    return UNK
            elif name in TYPES[e]:
                return UNK
        if any(self.may_set(n, cls) for n in self.attrs_set.get(name, ())):
            return UNK
        return None

    def may_set(self, n, cls):
        """may `x.attr = ...` be done on an instance of the class?"""
        s = self.site.get(id(n))
        if s is None:
            return True
        v = self.infer(n.value, s)
        if v is UNK:
            a, b = s.mod, cls.mod
            return a == b or b in self.reach(a) or a in self.reach(b)
        kin = {id(c) for c in self.chain(cls)[0] + self.family(cls)}
        return any(x[0] not in ('self', 'inst') or
                   kin & {id(c) for c in self.family(x[1])} for x in v)

    def reach(self, mod):
        """the modules of the program imported by a module"""
        if mod not in self.reached:
            got = self.reached[mod] = set()
            todo = [mod]
            while todo:
                for n in self.mods[todo.pop()].walk():
                    names = []
                    if n._ == 'Import':
                        names = [a.name for a in n.names]
                    elif n._ == 'ImportFrom':
                        names = [n.module or ''] + [
                            '%s.%s' % (n.module, a.name) for a in n.names]
                    for m in names:
                        if m in self.mods and m not in got:
                            got.add(m)
                            todo.append(m)
        return self.reached[mod]

    def valueof(self, defs, cls, inst):
        out = []
        for c, kind, n in defs:
            if kind == 'def':
                d = self.decorations(n)
                sc = self.scopes[id(n)]
                if d == 'unknown':
                    return UNK
                if d == 'property':
                    out.append(self.returned(sc) if inst else UNK)
                elif d == 'staticmethod':
                    out.append({('func', sc, False)})
                elif d == 'classmethod' or inst:
                    out.append({('func', sc, True)})
                else:
                    out.append({('func', sc, False)})
            elif kind == 'class':
                out.append({('class', self.scopes[id(n)])})
            elif kind == 'value':
                v = self.infer(n, c)
                # a function assigned in the class becomes a method
                if v is not UNK and any(x[0] == 'func' for x in v):
                    v = UNK
                out.append(v)
            else:
                out.append(UNK)
        return self.union(out)

    def returned(self, sc):
        if sc.kind == 'Lambda':
            return UNK
        if any(n._ == 'Yield' for n in own_nodes(sc.body)):
            for d in sc.node.decorator_list:
                return UNK
            return {('extinst', 'generator')}
        if sc.node.decorator_list and self.decorations(sc.node) not in (
                None, 'property', 'classmethod', 'staticmethod'):
            return UNK
        rets = [n for n in own_nodes(sc.body) if n._ == 'Return']
        vs = [self.infer(n.value, sc) for n in rets if n.value is not None]
        if not vs:
            return {('none', None)}
        v = self.union(vs)
        if v is UNK:
            return UNK
        return v

    def i_Attribute(self, e, scope):
        v = self.infer(e.value, scope)
        if v is UNK:
            return UNK
        out = []
        for x in v:
            out.append(self.attribute(x, e.attr))
        if any(o is None for o in out):
            return UNK
        return self.union(out)

    def attribute(self, x, name):
        """the values of an attribute; None when there is not"""
        if x[0] == 'module':
            m = x[1]
            if m == 'openquake':        # a namespace package
                return {('module', m + '.' + name)} if (
                    m + '.' + name in self.mods) else {
                        ('ext', m + '.' + name)}
            if m in self.mods:
                ms = self.modscope[m]
                if m + '.' + name in self.mods:
                    return {('module', m + '.' + name)}
                if ms.has(name):
                    return self.bound_in(ms, name)
                if name in ('__name__', '__file__', '__doc__', '__dict__',
                            '__path__', '__package__') or self.star(m):
                    return UNK
                if any(name in s.globs for s in self.scopes.values()
                       if s.mod == m):
                    return UNK
                return None
            if m in STD['modules']:
                if name not in STD['modules'][m] and m + '.' + name not in \
                        STD['modules']:
                    return UNK if py3has(m, name) else None
            elif any(p.startswith(m + '.') for p in self.mods) and \
                    not any(p == m + '.' + name or p.startswith(
                        m + '.' + name + '.') for p in self.mods):
                return {('ext', m + '.' + name)}
            return self.member(m, name)
        if name == '__class__' and x[0] in ('self', 'inst'):
            return {('selfclass' if x[0] == 'self' else 'class', x[1])}
        if x[0] == 'self':
            got = self.instattr(x[1], name)
            if got is None:
                for s in self.family(x[1])[1:]:
                    if self.instattr(s, name) is not None:
                        return UNK
                return None
            # an override may take its place
            if any(name in self.selfstores(s)[0]
                   for s in self.family(x[1])[1:]):
                return UNK
            if got is not UNK and any(
                    name in s.names for s in self.family(x[1])[1:]):
                return self.union([got] + [
                    self.valueof([(s, k, n) for k, n in s.names[name]], s,
                                 True)
                    for s in self.family(x[1])[1:] if name in s.names])
            return got
        if x[0] == 'inst':
            return self.instattr(x[1], name)
        if x[0] in ('class', 'selfclass'):
            cls = x[1]
            defs = self.classattr(cls, name)
            if defs:
                if x[0] == 'selfclass' and any(
                        name in s.names for s in self.family(cls)[1:]):
                    return UNK
                return self.valueof(defs, cls, False)
            chain, known, ext = self.chain(cls)
            if name in CLSATTRS or not known or self.metaclass(cls) or \
                    name in self.attrs_set or x[0] == 'selfclass':
                return UNK
            for e in ext:
                if isinstance(e, tuple):
                    if name in e[1] or name in NTUPLE or name == '_make':
                        return UNK
                elif name in TYPES[e] or name in TYPES['type']:
                    return UNK
            if name in TYPES['type']:
                return UNK
            return None
        if x[0] == 'extinst':
            if x[1] in TYPES and name not in TYPES[x[1]]:
                return None
            return {('extmeth', x[1], name)}
        if x[0] == 'exttype':
            if name not in TYPES[x[1]] and name not in TYPES['type'] and \
                    name not in CLSATTRS:
                return None
            return UNK
        if x[0] == 'nt':
            if name in ('_make', '_fields') or name in x[1] or \
                    name in NTUPLE or \
                    name in CLSATTRS or name in self.attrs_set:
                return UNK
            return None
        if x[0] == 'ntinst':
            if name in x[1] or name in NTUPLE or \
                    name in INSTATTRS or name in self.attrs_set:
                return UNK
            return None
        if x[0] == 'super':
            chain, known, ext = self.chain(x[1])
            rest = chain[1:]
            # the next class may also come from a sibling
            for c in rest:
                if name in c.names:
                    return self.valueof([(c, k, n) for k, n in
                                         c.names[name]], c, True)
            if not known or ext - {'object'} or name in INSTATTRS or \
                    self.family(x[1])[1:]:
                return UNK
            return None
        if x[0] == 'func':
            return UNK
        if x[0] == 'ext':
            if x[1].startswith('__builtin__.'):
                return UNK
            return {('ext', x[1] + '.' + name)}
        if x[0] == 'none':
            return UNK
        return UNK

    def i_Call(self, e, scope):
        if e.func._ == 'Name' and e.func.id == 'super' and len(
                e.args) == 2 and self.lookup(scope, 'super') == 'builtin':
            c = self.infer(e.args[0], scope)
            if c is not UNK and len(c) == 1:
                (c,) = c
                if c[0] == 'class':
                    return {('super', c[1])}
            return UNK
        f = self.infer(e.func, scope)
        if f is UNK:
            return UNK
        if f == {('exttype', 'type')} and len(e.args) == 1:
            v = self.infer(e.args[0], scope)
            if v is not UNK and all(x[0] in ('self', 'inst') for x in v):
                return {('selfclass' if x[0] == 'self' else 'class', x[1])
                        for x in v}
            return UNK
        out = []
        for x in f:
            if x[0] in ('class', 'selfclass'):
                if self.metaclass(x[1]) or self.classattr(x[1], '__new__'):
                    return UNK
                out.append({('inst', x[1])} if x[0] == 'class' else UNK)
            elif x[0] == 'func':
                out.append(self.returned(x[1]))
            elif x[0] == 'exttype':
                if x[1] in ('type', 'object', 'super', 'file') or \
                        x[1] not in TYPES:
                    return UNK
                out.append({('extinst', x[1])})
            elif x[0] == 'ext' and x[1] == 'collections.namedtuple':
                fields = self.nt_fields(e)
                if fields is None:
                    return UNK
                out.append({('nt', fields)})
            elif x[0] == 'nt':
                out.append({('ntinst', x[1])})
            elif x[0] == 'extmeth' and x[1] == 'str' and x[2] in (
                    'lower', 'upper', 'strip', 'join', 'replace', 'format',
                    'lstrip', 'rstrip', 'title', 'capitalize'):
                out.append({('extinst', 'str')})
            elif x[0] == 'extmeth' and x[1] == 'str' and x[2] in (
                    'split', 'splitlines', 'rsplit'):
                out.append({('extinst', 'list')})
            elif x[0] == 'extmeth' and x[1] == 'dict' and x[2] in (
                    'items', 'keys', 'values'):
                out.append({('extinst', 'list')})
            elif x[0] == 'ext' and x[1] == '__builtin__.sorted':
                out.append({('extinst', 'list')})
            else:
                return UNK
        return self.union(out)

    def nt_fields(self, e):
        if len(e.args) < 2 or e.keywords or e.starargs or e.kwargs:
            return None
        a = e.args[1]
        if a._ == 'Str':
            return tuple(a.s.replace(',', ' ').split())
        if a._ in ('List', 'Tuple') and all(x._ == 'Str' for x in a.elts):
            return tuple(x.s for x in a.elts)
        return None

    # ------------------------------------------------------------ checks
    def count(self, rule):
        self.counts[rule] = self.counts.get(rule, 0) + 1

    def bug(self, rule, scope, n, what, certain=True):
        self.bugs.append(Bug(rule, '%s, line %s' % (scope.qual, n.l), what,
                             certain))

    def check(self):
        for s in list(self.scopes.values()):
            for n in own_nodes(s.body):
                if n._ == 'Name' and n.ctx._ == 'Load':
                    self.check_name(s, n)
                elif n._ == 'Attribute':
                    self.check_attr(s, n)
                elif n._ == 'Call':
                    self.check_call(s, n)
                    self.check_braces(s, n)
                elif n._ == 'ImportFrom':
                    self.check_import(s, n)
                elif n._ == 'Import':
                    self.check_modules(s, n)
                elif n._ == 'BinOp':
                    self.check_format(s, n)

    def check_name(self, s, n):
        if n.id == 'None':
            return
        self.count('names')
        w = self.lookup(s, n.id)
        if w is None and not self.star(s.mod):
            self.bug('names', s, n, 'the name %s is not defined' % n.id)

    def guarded(self, s, n):
        """inside a try of this scope catching the failure, or under a test
        with hasattr"""
        for t in own_nodes(s.body):
            if t._ == 'TryExcept' and any(x is n for b in t.body
                                          for x in b.walk()):
                for h in t.handlers:
                    names = [x.get('id') or x.get('attr')
                             for x in h.type.walk()] if h.type else [None]
                    if set(names) & {None, 'AttributeError', 'Exception',
                                     'ImportError', 'NameError',
                                     'StandardError', 'TypeError'}:
                        return True
            if t._ in ('If', 'IfExp', 'BoolOp') and any(
                    x._ == 'Name' and x.id in ('hasattr', 'callable')
                    for x in t.walk()) and any(x is n for x in t.walk()):
                return True
        return False

    def describe(self, x):
        if x[0] in ('self', 'inst', 'class', 'selfclass', 'super'):
            return x[1].qual
        if x[0] in ('nt', 'ntinst'):
            return 'namedtuple(%s)' % ', '.join(x[1])
        return str(x[1])

    def check_attr(self, s, n):
        v = self.infer(n.value, s)
        if v is UNK:
            return
        real = [x for x in v if x[0] != 'none']
        if not real:
            return
        self.count('members')
        if n.ctx._ != 'Load':
            return
        got = [self.attribute(x, n.attr) for x in real]
        missing = [x for x, g in zip(real, got) if g is None]
        if missing and not self.guarded(s, n):
            self.bug('members', s, n, '%s has no attribute %s' % (
                self.describe(missing[0]), n.attr),
                len(missing) == len(real))

    def check_import(self, s, n):
        m = self.absolute(n, s.mod)
        for a in n.names:
            self.count('members')
            if a.name == '*':
                continue
            if m in self.mods or m in STD['modules']:
                if self.attribute(('module', m), a.name) is None and \
                        not self.guarded(s, n):
                    self.bug('members', s, n, 'module %s has no member %s'
                             % (m, a.name))
            elif m.startswith('openquake.commonlib') and \
                    not self.guarded(s, n):
                self.bug('members', s, n, 'there is no module %s' % m)

    def check_modules(self, s, n):
        for a in n.names:
            self.count('members')
            if a.name.startswith('openquake.commonlib') and \
                    a.name not in self.mods and not self.guarded(s, n):
                self.bug('members', s, n, 'there is no module %s' % a.name)

    # calls
    def signature(self, x, e):
        """(parameter names, number with defaults, *, **, number already
        given) of a callee; None when not known"""
        if x[0] == 'func':
            a = x[1].node.args
            names = [p.id if p._ == 'Name' else None for p in a.args]
            sig = names, len(a.defaults), a.vararg, a.kwarg, int(x[2])
            return self.forwarded(x[1], sig) or sig
        if x[0] in ('class', 'selfclass'):
            cls = x[1]
            if self.metaclass(cls) or self.classattr(cls, '__new__'):
                return None
            if x[0] == 'selfclass' and self.family(cls)[1:]:
                return None
            chain, known, ext = self.chain(cls)
            defs = self.classattr(cls, '__init__')
            if defs:
                if len(defs) > 1 or defs[0][1] != 'def' or \
                        self.decorations(defs[0][2]) is not None:
                    return None
                # a base which is not known may come first
                return self.signature(
                    ('func', self.scopes[id(defs[0][2])], True), e)
            nts = [b for b in ext if isinstance(b, tuple)]
            if known and nts and len(ext) == 1:
                return list(nts[0][1]), 0, None, None, 0
            if known and not ext - {'object'}:
                return [], 0, None, None, 0
            return None
        if x[0] == 'nt':
            return list(x[1]), 0, None, None, 0
        return None

    def forwarded(self, scope, sig):
        """the signature of a function that gives the rest of its arguments
        to another, unconditionally and unchanged; else None"""
        names, ndef, var, kw, given = sig
        f = scope.node
        if not var or f._ != 'FunctionDef' or id(f) in self.forwarding:
            return None
        rest = {var, kw} - {None}
        uses = [n for n in f.walk() if n._ == 'Name' and n.id in rest]
        for st in f.body:
            if st._ not in ('Expr', 'Return', 'Assign'):
                if st._ in ('If', 'For', 'While', 'TryExcept', 'TryFinally',
                            'With', 'Raise', 'Try'):
                    return None
                continue
            c = st.value
            if c is None or c._ != 'Call' or c.starargs is None:
                if any(n._ == 'Yield' for n in st.walk()):
                    return None
                continue
            if c.starargs._ != 'Name' or c.starargs.id != var or \
                    c.keywords or c.kwargs is not None and (
                        c.kwargs._ != 'Name' or c.kwargs.id != kw) or \
                    (c.kwargs is None) != (kw is None) or \
                    len(uses) != len(rest):
                return None
            v = self.infer(c.func, scope)
            if v is UNK or len(v) != 1:
                return None
            self.forwarding.add(id(f))
            try:
                sub = self.signature(list(v)[0], c)
            finally:
                self.forwarding.discard(id(f))
            if sub is None:
                return None
            n2, d2, v2, k2, g2 = sub
            skip = g2 + len(c.args)
            if skip > len(n2) or ndef:
                return None
            more = n2[skip:]
            if set(more) & set(names) or set(n2[:skip]) & {None}:
                return None
            if kw is None:
                if k2:
                    return None
                more = [None] * len(more)
            return names + more, min(d2, len(more)), v2, k2, given
        return None

    def bind(self, sig, e):
        """the reason why a call does not bind, or None"""
        names, ndef, var, kw, given = sig
        npos = len(e.args) + given
        kws = [k.arg for k in e.keywords]
        if npos > len(names) and not var:
            return '%d positional arguments instead of %s%d' % (
                npos - given, 'at most ' if ndef else '',
                len(names) - given)
        for k in kws:
            if k not in names:
                if not kw:
                    return 'there is no parameter %s' % k
            elif names.index(k) < npos:
                return 'two values for the parameter %s' % k
        if len(set(kws)) < len(kws):
            return 'a keyword is repeated'
        if e.starargs is None and e.kwargs is None:
            need = names[npos:len(names) - ndef]
            lost = [p for p in need if p not in kws]
            if lost:
                return 'no value for the parameter %s' % (lost[0],)
        elif e.starargs is None:
            # ** may give any keyword, but not unnamed parameters
            if any(p is None for p in names[npos:len(names) - ndef]):
                return 'a parameter cannot be given by keyword'
        return None

    def methods(self, name):
        """the methods of that name of the classes of the program, None when
        it may be the name of something else"""
        if self.method_names is None:
            self.method_names = {}
            for c in self.scopes.values():
                if c.kind == 'ClassDef':
                    for k, v in c.names.items():
                        self.method_names.setdefault(k, []).extend(
                            (c, kind, n) for kind, n in v)
            self.other_names = set(self.attrs_set)
            for t in TYPES.values():
                self.other_names.update(t)
            for t in STD['modules'].values():
                self.other_names.update(t)
            self.other_names.update(NTUPLE)
            self.other_names.update(self.foreign)
            for m in self.modscope.values():
                self.other_names.update(m.names)
        defs = self.method_names.get(name)
        if not defs or name in self.other_names or any(
                k != 'def' or self.decorations(n) not in (
                    None, 'classmethod', 'staticmethod')
                for c, k, n in defs):
            return None
        return defs

    def check_by_name(self, s, e):
        """a method of an object of unknown class, by its name"""
        if e.func._ != 'Attribute':
            return
        v = self.infer(e.func.value, s)
        if v is not UNK:
            return
        defs = self.methods(e.func.attr)
        if defs is None:
            return
        self.count('calls')
        why = []
        for c, k, n in defs:
            given = self.decorations(n) != 'staticmethod'
            w = self.bind(self.signature(('func', self.scopes[id(n)],
                                          given), e), e)
            if w is None:
                return
            why.append('%s: %s' % (self.scopes[id(n)].qual, w))
        if not self.guarded(s, e):
            self.bug('calls', s, e, why[0])

    def check_call(self, s, e):
        f = self.infer(e.func, s)
        if f is UNK or not f:
            self.check_by_name(s, e)
            return
        bad, n = [], 0
        for x in f:
            if x[0] in ('extinst', 'module', 'inst', 'ntinst', 'none'):
                if x[0] == 'inst':
                    g = self.instattr(x[1], '__call__')
                    if g is not None:
                        return
                elif x[0] == 'none':
                    return
                bad.append('%s is not callable' % self.describe(x))
                n += 1
                continue
            sig = self.signature(x, e)
            if sig is None:
                return
            n += 1
            why = self.bind(sig, e)
            if why:
                bad.append('%s: %s' % (x[1].qual if x[0] != 'nt' else
                                       self.describe(x), why))
        self.count('calls')
        if bad and not self.guarded(s, e):
            self.bug('calls', s, e, bad[0], len(bad) == n or
                     e.func._ == 'Attribute' and e.func.value._ == 'Name'
                     and e.func.value.id == 'self')

    # formats
    SPEC = re.compile(r'%(?:\((?P<key>[^)]*)\))?[-#0 +]*(?P<w>\*|\d*)'
                      r'(?:\.(?P<p>\*|\d*))?[hlL]?(?P<c>.)', re.S)

    def check_braces(self, s, e):
        """'...'.format(...)"""
        if e.func._ != 'Attribute' or e.func.attr != 'format' or \
                e.func.value._ != 'Str' or e.starargs or e.kwargs:
            return
        self.count('formats')
        try:
            fields = [f for _, f, spec, c in string.Formatter().parse(
                e.func.value.s) if f is not None]
        except ValueError as x:
            return self.bug('formats', s, e, str(x))
        kws = [k.arg for k in e.keywords]
        auto = 0
        for f in fields:
            first = re.split(r'[.\[]', f)[0]
            if first == '':
                auto += 1
            elif first.isdigit():
                if int(first) >= len(e.args):
                    return self.bug('formats', s, e, 'no value %s' % first)
            elif first not in kws:
                return self.bug('formats', s, e, 'no value for %s' % first)
        if auto > len(e.args):
            self.bug('formats', s, e, '%d values for %d places' % (
                len(e.args), auto))

    def check_format(self, s, e):
        if e.op._ != 'Mod' or e.left._ != 'Str':
            return
        self.count('formats')
        text, need, keys = e.left.s, 0, []
        pos = 0
        while True:
            i = text.find('%', pos)
            if i < 0:
                break
            m = self.SPEC.match(text, i)
            if not m:
                self.bug('formats', s, e, 'incomplete format')
                return
            pos = m.end()
            if m.group('c') == '%':
                continue
            if m.group('c') not in 'diouxXeEfFgGcrs':
                self.bug('formats', s, e, 'unsupported format %r' %
                         m.group())
                return
            if m.group('key') is not None:
                keys.append(m.group('key'))
            else:
                need += 1 + (m.group('w') == '*') + (m.group('p') == '*')
        r = e.right
        if keys:
            if need:
                self.bug('formats', s, e, 'keys and positions are mixed')
            elif r._ == 'Dict' and all(k._ == 'Str' for k in r.keys):
                lost = set(keys) - set(k.s for k in r.keys)
                if lost:
                    self.bug('formats', s, e, 'no value for %s' % sorted(
                        lost)[0])
            elif r._ in ('Tuple', 'Str', 'Num', 'List'):
                self.bug('formats', s, e, 'a mapping is required')
            return
        if r._ == 'Tuple':
            if len(r.elts) != need:
                self.bug('formats', s, e, '%d values for %d places' % (
                    len(r.elts), need))
        elif need != 1 and r._ in ('Str', 'Num', 'BinOp', 'List',
                                   'ListComp', 'Compare') and not (
                r._ == 'BinOp' and r.op._ == 'Add'):
            self.bug('formats', s, e, 'one value for %d places' % need)
        elif need > 1:
            v = self.infer(r, s)
            if v is not UNK and v and all(
                    x[0] in ('inst', 'self') or x[0] == 'extinst' and
                    x[1] in ('str', 'int', 'float', 'list', 'bool')
                    for x in v) and not any(
                        x[0] in ('inst', 'self') and (
                            not self.chain(x[1])[1] or
                            self.chain(x[1])[2] - {'object'}) for x in v):
                self.bug('formats', s, e, 'one value for %d places' % need)
