"""Effects of the functions of a program on the objects given to them.

Every expression has a set of origins: (root, kind, certain), where root is
a parameter of the function ('self.x' for the attribute x of self), kind is
'obj' for (a part of) the object given and 'shell' for a new object with
parts of it.  A modification of an 'obj' is an effect on its root.
"""
from resolve import own_nodes, targets, UNK, STD

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update',
            'setdefault', 'add', 'discard', 'sort', 'reverse', 'popitem',
            'appendleft', 'popleft', 'extendleft', 'rotate',
            'difference_update', 'intersection_update',
            'symmetric_difference_update', '__setitem__', '__delitem__',
            '__setattr__', '__delattr__', '__iadd__', 'modify',
            'modify_set_mag', 'set_properties'}
SHELLS = {'list', 'tuple', 'set', 'dict', 'sorted', 'frozenset', 'iter',
          'reversed', 'enumerate', 'zip', 'map', 'filter', 'izip', 'chain',
          'imap', 'ifilter', 'islice', 'takewhile', 'dropwhile', 'groupby',
          'copy', 'OrderedDict', 'defaultdict', 'deque', 'items', 'values',
          'keys', 'iteritems', 'itervalues', 'iterkeys', 'namedtuple',
          'product', 'tee', 'starmap', 'izip_longest', 'cycle', 'repeat',
          'partial', 'vars'}
PARTS = {'getattr', 'next', 'min', 'max', 'get', 'pop', 'setdefault',
         'popitem', 'vars'}
FIRST = {'heapq.heappush': 0, 'heapq.heappop': 0, 'heapq.heapify': 0,
         'random.shuffle': 0, '__builtin__.setattr': 0,
         '__builtin__.delattr': 0, 'operator.setitem': 0,
         'operator.delitem': 0, 'operator.iadd': 0, 'bisect.insort': 0,
         'bisect.insort_left': 0, 'bisect.insort_right': 0}
IMMUTABLE = ('str', 'unicode', 'int', 'float', 'bool', 'tuple', 'frozenset',
             'long', 'complex')
NONE = frozenset()
STATEMENTS = ('Assign', 'AugAssign', 'Expr', 'For', 'While', 'If', 'With',
              'TryExcept', 'TryFinally', 'Try', 'Return', 'Raise', 'Assert',
              'Delete', 'Print', 'Pass', 'Break', 'Continue', 'Exec',
              'FunctionDef', 'ClassDef', 'Import', 'ImportFrom', 'Global')


def weaken(os):
    return frozenset((r, k, False) for r, k, c in os)


def parts(os):
    return frozenset((r, 'obj', c) for r, k, c in os)


def shell(os):
    return frozenset((r, 'shell', c) for r, k, c in os)


class Summary(object):
    def __init__(self):
        self.effects = {}       # root -> list of (node, text, certain)
        self.returns = NONE
        self.kept = {}          # attribute of self -> origins stored in it
        self.struct = {}        # dotted path -> (node, text), the containers
        #                         whose own elements are changed


class Effects(object):
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.busy = set()

    def summary(self, scope):
        k = id(scope.node)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return Summary()
        self.busy.add(k)
        try:
            s = Analysis(self, scope).run()
        finally:
            self.busy.discard(k)
        self.memo[k] = s
        return s


class Analysis(object):
    def __init__(self, eff, scope):
        self.eff, self.prog, self.scope = eff, eff.prog, scope
        self.out = Summary()
        self.params = list(scope.params)
        self.method = None
        if scope.cls is not None and self.params and \
                self.prog.decorations(scope.node) != 'staticmethod':
            self.method = self.params[0]
        self.locals = {}
        self.stack = []
        self.place = None

    # ------------------------------------------------- reaching definitions
    def places(self):
        """node -> (its parent, the block it is in, its index there)"""
        if self.place is not None:
            return self.place
        self.place = {}

        def block(n, b):
            for i, c in enumerate(b):
                self.place[id(c)] = (n, b, i)
                down(c)

        def down(n):
            if n is not self.scope.node and n._ in (
                    'FunctionDef', 'ClassDef', 'Lambda', 'GeneratorExp',
                    'DictComp', 'SetComp'):
                return
            for v in n.f.values():
                for c in v if isinstance(v, list) else [v]:
                    if isinstance(c, type(n)):
                        self.place.setdefault(id(c), (n, None, 0))
                if isinstance(v, list) and v and all(
                        isinstance(c, type(n)) for c in v):
                    block(n, v)
                else:
                    for c in v if isinstance(v, list) else [v]:
                        if isinstance(c, type(n)):
                            down(c)
        block(self.scope.node, self.scope.body)
        return self.place

    def binds(self, name, n):
        """does a statement bind the name?"""
        if self.bound is None:
            self.bound = {}
        if id(n) not in self.bound:
            from resolve import bindings
            self.bound[id(n)] = {k for k, ds in bindings([n])[0].items()
                                 if any(d[0] != 'aug' for d in ds)}
        return name in self.bound[id(n)]
    bound = None

    def reaching(self, e):
        """the only definition reaching a use: ('value', node) or
        ('param', None); None if there may be several"""
        place = self.places()
        n = e
        while True:
            if id(n) not in place:
                return None
            p, b, i = place[id(n)]
            if b is not None and n._ in STATEMENTS:
                for st in reversed(b[:i]):
                    if self.binds(e.id, st):
                        if st._ == 'Assign' and len(st.targets) == 1 and \
                                st.targets[0]._ == 'Name':
                            return 'value', st.value
                        return None
            if p is self.scope.node:
                return ('param', None) if e.id in self.scope.params else None
            if p._ in ('For', 'While', 'With', 'TryExcept', 'TryFinally',
                       'Try', 'ListComp', 'ExceptHandler') and \
                    self.binds(e.id, p):
                return None
            n = p

    def run(self):
        body = [self.scope.node.body] if self.scope.kind == 'Lambda' else \
            self.scope.body
        nodes = list(own_nodes(body))
        for n in nodes:
            self.visit(n)
            for p, text in self.structural(n):
                if p.partition('.')[0] in self.scope.params:
                    self.out.struct.setdefault(p, (n, text))
            if n._ in ('FunctionDef', 'Lambda') and \
                    n is not self.scope.node and id(n) in self.prog.scopes:
                # what the inner functions do to the variables of this one
                inner = self.eff.summary(self.prog.scopes[id(n)])
                for r, ns in inner.effects.items():
                    if r.startswith('^'):
                        for m, text, c in ns[:3]:
                            self.effect(self.name(r[1:]), m, text, c)
        if self.scope.kind == 'Lambda':
            self.out.returns = self.origin(self.scope.node.body)
        else:
            r = set()
            for n in nodes:
                if n._ == 'Return' and n.value is not None:
                    r |= self.origin(n.value)
                elif n._ == 'Yield' and n.value is not None:
                    r |= {(x, 'shell', c) for x, k, c in self.origin(
                        n.value)}
            self.out.returns = frozenset(r)
        return self.out

    # ------------------------------------------------------------- origins
    def origin(self, e):
        if e is None or id(e) in self.stack or len(self.stack) > 30:
            return NONE
        self.stack.append(id(e))
        try:
            f = getattr(self, 'o_' + e._, None)
            return f(e) if f else NONE
        finally:
            self.stack.pop()

    def o_Name(self, e):
        if self.scope.kind == 'FunctionDef' and \
                len(self.scope.names.get(e.id, ())) + (
                    e.id in self.scope.params) > 1:
            d = self.reaching(e)
            if d is not None and d[0] == 'value':
                return self.origin(d[1])
            if d is not None:
                return frozenset([(e.id, 'obj', True)])
        return self.name(e.id)

    def name(self, name):
        s = self.prog.lookup(self.scope, name)
        if s is not self.scope:
            if getattr(s, 'kind', None) == 'FunctionDef':
                return frozenset([('^' + name, 'obj', True)])
            return NONE
        defs = self.scope.names.get(name, [])
        if name in self.scope.params:
            got = [frozenset([(name, 'obj', True)])]
        else:
            got = []
        if name in self.locals:
            return self.locals[name]
        self.locals[name] = NONE
        for kind, n in defs:
            if kind not in ('aug', 'del'):
                got.append(self.binding(name, kind, n))
        out = {}
        for o in got:
            for r, k, c in o:
                out.setdefault((r, k), []).append(c)
        res = frozenset((r, k, all(cs) and len(cs) >= len(got))
                        for (r, k), cs in out.items())
        self.locals[name] = res
        return res

    def binding(self, name, kind, n):
        if kind == 'value':
            return self.origin(n)
        if kind == 'part':
            if n._ in ('Tuple', 'List'):
                # the matching element, if it is plain
                for a in own_nodes(self.scope.body):
                    if a._ == 'Assign' and a.value is n:
                        for t in a.targets:
                            if t._ in ('Tuple', 'List') and len(t.elts) == \
                                    len(n.elts):
                                for x, v in zip(t.elts, n.elts):
                                    if x._ == 'Name' and x.id == name:
                                        return self.origin(v)
            return parts(self.origin(n))
        if kind == 'loop':
            return self.loop(name, n)
        if kind == 'with':
            return self.origin(n.context_expr)
        return NONE

    def loop(self, name, n):
        it, t = n.iter, n.target
        if it._ == 'Call' and it.func._ == 'Name' and it.func.id in (
                'enumerate', 'zip', 'izip') and t._ == 'Tuple' and \
                not it.starargs:
            args = it.args[:1] if it.func.id == 'enumerate' else it.args
            elts = t.elts[1:] if it.func.id == 'enumerate' else t.elts
            if len(elts) == len(args):
                for x, a in zip(elts, args):
                    if name in set(targets(x)):
                        return parts(self.origin(a))
                return NONE
        return parts(self.origin(it))

    def o_Attribute(self, e):
        if e.value._ == 'Name' and e.value.id == self.method and \
                not self.scope.names.get(self.method):
            v = self.prog.infer(e, self.scope)
            if v is not UNK and any(x[0] == 'func' for x in v):
                return NONE
            return frozenset([('self.' + e.attr, 'obj', True)])
        return parts(self.origin(e.value))

    def o_Subscript(self, e):
        o = self.origin(e.value)
        if e.slice._ == 'Slice':
            return shell(o)
        return parts(o)

    def o_IfExp(self, e):
        return weaken(self.origin(e.body) | self.origin(e.orelse))

    def o_BoolOp(self, e):
        a = [self.origin(v) for v in e.values]
        if e.op._ == 'Or':
            # `x or []` is x for whoever gives one
            return a[0] | weaken(frozenset().union(*a[1:]))
        return weaken(frozenset().union(*a))

    def seq(self, e):
        return shell(frozenset().union(*[self.origin(x) for x in e.elts]))
    o_Tuple = o_List = o_Set = seq

    def o_Dict(self, e):
        return shell(frozenset().union(*[self.origin(x) for x in e.values]))

    def o_ListComp(self, e):
        return shell(self.origin(e.elt)) if e._ == 'ListComp' else NONE

    def o_GeneratorExp(self, e):
        # the variables are of the inner scope: parts of what is iterated
        o = frozenset().union(*[self.origin(g.iter) for g in e.generators])
        if e._ == 'GeneratorExp' and e.elt._ in ('Name', 'Attribute',
                                                 'Subscript', 'Tuple'):
            return weaken(shell(o))
        return NONE

    def o_BinOp(self, e):
        if e.op._ == 'Add':
            return weaken(shell(self.origin(e.left) | self.origin(e.right)))
        return NONE

    def o_Call(self, e):
        nm = e.func.get('id') or e.func.get('attr')
        args = [self.origin(a) for a in e.args]
        f = self.prog.infer(e.func, self.scope)
        if f is not UNK:
            out = set()
            for x in f:
                if x[0] == 'func':
                    s = self.eff.summary(x[1])
                    amap = self.argmap(x[1], bool(x[2]), e)
                    for r, k, c in s.returns:
                        for o in self.root(r, amap):
                            out.add((o[0], 'obj' if k == o[1] == 'obj' else
                                     'shell', c and o[2] and len(f) == 1))
                elif x[0] in ('class', 'selfclass', 'nt'):
                    for o in args:
                        out |= shell(weaken(o))
            if all(x[0] in ('func', 'class', 'selfclass', 'nt') for x in f):
                return frozenset(out)
        recv = self.origin(e.func.value) if e.func._ == 'Attribute' else NONE
        dotted = next(iter(f))[1] if f is not UNK and len(f) == 1 and \
            next(iter(f))[0] in ('ext', 'exttype') else None
        if dotted == 'copy.deepcopy' or nm == 'deepcopy':
            return NONE
        every = frozenset().union(recv, *args)
        if nm in PARTS:
            return parts(every)
        if nm in SHELLS:
            return shell(every)
        return NONE

    def root(self, r, amap):
        """the origins, at a call, of a root of the callee"""
        if r.startswith('self.'):
            mine = amap.get('self')
            if mine is None:
                return NONE
            if any(x[0] == self.method and x[1] == 'obj' for x in mine):
                return frozenset([(r, 'obj', True)])
            return parts(mine)
        return amap.get(r, NONE)

    def argmap(self, callee, bound, e):
        """parameter of the callee -> origins of the argument"""
        out = {}
        names = [a.id if a._ == 'Name' else None
                 for a in callee.node.args.args]
        actual = list(e.args)
        if bound:
            recv = e.func.value if e.func._ == 'Attribute' else None
            if recv is not None and not (
                    recv._ == 'Call' and recv.func.get('id') == 'super'):
                out[names[0] if names else ''] = self.origin(recv)
            elif recv is not None and self.method:
                out[names[0] if names else ''] = frozenset(
                    [(self.method, 'obj', True)])
            if names:
                out['self'] = out.get(names[0], NONE)
            names = names[1:]
        elif callee.cls is not None and names and actual:
            out['self'] = self.origin(actual[0])
        for p, a in zip(names, actual):
            if p:
                out[p] = self.origin(a)
        for k in e.keywords:
            out[k.arg] = self.origin(k.value)
        if callee.node.args.vararg:
            out[callee.node.args.vararg] = shell(frozenset().union(*[
                self.origin(a) for a in actual[len(names):]]))
        if e.starargs is not None:
            o = weaken(parts(self.origin(e.starargs)))
            for p in names[len(actual):]:
                if p:
                    out.setdefault(p, o)
        return out

    # --------------------------------------------------------------- paths
    def path(self, e):
        """the dotted path denoting a container, from a parameter or self"""
        if e._ == 'Name':
            s = self.prog.lookup(self.scope, e.id)
            if s is not self.scope:
                return None
            defs = self.scope.names.get(e.id, [])
            if e.id in self.scope.params:
                return e.id if not defs else None
            if len(defs) == 1 and defs[0][0] == 'value':
                v = defs[0][1]
                if v._ in ('Name', 'Attribute'):
                    return self.path(v) or e.id
            return e.id
        if e._ == 'Attribute':
            b = self.path(e.value)
            return b and b + '.' + e.attr
        return None

    STRUCT = {'append', 'extend', 'insert', 'remove', 'pop', 'clear',
              'update', 'add', 'discard', 'popitem', 'appendleft', 'popleft',
              'sort', 'reverse'}

    def structural(self, n):
        """(path, text) of the containers whose elements a node changes"""
        if n._ == 'Call' and n.func._ == 'Attribute':
            v = self.prog.infer(n.func, self.scope)
            if n.func.attr in self.STRUCT and not (
                    v is not UNK and any(x[0] == 'func' for x in v)):
                p = self.path(n.func.value)
                if p:
                    yield p, 'calls .%s' % n.func.attr
            if v is not UNK and len(v) == 1:
                (x,) = v
                if x[0] == 'func':
                    for r in self.through(x, n):
                        yield r
        elif n._ == 'Call' and n.func._ == 'Name':
            v = self.prog.infer(n.func, self.scope)
            if v is not UNK and len(v) == 1 and next(iter(v))[0] == 'func':
                for r in self.through(next(iter(v)), n):
                    yield r
        elif n._ == 'Delete':
            for t in n.targets:
                if t._ == 'Subscript':
                    p = self.path(t.value)
                    if p:
                        yield p, 'deletes an item'
        elif n._ == 'AugAssign' and n.target._ == 'Attribute':
            v = self.prog.infer(n.value, self.scope)
            if v == {('extinst', 'list')}:
                p = self.path(n.target)
                if p:
                    yield p, 'extends with +='

    def through(self, x, n):
        """what a called function changes"""
        callee = x[1]
        s = self.eff.summary(callee)
        names = [a.id if a._ == 'Name' else None
                 for a in callee.node.args.args]
        actual = {}
        args = list(n.args)
        if x[2] and n.func._ == 'Attribute':
            args = [n.func.value] + args
        for p, a in zip(names, args):
            if p:
                actual[p] = self.path(a)
        for k in n.keywords:
            actual[k.arg] = self.path(k.value)
        for p, (m, text) in s.struct.items():
            head, _, rest = p.partition('.')
            mine = actual.get(head)
            if mine:
                yield (mine + '.' + rest if rest else mine), \
                    'calls %s, which %s' % (callee.qual, text)

    # ------------------------------------------------------------- effects
    def effect(self, os, n, text, certain=True):
        for r, k, c in os:
            if k == 'obj':
                self.out.effects.setdefault(r, []).append(
                    (n, text, c and certain))

    def immutable(self, e):
        v = self.prog.infer(e, self.scope)
        return v is not UNK and all(
            x[0] == 'none' or x[0] == 'extinst' and x[1] in IMMUTABLE
            for x in v)

    def visit(self, n):
        if n._ in ('Assign', 'For', 'With', 'AugAssign', 'Delete'):
            ts = n.targets if n._ in ('Assign', 'Delete') else [
                n.target] if n._ != 'With' else [
                    x for x in [n.get('optional_vars')] if x is not None]
            for t in ts:
                self.store(t, n)
        elif n._ == 'Call':
            self.call(n)

    def store(self, t, n):
        if t._ in ('Tuple', 'List'):
            for x in t.elts:
                self.store(x, n)
        elif t._ == 'Attribute':
            if t.value._ == 'Name' and t.value.id == self.method:
                if n._ == 'Assign' and not self.scope.names.get(self.method):
                    self.out.kept.setdefault(t.attr, []).append(
                        (n, self.origin(n.value)))
                self.effect(frozenset([(self.method, 'obj', True)]), n,
                            'sets .%s' % t.attr)
            else:
                self.effect(self.origin(t.value), n, 'sets .%s' % t.attr)
        elif t._ == 'Subscript':
            self.effect(self.origin(t.value), n, 'sets an item'
                        if n._ != 'Delete' else 'deletes an item')
        elif t._ == 'Name' and n._ == 'AugAssign':
            v = self.prog.infer(n.value, self.scope)
            if n.op._ == 'Add' and v is not UNK and v == {
                    ('extinst', 'list')}:
                self.effect(self.origin(t), n, 'extends with +=')

    def call(self, e):
        f = self.prog.infer(e.func, self.scope)
        if f is not UNK:
            known = True
            for x in f:
                if x[0] == 'func':
                    s = self.eff.summary(x[1])
                    amap = self.argmap(x[1], bool(x[2]), e)
                    for r, ns in s.effects.items():
                        for n, text, c in ns[:3]:
                            self.effect(self.root(r, amap), e,
                                        'calls %s, which %s' % (
                                            x[1].qual, text),
                                        c and len(f) == 1)
                elif x[0] in ('class', 'selfclass'):
                    defs = self.prog.classattr(x[1], '__init__')
                    for c_, kind, n in defs:
                        if kind != 'def':
                            continue
                        sc = self.prog.scopes[id(n)]
                        s = self.eff.summary(sc)
                        amap = self.argmap(sc, False, e)
                        names = [a.id if a._ == 'Name' else None
                                 for a in n.args.args][1:]
                        amap = {}
                        for p, a in zip(names, e.args):
                            if p:
                                amap[p] = self.origin(a)
                        for k in e.keywords:
                            amap[k.arg] = self.origin(k.value)
                        for r, ns in s.effects.items():
                            if r in amap:
                                for m, text, c in ns[:3]:
                                    self.effect(amap[r], e, 'calls %s, '
                                                'which %s' % (sc.qual, text),
                                                c and len(f) == 1)
                elif x[0] == 'ext' and x[1] in FIRST and e.args:
                    self.effect(self.origin(e.args[FIRST[x[1]]]), e,
                                'calls %s' % x[1])
                elif x[0] == 'extmeth':
                    known = False
            if known:
                return
        if e.func._ == 'Attribute':
            nm = e.func.attr
            if nm in MUTATORS and not self.immutable(e.func.value):
                self.effect(self.origin(e.func.value), e,
                            'calls .%s' % nm)
                return
            if f is UNK:
                # a method of the program, by its name
                defs = self.prog.methods(nm)
                for c, k, n in defs or ():
                    sc = self.prog.scopes[id(n)]
                    s = self.eff.summary(sc)
                    amap = self.argmap(
                        sc, self.prog.decorations(n) != 'staticmethod', e)
                    for r, ns in s.effects.items():
                        for m, text, cc in ns[:1]:
                            self.effect(self.root(r, amap), e, 'calls %s, '
                                        'which %s' % (sc.qual, text),
                                        cc and len(defs) == 1)
