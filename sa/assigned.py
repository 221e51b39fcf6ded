"""Definite assignment of the locals of every scope of a program."""
from resolve import own_nodes, targets, UNK

JUMPS = ('Return', 'Raise', 'Break', 'Continue')


class State(object):
    """what is assigned on every path / on some path, and where paths which
    differ in this come together"""
    __slots__ = ('must', 'may', 'gaps')

    def __init__(self, must=frozenset(), may=frozenset(), gaps=None):
        self.must, self.may, self.gaps = must, may, gaps or {}

    def bind(self, names):
        names = frozenset(names)
        return State(self.must | names, self.may | names,
                     {k: v for k, v in self.gaps.items() if k not in names})

    def unbind(self, names):
        names = frozenset(names)
        return State(self.must - names, self.may - names,
                     {k: v for k, v in self.gaps.items() if k not in names})


def join(states, gap):
    states = [s for s in states if s is not None]
    if not states:
        return None
    if len(states) == 1:
        return states[0]
    must = frozenset.intersection(*[s.must for s in states])
    may = frozenset.union(*[s.may for s in states])
    gaps = {}
    for v in may - must:
        g = set()
        for s in states:
            g |= s.gaps.get(v, set())
        if any(v not in s.may for s in states) or not g:
            g.add(gap)
        gaps[v] = g
    return State(must, may, gaps)


class Flow(object):
    def __init__(self, prog, scope):
        self.prog, self.scope = prog, scope
        self.bad = []           # (name, node, 'never' | gaps)
        self.uses = 0
        self.loops = []
        self.tries = []
        self.parents = {}
        for n in scope.node.walk():
            for c in n.children():
                self.parents[id(c)] = n
        self.skip = any(
            n._ == 'Exec' or n._ == 'ImportFrom' and any(
                a.name == '*' for a in n.names)
            for n in own_nodes(scope.body))
        self.exits = []

    def run(self):
        st = State().bind(self.scope.params)
        if self.scope.kind == 'module':
            st = st.bind(('__file__', '__name__', '__doc__'))
        end = self.block(self.scope.body, st)
        return end

    # ---------------------------------------------------------- statements
    def block(self, stmts, st):
        for n in stmts:
            if st is None:
                return None
            st = self.stmt(n, st)
            if self.tries and st is not None:
                self.tries[-1].append(st)
        return st

    def stmt(self, n, st):
        f = getattr(self, 's_' + n._, None)
        if f:
            return f(n, st)
        for c in n.children():
            st = self.expr(c, st)
        return st

    def s_Expr(self, n, st):
        st = self.expr(n.value, st)
        return None if self.noreturn(n.value) else st

    def noreturn(self, e):
        if e._ != 'Call':
            return False
        v = self.prog.infer(e.func, self.scope)
        if v is UNK or len(v) != 1:
            return False
        (v,) = v
        if v[0] == 'ext':
            return v[1] in ('sys.exit', 'os._exit', '__builtin__.exit',
                            '__builtin__.quit', 'os.abort')
        if v[0] == 'func' and v[1].kind == 'FunctionDef':
            return self.prog_noreturn(v[1])
        return False

    def prog_noreturn(self, s):
        memo = self.prog.__dict__.setdefault('noreturn_memo', {})
        k = id(s.node)
        if k not in memo:
            memo[k] = False
            ns = list(own_nodes(s.body))
            if not any(n._ in ('Return', 'Yield') for n in ns):
                memo[k] = Flow(self.prog, s).run() is None
        return memo[k]

    def store(self, t, st):
        if t._ == 'Name':
            return st.bind([t.id])
        if t._ in ('Tuple', 'List'):
            for x in t.elts:
                st = self.store(x, st)
            return st
        for c in t.children():
            st = self.expr(c, st)
        return st

    def s_Assign(self, n, st):
        st = self.expr(n.value, st)
        for t in n.targets:
            st = self.store(t, st)
        return st

    def s_AugAssign(self, n, st):
        if n.target._ == 'Name':
            self.use(n.target, st)
        else:
            for c in n.target.children():
                st = self.expr(c, st)
        st = self.expr(n.value, st)
        return self.store(n.target, st)

    def s_Delete(self, n, st):
        for t in n.targets:
            if t._ == 'Name':
                self.use(t, st)
                st = st.unbind([t.id])
            else:
                for c in t.children():
                    st = self.expr(c, st)
        return st

    def s_FunctionDef(self, n, st):
        for c in n.decorator_list + n.args.defaults:
            st = self.expr(c, st)
        return st.bind([n.name])

    def s_ClassDef(self, n, st):
        for c in n.decorator_list + n.bases:
            st = self.expr(c, st)
        # the body is executed here
        inner = self.prog.scopes.get(id(n))
        if inner is not None and self.scope.kind != 'ClassDef':
            f = Flow(self.prog, inner)
            f.outer = (self, st)
            f.run()
            self.bad += f.bad
            self.uses += f.uses
        return st.bind([n.name])

    def s_Import(self, n, st):
        return st.bind(a.asname or a.name.split('.')[0] for a in n.names)

    def s_ImportFrom(self, n, st):
        return st.bind(a.asname or a.name for a in n.names)

    def s_Global(self, n, st):
        return st

    def s_Return(self, n, st):
        if n.value is not None:
            self.expr(n.value, st)
        return None

    def s_Raise(self, n, st):
        for c in n.children():
            self.expr(c, st)
        return None

    def s_Assert(self, n, st):
        st = self.expr(n.test, st)
        if n.msg is not None:
            self.expr(n.msg, st)
        return None if self.const(n.test) is False else st

    def const(self, e):
        if e._ == 'Num':
            return bool(e.n)
        if e._ == 'Name' and e.id in ('True', 'False', 'None'):
            return e.id == 'True'
        return None

    def s_If(self, n, st):
        st = self.expr(n.test, st)
        c = self.const(n.test)
        a = self.block(n.body, st) if c is not False else None
        b = self.block(n.orelse, st) if c is not True else None
        return join([a, b], ('if', n))

    def s_While(self, n, st):
        st = self.expr(n.test, st)
        self.loops.append(([], []))
        end = self.block(n.body, st)
        brk, cont = self.loops.pop()
        c = self.const(n.test)
        again = join([end] + cont, ('loop', n))
        done = None if c is True else join([st, again], ('loop', n))
        if done is not None:
            done = self.block(n.orelse, done)
        return join([done] + brk, ('loop', n))

    def s_For(self, n, st):
        st = self.expr(n.iter, st)
        self.loops.append(([], []))
        end = self.block(n.body, self.store(n.target, st))
        brk, cont = self.loops.pop()
        done = join([st, end] + cont, ('loop', n))
        if done is not None:
            done = self.block(n.orelse, done)
        return join([done] + brk, ('loop', n))

    def s_Break(self, n, st):
        if self.loops:
            self.loops[-1][0].append(st)
        return None

    def s_Continue(self, n, st):
        if self.loops:
            self.loops[-1][1].append(st)
        return None

    def s_With(self, n, st):
        items = [n] if 'context_expr' in n.f else n.items
        for i in items:
            st = self.expr(i.context_expr, st)
            if i.optional_vars is not None:
                st = self.store(i.optional_vars, st)
        return self.block(n.body, st)

    def s_TryExcept(self, n, st):
        self.tries.append([st])
        end = self.block(n.body, st)
        seen = self.tries.pop()
        if self.tries:
            self.tries[-1].extend(seen)
        if end is not None:
            end = self.block(n.orelse, end)
        caught = join(seen, ('try', n))
        outs = [end]
        for h in n.handlers:
            s = caught
            if h.type is not None:
                s = self.expr(h.type, s)
            if h.name is not None and not isinstance(h.name, str):
                s = self.store(h.name, s)
            elif h.name is not None:
                s = s.bind([h.name])
            outs.append(self.block(h.body, s))
        return join(outs, ('try', n))

    def s_TryFinally(self, n, st):
        self.tries.append([st])
        end = self.block(n.body, st)
        seen = self.tries.pop()
        if self.tries:
            self.tries[-1].extend(seen)
        self.block(n.finalbody, join(seen, ('finally', n)))
        return None if end is None else self.quiet(n.finalbody, end)

    def quiet(self, stmts, st):
        """once more, for the state after it"""
        bad, uses = list(self.bad), self.uses
        st = self.block(stmts, st)
        self.bad, self.uses = bad, uses
        return st

    # --------------------------------------------------------- expressions
    def expr(self, e, st):
        if e._ == 'Name':
            if e.ctx._ == 'Load':
                self.use(e, st)
            return st
        if e._ == 'Lambda':
            for c in e.args.defaults:
                st = self.expr(c, st)
            return st
        if e._ in ('GeneratorExp', 'SetComp', 'DictComp'):
            return self.expr(e.generators[0].iter, st)
        if e._ == 'ListComp':
            s = st
            for g in e.generators:
                s = self.expr(g.iter, s)
                s = self.store(g.target, s)
                for c in g.ifs:
                    s = self.expr(c, s)
            s = self.expr(e.elt, s)
            return join([st, s], ('loop', e))
        if e._ == 'BoolOp':
            s = st = self.expr(e.values[0], st)
            for v in e.values[1:]:
                s = self.expr(v, s)
            return join([st, s], ('if', e))
        if e._ == 'IfExp':
            st = self.expr(e.test, st)
            return join([self.expr(e.body, st), self.expr(e.orelse, st)],
                        ('if', e))
        for c in e.children():
            st = self.expr(c, st)
        return st

    def use(self, n, st):
        s = self.scope
        if n.id == 'None' or st is None:
            return
        if n.id not in s.names or n.id in s.globs:
            # a class body within a module or function being executed
            o = getattr(self, 'outer', None)
            if o is not None and n.id not in s.params:
                f, ost = o
                if n.id in f.scope.names and n.id not in ost.may:
                    f.use(n, ost)
            return
        self.uses += 1
        if n.id in st.must:
            return
        if s.kind == 'ClassDef' and self.prog.lookup(
                s.parent, n.id) is not None:
            return
        if s.kind == 'module' and n.id in __builtins__:
            return
        self.bad.append((n.id, n, 'never' if n.id not in st.may else
                         st.gaps.get(n.id, set())))

    # ------------------------------------------------------------ verdicts
    def certain(self, use, gaps):
        """the paths without an assignment lead to the use whatever the
        conditions are"""
        for kind, g in gaps:
            if kind == 'loop' or g._ in ('BoolOp', 'IfExp'):
                return False
            if kind == 'if' and len(g.orelse) == 1 and \
                    g.orelse[0]._ == 'If' and not self.complete(g):
                return False
            if kind == 'finally':
                if not any(use is x for b in g.finalbody
                           for x in self.header(b)):
                    return False
                continue
            if not self.follows(g, use):
                return False
        return True

    def complete(self, g):
        """the chain of tests ends with an else"""
        while len(g.orelse) == 1 and g.orelse[0]._ == 'If':
            g = g.orelse[0]
        return bool(g.orelse)

    def header(self, stmt):
        """the nodes evaluated whenever the statement is"""
        if stmt._ in ('If', 'While'):
            return list(stmt.test.walk())
        if stmt._ == 'For':
            return list(stmt.iter.walk())
        if stmt._ == 'With':
            return list(stmt.walk())
        if stmt._ in ('TryExcept', 'TryFinally', 'FunctionDef', 'ClassDef'):
            return []
        return [x for x in stmt.walk() if not self.conditional(x, stmt)]

    def conditional(self, x, top):
        c = x
        while c is not top:
            p = self.parents.get(id(c))
            if p is None:
                return False
            if p._ == 'IfExp' and c is not p.test or p._ == 'BoolOp' and \
                    c is not p.values[0]:
                return True
            c = p
        return False

    def follows(self, g, use):
        p = self.parents.get(id(g))
        if p is None:
            return False
        for field, v in p.f.items():
            if isinstance(v, list) and any(x is g for x in v):
                i = [x is g for x in v].index(True)
                for later in v[i + 1:]:
                    if any(x is use for x in self.header(later)):
                        return True
                    if any(x._ in JUMPS for x in later.walk()) or any(
                            x._ == 'Expr' and self.noreturn(x.value)
                            for x in later.walk()):
                        return False
        return False


def check(prog):
    """report the uses of unassigned locals; -> number of uses examined"""
    n = 0
    for s in list(prog.scopes.values()):
        if s.kind not in ('FunctionDef', 'module'):
            continue
        f = Flow(prog, s)
        f.run()
        n += f.uses
        if f.skip:
            continue
        seen = set()
        for name, node, why in f.bad:
            if (name, node.l) in seen:
                continue
            seen.add((name, node.l))
            if why == 'never':
                prog.bug('locals', s, node, 'the local variable %s is not '
                         'assigned before' % name)
            else:
                prog.bug('locals', s, node, 'the local variable %s may not '
                         'be assigned (%s)' % (name, ', '.join(sorted(
                             '%s at line %s' % (k, g.l) for k, g in why))),
                         f.certain(node, why))
    return n
