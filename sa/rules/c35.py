"""C35: what the library is given is left as it was."""
import json
import os
import effects
import resolve
from front import AnalysisBroken
from rules.common import *

C = 'openquake.commonlib.'
# the functions whose purpose is to modify what they are given
PURPOSE = {
    (C + 'logictree.BranchSet.apply_uncertainty', 'source'),
    (C + 'logictree.BranchSet._apply_uncertainty_to_mfd', 'mfd'),
    (C + 'logictree.SourceModelLogicTree.make_apply_uncertainties.'
     'apply_uncertainties', 'source'),
    # the branch set, or the table of filters, being built
    (C + 'logictree.BaseLogicTree.parse_branches', 'branchset'),
    (C + 'logictree.SourceModelLogicTree.parse_filters', 'filters'),
    (C + 'logictree.GMPELogicTree.parse_filters', 'filters'),
    # the namespace of the class being made
    (C + 'record.MetaRecord.__new__', 'dic')}
with open(os.path.join(os.path.dirname(__file__), 'api.json')) as _f:
    API = {k: set(v) for k, v in json.load(_f).items()}
CONTAINERS = ('List', 'Dict', 'Set', 'ListComp', 'DictComp', 'SetComp')


def mutable(prog, scope, e):
    """an expression giving a new container"""
    if e._ in CONTAINERS:
        return True
    if e._ != 'Call':
        return False
    v = prog.infer(e, scope)
    if v is not resolve.UNK and all(
            x[0] == 'extinst' and x[1] in (
                'list', 'dict', 'set', 'collections.OrderedDict',
                'collections.defaultdict', 'collections.deque',
                'collections.Counter') for x in v):
        return True
    return False


def first(ns):
    """the effect to report: a certain one if there is"""
    return ([n for n in ns if n[2]] or ns)[0]


def inputs(ctx, prog, eff, funs):
    for s in funs:
        su = eff.summary(s)
        own = s.params[0] if s.cls is not None and s.params and \
            prog.decorations(s.node) != 'staticmethod' else None
        bad = False
        for r, ns in sorted(su.effects.items()):
            if r == own or r.startswith('self.') or (
                    r not in API.get(s.qual, ())) or (s.qual, r) in PURPOSE:
                continue
            n, text, certain = first(ns)
            bad = True
            con = '%s(%s), line %s' % (s.qual, r, n.l)
            if certain:
                ctx.violated('inputs', con, text)
            else:
                ctx.unknown('inputs', con, text)
        if not bad:
            ctx.proved('inputs', s.qual, '%d parameters' % len(s.params))


def chain_summaries(prog, eff, cls):
    for c in prog.chain(cls)[0]:
        for name, defs in c.names.items():
            for kind, n in defs:
                if kind == 'def' and id(n) in prog.scopes:
                    yield c, name, eff.summary(prog.scopes[id(n)])


def kept(ctx, prog, eff, classes):
    """a container given to the constructor, kept and modified"""
    for cls in classes:
        effs = {}
        for c, name, su in chain_summaries(prog, eff, cls):
            for r, ns in su.effects.items():
                if r.startswith('self.'):
                    effs.setdefault(r[5:], []).extend(
                        (c.qual + '.' + name,) + n for n in ns)
        bad = False
        init = prog.classattr(cls, '__init__')
        for c, kind, n in init:
            if kind != 'def' or c.qual + '.__init__' not in API:
                continue
            s = prog.scopes[id(n)]
            for attr, stores in eff.summary(s).kept.items():
                for node, os in stores:
                    got = [(r, k, ok) for r, k, ok in os if k == 'obj' and
                           r in s.params[1:] and r in API[s.qual]]
                    hits = effs.get(attr, [])
                    if not got or not hits:
                        continue
                    h = ([x for x in hits if x[3]] or hits)[0]
                    bad = True
                    con = '%s(%s)' % (cls.qual, got[0][0])
                    text = 'kept as .%s at line %s; %s %s at line %s' % (
                        attr, node.l, h[0], h[2], h[1].l)
                    if h[3] and got[0][2]:
                        ctx.violated('kept', con, text)
                    else:
                        ctx.unknown('kept', con, text)
        if not bad:
            ctx.proved('kept', cls.qual, '%d attributes modified' % len(
                effs))


def defaults(ctx, prog, eff, funs):
    n = 0
    for s in funs:
        a = s.node.args
        named = a.args[len(a.args) - len(a.defaults):]
        for p, d in zip(named, a.defaults):
            if p._ != 'Name':
                continue
            n += 1
            if not mutable(prog, s.parent, d):
                continue
            con = '%s(%s=...), line %s' % (s.qual, p.id, s.node.l)
            su = eff.summary(s)
            ns = su.effects.get(p.id)
            if not ns and s.cls is not None:
                for attr, stores in su.kept.items():
                    for node, os in stores:
                        if any(r == p.id and k == 'obj' for r, k, c in os):
                            for c, name, s2 in chain_summaries(
                                    prog, eff, s.cls):
                                ns = ns or s2.effects.get('self.' + attr)
            if ns:
                m, text, certain = first(ns)
                (ctx.violated if certain else ctx.unknown)(
                    'defaults', con, 'the default value is modified: %s at '
                    'line %s' % (text, m.l))
            elif any(r == p.id and k == 'obj' for r, k, c in su.returns):
                ctx.unknown('defaults', con, 'the default value is returned')
            else:
                ctx.proved('defaults', con, 'not modified')
    ctx.proved('defaults', 'defaults examined', '%d' % n)


def abstract(prog, cls):
    """a class with an abstract method is not instantiated"""
    seen = set()
    for c in prog.chain(cls)[0]:
        for name, defs in c.names.items():
            if name in seen:
                continue
            seen.add(name)
            for kind, n in defs:
                if kind == 'def' and any(
                        (d.get('id') or d.get('attr') or '').startswith(
                            'abstract') for d in n.decorator_list):
                    return True
    return False


def classlevel(ctx, prog, eff, classes):
    n = 0
    for cls in classes:
        if prog.is_meta(cls):
            continue
        for c in prog.chain(cls)[0]:
            for attr, defs in sorted(c.names.items()):
                if not any(k == 'value' and mutable(prog, c, v)
                           for k, v in defs):
                    continue
                n += 1
                con = '%s.%s' % (cls.qual, attr)
                if abstract(prog, cls):
                    ctx.proved('classes', con, 'abstract')
                    continue
                init, hits = False, []
                for d, name, su in chain_summaries(prog, eff, cls):
                    if name == '__init__' and attr in su.kept:
                        init = True
                    hits += [(d.qual + '.' + name,) + x for x in
                             su.effects.get('self.' + attr, ())]
                if hits and not init:
                    h = ([x for x in hits if x[3]] or hits)[0]
                    (ctx.violated if h[3] else ctx.unknown)(
                        'classes', con, 'shared by the instances; %s %s at '
                        'line %s' % (h[0], h[2], h[1].l))
                else:
                    ctx.proved('classes', con, 'assigned in the instances'
                               if hits else 'not modified')
    # by the name of the class
    owners = {c.qual: c for c in classes}
    for s in prog.scopes.values():
        if s.kind != 'FunctionDef':
            continue
        for node in resolve.own_nodes(s.body):
            t = None
            if node._ == 'Call' and node.func._ == 'Attribute' and \
                    node.func.attr in effects.MUTATORS:
                t = node.func.value
            elif node._ in ('Assign', 'AugAssign', 'Delete'):
                for x in node.get('targets') or [node.target]:
                    if x._ == 'Subscript':
                        t = x.value
            if t is None or t._ != 'Attribute':
                continue
            v = prog.infer(t.value, s)
            if v is resolve.UNK:
                continue
            for x in v:
                if x[0] in ('class', 'selfclass'):
                    for c, k, val in prog.classattr(x[1], t.attr):
                        if k == 'value' and mutable(prog, c, val):
                            ctx.violated('classes', '%s, line %s' % (
                                s.qual, node.l), 'modifies %s.%s' % (
                                    c.qual, t.attr))
    ctx.proved('classes', 'class containers examined', '%d' % n)


ITERATING = ('enumerate', 'iter', 'zip', 'izip', 'imap', 'ifilter')
VIEWS = ('iteritems', 'itervalues', 'iterkeys', 'viewitems', 'viewkeys',
         'viewvalues', '__iter__')


def iterated(e):
    """the expressions iterated directly"""
    if e._ in ('Name', 'Attribute'):
        yield e
    elif e._ == 'Call':
        nm = e.func.get('id') or e.func.get('attr')
        if nm in ITERATING:
            for a in e.args:
                for x in iterated(a):
                    yield x
        elif nm in VIEWS and e.func._ == 'Attribute':
            yield e.func.value
    elif e._ == 'BoolOp':
        for v in e.values:
            for x in iterated(v):
                yield x


def leaves(stmts, at):
    """is the loop left right after the statement?"""
    for st in stmts:
        inside = any(x is at for x in st.walk())
        for v in st.f.values():
            if isinstance(v, list) and v and all(
                    isinstance(x, type(st)) for x in v) and any(
                        x is at for y in v for x in y.walk()) and \
                    st._ not in ('For', 'While'):
                if leaves(v, at):
                    return True
        if inside:
            i = [x is st for x in stmts].index(True)
            return any(x._ in ('Break', 'Return', 'Raise')
                       for x in stmts[i:])
    return False


def loops(ctx, prog, eff, scopes):
    n = 0
    for s in scopes:
        if s.kind not in ('FunctionDef', 'module'):
            continue
        an = effects.Analysis(eff, s)
        for node in resolve.own_nodes(s.body):
            if node._ != 'For':
                continue
            n += 1
            over = [an.path(x) for x in iterated(node.iter)]
            over = [x for x in over if x]
            if not over:
                continue
            for b in node.body:
                for x in [b] + list(resolve.own_nodes([b])):
                    for p, text in an.structural(x):
                        if p in over and not leaves(node.body, x):
                            ctx.violated('loops', '%s, line %s' % (
                                s.qual, x.l), '%s is iterated at line %s; '
                                'the loop %s' % (p, node.l, text))
    ctx.proved('loops', 'loops examined', '%d' % n)
    return n


def run(ctx):
    ctx.rule('inputs', 'no function has an effect on (a part of) an object '
             'given to it, but for those with that purpose')
    ctx.rule('kept', 'no container given to a constructor is kept and later '
             'modified')
    ctx.rule('defaults', 'no default value is modified')
    ctx.rule('classes', 'no container of a class is modified')
    ctx.rule('loops', 'no collection is modified while it is iterated')
    ctx.assumptions.append('the functions of other libraries do not modify '
                           'their arguments, except the known ones (methods '
                           'of containers, setattr, modify...)')
    prog = resolve.Program(ctx.mods)
    eff = effects.Effects(prog)
    scopes = sorted(prog.scopes.values(), key=lambda s: s.qual)
    funs = [s for s in scopes if s.kind == 'FunctionDef']
    classes = [s for s in scopes if s.kind == 'ClassDef']
    if len(funs) < 150 or len(classes) < 30:
        raise AnalysisBroken('only %d functions, %d classes' % (
            len(funs), len(classes)))
    for s in funs:
        ctx.saw(s.qual)
    inputs(ctx, prog, eff, funs)
    kept(ctx, prog, eff, classes)
    defaults(ctx, prog, eff, funs)
    classlevel(ctx, prog, eff, classes)
    if loops(ctx, prog, eff, scopes) < 50:
        raise AnalysisBroken('the loops vanished')
