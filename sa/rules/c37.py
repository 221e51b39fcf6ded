"""C37: the orderings defined by the library are strict weak orders."""
import itertools
from rules.common import *
from rules.c21 import t
from terms import K

C = 'openquake.commonlib.'
ORDERING = ('__lt__', '__gt__', '__le__', '__ge__', '__cmp__')


def defined(ctx):
    """the classes given an ordering, in their body or by assignment"""
    found = {}
    for name, tree in sorted(ctx.mods.items()):
        for n in tree.walk():
            if n._ == 'ClassDef':
                for b in n.body:
                    nm = getattr(b, 'name', None) if b._ == 'FunctionDef' \
                        else None
                    if b._ == 'Assign':
                        for x in b.targets:
                            if x._ == 'Name' and x.id in ORDERING:
                                nm = x.id
                    if nm in ORDERING:
                        found.setdefault('%s.%s' % (name, n.name),
                                         []).append((nm, n.l))
            elif n._ == 'Assign':
                for x in n.targets:
                    if x._ == 'Attribute' and x.attr in ORDERING and \
                            x.value._ == 'Name':
                        found.setdefault('%s.%s' % (name, x.value.id),
                                         []).append((x.attr, n.l))
    return found


def relation(ctx, eng, con, fn, n, keys):
    """the relation between objects with the given keys, as a dict, or
    None"""
    xs = [S('a%d' % i) for i in range(n)]
    ys = [S('b%d' % i) for i in range(n)]
    ps = paths(ctx, eng, 'order', fn, [
        xs[0] if n == 1 else t(xs), ys[0] if n == 1 else t(ys)], shown=con)
    if ps is None:
        return None
    rel = {}
    for k1 in keys:
        for k2 in keys:
            env = dict(zip(xs + ys, k1 + k2))
            got = outcomes(ps, env)
            if isinstance(got, str):
                ctx.unknown('order', con, '%s for %r, %r' % (got, k1, k2))
                return None
            for g in got:
                if g[:2] == ('raise', 'TypeError'):
                    ctx.unknown('order', con, 'the objects cannot be made')
                    return None
                if g[0] == 'raise' or not isinstance(g[1], tuple):
                    ctx.violated('order', con, 'comparing %r and %r %ss %s'
                                 % (k1, k2, g[0], g[1]))
                    return None
                if not g[1][0] == g[1][1]:
                    ctx.violated('order', con, 'a < b and b > a differ for '
                                 '%r, %r' % (k1, k2))
                    return None
            if len(set(g[1] for g in got)) > 1:
                ctx.unknown('order', con, 'two answers for %r, %r'
                            % (k1, k2))
                return None
            rel[k1, k2] = bool(got[0][1][0])
    return rel


def axioms(ctx, con, rel, keys, same, group=None):
    def bad(rule, what, *ks):
        ctx.violated(rule, con, '%s for %s' % (what, ', '.join(map(
            repr, ks))))

    def irreflexive():
        for a in keys:
            if rel[a, a]:
                return bad('order', 'a < a', a)
        return True

    def transitive():
        for a, b, c in itertools.product(keys, repeat=3):
            if rel[a, b] and rel[b, c] and not rel[a, c]:
                return bad('order', 'a < b < c but not a < c', a, b, c)
        return True

    def weak():
        inc = lambda x, y: not rel[x, y] and not rel[y, x]
        for a, b, c in itertools.product(keys, repeat=3):
            if inc(a, b) and inc(b, c) and not inc(a, c):
                return bad('order', 'a, b and b, c are not comparable but '
                           'a, c are', a, b, c)
        return True

    def total():
        for a, b in itertools.product(keys, repeat=2):
            if same(a) != same(b) and not rel[a, b] and not rel[b, a]:
                return bad('total', 'neither a < b nor b < a', a, b)
            if same(a) == same(b) and (rel[a, b] or rel[b, a]):
                return bad('total', 'equal keys are told apart', a, b)
        return True

    def together():
        for a, b, c in itertools.product(keys, repeat=3):
            if group(a) == group(c) != group(b) and rel[a, b] and rel[b, c]:
                return bad('together', 'a < b < c with b of another branch '
                           'set', a, b, c)
        return True
    n = len(keys)
    for rule, f in (('order', irreflexive), ('order', transitive),
                    ('order', weak), ('total', total)) + (
                        (('together', together),) if group else ()):
        if f():
            ctx.proved(rule, '%s, %s' % (con, f.__name__),
                       'every triple of %d objects' % n)


TEXTS = ['', 'A', 'a', 'b', 'b1', 'b10', 'b2']


def run(ctx):
    ctx.rule('defined', 'the classes with an ordering are the ones examined')
    ctx.rule('order', 'irreflexive, transitive, with transitive '
             'incomparability')
    ctx.rule('total', 'objects are incomparable exactly when their keys are '
             'equal, so that sorting does not depend on the input order')
    ctx.rule('together', 'branches of one branch set are contiguous')
    ctx.assumptions.append('the relation is computed from the order of two '
                           'objects with symbolic keys and tabulated over a '
                           'finite set of keys (weights not NaN)')
    cases = [
        (C + 'general.WeightedSequence', 'harness.ord_weighted', 1,
         [(w,) for w in (-1.5, 0, 0.5, 1, 1 + 1e-9, 1 + 6e-7,
                                1 + 1.2e-6, 1.05, 2, 3, 7, 10, 1e6, 1e6 + 0.5)],
         lambda k: k, None),
        (C + 'logictree.BranchTuple', 'harness.ord_branches', 4,
         [(b, i, v, w) for b in ('', 'B', 'b1', 'b10', 'b2')
          for i in ('', 'A', 'a', 'b10', 'b2')
          for v, w in (('x', 0.5),)] + [
              ('b1', 'A', 'w', 0.25), ('b1', 'A', 'y', 0.75),
              ('B', 'a', 'w', 0.75), ('B', 'a', 'x', 0.25)],
         lambda k: k[:2], lambda k: k[0]),
        (C + 'source.SourceCollector', 'harness.ord_collectors', 2,
         [(n, x) for n in (0, 1, 2, 3, 10) for x in TEXTS], lambda k: k,
         None)]
    found = defined(ctx)
    for name, where_ in sorted(found.items()):
        if name in [c[0] for c in cases]:
            ctx.proved('defined', name, where_[0][0])
        else:
            ctx.unknown('defined', name, 'an ordering not examined, line %d'
                        % where_[0][1])
    eng = ctx.engine(stubs=WORLD, recursion=12, real=REAL, UNROLL=60)
    for con, fn, n, keys, same, group in cases:
        ctx.saw(con)
        if con not in found:
            ctx.unknown('defined', con, 'no ordering is defined')
            continue
        if fn == 'harness.ord_collectors':
            rel = collectors(ctx, eng, con, fn, keys)
        else:
            rel = relation(ctx, eng, con, fn, n, keys)
        if rel is not None:
            axioms(ctx, con, rel, keys, same, group)


def collectors(ctx, eng, con, fn, keys):
    """the number of sources is concrete"""
    rel = {}
    x, y = S('x'), S('y')
    for n in sorted(set(k[0] for k in keys)):
        for m in sorted(set(k[0] for k in keys)):
            ps = paths(ctx, eng, 'order', fn, [
                ('tuple', K(n), x), ('tuple', K(m), y)], shown=con)
            if ps is None:
                return None
            for a in TEXTS:
                for b in TEXTS:
                    got = outcomes(ps, {x: a, y: b})
                    if isinstance(got, str):
                        ctx.unknown('order', con, got)
                        return None
                    if any(g[0] == 'raise' or g[1][0] != g[1][1]
                           for g in got):
                        ctx.violated('order', con, '%s for %r, %r' % (
                            got[0][:2], (n, a), (m, b)))
                        return None
                    rel[(n, a), (m, b)] = bool(got[0][1][0])
    return rel
