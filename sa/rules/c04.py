"""C04: columns, names and attributes of a record always agree."""
import evalt
from rules.common import *
from terms import K

R = 'openquake.commonlib.records'
CASTS = {'Rec': 'abc', 'Sub': 'abcd', 'Late': ['d', 'b', 'a'],
         'Later': ['d', 'b', 'a', 'c', 'b'],
         'Far': ['a', 'b', 'c', 'd', 'b'],
         'Further': ['a', 'b', 'c', 'd', 'b', 'a'],
         'Renamed': ['d', 'b', 'a']}


def recordtypes(eng):
    """record types of the library with the names of their columns in the
    order in which their class bodies, inherited ones first, declare them"""
    out = []
    base = eng.cid('openquake.commonlib.record.Record')
    for cid, info in eng.clsinfo.items():
        if cid == base or info['module'] not in (R, 'harness'):
            continue
        if base in [c for c in eng.mro(eng.base, cid)
                    if not isinstance(c, tuple)]:
            out.append(cid)
    return out


def declared(eng, cid):
    """column names as declared: order of the statements of the bodies"""
    names = []
    for c in reversed([c for c in eng.mro(eng.base, cid)
                       if not isinstance(c, tuple)]):
        if c not in eng.clsinfo:
            continue
        attrs = eng.base.heap[c].attrs
        own = [n for n in assigned(eng.clsinfo[c]['node'])
               if isfield(eng, attrs.get(n))]
        names.extend(n for n in own if n not in names)
    return names


def assigned(node):
    out = []
    for st in node.body:
        targets = getattr(st, 'targets', None)
        for t in targets or ():
            n = getattr(t, 'id', None)
            if n and n not in out:
                out.append(n)
    return out


def isfield(eng, v):
    if not v or v[0] != 'ref':
        return False
    o = eng.base.heap.get(v[1])
    return o is not None and o.kind == 'inst' and o.cls and \
        'openquake.commonlib.record.Field' in [
            eng.qualcls(c) for c in eng.mro(eng.base, o.cls)
            if not isinstance(c, tuple)]


def run(ctx):
    ctx.rule('names', 'field names, field list, length and constructor '
             'arguments of a record type follow the declaration order of its '
             'columns, for either iteration order of the class dictionary')
    ctx.rule('columns', 'constructor argument i, row cell i, item i, item by '
             'name, and index of the name are the same cell')
    ctx.rule('attribute', 'the attribute of a column is its own cast of its '
             'own cell; a key is the tuple of the cells of its columns')
    ctx.rule('casttuple', 'entry i of the cast tuple, also by name, is the '
             'cast of cell i')
    ctx.rule('defaults', 'a missing constructor argument is an empty string')
    ctx.rule('assign', 'item assignment by name or position stores the value '
             'in that column only, after its cast accepted it; if the cast '
             'raises, the row is unchanged')
    for rev in (False, True):
        eng = ctx.engine(recursion=3, dictrev=rev)
        types = recordtypes(eng)
        if len(types) < 20:
            from front import AnalysisBroken
            raise AnalysisBroken('only %d record types found' % len(types))
        for cid in types:
            one(ctx, eng, cid, rev)


def single(ctx, eng, rule, shown, fn, args):
    """the value of a driver with one path, else None"""
    ps = paths(ctx, eng, rule, 'harness.' + fn, args, shown=shown)
    if ps is None:
        return None
    return ps


def one(ctx, eng, cid, rev):
    shown = eng.qualcls(cid)
    tag = ' (class dictionary reversed)' if rev else ''
    want = declared(eng, cid)
    c = ('cls', cid)
    n = len(want)
    cells = [S('v%d' % i) for i in range(n)]
    tup = ('tuple',) + tuple(cells)

    def drive(rule, fn, args, check, what):
        ps = paths(ctx, eng, rule, 'harness.' + fn, [c] + args, shown=shown)
        if ps is None:
            return
        bad, und = [], []
        for p in ps:
            r = check(p)
            if r is None:
                und.append('%s: %s %s' % (what, pp(p.value)[:80], where(p)))
            elif r is not True:
                bad.append('%s: %s' % (what, r))
        con = shown + tag + ': ' + what
        if bad:
            ctx.violated(rule, con, bad[0])
        elif und or not ps:
            ctx.unknown(rule, con, und[0] if und else 'no path')
        else:
            ctx.proved(rule, con)

    def expect(val):
        def check(p):
            if p.kind == 'raise':
                return 'raises %s' % pp(p.value)[:100]
            return compare(p.value, val)
        return check

    L = lambda xs: ('list', tuple(('one', x) for x in xs))
    nm = [K(x) for x in want]
    drive('names', 'names', [], expect(('tuple', L(nm), L(nm), K(n))),
          'names')
    drive('columns', 'build', [tup], expect(
        ('tuple', L(cells), K(n), L(cells))), 'construction')
    mod = eng.clsinfo[cid]['module']
    for i, name in enumerate(want):
        drive('columns', 'look', [tup, K(name), K(i)], expect(
            ('tuple', cells[i], cells[i], K(i), K(i))), 'column ' + name)
        row = [K('')] * n
        row[i] = S('x')
        drive('defaults', 'build_some', [K(name), S('x')], expect(L(row)),
              'only ' + name)
    for k, cols in keys(eng, cid).items():
        if all(x in want for x in cols):
            drive('attribute', 'key', [tup, K(k)], expect(
                ('tuple',) + tuple(cells[want.index(x)] for x in cols)),
                'key ' + k)
    if shown.rsplit('.', 1)[-1] not in CASTS or rev:
        return
    casts = list(CASTS[shown.rsplit('.', 1)[-1]])
    calls = [('call', ('ext', 'opaque_casts.cast' + x), (v,), ())
             for x, v in zip(casts, cells)]

    def tolerant(val):
        def check(p):
            if p.kind == 'raise':
                return True if failures(p)[1] or failures(p)[0] else \
                    'raises %s' % pp(p.value)[:80]
            return compare(p.value, val)
        return check
    drive('casttuple', 'cast_names', [tup], tolerant(
        ('tuple',) + tuple(calls)), 'cast tuple')
    for i, name in enumerate(want):
        drive('casttuple', 'cast_by_name', [tup, K(name)],
              tolerant(calls[i]), 'cast of ' + name)
        drive('attribute', 'look_attr', [tup, K(name)], tolerant(calls[i]),
              'attribute ' + name)
        new = list(cells)
        new[i] = S('x')
        cast = ('call', calls[i][1], (S('x'),), ())

        def check(p, i=i, new=new, cast=cast):
            if p.kind == 'raise':
                return 'raises %s' % pp(p.value)[:80]
            what, row = p.value[1:3]
            fails = [e for e in p.ev if e.kind == 'failed']
            if what == K('rejected') and not fails:
                return 'a valid value is rejected'
            if what == K('stored') and fails:
                return 'an invalid value is accepted'
            ok = any(e.kind == 'call' and e.fn == cast[1] and
                     tuple(e.args) == cast[2] for e in p.ev)
            if not ok:
                return 'the cast of column %d is not applied to the new ' \
                    'value' % i
            return compare(row, L(new) if what == K('stored') else L(cells))
        for at in (K(name), K(i)):
            drive('assign', 'assign', [tup, at, S('x')], check,
                  'assignment to [%s]' % pp(at))


def keys(eng, cid):
    """unique and foreign keys of a record type: name -> column names"""
    out = {}
    for c in eng.mro(eng.base, cid):
        if isinstance(c, tuple) or c not in eng.clsinfo:
            continue
        for k, v in eng.base.heap[c].attrs.items():
            if k in out or v[0] != 'ref' or v[1] not in eng.base.heap:
                continue
            o = eng.base.heap[v[1]]
            if o.kind != 'inst' or not o.cls:
                continue
            q = [eng.qualcls(x) for x in eng.mro(eng.base, o.cls)
                 if not isinstance(x, tuple)]
            if not {'openquake.commonlib.record.Unique',
                    'openquake.commonlib.record.ForeignKey'} & set(q):
                continue
            names = eng.freeze(eng.base, o.attrs['names'])
            vals = ones(names)
            if vals and all(isk(x) for x in vals):
                out[k] = [x[2] for x in vals]
    return out
