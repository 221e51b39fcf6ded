"""C05: unique constraints survive every history of table edits."""
import itertools
import evalt
from engine import Blowup
from rules.common import *
from terms import K

T = 'openquake.commonlib.record.Table.'


def cells(i):
    return ('tuple',) + tuple(S('%s%d' % (x, i)) for x in 'abc')


class Model(object):
    """the table the documentation describes"""

    def __init__(self, vals, rows=()):
        self.vals = vals
        self.rows = list(rows)

    def clash(self, i, rows):
        a, b, c = self.vals[i]
        return any(self.vals[j][0] == a or self.vals[j][1:] == (b, c)
                   for j in rows)

    def insert(self, pos, i):
        if self.clash(i, self.rows):
            return 'KeyError'
        self.rows.insert(len(self.rows) if pos is None else pos, i)
        return 'done'

    def extend(self, recs):
        for i in recs:
            if self.insert(None, i) != 'done':
                return 'KeyError'
        return 'done'

    def replace(self, pos, i):
        old = self.rows[pos]
        if self.clash(i, [j for j in self.rows if j != old]):
            return 'KeyError'
        self.rows[pos] = i
        return 'done'

    def delete(self, pos):
        del self.rows[pos]
        return 'done'

    def state(self, n):
        found = []
        for i in range(1, n + 1):
            f = [j for j in self.rows
                 if self.vals[j][0] == self.vals[i][0]]
            found.append(f[0] if f else None)
        return self.rows, found


# (driver, number of records, extra argument, records inserted beforehand,
# operations of the history)
def histories():
    for pos in (0, 1, 7, -1):
        yield ('tab_insert', 2, [K(pos)], [], [('insert', None, 1),
                                               ('insert', pos, 2)], 'insert')
    yield ('tab_retry', 3, [], [1], [('insert', None, 2),
                                     ('insert', None, 3)], 'insert')
    for i in (0, 1, -1):
        yield ('tab_replace', 3, [K(i)], [1, 2], [('replace', i, 3)],
               '__setitem__')
    for i in (0, 1, -1):
        yield ('tab_delete', 2, [K(i)], [1, 2], [('delete', i)],
               '__delitem__')
    yield ('tab_delete_insert', 2, [], [1], [('delete0', 0),
                                             ('insert', None, 2)],
           '__delitem__')
    yield ('tab_extend', 3, [], [1], [('extend', [2, 3])], 'insert')
    yield ('tab_pop', 2, [], [1, 2], [('delete0', 0)], '__delitem__')
    yield ('tab_replace_insert', 3, [], [1], [('replace', 0, 2),
                                              ('insert', None, 3)],
           '__setitem__')


def which(t):
    """index of the record a frozen value stands for"""
    if t == NONE:
        return None
    if isk(t):
        return 'the constant %s' % pp(t)
    row = attrs(t).get('row')
    vals = row and ones(row)
    if not vals or any(v[0] != 's' for v in vals):
        return '?'
    ids = {v[1][1:] for v in vals}
    if len(ids) != 1 or [v[1][0] for v in vals] != list('abc'):
        return '?'
    return int(ids.pop())


def run(ctx):
    ctx.rule('history', 'for every pattern of equal and different key '
             'columns among the records (all set partitions, per column), '
             'the path conditions select outcomes equal to those of a table '
             'that rejects duplicates with KeyError and no other effect, and '
             'the primary key lookups find exactly the stored records')
    ctx.rule('atomic', 'on every path of insert, __setitem__ that raises, no '
             'container reachable from a table of unknown content has '
             'changed')
    ctx.assumptions.append('tables of one or two records of a type with a '
                           'one-column and a two-column unique key, '
                           'histories of up to three edits; the atomicity '
                           'rule is for tables of any content')
    for rev in (False, True):
        eng = ctx.engine(recursion=3, dictrev=rev)
        for h in histories():
            history(ctx, eng, rev, *h)
    mixins(ctx)
    atomic(ctx)


def history(ctx, eng, rev, fn, n, extra, before, ops, about):
    con = '%s%s: %s%s%s' % (T, about, fn, tuple(
        x[2] for x in extra), ' (constraints reversed)' if rev else '')
    args = [cells(i) for i in range(1, n + 1)] + extra
    ps = paths(ctx, eng, 'history', 'harness.' + fn, args,
               shown=T + about)
    if ps is None:
        return
    bad, und, count = [], [], 0
    parts = partitions(n)
    for pa, pb, pc in itertools.product(parts, parts, parts):
        vals = {i + 1: (pa[i], pb[i], pc[i]) for i in range(n)}
        m = Model(vals)
        if any(m.insert(None, i) != 'done' for i in before):
            continue
        count += 1
        want = []
        for op in ops:
            r = getattr(m, op[0].rstrip('0'))(*op[1:])
            if op[0] != 'delete0':
                want.append(r)
        rows, found = m.state(n)
        env = {}
        for i in range(1, n + 1):
            for x, v in zip('abc', vals[i]):
                env[S('%s%d' % (x, i))] = v
        sel = select(ps, env)
        if isinstance(sel, str):
            und.append(sel)
            continue
        for p in sel:
            r = observed(p, want, rows, found)
            if r is None:
                und.append(pp(p.value)[:100])
            elif r is not True:
                bad.append('records with keys %s: %s' % (
                    [vals[i] for i in sorted(vals)], r))
    if bad:
        ctx.violated('history', con, '; '.join(bad[:3]))
    elif und:
        ctx.unknown('history', con, und[0])
    else:
        ctx.proved('history', con, '%d key patterns, %d paths' % (
            count, len(ps)))


def observed(p, want, rows, found):
    if p.kind == 'raise':
        return 'raises %s' % evalt.excname(p.value)
    vals = ones(p.value) if want else [p.value]
    if vals is None or len(vals) != len(want) + 1:
        return None
    got = [v[2] if isk(v) else '?' for v in vals[:-1]]
    st = ones(vals[-1])
    r = ones(st[0])
    f = ones(st[1])
    if r is None or f is None or '?' in got:
        return None
    r, f = [which(x) for x in r], [which(x) for x in f]
    if '?' in r or '?' in f:
        return None
    if got != want:
        return 'the operations give %s instead of %s' % (got, want)
    if r != rows:
        return 'the table holds records %s instead of %s' % (r, rows)
    if f != found:
        return 'the lookups give %s instead of %s' % (f, found)
    if st[2] != K(len(rows)):
        return 'the length is %s instead of %d' % (pp(st[2]), len(rows))
    return True


def mixins(ctx):
    """construction goes through the same checks"""
    eng = ctx.engine(recursion=3)
    ps = paths(ctx, eng, 'history', 'harness.tab_build', [cells(1), cells(2)],
               shown=T + '__init__')
    if ps is None:
        return
    bad, und = [], []
    for pa, pb, pc in itertools.product(partitions(2), repeat=3):
        vals = {i + 1: (pa[i], pb[i], pc[i]) for i in range(2)}
        m = Model(vals, [1])
        env = {S('%s%d' % (x, i)): v for i in (1, 2)
               for x, v in zip('abc', vals[i])}
        sel = select(ps, env)
        if isinstance(sel, str):
            und.append(sel)
            continue
        for p in sel:
            dup = m.clash(2, [1])
            if dup != (p.kind == 'raise'):
                bad.append('records with keys %s: building %ss' % (
                    [vals[1], vals[2]], p.kind))
            elif dup and evalt.excname(p.value) != 'KeyError':
                bad.append('building raises %s' % evalt.excname(p.value))
    con = T + '__init__'
    if bad:
        ctx.violated('history', con, bad[0])
    elif und:
        ctx.unknown('history', con, und[0])
    else:
        ctx.proved('history', con)


def reachable(eng, st, ref, seen):
    """references of the containers reachable from an object"""
    if ref[1] in seen or ref[1] not in st.heap:
        return
    seen[ref[1]] = None
    o = st.heap[ref[1]]
    stack = list(o.attrs.values()) + [o.segs]
    while stack:
        x = stack.pop()
        if type(x) is tuple and x:
            if isinstance(x[0], str) and x[0] == 'ref' and len(x) == 2:
                reachable(eng, st, x, seen)
            else:
                stack.extend(x)


def atomic(ctx):
    """a table whose content is unknown: what a failed edit changes"""
    eng = ctx.engine(recursion=3)
    try:
        made = eng.run(eng.require('harness.tab_empty'), [])
    except Blowup as e:
        ctx.unknown('atomic', T + 'insert', str(e))
        return
    if len(made) != 1 or made[0].kind != 'return':
        ctx.unknown('atomic', T + '__init__', 'not constructed')
        return
    st0 = made[0].st
    tab = made[0].raw
    seen = {}
    reachable(eng, st0, tab, seen)
    watched = []
    for oid in seen:
        o = st0.heap[oid]
        if o.kind in ('list', 'dict', 'set') and not o.segs:
            eng.setobj(st0, ('ref', oid), segs=(('base', ('was', oid)),))
            watched.append(oid)
    before = {oid: st0.heap[oid] for oid in watched}
    for op, args in [('insert', [S('pos'), None]),
                     ('__setitem__', [S('pos'), None])]:
        s = st0.fork()
        s.ev = ()
        outs = eng.run(('cls', eng.cid('harness.Rec')),
                       [S('x'), S('y'), S('z')], st=s)
        if len(outs) != 1:
            ctx.unknown('atomic', T + op, 'record not constructed')
            continue
        rec = outs[0].raw
        f = eng.class_lookup(outs[0].st, eng.cid(T[:-1]), op)[0]
        try:
            ps = eng.run(f, [tab, S('pos'), rec], st=outs[0].st)
        except Blowup as e:
            ctx.unknown('atomic', T + op, str(e))
            continue
        ctx.saw(T + op)
        bad, n = [], 0
        for p in ps:
            if p.kind != 'raise':
                continue
            if evalt.excname(p.value) not in ('KeyError',):
                continue
            n += 1
            for oid in watched:
                if p.st.heap[oid].segs != before[oid].segs:
                    bad.append('a rejected record leaves %s changed %s' % (
                        pp(eng.freeze(p.st, ('ref', oid)))[:120], where(p)))
        if bad:
            ctx.violated('atomic', T + op, bad[0])
        elif not n or not watched:
            ctx.unknown('atomic', T + op, 'no rejecting path')
        else:
            ctx.proved('atomic', T + op, '%d rejecting paths, %d containers'
                       % (n, len(watched)))
