"""C06: no record enters a table set with a dangling reference."""
import itertools
from rules.common import *
from terms import K

Q = 'openquake.commonlib.record.TableSet.'
SHAPE = {'Rec': 'abc', 'Kid': 'kp', 'Duo': 'dqrk'}
KEYS = {'Rec': ['a', 'bc'], 'Kid': ['k'], 'Duo': ['d']}
FKS = {'Rec': [], 'Kid': [('p', 'Rec', 'a')],
       'Duo': [('qr', 'Rec', 'bc'), ('k', 'Kid', 'k')]}


class Model(object):
    def __init__(self):
        self.tables = {'Rec': [], 'Kid': [], 'Duo': []}

    def insert(self, r):
        typ, i, v = r
        for cols, target, tcols in FKS[typ]:
            key = [v[c] for c in cols]
            if not any([o[2][c] for c in tcols] == key
                       for o in self.tables[target]):
                return 'ForeignKeyError'
        for cols in KEYS[typ]:
            if any(all(o[2][c] == v[c] for c in cols)
                   for o in self.tables[typ]):
                return 'KeyError'
        self.tables[typ].append(r)
        return 'done'

    def insert_all(self, recs):
        for r in recs:
            x = self.insert(r)
            if x != 'done':
                return x
        return 'done'


HIST = [
    ('ts_kid', ['Rec', 'Kid'], [0], [('insert', 1)], 'insert'),
    ('ts_duo', ['Rec', 'Kid', 'Duo'], [0, 1], [('insert', 2)], 'check_fk'),
    ('ts_all', ['Rec', 'Kid', 'Rec'], [], [('all', [0, 1, 2])],
     'insert_all'),
    ('ts_order', ['Rec', 'Kid'], [], [('all', [1, 0])], 'insert_all'),
    ('ts_retry', ['Rec', 'Kid', 'Rec'], [0], [('insert', 2), ('insert', 1)],
     'insert'),
    ('ts_given', ['Rec', 'Kid'], [], [('insert', 0), ('insert', 1)],
     '__init__'),
]
# equalities that matter between the columns of different records
LINKS = {
    'ts_kid': [['a0', 'p1']],
    'ts_duo': [['a0', 'p1'], ['b0', 'q2'], ['c0', 'r2'], ['k1', 'k2']],
    'ts_all': [['a0', 'p1', 'a2'], ['b0', 'b2'], ['c0', 'c2']],
    'ts_order': [['a0', 'p1']],
    'ts_retry': [['a0', 'p1', 'a2'], ['b0', 'b2'], ['c0', 'c2']],
    'ts_given': [['a0', 'p1']],
}


def run(ctx):
    ctx.rule('foreign', 'for every pattern of equal and different key and '
             'foreign key columns (set partitions of the columns that can '
             'refer to each other), the outcome and the content of every '
             'table are those of a table set that stores a record in the '
             'table of its type if and only if all its foreign keys are '
             'found, and stores nothing otherwise')
    ctx.assumptions.append('three record types with one- and two-column '
                           'foreign keys, up to two records in place before')
    for rev in (False, True):
        eng = ctx.engine(recursion=3, dictrev=rev)
        for fn, types, before, ops, about in HIST:
            history(ctx, eng, rev, fn, types, before, ops, about)


def assignments(links, syms):
    loose = [s for s in syms if not any(s in l for l in links)]
    for parts in itertools.product(*[partitions(len(l)) for l in links]):
        env = {s: 100 + i for i, s in enumerate(loose)}
        for n, (l, p) in enumerate(zip(links, parts)):
            for s, v in zip(l, p):
                env[s] = 10 * n + v
        yield env


def history(ctx, eng, rev, fn, types, before, ops, about):
    con = '%s%s: %s%s' % (Q, about, fn, ' (keys reversed)' if rev else '')
    args = [('tuple',) + tuple(S('%s%d' % (c, i)) for c in SHAPE[t])
            for i, t in enumerate(types)]
    ps = paths(ctx, eng, 'foreign', 'harness.' + fn, args, shown=Q + about)
    if ps is None:
        return
    syms = [x[1] for a in args for x in a[1:]]
    bad, und, count = [], [], 0
    for vals in assignments(LINKS[fn], syms):
        recs = [(t, i, {c: vals['%s%d' % (c, i)] for c in SHAPE[t]})
                for i, t in enumerate(types)]
        m = Model()
        if any(m.insert(recs[i]) != 'done' for i in before):
            continue
        count += 1
        want = []
        for op, x in ops:
            want.append(m.insert(recs[x]) if op == 'insert' else
                        m.insert_all([recs[i] for i in x]))
        sel = select(ps, {S(k): v for k, v in vals.items()})
        if isinstance(sel, str):
            und.append(sel)
            continue
        tables = [[r[1] for r in m.tables[t]] for t in ('Rec', 'Kid', 'Duo')]
        for p in sel:
            r = observed(p, want, tables)
            if r is None:
                und.append(pp(p.value)[:100])
            elif r is not True:
                bad.append('columns %s: %s' % (vals, r))
    if bad:
        ctx.violated('foreign', con, '; '.join(bad[:3]))
    elif und or not count:
        ctx.unknown('foreign', con, und[0] if und else 'no history')
    else:
        ctx.proved('foreign', con, '%d key patterns, %d paths' % (
            count, len(ps)))


def which(t):
    row = attrs(t).get('row')
    vals = row and ones(row)
    if not vals or any(v[0] != 's' for v in vals):
        return '?'
    ids = {v[1][1:] for v in vals}
    return int(ids.pop()) if len(ids) == 1 else '?'


def observed(p, want, tables):
    if p.kind == 'raise':
        import evalt
        return 'raises %s' % evalt.excname(p.value)
    vals = ones(p.value)
    if vals is None or len(vals) != len(want) + 1:
        return None
    got = [v[2] if isk(v) else '?' for v in vals[:-1]]
    tabs = [ones(x) for x in ones(vals[-1])]
    if '?' in got or None in tabs:
        return None
    tabs = [[which(x) for x in t] for t in tabs]
    if any('?' in t for t in tabs):
        return None
    if got != want:
        return 'the operations give %s instead of %s' % (got, want)
    if tabs != tables:
        return 'the tables hold records %s instead of %s' % (tabs, tables)
    return True
