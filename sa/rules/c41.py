"""C41: validity, text and views of records, tables and table sets."""
import itertools
from rules.common import *
from terms import K

R = 'openquake.commonlib.record.'
CELLS = ('1', '2', 'bad')


def L(*xs):
    return ('list', tuple(('one', x) for x in xs))


def T(*xs):
    return ('tuple',) + tuple(xs)


def envs(names, values):
    return [dict(zip([S(n) for n in names], v))
            for v in itertools.product(values, repeat=len(names))]


def run(ctx):
    ctx.rule('validity', 'a record is valid exactly when each cell is '
             'accepted by its column and each check of its own class holds; '
             'the validity of one column is about that column only; a table '
             'is valid exactly when each of its records is')
    ctx.rule('area', 'an exposure gives both or neither of the type and the '
             'unit of the areas')
    ctx.rule('text', 'the text of a record is its cells joined by commas, '
             'that of a table the texts of its records, one per line')
    ctx.rule('class', 'a record type using a reserved name or without '
             'primary key is refused, others are not')
    ctx.rule('accessor', 'a column taken on the class gives the cast of the '
             'cell of the record it is applied to')
    ctx.rule('views', 'the dictionary of nodes maps each primary key to the '
             'node of its record in order; the groups are the runs of '
             'records with equal key cells in order')
    ctx.rule('set', 'a table set iterates its nonempty tables in order, '
             'counts and keeps all of them, and a slice holds the same '
             'tables')
    eng = ctx.engine(recursion=4)
    validity(ctx, eng)
    text(ctx, eng)
    classes(ctx, eng)
    views(ctx, eng)
    sets(ctx, eng)


def validity(ctx, eng):
    con = R + 'Record.is_valid'
    p, q = S('p'), S('q')
    every = envs('pq', CELLS)
    for which in ('none', 'same', 'both', 'other'):
        def want(e, which=which):
            a, b = e[p], e[q]
            good = [a != 'bad', b != 'bad']
            held = (which in ('none', 'other') or a == b) and (
                which in ('none', 'same') or a != '1')
            return ('return', (all(good) and held, good[0], good[1],
                               good[0], good[1], all(good), True))
        model(ctx, eng, 'validity', '%s, checks: %s' % (con, which),
              'harness.pair_checks', [p, q, K(which)], every, want,
              shown=con, cmp=lambda g, w: tuple(g) == w)
    r = S('r')
    model(ctx, eng, 'validity', con + ', derived types',
          'harness.heir_valid', [p, q, r], envs('pqr', CELLS),
          lambda e: ('return', (
              'bad' not in (e[p], e[q], e[r]) and e[p] == e[q],
              'bad' not in (e[p], e[q]), 'bad' not in (e[p], e[q]))),
          shown=con, cmp=lambda g, w: tuple(g) == w)
    con = R + 'Table.is_valid'
    for n in (0, 1, 2, 3):
        names = ['%s%d' % (x, i) for i in range(n) for x in 'pq']
        rows = L(*[T(K('k%d' % i), S('q%d' % i)) for i in range(n)])
        for which in ('none', 'same'):
            def want(e, which=which, n=n):
                return ('return', all(
                    e[S('q%d' % i)] != 'bad' and (
                        which == 'none' or e[S('q%d' % i)] == 'k%d' % i)
                    for i in range(n)))
            model(ctx, eng, 'validity', '%s, %d records, checks: %s' % (
                con, n, which), 'harness.table_valid', [rows, K(which)],
                envs(['q%d' % i for i in range(n)],
                     ('k0', 'k1', 'k2', 'bad')), want, shown=con,
                cmp=lambda g, w: bool(g) == w)
    con = 'openquake.commonlib.records.Exposure.is_valid'

    def want(e):
        t, u = e[S('t')], e[S('u')]
        return ('return', t in ('', 'aggregated', 'per_asset') and
                (t == '') == (u == ''))
    for cat in ('buildings', 'population'):
        model(ctx, eng, 'area', '%s, %s' % (con, cat),
              'harness.exposure_valid', [S('t'), S('u'), K(cat)],
              [{S('t'): t, S('u'): u} for t in (
                  '', 'aggregated', 'per_asset', 'odd', ' ')
               for u in ('', 'm2', '0', 'aggregated')],
              want, shown=con, cmp=lambda g, w: bool(g) == w)


def text(ctx, eng):
    odd = ('', 'x', 'y,z', ' ')
    con = R + 'Record.__str__'
    c = [S(n) for n in 'abc']
    model(ctx, eng, 'text', con, 'harness.record_text', [T(*c)],
          envs('abc', odd),
          lambda e: ('return', ','.join(e[x] for x in c)), shown=con)
    con = R + 'Table.__str__'
    for n in (0, 1, 2, 3):
        rows = L(*[T(K('k%d' % i), S('q%d' % i)) for i in range(n)])
        model(ctx, eng, 'text', '%s, %d records' % (con, n),
              'harness.table_text', [rows],
              envs(['q%d' % i for i in range(n)], odd),
              lambda e, n=n: ('return', '\n'.join(
                  'k%d,%s' % (i, e[S('q%d' % i)]) for i in range(n))),
              shown=con)


def classes(ctx, eng):
    con = R + 'MetaRecord'
    for name in ('fields', 'fieldnames', '_name2index', '_ntuple',
                 '_ordinal'):
        model(ctx, eng, 'class', '%s: reserved name %s' % (con, name),
              'harness.reserved', [K(name)], [{}],
              lambda e: ('return', 'NameError'), shown=con)
    model(ctx, eng, 'class', con + ': free name', 'harness.reserved',
          [K('row_number')], [{}],
          lambda e: ('return', ['a', 'row_number']), shown=con,
          cmp=lambda g, w: list(g) == w)
    model(ctx, eng, 'class', con + ': no primary key', 'harness.reserved',
          [K('none')], [{}], lambda e: ('return', 'AttributeError'),
          shown=con)


def views(ctx, eng):
    p, q = S('p'), S('q')

    def want(e):
        if 'bad' in (e[p], e[q]):
            return ('raise', ['ValueError'])
        return ('return', (e[p], e[q], '1'))
    con = R + 'Field.__get__'
    model(ctx, eng, 'accessor', con, 'harness.accessor', [T(p, q)],
          envs('pq', CELLS), want, shown=con,
          cmp=lambda g, w: tuple(g) == w)
    con = R + 'Record.to_node'
    model(ctx, eng, 'views', con, 'harness.plain_node', [T(p, q, p)],
          envs('pq', '1'), lambda e: ('raise', ['NotImplementedError']),
          shown=con)
    con = R + 'nodedict'
    for n in (0, 1, 2, 3):
        names = ['p%d' % i for i in range(n)]
        rows = L(*[T(S('p%d' % i), K('q%d' % i)) for i in range(n)])

        def want(e, n=n):
            d = {}
            for i in range(n):
                d[(e[S('p%d' % i)],)] = ('node', 'q%d' % i)
            return ('return', list(d.items()))
        model(ctx, eng, 'views', '%s, %d records' % (con, n),
              'harness.as_nodes', [rows],
              [dict(zip(map(S, names), 'xyz'[:n] if n else ''))] +
              [dict(zip(map(S, names), o)) for o in itertools.permutations(
                  ('c', 'a', 'b'), n)],
              want, shown=con,
              cmp=lambda g, w: [(tuple(k), tuple(v)) for k, v in g] == w)
    con = 'openquake.commonlib.converter.groupby'
    for n in (0, 1, 2, 3, 4):
        for names in (['a'], ['a', 'b'], ['b']):
            syms = [S('%s%d' % (x, i)) for i in range(n) for x in 'ab']
            rows = L(*[T(S('a%d' % i), S('b%d' % i), K('c%d' % i))
                       for i in range(n)])
            used = [S('%s%d' % (x, i)) for i in range(n) for x in names]

            def want(e, n=n, names=names):
                out = []
                for i in range(n):
                    k = [e[S('%s%d' % (x, i))] for x in names]
                    if out and out[-1][0] == k:
                        out[-1][1].append('c%d' % i)
                    else:
                        out.append((k, ['c%d' % i]))
                return ('return', out)
            few = []
            odd = ('x', 'y') if len(used) > 4 else (
                'x', 'X', 'x ', 'xx', '') if len(used) < 4 else (
                    'x', 'xx', 'x ')
            for v in itertools.product(odd, repeat=len(used)):
                d = dict((s, 'z%d' % j) for j, s in enumerate(syms))
                d.update(zip(used, v))
                few.append(d)
            model(ctx, eng, 'views', '%s, %d records by %s' % (
                con, n, ' '.join(names)), 'harness.groups_of',
                [rows, L(*map(K, names))], few, want, shown=con,
                cmp=lambda g, w: [(list(k), list(v)) for k, v in g] == w)


def sets(ctx, eng):
    con = R + 'TableSet'
    names = ['Rec', 'Kid', 'Duo']
    for sizes in itertools.product((0, 1, 2), repeat=3):
        arg = L(*map(K, sizes))
        full = [n for n, k in zip(names, sizes) if k]
        model(ctx, eng, 'set', '%s with %s records' % (con, sizes),
              'harness.set_views', [arg], [{}],
              lambda e: ('return', [full, 3, ['table' + n for n in names],
                                    True, 'Family']), shown=con,
              cmp=lambda g, w: lists(g) == w)
        if max(sizes) == 2:
            continue
        for start, stop in ((0, 1), (0, 2), (0, 3), (None, 2), (None, None),
                            (0, None), (0, -1), (-3, None), (-3, -1), (None, -1),
                            (-3, 2), (-9, 2), (-9, 9), (0, 9)):
            part = names[start:stop]
            model(ctx, eng, 'set', '%s with %s records, slice %s:%s' % (
                con, sizes, start, stop), 'harness.set_slice',
                [arg, K(start), K(stop)], [{}],
                lambda e: ('return', [
                    list(range(3))[start:stop], len(part),
                    [n for n in part if n in full], True, 3]), shown=con,
                cmp=lambda g, w: lists(g) == w)
    names = ['Rec', 'Tiny', 'Late', 'Pair']
    ends = (None, -9, -4, -3, -2, -1, 0, 1, 2, 3, 4, 9)
    for start, stop, step in itertools.product(ends, ends, (None, 2, -1)):
        part = list(range(4))[start:stop:step]
        if not part or step and (start, stop) not in (
                (None, None), (1, None), (-3, None), (3, 0), (0, -1)):
            continue
        model(ctx, eng, 'set', '%s of independent types, slice %s:%s:%s' % (
            con, start, stop, step), 'harness.mixed_slice',
            [K(start), K(stop), K(step)], [{}],
            lambda e: ('return', [
                part, len(part), [names[i] for i in part if i in (1, 3)],
                True, 4, [i in part for i in range(4)]]), shown=con,
            cmp=lambda g, w: lists(g) == w)
    names = ['Rec', 'Kid', 'Duo']
    model(ctx, eng, 'set', con + ', new', 'harness.set_fresh', [], [{}],
          lambda e: ('return', [names, [0, 1, 2], [0, 0, 0], [], False]),
          shown=con, cmp=lambda g, w: lists(g) == w)


def lists(x):
    return [lists(i) for i in x] if isinstance(x, (list, tuple)) else x
