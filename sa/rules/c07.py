"""C07: sequence equality is length-aware, total and consistent."""
import itertools
import evalt
from rules.common import *
from terms import K

R = 'openquake.commonlib.record.'
G = 'openquake.commonlib.general.'


def syms(x, n):
    return [S('%s%d' % (x, i)) for i in range(n)]


def tup(xs):
    return ('tuple',) + tuple(xs)


def lst(xs):
    return ('list', tuple(('one', x) for x in xs))


def run(ctx):
    ctx.rule('equality', 'for lengths that agree and differ (0 included) and '
             'every pattern of equal, different, permuted and look-alike items, == is True exactly '
             'when lengths and items agree, != is its negation, and no path '
             'raises')
    eng = ctx.engine(recursion=4)
    H = 'harness.'
    cells = syms('x', 3)
    for n in range(5):
        for mk, what in ((tup, 'tuple'), (lst, 'list')):
            ys = syms('y', n)
            decide(ctx, eng, R + 'Record.__eq__/__ne__', '%s of length %d' % (
                what, n), H + 'cmp_rec', [tup(cells), mk(ys)], cells, ys)
    for cls, n in (('Rec', 3), ('Kid', 2), ('Sub', 4)):
        ys = syms('y', n)
        decide(ctx, eng, R + 'Record.__eq__/__ne__', cls, H + 'cmp_recs',
               [tup(cells), ('cls', eng.cid(H + cls)), tup(ys)], cells, ys)
    for n, m in itertools.product(range(3), range(3)):
        rows = [syms('x%d_' % i, 3) for i in range(n)]
        rows2 = [syms('y%d_' % i, 3) for i in range(m)]
        for fn in ('cmp_tab', 'cmp_tab_list'):
            decide(ctx, eng, R + 'Table.__eq__/__ne__', '%d records %s %d' % (
                n, fn, m), H + fn, [tup(map(tup, rows)),
                                    tup(map(tup, rows2))], rows, rows2)
    for n, m in itertools.product(range(4), range(4)):
        xs, ys = syms('x', n), syms('y', m)
        decide(ctx, eng, G + 'WeightedSequence.__eq__/__ne__',
               '%d items and %d items' % (n, m), H + 'cmp_ws',
               [tup(xs), tup(syms('w', n)), tup(ys), tup(syms('v', m))],
               xs, ys)
        decide(ctx, eng, G + 'WeightedSequence.__eq__/__ne__',
               '%d items and a list of %d' % (n, m), H + 'cmp_ws_list',
               [tup(xs), tup(syms('w', n)), lst(ys)], xs, ys)


def flat(xs):
    for x in xs:
        if isinstance(x, list):
            yield from flat(x)
        else:
            yield x


def decide(ctx, eng, where_, what, fn, args, xs, ys):
    con = '%s with %s' % (where_, what)
    ps = paths(ctx, eng, 'equality', fn, args, shown=where_)
    if ps is None:
        return
    fx, fy = list(flat(xs)), list(flat(ys))
    bad, und, n = [], [], 0
    for vx, vy in assignments(xs, ys):
        env = dict(zip(fx, vx))
        env.update(zip(fy, vy))
        same = [x == y for x, y in zip(vx, vy)]
        want = len(xs) == len(ys) and all(same)
        for extra in range(2):
            # weights: equal or different, never relevant
            for i in range(4):
                env[S('w%d' % i)] = i + 1
                env[S('v%d' % i)] = i + 1 + extra
            sel = select(ps, env)
            if isinstance(sel, str):
                und.append(sel)
                continue
            for p in sel:
                n += 1
                if p.kind == 'raise':
                    bad.append('the comparison raises %s' %
                               evalt.excname(p.value))
                    continue
                try:
                    eq, ne = evalt.ev(p.value, env)
                except (evalt.Unsup, evalt.Raised, ValueError,
                        TypeError) as e:
                    und.append('value %s' % pp(p.value)[:100])
                    continue
                if not isinstance(eq, bool) or not isinstance(ne, bool):
                    bad.append('== gives %r and != gives %r' % (eq, ne))
                elif eq != want:
                    bad.append('lengths %d and %d, items %r and %r: == is %s'
                               % (len(xs), len(ys), vx, vy, eq))
                elif ne == want:
                    bad.append('lengths %d and %d, items %r and %r: != is %s'
                               % (len(xs), len(ys), vx, vy, ne))
    if bad:
        ctx.violated('equality', con, '; '.join(bad[:3]))
    elif und:
        ctx.unknown('equality', con, und[0])
    else:
        ctx.proved('equality', con, '%d patterns' % n)


def assignments(xs, ys):
    """values of the items of both sides: every pattern of equal and
    different positions, the same items in another order, and items that
    only print alike"""
    rows = bool(xs and isinstance(xs[0], list) or
                ys and isinstance(ys[0], list))
    nx, ny = len(list(flat(xs))), len(list(flat(ys)))
    n = min(nx, ny)
    base = ['%d' % i for i in range(max(nx, ny))]
    other = ['1%02d' % i for i in range(max(nx, ny))]
    out = []

    def add(vx, vy):
        if (vx, vy) not in out:
            out.append((list(vx), list(vy)))
    for pattern in patterns(n):
        add(base[:nx], [base[i] if i < n and pattern[i] else other[i]
                        for i in range(ny)])
    w = len(xs[0]) if rows and xs else len(ys[0]) if rows and ys else 1
    for perm in itertools.permutations(range(ny // w)):
        p = [i * w + j for i in perm for j in range(w)]
        add(base[:nx], [base[i] for i in p])
    if not rows:
        if n <= 2:
            for vx in itertools.product(('0', '1', '', 0), repeat=nx):
                for vy in itertools.product(('0', '1', '', 0), repeat=ny):
                    add(vx, vy)
        else:
            for i in range(n):
                for j in range(n):
                    # a repeated item, on one side or on both
                    vx = [base[j] if k == i else base[k] for k in range(nx)]
                    vy = [base[j] if k == i else base[k] for k in range(ny)]
                    add(vx, vy)
                    add(base[:nx], vy)
                    add(vx, base[:ny])
        for i in range(n):
            # other values of the same text, number or case
            for u, v in (('7', 7), ('7', '7.0'), ('7', ' 7'), ('x', 'X'),
                         ('', None), ('', '0'), ('x', 'xy')):
                for a, b in ((u, v), (v, u)):
                    add([a if k == i else base[k] for k in range(nx)],
                        [b if k == i else base[k] for k in range(ny)])
    return out


def patterns(n):
    if n <= 4:
        return list(itertools.product((True, False), repeat=n))
    out = [(True,) * n, (False,) * n]
    for i in range(n):
        out.append(tuple(j != i for j in range(n)))
        out.append(tuple(j == i for j in range(n)))
    return out
