"""C38: parallel and sequential aggregation give equal results."""
import itertools
from rules.common import *
from rules import c18
from rules.c18 import P, TASK, AGG, taken, strip, fold
from terms import K


def run(ctx):
    ctx.rule('sequential', 'in process, the aggregate is exactly the fold of '
             'the aggregation function over the results of the tasks, in the '
             'order of the arguments')
    ctx.rule('equal', 'in the pool, whatever the order in which the tasks '
             'complete, the aggregate is the same combination of the '
             'accumulator and the results of the tasks up to the '
             'associativity and commutativity of the aggregation')
    ctx.rule('values', 'concrete tasks: the results, whatever their values '
             'and their order, are listed in process in the order of the '
             'arguments and in the pool in the order of completion, each '
             'once; a failed task raises a RuntimeError in both; a manager '
             'can be used several times')
    ctx.assumptions.append('the process pool runs each submitted call once, '
                           'in any order, and as_completed gives each '
                           'future once, in any order')
    ctx.assumptions.append('OQ_NO_DISTRIBUTE does not change between the '
                           'submission and the aggregation')
    eng = ctx.engine(MAXSTATES=4000, opaque={P + 'no_distribute',
                                             P + 'check_mem_usage'})
    top = 4 if ctx.tier == 'thorough' else 3
    for n in range(top + 1):
        for order in itertools.permutations(range(n)):
            compare_(ctx, eng, 'map_reduce', 'task_ordered', n, 1, order)
    for n in (1, 2):
        for order in itertools.permutations(range(n)):
            compare_(ctx, eng, 'TaskManager, two rounds',
                     'task_rounds_ordered', n, 2, order)
    values(ctx)


ENV = {'os.environ.get': 'getenv', 'os.getenv': 'getenv'}
VALUES = [1, 0, '', 'b', 'a', None, 3, (), 2.5, False]


def argss(vals):
    return ('tuple',) + tuple(('tuple', term(v)) for v in vals)


def term(v):
    return ('tuple',) + tuple(map(term, v)) if isinstance(v, tuple) else K(v)


def values(ctx):
    eng = ctx.engine(MAXSTATES=4000, stubs=ENV, opaque={P + 'check_mem_usage'})
    cases = [(), (0,), (None,), (2, 1, 3), (3, 1, 2), ('b', '', 'a'),
             (0, 0, 1), (1, None, 0), ((), 'x', 2.5), (5, 5, 5),
             tuple(range(12, 0, -1)), (True, False, 1)]
    for vals in cases:
        n = len(vals)
        for sw, what in (('1', 'in process'), (None, 'in the pool')):
            orders = [tuple(range(n)), tuple(range(n))[::-1]]
            if n > 2:
                orders.append((1, 2, 0) + tuple(range(3, n)))
            for order in orders[:1] if sw else sorted(set(orders)):
                con = P + 'map_reduce, results %r, %s%s' % (
                    vals, what, '' if sw else ' completing in the order %s' %
                    (order,))
                want = [vals[i] for i in order] if not sw else list(vals)
                a = [argss(vals), ('tuple',) + tuple(map(K, order)), K(sw)]
                model(ctx, eng, 'values', con, 'harness.task_values', a, [{}],
                      lambda e, want=want: ('return', want),
                      shown=P + 'TaskManager.aggregate_results', cmp=same)
                fails = [v for v in vals if not v]
                if not fails and 'x' not in vals:
                    continue
                model(ctx, eng, 'values', con + ', the false ones failing',
                      'harness.task_failures', a, [{}],
                      lambda e: ('raise', ['RuntimeError']),
                      shown=P + 'TaskManager.aggregate_results')
    for rounds in (((1, 2), ()), ((), (2, 0)), ((2, 1), (0, 3), (4, '')),
                   ((1,), (), (2,))):
        n = max(map(len, rounds))
        for sw, what in (('1', 'in process'), (None, 'in the pool')):
            if not sw and len(set(map(len, rounds))) > 1:
                order = ()         # the model's own, the last first
            else:
                order = tuple(range(n))[::-1]
            want = [['acc'] + list(r if sw else r[::-1]) for r in rounds]
            model(ctx, eng, 'values', P + 'TaskManager, rounds %r, %s' % (
                rounds, what), 'harness.task_manager', [
                    ('tuple',) + tuple(map(argss, rounds)),
                    ('tuple',) + tuple(map(K, order)), K(sw)], [{}],
                  lambda e, want=want: ('return', want),
                  shown=P + 'TaskManager.aggregate_results', cmp=same)


def same(got, want):
    return norm(got) == norm(want)


def norm(v):
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return type(v).__name__, v


def leaves(t):
    """what the aggregation combines; None if something else happens"""
    if t[0] == 'call' and t[1] == AGG:
        if len(t[2]) != 2 or t[3]:
            return None
        a, b = leaves(t[2][0]), leaves(t[2][1])
        return None if a is None or b is None else sorted(a + b, key=repr)
    return [t]


def compare_(ctx, eng, what, fn, n, rounds, order):
    args = [('tuple',) + tuple(S('a%d_%d' % (i, j)) for j in range(i % 2 + 1))
            for i in range(n * rounds)]
    con = P + '%s (%d tasks, completing in the order %s)' % (
        what, n, ' '.join(map(str, order)) or 'none')
    given = [('tuple',) + tuple(args[n * r:n * r + n])
             for r in range(rounds)] + [
        AGG, S('acc'), ('tuple',) + tuple(map(K, order))]
    ps = paths(ctx, eng, 'equal', 'harness.' + fn, given,
               shown=P + 'TaskManager.aggregate_results')
    if ps is None:
        return
    ctx.saw(P + 'map_reduce', P + 'TaskManager.submit',
            P + 'TaskManager.aggregate_result_set')
    calls = [a[1:] for a in args]
    r1 = fold(S('acc'), calls[:n])
    want = r1 if rounds == 1 else ('tuple', r1, fold(r1, calls[n:]))
    for rule, nd in (('sequential', True), ('equal', False)):
        got = taken(ps, nd, [])
        if isinstance(got, str):
            ctx.unknown(rule, con, got)
            continue
        bad, und = [], []
        for p, called in got:
            if p.kind != 'return':
                bad.append('%ss %s' % (p.kind, pp(p.value)[:120]))
                continue
            v = strip(p.value)
            if v == want:
                continue
            ok = False
            if not nd:
                parts = [v] if rounds == 1 else list(v[1:]) \
                    if v[0] == 'tuple' else []
                wants = [want] if rounds == 1 else list(want[1:])
                ok = len(parts) == len(wants) and all(
                    leaves(a) is not None and leaves(a) == leaves(b)
                    for a, b in zip(parts, wants))
            if not ok:
                (bad if c18.known(v) else und).append(
                    'gives %s instead of %s' % (pp(v)[:160], pp(want)[:160]))
        if bad:
            ctx.violated(rule, con, bad[0])
        elif und:
            ctx.unknown(rule, con, und[0])
        else:
            ctx.proved(rule, con, '%d paths' % len(got))
