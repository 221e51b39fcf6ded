"""C18: no task result and no task failure is lost or counted twice."""
import itertools
from rules.common import *
from terms import K

P = 'openquake.commonlib.parallel.'
TASK = ('ext', 'opaque_fn.weigh')
AGG = S('agg')


def run(ctx):
    ctx.rule('safely_call', 'the summary of safely_call has no raising path '
             '(without pickling): (result, None) when the function returns, '
             '(text with the traceback, exception class) when it raises; '
             'pickled arguments are unpickled, the pair is pickled')
    ctx.rule('submit', 'each submitted call leaves one entry in the results, '
             'with its own arguments, in order')
    ctx.rule('fold', 'the aggregate is the fold of the aggregation function '
             'over each result exactly once from the given accumulator; the '
             'results are dropped afterwards')
    ctx.rule('failure', 'when some task failed an error carrying its message '
             'is raised')
    ctx.rule('wait', 'wait returns the number of tasks, in process and in '
             'the pool')
    ctx.rule('progress', 'the progress generator can be advanced once per '
             'result after the first time, whatever the number of tasks')
    ctx.rule('switch', 'distribution is disabled by 1, true, yes only')
    ctx.assumptions.append('the process pool runs each submitted call once '
                           'and as_completed gives each future once, in an '
                           'order modelled by the reversed one')
    ctx.assumptions.append('OQ_NO_DISTRIBUTE does not change between the '
                           'submission and the aggregation')
    safely(ctx)
    eng = ctx.engine(MAXSTATES=4000, opaque={P + 'no_distribute',
                                             P + 'check_mem_usage'})
    top = 4 if ctx.tier == 'thorough' else 3
    for n in range(top):
        for what, fn, rounds in (('map_reduce', 'task_map_reduce', 1),
                                 ('TaskManager, two rounds', 'task_rounds',
                                  2)):
            if rounds == 2 and n > 2:
                continue
            reduce_(ctx, eng, what, fn, n, rounds)
        wait(ctx, eng, n)
    submit(ctx, eng)
    progress(ctx)
    switch(ctx)


def safely(ctx):
    eng = ctx.engine(strict_exc=True)
    con = P + 'safely_call'
    for pickle in (FALSE, TRUE):
        for n in (0, 1, 2):
            args = [S('a%d' % i) for i in range(n)]
            ps = paths(ctx, eng, 'safely_call', con,
                       [S('f'), ('tuple',) + tuple(args), pickle])
            if ps is None:
                return
            bad, und, kinds = [], [], set()
            want = [('call', ('attr', a, 'unpickle'), (), ()) for a in args] \
                if pickle == TRUE else args
            for p in ps:
                failed = [e for e in p.ev if e.kind == 'failed']
                calls = [e for e in p.ev if e.kind == 'call'
                         and e.fn == S('f')]
                if failed and failed[-1].fn != S('f') and p.kind == 'raise':
                    if pickle == TRUE:
                        continue       # pickling itself fails
                if len(calls) != 1:
                    (bad if calls or not failed else und).append(
                        'the function is called %d times' % len(calls))
                    continue
                if list(calls[0].args) != want:
                    bad.append('the function is called with %s' % [
                        pp(a) for a in calls[0].args])
                if p.kind != 'return':
                    bad.append('%s %s propagates' % (
                        p.kind, pp(p.value)[:80]))
                    continue
                v = p.value
                if pickle == TRUE:
                    v = unpickle(v)
                    if v is None:
                        bad.append('the result is not pickled: %s' %
                                   pp(p.value)[:80])
                        continue
                if v[0] != 'tuple' or len(v) != 3:
                    und.append('returns %s' % pp(v)[:80])
                    continue
                if any(e.fn == S('f') for e in failed):
                    kinds.add('failed')
                    r = error_pair(v)
                    if r:
                        bad.append(r)
                else:
                    kinds.add('ok')
                    if v[1:] != (calls[0].res, NONE):
                        bad.append('returns %s for a call that works' %
                                   pp(v)[:80])
            c = '%s (%d arguments%s)' % (con, n, ', pickled'
                                         if pickle == TRUE else '')
            if bad:
                ctx.violated('safely_call', c, bad[0])
            elif und or kinds != {'ok', 'failed'}:
                ctx.unknown('safely_call', c, str(und or kinds))
            else:
                ctx.proved('safely_call', c, '%d paths' % len(ps))


def unpickle(v):
    if v[0] == 'obj':
        pik = attrs(v).get('pik')
        if pik and pik[0] == 'call' and pik[1] == ('ext', 'cPickle.dumps'):
            return pik[2][0]
    return None


def error_pair(v):
    """what is wrong with the pair of a failed call"""
    text, cls = v[1], v[2]
    if isk(text):
        return 'a failed call gives the message %s' % pp(text)
    if isk(cls):
        return 'a failed call gives the class %s' % pp(cls)
    exts = {t[1] for t in subterms(text) if t[0] == 'ext'}
    if not any(e.startswith('traceback.') for e in exts):
        return 'a failed call gives %s, without traceback' % pp(text)[:80]
    return None


def pair_cases(n):
    args = [('tuple',) + tuple(S('a%d_%d' % (i, j)) for j in range(i % 3))
            for i in range(n)]
    return args


def taken(ps, nd, fails):
    """the paths of a mode (in process or not) and a set of failing tasks"""
    out = []
    for p in ps:
        ok = True
        for a, b in p.lits:
            if a[0] == 'truth' and any(
                    t[0] == 'call' and 'no_distribute' in pp(t[1])
                    for t in [a[1]]):
                ok = ok and b == nd
            elif a[0] in ('truth', 'isnone') and 'sys.exc_info' in pp(a[1]):
                ok = ok and b == (a[0] == 'truth')
            elif a[0] in ('truth', 'isnone') and a[1][0] == 'call' and \
                    a[1][1] == TASK:
                ok = ok and b == (a[0] == 'truth')
            elif a[0] == 'raises':
                ok = None
            elif ok:
                ok = None if not any('no_distribute' in pp(x[0]) for x in
                                     p.lits) else ok and None
        if ok is False:
            continue
        if ok is None:
            # conditions of the other mode show up with a mixed setting
            if mixed(p, nd):
                continue
            return 'condition %s' % pplits(p.lits)[-200:]
        calls = [e.args for e in p.ev if e.kind == 'call' and e.fn == TASK]
        bad = [e.args for e in p.ev if e.kind == 'failed' and e.fn == TASK]
        if any(e.kind == 'failed' and e.fn != TASK for e in p.ev):
            continue           # the caller's function fails
        if any(c in fails for c in calls if c not in bad) or \
                any(c not in fails for c in bad):
            continue
        out.append((p, calls))
    return out or 'no path applies'


def mixed(p, nd):
    return any(a[0] == 'truth' and 'no_distribute' in pp(a[1]) and b != nd
               for a, b in p.lits)


def reduce_(ctx, eng, what, fn, n, rounds):
    args = [('tuple',) + tuple(S('a%d_%d' % (i, j)) for j in range(i + 1))
            for i in range(n * rounds)]
    con = P + '%s (%d tasks)' % (what, n)
    if rounds == 1:
        given = [('tuple',) + tuple(args), AGG, S('acc')]
    else:
        given = [('tuple',) + tuple(args[:n]), ('tuple',) + tuple(args[n:]),
                 AGG, S('acc')]
    ps = paths(ctx, eng, 'fold', 'harness.' + fn, given,
               shown=P + 'TaskManager.aggregate_results')
    if ps is None:
        return
    ctx.saw(P + 'map_reduce', P + 'TaskManager.submit',
            P + 'TaskManager.aggregate_result_set', P + 'log_percent_gen')
    bad, fbad, und, cases = [], [], [], 0
    calls_of = [a[1:] for a in args]
    wrong = [e.args for p in ps for e in p.ev if e.kind == 'call'
             and e.fn == TASK and e.args not in calls_of]
    if wrong:
        ctx.violated('fold', con, 'the task is called with %s' % [
            pp(x)[:60] for x in wrong[0]])
        return
    raw = [t for p in ps for a, b in p.lits for t in subterms(a)
           if t[0] == 'item' and t[1][0] == 'call' and t[1][1] == TASK]
    if raw:
        ctx.violated('failure', con, 'the result of the task itself, not of '
                     'safely_call, is taken for a pair: %s' % pp(raw[0]))
        return
    for nd in (True, False):
        for k in range(2 ** len(args)):
            fails = [c for i, c in enumerate(calls_of) if k >> i & 1]
            got = taken(ps, nd, fails)
            if isinstance(got, str):
                und.append(got)
                continue
            cases += 1
            desc = '%s, failing tasks %s' % (
                'in process' if nd else 'in the pool',
                [i for i in range(len(args)) if k >> i & 1])
            for p, calls in got:
                if p.kind == 'raise':
                    if not fails:
                        bad.append('%s: raises %s' % (desc,
                                                      pp(p.value)[:100]))
                        continue
                    v = p.value
                    a = v[2] if v[0] == 'excinst' else ('tuple',)
                    if 'traceback' not in pp(a):
                        (fbad if isk(a) or len(a) == 1 or all(
                            isk(x) for x in a[1:]) else und).append(
                            '%s: raises %s without the message' % (
                                desc, pp(v)[:100]))
                    continue
                if fails:
                    fbad.append('%s: returns %s' % (desc, pp(p.value)[:100]))
                    continue
                if not folded(p.value, calls_of, n, rounds):
                    r = bad if known(p.value) else und
                    r.append('%s: gives %s' % (desc, pp(p.value)[:150]))
    for rule, b in (('fold', bad), ('failure', fbad)):
        if b:
            ctx.violated(rule, con, '; '.join(b[:2]))
        elif und:
            ctx.unknown(rule, con, und[0])
        else:
            ctx.proved(rule, con, '%d paths, %d cases' % (len(ps), cases))


def known(t):
    """made of the task results, the accumulator and the aggregation"""
    if type(t) is not tuple or not t:
        return True
    if t[0] == 'call':
        return (t[1] in (TASK, AGG)) and all(known(x) for x in t[2])
    if t[0] in ('k', 's') or t in (TASK, AGG):
        return True
    if t[0] in ('tuple', 'list', 'one'):
        return all(known(x) for x in t[1:])
    return False


def strip(t):
    if type(t) is not tuple:
        return t
    if t and t[0] == 'call' and len(t) > 4:
        t = t[:4]
    return tuple(strip(x) for x in t)


def fold(acc, calls):
    for c in calls:
        acc = ('call', AGG, (acc, ('call', TASK, tuple(c), ())), ())
    return acc


def folded(v, calls, n, rounds):
    v = strip(v)
    if rounds == 1:
        return any(v == fold(S('acc'), o) for o in
                   itertools.permutations(calls))
    for o in itertools.permutations(calls[:n]):
        r1 = fold(S('acc'), o)
        for o2 in itertools.permutations(calls[n:]):
            if v == ('tuple', r1, fold(r1, o2)):
                return True
    return False


def wait(ctx, eng, n):
    con = P + 'TaskManager.wait (%d tasks)' % n
    args = [('tuple', S('a%d' % i)) for i in range(n)]
    ps = paths(ctx, eng, 'wait', 'harness.task_wait', [
        ('tuple',) + tuple(args)], shown=P + 'TaskManager.wait')
    if ps is None:
        return
    bad, und = [], []
    for nd in (True, False):
        got = taken(ps, nd, [])
        if isinstance(got, str):
            und.append(got)
            continue
        for p, calls in got:
            if p.kind != 'return':
                bad.append('%ss %s' % (p.kind, pp(p.value)[:80]))
            elif p.value != K(n):
                (bad if isk(p.value) or p.value[0] in (
                    'bound', 'bmeth', 'func') else und).append(
                    'returns %s' % pp(p.value)[:80])
    if bad:
        ctx.violated('wait', con, bad[0])
    elif und:
        ctx.unknown('wait', con, und[0])
    else:
        ctx.proved('wait', con)


def submit(ctx, eng):
    con = P + 'TaskManager.submit'
    args = [('tuple', S('a')), ('tuple', S('b'), S('c')), ('tuple',)]
    ps = paths(ctx, eng, 'submit', 'harness.task_submit', [
        ('tuple',) + tuple(args)], shown=con)
    if ps is None:
        return
    bad, und = [], []
    for nd in (True, False):
        got = taken(ps, nd, [])
        if isinstance(got, str):
            und.append(got)
            continue
        for p, calls in got:
            xs = ones(p.value) if p.kind == 'return' else None
            if xs is None:
                und.append(pp(p.value)[:80])
                continue
            if len(xs) != len(args):
                bad.append('%d entries for %d calls' % (len(xs), len(args)))
                continue
            for x, a in zip(xs, args):
                if not all(y in set(subterms(x)) for y in a[1:]):
                    bad.append('%s is the entry of the call with %s' % (
                        pp(x)[:100], pp(a)))
            if nd and [tuple(c) for c in calls] != [a[1:] for a in args]:
                bad.append('in process the task is called with %s' % [
                    [pp(x) for x in c] for c in calls])
    if bad:
        ctx.violated('submit', con, bad[0])
    elif und:
        ctx.unknown('submit', con, und[0])
    else:
        ctx.proved('submit', con)


def progress(ctx):
    eng = ctx.engine(MAXSTATES=2000)
    for n in list(range(8)) + [99, 100, 101, 250]:
        con = P + 'log_percent_gen (%d tasks)' % n

        def check(p):
            if p.kind != 'return':
                return '%ss %s' % (p.kind, pp(p.value)[:60])
            xs = ones(p.value)
            if xs is None:
                return None
            if len(xs) < n + 1:
                return 'can be advanced %d times only for %d results' % (
                    len(xs) - 1, n)
            return True
        drive(ctx, eng, 'progress', con, 'harness.progress',
              [K(n)], check, shown=P + 'log_percent_gen')


def switch(ctx):
    eng = ctx.engine()
    con = P + 'no_distribute'
    ps = paths(ctx, eng, 'switch', con, [])
    if ps is None:
        return
    bad, und = [], []
    for val in (None, '', '0', '1', 'true', 'True', 'YES', 'yes', 'no',
                'false', '11', 'tru', 'y'):
        env = {}
        for p in ps:
            for t in [x for a, b in p.lits for x in subterms(a)] + \
                    list(subterms(p.value)):
                if t[0] == 'call' and pp(t[1]) in ('os.environ.get',
                                                   'os.getenv'):
                    d = kval(t[2][1]) if len(t[2]) > 1 else None
                    env[t] = d if val is None else val
        got = outcomes(ps, env)
        if isinstance(got, str):
            und.append(got)
            continue
        want = (val or '').lower() in ('1', 'true', 'yes')
        for g in got:
            if g[0] != 'return' or bool(g[1]) != want:
                bad.append('OQ_NO_DISTRIBUTE=%r gives %s' % (val, g[1]))
    if bad:
        ctx.violated('switch', con, '; '.join(bad[:3]))
    elif und:
        ctx.unknown('switch', con, und[0])
    else:
        ctx.proved('switch', con)
