"""C16: deep comparison applies the caller's settings at every depth."""
import itertools
from rules.common import *
from terms import K

G = 'openquake.commonlib.general.'
ALMOST = 'numpy.testing.assert_almost_equal'
LEAVES = [('x0', 'y0'), ('x1', 'y1')]


class Node(dict):
    pass


def build(shape, a, b):
    for c in shape:
        if c in 'ltg':
            a = [a, b]
        elif c == 's':
            a = Node([('class', 'Slotted'), ('s0', a), ('s1', b)])
        elif c == 'o':
            a = Node([('class', 'Node1'), ('k0', a), ('k1', b)])
        else:
            a = {'k0': a, 'k1': b}
    return a


VARIANTS = {
    'short': ['x0'], 'long': ['x0', 'x1'], 'empty': [], 'tuple':
    ['x0', 'x1'], 'key k0': {'k0': 'x0'}, 'key k1': {'k1': 'x0'},
    'keys': {'k0': 'x0', 'k1': 'x1'}, 'keys k1 k2': {'k1': 'x0', 'k2': 'x1'},
    'no key': {},
    'node1': Node([('class', 'Node1'), ('k0', 'x0')]),
    'node2': Node([('class', 'Node2'), ('k0', 'x0')]),
    'node1 k1': Node([('class', 'Node1'), ('k1', 'x0')]),
    'node1 k0 k1': Node([('class', 'Node1'), ('k0', 'x0'), ('k1', 'x1')]),
    'slots': Node([('class', 'Slotted'), ('s0', 'x0'), ('s1', 'x1')]),
    'other slots': Node([('class', 'Slotted2'), ('s0', 'x0'),
                         ('s1', 'x1')]),
    'leaf': 'x0'}
FAMILIES = [('short', 'long', 'empty', 'tuple'),
            ('key k0', 'key k1', 'keys', 'keys k1 k2', 'no key'),
            ('node1', 'node2', 'node1 k1', 'node1 k0 k1'),
            ('slots', 'other slots'), ('leaf',)]


def tr(v):
    """the other operand"""
    if isinstance(v, str):
        return v.replace('x', 'y')
    if isinstance(v, list):
        return [tr(x) for x in v]
    return type(v)([(k, w if k == 'class' else tr(w)) for k, w in v.items()])


def spec(a, b, excl, pairs):
    """the structural verdict; the leaf pairs that have to be compared"""
    if isinstance(a, str) and isinstance(b, str):
        pairs.add((a, b))
        return True
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        return all([spec(x, y, excl, pairs) for x, y in zip(a, b)])
    if isinstance(a, Node) != isinstance(b, Node):
        return False
    if isinstance(a, Node) and a['class'] != b['class']:
        return False
    if len(a) != len(b):       # excluded keys count in the length
        ka, kb = set(a) - excl, set(b) - excl
        if ka == kb:
            return None        # not specified
        return False
    ka, kb = set(a) - excl - {'class'}, set(b) - excl - {'class'}
    if ka != kb:
        return False
    return all([spec(a[k], b[k], excl, pairs) for k in ka])


def run(ctx):
    ctx.rule('settings', 'in every nesting of lists, tuples, dictionaries, '
             'objects, slotted objects and iterators the leaves that are '
             'compared are exactly those not under an excluded name, with '
             'the decimal precision of the caller (leaves closer than that '
             'agree)')
    ctx.rule('verdict', 'the outcome is (True, empty) when the compared '
             'leaves agree, (False, the message of the failure) otherwise; '
             'nothing else is raised')
    ctx.rule('keys', 'a difference in length, keys or class gives '
             '(False, message)')
    ctx.assumptions.append('numpy.testing.assert_almost_equal raises '
                           'AssertionError exactly when its arguments differ '
                           'at the given decimal')
    prims = {S(x + i): 'float' for x in 'xy' for i in '01'}
    text = {S(x + i): 'str' for x in 'xy' for i in '01'}
    depth = 3 if ctx.tier == 'thorough' else 2
    shapes = [()]
    for n in range(1, depth + 1):
        shapes += itertools.product('ltdosg', repeat=n)
    if depth == 2:
        shapes += [tuple(x) for x in ('ddd', 'ooo', 'sss', 'ldo', 'dlo',
                                      'sld', 'ods', 'lll', 'dol')]
    more = [(t + ' numbers', {k: t for k in prims})
            for t in ('int', 'long', 'complex')]
    for kind, pr in [('numbers', prims), ('texts', text)] + more:
        eng = ctx.engine(recursion=7, MAXSTATES=4000, prims=pr)
        eng2 = ctx.engine(recursion=7, MAXSTATES=4000, prims=pr)
        for sh in shapes:
            if kind != 'numbers' and len(sh) > 1:
                continue
            one(ctx, eng, kind, sh)
        if ' ' in kind:
            continue
        for fam in FAMILIES:
            for va, vb in itertools.product(fam, fam):
                for sh in ((), ('l',), ('d',), ('o',)):
                    if sh and kind == 'texts':
                        continue
                    vary(ctx, eng2, kind, sh, va, vb)
    defaults(ctx, ctx.engine(recursion=7, prims=prims))


def label(sh):
    names = dict(l='list', t='tuple', d='dict', o='object', s='slotted',
                 g='iterator')
    return ' of '.join(names[c] for c in reversed(sh)) or 'leaves'


def args_of(sh):
    return ('tuple',) + tuple(K(c) for c in sh)


def one(ctx, eng, kind, sh):
    con = G + 'deep_eq (%s, %s)' % (label(sh), kind)
    ps = paths(ctx, eng, 'settings', 'harness.deep',
               [args_of(sh)] + [S(x) for x in ('x0', 'x1', 'y0', 'y1', 'dec')]
               + [('list', (('one', S('e0')), ('one', S('e1'))))],
               shown=G + 'deep_eq')
    if ps is None:
        return
    a = build(sh, 'x0', 'x1')
    judge(ctx, con, kind, ps, a, tr(a),
          list(itertools.product(('k0', 'k1', 's0', 's1', 'zz'), repeat=2)),
          ('settings', 'verdict'))


def vary(ctx, eng, kind, sh, va, vb):
    con = G + 'deep_eq (%s holding "%s" and "%s", %s)' % (
        label(sh), va, vb, kind)
    ps = paths(ctx, eng, 'keys', 'harness.deep_vary',
               [args_of(sh), K(va), K(vb)] +
               [S(x) for x in ('x0', 'x1', 'y0', 'y1', 'dec')] +
               [('list', (('one', S('e0')), ('one', S('e1'))))],
               shown=G + 'deep_eq')
    if ps is None:
        return

    def wrapped(v):
        for c in sh:
            v = build(c, v, '1')
        return v
    judge(ctx, con, kind, ps, wrapped(VARIANTS[va]),
          wrapped(tr(VARIANTS[vb])),
          [('zz', 'zz'), ('k0', 'zz'), ('s1', 'k1')], ('keys', 'keys'))


def judge(ctx, con, kind, ps, a, b, excls, rules):
    bad, vbad, und, n = [], [], [], 0
    for ex in excls:
        pairs = set()
        want = spec(a, b, set(ex), pairs)
        if want is None:
            continue
        for state in itertools.product(
                ('same', 'far') if kind == 'texts' else
                ('same', 'close', 'far'), repeat=2):
            n += 1
            differing = {LEAVES[i] for i in (0, 1) if state[i] == 'far'}
            env = {S('e0'): ex[0], S('e1'): ex[1], S('dec'): 5}
            for i, (x, y) in enumerate(LEAVES):
                env[S(x)] = 't%d' % i if kind == 'texts' else 10. + i
                env[S(y)] = env[S(x)] if state[i] == 'same' else \
                    'u%d' % i if kind == 'texts' else 20. + i
            got = taken(ps, env, differing)
            if isinstance(got, str):
                und.append(got)
                continue
            expect = bool(want and not (pairs & differing))
            desc = 'excluding %s, leaves %s' % (
                list(ex), ' and '.join(state))
            for p, calls in got:
                if p.kind != 'return':
                    vbad.append('%s: %ss %s' % (desc, p.kind,
                                                pp(p.value)[:80]))
                    continue
                v = p.value
                if v[0] != 'tuple' or len(v) != 3:
                    und.append(pp(v)[:80])
                    continue
                if not isk(v[1]):
                    und.append(pp(v)[:80])
                    continue
                if kval(v[1]) is not expect:
                    (vbad if not expect and not calls else bad).append(
                        '%s: gives %s' % (desc, pp(v)[:80]))
                elif expect and v[2] != K(''):
                    vbad.append('%s: message %s' % (desc, pp(v[2])[:80]))
                elif not expect and v[2] in (K(''), NONE):
                    vbad.append('%s: no message' % desc)
                for c in calls:
                    if c[2] != S('dec'):
                        bad.append('%s: %s compared with decimal=%s' % (
                            desc, c[:2], pp(c[2])))
                    elif c[:2] not in pairs and want:
                        bad.append('%s: %s compared' % (desc, c[:2]))
                if expect and kind != 'texts' and calls and \
                        {c[:2] for c in calls} != pairs:
                    bad.append('%s: compares %s instead of %s' % (
                        desc, sorted({c[:2] for c in calls}), sorted(pairs)))
    for rule, x in zip(rules, (bad, vbad)):
        if x:
            ctx.violated(rule, con, '; '.join(x[:2]))
        elif und:
            ctx.unknown(rule, con, und[0])
        elif n:
            ctx.proved(rule, con, '%d paths, %d cases' % (len(ps), n))


def compared(e):
    kw = dict(e.kw)
    a = list(e.args)
    dec = kw.get('decimal', a[2] if len(a) > 2 else K(7))
    n = [x[1] if x[0] == 's' else pp(x) for x in a[:2]]
    return n[0], n[1], dec


def taken(ps, env, differing):
    """the paths that agree with an assignment and with the leaves that
    differ"""
    out = []
    for p in ps:
        calls, fails, ok = [], [], True
        for a, b in p.lits:
            if a[0] == 'raises':
                if pp(a[1]).find(ALMOST) < 0:
                    return 'condition %s' % pp(a)[:80]
                ok = ok and b      # it raises nothing but AssertionError
                continue
            try:
                if bool(evalt.lit(a, env)) != b:
                    ok = False
            except (evalt.Unsup, evalt.Raised):
                return 'condition %s' % pp(a)[:80]
        if not ok:
            continue
        for e in p.ev:
            if e.kind in ('call', 'failed') and e.fn == ('ext', ALMOST):
                if e.kind == 'call':
                    calls.append(compared(e))
                else:
                    fails.append(compared(e))
            elif e.kind == 'loop':
                return 'a loop that is not unrolled'
        for i, c in enumerate(calls):
            failed = bool(fails) and i == len(calls) - 1
            if failed != (c[:2] in differing):
                ok = False
        if ok:
            out.append((p, calls))
    return out or 'no path applies'


def defaults(ctx, eng):
    con = G + 'deep_eq (default settings)'
    ps = paths(ctx, eng, 'settings', 'harness.deep_defaults',
               [args_of('do')] + [S(x) for x in ('x0', 'x1', 'y0', 'y1')],
               shown=G + 'deep_eq')
    if ps is None:
        return
    bad, n = [], 0
    for p in ps:
        for e in p.ev:
            if e.kind == 'call' and e.fn == ('ext', ALMOST):
                n += 1
                if compared(e)[2] != K(7):
                    bad.append('decimal=%s' % pp(compared(e)[2]))
    if bad:
        ctx.violated('settings', con, bad[0] + ' instead of 7')
    elif not n:
        ctx.unknown('settings', con, 'no comparison found')
    else:
        ctx.proved('settings', con)
