"""C19: one faithful pickle per object, in order."""
import itertools
from rules.common import *
from terms import K

P = 'openquake.commonlib.parallel.'
DUMPS = ('ext', 'cPickle.dumps'), ('ext', 'pickle.dumps')
LOADS = ('ext', 'cPickle.loads'), ('ext', 'pickle.loads')


def ident(x):
    return ('call', ('ext', '__builtin__.id'), (x,), ())


def run(ctx):
    ctx.rule('order', 'for every pattern of identical, equal and already '
             'pickled objects the result has one entry per element, in '
             'order: the element itself if already pickled, otherwise a '
             'pickle made of that very element')
    ctx.rule('once', 'the same object is pickled once, different objects '
             'never share a pickle')
    ctx.rule('alive', 'objects recognised by id() stay referenced while '
             'their id is in use, also when they come from an iterator')
    ctx.rule('bytes', 'unpickling loads the bytes dumped from the object')
    ctx.rule('size', 'the length of a pickled object is the number of its '
             'bytes, and its representation shows its class and its size')
    eng = ctx.engine(MAXSTATES=3000)
    for n in range(4):
        xs = [S('x%d' % i) for i in range(n)]
        ps = paths(ctx, eng, 'order', 'harness.pickles',
                   [('tuple',) + tuple(xs)], shown=P + 'pickle_sequence')
        if ps is not None:
            judge(ctx, ps, P + 'pickle_sequence (%d objects)' % n, xs)
        if n:
            made = [('call', ('ext', 'opaque_casts.casta'), (x,), ())
                    for x in xs]
            con = P + 'pickle_sequence (iterator over %d temporaries)' % n
            ps = paths(ctx, eng, 'alive', 'harness.pickles_gen',
                       [('tuple',) + tuple(xs)],
                       shown=P + 'pickle_sequence')
            if ps is not None:
                judge(ctx, ps, con, made)
                alive(ctx, ps, con, made)
    con = P + 'Pickled.unpickle'
    drive(ctx, eng, 'bytes', con, 'harness.unpickled', [S('x')], loaded,
          shown=con)
    eng = ctx.engine(stubs={m + 'dumps': 'dumps'
                            for m in ('pickle.', 'cPickle.')})
    names = {'text': 'str', 'record': 'Rec'}
    for kind in sorted(names):
        for n in (1, 10, 1023, 1024, 1025, 2048, 5000, 10240):
            text = '<Pickled %s %dK>' % (names[kind], n // 1024)
            con = P + 'Pickled'
            model(ctx, eng, 'size', '%s, a %s of %d bytes' % (con, kind, n),
                  'harness.pickled_size', [K(kind), K(n)], [{}],
                  lambda e: ('return', (n, text, n, text)), shown=con,
                  cmp=lambda g, w: g[0] == g[2] == n and g[1] == g[3] and
                  names[kind] in g[1] and str(n // 1024) in g[1])


def pickle_of(v):
    """what a value is a pickle of"""
    if v[0] == 'obj' and v[1].endswith('Pickled'):
        pik = attrs(v).get('pik')
        if pik and pik[0] == 'call' and pik[1] in DUMPS:
            return pik[2][0]
    return None


class Tok(object):
    """an object: identity and value are different things"""
    def __init__(self, ident, value):
        self.ident = ident
        self.value = value

    def __eq__(self, other):
        return isinstance(other, Tok) and self.value == other.value

    def __hash__(self):
        return hash(self.value)


def same_look(ps, xs, env):
    """all objects have the same class, hash and text"""
    look = ('hash', 'repr', 'str', 'type')
    for p in ps:
        for t in [t for a, b in p.lits for t in subterms(a)]:
            if t[0] == 'attr' and t[1] in xs:
                env[t] = t[2]
            elif t[0] == 'attr' and t[1] in env and t not in env:
                env[t] = t[2]
            elif t[0] == 'call' and t[1][0] == 'ext' and t[2] and \
                    t[2][0] in xs and t[1][1].split('.')[-1] in look:
                env[strip(t)] = env[t] = t[1][1]


def judge(ctx, ps, con, xs):
    n = len(xs)
    bad, obad, und, cases = [], [], [], 0
    for part, equal in itertools.product(partitions(n), (False, True)):
        for picks in itertools.product((False, True), repeat=len(set(part))):
            env = {}
            for x, k in zip(xs, part):
                env[x] = Tok(k, 0 if equal else k)
                env[ident(x)] = 1000 + k
                env[('isinst', x, P + 'Pickled')] = picks[k]
            same_look(ps, xs, env)
            sel = select(ps, env)
            cases += 1
            desc = '%sobjects %s, already pickled %s' % (
                'equal but distinct ' if equal else '', list(part), [
                    k for k in range(len(picks)) if picks[k]])
            if isinstance(sel, str):
                und.append(sel)
                continue
            for p in sel:
                if p.kind != 'return':
                    bad.append('%s: %ss %s' % (desc, p.kind,
                                               pp(p.value)[:80]))
                    continue
                vs = ones(p.value)
                if vs is None:
                    und.append(pp(p.value)[:80])
                    continue
                if len(vs) != n:
                    bad.append('%s: %d entries' % (desc, len(vs)))
                    continue
                for i, v in enumerate(vs):
                    src = pickle_of(v)
                    if picks[part[i]]:
                        if src is not None:
                            obad.append('%s: entry %d is pickled again' % (
                                desc, i))
                        elif strip(v) not in env:
                            und.append('entry %s' % pp(v)[:80])
                        elif env[strip(v)].ident != part[i]:
                            bad.append('%s: entry %d is %s' % (
                                desc, i, pp(v)))
                    elif src is None:
                        (bad if strip(v) in env else und).append(
                            '%s: entry %d is %s, not pickled' % (
                                desc, i, pp(v)[:80]))
                    elif strip(src) not in env:
                        und.append('pickle of %s' % pp(src)[:80])
                    elif env[strip(src)].ident != part[i]:
                        bad.append('%s: entry %d is the pickle of %s' % (
                            desc, i, pp(src)[:60]))
                made = [strip(e.args[0]) for e in p.ev if e.kind == 'call'
                        and e.fn in DUMPS]
                ids = [env[m].ident if m in env else m for m in made]
                if len(ids) != len(set(ids)):
                    obad.append('%s: %d pickles are made' % (desc, len(ids)))
    for rule, b in (('order', bad), ('once', obad)):
        if b:
            ctx.violated(rule, con, '; '.join(b[:2]))
        elif und:
            ctx.unknown(rule, con, und[0])
        else:
            ctx.proved(rule, con, '%d paths, %d cases' % (len(ps), cases))


def strip(t):
    if type(t) is not tuple:
        return t
    if t and t[0] == 'call' and len(t) > 4:
        t = t[:4]
    return tuple(strip(x) for x in t)


def alive(ctx, ps, con, made):
    bad, uses = [], 0
    for p in ps:
        if not any(t[0] == 'call' and t[1] == ('ext', '__builtin__.id')
                   for a, b in p.lits for t in subterms(a)) and len(made) > 1:
            continue
        uses += 1
        born, work = [], None
        for i, e in enumerate(p.ev):
            if e.kind == 'call' and e.fn == ('ext', 'opaque_casts.casta'):
                born.append(i)
            elif e.kind == 'call' and work is None:
                work = i
        if work is None or not born or work > born[-1]:
            continue           # all elements exist before the first use
        held = set()
        for o in p.st.heap.values():
            if o.kind in ('list', 'set', 'dict', 'tuplist'):
                for s in o.segs:
                    for v in s[1:]:
                        if type(v) is tuple:
                            held.add(strip(v))
                            if v and v[0] == 'tuple':
                                held.update(strip(x) for x in v[1:])
        for m in made[:-1]:
            if m not in held and not released(p, m):
                bad.append('%s may be freed while its id is a key: the id '
                           'can be taken by a later object' % pp(m))
    if bad:
        ctx.violated('alive', con, bad[0])
    else:
        ctx.proved('alive', con, '%d paths use id()' % uses)


def released(p, m):
    """the path does not keep the id of this object"""
    k = ident(m)
    for o in p.st.heap.values():
        for s in o.segs or ():
            if any(type(v) is tuple and k in set(subterms(strip(v)))
                   for v in s[1:]):
                return False
    return True


def loaded(p):
    v = p.value
    if p.kind != 'return':
        return '%ss %s' % (p.kind, pp(v)[:80])
    if v[0] == 'call' and v[1] in LOADS:
        d = v[2][0]
        if d[0] == 'call' and d[1] in DUMPS:
            if d[2][0] != S('x') and not plain(d[2][0]):
                return None
            return True if d[2][0] == S('x') else 'unpickles %s' % pp(
                d[2][0])[:80]
    if isk(v) or v[0] == 'call' and v[1] in DUMPS:
        return 'gives %s' % pp(v)
    return None
