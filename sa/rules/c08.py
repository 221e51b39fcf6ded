"""C08: the declared record types form a closed schema."""
import evalt
from front import AnalysisBroken
from rules.common import *
from rules.c04 import recordtypes
from terms import K

R = 'openquake.commonlib.records'
V = 'openquake.commonlib.converter'


def text(t):
    return evalt.ev(t, {})


def run(ctx):
    ctx.rule('key', 'every unique key names distinct existing columns')
    ctx.rule('primary', 'every record type has a primary key, one of its '
             'unique keys')
    ctx.rule('foreign', 'every foreign key names distinct existing columns '
             'and refers to a unique key, with as many columns, of a type '
             'of the same model kind declared earlier')
    ctx.rule('kind', 'every record type belongs to an existing model kind')
    ctx.rule('order', 'the types of a kind are listed, each once, in the '
             'order of their declaration')
    for rev in (False, True):
        eng = ctx.engine(recursion=3, dictrev=rev)
        note = ', other order of the class dictionaries' if rev else ''
        types = [c for c in recordtypes(eng)
                 if eng.clsinfo[c]['module'] == R]
        if len(types) < 15:
            raise AnalysisBroken('only %d record types found' % len(types))
        types.sort(key=lambda c: eng.clsinfo[c]['node'].l)
        info = {}
        for c in types:
            ps = paths(ctx, eng, 'key', 'harness.schema', [('cls', c)],
                       shown=R + '.' + eng.classname(c))
            if not ps:
                continue
            if all(p.kind == 'raise' for p in ps):
                ctx.violated('key', R + '.' + eng.classname(c),
                             'its keys cannot be used: %s' % pp(
                                 ps[0].value)[:200])
                continue
            if len(ps) != 1 or ps[0].kind != 'return':
                ctx.unknown('key', R + '.' + eng.classname(c),
                            '%d paths: %s' % (len(ps), pp(ps[0].value)[:200]))
                continue
            info[c] = ps[0].value
        for c, v in info.items():
            one(ctx, eng, types, info, c, v, note)
        listing(ctx, eng, types, note)


def one(ctx, eng, types, info, c, v, note):
    con = '%s.%s%s' % (R, eng.classname(c), note)
    try:
        name, kind, cols, pkey = [text(x) for x in v[1:5]]
        uniq = [[text(x) for x in u[1:]] for u in ones(v[5])]
        fkeys = [([text(x) for x in f[1:6]], f[6]) for f in ones(v[6])]
    except (evalt.Unsup, TypeError) as e:
        ctx.unknown('key', con, 'not read: %s' % str(e)[:200])
        return

    def bad_columns(names):
        n = list(names)
        if not n:
            return 'no columns'
        if len(set(n)) < len(n):
            return 'the columns %s are not distinct' % ', '.join(n)
        missing = [x for x in n if x not in cols]
        if missing:
            return 'no column %s' % ', '.join(missing)

    bad = ['key %s: %s' % (u[0], bad_columns(u[1])) for u in uniq
           if bad_columns(u[1])] + [
        'key %s is not bound to the type' % u[0] for u in uniq if not u[2]]
    verdict(ctx, 'key', con, bad, '%d unique keys' % len(uniq))
    verdict(ctx, 'primary', con, [] if list(pkey) in [
        list(u[1]) for u in uniq] else ['pkey %s is not a unique key' % (
            pkey,)], 'pkey %s' % (pkey,))
    bad = []
    for (fname, names, bound, uname, unames), rt in fkeys:
        b = bad_columns(names)
        if b:
            bad.append('foreign key %s: %s' % (fname, b))
        if not bound:
            bad.append('foreign key %s is not bound to the type' % fname)
        if rt[0] != 'cls' or rt[1] not in info:
            bad.append('foreign key %s refers to %s' % (fname, pp(rt)[:80]))
            continue
        target = info[rt[1]]
        if types.index(rt[1]) >= types.index(c):
            bad.append('foreign key %s refers to %s, not declared before' % (
                fname, eng.classname(rt[1])))
        if text(target[2]) != kind:
            bad.append('foreign key %s refers to %s of kind %s' % (
                fname, eng.classname(rt[1]), text(target[2])))
        if [uname, list(unames)] not in [
                [text(u[1]), list(text(u[2]))] for u in ones(target[5])]:
            bad.append('foreign key %s refers to %s, not a unique key of %s' %
                       (fname, unames, eng.classname(rt[1])))
        if len(names) != len(unames):
            bad.append('foreign key %s has %d columns for a key of %d' % (
                fname, len(names), len(unames)))
    verdict(ctx, 'foreign', con, bad, '%d foreign keys' % len(fkeys))
    mc = [k for k, i in eng.clsinfo.items()
          if i['module'] == V and eng.classname(k) == kind]
    mc = mc[0] if mc else None
    ok = mc is not None and eng.cid(V + '.Converter') in eng.mro(
        eng.base, mc) and kind != 'Converter'
    base = any(k != c and c in eng.mro(eng.base, k) for k in types)
    verdict(ctx, 'kind', con, [] if ok or base and not ok else [
        'no model kind %s' % kind], 'kind %s' % kind)


def verdict(ctx, rule, con, bad, good):
    if bad:
        ctx.violated(rule, con, '; '.join(bad)[:600])
    else:
        ctx.proved(rule, con, good)


def listing(ctx, eng, types, note):
    ps = paths(ctx, eng, 'order', 'harness.kinds', [], shown=V)
    names = [text(x) for x in ones(ps[0].value)] if ps else []
    if len(names) < 6:
        raise AnalysisBroken('only %d model kinds found' % len(names))
    for n in sorted(set(names) - {'Converter'}):
        con = '%s.%s.recordtypes%s' % (V, n, note)
        ps = paths(ctx, eng, 'order', 'harness.kind_types', [K(n)],
                   shown=con)
        if not ps:
            continue
        want = [c for c in types if declared_kind(eng, c) == n]
        for p in ps:
            got = ones(p.value) if p.kind == 'return' else None
            if p.lits or got is None or any(x[0] != 'cls' for x in got):
                ctx.unknown('order', con, '%s %s' % (pp(p.value)[:200],
                                                     where(p)))
                break
            if [x[1] for x in got] != want:
                ctx.violated('order', con, 'lists %s instead of %s' % (
                    ', '.join(eng.classname(x[1]) for x in got),
                    ', '.join(eng.classname(c) for c in want)))
                break
        else:
            ctx.proved('order', con, '%d types' % len(want))


def declared_kind(eng, c):
    for k in eng.mro(eng.base, c):
        if not isinstance(k, tuple) and k in eng.clsinfo:
            v = eng.base.heap[k].attrs.get('convertername')
            if v is not None:
                return v[2] if v[0] == 'k' else None
