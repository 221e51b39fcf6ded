"""C03: a malformed cell is always reported, never a crash."""
import evalt
import regdfa
from rules import numrange
from rules.common import *

V = 'openquake.commonlib.valid.'
TEXT = S('text')
WORDS = ['', ' ', '  ', 'a', 'A', 'a b', 'TRUE', 'True', 'true', 'FALSE',
         'false', '\n', '\t', '\xe9', '_', '-', '.', 'PGA', 'SA(0.1)',
         'SA()', 'SA(', 'SA(1', 'SA(1.)', 'sa(0.1)', 'SA(0.1)(', '(', ')',
         'only', 'ab', 'abc', 'Per area', 'population', 'buildings',
         'POPULATION', 'None', '1 2 3', 'a,b', 'a\nb', '\x00']


def run(ctx):
    ctx.rule('valueerror', 'every path of a field validator that ends in a '
             'raise raises ValueError, and no operation of a path (integer '
             'formatting, division, conversion, indexing, dereference of an '
             'optional match) can raise anything else at a representative')
    ctx.rule('cast', 'on every path of Record.cast, for any outcome of the '
             'casts of the fields, the pair is (None, error listing exactly '
             'the failing columns in order) or (tuple of the casted values '
             'in order, None)')
    ctx.rule('agree', 'is_valid, to_tuple and find_invalid take the same '
             'decision as cast on every path')
    eng = ctx.engine(hazards=True, strict_none=True, strict_val=True)
    for shown, fn in validators(ctx, eng):
        validator(ctx, eng, shown, fn)
    casting(ctx)


def validators(ctx, eng):
    """the public validators of the module, the ones declared in the record
    types, and the ones built by its classes"""
    out = {}
    env = eng.base.envs[eng.modenv[V[:-1]]]
    for name in sorted(env):
        v = env[name]
        if name.startswith('_') or v[0] == 'mod':
            continue
        if v[0] == 'func' or v[0] == 'ref' and eng.base.heap[
                v[1]].kind == 'inst':
            try:
                fn = eng.require(V + name)
            except Exception:
                continue
            if v[0] == 'func':
                info = eng.funcs[v[1]]
                a = info.node.args
                need = len(a.args) - len(a.defaults)
                if need != 1:
                    continue
            out[V + name] = fn
    for h, shown in [('choice1', "Choice('only')"),
                     ('choice3', "Choice('ab', 'abc', 'Per area')"),
                     ('optpositive', 'NoneOr(positivefloat)'),
                     ('optimt', 'NoneOr(IMTstr)'),
                     ('floatrange', 'FloatRange(-10, 25.5)'),
                     ('regex', "Regex('[a-z]+$')")]:
        out[V + shown] = eng.require('harness.' + h)
    return sorted(out.items(), key=lambda kv: kv[0])


def strings(paths):
    out = set()
    for p in paths:
        for src in [a for a, b in p.lits] + [p.value]:
            for t in subterms(src):
                if isk(t) and t[1] == 'str':
                    w = t[2]
                    out.update([w, w.upper(), w.lower(), w + ' ', ' ' + w,
                                w.title()])
                if len(t) > 2 and t[0] == 'call' and t[1][0] == 'ext' and t[1][
                        1].startswith('re.') and isk(t[2][0]):
                    try:
                        d = regdfa.regex(t[2][0][2], t[1][1][3:])
                        out.update(w for w in d.cover()
                                   if all(ord(c) < 128 for c in w))
                    except Exception:
                        pass
    return out


def validator(ctx, eng, shown, fn):
    ps = paths(ctx, eng, 'valueerror', fn, [TEXT], shown=shown)
    if ps is None:
        return
    cs = numrange.constants(ps)
    words = set(WORDS) | strings(ps)
    words |= set(numrange.spellings(cs, True))
    words |= set(numrange.spellings(cs, False))
    bad = []
    for w in sorted(words):
        o = evalt.outcome(ps, {TEXT: w})
        name = None
        p = None
        if o[0] == 'raise':
            name, p = o[1], o[2]
        elif o[0] in ('return', 'term'):
            p = o[-1] if o[0] == 'return' else o[2]
        if p is not None:
            h = hazard(p, {TEXT: w})
            name = h or name
            if not name:
                h = argerror(p, {TEXT: w})
                name = h or name
            elif name == 'ValueError':
                name = argerror(p, {TEXT: w}) or name
        if name and name not in ('ValueError', 'UnicodeDecodeError',
                                 'UnicodeEncodeError', 'UnicodeError'):
            bad.append('%r raises %s' % (w, name))
    if bad:
        ctx.violated('valueerror', shown, '; '.join(bad[:6]))
        return
    odd = [p for p in ps if p.kind == 'raise' and evalt.excname(p.value)
           not in ('ValueError', 'UnicodeDecodeError')]
    if odd:
        ctx.unknown('valueerror', shown, '%s %s' % (
            pp(odd[0].value)[:100], where(odd[0])))
    else:
        ctx.proved('valueerror', shown, '%d paths, %d representatives' % (
            len(ps), len(words)))


def hazard(p, env):
    for e in p.ev:
        if e.kind != 'hazard':
            continue
        try:
            vals = [evalt.ev(t, env) for t in e.kw]
        except evalt.Raised:
            continue
        except evalt.Unsup:
            continue
        v = vals[0]
        if e.fn in ('intformat', 'intofloat') and isinstance(v, float):
            if v in (float('inf'), -float('inf')):
                return 'OverflowError'
        if e.fn == 'division' and v == 0:
            return 'ZeroDivisionError'
        if isinstance(e.fn, str) and e.fn.startswith('math.'):
            f = evalt.EXTS.get(e.fn)
            if f:
                try:
                    f(*vals)
                except OverflowError:
                    return 'OverflowError'
                except (ValueError, TypeError):
                    pass
    return None


def argerror(p, env):
    """an error while building the message of the exception"""
    v = p.value
    if p.kind != 'raise' or v[0] != 'excinst':
        return None
    try:
        evalt.ev(v[2], env)
    except evalt.Raised as e:
        return e.name
    except Exception:
        pass
    return None


# ------------------------------------------------------------- records
CELLS = [S('a'), S('b'), S('c')]
NAMES = ['a', 'b', 'c']


def castcall(i, cell):
    return ('call', ('ext', 'opaque_casts.cast' + NAMES[i]), (cell,), ())


def failing(p, cells):
    """indices of the columns whose cast failed on the path; None if the
    path is about an exception other than ValueError"""
    bad, other = failures(p)
    if other:
        return None
    out = []
    for i, c in enumerate(cells):
        if any(t[:4] == castcall(i, c)[:4] for t in bad):
            out.append(i)
    return out


def attempted(p, cells):
    calls = [e for e in p.ev if e.kind == 'call' and e.fn and
             e.fn[0] == 'ext' and e.fn[1].startswith('opaque_casts.')]
    seen = set()
    for e in calls:
        for i, c in enumerate(cells):
            if e.fn[1] == 'opaque_casts.cast' + NAMES[i] and \
                    tuple(e.kw and e.args or e.args) == (c,):
                seen.add(i)
    return seen


def errorcols(v):
    """the columns listed by a frozen InvalidRecord, or None"""
    a = attrs(v)
    if 'errorlist' not in a:
        return None
    els = ones(a['errorlist'])
    if els is None:
        return None
    out = []
    for e in els:
        pair = ones(e)
        if not pair or len(pair) != 2 or not isk(pair[0]):
            return None
        out.append(pair[0][2])
    return out


def isinvalid(v):
    return v[0] == 'obj' and v[1].endswith('.InvalidRecord')


def casting(ctx):
    eng = ctx.engine(recursion=3)
    Q = 'openquake.commonlib.record.'
    for fn, shown, check in [
            ('harness.rec_cast', Q + 'Record.cast', check_cast),
            ('harness.rec_to_tuple', Q + 'Record.to_tuple', check_tuple),
            ('harness.rec_is_valid', Q + 'Record.is_valid', check_valid),
            ('harness.rec_find', Q + 'find_invalid', check_find)]:
        rule = 'cast' if check is check_cast else 'agree'
        ps = paths(ctx, eng, rule, fn, CELLS, shown=shown)
        if ps is None:
            continue
        bad, und, n = [], [], 0
        for p in ps:
            f = failing(p, CELLS)
            if f is None:
                continue
            n += 1
            r = check(p, [NAMES[i] for i in f])
            if r is None:
                und.append(where(p))
            elif r is not True:
                bad.append('%s %s' % (r, where(p)))
        if bad:
            ctx.violated(rule, shown, '; '.join(bad[:3]))
        elif und or n < 2:
            ctx.unknown(rule, shown, '; '.join(und[:2]))
        else:
            ctx.proved(rule, shown, '%d paths over 3 columns' % n)


def check_cast(p, failed):
    if p.kind == 'raise':
        return 'cast raises %s' % evalt.excname(p.value)
    pair = ones(p.value)
    if not pair or len(pair) != 2:
        return 'cast returns %s' % pp(p.value)[:80]
    tup, exc = pair
    if failed:
        if not isinvalid(exc):
            return 'columns %s fail but the error is %s' % (
                failed, pp(exc)[:80])
        cols = errorcols(exc)
        if cols is None:
            return None
        if cols != failed:
            return 'columns %s fail but %s are listed' % (failed, cols)
        if tup != NONE:
            return 'a failed cast also returns %s' % pp(tup)[:80]
        if attrs(attrs(exc).get('record', NONE)).get('row') is None:
            return None
        return True
    if exc != NONE:
        return 'no column fails but the error is %s' % pp(exc)[:80]
    vals = tuplevals(tup)
    if vals is None:
        return None
    want = [castcall(i, c) for i, c in enumerate(CELLS)]
    if [v[:4] for v in vals] != want:
        return 'the cast tuple is %s' % pp(tup)[:120]
    return True


def tuplevals(t):
    if t[0] == 'nt':
        return list(t[2:])
    return ones(t)


def check_tuple(p, failed):
    if failed:
        if p.kind != 'raise':
            return 'columns %s fail but to_tuple returns' % failed
        if not isinvalid(p.value):
            return 'to_tuple raises %s' % evalt.excname(p.value)
        cols = errorcols(p.value)
        return None if cols is None else cols == failed or \
            'columns %s fail but %s are listed' % (failed, cols)
    if p.kind != 'return':
        return 'to_tuple raises %s on a valid record' % evalt.excname(p.value)
    vals = tuplevals(p.value)
    if vals is None:
        return None
    return [v[:4] for v in vals] == [
        castcall(i, c) for i, c in enumerate(CELLS)] or \
        'the tuple is %s' % pp(p.value)[:120]


def check_valid(p, failed):
    if p.kind == 'raise':
        return 'is_valid raises %s' % evalt.excname(p.value)
    if p.value not in (TRUE, FALSE):
        return None
    if failed and p.value == TRUE:
        return 'is_valid is True although %s fail' % failed
    if not failed and p.value == FALSE:
        return 'is_valid is False although no column fails'
    if not failed and len(attempted(p, CELLS)) < 3:
        return 'is_valid is True without casting every column'
    return True


def check_find(p, failed):
    if p.kind == 'raise':
        return 'find_invalid raises %s' % evalt.excname(p.value)
    els = ones(p.value)
    if els is None:
        return None
    if bool(failed) != bool(els):
        return 'columns %s fail and %d errors are found' % (
            failed, len(els))
    if els:
        pair = ones(els[0])
        if not isinvalid(pair[0]):
            return 'find_invalid yields %s' % pp(pair[0])[:60]
        cols = errorcols(pair[0])
        if cols != failed:
            return cols and 'columns %s fail but %s are listed' % (
                failed, cols)
    return True
