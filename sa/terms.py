"""Value-provenance terms: canonical nested tuples."""
from decimal import Decimal


class _KV(object):
    pass


def K(v):
    if v is None:
        return ('k', 'none', None)
    if v is True or v is False:
        return ('k', 'bool', v)
    if isinstance(v, float):
        return ('k', 'float', repr(v))
    if isinstance(v, int):
        return ('k', 'int', v)
    if isinstance(v, str):
        return ('k', 'str', v)
    if isinstance(v, Decimal):
        return ('k', 'dec', str(v))
    return ('k', 'other', repr(v))


NONE = K(None)
TRUE = K(True)
FALSE = K(False)


def isk(t):
    return type(t) is tuple and t and t[0] == 'k'


def kval(t):
    if t[1] == 'float':
        return float(t[2])
    if t[1] == 'dec':
        return Decimal(t[2])
    return t[2]


def iskstr(t):
    return isk(t) and t[1] == 'str'


def isknum(t):
    return isk(t) and t[1] in ('int', 'float', 'bool', 'dec')


def isref(t):
    return type(t) is tuple and t and t[0] == 'ref'


def subst(t, m, memo=None):
    """replace sub-terms by a mapping"""
    if not m:
        return t
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    if type(t) is not tuple:
        return t
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    r = tuple(_subst(x, m, memo) for x in t)
    if r == t:
        r = t
    memo[t] = r
    return r


def mentions(t, pred):
    if type(t) is not tuple:
        return False
    if pred(t):
        return True
    return any(mentions(x, pred) for x in t)


def contains(t, sub):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x == sub:
            return True
        if type(x) is tuple and id(x) not in seen:
            seen.add(id(x))
            stack.extend(x)
    return False


def subterms(t):
    if type(t) is tuple:
        if t:
            yield t
        for x in t:
            yield from subterms(x)


def pp(t, depth=0):
    """readable text of a term"""
    if type(t) is not tuple or not t:
        return repr(t)
    if depth > 14:
        return '...'
    d = depth + 1
    h = t[0]
    if h == 'k':
        return t[2] if t[1] == 'float' else repr(t[2])
    if h == 's':
        return str(t[1])
    if h == 'ext':
        return t[1].replace('__builtin__.', '')
    if h == 'attr':
        return '%s.%s' % (pp(t[1], d), t[2])
    if h == 'item':
        return '%s[%s]' % (pp(t[1], d), pp(t[2], d))
    if h == 'call':
        args = [pp(x, d) for x in t[2]] + [
            '%s=%s' % (k, pp(v, d)) for k, v in t[3]]
        occ = '#%s' % t[4] if len(t) > 4 and t[4] else ''
        return '%s(%s)%s' % (pp(t[1], d), ', '.join(args), occ)
    if h == 'bin':
        return '(%s %s %s)' % (pp(t[2], d), t[1], pp(t[3], d))
    if h == 'un':
        return '(%s%s)' % (t[1], pp(t[2], d))
    if h in ('eq', 'lt', 'le', 'in'):
        return '(%s %s %s)' % (pp(t[1], d), {
            'eq': '==', 'lt': '<', 'le': '<=', 'in': 'in'}[h], pp(t[2], d))
    if h == 'isnone':
        return '(%s is None)' % pp(t[1], d)
    if h == 'truth':
        return 'truth(%s)' % pp(t[1], d)
    if h == 'isinst':
        return 'isinstance(%s, %s)' % (pp(t[1], d), t[2])
    if h == 'elem':
        return 'each(%s)%s' % (pp(t[1], d), "'" * (t[2] if len(t) > 2 else 0))
    if h == 'key':
        return 'eachkey(%s)' % pp(t[1], d)
    if h == 'idx':
        return 'idx(%s)' % pp(t[1], d)
    if h == 'tuple':
        return '(%s,)' % ', '.join(pp(x, d) for x in t[1:])
    if h in ('list', 'set', 'dict', 'tuplist'):
        return '%s[%s]' % (h, ', '.join(ppseg(x, d) for x in t[1]))
    if h == 'str':
        out = []
        for p in t[1]:
            out.append(p if type(p) is str else
                       '{%s:%s}' % (pp(p[2], d), p[1]))
        return 'str%r' % ''.join(out)
    if h == 'obj':
        return '%s{%s}' % (str(t[1]).rsplit('.', 1)[-1], ', '.join(
            '%s=%s' % (k, pp(v, d)) for k, v in t[2]))
    if h == 'star':
        return '*' + pp(t[1], d)
    if h == 'fold':
        return 'fold(%s from %s: %s)' % (pp(t[1], d), pp(t[2], d), '; '.join(
            '%s -> %s' % (pplits(l, d), pp(v, d)) for l, v in t[3]))
    if h == 'func':
        return 'func:%s' % (t[1],)
    if h == 'cls':
        return 'cls:%s' % (t[1],)
    return '%s<%s>' % (h, ', '.join(pp(x, d) for x in t[1:]))


def ppseg(s, d=0):
    h = s[0]
    if h == 'one':
        return pp(s[1], d)
    if h == 'splat':
        return '*' + pp(s[1], d)
    if h == 'each':
        return 'for %s {%s}' % (pp(s[1], d), ' | '.join(
            '%s: %s' % (pplits(l, d), ', '.join(ppseg(x, d) for x in ss))
            for l, ss in s[2]))
    if h == 'kv':
        return '%s: %s' % (pp(s[1], d), pp(s[2], d))
    return pp(s, d)


def pplits(lits, d=0):
    return ' & '.join(('' if b else 'not ') + pp(a, d) for a, b in lits) \
        or 'always'
