"""Evaluation of extracted terms and path conditions at one representative.

Only conditions and values taken from the source as terms are evaluated, at
the representatives of the finitely many classes they can distinguish; the
program itself is never run.  Python 2 meanings are used."""
import decimal
import math
import operator
import re

from terms import isk, kval


class Unsup(Exception):
    """the term is outside the interpreted vocabulary"""


class Raised(Exception):
    """evaluating the term raises in the program"""

    def __init__(self, name):
        Exception.__init__(self, name)
        self.name = name


def py2float(x):
    if isinstance(x, str) and ('_' in x or '\0' in x):
        raise ValueError(x)
    return float(x)


def py2int(x, *b):
    if isinstance(x, str) and '_' in x:
        raise ValueError(x)
    return int(x, *b)


BUILTINS = {
    'cmp': lambda a, b: (a > b) - (a < b), 'float': py2float, 'int': py2int, 'long': py2int, 'len': len, 'abs': abs,
    'min': min, 'max': max, 'bool': bool, 'str': str, 'round': round,
    'tuple': tuple, 'list': list, 'sorted': sorted, 'set': set, 'sum': sum,
}
def rx(p, flags=0):
    return re.compile(p.pattern if isinstance(p, re.Pattern) else p,
                      flags | re.ASCII)


def idiv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    return a / b


EXTS = {
    're.match': lambda p, s, f=0: rx(p, f).match(s),
    're.search': lambda p, s, f=0: rx(p, f).search(s),
    're.compile': lambda p, f=0: rx(p, f),
    'decimal.Decimal': decimal.Decimal, 'math.isnan': math.isnan, 'math.isinf': math.isinf, 'math.ceil':
    lambda x: float(math.ceil(x)), 'math.floor':
    lambda x: float(math.floor(x)), 'math.log10': math.log10,
    'math.log': math.log, 'math.exp': math.exp, 'math.pow': math.pow,
    'operator.truediv': operator.truediv, 'operator.div': idiv,
    'operator.mul': operator.mul, 'operator.add': operator.add,
    'operator.sub': operator.sub,
    'math.sqrt': math.sqrt, 'math.fabs': math.fabs,
}


BIN = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul,
       'Div': idiv, 'FloorDiv': operator.floordiv, 'Mod': operator.mod,
       'Pow': operator.pow, '+': operator.add, '-': operator.sub,
       '*': operator.mul, '/': idiv, '//': operator.floordiv,
       'truediv': operator.truediv, '%': operator.mod, '**': operator.pow}
METHODS = {
    str: {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'split', 'startswith',
          'endswith', 'isdigit', 'isalpha', 'isalnum', 'isspace', 'replace',
          'find', 'count', 'index', 'join', 'partition', 'isupper', 'islower',
          'title', 'capitalize', 'format', 'rsplit', 'splitlines', 'encode'},
    re.Match: {'group', 'groups', 'end', 'start', 'span'},
    re.Pattern: {'match', 'search'},
    list: {'index', 'count'}, tuple: {'index', 'count'},
    dict: {'get', 'keys', 'values', 'items'},
    float: {'is_integer'},
}


class Thing(object):
    """a class or a function: equal to itself only"""
    def __init__(self, t):
        self.t = t

    def __eq__(self, other):
        return isinstance(other, Thing) and self.t == other.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return '<%s>' % str(self.t[1]).rsplit('.', 1)[-1]


def holds_obj(v):
    if isinstance(v, Thing):
        return True
    if isinstance(v, tuple) and len(v) == 3 and v[0] == 'obj':
        return True
    return isinstance(v, (list, tuple, set)) and any(map(holds_obj, v)) or \
        isinstance(v, dict) and any(map(holds_obj, v.values()))


def ev(t, env):
    if t in env:
        return env[t]
    h = t[0]
    if h == 'call' and len(t) > 4 and t[:4] in env:
        return env[t[:4]]
    if h == 'k':
        if t[1] == 'other':
            raise Unsup(t)
        return kval(t)
    if h == 'tuple':
        return tuple(ev(x, env) for x in t[1:])
    if h in ('list', 'tuplist', 'set'):
        out = []
        for s in t[1]:
            if s[0] == 'one':
                out.append(ev(s[1], env))
            elif s[0] == 'splat':
                v = ev(s[1], env)
                if isinstance(v, Thing):
                    raise Raised('TypeError')
                out.extend(v)
            elif s[0] == 'each':
                out.extend(each(s, env))
            else:
                raise Unsup(t)
        return guard(lambda: {'list': list, 'tuplist': tuple,
                              'set': set}[h](out))
    if h == 'dict' and all(s[0] == 'kv' for s in t[1]):
        return {ev(s[1], env): ev(s[2], env) for s in t[1]}
    if h == 'boolv':
        return lit(t[1], env)
    if h == 'obj':
        return t            # an object is itself
    if h in ('cls', 'func'):
        return Thing(t[:2])
    if h == 'ext':
        n = t[1]
        if n.startswith('__builtin__.') and n[12:] in BUILTINS:
            return BUILTINS[n[12:]]
        if n in EXTS:
            return EXTS[n]
        if n.startswith('openquake.hazardlib.') and \
                n.rsplit('.', 1)[-1].islower():
            return Thing(t)         # a module
        raise Unsup(t)
    if h == 'attr':
        b = ev(t[1], env)
        for c, ms in METHODS.items():
            if isinstance(b, c):
                if t[2] in ms:
                    return getattr(b, t[2])
                if c is re.Pattern and t[2] == 'pattern':
                    return b.pattern
        raise Unsup(t)
    if h == 'call':
        f = ev(t[1], env)
        args = [ev(x, env) for x in t[2]]
        kw = {}
        for k, v in t[3]:
            kw[k] = ev(v, env)
        if isinstance(f, Thing) or any(
                isinstance(x, Thing) for x in args + list(kw.values())):
            raise Unsup(t)
        return guard(lambda: f(*args, **kw))
    if h == 'bin':
        f = BIN.get(t[1])
        if f is None:
            raise Unsup(t)
        a, b = ev(t[2], env), ev(t[3], env)
        if isinstance(a, Thing) or isinstance(b, Thing):
            raise Unsup(t)
        return guard(lambda: f(a, b))
    if h == 'un':
        a = ev(t[2], env)
        if t[1] in ('-', 'USub'):
            return guard(lambda: -a)
        if t[1] in ('+', 'UAdd'):
            return a
        if t[1] in ('not', 'Not'):
            return not a
        raise Unsup(t)
    if h == 'item':
        b = ev(t[1], env)
        if t[2][0] == 'slice':
            sl = slice(*[ev(x, env) for x in t[2][1:4]])
            return guard(lambda: b[sl])
        k = ev(t[2], env)
        return guard(lambda: b[k])
    if h == 'str':
        out = []
        for p in t[1]:
            if isinstance(p, str):
                out.append(p)
            else:
                v = ev(p[2], env)
                fmt = p[1]
                if holds_obj(v) and isinstance(v, tuple) and len(v) == 3 \
                        and str(v[1]).startswith(('world.', 'models.')) and \
                        not str(v[1]).endswith('Error'):
                    # as the text of no value
                    out.append('<object %s>' % v[1])
                    continue
                if holds_obj(v):
                    raise Unsup(t)      # the text of an object
                out.append(guard(lambda: ('%' + fmt) % (v,)))
        return ''.join(out)
    if h in ('eq', 'lt', 'le', 'in', 'isnone', 'truth', 'nan', 'isinst',
             'bad'):
        return lit(t, env)
    raise Unsup(t)


def each(seg, env):
    key, alts = seg[1], seg[2]
    try:
        seq = ev(key, env)
        iter(seq)
    except TypeError:
        raise Unsup(seg)
    for x in seq:
        e2 = dict(env)
        e2[('elem', key, 0)] = x
        e2[('elem', key, 1)] = x
        for lits, inner in alts:
            if all(lit(a, e2) == b for a, b in lits):
                for s in inner:
                    if s[0] == 'one':
                        yield ev(s[1], e2)
                    elif s[0] == 'splat':
                        yield from ev(s[1], e2)
                    else:
                        raise Unsup(s)


def guard(f):
    try:
        return f()
    except (ValueError, TypeError, KeyError, IndexError, AttributeError,
            OverflowError, ZeroDivisionError, decimal.InvalidOperation) as e:
        n = type(e).__name__
        raise Raised('ValueError' if n.startswith('Unicode') else n)


NUMBERS = (bool, int, float)


def differ(x, y):
    """of types that the language orders by their names"""
    for v in (x, y):
        if v is not None and type(v) not in NUMBERS + (str, list, tuple,
                                                       dict):
            return False
    return type(x) is not type(y) and not (
        type(x) in NUMBERS and type(y) in NUMBERS)


def below(x, y):
    """x < y: None before numbers before the others, by type name"""
    if differ(x, y):
        def rank(v):
            return (0, '') if v is None else (1, '') if type(v) in NUMBERS \
                else (2, type(v).__name__)
        return rank(x) < rank(y)
    return x < y


def lit(a, env):
    if a in env:
        return env[a]
    h = a[0]
    if h == 'eq':
        return ev(a[1], env) == ev(a[2], env)
    if h in ('lt', 'le'):
        x, y = ev(a[1], env), ev(a[2], env)
        if isinstance(x, Thing) or isinstance(y, Thing):
            raise Unsup(a)
    if h == 'lt':
        return guard(lambda: below(x, y))
    if h == 'le':
        return guard(lambda: not below(y, x) if differ(x, y) else x <= y)
    if h == 'in':
        x, y = ev(a[1], env), ev(a[2], env)
        if isinstance(y, Thing) or isinstance(x, Thing) and \
                isinstance(y, str):
            raise Unsup(a)
        return guard(lambda: x in y)
    if h == 'isnone':
        return ev(a[1], env) is None
    if h == 'truth':
        return bool(ev(a[1], env))
    if h == 'nan':
        x = ev(a[1], env)
        return isinstance(x, float) and x != x
    if h == 'isinst':
        x = ev(a[1], env)
        c = {'__builtin__.str': str, '__builtin__.basestring': str,
             '__builtin__.float': float, '__builtin__.int': int,
             '__builtin__.unicode': bytes,
             '__builtin__.list': list, '__builtin__.tuple': tuple}.get(a[2])
        if c is None:
            raise Unsup(a)
        return isinstance(x, c)
    if h == 'bad':
        try:
            ev(('call', ('ext', '__builtin__.' + a[1]), (a[2],), ()), env)
        except Raised:
            return True
        return False
    raise Unsup(a)


def excname(v):
    """class name of a raised value"""
    if v[0] == 'excinst' and isinstance(v[1][1], str):
        return v[1][1].rsplit('.', 1)[-1]
    if v[0] == 'obj':
        return v[1].rsplit('.', 1)[-1]
    if v[0] in ('ext', 'cls'):
        return v[1].rsplit('.', 1)[-1]
    return '?'


def outcome(paths, env):
    """what the summarised function does at one representative:
    ('return', value term, value or Unsup) / ('raise', class name) /
    ('unknown', why)"""
    raised = None
    unsup = None
    for p in paths:
        ok = True
        for a, b in p.lits:
            try:
                if bool(lit(a, env)) != b:
                    ok = False
                    break
            except Raised as e:
                raised = raised or e.name
                ok = False
                break
            except Unsup as e:
                unsup = e
                ok = None
        if ok is None:
            continue
        if ok:
            if p.kind == 'raise':
                n = excname(p.value)
                if n == '?':
                    return 'unknown', 'exception %r' % (p.value[:2],)
                return 'raise', n, p
            if p.kind == 'return':
                try:
                    return 'return', ev(p.value, env), p
                except Raised as e:
                    return 'raise', e.name, p
                except Unsup as e:
                    return 'term', p.value, p
            return 'unknown', p.kind
    if unsup is not None:
        return 'unknown', 'condition %s' % (str(unsup)[:200],)
    if raised:
        return 'raise', raised, None
    return 'unknown', 'no path applies'
