"""Semantics of the Python 2 builtins, containers and standard library names
the abstract interpreter gives a meaning to; everything else stays an
uninterpreted operation."""
import decimal
import itertools
import ast as _ast
import os.path
import re as _re

from front import N
from terms import (K, NONE, TRUE, FALSE, isk, kval, iskstr, isknum, isref,
                   contains, pp)
import engine as E
from engine import X, Obj, Frame, bare, exc_is, EXC_BASES

CONSTS = {'None': NONE, 'True': TRUE, 'False': FALSE, '__debug__': TRUE}

BUILTINS = set('''abs all any basestring bin bool buffer bytearray bytes
callable chr classmethod cmp coerce compile complex copyright delattr dict dir
divmod enumerate eval execfile exit file filter float format frozenset getattr
globals hasattr hash help hex id input int intern isinstance issubclass iter
len list locals long map max memoryview min next object oct open ord pow print
property quit range raw_input reduce reload repr reversed round set setattr
slice sorted staticmethod str sum super tuple type unichr unicode vars xrange
zip apply NotImplemented Ellipsis __import__
ArithmeticError AssertionError AttributeError BaseException BufferError
BytesWarning DeprecationWarning EOFError EnvironmentError Exception
FloatingPointError FutureWarning GeneratorExit IOError ImportError
ImportWarning IndentationError IndexError KeyError KeyboardInterrupt
LookupError MemoryError NameError NotImplementedError OSError OverflowError
PendingDeprecationWarning ReferenceError RuntimeError RuntimeWarning
StandardError StopIteration SyntaxError SyntaxWarning SystemError SystemExit
TabError TypeError UnboundLocalError UnicodeDecodeError UnicodeEncodeError
UnicodeError UnicodeTranslateError UnicodeWarning UserWarning ValueError
Warning ZeroDivisionError __name__ __file__ __doc__ __package__'''.split())

PRELUDE_NAMES = {
    'collections.Sequence': 'Sequence',
    'collections.MutableSequence': 'MutableSequence',
    'concurrent.futures.as_completed': 'as_completed',
    'concurrent.futures.ProcessPoolExecutor': 'process_pool',
    'itertools.starmap': 'starmap', 'itertools.imap': 'imap',
    'itertools.ifilter': 'ifilter', 'itertools.chain': 'chain',
    'operator.attrgetter': 'attrgetter', 'operator.itemgetter': 'itemgetter',
    'operator.methodcaller': 'methodcaller',
    'operator.add': 'op_add', 'operator.mul': 'op_mul',
    'operator.eq': 'op_eq', 'operator.lt': 'op_lt',
    'functools.reduce': 'b_reduce',
}

PYTYPES = {'str': 'str', 'basestring': 'str', 'unicode': None, 'int': 'int',
           'long': None, 'float': 'float', 'bool': 'bool'}

STRMETHODS = set('''split rsplit strip lstrip rstrip lower upper startswith
endswith replace join encode decode format title capitalize splitlines
partition rpartition zfill ljust rjust center isdigit isalpha isalnum isspace
islower isupper find rfind swapcase expandtabs translate count'''.split())

# methods of external objects without effect on them
PUREMETHODS = STRMETHODS | set('''match search group groups fullmatch getnodes
isoformat total_seconds keys values items iterkeys itervalues iteritems
has_key copy is_file getroot'''.split())

MUTATORS = set('''append extend insert pop remove sort reverse clear update
setdefault popitem add discard __setitem__ __delitem__ __iadd__
appendleft popleft'''.split())

PURE_EXT = ('os.path.', 'math.', 're.', 'operator.', 'string.', 'decimal.',
            'collections.', 'numpy.', 'copy.', 'itertools.', 'functools.')

NUMERIC = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//',
           'TrueDiv': 'truediv', 'Mod': '%', 'Pow': '**', 'LShift': '<<', 'RShift': '>>',
           'BitOr': '|', 'BitXor': '^', 'BitAnd': '&'}
OPMETH = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'div',
          'TrueDiv': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod', 'Pow': 'pow', 'BitOr': 'or',
          'BitXor': 'xor', 'BitAnd': 'and'}

LEN = ('ext', '__builtin__.len')


def bi(name):
    return ('ext', '__builtin__.' + name)


def pure(name, *args):
    return ('call', bi(name), tuple(args), ())


def exc(eng, st, name, msg=''):
    return X('raise', ('excinst', bi(name), ('tuple', msg if isinstance(
        msg, tuple) else K(msg))))


# ---------------------------------------------------------------- classes
def prelude_class(eng, st, base):
    return base


def metaclass(eng, st, cid):
    for c in eng.mro(st, cid):
        if isinstance(c, tuple):
            continue
        m = st.heap[c].attrs.get('__metaclass__')
        if m is not None and m[0] == 'cls':
            return m[1]
    return None


def is_record(eng, st, cid):
    return False


def record_init(eng, st, cid, ref, args, kw, fr):
    return [(st, ref)]


def has_getattr(eng, st, cid):
    return eng.class_lookup(st, cid, '__getattr__')[0] is not None


def class_created(eng, st, cid, node, fr):
    """run the metaclass of the repository, if any, on the new class"""
    mc = metaclass(eng, st, cid)
    if mc is None:
        return [(st, ('cls', cid))]
    attrs = st.heap[cid].attrs
    bases = attrs['__bases__']
    dic = eng.alloc(st, 'dict', segs=tuple(
        ('kv', K(k), v) for k, v in attrs.items()
        if k not in ('__bases__', '__order__', '__name__')))
    name = K(eng.classname(cid))
    out = []
    new, own = eng.class_lookup(st, mc, '__new__')
    eng.pending_class = cid
    if new is not None:
        if new[0] == 'sm':
            new = new[1]
        outs = eng.call(st, new, [('cls', mc), name, bases, dic], [], fr)
    else:
        outs = [(st, ('cls', cid))]
    init, own = eng.class_lookup(st, mc, '__init__')
    for s, v in outs:
        if isinstance(v, X) or init is None or v != ('cls', cid):
            out.append((s, v))
            continue
        for s1, r in eng.call(s, init, [v, name, bases, dic], [], fr):
            out.append((s1, r if isinstance(r, X) else v))
    return out


def metanew(eng, st, args):
    """type.__new__(mcl, name, bases, dic) of the class being created"""
    cid = eng.pending_class
    name, bases, dic = args[1:4]
    segs = eng.segs(st, dic)
    attrs = {'__bases__': bases, '__name__': name}
    order = []
    for sg in segs:
        if sg[0] != 'kv' or not iskstr(sg[1]):
            raise E.Blowup('class dictionary is not concrete')
        attrs[sg[1][2]] = sg[2]
        order.append(sg[1])
    attrs['__order__'] = ('tuple',) + tuple(order)
    attrs['__fromdict__'] = TRUE
    st.heap[cid] = Obj('class', cid, attrs)
    return [(st, ('cls', cid))]


def class_vars(eng, st, cid):
    a = st.heap[cid].attrs
    return [(k, v) for k, v in a.items()
            if k not in ('__bases__', '__order__', '__name__',
                         '__fromdict__')]


def namedtuple_class(eng, st, args, kw, fr):
    name = eng.freeze(st, args[0])
    fv = args[1]
    fields = None
    if iskstr(fv):
        fields = [K(x) for x in fv[2].replace(',', ' ').split()]
    else:
        segs = eng.segs(st, fv)
        if segs is not None and all(s[0] == 'one' for s in segs):
            fields = [eng.freeze(st, s[1]) for s in segs]
    if fields is None or not all(iskstr(f) for f in fields):
        return [(st, ('call', ('ext', 'collections.namedtuple'), (
            name, eng.freeze(st, fv)), ()))]
    cid = '%s.<nt>%s' % (fr.module, kval(name))
    if cid in st.heap:
        cid = eng.newid(cid)
    eng.clsinfo[cid] = dict(name=kval(name), module=fr.module, node=N(
        'ClassDef', 0, 0, dict(body=[], name=kval(name))))
    st.heap[cid] = Obj('class', cid, {
        '_fields': ('tuple',) + tuple(fields), '__name__': name,
        '__bases__': ('tuple', bi('tuple')), '_make': ('ntmake', cid)})
    return [(st, ('cls', cid))]


def ntmake(eng, st, cid, args):
    fields = st.heap[cid].attrs['_fields'][1:]
    segs = eng.segs(st, args[0])
    if segs is not None and all(s[0] == 'one' for s in segs):
        if len(segs) != len(fields):
            return [(st, exc(eng, st, 'TypeError', 'bad length'))]
        return [(st, ('nt', cid) + tuple(s[1] for s in segs))]
    if isref(args[0]) and st.heap[args[0][1]].kind in ('gen', 'genexp',
                                                       'iter'):
        out = []
        for s, l in tolist(eng, st, args[0], eng.frame()):
            out.extend([(s, l)] if isinstance(l, X) else
                       ntmake(eng, s, cid, [l]))
        return out
    return [(st, ('call', ('attr', ('cls', cid), '_make'),
                  (eng.freeze(st, args[0]),), ()))]


# ---------------------------------------------------------------- strings
def maybe_none(t):
    """external values documented as None when there is no result"""
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in (
            'match', 'search', 'fullmatch'):
        return True
    if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in (
            're.match', 're.search'):
        return True
    return False


def mkstr(parts):
    out = []
    for p in parts:
        if type(p) is str:
            if not p:
                continue
            if out and type(out[-1]) is str:
                out[-1] += p
            else:
                out.append(p)
        elif p[1] == 's' and iskstr(p[2]):
            if out and type(out[-1]) is str:
                out[-1] += p[2][2]
            elif p[2][2]:
                out.append(p[2][2])
        elif p[1] == 's' and p[2][0] == 'str':
            for q in p[2][1]:
                if type(q) is str and out and type(out[-1]) is str:
                    out[-1] += q
                else:
                    out.append(q)
        else:
            out.append(p)
    if not out:
        return K('')
    if len(out) == 1 and type(out[0]) is str:
        return K(out[0])
    return ('str', tuple(out))


def pyrepr(t):
    v = kval(t)
    return repr(v)


def tostr(eng, st, v, fr):
    """str(v)"""
    if isinstance(v, X):
        return [(st, v)]
    if isk(v):
        if v[1] == 'str':
            return [(st, v)]
        return [(st, K(str(kval(v))))]
    t = eng.typeof(st, v)
    if t and eng.class_lookup(st, t, '__str__')[0]:
        return eng.call_attr(st, v, '__str__', [], [], fr)
    if v[0] == 'excinst':
        args = v[2][1:]
        if len(args) == 1:
            if iskstr(args[0]) and not exc_is(bare(v[1][1]), 'KeyError'):
                return [(st, args[0])]
            if args[0][0] == 'str':
                return [(st, args[0])]
    if isref(v) and st.heap[v[1]].kind == 'inst' and eng.is_exc(st, v):
        args = st.heap[v[1]].attrs.get('args')
        if args is not None and args[0] == 'tuple':
            if len(args) == 1:
                return [(st, K(''))]
            if len(args) == 2 and (iskstr(args[1]) or args[1][0] == 'str'):
                return [(st, args[1])]
    fv = eng.freeze(st, v)
    if fv[0] == 'str':
        return [(st, fv)]
    return [(st, ('str', (('fmt', 's', fv),)))]


FMT = _re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)'
                  r'(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?'
                  r'(?P<conv>[diouxXeEfFgGcrs%])')


def percent(eng, st, fmt, arg, fr):
    """fmt % arg with a constant format"""
    text = fmt[2]
    pieces = []
    pos = 0
    while pos < len(text):
        i = text.find('%', pos)
        if i < 0:
            pieces.append(text[pos:])
            break
        pieces.append(text[pos:i])
        m = FMT.match(text, i)
        if m is None:
            return [(st, exc(eng, st, 'ValueError', 'incomplete format'))]
        if m.group('conv') == '%':
            pieces.append('%')
        else:
            spec = (m.group('flags') or '') + (m.group('width') or '') + (
                '.' + m.group('prec') if m.group('prec') is not None
                else '') + m.group('conv')
            pieces.append((m.group('key'), spec))
        pos = m.end()
    specs = [p for p in pieces if type(p) is tuple]
    keyed = any(k is not None for k, _ in specs)
    cur = []
    if keyed:
        cur = [(st, [])]
        for k, spec in specs:
            nxt = []
            for s, vs in cur:
                if isinstance(vs, X):
                    nxt.append((s, vs))
                    continue
                for s1, v in getitem(eng, s, arg, K(k), fr):
                    nxt.append((s1, v if isinstance(v, X) else vs + [v]))
            cur = nxt
    else:
        segs = None
        if eng.ckind(st, arg) == 'tuple':
            segs = eng.segs(st, arg)
        if segs is not None and all(s[0] == 'one' for s in segs):
            vals = [s[1] for s in segs]
            if len(vals) != len(specs):
                return [(st, exc(eng, st, 'TypeError',
                                 'format arguments'))]
        elif segs is not None:
            fa = eng.freeze(st, arg)
            vals = [eng.mkitem(fa, K(i)) for i in range(len(specs))]
        elif len(specs) == 1:
            vals = [arg]
        elif len(specs) == 0:
            if arg[0] in ('k',):
                return [(st, exc(eng, st, 'TypeError', 'not all arguments'))]
            vals = []
        else:
            if isk(arg) or eng.typeof(st, arg):
                return [(st, exc(eng, st, 'TypeError', 'not enough'))]
            fa = eng.freeze(st, arg)
            vals = [eng.mkitem(fa, K(i)) for i in range(len(specs))]
        cur = [(st, vals)]
    out = []
    for s, vals in cur:
        if isinstance(vals, X):
            out.append((s, vals))
            continue
        states = [(s, [])]
        for (k, spec), v in zip(specs, vals):
            nxt = []
            for s1, ps in states:
                if isinstance(ps, X):
                    nxt.append((s1, ps))
                    continue
                for s2, p in fmt1(eng, s1, spec, v, fr):
                    nxt.append((s2, p if isinstance(p, X) else ps + [p]))
            states = nxt
        for s1, ps in states:
            if isinstance(ps, X):
                out.append((s1, ps))
                continue
            it = iter(ps)
            out.append((s1, mkstr([p if type(p) is str else next(it)
                                   for p in pieces])))
    return out


def fmt1(eng, st, spec, v, fr):
    conv = spec[-1]
    if isk(v):
        try:
            return [(st, ('%' + spec) % (kval(v),))]
        except TypeError:
            return [(st, exc(eng, st, 'TypeError', 'format'))]
        except (OverflowError, ValueError) as e:
            return [(st, exc(eng, st, type(e).__name__, 'format'))]
    if spec == 's':
        return [(s, r if isinstance(r, X) else ('fmt', 's', eng.freeze(
            s, r)) if r[0] != 'str' or len(r[1]) != 1 else r[1][0])
            for s, r in tostr(eng, st, v, fr)]
    fv = eng.freeze(st, v)
    if conv in 'diouxX' and eng.hazards:
        eng.emit(st, 'hazard', 'intformat', [v], [fv])
    return [(st, ('fmt', spec, fv))]


def strformat(eng, st, fmt, args, kw, fr):
    """'...'.format()"""
    import string
    pieces = []
    auto = 0
    kws = dict(kw)
    try:
        items = list(string.Formatter().parse(fmt[2]))
    except ValueError:
        items = None
    if items is not None:
        ok = True
        for lit, field, spec, conv in items:
            pieces.append(lit)
            if field is None:
                continue
            if field == '':
                field = str(auto)
                auto += 1
            if field.isdigit() and int(field) < len(args):
                v = args[int(field)]
            elif field in kws:
                v = kws[field]
            else:
                ok = False
                break
            cv = {'r': 'r', 's': 's', None: 's'}.get(conv, conv)
            if spec:
                cv = spec if spec[-1] in 'dfgeEGs' else spec + 's'
            if cv == 's' and isk(v):
                pieces.append(str(kval(v)))
            else:
                pieces.append(('fmt', cv, eng.freeze(st, v)))
        if ok:
            return [(st, mkstr(pieces))]
    return [(st, ('call', ('attr', fmt, 'format'), tuple(
        eng.freeze(st, a) for a in args), tuple(sorted(
            (k, eng.freeze(st, v)) for k, v in kw))))]


# ---------------------------------------------------------------- operators
def isstrterm(t):
    return iskstr(t) or t[0] == 'str'


def binop(eng, st, op, a, b, fr):
    if op == 'Mod' and iskstr(a):
        return percent(eng, st, a, b, fr)
    if isk(a) and isk(b):
        r = constop(op, a, b)
        if r is not None:
            if isinstance(r, str):
                return [(st, exc(eng, st, r))]
            return [(st, r[0])]
    ta = eng.typeof(st, a)
    m = OPMETH.get(op)
    if ta and m and eng.class_lookup(st, ta, '__%s__' % m)[0]:
        return eng.call_attr(st, a, '__%s__' % m, [b], [], fr)
    tb = eng.typeof(st, b)
    if tb and m and eng.class_lookup(st, tb, '__r%s__' % m)[0]:
        return eng.call_attr(st, b, '__r%s__' % m, [a], [], fr)
    ka, kb = eng.ckind(st, a), eng.ckind(st, b)
    if not ta and not tb and op in ('Sub', 'Div', 'TrueDiv', 'FloorDiv'):
        # no difference or quotient of texts and sequences
        hard = [isstrterm(x) or x == NONE or k in ('list', 'tuple', 'dict')
                for x, k in ((a, ka), (b, kb))]
        if all(hard) or any(hard) and (isknum(a) or isknum(b)):
            return [(st, exc(eng, st, 'TypeError', 'operands of %s' % op))]
    if op == 'Add':
        if ka == 'list' and kb == 'list':
            return [(st, eng.alloc(st, 'list', segs=tuple(
                eng.segs(st, a)) + tuple(eng.segs(st, b))))]
        if ka == 'list' and kb is None and not isk(b):
            return [(st, eng.alloc(st, 'list', segs=tuple(
                eng.segs(st, a)) + (('splat', b),)))]
        if kb == 'list' and ka is None and not isk(a):
            return [(st, eng.alloc(st, 'list', segs=(
                ('splat', a),) + tuple(eng.segs(st, b))))]
        if ka == 'tuple' and kb == 'tuple':
            sa, sb = eng.segs(st, a), eng.segs(st, b)
            if all(s[0] == 'one' for s in sa + sb):
                return [(st, ('tuple',) + tuple(s[1] for s in sa + sb))]
            return [(st, eng.alloc(st, 'tuplist', segs=tuple(sa) +
                                   tuple(sb)))]
        if ka == 'tuple' and kb is None or kb == 'tuple' and ka is None:
            sa = eng.segs(st, a) if ka else (('splat', a),)
            sb = eng.segs(st, b) if kb else (('splat', b),)
            if not isk(a) and not isk(b):
                return [(st, eng.alloc(st, 'tuplist', segs=tuple(sa) +
                                       tuple(sb)))]
        fa, fb = eng.freeze(st, a), eng.freeze(st, b)
        if isstrterm(fa) or isstrterm(fb):
            return [(st, mkstr([('fmt', 's', fa), ('fmt', 's', fb)]))]
    if op == 'Mult':
        for x, y in ((a, b), (b, a)):
            if eng.ckind(st, x) == 'list' and isk(y) and y[1] == 'int':
                return [(st, eng.alloc(st, 'list', segs=tuple(
                    eng.segs(st, x)) * max(0, y[2])))]
            if eng.ckind(st, x) == 'tuple' and isk(y) and y[1] == 'int':
                sg = eng.segs(st, x)
                if all(s[0] == 'one' for s in sg):
                    return [(st, ('tuple',) + tuple(
                        s[1] for s in sg) * max(0, y[2]))]
    fa, fb = eng.freeze(st, a), eng.freeze(st, b)
    if op in ('Div', 'TrueDiv', 'FloorDiv', 'Mod') and eng.hazards and not (
            isk(fb) and kval(fb) not in (0, 0.0)):
        eng.emit(st, 'hazard', 'division', [a, b], [fb])
    if op == 'TrueDiv' and any(isk(x) and x[1] == 'float'
                               for x in (fa, fb)):
        op = 'Div'
    return [(st, ('bin', NUMERIC.get(op, op), fa, fb))]


def constop(op, a, b):
    x, y = kval(a), kval(b)
    num = isknum(a) and isknum(b)
    if not num and not (a[1] == 'str' and b[1] in ('str', 'int')):
        return None
    if num and {a[1], b[1]} == {'dec', 'float'}:
        return 'TypeError'
    try:
        if op == 'Div' and num and 'dec' in (a[1], b[1]):
            return (K(x / y),)
        if op == 'Add' and (num or a[1] == b[1]):
            return (K(x + y),)
        if op == 'Sub' and num:
            return (K(x - y),)
        if op == 'Mult' and (num or b[1] == 'int'):
            return (K(x * y),)
        if op == 'Div' and num:
            if a[1] != 'float' and b[1] != 'float':
                return (K(x // y),)
            return (K(x / y),)
        if op == 'TrueDiv' and num:
            return (K(x / y),)
        if op == 'FloorDiv' and num:
            return (K(x // y),)
        if op == 'Mod' and num:
            return (K(x % y),)
        if op == 'Pow' and num and abs(y) < 64:
            return (K(x ** y),)
        if op in ('BitOr', 'BitAnd', 'BitXor') and a[1] == b[1] == 'int':
            return (K({'BitOr': x | y, 'BitAnd': x & y,
                       'BitXor': x ^ y}[op]),)
    except ZeroDivisionError:
        return 'ZeroDivisionError'
    except (TypeError, OverflowError):
        return None
    return None


# ---------------------------------------------------------------- items
def vars_dict(eng, st, b):
    """the dictionary behind vars(x) / x.__dict__"""
    o = b[1]
    if o[0] == 'cls':
        items = class_vars(eng, st, o[1])
    elif isref(o):
        items = list(st.heap[o[1]].attrs.items())
    elif o[0] == 'mod':
        items = [(k, v) for k, v in st.envs[eng.modenv[o[1]]].items()
                 if not k.startswith('<')]
    else:
        return None
    return eng.alloc(st, 'dict', segs=tuple(
        ('kv', K(k), v) for k, v in items))


def slotted(eng, st, cid):
    """the instances of a class have no __dict__"""
    found = False
    for c in eng.mro(st, cid):
        if isinstance(c, tuple):
            if c != ('ext', '__builtin__.object'):
                return False
            continue
        if '__slots__' not in st.heap[c].attrs:
            return False
        found = True
    return found


def plain_vars(eng, st, v):
    """the dictionary of an object made on the path, other values as given"""
    if v[0] == 'vars' and isref(v[1]):
        o = st.heap[v[1][1]]
        if o.kind == 'inst' and '**' not in o.attrs and \
                v[1][1] not in eng.base.heap:
            return vars_dict(eng, st, v)
    return v


def dict_lookup(eng, st, b, segs, k, fr):
    """-> [(state, value or None)]"""
    fk = eng.freeze(st, k)
    out = []
    live = [st]
    for i in range(len(segs) - 1, -1, -1):
        s = segs[i]
        nxt = []
        for x in live:
            if s[0] in ('kv', 'del'):
                key = eng.freeze(x, s[1])
                e = eng.key_same(x, k, s[1])
                hit = s[2] if s[0] == 'kv' else None
                if e is True:
                    out.append((x, hit))
                elif e is False:
                    nxt.append(x)
                else:
                    a, c = (fk, key)
                    if isk(a) and not isk(c) or not isk(c) and \
                            repr(c) < repr(a):
                        a, c = c, a
                    for s1, t in eng.assume(x, ('eq', a, c)):
                        if t:
                            out.append((s1, hit))
                        else:
                            nxt.append(s1)
            elif s[0] == 'splat' or s[0] == 'base':
                t = eng.freeze(x, s[1]) if s[0] == 'splat' else s
                if s[0] == 'splat' and isref(s[1]):
                    sub = eng.segs(x, s[1])
                    if sub is not None:
                        for s1, v in dict_lookup(eng, x, s[1], sub, k, fr):
                            if v is None:
                                nxt.append(s1)
                            else:
                                out.append((s1, v))
                        continue
                if i == 0 and not eng.wants_key() and \
                        eng.fact(x, ('in', fk, t)) is not False:
                    out.append((x, eng.mkitem(t, fk)))
                    continue
                for s1, r in eng.assume(x, ('in', fk, t)):
                    if r:
                        out.append((s1, eng.mkitem(t, fk)))
                    else:
                        nxt.append(s1)
            else:
                whole = eng.freeze(x, b)
                if i == 0 and not eng.wants_key() and \
                        eng.fact(x, ('in', fk, whole)) is not False:
                    out.append((x, eng.mkitem(whole, fk)))
                    continue
                for s1, r in eng.assume(x, ('in', fk, whole)):
                    if r:
                        out.append((s1, eng.mkitem(whole, fk)))
                    else:
                        nxt.append(s1)
        live = nxt
        if not live:
            break
    out.extend((x, None) for x in live)
    return out


def slice_of(vals, k):
    def c(x):
        return None if x == NONE else kval(x)
    return vals[slice(c(k[1]), c(k[2]), c(k[3]))]


def getitem(eng, st, b, k, fr):
    if b[0] == 'vars':
        d = vars_dict(eng, st, b)
        if d is not None:
            return getitem(eng, st, d, k, fr)
    if b[0] == 'globals':
        if iskstr(k):
            v = st.envs[eng.modenv[b[1]]].get(k[2])
            if v is None:
                return [(st, exc(eng, st, 'KeyError', k))]
            return [(st, v)]
        return [(st, ('item', b, eng.freeze(st, k)))]
    if b == NONE:
        return [(st, exc(eng, st, 'TypeError', 'None item'))]
    if isk(b) and isk(k) and b[1] == 'str' and k[1] == 'int':
        try:
            return [(st, K(b[2][k[2]]))]
        except IndexError:
            return [(st, exc(eng, st, 'IndexError'))]
    if iskstr(b) and k[0] == 'slice' and all(
            isk(x) and x[1] in ('int', 'none') for x in k[1:]):
        return [(st, K(slice_of(b[2], k)))]
    if (iskstr(b) or b[0] == 'str') and (isk(k) and k[1] in (
            'str', 'none', 'float') or k[0] == 'str'):
        return [(st, exc(eng, st, 'TypeError', 'index of a text'))]
    if isk(b) and b[1] in ('int', 'float', 'bool'):
        return [(st, exc(eng, st, 'TypeError', 'no __getitem__'))]
    if k[0] == 'slice' and (iskstr(b) or b[0] == 'str' or eng.ckind(
            st, b) in ('list', 'tuple')) and any(
                x != NONE and no_index(eng, st, x) for x in k[1:]):
        return [(st, exc(eng, st, 'TypeError', 'slice'))]
    kind = eng.ckind(st, b)
    segs = eng.segs(st, b)
    t = eng.typeof(st, b)
    if t and b[0] != 'nt' and segs is None or (
            t and isref(b) and st.heap[b[1]].kind == 'inst'):
        if eng.class_lookup(st, t, '__getitem__')[0]:
            return eng.call_attr(st, b, '__getitem__', [k], [], fr)
        if eng.plain_class(st, t):
            return [(st, exc(eng, st, 'TypeError', 'no __getitem__'))]
    if isref(b) and st.heap[b[1]].kind in ('gen', 'genexp') or \
            b[0] in ('func', 'bound', 'mod') or eng.is_module(b) or \
            eng.class_without(st, b, '__getitem__'):
        return [(st, exc(eng, st, 'TypeError', 'no __getitem__'))]
    if segs is not None and kind == 'dict':
        out = []
        for s, v in dict_lookup(eng, st, b, segs, k, fr):
            if v is not None:
                out.append((s, v))
                continue
            dflt = st.heap[b[1]].attrs.get('default') if isref(b) else None
            if dflt is not None:
                for s1, nv in eng.call(s, dflt, [], [], fr):
                    if isinstance(nv, X):
                        out.append((s1, nv))
                    else:
                        for s2, r in setitem(eng, s1, b, k, nv, fr, True):
                            out.append((s2, nv))
            else:
                out.append((s, exc(eng, s, 'KeyError', eng.freeze(s, k))))
        return out
    if segs is not None and kind in ('list', 'tuple'):
        if no_index(eng, st, k):
            return [(st, exc(eng, st, 'TypeError', 'index'))]
        if k[0] == 'slice':
            if all(s[0] == 'one' for s in segs) and all(
                    isk(x) and x[1] in ('int', 'none') for x in k[1:]):
                vals = slice_of([s[1] for s in segs], k)
                if kind == 'tuple':
                    return [(st, ('tuple',) + tuple(vals))]
                return [(st, eng.mklist(st, vals))]
            if k == ('slice', NONE, NONE, NONE) and kind == 'list':
                return [(st, eng.alloc(st, 'list', segs=segs))]
            # a prefix / suffix made of known items
            if k[2] == NONE and k[3] == NONE and isk(k[1]) and \
                    k[1][1] == 'int' and k[1][2] > 0 and all(
                        s[0] == 'one' for s in segs[:k[1][2]]) and \
                    len(segs) > k[1][2]:
                return [(st, eng.alloc(
                    st, 'list' if kind == 'list' else 'tuplist',
                    segs=segs[k[1][2]:]))]
            return [(st, ('item', eng.freeze(st, b), eng.freeze(st, k)))]
        if isk(k) and k[1] in ('int', 'bool'):
            i = int(k[2])
            if i >= 0 and all(s[0] == 'one' for s in segs[:i + 1]):
                if i < len(segs):
                    return [(st, segs[i][1])]
                return [(st, exc(eng, st, 'IndexError'))]
            if i < 0 and all(s[0] == 'one' for s in segs[i:]) and \
                    -i <= len(segs):
                return [(st, segs[i][1])]
            if all(s[0] == 'one' for s in segs):
                return [(st, exc(eng, st, 'IndexError'))]
        if isk(k) and k[1] not in ('int', 'bool', 'long') or \
                k[0] in ('str', 'tuple'):
            return [(st, exc(eng, st, 'TypeError', 'index'))]
        if len(segs) == 1 and segs[0][0] == 'splat':
            return getitem_sym(eng, st, eng.freeze(st, segs[0][1]), k, fr)
        if len(segs) == 1 and segs[0][0] == 'each' and k[0] == 'idx' and \
                k[1] == segs[0][1]:
            # the element built by the same iteration of another loop
            al = segs[0][2]
            if len(al) == 1 and not al[0][0] and len(al[0][1]) == 1 and \
                    al[0][1][0][0] == 'one':
                return [(st, al[0][1][0][1])]
        return getitem_sym(eng, st, eng.freeze(st, b), k, fr)
    if isref(b) and st.heap[b[1]].kind in ('iter',):
        out = []
        for s, l in tolist(eng, st, b, fr):
            out.extend([(s, l)] if isinstance(l, X) else
                       getitem(eng, s, l, k, fr))
        return out
    return getitem_sym(eng, st, eng.freeze(st, b), k, fr)


def getitem_sym(eng, st, fb, k, fr):
    fk = eng.freeze(st, k)
    if eng.loading:
        return [(st, eng.mkitem(fb, fk))]
    if isk(fk) and fk[1] == 'int' or fk[0] == 'idx':
        if eng.catch_wants('IndexError') and fk[0] != 'idx':
            n = fk[2] + 1 if fk[2] >= 0 else -fk[2]
            out = []
            for s, r in eng.assume(st, ('le', K(n), pure('len', fb))):
                out.append((s, eng.mkitem(fb, fk) if r else
                            exc(eng, s, 'IndexError')))
            return out
        return [(st, eng.mkitem(fb, fk))]
    if fk[0] == 'slice':
        return [(st, ('item', fb, fk))]
    if fk[0] == 'key' and fk[1] == fb:
        return [(st, eng.mkitem(fb, fk))]
    if eng.wants_key() and eng.ckind(st, fb) not in ('list', 'tuple'):
        out = []
        for s, r in eng.assume(st, ('in', fk, fb)):
            out.append((s, eng.mkitem(fb, fk) if r else
                        exc(eng, s, 'KeyError', fk)))
        return out
    return [(st, eng.mkitem(fb, fk))]


def mutev(eng, st, name, b, args):
    if not isref(b) or b[1] in eng.base.heap or b[1] in eng.watch:
        eng.emit(st, 'mut', name, (b,) + tuple(args), tuple(
            eng.freeze(st, x) for x in (b,) + tuple(args)))


def no_index(eng, st, k):
    """no index of a list or a tuple"""
    if isk(k):
        return k[1] in ('str', 'float', 'none')
    if k[0] in ('str', 'cls', 'func', 'bound', 'mod', 'dict', 'tuple', 'nt',
                'list') or eng.is_module(k):
        return True
    if not isref(k):
        return False
    o = st.heap[k[1]]
    if o.kind != 'inst':
        return True
    return eng.plain_class(st, o.cls) and not \
        eng.class_lookup(st, o.cls, '__index__')[0]


def unhashable(eng, st, k):
    return eng.ckind(st, k) in ('list', 'dict', 'set') and not (
        isref(k) and st.heap[k[1]].kind == 'inst')


def setitem(eng, st, b, k, v, fr, quiet=False):
    if b[0] == 'vars' and iskstr(k):
        return eng.setattr_(st, b[1], k[2], v, fr)
    if b == NONE:
        return [(st, exc(eng, st, 'TypeError', 'None item'))]
    if b[0] in ('tuple', 'nt', 'str', 'k'):
        return [(st, exc(eng, st, 'TypeError', 'item assignment'))]
    t = eng.typeof(st, b)
    if t and eng.class_lookup(st, t, '__setitem__')[0]:
        return eng.call_attr(st, b, '__setitem__', [k, v], [], fr)
    if eng.ckind(st, b) == 'list' and no_index(eng, st, k):
        return [(st, exc(eng, st, 'TypeError', 'index'))]
    if eng.ckind(st, b) == 'dict' and unhashable(eng, st, k):
        return [(st, exc(eng, st, 'TypeError', 'unhashable'))]
    if not quiet:
        mutev(eng, st, '__setitem__', b, (k, v))
    kind = eng.ckind(st, b)
    if kind is None:
        fk = eng.freeze(st, k)
        kind = 'list' if fk[0] in ('idx', 'slice') or (
            isk(fk) and fk[1] == 'int') else 'dict'
        eng.lift(st, b, kind)
    segs = eng.segs(st, b)
    if kind == 'dict':
        fk = eng.freeze(st, k)
        for i in range(len(segs) - 1, -1, -1):
            s = segs[i]
            if s[0] != 'kv':
                break
            e = eng.key_same(st, k, s[1])
            if e is True:
                eng.setsegs(st, b, segs[:i] + (('kv', s[1], v),) +
                            segs[i + 1:])
                return [(st, NONE)]
            if e is None:
                break
        eng.setsegs(st, b, segs + (('kv', k, v),))
        return [(st, NONE)]
    if k[0] == 'slice':
        vs = eng.segs(st, v)
        sl = known_slice(k)
        if k == ('slice', NONE, NONE, NONE) and vs is not None:
            eng.setsegs(st, b, vs)
        elif sl is not None and vs is not None and all(
                x[0] == 'one' for x in segs + vs) and sl.step in (None, 1):
            l = list(segs)
            l[sl] = list(vs)
            eng.setsegs(st, b, tuple(l))
        else:
            eng.setsegs(st, b, segs + (('upd', eng.freeze(st, k),
                                        eng.freeze(st, v)),))
        return [(st, NONE)]
    if isk(k) and k[1] == 'int' and all(s[0] == 'one' for s in segs):
        i = k[2]
        if -len(segs) <= i < len(segs):
            l = list(segs)
            l[i] = ('one', v)
            eng.setsegs(st, b, tuple(l))
            return [(st, NONE)]
        return [(st, exc(eng, st, 'IndexError'))]
    eng.setsegs(st, b, segs + (('upd', k, v),))
    return [(st, NONE)]


def delitem(eng, st, b, k, fr):
    t = eng.typeof(st, b)
    if t and eng.class_lookup(st, t, '__delitem__')[0]:
        return eng.call_attr(st, b, '__delitem__', [k], [], fr)
    if eng.ckind(st, b) == 'list' and no_index(eng, st, k):
        return [(st, exc(eng, st, 'TypeError', 'index'))]
    mutev(eng, st, '__delitem__', b, (k,))
    kind = eng.ckind(st, b)
    if kind is None:
        fk = eng.freeze(st, k)
        kind = 'list' if fk[0] in ('idx', 'slice') or (
            isk(fk) and fk[1] == 'int') else 'dict'
        eng.lift(st, b, kind)
    segs = eng.segs(st, b)
    if kind == 'dict':
        fk = eng.freeze(st, k)
        eq = [eng.key_same(st, k, s[1])
              if s[0] == 'kv' else None for s in segs]
        if all(e is not None for e in eq):
            if True in eq:
                i = eq.index(True)
                eng.setsegs(st, b, segs[:i] + segs[i + 1:])
                return [(st, NONE)]
            return [(st, exc(eng, st, 'KeyError', fk))]
        eng.setsegs(st, b, segs + (('del', k),))
        return [(st, NONE)]
    if isk(k) and k[1] == 'int' and all(s[0] == 'one' for s in segs):
        if not -len(segs) <= k[2] < len(segs):
            return [(st, exc(eng, st, 'IndexError'))]
        l = list(segs)
        del l[k[2]]
        eng.setsegs(st, b, tuple(l))
        return [(st, NONE)]
    if k == ('slice', NONE, NONE, NONE):
        eng.setsegs(st, b, ())
        return [(st, NONE)]
    sl = known_slice(k)
    if sl is not None and all(x[0] == 'one' for x in segs):
        l = list(segs)
        del l[sl]
        eng.setsegs(st, b, tuple(l))
        return [(st, NONE)]
    eng.setsegs(st, b, segs + (('del', k),))
    return [(st, NONE)]


def known_slice(k):
    if k[0] == 'slice' and all(
            x == NONE or isk(x) and x[1] == 'int' for x in k[1:]):
        return slice(*[x[2] for x in k[1:]])


# ---------------------------------------------------------------- iteration
def mkiter(eng, st, op, *args):
    return eng.alloc(st, 'iter', attrs=dict(op=op, args=tuple(args)))


def concrete_items(eng, st, v):
    """items of a container with only known items, or None"""
    if isref(v) and st.heap[v[1]].kind == 'iter':
        o = st.heap[v[1]]
        if o.attrs.get('spent') == 'all':
            return []
        if o.attrs.get('spent'):
            return None
        if o.attrs['op'] in ('iter', 'list'):
            return concrete_items(eng, st, o.attrs['args'][0])
        if o.attrs['op'] in ('items', 'values'):
            d = o.attrs['args'][0]
            segs = eng.ordered(st, d, eng.segs(st, d), 'dict')
            if segs is not None and all(s[0] == 'kv' for s in segs):
                return [('tuple', s[1], s[2]) if o.attrs['op'] == 'items'
                        else s[2] for s in segs]
        if o.attrs['op'] == 'zip':
            ls = [concrete_items(eng, st, a) for a in o.attrs['args']]
            if any(l is not None for l in ls):
                m = min(len(l) for l in ls if l is not None)
                if all(l is not None for l in ls):
                    return [('tuple',) + tuple(t) for t in zip(*ls)]
        if o.attrs['op'] == 'reversed':
            l = concrete_items(eng, st, o.attrs['args'][0])
            return None if l is None else l[::-1]
        if o.attrs['op'] == 'range':
            a = [eng.freeze(st, x) for x in o.attrs['args']]
            if all(isk(x) and x[1] == 'int' for x in a):
                r = list(range(*[x[2] for x in a]))
                if len(r) <= eng.UNROLL * 4:
                    return [K(i) for i in r]
        if o.attrs['op'] == 'enumerate':
            l = concrete_items(eng, st, o.attrs['args'][0])
            s0 = o.attrs['args'][1]
            if l is not None and isk(s0):
                return [('tuple', K(i + s0[2]), x) for i, x in enumerate(l)]
        return None
    if isref(v) and st.heap[v[1]].kind == 'inst':
        seq = inst_seq(eng, st, v)
        return None if seq is None else concrete_items(eng, st, seq)
    segs = eng.segs(st, v)
    if segs is None:
        return None
    kind = eng.ckind(st, v)
    if kind == 'dict':
        if all(s[0] == 'kv' for s in segs):
            return [s[1] for s in segs]
        return None
    if all(s[0] == 'one' for s in segs):
        return [s[1] for s in segs]
    return None


def inst_seq(eng, st, v):
    """the list whose items an object indexes, None if it is not one"""
    o = st.heap[v[1]] if isref(v) else None
    cls = o.cls if o is not None else eng.typeof(st, v)
    if cls is None or eng.class_lookup(st, cls, '__iter__')[0] is not None:
        return None
    if eng.class_lookup(st, cls, '__getitem__')[0] is None:
        return None
    probe = ('idx', ('s', '?'), 0)
    try:
        outs = eng.call_attr(st.fork(), v, '__getitem__', [probe], [],
                             eng.frame())
    except E.Blowup:
        return None
    if outs and all(not isinstance(x, X) and (
            x[0] == 'item' and x[2] == probe or
            x[0] == 'elem' and x[2] == 0) for s, x in outs) and \
            len({x[1] for s, x in outs}) == 1:
        seq = outs[0][1][1]
        if o is not None:
            for a in o.attrs.values():
                if isref(a) and eng.freeze(st, a) == seq:
                    return a
        return seq
    return None


def canon_iter(eng, st, v):
    """the frozen term an iteration over v is a loop over"""
    if isref(v):
        o = st.heap[v[1]]
        if o.kind == 'iter':
            if o.attrs['op'] in ('iter', 'list'):
                return canon_iter(eng, st, o.attrs['args'][0])
        segs = eng.segs(st, v)
        if segs is not None and len(segs) == 1:
            if segs[0][0] == 'splat' and eng.ckind(st, v) != 'dict':
                return canon_iter(eng, st, segs[0][1])
            if segs[0][0] == 'each':
                al = segs[0][2]
                if len(al) == 1 and not al[0][0] and len(al[0][1]) == 1 \
                        and al[0][1][0] == ('one', ('elem', segs[0][1], 0)):
                    return segs[0][1]
        if o.kind == 'inst':
            seq = inst_seq(eng, st, v)
            if seq is not None:
                return eng.freeze(st, seq)
    if v[0] == 'call' and v[1] in (bi('iter'), bi('list'), bi('tuple')) and \
            len(v[2]) == 1:
        return v[2][0]
    return eng.freeze(st, v)


def item_at(eng, st, v, key, n):
    """element of v at the iteration of the loop `key`"""
    if isref(v):
        o = st.heap[v[1]]
        if o.kind == 'iter' and o.attrs['op'] == 'range':
            a = o.attrs['args']
            return ('idx', key, n) if len(a) == 1 else (
                'bin', '+', eng.freeze(st, a[0]), ('idx', key, n))
        if o.kind == 'iter' and o.attrs['op'] == 'count':
            return ('bin', '+', eng.freeze(st, o.attrs['args'][0]),
                    ('idx', key, n)) if o.attrs['args'][0] != K(0) else (
                        'idx', key, n)
        segs = eng.segs(st, v)
        if segs is not None and len(segs) == 1 and segs[0][0] == 'each' and \
                segs[0][1] == key:
            al = segs[0][2]
            if len(al) == 1 and not al[0][0] and len(al[0][1]) == 1 and \
                    al[0][1][0][0] == 'one':
                return al[0][1][0][1]
    return ('elem', canon_iter(eng, st, v), n)


def iterate_iter(eng, st, o, fr, step, node):
    op = o.attrs['op']
    args = o.attrs['args']
    if op in ('iter', 'list'):
        return eng.iterate(st, args[0], fr, step, node)
    if op == 'range':
        return range_loop(eng, st, args, fr, step)
    if op in ('items', 'values'):
        d = args[0]
        if d[0] == 'vars':
            d2 = vars_dict(eng, st, d)
            if d2 is not None:
                d = d2
        segs = eng.segs(st, d)
        if segs is not None and not any(s[0] == 'del' for s in segs):
            return eng.iter_segs(st, d, segs, op, fr, step, node)
        fd = eng.freeze(st, d)
        n = eng.depth_of(fd)

        def pairs(s):
            k = ('key', fd, n)
            v = eng.mkitem(fd, k)
            return step(s, ('tuple', k, v) if op == 'items' else v)
        return eng.run_loop(st, fd, pairs, node)
    if op == 'keys':
        d = args[0]
        segs = eng.segs(st, d)
        if segs is not None and not any(s[0] == 'del' for s in segs):
            return eng.iter_segs(st, d, segs, 'dict', fr, step, node)
        return eng.generic_loop(st, eng.freeze(st, d), fr, step, keys=True)
    if op == 'enumerate':
        items = concrete_items(eng, st, args[0])
        start = args[1]
        if items is not None and len(items) <= eng.UNROLL * 4 and \
                isk(start):
            return eng.unroll(st, [('tuple', K(start[2] + i), x)
                                   for i, x in enumerate(items)], step)
        key = canon_iter(eng, st, args[0])
        n = eng.depth_of(key)
        i = ('idx', key, n)
        if start != K(0):
            i = ('bin', '+', eng.freeze(st, start), i)
        if eng.stubs and isk(start):
            count = counter(eng, st, start[2])
            return eng.iterate(st, args[0], fr, lambda s, v: step(
                s, ('tuple', count(s) or i, v)), node)
        return eng.iterate(st, args[0], fr,
                           lambda s, v: step(s, ('tuple', i, v)), node)
    if op == 'zip':
        return zip_loop(eng, st, args, fr, step, node)
    if op == 'reversed':
        items = concrete_items(eng, st, args[0])
        if items is not None and len(items) <= eng.UNROLL * 4:
            return eng.unroll(st, items[::-1], step)
        return eng.generic_loop(st, ('call', bi('reversed'), (
            canon_iter(eng, st, args[0]),), ()), fr, step)
    if op == 'groupby':
        return groupby_loop(eng, st, args, fr, step, node)
    if op == 'count':
        key = ('call', ('ext', 'itertools.count'), tuple(
            eng.freeze(st, a) for a in args), ())
        return eng.generic_loop(st, key, fr, step)
    if op == 'product':
        full = []
        for a in args:
            more = concrete_items(eng, st, a[1]) if a[0] == 'star' else [a]
            if more is None:
                full = None
                break
            full.extend(more)
        lists = [None] if full is None else [
            concrete_items(eng, st, a) for a in full]
        if eng.stubs and None not in lists:
            n = 1
            for l in lists:
                n *= len(l)
            if n <= eng.UNROLL * 4:
                return eng.unroll(st, [
                    ('tuple',) + c for c in itertools.product(*lists)], step)
        key = ('call', ('ext', 'itertools.product'), tuple(
            ('star', canon_iter(eng, st, a[1])) if a[0] == 'star' else
            canon_iter(eng, st, a) for a in args), ())
        n = eng.depth_of(key)
        if any(a[0] == 'star' for a in args):
            return eng.generic_loop(st, key, fr, step)
        v = ('tuple',) + tuple(
            ('elem', canon_iter(eng, st, a), n) for a in args)
        return eng.run_loop(st, key, lambda s: step(s, v), node)
    raise E.Blowup('iteration over ' + op)


def counter(eng, st, start=0):
    """counts the passes of an unrolled loop: None once unknown"""
    ref = eng.alloc(st, 'counter', attrs=dict(n=K(start)))
    base = len(eng.active)

    def count(s):
        n = s.heap[ref[1]].attrs['n']
        if not isk(n) or n == NONE:
            return None
        if len(eng.active) != base:
            eng.setobj(s, ref, attrs=dict(n=NONE))
            return None
        eng.setobj(s, ref, attrs=dict(n=K(n[2] + 1)))
        return n
    return count


def zip_gen(eng, st, args, items, fr, step, node):
    """known lists in lock step with one generator"""
    g = items.index(None)
    before = [len(x) for x in items[:g]]
    after = [len(x) for x in items[g + 1:]]
    if before and min(before) == 0:
        return [(st, None)]
    count = counter(eng, st)
    done = ('break', ('zip', count))

    def body(s, v):
        i = count(s)
        if i is None:
            raise E.Blowup('zip of a generator')
        i = i[2]
        if after and min(after) <= i:
            return [(s, done)]
        out = []
        t = ('tuple',) + tuple(
            v if x is None else x[i] for x in items)
        for s1, c in step(s, t):
            out.append((s1, done if c is None and before and
                        min(before) <= i + 1 else c))
        return out
    return [(s, None if c == done else c)
            for s, c in eng.iterate(st, args[g], fr, body, node)]


def zip_loop(eng, st, args, fr, step, node):
    star = [a for a in args if a[0] == 'star']
    if star:
        key = ('call', bi('zip'), tuple(
            ('star', canon_iter(eng, st, a[1])) if a[0] == 'star' else
            canon_iter(eng, st, a) for a in args), ())
        return eng.generic_loop(st, key, fr, step)
    items = [concrete_items(eng, st, a) for a in args]
    if items and all(i is not None for i in items):
        return eng.unroll(st, [('tuple',) + tuple(t)
                               for t in zip(*items)], step)
    if eng.stubs and sum(1 for i in items if i is None) == 1:
        a = args[items.index(None)]
        if isref(a) and st.heap[a[1]].kind in ('gen', 'genexp') and \
                not st.heap[a[1]].attrs.get('started'):
            return zip_gen(eng, st, args, items, fr, step, node)
    # one concrete list against symbolic ones of (assumed) enough items: the
    # symbolic ones are indexed, and may end early
    keys = [canon_iter(eng, st, a) for a in args]
    # arguments which are repository generators cannot be run in lock step
    if len(set(keys)) == 1:
        key = keys[0]
    else:
        key = ('call', bi('zip'), tuple(keys), ())
    n = eng.depth_of(key)
    segs = [eng.segs(st, a) if not isref(a) or st.heap[a[1]].kind in (
        'list', 'tuplist') else None for a in args]
    # two lists built by the same loop are iterated as that loop
    eachkey = None
    for sg in segs:
        if sg is not None and len(sg) == 1 and sg[0][0] == 'each' and len(
                sg[0][2]) == 1 and not sg[0][2][0][0]:
            eachkey = sg[0][1]
    if eachkey is not None:
        def canon(sg, k):
            return k == eachkey or (
                sg is not None and len(sg) == 1 and sg[0][0] == 'each'
                and sg[0][1] == eachkey and len(sg[0][2]) == 1
                and not sg[0][2][0][0])
        if all(canon(sg, k) for sg, k in zip(segs, keys)):
            n = eng.depth_of(eachkey)
            v = ('tuple',) + tuple(item_at(eng, st, a, eachkey, n)
                                   for a in args)
            return eng.run_loop(st, eachkey, lambda s: step(s, v), node)
    v = ('tuple',) + tuple(item_at(eng, st, a, key, n) for a in args)
    return eng.run_loop(st, key, lambda s: step(s, v), node)


def known_groups(eng, st, it, keyf, fr, step, node):
    """the groups of known items, None if they are not known"""
    items = concrete_items(eng, st, it)
    if items is None or len(items) > 40:
        return None
    live = [(st, (), None)]          # state, groups, exit
    for v in items:
        nxt = []
        for s, gs, c in live:
            if c is not None:
                nxt.append((s, gs, c))
                continue
            for s1, k in ([(s, v)] if keyf == NONE else
                          eng.call(s, keyf, [v], [], fr)):
                if isinstance(k, X):
                    nxt.append((s1, gs, (k.kind, k.val)))
                    continue
                if not gs:
                    nxt.append((s1, ((k, (v,)),), None))
                    continue
                for s2, same in eng.equal(s1, k, gs[-1][0], fr):
                    if isinstance(same, X):
                        nxt.append((s2, gs, (same.kind, same.val)))
                    elif same:
                        nxt.append((s2, gs[:-1] + (
                            (gs[-1][0], gs[-1][1] + (v,)),), None))
                    else:
                        nxt.append((s2, gs + ((k, (v,)),), None))
        live = nxt
        if len(live) > eng.MAXSTATES:
            raise E.Blowup('groupby')
    out = []
    for s, gs, c in live:
        cur = [(s, None)]
        for k, vs in gs:
            nxt = []
            for s1, c1 in cur:
                if c1 is not None:
                    nxt.append((s1, c1))
                    continue
                g = mkiter(eng, s1, 'iter', eng.mklist(s1, list(vs)))
                for s2, c2 in step(s1, ('tuple', k, g)):
                    # a group is lost when the next one is asked for
                    if c2 is None:
                        eng.setobj(s2, g, attrs=dict(
                            s2.heap[g[1]].attrs, spent='all'))
                    nxt.append((s2, c2))
            cur = nxt
        out.extend((s1, c if c1 is None else c1) for s1, c1 in cur)
    return out


def groupby_loop(eng, st, args, fr, step, node):
    it, keyf = args
    r = known_groups(eng, st, it, keyf, fr, step, node)
    if r is not None:
        return r
    src = canon_iter(eng, st, it)
    fk = eng.freeze(st, keyf)
    key = ('call', ('ext', 'itertools.groupby'), (src, fk), ())
    n = eng.depth_of(key)
    group = ('group', src, fk, n)
    out = []
    member = ('elem', group, 0)
    if src in eng.types_elem:
        eng.types_elem[group] = eng.types_elem[src]

    def body(s):
        res = []
        if keyf == NONE:
            outs = [(s, member)]
        else:
            outs = eng.call(s, keyf, [member], [], fr)
        for s1, kv in outs:
            if isinstance(kv, X):
                res.append((s1, (kv.kind, kv.val)))
            else:
                res.extend(step(s1, ('tuple', kv, group)))
        return res
    return eng.run_loop(st, key, body, node)


def range_loop(eng, st, args, fr, step):
    args = [eng.freeze(st, a) for a in args]
    if len(args) == 1 and args[0][0] == 'call' and args[0][1] == LEN:
        x = args[0][2][0]
        n = eng.depth_of(x)
        return eng.run_loop(st, x, lambda s: step(s, ('idx', x, n)), None)
    if all(isk(a) and a[1] == 'int' for a in args):
        r = list(range(*[a[2] for a in args]))
        if len(r) <= eng.UNROLL * 4:
            return eng.unroll(st, [K(i) for i in r], step)
    if len(args) == 2 and args[0] == K(0):
        args = args[1:]
    key = ('call', bi('range'), tuple(args), ())
    n = eng.depth_of(key)
    v = ('idx', key, n) if len(args) == 1 else ('elem', key, n)
    return eng.run_loop(st, key, lambda s: step(s, v), None)


def tolist(eng, st, v, fr, kind='list'):
    """-> [(state, new list ref)]"""
    items = concrete_items(eng, st, v)
    if isref(v) and st.heap[v[1]].kind == 'iter' and items is not None and \
            st.heap[v[1]].attrs['op'] in ('iter', 'reversed', 'enumerate'):
        eng.setobj(st, v, attrs=dict(st.heap[v[1]].attrs, spent='all'))
    if items is not None:
        return [(st, eng.mklist(st, items, kind))]
    ck = eng.ckind(st, v)
    if ck in ('list', 'tuple', 'set') and eng.segs(st, v) is not None:
        return [(st, eng.alloc(st, kind, segs=eng.segs(st, v)))]
    if not isref(v) and not eng.typeof(st, v) and v not in st.cont and \
            not isk(v):
        fv = eng.freeze(st, v)
        if fv[0] == 'call' and fv[1] in (bi('iter'), bi('list')) and \
                len(fv[2]) == 1:
            fv = fv[2][0]
        return [(st, eng.alloc(st, kind, segs=(('splat', fv),)))]
    lst = eng.alloc(st, kind)

    def step(s, x):
        o = s.heap[lst[1]]
        s.heap[lst[1]] = o.clone(segs=o.segs + (('one', x),))
        return [(s, None)]
    out = []
    for s, c in eng.iterate(st, v, fr, step, None):
        out.append((s, lst if c is None else X(c[0], c[1])))
    return out


# ---------------------------------------------------------------- builtins
def raise_fork(eng, st, what, term, excname, fr):
    """an operation on an unknown value which may raise"""
    atom = ('bad', what, term)
    if eng.loading:
        return [(st, True)]
    if not (eng.catch_wants(excname) or eng.strict_val):
        if st.facts.get(atom) is True:
            return [(st, False)]
        return [(st, True)]
    return [(s, not r) for s, r in eng.assume(st, atom)]


# how many arguments the builtins take
ARITY = dict.fromkeys('len all any repr id hash abs ord chr reversed '
                      'callable'.split(), (1, 1))
ARITY.update(dict.fromkeys('isinstance hasattr issubclass filter divmod '
                           'cmp'.split(), (2, 2)))
ARITY.update(dict.fromkeys('float list tuple set bool str vars dir'.split(),
                           (0, 1)))
ARITY.update(getattr=(2, 3), setattr=(3, 3), delattr=(2, 2), int=(0, 2),
             sorted=(1, 4), sum=(1, 2), map=(2, 99), reduce=(2, 3),
             iter=(1, 2), next=(1, 2), enumerate=(1, 2), xrange=(1, 3),
             range=(1, 3), round=(1, 2), min=(1, 99), max=(1, 99),
             open=(1, 3), file=(1, 3))


def call_ext(eng, st, name, args, kw, fr, node):
    if name.startswith('__builtin__.'):
        f = globals().get('f_' + name[12:])
        short = name[12:]
        if short in ARITY and not any(a[0] == 'star' for a in args) and \
                not ARITY[short][0] <= len(args) + len(kw) <= ARITY[short][1]:
            return [(st, E.X('raise', eng.mkexc(
                st, '__builtin__.TypeError', [K('arguments of ' + short)])))]
        if f is not None and not any(a[0] == 'star' for a in args) or \
                short in ('zip',):
            if short in ('zip', 'enumerate', 'map') and not kw:
                for i, a in enumerate(args):
                    if isref(a) and st.heap[a[1]].kind == 'inst' and \
                            eng.class_lookup(st, st.heap[a[1]].cls,
                                             '__iter__')[0] is not None \
                            and (i or short != 'map'):
                        out = []
                        for s, v in eng.call_attr(st, a, '__iter__', [], [],
                                                  fr):
                            if isinstance(v, E.X) or v == a:
                                return eng.opaque_call(
                                    st, ('ext', name), args, kw, fr, node)
                            out.extend(call_ext(
                                eng, s, name, args[:i] + [v] + args[i + 1:],
                                kw, fr, node))
                        return out
            r = f(eng, st, args, kw, fr, node)
            if r is not None:
                return r
        if short in EXC_BASES:
            return [(st, ('excinst', ('ext', name), ('tuple',) + tuple(
                eng.freeze(st, a) for a in args)))]
        if short == 'slice' and not kw and 1 <= len(args) <= 3:
            a = [eng.freeze(st, x) for x in args]
            a = [NONE] + a if len(a) == 1 else a
            return [(st, ('slice',) + tuple(a + [NONE] * (3 - len(a))))]
        if short in ('hash', 'repr', 'abs', 'round', 'ord', 'chr', 'unicode',
                     'pow', 'divmod', 'format', 'dir', 'cmp', 'object',
                     'frozenset', 'complex', 'long', 'slice', 'bytes',
                     'callable', 'issubclass', 'id', 'hex', 'oct', 'bin'):
            return eng.opaque_call(st, ('ext', name), args, kw, fr, node,
                                   pure=True)
        return eng.opaque_call(st, ('ext', name), args, kw, fr, node)
    f = EXTCALLS.get(name)
    if f is not None:
        r = f(eng, st, args, kw, fr, node)
        if r is not None:
            return r
    if name.startswith('exceptions.') and bare(name) in EXC_BASES:
        return [(st, ('excinst', ('ext', '__builtin__.' + bare(name)), (
            'tuple',) + tuple(eng.freeze(st, a) for a in args)))]
    if name.startswith('logging.'):
        eng.emit(st, 'log', name, args, kw)
        return [(st, NONE if name != 'logging.getLogger' else
                 ('ext', 'logging.logger'))]
    if name.startswith('os.path.') or name.startswith('math.') or \
            name.startswith('re.') or name in PURE_FUNCS:
        if name.startswith('math.') and eng.hazards:
            eng.emit(st, 'hazard', name, args, [
                eng.freeze(st, a) for a in args])
        out = []
        if name.startswith('math.') and len(args) == 1:
            fa = eng.freeze(st, args[0])
            if isk(fa):
                import math
                try:
                    r = getattr(math, name[5:])(kval(fa))
                    if isinstance(r, int):
                        r = float(r)      # Python 2: ceil/floor give floats
                    return [(st, K(r))]
                except (ValueError, OverflowError) as e:
                    return [(st, exc(eng, st, type(e).__name__))]
        return eng.opaque_call(st, ('ext', name), args, kw, fr, node,
                               pure=True)
    return eng.opaque_call(st, ('ext', name), args, kw, fr, node)


PURE_FUNCS = set('''decimal.Decimal copy.copy copy.deepcopy datetime.timedelta
numpy.array numpy.log10 numpy.sqrt collections.deque'''.split()) - set([
    'copy.copy', 'copy.deepcopy'])


def f_len(eng, st, args, kw, fr, node):
    v = plain_vars(eng, st, args[0])
    if iskstr(v):
        return [(st, K(len(v[2])))]
    if v == NONE or isk(v) or v[0] in ('func', 'bound', 'mod') or \
            isref(v) and st.heap[v[1]].kind in ('gen', 'genexp', 'iter'):
        return [(st, exc(eng, st, 'TypeError', 'len'))]
    t = eng.typeof(st, v)
    if v[0] == 'cls':
        mc = metaclass(eng, st, v[1])
        if mc and eng.class_lookup(st, mc, '__len__')[0]:
            return eng.call(st, eng.class_lookup(st, mc, '__len__')[0],
                            [v], [], fr)
    if t and v[0] != 'nt' and eng.class_lookup(st, t, '__len__')[0]:
        return eng.call_attr(st, v, '__len__', [], [], fr)
    items = concrete_items(eng, st, v)
    if items is not None:
        if eng.ckind(st, v) == 'set' and not all(isk(i) for i in items) \
                and len(items) > 1:
            return [(st, ('call', LEN, (eng.freeze(st, v),), ()))]
        if eng.ckind(st, v) == 'set':
            return [(st, K(len(set(items))))]
        return [(st, K(len(items)))]
    if eng.ckind(st, v) in ('list', 'tuple'):
        segs = eng.segs(st, v)
        if len(segs) == 1:
            s = segs[0]
            if s[0] == 'splat':
                return [(st, ('call', LEN, (eng.freeze(st, s[1]),), ()))]
            if s[0] == 'each' and all(
                    len(a[1]) == 1 and a[1][0][0] == 'one' for a in s[2]) \
                    and (len(s[2]) == 1 and not s[2][0][0]):
                return [(st, ('call', LEN, (s[1],), ()))]
    if isref(v) and st.heap[v[1]].kind == 'iter':
        return [(st, ('call', LEN, (canon_iter(eng, st, v),), ()))]
    return [(st, ('call', LEN, (eng.freeze(st, v),), ()))]


def one_type(eng, st, v, c):
    """isinstance(v, c): True/False/None"""
    tv = eng.typeof(st, v)
    if c[0] == 'cls':
        if tv:
            return c[1] in eng.mro(st, tv)
        if v[0] in ('k', 'str', 'func', 'list', 'dict', 'tuple', 'excinst',
                    'set', 'tuplist', 'bound', 'mod', 'cm', 'sm', 'prop', 'ext',
                    'ntmake', 'idx') or isref(v):
            return False
        if v[0] == 'cls':
            mc = metaclass(eng, st, v[1])
            return bool(mc and c[1] in eng.mro(st, mc))
        return None
    if c[0] != 'ext':
        return None
    nm = bare(c[1])
    if tv and v[0] != 'nt':
        for b in eng.ext_bases(st, tv):
            if b == c or b[0] == 'ext' and bare(b[1]) in EXC_BASES and \
                    exc_is(bare(b[1]), nm):
                return True
        return nm == 'object'
    if v == ('s', '?i'):
        return nm in ('int', 'long', 'object')
    if isk(v):
        kind = v[1]
        if nm in ('str', 'basestring'):
            return kind == 'str'
        if nm == 'int':
            return kind in ('int', 'bool')
        if nm in ('float', 'bool'):
            return kind == nm
        if nm == 'object':
            return True
        if nm == 'collections.Iterable' and kind != 'other':
            return kind == 'str'
        if nm in ('complex', 'list', 'tuple', 'dict', 'set', 'unicode',
                  'long', 'type', 'file'):
            return False
        return None
    if v[0] == 'str':
        return nm in ('str', 'basestring', 'object')
    if v[0] == 'excinst':
        r = eng.exc_match(st, v, c)
        return r
    if v[0] == 'idx':
        return nm in ('int', 'object')
    if v[0] == 'slice':
        return nm in ('slice', 'object')
    kind = eng.ckind(st, v)
    if kind is not None:
        if nm == 'collections.Iterable' and kind in (
                'list', 'dict', 'set', 'tuple', 'gen', 'genexp', 'iter'):
            return True
        if nm in ('list', 'dict', 'set', 'tuple'):
            return kind == nm
        if nm in ('str', 'basestring', 'int', 'float', 'bool', 'unicode'):
            return False
    if v[0] == 'cls':
        return nm in ('type', 'object')
    if v[0] in ('func', 'bound'):
        return nm == 'object'
    return None


def f_isinstance(eng, st, args, kw, fr, node):
    v, c = args
    cs = c[1:] if c[0] == 'tuple' else (c,)
    fv = eng.freeze(st, v) if not isref(v) else v
    cur = [(st, False)]
    for x in cs:
        nxt = []
        for s, r in cur:
            if r:
                nxt.append((s, r))
                continue
            k = one_type(eng, s, v, x)
            if k is not None:
                nxt.append((s, k))
                continue
            nm = eng.qualcls(x[1]) if x[0] == 'cls' else (
                x[1] if x[0] == 'ext' else pp(eng.freeze(s, x)))
            nm = nm.replace('__builtin__.', '')
            for s1, b in eng.assume(s, ('isinst', fv, nm)):
                if b and x[0] == 'cls':
                    s1.facts[('typed', fv)] = x[1]
                nxt.append((s1, b))
        cur = nxt
    return [(s, K(bool(r))) for s, r in cur]


def x_isnan(eng, st, args, kw, fr, node):
    return [(s, K(r)) for s, r in eng.assume(
        st, ('nan', eng.freeze(st, args[0])))]


def x_isclass(eng, st, args, kw, fr, node):
    a = args[0] if args else kw[0][1]
    if a[0] == 'cls':
        return [(st, TRUE)]
    if a[0] in ('k', 'func', 'mod', 'tuple', 'str', 'bound', 'partial',
                'globals', 'vars') or isref(a):
        return [(st, FALSE)]
    if a[0] == 'ext':
        last = a[1].rsplit('.', 1)[-1]
        return [(st, K(last[:1].isupper() or last in (
            'int', 'str', 'float', 'list', 'dict', 'set', 'tuple', 'object',
            'type', 'property', 'classmethod', 'staticmethod', 'unicode',
            'bool', 'long', 'file', 'partial', 'defaultdict', 'deque',
            'groupby', 'izip', 'imap', 'count')))]
    return [(s, K(b)) for s, b in eng.assume(
        st, ('isclass', eng.freeze(st, a)))]


def f_issubclass(eng, st, args, kw, fr, node):
    a, c = args
    cs = c[1:] if c[0] == 'tuple' else (c,)
    if a[0] == 'cls':
        m = eng.mro(st, a[1])
        res = []
        for x in cs:
            res.append((x[1] if x[0] == 'cls' else x) in m)
        return [(st, K(any(res)))]
    if a[0] in ('k', 'str', 'tuple', 'idx', 'slice') or isref(a) or \
            eng.typeof(st, a):
        return [(st, exc(eng, st, 'TypeError',
                         'issubclass() arg 1 must be a class'))]
    if a[0] == 'ext' and all(x[0] == 'cls' for x in cs):
        return [(st, FALSE)]      # a library class cannot derive from ours
    return [(s, K(b)) for s, b in eng.assume(
        st, ('issub', eng.freeze(st, a), eng.freeze(st, c)))]


def f_getattr(eng, st, args, kw, fr, node):
    b, name = args[0], eng.freeze(st, args[1])
    if isk(name) and not iskstr(name) or \
            eng.ckind(st, args[1]) in ('list', 'dict', 'tuple', 'set'):
        return [(st, exc(eng, st, 'TypeError', 'attribute name'))]
    if not iskstr(name):
        return eng.opaque_call(st, bi('getattr'), args, kw, fr, node,
                               pure=True)
    if len(args) == 2:
        return eng.getattr_(st, b, name[2], fr)
    known = b[0] in ('cls', 'mod', 'k', 'vars', 'func') or isref(b) or \
        eng.typeof(st, b)
    if b[0] == 'ext':
        return [(s, ('ext', b[1] + '.' + name[2]) if r else args[2])
                for s, r in eng.assume(st, ('hasattr', b, name[2]))]
    if known:
        out = []
        for s, v in eng.getattr_(st, b, name[2], fr):
            if isinstance(v, X) and v.kind == 'raise' and \
                    v.val[0] == 'excinst' and \
                    v.val[1] == bi('AttributeError'):
                out.append((s, args[2]))
            else:
                out.append((s, v))
        return out
    fb = eng.freeze(st, b)
    if (b, name[2]) in st.over:
        return [(st, st.over[(b, name[2])])]
    out = []
    for s, r in eng.assume(st, ('hasattr', fb, name[2])):
        if r:
            out.extend(eng.getattr_(s, b, name[2], fr))
        else:
            out.append((s, args[2]))
    return out


def f_hasattr(eng, st, args, kw, fr, node):
    b, name = args[0], eng.freeze(st, args[1])
    if isref(b) and st.heap[b[1]].kind in ('list', 'dict', 'set', 'tuplist',
                                           'gen', 'genexp', 'iter'):
        if iskstr(name):
            return [(st, K(hasattr({'list': [], 'dict': {}, 'set': set(),
                                    'tuplist': ()}.get(
                st.heap[b[1]].kind, iter('')), name[2])))]
    if iskstr(name) and (b[0] in ('cls', 'mod') or isref(b)
                         or eng.typeof(st, b)):
        if name[2] == '__dict__':
            t = eng.typeof(st, b) if b[0] not in ('cls', 'mod') else None
            return [(st, K(not (t and slotted(eng, st, t))))]
        outs = eng.getattr_(st.fork(), b, name[2], fr)
        bad = [v for s, v in outs if isinstance(v, X)]
        if not bad and not (b[0] != 'cls' and not isref(b) and any(
                v[0] == 'attr' for s, v in outs)):
            return [(st, TRUE)]
        if len(bad) == len(outs):
            return [(st, FALSE)]
    if isk(b) and iskstr(name):
        v = {'str': '', 'int': 0, 'float': 0., 'none': None,
             'bool': True}.get(b[1], None)
        return [(st, K(hasattr(v, name[2])))]
    if b[0] in ('str',) and iskstr(name):
        return [(st, K(hasattr('', name[2])))]
    if b[0] == 'tuple' and iskstr(name):
        return [(st, K(hasattr((), name[2])))]
    fb = eng.freeze(st, b)
    return [(s, K(r)) for s, r in eng.assume(
        st, ('hasattr', fb, name[2] if iskstr(name) else name))]


def f_setattr(eng, st, args, kw, fr, node):
    name = eng.freeze(st, args[1])
    if iskstr(name):
        return eng.setattr_(st, args[0], name[2], args[2], fr)
    eng.emit(st, 'setattr', name, (args[0], args[2]), (
        eng.freeze(st, args[0]), eng.freeze(st, args[2])))
    return [(st, NONE)]


def f_float(eng, st, args, kw, fr, node):
    return num(eng, st, 'float', args, fr)


def f_int(eng, st, args, kw, fr, node):
    return num(eng, st, 'int', args, fr)


def f_long(eng, st, args, kw, fr, node):
    return num(eng, st, 'int', args, fr)


def num(eng, st, what, args, fr):
    if not args:
        return [(st, K(0.0 if what == 'float' else 0))]
    v = args[0]
    if isk(v) and len(args) == 1:
        try:
            x = kval(v)
            r = float(x) if what == 'float' else int(x)
            return [(st, K(r))]
        except (ValueError, TypeError, OverflowError) as e:
            return [(st, exc(eng, st, type(e).__name__, 'conversion'))]
    t = eng.typeof(st, v)
    if t and eng.class_lookup(st, t, '__%s__' % what)[0]:
        return eng.call_attr(st, v, '__%s__' % what, [], [], fr)
    fv = eng.freeze(st, v)
    if what == 'float' and fv[0] == 'call' and fv[1] == bi('float'):
        return [(st, fv)]
    if what == 'int' and fv[0] == 'call' and fv[1] in (bi('int'), LEN):
        return [(st, fv)]
    if what == 'int' and fv[0] == 'idx':
        return [(st, fv)]
    if fv[0] == 'call' and fv[1] == LEN:
        return [(st, pure(what, fv))]
    out = []
    extra = tuple(eng.freeze(st, a) for a in args[1:])
    if what == 'int' and eng.hazards and isfloatterm(fv):
        eng.emit(st, 'hazard', 'intofloat', args, [fv])
        return [(st, pure(what, fv, *extra))]
    if isnumterm(fv):
        return [(st, pure(what, fv, *extra))]
    for s, ok in raise_fork(eng, st, what, fv, 'ValueError', fr):
        if ok:
            out.append((s, pure(what, fv, *extra)))
        else:
            out.append((s, exc(eng, s, 'ValueError', (
                'str', ('invalid literal: ', ('fmt', 's', fv))))))
    return out


def isfloatterm(t):
    return t[0] == 'call' and t[1] == bi('float') or (
        isk(t) and t[1] == 'float') or (
        t[0] == 'call' and t[1][0] == 'ext' and
        t[1][1].startswith('math.')) or (
        t[0] == 'bin' and (isfloatterm(t[2]) or isfloatterm(t[3])))


def isnumterm(t):
    return isknum(t) or t[0] in ('idx', 'bin') or (
        t[0] == 'call' and t[1] in (bi('float'), bi('int'), LEN)) or (
        t[0] == 'call' and t[1][0] == 'ext' and
        t[1][1].startswith('math.')) or t[0] == 'un'


def f_str(eng, st, args, kw, fr, node):
    if not args:
        return [(st, K(''))]
    return tostr(eng, st, args[0], fr)


def f_repr(eng, st, args, kw, fr, node):
    v = args[0]
    if isk(v):
        return [(st, K(repr(kval(v))))]
    return [(st, ('str', (('fmt', 'r', eng.freeze(st, v)),)))]


def f_bool(eng, st, args, kw, fr, node):
    if not args:
        return [(st, FALSE)]
    return [(s, b if isinstance(b, X) else K(b))
            for s, b in eng.truth(st, args[0], fr)]


def f_list(eng, st, args, kw, fr, node):
    if not args:
        return [(st, eng.alloc(st, 'list'))]
    return tolist(eng, st, args[0], fr)


def f_set(eng, st, args, kw, fr, node):
    if not args:
        return [(st, eng.alloc(st, 'set'))]
    out = []
    for s, l in tolist(eng, st, args[0], fr, 'set'):
        if not isinstance(l, X):
            items = concrete_items(eng, s, l)
            if items is not None and all(isk(i) for i in items):
                seen = []
                for i in items:
                    if i not in seen:
                        seen.append(i)
                eng.setsegs(s, l, tuple(('one', i) for i in seen))
        out.append((s, l))
    return out


f_frozenset = f_set


def f_tuple(eng, st, args, kw, fr, node):
    if not args:
        return [(st, ('tuple',))]
    out = []
    for s, l in tolist(eng, st, args[0], fr, 'tuplist'):
        if not isinstance(l, X):
            items = concrete_items(eng, s, l)
            if items is not None:
                l = ('tuple',) + tuple(items)
        out.append((s, l))
    return out


def f_dict(eng, st, args, kw, fr, node):
    d = eng.alloc(st, 'dict')
    cur = [(st, None)]
    if args:
        src = args[0]
        if eng.ckind(st, src) == 'dict':
            eng.setsegs(st, d, eng.segs(st, src))
        elif src[0] == 'vars':
            d2 = vars_dict(eng, st, src)
            if d2 is not None:
                eng.setsegs(st, d, eng.segs(st, d2))
            else:
                eng.setsegs(st, d, (('splat', eng.freeze(st, src)),))
        elif isref(src) or eng.segs(st, src) is not None:
            def step(s, v):
                items = eng.unpack(s, v, 2)
                if items is None:
                    return [(s, ('raise', exc(
                        eng, s, 'ValueError', 'unpack').val))]
                return eng.vals2ctl(setitem(eng, s, d, items[0], items[1],
                                            fr, True))
            cur = eng.iterate(st, src, fr, step, node)
        else:
            fv = eng.freeze(st, src)
            eng.setsegs(st, d, (('splat', fv),))
    out = []
    for s, c in cur:
        if c is not None:
            out.append((s, X(c[0], c[1])))
            continue
        for k, v in kw:
            if k == '**':
                eng.setsegs(s, d, eng.segs(s, d) + (('splat', v),))
            else:
                setitem(eng, s, d, K(k), v, fr, True)
        out.append((s, d))
    return out


def x_ordereddict(eng, st, args, kw, fr, node):
    out = f_dict(eng, st, args, kw, fr, node)
    for s, d in out:
        if isref(d) and s.heap[d[1]].kind == 'dict':
            eng.setobj(s, d, attrs={'ordered': TRUE})
    return out


def x_defaultdict(eng, st, args, kw, fr, node):
    out = []
    for s, d in f_dict(eng, st, args[1:], kw, fr, node):
        if not isinstance(d, X) and args and args[0] != NONE:
            eng.setobj(s, d, attrs={'default': args[0]})
        out.append((s, d))
    return out


def f_enumerate(eng, st, args, kw, fr, node):
    start = args[1] if len(args) > 1 else dict(kw).get('start', K(0))
    return [(st, mkiter(eng, st, 'enumerate', args[0], start))]


def f_zip(eng, st, args, kw, fr, node):
    return [(st, mkiter(eng, st, 'zip', *args))]


def f_range(eng, st, args, kw, fr, node):
    fz = [eng.freeze(st, a) for a in args]
    if all(isk(a) and a[1] == 'int' for a in fz):
        r = list(range(*[a[2] for a in fz]))
        if len(r) <= eng.UNROLL * 4:
            return [(st, eng.mklist(st, [K(i) for i in r]))]
    if len(fz) == 2 and fz[0] == K(0):
        args = args[1:]
    return [(st, mkiter(eng, st, 'range', *args))]


f_xrange = f_range


def f_iter(eng, st, args, kw, fr, node):
    v = args[0]
    if len(args) > 1:
        return None
    if isref(v) and st.heap[v[1]].kind in ('iter', 'gen', 'genexp'):
        return [(st, v)]
    t = eng.typeof(st, v)
    if t and eng.class_lookup(st, t, '__iter__')[0]:
        return eng.call_attr(st, v, '__iter__', [], [], fr)
    if isref(v) or eng.segs(st, v) is not None:
        return [(st, mkiter(eng, st, 'iter', v))]
    return [(st, ('call', bi('iter'), (eng.freeze(st, v),), ()))]


def f_next(eng, st, args, kw, fr, node):
    it = args[0]
    t = eng.typeof(st, it)
    if t and eng.class_lookup(st, t, 'next')[0]:
        return eng.call_attr(st, it, 'next', [], [], fr)
    dflt = args[1] if len(args) > 1 else None
    return next_item(eng, st, it, dflt, fr, node)


def materialise(eng, st, it, o, fr):
    """the states after computing in advance the items of a generator which
    has no effect on anything else and cannot fail, or None"""
    trial = st.fork()
    items = eng.mklist(trial, [])

    def step(s, v):
        segs = s.heap[items[1]].segs
        eng.setobj(s, items, segs=segs + (('one', v),))
        return [(s, None)]
    try:
        outs = eng.run_gen(trial, it, fr, step)
    except type(eng).BLOWUP:
        return None
    own = o.attrs['env']
    for s, c in outs:
        if c is not None or s.ev != st.ev or s.over != st.over or \
                s.cont != st.cont:
            return None
        for e in st.envs:
            if e != own and s.envs.get(e) != st.envs[e]:
                return None
        for r in st.heap:
            if r != it[1] and s.heap.get(r) is not st.heap[r] and (
                    s.heap.get(r) != st.heap[r]):
                return None
        if any(seg[0] != 'one' for seg in s.heap[items[1]].segs):
            return None
    for s, c in outs:
        s.heap[it[1]] = type(o)('iter', attrs=dict(op='iter', args=(items,)))
    return [s for s, c in outs]


def next_item(eng, st, it, dflt, fr, node):
    """next(it)"""
    if isref(it):
        o = st.heap[it[1]]
        if o.kind == 'iter' and o.attrs['op'] == 'count':
            v = o.attrs['args'][0]
            nxt = binop(eng, st, 'Add', v, o.attrs['args'][1], fr)[0][1]
            eng.setobj(st, it, attrs=dict(
                op='count', args=(nxt, o.attrs['args'][1])))
            return [(st, v)]
        if o.kind == 'iter' and o.attrs['op'] in ('iter', 'reversed'):
            items = concrete_items(eng, st, it)
            if items is not None:
                if not items:
                    return [(st, dflt if dflt is not None else
                             exc(eng, st, 'StopIteration'))]
                rest = eng.mklist(st, items[1:])
                eng.setobj(st, it, attrs=dict(op='iter', args=(rest,)))
                return [(st, items[0])]
            segs = eng.segs(st, o.attrs['args'][0])
            if segs and segs[0][0] == 'one' and o.attrs['op'] == 'iter':
                rest = eng.alloc(st, 'list', segs=segs[1:])
                eng.setobj(st, it, attrs=dict(op='iter', args=(rest,)))
                return [(st, segs[0][1])]
        if o.kind in ('gen', 'genexp'):
            if o.attrs.get('started') or o.attrs.get('spent') == 'part':
                return eng.opaque_call(
                    st, ('attr', it, 'next'), [], [], fr, node)
            if o.attrs.get('spent') == 'all':
                return [(st, dflt if dflt is not None else
                         exc(eng, st, 'StopIteration'))]
            if eng.stubs and o.kind == 'gen':
                outs = materialise(eng, st, it, o, fr)
                if outs is not None:
                    return [r for s in outs
                            for r in next_item(eng, s, it, dflt, fr, node)]

            def step(s, v):
                return [(s, ('break', v))]
            out = []
            for s, c in eng.run_gen(st, it, fr, step):
                if c is None:
                    out.append((s, dflt if dflt is not None else
                                exc(eng, s, 'StopIteration')))
                elif c[0] == 'break':
                    eng.setobj(s, it, attrs=dict(
                        s.heap[it[1]].attrs, started=True))
                    eng.emit(s, 'suspended', o.attrs.get('qual'), [it])
                    out.append((s, c[1]))
                else:
                    out.append((s, X(c[0], c[1])))
            return out
        if o.kind == 'iter' and o.attrs['op'] == 'groupby':
            # the first group
            def step(s, v):
                return [(s, ('break', v))]
            out = []
            for s, c in iterate_iter(eng, st, o, fr, step, node):
                if c is None:
                    out.append((s, dflt if dflt is not None else
                                exc(eng, s, 'StopIteration')))
                elif c[0] == 'break':
                    out.append((s, c[1]))
                else:
                    out.append((s, X(c[0], c[1])))
            return out
    fi = canon_iter(eng, st, it) if isref(it) else eng.freeze(st, it)
    key = ('next', fi)
    occ = st.occ.get(key, 0)
    st.occ[key] = occ + 1
    term = ('call', bi('next'), (fi,), ()) + ((occ,) if occ else ())
    out = []
    if dflt is not None or eng.catch_wants('StopIteration') or eng.strict_val:
        atom = ('bad', 'next', term)
        for s, bad in eng.assume(st, atom):
            if bad:
                out.append((s, dflt if dflt is not None else
                            exc(eng, s, 'StopIteration')))
            else:
                eng.emit(s, 'call', ('attr', fi, 'next'), (), (), term, node)
                out.append((s, term))
        return out
    eng.emit(st, 'call', ('attr', fi, 'next'), (), (), term, node)
    if eng.catching:
        s2 = st.fork()
        out.append((s2, X('raise', ('extexc', term))))
    return [(st, term)] + out


def f_sorted(eng, st, args, kw, fr, node):
    out = []
    k = dict(kw)
    if len(args) > 2:
        k['key'] = args[2]
    if len(args) > 1 and 'cmp' not in k:
        k['cmp'] = args[1]
    if k.get('cmp') == NONE:
        k.pop('cmp')
    for s, l in tolist(eng, st, args[0], fr):
        if isinstance(l, X):
            out.append((s, l))
        else:
            out.extend(sort_list(eng, s, l, k, fr))
    return out


def less(eng, st, a, b, cmpf, fr):
    """a < b, as a sort asks it"""
    if cmpf is not None:
        out = []
        for s, r in eng.call(st, cmpf, [a, b], [], fr):
            if isinstance(r, X):
                out.append((s, r))
            else:
                out.extend(eng.compare(s, 'Lt', r, K(0), fr))
        return out
    if isk(a) and isk(b) and (a[1] == b[1] == 'str' or isknum(a) and
                              isknum(b)):
        return [(st, kval(a) < kval(b))]
    ta = eng.typeof(st, a)
    if not (ta and eng.class_lookup(st, ta, '__lt__')[0]):
        xs, ys = concrete_items(eng, st, a), concrete_items(eng, st, b)
        ka = 'tuple' if a[0] == 'nt' else eng.ckind(st, a)
        kb = 'tuple' if b[0] == 'nt' else eng.ckind(st, b)
        if a[0] == 'nt':
            xs = list(a[2:])
        if b[0] == 'nt':
            ys = list(b[2:])
        if xs is not None and ys is not None and ka == kb and ka in (
                'tuple', 'list'):
            return less_items(eng, st, xs, ys, fr)
    return eng.compare(st, 'Lt', a, b, fr)


def less_seq(eng, st, op, a, b, fr):
    """the comparison of two tuples"""
    xs = list(a[2:] if a[0] == 'nt' else a[1:])
    ys = list(b[2:] if b[0] == 'nt' else b[1:])
    if op == 'Lt':
        return less_items(eng, st, xs, ys, fr)
    return [(s, r if isinstance(r, X) else not r)
            for s, r in less_items(eng, st, ys, xs, fr)]


def less_items(eng, st, xs, ys, fr):
    if not xs or not ys:
        return [(st, len(xs) < len(ys))]
    if len(xs) == len(ys) == 1:
        return less(eng, st, xs[0], ys[0], None, fr)
    out = []
    for s, e in eng.compare(st, 'Eq', xs[0], ys[0], fr):
        if isinstance(e, X):
            out.append((s, e))
        elif e:
            out.extend(less_items(eng, s, xs[1:], ys[1:], fr))
        else:
            out.extend(less(eng, s, xs[0], ys[0], None, fr))
    return out


def insertion(eng, st, items, k, fr):
    """a stable sort of known items, whose comparisons may split the path"""
    keyf = k.get('key', NONE)
    if keyf == NONE:
        live = [(st, list(zip(items, items)))]
        out = []
    else:
        live, out = [(st, [])], []
        for x in items:
            nxt = []
            for s, l in live:
                for s1, v in eng.call(s, keyf, [x], [], fr):
                    if isinstance(v, X):
                        out.append((s1, v))
                    else:
                        nxt.append((s1, l + [(v, x)]))
            live = nxt
            if len(live) > 60:
                return None
    rev = bool(kval(k.get('reverse', FALSE)))
    res = [(s, [], l[::-1] if rev else l) for s, l in live]
    while any(left for s, done, left in res):
        nxt = []
        for s, done, left in res:
            # from the end: the item goes after the last one not above it
            todo = [(s, len(done))]
            while todo:
                s1, i = todo.pop()
                if i == 0:
                    nxt.append((s1, [left[0]] + done, left[1:]))
                    continue
                for s2, b in less(eng, s1, left[0][0], done[i - 1][0],
                                  k.get('cmp'), fr):
                    if isinstance(b, X):
                        out.append((s2, b))
                    elif b:
                        todo.append((s2, i - 1))
                    else:
                        nxt.append((s2, done[:i] + [left[0]] + done[i:],
                                    left[1:]))
        res = nxt
        if len(res) > 200:
            return None
    for s, done, left in res:
        vals = [x for v, x in done]
        out.append((s, eng.mklist(s, vals[::-1] if rev else vals)))
    return out


def sort_list(eng, st, l, k, fr):
    """-> [(state, sorted list)] a new list"""
    items = concrete_items(eng, st, l)
    rev = k.get('reverse', FALSE)
    keyf = k.get('key', NONE)
    if items is not None and len(items) <= 1:
        return [(st, eng.mklist(st, items))]
    if items is not None and 'cmp' not in k and isk(rev):
        keys = []
        ok = True
        s = st
        for x in items:
            if keyf == NONE:
                kv = x
            else:
                outs = eng.call(s, keyf, [x], [], fr)
                if len(outs) != 1 or isinstance(outs[0][1], X):
                    ok = False
                    break
                s, kv = outs[0]
            fk = eng.freeze(s, kv)
            if not isk(fk) and not (fk[0] == 'tuple' and all(
                    isk(y) for y in fk[1:])):
                ok = False
                break
            keys.append(kval(fk) if isk(fk) else tuple(
                kval(y) for y in fk[1:]))
        if ok:
            try:
                order = sorted(range(len(items)), key=lambda i: keys[i],
                               reverse=bool(kval(rev)))
                return [(s, eng.mklist(s, [items[i] for i in order]))]
            except TypeError:
                pass
    if eng.stubs and items is not None and len(items) <= 12 and isk(rev):
        r = insertion(eng, st, items, k, fr)
        if r is not None:
            return r
    kws = tuple(sorted((a, eng.freeze(st, b)) for a, b in k.items()
                       if not (a == 'reverse' and b == FALSE)
                       and not (a == 'key' and b == NONE)))
    src = canon_iter(eng, st, l)
    term = ('call', bi('sorted'), (src,), kws)
    if src in eng.types_elem:
        eng.types_elem[term] = eng.types_elem[src]
    else:
        segs = eng.segs(st, l)
        ts = set()
        for x in E.seg_values(segs):
            t = eng.typeof(st, x)
            ts.add(t)
        if len(ts) == 1 and None not in ts:
            eng.types_elem = dict(eng.types_elem)
            eng.types_elem[term] = ts.pop()
    eng.emit(st, 'sorted', None, (l,), (term,))
    return [(st, eng.alloc(st, 'list', segs=(('splat', term),)))]


def f_reversed(eng, st, args, kw, fr, node):
    items = concrete_items(eng, st, args[0])
    if items is not None:
        return [(st, mkiter(eng, st, 'iter', eng.mklist(st, items[::-1])))]
    return [(st, mkiter(eng, st, 'reversed', args[0]))]


def f_type(eng, st, args, kw, fr, node):
    if len(args) == 3:
        return None
    v = args[0]
    t = eng.typeof(st, v)
    if t:
        return [(st, ('cls', t))]
    if v[0] == 'excinst':
        return [(st, v[1])]
    if v[0] == 'cls':
        mc = metaclass(eng, st, v[1])
        return [(st, ('cls', mc) if mc else bi('type'))]
    if isk(v):
        return [(st, bi({'none': 'NoneType'}.get(v[1], v[1])))]
    if v[0] == 'str':
        return [(st, bi('str'))]
    k = eng.ckind(st, v)
    if k in ('list', 'dict', 'set', 'tuple') and (isref(v) or v[0] in (
            'tuple', 'list', 'dict', 'set')):
        return [(st, bi(k))]
    return [(st, pure('type', eng.freeze(st, v)))]


def f_vars(eng, st, args, kw, fr, node):
    if not args:
        return None
    return [(st, ('vars', args[0]))]


def f_id(eng, st, args, kw, fr, node):
    return [(st, pure('id', args[0] if isref(args[0]) else
                      eng.freeze(st, args[0])))]


def minmax(which):
    def f(eng, st, args, kw, fr, node):
        if len(args) == 1:
            out = []
            for s, l in tolist(eng, st, args[0], fr):
                if isinstance(l, X):
                    out.append((s, l))
                    continue
                items = concrete_items(eng, s, l)
                if items is not None and items and not kw and all(
                        isknum(i) for i in items):
                    vals = [kval(i) for i in items]
                    out.append((s, K(min(vals) if which == 'min'
                                     else max(vals))))
                    continue
                if items is not None and not items:
                    out.append((s, exc(eng, s, 'ValueError', 'empty')))
                    continue
                if items is not None and len(items) == 1:
                    out.append((s, items[0]))
                    continue
                term = ('call', bi(which), (canon_iter(eng, s, l),), tuple(
                    sorted((k, eng.freeze(s, v)) for k, v in kw)))
                out.append((s, term))
            return out
        fz = [eng.freeze(st, a) for a in args]
        if all(isknum(a) for a in fz):
            vals = [kval(a) for a in fz]
            return [(st, K(min(vals) if which == 'min' else max(vals)))]
        return [(st, ('call', bi(which), tuple(fz), tuple(
            sorted((k, eng.freeze(st, v)) for k, v in kw))))]
    return f


f_min = minmax('min')
f_max = minmax('max')


def f_callable(eng, st, args, kw, fr, node):
    if args[0][0] in ('func', 'bound', 'cls', 'partial'):
        return [(st, TRUE)]
    return [(s, K(r)) for s, r in eng.assume(
        st, ('callable', eng.freeze(st, args[0])))]


def f_abs(eng, st, args, kw, fr, node):
    if isknum(args[0]):
        return [(st, K(abs(kval(args[0]))))]
    return None


def f_object(eng, st, args, kw, fr, node):
    o = eng.alloc(st, 'obj')
    return [(st, o)]


def f_open(eng, st, args, kw, fr, node):
    return eng.opaque_call(st, bi('open'), args, kw, fr, node)


f_file = f_open


def f_globals(eng, st, args, kw, fr, node):
    return [(st, ('globals', fr.module))]


def f_apply(eng, st, args, kw, fr, node):
    return None


def x_groupby(eng, st, args, kw, fr, node):
    k = args[1] if len(args) > 1 else dict(kw).get('key', NONE)
    return [(st, mkiter(eng, st, 'groupby', args[0], k))]


def x_izip(eng, st, args, kw, fr, node):
    return f_zip(eng, st, args, kw, fr, node)


def x_count(eng, st, args, kw, fr, node):
    a = list(args) + [K(0), K(1)][len(args):]
    return [(st, mkiter(eng, st, 'count', *a))]


def x_product(eng, st, args, kw, fr, node):
    if kw:
        return None
    return [(st, mkiter(eng, st, 'product', *args))]


def x_islice(eng, st, args, kw, fr, node):
    src = canon_iter(eng, st, args[0])
    return [(st, ('call', ('ext', 'itertools.islice'), (src,) + tuple(
        eng.freeze(st, a) for a in args[1:]), ()))]


def x_namedtuple(eng, st, args, kw, fr, node):
    return namedtuple_class(eng, st, args, kw, fr)


def x_partial(eng, st, args, kw, fr, node):
    return [(st, ('partial', args[0], tuple(args[1:]), tuple(kw)))]


def x_copy(eng, st, args, kw, fr, node):
    v = args[0]
    if isref(v):
        o = st.heap[v[1]]
        if o.kind in ('list', 'dict', 'set', 'inst', 'tuplist'):
            oid = eng.newid(o.kind)
            st.heap[oid] = o.clone(attrs=dict(o.attrs))
            return [(st, ('ref', oid))]
    return eng.opaque_call(st, ('ext', 'copy.copy'), args, kw, fr, node)


def x_decimal(eng, st, args, kw, fr, node):
    if not args:
        return None
    fv = eng.freeze(st, args[0])
    out = []
    if isk(fv) and fv[1] in ('str', 'int', 'float', 'dec'):
        try:
            return [(st, K(decimal.Decimal(kval(fv))))]
        except ArithmeticError:
            return [(st, X('raise', ('excinst', (
                'ext', '__builtin__.ArithmeticError'), ('tuple', K(
                    'Decimal')))))]
    for s, ok in raise_fork(eng, st, 'Decimal', fv, 'ArithmeticError', fr):
        if ok:
            out.append((s, ('call', ('ext', 'decimal.Decimal'), (fv,), ())))
        else:
            out.append((s, X('raise', ('excinst', (
                'ext', '__builtin__.ArithmeticError'), ('tuple', K(
                    'Decimal'))))))
    return out


def x_excinfo(eng, st, args, kw, fr, node):
    cur = eng.handled(st, fr)
    if cur is None:
        return None
    if cur[0] == 'excinst':
        cls = cur[1]
    elif isref(cur) and eng.typeof(st, cur):
        cls = ('cls', eng.typeof(st, cur))
    else:
        return None
    return [(st, ('tuple', cls, cur, ('s', 'traceback')))]


EXTCALLS = {
    'sys.exc_info': x_excinfo,
    'inspect.isclass': x_isclass, 'math.isnan': x_isnan,
    'itertools.groupby': x_groupby, 'itertools.izip': x_izip,
    'itertools.count': x_count, 'itertools.product': x_product,
    'itertools.islice': x_islice,
    'collections.namedtuple': x_namedtuple,
    'collections.OrderedDict': x_ordereddict,
    'collections.defaultdict': x_defaultdict,
    'functools.partial': x_partial, 'copy.copy': x_copy,
    'decimal.Decimal': x_decimal,
}


def is_listinst(eng, st, v):
    """an instance of a subclass of list"""
    o = st.heap[v[1]] if isref(v) else None
    return o is not None and o.kind == 'inst' and (
        '__builtin__.list') in [e[1] for e in eng.ext_bases(st, o.cls)
                                if e[0] == 'ext']


def list_init(eng, st, me, args, fr, node):
    """list.__init__(me, *args)"""
    out = []
    for s, v in eng.call(st, ('ext', '__builtin__.list'), list(args), [], fr,
                         node):
        if isinstance(v, X):
            out.append((s, v))
            continue
        segs = eng.segs(s, v)
        if segs is None:
            segs = (('splat', eng.freeze(s, v)),)
        eng.setobj(s, me, segs=tuple(segs))
        out.append((s, NONE))
    return out


# ---------------------------------------------------------------- methods
def call_method(eng, st, b, name, args, kw, fr, node):
    if b[0] == 'super':
        if name == '__new__' and len(args) == 4 and args[0][0] == 'cls':
            return metanew(eng, st, args)
        if name == '__init__' and len(args) < 2 and not kw and \
                is_listinst(eng, st, b[2]):
            return list_init(eng, st, b[2], args, fr, node)
        if name == '__init__':
            eng.emit(st, 'superinit', ('super', eng.qualcls(b[1])),
                     args, kw)
            o = eng.obj(st, b[2])
            if o is not None and o.kind == 'inst' and 'args' in o.attrs:
                eng.setobj(st, b[2], attrs=dict(
                    o.attrs, args=('tuple',) + tuple(args)))
            return [(st, NONE)]
        if name in ('__enter__', '__exit__', '__setattr__', '__new__'):
            pass
        return eng.opaque_call(st, ('attr', ('super', eng.qualcls(b[1]),
                                             eng.freeze(st, b[2])), name),
                               args, kw, fr, node)
    if b[0] == 'vars':
        d = vars_dict(eng, st, b)
        if name == 'update':
            return vars_update(eng, st, b, args, kw, fr)
        if d is not None:
            return call_method(eng, st, d, name, args, kw, fr, node)
        b = ('attr', b[1], '__dict__')
    if b[0] == 'globals':
        return call_method(eng, st, vars_dict(
            eng, st, ('vars', ('mod', b[1]))), name, args, kw, fr, node)
    if isref(b) and st.heap[b[1]].kind in ('gen', 'genexp', 'iter'):
        if name == 'next':
            return next_item(eng, st, b, None, fr, node)
        if name == 'close':
            eng.emit(st, 'call', ('attr', b, 'close'), (), (), NONE, node)
            return [(st, NONE)]
        if st.heap[b[1]].kind == 'iter':
            out = []
            for s, l in tolist(eng, st, b, fr):
                out.extend([(s, l)] if isinstance(l, X) else
                           call_method(eng, s, l, name, args, kw, fr, node))
            return out
        return eng.opaque_call(st, ('attr', b, name), args, kw, fr, node)
    if name == 'next' and not args and not eng.typeof(st, b):
        return next_item(eng, st, b, None, fr, node)
    if iskstr(b) or b[0] == 'str':
        r = str_method(eng, st, b, name, args, kw, fr)
        if r is not None:
            return r
    kind = eng.ckind(st, b)
    if kind is None and name in MUTATORS and b[0] in (
            'attr', 'item', 'elem', 's', 'call', 'phi', 'base', 'key',
            'fold', 'acc') and not isext(b):
        if not lib_object(b):
            kind0 = {'append': 'list', 'extend': 'list', 'insert': 'list',
                     'sort': 'list', 'reverse': 'list', 'remove': 'list',
                     'update': 'dict', 'setdefault': 'dict',
                     'popitem': 'dict', 'add': 'set', 'discard': 'set'}.get(
                         name)
            if name == 'pop':
                fk = eng.freeze(st, args[0]) if args else K(0)
                kind0 = 'list' if not args or isk(fk) and \
                    fk[1] == 'int' else 'dict'
            if name == 'insert' and len(args) != 2:
                kind0 = None
            if kind0 and not (name in ('add', 'update') and len(args) > 1):
                eng.lift(st, b, kind0)
                kind = kind0
    if kind in ('list', 'tuple'):
        r = list_method(eng, st, b, name, args, kw, fr, node)
        if r is not None:
            return r
    elif kind == 'dict':
        r = dict_method(eng, st, b, name, args, kw, fr, node)
        if r is not None:
            return r
    elif kind == 'set':
        r = set_method(eng, st, b, name, args, kw, fr, node)
        if r is not None:
            return r
    fb = eng.freeze(st, b) if not (isref(b) and st.heap[
        b[1]].kind == 'inst') else b
    if not isext(b):
        if name in ('iteritems', 'items') and not args:
            return [(st, mkiter(eng, st, 'items', b))]
        if name in ('itervalues', 'values') and not args:
            return [(st, mkiter(eng, st, 'values', b))]
        if name in ('iterkeys', 'keys') and not args:
            return [(st, mkiter(eng, st, 'keys', b))]
        if name == 'has_key' and len(args) == 1:
            return [(s, K(r)) for s, r in eng.assume(
                st, ('in', eng.freeze(st, args[0]), fb))]
        if name == 'get' and len(args) in (1, 2) and not kw and \
                fb[0] == 'attr' and fb[2] in ('attrib',) or (
                    name == 'get' and fb in eng.dicts):
            return dict_get(eng, st, fb, args)
        if name == 'get' and len(args) == 1 and not kw or \
                name in PUREMETHODS and name not in ('copy',):
            return eng.opaque_call(st, ('attr', fb, name), args, kw, fr,
                                   node, pure=True)
    return eng.opaque_call(st, ('attr', fb, name), args, kw, fr, node)


def dict_get(eng, st, fb, args):
    fk = eng.freeze(st, args[0])
    return [(s, eng.mkitem(fb, fk) if r else
             (args[1] if len(args) > 1 else NONE))
            for s, r in eng.assume(st, ('in', fk, fb))]


def isext(b):
    return b[0] == 'ext' or b[0] == 'cls'


def lib_object(b):
    """results of external calls whose methods of the same name as those of
    containers are not container operations"""
    if b[0] == 'call' and b[1][0] == 'ext':
        n = b[1][1]
        return n.startswith('zipfile') or n.startswith('psutil') or \
            n.startswith('hashlib')
    return False


def vars_update(eng, st, b, args, kw, fr):
    cur = [(st, NONE)]
    items = [(K(k), v) for k, v in kw if k != '**']
    splats = [v for k, v in kw if k == '**'] + list(args)
    for d in splats:
        segs = eng.segs(st, d) if eng.ckind(st, d) == 'dict' else None
        if segs is not None and all(s[0] == 'kv' and iskstr(s[1])
                                    for s in segs):
            items.extend((s[1], s[2]) for s in segs)
        else:
            eng.emit(st, 'setattr', '**', (b[1], d), (
                eng.freeze(st, b[1]), eng.freeze(st, d)))
            o = eng.obj(st, b[1])
            if o is not None:
                eng.setobj(st, b[1], attrs=dict(
                    o.attrs, **{'**': eng.freeze(st, d)}))
    for k, v in items:
        nxt = []
        for s, r in cur:
            nxt.extend([(s, r)] if isinstance(r, X) else
                       eng.setattr_(s, b[1], k[2], v, fr))
        cur = nxt
    return [(s, r if isinstance(r, X) else NONE) for s, r in cur]


def str_method(eng, st, b, name, args, kw, fr):
    if name == 'format' and iskstr(b):
        return strformat(eng, st, b, args, kw, fr)
    if name == 'join' and len(args) == 1:
        out = []
        for s, l in tolist(eng, st, args[0], fr):
            if isinstance(l, X):
                out.append((s, l))
                continue
            items = concrete_items(eng, s, l)
            if items is not None and iskstr(b):
                parts = []
                for i, x in enumerate(items):
                    if i:
                        parts.append(b[2])
                    parts.append(('fmt', 's', eng.freeze(s, x)))
                out.append((s, mkstr(parts)))
            else:
                out.append((s, ('call', ('attr', b, 'join'), (
                    canon_iter(eng, s, l),), ())))
        return out
    fz = [eng.freeze(st, a) for a in args]
    if iskstr(b) and all(isk(a) for a in fz) and not kw and \
            name in STRMETHODS:
        try:
            r = getattr(b[2], name)(*[kval(a) for a in fz])
        except Exception as e:
            return [(st, exc(eng, st, type(e).__name__))]
        if isinstance(r, list):
            return [(st, eng.mklist(st, [K(x) for x in r]))]
        if isinstance(r, tuple):
            return [(st, ('tuple',) + tuple(K(x) for x in r))]
        if isinstance(r, bytes):
            return [(st, b)]
        return [(st, K(r))]
    if name in STRMETHODS:
        return [(st, ('call', ('attr', eng.freeze(st, b), name), tuple(fz),
                      tuple(sorted((k, eng.freeze(st, v)) for k, v in kw))))]
    return None


def list_method(eng, st, b, name, args, kw, fr, node):
    segs = eng.segs(st, b)
    if name == 'append' and len(args) == 1:
        mutev(eng, st, name, b, args)
        eng.setsegs(st, b, segs + (('one', args[0]),))
        return [(st, NONE)]
    if name == 'extend' and len(args) == 1:
        mutev(eng, st, name, b, args)
        v = args[0]
        vs = eng.segs(st, v)
        if vs is not None and eng.ckind(st, v) in ('list', 'tuple', 'set'):
            eng.setsegs(st, b, segs + tuple(vs))
            return [(st, NONE)]
        if not isref(v) and not eng.typeof(st, v):
            eng.setsegs(st, b, segs + (('splat', eng.freeze(st, v)),))
            return [(st, NONE)]

        def step(s, x):
            eng.setsegs(s, b, eng.segs(s, b) + (('one', x),))
            return [(s, None)]
        return [(s, NONE if c is None else X(c[0], c[1])) for s, c in
                eng.iterate(st, v, fr, step, node)]
    if name == 'insert' and len(args) == 2:
        mutev(eng, st, name, b, args)
        pos = eng.freeze(st, args[0])
        if pos == K(0):
            eng.setsegs(st, b, (('one', args[1]),) + segs)
            return [(st, NONE)]
        ln = f_len(eng, st, [b], [], fr, node)[0][1]
        if eng.freeze(st, ln) == pos:
            eng.setsegs(st, b, segs + (('one', args[1]),))
            return [(st, NONE)]
        if isk(pos) and pos[1] == 'int' and all(
                s[0] == 'one' for s in segs):
            l = list(segs)
            l.insert(pos[2], ('one', args[1]))
            eng.setsegs(st, b, tuple(l))
            return [(st, NONE)]
        eng.setsegs(st, b, segs + (('ins', pos, args[1]),))
        return [(st, NONE)]
    if name == 'pop':
        mutev(eng, st, name, b, args)
        i = eng.freeze(st, args[0]) if args else K(-1)
        if isk(i) and i[1] == 'int' and segs:
            if i[2] == -1 and segs[-1][0] == 'one':
                eng.setsegs(st, b, segs[:-1])
                return [(st, segs[-1][1])]
            if i[2] >= 0 and all(s[0] == 'one' for s in segs[:i[2] + 1]) \
                    and i[2] < len(segs):
                eng.setsegs(st, b, segs[:i[2]] + segs[i[2] + 1:])
                return [(st, segs[i[2]][1])]
        if not segs:
            return [(st, exc(eng, st, 'IndexError', 'pop'))]
        old = eng.freeze(st, b)
        eng.setsegs(st, b, segs + (('popped', i),))
        return [(st, ('item', old, i))]
    if name == 'sort':
        mutev(eng, st, name, b, args)
        k = dict(kw)
        if args:
            k['cmp'] = args[0]
        if len(args) > 1:
            k['key'] = args[1]
        out = []
        for s, l in sort_list(eng, st, b, k, fr):
            eng.setsegs(s, b, eng.segs(s, l))
            out.append((s, NONE))
        return out
    if name == 'reverse':
        mutev(eng, st, name, b, args)
        if all(s[0] == 'one' for s in segs):
            eng.setsegs(st, b, segs[::-1])
        else:
            eng.setsegs(st, b, (('splat', ('call', bi('reversed'), (
                eng.freeze(st, b),), ())),))
        return [(st, NONE)]
    if name == 'remove':
        if segs and not isk(args[0]) and all(
                s[0] == 'one' for s in segs) and len(segs) < 9:
            return eng.call(st, st.envs[eng.modenv['prelude']][
                'list_remove'], [b] + list(args), [], fr)
        mutev(eng, st, name, b, args)
        for i, s in enumerate(segs):
            if s[0] == 'one' and s[1] == args[0]:
                eng.setsegs(st, b, segs[:i] + segs[i + 1:])
                return [(st, NONE)]
        if not segs:
            return [(st, exc(eng, st, 'ValueError', 'remove'))]
        eng.setsegs(st, b, segs + (('rem', eng.freeze(st, args[0])),))
        return [(st, NONE)]
    if name in ('index', 'count'):
        items = concrete_items(eng, st, b)
        fa = eng.freeze(st, args[0])
        if items is not None and isk(fa) and all(isk(i) for i in items):
            if name == 'count':
                return [(st, K(items.count(fa)))]
            if fa in items:
                return [(st, K(items.index(fa)))]
            return [(st, exc(eng, st, 'ValueError', 'index'))]
        if items is not None and len(items) < 9:
            return eng.call(st, st.envs[eng.modenv['prelude']][
                'list_' + name], [b] + list(args), [], fr)
        return [(st, ('call', ('attr', eng.freeze(st, b), name), (fa,), ()))]
    if name == '__getitem__':
        return getitem(eng, st, b, args[0], fr)
    if name == '__len__':
        return f_len(eng, st, [b], [], fr, node)
    if name == '__iter__':
        return [(st, mkiter(eng, st, 'iter', b))]
    return None


def dict_method(eng, st, b, name, args, kw, fr, node):
    segs = eng.segs(st, b)
    if name in ('iteritems', 'items', 'viewitems', 'itervalues', 'values',
                'viewvalues'):
        op = 'items' if name.endswith('items') else 'values'
        it = mkiter(eng, st, op, b)
        if name == op:
            items = concrete_items(eng, st, it)
            if items is not None:
                return [(st, eng.mklist(st, items))]
        return [(st, it)]
    if name in ('iterkeys', 'keys', 'viewkeys'):
        items = concrete_items(eng, st, b)
        if items is not None:
            return [(st, eng.mklist(st, items))]
        return [(st, mkiter(eng, st, 'keys', b))]
    if name == 'get':
        out = []
        dflt = args[1] if len(args) > 1 else NONE
        eng.force_key += 1
        try:
            outs = dict_lookup(eng, st, b, segs, args[0], fr)
        finally:
            eng.force_key -= 1
        return [(s, dflt if v is None else v) for s, v in outs]
    if name == 'has_key':
        return [(s, r if isinstance(r, X) else K(r)) for s, r in
                eng.contains(st, args[0], b, fr)]
    if name == 'setdefault':
        out = []
        dflt = args[1] if len(args) > 1 else NONE
        eng.force_key += 1
        try:
            outs = dict_lookup(eng, st, b, segs, args[0], fr)
        finally:
            eng.force_key -= 1
        for s, v in outs:
            if v is None:
                mutev(eng, s, '__setitem__', b, (args[0], dflt))
                setitem(eng, s, b, args[0], dflt, fr, True)
                out.append((s, dflt))
            else:
                out.append((s, v))
        return out
    if name == 'pop':
        out = []
        eng.force_key += 1
        try:
            outs = dict_lookup(eng, st, b, segs, args[0], fr)
        finally:
            eng.force_key -= 1
        for s, v in outs:
            if v is None:
                out.append((s, args[1] if len(args) > 1 else
                            exc(eng, s, 'KeyError', eng.freeze(
                                s, args[0]))))
            else:
                for s1, r in delitem(eng, s, b, args[0], fr):
                    out.append((s1, v))
        return out
    if name == 'update':
        mutev(eng, st, name, b, args)
        cur = [(st, None)]
        for v in args:
            vs = eng.segs(st, v)
            if vs is not None and eng.ckind(st, v) == 'dict':
                for s in vs:
                    if s[0] == 'kv':
                        setitem(eng, st, b, s[1], s[2], fr, True)
                    else:
                        eng.setsegs(st, b, eng.segs(st, b) + (s,))
            elif isref(v) or vs is not None:
                def step(s, x):
                    items = eng.unpack(s, x, 2)
                    if items is None:
                        return [(s, ('raise', exc(
                            eng, s, 'ValueError', 'unpack').val))]
                    return eng.vals2ctl(setitem(
                        eng, s, b, items[0], items[1], fr, True))
                cur = eng.iterate(st, v, fr, step, node)
            else:
                eng.setsegs(st, b, segs + (('splat', eng.freeze(st, v)),))
        out = []
        for s, c in cur:
            if c is not None:
                out.append((s, X(c[0], c[1])))
                continue
            for k, v in kw:
                if k == '**':
                    eng.setsegs(s, b, eng.segs(s, b) + (('splat', v),))
                else:
                    setitem(eng, s, b, K(k), v, fr, True)
            out.append((s, NONE))
        return out
    if name == 'copy':
        return [(st, eng.alloc(st, 'dict', segs=segs))]
    if name == 'clear':
        mutev(eng, st, name, b, args)
        eng.setsegs(st, b, ())
        return [(st, NONE)]
    if name == '__contains__':
        return [(s, r if isinstance(r, X) else K(r)) for s, r in
                eng.contains(st, args[0], b, fr)]
    if name == '__getitem__':
        return getitem(eng, st, b, args[0], fr)
    if name == '__setitem__':
        return setitem(eng, st, b, args[0], args[1], fr)
    if name == 'popitem':
        mutev(eng, st, name, b, args)
        old = eng.freeze(st, b)
        eng.setsegs(st, b, segs + (('popped', NONE),))
        return [(st, ('call', ('attr', old, 'popitem'), (), ()))]
    return None


def set_method(eng, st, b, name, args, kw, fr, node):
    segs = eng.segs(st, b)
    if name == 'add' and len(args) == 1 and unhashable(eng, st, args[0]):
        return [(st, exc(eng, st, 'TypeError', 'unhashable'))]
    if name == 'add':
        mutev(eng, st, name, b, args)
        fa = eng.freeze(st, args[0])
        ident = isref(args[0]) and eng.by_identity(st, args[0])
        if any(s[0] == 'one' and (s[1] == args[0] if ident else
                                  eng.freeze(st, s[1]) == fa) for s in segs):
            return [(st, NONE)]
        eng.setsegs(st, b, segs + (('one', args[0]),))
        return [(st, NONE)]
    if name == 'update':
        return list_method(eng, st, b, 'extend', args, kw, fr, node)
    if name in ('remove', 'discard'):
        mutev(eng, st, name, b, args)
        fa = eng.freeze(st, args[0])
        for i, s in enumerate(segs):
            if s[0] == 'one' and eng.freeze(st, s[1]) == fa:
                eng.setsegs(st, b, segs[:i] + segs[i + 1:])
                return [(st, NONE)]
        eng.setsegs(st, b, segs + (('rem', fa),))
        return [(st, NONE)]
    if name == 'clear':
        mutev(eng, st, name, b, args)
        eng.setsegs(st, b, ())
        return [(st, NONE)]
    if name == 'pop' and not args:
        if not segs:
            return [(st, exc(eng, st, 'KeyError', 'pop'))]
        if all(s[0] == 'one' for s in segs):     # one of them
            mutev(eng, st, name, b, args)
            eng.setsegs(st, b, segs[:-1])
            return [(st, segs[-1][1])]
    if name == 'copy':
        return [(st, eng.alloc(st, 'set', segs=segs))]
    if name in ('union', 'difference', 'intersection', 'issubset',
                'issuperset', 'symmetric_difference'):
        op = {'union': '|', 'difference': '-', 'intersection': '&'}.get(name)
        if op and len(args) == 1:
            return [(st, ('bin', op, eng.freeze(st, b),
                          eng.freeze(st, args[0])))]
        return [(st, ('call', ('attr', eng.freeze(st, b), name), tuple(
            eng.freeze(st, a) for a in args), ()))]
    return None


# ---------------------------------------------------------------- exec
def exec_source(eng, st, text, globs, fr):
    """exec of a constant program text: its functions are defined from the
    text itself"""
    tree = _ast.parse(text)
    body = [conv3(n) for n in tree.body]
    env = eng.newid('exec')
    st.envs[env] = {'<parent>': ('envp', 'mod:' + fr.module)}
    f2 = Frame(env, fr.func, fr.module)
    f2.captured = True
    out = []
    for s, c in eng.block(body, st, f2):
        if c is None and globs is not None:
            for k, v in s.envs[env].items():
                if not k.startswith('<'):
                    setitem(eng, s, globs, K(k), v, fr, True)
        out.append((s, c))
    return out


def conv3(n):
    """Python 3 syntax tree of simple statements -> analysis tree"""
    if isinstance(n, list):
        return [conv3(x) for x in n]
    if not isinstance(n, _ast.AST):
        return n
    k = type(n).__name__
    l = getattr(n, 'lineno', None)
    c = getattr(n, 'col_offset', None)
    f = {a: conv3(b) for a, b in _ast.iter_fields(n)}
    if k == 'Constant':
        v = n.value
        if isinstance(v, str):
            return N('Str', l, c, dict(s=v))
        if v is None or isinstance(v, bool):
            return N('Name', l, c, dict(id=str(v), ctx='Load'))
        return N('Num', l, c, dict(n=v))
    if k == 'arguments':
        return N('arguments', l, c, dict(
            args=[N('Name', l, c, dict(id=a.arg, ctx='Param'))
                  for a in n.args],
            vararg=n.vararg.arg if n.vararg else None,
            kwarg=n.kwarg.arg if n.kwarg else None,
            defaults=conv3(n.defaults)))
    if k == 'Call':
        pos = [a for a in n.args if not isinstance(a, _ast.Starred)]
        star = [a.value for a in n.args if isinstance(a, _ast.Starred)]
        return N('Call', l, c, dict(
            func=conv3(n.func), args=conv3(pos),
            keywords=[N('keyword', l, c, dict(
                arg=x.arg, value=conv3(x.value)))
                for x in n.keywords if x.arg],
            starargs=conv3(star[0]) if star else None,
            kwargs=None))
    if k == 'Subscript':
        sl = n.slice
        if not isinstance(sl, _ast.Slice):
            f['slice'] = N('Index', l, c, dict(value=conv3(sl)))
    if k in ('Load', 'Store', 'Del'):
        return k
    return N(k, l, c, f)
