"""C02: the text validators accept exactly their documented vocabulary."""
import evalt
import regdfa
from engine import Blowup
from terms import pp, pplits, NONE

V = 'openquake.commonlib.valid.'
TEXT = ('s', 'text')


def imt_value(w):
    if w.startswith('SA('):
        return ('SA', float(w[3:-1]), 5.0)
    return (w, None, None)


SPECS = [
    (V + 'IMTstr', r'(PGA|PGV|PGD|IA|RSD|MMI|SA\(\d+\.?\d*\))\Z', imt_value),
    (V + 'name', r'[a-zA-Z_][a-zA-Z0-9_]*\Z', lambda w: w),
    (V + 'boolean', r'(0|1|true|false)\Z',
     lambda w: {'0': False, '1': True, 'true': True, 'false': False}[w]),
    (V + 'not_empty', r'(?s).+\Z', lambda w: w),
    ('harness.choice1', r'only\Z', lambda w: w),
    ('harness.choice3', r'(ab|abc|Per area)\Z', lambda w: w),
    (V + 'category', r'(population|buildings)\Z', lambda w: w),
]
SHOWN = {'harness.choice1': V + "Choice('only')",
         'harness.choice3': V + "Choice('ab', 'abc', 'Per area')"}


def run(ctx):
    ctx.rule('vocabulary', 'the union of the path conditions under which the '
             'validator returns, as a regular language of whole strings, '
             'equals the documented language')
    ctx.rule('value', 'on every accepted representative the returned value '
             'is the documented one')
    ctx.rule('wrapper', 'the optional wrapper returns None exactly on the '
             'empty string and otherwise the result of its cast applied to '
             'the unchanged value')
    ctx.rule('namelist', 'for every separator and every class of words, a '
             'list of names is accepted exactly when it is not blank and '
             'each word between blanks is an identifier, and it gives these '
             'words in order')
    eng = ctx.engine()
    for qual, spec, value in SPECS:
        vocabulary(ctx, eng, qual, regdfa.regex(spec), value)
    noneor(ctx, eng)
    names(ctx, eng)


WORDS = ['a', '_x1', 'Zz_9', '1a', 'a-b', 'a.b', 'a,b', 'a;', 'a/b', '"a"',
         'a|b', 'a=b', ':a']
SEPS = [' ', '  ', '\t', '\n', '\r\n', ', ', ',', ';', ' ; ', '|']


def names(ctx, eng):
    shown = V + 'namelist'
    ctx.saw(shown)
    ident = regdfa.regex(r'[a-zA-Z_][a-zA-Z0-9_]*\Z')
    texts = ['', ' ', '\n', ',']
    for w in WORDS:
        texts += [w, ' ' + w, w + '\n', w + ' last', 'first ' + w,
                  'first %s last' % w, '%s %s' % (w, w)]
    for sep in SEPS:
        texts += ['b%sa' % sep, 'a%sb%sc' % (sep, sep), sep + 'a', 'a' + sep]
    bad, und = [], []
    for t in sorted(set(texts)):
        words = t.split()
        ok = bool(words) and all(ident.accepts(w) for w in words)
        try:
            ps = eng.run(eng.require(shown), [('k', 'str', t)])
        except Blowup as e:
            und.append(str(e))
            continue
        o = evalt.outcome(ps, {})
        if o[0] not in ('return', 'raise'):
            und.append('%r: %s' % (t, str(o[1])[:120]))
        elif (o[0] == 'return') != ok:
            bad.append('%r is %s' % (t, 'rejected' if ok else 'accepted'))
        elif ok and (not isinstance(o[1], (list, tuple)) or
                     list(o[1]) != words):
            bad.append('%r gives %r' % (t, o[1]))
    if bad:
        ctx.violated('namelist', shown, '; '.join(bad[:5]))
    elif und:
        ctx.unknown('namelist', shown, '; '.join(und[:3]))
    else:
        ctx.proved('namelist', shown, '%d representatives' % len(set(texts)))


def vocabulary(ctx, eng, qual, spec, value):
    shown = SHOWN.get(qual, qual)
    f = eng.require(qual)
    ctx.saw(shown)
    try:
        paths = eng.run(f, [TEXT])
    except Blowup as e:
        ctx.unknown('vocabulary', shown, str(e))
        return
    words = [w for w in spec.cover() if all(ord(c) < 128 for c in w)]
    lang = None
    try:
        lang = regdfa.empty()
        for p in paths:
            if p.kind == 'return':
                lang = lang | regdfa.path_language(p, TEXT)
    except regdfa.Unsup as e:
        lang = refine(paths)
    und = []
    if lang is not None:
        w = lang.difference(spec)
        if w is not None:
            ctx.violated('vocabulary', shown, '%r is %s' % (
                w, 'accepted' if lang.accepts(w) else 'rejected') + by(
                    paths, w))
        else:
            ctx.proved('vocabulary', shown, '%d paths, %d automaton states' %
                       (len(paths), len(lang.trans)))
        words += lang.cover()
    wrong = []
    vals = []
    for w in words:
        if any(ord(c) > 127 for c in w):
            continue
        o = evalt.outcome(paths, {TEXT: w})
        if o[0] == 'unknown' or o[0] == 'term':
            und.append('%r: %s' % (w, str(o[1])[:120]))
            continue
        if (o[0] == 'return') != spec.accepts(w):
            if lang is None:
                wrong.append('%r is %s' % (w, 'accepted' if o[0] == 'return'
                                           else 'rejected'))
        elif o[0] == 'return' and not same(o[1], value(w)):
            vals.append('%r gives %r instead of %r' % (w, o[1], value(w)))
    if lang is None:
        if wrong:
            ctx.violated('vocabulary', shown, '; '.join(wrong[:5]))
        elif und:
            ctx.unknown('vocabulary', shown, '; '.join(und[:3]))
        else:
            ctx.unknown('vocabulary', shown, 'conditions outside the regular '
                        'fragment, no difference on %d representatives'
                        % len(words))
    if vals:
        ctx.violated('value', shown, '; '.join(vals[:5]))
    elif und:
        ctx.unknown('value', shown, '; '.join(und[:3]))
    else:
        ctx.proved('value', shown, '%d representatives' % len(words))


def refine(paths):
    """language without the atoms that only choose between results: sound
    when every path with such an atom has a sibling of the same kind"""
    groups = {}
    for p in paths:
        reg, rest = [], []
        for a, b in p.lits:
            try:
                regdfa.atom(a, TEXT)
                reg.append((a, b))
            except regdfa.Unsup:
                rest.append((a, b))
        groups.setdefault(tuple(reg), []).append((p.kind, rest))
    lang = regdfa.empty()
    try:
        for reg, ps in groups.items():
            kinds = set(k for k, r in ps)
            if len(kinds) > 1:
                return None
            if kinds == {'return'}:
                d = regdfa.total()
                for a, b in reg:
                    x = regdfa.atom(a, TEXT)
                    d = d & (x if b else x.complement())
                lang = lang | d
            # the rest must be exhaustive
            rs = [tuple(r) for k, r in ps]
            if rs != [()]:
                atoms = set(a for r in rs for a, b in r)
                if len(rs) != 2 or len(atoms) != 1:
                    return None
    except regdfa.Unsup:
        return None
    return lang


def by(paths, w):
    o = evalt.outcome(paths, {TEXT: w})
    p = o[2] if len(o) > 2 else None
    return ' on the path %s' % pplits(p.lits)[:250] if p else ''


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def noneor(ctx, eng):
    cast = ('s', 'cast')
    shown = V + 'NoneOr.__call__'
    ctx.saw(shown)
    paths = eng.run(eng.require('harness.noneor'), [cast, TEXT])
    want = ('call', cast, (TEXT,), ())
    try:
        none = regdfa.empty()
        other = regdfa.empty()
        for p in paths:
            lang = regdfa.path_language(p, TEXT)
            if p.kind == 'return' and p.value == NONE:
                none = none | lang
            elif p.kind == 'return' and p.value[:4] == want:
                other = other | lang
            elif lang.witness() is not None:
                ctx.violated('wrapper', shown, '%r gives %s %s' % (
                    lang.witness(), p.kind, pp(p.value)[:200]))
    except regdfa.Unsup as e:
        ctx.unknown('wrapper', shown, str(e)[:200])
        return
    w = none.difference(regdfa.word(''))
    w2 = other.difference(regdfa.word('').complement())
    if w is not None:
        ctx.violated('wrapper', shown, '%r %s None' % (
            w, 'becomes' if none.accepts(w) else 'does not become'))
    elif w2 is not None:
        ctx.violated('wrapper', shown, '%r is %s to the cast' % (
            w2, 'given' if other.accepts(w2) else 'not given'))
    else:
        ctx.proved('wrapper', shown, '%d paths' % len(paths))
