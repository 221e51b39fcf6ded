"""C01: the numeric validators confine values to their documented range."""
import evalt
from engine import Blowup
from terms import pp
from rules import numrange

V = 'openquake.commonlib.valid.'
INF = float('inf')
RANGES = [('longitude', -180., 180., False), ('latitude', -90., 90., False),
          ('probability', 0., 1., False), ('positiveint', 0, INF, True),
          ('positivefloat', 0., INF, False)]


def run(ctx):
    ctx.rule('range', 'on every path that returns, the conditions passed '
             'force the returned number into the closed range and exclude '
             'NaN, and that number is the one the text denotes; no path '
             'condition met by a number of the range ends in a '
             'raise.  Decided on the partition of the numbers induced by the '
             'constants the conditions compare with.')
    eng = ctx.engine()
    text = ('s', 'text')
    for name, lo, hi, integer in RANGES:
        f = eng.require(V + name)
        ctx.saw(V + name)
        try:
            paths = eng.run(f, [text])
        except Blowup as e:
            ctx.unknown('range', name, str(e))
            continue
        words = numrange.spellings(
            numrange.constants(paths) | {x for x in (lo, hi)
                                         if abs(x) != INF}, integer)
        und = []
        bad = []
        for w in words:
            num = numrange.classify(w, integer)
            o = evalt.outcome(paths, {text: w})
            if o[0] == 'return':
                v = o[1]
                if not isinstance(v, (int, float)) or isinstance(v, bool):
                    if v is not None or num is not None and lo <= num <= hi:
                        bad.append('%r gives %r' % (w, v))
                    else:
                        bad.append('%r gives None' % w)
                elif v != v:
                    bad.append('%r is accepted as NaN by the path %s' % (
                        w, where(o[2])))
                elif num is None:
                    bad.append('%r, no number, gives %r on the path %s' % (
                        w, v, where(o[2])))
                elif not lo <= v <= hi:
                    bad.append('%r gives %r, outside [%s, %s], on the path '
                               '%s' % (w, v, lo, hi, where(o[2])))
                elif v != num:
                    bad.append('%r gives %r on the path %s' % (
                        w, v, where(o[2])))
            elif o[0] == 'raise':
                if num is not None and lo <= num <= hi:
                    bad.append('%r is inside the range but %s is raised on '
                               'the path %s' % (w, o[1], where(o[2])))
            else:
                und.append('%r: %s' % (w, o[1]))
        if bad:
            ctx.violated('range', V + name, '; '.join(bad[:6]))
        elif und:
            ctx.unknown('range', V + name, '; '.join(und[:3])[:300])
        else:
            ctx.proved('range', V + name,
                       '%d paths over %d representatives' % (
                           len(paths), len(words)))


def where(p):
    from terms import pplits
    return pplits(p.lits)[:300] if p is not None else 'of the conversion'
