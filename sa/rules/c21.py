"""C21: branch weights are exact decimals whose sum is one."""
import itertools
from decimal import Decimal
from rules.common import *
from terms import K

V = 'openquake.commonlib.logictree.'
TEXTS = {
    1: [('1',), ('1.0',), (' 1.00\n',), ('0.99999999999999999999',),
        ('1.00000000000000000001',), ('0.5',), ('2',), ('1e0',)],
    2: [('0.5', '0.5'), ('0.3', ' 0.7 '), ('0.9', '0.1'), ('0.3', '0.6'),
        ('0.5', '0.50000000000000000001'), ('0.5', '0.4999999999'),
        ('1', '0'), ('1', '1'), ('1.5', '-0.5'), ('0.1e1', '0.00')],
    3: [('0.7', '0.2', '0.1'), ('0.1', '0.2', '0.7'), ('0.6', '0.3', '0.1'),
        ('0.3333333333333333', '0.3333333333333333', '0.3333333333333333'),
        ('0.333', '0.333', '0.334'), ('0.4', '0.3', '0.2'),
        ('0.25', '0.25', '0.5'), ('0.5', '0.5', '0.5'),
        ('0.33333333333333333333333333', '0.33333333333333333333333333',
         '0.33333333333333333333333334')],
}


def t(x):
    """a term"""
    if type(x) is tuple and x and x[0] == 's':
        return x
    if isinstance(x, dict):
        return ('dict', tuple(('kv', t(k), t(v)) for k, v in x.items()))
    if isinstance(x, (tuple, list)):
        return ('tuple',) + tuple(t(y) for y in x)
    return K(x)


def exact(g, w):
    """equal, and made of decimals"""
    if isinstance(w, Decimal):
        return isinstance(g, Decimal) and g == w
    if isinstance(w, (list, tuple)):
        return isinstance(g, (list, tuple)) and len(g) == len(w) and all(
            exact(x, y) for x, y in zip(g, w))
    return g == w


def run(ctx):
    ctx.rule('sum', 'the weight of a branch is the decimal number written, '
             'and a branch set is accepted if and only if its weights sum to '
             'one')
    ctx.assumptions.append('decimal arithmetic with the default context; '
                           'elements and nodes behave as in models.py2')
    ws = [S('w%d' % i) for i in range(8)]
    eng = ctx.engine(stubs=WORLD, recursion=9, real=REAL,
                     prims={w: 'str' for w in ws})

    def wrap(levels):
        """[(n, value)] -> branch sets of n branches each"""
        out, k = [], 0
        for i, n in enumerate(levels):
            out.append(['b%d' % (k + j) for j in range(n)])
            k += n
        return out

    def envs(sizes):
        for combo in itertools.product(*[TEXTS[n] for n in sizes]):
            flat = [x for c in combo for x in c]
            yield dict(zip(ws, flat))

    def sums(env, sizes):
        flat = [Decimal(env[w].strip()) for w in ws[:sum(sizes)]]
        i, out = 0, []
        for n in sizes:
            out.append(flat[i:i + n])
            i += n
        return out

    sizes_list = [(1,), (2,), (3,), (1, 2), (2, 2), (2, 1)]
    if ctx.tier == 'thorough':
        sizes_list += [(3, 2), (2, 3), (3, 3), (1, 1, 2), (2, 2, 2)]
    for sizes in sizes_list:
        names = wrap(sizes)
        for kind in ('source', 'gmpe', 'gsim'):
            for validate in ((True, False) if kind != 'gsim' else (True,)):
                k, levels = 0, []
                for i, ids in enumerate(names):
                    if kind == 'source':
                        attrs = dict(uncertaintyType='sourceModel'
                                     if i == 0 else 'bGRRelative')
                        value = 'model.xml' if i == 0 else '1'
                    else:
                        attrs = dict(uncertaintyType='gmpeModel',
                                     applyToTectonicRegionType='T%d' % i,
                                     branchSetID='bs%d' % i)
                        value = 'GsimA'
                    levels.append([(tuple(attrs.items()), [
                        (b, ws[k + j], value) for j, b in enumerate(ids)])])
                    k += len(ids)
                regions = ['T%d' % i for i in range(len(sizes))]
                con = V + {'source': 'SourceModelLogicTree',
                           'gmpe': 'GMPELogicTree',
                           'gsim': 'GsimLogicTree'}[kind]
                shown = '%s, %s branches%s' % (
                    con, sizes, '' if validate else ', not validated')

                def flat(got):
                    """the weights of a shape, level by level"""
                    out = []
                    while got is not None:
                        out.append([b[1] for b in got[2]])
                        got = got[2][0][3]
                    return out

                def expect(env):
                    w = sums(env, sizes)
                    if all(sum(x) == 1 for x in w):
                        return 'return', w
                    if kind == 'gsim':
                        return 'raise', Anything()
                    bad = min(i for i, x in enumerate(w) if sum(x) != 1)
                    return 'return', ('invalid', 1000 * (bad + 1), 'lt.xml',
                                      '/base')

                def cmp(g, w):
                    if isinstance(w, tuple):
                        return g == w
                    if kind == 'gsim':
                        want = sorted(zip([i for n in names for i in n],
                                          [y for x in w for y in x]))
                        return exact(g, [list(p) for p in want])
                    return g is not None and g[0] != 'invalid' and exact(
                        flat(g), w)
                if kind == 'gsim':
                    fn, args = 'harness.gsim_weights', [t(levels), t(regions)]
                else:
                    fn, args = 'harness.lt_parse', [
                        K(kind), t(levels), K(validate),
                        t([('model.xml', [('areaSource', '1', 'T')])]),
                        t(regions)]
                model(ctx, eng, 'sum', shown, fn, args, envs(sizes), expect,
                      shown=con, cmp=cmp)


class Anything(object):
    """every exception"""
    def __contains__(self, x):
        return True
