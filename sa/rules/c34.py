"""C34: loss types, cost types and risk functions are matched up
consistently."""
import itertools
from rules.common import *
from rules.c21 import t
from terms import K

V = 'openquake.commonlib.riskloaders.'
RISK = {'openquake.risklib.scientific.' + n: 'models.' + n for n in (
    'VulnerabilityFunction', 'FragilityFunctionDiscrete',
    'FragilityFunctionContinuous')}
RISK.update({'openquake.risklib.workflows.' + n: 'models.' + n
             for n in ('RiskModel', 'Scenario', 'Damage')})
RISK.update({'openquake.nrmllib.risk.parsers.' + n: 'models.' + n
             for n in ('VulnerabilityModelParser', 'FragilityModelParser')})
LOSS = ['structural', 'nonstructural', 'contents', 'business_interruption',
        'fatalities', 'occupants', 'fatalities ', 'x', '']


def cost(lt):
    return 'occupants' if lt == 'fatalities' else lt


def loss(ct):
    return 'fatalities' if ct == 'occupants' else ct


def types(ctx, eng):
    x = S('type')
    model(ctx, eng, 'types', V + 'loss_type_to_cost_type and back',
          'harness.rl_types', [x], [{x: v} for v in LOSS], lambda e: (
              'return', (cost(e[x]), loss(e[x]), loss(cost(e[x])),
                         cost(loss(e[x])))), shown=V +
          'loss_type_to_cost_type')


def record(i, tax):
    """a record with its own symbols"""
    return (tax,) + tuple(S('%s%s' % (n, i)) for n in (
        'imt', 'iml', 'ratios', 'covs', 'dist'))


def env_of(records):
    n = itertools.count()
    return {x: 'v%d' % next(n) for r in records for x in r
            if isinstance(x, tuple)}


def function(r, env):
    return ('VulnerabilityFunction',) + tuple(env[x] for x in r[1:])


def single(ctx, eng):
    for k in range(0, 4 if ctx.tier == 'quick' else 5):
        taxes = [S('tax%d' % i) for i in range(k)]
        recs = [record(i, x) for i, x in enumerate(taxes)]

        def expect(env):
            ids = [env[x] for x in taxes]
            if len(set(ids)) < k:
                return 'raise', ('ValueError',)
            return 'return', {env[r[0]]: function(r, env) for r in recs}
        envs = [dict(env_of(recs), **{}) | {
            x: 'T%d' % v for x, v in zip(taxes, p)} for p in partitions(k)]
        model(ctx, eng, 'unique', '%s_get_vulnerability_functions, %d records'
              % (V, k), 'harness.rl_one', [t(recs)], envs, expect,
              shown=V + '_get_vulnerability_functions')
        for pat in partitions(k):
            # a message for a repeated taxonomy or an invalid function
            for bad in range(-1, k):
                rows = [record(i, 'TAX%dX' % v) for i, v in enumerate(pat)]
                if bad >= 0:
                    rows[bad] = rows[bad][:2] + ('invalid',) + rows[bad][3:]
                named, seen = None, set()
                for i, v in enumerate(pat):
                    if v in seen or i == bad:
                        named = ('TAX%dX' % v, v not in seen)
                        break
                    seen.add(v)

                def good(g, w):
                    if w is None:
                        return g is None
                    return isinstance(g, str) and w[0] in g and (
                        not w[1] or 'the levels are not increasing' in g)
                model(ctx, eng, 'named', '%s_get_vulnerability_functions, '
                      'taxonomies %s%s' % (V, pat, ', %d invalid' % bad
                                           if bad >= 0 else ''),
                      'harness.rl_message', [t(rows)], [env_of(rows)],
                      lambda e: ('return', named),
                      shown=V + '_get_vulnerability_functions', cmp=good)


# the taxonomies in the file of each loss type
FILES_ = [{'structural': 'AB', 'fatalities': 'BC'},
          {'structural': 'A', 'nonstructural': 'A', 'fatalities': 'A'},
          {'contents': 'BA', 'business_interruption': '', 'fatalities': 'B'},
          {'structural': 'ABC'}, {}]


def loaded(ctx, eng):
    for sets in FILES_:
        for asked in itertools.product((False, True), repeat=2):
            inputs, files, recs = [], [], {}
            for lt in sorted(sets):
                for suffix in ('', '_retrofitted'):
                    if suffix and lt == 'nonstructural':
                        continue        # there is no such file
                    path = 'file%d' % len(files)
                    rows = [record('_%s_%s_%s' % (lt, x, suffix), x)
                            for x in sets[lt]]
                    recs[lt, suffix] = rows
                    files.append((path, rows))
                    inputs.append((cost(lt) + '_vulnerability' + suffix,
                                   path))
            files.append(('decoy', [record('_decoy', 'D')]))
            inputs += [('fatalities_vulnerability', 'decoy'),
                       ('fatalities_vulnerability_retrofitted', 'decoy'),
                       ('structural_fragility', 'decoy'),
                       ('exposure', 'decoy')]
            env = env_of([r for p, rows in files for r in rows])
            for lts in (sorted(sets), sorted(sets)[::-1], sorted(sets)[:1],
                        LOSS[:5]):
                for flags in ((), (False,), (True,)):
                    if asked[0]:
                        continue
                    wanted = {}
                    suffix = '_retrofitted' if flags == (True,) else ''
                    for lt in lts:
                        for r in recs.get((lt, suffix), ()):
                            wanted.setdefault(r[0], {})[lt] = function(r, env)
                    model(ctx, eng, 'loaded', '%sget_taxonomy_vfs, %s, asked '
                          '%s%s' % (V, sets, lts, flags), 'harness.rl_vfs',
                          [t(inputs), t(files), t(lts), t(flags)], [env],
                          lambda e: ('return', (wanted, True, list(lts))),
                          shown=V + 'get_taxonomy_vfs',
                          cmp=lambda g, w: isinstance(g, tuple) and
                          len(dict(g[0])) == len(g[0]) and
                          (dict(g[0]),) + g[1:] == w)
                flags = asked[1:] + asked[1:] if asked[0] else \
                    (not asked[1], asked[1])
                suffix = '_retrofitted' if flags[1] else ''
                wanted = {}
                for lt in lts:
                    for r in recs.get((lt, suffix), ()):
                        wanted.setdefault(r[0], {})[lt] = function(r, env)
                model(ctx, eng, 'loaded', '%sget_risk_models, %s, asked '
                      '%s%s' % (V, sets, lts, flags), 'harness.rl_models',
                      [t(inputs), t(files), t(lts), t(flags)], [env],
                      lambda e: ('return', {
                          tax: ('RiskModel', tax, 'Scenario', vfs, flags[0])
                          for tax, vfs in wanted.items()}),
                      shown=V + 'get_risk_models')


def damage(ctx, eng):
    for fmt in ('discrete', 'continuous'):
        for nstates in (1, 2, 3):
            states = ['LS%d' % (nstates - i) for i in range(nstates)]
            for taxes in ([], ['A'], ['B', 'A'], ['C', 'A', 'B']):
                limits = [(), (None,), (0.0,), (S('limit'),),
                          (None, S('limit')), (0.25, None, 0.0)]
                for lim in limits:
                    if len(lim) != len(taxes):
                        if not (lim and taxes and len(lim) == 1):
                            continue
                        lim = lim * len(taxes)
                    fragility(ctx, eng, fmt, states, taxes, lim)


def fragility(ctx, eng, fmt, states, taxes, lim):
    env = {S('limit'): 0.125}
    items = []
    n = itertools.count(1)

    def sym(name):
        s = S('%s%d' % (name, next(n)))
        env[s] = 1.0 + len(env) / 64
        return s
    for tax, limit in zip(taxes, lim):
        imls = [sym('iml') for _ in range(2 + len(items))] \
            if fmt == 'discrete' else None
        params = [[sym('poe') for _ in imls] if fmt == 'discrete' else
                  [sym('mean'), sym('stddev')] for _ in states]
        items.append((tax, 'IMT' + tax, imls, params, limit))
    val = lambda x: env[x] if isinstance(x, tuple) and x in env else x
    rms = {}
    for tax, imt, imls, params, limit in items:
        ffs = []
        for p in params:
            p = [env[x] for x in p]
            if fmt == 'continuous':
                ffs.append(('continuous',) + tuple(p))
            elif limit is None:
                ffs.append(('discrete', [env[x] for x in imls], p,
                            env[imls[0]]))
            else:
                ffs.append(('discrete', [val(limit)] + [
                    env[x] for x in imls], [0.0] + p, val(limit)))
        rms[tax] = ('RiskModel', tax, 'Damage', ['damage'], ffs, imt)
    left = [(tax, imt, None if imls is None else [env[x] for x in imls],
             [[env[x] for x in p] if fmt == 'discrete' else tuple(
                 env[x] for x in p) for p in params], val(limit))
            for tax, imt, imls, params, limit in items]
    model(ctx, eng, 'damage', '%sget_damage_states_and_risk_models, %s, %d '
          'states, %s with limits %s' % (V, fmt, len(states), taxes, [
              pp(x) if isinstance(x, tuple) else x for x in lim]),
          'harness.rl_damage', [K(fmt), t(states), t(items)], [env],
          lambda e: ('return', (['no_damage'] + states, rms, states, left)),
          shown=V + 'get_damage_states_and_risk_models')


def run(ctx):
    ctx.rule('types', 'the two conversions are inverse')
    ctx.rule('unique', 'a taxonomy is given its own function, twice is an '
             'error')
    ctx.rule('named', 'the errors name the taxonomy')
    ctx.rule('loaded', 'the file of each loss type, retrofitted if asked, '
             'and the functions by taxonomy and loss type')
    ctx.rule('damage', 'the damage states in order and a function for each '
             'limit state')
    ctx.assumptions.append('the classes of risklib and the parsers of '
                           'nrmllib behave as in models.py2')
    stubs = {k: v for k, v in WORLD.items() if k not in RISK}
    eng = ctx.engine(stubs=stubs, recursion=12, real=dict(REAL, **RISK),
                     UNROLL=60)
    types(ctx, eng)
    single(ctx, eng)
    loaded(ctx, eng)
    damage(ctx, eng)
