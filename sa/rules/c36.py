"""C36: every reference resolves and every call binds."""
import assigned
import resolve
from engine import ModuleRaises
from front import AnalysisBroken
from rules.common import *

RULES = {
    'import': 'the statements of every module of the library run to their '
              'end',
    'names': 'every name read is bound in an enclosing scope, the module or '
             'the builtins',
    'members': 'the modules, classes and instances of known type have the '
               'members read from them',
    'calls': 'the arguments of every call of a function, method or class of '
             'the library are accepted by its signature',
    'formats': 'every constant format has as many places as values',
    'locals': 'no path to a use of a local variable misses its assignment'}
LEAST = {'names': 1500, 'members': 400, 'calls': 100, 'formats': 30,
         'locals': 500}


def run(ctx):
    for k, v in sorted(RULES.items()):
        ctx.rule(k, v)
    ctx.assumptions.append(
        'the members of the standard library of Python 2.7 are those of the '
        'committed table stdlib27.json; the members of libraries which are '
        'not installed are assumed to exist')
    try:
        ctx.engine(stubs=WORLD, recursion=12, real=REAL, UNROLL=60)
    except ModuleRaises as e:
        outs = e.outs
        if len(outs) == 1 and not outs[0][0].lits and \
                e.module.startswith('openquake.'):
            ctx.violated('import', e.module, 'its statements end in %s' % (
                outs[0][1],))
        else:
            ctx.unknown('import', e.module, str(e))
    prog = resolve.Program(ctx.mods)
    foreign = set()
    for name in ('models', 'world'):
        for n in ctx.mods[name].walk():
            if n._ in ('FunctionDef', 'ClassDef'):
                foreign.add(n.name)
            elif n._ == 'Attribute':
                foreign.add(n.attr)
    prog.foreign = foreign
    prog.check()
    prog.counts['locals'] = assigned.check(prog)
    for k, n in LEAST.items():
        if prog.counts.get(k, 0) < n:
            raise AnalysisBroken('only %d %s were examined' % (
                prog.counts.get(k, 0), k))
    bad = {}
    for b in prog.bugs:
        bad.setdefault(b.rule, []).append(b)
        if b.certain:
            ctx.violated(b.rule, b.con, b.what)
        else:
            ctx.unknown(b.rule, b.con, b.what)
    for s in prog.scopes.values():
        if s.kind in ('FunctionDef', 'module'):
            ctx.saw(s.qual)
    for m in sorted(prog.mods):
        for rule in RULES:
            if not any(b.con.startswith(m + '.') or b.con.startswith(m + ',')
                       for b in bad.get(rule, ())):
                ctx.proved(rule, m, 'every site')
    for k, n in sorted(prog.counts.items()):
        ctx.proved(k, 'sites examined', '%d' % n)
