"""C33: job files give the same parameters and paths whatever their form."""
import itertools
import posixpath
from rules.common import *
from rules.c21 import t
from terms import K

V = 'openquake.commonlib.readini.'
NS = '{http://openquake.org/xmlns/nrml/0.4}'
PATHS = {'os.path.' + n: 'models.path_' + n for n in (
    'isabs', 'join', 'split', 'dirname', 'basename', 'normpath', 'abspath')}
PATHS.update({'os.path.realpath': 'models.path_abspath',
              'os.getcwd': 'models.getcwd',
              'lxml.etree.parse': 'models.parse_tree',
              'openquake.nrmllib.PARSE_NS_MAP': 'models.PARSE_NS_MAP'})
PATHS.update({'ConfigParser.%sConfigParser' % n: 'models.ConfigParser'
              for n in ('', 'Safe', 'Raw')})


def el(tag, nodes=(), text=None, **attrib):
    return (NS + tag, tuple(sorted(attrib.items())), text, tuple(nodes))


def tree(levels):
    """a logic tree: a list of branching levels, each a list of branch sets
    (uncertainty type, models)"""
    n = itertools.count()
    return el('nrml', [el('logicTree', [
        el('logicTreeBranchingLevel', [
            el('logicTreeBranchSet', [
                el('logicTreeBranch', [
                    el('uncertaintyModel', text=m),
                    el('uncertaintyWeight', text='0.5')],
                    branchID='b%d' % next(n)) for m in models],
               uncertaintyType=kind, branchSetID='s%d' % next(n))
            for kind, models in sets], branchingLevelID='l%d' % next(n))
        for sets in levels], logicTreeID='lt')])


SM, GR = 'sourceModel', 'bGRRelative'
TREES = [
    [],
    [[(SM, ['a.xml'])]],
    [[(SM, ['b.xml', 'a.xml'])]],
    [[(SM, ['b.xml', ' a.xml', 'b.xml\n', '\n  a.xml  '])]],
    [[(SM, ['b.xml', 'a.xml'])], [(GR, ['0.1', '0.2'])]],
    [[(GR, ['0.1'])], [(SM, ['z.xml'])]],
    [[(SM, ['b.xml']), (GR, ['+0.2']), (SM, ['sub/a.xml', 'b.xml'])],
     [('maxMagGRRelative', ['c.xml'])]],
    [[(SM, ['/abs/m.xml', 'a.xml'])], [(SM, ['a.xml', '../up.xml'])]],
    [[(SM, ['A.xml', 'a.xml', 'a.XML', 'a b.xml'])]],
]


def references(levels):
    return sorted({m.strip() for sets in levels for kind, ms in sets
                   if kind == SM for m in ms})


def collected(ctx, eng):
    for i, levels in enumerate(TREES):
        model(ctx, eng, 'models', '%s_collect_source_model_paths, tree %d' % (
            V, i), 'harness.ini_paths', [t(tree(levels))], [{}],
            lambda e: ('return', references(levels)),
            shown=V + '_collect_source_model_paths')


def cells(*values):
    return values


ROWS = [[('lon', 'lat')], [('1.0', '2.1'), ('3.0', '4.1'), ('1.0', '2.1')],
        [('-0', '0'), ('180', '-90'), ('3', '1'), ('2', '5')]]


def multipoint(rows, env=None):
    return 'MULTIPOINT(%s)' % ', '.join('%s %s' % r for r in rows)


def sites(ctx, eng):
    for rows in ROWS:
        model(ctx, eng, 'sites', '%s_parse_sites_csv, %s' % (V, rows),
              'harness.ini_sites', [t(rows)], [{}], lambda e: (
                  'return', multipoint(rows)), shown=V + '_parse_sites_csv')
    for k in range(1, 5):
        syms = [(S('x%d' % i), S('y%d' % i)) for i in range(k)]
        env = {s: '%d.%d' % (9 - i, j) for i, p in enumerate(syms)
               for j, s in enumerate(p)}
        model(ctx, eng, 'sites', '%s_parse_sites_csv, any %d sites' % (V, k),
              'harness.ini_sites', [t(syms)], [env], lambda e: (
                  'return', multipoint([(e[x], e[y]) for x, y in syms])),
              shown=V + '_parse_sites_csv')


def place(job, path):
    return posixpath.normpath(posixpath.join(
        '/work', posixpath.dirname(job), path))


def expected(job, sections, trees, files):
    params = {'base_path': place(job, ''), 'inputs': {}}
    for name, items in sections:
        for k, v in items:
            k = k.lower()
            if k == 'sites_csv':
                params['sites'] = multipoint(files[place(job, v)])
            elif k.endswith('_file'):
                params['inputs'][k[:-5]] = place(job, v)
            else:
                params[k] = v
    smlt = params['inputs'].get('source_model_logic_tree')
    if smlt:
        params['inputs']['source'] = [place(job, p)
                                      for p in references(trees[smlt])]
    return params


def normal(g):
    """paths are compared without redundant components"""
    if not isinstance(g, dict) or not isinstance(g.get('inputs'), dict):
        return g
    g = dict(g)
    n = lambda x: posixpath.normpath(x) if isinstance(x, str) else \
        [n(y) for y in x] if isinstance(x, list) else x
    if 'base_path' in g:
        g['base_path'] = n(g['base_path'])
    g['inputs'] = {k: n(v) for k, v in g['inputs'].items()}
    return g


PLAIN = ('general', [('calculation_mode', 'classical'), ('Region', '1 1 2 2'),
                     ('random_seed', '0'), ('empty', ''), ('file', 'x'),
                     ('path_file_name', 'y')])
JOBS = ['job.ini', 'path/to/job.ini', './job.ini', '/abs/dir/job.ini',
        '../job.ini', 'a/../b/job.ini']


def configs():
    yield [PLAIN]
    yield [('one', [('a', '1')]), ('two', [('b', '2'), ('c', '/3')]),
           ('none', []), ('three', [('d', 'site_model_file')])]
    for p in ('x.csv', 'sub/x.csv', '/data/x.csv', '../x.csv', './x.csv'):
        yield [PLAIN, ('files', [('exposure_file', p), ('other', p)])]
        yield [('files', [('gsim_logic_tree_file', p),
                          ('Site_Model_FILE', 'model.xml'),
                          ('_file', p), ('a_file_file', 'f')]),
               ('more', [('structural_vulnerability_file', p)])]
    for p in ('sites.csv', 'sub/sites.csv', '/data/sites.csv'):
        yield [PLAIN, ('geometry', [('sites_csv', p)])]
        yield [('geometry', [('z_file', 'z'), ('sites_csv', p), ('q', 'w')])]


def jobs(ctx, eng):
    cfgs = list(configs())
    for job in JOBS:
        for sections in cfgs:
            files = {place(job, v): ROWS[i % 3] for name, items in sections
                     for i, (k, v) in enumerate(items) if k == 'sites_csv'}
            run_job(ctx, eng, job, sections, {}, files)
        for levels in TREES:
            for p in ('smlt.xml', 'lt/smlt.xml', '/data/smlt.xml'):
                run_job(ctx, eng, job, [PLAIN, ('hazard', [
                    ('source_model_logic_tree_file', p)])],
                    {place(job, p): levels}, {})


def run_job(ctx, eng, job, sections, trees, files):
    names = [k + ('=' + v if k.endswith('_file') or k == 'sites_csv' else '')
             for name, items in sections for k, v in items]
    # the same document under its path as it may be spelled
    spelled = {}
    for p, levels in trees.items():
        for q in spellings(job, p, sections):
            spelled[q] = t(tree(levels))
    paths_ = {}
    for p, rows in files.items():
        for q in spellings(job, p, sections):
            paths_[q] = t(rows)
    # other files of the same names where relative paths must not lead
    for name, items in sections:
        for k, v in items:
            if k.endswith('_file') or k == 'sites_csv':
                spelled.setdefault(v, t(tree([[(SM, ['decoy.xml'])]])))
                paths_.setdefault(v, t([('99', '98')]))
    pairs = lambda d: ('tuple',) + tuple(
        ('tuple', K(k), v) for k, v in sorted(d.items()))
    model(ctx, eng, 'parameters', '%sparse_config, %s with %s%s' % (
        V, job, ' '.join(names), ''.join(
            ', models %s' % references(x) for x in trees.values())),
        'harness.ini_parse', [K(job), t(sections), pairs(spelled),
                              pairs(paths_)], [{}],
        lambda e: ('return', expected(job, sections, trees, files)),
        shown=V + 'parse_config', cmp=lambda g, w: normal(g) == w)


def spellings(job, path, sections):
    """the ways in which the path of a file can be written"""
    out = {path}
    for name, items in sections:
        for k, v in items:
            if place(job, v) == path:
                for base in ('/work', ''):
                    out.add(posixpath.join(base, posixpath.dirname(job), v))
                out.add(posixpath.join(place(job, ''), v))
    return out


def run(ctx):
    ctx.rule('parameters', 'every parameter under its own name, files as '
             'inputs with the right paths')
    ctx.rule('models', 'the distinct trimmed references to source models')
    ctx.rule('sites', 'a multipoint with the sites in order')
    ctx.assumptions.append('ConfigParser, csv and lxml behave as in '
                           'models.py2')
    stubs = {k: v for k, v in WORLD.items() if k not in PATHS}
    eng = ctx.engine(stubs=stubs, recursion=12, real=dict(REAL, **PATHS),
                     UNROLL=60)
    collected(ctx, eng)
    sites(ctx, eng)
    jobs(ctx, eng)
