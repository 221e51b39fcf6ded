CLAIMS = {
'C01': ('path-sensitive summaries of each validator, decided on the finite '
        'partition of the numbers induced by the constants compared with',
        'every path of every validator; the numbers are partitioned exactly, '
        'the conversion float()/int() is taken as specified by the language'),
'C02': ('path conditions translated to regular languages, automata '
        'equivalence with the documented language',
        'exact for conditions in the regular fragment (regex matches, '
        'equality, membership, case folding); otherwise undecided'),
'C03': ('exception-flow summaries of the cast and of the readers over '
        'every record type, with failing cells as path conditions',
        'every column of every record type; the casts are uninterpreted '
        'where their own behaviour is not the question'),
'C04': ('symbolic summaries of the record accessors for every record type '
        'of the resolved program, compared with the declared field list',
        'every record type and column found in the source'),
'C05': ('symbolic summaries of the table operations on small tables of '
        'symbolic records, decided for every pattern of equal keys, and '
        'effect summaries over generalised tables for atomicity',
        'patterns of up to three records and three keys; general content '
        'for the no-partial-effect rule'),
'C06': ('symbolic summaries of the tableset operations over a family of '
        'related record types, decided for every pattern of equal keys',
        'patterns of up to three records per table'),
'C07': ('symbolic summaries of the comparison methods, decided for every '
        'length and pattern of equal items up to the stated size',
        'records of up to four fields, tables of up to two records, '
        'weighted sequences of up to three items'),
'C08': ('consistency rules over the record types of the resolved program '
        '(keys, columns, references, kinds, listing), the class construction '
        'followed through the metaclass for either order of the class '
        'dictionary', 'every record type and model kind of the source'),
'C09': ('summaries of the conversion of symbolic and marked documents '
        'into records and back, directly and through CSV files, over a '
        'model of nodes and archives; the tree that comes out compared with '
        'the one that went in', 'models of up to three functions, sets, '
        'assets or fields, with every optional attribute absent, zero and '
        'non-zero'),
'C21': ('symbolic summaries of the three logic tree readers over models of '
        'elements and nodes, the weights being symbols; acceptance and '
        'weights compared with exact decimal arithmetic at texts that '
        'distinguish it from binary arithmetic and from tolerances',
        'one to two levels (three in the thorough tier) of up to three '
        'branches, validated or not'),
'C22': ('symbolic summaries of the enumeration over branch sets of symbolic '
        'branches, compared as terms with the paths of the tree',
        'tree shapes of up to four levels (six in the thorough tier), with '
        'uneven depths and shared branch sets'),
'C23': ('summaries of the parsing of branching levels over models of '
        'elements, the tree built or the error raised compared with the '
        'attachment rule', 'up to five levels, all the ways of listing '
        'open, closed, unknown, foreign and repeated branches, all patterns '
        'of skipped levels'),
'C24': ('summaries of both logic tree readers over models of the XML '
        'library and of source model files: for trees breaking each rule at '
        'each place the error raised (line of the node, file, base path), '
        'for trees obeying them acceptance, without validation no check; '
        'documents refused by the schema',
        'up to three levels; every rule with every type of uncertainty and '
        'of filter; two source models with every type of source'),
'C25': ('summaries of the filtering, application and composition of '
        'uncertainties over models of the hazard sources, the changes '
        'recorded compared with the dispatch table and the filters',
        'every type of source, distribution, filter and uncertainty; paths '
        'of up to five levels, uneven trees'),
'C26': ('taint query: every reference to a source of randomness in the '
        'library is a generator made with a seed; symbolic summaries of '
        'drawing and sampling over symbolic draws, compared with the model '
        'at representatives around every cumulated weight',
        'up to three branches, three levels and seven samples; iterations '
        'repeated and nested'),
'C27': ('summaries of the GSIM logic tree over a model of nodes, the '
        'realizations compared with the product of the kept branch sets for '
        'every interleaving of identifiers', 'up to three branch sets (four '
        'in the thorough tier) of up to three branches; every way of '
        'requesting region types; every reason of rejection'
        '; every path of the GMPE logic tree'),
'C28': ('summaries of the source converter on symbolic source and rupture '
        'models, every parameter of the object made compared with the input '
        'parameter of the same meaning', 'every class of source, geometry and '
        'magnitude distribution; up to three nodal planes, depths, edges and '
        'planar surfaces; every setting'),
'C29': ('summaries of the split of a symbolic area source, the points '
        'compared with the nodes, the shares of the rate evaluated at '
        'generic points', 'one to four nodes (ten in the thorough tier), '
        'both kinds of distribution with up to three rates, integers and '
        'zero among them'),
'C30': ('summaries of the split of each kind of source, the parts compared '
        'with the bins of non-zero rate', 'every pattern of zero rates in '
        'up to four bins (six in the thorough tier), both kinds of '
        'distribution, every kind of source'),
'C31': ('summaries of the collector operations on symbolic sources, compared '
        'with the sources given for every order of the magnitudes',
        'up to three sources (four in the thorough tier), every verdict of '
        'the filter, six weight limits'),
'C32': ('summaries of the reading of a model of sources, for every pattern '
        'of equal identifiers and region types', 'up to four sources (five '
        'in the thorough tier)'),
'C33': ('summaries of the job file parser over models of files, trees and '
        'sections, the parameters compared with the documented ones',
        'a family of job files (every section, position and kind of path), '
        'logic trees and sites files; any sites up to four'),
'C34': ('summaries of the risk model loaders over models of the parsers and '
        'of the risk functions, the functions built compared with those of '
        'the files', 'up to three taxonomies with three limit states, four '
        'records, five sets of files with every option; the parsers of '
        'nrmllib and the classes of risklib are modelled'),
'C36': ('name resolution, class and value inference over the whole program, '
        'call binding, definite assignment by dataflow over every scope',
        'receivers of unknown type are only examined by method name; members '
        'of libraries that are not installed are assumed to exist; paths '
        'without an assignment are reported when no condition guards the '
        'use'),
'C37': ('every ordering of the repository is found, the relation computed '
        'from two objects with symbolic keys is tabulated and tested against '
        'the axioms of a strict weak order and of its documented keys',
        'truth table over a finite set of keys (up to 35 objects, every '
        'triple); weights are numbers, not NaN'),
'C35': ('interprocedural effect analysis of every function: each expression '
        'has origins among the parameters and attributes, effects on (parts '
        'of) them are summarised per function and mapped through the calls; '
        'default values, class containers and iterated collections likewise',
        'effects through values of unknown type or on some paths only are '
        'undecided, not reported; functions of other libraries are assumed '
        'not to modify their arguments, but for the known ones'),
'C38': ('summaries of the aggregation in process and over a model of the pool '
        'for every completion order, the two results compared as terms modulo '
        'associativity and commutativity of the aggregation function',
        'up to three tasks (four in the thorough tier) and two rounds of two; '
        'the executor interface is modelled'),
'C41': ('summaries of validity tests, texts and views of records, tables and '
        'table sets compared with a model over every class of cells',
        'record types of the harness with recognisable casts and the '
        'exposure; up to three records (four for the groups)'),
'C42': ('summaries of the helpers compared with their definitions over a '
        'finite set of keys, texts and numbers', 'up to five keys, about '
        'sixty texts, a grid of divisions'),
'C43': ('summaries of the script and of the conversions over a model of the '
        'file system, the files written compared with the tables or the node '
        'of the input', 'one vulnerability model with two records of data; '
        'directories and zip files, existing or new; the XML reader and '
        'writer of nrmllib are modelled'),
'C10': ('summaries of the CSV manager over a model of archives and of the '
        'csv module, the files written and the records read compared with '
        'the convention for every header setting, prefix and pattern of '
        'cells equal to the header', 'up to two rows (three in the thorough '
        'tier) of two record types; the vulnerability model for the '
        'conversion of nodes'),
'C11': ('effect summaries of the archive classes over a model of the file '
        'system and of zip files, decided for every pattern of names, modes '
        'and contents against the archive contract',
        'archives holding up to two members; the library calls open, '
        'os.path, os.listdir, zipfile and tempfile are taken as specified'),
'C12': ('effect and typestate summaries of the zip member files over a model '
        'of zip and temporary files: what is stored at close and how often, '
        'on normal, repeated and exceptional exit', 'every path; up to two '
        'writes'),
'C13': ('summaries of the search and of the command-line script over a '
        'model of archives, decided for every subset of invalid cells',
        'two groups of two files with five cells that may be invalid, '
        'limits 1 to 3 and 10'),
'C14': ('symbolic summaries of the container operations, items compared as '
        'terms and weights as linear forms at generic points',
        'sequences of up to three items and two operands'
        ', every position, slice and search in them'),
'C15': ('symbolic summaries of the splitting generators on sequences of '
        'symbolic items, decided over every class of weights, kinds and '
        'limits against the stated rule',
        'sequences of up to three items (four in the thorough tier), weights '
        'from a small set that distinguishes the comparisons made'),
'C16': ('symbolic summaries of deep_eq on pairs of small containers and '
        'objects of every kind, decided for every pattern of equal leaves '
        'and every exclusion set against a model of the statement',
        'containers of up to two entries, nesting up to two levels'),
'C17': ('exception-flow and resource summaries of writetmp: every acquired '
        'descriptor and file is released on every path', 'every path'),
'C18': ('symbolic summaries of the task manager over a model of the '
        'executor interface, decided for every pattern of failing tasks',
        'up to three tasks; completion order modelled as a permutation'),
'C19': ('symbolic summaries of the pickling of sequences of up to three '
        'objects, identities compared as terms', 'up to three objects, '
        'lists, tuples and generators'
        '; the sizes of the pickles are symbolic'),
'C20': ('typestate of the context managers: the `with` statement around an '
        'uninterpreted block that may raise anything; on every exit path the '
        'release events follow the block and its exception leaves unchanged',
        'every path; archives with two open files'),
}
NA = {
'C39': 'the accuracy of wall-clock and resident-memory readings is a '
       'run-time quantity of the operating system that no argument over the '
       'source can bound',
'C40': 'balance of the blocks depends on run-time weights; no bound follows '
       'from the program text (what does follow, the limit and the '
       'completeness, is property C15)',
}
