#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
L = 'openquake/commonlib/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=[f if '/' in f else L + f for f in files],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))


NOIMP = ('The module cannot even be imported by the test run here (a third-party package is missing), so the '
         'tests only show that it parses; ')

prop('C01', 'Numeric validators confine values to their documented range',
     'Whatever string is given, the longitude, latitude, probability, positive-integer and positive-float validators '
     'either return a number inside their closed range ([-180,180], [-90,90], [0,1], >= 0, >= 0) or raise an error. '
     'The number returned is the one the string denotes; a string that denotes no number (no integer, for the positive '
     'integer) is rejected, NaN is never returned, and no number inside the range is rejected.',
     ['inputs'], 'every input string, including nan, inf, signed zero and the exact bounds',
     'The tests try a handful of literals; the quantifier is over every string float()/int() accepts.',
     ['valid.py'], [('FloatRange.__call__', 'valid.py'), ('longitude', 'valid.py'), ('latitude', 'valid.py'),
                    ('positiveint', 'valid.py'), ('positivefloat', 'valid.py')], observe=['return value / exception'])
prop('C02', 'Text validators accept exactly their documented vocabulary',
     'As whole strings, the IMT validator accepts exactly PGA, PGV, PGD, IA, RSD, MMI and SA(<decimal number>) and '
     'returns the name or (SA, the period, 5.0); the identifier validator accepts exactly a letter or underscore '
     'followed by letters, digits or underscores; the boolean validator exactly 0, 1, true, false. A choice accepts '
     'exactly its listed values, the optional wrapper maps exactly the empty string to None and delegates anything '
     'else, and the non-empty check rejects exactly the empty string. A name list is accepted exactly when each of its '
     'whitespace-separated items is an identifier and there is at least one, and is returned as the list of '
     'those items in their order.',
     ['inputs'], 'every input string',
     'A vocabulary is a language over all strings; the tests sample about twenty strings of it.',
     ['valid.py'], [('IMTstr', 'valid.py'), ('Regex', 'valid.py'), ('boolean', 'valid.py'), ('Choice', 'valid.py'),
                    ('NoneOr', 'valid.py'), ('not_empty', 'valid.py'), ('namelist', 'valid.py')])
prop('C03', 'A malformed cell is always reported, never a crash',
     'For every string a field validator either returns or raises ValueError, never another exception. Casting a '
     'record therefore never raises: it gives either the converted tuple or an error object listing every failing '
     'column once, in column order; the validity test of the columns, the strict cast and the invalid-record search agree with it.',
     ['inputs'], 'every record type and every content of its cells',
     'Exceptions of another type appear only on inputs the tests do not use (infinities, odd text).',
     ['valid.py', 'record.py'], [('Record.cast', 'record.py'), ('Record.is_valid', 'record.py'),
                                 ('Record.to_tuple', 'record.py'), ('find_invalid', 'record.py')])
prop('C04', 'Columns, names and attributes of a record always agree',
     'The i-th declared column (inherited columns first, then in declaration order) is the i-th constructor argument, '
     'the i-th row cell, the i-th entry of the field-name list and of the cast tuple, and is what the column name and '
     'the attribute of that name denote. Missing constructor arguments are empty strings. Assigning a cell an invalid '
     'value raises and leaves the record unchanged.',
     ['programs', 'inputs'], 'every record class that client code can declare and every value',
     'record_test.py cannot be imported here and uses a single record type.',
     ['record.py'], [('MetaRecord.__new__', 'record.py'), ('MetaRecord.mkinit', 'record.py'),
                     ('Record.get_field_index', 'record.py'), ('Record.__setitem__', 'record.py'),
                     ('Field.__get__', 'record.py')])
prop('C05', 'Unique constraints survive every history of table edits',
     'After any sequence of append, insert, item replacement and item deletion, including attempts that fail, no two '
     'records of a table agree on a unique key, and looking up a primary key finds exactly the record stored under '
     'it. An insertion or replacement that would duplicate a key raises KeyError and leaves both the records and the '
     'key lookup exactly as they were.',
     ['histories'], 'every sequence of table operations with valid single positions',
     'Histories, in particular those with failing steps on types with several unique keys, are not tested at all.',
     ['record.py'], [('Table.insert', 'record.py'), ('Table.__setitem__', 'record.py'),
                     ('Table.__delitem__', 'record.py'), ('Table.getrecord', 'record.py')],
     state=[('Table._records', 'the stored records', 'record.py'),
            ('UniqueData.dict', 'unique key -> record, one per unique constraint', 'record.py')])
prop('C06', 'No record enters a table set with a dangling reference',
     'Inserting a record in a table set stores it, in the table of its own type, only after every one of its foreign '
     'keys has been found in the referenced table; otherwise a foreign key error is raised and nothing is stored. '
     'Inserting several records applies this to each of them, in order.',
     ['histories', 'inputs'], 'every record type with any number of foreign keys and every table content',
     'One foreign key failure is tested, in a module that cannot be imported here.',
     ['record.py'], [('TableSet.insert', 'record.py'), ('TableSet.check_fk', 'record.py'),
                     ('TableSet.insert_all', 'record.py'), ('TableSet.__init__', 'record.py')])
prop('C07', 'Sequence equality is length-aware, total and consistent',
     'Comparing a record, a table or a weighted sequence with another sequence by == gives True exactly when both '
     'have the same length and pairwise equal items; != always gives the opposite. A difference in length never makes '
     'the comparison raise or be ignored.',
     ['inputs'], 'every pair of sequences',
     'The tests compare only sequences of equal length.',
     ['record.py', 'general.py'], [('Record.__eq__', 'record.py'), ('Record.__ne__', 'record.py'),
                                   ('Table.__eq__', 'record.py'), ('WeightedSequence.__eq__', 'general.py')])
prop('C08', 'The declared record types form a closed schema',
     'Every unique or foreign key of a record type names distinct existing columns of it, and every record type has a '
     'primary key. Every foreign key refers to a unique key with as many columns, of a record type that belongs to '
     'the same model kind and is declared earlier; every record type belongs to an existing model kind, and the types '
     'of a kind are listed in declaration order.',
     ['programs'], 'every record type declared by the library',
     'The declarations are only exercised for the few files of the round-trip tests, which cannot run here.',
     ['records.py', 'record.py', 'converter.py'],
     [('record type declarations', 'records.py'), ('Converter.recordtypes', 'converter.py')])
prop('C09', 'NRML to records and back preserves every mapped value',
     'For vulnerability, discrete and continuous fragility, exposure and ground-motion-field models, each record '
     'column is filled from exactly the NRML attribute or element text to which the reverse conversion writes that '
     'column back, for every element of the model. Attributes that are optional in the model come back only when they '
     'were present, and the blanks around a text are immaterial. The limit states and the fields have a record each, '
     'and each risk function is checked by the risk library, with its own numbers, before it is written.',
     ['inputs'], 'every model accepted by the converters',
     'The round-trip tests use seven sample files and cannot run here.',
     ['converter.py', 'records.py'],
     [('node_to_records of each converter', 'converter.py'), ('to_node of each converter', 'converter.py'),
      ('to_node of each record type', 'records.py')])
prop('C10', 'CSV reading and writing follow one file and header convention',
     'The file of a record type is always <prefix>__<record type>.csv for writing, reading and searching. If and only '
     'if headers are enabled the first line written is the list of field names and the first line read, if any, must equal it, '
     'else an invalid-file error is raised before any record is produced; every other line is one record, all its '
     'columns in declaration order. The header setting applies to every file group the manager processes.',
     ['inputs', 'configurations'], 'every record type, prefix, header setting and file content',
     NOIMP + 'headerless managers over grouped files are never tested.',
     ['csvmanager.py'], [('CSVManager.read', 'csvmanager.py'), ('CSVManager.write', 'csvmanager.py'),
                         ('CSVManager._getmanagers', 'csvmanager.py'), ('CSVManager._find_invalid', 'csvmanager.py')])
prop('C11', 'Every kind of archive honours one contract',
     'For directory, zip and in-memory archives alike, opening for reading a name that is not there raises the '
     'not-in-archive error, opening for writing creates the file, and listing returns the names with the requested '
     'prefix. Every file handed out is closed when the archive is closed, and membership of a name is True exactly '
     'when it can be opened for reading.',
     ['inputs', 'histories'], 'every archive kind, name, mode and sequence of operations',
     NOIMP + 'the optional-table path is only exercised with in-memory archives.',
     ['csvmanager.py'], [('Archive.open/close', 'csvmanager.py'), ('ZipArchive._open', 'csvmanager.py'),
                         ('DirArchive._open', 'csvmanager.py'), ('MemArchive._open', 'csvmanager.py')])
prop('C12', 'Data written into a zip archive is stored once, complete, at close',
     'Closing a file opened for writing in a zip archive first flushes everything written, then stores the content '
     'once under the name it was opened with, then releases the temporary file; closing it again does nothing. An '
     'in-memory file keeps its full content across close and reopen.',
     ['histories'], 'every sequence of writes and closes',
     NOIMP + 'repeated closing is not tested.',
     ['csvmanager.py'], [('TempFile.close', 'csvmanager.py'), ('FileObject.close', 'csvmanager.py')],
     state=[('TempFile.closed', 'already stored', 'csvmanager.py')])
prop('C13', 'Invalid CSV data stops the conversion and is fully reported',
     'Before writing any XML from CSV files the command-line converter checks every file of every group and exits '
     'with a failure if any record is invalid. The search visits every present file of every record type of every '
     'group, labels each problem with its file name and row, and without a limit returns them all, with a limit at '
     'most that many.',
     ['inputs', 'configurations'], 'every set of CSV files and limit',
     'The script has no tests and the search is untested.',
     ['bin/NRMLconvert.py', 'csvmanager.py', 'record.py'],
     [('main', 'bin/NRMLconvert.py'), ('print_invalid', 'bin/NRMLconvert.py'),
      ('CSVManager.find_invalid', 'csvmanager.py'), ('find_invalid', 'record.py')])
prop('C14', 'The weight of a weighted sequence is the sum of what was put in',
     'A weighted sequence built, extended, appended to or inserted into holds exactly the given items in order and '
     'its weight is the sum of their weights. Adding or merging sequences concatenates the items, sums the weights '
     'and leaves the operands unchanged; ordering compares the weights only.',
     ['inputs', 'histories'], 'every sequence of insertions and additions',
     NOIMP + 'weights are checked on two literal examples.',
     ['general.py'], [('WeightedSequence.insert', 'general.py'), ('WeightedSequence.__add__', 'general.py'),
                      ('WeightedSequence.merge', 'general.py')])
prop('C15', 'Splitting in blocks loses, repeats and reorders nothing',
     'Concatenating the blocks gives the input items of non-zero weight, each once and in order, and no block is '
     'empty. All items of a block have the same kind, and a block exceeds the maximum weight only if it is a single '
     'item; a new block starts only when the kind changes or the maximum would be exceeded. A negative weight or a non-positive maximum raises ValueError. Splitting by a hint uses the total weight '
     'divided by the hint, rounded up, with the same weight and kind functions.',
     ['inputs'], 'every item sequence, weight function, kind function and limit',
     NOIMP + 'zero weights combined with changing kinds are not tested.',
     ['general.py'], [('block_splitter', 'general.py'), ('split_in_blocks', 'general.py')])
prop('C16', 'Deep comparison applies the caller settings at every depth',
     'Deep comparison returns (True, empty message) or (False, message) for nested data. The requested decimal '
     'precision and the excluded attribute names apply at every level of nesting, not only at the top, for '
     'dictionaries, objects and slotted objects alike, and a difference in the keys is reported as a difference, not '
     'as an error.',
     ['inputs'], 'every pair of nested values, precision and exclusion list',
     NOIMP + 'exclusion is never tested.',
     ['general.py'], [('deep_eq', 'general.py'), ('_deep_eq', 'general.py')])
prop('C17', 'Temporary files are written completely and leave no open descriptor',
     'The temporary-file helper returns the path of a new file in the requested directory (created if missing) with '
     'the requested prefix and suffix, holding exactly the given content, empty if none. On return the file '
     'descriptor it obtained has been closed, whatever the content was.',
     ['inputs'], 'every content (including None and the empty string) and directory',
     NOIMP + 'descriptor leaks are invisible to the tests.',
     ['general.py'], [('writetmp', 'general.py')])
prop('C18', 'No task result or task failure is ever lost or counted twice',
     'Every submitted call yields one result; a call that raises yields its traceback and exception class instead of '
     'propagating. Aggregation folds each result exactly once into the accumulator, starting from the given value, '
     'in process or in the pool alike; if any task failed it raises an error carrying the message, and waiting '
     'returns the number of tasks.',
     ['schedules', 'inputs'], 'every task function, argument list and completion order',
     'The module needs psutil and concurrent.futures and has no tests.',
     ['parallel.py'], [('safely_call', 'parallel.py'), ('TaskManager.submit', 'parallel.py'),
                       ('TaskManager.aggregate_results', 'parallel.py'), ('TaskManager.wait', 'parallel.py'),
                       ('map_reduce', 'parallel.py')])
prop('C19', 'Pickling a sequence keeps one faithful pickle per object, in order',
     'Pickling a sequence returns one entry per element, in order: elements that are already pickled are passed '
     'through, the same object is pickled only once, and different objects never share a pickle, even when the '
     'sequence is produced on the fly. Unpickling uses the bytes pickled from that object; the length of a pickle '
     'is the number of its bytes and its representation shows the class and the size.',
     ['inputs', 'schedules'], 'every iterable of objects, including generators of temporaries',
     'The module has no tests; identity reuse depends on the allocator.',
     ['parallel.py'], [('pickle_sequence', 'parallel.py'), ('Pickled', 'parallel.py')])
prop('C20', 'Context managers release on every exit and hide no exception',
     'Leaving the block of an archive, a wrapped file, a CSV manager or a performance monitor, normally or by an '
     'exception, always performs its release step (closing, or recording duration, memory and exception and calling '
     'the exit hook) and never swallows the exception. Entering returns the object itself.',
     ['fault_sequences'], 'every way of leaving the block',
     'Exceptional exits are not tested.',
     ['csvmanager.py', 'parallel.py'],
     [('FileWrapper.__exit__', 'csvmanager.py'), ('Archive.__exit__', 'csvmanager.py'),
      ('CSVManager.__exit__', 'csvmanager.py'), ('PerformanceMonitor.__exit__', 'parallel.py')])
prop('C21', 'Branch weights are exact decimals that must sum to one',
     'In every logic tree reader the weight of a branch is the decimal number written in the file, never a rounded '
     'binary value, and a branch set is accepted only if the sum of the weights of all its branches is exactly one; '
     'this holds whether or not optional validation is requested.',
     ['inputs', 'configurations'], 'every logic tree file, validating or not',
     NOIMP + 'only one wrong sum is tested.',
     ['logictree.py'], [('BaseLogicTree.parse_branches', 'logictree.py'), ('GsimLogicTree._parse_lt', 'logictree.py')])
prop('C22', 'Full enumeration visits every path once with its product weight',
     'Without sampling, iterating over a logic tree gives one realization per root-to-leaf path and no other, '
     'following the child branch set of each branch until there is none; its branch identifiers are in root-to-leaf '
     'order, its value is that of its first branch and its weight the product of the weights of all its branches.',
     ['inputs'], 'every tree shape',
     NOIMP + 'one small tree is tested.',
     ['logictree.py'], [('BranchSet.enumerate_paths', 'logictree.py'), ('BranchSet._enumerate_paths', 'logictree.py'),
                        ('BaseLogicTree.__iter__', 'logictree.py')])
prop('C23', 'Branch sets attach only to open branches of the previous level',
     'Branch identifiers are unique in a tree. The first branch set parsed is the root; each later one becomes the '
     'child of every open branch, or of exactly the listed branches, each of which must exist, belong to the last '
     'level that defined branches and have no child yet, otherwise a validation error is raised. A level whose branch '
     'sets are all skipped does not detach the levels that follow it.',
     ['inputs'], 'every sequence of branching levels and reference lists',
     NOIMP + 'trees with skipped levels are not tested.',
     ['logictree.py'], [('BaseLogicTree.parse_branchinglevel', 'logictree.py'),
                        ('BaseLogicTree.apply_branchset', 'logictree.py'),
                        ('SourceModelLogicTree.apply_branchset', 'logictree.py')],
     state=[('open_ends', 'branches of the last level, still without children', 'logictree.py')])
prop('C24', 'Requested validation is never bypassed and always reports its place',
     'When validation is requested, the filters, position and type of every branch set, every uncertainty value and '
     'finally the whole tree are checked before they are used; when it is not, none of these checks run. Each '
     'documented rule violation of a source-model or GMPE logic tree raises a validation error naming the offending '
     'node, file and base path, and trees obeying the rules are accepted. A '
     'document which is not XML or which the NRML schema refuses raises a parsing error naming the file, whatever '
     'the validation setting.',
     ['inputs', 'configurations'], 'every tree and validation setting',
     NOIMP + 'each rule is tested with one example.',
     ['logictree.py'], [('validate_filters, validate_branchset, validate_uncertainty_value, validate_tree',
                         'logictree.py'), ('BaseLogicTree.parse_tree/parse_branchset/parse_branches', 'logictree.py')])
prop('C25', 'Uncertainties reach exactly the sources their filters select',
     'An uncertainty modifies a source only if the source passes every filter of its branch set and has a truncated '
     'Gutenberg-Richter distribution. Each uncertainty type performs its own modification with the value of the '
     'branch, each source type accepted by the reader selects exactly that type of source, and an unknown type or '
     'filter raises instead of being ignored. The function built for a path applies all and only the uncertainties '
     'of the branches on that path, in order.',
     ['inputs'], 'every uncertainty type, filter combination and source type',
     NOIMP + 'the dispatch tables are only sampled.',
     ['logictree.py'], [('BranchSet.filter_source', 'logictree.py'), ('BranchSet.apply_uncertainty', 'logictree.py'),
                        ('SourceModelLogicTree.make_apply_uncertainties', 'logictree.py'),
                        ('SourceModelLogicTree.parse_uncertainty_value', 'logictree.py')])
prop('C26', 'Sampling a logic tree depends only on the seed',
     'With sampling enabled exactly the requested number of paths is produced, each chosen by drawing one branch per '
     'branch set on the way from root to leaf with a random generator created from the configured seed for that '
     'iteration; no other source of randomness is used anywhere in the library. A draw picks the first branch at '
     'which the cumulated weight reaches the drawn number, and fails loudly if there is none.',
     ['inputs', 'histories'], 'every tree, seed and number of samples',
     NOIMP + 'independence from global state cannot be observed by a test with one seed.',
     ['logictree.py'], [('BaseLogicTree.__iter__', 'logictree.py'), ('BaseLogicTree.sample_path', 'logictree.py'),
                        ('sample_one', 'logictree.py'), ('sample', 'logictree.py')])
prop('C27', 'A GSIM realization assigns one GSIM to each selected region type',
     'The GSIM logic tree keeps exactly the branch sets whose tectonic region type was requested and rejects files '
     'with several branch sets in a level, another uncertainty type, a region type defined twice, or none of the '
     'requested ones. Its realizations are all combinations of one branch per kept branch set: a mapping from region '
     'type to GSIM, the product of the weights and the branch identifiers in the same order, for any branch naming '
     'and order in the file; the numbers of branches and of paths it reports agree with them. The path of a '
     'realization of the GMPE logic tree is converted to the mapping from each kept region type to the GSIM object '
     'of its branch, and a path naming another branch is refused.',
     ['inputs'], 'every GSIM logic tree file and list of region types',
     NOIMP + 'identifier orders that break the grouping are not tested.',
     ['logictree.py'], [('GsimLogicTree.__init__', 'logictree.py'), ('GsimLogicTree._parse_lt', 'logictree.py'),
                        ('GsimLogicTree.__iter__', 'logictree.py'), ('BranchTuple ordering', 'logictree.py')])
prop('C28', 'Each source and rupture parameter keeps its meaning in conversion',
     'Converting a point, area, simple fault, complex fault or characteristic source, or a fault rupture, gives an '
     'object of the corresponding hazard class in which every parameter (identity, region type, depths, dip, rake, '
     'aspect ratio, scaling relation, magnitude distribution, nodal planes, hypocentres, geometry) is taken from the '
     'input parameter of that meaning, and mesh spacing, bin width, discretization and temporal model from the '
     'converter settings. Every supported class is dispatched, and a failure while converting a source names it.',
     ['inputs'], 'every source and rupture model object',
     NOIMP + 'one instance of each class is tested, against equal values in several fields.',
     ['source.py'], [('NrmlHazardlibConverter.__call__', 'source.py'),
                     ('NrmlHazardlibConverter._*_to_hazardlib', 'source.py')])
prop('C29', 'Splitting an area source conserves its rate and attributes',
     'Splitting an area source yields one point source per node of its discretized polygon, located at that node, '
     'with distinct identifiers derived from the original and the total occurrence rate divided equally among the '
     'points for both kinds of magnitude distribution. All other attributes are those of the area source, which is '
     'left unchanged.',
     ['inputs'], 'every area source and discretization step',
     NOIMP + 'only one value of the first point is tested.',
     ['source.py'], [('area_to_point_sources', 'source.py')])
prop('C30', 'Splitting a fault source counts each non-zero rate exactly once',
     'Splitting a fault source yields exactly one source for each magnitude bin with non-zero rate and none for the '
     'others, each a copy differing only in a distinct identifier made of the original one and a single-bin magnitude distribution with that '
     'magnitude, the original bin width and that rate; the original source is left unchanged. Each kind of source is '
     'split by its own rule, and kinds that are not split are returned as they are.',
     ['inputs'], 'every fault source, including distributions with zero rates in any position',
     NOIMP + 'fault splitting has no test.',
     ['source.py'], [('split_fault_source', 'source.py'), ('split_source', 'source.py')])
prop('C31', 'Source collectors summarise exactly the sources they hold',
     'A collector built from sources, or updated with them, holds each of them once, refuses a source of another '
     'region type, and its minimum and maximum magnitude are the extremes over all of them. Filtering keeps exactly '
     'the sources accepted by the filter, in order, in a new collector and leaves the old one unchanged; block '
     'generation splits every accepted source, drops the others, weighs each part by its number of ruptures, adds it '
     'to the total, and accepts every positive weight limit.',
     ['inputs', 'histories'], 'every list of sources and filter',
     NOIMP + 'collectors built from a non-empty list are never tested.',
     ['source.py'], [('SourceCollector.__init__/update', 'source.py'), ('SourceCollector.filter_sources', 'source.py'),
                     ('SourceCollector.gen_blocks', 'source.py')])
prop('C32', 'Reading a source model groups unique, already modified sources',
     'Reading a source model converts each source once, raises an error on the second occurrence of a source '
     'identifier, applies the uncertainties to a source before it is counted in the statistics, and puts it in the '
     'one collector of its region type. The collectors are returned in a total order that depends only on their '
     'number of sources and region type.',
     ['inputs'], 'every source model file and uncertainty function',
     NOIMP + 'one duplicate is tested.',
     ['source.py'], [('parse_source_model', 'source.py'), ('SourceCollector.__lt__', 'source.py')])
prop('C33', 'Configuration files resolve every referenced path',
     'Parsing a job file returns every parameter of every section under its own name; each parameter ending in _file '
     'becomes an input under the name without that suffix, whose path is absolute paths as given and relative ones '
     'joined to the directory of the job file. The source model paths are the distinct trimmed references of the '
     'source-model branch sets only, sorted and resolved the same way, and a sites file becomes a multipoint with one '
     '"lon lat" entry per line, in order.',
     ['configurations', 'inputs'], 'every job file, logic tree and sites file',
     NOIMP + 'relative paths and source model logic trees are not tested.',
     ['readini.py'], [('parse_config', 'readini.py'), ('_collect_source_model_paths', 'readini.py'),
                      ('_parse_sites_csv', 'readini.py')])
prop('C34', 'Risk models pair each taxonomy with exactly its own functions',
     'Loss types and cost types convert into each other consistently. Loading vulnerability models takes, for each '
     'requested loss type present, the file of that cost type (the retrofitted one if and only if asked), rejects a '
     'taxonomy defined twice and wraps an invalid function in an error naming it; each taxonomy maps to its functions '
     'by loss type. Loading fragility models gives no_damage followed by the limit states in order and, per taxonomy, '
     'one function per limit state, of the format of the file, with the no-damage limit prepended when present.',
     ['inputs', 'configurations'], 'every set of risk model files and options',
     NOIMP + 'the fragility loader and the retrofitted option have no test.',
     ['riskloaders.py'], [('get_taxonomy_vfs', 'riskloaders.py'), ('get_risk_models', 'riskloaders.py'),
                          ('_get_vulnerability_functions', 'riskloaders.py'),
                          ('get_damage_states_and_risk_models', 'riskloaders.py')])
prop('C35', 'Conversions and splits never modify the objects they are given',
     'Converting NRML sources, ruptures or model nodes, splitting sources, comparing values, building blocks and '
     'reading risk models leave the objects passed by the caller as they were (only the function whose purpose is to '
     'apply an uncertainty changes a source). No default argument value or class-level container is modified, so no '
     'call can influence a later one, and no collection is modified while it is being iterated.',
     ['histories', 'inputs'], 'every caller and sequence of calls',
     'Mutation of an argument is invisible unless a test inspects the argument afterwards; none does.',
     ['source.py', 'converter.py', 'general.py', 'riskloaders.py', 'readini.py', 'record.py', 'logictree.py',
      'csvmanager.py', 'parallel.py'],
     [('NrmlHazardlibConverter._characteristic_to_hazardlib', 'source.py'), ('split_fault_source', 'source.py'),
      ('SourceCollector.__init__', 'source.py')])
prop('C36', 'Every internal reference resolves and every internal call binds',
     'No operation of the library or its script can fail because it names a variable, module member, attribute or '
     'method that does not exist, uses a local variable that was not assigned, calls a function or class of the '
     'library with arguments its signature does not accept, or formats a message with a wrong number of values.',
     ['programs', 'inputs'], 'every path of every function of the library',
     'Most modules cannot be imported by the test run, so such a defect stays invisible to build and tests.',
     ['parallel.py', 'csvmanager.py', 'converter.py', 'source.py', 'logictree.py', 'general.py', 'readini.py',
      'record.py', 'records.py', 'riskloaders.py', 'valid.py', 'bin/NRMLconvert.py'],
     [('all functions', 'openquake/commonlib')])
prop('C37', 'Custom orderings are consistent orders',
     'The less-than relations the library defines for its own objects (collectors, branches, weighted sequences) are '
     'strict weak orders: irreflexive, transitive, and with transitive incomparability. Sorting therefore keeps '
     'branches of one branch set together and does not depend on the order of the input.',
     ['inputs'], 'every triple of objects',
     'An inconsistent order shows only for particular identifier combinations.',
     ['logictree.py', 'source.py', 'general.py'],
     [('BranchTuple.__lt__', 'logictree.py'), ('SourceCollector.__lt__', 'source.py'),
      ('WeightedSequence.__lt__', 'general.py')])
prop('C38', 'Parallel and sequential aggregation give equal results',
     'In process, the aggregate is the fold of the aggregation function over the results of the tasks in the order of '
     'their arguments. For an associative and commutative aggregation function the result computed by the process '
     'pool equals it, for every completion order of the tasks.',
     ['schedules'], 'every completion order of the pool',
     'A test sees one schedule.',
     ['parallel.py'], [('TaskManager.aggregate_result_set', 'parallel.py')])
prop('C39', 'Memory and time reported by the performance monitor are accurate',
     'The reported duration and memory deltas are those of the monitored block, one delta per observed process.',
     ['schedules', 'fault_sequences'], 'every block and every process life cycle',
     'Depends on the operating system counters at run time.',
     ['parallel.py'], [('PerformanceMonitor', 'parallel.py')])
prop('C40', 'Blocks split by a hint are balanced',
     'Splitting by a hint gives a number of blocks close to the hint with weights as balanced as the items allow.',
     ['inputs'], 'every item sequence and hint',
     'Closeness is a numerical relation over all weight distributions.',
     ['general.py'], [('split_in_blocks', 'general.py')])

prop('C41', 'Validity and views of records, tables and table sets',
     'A record is valid exactly when every cell is accepted by its column and every check added to its own type holds '
     '(an exposure gives both or neither of area type and unit); a table, when all its records are. The text of a '
     'record is its cells joined by commas, of a table one record per line. A type without primary key or using a '
     'reserved name is refused. A column taken on the class casts that cell of a record; the node dictionary maps each '
     'key to its node, in order; grouping gives the runs of equal keys. A table set iterates its nonempty tables.',
     ['inputs'], 'every record, table and table set, every pattern of valid and invalid cells',
     'The tests convert a few complete files; checks across columns, slices and reserved names are not exercised.',
     ['record.py', 'records.py', 'converter.py'],
     [('Record.is_valid', 'record.py'), ('Table.is_valid', 'record.py'), ('MetaRecord.__new__', 'record.py'),
      ('Field.__get__', 'record.py'), ('nodedict', 'record.py'), ('groupby', 'converter.py'),
      ('TableSet', 'record.py'), ('Exposure.check_area', 'records.py')])
prop('C42', 'The small helpers compute what they document',
     'Listing the distinct keys gives each key once, in the order of first occurrence, in a new list, for sequences '
     'and iterators alike. A text is a true boolean exactly when it is true, yes, t or 1 in any case. The ceiling '
     'division gives the smallest integer not less than the quotient and refuses a divisor which is not positive.',
     ['inputs'], 'every sequence of keys, text and pair of numbers',
     'They have no test, or one example.',
     ['general.py'], [('distinct', 'general.py'), ('str2bool', 'general.py'), ('ceil', 'general.py')])
prop('C43', 'Conversions between XML and CSV archives are complete',
     'From an XML file the script writes into the output directory or zip file exactly the CSV files of its records, '
     'named after the file, reports the invalid records among them up to the limit and then fails; without an output '
     'it fails and writes nothing. From a directory or zip file it writes one XML file holding the node of the '
     'records, in the output or in place, repeatably, leaving the CSV files as they were. An archive without any '
     'group of files, or with several where one is needed, is refused.',
     ['inputs', 'configurations'], 'every direction, kind of archive, path, limit and header setting',
     'The script has no test and the in-place conversion of zip files and directories is not covered.',
     ['bin/NRMLconvert.py', 'csvmanager.py', 'converter.py'],
     [('main', 'bin/NRMLconvert.py'), ('CSVManager.convert_from_nrml', 'csvmanager.py'),
      ('CSVManager.convert_to_nrml', 'csvmanager.py'), ('CSVManager._getconverter', 'csvmanager.py'),
      ('Converter.from_nrml', 'converter.py')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
