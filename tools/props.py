NOT_APPLICABLE = []

prop('D01', 'Structural edits behave like edits of one plain table',
     'Any sequence of point/feature copy, extract, delete, retain, insert, append, sort, permute, replace, repeat, '
     'unique, rename and transpose calls leaves a data object, and makes every returned object, hold exactly the rows, columns and '
     'names that the same edits of a plain table would give, whichever of the four storage types is used. '
     'Calls with arguments the documentation rules out raise an exception and leave the object as it was.',
     ['histories', 'inputs'],
     'all histories of structural calls up to the depth bound from every initial table of the set (all shapes from 0xN to 3x3, '
     'zeros, duplicates, missing values, no/partial/full names), all argument forms (index, negative index, name, lists in every order, '
     'ranges, number, predicate, query string, limited predicate), List, Matrix, DataFrame and Sparse',
     'The unit tests apply one call to a freshly created object with one sampled argument; results of calls on objects produced by '
     'other calls (unsorted sparse internals, partially named axes, reordered frames) are not reached.',
     AX + STORES,
     [('Axis structural front end and name bookkeeping', D + 'axis.py'),
      ('per-storage implementations', ', '.join(AX[3:]))],
     'explicit-state search over operation histories on the real objects with a table reference model',
     'Every history within the bounds is executed on the real code and compared after every step; assumes the bounded alphabet of values and shapes.',
     state=[{'name': 'Sparse sort state, axis name maps', 'meaning': 'hidden state that can go stale', 'where': D + 'sparse.py, ' + D + 'axis.py'}])

prop('D06', 'Element-level writes and maps change exactly the addressed elements',
     'For every object, storage type and history, element assignment (obj[i, j] = v with indices, names, slices and lists), '
     'fillMatching/transform/calculateOnElements-style functions, points/features.calculate, transform, matching, mapReduce and count, '
     'replaceRectangle and feature normalisation apply the given function or value to exactly the elements addressed by '
     'the points, features, limit and preserveZeros/skipNoneReturnValues arguments and give the value a plain table would have; all other '
     'elements, names and the shape stay as they were, and a refused call changes nothing.',
     ['histories', 'inputs'],
     'all element operations of the alphabet with every argument form on every initial table, in each hidden storage state, and all '
     'two-call histories of them',
     'Unit tests use one freshly created object per call, so the result for Sparse objects with unstored zeros, for limits given in '
     'another order, for values that do not fit the stored dtype or after other edits is never compared with a model.',
     [D + 'base.py'] + AX[:1] + STORES,
     [('element functions', D + 'base.py transformElements, calculateOnElements, replaceRectangle, __setitem__'),
      ('axis functions', D + 'axis.py calculate, transform, mapReduce')],
     'explicit-state search over element-operation histories on the real objects with a table reference model',
     'Every history within the bounds is executed on the real code and compared after every step; bounded values, shapes and functions.',
     state=[{'name': '_data', 'meaning': 'storage specific raw data (unstored zeros, dtypes, nested lists)', 'where': D + 'sparse.py'}])

prop('D08', 'merge is the relational join of the two tables',
     'obj.merge(other, point, feature, onFeature, force) makes obj exactly the join of the two tables: the points are those of the left '
     'object, of both, or of the intersection, matched by point name or by the value of onFeature; each matched pair gives one point; '
     'the features are those of the left object, of both, or the shared ones; shared missing values are filled from the other object, '
     'unmatched ones are missing, conflicting values of a shared feature and ambiguous keys are refused. The other object never changes, a '
     'refused merge leaves obj as it was, and the result does not depend on the storage type of either object.',
     ['inputs'],
     'all pairs of keyed tables within the bounds (all key assignments, shared value patterns with zeros, missing values and conflicts, '
     'all partial namings), every mode, every storage type and hidden state on either side',
     'The four hand written join implementations differ; tests join a few sampled tables without zeros as keys, '
     'partially missing shared features, one-to-many matches or refusals after the join has started.',
     [D + 'base.py'] + STORES,
     [('join front end', D + 'base.py merge, _genericMergeFrontend'), ('per-storage joins', '_merge_implementation in ' + ', '.join(STORES))],
     'exhaustive enumeration of pairs of tables and modes on the real code against a relational-join model',
     'All pairs within the bounds are executed; keys from three values, at most three points per side.')

prop('D15', 'Results depend only on the table, not on storage type or history',
     'Two data objects that hold the same values and names give the same result for every query, copy, statistic, comparison, '
     'arithmetic or text operation, whichever storage type holds them and whatever operations produced them (sorting, extraction, '
     'transposition, views, appended or reversed data, default-name creation, explicit zeros and so on).',
     ['inputs', 'histories'],
     'every read-only call of the catalogue x every initial table x List, Matrix, DataFrame and Sparse x every way of producing '
     'the object in the variant list',
     'Tests compare types on freshly constructed objects; hidden representation states such as an unsorted Sparse, a non-contiguous '
     'Matrix, a reordered DataFrame index or a view are not crossed with the calls that depend on them.',
     [D + 'base.py', D + 'views.py'] + AX + STORES,
     [('representation independent front end', D + 'base.py, ' + D + 'axis.py'), ('implementations', ', '.join(STORES))],
     'exhaustive product of read operations, tables, storage types and histories, compared with the result of the reference representation',
     'The product is enumerated completely; the reference is a freshly created List.')

prop('D02', 'Names are an injective partial labelling of each axis',
     'At every moment the point names and feature names of a data object label distinct indices with distinct strings: getNames, getName, '
     'getIndex, getIndices and hasName agree with each other and with the axis length. setNames in every call form (all names as list, '
     'dict or None; one or several new names for old identifiers given by index, negative index or name) assigns exactly the requested names '
     'to exactly the addressed indices and leaves all others; requests with duplicate, non-string or wrongly many names or unknown '
     'identifiers are refused without changing anything. Default (missing) names stay default until they are set.',
     ['histories', 'inputs'],
     'all labellings of short axes with and without generated defaults, all setNames call forms, all sequences of them up to the depth, '
     'interleaved with the edits that move names',
     'Names are held in two lazily synchronised structures; the tests set names once on a fresh object, so swaps, chains, partially default '
     'axes and repeated renaming, where stale entries survive, are not covered.',
     AX[:1] + [D + 'base.py'],
     [('name bookkeeping', D + 'axis.py setNames, _setName, _setNamesFromList, _setNamesFromDict, getIndex')],
     'explicit-state search over labellings and setNames calls on the real objects with a reference labelling',
     'Every transition within the bounds is executed; four letter alphabet, axis length up to 4.',
     state=[{'name': 'names / namesInverse', 'meaning': 'two representations of the labelling', 'where': D + 'axis.py'}])

prop('D05', 'A view is the exact read-only window of its source',
     'A view (view, pointView, featureView, iteration over points or features, and views of views) shows exactly the addressed window of its '
     'source: values, names, shape and every read, copy, statistic, comparison, query and arithmetic on it equal those of a standalone '
     'object holding the same window. Every call that would modify a view is refused and neither the view nor its '
     'source changes, and reading a view never changes its source.',
     ['inputs', 'histories'],
     'every window and every window of every window of the sources, every storage type and hidden state of the source, every call of the '
     'read catalogue and every modifying call',
     'Tests create a few views of fresh objects; Sparse views depend on the sort state of the source, views of views combine offsets '
     'and each inherited method needs its own read-only override.',
     [D + 'views.py', D + 'base.py'] + STORES,
     [('read-only overrides and windows', D + 'views.py'), ('per-storage view classes', '_view_implementation in ' + ', '.join(STORES))],
     'exhaustive enumeration of windows and calls on the real objects against standalone reference objects',
     'All windows of the sources up to 3x4 are enumerated; sources are not modified while viewed.')

prop('D07', 'Arithmetic, logical, matrix and stretch operations compute the exact table',
     'Every operator of a data object (+ - * / // % ** with scalars and objects, reflected and in-place, unary, comparison-free logical & | ^ ~, '
     '@ and matrixMultiply, matrixPower, and the stretch forms) gives element by element the result of the same operation on the plain '
     'tables, with the storage type of the left operand and the agreed point and feature names. Operands whose shapes, names or contents do '
     'not fit, and divisions by zero, are refused. The operands keep values and names; an in-place operator changes only its left '
     'operand and a refused one changes nothing; later operations see the new values.',
     ['inputs', 'histories'],
     'every operator x every operand of the alphabet (scalars, objects of every storage type, hidden state and naming) on every initial table '
     'in every hidden state or view, and after every history of in-place operators and edits up to the depth',
     'Tests multiply or add random dense tables on fresh objects; Sparse shortcuts for zeros, per-operator name merging and in-place operators '
     'on unsorted or shared data are reachable only through combinations.',
     [D + 'base.py', D + 'stretch.py'] + STORES,
     [('operator front end', D + 'base.py _genericBinaryOperations, _genericLogicalBinary, _genericMatMul, matrixPower'), ('stretch', D + 'stretch.py'),
      ('per-storage operators', '_binaryOperations_implementation, _matmul__implementation in ' + ', '.join(STORES))],
     'exhaustive enumeration of operators, operands and histories on the real objects against a table arithmetic model',
     'Every combination within the bounds is executed; results are compared to eight significant digits.')

prop('D03', 'Reading never changes an object and no read influences a later one',
     'Every call that is not documented to modify a data object (reads, iteration, copies, queries, statistics, comparisons, arithmetic, text, '
     'being the argument of another call) leaves its values and their types as shown, its names, dimensions, object name and paths exactly as they were, and '
     'whatever sequence of such calls has been made before, each of them returns what it returns on a fresh object.',
     ['histories', 'inputs'],
     'every state of the stored fields reachable through read histories of any length (closure up to the state limit) x every call of the '
     'read catalogue, for every initial table, storage type and view',
     'Reads reorganise the stored data (Sparse sorting, lazily created names, type conversions); only sequences of reads with a later '
     'read of the right kind show when that goes wrong, and tests use fresh objects.',
     [D + 'base.py', D + 'axis.py', D + 'views.py', D + 'stretch.py'] + STORES,
     [('lazy internal changes', '_sortInternal in ' + D + 'sparse.py, _getNames in ' + D + 'axis.py, _convertToNumericTypes, _treatAs2D in ' + D + 'base.py')],
     'explicit-state search of the concrete object states reachable by reads, checking every read in every state',
     'States are merged by a digest of all stored fields; the search reaches closure on the explored tables.',
     state=[{'name': '_sorted', 'meaning': 'sort order of Sparse data', 'where': D + 'sparse.py'},
            {'name': 'names / namesInverse', 'meaning': 'lazily generated names', 'where': D + 'axis.py'}])

prop('D04', 'Copies, results, arguments and raw sources are isolated from the object',
     'A data object shares no modifiable state with what it is made from or gives out: after nimble.data, copy, extract, any query or arithmetic result, '
     'export to raw or scipy/pandas/numpy containers, getNames, insert, append, merge, replace, setNames and any other call taking a container, '
     'changing one side in any way (every modifying method, or overwriting the raw container) never changes the other. Calls never modify the '
     'containers and objects given as arguments. Views are the only exception.',
     ['histories', 'inputs'],
     'every producing call, argument-taking call and raw source form x every in-place change, in both directions, every storage type, '
     'hidden-state variants',
     'Aliasing shows only when one of two objects is modified afterwards in the one way that reaches the shared field; tests rarely modify '
     'a result and re-read the source.',
     [D + 'base.py', D + 'axis.py', 'nimble/core/_createHelpers.py'] + STORES,
     [('copies', '_copy_implementation, _structural implementations in ' + ', '.join(STORES)), ('raw sources', 'nimble/core/_createHelpers.py initDataObject')],
     'exhaustive enumeration of two-step histories (produce, then change) on the real objects',
     'The product of calls and changes is enumerated completely for the tables and variants of the tier.')

prop('D09', 'Reshaping operations rearrange the table exactly as documented',
     'flatten and unflatten (point or feature order, and back again), points.splitByCollapsingFeatures, points.combineByExpandingFeatures, '
     'features.splitByParsing, groupByFeature, replaceFeatureWithBinaryFeatures and transformFeatureToIntegers give exactly the table (values, shape, '
     'order, point and feature names) or groups that their documentation defines for every table, identifier form and storage type: no value is '
     'lost, moved, converted or invented, missing combinations are missing values, default names stay default names. '
     'A call that is refused leaves the object as it was.',
     ['inputs', 'histories'],
     'every reshaping call of the alphabet (all dimensions, orders, identifier forms, ordered feature subsets, rules and new names, including clashing ones) '
     'on every initial table (zeros, missing values, duplicates, partial names, mixed types, empty) x storage type x hidden-state variant, and after '
     'another reshaping call or structural edit',
     'Tests reshape a few fully named dense tables; zeros in Sparse objects, partial names, values that precede the names feature, mixed types, '
     'name clashes and histories are not sampled.',
     [D + 'base.py', D + 'points.py', D + 'features.py', D + '_dataHelpers.py'] + STORES + AX[3:],
     [('front ends', D + 'base.py flatten, unflatten, groupByFeature; ' + D + 'points.py; ' + D + 'features.py'),
      ('per-storage implementations', ', '.join(AX[3:] + STORES))],
     'explicit-state search over histories of reshaping calls on the real objects with a table reference model',
     'Every call within the bounds is executed on the real code and compared; bounded tables and alphabets.')


prop('R01', 'Random results depend only on the random state and reach every allowed outcome',
     'Everything nimble does at random (permute without an order, structural calls with number and randomize, trainAndTestSets, nimble.random.data) is a '
     'function of the random state and the values given: the same seed gives the same result, and leaves the same state, for every storage type, '
     'view or history of the object; random.data with a seed, and calls that are not random, neither use nor change the state. '
     'Results are always of the allowed form (a reordering, exactly number distinct elements with the rest left in place, the requested shape, names, '
     'sparsity and element type), no allowed order, selection or zero position is excluded over all seeds, and invalid arguments are refused.',
     ['inputs', 'histories'],
     'every random call of the alphabet x table x storage type x hidden-state variant x starting state; all seeds of a range for the set of outcomes; '
     'every non-random call of the catalogues',
     'Tests fix one seed and compare with one stored result; dependence on storage or hidden order, a lost outcome or a stray draw needs comparing all '
     'representations and all outcomes.',
     ['nimble/random/randomness.py', D + 'axis.py', D + 'base.py'],
     [('random data', 'nimble/random/randomness.py data'), ('random orders', D + 'axis.py _permute, _getStructuralIterator..., ' + D + 'base.py trainAndTestSets')],
     'explicit-state enumeration of call x representation x random state on the real code with differential and set oracles',
     'Exhaustive over the stated alphabet and seeds.',
     state=[{'name': 'pythonRandom, numpyRandom', 'meaning': 'the two generators', 'where': 'nimble/random/randomness.py'}])

prop('R02', 'Seeding and alternateControl histories',
     'setSeed puts both sources of randomness in a state determined by the seed; alternateControl blocks, however nested and however left (end, exception, '
     'KeyboardInterrupt, closed generator), start from a state determined by their seed and restore exactly the state before them; setSeed is refused inside a block '
     'and allowed outside of every block; a refused seed or block changes nothing.',
     ['histories', 'crash points'],
     'all sequences of the alphabet of seeding, drawing, entering and leaving calls up to the depth bound',
     'Only sequences with nested blocks, failing seeds and abnormal exits show a state that is not restored.',
     ['nimble/random/randomness.py'],
     [('seeding', 'nimble/random/randomness.py setSeed, alternateControl')],
     'explicit-state search over histories of the real code against a stack-of-generators model',
     'All histories up to the depth; one thread.',
     state=[{'name': 'setSeed._settable', 'meaning': 'whether inside a block', 'where': 'nimble/random/randomness.py'}])

prop('D17', 'trainAndTestSets partitions the data with labels aligned',
     'For every object, fraction, form of labels (identifier, list of identifiers, separate object) and order, trainAndTestSets divides the points into a training '
     'and a testing part of the size closest to the fraction: no point is lost, doubled or changed, the labels are removed from the data and each returned label '
     'belongs to the data point at the same position, names are kept, without randomOrder the order is kept and the test points are the last ones, with it every '
     'point can be a test point; the object and the labels object stay as they were and invalid arguments are refused.',
     ['inputs'],
     'every fraction of the grid x label form x order x seed x table x storage type x variant, 3-dimensional data included',
     'Tests use a few fractions on one table; empty parts, reordered label lists, partially named objects and other storage types of the labels are not sampled.',
     [D + 'base.py', D + 'axis.py'],
     [('division', D + 'base.py trainAndTestSets')],
     'explicit enumeration of inputs on the real code against a table model (random orders: exists-permutation oracle)',
     'Exhaustive over the stated inputs.')

prop('D11', 'nimble.data builds exactly the table described by the source and options',
     'For every in-memory source (nested sequences, iterators, numpy / scipy / pandas objects, dicts, lists of dicts, of arrays or of nimble objects, nimble objects '
     'and views) and every combination of returnType, rowsArePoints, names (given, taken from the source, False), keepPoints / keepFeatures (any order, by name or '
     'index), treatAsMissing / replaceMissingWith and convertToType, nimble.data returns the table described, in every storage type, or refuses; '
     'the source stays as it was and is not shared with the object. ones, zeros, identity and copies agree as well.',
     ['inputs'],
     'source form x orientation x names form x returnType x kept parts x missing-value options x conversions over small tables of every shape',
     'Each source kind has its own code path and the options are applied by different code per path, axis and type; tests sample few combinations.',
     ['nimble/core/_createHelpers.py', 'nimble/core/create.py'] + STORES,
     [('creation', 'nimble/core/_createHelpers.py initDataObject, createDataFromFile'), ('storage', D + '*.py __init__')],
     'explicit enumeration of source x option combinations on the real code against a table model',
     'Exhaustive over the stated alphabet.',
     state=[{'name': '_data, points.names, features.names', 'meaning': 'contents and names', 'where': D + 'base.py, axis.py'}])

prop('V01', 'Validators divide the points exactly and report held-out performance',
     'KFold, LeaveOneOut, LeaveOneGroupOut, HoldoutProportion and HoldoutData train and test each argument set on a partition: every point (of cross validation) '
     'is held out exactly once, or the stated share / the given data is, no held-out point or label is seen in training, data and labels stay aligned and named, '
     'groups are held out whole, the same folds are used for every argument set, the division depends only on the seed, and the reported performances are the '
     'performance function applied to the held-out known and predicted labels. The data given stays as it was.',
     ['inputs'],
     'validator x folds/proportion x number of points x groups (missing values included) x storage type x labels form x seed',
     'Tests check a few fold counts by the number of results; alignment, leakage and names per storage type and labels form are not observable in a score.',
     ['nimble/core/tune.py', 'nimble/core/_learnHelpers.py', 'nimble/core/learn.py'],
     [('validators', 'nimble/core/tune.py KFold, LeaveOneOut, LeaveOneGroupOut, HoldoutData, HoldoutProportion')],
     'explicit enumeration of validators and data on the real code under a recording learner, against a partition model',
     'Exhaustive over the stated inputs; finite set of seeds.')

prop('V02', 'Tuning tries what its selection describes and returns the best',
     'For every performance landscape, nimble.train with Tune arguments tries exactly the argument sets its selection describes (all combinations, one argument '
     'after the other, or improving neighbours), reports the performance of each, and returns a learner trained on all the data with the best of the reported sets '
     '(by the optimal direction of the performance function). Tune ranges hold exactly start, start changed repeatedly, and not beyond end. Validation, ties and '
     'the number of loops do not break this; the Tuning object given is not changed.',
     ['inputs', 'histories'],
     'every landscape with values {0,1,2} over argument grids up to 3x2 (thorough 3x3, 4) x selection x order x validation x direction; every Tune range of a grid',
     'A search is a loop driven by the performances; tests use one landscape, mostly monotonous, so ties, plateaus, later improvements and single values are not reached.',
     ['nimble/core/tune.py', 'nimble/core/learn.py'],
     [('selection', 'nimble/core/tune.py BruteForce, Consecutive, Iterative, Tuning'), ('ranges', 'nimble/core/tune.py Tune')],
     'explicit-state exploration of the search driven by every performance landscape on the real code, against reference searches',
     'Exhaustive over landscapes in the bounds; bayesian and storm selections are checked for their reported results only.',
     state=[{'name': 'selector state', 'meaning': 'current best, position in each argument, visited sets', 'where': 'nimble/core/tune.py'}])

prop('M01', 'Learning functions and TrainedLearner methods agree over every history',
     'nimble.train, trainAndApply, trainAndTest, trainAndTestOnTrainingData, normalizeData and the TrainedLearner methods apply, test, retrain, '
     'incrementalTrain, getScores, save and copy agree with each other: after any sequence of calls a trained learner predicts, scores and reports its arguments as one '
     'trained by its last complete training (and later increments); a refused call and calls on copies change nothing; results have the points names of the test data; '
     'labels given as object, name or index, and arguments as dict or keywords, are equivalent; inputs stay as they were; random learners depend only on the seed; '
     'multi-class strategies vote as documented.',
     ['histories', 'inputs'],
     'every sequence of 3 (thorough 4) operations on learners with a known state; every training function x labels form x arguments form x storage types x learners',
     'Each entry point repeats its own preparation of data, arguments and seeds; tests compare pairs of functions on freshly trained learners only.',
     ['nimble/core/learn.py', 'nimble/core/interfaces/universal_interface.py', 'nimble/core/interfaces/custom_learner.py',
      'nimble/core/interfaces/scikit_learn_interface.py', 'nimble/core/_learnHelpers.py'],
     [('learning functions', 'nimble/core/learn.py'), ('trained learners', 'nimble/core/interfaces/universal_interface.py TrainedLearner')],
     'explicit-state search over call histories on the real code against a model of the learner state, and product enumeration of equivalent calls',
     'All histories up to the depth over the stated alphabet; learners with computable state, and built-in and scikit-learn learners for the equivalences.',
     state=[{'name': '_backend, _arguments, _transformedArguments, _trainXShape', 'meaning': 'trained state', 'where': 'nimble/core/interfaces/universal_interface.py'}])

prop('G01', 'Settings follow every history, and their file survives any crash',
     'nimble.settings get, set, setDefault and saveChanges behave as a map with saved and session values after every sequence of operations; every hook runs with the '
     'value now in effect, and values refused change nothing; what was saved (any single line of text) is what a new session reads, two sessions saving different '
     'options both keep theirs, and a save interrupted at any byte or file operation, or failing, leaves the file complete: as before or as after. '
     'The log is written where the settings in effect say.',
     ['histories', 'crash points', 'faults', 'schedules'],
     'every sequence of 3-4 (thorough 5) operations over two sections and options with hooks; every interleaving of two sessions; every crash and write-error point of saving; a grid of values',
     'Tests run one change and one save; the file is shared by all sessions, and losing it silently resets every setting, which no test of a successful save shows.',
     ['nimble/core/configuration.py', 'nimble/core/logger/session_logger.py', 'nimble/core/_learnHelpers.py'],
     [('settings', 'nimble/core/configuration.py SessionConfiguration'), ('hooks', 'nimble/core/configuration.py setAndSaveAvailableInterfaceOptions, hooks of the logger')],
     'explicit-state search over operation histories of the real configuration, and exhaustive crash-point and write-fault injection in the file operations of saving',
     'All histories up to the depth; crash = process death at a file operation or after a byte (not power loss).',
     state=[{'name': 'parser, changes, hooks, file', 'meaning': 'saved values, unsaved changes', 'where': 'nimble/core/configuration.py'}])

prop('L01', 'Each call is logged exactly once if logging is enabled, with no other effect',
     'For every public call with a useLog parameter and every argument form, storage type and object (views and names included): exactly one entry is added to the log '
     'when it succeeds and logging is enabled by useLog or, when None, by the settings (tuning, cross validation and contexts: the documented number, and with deep logging one per fold), '
     'none otherwise or when it is refused; its internal steps are never logged. The entry names the call and the objects. Result, objects, arguments, names, random state and '
     'success are those of the same call without logging.',
     ['inputs'],
     'every operation of the structural, element and reshaping alphabets, all reading methods, argument forms (arrays, functions, callables, queries, objects), creation, random and learning calls x useLog x settings',
     'The entry is written after the object was modified, from arguments of any kind; tests count entries for one form per method, always with the default settings.',
     ['nimble/core/logger/session_logger.py', 'nimble/core/tune.py', 'nimble/core/learn.py', 'nimble/core/data/_dataHelpers.py', 'nimble/random/randomness.py'] + STORES,
     [('entries', 'nimble/core/logger/session_logger.py'), ('wrappers', D + '_dataHelpers.py prepLog')],
     'exhaustive enumeration of call x logging configuration on the real code, compared with the run without logging (self-composition) and a count model',
     'Exhaustive over the stated alphabets.')

prop('L02', 'The log keeps every entry and showLog shows exactly those asked for',
     'For every log history of any number of sessions, showLog prints (or saves, appending or replacing as told) exactly the entries whose level of detail, session, date, count '
     'and contents match its parameters, whatever form dates and patterns are given in, grouped by session and in order, with the contents that were logged. '
     'Sessions writing to the same file in any interleaving each have their own number and lose no entry, and a session that dies between any two database steps loses none of the entries '
     'that were complete.',
     ['histories', 'inputs', 'schedules', 'crash points'],
     'all logs of a few entries of every kind over up to 3 sessions x every combination of showLog parameters (dates at and around each entry, limits, patterns), sequences of 3 saves; '
     'interleavings of the database steps of two sessions, and a crash before each step',
     'The tests search one log with one parameter at a time and never have two writers; wrong filters lose entries silently.',
     ['nimble/core/logger/session_logger.py'],
     [('storage, search and rendering of entries', 'nimble/core/logger/session_logger.py')],
     'exhaustive enumeration of logs and queries on the real code against a model, stateless exploration of thread schedules with a preemption bound, and exhaustive crash injection',
     'Preemption bound 2 (thorough 4); single-line patterns; text dates as documented.',
     state=[{'name': 'sqlite database, session number', 'meaning': 'entries of all sessions', 'where': 'nimble/core/logger/session_logger.py'}])

prop('D13', 'Every statistic is the value its definition gives, however it is asked for',
     'For every point, feature and table, of every storage type and history, view or not, and with missing values, zeros, booleans or strings: max, min, mean, median, mode, variances, standard deviations, '
     'median absolute deviation, quartiles, sum, counts, proportions, covariance, correlation, cosine and dot-product similarity are their definitions over the known values (NaN where the documentation says '
     'the value does not exist), the same by nimble.calculate, by the methods of points and features, by statistics(name) with every accepted spelling, per group with groupByFeature and in report(), '
     'with the right names, and leave the object unchanged.',
     ['inputs'],
     'every vector up to length 4 (thorough 5) over six alphabets as a point or feature, and every table of a set, x storage type x hidden state/view x every statistic and way of asking for it',
     'Each storage type and each way of asking has its own path (fast paths for numbers, special paths for sparse zeros and views); tests sample a few vectors.',
     ['nimble/calculate/statistic.py', 'nimble/calculate/similarity.py', D + 'axis.py', D + 'features.py', D + 'base.py', D + '_dataHelpers.py'],
     [('statistics', 'nimble/calculate/statistic.py'), ('axis methods', D + 'axis.py, ' + D + 'features.py'), ('report', D + '_dataHelpers.py')],
     'product enumeration of bounded vectors and tables on the real code against exact rational arithmetic',
     'Exhaustive over the stated alphabets; 8 significant digits.')

prop('D19', 'Metrics, normalizations and linear algebra compute their definitions',
     'For all known and predicted values, of any mix of storage types and as views, every performance metric, binary metric, confusion matrix (with any labelling) and confidence interval of nimble.calculate is the value of its '
     'definition; detectBestResult finds whether high or low is better; the normalizations of calculate and features.normalize transform the data, and a second object by the parameters of the first, '
     'as defined; inverse, pseudoInverse, solve, leastSquaresSolution and residuals satisfy their equations. Shapes, labels and singular matrices that the documentation rules out are refused, and arguments are never changed.',
     ['inputs'],
     'every pair of vectors up to length 4 over four alphabets x pair of types; every vector x second vector x normalization; every matrix of the stated shapes and entries x type x names',
     'A metric wrong for one rare pattern (no positive predictions, one class, a constant feature, sparse second argument) silently selects the wrong learner.',
     ['nimble/calculate/loss.py', 'nimble/calculate/binary.py', 'nimble/calculate/confidence.py', 'nimble/calculate/normalize.py', 'nimble/calculate/linalg.py',
      'nimble/calculate/utility.py', 'nimble/calculate/similarity.py', D + 'features.py', D + 'base.py'],
     [('metrics', 'nimble/calculate/loss.py, binary.py, similarity.py (also confusionMatrix), confidence.py'), ('normalization', 'nimble/calculate/normalize.py, ' + D + 'features.py normalize'), ('linear algebra', 'nimble/calculate/linalg.py')],
     'product enumeration of bounded vectors and matrices on the real code against exact rational arithmetic',
     'Exhaustive over the stated alphabets; 8 significant digits (5-7 for pseudo-inverses and least squares).')

prop('D10', 'A saved object is loaded as it was',
     'For every object of at most two dimensions of any storage type, state or view, save in any format it accepts (csv, mtx, hdf5, pickle; chosen by extension or argument; with or without names) writes a file '
     'from which nimble.data, into any type, gives the same shape, cells and names, as far as the format can hold them; so do objects of more dimensions in hdf5 and pickle. Saving changes neither the object nor other files, '
     'saving again replaces the file, and refused saves are refused without destroying what was there.',
     ['inputs', 'histories'],
     'every table x names of each axis x type, hidden state and view x format and form x includeNames x loaded type; every pair of saves to one path',
     'A file is wrong only for some value (quote, line break, comment character, missing value first or last), name or storage state, and the loss shows when the original is gone.',
     [D + 'base.py'] + STORES + [D + '_dataHelpers.py', 'nimble/core/_createHelpers.py', 'nimble/core/create.py'],
     [('writers', D + 'base.py save, _save*_implementation of each type'), ('readers', 'nimble/core/_createHelpers.py _load*')],
     'exhaustive round trips of all bounded objects through the real writers and readers',
     'Exhaustive over the table, name and form alphabets.')

prop('D18', 'nimble.data reads exactly the table a file holds',
     'For every delimited file (any separator, line ends, blank and comment lines, quoting, compression, archive, path or open file), matrix market file or hdf5 file holding a table, nimble.data gives that table: numbers as numbers, '
     'feature by feature, missing values as such, names embedded, given or detected as documented in either orientation (rowsArePoints), with keepPoints, keepFeatures and ignoreNonNumericalFeatures selecting exactly what '
     'they name, in the order given, and treatAsMissing, replaceMissingWith and convertToType applied, whatever the returnType. Files that are not a table and invalid selections, names and types are refused; nothing else changes.',
     ['inputs'],
     'every table x layout; x source of names on each axis x orientation; x every keepPoints x keepFeatures (all ordered index subsets, names, mixes) x ignore; x missing and type arguments; every matrix market kind',
     'The reader decides types, names, separators and selections from what it meets on the way: a wrong decision needs a particular order of cells, lines and arguments.',
     ['nimble/core/_createHelpers.py', 'nimble/core/create.py'],
     [('csv', 'nimble/core/_createHelpers.py _loadcsvUsingPython, _checkCSVForNames, _csvColTypeTracking'), ('other formats', 'nimble/core/_createHelpers.py _loadmtxForAuto, _loadhdf5ForAuto, _extractFromArchive'),
      ('selection', 'nimble/core/_createHelpers.py initDataObject')],
     'product enumeration of bounded files and arguments on the real reader; files are generated from the table compared with',
     'Exhaustive over the stated alphabets.')

prop('M02', 'Learners of nimble and data filling by learning compute their definition',
     'For every training set, labels, parameters and test data, in any pair of storage types: KNNClassifier predicts a label most frequent among the k nearest points and scores the labels by their votes; RidgeRegression, '
     'MultiOutputRidgeRegression and MultiOutputLinearRegression return coefficients and predictions of the penalized least squares problem; KNNImputation fills each missing value from the k nearest training points knowing the feature; '
     'fillMatching and normalizeData change exactly the selected values as the learner given says, in every form of their arguments, and a trained learner does not follow later changes of its training data.',
     ['inputs'],
     'every training set over small grids x labels x k x test point; every small linear system x penalty; every pattern of missing values x k x mode x data; match x points x features x learner; forms of normalizeData x learner',
     'Nearest-neighbour ties, degenerate distances, singular systems and patterns of missing values decide between branches that a few sampled datasets do not meet.',
     ['nimble/learners/knn_classification.py', 'nimble/learners/ridge_regression.py', 'nimble/learners/multioutput_ridge_regression.py', 'nimble/learners/multioutput_linear_regression.py', 'nimble/learners/knn_imputation.py', 'nimble/core/learn.py'],
     [('learners', 'nimble/learners/'), ('fillMatching, normalizeData', 'nimble/core/learn.py')],
     'product enumeration of bounded datasets on the real learners against exact definitions over fractions',
     'Exhaustive over the stated grids; 8 significant digits; ties may be broken in any way.')

prop('D16', 'Objects are equal exactly when they hold the same table',
     'isIdentical, == and != decide exactly whether two objects of one storage type have the same shape, cells and names, whatever their history and whether they are views, in both directions and without changing either; '
     'objects of other types, of other dimensions or anything else are never identical and never fail. Numbers differing in any bit differ, missing values equal each other and nothing else. Objects holding equal numeric tables have the same hashCode, '
     'in every type, and are isApproximatelyEqual; objects of other dimensions are not.',
     ['inputs'],
     'every pair of tables over nine alphabets up to 2x2, vectors and empty shapes x hidden states and views; every pair of labellings; every pair of types; non-objects; dimensions',
     'Comparison short-cuts (identity of values, storage dtypes, stored zeros, missing against text) are wrong only for particular pairs.',
     [D + 'base.py'] + STORES + [D + '_dataHelpers.py'],
     [('comparison', D + 'base.py isIdentical, isApproximatelyEqual, hashCode; _isIdentical_implementation of each type')],
     'product enumeration of pairs of bounded tables and hidden states on the real code against equality of the tables',
     'Exhaustive over the alphabets.')

prop('D12', 'Matching selects and filling replaces exactly the described values',
     'Every function of nimble.match, its any/all forms and query strings (alone, for elements, for points by a feature and for features by a point) hold exactly for the values they describe, of any kind (python or numpy numbers, booleans, text, missing), '
     'in every method accepting one. Every function of nimble.fill and fillMatching of points and features replace exactly the matched values of the selected points or features by the value described '
     '(constant, statistic of the unmatched, neighbouring unmatched value, interpolation) and leave all else; what cannot be filled is refused.',
     ['inputs'],
     'every match function x value of every kind; the grammar of query strings x method; every vector up to length 4 (5) x fill x match; every table x fill x match x selection x type x hidden state',
     'Wrong only for a value of some kind (numpy boolean, text of a number), a run of matches at an end, or a selection in another order.',
     ['nimble/match/match.py', 'nimble/match/query.py', 'nimble/fill/fill.py', D + '_dataHelpers.py', D + 'axis.py', D + 'base.py', D + 'points.py', D + 'features.py'],
     [('match', 'nimble/match/match.py, query.py'), ('fill', 'nimble/fill/fill.py'), ('query strings', D + '_dataHelpers.py'), ('methods', D + 'axis.py, ' + D + 'base.py')],
     'product enumeration of values, query strings, vectors and tables on the real code against direct definitions',
     'Exhaustive over the alphabets; ambiguous query strings may be refused.')

prop('S01', 'What is printed is what the object holds',
     'For every object, of any type, shape (empty ones too), names, history and view or not, and every lineLimit, lineWidthLimit, points and features selection, sigDigits, columnWidthLimit and naming option: str, repr, show and toString '
     'print the label and elements of the first and last of the selected points and features at their place, mark an omission exactly where something is omitted, respect the limits, omit nothing that fits, shorten only what is too long, '
     'and do not change the object.',
     ['inputs'],
     'every shape 0x0 to 6x6 (8x8) x every line limit x every width limit x every int and range of points and of features x named or not x type; element kinds x digits x column width x naming options; states and views',
     'Off-by-one errors at the boundary of a limit or for tiny or empty selections misplace a label or hide a row in output users trust; tests only check the total size.',
     [D + 'base.py', D + '_dataHelpers.py'],
     [('rendering', D + 'base.py toString, _show, _arrangePointNames, _arrangeDataWithLimits'), ('splitting', D + '_dataHelpers.py indicesSplit, formatIfNeeded')],
     'exhaustive enumeration of bounded tables and limits on the real code; the text is parsed back and compared with the object',
     'Exhaustive over the stated bounds; a width at which no feature fits is not judged.')

prop('D14', 'Objects of more than two dimensions act as nested arrays',
     'For objects of three or more dimensions, of any type, every permitted operation (construction from arrays and nested lists, copies in every type, points copy, extract, delete, retain, insert, append, permute, sort, repeat, replace, unique, views, iteration, '
     'arithmetic, flatten and unflatten, pickling, splitting, statistics, report, comparison), in any sequence, gives the dimensions, nested elements and names of the same operation on a nested array; '
     'every other method is refused as improper and changes nothing.',
     ['inputs', 'histories'],
     'every sequence of two operations (one from the larger starts; thorough two from all) from nine starts of 3 to 5 dimensions x named or not x type; every method not permitted',
     'Each operation works on the flattened table and must restore the dimensions; tests check the dimensions of single operations, rarely the elements.',
     [D + 'base.py', D + 'axis.py', D + 'points.py'] + STORES,
     [('dimensions', D + 'base.py _dims, _treatAs2D; ' + D + 'axis.py structural; _view_implementation and _createNestedObject of each type')],
     'explicit-state exploration of operation sequences on the real code against a nested array model',
     'Depth 2; Sparse from numeric arrays only.')

prop('I01', 'Indexing with [] addresses exactly the described cells',
     'For every object, of any type, shape, names and history and for views: obj[x, y], obj[k], obj.points[x] and obj.features[y] return exactly the cells and names at the addressed places, in the order of the key, for every form of key: '
     'integers (negative from the end), integral floats and numpy numbers, names, slices with inclusive ends given by indices or names and any step, lists, tuples, arrays and ranges of identifiers in any order, boolean masks of the axis. '
     'Identifiers outside of the axis, unknown names, duplicates, masks of another length and masks with other values are refused. Selecting twice is selecting the composition. '
     'An assignment to a pair of such keys changes exactly those cells, and a refused one nothing; nothing can be assigned through a view.',
     ['inputs', 'histories'],
     'every key of a bounded alphabet per axis (all ints, floats, names, all slices over them with steps +-1, +-2, all lists up to 2 or 3, all permutations and masks) x keys of the other axis x table x type x hidden state or view; '
     'all pairs of successive selections; histories of assignments',
     'The forms of keys multiply (sign, type, ends, step, order, mask, names, vector objects, views); tests sample a few keys per form.',
     [D + 'base.py', D + 'axis.py'] + STORES,
     [('keys', D + 'axis.py _getIndex, _processMultiple, _getitem'), ('selection', D + 'base.py __getitem__, __setitem__'), ('elements', '_getitem_implementation, _setitem_implementation of each type')],
     'exhaustive enumeration of bounded keys and pairs of selections on the real code against an independent resolution of the key',
     'Exhaustive over the key alphabet.')

prop('F01', 'Fetched files are whole, current, and at their own place',
     'nimble.fetchFile, fetchFiles and nimble.data with a url give exactly the content the web provides: the file itself, or the files of a zip, tar or gzip archive, stored at the place below nimbleData that belongs to the url '
     '(urls differing in host, directory or query never share it), and nothing outside of nimbleData is created or changed, whatever the url or the archive contains. A stored file is used again without downloading, '
     'overwriting replaces it by the present version, a refused or failed download changes nothing. If a fetch is killed or fails at any point, '
     'no later fetch returns incomplete content, and it can be repeated.',
     ['crash points', 'histories'],
     'every sequence of three fetches (of 19 urls), publications of new versions and losses of the connection; every fetch killed or failing before each of its file operations and at bytes of each file written, from every short history',
     'Tests replace the file system and check one fetch of one url; nothing there interrupts a fetch, publishes a new version, or looks at what is left behind.',
     ['nimble/core/_createHelpers.py', 'nimble/core/create.py', 'nimble/core/configuration.py'],
     [('storage', 'nimble/core/_createHelpers.py fileFetcher and its helpers'), ('entry', 'nimble/core/create.py fetchFile, fetchFiles, data')],
     'enumeration of fetch histories and of all kill, torn write and error points of the real code over a simulated web',
     'Death of the process, not power loss; the web is simulated below requests.')
