p('C10', 'Clearing a tree makes it new',
  'After clear(), a tree of any type and any history is the same as a newly created tree of the same type and configuration: an empty '
  'root belonging to the tree, no attribute scales, no used-up object names, the configuration kept, nothing of the old '
  'concepts reachable; and it learns from then on exactly as the new tree would.',
  ['inputs', 'histories', 'configurations'],
  'every tree type and configuration, every learned tree',
  'Tests never clear a tree that has scales or object names and compare the whole state.',
  ['cobweb.py', 'cobweb3.py', 'trestle.py', 'dummy.py'],
  [('clear', 'cobweb.py:CobwebTree.clear, cobweb3.py:Cobweb3Tree.clear, trestle.py:TrestleTree.clear')],
  'abstract interpretation: structural comparison of abstract heaps', NOTE)

p('C11', 'Batch learning learns each instance once per iteration',
  'fit() learns every given instance exactly once per iteration, for the requested number of iterations. The first iteration '
  'follows the given order when randomize_first is False and a shuffled one otherwise; later iterations are shuffled again. '
  'The sequence passed in keeps its elements and their order, and lists and tuples are both accepted.',
  ['inputs', 'configurations'],
  'every number of instances up to three, zero to three iterations, both settings of randomize_first, every outcome of shuffling',
  'Random shuffles hide a skipped or repeated instance; no test counts learning steps.',
  ['cobweb.py'], [('fit', 'cobweb.py:CobwebTree.fit')],
  'abstract interpretation: trace of learning calls over all shuffle outcomes', NOTE)

p('C12', 'Invalid instances are rejected before anything changes',
  'An instance with an unhashable value (a list or set, also of a hidden attribute or a relation, or nested where sub-objects '
  'are allowed), an attribute that cannot be indexed (a number, the empty name), a relation over numbers (Trestle and Dummy trees) or, for '
  'Cobweb and Cobweb3, a None or dictionary value is rejected with an error (a ValueError for Cobweb and Cobweb3) by ifit, fit, '
  'categorize and infer_missing (categorize of a Dummy tree excepted, which ignores the instance) wherever in the instance the fault '
  'is, and the tree and the instance are left unchanged.',
  ['inputs', 'histories'],
  'all classes of invalid instances, fault first or last, every entry point, new and used trees of every type',
  'Tests try a few invalid values on empty trees and do not look at the state after the rejection.',
  ['cobweb.py', 'cobweb3.py', 'trestle.py', 'dummy.py'],
  [('validation', 'cobweb.py:_sanity_check_instance, trestle.py:_sanity_check_instance/_sanity_check_relation')],
  'abstract interpretation: exception paths and heap diff', NOTE)

p('C13', 'Numeric summaries are exact',
  'A ContinuousValue always holds the exact count, mean and sum of squared deviations of everything it was given, however it was given: '
  'value by value, in batches, or by combining and copying summaries (combining leaves the other one unchanged, combining with itself doubles it, a copy is independent). Its '
  'statistics (mean, biased and unbiased standard deviation, scaled forms, integral of the product of two normals, export) equal their '
  'definitions and reading them changes nothing. The small-sample correction c4(n), the mean and standard deviation of '
  'lists, and the test of what counts as a number (no booleans, no NaN) equal their definitions.',
  ['inputs'],
  'all summaries (empty, one, few, many values), all values, all operations; c4 at every tabulated size',
  'Tests use tolerance comparisons on random lists; a wrong term that vanishes for equal sizes or means is not noticed.',
  ['continuous_value.py', 'utils.py'],
  [('update', 'continuous_value.py:update'), ('combine', 'continuous_value.py:combine'), ('c4', 'utils.py:c4'),
   ('isNumber', 'utils.py:isNumber')],
  'value numbering over the reals (random interpretation) of symbolic summaries', NOTE)

p('C14', 'Probabilities and value distributions are the observed frequencies',
  'The probability a concept assigns to a nominal value is its share of the concept\'s instances, to an unseen value 0, to a missing '
  'value (None) the share of instances without the attribute, and to a number the share of instances with a number times the documented '
  'normal density in the tree\'s scale. The weighted values of an attribute are the same shares, '
  'with the share of missing values included unless excluded. Booleans count as nominal values and hidden attributes are treated like any other. '
  'The log likelihood of a leaf in a concept above it adds up, over the visible attributes and the values (None included) the leaf holds, the logarithm of the product of both probabilities, '
  'for numbers that of both shares and the integral of the product of both normals.',
  ['inputs', 'configurations'],
  'all count tables over attribute classes (nominal, numeric, mixed, hidden, in relations, unseen), all values, all scalings',
  'Tests check a few nominal probabilities; mixed attributes, missing values and scaled densities are not covered.',
  ['cobweb.py', 'cobweb3.py'],
  [('probability', 'cobweb.py, cobweb3.py:probability'), ('distribution', 'cobweb.py, cobweb3.py:get_weighted_values'),
   ('log likelihood', 'cobweb.py, cobweb3.py:log_likelihood')],
  'value numbering of probability expressions against reference frequencies', NOTE)

p('C15', 'Predictions choose by frequency',
  'most_likely_choice returns exactly one of the options with the highest weight, any tied one can be returned, and weighted_choice '
  'returns each option with probability proportional to its weight; both reject negative weights and empty lists with '
  'ValueError. predict() of a concept applies them to its observed values and (if allowed) the missing value; for a number it '
  'returns the mean or a draw from the observed normal distribution, for an attribute never seen None, and it never returns the '
  'internal marker; unknown ways to choose are rejected.',
  ['inputs'],
  'all weak orderings of up to four weights with zero weights and ties, all small count tables, all ways to choose',
  'Sampling is random and ties are rare: a test needs many draws and still cannot establish the exact shares.',
  ['utils.py', 'cobweb.py', 'cobweb3.py'],
  [('choice', 'utils.py:most_likely_choice/weighted_choice'), ('prediction', 'cobweb.py, cobweb3.py:predict')],
  'abstract interpretation in a rank domain; measure of the random draw per result', NOTE)

p('C16', 'Inference keeps what was given and adds only what the concept knows',
  'infer_missing returns a new instance, never the given one (which stays unchanged), in which every given attribute, nested '
  'attribute and relation keeps its name and value, also where the concept knows other structure for the same names (an object inferred to be '
  'part of an added object may be found inside it); every added attribute is one of the leaf reached with a value that leaf holds (the mean '
  'for numbers when choosing the most likely), no attribute is added with value None, and when missing values are excluded every absent '
  'attribute of the leaf is filled in.',
  ['inputs', 'histories'],
  'all leaves of a generic small tree, instances with unseen, conflicting, hidden, boolean, numeric, empty and nested attributes, all options',
  'Tests check one or two inferences; given values lost in renaming or additions from a wrong concept are not looked for.',
  ['cobweb.py', 'trestle.py', 'preprocessor.py', 'structure_mapper.py'],
  [('inference', 'cobweb.py:infer_missing, trestle.py:infer_missing')],
  'abstract interpretation over a tree with identifiable leaves', NOTE)

p('C09', 'Concepts and copies own their data',
  'A copy of a concept, a shallow copy of a concept and a deep copy of a tree hold exactly the counts of the original (and, except for the shallow '
  'copy, the same hierarchy in the same order with parent links inside the copy), have ids of their own, leave the original unchanged, and share no data with it: '
  'learning into either side never changes the other. Concepts made by learning, merging, splitting, branching off or adding up '
  'counts own their counts as well: learning into one concept changes no other concept and not the attribute scales of the tree, and changing a '
  'learned instance afterwards does not reach the tree.',
  ['inputs', 'histories'],
  'every concept of a generic tree with nominal, numeric, mixed and hidden attributes; every kind of copy and every structural operation, '
  'then every change on either side',
  'Aliasing shows up only when one side is changed later; tests copy and compare at once.',
  ['cobweb.py', 'cobweb3.py', 'continuous_value.py'],
  [('copying', 'cobweb.py:CobwebNode.__init__/shallow_copy'), ('counts of other concepts', 'cobweb3.py:update_counts_from_node'),
   ('summaries', 'continuous_value.py:copy')],
  'alias/ownership analysis by abstract interpretation (heap comparison after changes)', NOTE)

p('C19', 'Data of the caller stays the caller\'s',
  'No operation of the public interface changes an instance, list or mapping passed to it (learning, categorizing, inferring, clustering, '
  'evaluating, labelling, visualizing), changing an argument afterwards does not change the tree, and changing a returned '
  'inference, prediction, list of clusters or exported structure does not change the tree either.',
  ['inputs', 'histories'],
  'every tree type, flat and nested instances, every operation of the public interface taking or returning data',
  'Tests use an instance once; they do not compare the arguments before and after nor change results.',
  ['cobweb.py', 'cobweb3.py', 'trestle.py', 'dummy.py', 'cluster.py', 'evaluation.py', 'preprocessor.py'],
  [('learning', 'cobweb.py:ifit/increment_counts'), ('trestle pipeline', 'trestle.py:trestle'), ('clustering', 'cluster.py:cluster')],
  'escape/ownership analysis by abstract interpretation', NOTE)

p('C20', 'Preprocessors never change what they are given',
  'transform, undo_transform, batch_transform and batch_undo of every preprocessor and pipeline return new instances and leave the given '
  'instances and lists exactly as they were, including nested dictionaries, lists and the order of attributes; adding to the result '
  'does not change the argument (and, Tuplizer and ObjectVariablizer aside, the sub-objects of the result of transform are new ones too), '
  'and undoing the same transformed instance again gives the same result.',
  ['inputs', 'histories'],
  'every preprocessor, every class of instances (flat, nested, lists, relations, objects), attribute orders',
  'Tests compare only results; a write into a nested dictionary of the argument is not noticed.',
  ['preprocessor.py'], [('transform and undo', 'preprocessor.py:all Preprocessor classes')],
  'effect analysis by abstract interpretation', NOTE)

p('C24', 'A pipeline is the composition of its steps',
  'A Pipeline passes an instance through all its steps in the given order, each exactly once and each on the result of the one before it, and '
  'undoes them in reverse order in the same way; batch operations do that for every instance and keep the order of the instances. '
  'A pipeline without steps gives the instance back.',
  ['inputs', 'configurations'],
  'pipelines of zero to four arbitrary steps, one or several instances',
  'With the steps used by tests many orders give the same result.',
  ['preprocessor.py'], [('pipeline', 'preprocessor.py:Pipeline, Preprocessor.batch_transform/batch_undo')],
  'data-flow analysis through opaque steps', NOTE)

p('C28', 'Reversible preprocessors can be undone without loss',
  'For Tuplizer, NameStandardizer, Flattener, ExtractListElements, ListsToRelations (lists of different strings), ListProcessor, SubComponentProcessor after Flattener, and '
  'the standard Trestle pipeline (NameStandardizer, Flattener, SubComponentProcessor), undo_transform(transform(x)) equals x: every '
  'attribute, nested attribute (of non-empty sub-objects), list (non-empty, in order) and relation comes back with its value; a number written '
  'in a string relation may come back in another spelling. The transformed instance has the documented form: string '
  'relations become tuples, sub-objects are flattened, objects are at the top level, lists are gone, and every '
  'object has a new name used by no other object and no other instance. Relations are at the top level and name an object inside another one by '
  'its path, such as (\'?q\', \'?p\'). Lists of hidden attributes are documented to become text, and the names the library uses itself (val, has-element, ordered-list, has-component) '
  'are not attribute names of the instance.',
  ['inputs', 'histories'],
  'shape classes of instances (flat, nested to depth three, hidden, relations, nested relations, lists of values and objects) with arbitrary values, '
  'several attribute orders, new and used preprocessors',
  'Doctests show single examples; round trips of combined shapes and other attribute orders are not tested.',
  ['preprocessor.py'],
  [('round trip', 'preprocessor.py:transform/undo_transform of each class'), ('fresh names', 'preprocessor.py:NameStandardizer')],
  'abstract interpretation over instance shape classes with symbolic values', NOTE)

p('C31', 'Structure mapping renames objects one to one',
  'Matching an instance to a concept gives every object of the instance either an object name of the concept or its own name, never the same '
  'name to two objects; the mapped instance is exactly the instance with the objects renamed (in attributes, relations and nested '
  'relations, plain values kept), and undoing restores the instance, including attributes added meanwhile. Every step of the search for a better '
  'mapping keeps the mapping one-to-one and complete and its set of free names exact. An instance using object names '
  'of the concept is rejected, undoing before a match is rejected, and the cost of a mapping is the negated number of expected correct '
  'guesses of the concept with the renamed instance added.',
  ['inputs'],
  'zero to three objects on each side, every assignment the optimiser can return and every search step from every one-to-one mapping',
  'Which mapping is chosen depends on scores and random restarts; tests see one mapping per example.',
  ['structure_mapper.py'],
  [('matching', 'structure_mapper.py:flat_match'), ('search steps', 'structure_mapper.py:StructureMappingOptProblem'),
   ('renaming', 'structure_mapper.py:rename_flat/bind_flat_attr'), ('cost', 'structure_mapper.py:mapping_cost')],
  'abstract interpretation with an over-approximated optimiser; induction over search steps', NOTE)

p('C17', 'Evaluation scores each instance before learning it',
  'incremental_evaluation returns one row per run; each run starts with an emptied tree, takes min(run_length, number of instances) distinct instances '
  '(in the given order in the first run if randomize_first is False, otherwise shuffled; later runs are always shuffled again), and asks the scoring function about each instance '
  'and its value of the target attribute (None if absent) after learning exactly the instances before it and before learning the '
  'instance itself. The list passed in and its instances are unchanged. The scores categorize the instance without the target attribute and with all its other '
  'attributes: probability is the probability the reached concept gives to the value, error is value minus most likely prediction for '
  'numbers and 0 or 1 for nominal values, with absolute and squared versions; component values, numbers predicted as missing and missing values predicted as '
  'numbers raise an exception.',
  ['inputs', 'histories', 'configurations'],
  'all numbers of instances up to four, run lengths below, at and above it, zero to three runs, every shuffle outcome, every leaf the instance '
  'can reach, present and absent targets of every value class',
  'A target that leaks into its own prediction only improves the scores, which no test compares to a reference.',
  ['evaluation.py'],
  [('scores', 'evaluation.py:probability/error/absolute_error/squared_error'), ('protocol', 'evaluation.py:incremental_evaluation')],
  'information-flow and call-history analysis by abstract interpretation', NOTE)

p('C18', 'Clusterings are cuts of the tree found by best splits',
  'Clustering works on a copy of the tree, places every instance once (learning it when mod is True, which is the default, categorizing it otherwise) and gives one cluster per instance in '
  'order. The n-th clustering is the cut below the root after n-1 splits of the copy, each replacing a cluster that has children and contains an '
  'instance by its children such that the heuristic is smallest; each instance is labelled \'Concept\' + id of the one cluster above or at its leaf (labels=False: '
  'the concept itself) and the heuristic value of that clustering is reported. '
  'cluster and cluster_iter give the clusterings minsplit to maxsplit that exist; k_cluster the last in the sequence with at most k (3 unless given) '
  'clusters (all root if none); cluster_split_search the first one with the smallest heuristic (all root if none). Unusable arguments (minsplit < 1, minsplit > maxsplit, '
  'k < 2, no instances, unknown heuristic name) raise ValueError. CU is the negated category utility of the instances\' leaves partitioned by cluster; '
  'AIC = 2k - 2ll, BIC = k ln n - 2ll and AICc = AIC + 2k(k+1)/(n-k-1) (infinite if n-k <= 1), where ll sums the log likelihood of every instance\'s leaf in its cluster and k counts, over the different '
  'clusters, visible attribute values (a numeric one twice). depth_labels gives, per depth from the root on, the '
  'label of each instance\'s ancestor, or of its leaf below that.',
  ['inputs', 'histories', 'configurations'],
  'trees of depth up to three (only a root, flat, unbalanced, balanced), instances in the same or different leaves, every ranking of the heuristic values '
  'with ties, all functions and options',
  'Which split is best depends on the data; tests check one clustering of one small data set.',
  ['cluster.py', 'cobweb.py'],
  [('search', 'cluster.py:cluster_iter'), ('selection', 'cluster.py:k_cluster/cluster_split_search'),
   ('heuristics', 'cluster.py:CU/AIC/BIC/AICc'), ('labels', 'cluster.py:depth_labels')],
  'abstract interpretation in a rank domain against all legal split sequences; value numbering of heuristics', NOTE)

p('C25', 'Reports describe the tree as it is',
  'output_json of a concept describes exactly that concept and everything below it: name \'Concept\' + id, its number of instances, '
  'every attribute (hidden ones and relations included, named by str()) with the exact count of every value and the count, mean and unbiased standard deviation of numbers, and its '
  'children in order, using only what JSON can carry. visualize shows this export of the whole tree; visualize_no_leaves the same with the '
  'leaves removed as often as cuts says; visualize_clusters the same with nothing below the given clusters (concepts or their names, repeated or not). depth, '
  'num_concepts, is_parent (a concept is a parent of itself and of all its descendants) and attrs (visible ones, all, or those passing a filter, each once) answer '
  'for the actual tree, and printing gives one line per concept in depth-first order, indented by depth below the printed concept, for trees and concepts alike.',
  ['inputs', 'histories'],
  'every concept of trees to depth three of every type, all count tables over nominal, boolean, numeric, mixed, hidden and relational attributes, all arguments',
  'Tests call these functions and at most compare one string.',
  ['cobweb.py', 'cobweb3.py', 'visualize.py', 'continuous_value.py'],
  [('export', 'cobweb.py, cobweb3.py:output_json'), ('cutting', 'visualize.py:_trim_leaves/_trim_to_clusters'),
   ('structure', 'cobweb.py:depth/num_concepts/is_parent/attrs/pretty_print')],
  'abstract interpretation: export compared with the abstract tree', NOTE)

p('C26', 'Visualisation writes only where it is told to',
  'visualize, visualize_no_leaves and visualize_clusters write one data file, output.js, replaced and not appended to, and nothing else but '
  'copies of the three files of the page (viz.html, viz_logic.js, viz_styling.css) from the library: in dst if given (created if needed), '
  'in the library\'s visualization_files directory otherwise, where nothing is copied. With recreate_html the page is always copied to dst, without it only if it is not there. '
  'Nothing is deleted, the export appears exactly once in the data file, and the page shown is viz.html in that directory.',
  ['inputs', 'configurations'],
  'absolute, relative and no destination, both and no settings of recreate_html, existing and missing directories and pages',
  'Tests do not look at the files.',
  ['visualize.py'],
  [('files', 'visualize.py:_gen_viz/_gen_output_file and the visualize functions')],
  'file-effect analysis by abstract interpretation', NOTE)

p('C29', 'Data set loaders return the first instances of their data file',
  'Every loader returns, in file order and with exactly the stored values, the first num_instances instances of its own data file in data_files, all of them if '
  'there are fewer or no number is given and none for 0, as new objects at every call, and writes nothing. The data files are complete and readable line by line. load_rb_s_07_human_predictions '
  'returns the lines of its file without line ends. load_quadruped returns the requested number of animals, each a dog, cat, horse or giraffe with its eight parts '
  'fully described and named by type, and every size it draws (bellrand) lies in the range given.',
  ['inputs', 'configurations'],
  'all loaders, numbers of instances below, at and above the size of the file, all random draws of the generator',
  'Tests check the number of instances of whole files only.',
  ['datasets.py', 'concept_formation/data_files/generate_quadruped.py'],
  [('loading', 'datasets.py:_load_file and the load_ functions'), ('generator', 'data_files/generate_quadruped.py')],
  'abstract interpretation with symbolic files; inspection of the data files', NOTE)

p('C22', 'Trees and preprocessors are independent of each other',
  'Creating, training, asking or clearing one tree, of any type and configuration, neither changes another tree nor influences how it learns: a tree learns '
  'the same (counts, structure, attribute scales, object names) whether or not other trees are used before or in between. Concepts of trees of the same '
  'kind (Cobweb on the one side, Cobweb3, Trestle and Dummy on the other) never share a concept number, however many there were before. What a preprocessor did before, or what another preprocessor does in '
  'between, has no influence on how it transforms and restores the next instance.',
  ['inputs', 'histories', 'configurations'],
  'all pairs of tree types, one or two instances learned before, between or after using the other tree; all preprocessors, used before or in between',
  'Tests use one tree at a time; state shared through class attributes or default arguments does not show.',
  ['cobweb.py', 'cobweb3.py', 'trestle.py', 'dummy.py', 'preprocessor.py'],
  [('tree state', 'cobweb.py, cobweb3.py, trestle.py, dummy.py:__init__'), ('object names', 'trestle.py:gensym'),
   ('default arguments', 'preprocessor.py:_standardize, _variablize')],
  'abstract interpretation: structural comparison of heaps with and without other activity', NOTE)

p('C23', 'Structured instances enter a Trestle tree flat and mapped to its root',
  'Learning, categorizing and inferring in a Trestle tree work on the flat form of the instance: sub-objects become (attribute, object) attributes (hidden ones '
  '(\'_\', (attribute, object))), nested objects are named by themselves with a has-component relation to what contains them (the object, the component, or the path to it such as (\'k\', \'?p\')), and every object gets, one to one, '
  'either the name of an object of the current root or a new name used nowhere in the tree and different from the names in the instance; mapping to the objects of the root is always possible. The root gains exactly this flat form '
  'when learning. The same holds for learning in a Dummy tree with do_mapping; without it the objects keep their names.',
  ['inputs', 'histories'],
  'instances without objects, with one, two and nested objects, relations, names that occur in the tree; new, single-concept and larger trees; every assignment the matcher can choose; '
  'one to three instances from an empty tree on',
  'Which mapping is chosen depends on scores; tests compare a few results and would accept an unmapped or stale one.',
  ['trestle.py', 'dummy.py', 'preprocessor.py', 'structure_mapper.py'],
  [('pipeline', 'trestle.py:trestle/_trestle_categorize/infer_missing, dummy.py:ifit'), ('names', 'trestle.py:gensym')],
  'abstract interpretation of the whole pipeline with an over-approximated matcher; reference flat form', NOTE)

p('C27', 'All randomness is the caller\'s to seed',
  'The library draws random numbers only from the shared generator of Python\'s random module and never seeds it or restores a state: no generator of its own '
  '(random.Random, SystemRandom), no numpy.random, secrets, os.urandom or random uuids. Seeding random therefore controls every random choice.',
  ['programs'],
  'every expression of every module of the library, names resolved through imports and plain renamings',
  'A reseeded generator makes tests more stable, not less.',
  ['cobweb.py', 'cobweb3.py', 'utils.py', 'evaluation.py', 'structure_mapper.py', 'concept_formation/data_files/generate_quadruped.py'],
  [('sources', 'utils.py:weighted_choice/most_likely_choice, cobweb.py:fit')],
  'syntax-tree query with import resolution', NOTE)

p('C30', 'One-way preprocessors convert exactly what they name',
  'ObjectVariablizer puts a question mark before the name of every attribute (or every named one) whose value is a sub-object, inside those again, unless it has one, and leaves '
  'everything else as it is. NumericToNominal turns numbers (booleans included) of all or the named attributes, at every level, into str() of them. NominalToNumeric turns '
  'all values (or those of the named attributes), at every level but not sub-objects themselves, into floats; what is no number (None and tuples included) raises ValueError (TypeError for other types than text) with on_fail \'break\' or unknown, is left out '
  '(\'drop\') or becomes 0.0 (\'zero\'). Sanitizer makes every attribute name a string or tuple; for trestle also, at every level, all parts of relations '
  'strings or tuples, keeping sub-objects and turning other unhashable values into strings; for cobweb and cobweb3 relations stay and all unhashable values become strings with '
  'sorted attributes; the specification may be in any case and an unknown one raises ValueError. Everything else is kept, and undoing gives an equal instance.',
  ['inputs', 'configurations'],
  'shape classes of instances with generic numbers, all options, several target lists and attribute orders, new and used preprocessors, single and in batch',
  'Doctests show one flat instance each.',
  ['preprocessor.py'],
  [('conversion', 'preprocessor.py:ObjectVariablizer, NumericToNominal, NominalToNumeric, Sanitizer')],
  'abstract interpretation against reference conversions', NOTE)

p('C32', 'Answers depend only on what the tree knows now',
  'What was asked before has no influence: every score, probability, distribution, prediction, match, categorization, inference, report, depth, size and label '
  'a concept or tree gives is the same whether or not any question was asked earlier, with learning, adding counts, making a child, merging, splitting, a change of the attribute scales, '
  'batch learning or clearing in between; and the tree learns the same either way (up to the numbering of new object names in Trestle trees).',
  ['histories', 'inputs'],
  'every question x every kind of change, concepts with arbitrary counts (nominal, numeric, mixed, hidden), trees of every type with one to three instances learned and scores an arbitrary '
  'function of what they are asked about',
  'A remembered answer that is not dropped is right until the right change happens between two questions; tests ask once.',
  ['cobweb.py', 'cobweb3.py', 'trestle.py', 'dummy.py', 'evaluation.py', 'cluster.py'],
  [('scores and reports', 'cobweb.py:CobwebNode'), ('numeric scores', 'cobweb3.py:Cobweb3Node'), ('questions to trees', 'cobweb.py:CobwebTree')],
  'two-run (relational) abstract interpretation', NOTE)

p('C33', 'Relations are searched, renamed and compared by all their parts',
  'rename_relation and bind_flat_attr replace every name of a relation, at every depth, that the mapping knows, by its new name and keep everything else (rename_relation also replaces a part that is itself a '
  'relation known to the mapping as a whole); contains_component is true exactly when the name (or relation) is the attribute or one of its parts at any depth; get_attribute_components and get_component_names give '
  'exactly the names beginning with a question mark at any depth (with vars_only=False, for attributes without hidden parts, all parts and the attribute itself); is_partial_match is true exactly when both attributes '
  'have the same shape and every pair of names is equal, or mapped to each other, or two variables of which the first is not mapped yet. None of them changes its arguments.',
  ['inputs'],
  'every shape class of attributes (names, variables, hidden names, relations, relations of relations), every pair of them, mappings that are empty, partial, complete, exchanging or irrelevant',
  'The doctests show two or three relations each; deeper nesting, repeated names and exchanging mappings are not tested.',
  ['structure_mapper.py', 'preprocessor.py'],
  [('renaming', 'preprocessor.py:rename_relation, structure_mapper.py:bind_flat_attr'), ('searching', 'preprocessor.py:get_attribute_components, structure_mapper.py:get_component_names/contains_component'),
   ('comparing', 'structure_mapper.py:is_partial_match')],
  'abstract interpretation over shape classes of attributes against structural definitions', NOTE)

p('C34', 'Structure mapping finds a mapping no single exchange improves',
  'The mapping used for an instance is a local optimum: no exchange of two names and no use of a free name gives the concept more expected correct guesses.',
  ['inputs'],
  'all instances and concepts',
  'Optimality compares the cost of the result with that of all its neighbours for every cost function.',
  ['structure_mapper.py'],
  [('search', 'structure_mapper.py:flat_match, py_search.optimization.hill_climbing')],
  'none', NOTE,
  na='It is decided by the hill climbing of the third-party library py_search, which is not in the repository, and by the order of real-valued costs of unboundedly many states; a static argument would have to bound '
     'runtime values. The steps of the search (C31) and the cost function (C31, C05) are decided.')

p('C35', 'Numeric summaries stay accurate in floating point',
  'The count, mean and spread of a numeric attribute computed in double precision stay within a small relative error of the exact values for any number and magnitude of observations.',
  ['inputs', 'histories'],
  'all sequences of floating point numbers',
  'Rounding errors accumulate over unbounded sequences of arbitrary magnitudes.',
  ['continuous_value.py'],
  [('updating', 'continuous_value.py:update/combine')],
  'none', NOTE,
  na='The analysis reasons over exact real arithmetic (C13). The rounding error depends on the number, order and magnitude of the observations, quantities no static argument in reach bounds (for adversarial inputs '
     'no bound exists).')

p('C36', 'Learned concepts predict better than chance',
  'On data with regularities, categorizing with a trained tree predicts missing values better than the overall frequencies.',
  ['inputs', 'histories'],
  'all data sets and orders',
  'It is a statistical statement about data sets.',
  ['cobweb.py', 'evaluation.py'],
  [('prediction', 'cobweb.py:infer_missing')],
  'none', NOTE,
  na='A statistical property of the data and the hill-climbing algorithm, not of the source; it can be measured but not decided by static analysis. What the algorithm maximises (C05, C06) is decided.')
