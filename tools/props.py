"""Single source for properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
CF = 'concept_formation/'
AI = 'trace-partitioned abstract interpretation of the source'


def p(id, title, statement, over, text, why, files, mech, technique, note, na=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': [CF + f if not f.startswith('concept') else f for f in files],
                          'mechanism': [{'name': n, 'where': CF + w} for n, w in mech]}})
    if na:
        NA.append({'property': id, 'reason': na})
    else:
        CHECKS.append({'property': id, 'quick_cmd': 'VERIF_TIER=quick python3 -m sa.run %s' % id,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 -m sa.run %s' % id,
                       'evidence_file': 'evidence/%s.json' % id,
                       'technique': technique, 'level': 'other', 'level_note': note})


CHECKS = []
NOTE = ('Holds for every concrete execution covered by the abstract cases listed in DESIGN.md; whatever the analyser cannot '
        'model is reported as undecided in the evidence and never as a violation. Trusts the analyser (sa/) and the '
        'library models (models/, sa/builtins_.py).')

p('C01', 'Questions never change the knowledge base',
  'Asking a concept tree anything leaves it exactly as it was: categorizing, inferring missing values, predicting, '
  'scoring what an operation would be worth, evaluating probabilities or errors, clustering, printing, exporting, copying or '
  'visualising. Every concept keeps its counts, its children in their order, its parent and its id, and the tree keeps its root, its '
  'configuration and its attribute scales. The one documented exception is a depth labelling asked to learn.',
  ['inputs', 'histories', 'configurations'],
  'every tree (any shape, any counts), every instance and argument combination, every query of the public interface',
  'Tests compare a few answers on a few trees; they never compare the whole tree before and after a query, and a query that '
  'leaks an update only on an unseen value or a rarely taken operation is invisible to them.',
  ['cobweb.py', 'cobweb3.py', 'trestle.py', 'dummy.py', 'cluster.py', 'evaluation.py', 'visualize.py', 'structure_mapper.py'],
  [('what-if scores work on temporary copies', 'cobweb.py:cu_for_insert/cu_for_merge/cu_for_split'),
   ('clustering deep-copies the tree', 'cluster.py:cluster_iter'),
   ('categorisation is separate from learning', 'cobweb.py:_cobweb_categorize')],
  'effect analysis by abstract interpretation (heap diff of a generic tree)', NOTE)

p('C02', 'Concept counts are exactly the learned instances',
  'After any learning, every concept on the path of the new instance has gained exactly that instance (one occurrence of each of its '
  'attribute values, numeric values as exact count, sum and sum of squares) and every other concept is unchanged. Every concept with '
  'children counts exactly what its children count together, and a new leaf holds exactly the new instance. The same '
  'holds for merging, splitting and copying concepts and for adding one concept\'s counts to another. The attribute scales of a tree gain exactly the '
  'numeric values learned, each once under the name of its attribute (the first part of a relation when inner_attr_scaling is on), before the instance is placed.',
  ['inputs', 'histories'],
  'every tree satisfying the invariant (inductive step), every instance with nominal, numeric, hidden and unseen attributes, '
  'every sequence of restructuring operations the descent can take',
  'The tests check counts on short random nominal trees; they do not reach all operation sequences nor mixed numeric/nominal tables.',
  ['cobweb.py', 'cobweb3.py', 'continuous_value.py', 'trestle.py'],
  [('counting an instance', 'cobweb.py:increment_counts, cobweb3.py:increment_counts'),
   ('adding counts of a concept', 'cobweb.py:update_counts_from_node, cobweb3.py:update_counts_from_node'),
   ('the descent', 'cobweb.py:CobwebTree.cobweb')],
  'abstract interpretation with symbolic count tables, value numbering, summary nodes', NOTE)

p('C03', 'The concept hierarchy stays a well-formed tree',
  'After any learning or restructuring, the root has no parent, every child names exactly the concept that lists it as its '
  'parent, no concept is listed twice, every concept names the tree it is in, and concept ids are unique. Learning always completes and '
  'returns a leaf of the tree.',
  ['inputs', 'histories'],
  'every well-formed tree, every instance, every path through new/best/merge/split/fringe operations',
  'Tests only check parent links after a few random fits; link errors after merge or split of inner concepts surface later as wrong labels.',
  ['cobweb.py', 'cobweb3.py', 'trestle.py'],
  [('relinking of children', 'cobweb.py:merge/split/create_new_child'), ('fringe split', 'cobweb.py:CobwebTree.cobweb')],
  'abstract interpretation over a generic tree with summary nodes (shape analysis)', NOTE)

p('C04', 'No data is dropped and no concept has a single child',
  'Learning and restructuring never leave a concept with exactly one child, and never remove a leaf or a subtree from the tree: '
  'everything learned earlier is still reachable from the root.',
  ['inputs', 'histories'],
  'every tree in which each concept is a leaf or has at least two children, every instance, every operation sequence',
  'A test needs the exact counts and score ties that make the descent merge or split at a node with few children.',
  ['cobweb.py', 'cobweb3.py'],
  [('merge only with more than two children', 'cobweb.py:get_best_operation/get_two_best'),
   ('split replaces a concept by its children', 'cobweb.py:split')],
  'abstract interpretation over a generic tree (cardinality intervals of child lists)', NOTE)

p('C05', 'Scores equal the category utility of the resulting partition',
  'The reported category utility of a concept, and the score reported for adding an instance to a child, making a new child, merging two '
  'children, splitting a child or splitting a leaf, equals the documented category-utility formula applied to the partition '
  'that operation would produce; hidden attributes are left out, missing values count as documented, and numeric attributes use the '
  'documented normal-density term with the configured scaling. Relative insert scores plus their constant equal the absolute score.',
  ['inputs', 'configurations'],
  'all count tables over the abstract attribute classes (present in all, some or none of the children; nominal, numeric, mixed, hidden), '
  'all tree scalings',
  'Tests compare a few scores on random nominal trees, and compare optimised to unoptimised code that share helpers; numeric and '
  'partially missing attributes are not compared to the formula.',
  ['cobweb.py', 'cobweb3.py', 'continuous_value.py'],
  [('category utility', 'cobweb.py:category_utility'), ('expected correct guesses', 'cobweb.py, cobweb3.py:expected_correct_guesses'),
   ('relative scores', 'cobweb.py:relative_cu_for_insert/compute_relative_CU_const')],
  'value numbering of score expressions against the reference formula', NOTE)

p('C06', 'Learning and categorizing always take a best-scoring option',
  'At every concept the descent considers exactly the documented options (insert in best child, new child, merge of the two best when '
  'there are more than two children, split of the best child when it has children) and takes one with the highest score; ties between children go to the larger one, and remaining ties can go '
  'either way and never crash. The restructuring carried out is the one selected, and categorizing follows '
  'a best-scoring child until a leaf.',
  ['inputs', 'histories'],
  'all weak orderings of the scores and sizes of the candidates, every number of children',
  'Ties and orderings are not enumerated by tests; a selection that is wrong only in a tie or for equal counts passes them.',
  ['cobweb.py', 'cobweb3.py'],
  [('two best children', 'cobweb.py:two_best_children'), ('operation choice', 'cobweb.py:get_best_operation'),
   ('dispatch', 'cobweb.py:CobwebTree.cobweb'), ('categorize', 'cobweb.py:_cobweb_categorize')],
  'abstract interpretation in a rank (weak ordering) domain', NOTE)

p('C07', 'An instance joins a leaf only when it matches exactly',
  'A leaf is said to match an instance exactly when both have the same visible attributes and each visible attribute of the leaf has the '
  'instance\'s value in every instance the leaf holds (for numeric values: equal mean and no spread). When the descent reaches a leaf, '
  'the leaf absorbs the instance if it matches (or is empty) and otherwise is split so that old and new content become siblings.',
  ['inputs'],
  'all leaf tables and instances over attribute/value classes: absent, equal, different, numeric, boolean, mixed, hidden, empty',
  'Tests use a handful of nominal instances; near-duplicates (missing attributes, mixed types, hidden attributes) are not covered.',
  ['cobweb.py', 'cobweb3.py'],
  [('match test', 'cobweb.py:is_exact_match, cobweb3.py:is_exact_match'), ('fringe split', 'cobweb.py:CobwebTree.cobweb')],
  'case-complete abstract interpretation of the match test against a reference relation', NOTE)

p('C08', 'Hidden attributes never influence the concept structure',
  'Attributes whose name marks them as hidden (leading underscore, also in a relation) are stored and predictable but have no influence on any '
  'score, on any match, on where an instance goes in learning or categorizing, or on how the tree is restructured: adding, removing or '
  'changing hidden attributes of concepts or instances leaves all these the same.',
  ['inputs', 'histories'],
  'pairs of states differing only in hidden attributes, all scores, matches, learning steps and categorizations',
  'It is a two-run (relational) property; the tests never compare two runs.',
  ['cobweb.py', 'cobweb3.py', 'utils.py'],
  [('visible attributes only', 'cobweb.py:attrs'), ('hidden test', 'cobweb.py, cobweb3.py:is_exact_match')],
  'relational abstract interpretation (value numbers with and without hidden attributes)', NOTE)


def main():
    try:
        import importlib.util
        f = os.path.join(HERE, 'tools', 'props2.py')
        if os.path.exists(f):
            exec(compile(open(f).read(), f, 'exec'), globals())
    finally:
        pass
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in sorted(P, key=lambda x: x['id']):
            f.write(json.dumps(x) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 -c "import sa.run"', 'checks': sorted(CHECKS, key=lambda c: c['property']),
         'not_applicable': sorted(NA, key=lambda c: c['property']),
         'notes': 'No hooks. All checks analyse the source under /repo/concept_formation without executing it.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
