"""Writes /verif/properties.jsonl (run by hand when a property's text changes)."""
import json
P = []
def add(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe),
                               hook_needed=hook)))
core, model, api, ldf = 'cheval/core.py', 'cheval/model.py', 'cheval/api.py', 'cheval/ldf/api.py'

add('C01', 'A draw selects the alternative whose cumulative interval contains it',
    'For every discrete distribution and every random draw in [0, 1], the single-draw sampler and the binary-search sampler '
    'both return the first alternative whose cumulative probability reaches the draw. An alternative of zero probability is '
    'never selected (not even for a draw of exactly 0 or when rounding leaves the probabilities summing to slightly less '
    'than 1), and sampling n times returns exactly what n single draws on the same stream of random numbers would.',
    ['inputs'], 'every non-negative probability vector (any length, zeros anywhere, sum 1 up to rounding), every draw r in [0,1], every number of draws',
    'The tests try one vector and a handful of draws per sampler; the claim ranges over all vectors, all positions of zero-probability alternatives and all draws, including boundary draws.',
    [core], [('sample_once', core), ('logarithmic_search', core), ('nbf_cumsum', core), ('sample_multi', core), ('simple_sample', core), ('multinomial_sample', core), ('nested_sample', core)],
    observe=['return value of the samplers', 'ChoiceModel.run_discrete'])

add('C02', 'Multinomial logit probabilities are exactly the normalised exponentials',
    'For every record of finite or minus-infinite utilities, each alternative\'s probability is exp(u_j) divided by the sum of '
    'exp(u_k) over all alternatives, so probabilities lie in [0, 1], sum to one, and are zero exactly for unavailable '
    'alternatives; the reported logsum is that sum and the reported per-alternative terms are exp(u_j). When every alternative '
    'is unavailable, UtilityBoundsError is raised if the feasibility check is on (always, when sampling) and all probabilities '
    'are zero otherwise.',
    ['inputs'], 'every number of alternatives and every vector of utilities in the reals plus minus infinity whose exponentials are representable, 32- or 64-bit, both values of the feasibility flag',
    'Tests check one 8-vector and one 5x6 table of finite utilities; minus-infinite, all-infeasible and single-precision rows are never run.',
    [core, model], [('multinomial_probabilities', core), ('multinomial_sample', core), ('multinomial_multisample', core), ('ChoiceModel.run_stochastic', model), ('simple_probabilities', core)],
    observe=['ChoiceModel.run_stochastic', 'core.multinomial_probabilities'])

add('C03', 'Nested logit probabilities follow the recursive nest formula for any tree',
    'For every choice tree and every record, a node\'s exponentiated utility is exp(u/s) at an elemental choice and '
    'exp((u + t*log L)/s) at a nest, where L is the sum over its children, t its own logsum scale and s its parent\'s logsum '
    'scale (1 at the top level or when scaling is switched off); these are the reported nested terms and the top-level sum is '
    'the reported logsum. Elemental probabilities are the product of conditional shares down the path and sum to one, nests '
    'have probability zero, a nest whose members are all unavailable gives its members probability zero, and a wholly '
    'infeasible record raises UtilityBoundsError when the check is on.',
    ['inputs', 'configurations'], 'every tree depth, shape and node ordering with parents before or after children, every logsum scale in (0,1], every utility vector in the reals plus minus infinity, both scaling modes',
    'Tests evaluate one 8-node, 3-level tree with one fixed utility vector and scaling on; the guarantee is inductive over tree structure.',
    [core, model], [('nested_probabilities', core), ('nested_sample', core), ('nested_multisample', core), ('ChoiceModel._flatten', model), ('ChoiceModel._build_nested_stochastic_frame', model)],
    observe=['ChoiceModel.run_stochastic', 'core.nested_probabilities'])

add('C04', 'Records are evaluated independently of each other and of the thread schedule',
    'Evaluating a table of utilities gives, for every record, exactly the probabilities, logsums or choices that evaluating '
    'that record by itself gives, in the same row position. No record\'s result depends on, or is written by, another '
    'record\'s evaluation, for any number of records, any number of threads and any interleaving, and the utilities passed '
    'in are not modified.',
    ['inputs', 'schedules'], 'every table size, every content, every partition of rows among threads',
    'Tests run tiny tables on one default schedule; a data race or cross-row leak would only show on particular partitions.',
    [core], [('worker_multinomial_probabilities', core), ('worker_nested_probabilities', core), ('worker_multinomial_sample', core), ('worker_nested_sample', core), ('worker_weighted_sample', core)],
    observe=['core.worker_* return values', 'ChoiceModel.run_stochastic(n_threads=k)'])

add('C05', 'Seeded sampling is reproducible and its draws are fixed by the seed',
    'With the same inputs, seed and number of draws, discrete sampling returns identical choices on every run and for every '
    'thread count. With one draw per record, record i uses the i-th uniform number of the stream started by the seed; with '
    'n > 1 draws, record i uses n successive uniforms of a stream started by the i-th integer generated from the seed, so '
    'the choices of the first records do not change when records are appended.',
    ['inputs', 'schedules', 'histories'], 'every seed, table size, number of draws, thread count, and any previous use of the random generators',
    'Tests compare a single small table at one thread count; reproducibility is over runs, thread counts and generator histories.',
    [core, model], [('generate_rand_floats_for_parallel', core), ('generate_rand_ints_for_parallel', core), ('worker_*_sample', core), ('sample_multi', core), ('ChoiceModel.run_discrete', model)],
    observe=['ChoiceModel.run_discrete', 'core.worker_*_sample'])

add('C06', 'Partial utilities are added once, to exactly the labelled cells',
    'Adding a table of partial utilities increases the utility of each (decision unit, choice) pair that labels a cell of the '
    'table by exactly that cell\'s value, whatever the order of the table\'s rows and columns, and leaves every other utility '
    'unchanged, for any number of threads; successive additions accumulate. A table carrying a label the model does not have, or '
    'labels that differ from the model\'s when re-indexing is off, is refused and changes nothing.',
    ['inputs', 'schedules'], 'every table shape, every injective row and column labelling (subset, permutation or identical), every thread partition',
    'No test covers partial utilities or the parallel indexed addition at all.',
    [core, model], [('fast_indexed_add', core), ('_fast_indexed_add_n_n/_n_i/_i_n/_i_i', core), ('ChoiceModel.add_partial_utilities', model)],
    state=[('_cached_utils', 'partial utilities accumulated so far', model)], observe=['ChoiceModel.run_stochastic', 'core.fast_indexed_add'])

add('C07', 'The choice tree is represented faithfully for evaluation',
    'For any tree built with add_choice/add_choices, the choices index lists every node exactly once, in insertion order, '
    'labelled by its full path padded with "." to the depth of the tree, and the elemental choices are exactly the nodes '
    'without children in the same order. The parent, level, logsum scale and bottom flag used in evaluation for each '
    'position are those of the node at that position; re-adding an existing choice replaces it and everything nested under it.',
    ['inputs', 'histories'], 'every sequence of choice additions (any depth, any interleaving, names reused in different nests, re-additions, any iterable of names)',
    'Tests flatten a single fixed tree and never look at labels, re-additions or interleaved construction.',
    [model, api], [('ChoiceModel._create_node', model), ('ChoiceModel._flatten', model), ('ChoiceModel.choices / elemental_choices / depth', model), ('ChoiceNode.nested_id / full_name', api)],
    state=[('_all_nodes', 'nodes by full name in insertion order', model), ('_top_nodes', 'top-level nodes', model)], observe=['ChoiceModel.choices', 'ChoiceModel.elemental_choices', 'columns of run_stochastic'])

add('C08', 'Utility expressions keep their meaning through translation',
    'For every supported expression, the translated expression that is evaluated has the same value as the expression as '
    'written, for all values of its symbols: arithmetic, negation, chained comparisons, and/or/not applied element by element, '
    'supported functions, and attribute chains replaced by the data they denote. Exactly the names the expression uses are '
    'recorded as its symbols (plain or chained), using one symbol both ways is rejected, and unsupported syntax is rejected '
    'with an error instead of being silently changed.',
    ['programs'], 'every expression tree over the supported syntax, nested to any depth, and every valuation of its symbols',
    'The parsing tests are commented out; only two trivial expressions are exercised indirectly.',
    ['cheval/parsing/ast_transformer.py', 'cheval/parsing/expressions.py', 'cheval/parsing/expr_items.py'],
    [('ExpressionParser.visit_*', 'cheval/parsing/ast_transformer.py'), ('Expression.parse', 'cheval/parsing/expressions.py'), ('ChainedSymbol', 'cheval/parsing/expr_items.py')],
    observe=['Expression.parse', 'LinkedDataFrame.evaluate', 'ChoiceModel utilities'])

add('C09', 'Every expression contributes to exactly its target alternatives',
    'The utility of every decision unit and choice is its partial utility plus the sum of the values of all evaluated '
    'expressions, where an expression restricted with "@ choice" changes that choice\'s column only. A dictionary literal '
    'contributes its number for the alternatives it names and zero elsewhere ("A.B" names only that node, "A.B._" every node '
    'below it but not itself), whatever the order of expressions; if any resulting utility is NaN, UtilityBoundsError is raised.',
    ['programs', 'inputs'], 'every list of expressions, filters and dictionary literals over every choice tree, all operand shapes (scalar, row vector, column vector, matrix) and values',
    'No existing test evaluates a ChoiceModel\'s utilities (test_choice_model_evaluate is an empty failing stub).',
    [model, 'cheval/parsing/expressions.py'], [('ChoiceModel._evaluate_utilities', model), ('ChoiceModel._kernel_eval', model), ('ChoiceModel._make_column_mask', model), ('Expression._prepare_dict_literals / _insert_dict_val', 'cheval/parsing/expressions.py')],
    observe=['ChoiceModel.run_stochastic'])

add('C10', 'Data assigned to symbols is aligned by label or refused',
    'A vector or table is accepted only if its index equals the decision units (orientation 0) or the choices (orientation 1) '
    '- an unlabelled array only if its length matches - and is then used row-wise or column-wise accordingly. A matrix is '
    're-indexed by label on both sides, cells it does not mention receive the fill value, and labels unknown to the model or '
    'a mismatch with re-indexing disabled are refused. The numbers used are the numbers assigned (missing values in integer '
    'data become NaN), text and categories keep their values, and tables lacking mandatory attributes, or linked tables '
    'where links are not allowed, are refused.',
    ['inputs'], 'every data shape, label order, subset, dtype and orientation, every combination of re-index flags and fill values',
    'No test assigns any symbol.',
    [api, 'cheval/utils.py'], [('VectorSymbol.assign', api), ('TableSymbol.assign / _get', api), ('MatrixSymbol.assign', api), ('NumberSymbol.assign', api), ('convert_series', 'cheval/utils.py')],
    observe=['ChoiceModel[...].assign', 'ChoiceModel.run_stochastic'])

add('C11', 'An incomplete or inconsistent model is refused, a complete one runs',
    'A run raises ModelNotReadyError unless at least two top-level choices exist, no nest has exactly one child, decision '
    'units are set, and every symbol used by the expressions to be evaluated (of the requested group, or all) is declared and '
    'assigned (data aligned with the choices: after the choices are complete); when all of these hold, validation passes and the model runs. Invalid choice names ("_" or containing "."), logsum scales outside '
    '(0, 1], reserved symbol names, orientations other than 0 or 1 and precisions other than 4 or 8 are refused when given.',
    ['configurations', 'histories'], 'every combination of tree, scope, expression groups, decision units and assignment history',
    'No test calls validate or constructs an invalid model.',
    [model, api], [('ChoiceModel.validate', model), ('ChoiceModel._check_symbol_name', model), ('ChoiceNode.__init__', api), ('*Symbol.filled', api)],
    observe=['ChoiceModel.validate', 'ChoiceModel.run_discrete', 'ChoiceModel.run_stochastic'])

add('C12', 'Evaluating or copying a model never alters the original',
    'Running a model leaves its partial utilities, choices and the caller\'s data as they were, so running it again on the '
    'same inputs gives the same result. After copy() or copy_subset(), no operation on the copy\'s expressions, groups, symbols, '
    'decision units or partial utilities is visible in the original, nor the other way round. Setting new decision units '
    'discards everything tied to the old ones (assigned row data and partial utilities).',
    ['histories'], 'every sequence of runs, additions, copies and re-assignments',
    'Requires sequences of operations; no test runs a model even once.',
    [model, api], [('ChoiceModel._evaluate_utilities', model), ('ChoiceModel._partial_utilities', model), ('ChoiceModel.copy / copy_subset', model), ('ExpressionGroup.copy', api), ('ChoiceModel.decision_units setter', model)],
    state=[('_cached_utils', 'partial utilities', model), ('_scope', 'symbols', model)], observe=['ChoiceModel.run_stochastic'])

add('C13', 'Pre-evaluation and row subsetting commute with evaluation',
    'Pre-evaluating an expression group and then evaluating the remaining expressions gives the same utilities as evaluating '
    'everything at once, and every symbol the remaining expressions need is still available. Evaluating copy_subset(mask) gives exactly '
    'the rows selected by the mask, in order, of evaluating the whole model.',
    ['histories', 'inputs'], 'every split of expressions into groups (with shared symbols), every boolean mask, every kind of symbol',
    'No test touches groups, preval or copy_subset.',
    [model, api], [('ChoiceModel.preval', model), ('ChoiceModel.copy_subset', model), ('*Symbol.copy(row_mask)', api), ('ExpressionGroup.drop_group / get_group', api)],
    observe=['ChoiceModel.run_stochastic'])

add('C14', 'Discrete results name the alternative that was drawn, for the right record',
    'For every astype, number of draws and squeeze setting, the result of a discrete run for a decision unit and draw is the '
    'label (or, for astype="index", the position) in the model\'s choices of the alternative sampled for that decision unit '
    'and draw; the result and the logsums are indexed by the decision units in order. Only elemental alternatives are ever '
    'reported, n_draws < 1 is refused, and nested models report the node\'s full path.',
    ['inputs', 'configurations'], 'every model (flat or nested), astype, n_draws, squeeze, result name and seed',
    'No test runs run_discrete.',
    [model], [('ChoiceModel._convert_result', model), ('ChoiceModel.run_discrete', model)], observe=['ChoiceModel.run_discrete'])

add('C15', 'A link lookup returns the matching row\'s value, or the fill value',
    'For a link that needs no aggregation, row i of frame.link.attr is the value of attr in the row of the target whose join '
    'key equals row i\'s join key, and the fill value if there is none; the result is indexed by the calling frame. Chained '
    'lookups compose link by link (a miss at any step gives the fill value), and links may join on columns, index levels or '
    'whole indexes, single or multiple, pre-computed or not, with the same result.',
    ['inputs', 'configurations'], 'every pair of frames, key columns (duplicates, missing, unmatched, any order), every depth of chaining, precompute on or off',
    'Tests use 3-to-5-row frames with matching keys and chains of length one.',
    [ldf], [('_LinkMeta._make_indexer / _determine_aggregation', ldf), ('_BaseNode._resolve_history', ldf), ('_LinkNode / _LinkLeaf.__getitem__', ldf), ('_IndexMeta.get_indexer', ldf), ('LinkedDataFrame.link_to', ldf)],
    state=[('flat_indexer', 'position in target for each row, -1 if none', ldf)], observe=['LinkedDataFrame attribute / item access'])

add('C16', 'An aggregation over a link covers exactly the matching rows',
    'When several target rows may match, row i of frame.link.func(expr) is the aggregate func of expr over exactly those '
    'target rows whose join key equals row i\'s key, and the fill value (int_fill for integer and boolean data, NaN otherwise) '
    'when there are none; target rows with a missing key belong to no group. The link reports that aggregation is required '
    'exactly when target keys repeat while the caller\'s are unique, and repeated keys on both sides are refused.',
    ['inputs'], 'every pair of frames and join keys (including NaN and unmatched keys, any row order) and every supported aggregation function',
    'Tests sum one column on tiny frames in which every key matches and none is missing.',
    [ldf], [('_LinkMeta._determine_aggregation / _make_indexer', ldf), ('_Aggregator.__call__', ldf), ('_BaseNode._resolve_history', ldf)],
    observe=['LinkedDataFrame aggregation calls', 'link_to return value'])

add('C17', 'Selecting or reordering rows commutes with link lookups',
    'For every way of selecting, repeating or reordering the rows of a linked frame (boolean, label and positional indexing, '
    'slices, head/tail, groupby iteration, sorting, sampling, copying), looking up a link on the result equals taking the same '
    'rows of the lookup on the original, for plain, chained and aggregated lookups, whether or not the link was pre-computed. '
    'A link that cannot be carried over is dropped rather than returning values of other rows, and recomputing indexers '
    'brings lookups up to date with changed keys.',
    ['inputs', 'histories'], 'every row selection and sequence of selections on every linked frame',
    'Tests cover one label selection and one groupby; results for other operations were never compared.',
    [ldf], [('LinkedDataFrame.__finalize__', ldf), ('_take_with_is_copy / _slice / _reindex_with_indexers / copy', ldf), ('_LinkMeta.copy / copy_meta', ldf), ('compute_indexers', ldf)],
    observe=['lookups on sliced frames'])

add('C18', 'Missing-link fill values follow the declared precedence and are restorable',
    'A failed lookup yields the target\'s column fill if one was set, otherwise the default for the column\'s kind of data: the '
    'linked target\'s own default for a linked target, the class-wide default for a plain DataFrame target. Setting a default for '
    'one frame affects no other frame, a temporary default applies only inside its context (also when it exits by an exception), '
    'and resetting restores the documented defaults.',
    ['histories', 'inputs'], 'every sequence of set, temporary, nested temporary and reset calls on any frames, every dtype',
    'Fill management is untested (temporary defaults did not work at all).',
    ['cheval/ldf/missing_data.py', ldf], [('SeriesFillManager', 'cheval/ldf/missing_data.py'), ('infer_dtype', 'cheval/ldf/missing_data.py'), ('LinkedDataFrame._get_fill / _get_class_fill / set_column_fill', ldf)],
    state=[('_fill_values', 'fill value per kind', 'cheval/ldf/missing_data.py')], observe=['link lookups with misses'])

with open('/verif/properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
