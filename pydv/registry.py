"""Which contracts decide which property; what they assume"""
import numpy as np
from . import core_contracts, worker_contracts, indexed_contracts, model_contracts, eval_contracts, tree_contracts, api_contracts, copy_contracts, ldf_contracts, group_contracts, parser_contracts, expr_contracts, evaluate_contracts, conv_contracts, frame_contracts
from .contract import Contract
from .glue import Glue

ALL = {}
for m in (core_contracts, worker_contracts, indexed_contracts):
    for n in dir(m):
        k = getattr(m, n)
        if isinstance(k, type) and issubclass(k, Contract) and k.name and n not in ALL:
            ALL[n] = k()

for n in ('NbfCumsum', 'LogarithmicSearch', 'SimpleSample', 'SimpleMultisample', 'SimpleMultisampleOut', 'SimpleProbabilities', 'MultinomialProbabilities', 'NestedProbabilities',
          'MultinomialSample', 'MultinomialMultisample', 'MultinomialMultisampleOut', 'NestedSample', 'NestedMultisample', 'NestedMultisampleOut', 'RandFloats', 'RandInts', 'AssertFeasible',
          'AddNN', 'AddNI', 'AddIN', 'AddII', 'SampleOnce', 'SampleMulti', 'SampleMultiOut'):
    ALL[n].helper = True

GLUE = (model_contracts, eval_contracts, tree_contracts, api_contracts, copy_contracts, ldf_contracts, group_contracts, parser_contracts, expr_contracts, evaluate_contracts, conv_contracts, frame_contracts)
for m in GLUE:
    for n in dir(m):
        k = getattr(m, n)
        if isinstance(k, type) and issubclass(k, Glue) and getattr(k, 'name', None) and n not in ALL:
            ALL[n] = k()
            last = k.name.split('.')[-1]
            ALL[n].helper = last.startswith('_') and not last.startswith('__')

ONE = ['SampleOnce', 'LogarithmicSearch', 'NbfCumsum', 'SampleMulti', 'SampleMultiOut']
SIMPLE = ['SimpleProbabilities', 'SimpleSample', 'SimpleMultisample', 'SimpleMultisampleOut']
MNL = ['MultinomialProbabilities', 'MultinomialSample', 'MultinomialMultisample', 'MultinomialMultisampleOut']
NESTED = ['NestedProbabilities', 'NestedSample', 'NestedMultisample', 'NestedMultisampleOut']
DRAWS = ['RandFloats', 'RandInts']
WORK = ['WorkerWeightedSample', 'WorkerMultinomialSample', 'WorkerNestedSample']
WORKP = ['WorkerMultinomialProbabilities', 'WorkerNestedProbabilities']
RUN = ['RunStochastic', 'RunDiscrete']
KINDS = ('Number', 'Vector', 'Table', 'Matrix')
ASSIGN = [k + f for k in KINDS for f in ('Assign', 'Get')]
INITS = [k + 'Init' for k in KINDS]
FILLED = [k + f for k in KINDS for f in ('Filled', 'Empty')]
COPIES = ['ModelCopy', 'ModelSubset'] + [k + 'Copy' for k in KINDS]
JOIN = ['MakeIndexer', 'DetermineAggregation', 'IndexerAndMissing']
WALK = ['ResolveHistory', 'LeafGetitem', 'NodeGetitem', 'InitLink']
FILLS = ['GetFill', 'SetColumnFill', 'FillInit', 'FillSet', 'FillReset', 'FillGet', 'FillTemporary', 'InferDtype']
NAMES = ['SubAppend', 'SubAdd', 'SubIter', 'SubIterSimple', 'SubIterChained', 'GroupAppend', 'GroupClear', 'GroupGet', 'GroupIterSimple', 'GroupIterChained', 'GroupIter', 'GroupDrop', 'GroupCopy']
PARSING = ['Dispatch', 'VisitUnary', 'VisitBoolop', 'VisitCompare', 'VisitName', 'NameFromAttribute', 'VisitAttribute', 'VisitMethod', 'VisitFunction', 'VisitOtherCall', 'DictKey', 'VisitDict', 'ParserInit',
           'AddChain', 'ChainInit', 'ChainItems', 'ExpressionParse', 'AllSymbols', 'FrameEvaluate']
COLUMNS = ['FrameGetitem', 'FrameGetattr']
LINKS = ['FrameInit', 'HasLink', 'GetLink', 'LinkTarget', 'NodeAttribute']
SIDES = ['SideInit', 'SideLevels', 'SideAvailable']
FRAMEFILLS = ['FrameInit', 'FrameFillSet', 'FrameFillTemporary', 'FrameFillReset', 'ClassFill']
PROPERTIES = {
    'C01': ['NestedProbabilities'] + ONE + SIMPLE + MNL + NESTED[1:],
    'C02': MNL + ['SimpleProbabilities', 'AssertFeasible', 'WorkerMultinomialProbabilities', 'WorkerMultinomialSample'] + ONE + DRAWS,
    'C03': NESTED + ['AssertFeasible', 'WorkerNestedProbabilities', 'WorkerNestedSample'] + ONE + DRAWS,
    'C04': ['NestedProbabilities'] + WORKP + WORK + ['AssertFeasible'] + ONE + SIMPLE + MNL + NESTED[1:] + DRAWS,
    'C05': ['NestedProbabilities'] + WORK + DRAWS + ['AssertFeasible'] + ONE + SIMPLE + MNL + NESTED[1:],
    'C06': ['AddPartialUtilities', 'AddNN', 'AddNI', 'AddIN', 'AddII', 'Add', 'AddRow', 'AddCol', 'AddRowCol', 'PartialUtilities'],
    'C07': ['FullName', 'NestedId', 'Depth', 'Choices', 'ElementalChoices', 'Flatten', 'RemoveNode', 'CreateNode', 'AddChoice', 'AddNested', 'AddChoices', 'NodeInit', 'NodeViews'],
    'C08': PARSING,
    'C09': ['EvaluateUtilities', 'KernelEval', 'MakeColumnMask', 'InsertDictVal', 'PrepareDictLiterals', 'PartialUtilities', 'ExpressionsGet', 'ExpressionsSet'] + NAMES,
    'C10': ASSIGN + INITS + FILLED + ['ConvertSeries', 'ToNumpy'],
    'C11': ['Validate', 'NodeInit', 'ScaleSetter', 'CheckSymbolName', 'DeclareNumber', 'DeclareVector', 'DeclareTable', 'DeclareMatrix', 'PrecisionSetter', 'ScopeGetitem', 'ClearScope', 'ExpressionsSet'] + INITS + FILLED + NAMES,
    'C12': ['EvaluateUtilities', 'RunStochastic', 'RunDiscrete', 'DecisionUnitsSetter', 'PartialUtilities', 'GroupCopy', 'GroupAppend', 'SubAppend', 'SubIter'] + COPIES,
    'C13': ['Preval'] + NAMES + COPIES,
    'C14': ['RunDiscrete', 'ConvertResult'],
    'C15': JOIN + ['Precompute', 'LinkCreate', 'LinkTo', 'GetIndexer', 'ComputeIndexers'] + WALK + COLUMNS + LINKS + SIDES[:2],
    'C16': ['Aggregate', 'FrameEvaluate', 'ConvertSeries', 'AggregatorOf', 'NodeAttribute'] + JOIN + WALK + COLUMNS,
    'C17': ['LinkCopy', 'IndexerAndMissing', 'IndexReplaced', 'InheritLinks', 'Finalize', 'TakeCopy', 'SliceRows', 'Reindexed', 'FrameCopy', 'Precompute', 'ComputeIndexers', 'UpdateInplace', 'SideAvailable', 'FrameInit'],
    'C18': FILLS + WALK + FRAMEFILLS,
}

TRUSTED = [
    'pydv (the verification condition generator of /verif/pydv): symbolic execution of the module text that is in /repo now, loops cut by invariants; soundness of the loop rule and of the proxies',
    'z3 5.3.2 and cvc5',
    'CPython executes the non-symbolic part of the verified functions; numba compiles them faithfully (its decorators are the identity for the verifier)',
]
ASSUMPTIONS = {
    '*': ['floating-point numbers are treated as real numbers (with minus infinity); rounding is only considered where a contract speaks about it',
          'partial correctness: termination of the verified loops is not proved (all but the binary search are for loops)',
          'machine integers are mathematical integers (the uint32 conversion in the binary search is an obligation)',
          'integer keys and arrays: NumPy indexing, slicing, assignment, zeros, sum, max, min and astype follow their documented meaning'],
    'C01': ['random draws are in [0, 1]; for draws below the smallest normal number, no cumulative probability is subnormal', 'at most 2**31 alternatives'],
    'C02': ['exp is positive on real numbers and 0 at minus infinity; no overflow'],
    'C03': ['exp is positive on real numbers and 0 at minus infinity, log of 0 is minus infinity; no overflow', 'the tree arrays are those of a valid tree (the contract of ChoiceModel._flatten, property C07)'],
    'C04': ['parallel iterations behave as in some sequential order when no iteration accesses an element another one writes (this independence is an obligation for every prange loop)',
            'numpy random state is local to the thread (numba)'],
    'C05': ['np.random.seed(s) followed by draws gives a stream that is a function of s and the position; n draws at once are the same as n successive ones (compared on concrete seeds on every run)'],
    'C07': ['the nodes of a model form a tree: every node is in the list of its model once, its parent is the model or an earlier node, its children are the nodes whose parent it is (established by _create_node and add_choice, maintained by _remove_node)',
            'concatenation of strings is associative; equality of concatenations is only used for the parts themselves', 'names given in one add_choices call are distinct',
            'pandas: Index and MultiIndex.from_tuples list the given labels in the given order', 'ChoiceNode properties read by another function satisfy their own contracts (full_name, nested_id, level, is_elemental)'],
    'C08': ['numexpr computes the operators, comparisons and functions of the translated text as Python and NumPy define them, element by element; operands of and, or, not are Boolean',
            'ast.NodeTransformer.generic_visit keeps the meaning of a node of another class when the visits of its children keep theirs; structural induction over the tree connects the contracts of the visitor methods',
            'astor.to_source writes text that parses to the tree it was given; ast.parse ignores blanks around the text', 'decimal numbers contain no underscore; a dictionary with one more key is longer by one',
            'names of symbols do not begin with __dict or __sub_'],
    'C09': ['numexpr.evaluate computes cell by cell, names denote the elements of local_dict broadcast to the shape of the utilities (the translation itself is property C08)',
            'the names an Expression reports (symbols, chains) are those it uses, and no name is both (Expression.parse, property C08)', 'substitution names differ from symbol names', 'pandas get_loc/get_indexer on unique labels: the position of the label',
            'debug_id is not given (that branch only fills debug tables and is not covered)', 'first parts of dictionary keys do not begin with an underscore'],
    'C10': ['pandas: the dtype of a Series tells the kind of its values; str.len().max() is the longest text (a decimal number if a part is missing); to_numpy, astype and asarray convert cell by cell, cut text at the width given, and refuse missing integers unless told what to put', 'labels given to a matrix are unique; get_indexer gives the position of each label, or -1',
            'Index.equals compares labels and their order; reindex moves values with their labels', 'the shape of an ndarray can be set to (n, 1) or (1, n) without changing its elements',
            'LinkedDataFrame is a DataFrame (its own evaluation is properties C15 to C17)'],
    'C11': ['the names an Expression reports (symbols, chains) are those it uses, and no name is both (Expression.parse, property C08)', 'a symbol of any class is asked through `filled` only (the symbol classes satisfy it by their own contracts)', 'pandas/NumPy constructors and dtypes as documented'],
    'C12': ['the kernels do not modify the utilities (proved for C04)', 'pandas DataFrame.to_numpy/copy(deep=True) and NumPy astype give new memory where the documentation says so; .values may be shared'],
    'C13': ['utilities of a record depend on that record only (proved for C04, C09) and expressions are added independently (C09)', 'pandas: selection by a Boolean Series with equal labels keeps the rows where it is true, in order',
            'the names an Expression reports (symbols, chains) are those it uses (Expression.parse, property C08)', 'selecting rows of a LinkedDataFrame keeps its links (property C17)'],
    'C14': ['the workers return positions drawn for row i and draw j in row i and column j (proved for C04, C05)', 'pandas take/Series/DataFrame constructors and MultiIndex labels by position; labels of an index are unique'],
    'C15': ['pandas: get_indexer gives the position of each key in unique labels, or -1; factorize gives equal codes exactly to equal keys, and -1 to missing ones; equals compares labels and their order; a MultiIndex looks up keys with missing entries as it documents',
            'the contracts of aggregation and of links are given for keys as opaque values compared for equality: what pandas considers equal (types, missing values) is bounded'],
    'C16': ['pandas groupby and reindex: the aggregate of each group of equal codes at the position of the code', 'the aggregate functions of pandas skip missing values', 'the translation of the expression keeps its meaning (property C08), numexpr computes it row by row', 'converting to the result type keeps the values it can represent'],
    'C17': ['pandas asks _take_with_is_copy, _slice, _reindex_with_indexers, __finalize__ with the positions it takes the rows from (which of its operations ask which one is bounded)', 'the rows of the frames links lead to are unchanged since they were joined'],
    'C18': ['the dtype and the accessors of a Series tell the type of its values'],
    'C06': ['the index arrays have no duplicates (they come from get_indexer on unique labels)', 'sums of floating-point numbers are exact'],
}


def conf_uniform():
    n = 0
    for seed in (0, 1, 12345, 2 ** 31 - 2):
        a = np.random.RandomState(seed).uniform(core_contracts.TINYF, 1.0, 50)
        r = np.random.RandomState(seed)
        assert all(a[i] == r.uniform(core_contracts.TINYF, 1.0, 1)[0] for i in range(50))
        assert ((a >= core_contracts.TINYF) & (a <= 1)).all()
        n += 50
    return n


def conf_randint():
    n = 0
    for seed in (0, 1, 12345, 2 ** 31 - 2):
        a = np.random.RandomState(seed).randint(0, worker_contracts.MAXR, 50)
        assert (np.random.RandomState(seed).randint(0, worker_contracts.MAXR, 20) == a[:20]).all()
        assert ((a >= 0) & (a < worker_contracts.MAXR)).all()
        n += 50
    return n


RNG = [('np.random.uniform', conf_uniform), ('np.random.randint', conf_randint)]
CONFORMANCE = {'C01': RNG[:1], 'C04': RNG, 'C05': RNG}
