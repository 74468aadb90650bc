from mkbug import make
core='cheval/core.py'; model='cheval/model.py'; api='cheval/api.py'
make('c01-search-boundary', 'C01', [(core, "        if r <= cp_at_mid:  # left branch", "        if r < cp_at_mid:  # left branch")],
 'a draw exactly equal to the cumulative probability of an interior alternative, binary search only',
 'the alternative after the one whose cumulative interval contains the draw is selected, possibly one of zero probability',
'''import numpy as np
from cheval.core import logarithmic_search, sample_once
p = np.array([0.25, 0.25, 0.0, 0.25, 0.25])
cps = np.cumsum(p)
for r in (0.25, 0.5, 0.75, 1.0, 0.6):
    assert logarithmic_search(r, cps) == sample_once(p, r), r
''')
make('c03-log-floor', 'C03', [(core, "expu = np.exp((probabilities[index] + current_ls_scale * np.log(existing_logsum)) / parent_ls_scale)",
  "expu = np.exp((probabilities[index] + current_ls_scale * np.log(max(existing_logsum, 1e-300))) / parent_ls_scale)")],
 'a nest with a small logsum scale whose members are all unavailable, while other choices are available',
 'the nest keeps a share of the probability although all its members are unavailable, so the probabilities sum to less than one',
'''import numpy as np
from cheval import ChoiceModel
import pandas as pd
m = ChoiceModel()
a = m.add_choice('a', logsum_scale=0.01)
a.add_choice('x'); a.add_choice('y')
m.add_choice('b')
m.decision_units = pd.Index([0])
m.declare_vector('v', 1)
m['v'].assign(pd.Series([0, -np.inf, -np.inf, 0.0], index=m.choices))
m.expressions.append('v')
p, ls, _ = m.run_stochastic()
assert abs(p.sum(axis=1).iloc[0] - 1) < 1e-9, p
assert ls.iloc[0] == 1.0, ls
''')
make('c05-seed-zero', 'C05', [(model, "        if random_seed is None:\n            random_seed = RandomState().randint(1, 10000)", "        if not random_seed:\n            random_seed = RandomState().randint(1, 10000)")],
 'random_seed=0', 'runs with the seed 0 are not reproducible',
'''import numpy as np, pandas as pd
from cheval import ChoiceModel
def run():
    m = ChoiceModel()
    m.add_choices(list('abcdefgh'))
    m.decision_units = pd.Index(range(50))
    m.expressions.append('0')
    return m.run_discrete(random_seed=0, astype='index')[0].to_numpy()
first = run()
for _ in range(4):
    assert (run() == first).all()
''')
make('c10-matrix-permuted-rows', 'C10', [(api, "            rows_match = data.index is rows or rows.equals(data.index)", "            rows_match = len(data.index) == len(rows) and rows.isin(data.index).all()")],
 'a matrix whose rows are a permutation of the decision units', 'the rows of the matrix are assigned by position although their labels are in another order',
'''import numpy as np, pandas as pd
from cheval import ChoiceModel
m = ChoiceModel()
m.add_choices(['a', 'b'])
m.decision_units = pd.Index([10, 20, 30])
m.declare_matrix('mat')
m['mat'].assign(pd.DataFrame([[3., 3.], [1., 1.], [2., 2.]], index=[30, 10, 20], columns=['a', 'b']))
assert m['mat']._get().tolist() == [[1., 1.], [2., 2.], [3., 3.]], m['mat']._get()
''')
