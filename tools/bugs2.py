from mkbug import make
core='cheval/core.py'; model='cheval/model.py'; api='cheval/api.py'; ldf='cheval/ldf/api.py'; md='cheval/ldf/missing_data.py'
at='cheval/parsing/ast_transformer.py'; ex='cheval/parsing/expressions.py'; it='cheval/parsing/expr_items.py'; ut='cheval/utils.py'
HEAD='''import numpy as np, pandas as pd
from cheval import ChoiceModel, LinkedDataFrame
'''
make('c02-underflow-cutoff','C02',[(core,"""        expu = np.exp(u)
        total_ls += expu
        p[i] = expu""","""        expu = np.exp(u) if u > -50.0 else 0.0
        total_ls += expu
        p[i] = expu""")],'utilities below -50','available alternatives of low utility get probability zero, and a record in which all utilities are low is infeasible',
HEAD+'''m = ChoiceModel(); m.add_choices(['a', 'b']); m.decision_units = pd.Index([1]); m.expressions.append('{a: -60, b: -61}')
p, ls, t = m.run_stochastic(check_infeasible=False)
assert abs(p['a'].iloc[0] - 1 / (1 + np.exp(-1))) < 1e-9, p
assert t['b'].iloc[0] > 0
''')
make('c03-deep-levels','C03',[(core,"""    for current_level in range(1, max_level + 1):
        for index, level in enumerate(levels):""","""    for current_level in range(1, min(max_level, 2) + 1):
        for index, level in enumerate(levels):""")],'a tree of four levels','the probabilities of the alternatives of the fourth level are conditional instead of absolute',
HEAD+'''m = ChoiceModel()
n = m.add_choice('a', .9); m.add_choice('z')
for name in 'bc':
    c = n.add_choice(name, .8); n.add_choice(name + 'x'); n = c
n.add_choice('d'); n.add_choice('e')
m.decision_units = pd.Index([1]); m.expressions.append('0')
p = m.run_stochastic()[0]
assert abs(p.sum(axis=1).iloc[0] - 1) < 1e-9, p
''')
make('c04-reuse-previous-row','C04',[(core,"""        result[i, :] = p_array
        top_ls_array[i] = top_ls
        nested_ls_terms[i, :] = nested_ls

    if check_infeasible:
        assert_feasible(top_ls_array)
    return result, top_ls_array, nested_ls_terms


@njit([
    NTuple((nlong[:, :], ndouble[:]))(ndouble[:, :], nlong[:], nlong[:], ndouble[:], nbool[:], nlong, nlong, nbool),""","""        result[i, :] = p_array
        top_ls_array[i] = top_ls
        nested_ls_terms[i, :] = nested_ls if i == 0 or top_ls_array[i - 1] != top_ls else nested_ls_terms[i - 1, :]

    if check_infeasible:
        assert_feasible(top_ls_array)
    return result, top_ls_array, nested_ls_terms


@njit([
    NTuple((nlong[:, :], ndouble[:]))(ndouble[:, :], nlong[:], nlong[:], ndouble[:], nbool[:], nlong, nlong, nbool),""")],
 'two consecutive records with the same logsum and different utilities (or a bad interleaving)','the logsum terms of a record are those of the record before',
HEAD+'''from cheval.core import worker_multinomial_probabilities as f
u = np.array([[0., 1.], [1., 0.], [0., 1.]])
p, ls, t = f(u, True)
assert (t[1] == t[0][::-1]).all(), t
''')
make('c05-large-seed','C05',[(model,"            random_seed = int(random_seed)","            random_seed = int(random_seed) % 10000")],'a seed of at least 10000','the draws are not those of the stream started by the seed',
HEAD+'''m = ChoiceModel(); m.add_choices(list('abcdefgh')); m.decision_units = pd.Index(range(200)); m.expressions.append('0')
got = m.run_discrete(random_seed=123456, astype='index')[0].to_numpy()
r = np.random.RandomState(123456).uniform(np.finfo(float).tiny, 1, 200)
assert (got == np.ceil(r * 8) - 1).all()
''')
make('c06-permuted-columns','C06',[(model,"        if not self.choices.equals(table.columns):","        if len(self.choices.difference(table.columns)) > 0 or len(self.choices) != len(table.columns):")],
 'a table that has all the choices, in another order','the columns are added by position instead of by label',
HEAD+'''m = ChoiceModel(); m.add_choices(['a', 'b']); m.decision_units = pd.Index([1, 2])
m.add_partial_utilities(pd.DataFrame([[1., 2.], [3., 4.]], index=[1, 2], columns=['b', 'a']))
m.expressions.append('0')
assert m._evaluate_utilities(m.expressions)['a'].tolist() == [2., 4.]
''')
make('c07-readd-grandchildren','C07',[(model,"            self._remove_node(child)","            del self._all_nodes[child.full_name]")],'replacing a choice which has grandchildren','the grandchildren of the replaced choice stay in the model',
HEAD+'''m = ChoiceModel()
a = m.add_choice('a'); m.add_choice('z')
b = a.add_choice('b'); a.add_choice('c')
b.add_choice('d'); b.add_choice('e')
a = m.add_choice('a'); a.add_choice('x'); a.add_choice('y')
assert m.depth == 2, m.depth
assert [t for t in m.choices] == [('z', '.'), ('a', '.'), ('a', 'x'), ('a', 'y')], m.choices
''')
make('c08-long-comparison','C08',[(at,"            for new_right in new_nodes[2:]:".replace('    ','    ',1) if 0 else "        for new_right in new_nodes[2:]:","        for new_right in new_nodes[2:3]:")],'a comparison of five or more operands','the last comparisons are ignored',
HEAD+'''f = LinkedDataFrame({'a': [1., 2.]})
assert f.evaluate('0 < a < 3 < 4 < 3.5').tolist() == [False, False]
''')
make('c08-reuse-aggregation','C08',[(it,"""        sub_name = self._make_sub(prepend_at=prepend_at)
        self._lookups[sub_name] = self._build_chain(chain, func, args)
        return sub_name""","""        lookup = self._build_chain(chain, func, args)
        for sub_name, existing in self._lookups.items():
            if existing.chain == lookup.chain and existing.func == lookup.func:
                return sub_name
        sub_name = self._make_sub(prepend_at=prepend_at)
        self._lookups[sub_name] = lookup
        return sub_name""")],'two aggregations of the same kind over one link in one expression, with different arguments','the second aggregation has the value of the first',
HEAD+'''h = LinkedDataFrame({'z': [1, 2]}, index=[1, 2])
p = LinkedDataFrame({'h': [1, 1, 2], 'age': [10, 20, 40], 'w': [1, 2, 3]})
h.link_to(p, 'p', on_other='h')
f = LinkedDataFrame({'h': [1, 2, 1]})
f.link_to(h, 'h_', on_self='h')
assert f.evaluate('h_.p.sum(age) + h_.p.sum(w)').tolist() == [33., 43., 33.]
''')
make('c09-filter-leaks','C09',[(model,"            local_dict = shared_locals.copy()  # Make a shallow copy of the shared symbols","            local_dict = shared_locals.copy() if expr.dict_literals or expr.chains else shared_locals")],
 'an expression with a filter, followed by other expressions','the later expressions are evaluated with one column of the data',
HEAD+'''m = ChoiceModel(); m.add_choices(['a', 'b']); m.decision_units = pd.Index([1, 2])
m.declare_matrix('x'); m['x'].assign(pd.DataFrame([[1., 2.], [3., 4.]], index=[1, 2], columns=['a', 'b']))
m.expressions.append('x @ b'); m.expressions.append('x')
assert m._evaluate_utilities(m.expressions).to_numpy().tolist() == [[1., 4.], [3., 8.]]
''')
make('c09-nan-rows','C09',[(model,"        nans = np.isnan(utilities)\n","        nans = np.isnan(utilities.max(axis=1)) & np.isnan(utilities.min(axis=0).sum())\n") if 0 else (model,"        nans = np.isnan(utilities)\n","        nans = np.isnan(utilities).all(axis=1)\n")],
 'a NaN for some of the alternatives of a record','a NaN utility is not reported',
HEAD+'''from cheval.core import UtilityBoundsError
m = ChoiceModel(); m.add_choices(['a', 'b']); m.decision_units = pd.Index([1, 2]); m.expressions.append('nan @ a')
try:
    m.run_stochastic()
except UtilityBoundsError:
    pass
else:
    raise AssertionError('not reported')
''')
make('c10-mandatory-any','C10',[(api,"""        for column in self._mandatory_attributes:
            assert column in data, f"Mandatory attribute {column} not found in DataFrame\"""","""        if self._mandatory_attributes:
            assert not self._mandatory_attributes.isdisjoint(data.columns), "Mandatory attributes not found in DataFrame\"""")],
 'a table with some, but not all, of its mandatory attributes','the incomplete table is accepted',
HEAD+'''m = ChoiceModel(); m.add_choices(['a', 'b']); m.decision_units = pd.Index([1])
m.declare_table('t', 0, mandatory_attributes={'x', 'y'})
try:
    m['t'].assign(pd.DataFrame({'x': [1]}, index=[1]))
except Exception:
    pass
else:
    raise AssertionError('accepted')
''')
make('c11-deep-single-child','C11',[(model,"            for c in self._all_nodes.values():\n                n_children","            for c in self._top_nodes:\n                n_children")],'a nest with one child below the top level','an inconsistent tree is accepted',
HEAD+'''from cheval.exceptions import ModelNotReadyError
m = ChoiceModel(); a = m.add_choice('a'); m.add_choice('z')
b = a.add_choice('b'); a.add_choice('c'); b.add_choice('only')
m.decision_units = pd.Index([1])
try:
    m.validate()
except ModelNotReadyError:
    pass
else:
    raise AssertionError('accepted')
''')
make('c11-group-chained','C11',[(model,"symbols_to_check = list(expr_container.itersimple()) + list(expr_container.iterchained())","symbols_to_check = list(expr_container.itersimple())\n        symbols_to_check += [name for name in self._expressions.iterchained(groups=group is None)]")],
 'running a group while a table used by another expression is not assigned','a model that is ready is refused',
HEAD+'''m = ChoiceModel(); m.add_choices(['a', 'b']); m.decision_units = pd.Index([1])
m.declare_table('t', 0)
m.expressions.append('t.x'); m.expressions.append('{a: 1}', group='g')
m.run_stochastic(group='g')
''')
make('c12-shared-subgroup','C12',[(api,"""            new_sg = ExpressionSubGroup(name)
            for e in subgroup:
                new_sg.append(e)
            new._subgroups[name] = new_sg""","""            new._subgroups[name] = subgroup""")],'appending to a group of the copy','the expression is added to the original as well',
HEAD+'''m = ChoiceModel(); m.add_choices(['a', 'b']); m.decision_units = pd.Index([1]); m.expressions.append('1', group='g')
c = m.copy(); c.expressions.append('2', group='g')
assert [e.raw for e in m.expressions.get_group('g')] == ['1']
''')
make('c12-shallow-utils','C12',[(model,"            new._cached_utils = self._cached_utils.copy(deep=True)\n\n        return new\n\n    def copy_subset","            new._cached_utils = self._cached_utils[:]\n\n        return new\n\n    def copy_subset")],'adding partial utilities to a copy of a model that has some','they are added to the original as well',
HEAD+'''m = ChoiceModel(); m.add_choices(['a', 'b']); m.decision_units = pd.Index([1])
t = pd.DataFrame([[1., 2.]], index=[1], columns=['a', 'b'])
m.add_partial_utilities(t); c = m.copy(); c.add_partial_utilities(t); m.expressions.append('0')
assert m._evaluate_utilities(m.expressions).to_numpy().tolist() == [[1., 2.]]
''')
make('c14-many-alternatives','C14',[(model,"                return pd.Series(raw_result[:, 0], index=record_index, name=result_name)","                raw_result = raw_result.astype(np.min_scalar_type(-len(choices) // 2))  # Save memory\n                return pd.Series(raw_result[:, 0], index=record_index, name=result_name)")],
 'astype="index" with more than 128 alternatives','positions from 128 are reported as negative numbers',
HEAD+'''m = ChoiceModel(); m.add_choices(['c%d' % i for i in range(200)]); m.decision_units = pd.Index(range(50)); m.expressions.append('{c150: 100}')
assert (m.run_discrete(astype='index', random_seed=1)[0] == 150).all()
''')
make('c15-chain-miss','C15',[(ldf,"                if len(missing) > 0:  # Fill in missing values","                if len(missing) > 0 and (meta is self._history[0] or len(missing) == len(indexer)):  # Fill in missing values")],
 'a chained lookup in which the first link has no match for some of the rows','the value of an unrelated row instead of the fill value',
HEAD+'''z = LinkedDataFrame({'v': [1., 2.]}, index=[1, 2]); h = LinkedDataFrame({'z': [1, 2]}, index=[1, 2]); f = LinkedDataFrame({'h': [1, 9, 2]})
h.link_to(z, 'zone', on_self='z'); f.link_to(h, 'hh', on_self='h')
assert f.hh.zone.v.isna().tolist() == [False, True, False]
''')
make('c16-uint-fill','C16',[(ldf,"if series_type in {PandasDtype.INT_NAME, PandasDtype.UINT_NAME, PandasDtype.BOOL_NAME}:","if series_type in {PandasDtype.INT_NAME, PandasDtype.BOOL_NAME}:")],'unsigned data and a row without matches','NaN instead of int_fill',
HEAD+'''h = LinkedDataFrame({'a': [1, 2]}, index=[1, 2]); p = LinkedDataFrame({'h': [1, 1], 'w': np.array([1, 2], dtype='u1')})
h.link_to(p, 'p', on_other='h')
assert h.p.sum('w', int_fill=-5).tolist() == [3, -5]
''')
make('c17-slice-missing','C17',[(ldf,"        if indices is None:\n            copied._missing_indices = self._missing_indices","        if indices is None or isinstance(indices, slice):\n            copied._missing_indices = self._missing_indices")],
 'a lookup with missing rows, then a positional slice, then a lookup on the slice','the fill value is put into the wrong rows of the slice',
HEAD+'''z = LinkedDataFrame({'v': [1., 2., 3.]}, index=[1, 2, 3]); f = LinkedDataFrame({'z': [1, 9, 2, 3]})
f.link_to(z, 'zone', on_self='z'); f.zone.v
assert f.iloc[2:].zone.v.tolist() == [2., 3.]
assert np.isnan(f.iloc[1:3].zone.v.iloc[0])
''')
make('c18-temporary-default','C18',[(md,"                self._fill_values[enum_] = original_value","                self._fill_values[enum_] = original_value if enum_ not in _default_fills else _default_fills[enum_]")],
 'a default that was set, then overridden temporarily','after the context, the documented default applies instead of the one that was set',
HEAD+'''z = LinkedDataFrame({'v': [1., 2.]}, index=[1, 2]); f = LinkedDataFrame({'z': [1, 9]})
f.link_to(z, 'zone', on_self='z')
z.set_fill_defaults(FLOAT_NAME=-5.)
with z.temporary_fill_defaults(FLOAT_NAME=7.):
    assert f.zone.v.tolist() == [1., 7.]
assert f.zone.v.tolist() == [1., -5.]
''')
make('c18-reset-aliases','C18',[(md,"    def reset_fill_defaults(self):\n        self._fill_values = _default_fills.copy()","    def reset_fill_defaults(self):\n        self._fill_values = _default_fills")],
 'resetting the defaults of a frame, then setting a default, then resetting (or creating) another frame','a default set for one frame becomes the default of others',
HEAD+'''a = LinkedDataFrame({'v': [1., 2.]}, index=[1, 2]); a.reset_fill_defaults(); a.set_fill_defaults(FLOAT_NAME=-5.)
z = LinkedDataFrame({'v': [1., 2.]}, index=[1, 2]); f = LinkedDataFrame({'z': [1, 9]})
f.link_to(z, 'zone', on_self='z')
assert np.isnan(f.zone.v.iloc[1]), f.zone.v
''')
