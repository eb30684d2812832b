"""C05: discrete results name the chosen alternatives in every output form"""
import math

from hypothesis import strategies as st

from harness import models
from harness.models import warm  # noqa
from harness.part import Part

FORMS = ['category', 'object', 'O', 'str', '<py str>', '<py object>', '<np object>']


@st.composite
def cases(draw, tier, nested):
    tree = draw(models.trees(nested=nested, odd_names=True, max_nodes=12 if tier == 'thorough' else 9))
    units = draw(models.unit_labels(1, 7))
    rows = [[draw(st.sampled_from([-2.0, 0.0, 0.0, 0.5, 1.0, -math.inf])) for _ in tree] for _ in units['labels']]
    path = draw(st.sampled_from(models.leaves(tree)))
    paths = [p for p, _ in tree]
    for row in rows:
        for k in range(1, len(path) + 1):
            if row[paths.index(path[:k])] == -math.inf:
                row[paths.index(path[:k])] = 0.0
    return {'tree': tree, 'units': units, 'rows': rows, 'draws': draw(st.sampled_from([1, 1, 1, 2, 3, 12])),
            'seed': draw(st.integers(0, 2 ** 31 - 1)), 'name': draw(st.sampled_from([None, 'result', 'x y', 0, 7])),
            'form': draw(st.sampled_from(FORMS)), 'threads': draw(st.integers(1, 4)), 'scale': draw(st.booleans()),
            'precision': draw(st.sampled_from([8, 4])), 'how': draw(st.sampled_from(['matrix', 'partial', 'table'])),
            }


@st.composite
def wide_cases(draw, tier):
    return {'spec': draw(models.wide_specs()), 'n': draw(st.sampled_from([1, 3, 40, 300])), 'rows_seed': draw(st.integers(0, 999)),
            'draws': draw(st.sampled_from([1, 1, 2, 12])), 'seed': draw(st.integers(0, 2 ** 31 - 1)), 'name': None,
            'form': draw(st.sampled_from(FORMS)), 'threads': draw(st.integers(1, 4)), 'scale': draw(st.booleans()),
            'precision': draw(st.sampled_from([8, 4])), 'how': draw(st.sampled_from(['matrix', 'partial']))}


def run_wide(case, ctx):
    import random
    tree = models.wide_tree(case['spec'])
    rng = random.Random(case['rows_seed'])
    some = [[rng.randint(-8, 8) / 8 for _ in tree] for _ in range(min(case['n'], 3))]
    run(dict(case, tree=tree, units={'kind': 'range', 'labels': list(range(case['n']))},
             rows=[some[i % len(some)] for i in range(case['n'])]), ctx)
    ctx.label('100 choices or more' if len(tree) >= 100 else 'less than 100 choices')


def run(case, ctx):
    import numpy as np
    import pandas as pd
    tree, units, draws, name = case['tree'], case['units'], case['draws'], case['name']
    how = case['how']
    if how == 'table' and any('.' in x for p, _ in tree for x in p):
        how = 'matrix'
    m = ctx.sut('building the model', models.build_model, tree, units, case['rows'], case['precision'], how)
    unit_list = models.unit_list(units)
    labels = ctx.sut('choices', lambda: list(m.choices))
    ctx.require(labels == models.labels(tree), lambda: f'choices are {labels}')

    def go(astype, squeeze):
        return ctx.sut(f'run_discrete(astype={astype!r}, squeeze={squeeze})', lambda: m.run_discrete(
            random_seed=case['seed'], n_draws=draws, astype=astype, squeeze=squeeze, n_threads=case['threads'],
            clear_scope=False, result_name=name, scale_utilities=case['scale']))
    astype = {'<py str>': str, '<py object>': object, '<np object>': np.dtype(object)}.get(case['form'], case['form'])
    base, base_ls = go('index', False)
    ctx.require(isinstance(base, pd.DataFrame) and base.shape == (len(unit_list), draws),
                lambda: f'the positional result is {type(base).__name__} of shape {base.shape}')
    pos = np.asarray(base.values)
    ctx.require(pos.dtype.kind in 'iu' and bool(np.all((pos >= 0) & (pos < len(tree)))), lambda: f'positions {pos.tolist()}')
    paths = [p for p, _ in tree]
    for i in range(len(unit_list)):
        poss = models.possible(tree, case['rows'][i])
        for c in pos[i]:
            ctx.require(not models.children(tree, paths[c]) and poss[tuple(paths[c])],
                        lambda: f'unit {i} with utilities {case["rows"][i]} chose {paths[c]}')

    for what, form, squeeze in (('index', 'index', True), ('form', astype, True), ('form', astype, False)):
        result, ls = go(form, squeeze)
        where = f'result as {form!r}, squeeze={squeeze}, {draws} draws'
        ctx.require(isinstance(ls, pd.Series) and list(ls.index) == unit_list, lambda: f'{where}: logsum index')
        ctx.require(np.allclose(np.asarray(ls.values), np.asarray(base_ls.values), rtol=1e-11), lambda: f'{where}: logsums differ')
        ctx.require(list(result.index) == unit_list, lambda: f'{where}: index {list(result.index)} instead of {unit_list}')
        if draws == 1 and squeeze:
            ctx.require(isinstance(result, pd.Series), lambda: f'{where} is a {type(result).__name__}')
            ctx.require(result.name == name and (name is None) == (result.name is None), lambda: f'{where} has the name {result.name!r}, not {name!r}')
            columns = [result]
        else:
            ctx.require(isinstance(result, pd.DataFrame) and result.shape[1] == draws,
                        lambda: f'{where} is a {type(result).__name__} of shape {result.shape}')
            ctx.require(list(result.columns) == list(range(draws)), lambda: f'{where} has the columns {list(result.columns)}')
            ctx.require(result.columns.name == name and (name is None) == (result.columns.name is None),
                        lambda: f'{where}: columns have the name {result.columns.name!r}, not {name!r}')
            columns = [result.iloc[:, k] for k in range(draws)]
        for k, column in enumerate(columns):
            got = list(column)
            if what == 'index':
                expected = pos[:, k].tolist()
            else:
                expected = [labels[c] for c in pos[:, k]]
                if form in ('str', str):
                    expected = [str(x) for x in expected]
                if form == 'category':
                    ctx.require(str(column.dtype) == 'category', lambda: f'{where} has the dtype {column.dtype}')
                else:
                    ctx.require(column.dtype == object, lambda: f'{where} has the dtype {column.dtype}')
            ctx.require(got == expected and all(type(a) is type(b) or what == 'index' for a, b in zip(got, expected)),
                        lambda: f'{where}: draw {k} is {got}, expected {expected} (positions {pos[:, k].tolist()})')
    ctx.nontrivial = len(set(pos.ravel().tolist())) > 1
    ctx.label('astype ' + case['form'])
    ctx.label_if(draws > 1, 'several draws')
    ctx.label_if(name is not None, 'named')
    ctx.label(f'depth {models.depth(tree)}')


PARTS = [
    Part('multinomial', lambda tier: cases(tier, False), run, 900, 18000),
    Part('nested', lambda tier: cases(tier, True), run, 1100, 22000),
    Part('wide', lambda tier: wide_cases(tier), run_wide, 60, 1200),
]
