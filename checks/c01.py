"""C01: probabilities and logsums follow the logit formula"""
import math

from hypothesis import strategies as st

from harness import models
from harness.core import same_value
from harness.part import Part
from harness.models import warm  # noqa


@st.composite
def utility(draw, nested):
    kind = draw(st.integers(0, 9))
    if kind == 0:
        return -math.inf
    if kind == 1:
        return -999.0
    if kind <= 4:
        return draw(st.integers(-40, 40)) / 8
    if kind == 5:  # Numbers which single precision can't hold
        return draw(st.integers(-3000, 3000)) / 997
    if kind <= 8 or nested:
        return draw(st.integers(-240, 240)) / 8
    return float(draw(st.integers(-500, 500)))


@st.composite
def cases(draw, tier='quick', nested=None):
    tree = draw(models.trees(nested=nested, odd_names=True, max_nodes=12 if tier == 'thorough' else 9))
    nested = models.depth(tree) > 1
    units = draw(models.unit_labels(1, 6))
    precision = draw(st.sampled_from([8, 8, 8, 4]))
    scale_utilities = draw(st.sampled_from([True, True, False]))
    n = len(units['labels'])
    rows = []
    for _ in range(n):
        row = [draw(utility(nested)) for _ in tree]
        rows.append(fit(tree, row, scale_utilities, precision))
    repeat = draw(st.sampled_from([0] * 24 + [40, 40, 150, 150, 150, 2500]))
    return {'tree': tree, 'units': units, 'rows': rows, 'precision': precision, 'scale': scale_utilities,
            'threads': draw(st.integers(1, 4)), 'how': draw(st.sampled_from(['matrix', 'partial', 'table'])),
            'repeat': repeat, 'check': draw(st.booleans())}


def fit(tree, row, scale_utilities, precision):
    """Moves a row into the domain: some alternative at each level must be reachable, and nothing may overflow"""
    row = list(row)
    # Always keep one clearly feasible elemental alternative
    path = models.leaves(tree)[0]
    for k in range(1, len(path) + 1):
        i = [p for p, _ in tree].index(path[:k])
        if row[i] < -500:
            row[i] = 0.5
    limit = 70 if (precision == 4 and models.depth(tree) == 1) else 500
    for _ in range(8):
        finite = [0.0 if u in (-999.0, -math.inf) else u for u in row]
        if models.logit(tree, finite, scale_utilities)[3] <= limit:
            break
        row = [u if u in (-999.0, -math.inf) else float(round(u * 2) / 8) for u in row]
    else:
        row = [u if u in (-999.0, -math.inf) else 0.0 for u in row]
    return row


@st.composite
def wide_cases(draw, tier):
    spec = draw(models.wide_specs())
    n = draw(st.sampled_from([1, 2, 5]))
    return {'spec': spec, 'n': n, 'seed': draw(st.integers(0, 999)), 'precision': draw(st.sampled_from([8, 8, 4])),
            'scale': draw(st.sampled_from([True, True, False])), 'threads': draw(st.integers(1, 4)),
            'how': draw(st.sampled_from(['matrix', 'partial', 'table'])), 'missing': draw(st.sampled_from([0.0, 0.1, 0.9]))}


def run_wide(case, ctx):
    import random
    tree = models.wide_tree(case['spec'])
    rng = random.Random(case['seed'])
    rows = [[-math.inf if rng.random() < case['missing'] else rng.choice([rng.randint(-40, 40) / 8, rng.randint(-3000, 3000) / 997]) for _ in tree] for _ in range(case['n'])]
    rows = [fit(tree, r, case['scale'], case['precision']) for r in rows]
    run({'tree': tree, 'units': {'kind': 'range', 'labels': list(range(case['n']))}, 'rows': rows, 'repeat': 0,
         'precision': case['precision'], 'scale': case['scale'], 'threads': case['threads'], 'how': case['how'],
         'check': True}, ctx)
    ctx.label('100 choices or more' if len(tree) >= 100 else 'less than 100 choices')


def run(case, ctx):
    import numpy as np
    tree, units, rows = case['tree'], case['units'], case['rows']
    nested = models.depth(tree) > 1
    if case['repeat']:
        rows = [rows[(i * 7 + i // 3) % len(rows)] for i in range(case['repeat'])]
        units = {'kind': 'range', 'labels': list(range(case['repeat']))}
    m = ctx.sut('building the model', models.build_model, tree, units, rows, case['precision'], case['how'])

    def go():
        p, top, terms = m.run_stochastic(n_threads=case['threads'], scale_utilities=case['scale'],
                                         check_infeasible=case['check'], clear_scope=False)
        return (np.asarray(p.values, dtype='f8'), list(p.columns), list(p.index), np.asarray(top.values, dtype='f8'),
                list(top.index), np.asarray(terms.values, dtype='f8'), list(terms.columns), list(terms.index))
    p, p_cols, p_rows, top, top_rows, terms, t_cols, t_rows = ctx.sut('run_stochastic', go)

    d = models.depth(tree)
    leaf_labels = [models.label(x, d) for x in models.leaves(tree)]
    unit_list = models.unit_list(units)
    ctx.require(p_cols == leaf_labels, lambda: f'columns of probabilities {p_cols} are not {leaf_labels}')
    ctx.require(t_cols == models.labels(tree), lambda: f'columns of logsum terms {t_cols} are not the choices')
    for name, index in (('probabilities', p_rows), ('logsums', top_rows), ('logsum terms', t_rows)):
        ctx.require(index == unit_list, lambda: f'index of {name} {index} is not the decision units {unit_list}')
    ctx.require(p.shape == (len(rows), len(leaf_labels)), 'shape of the probabilities')
    ctx.require(top.shape == (len(rows),), 'shape of the logsums')
    ctx.require(terms.shape == (len(rows), len(tree)), 'shape of the logsum terms')

    single = case['precision'] == 4 and not nested
    rel, rel_p = (1e-4, 1e-4) if single else (1e-8, 1e-9)
    seen = {}
    interesting = False
    for i, row in enumerate(rows):
        key = tuple(row)
        if key not in seen:
            if case['precision'] == 4:
                row = [float(np.float32(u)) for u in row]
            ep, etop, eterms, _ = models.logit(tree, row, case['scale'])
            seen[key] = (ep, etop, eterms, models.possible(tree, row))
        ep, etop, eterms, poss = seen[key]
        where = f'unit {i} with utilities {row} (tree {tree})'
        ctx.require(np.all(p[i] >= 0) and np.all(p[i] <= 1 + 1e-9), lambda: f'{where}: probability outside [0, 1]: {p[i]}')
        ctx.require(abs(p[i].sum() - 1) <= (1e-5 if single else 1e-9), lambda: f'{where}: probabilities sum to {p[i].sum()}')
        for j, path in enumerate(models.leaves(tree)):
            e = ep[tuple(path)]
            ctx.require(same_value(p[i, j], e, rel_p, 1e-12 if not single else 1e-7),
                        lambda: f'{where}: probability of {path} is {p[i, j]}, expected {e}')
            if not poss[tuple(path)]:
                ctx.require(p[i, j] == 0, lambda: f'{where}: infeasible {path} has probability {p[i, j]}')
                interesting = True
        ctx.require(same_value(top[i], etop, rel), lambda: f'{where}: logsum is {top[i]}, expected {etop}')
        for j, (path, _) in enumerate(tree):
            ctx.require(same_value(terms[i, j], eterms[j], rel, 1e-37 if single else 1e-250),
                        lambda: f'{where}: logsum term of {path} is {terms[i, j]}, expected {eterms[j]}')
    ctx.nontrivial = len(tree) > 1 and len(set(map(tuple, rows))) > 0 and any(u != 0 for r in rows for u in r)
    ctx.label('nested' if nested else 'multinomial')
    ctx.label(f'depth {d}')
    ctx.label_if(interesting, 'has infeasible alternatives')
    ctx.label_if(not case['scale'], 'unscaled')
    ctx.label_if(case['precision'] == 4, 'precision 4')
    ctx.label_if(any(-900 < u != float(np.float32(u)) for r in rows for u in r), 'numbers of double precision')
    ctx.label_if(case['threads'] > 1, 'several threads')
    ctx.label_if(len(rows) > 10, 'many units')
    ctx.label_if(nested and any(-900 < r[j] != 0 for r in rows for j, (p_, _) in enumerate(tree) if models.children(tree, p_)),
                 'nests have utilities of their own')


PARTS = [
    Part('multinomial', lambda tier: cases(tier, False), run, 1200, 20000),
    Part('nested', lambda tier: cases(tier, True), run, 3000, 50000),
    Part('wide', lambda tier: wide_cases(tier), run_wide, 60, 1500),
]
