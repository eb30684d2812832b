"""C02: utilities which admit no probabilities are reported"""
import math

from hypothesis import strategies as st

from harness import models
from harness.models import warm  # noqa
from harness.part import Part

FATES = ['normal', 'nan', 'infeasible', 'partly', 'overflow']


@st.composite
def cases(draw, tier='quick', nested=None):
    tree = draw(models.trees(nested=nested, max_nodes=9 if tier == 'thorough' else 7))
    depth = models.depth(tree)
    precision = draw(st.sampled_from([8, 8, 4]))
    kinds = draw(st.sampled_from([['nan'], ['infeasible'], ['infeasible'], ['infeasible', 'partly'], ['overflow'],
                                  ['partly'], ['nan', 'infeasible'], ['infeasible', 'overflow']]))
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 400 if tier == 'thorough' else 150)))
    n_bad = draw(st.integers(0 if n > 1 else 1, min(n, 3)))
    bad = sorted(draw(st.lists(st.integers(0, n - 1), min_size=n_bad, max_size=n_bad, unique=True)))
    base = [[draw(st.integers(-40, 40)) / 8 for _ in tree] for _ in range(min(n, 4))]
    special = []
    for i in bad:
        fate = draw(st.sampled_from(kinds))
        special.append([i, fate, spoil(draw, tree, fate, precision)])
    return {'tree': tree, 'n': n, 'base': base, 'special': special, 'precision': precision,
            'threads': draw(st.integers(1, 4)), 'scale': draw(st.sampled_from([True, True, False])),
            'how': draw(st.sampled_from(['matrix', 'partial', 'table', 'vector'])), 'units': draw(st.sampled_from(['range', 'str'])),
            'draws': draw(st.sampled_from([1, 1, 2, 7])), 'seed': draw(st.integers(0, 99)), 'depth': depth}


def spoil(draw, tree, fate, precision):
    """Returns pairs of [choice number, utility]"""
    paths = [p for p, _ in tree]
    everywhere = range(len(paths))
    minus = draw(st.sampled_from([-math.inf, -math.inf, -5000.0, -1e30]))
    if fate == 'nan':
        # Also beside infinities
        cells = draw(st.lists(st.sampled_from(everywhere), min_size=1, max_size=2, unique=True))
        out = [[j, math.nan] for j in cells]
        if draw(st.booleans()):
            out += [[j, minus] for j in everywhere if j not in cells]
        return out
    if fate == 'overflow':
        # Sure to overflow whatever the scaling: an alternative whose ancestors are ordinary
        huge = draw(st.sampled_from([math.inf, 2000.0, 1e5]))
        leaf = draw(st.sampled_from(models.leaves(tree)))
        j = paths.index(leaf)
        if len(leaf) > 1:
            # The parents' utility is the scale times the log, so it takes more to overflow
            huge = math.inf
        if precision == 4 and huge > 3000:
            huge = math.inf
        return [[j, huge]]
    if fate == 'infeasible':
        how = draw(st.sampled_from(['all', 'top', 'leaves']))
        if how == 'all':
            cells = list(everywhere)
        elif how == 'top':
            cells = [j for j in everywhere if len(paths[j]) == 1]
        else:
            cells = [paths.index(x) for x in models.leaves(tree)]
        return [[j, minus] for j in cells]
    # One branch is infeasible, another one is not
    top = [p for p in paths if len(p) == 1]
    keep = draw(st.sampled_from(top))
    return [[j, -math.inf] for j in everywhere if paths[j][:1] != keep]


def close(a, b):
    import numpy as np
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-11, atol=0)


def run(case, ctx):
    import numpy as np
    import pandas as pd
    from cheval import ChoiceModel
    UtilityBoundsError = models.bounds_error()
    tree, n = case['tree'], case['n']
    rows = [list(case['base'][i % len(case['base'])]) for i in range(n)]
    fates = ['normal'] * n
    for i, fate, cells in case['special']:
        fates[i] = fate
        for j, u in cells:
            rows[i][j] = u
    labels = list(range(n)) if case['units'] == 'range' else [f'u{i}' for i in range(n)]
    units = {'kind': case['units'], 'labels': labels}

    def make():
        if case['how'] != 'vector':
            return models.build_model(tree, units, rows, case['precision'], case['how'])
        m = ChoiceModel(precision=case['precision'])
        models.build_tree(m, tree)
        m.decision_units = models.make_units(units)
        a = np.array(rows, dtype='f8')
        for j, (path, _) in enumerate(tree):
            m.declare_vector(f'v{j}', 0)
            m[f'v{j}'].assign(pd.Series(a[:, j], index=m.decision_units))
            m.expressions.append(f'v{j} @ ' + '.'.join(path))
        return m
    m = ctx.sut('building the model', make)
    has = set(fates)

    def stochastic(check):
        p, top, terms = m.run_stochastic(n_threads=case['threads'], scale_utilities=case['scale'], clear_scope=False,
                                         check_infeasible=check)
        return np.asarray(p.values, 'f8'), np.asarray(top.values, 'f8'), np.asarray(terms.values, 'f8'), list(p.index)

    def discrete():
        r, ls = m.run_discrete(random_seed=case['seed'], n_draws=case['draws'], astype='index', squeeze=False,
                               n_threads=case['threads'], scale_utilities=case['scale'], clear_scope=False)
        return np.asarray(r.values), np.asarray(ls.values, 'f8')

    bad_always = 'nan' in has or 'overflow' in has
    bad = bad_always or 'infeasible' in has
    where = f'units {[(i, f) for i, f in enumerate(fates) if f != "normal"]} of {n}'
    results = None
    if bad:
        ctx.refused(f'stochastic run with {where}', UtilityBoundsError, stochastic, True)
        ctx.refused(f'discrete run with {where}', UtilityBoundsError, discrete)
    else:
        results = ctx.sut(f'stochastic run with {where}', stochastic, True)
        choices, ls = ctx.sut(f'discrete run with {where}', discrete)
        paths = [p for p, _ in tree]
        can = {}
        for i in range(n):
            poss = can.setdefault(tuple(rows[i]), models.possible(tree, rows[i]))
            for c in choices[i]:
                ctx.require(0 <= c < len(paths) and poss[tuple(paths[c])] and not models.children(tree, paths[c]),
                            lambda: f'{where}: choice {c} of unit {i}')
        ctx.require(bool(np.all(np.isfinite(ls))), 'a logsum is not finite')
    if bad_always:
        ctx.refused(f'stochastic run without check, with {where}', UtilityBoundsError, stochastic, False)
    else:
        unchecked = ctx.sut(f'stochastic run without check, with {where}', stochastic, False)
        if results is not None:
            for a, b in zip(results[:3], unchecked[:3]):
                ctx.require(close(a, b), 'results differ with the check turned off')
        p, top, terms, index = unchecked
        ctx.require(index == labels, 'index of the results')
        alone = {}
        for i in range(n):
            if fates[i] == 'infeasible':
                ctx.require(bool(np.all(p[i] == 0)) and top[i] == 0,
                            lambda: f'infeasible unit {i} has probabilities {p[i]} and logsum {top[i]} ({where})')
                continue
            key = tuple(rows[i])
            if key not in alone:
                single = ctx.sut('a model with one unit only', models.build_model, tree, {'kind': 'range', 'labels': [0]},
                                 [rows[i]], case['precision'], 'matrix')
                alone[key] = [np.asarray(x.values, 'f8').ravel() for x in ctx.sut(
                    'running a model with one unit only', single.run_stochastic, scale_utilities=case['scale'])]
            ap, atop, aterms = alone[key]
            ctx.require(close(p[i], ap) and close(top[i:i + 1], atop) and close(terms[i], aterms),
                        lambda: f'unit {i} has {p[i]}, {top[i]}, which differ from its results alone, {ap}, {atop} ({where})')
            ctx.require(not np.any(np.isnan(p[i])), 'NaN probability')
    ctx.nontrivial = has != {'normal'}
    for f in has:
        ctx.label('has ' + f)
    ctx.label_if(n > 10, 'many units')
    ctx.label_if(bad and any(f == 'normal' for f in fates), 'bad units among good ones')
    ctx.label_if(case['threads'] > 1, 'several threads')


@st.composite
def large_cases(draw, tier):
    tree = draw(models.trees(max_nodes=5, max_depth=3))
    n = draw(st.sampled_from([1000, 5000, 33000, 66000, 70000, 132000, 140000, 263000]))
    fate = draw(st.sampled_from(['nan', 'infeasible', 'infeasible', 'overflow']))
    place = draw(st.sampled_from([0, n - 1, n // 2, 1024, 4096, 32768, 65535, 65536, 131072, n - 2, -1]))
    if not 0 <= place < n:
        place = draw(st.integers(0, n - 1))
    precision = draw(st.sampled_from([8, 8, 4]))
    return {'tree': tree, 'n': n, 'fate': fate, 'place': place, 'precision': precision, 'cells': spoil(draw, tree, fate, precision),
            'base': [draw(st.integers(-40, 40)) / 8 for _ in tree], 'threads': draw(st.integers(1, 4)),
            'scale': draw(st.booleans()), 'draws': draw(st.sampled_from([1, 2]))}


def run_large(case, ctx):
    """One bad unit among many good ones"""
    import numpy as np
    import pandas as pd
    from cheval import ChoiceModel
    UtilityBoundsError = models.bounds_error()
    tree, n, place = case['tree'], case['n'], case['place']
    m = ChoiceModel(precision=case['precision'])
    ctx.sut('building the tree', models.build_tree, m, tree)
    m.decision_units = pd.RangeIndex(n)
    good = np.tile(np.array(case['base'], dtype=f'f{case["precision"]}'), (n, 1))
    bad = good.copy()
    for j, u in case['cells']:
        bad[place, j] = u
    m.declare_matrix('u')
    m.expressions.append('u')

    def assign(values):
        m['u'].assign(pd.DataFrame(values, index=m.decision_units, columns=m.choices))

    def stochastic(check):
        return [np.asarray(x.values) for x in m.run_stochastic(
            n_threads=case['threads'], scale_utilities=case['scale'], clear_scope=False, check_infeasible=check)]

    def discrete():
        r, _ = m.run_discrete(random_seed=place, n_draws=case['draws'], astype='index', squeeze=False, clear_scope=False,
                              n_threads=case['threads'], scale_utilities=case['scale'])
        return np.asarray(r.values)
    where = f'a unit with {case["fate"]} utilities at {place} of {n}'
    ctx.sut('assign', assign, good)
    fine = ctx.sut(f'stochastic run of {n} good units', stochastic, True)
    choices = ctx.sut(f'discrete run of {n} good units', discrete)
    ctx.require(choices.shape == (n, case['draws']), 'shape of the choices')
    ctx.require(all(np.allclose(x, x[:1], rtol=1e-11, atol=0) for x in fine), lambda: f'{n} equal units do not have equal results')
    ctx.sut('assign', assign, bad)
    ctx.refused(f'stochastic run, with {where}', UtilityBoundsError, stochastic, True)
    ctx.refused(f'discrete run, with {where}', UtilityBoundsError, discrete)
    if case['fate'] == 'infeasible':
        p, top, terms = ctx.sut(f'stochastic run without check, with {where}', stochastic, False)
        ctx.require(bool(np.all(p[place] == 0)) and top[place] == 0, lambda: f'{where} has {p[place]} and logsum {top[place]}')
        rest = np.arange(n) != place
        for a, b in zip((p, top, terms), fine):
            ctx.require(np.allclose(a[rest], b[rest], rtol=1e-11, atol=0), lambda: f'units besides {where} have other results')
    else:
        ctx.refused(f'stochastic run without check, with {where}', UtilityBoundsError, stochastic, False)
    ctx.sut('assign', assign, good)
    again = ctx.sut(f'stochastic run of {n} good units', stochastic, True)
    ctx.require(all(np.allclose(a, b, rtol=1e-11, atol=0) for a, b in zip(fine, again)), 'results changed after refused runs')
    ctx.nontrivial = True
    ctx.label('has ' + case['fate'])
    ctx.label_if(place >= 65536, 'beyond 65536 units')


PARTS = [
    Part('multinomial', lambda tier: cases(tier, False), run, 1000, 20000),
    Part('nested', lambda tier: cases(tier, True), run, 1600, 30000),
    Part('large', large_cases, run_large, 60, 1200),
]
