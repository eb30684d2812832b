"""Choice models with hundreds or thousands of decision units or choices, whose data follow from a few generated numbers,
compared with NumPy"""
import math

from hypothesis import strategies as st

from harness import models

SIZES = [[1, 300], [40, 300], [300, 300], [129, 130], [1000, 40], [1025, 5], [5000, 3], [9001, 12], [20000, 2]]
TEMPLATES = ['s * vu', 'vc - vu', 'tu.a * tc.v', 'where(tu.t == "a", m, 0)', 'm * (tc.v > 0)', 'LIT', 'tu.z.v * LIT',
             'vu @ X', 'where((tu.b < 2) and (vc > 0), 1, 0)', 'm', 'tu.z.v - tc.v', 'where(tc.t == "b", tu.a, s) @ X', 'tu.y.sum(v) / 4',
             'm2 * 2', 'abs(vu - vc)', 's']
SYMBOLS = ['s', 'vu', 'vc', 'tu', 'tc', 'm', 'm2']


@st.composite
def large_models(draw, tier):
    n, c = draw(st.sampled_from(SIZES))
    nests = draw(st.sampled_from([0, 0, 1, 2])) if c > 3 else 0
    return {'n': n, 'c': c, 'nests': nests, 'seed': draw(st.integers(0, 9999)), 'threads': draw(st.integers(1, 4)),
            'exprs': draw(st.lists(st.sampled_from(range(len(TEMPLATES))), min_size=1, max_size=5)),
            'units': draw(st.sampled_from(['range', 'int', 'str', 'multi'])), 'cover': draw(st.sampled_from([1.0, 1.0, 0.7])),
            'shuffle': draw(st.booleans()), 'precision': draw(st.sampled_from([8, 8, 4])),
            'groups': draw(st.lists(st.integers(0, 2), min_size=5, max_size=5)), 'mask': draw(st.integers(0, 5))}


def unit_index(case):
    import numpy as np
    import pandas as pd
    n = case['n']
    if case['units'] == 'range':
        return pd.RangeIndex(n)
    order = np.random.RandomState(case['seed']).permutation(n)
    if case['units'] == 'int':
        return pd.Index(order * 3 - 7)
    if case['units'] == 'str':
        return pd.Index([f'u{i}' for i in order])
    return pd.MultiIndex.from_arrays([order // 50, order % 50], names=['o', 'd'])


class LargeModel:
    def __init__(self, case):
        import numpy as np
        self.case = case
        n, c = case['n'], case['c']
        spec = {'top': c, 'nests': [], 'deeper': False, 'late': False}
        if case['nests']:
            k = (c - 3) // case['nests']
            spec = {'top': 3 + (c - 3) % max(k, 1) if k < 2 else 3, 'nests': [[i, k] for i in range(case['nests'])] if k > 1 else [],
                    'deeper': False, 'late': bool(case['seed'] & 1)}
        self.tree = models.wide_tree(spec)
        c = self.c = len(self.tree)
        r = np.random.RandomState(case['seed'])
        eighths = lambda *shape: r.randint(-16, 17, shape) / 8
        self.units = unit_index(case)
        self.data = {'s': float(eighths(1)[0]), 'vu': eighths(n), 'vc': eighths(c), 'tu.a': eighths(n), 'tu.b': r.randint(0, 4, n),
                     'tu.t': r.choice(['a', 'b', 'cc'], n), 'tc.v': eighths(c), 'tc.t': r.choice(['a', 'b', 'cc'], c)}
        self.zones = eighths(37)
        self.zone = r.randint(0, 40, n)
        self.data['tu.z.v'] = np.where(self.zone < 37, np.append(self.zones, [0, 0, 0])[self.zone], 0.0)
        self.items = r.randint(0, n, 2 * n + 2)
        self.items[1] = self.items[0]
        self.item_values = eighths(len(self.items))
        total = np.bincount(self.items, weights=self.item_values, minlength=n)
        found = np.bincount(self.items, minlength=n) > 0
        self.data['tu.y.sum(v)'] = np.where(found, total, 0.0)
        self.found = found
        self.grids = {}
        for name in ('m', 'm2'):
            rows = r.permutation(n) if case['shuffle'] else np.arange(n)
            cols = r.permutation(c) if case['shuffle'] else np.arange(c)
            rows = rows[:max(1, int(n * case['cover']))]
            cols = cols[:max(1, int(c * case['cover']))]
            values = eighths(len(rows), len(cols))
            grid = np.full((n, c), 0.25 if case['cover'] < 1 else 0.0)
            grid[np.ix_(rows, cols)] = values
            self.grids[name] = (rows, cols, values)
            self.data[name] = grid
        self.texts, self.values = [], []
        weight = 0.25
        paths = [p for p, _ in self.tree]
        for no, t in enumerate(case['exprs']):
            text = TEMPLATES[t]
            value = self.value(text.split(' @ ')[0], r, paths)
            j = int(r.randint(0, c))
            if '@' in text:
                only = np.zeros(c)
                only[j] = 1.0
                value = value * only[None, :]
                text = text.replace('X', '.'.join(paths[j]))
            if 'LIT' in text:
                text = text.replace('LIT', self.literal)
            body, at, label = text.partition(' @ ')
            self.texts.append(f'{weight} * ({body})' + at + label)
            self.values.append(weight * value)
        self.utilities = sum(self.values)

    def value(self, text, r, paths):
        import numpy as np
        d = {k: (v if np.ndim(v) != 1 else v[None, :] if k.startswith(('vc', 'tc')) else v[:, None]) for k, v in self.data.items()}
        lit = None
        if 'LIT' in text:
            picks = sorted(set(r.randint(0, len(paths), 5).tolist()))
            lit = np.zeros((1, len(paths)))
            parts = []
            for i in picks:
                k = int(r.randint(-8, 9)) / 4
                parts.append(f'{".".join(paths[i])}: {k}')
                lit[0, i] = k
            self.literal = '{' + ', '.join(parts) + '}'
        value = {
            's * vu': lambda: d['s'] * d['vu'], 'vc - vu': lambda: d['vc'] - d['vu'], 'tu.a * tc.v': lambda: d['tu.a'] * d['tc.v'],
            'where(tu.t == "a", m, 0)': lambda: np.where(d['tu.t'] == 'a', d['m'], 0), 'm * (tc.v > 0)': lambda: d['m'] * (d['tc.v'] > 0),
            'LIT': lambda: lit, 'tu.z.v * LIT': lambda: d['tu.z.v'] * lit, 'vu': lambda: d['vu'],
            'where((tu.b < 2) and (vc > 0), 1, 0)': lambda: ((d['tu.b'] < 2) & (d['vc'] > 0)) * 1.0, 'm': lambda: d['m'],
            'tu.z.v - tc.v': lambda: d['tu.z.v'] - d['tc.v'], 'where(tc.t == "b", tu.a, s)': lambda: np.where(d['tc.t'] == 'b', d['tu.a'], d['s']),
            'tu.y.sum(v) / 4': lambda: d['tu.y.sum(v)'] / 4, 'm2 * 2': lambda: d['m2'] * 2, 'abs(vu - vc)': lambda: np.abs(d['vu'] - d['vc']),
            's': lambda: d['s'],
        }[text]()
        return np.broadcast_to(value, (self.case['n'], self.c)).astype('f8')

    def build(self, groups=False):
        import numpy as np
        import pandas as pd
        from cheval import ChoiceModel, LinkedDataFrame
        case = self.case
        m = ChoiceModel(precision=case['precision'])
        models.build_tree(m, self.tree)
        m.decision_units = self.units
        for i, text in enumerate(self.texts):
            g = case['groups'][i] if groups else 0
            m.expressions.append(text, group=f'g{g}' if g else None)
        used = set()
        for name in SYMBOLS:
            if any(name in _words(t) for t in self.texts):
                used.add(name)
        d = self.data
        table = LinkedDataFrame({'a': d['tu.a'], 'b': d['tu.b'], 't': d['tu.t'], 'zone': self.zone, 'row': np.arange(case['n'])},
                                index=m.decision_units)
        zones = LinkedDataFrame({'id': np.arange(37), 'v': self.zones})
        zones.set_fill_defaults(FLOAT_NAME=0.0)
        table.link_to(zones, 'z', on_self='zone', on_other='id')
        table.link_to(pd.DataFrame({'row': self.items, 'v': self.item_values}), 'y', on='row')
        for name in used:
            if name == 's':
                m.declare_number(name)
                m[name].assign(d['s'])
            elif name in ('vu', 'vc'):
                m.declare_vector(name, int(name == 'vc'))
                m[name].assign(pd.Series(d[name], index=m.decision_units if name == 'vu' else m.choices))
            elif name == 'tu':
                m.declare_table(name, 0)
                m[name].assign(table)
            elif name == 'tc':
                m.declare_table(name, 1)
                m[name].assign(pd.DataFrame({'v': d['tc.v'], 't': d['tc.t']}, index=m.choices))
            else:
                rows, cols, values = self.grids[name]
                m.declare_matrix(name, fill_value=0.25 if case['cover'] < 1 else 0.0)
                frame = pd.DataFrame(values, index=m.decision_units.take(rows), columns=m.choices.take(cols))
                m[name].assign(frame)
        return m

    def usable(self):
        """Sums without any matches are filled, which is not what is looked at here"""
        return self.found.all() or not any('y.sum' in t for t in self.texts)


    def permuted(self, order):
        """The same model with its units in another order"""
        import copy
        import numpy as np
        new = copy.copy(self)
        new.units = self.units.take(order)
        new.data = {k: v[order] if k in ('vu', 'm', 'm2') or k.startswith('tu.') else v for k, v in self.data.items()}
        new.zone, new.found, new.utilities = self.zone[order], self.found[order], self.utilities[order]
        back = np.argsort(order)
        new.items = back[self.items]
        new.grids = {k: (back[rows], cols, values) for k, (rows, cols, values) in self.grids.items()}
        return new


def _words(text):
    import re
    return re.findall(r'(?<![\w.])[A-Za-z_]\w*', re.sub(r'"[^"]*"', ' ', text))


def stochastic(m, case, **kw):
    import numpy as np
    p, top, terms = m.run_stochastic(n_threads=case['threads'], clear_scope=False, **kw)
    return np.asarray(p.values, 'f8'), np.asarray(top.values, 'f8'), np.asarray(terms.values, 'f8'), list(p.index), list(p.columns)


def check_results(ctx, lm, what, got, utilities, rows=None):
    """The results of the given rows are those of the given utilities"""
    import numpy as np
    p, top, terms, index, columns = got
    case, tree = lm.case, lm.tree
    units = list(lm.units if rows is None else lm.units[rows])
    ctx.require(index == units, lambda: f'{what}: index {index[:10]}... is not that of the units')
    d = models.depth(tree)
    ctx.require(columns == [models.label(x, d) for x in models.leaves(tree)], f'{what}: columns')
    rel = 1e-4 if case['precision'] == 4 else 1e-9
    paths = [tuple(x) for x, _ in tree]
    scale = {tuple(x): s for x, s in tree}
    parents = {x[:-1] for x in paths if len(x) > 1}
    leaf = [j for j, x in enumerate(paths) if x not in parents]
    want = utilities / np.array([scale.get(x[:-1], 1.0) for x in paths])[None, :]
    with np.errstate(divide='ignore'):
        have = np.log(terms[:, leaf])
    bad = np.argwhere(~(np.abs(have - want[:, leaf]) <= rel * (1 + np.abs(want[:, leaf]))))
    if len(bad):
        i, j = bad[0]
        ctx.fail(f'{what}: the utility of {paths[leaf[j]]} for unit {i} ({units[i]}) comes out as {have[i, j]}, expected '
                 f'{want[i, leaf[j]]} ({len(bad)} cells differ, expressions {lm.texts}, {case})')
    step = max(1, len(units) // 12)
    for i in list(range(0, len(units), step)) + [len(units) - 1]:
        ep, etop, eterms, _ = models.logit(tree, list(utilities[i]))
        ctx.require(abs(top[i] - etop) <= 10 * rel * (1 + abs(etop)), lambda: f'{what}: logsum of unit {i} is {top[i]}, not {etop}')
        e = np.array([ep[tuple(x)] for x in models.leaves(tree)])
        ctx.require(bool(np.all(np.abs(p[i] - e) <= 10 * rel)), lambda: f'{what}: probabilities of unit {i}')
    ctx.require(bool(np.all(np.abs(p.sum(axis=1) - 1) < 10 * rel)), f'{what}: probabilities do not sum to 1')


def label(case, ctx, lm):
    ctx.nontrivial = True
    ctx.label_if(case['n'] > 1000, 'more than 1000 units')
    ctx.label_if(lm.c > 100, 'more than 100 choices')
    ctx.label_if(models.depth(lm.tree) > 1, 'nested')


def prepare(case, ctx):
    lm = LargeModel(case)
    if not lm.usable():
        # Give every unit an item of its own
        import numpy as np
        n = case['n']
        lm.items[:n] = np.arange(n)
        lm.items[n + 1] = lm.items[n]
        total = np.bincount(lm.items, weights=lm.item_values, minlength=n)
        change = 0.25 * (total - lm.data['tu.y.sum(v)']) / 4
        for k, t in enumerate(case['exprs']):
            if 'y.sum' in TEMPLATES[t]:
                lm.values[k] = lm.values[k] + change[:, None]
        lm.utilities = sum(lm.values)
        lm.data['tu.y.sum(v)'] = total
        lm.found[:] = True
    return lm


def run_sums(case, ctx):
    """C06: the sum of all the expressions"""
    lm = prepare(case, ctx)
    m = ctx.sut('building the model', lm.build)
    got = ctx.sut(f'running {lm.texts}', stochastic, m, case)
    check_results(ctx, lm, 'run', got, lm.utilities)
    label(case, ctx, lm)


def run_groups(case, ctx):
    """C10: the sum of all groups, pre-evaluated or not"""
    lm = prepare(case, ctx)
    m = ctx.sut('building the model', lm.build, True)
    groups = case['groups'][:len(lm.texts)]
    zero = 0 * lm.utilities
    totals = {g: sum([v for v, k in zip(lm.values, groups) if k == g], zero) for g in (0, 1, 2)}
    have = sorted({g for g in groups if g})
    import numpy as np
    before = zero
    for g in have:
        if case['mask'] & g:
            ctx.sut(f'pre-evaluating group g{g}', m.preval, f'g{g}', n_threads=case['threads'])
            before = before + totals[g]
        elif case['mask'] > 2:
            got = ctx.sut(f'running group g{g}', stochastic, m, case, group=f'g{g}')
            check_results(ctx, lm, f'group g{g}', got, before + totals[g])
    got = ctx.sut('running everything', stochastic, m, case)
    check_results(ctx, lm, 'everything', got, lm.utilities)
    label(case, ctx, lm)
    ctx.label_if(bool(have), 'with groups')


def run_subset(case, ctx):
    """C11: a subset copy"""
    import numpy as np
    import pandas as pd
    lm = prepare(case, ctx)
    m = ctx.sut('building the model', lm.build)
    n = case['n']
    r = np.random.RandomState(case['seed'] + 1)
    mask = [r.rand(n) < 0.5, np.arange(n) < n // 2, np.arange(n) >= n - 3, np.ones(n, bool), r.rand(n) < 0.02, np.arange(n) % 3 == 1][
        case['mask']].copy()
    if not mask.any():
        mask[n - 1] = True
    partial = None
    if case['shuffle']:
        partial = r.randint(-8, 9, (n, lm.c)) / 8
        ctx.sut('add_partial_utilities()', m.add_partial_utilities,
                pd.DataFrame(partial.astype(f'f{case["precision"]}'), index=m.decision_units, columns=m.choices))
    total = lm.utilities + (0 if partial is None else partial)
    sub = ctx.sut('copy_subset()', m.copy_subset, pd.Series(mask, index=m.decision_units))
    got = ctx.sut('running the subset', stochastic, sub, case)
    check_results(ctx, lm, 'subset', got, total[mask], mask)
    got = ctx.sut('running the original', stochastic, m, case)
    check_results(ctx, lm, 'original', got, total)
    label(case, ctx, lm)


def run_peers(case, ctx):
    """C04: threads, other units and their order"""
    import numpy as np
    lm = prepare(case, ctx)
    m = ctx.sut('building the model', lm.build)

    def discrete(threads, model=m):
        r, ls = model.run_discrete(random_seed=case['seed'], n_draws=2 if case['shuffle'] else 1, astype='index', squeeze=False,
                                   n_threads=threads, clear_scope=False)
        return np.asarray(r.values), np.asarray(ls.values, 'f8')
    other = case['threads'] % 4 + 1
    (c1, l1), (c2, l2) = (ctx.sut(f'discrete run with {t} threads', discrete, t) for t in (case['threads'], other))
    where = f'({case})'
    ctx.require(bool(np.array_equal(c1, c2)), lambda: f'choices with {case["threads"]} and {other} threads differ for the units '
                                                      f'{np.argwhere((c1 != c2).any(axis=1)).ravel()[:10].tolist()} {where}')
    ctx.require(bool(np.array_equal(l1, l2)), lambda: f'logsums with {case["threads"]} and {other} threads differ {where}')
    one = ctx.sut('stochastic run', stochastic, m, case)
    two = ctx.sut('stochastic run', stochastic, m, dict(case, threads=other))
    order = np.random.RandomState(case['seed'] + 3).permutation(case['n'])
    three = ctx.sut('stochastic run with the units in another order', stochastic, lm.permuted(order).build(), case)
    rtol = 1e-4 if case['precision'] == 4 else 1e-10
    for k, name in enumerate(('probabilities', 'logsums', 'logsum terms')):
        ctx.require(np.allclose(one[k], two[k], rtol=rtol), f'{name} depend on the threads {where}')
        bad = np.argwhere(~np.isclose(one[k][order], three[k], rtol=rtol))
        ctx.require(not len(bad), lambda: f'{name} depend on the order of the units, at {bad[:5].tolist()} {where}')
    label(case, ctx, lm)
